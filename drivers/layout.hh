// Layout constants the contracts need; computed by the compiler from the real classes (built with -fno-access-control).
#pragma once
#pragma clang diagnostic ignored "-Winvalid-offsetof"
#define LAY(name, T, mem) extern "C" { extern const unsigned long LAY_##name; const unsigned long LAY_##name = __builtin_offsetof(T, mem); }
#define LAYSIZE(name, T) extern "C" { extern const unsigned long LAY_##name; const unsigned long LAY_##name = sizeof(T); }
#define LAY_VEC(V) LAY(vec_n, V, n) LAY(vec_p, V, p) LAYSIZE(vec_size, V)
#define LAY_VECS(V) LAY_VEC(V) LAY(vec_st, V, storage_)
#define LAY_BCRS(M) LAY(bcrs_n, M, n) LAY(bcrs_m, M, m) LAY(bcrs_nnz, M, nnz_) LAY(bcrs_r, M, r) LAY(bcrs_a, M, a) LAY(bcrs_ready, M, ready) LAY(bcrs_alloc, M, allocationSize_) LAYSIZE(bcrs_size, M) \
  LAY(bcrs_row_n, M::row_type, n) LAY(bcrs_row_p, M::row_type, p) LAY(bcrs_row_j, M::row_type, j) LAYSIZE(bcrs_row_size, M::row_type)
