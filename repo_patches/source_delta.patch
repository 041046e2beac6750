From 2f9cebdea5a4eb14b6b67b1fbe9c42bd1b47bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 01/35] fix: row-wise creation of a BCRSMatrix without rows

createbegin() marks the matrix as built, so that createend() threw and the
usual creation loop could not be run for a matrix without rows.
---
 dune/istl/bcrsmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..7726539 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -961,7 +961,8 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        // (a matrix without rows has already been marked as built by createbegin())
+        if (i==0 && Mat.ready != building && !(Mat.ready == built && Mat.N()==0))
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-- 
2.43.0


From ae22dfdaf3ce7ee78253f4111cb625809c0b02f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 02/35] fix: deallocate individually allocated rows of a
 BCRSMatrix with their size

The rows are allocated with their number of entries, but were handed back
to the allocator with size 1.
---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 7726539..1d24340 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2194,8 +2194,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 460768264eddc3505f05bc7e91215574a2dc8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 03/35] fix: scaling a BCRSMatrix with individually allocated
 rows

nonzeroes() caches the number of entries in nnz_, hence nnz_ > 0 does not
imply that there is one array with all entries: operator*= and operator/=
dereferenced a null pointer after a call of nonzeroes() or a copy.
---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 1d24340..731693e 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1518,7 +1518,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
@@ -1546,7 +1546,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
-- 
2.43.0


From e18c865877bb84bac50600fc277318e917a709b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 04/35] fix: copying a BCRSMatrix built in random mode with too
 large row sizes

Copies share the column indices and assume that they are contiguous. With
rows shorter than announced this gave a wrong pattern and overwrote the
column indices of the original matrix.
---
 dune/istl/bcrsmatrix.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 731693e..bc02cf8 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1294,6 +1294,17 @@ namespace Dune {
         }
       }
 
+      // close the gaps left by rows that are shorter than announced: the column
+      // indices have to be contiguous like the entries, as copies share them
+      size_type* jptr = j_.get();
+      for (size_type i=0; i<n; ++i)
+        if (r[i].getsize() > 0) {
+          size_type* first = r[i].getindexptr();
+          size_type* last = first + r[i].getsize();
+          r[i].setindexptr(jptr);
+          jptr = std::copy(first,last,jptr);
+        }
+
       allocateData();
       setDataPointers();
 
-- 
2.43.0


From 4ea648860f6f317ab1025eff2aa8d16a64d55e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 05/35] fix: creation of a VariableBlockVector without blocks

The create iterator accessed the first block of an empty vector.
---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..ee9bdd3 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size()>0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From 41e570984cfdb1dab14e18cb41241a2051161e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 06/35] fix: inner sweeps of nested SOR and Jacobi steps start
 from a zero correction

The inner sweep on a diagonal block solves for a correction. It was started
from the block of x or from the correction of another row, so that the exact
solution was not a fixed point, and it wrote out of bounds when the first
block was smaller than the one treated.
---
 dune/istl/gsetc.hh | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..7171d7e 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -424,10 +424,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
       {
@@ -451,6 +447,8 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          v = x[i.index()];           // adapt the structure of v to that of x_i
+          v = 0;           // the inner sweep computes a correction, it starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -467,10 +465,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.beforeBegin();
       for (rowiterator i=A.beforeEnd(); i!=endi; --i)
       {
@@ -494,6 +488,8 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          v = x[i.index()];           // adapt the structure of v to that of x_i
+          v = 0;           // the inner sweep computes a correction, it starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
@@ -532,6 +528,7 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          v[i.index()] = 0;           // the inner step computes a correction, it starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::dbjac(*diag,v[i.index()],rhs,w);
         }
       }
-- 
2.43.0


From b10d794bc69f29698373ac4015e2abf565b18a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 07/35] fix: relaxation sweeps of MultiTypeBlockMatrix

dbgs subtracted the diagonal block times x from the right hand side although
the result replaces x; bsorf and bsorb started inner sweeps for a correction
from x.
---
 dune/istl/multitypeblockmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..5519fbe 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -516,6 +516,7 @@ namespace Dune {
             decltype(std::get<crow>( std::get<crow>(A)))
           >::type
         >::type;
+      std::get<crow>( std::get<crow>(A)).umv(std::get<crow>(x), rhs);  //the diagonal block is not part of the right side
       algmeta_itsteps<I-1,M>::dbgs(std::get<crow>( std::get<crow>(A)), std::get<crow>(x),rhs,w);
       MultiTypeBlockMatrix_Solver<I,crow+1,remain_row-1>::dbgs(A,x,v,b,w); //next row
     }
@@ -544,6 +545,7 @@ namespace Dune {
             decltype(std::get<crow>( std::get<crow>(A)))
           >::type
         >::type;
+      std::get<crow>(v) = 0;                                          //the inner sweep computes a correction
       algmeta_itsteps<I-1,M>::bsorf(std::get<crow>( std::get<crow>(A)), std::get<crow>(v),rhs,w);
       std::get<crow>(x).axpy(w,std::get<crow>(v));
       MultiTypeBlockMatrix_Solver<I,crow+1,remain_row-1>::bsorf(A,x,v,b,w);        //next row
@@ -571,6 +573,7 @@ namespace Dune {
             decltype(std::get<crow>( std::get<crow>(A)))
           >::type
         >::type;
+      std::get<crow>(v) = 0;                                          //the inner sweep computes a correction
       algmeta_itsteps<I-1,M>::bsorb(std::get<crow>( std::get<crow>(A)), std::get<crow>(v),rhs,w);
       std::get<crow>(x).axpy(w,std::get<crow>(v));
       MultiTypeBlockMatrix_Solver<I,crow-1,remain_row-1>::bsorb(A,x,v,b,w);        //next row
-- 
2.43.0


From d9698f191022d37af7eabb8b31d0b644491e055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 08/35] fix: level-n ILU decomposition into a matrix with a
 given number of nonzeros

---
 dune/istl/ilu.hh | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..3ce2398 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -180,11 +180,12 @@ namespace Dune {
       typedef typename M::ConstRowIterator crowiterator;
       typedef typename M::ConstColIterator ccoliterator;
       typedef typename M::CreateIterator createiterator;
-      typedef typename M::field_type K;
       typedef std::map<size_t, int> map;
       typedef typename map::iterator mapiterator;
 
-      // symbolic factorization phase, store generation number in first matrix element
+      // symbolic factorization phase, store the generation numbers of all rows
+      // (the entries of ILU are not available yet if the number of nonzeros was given)
+      std::vector<std::vector<int> > generations(A.N());
       crowiterator endi=A.end();
       createiterator ci=ILU.createbegin();
       for (crowiterator i=A.begin(); i!=endi; ++i)
@@ -204,10 +205,7 @@ namespace Dune {
             coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
             for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
             {
-              // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-              // starting from C++11, we can use std::abs to always return a real value, even if it is double/float
-              using std::abs;
-              int generation = (int) Simd::lane(0, abs( firstMatrixElement(*kj) ));
+              int generation = generations[(*ik).first][kj.offset()];
               if (generation<n)
               {
                 mapiterator ij = rowpattern.find(kj.index());
@@ -225,10 +223,9 @@ namespace Dune {
           ci.insert((*ik).first);
         ++ci;           // now row i exist
 
-        // write generation index into entries
-        coliterator endILUij = ILU[i.index()].end();;
-        for (coliterator ILUij=ILU[i.index()].begin(); ILUij!=endILUij; ++ILUij)
-          Simd::lane(0, firstMatrixElement(*ILUij)) = (Simd::Scalar<K>) rowpattern[ILUij.index()];
+        // store generations of row i in the order of its entries
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
+          generations[i.index()].push_back((*ik).second);
       }
 
       // copy entries of A
-- 
2.43.0


From 33ad7494223102940ceb536d9e68ed572c110d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 09/35] fix: restore the reduction of an IterativeSolver when
 apply throws

---
 dune/istl/solver.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..f48aaab 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -377,7 +377,13 @@ namespace Dune
     {
       scalar_real_type saved_reduction = _reduction;
       _reduction = reduction;
-      this->apply(x,b,res);
+      try {
+        this->apply(x,b,res);
+      }
+      catch (...) {
+        _reduction = saved_reduction;
+        throw;
+      }
       _reduction = saved_reduction;
     }
 
-- 
2.43.0


From 494d019ba1970ce4b2220dd56b4abaf0874235cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 10/35] fix: GMRes solvers use the reduction passed to apply

---
 dune/istl/solvers.hh | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..e18edb3 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -899,6 +899,9 @@ namespace Dune {
       _restart(restart)
     {}
 
+    // don't shadow four-argument version of apply defined in the base class
+    using IterativeSolver<X,Y>::apply;
+
     /*!
        \brief Apply inverse operator.
 
@@ -908,19 +911,6 @@ namespace Dune {
              breakdown.
      */
     void apply (X& x, Y& b, InverseOperatorResult& res) override
-    {
-      apply(x,b,Simd::max(_reduction),res);
-    }
-
-    /*!
-       \brief Apply inverse operator.
-
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
-
-       \note Currently, the RestartedGMResSolver aborts when it detects a
-             breakdown.
-     */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
@@ -1161,12 +1151,12 @@ namespace Dune {
     /*!
        \brief Apply inverse operator.
 
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
+       \copydoc InverseOperator::apply(X&,Y&,InverseOperatorResult&)
 
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
-- 
2.43.0


From 0a140c41d750ae6607e6d9d89f8530840cf10a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 11/35] fix: GMRes solvers restart before a last cycle of one
 iteration

---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index e18edb3..d97e4b2 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1003,8 +1003,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if j <= _maxit (do not restart after the last iteration)
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1248,8 +1248,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if still j <= _maxit (do not restart after the last iteration)
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From 43cbd442015d2769cbbba44f1a2f9fc122ffd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 12/35] fix: GeneralizedPCG and FCG solvers stop as soon as
 they converge

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index d97e4b2..cc795ad 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1448,7 +1448,8 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
@@ -1616,7 +1617,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
-- 
2.43.0


From 3a820a7945fd1229d036188d6526d2eb8cad02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 13/35] fix: GeneralizedPCG solver does no iteration if none is
 allowed

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cc795ad..8bfcc08 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1392,7 +1392,7 @@ private:
       p[0].reset(new X(x));
 
       real_type def = _sp->norm(b);    // compute norm
-      if(iteration.step(0, def)){
+      if(iteration.step(0, def) || _maxit < 1){
         _prec->post(x);
         return;
       }
-- 
2.43.0


From 713686b29c68b034076958c1d4764b1f21a9bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 14/35] fix: number of nonzeroes of a BCRSMatrix built with a
 too large estimate

nonzeroes() reported the number given to setSize() if more entries were
allowed than the row sizes announced, other than in row-wise mode.
---
 dune/istl/bcrsmatrix.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index bc02cf8..32896c2 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1287,7 +1287,6 @@ namespace Dune {
           if (j.index() >= m) {
             dwarn << "WARNING: size of row "<< i.index()<<" is "<<j.offset()<<". But was specified as being "<< (*i).end().offset()
                   <<". This means you are wasting valuable space and creating additional cache misses!"<<std::endl;
-            nnz_ -= ((*i).end().offset() - j.offset());
             r[i.index()].setsize(j.offset());
             break;
           }
@@ -1305,6 +1304,9 @@ namespace Dune {
           jptr = std::copy(first,last,jptr);
         }
 
+      // the announced row sizes or number of nonzeroes may have been too large
+      nnz_ = jptr - j_.get();
+
       allocateData();
       setDataPointers();
 
-- 
2.43.0


From dcaa2902f6774c1f968d4ada5106fb3adc556c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 15/35] fix: number of nonzeroes of an implicitly built
 BCRSMatrix without rows

---
 dune/istl/bcrsmatrix.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 32896c2..7d6abde 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1504,6 +1504,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
-- 
2.43.0


From b4c52ec6161633beac1e11a1c33a8166aa571f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 16/35] fix: resize default-constructed and copied BTDMatrix
 and BDMatrix

setSize() builds the pattern in random mode, but a default-constructed matrix
has no build mode and a copied or assigned one is in row-wise mode, so that
setSize() threw BCRSMatrixError.
---
 dune/istl/bdmatrix.hh  | 3 +++
 dune/istl/btdmatrix.hh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..d869f1e 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -84,6 +84,9 @@ namespace Dune {
                                      size,   // columns
                                      size);  // nonzeros
 
+      // the matrix may have been default-constructed or copied
+      this->setBuildMode(BCRSMatrix<B,A>::random);
+
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
 
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..fc70d19 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -81,6 +81,9 @@ namespace Dune {
                                      size,   // columns
                                      nonZeros);
 
+      // the matrix may have been default-constructed or copied
+      this->setBuildMode(BCRSMatrix<B,A>::random);
+
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
       for (size_t i=0; i<size; i++)
-- 
2.43.0


From 09607b2663d3071c37d48679abdb1a0ad4116506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 17/35] fix: size returned by flatMatrixForEach for matrices
 without rows

---
 dune/istl/foreach.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/foreach.hh b/dune/istl/foreach.hh
index df7ec90..c7000f4 100644
--- a/dune/istl/foreach.hh
+++ b/dune/istl/foreach.hh
@@ -182,7 +182,7 @@ std::pair<std::size_t,std::size_t> flatMatrixForEach(Matrix&& matrix, F&& f, std
     else
     {
       std::size_t r = 0, c = 0;
-      std::size_t nRows, nCols;
+      std::size_t nRows = 0, nCols = 0;
 
       Hybrid::forEach(Dune::range(ForEach::rows(matrix)), [&](auto i) {
         c = 0;
-- 
2.43.0


From c5e03745512f898876a42349323ff791829d1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 18/35] fix: copying, assigning and freeing of BCCSMatrix

---
 dune/istl/bccsmatrix.hh | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dune/istl/bccsmatrix.hh b/dune/istl/bccsmatrix.hh
index 39103f8..e323e2f 100644
--- a/dune/istl/bccsmatrix.hh
+++ b/dune/istl/bccsmatrix.hh
@@ -108,23 +108,32 @@ namespace Dune::ISTL::Impl
       return colstart;
     }
 
+    /** \brief Copy constructor */
+    BCCSMatrix(const BCCSMatrix& mat)
+    : BCCSMatrix()
+    {
+      *this = mat;
+    }
+
     /** \brief Assignment operator */
     BCCSMatrix& operator=(const BCCSMatrix& mat)
     {
+      if(this==&mat)
+        return *this;
       if(N_+M_+Nnz_!=0)
         free();
       N_=mat.N_;
       M_=mat.M_;
       Nnz_= mat.Nnz_;
-      if(M_>0) {
-        colstart=new size_type[M_+1];
+      if(M_>0 && mat.colstart) {
+        colstart=new Index[M_+1];
         for(size_type i=0; i<=M_; ++i)
           colstart[i]=mat.colstart[i];
       }
 
-      if(Nnz_>0) {
+      if(Nnz_>0 && mat.values) {
         values = new B[Nnz_];
-        rowindex = new size_type[Nnz_];
+        rowindex = new Index[Nnz_];
 
         for(size_type i=0; i<Nnz_; ++i)
           values[i]=mat.values[i];
@@ -141,6 +150,9 @@ namespace Dune::ISTL::Impl
       delete[] values;
       delete[] rowindex;
       delete[] colstart;
+      values = nullptr;
+      rowindex = nullptr;
+      colstart = nullptr;
       N_ = 0;
       M_ = 0;
       Nnz_ = 0;
-- 
2.43.0


From 402a3ceb6d0532453b410f00a1594c534c46d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 19/35] fix: sparse matrix product with a result without rows
 dereferenced the end

---
 dune/istl/matrixmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmatrix.hh b/dune/istl/matrixmatrix.hh
index 19ac9e1..7fb95f6 100644
--- a/dune/istl/matrixmatrix.hh
+++ b/dune/istl/matrixmatrix.hh
@@ -330,7 +330,8 @@ namespace Dune
         : mat(mat_), row(mat.begin())
       {
         mat=0;
-        col=row->begin();
+        if(row!=mat.end())
+          col=row->begin();
       }
       void nextRow()
       {
-- 
2.43.0


From 668bc12d501e555f653c39bec9bc7bd050cba17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 20/35] fix: compress() with a zero average wrote through a
 null pointer

---
 dune/istl/bcrsmatrix.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 7d6abde..03ece35 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1403,6 +1403,12 @@ namespace Dune {
       if (ready!=building)
         DUNE_THROW(InvalidStateException,"You may only call compress() at the end of the 'building' stage");
 
+      //with an expected number of zero entries per row there is no memory to compress into
+      if (allocationSize_ == 0 && !overflow.empty())
+        DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
+                   "No memory allocated for BCRSMatrix to compress() into!"
+                   "Please increase the average number of entries per row.");
+
       //calculate statistics
       CompressionStatistics stats;
       stats.overflow_total = overflow.size();
-- 
2.43.0


From 1f28b2869366be46dcb0e0348a7d88ce1e314541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 21/35] fix: overflow entries of an abandoned implicit build
 leaked into the next build

---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 03ece35..f681bdb 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2230,6 +2230,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // discard entries of an implicit build that has not been completed
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From 2bb1bbb12c7b7cf935e5f8c4326e651098ff548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 22/35] fix: number of nonzeroes of a row-wise built matrix
 without rows

---
 dune/istl/bcrsmatrix.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index f681bdb..8a04705 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -967,8 +967,11 @@ namespace Dune {
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
         if(i==0 && _Mat.N()==0)
+        {
           // empty Matrix is always built.
-           Mat.ready = built;
+          Mat.nnz_ = 0;
+          Mat.ready = built;
+        }
       }
 
       //! prefix increment
-- 
2.43.0


From 6d815e13644c07b4fff33a50e9a3c1f718e58399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 23/35] fix: setIndices wrote behind the end of the row when
 passed too many indices

---
 dune/istl/bcrsmatrix.hh | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 8a04705..4ca6f0e 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1237,12 +1237,16 @@ namespace Dune {
     {
       size_type row_size = r[row].size();
       size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      size_type count = 0;
+      // copy the indices, but never write behind the end of the row
+      for (; begin != end; ++begin, ++count)
+        if (count < row_size)
+          col_begin[count] = *begin;
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      if (count != row_size)
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries (" << count << ")");
     }
 
 
@@ -1260,13 +1264,17 @@ namespace Dune {
     {
       size_type row_size = r[row].size();
       size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      size_type count = 0;
+      // copy the indices, but never write behind the end of the row
+      for (; begin != end; ++begin, ++count)
+        if (count < row_size)
+          col_begin[count] = *begin;
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      if (count != row_size)
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
-      std::sort(col_begin,col_end);
+                   << ") does not match number of passed entries (" << count << ")");
+      std::sort(col_begin,col_begin+row_size);
     }
 
     //! indicate that all indices are defined, check consistency
-- 
2.43.0


From 6dbfc5f04bf52eaccab499d65dbf484b9d99f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 24/35] fix: inverse iteration without shift ignored
 avoidLinSolverCrime

---
 dune/istl/eigenvalue/poweriteration.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c345dd8..7f2251a 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -357,7 +357,8 @@ namespace Dune
                                        BlockVector& x, Real& lambda) const
     {
       constexpr Real gamma = 0.0;
-      applyInverseIteration(gamma,epsilon,solver,x,lambda);
+      applyInverseIteration<ISTLLinearSolver,avoidLinSolverCrime>
+        (gamma,epsilon,solver,x,lambda);
     }
 
     /**
-- 
2.43.0


From d4a0d3c3f5dcf4a4e2936208a299c33ad83501fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 25/35] fix: eigenvalue iterations returned NaN when an iterate
 vanished

---
 dune/istl/eigenvalue/poweriteration.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index 7f2251a..c5c158c 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -275,7 +275,7 @@ namespace Dune
       m_.mv(x,y);
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -426,7 +426,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -554,7 +554,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -727,7 +727,7 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From 7a52452eac80a3e5fd229156791a0377e4c29199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 26/35] fix: iteration matrix requested after a shift was not
 shifted

---
 dune/istl/eigenvalue/poweriteration.hh | 42 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c5c158c..c85b933 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -945,9 +945,13 @@ namespace Dune
      */
     inline const BCRSMatrix& getIterationMatrix () const
     {
-      // create iteration matrix on demand
+      // create iteration matrix on demand, using the current shift mu_
       if (!itMatrix_)
+      {
         itMatrix_ = std::make_unique<BCRSMatrix>(m_);
+        if (mu_ != 0.0)
+          shiftIterationMatrix();
+      }
 
       // return iteration matrix
       return *itMatrix_;
@@ -993,27 +997,33 @@ namespace Dune
       // update iteration matrix when needed
       if (itMatrix_)
       {
-        // iterate over entries in iteration matrix diagonal
-        constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
-        constexpr int colBlockSize = BCRSMatrix::block_type::cols;
-        for (typename BCRSMatrix::size_type i = 0;
-             i < itMatrix_->M()*rowBlockSize; ++i)
-        {
-          // access m_[i,i] where i is the flat index of a row/column
-          const Real& m_entry = m_
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // access *itMatrix[i,i] where i is the flat index of a row/column
-          Real& entry = (*itMatrix_)
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // change current entry in iteration matrix diagonal
-          entry = m_entry - mu_;
-        }
+        shiftIterationMatrix();
         // notify linear solver about change of the iteration matrix object
         SolverHelper<ISTLLinearSolver,BCRSMatrix>::setMatrix
           (solver,*itMatrix_);
       }
     }
 
+    //! Set the diagonal of the iteration matrix to that of (m_ - mu_*I).
+    inline void shiftIterationMatrix () const
+    {
+      // iterate over entries in iteration matrix diagonal
+      constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
+      constexpr int colBlockSize = BCRSMatrix::block_type::cols;
+      for (typename BCRSMatrix::size_type i = 0;
+           i < itMatrix_->M()*rowBlockSize; ++i)
+      {
+        // access m_[i,i] where i is the flat index of a row/column
+        const Real& m_entry = m_
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // access *itMatrix[i,i] where i is the flat index of a row/column
+        Real& entry = (*itMatrix_)
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // change current entry in iteration matrix diagonal
+        entry = m_entry - mu_;
+      }
+    }
+
   protected:
     // parameters related to iterative eigenvalue algorithms
     const BCRSMatrix& m_;
-- 
2.43.0


From f70a412cf226aa2741eeaa9527292b703d103f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 27/35] fix: parallel scalar product did not conjugate its
 first argument

OwnerOverlapCopyCommunication::dot used operator* of the blocks, which is
bilinear, while norm, SeqScalarProduct and the vectors use the conjugating
dot.
---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..601dc4e 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From fa8b54947b823788258ba2bcfcda630a9bcd8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 28/35] fix: search for a remote index read behind the end of
 the index set

The constructor taking an IndexInfoFromGrid dereferenced the iterator before
comparing it with the end, a crash for an empty index set instead of the
exception announced in the next line.
---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 601dc4e..dea5934 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From ad54bc396e8684e51b42e3e8695de9c456368a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:43 +0000
Subject: [PATCH 29/35] fix: complex matrices were written in a form that
 cannot be read back

The matrix reader (like the MatrixMarket format) expects real and imaginary
part as two numbers, the writer printed (re,im).
---
 dune/istl/matrixmarket.hh | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..bfd5a7b 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1025,6 +1025,20 @@ namespace Dune
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
+  namespace MatrixMarketImpl
+  {
+    // Print a number of a matrix. The parts of a complex number are
+    // separate numbers without parentheses.
+    template<typename T>
+    void mm_print_number(const T& number, std::ostream& ostr)
+    {
+      if constexpr (is_complex<T>::value)
+        ostr << number.real() << " " << number.imag();
+      else
+        ostr << number;
+    }
+  } // end namespace MatrixMarketImpl
+
   // Print a scalar entry
   template<typename B>
   void mm_print_entry(const B& entry,
@@ -1033,13 +1047,20 @@ namespace Dune
                       std::ostream& ostr)
   {
     if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+    {
+      ostr << rowidx << " " << colidx << " ";
+      MatrixMarketImpl::mm_print_number(entry, ostr);
+      ostr << std::endl;
+    }
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
-        for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+        for (auto col = row->begin(); col != row->end(); ++col, ++coli) {
+          ostr<< rowidx<<" "<<coli<<" ";
+          MatrixMarketImpl::mm_print_number(*col, ostr);
+          ostr<<std::endl;
+        }
       }
     }
   }
-- 
2.43.0


From 76986708ab9e1f696083ad52ac301d1f132902b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 30/35] fix: truncated and inconsistent matrix market files
 were read without an error

Numbers that could not be read were taken for zero (or left uninitialised in
the header), indices outside of the matrix were only checked by assertions,
the one for the row with the number of columns of a block, and then used to
write behind the end of the rows.
---
 dune/istl/matrixmarket.hh | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index bfd5a7b..7ec3e9b 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,9 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -779,20 +782,25 @@ namespace Dune
 
       auto readloop = [&] (auto symmetryFixup) {
         for(std::size_t i = 0; i < entries; ++i) {
-          std::size_t row;
+          std::size_t row=0;
           IndexData<D> data;
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries << "!");
+          if(row>=matrix.N()*brows || data.index>=matrix.M()*bcols)
+            DUNE_THROW(MatrixMarketFormatError, "Entry (" << row+1 << "," << data.index+1 << ") is outside of the matrix!");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
         }
       };
 
+      if(mmHeader.structure!=general && matrix.N()*brows!=matrix.M()*bcols)
+        DUNE_THROW(MatrixMarketFormatError, "Symmetric, skew-symmetric and hermitian matrices have to be square!");
+
       switch(mmHeader.structure)
       {
       case general:
@@ -864,10 +872,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
-
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
                              bool isVector)
@@ -889,11 +893,15 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
 
+    rows = cols = 0;
     istr >> rows;
 
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+
+    if(!istr)
+      throw MatrixMarketFormatError();
   }
 
   template<typename T, typename A>
@@ -964,6 +972,8 @@ namespace Dune
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
       mm_read_vector_entries(vector, rows, istr, l);
     }
+    if(rows>0 && !istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read all entries of the vector!");
   }
 
   /**
@@ -989,7 +999,7 @@ namespace Dune
     }
     skipComments(istr);
 
-    std::size_t rows, cols, entries;
+    std::size_t rows=0, cols=0, entries=0;
 
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
@@ -1005,6 +1015,9 @@ namespace Dune
 
     istr >>entries;
 
+    if(!istr)
+      throw MatrixMarketFormatError();
+
     std::size_t nnz, blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
-- 
2.43.0


From bff12bf913a05521fe7a4d4b115cb489af286a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 31/35] fix: number of matrix blocks was guessed from the
 number of entries of the matrix market file

The blocks were assumed to be dense and the diagonal of symmetric matrices
to be complete. Files not matching this could not be read. Count the blocks
after reading the entries, and reject sizes that do not fit to the block size.
---
 dune/istl/matrixmarket.hh | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 7ec3e9b..5b7b341 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -834,8 +834,20 @@ namespace Dune
                    "Only general, symmetric, skew-symmetric and hermitian is supported right now!");
       }
 
+      // Count the blocks. The number of entries does not determine it, as
+      // entries of a block or of the diagonal might be missing.
+      std::size_t nnz=0;
+      for(std::size_t i=0; i<matrix.N(); ++i)
+      {
+        std::set<std::size_t> blocks;
+        for(std::size_t brow=i*brows; brow<(i+1)*brows; ++brow)
+          for(const auto& data : rows[brow])
+            blocks.insert(data.index/bcols);
+        nnz+=blocks.size();
+      }
+      matrix.setSize(matrix.N(), matrix.M(), nnz);
+
       // Setup the matrix sparsity pattern
-      int nnz=0;
       for(typename Matrix::CreateIterator iter=matrix.createbegin();
           iter!= matrix.createend(); ++iter)
       {
@@ -844,7 +856,7 @@ namespace Dune
         {
           typedef typename std::set<IndexData<D> >::const_iterator Siter;
           for(Siter siter=rows[brow].begin(), send=rows[brow].end();
-              siter != send; ++siter, ++nnz)
+              siter != send; ++siter)
             iter.insert(siter->index/bcols);
         }
       }
@@ -1018,18 +1030,20 @@ namespace Dune
     if(!istr)
       throw MatrixMarketFormatError();
 
-    std::size_t nnz, blockrows, blockcols;
+    std::size_t blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
+    std::tie(blockrows, blockcols, std::ignore) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
+    if(blockrows*brows!=rows || blockcols*bcols!=cols)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
 
-    matrix.setSize(blockrows, blockcols, nnz);
+    matrix.setSize(blockrows, blockcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
 
     if(header.type==array_type)
-- 
2.43.0


From eed155b4ae2fa02de82f15c248670db8290cc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:44 +0000
Subject: [PATCH 32/35] fix: matrix market files with the wrong type of numbers
 were misread

Pattern files have no values, and complex entries consist of two numbers.
Reading them into a matrix with another type of numbers must not succeed.
---
 dune/istl/matrixmarket.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5b7b341..be99461 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1002,7 +1002,13 @@ namespace Dune
     using Matrix = Dune::BCRSMatrix<T,A>;
 
     MMHeader header;
-    if(!readMatrixMarketBanner(istr, header)) {
+    if(readMatrixMarketBanner(istr, header)) {
+      if(header.ctype==pattern)
+        DUNE_THROW(Dune::NotImplemented, "Matrices without values currently not supported!");
+      if((header.ctype==complex_type) != is_complex<typename Matrix::field_type>::value)
+        DUNE_THROW(MatrixMarketFormatError, "Real and complex matrices do not match!");
+    }
+    else {
       std::cerr << "First line was not a correct Matrix Market banner. Using default:\n"
                 << "%%MatrixMarket matrix coordinate real general"<<std::endl;
       // Go to the beginning of the file
-- 
2.43.0


From 44b167580ba048608b2dfb8f02901df4c109a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 33/35] fix: damaged index files were read without an error

A file that does not contain numbers where they are expected led to an
endless loop, and a truncated one to arbitrary indices.
---
 dune/istl/matrixmarket.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index be99461..9bb38b3 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1380,6 +1380,8 @@ namespace Dune
       file >>c;
       bool b;
       file >> b;
+      if(!file)
+        DUNE_THROW(MatrixMarketFormatError, "Could not read an entry of the index set!");
       pis.add(g,LocalIndexT(l,Attribute(c),b));
       lineFeed(file);
     }
@@ -1391,11 +1393,11 @@ namespace Dune
       if(s!="neighbours:")
         DUNE_THROW(MatrixMarketFormatError, "was expecting the string: \"neighbours:\"");
       std::set<int> nb;
-      while(!file.eof()) {
-        int i;
-        file >> i;
+      int i;
+      while(file >> i)
         nb.insert(i);
-      }
+      if(!file.eof())
+        DUNE_THROW(MatrixMarketFormatError, "Could not read a neighbour!");
       file.close();
       comm.ri.setNeighbours(nb);
     }
-- 
2.43.0


From f2834fe295a91222a444dc8217e23cb1d360519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:35 +0000
Subject: [PATCH 34/35] fix: vertex was left out of the coarsening when its
 neighbour is excluded

---
 dune/istl/paamg/aggregates.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..7dd0e4c 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2173,6 +2173,7 @@ namespace Dune
       Iterator end = graph_->endEdges(vertex);
       for(Iterator edge = graph_->beginEdges(vertex); edge != end; ++edge) {
         if(aggregates[edge.target()] != AggregatesMap<Vertex>::UNAGGREGATED &&
+           aggregates[edge.target()] != AggregatesMap<Vertex>::ISOLATED &&
            graph_->getVertexProperties(edge.target()).isolated() == graph_->getVertexProperties(edge.source()).isolated()) {
           if( graph_->getVertexProperties(vertex).isolated() ||
               ((edge.properties().depends() || edge.properties().influences())
-- 
2.43.0


From f751dc807c589d5abab4b5c87087880005fc24c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:48 +0000
Subject: [PATCH 35/35] fix: map to the coarsest aggregates crashed without
 coarser level

---
 dune/istl/paamg/matrixhierarchy.hh | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..f240ccd 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -748,7 +748,9 @@ namespace Dune
     {
       int levels=aggregatesMaps().size();
       int maxlevels=parallelInformation_.finest()->communicator().max(levels);
-      std::size_t size=(*(aggregatesMaps().begin()))->noVertices();
+      // Without coarser level there is only the (empty) map at the end of the list.
+      std::size_t size= levels>1 ? (*(aggregatesMaps().begin()))->noVertices()
+                        : matrices_.finest()->getmat().N();
       // We need an auxiliary vector for the consecutive prolongation.
       std::vector<std::size_t> tmp;
       std::vector<std::size_t> *coarse, *fine;
@@ -769,14 +771,18 @@ namespace Dune
 
       // Number the unknowns on the coarsest level consecutively for each process.
       if(levels==maxlevels) {
-        const AggregatesMap& map = *(*(++aggregatesMaps().rbegin()));
-        std::size_t m=0;
+        if(levels>1) {
+          const AggregatesMap& map = *(*(++aggregatesMaps().rbegin()));
+          std::size_t m=0;
 
-        for(typename AggregatesMap::const_iterator iter = map.begin(); iter != map.end(); ++iter)
-          if(*iter< AggregatesMap::ISOLATED)
-            m=std::max(*iter,m);
+          for(typename AggregatesMap::const_iterator iter = map.begin(); iter != map.end(); ++iter)
+            if(*iter< AggregatesMap::ISOLATED)
+              m=std::max(*iter,m);
 
-        coarse->resize(m+1);
+          coarse->resize(m+1);
+        }
+        else
+          coarse->resize(size);
         std::size_t i=0;
         srand((unsigned)std::clock());
         std::set<size_t> used;
-- 
2.43.0

