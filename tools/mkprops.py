#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a,b in mech],
                   state=[dict(name=a, meaning=b, where=c) for a,b,c in state], observe_at=list(observe), hook_needed=None)))
D='dune/istl/'
p('C01','Sparse matrix-vector products compute exactly the defining sums',
 'For every block-compressed sparse matrix A, every conforming x and y and every scalar, each of mv, umv, mmv, usmv, mtv, umtv, mmtv, usmtv, umhv, mmhv and usmhv leaves in every entry of y exactly the (plain, transposed or conjugate-transposed) sum over the stored entries of A, added to, subtracted from, scaled into or replacing the old y as its name says. Nothing but y is written, no index outside the arrays is touched, rows without entries and empty matrices included.',
 ['inputs','configurations'],'every sparsity pattern, every row and column count, every entry, vector and scalar value; scalar, complex and small dense block entries',
 'The tests compare a few fixed matrices; the statement ranges over all patterns (empty rows, rectangular shapes, repeated use of one column) and all values.',
 [D+'bcrsmatrix.hh'],[('row/column iterator loops of the product family',D+'bcrsmatrix.hh')],['the vector y after the call'])
p('C02','Dense and structured matrices implement the same linear maps',
 'For every dense block matrix (Matrix), multiple of the identity (ScaledIdentityMatrix) and 2x2 multi-type block matrix, each product method (mv, umv, mmv, usmv and the transposed and conjugate-transposed versions each class offers) adds to, subtracts from or replaces y by exactly the corresponding sum over all entries; transpose, matrix times matrix, matrix times vector, sums, differences and scalings of dense matrices have their textbook entries. Only the result object changes.',
 ['inputs','configurations'],'all shapes (also empty and rectangular) and all entry, vector and scalar values',
 'Tests use a handful of fixed sizes, mostly square, and real entries.',
 [D+'matrix.hh',D+'scaledidmatrix.hh',D+'multitypeblockmatrix.hh',D+'multitypeblockvector.hh'],[('nested index loops',D+'matrix.hh'),('static_for over rows and columns',D+'multitypeblockmatrix.hh')])
p('C03','Sparse element lookup answers exactly according to the stored pattern',
 'In every finished sparse matrix, exists(i,j) is true exactly when (i,j) belongs to the pattern, and row lookup (operator[] and find on a row) reaches the stored entry of (i,j) itself, with find returning end for positions outside the pattern. Lookups never read outside the row.',
 ['inputs'],'all patterns with strictly increasing column indices per row, all rows i and columns j, including empty rows and indices before the first and after the last entry',
 'A lookup is a binary search over arbitrary row contents; tests probe a few rows.',
 [D+'bcrsmatrix.hh',D+'basearray.hh'],[('compressed_base_array_unmanaged find/operator[]',D+'basearray.hh'),('exists',D+'bcrsmatrix.hh')])
p('C04','Every way of building a sparse matrix yields exactly the requested pattern',
 'Building in random mode (row sizes then indices in any order, duplicates ignored), in row-wise mode, in implicit mode (any insertion order, any overflow usage) or from a MatrixIndexSet yields a matrix whose rows contain exactly the requested columns once each, in increasing order, with the entries that were written; copying or assigning a matrix gives an equal, independent matrix and leaves the source unchanged. A build step used out of order, an index out of range or a row that overflows is reported by an exception where documented; compress() throws only when the documented guarantee on the averages and the overflow size is not met. Row windows, entry counts and nonzeroes() agree with the pattern whether or not the announced number of entries was exact.',
 ['histories','inputs'],'all sequences of build calls and all patterns',
 'Tests exercise one or two construction orders; the invariant must survive every order, over-allocation, duplicates and copies at any stage.',
 [D+'bcrsmatrix.hh',D+'matrixindexset.hh'],[('setrowsize/endrowsizes/addindex/endindices',D+'bcrsmatrix.hh'),('CreateIterator',D+'bcrsmatrix.hh'),('entry/compress',D+'bcrsmatrix.hh'),('add/exportIdx',D+'matrixindexset.hh')])
p('C05','Block vector arithmetic is the entrywise arithmetic of its name',
 'For every pair of conforming block vectors and every scalar, scalar assignment, +=, -=, *=, /=, axpy, the bilinear product, the scalar product dot (conjugating its first argument) and the one-, two- and infinity-norms have exactly the value given by their entrywise definition. Operations that modify one vector leave the other unchanged.',
 ['inputs','configurations'],'all lengths including zero and all entry values; real, complex and block entries, uniform and variable block sizes',
 'Tests check single small vectors.',
 [D+'bvector.hh',D+'vbvector.hh'],[('block_vector_unmanaged operators',D+'bvector.hh'),('VariableBlockVector',D+'vbvector.hh')])
p('C06','Triangular solves and relaxation sweeps satisfy their defining equations',
 'For every sparse matrix with invertible diagonal blocks and all vectors, the lower, upper and diagonal block solves (with and without unit diagonal and relaxation) return the exact solution v of the triangular system they name, where relaxation by w solves (D/w + L) v = d (the diagonal block is divided by w; with unit diagonal every entry is multiplied by w when it is computed), and one Jacobi, Gauss-Seidel (dbgs: w times the Gauss-Seidel iterate plus 1-w times the old x), forward or backward SOR sweep replaces x by the vector its splitting formula defines; on nested block levels the diagonal blocks are treated by the same sweep started from zero correction (dbgs: from the old block). The right hand side and the matrix are never modified.',
 ['inputs'],'all matrices with a stored invertible diagonal, all right hand sides, all start vectors, all relaxation factors',
 'The tests only check convergence on a Laplacian; a sweep that is subtly wrong in some row still converges.',
 [D+'gsetc.hh',D+'preconditioners.hh'],[('algmeta_btsolve, algmeta_bdsolve, algmeta_itsteps',D+'gsetc.hh'),('apply of SeqSOR, SeqSSOR, SeqJac',D+'preconditioners.hh')])
p('C07','Incomplete factorizations are applied and computed correctly',
 'The ILU back-solve (on the factorized matrix and on its split compressed-row form), the ILDL back-solve and the DILU back-solve return, for every factorized matrix and every defect, exactly the solution of the triangular systems stored in the factors. The zero-fill and level-k factorizations reproduce the entries of A at every position of their pattern, and DILU reproduces its diagonal.',
 ['inputs'],'all factorized matrices with invertible pivots, all defects, all fill levels',
 'Tests only observe that a preconditioned solver converges on a model problem.',
 [D+'ilu.hh',D+'dilu.hh',D+'ildl.hh'],[('blockILUBacksolve',D+'ilu.hh'),('blockILU0Decomposition',D+'ilu.hh'),('blockDILUBacksolve',D+'dilu.hh'),('bildl_backsolve',D+'ildl.hh')])
p('C08','Iterative solvers return an iterate consistent with the residual they report',
 'Whatever operator, preconditioner, scalar product and right hand side are supplied, when a solver (Richardson loop, gradient, CG, BiCGSTAB, MINRES, restarted GMRES, flexible GMRES, generalized PCG, restarted and complete flexible CG) returns, the right hand side argument of those solvers that overwrite it holds exactly b - A x for the returned x, and x differs from the initial guess only by the corrections the solver computed. Restarting, early convergence and reaching the iteration limit do not break this.',
 ['inputs','histories','configurations'],'all linear operators and preconditioners (also nonlinear or varying preconditioners), all right hand sides and initial guesses, all tolerances, iteration limits and restart lengths',
 'Tests run each solver on one or two matrices until convergence; premature exits, restarts and breakdowns are not reached.',
 [D+'solvers.hh',D+'solver.hh'],[('recurrences of x and b in apply',D+'solvers.hh')])
p('C09','Solver results and call protocol are truthful',
 'On return the result of every iterative solver says converged exactly when the last defect norm passed the requested reduction test or was below the absolute threshold, the reported iteration count never exceeds the maximum and the reported reduction is the quotient of last and first defect norm. The preconditioner is used only between one prepare and one clean-up call, and a one-off reduction passed to a solve leaves the configured reduction untouched, also when the solve throws.',
 ['histories','inputs','configurations'],'all sequences of defect norms the operator and preconditioner can produce, all iteration limits and reductions',
 'Tests look at converged problems only; the statement is about every history of norms, including failure and abort.',
 [D+'solver.hh',D+'solvers.hh'],[('Iteration::step and destructor',D+'solver.hh'),('apply(x,b,reduction,res)',D+'solver.hh'),('pre/post calls',D+'solvers.hh')])
p('C10','Incompatible solver components are rejected at construction',
 "Constructing an iterative solver from an operator, preconditioner and scalar product whose parallel categories differ (or, without a scalar product, are not sequential) throws InvalidSolverCategory, an inverse-operator preconditioner declared for another category than its solver's throws InvalidStateException, and a consistent combination never throws. No solve can therefore run on mixed categories.",
 ['configurations'],'all combinations of the three categories of operator, preconditioner and scalar product, for every constructor',
 'Tests construct consistent sequential combinations only.',
 [D+'solver.hh',D+'solvercategory.hh',D+'preconditioners.hh'],[('category checks in the IterativeSolver constructors',D+'solver.hh'),('InverseOperator2Preconditioner constructor',D+'preconditioners.hh')])
p('C11','Multigrid grid transfer and Galerkin coarsening are the aggregation maps',
 'For every aggregation, sequential restriction sums exactly the fine values of each aggregate into its coarse entry, prolongation adds the damped coarse value to every fine entry of the aggregate, and the Galerkin calculation gives the coarse matrix whose (I,J) entry is the sum of all fine entries between aggregate I and aggregate J; isolated vertices contribute to and receive nothing.',
 ['inputs'],'all aggregation maps, all fine matrices and vectors, all damping factors',
 'Tests run whole AMG cycles whose convergence hides local errors.',
 [D+'paamg/transfer.hh',D+'paamg/galerkin.hh'],[('restrictVector/prolongateVector',D+'paamg/transfer.hh'),('BaseGalerkinProduct::calculate',D+'paamg/galerkin.hh')])
p('C12','Sparse matrix-matrix products equal the mathematical product',
 'The products A*B, A*B^T and A^T*B of two sparse matrices have exactly the positions reachable through the two patterns (rows increasing, each once) and at each the sum of the entry products, for every pair of conforming patterns, also with empty operands; operands that do not conform are rejected by an exception. The transpose of a dense block matrix has entry (j,i) equal to entry (i,j). The operands are unchanged and the result may be any previously used matrix object (one in implicit build mode is rejected by an exception).',
 ['inputs','configurations'],'all pairs of conforming patterns, block shapes and values, all previous states of the result object',
 'Tests multiply one or two Laplacian matrices; patterns with empty rows, single matches and one-sided ends of rows are not reached.',
 [D+'matrixmatrix.hh',D+'matrix.hh'],[('NonzeroPatternTraverser',D+'matrixmatrix.hh'),('EntryAccumulator',D+'matrixmatrix.hh'),('MatrixInitializer, SparsityPatternInitializer',D+'matrixmatrix.hh'),('Matrix::transpose',D+'matrix.hh')])
p('C13','Flat traversal and compressed-column export enumerate every scalar once',
 'Visiting a nested block vector or block matrix entry by entry calls the visitor exactly once for every stored scalar entry, with the flat row and column index given by the sum of the sizes of all preceding blocks, and returns the total flat size; exporting a block matrix (or the square submatrix of a set of its rows) to compressed-column form stores exactly these entries, columns in order and rows increasing, and a copied or assigned compressed-column matrix is equal and independent. Empty containers report size zero.',
 ['inputs','configurations'],'all block sizes, nesting depths and patterns, all row subsets',
 'Tests visit a few small containers; the offsets must be right for every shape.',
 [D+'foreach.hh',D+'bccsmatrixinitializer.hh',D+'bccsmatrix.hh'],[('flatVectorForEach/flatMatrixForEach',D+'foreach.hh'),('BCCSMatrixInitializer',D+'bccsmatrixinitializer.hh'),('copyToBCCSMatrix',D+'bccsmatrixinitializer.hh')])
p('C14','Block (tri)diagonal matrices are built and solved exactly',
 'A block tridiagonal matrix of size n has exactly the diagonal and the neighbouring off-diagonals as its pattern and a block diagonal matrix exactly the diagonal, also after setSize on a matrix that was empty, copied or used with another size; solve on either returns x with A x = b whenever the pivots met by elimination are invertible, and invert turns each diagonal block into its inverse. The matrix of a solve and its right hand side are unchanged.',
 ['inputs'],'all sizes n >= 1, all entries with invertible pivots, all right hand sides',
 'Tests solve one size with one fixed matrix.',
 [D+'btdmatrix.hh',D+'bdmatrix.hh'],[('Thomas algorithm in solve',D+'btdmatrix.hh'),('solve/invert',D+'bdmatrix.hh')])
p('C15','Sparse matrix arithmetic acts on every stored entry exactly once',
 'For sparse matrices, scalar assignment, *= and /= change every stored entry exactly by the scalar, += , -= and axpy combine every stored entry with the matching entry of the other matrix, and the Frobenius norm and the row-sum norm (the largest sum over a row of the norms of its blocks) equal their definitions, independently of how the matrix was built. Entries and patterns of the other operand are unchanged.',
 ['inputs','histories'],'all patterns (also with empty rows), all entries and scalars, every build mode the matrix came from',
 'Tests do arithmetic on one matrix built in one way.',
 [D+'bcrsmatrix.hh'],[('operator*=, /=, +=, -=, axpy, norms',D+'bcrsmatrix.hh')])
p('C16','Operator and solver adapters are transparent',
 'MatrixAdapter applies exactly the wrapped matrix (y = A x and y += alpha A x), the sequential scalar product is that of the vectors, the n-step preconditioners apply exactly n sweeps of their kernel with their own relaxation factor, a factor that is one within 1e-15 may count as one, and the Richardson preconditioner scales by its factor. A solver used as a preconditioner runs once on a private copy of the defect and leaves the defect unchanged. The parallel adapters (overlapping operator, block preconditioners, parallel SSOR, parallel scalar product) perform exactly the operation of the local object they wrap followed by exactly the exchange or projection of their consistency model. No adapter changes its matrix, its defect or any other argument.',
 ['inputs','configurations'],'all matrices, vectors, step counts and factors, any communication object',
 'Tests use the adapters inside solvers only, where a wrong sweep count or a changed defect shows up at most as slower convergence.',
 [D+'operators.hh',D+'preconditioners.hh',D+'scalarproducts.hh',D+'schwarz.hh',D+'novlpschwarz.hh'],[('MatrixAdapter',D+'operators.hh'),('InverseOperator2Preconditioner, Richardson, SeqJac, SeqSOR, SeqSSOR, SeqGS, SeqILU, SeqDILU',D+'preconditioners.hh'),('SeqScalarProduct, ParallelScalarProduct',D+'scalarproducts.hh'),('OverlappingSchwarzOperator, ParSSOR, BlockPreconditioner',D+'schwarz.hh')])
p('C17','Aggregation partitions the vertices and the AMG hierarchy stays consistent',
 'For every matrix and all aggregation parameters: (1) dependencies: with the strength of the entry (i,j) measured as -norm(a_ij) (unsymmetric criterion) or a_ij a_ji/(a_ii a_jj) (symmetric criterion; positive off-diagonal entries ignored by sign preserving norms, entries without stored opposite ignored), a vertex is isolated exactly if the maximal strength of its off-diagonal entries is below beta (times its diagonal for the unsymmetric criterion), otherwise the edge (i,j) is marked as depending exactly if its strength reaches alpha times that maximum, and the opposite edge is marked as influencing; on the first level a vertex whose off-diagonal entries are all zero is excluded as border vertex; (2) aggregation: afterwards every vertex is either in exactly one aggregate or marked ISOLATED, ISOLATED only if it is an excluded border vertex or an isolated one that the parameters ask to skip; the aggregate numbers are 0 to count-1 with every number in use, and the returned count, number of isolated, one-vertex and skipped aggregates fit; (3) hierarchy: each coarse level has as many unknowns as the finer one has aggregates, its matrix is the Galerkin product of the finer one, coarsening stops at the coarsening target, the maximal number of levels or when the rate falls below the minimal one, and the map to the coarsest aggregates is the composition of the maps (the identity for one level).',
 ['inputs'],'all sizes, patterns and values, norms and criteria, aggregation parameters, number of levels','Tests only check solver convergence; wrong aggregates still give a convergent solver.',
 [D+'paamg/aggregates.hh',D+'paamg/dependency.hh',D+'paamg/matrixhierarchy.hh',D+'paamg/graph.hh'],[('Aggregator::build',D+'paamg/aggregates.hh'),('buildDependency',D+'paamg/aggregates.hh'),('MatrixHierarchy',D+'paamg/matrixhierarchy.hh')])
p('C18','Parallel vectors stay consistent: exchanges, scalar products, redistribution',
 'For every distribution of global indices over processes with the attributes owner, overlap and copy: the parallel scalar product and norm count every local index exactly once except those that are not owned (also when the vector length changes between calls) and conjugate the first argument like the sequential one; project sets exactly the copies to zero; copyOwnerToAll and copyCopyToAll overwrite exactly the entries that receive a value of the named class, addOwnerOverlapToAll, addOwnerCopyToAll and addOwnerCopyToOwnerCopy add exactly the values of the named classes held by other processes, also when source and target are the same vector, and nothing else is changed. Redistribution moves every value to the new owner of its index and back, a redistributed matrix has the entries of the original one. The global lookup is rebuilt when the index set changed and maps local to global indices; an unknown attribute or a remote index outside the index set is rejected by an exception.',
 ['inputs','configurations'],'all index sets, attributes, distributions, vectors and call histories','Tests use one regular decomposition and check solver convergence.',
 [D+'owneroverlapcopy.hh',D+'matrixredistribute.hh',D+'paamg/transfer.hh',D+'schwarz.hh',D+'novlpschwarz.hh'],[('OwnerOverlapCopyCommunication, IndexInfoFromGrid',D+'owneroverlapcopy.hh'),('RedistributeInformation, redistributeMatrix',D+'matrixredistribute.hh'),('Transfer with a communication',D+'paamg/transfer.hh'),('OverlappingSchwarzOperator',D+'schwarz.hh'),('NonoverlappingSchwarzOperator',D+'novlpschwarz.hh')])
p('C19','Matrix Market files hold every entry and damaged files are rejected',
 'A matrix (scalar, complex or block entries) written in MatrixMarket format has a banner naming the right number type, its size in scalar rows and columns, and every scalar entry stored exactly once with its one-based row and column index; a vector is written one component per line in order. Reading the file back reproduces shape, pattern and values (at the printed precision) for matrices and vectors, including several lanes; symmetric, skew-symmetric and hermitian files give the full matrix. Every value read stands at its position of the file, also when the target held something else before. A file that is truncated, damaged, of the wrong number type, of inconsistent size or with indices outside of the matrix is rejected by an exception. Parallel files restore index set, attributes and neighbours; damaged index files are rejected.',
 ['inputs'],'all matrices, vectors and files','Tests round-trip a few files.',
 [D+'matrixmarket.hh'],[('readMatrixMarket/writeMatrixMarket, storeMatrixMarket/loadMatrixMarket',D+'matrixmarket.hh')])
p('C20','Eigenvalue iterations return true eigenpairs',
 'When the power iteration, the inverse iteration (with or without shift), the Rayleigh quotient iteration or the TLIME iteration returns, the returned vector is a real unit vector, the returned value is its Rayleigh quotient and |A x - lambda x| is at most the requested tolerance; otherwise an exception is thrown after the maximal number of iterations (or when an iterate vanishes): no NaN and no unconverged pair is returned. With avoidLinSolverCrime this holds for an arbitrary inexact solver. The iteration operator and the iteration matrix handed to solvers are A - mu I for the shift in use, a direct solver is given the new matrix when the shift changes, and a matrix that is not square is rejected.',
 ['inputs'],'all matrices, start vectors and tolerances','Tests use one Laplacian.',
 [D+'eigenvalue/poweriteration.hh'],[('PowerIteration_Algorithms',D+'eigenvalue/poweriteration.hh')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80, x['id']
