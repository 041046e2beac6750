REMARKS = {
'C01': 'Each product is proved for one arbitrary row (or column, for the transposed products) against a recursive specification of the row sum; the frame condition is that only the target vector is writable. Entry types: double, complex, FieldMatrix 1x1, 2x2 and 2x3, complex 2x2 (blocks through the real FieldMatrix code).',
'C03': 'Binary search: std::lower_bound is executed from its IR, its invariant is the usual one on LB(i,c), the number of stored columns of row i below c.',
'C04': 'Each phase of the building is a contract on the object state (BuildStage, counters, windows); the sequence of phases is covered because each contract starts from every state its precondition allows. Null pointers of empty rows count as an arbitrary position. setIndices, compress, MatrixIndexSet and copies are bounded only. setSize that throws in implicit mode leaves n changed; no promise is made there.',
'C05': 'Nested vectors are proved for FieldVector blocks; MultiTypeBlockVector for a fixed list of block types.',
'C06': 'The solves are proved against their defining equation row by row (for example y_i = D_i^-1 (b_i - sum)) with the loop invariant that rows already visited satisfy it.',
'C07': 'DILU decomposition and all back-solves are proved; the ILU(0), ILU(k), ILDL decompositions update rows that are read through moving iterators of earlier rows and are bounded only. convertToCRS of a matrix without rows is outside the contract (it writes rows_[0] of an empty vector).',
'C08': 'Vectors are seen through linear functionals: an uninterpreted linear map of a vector to the reals, closed under the vector operations; b - A x is proved for an arbitrary functional, hence for every component. GeneralizedPCG with restart 1, GMRes with restart 0 and FCG with mmax 0 never terminate; partial correctness only. FGMRes with a singular preconditioner may break down, which is reported by SolverAbort. MINRES measures the first defect in another norm.',
'C09': 'The call protocol is ghost state of the preconditioner (prepared or not), updated by the assumed contracts of pre, apply, post.',
'C12': 'The result of a product in implicit build mode throws, as documented. The pattern construction is covered by the bounded part.',
'C13': 'The visitor is a ghost counter: every leaf is visited exactly once with the indices the flat numbering gives it. A null pointer of a flat pointer range is a variant of its own.',
'C14': 'n is at least 1: BTDMatrix::solve on an empty matrix underflows N()-1 and is outside the contract.',
'C16': 'Kernels (bsorf, ilu back-solves, ...) are uninterpreted functions, so a proof here fails if an adapter calls another kernel, with other arguments, another number of times or in another order.',
'C18': 'drivers/c18.cc replaces the headers of dune-common that talk MPI by stubs with assumed contracts; the class under contract is the real one. The stub interface records the attribute classes it was built for, so the exchange contracts fail when an interface is built for other classes, used before it is built, or a different gather/scatter is used. The bounded part runs the same statements with the real dune-common on four MPI processes started by mpirun on the loopback. The nonoverlapping operator is checked for matrices whose rows are stored at the owner, with additive parts at the owner of the column. Mask and interfaces are computed once: changing the index set afterwards is outside the contract.',
'C20': 'x and A x are known through their Gram matrix, rebased at every solve; the proof covers every iteration because the loop invariant is stated on it. The TLIME iteration prints a q_norm in its Rayleigh phase that is computed with the updated value; it is not part of the result. Two direct solvers sharing one iteration object are outside the contract.',
 'C19': 'The output stream is a ghost object: operator<< of libstdc++ is replaced by handlers that collect the tokens of the current line, and at every end of line the contract judges the line (banner, block sizes, size line, entry). An arbitrary stored entry is fixed; the contract counts the lines that state it and the total number of lines, and requires one and the number of scalar entries. The input stream is a ghost sequence of tokens: every extraction yields the next one, and the check whether the stream failed may answer anything, so a loop that accepts a file without asking after its last extraction fails an obligation. The compiler is told to keep the stream functions of libstdc++ and the banner parser as calls (VC-EXTERN-STD, VC-OPAQUE in drivers/c19.cc); everything else is inlined from /repo. Reading a matrix collects the entries in std::set objects and is bounded.',
 'C17': 'The aggregate map is an array with one entry per vertex; the invariant of the outer loop states for every vertex that it is unaggregated, excluded for a reason, or numbered at most by the current id, and for an arbitrary number t at most the id a witness vertex (ghost) that has it. The callees of build are havoc within their frame: any set of unaggregated vertices may join the current aggregate; the same frame is the postcondition of growAggregate and growIsolatedAggregate in contracts of their own. buildDependency is checked against a criterion that is an arbitrary external function whose calls are recorded (ghost counters per row and column); the criteria themselves are checked call by call against the formulas of the documentation.',
}
