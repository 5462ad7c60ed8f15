T0 = 'The suite evaluates each operation on one or two small fixed matrices; the claim is over every shape and every content.'

p('C03', 'Operands whose dimensions do not agree are rejected, and only those',
  'Every binary operation on matrices (addition, subtraction, product, elementwise product and quotient, column and row concatenation, in operator, by-reference and in-place form), '
  'as well as column reduction and boolean row/column selection, panics when the dimensions it requires to agree do not. '
  'It never panics on operands whose dimensions do agree, and no operand is accepted merely because its total number of elements matches.',
  'all pairs of operands of all shapes', 'Tests try one or two mismatched pairs per operation; a guard comparing the wrong pair of dimensions agrees with the right one on square operands.',
  [MX], [('assertions at the head of each operation', MX)], observe=['panic / normal return'])

p('C04', 'Element access reaches exactly the addressed element and rejects the rest',
  'Reading, borrowing, writing or indexing at (row, column) touches exactly the element stored for that row and column, for every in-range pair. '
  'It panics for every pair where the row or the column is out of range, even when the flattened position would fall inside the storage. A write changes no other element.',
  'all shapes, all index pairs', T0, [MX], [('row-major index computation and its assertions', MX)], state=[DATA], observe=['get, get_ref, get_mref, set, m[(i, j)]'])

p('C05', 'Invalid dimensions, regions and index lists are rejected, valid ones accepted',
  'Constructors panic when the requested dimensions are empty or do not match the number of supplied elements; extraction of a column, minor or sub-matrix and row/column permutation panic '
  'when the region or any index lies outside the matrix or the region is empty. Every valid request is accepted.',
  'all dimensions, regions and index lists', 'Tests cover a handful of rejected requests; off-by-one limits at either end of a range are only visible at specific boundary values.',
  [MX], [('assertions of the constructors and extractors', MX)], observe=['panic / normal return'])

p('C06', 'Every matrix produced or modified stays well formed',
  'Every matrix returned by the matrix type\'s operations, and every matrix after an in-place operation, has at least one row and one column and stores exactly rows times columns elements.',
  'all operations, shapes and contents', 'No test inspects the stored element count against the reported dimensions; an inconsistent matrix only misbehaves in later operations.',
  [MX], [('construction through checked constructors', MX)], state=[DATA], observe=['rows, cols, get_data().len()'])

p('C07', 'Result dimensions are those of the operation',
  'Each operation yields exactly the dimensions linear algebra prescribes: product rows x columns of the outer dimensions, transpose swapped, concatenation summed, selection the number of selected '
  'rows/columns, extraction the extent of the region. In-place forms update the recorded dimensions of the receiver in the same way.',
  'all operations and shapes', 'Tests use mostly square or fixed operands, for which swapped or stale dimensions go unnoticed.', [MX], [('dimension arguments of the result constructor', MX)], state=[DATA],
  observe=['rows, cols'])

p('C08', 'Constructors fill every element with the documented value',
  'A matrix from supplied data stores it in row-major order; identity has ones exactly on the diagonal, diagonal and block-diagonal matrices have the supplied values there and zeros elsewhere; '
  'zero and one vectors/matrices are constant. No constructor leaves an element uninitialised or indexes outside its storage, for rectangular shapes either way round.',
  'all shapes (square, wide, tall) and contents', T0, [MX, 'src/macros.rs'], [('loops that fill the storage', MX)], state=[DATA], observe=['element values'])

p('C09', 'Elementwise arithmetic combines exactly corresponding elements',
  'Sum, difference, negation, scaling, elementwise product and elementwise quotient give at each (row, column) the operation applied to the operands\' elements at that same position, '
  'with left and right operand in their roles, in every operator form (owned or borrowed operands).',
  'all shapes, contents and operand forms', T0, [MX], [('loops over the flattened storage', MX)], observe=['element values'])

p('C10', 'In-place forms leave exactly what the pure form returns',
  'After an in-place negation, scaling, addition, subtraction, elementwise product/quotient, mapping or matrix multiplication the receiver equals what the corresponding non-mutating operation would have returned, '
  'in dimensions and every element.', 'all shapes and contents', T0, [MX], [('in-place loops', MX)], state=[DATA], observe=['receiver after the call'])

p('C11', 'The matrix product is the row-by-column sum of products',
  'For conforming operands of any shape, element (i, j) of the product is the sum over the shared dimension of left(i, k) times right(k, j), in each operator form and in the in-place form.',
  'all conforming shapes and contents', 'Tests multiply square or nearly square examples; a wrong stride coincides with the right one there.', [MX], [('product loops', MX)], observe=['element values'])

p('C12', 'Transposition, concatenation and extraction move the right elements',
  'Transpose puts element (i, j) at (j, i); column and row concatenation place the operands side by side or one above the other; minor drops exactly the named row and column; '
  'sub-matrix and column extraction return exactly the named region, all in their original order.', 'all shapes, regions and contents', T0, [MX], [('index arithmetic of the copying loops', MX)], observe=['element values'])

p('C13', 'Permutation and selection return the requested rows and columns in order',
  'Row/column permutation returns the listed rows/columns in the listed order (repeats allowed); selection by predicate or by booleans returns exactly the rows/columns selected, in original order, unaltered.',
  'all shapes, index lists and predicates', T0, [MX], [('selection loops', MX)], observe=['element values'])

p('C14', 'Mapping and column reduction apply the function to every element once, in order',
  'Mapping applies the given function to each element independently and keeps the shape; column reduction folds each column from its own initial value, top to bottom, and yields one row.',
  'all functions, shapes and contents', 'Tests use commutative functions, which hide order and argument swaps.', [MX], [('map/reduce loops', MX)], observe=['element values'])

p('C16', 'Trace and norms are their defining sums and maxima',
  'Trace sums the elements (i, i) that exist; 1-norm, 2-norm, p-norm, infinity norm and Frobenius norm equal their definitions on absolute values (p-th root of the sum of p-th powers, maximum, root of the sum of squares). '
  'Vector norms reject arguments that are not a single column.', 'all shapes and contents, all p', 'Tests use positive entries, square traces and one p.', [MX], [('accumulation loops', MX)], observe=['returned scalar, panic'])

p('C17', 'Comparison and symmetry predicates compare shape and every element',
  'Equality and approximate equality hold exactly when dimensions agree and every pair of corresponding elements does; symmetry holds exactly when the matrix is square and every mirrored pair agrees approximately. '
  'Negated predicates are exact complements, and none of them panics on any shape.', 'all shapes and contents', 'One disagreeing element anywhere must be noticed; tests place it in one spot.', [MX], [('comparison loops', MX)], observe=['returned boolean'])

p('C32', 'Scalar helpers: tolerance comparison is two-sided, hypotenuse is scaled',
  'Approximate equality of floats is |x - y| < tolerance, symmetric in its arguments, with the same default tolerance for both float types. '
  'The hypotenuse helper returns the root of the sum of squares for all sign combinations including zeros, forming only squares of ratios not larger than one.',
  'all pairs of scalars', 'Tests compare a few positive pairs.', ['src/approxeq.rs', 'src/internalutil.rs'], [('approx_eq, hypot', 'src/approxeq.rs')], observe=['returned value'])

DN = ('Decided by comparing state machines: every loop and carried variable of the code, as summarised from its typed source, is aligned with one of an independently written reference '
      'algorithm (ref/), and initial value, step, number of iterations, leaving condition and results are compared as terms over uninterpreted states, for all sizes and contents. '
      'Exact real arithmetic is assumed. Code organised so differently that the correspondence cannot be established is reported undecided and stays quiet.')
BT = 'value-graph bisimulation of rustc THIR against reference algorithms'
LU, CHO, QRD, SVDF, EIG = 'src/decomp/lu.rs', 'src/decomp/cholesky.rs', 'src/decomp/qr.rs', 'src/decomp/svd.rs', 'src/decomp/eigen.rs'
TD = 'Tests decompose a few fixed matrices and compare within 1e-6; branches taken only for particular contents (ties, zero pivots, deflation, complex pairs) or shapes are hardly visited.'

p('C18', 'LU: partial pivoting, elimination and the recorded permutation agree',
  'For every matrix (square, tall or wide) LU decomposition performs, in exact arithmetic, Gaussian elimination with partial pivoting: in each column the remaining row with the largest magnitude '
  '(the first of them on a tie) is exchanged into pivot position in all columns, together with its entry of the permutation, the sign flips exactly on a real exchange, and the rest of the column is divided by a non-zero pivot. '
  'The accessors return the unit lower factor, the upper factor, the permutation matrix and the pivot list of that elimination, so that P*A = L*U.',
  'all shapes and contents', TD, [LU], [('Doolittle loop with pivot search and row exchange', LU)], observe=['get_l, get_u, get_p, get_piv, det'], note=DN, technique=BT)

p('C19', 'Factor accessors of the decompositions return the stored factors entry by entry',
  'The accessors of Cholesky, QR, SVD and eigendecomposition return, at every position and for every shape, exactly what the decomposition stores: R from the packed form with its diagonal from the separate diagonal and zeros below, '
  'the Householder vectors on and below the diagonal, U, S, V as stored, and D as block diagonal with the real parts on the diagonal and each complex pair\'s imaginary parts off it, positive one above. They never panic.',
  'all decomposition values of all shapes', 'Accessor tests use one shape; misplaced entries of the other shapes or of complex pairs go unnoticed.', [LU, CHO, QRD, SVDF, EIG],
  [('index arithmetic of the accessors', QRD)], observe=['get_l, get_r, get_h, get_u, get_s, get_v, get_d, eigenvalue lists'])

p('C20', 'Determinant, singularity tests and inverse agree with elimination',
  'For every square matrix, in exact arithmetic, the determinant is the product of the pivots with the sign of the permutation, a matrix is reported singular exactly when some pivot is zero and non-singular exactly otherwise, '
  'and the inverse is None exactly for singular matrices and otherwise the solution of A*X = I by forward and backward substitution. Non-square matrices are rejected.',
  'all square matrices, and the rejection of all others', TD, [MX, LU], [('det, is_singular, inverse over the LU decomposition', MX)], observe=['det, is_singular, is_non_singular, inverse'], note=DN, technique=BT)

p('C21', 'Solving by LU: permuted right-hand side, forward then backward substitution',
  'Solving a square system yields None exactly when the matrix has a zero pivot; otherwise, for any number of right-hand sides, every column of the result is obtained, in exact arithmetic, from the permuted right-hand side '
  'by forward and backward substitution with the LU factors, so that A*X = B. Systems that are not square, or whose right-hand side has a different number of rows, are rejected.',
  'all square systems and right-hand sides', TD, [LU, MX], [('solve of LUDecomposition', LU), ('solve of Matrix', MX)], observe=['solve'], note=DN, technique=BT)

p('C22', 'Cholesky succeeds exactly on symmetric matrices with positive pivots',
  'Cholesky decomposition returns None for a matrix that is not square, not exactly symmetric, or has a pivot that is not positive (NaN included), and only for those. '
  'Otherwise L is lower triangular with zeros above the diagonal and, in exact arithmetic, the rows given by the Cholesky recurrence with positive diagonal, so that L*L\' = A.',
  'all matrices', 'Tests use one positive definite matrix and one failing example.', [CHO], [('row recurrence, symmetry and pivot tests', CHO)], observe=['new, get_l'], note=DN, technique=BT)

p('C23', 'Solving by Cholesky: forward with L, backward with its transpose',
  'Given a Cholesky factor L, solving gives for every column of every right-hand side the result of forward substitution with L followed by backward substitution with L\', in exact arithmetic. '
  'A right-hand side with a different number of rows is rejected.', 'all factors and right-hand sides', TD, [CHO], [('solve of CholeskyDecomposition', CHO)], observe=['solve'], note=DN, technique=BT)

p('C24', 'QR: Householder reflections give R and the matching orthogonal factor',
  'For every shape, QR decomposition applies in turn, in exact arithmetic, the Householder reflection that annihilates each column below the diagonal (sign chosen away from cancellation, nothing done for a zero column), '
  'to all remaining columns. R is what results, its diagonal kept separately; Q is the product of exactly those reflections applied to the square identity, so that Q*R = A.',
  'all shapes and contents', TD, [QRD], [('reflection and accumulation loops', QRD)], observe=['new, get_q, get_r, get_h'], note=DN, technique=BT)

p('C25', 'Solving by QR: None exactly without full column rank, else least squares',
  'A QR decomposition has full rank exactly when there are at least as many rows as columns and no diagonal entry of R is zero. Solving returns None exactly without full rank; otherwise it applies the reflections of the decomposition '
  'to every right-hand side and back-substitutes with R (exact arithmetic), giving one row per column of A: the exact solution of square and the least-squares solution of overdetermined systems. '
  'A right-hand side with a different number of rows is rejected; nothing else panics.', 'all shapes, contents and right-hand sides', TD, [QRD], [('is_full_rank, solve', QRD)], observe=['is_full_rank, solve'], note=DN, technique=BT)

p('C26', 'SVD carries out Golub-Kahan bidiagonalisation and implicit-shift QR exactly',
  'For matrices with at least as many rows as columns, SVD performs, in exact arithmetic, the LINPACK procedure: bidiagonalisation with accumulated full U and V, deflation, splitting, shifted QR sweeps with matching rotations of U and V, '
  'sign change of negative singular values with the column of V, and ordering to descending values moving the columns of U and V along. Wider matrices are decomposed through their transpose with factors exchanged. '
  'Rank counts the singular values above max(m, n) * s(0,0) * 2^-52. The shapes are m x m, m x n and n x n.',
  'all shapes and contents', TD, [SVDF], [('bidiagonalisation, accumulation and main iteration', SVDF)], observe=['new, get_u, get_s, get_v, rank'], note=DN, technique=BT)

p('C27', 'Symmetric eigenproblem: tridiagonalisation and implicit QL carried out exactly',
  'The eigendecomposition rejects non-square matrices and takes the symmetric route exactly for symmetric input. On that route it performs, in exact arithmetic, the EISPACK procedures tred2 and tql2: Householder tridiagonalisation with accumulated '
  'transformations, implicit QL with its deflation test and rotations of V, then ordering of the eigenvalues to descending values with the columns of V moved along; all imaginary parts are zero.',
  'all square matrices on the symmetric route', TD, [EIG], [('tred2, tql2', EIG)], observe=['get_v, get_real_eigenvalues, get_imag_eigenvalues'], note=DN, technique=BT)

p('C33', 'General eigenproblem: Hessenberg form, double-shift QR, back-substitution',
  'For non-symmetric matrices the eigendecomposition performs, in exact arithmetic, the EISPACK procedures orthes and hqr2: Householder reduction to Hessenberg form with accumulated transformations, double-shift QR with its deflation tests and exceptional '
  'shifts, real and complex-conjugate eigenvalue pairs read off the blocks, eigenvectors by real and complex back-substitution (with overflow scaling), and transformation back by the accumulated matrix.',
  'all square matrices on the general route', TD, [EIG], [('orthes, hqr2, cdiv', EIG)], observe=['get_v, get_d, eigenvalue lists'], note=DN, technique=BT)

p('C34', 'Pseudoinverse is (R\'R)^-1 A\' from the QR decomposition',
  'For every matrix with full column rank the pseudoinverse is, in exact arithmetic, the inverse of R\'*R (by LU) times the transpose of A, with R from the Householder QR decomposition of A; its shape is that of the transpose.',
  'all matrices of full column rank', TD, [MX, QRD, LU], [('pinverse', MX)], observe=['pinverse'], note=DN, technique=BT)

p('C35', 'Direct SVD follows from the eigenvectors of A\'A',
  'For a matrix of full column rank the direct method sets V to the eigenvectors of A\'*A, S to the roots of its eigenvalues on the diagonal of a matrix shaped like A, and U to A*V times the inverse of S, extended by zero columns to a square matrix; '
  'wider matrices are decomposed through their transpose with factors exchanged (exact arithmetic).', 'all matrices of full rank', TD, [SVDF], [('direct', SVDF)], observe=['direct, get_u, get_s, get_v'], note=DN, technique=BT)

p('C28', 'Results depend on the arguments alone: no hidden state, I/O, clock or randomness',
  'Every function of the crate computes its result from its arguments only, so that the same call gives the same result in every history and on every thread. Matrix::random alone draws random numbers, Matrix::print alone writes to the standard '
  'output, util::read_csv alone reads a file; no function reads a clock, the environment or mutable static or thread-local state, starts threads, iterates in a randomly seeded order, or prints.',
  'all functions, all call paths, all histories and schedules', 'A test sees one history; state kept between calls, or output on a rare path, does not show in it.', [MX, LU, CHO, QRD, SVDF, EIG, 'src/util.rs'],
  [('every function body and the call graph', MX)], over=('inputs', 'histories', 'schedules'), observe=['all public functions'],
  note='The call graph is read from the type-checked program (callees resolved by rustc, functions used as values and closures included). Calls into other crates are classified by path; one that is not known makes the functions reaching it undecided. '
  'Element operations and callbacks are the caller\'s and assumed pure.', technique='effect analysis over the resolved call graph (rustc THIR)')

p('C01', 'Unwritten or out-of-range storage is never read and never escapes',
  'Buffers are allocated uninitialised. No function of Matrix, of the norms and comparisons, of LU, Cholesky and QR decomposition and their solvers, and no accessor of a decomposition reads an element before it has been written, returns or stores a buffer with '
  'an element never written, or makes an unchecked access or length change beyond the buffer, whatever the arguments; arguments that are rejected are rejected before that could happen.',
  'all shapes, contents and arguments, valid or not', 'Tests see values that happen to be right in memory that happens to be mapped; uninitialised reads do not fail.', [MX, LU, QRD, CHO, 'src/internalutil.rs'],
  [('alloc_dirty_vec and its callers', 'src/internalutil.rs'), ('unchecked accesses', MX)], observe=['all functions of Matrix, LU, QR, Cholesky'],
  note='Assumes that element types are Copy without invalid bit patterns (f32, f64, integers) and that rows*cols does not overflow. The constructors of SVD and EigenDecomposition are not covered here: that the values they use are those written is part of C26, C27 and C33. '
  'A Vec handed out by get_mut_data can be resized by its holder; that is recorded under C06.', technique='storage (definite-initialisation and range) analysis with loop summaries over rustc THIR')

p('C02', 'LU, QR and Cholesky construction and solving never panic on valid input',
  'Constructing an LU, QR or Cholesky decomposition of a valid matrix (LU for at least as many rows as columns, Cholesky of any matrix), forming Q, and solving with a right-hand side of as many rows panics for no shape and no contents: every index, '
  'subtraction of dimensions, slice and unwrap is in range, and the factors and solutions have the shapes promised.',
  'all valid shapes and contents, singular and rank deficient ones included', TD, [LU, QRD, CHO], [('new and solve of LU, QR, Cholesky; get_q', LU)], observe=['LU, QR and Cholesky new, solve, get_q'],
  note='The same for the functions of Matrix and the accessors is part of their own properties. Element operations are assumed not to panic.', technique='panic-freedom analysis with loop summaries over rustc THIR')

p('C15', 'In-place transposition leaves the transpose, for every shape',
  'After in-place transposition a matrix of any shape (single rows and columns, square, wide and tall ones) has its dimensions exchanged and holds at (j, i) what it held at (i, j), for every element. It never panics and no element is lost or moved twice.',
  'all shapes and contents', 'The cycles of the permutation differ from shape to shape; tests transpose two or three shapes whose cycles are few and short.', [MX], [('mt: moves along cycles with a list of visited positions', MX)],
  state=[DATA], observe=['receiver after mt'],
  note='The loops are compared with the cycle-following algorithm p -> rows*p mod (rows*cols - 1). Differences in marking or in the starts count only where a cycle of that permutation shows them. A different algorithm is reported undecided and stays quiet.', technique=BT)

p('C29', 'CSV reading returns every field of every line in order, or rejects',
  'For every file, separator placement and number of lines, util::read_csv returns a matrix with one row per line and one column per comma-separated field, element (i, j) being the parser applied to field j of line i with surrounding blanks removed. '
  'It accepts exactly the files that can be opened and read, have at least one line, and have the same number of fields on every line; all others are rejected by a panic, none silently shortened, padded or skipped.',
  'all files and parsers', 'No test reads a file; a few files would not settle ragged, blank or long ones.', ['src/util.rs', MX], [('read_csv', 'src/util.rs')], over=('inputs', 'faults'), observe=['util::read_csv'],
  note='Lines, fields and blanks are those of std (BufRead::lines, str::split, str::trim), taken as uninterpreted functions; failures to open or read are conditions. The loops are compared with a plain definition; ' + 'other ways of reading are reported undecided and stay quiet.', technique=BT)
