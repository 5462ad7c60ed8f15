SV = ['src/decomp/lu.rs', 'src/decomp/qr.rs', 'src/decomp/svd.rs', 'src/decomp/eigen.rs']
na('N01', 'Decompositions reproduce the input within rounding',
   'The product of the factors of every decomposition equals the original matrix within an error proportional to its norm and machine precision.',
   'A bound on accumulated floating-point rounding over data-dependent iterations is a runtime numerical quantity; no sound static argument in reach bounds it. The structural parts are claimed separately.', SV)
na('N02', 'Orthogonal factors are orthogonal within rounding',
   'Computed orthogonal factors have orthonormal columns within machine precision, for every input.',
   'Numerical (rounding-error) property of iterated floating-point arithmetic; not visible in the shape of the code.', SV)
na('N03', 'Iterative decompositions converge on every finite input',
   'The SVD, eigenvalue and power iterations terminate for every matrix with finite elements.',
   'Convergence of shifted QR iterations is a numerical theorem about runtime values; the loops carry no iteration bound, so no static termination argument exists.',
   ['src/decomp/svd.rs', 'src/decomp/eigen.rs', 'src/eig/powermethod.rs'])
na('N04', 'Solutions are backward stable',
   'The computed solution of a well-conditioned system has a small relative residual.',
   'Quantifies over rounding errors and conditioning, runtime quantities static analysis cannot bound.', ['src/decomp/lu.rs', 'src/decomp/qr.rs', 'src/decomp/cholesky.rs'])
na('N05', 'Random matrices are uniformly distributed',
   'The elements of a random matrix are independent and uniformly distributed over the standard range.',
   'A statistical property of an external generator; only the drawing of one value per element is visible in the source, and that part belongs to the constructor properties.', [MX])
