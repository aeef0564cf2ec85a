LT = 'The linear solvers have no tests at all; '

P('L01', 'Gauss encloses every solution of the interval system',
  'For every interval matrix and interval right-hand side for which the interval Gauss method returns an answer, the returned box contains the solution of every point system taken from the interval data, and the data are not changed. For point data with a nonsingular matrix the answer is the solution itself in exact arithmetic.',
  IN, 'every interval system of order 1 to 3 and every member, order 4 (thorough: 5) with zeros in most of the first column; point systems of order 1 and 2',
  LT + 'a lost solution needs a particular member matrix, pivoting order and order three or more.',
  [L + 'Gauss.py'], [('Gauss', L + 'Gauss.py')],
  note='Interval operations are represented by their contract (C01, C05).')

P('L02', 'Gauss-Seidel keeps every solution inside the starting box',
  'The interval Gauss-Seidel iteration never removes from its starting box a point that solves some member of the interval system, for any preconditioning matrix (also when the one computed for the midpoint is inaccurate or singular), any starting box or the default one, and any number of sweeps. The data and the given starting box are not changed.',
  ['inputs', 'configurations'], 'order 1 with up to 5 (thorough: 7) sweeps, order 2 with up to 2 sweeps (thorough: order 3 with one), all data',
  LT + 'soundness of the intersection and of dividing by intervals containing zero must hold for every member and preconditioner.',
  [L + 'Gauss_Seidel.py'], [('Gauss_Seidel', L + 'Gauss_Seidel.py')],
  note='Interval operations by contract (C01, C05); default starting box: solutions within its range.')

P('L03', 'Hansen-Bliek-Rohn encloses the solution set or refuses',
  'For every right-hand side (one or several columns) the Hansen-Bliek-Rohn method either refuses or returns a box containing every solution of every member of the interval system, also when the approximate inverse it uses is slightly wrong. Systems whose preconditioned matrix is strictly diagonally dominant are not refused, and the data are not changed.',
  IN, 'listed interval matrices of orders 1 to 4 (definite, asymmetric, irregular, with rough inverses), every right-hand side within [-10, 10]',
  LT + 'a matrix that is not an H-matrix passes silently; lost solutions need particular right-hand sides.',
  [L + 'HBR.py'], [('HBR', L + 'HBR.py')],
  note='Matrices are from a fixed list; the right-hand side and the solution are symbolic; exact arithmetic (rounding-level rigour is not claimed).')

P('L04', 'Rohn\'s enclosure contains the united solution set or is refused',
  'For every right-hand side Rohn\'s method for square and overdetermined systems either raises or returns a box containing every solution of every member system; an iteration that has not converged is not reported as an enclosure, and an unknown kind of solution set is refused. The data are not changed.',
  IN, 'listed interval matrices up to 3x2, every right-hand side within [-10, 10]',
  LT + 'whether the iteration has converged matters only for a few matrices and tolerances.',
  [L + 'Rohn.py'], [('Rohn with the united set', L + 'Rohn.py')],
  note='Matrices are from a fixed list; exact arithmetic.')

P('L05', 'Rohn\'s box for the tolerable solution set is its exact hull',
  'For the tolerable solution set the returned box contains every tolerable solution and each of its ends is attained by a tolerable solution; it is refused when the set is empty or unbounded.',
  IN, 'listed interval matrices up to 3x1 and 2x3, every right-hand side within [-100, 100]',
  LT + 'a wrong sign in one linear program is visible only for some right-hand sides.',
  [L + 'Rohn.py'], [('Rohn with consistency tol', L + 'Rohn.py')],
  note='The linear programming solver is represented by its contract; replays use the real one.')

P('L06', 'The recognizing functionals have their defining values and signs',
  'The constituents of Tol, Uni and Uss equal their definitions for every interval system and point, weights multiply them, and the value is the least of them. The value is nonnegative exactly when the point belongs to the tolerable (Tol) or united (Uni, Uss) solution set.',
  IN, 'systems 1x2 and 2x1 (thorough 2x2, 3x1, 1x3), all data, points and positive weights; exact arithmetic',
  LT + 'points on the boundary of the set and zero coordinates are special cases.',
  [L + 'Tol.py', L + 'Uni.py', L + 'Uss.py', 'intvalpy/kernel/abstract.py'],
  [('constituents and values', L + 'Tol.py'), ('constituents and values', L + 'Uni.py'), ('constituents and values', L + 'Uss.py')])

P('L07', 'Maximizing a functional optimises that functional with true subgradients',
  'The function handed to the optimiser is the negated (weighted) functional and the vector that comes with it is a subgradient of it, at every point; the optimiser starts from the given point with the given options, and its point and (negated) value are returned. For Uni and Uss the subgradient holds within an orthant.',
  IN, 'all matrices 1x1 and 1x2, listed ones 2x1, 2x2, 3x2; every right-hand side and pair of points; exact arithmetic',
  LT + 'a wrong sign in one subgradient entry only slows or misleads the optimiser.',
  [L + 'Tol.py', L + 'Uni.py', L + 'Uss.py', 'intvalpy/kernel/abstract.py'], [('calcfg', L + 'Tol.py'), ('maximize', 'intvalpy/kernel/abstract.py')],
  note='The optimiser is replaced by a recorder. Points where the Uni constituent is saturated are excluded.')

P('L08', 'Linear constraints act as an exact penalty on the optimised functional',
  'With linear constraints the optimised function is the functional plus the penalty factor times the total violation of the finite limits, with a matching subgradient. A factor that is not given is chosen for each system anew, dominates the growth of the functional, and does not change the constraint.',
  ['inputs', 'histories'], 'seven shapes of constraints (one- and two-sided, infinite and missing limits, zero rows), all limits and points',
  LT + 'one-sided, infinite or reused constraints are separate branches.',
  ['intvalpy/kernel/abstract.py', L + 'Tol.py'], [('LinearConstraint', 'intvalpy/kernel/abstract.py')],
  note='Systems are 1x2; limits, factor and points are symbolic; the constraint matrices are listed.')

P('L09', 'The subgradient optimiser returns the best point it has evaluated',
  'Whatever values and nonzero subgradients the objective answers, the optimiser first evaluates it at the starting point, returns the least value it has seen together with the point where it was attained, counts evaluations correctly, reports the stop reason truthfully and leaves the starting point unchanged. An objective that decreases without end is stopped with its own code.',
  ['inputs', 'histories'], '1 and 2 variables (thorough 3), every sequence of up to 4 (5) answers; linear objectives with 502 evaluations',
  'No test runs the optimiser; bookkeeping of the record is wrong only on particular sequences of values.',
  ['intvalpy/kernel/ralgb5.py'], [('ralgb5', 'intvalpy/kernel/ralgb5.py')],
  note='Explores runs of bounded length; in two and more variables the Euclidean norm is any value between the max and the sum norm.')

P('L13', 'Neumaier\'s box lies inside the tolerable solution set',
  'For every centre in the tolerable solution set the returned box is centred there, is a cube or proportional to the given weights, consists of tolerable solutions only, and is not a single point when the centre is strictly inside. Inconsistent sizes are refused, and the data are not changed.',
  IN, 'all 1x1 (thorough 2x1) matrices, listed ones up to 3x1 and 2x3; every right-hand side, centre and (1x1) weight',
  LT + 'the box leaves the set only for some right-hand sides with two or more equations.',
  [L + 'Neumaier.py'], [('Neumaier', L + 'Neumaier.py')], note='Exact arithmetic.')

P('L14', 'The Chebyshev functional equals the largest residual and is minimised as such',
  'The constituents of ChebNorm are the largest absolute residual over the interval row and right-hand side (times the weight), the value is the greatest of them, and minimize hands that function with a true subgradient to the optimiser and returns its answer.',
  IN, 'all matrices 1x1 and 1x2, listed ones 2x1, 2x2 (3x2); every right-hand side and pair of points',
  LT + 'the largest residual may be attained at either end.',
  [L + 'ChebNorm.py'], [('ChebNorm', L + 'ChebNorm.py')],
  note='Linear programs by contract, optimiser replaced by a recorder; exact arithmetic.')

P('L10', 'Partition of the parameters (PSS) never loses a solution of the bar',
  'The box returned by PSS contains every solution of every member system that lies in the given (or default) bar, for one or several queried components, whatever the matrix, right-hand side, options, and the iteration at which it is stopped. The data and the given bar are not changed. When it runs to its end, the ends it reports are attained where the signs of the other unknowns are definite.',
  ['inputs', 'configurations', 'histories'], 'listed interval matrices of two unknowns (square, tall, with zero entries), every right-hand side, bars and iteration counts up to 2',
  LT + 'a wrongly discarded subproblem loses solutions only for some data.',
  [L + 'PSS.py'], [('PSS', L + 'PSS.py')],
  note='The linear programming solver and the intersection are represented by their contracts; exact arithmetic; one unknown is not covered.')

P('L11', 'Partition of the parameters with the inverse matrix (PPS) encloses the solutions',
  'The box returned by PPS contains every solution of every member system, for one or all components and at whatever iteration the process is stopped; when it runs to its end its ends are attained by member systems. The data are not changed.',
  ['inputs', 'configurations', 'histories'], 'listed interval matrices of one and two unknowns, every right-hand side within [-10, 10] (in some cases one row fixed), stopped after 0 to 2 iterations or run to the end',
  LT + 'a wrongly discarded subproblem loses solutions only for some data.',
  [L + 'PPS.py'], [('PPS', L + 'PPS.py')],
  note='The enclosures by HBR and Gauss that it uses are represented by their contracts (L03, L01); exact arithmetic.')

P('L12', 'The subdifferential Newton method makes true Newton steps and stops truthfully',
  'Each step of the subdifferential Newton method for the interval equation A x = b in Kaucher arithmetic solves the linear system whose matrix is the derivative of A x at the current iterate and whose right-hand side is the residual A x - b, and moves by the damped solution, starting from the solution for the midpoint matrix. It stops early only when the residual of the iterate is small relative to the next one, returns the last iterate, and does not change the data.',
  IN, 'every 1x1 system and listed 2x2 matrices of proper and improper intervals, every right-hand side and iterate; up to 2 (3) steps',
  LT + 'the derivative has sixteen cases by the signs and orientations of the factors.',
  [L + 'Subdiff.py'], [('Subdiff', L + 'Subdiff.py')],
  note='The linear solver is replaced by an arbitrary answer; exact arithmetic. Convergence is not claimed.')

P('L15', 'The vertices of a system of linear inequalities are exactly those of its set',
  'Every vertex returned for a system of inequalities A x >= b with two or three unknowns satisfies the system, and consecutive vertices of the outline (of the faces) cover every edge of the set, cut by the drawing area when one is given and the set is unbounded; all corners of an unbounded set are shown without one. A set without points has no vertices, vertices are finite and do not repeat, and the data are not changed.',
  IN, 'listed matrices of up to 4 (5) inequalities including parallel, repeated and zero rows, every right-hand side within [-10, 10]',
  LT + 'degenerate, empty and unbounded sets and coinciding corners depend on the right-hand side.',
  [L + 'boundary_intervals.py', 'intvalpy/kernel/preprocessing.py'], [('lineqs, lineqs3D', L + 'boundary_intervals.py')],
  note='Corners are exactly equal or at least about 1e-3 apart, tolerance 1e-6; exact arithmetic.')

P('L16', 'Visualising a solution set passes on exactly its inequalities in each orthant',
  'For the united and the tolerable solution set of an interval system with two or three unknowns the drawing of each orthant, in the documented order, uses inequalities that hold exactly for the points of the solution set in that orthant. A given drawing area is used everywhere, whatever was drawn before, and an unknown kind of set is refused.',
  ['inputs', 'histories'], 'every 1x2 and 1x3 matrix, listed ones up to 3x2 and 2x3; every right-hand side and point',
  LT + 'the signs differ by orthant and by kind of set.',
  [L + 'boundary_intervals.py'], [('IntLinIncR2, IntLinIncR3', L + 'boundary_intervals.py')],
  note='The drawing of inequalities itself is L15; tolerance 1e-6 in three unknowns. The area chosen when none is given is not checked.')


P('S01', 'The variability measure IVE follows its definition over corner matrices',
  'ive(A, b) is the square root of the number of unknowns times the maximum of Tol, times the least condition number of the sampled matrices, times the Euclidean norm of the argument of the maximum over that of the magnitudes of the right-hand side. Every sampled matrix has ends of the interval entries as its entries, the asked number of them is taken, and the data are not changed.',
  ['inputs', 'configurations'], 'listed matrices 1x2 and 2x1, every right-hand side, argument and maximum of Tol, condition number and outcome of the sampling',
  LT + 'the sampling is random, so only wrong magnitudes would ever be noticed.',
  [L + 'system_properties.py'], [('ive', L + 'system_properties.py')],
  note='The maximization of Tol and the condition number are arbitrary answers.')
