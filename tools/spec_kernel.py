IN = ['inputs']
UNIT = 'The unit tests evaluate a handful of literal intervals; '

P('C01', 'Interval arithmetic encloses every exact result',
  'For proper intervals X and Y (of either interval class, or one of them a plain number) and any reals x in X and y in Y, the exact value of x+y, x-y, x*y and x/y lies between the endpoints of the computed result whenever the operation returns. Lower endpoints are rounded down and upper endpoints are rounded up, so this holds for the floating-point results actually returned; apart from that outward rounding the result is the exact range, with both endpoints attained by endpoints of the operands.',
  IN, 'all pairs of proper intervals with finite double endpoints (results not overflowing) or integer endpoints up to 2^26, numbers of type int, float and numpy float on either side; all members x, y',
  UNIT + 'one wrong rounding direction or one wrong sign case in the product table shows only for particular operands and in the last bit.',
  [K + 'interval_arithmetics.pyx', K + 'utils_arithmetics.pyx'] if False else [K + 'interval_arithmetics.pyx'],
  [('ClassicalArithmetic operators with directed rounding', K + 'interval_arithmetics.pyx')],
  note='Rounding is modelled as an arbitrary value on the required side, within one ulp; overflow to infinity is outside. Known finding: integer endpoints beyond 2^53.')

P('C02', 'Kaucher arithmetic follows its definition and rounds outward',
  'When an operand is an improper interval or of the Kaucher class, sum, difference, product and quotient have the endpoints given by Kaucher\'s definition (product by the minimax formula over the projections, quotient as the product by the inverse), for any mix of proper, improper and plain-number operands. The floating-point result contains that exact result in the inclusion order (lower endpoint not above, upper endpoint not below). The quotient is claimed for divisors whose projection does not contain zero.',
  IN, 'all pairs of proper/improper intervals and numbers, on either side',
  UNIT + 'the Kaucher product has sixteen sign cases, each with its own formula and rounding.',
  [K + 'interval_arithmetics.pyx'], [('KaucherArithmetic operators', K + 'interval_arithmetics.pyx'), ('mixed products', K + 'interval_arithmetics.pyx')])

P('C03', 'Dual, projection, opposite, inverse and negation obey the Kaucher algebra',
  'For every interval [a, b], proper or improper: dual is [b, a], the projection is [min, max], the algebraic opposite is [-a, -b], negation is [-b, -a], and x plus its opposite and x minus its dual are [0, 0] in exact arithmetic. When the projection does not contain zero, the algebraic inverse is [1/a, 1/b] rounded outward and x times its inverse is [1, 1] up to outward rounding. The result\'s class matches its orientation (proper results are classical, improper ones Kaucher) and the operand is not modified.',
  IN, 'all finite endpoints, both interval classes',
  UNIT + 'the identities hold for all endpoints or they are useless to the algebraic solvers built on them.',
  [K + 'interval_arithmetics.pyx'], [('dual, pro, opp, inv, __neg__', K + 'interval_arithmetics.pyx')])

P('C04', 'Arithmetic is inclusion monotonic',
  'If X is contained in X\' and Y in Y\' (inclusion order: lower endpoint not smaller, upper endpoint not greater, for proper and improper intervals alike), then X op Y is contained in X\' op Y\' for addition, subtraction, multiplication and division by divisors whose projection does not contain zero.',
  IN, 'all pairs of nested operands of both classes, exact arithmetic',
  UNIT + 'monotonicity relates two evaluations, which no unit test compares.',
  [K + 'interval_arithmetics.pyx'], [('operators of both classes', K + 'interval_arithmetics.pyx')])

P('C05', 'Division by an interval containing zero raises and never returns',
  'Dividing an interval, an interval array, a number or a numpy array by an interval (or an array with an element) whose projection contains zero raises ValueError, also when zero is only an endpoint and when reached through numpy functions; dividing an interval by the number zero raises. Division by an interval whose projection does not contain zero returns an interval.',
  IN, 'all divisors containing zero, both classes, all dividend kinds, arrays with the offending element in any position',
  UNIT + 'the boundary cases (endpoint exactly zero, improper divisor, numpy dispatch) are separate code paths.',
  [K + 'interval_arithmetics.pyx', K + 'real_intervals.py'], [('zero tests before division', K + 'interval_arithmetics.pyx'), ('__array_ufunc__', K + 'interval_arithmetics.pyx')])

P('C06', 'Integer powers are the exact range of the power function',
  'For a proper interval X and an integer exponent n >= 0, X**n contains x**n for every x in X as computed in floating point, and in exact arithmetic its endpoints are exactly the range of x**n over X (so even powers of intervals containing zero start at zero); X**0 is [1, 1]. For an improper X (for even n: not negative) the power is the dual of the power of its projection.',
  IN, 'all proper intervals, exponents 0 to 4 (6 in the thorough tier)',
  UNIT + 'parity, sign and orientation cases interact.',
  [K + 'interval_arithmetics.pyx'], [('__pow__ of both classes', K + 'interval_arithmetics.pyx')],
  note='libm pow is assumed within one ulp. Improper negative intervals to even powers are excluded because the repository\'s own tests pin another convention.')

P('C07', 'Elementary functions enclose the exact range',
  'exp, log, sqrt, sin and cos of an interval contain the exact function value at every point of the interval (that lies in the function\'s domain), whether called from the package or through numpy, on single intervals, improper intervals (through their projection) and elementwise on arrays and numbers; the results are no wider than the exact range by more than a few units in the last place (1e-12 for sin and cos). log and sqrt of an interval outside their domain produce no finite range. The sign function of a proper interval is [sign a, sign b].',
  IN, 'all intervals; exp including overflow; sin and cos for |x| <= 2^40 (tightness for |x| <= 10); sqrt for positive endpoints between 1e-300 and 1e300',
  UNIT + 'whether an extremum of sin or cos falls inside the interval depends on comparing endpoint quotients with rounding; domain clipping and overflow are rare inputs.',
  [K + 'interval_arithmetics.pyx', K + 'elementary_functions.py'], [('exp, log, sqrt, sin, cos methods', K + 'interval_arithmetics.pyx'), ('array dispatch', K + 'real_intervals.py')],
  note='libm accuracy is an assumption (error below 0.55 ulp to nearest, 1.05 ulp in directed modes, exact functions axiomatised by monotonicity, range and extrema). Known finding: log near 1.')

P('C08', 'Comparisons, membership and inclusion predicates mean what they say',
  'For intervals and numbers, X < Y, <=, >, >=, == and != compare both endpoints (a number y is the interval [y, y]), membership x in Y tests that Y contains the number or interval x, and subset/superset/proper variants/contain compare endpoints accordingly, on arrays for all elements (contain: elementwise). Interval arrays compare elementwise with arrays, intervals, numbers and numpy arrays; an element belongs to an interval array when some entry contains it. Comparing with something that is neither number nor interval raises TypeError.',
  IN, 'all operand kinds (both interval classes, int, float, numpy float), all values including equal endpoints',
  UNIT + 'strict versus non-strict comparisons differ only on ties.',
  [K + 'interval_arithmetics.pyx', K + 'real_intervals.py', K + 'utils.py'], [('comparison methods', K + 'interval_arithmetics.pyx'), ('array comparison methods', K + 'real_intervals.py'), ('subset, contain', K + 'utils.py')])

P('C09', 'Interval characteristics equal their definitions',
  'Lower and upper ends, width, radius, midpoint, magnitude, mignitude, absolute value and Ratschek\'s functional of an interval equal their textbook definitions in exact arithmetic (mignitude and absolute value: of proper intervals; mignitude is zero exactly when the interval contains zero). The same values come from the attributes and from the package functions, elementwise on arrays of intervals with unchanged shape, and for plain numbers and arrays of numbers; dual, projection, opposite, inverse, negation and absolute value act elementwise on arrays.',
  IN, 'all endpoints, both classes, scalars and arrays',
  UNIT + 'off-by-a-case errors (zero on the boundary, improper intervals) need special endpoints.',
  [K + 'interval_arithmetics.pyx', K + 'real_intervals.py', K + 'utils.py'], [('properties of BaseTools', K + 'interval_arithmetics.pyx'), ('module functions', K + 'utils.py')])

P('C10', 'Interval construction stores exactly the described intervals',
  'Interval(...) builds from two numbers, pairs, lists, tuples or numpy arrays the intervals with exactly those endpoints: sorted by default, kept as given (and improper when decreasing) with sorting off, midpoint plus/minus radius in midpoint-radius mode, where a negative radius is rejected. asinterval turns numbers into point intervals, keeps intervals unchanged (in mixed lists too) and rejects anything else; zeros, full and eye have the requested shape and entries.',
  IN, 'all endpoint values and types, every accepted spelling and shape up to 2x3',
  UNIT + 'the spelling, sorting and radius options multiply into many constructor paths.',
  [K + 'real_intervals.py', K + 'preprocessing.py', K + 'new_objects.py'], [('Interval, SingleInterval', K + 'real_intervals.py'), ('asinterval', K + 'preprocessing.py'), ('zeros, full, eye', K + 'new_objects.py')])

P('C11', 'The caller\'s rounding mode is neither disturbed nor relied on',
  'Every interval operation, including those that raise, leaves the floating-point rounding mode of the thread as it found it. Sums, differences, products and quotients enclose the exact results even when the caller has set another rounding mode.',
  ['inputs', 'configurations'], 'all operations from each of the four IEEE rounding modes, all operand values including those that raise',
  'The tests run in round-to-nearest only and never look at the mode; a leaked mode silently corrupts all later arithmetic.',
  [K + 'interval_arithmetics.pyx'], [('fesetround around each operation', K + 'interval_arithmetics.pyx')])

P('C12', 'Results do not depend on how an operand is represented',
  'Replacing a number by its point interval, or by the same number of another type (int, float, numpy float), on either side of an operator, gives the same interval in exact arithmetic. numpy\'s add, subtract, multiply and true_divide applied to any mix of intervals, interval arrays, numbers and numpy arrays give what the operators give on the single elements, with operands in the order written.',
  IN, 'all operators, both classes, both sides, scalars and arrays of length 2',
  UNIT + 'reflected operators and numpy dispatch are separate implementations of the same operation.',
  [K + 'interval_arithmetics.pyx', K + 'real_intervals.py'], [('reflected operators and __array_ufunc__', K + 'interval_arithmetics.pyx'), ('__array_ufunc__ of arrays', K + 'real_intervals.py')])

P('C13', 'Interval arrays behave elementwise and never alias or modify operands',
  'Operators and integer powers on interval arrays give, element by element and with numpy broadcasting, what the operators give on the single intervals, and leave their operands unchanged; in-place operators give the same values; matrix products are the sums of element products in every combination of interval and real matrices and vectors. Indexing, slicing, iteration, reversal, transposition and reshaping return the right elements; assignment changes the addressed elements only; copies are independent; deleting an entry, row or column leaves the others and a consistent shape.',
  ['inputs', 'histories'], 'arrays up to 2x2 and 2x3, all element values, operand kinds and both classes; assignments and deletions followed by reads',
  UNIT + 'aliasing and bookkeeping faults appear only after a sequence of operations.',
  [K + 'real_intervals.py'], [('ArrayInterval', K + 'real_intervals.py')])

P('C14', 'Intersection, distance, comparison matrix, diagonal and vertices are exact',
  'intersection returns exactly the common points elementwise (intervals, arrays and numbers in any combination) and NaN ends when there are none, where intervals closer than 1e-15 may count as touching. dist is the Chebyshev distance of endpoints (or the p-norm of the elementwise distances) and is symmetric, compmat is Ostrowski\'s comparison matrix, diag extracts or builds the k-th diagonal, and the vertices of an array are all combinations of endpoints.',
  IN, 'all proper intervals (dist: also improper), arrays up to 2x3',
  UNIT + 'touching, nested and disjoint configurations are measure-zero boundaries.',
  [K + 'utils.py', K + 'preprocessing.py', K + 'real_intervals.py'], [('intersection', K + 'preprocessing.py'), ('dist, compmat, diag', K + 'utils.py'), ('vertex', K + 'real_intervals.py')])

P('T01', 'The named test systems have their documented entries',
  'The Neumaier, Shary and Toft systems are returned with the documented matrix and right-hand side for every order and every admissible parameter value, with the documented defaults, and inadmissible Shary and Toft parameters are rejected.',
  ['inputs', 'configurations'], 'orders 1 to 5, every parameter value',
  'The tests compare a few literal parameter values.',
  [K + 'new_objects.py'], [('Neumaier_system, Shary_system, Toft_system', K + 'new_objects.py')])
