NL = 'intvalpy/nonlinear/'
MD = 'intvalpy/models/'

P('N01', 'Krawczyk and Hansen-Sengupta never lose a zero of the system',
  'Given a function and a derivative by any interval extensions, the multidimensional and scalar Krawczyk and Hansen-Sengupta methods return a box inside the starting box that contains every zero of the system lying in the starting box, or refuse; they do not refuse a starting box with a zero before the derivative is used, and the starting box is not changed. Systems with a constant nonsingular derivative are solved: the answer is the zero itself.',
  ['inputs', 'configurations'], 'one and two equations (linear ones: up to three), any function, derivative, zero and starting box, up to 2 (thorough: 3) steps',
  'No tests exist for the methods; a lost zero depends on its place in the box, the slopes between it and the middle, and the step.',
  [NL + 'external_evaluation.py'], [('Krawczyk', NL + 'external_evaluation.py'), ('HansenSengupta', NL + 'external_evaluation.py')],
  note='The function is represented by what interval extensions guarantee for the zero (mean value form); interval operations by contract (C01, C05); '
       'the approximate inverse is arbitrary; in the multi-step case Gauss-Seidel is represented by what L02 establishes.')

P('N02', 'Global optimisation returns a lower bound of the function',
  'globopt(func, x0) returns a box inside x0 and the enclosure of the function over it, whose lower end is not above the value of the function at any point of x0, whatever interval extension is used. Boxes are halved across a widest side; it stops when the enclosure is narrower than the tolerance or after the given number of bisections; x0 is not changed.',
  ['inputs', 'histories'], 'one and two variables, any starting box, function and point, up to 3 (thorough: 4) bisections with every outcome of the enclosures',
  'No tests exist; which boxes are kept and in which order depends on the whole history of enclosures.',
  [NL + 'globopt.py'], [('globopt', NL + 'globopt.py')],
  note='The interval extension of the function is an arbitrary one; midpoints are exact.')

P('M01', 'WILS fits the stated functional with the given weights and constraints',
  'The function that fitting hands to the optimiser is the negated Tol, Uni or Uss functional (least residual or their sum) with the smoothed weights, plus the penalty for violated constraints (whose factor, when not given, outweighs the coefficients), and the vector with it is a subgradient. The optimiser starts from the given point with the given options and its point and value become the estimate; predictions multiply the data by it. The weights and the constraint are not changed, an unknown objective is refused.',
  IN, 'systems 1x2 and 2x1 (thorough 2x2) with every data, point, weights, smoothing; subgradients for listed matrices and every right-hand side within an orthant; five shapes of constraints',
  'No test fits a model; the weights, smoothing and constraints each change single terms of the objective.',
  [MD + 'WILS.py', 'intvalpy/kernel/abstract.py'], [('fit, predict', MD + 'WILS.py'), ('linear_penalty', 'intvalpy/kernel/abstract.py')],
  note='The optimiser is replaced by a recorder; exact arithmetic; points where the Uni constituent is saturated are excluded from the subgradient.')

P('M02', 'Interval polynomial regression (ISPAE) uses exact ranges and true subgradients',
  'The value of the polynomial of one feature over an interval is its exact range, in every basis. The function that fitting hands to the optimiser is the negated Tol or Uni functional of these ranges with the smoothed weights and the constant term when asked for, and the vector with it is its gradient at the point where the functional takes its value. Predictions contain the value of the estimated model at every exact point of the data. Training and test data and weights are not changed.',
  IN, 'one or two objects and features, degrees 1 and 2 in all five bases (listed cubics: value only), every data, coefficients and weights; exact arithmetic',
  'No test fits a model; inner extrema occur only for degree two and higher with wide enough data.',
  [MD + 'ISPAE.py'], [('value_of_one_col', MD + 'ISPAE.py'), ('fit, predict', MD + 'ISPAE.py')],
  note='The optimiser is replaced by a recorder and the pandas table by a stand-in. Where the Uni constituent is saturated its gradient is not checked.')

P('V01', 'Drawing interval data shows every item exactly once and in the right place',
  'IPlot.scatter draws each pair of intervals exactly once: as a dot when both are points, as an unfilled outline when one of them is, as a filled box otherwise, with exactly its four corners in order. lineqs and IntLinIncR2 draw every nonempty polygon with all its vertices in the given order. Everything goes to the chosen (by default the first) axes, and the data are not changed.',
  ['inputs', 'configurations'], 'one and two pairs of intervals, up to three polygons, single axes and tables of axes; every coordinate',
  'No tests exist; a wrong mask or corner shows only for mixtures of points, segments and boxes.',
  ['intvalpy/kernel/visualization.py'], [('IPlot', 'intvalpy/kernel/visualization.py')],
  note='The matplotlib axes are replaced by a recorder.')
