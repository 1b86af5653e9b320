PROPS = []
NOT_APPLICABLE = []
TECH_REPLAY = 'TLA+ model (TLC): exhaustive check of the model, TLC-generated behaviours replayed into the code'
NOTE_REPLAY = ('TLC checks the specification exhaustively within small constants; behaviours it generates (seeded) carry '
               'exact rational expectations and are replayed into a fresh build of the working tree, every observable compared '
               'after every step. Trusted: TLC, the harness, and a floating point tolerance far above rounding error. '
               'Bounds: the generated behaviours, not all inputs.')


def P(id, title, statement, over, text, why, files, mech, observe, technique=TECH_REPLAY, level_note=NOTE_REPLAY, level='model_checking', design=''):
    PROPS.append(dict(design=design, id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files.split(), mechanism=[{'name': n, 'where': w} for n, w in mech],
                      observe=observe, technique=technique, level_note=level_note, level=level))


def NA(pid, reason):
    NOT_APPLICABLE.append({'property': pid, 'reason': reason})


CHEB = 'funpy/fun.py funpy/cheb/chebtech.py funpy/cheb/ufuncs.pyx funpy/cheb/detail.pyx'
P('F01', 'Arithmetic of functions is pointwise arithmetic',
  'The sum, difference, product, negation and small positive integer power of functions on an interval - in ordinary, '
  'reflected and in-place form, and with numbers or one number per component as the other operand, division by numbers included - '
  'equal the pointwise result at every point of the interval, component by component, up to rounding. This holds whatever the lengths of the '
  'operands, their number of components, the interval, the way they were built and what was done with them before.',
  'inputs histories', 'all operands (lengths, columns, intervals, zero/constant/sparse/high-degree functions, shared operands) and all sequences of operations',
  'tests add and multiply a handful of fixed smooth functions on [-1, 1]; they cannot range over lengths, columns, intervals, aliased operands and operation sequences',
  CHEB, [('coefficient space sums and products with truncation of negligible coefficients', 'funpy/cheb/ufuncs.pyx')],
  ['values of the result on a dense grid after every operation'],
  design='`spec/Cheb.tla` defines the exact algebra, `spec/ChebLaws.tla` checks it against pointwise semantics (evaluation homomorphism, commutativity, Leibniz, ...) exhaustively over small series; `spec/FunStore.tla` generates histories of arithmetic over a store of functions; `harness/funstore.py` replays them.  ~2 x 10^4 operations quick, ~10^6 thorough.')
P('F02', 'Functions are values: only the target of an in-place operation changes',
  'No operation on functions - arithmetic, calculus, evaluation, inner products, changes of representation, copies, component selection - changes '
  'any other function, its operands included; results and copies are independent of what they were made from. An in-place operation changes '
  'exactly the function it is applied to, and every name of that function sees the change.',
  'histories inputs', 'all sequences of operations over a store of functions with several names per function',
  'tests look at the result of one operation and never at the operands or at other functions afterwards',
  CHEB, [('every operation allocates new coefficients; in-place operations rebind the coefficients of one object', 'funpy/cheb/ufuncs.pyx')],
  ['values of every live function after every operation', 'identity of result objects'],
  design='`spec/FunStoreMC.tla` checks the store machine exhaustively (action property Local: an operation changes only its target; Meaning: the store agrees with shadow values); the replay compares *all* live functions after every operation and checks object identity of results.')
P('F03', 'Operations that make no sense are refused and change nothing',
  'Combining functions that live on different intervals (arithmetic, in-place arithmetic, inner products), evaluating a function outside its interval '
  'and selecting a component that does not exist raise an error and leave every function unchanged. '
  'At every point of the interval, end points included, evaluation returns the value of the function.',
  'inputs histories', 'all pairs of intervals (nested, shifted left or right, different length), all functions, all histories',
  'tests use one interval nearly everywhere and contain no negative cases for mismatching intervals',
  CHEB + ' funpy/mapping.py', [('interval comparison before dispatch; range assertion on mapped points', 'funpy/fun.py')],
  ['exception or not', 'values of every live function afterwards'],
  design='the store machine contains disabled operations as `Raises` actions (mismatching intervals, points outside, missing components); the replay requires an exception and an unchanged store.')
P('F04', 'Derivatives and integrals are exact for every interval and component',
  'For every function on [a, b] the n-th derivative, the indefinite integral that vanishes at a, and the definite integral over [a, b] equal, component '
  'by component and up to rounding, the exact ones with respect to the variable on [a, b].',
  'inputs histories', 'all functions (any length, columns, interval), derivative orders, and results of earlier operations as arguments',
  'tests check a few functions on [-1, 1] and few orders',
  CHEB + ' funpy/cheb/diff.py', [('coefficient recurrences and scaling with the half length of the interval', 'funpy/cheb/diff.py funpy/fun.py')],
  ['values of derivative and integral functions on a dense grid', 'definite integrals'],
  design='exact derivative/integral operators, laws `CumDiff DiffSum Parts Leibniz` by TLC, histories replayed as in F01.')
P('F05', 'Changing the representation never changes the function',
  'Lengthening, simplifying, copying, saving and loading, converting through values, coefficients or ultraspherical coefficients, selecting, slicing, '
  'iterating over and stacking components, restricting to a subinterval, and real part and conjugate of real functions return the '
  'same function (or exactly the requested part of it) with the same interval and components, up to rounding.',
  'inputs histories', 'all functions and all sequences of representation changes and arithmetic',
  'tests check a few round trips of fixed functions',
  CHEB + ' funpy/ultra.py', [('prolong, simplify, polyfit/polyval, HDF5 attributes, restrict', 'funpy/cheb/chebtech.py funpy/cheb/detail.pyx')],
  ['values on a dense grid, interval and number of components after every step'],
  design='representation changes are identity actions of the store machine (or exact restrictions/stackings); histories mix them with arithmetic.')
P('F06', 'Inner products and norms are the exact integrals',
  'Inner products (Gram matrices of the components), the scalar product, the Chebyshev-weighted inner product, the L2 and L4 norms, and the H1 and H2 Sobolev norms of functions '
  'equal the corresponding exact integrals over the interval, up to rounding.',
  'inputs histories', 'all functions, intervals, numbers of components, operands of different length',
  'tests check a few inner products on [-1, 1]',
  CHEB + ' funpy/cheb/pts.py', [('Clenshaw-Curtis quadrature on a grid long enough for the product', 'funpy/cheb/chebtech.py funpy/cheb/pts.py')],
  ['returned numbers'],
  design='exact integrals of exact products; L4 as the integral of the fourth power, Sobolev norms from exact derivatives.')
P('F08', 'All zeros and the extreme values of a function are found',
  'The zeros returned for a function with simple zeros inside its interval are exactly all of them, component by component, to the accuracy their conditioning allows; '
  'the extreme values (of periodic functions too) and the maximum norm are those of the function, and are taken at the returned positions. Asking for them changes nothing.',
  'inputs histories', 'all functions with known zeros or turning points of degree up to 1300, one to three components, all domains, after arithmetic, restriction and lengthening',
  'tests check a few low degree functions; degrees that need subdivision and functions with zero or constant components are not sampled',
  CHEB + ' funpy/cheb/minmax.py funpy/trig/trigtech.py', [('colleague matrix eigenvalues with subdivision', 'funpy/cheb/detail.pyx'), ('turning points', 'funpy/cheb/minmax.py')],
  ['zeros, extreme values, positions, maximum norm', 'the function afterwards'],
  design='Roots.tla: components P(T_d(x)) with known zeros or turning points of P; TLC checks that the bookkept points are simple zeros, that none is missing (sign changes on a grid) and that '
         'nothing exceeds the extreme values; behaviours (build, scale, multiply, restrict, lengthen, add components, ask) are replayed with the zeros in closed form.')
P('F07', 'Functions given by formulas are resolved, no longer than needed',
  'A function constructed from a callable, non-periodic or periodic, takes its values over the whole interval up to rounding (relative to its size; for small non-periodic functions, relative to one), '
  'is about as short as that accuracy allows, and says whether it is resolved; one limited in length says that it is not, and is as good as an interpolant of that length. '
  'The magnitude of the function and the way it is sampled do not matter.',
  'inputs configurations', 'all smooth functions (rational, algebraic, transcendental, of one or two components), domains, magnitudes from 1e-6 to 1e6, sampling options and length limits',
  'tests construct a dozen fixed functions of size about one with the default options',
  CHEB + ' funpy/cheb/refine.py funpy/trig/trigtech.py funpy/trig/refine.py funpy/trig/trig_simplify.py', [('adaptive grids and chopping', 'funpy/cheb/detail.pyx'), ('adaptive grids and chopping, periodic', 'funpy/trig/trigtech.py')],
  ['values, length, resolved flag of constructed functions'],
  design='Analytic.tla: registers of expressions over polynomials and geometric kernels with rational enclosures; TLC checks that enclosures contain all exact values and that quotients cancel; '
         'behaviours construct the functions in every way (and scaled, and with limits) and compare values at irregular points, lengths with the known decay of the coefficients, and the flag.')
P('F09', 'Quotients, powers and smooth functions of functions are pointwise',
  'The quotient of functions, reciprocals, real powers of positive functions, absolute values of functions with a sign and the numpy functions (exponential, logarithm, square root, trigonometric, ...) of them '
  'equal the pointwise result over the whole interval up to rounding, component by component, in ordinary, in-place and target form, non-periodic and periodic; in-place forms and targets change the target and nothing else. '
  'A function equals its copy and differs from one with other values.',
  'inputs histories', 'all operands for which the result is smooth on the interval, and all sequences of such operations on three functions, one or two components, all domains',
  'tests apply a few functions to one operand each; they do not apply them to results, in place, or to functions of high degree',
  CHEB + ' funpy/trig/trigtech.py funpy/trig/ufuncs.py', [('numpy functions of functions', 'funpy/cheb/ufuncs.pyx'), ('evaluation by value', 'funpy/cheb/chebtech.py')],
  ['values of all registers after every operation', 'identity of targets', 'equality and inequality'],
  design='Analytic.tla (see F07): an action is enabled only where the enclosures show that its result is smooth; after every step all three registers are compared with the expressions.')
P('F10', 'Orthogonal factors, projections, functionals and norms are exact',
  'Any non-periodic function is the product of the two factors of its orthogonal factorisation, the second one triangular with nonnegative diagonal and the first with orthonormal columns when the columns are independent, '
  'so that best approximations follow from it. Linear functionals made from a function give the inner product with their argument, including derivatives up to their order, weighted or not; '
  'inner products, Sobolev norms of orders 2 and 4, signed norms and normalisation agree with the exact integrals on every domain, and none of these changes its arguments.',
  'inputs histories', 'all polynomial functions with one to four columns, dependent or not, lengths equal or not, all domains, all orders of differentiation, sequences of combinations and questions',
  'tests compute one factorisation on the standard domain; they do not test functionals, norms with derivatives, dependent columns or other domains',
  'funpy/fun.py funpy/qr.py funpy/cheb/qr.py funpy/functional.py funpy/norms.py funpy/cheb/chebtech.py',
  [('Householder triangularisation of functions', 'funpy/qr.py'), ('discrete Legendre basis', 'funpy/cheb/qr.py'), ('coefficients of functionals', 'funpy/functional.py')],
  ['factors, products with their transposes', 'values of functionals, norms and products', 'arguments afterwards'],
  design='Gram.tla: Gram-Schmidt without square roots, Gram matrices, Sobolev products over the rationals; TLC checks factorisation, orthogonality, rank, semidefiniteness, integration by parts and the normal equations; '
         'behaviours (combine columns, multiply, swap, factorise, project, pair, norms) are replayed against the real functions.')
TRIG = 'funpy/fun.py funpy/trig/trigtech.py funpy/trig/ufuncs.py funpy/trig/operations.py'
P('P01', 'Arithmetic of periodic functions is pointwise arithmetic',
  'The sum, difference, product, negation and small positive integer power of periodic functions, real or complex - in ordinary, reflected and '
  'in-place form, and with numbers (complex ones included) or one number per component as the other operand - equal the pointwise result over '
  'the whole period, component by component, up to rounding, whatever the operands and their history. Functions that are real stay real.',
  'inputs histories', 'all operands (lengths even and odd, columns, periods, real and complex, zero/constant/sparse) and all sequences of operations',
  'tests combine a few fixed real functions; they do not mix lengths (even and odd), real and complex operands, in-place results and periods',
  TRIG, [('values and coefficients kept side by side and updated together', 'funpy/trig/ufuncs.py')],
  ['values of the result at irregular points of the period after every operation'],
  design='`spec/Four.tla` (Fourier series over the Gaussian rationals) with `spec/FourLaws.tla` exhaustively checked; `spec/TrigStore.tla` generates histories; `harness/trigstore.py` replays them.')
P('P02', 'Calculus of periodic functions is exact',
  'Derivatives of any order, indefinite integrals of functions with zero mean, definite integrals, inner products, L2, H1 and H2 norms, shifts by a fraction of the period, '
  'circular convolutions and coefficientwise products of periodic functions equal the exact ones over the actual period, component by component, up to rounding. '
  'The indefinite integral of a function without zero mean is refused.',
  'inputs histories', 'all periodic functions (real/complex, lengths, columns, periods including multiples of pi) and histories',
  'tests check a few cases on the standard period',
  TRIG, [('multiplication of the coefficients by powers of the wave number', 'funpy/trig/trigtech.py funpy/trig/operations.py')],
  ['values of the resulting functions', 'returned numbers', 'refusals'],
  design='exact operators on Fourier series (laws DiffCum, Adjoint, ShiftEval, ConvShift, DotMean ...); results are Gaussian rationals times powers of pi.')
P('P03', 'Periodic functions are values, whatever their representation',
  'Copying, lengthening, simplifying, conversion through values or coefficients, selecting components, taking real and imaginary part and conjugate, '
  'and sampling on an interval return the same periodic function (or exactly the requested part). No operation changes any function but the target of an '
  'in-place operation; mismatching periods, points outside and missing components are refused and change nothing.',
  'histories inputs', 'all histories of operations over a store of periodic functions with several names per function',
  'tests look at single operations and never at the operands or other functions afterwards',
  TRIG, [('copies in every operation; consistent values/coefficients', 'funpy/trig/trigtech.py')],
  ['values of every live function after every operation', 'identity of results', 'exceptions'],
  design='`spec/TrigStoreMC.tla` checks the machine exhaustively against shadow values; the replay compares all live functions after every operation.')
VSP = 'funpy/vectorspaces/base_state.py funpy/vectorspaces/cont_state.py funpy/vectorspaces/deflation_state.py funpy/vectorspaces/tp_state.py funpy/vectorspaces/tp_cont_state.py'
P('V01', 'State vectors form a vector space, component by component',
  'For state vectors made of functions and named parameters (one function; one function and one parameter; one or two functions and two parameters), sums, differences, '
  'componentwise products, negation, multiplication, division and shift by numbers, ordinary, reflected and in place, zero and one vectors, and real and imaginary part act on every '
  'function and every parameter alike. The result is a state of the same kind that keeps the inner product weights of its (left) operand.',
  'inputs histories', 'all states (kinds, numbers of components, intervals, weights, lengths) and all histories of arithmetic including in-place operations and several names for a state',
  'tests add, subtract, multiply and divide two fixed states per kind, with one function component, and never chain operations',
  VSP + ' funpy/vectorspaces/parameter.py', [('array ufunc dispatch over functions and parameters', 'funpy/vectorspaces/base_state.py')],
  ['values of every function and parameter after every operation', 'weights', 'kind of the result'],
  design='`spec/StateStore.tla`: exact store machine of state vectors; `spec/StateStoreMC.tla` checks it exhaustively (names, inner product laws, locality); `harness/statestore.py` replays generated histories and compares all live states after every operation.')
P('V02', 'Parameters keep their names and are never lost or duplicated',
  'Arithmetic and copies keep the names of the active parameters and all other parameters of the problem. An active parameter is never also listed among the others; '
  'making a state of another kind or with other active parameters from a state keeps the function and the value of every parameter that is not newly set, the formerly active ones included. '
  'Two active parameters with the same name are refused.',
  'histories inputs', 'all parameter sets and histories of arithmetic, copies and changes of the active parameters',
  'tests cover the constructors only',
  VSP + ' funpy/vectorspaces/namespace.py', [('removal of active parameters from the namespace', 'funpy/vectorspaces/base_state.py')],
  ['names and values of all parameters after every operation', 'refusals'],
  design='same machine; invariant NamesOK and action property Keeps by TLC; clause "names" of the replay.')
P('V03', 'States are values; files and coefficient vectors hold all of them',
  'Copies, results of arithmetic, reading back a continuation state from a file, conversion to a coefficient vector and back, lengthening and simplifying give the same state and share nothing with the original: '
  'an operation changes no state other than its in-place target, and a refused operation (different intervals or kinds) changes none at all.',
  'histories inputs', 'all histories of operations over a store of states with several names per state',
  'tests compare one result at a time and write one state to a file',
  VSP, [('deep copies of functions, parameters and namespace', 'funpy/vectorspaces/base_state.py')],
  ['every function, parameter, weight and namespace entry of every live state after every operation'],
  design='same machine; action property Local; clauses "interference" and "alias" of the replay.')
P('V04', 'Inner products and norms of states are those of the product space',
  'The inner product of two states is the weighted sum of the integrals of the products of their functions and of the products of their parameters (also with the Chebyshev weight for the functions); '
  'norms are the corresponding weighted 2- and 4-norms, normalising divides every component by the norm, and results of arithmetic on a state with a tangent carry a tangent of norm one.',
  'inputs histories', 'all states, weights and histories',
  'tests do not check inner products, norms or weights of states',
  VSP + ' funpy/vectorspaces/mp_state.py', [('sum over functions and parameters with offsets into the weights', 'funpy/vectorspaces/base_state.py')],
  ['returned numbers', 'components of the normalised state and of the tangent'],
  design='exact rational inner products; symmetry, bilinearity, positivity and Cauchy-Schwarz are checked by TLC on the model.')
NWT = 'funpy/newton/nleq_err.py funpy/newton/newton_standard.py funpy/newton/qnerr.py funpy/newton/giant_gbit.py funpy/linalg/gbit.py'
P('N01', 'Newton solvers report success only for a solution',
  'A nonlinear solver (plain, error oriented damped, quasi-Newton, or inexact Newton) reports success only if the last correction, computed at the reported point minus that correction, is shorter than '
  'the requested tolerance, and then returns the point with the correction applied; otherwise it reports failure. Plain Newton applies every correction in full.',
  'inputs schedules', 'all sequences of answers of the linear solves (corrections, failures), parameters, inner products, kinds of vectors',
  'tests solve a handful of well-behaved problems that converge',
  NWT, [('convergence test on the newest correction', 'funpy/newton/nleq_err.py funpy/newton/qnerr.py')],
  ['result, success flag'],
  design='`spec/Nleq.tla`, `spec/QnErr.tla`, `spec/Giant.tla`: the solvers as state machines against an arbitrary environment (every linear solve is answered nondeterministically with a rational correction or a failure), '
         'invariant SuccessMeansConverged checked by TLC; `harness/newtonscript.py` plays the environment of generated behaviours against the code on arrays, weighted arrays, functions and states.')
P('N02', 'Damping follows the monotonicity test',
  'The damped Newton solvers accept a step only if the simplified correction is shorter than the ordinary one (restricted: shorter by the factor 1 - damping/4), predict and reduce the damping factor '
  'by the error oriented formulas, never let it exceed one, and give up when it falls below its minimum; steps are neither skipped nor repeated.',
  'inputs schedules', 'all contraction histories: sequences of corrections and simplified corrections, initial damping factors, minima, restricted or not, switching to the quasi-Newton phase and back',
  'tests check the solution only; wrong damping still converges on easy problems',
  NWT, [('prediction and a posteriori control of the damping factor', 'funpy/newton/nleq_err.py funpy/newton/giant_gbit.py')],
  ['every point at which the solver linearises or evaluates the residual'],
  design='invariants Monotone, LamOK; every linearisation and every right hand side the code asks for must be the one of the behaviour, in exact arithmetic away from ties.')
P('N03', 'Newton solvers stop, fail and call back as promised',
  'A failing linear solve, a callback that asks to stop, or the iteration limit end a nonlinear solver with a report of failure and not with an exception; the number of linearisations and iterations is within the limit and '
  'reported correctly, callbacks come once per step in order with the length of the step, and the initial guess is left unchanged.',
  'schedules fault_sequences', 'all points at which a linear solve can fail or a callback can ask to stop, all iteration limits',
  'tests contain no failing solves, limits or interruptions',
  NWT, [('limit, callback and failure exits', 'funpy/newton/nleq_err.py funpy/newton/qnerr.py funpy/newton/newton_standard.py')],
  ['success flag, counters, sequence of callbacks, exceptions, the initial guess'],
  design='failures and refusals are environment actions of the machines; clauses count, limit, callback, guess, error of the replay; TLC invariants Limited, FailsFail, StopStops, CallbacksCount.')
P('N05', 'Quasi-Newton corrections follow the rank one update recursion',
  'The quasi-Newton iteration uses one linearisation; its corrections are those of the error oriented Broyden recursion over all earlier corrections in the given inner product, it applies each correction once, '
  'and stops with failure when the contraction factor exceeds its bound or the iteration limit is reached.',
  'inputs schedules', 'all sequences of corrections (two-dimensional, any inner product), started by itself or by the damped solver',
  'one wrong term in the recursion only slows convergence, which tests do not measure',
  'funpy/newton/qnerr.py', [('recursion over earlier corrections', 'funpy/newton/qnerr.py')],
  ['every point at which the residual is evaluated, result, success'],
  design='`spec/QnErr.tla` on vectors of two rationals with a weighted inner product; invariants Contracts, Applied, Bounded.')

P('N04', 'Deflation keeps away from known solutions and learns exactly the new ones',
  'The deflation factor is the product over all known solutions of the shifted inverse distances, whatever the order in which they were learnt; its derivative and the deflated Newton correction are exact, so that the factor grows without bound towards known solutions and the deflated linear system has the solution of the rank one corrected system. '
  'A search either fails and changes nothing, or returns a solution that was not known before, which it remembers exactly if asked to; a search that starts next to a solution while none is known finds one.',
  'histories inputs', 'all sets and orders of known solutions, shifts and exponents, points and directions; all histories of searches, refused searches and told solutions on problems with several solutions',
  'tests search for two or three solutions of one problem and check neither the derivative nor what is remembered',
  'funpy/newton/deflation.py funpy/newton/newton_seeker.py funpy/newton/FrechetDeflated.py funpy/newton/FrechetDeflatedPrecond.py', [('factor and derivative over all known solutions', 'funpy/newton/deflation.py')],
  ['deflation factor, its derivative in a direction, the deflated correction', 'solutions returned and remembered'],
  design='`spec/Deflate.tla`: exact deflation machine on functions with rational coefficients (invariants: independence of the order, product rule, linearity, blow-up, inverse); `spec/Seeker.tla`: abstract search machine, checked exhaustively; '
         '`spec/SeekPlan.tla` generates searches on problems with constant solutions, `harness/seeker.py` runs and records them, and TLC decides with `spec/SeekerTrace.tla` whether the records are behaviours of the machine.')

COL = 'funpy/colloc/source/compiler.py funpy/colloc/chebOp.py funpy/colloc/LinSysBase.py funpy/colloc/LinSys.py funpy/colloc/coeffsDiscretization.py funpy/colloc/ultraS/ultraS.py funpy/cbcode.py'
P('C01', 'Ultraspherical representations all describe the same function',
  'Whatever sequence of changes of basis, differentiations and multiplications is applied to a coefficient vector that is long enough, it keeps representing the exact function: conversions between the ultraspherical bases (in both directions, one or several orders at a time, as matrices or on functions), derivatives expressed in the basis of their order, multiplication operators of any order, integrals and point values are those of that function. Products that do not fit give exactly the leading coefficients, and operators never change the functions they are made of.',
  'inputs histories', 'all polynomials with rational coefficients of degrees up to 110, all orders up to 5, all sequences of conversions, derivatives and products, all storage formats',
  'tests compare a handful of fixed small matrices', 'funpy/colloc/ultraS/matrices.py funpy/colloc/ultraS/transform.py funpy/ultra.py funpy/fun.py',
  [('conversion, differentiation and multiplication matrices', 'funpy/colloc/ultraS/matrices.py'), ('conversion of coefficient vectors', 'funpy/ultra.py')],
  ['coefficient vectors after each operation', 'values and integrals of the functions they represent'],
  design='`spec/Ultra.tla`: a machine carrying the exact rational function, its basis and the length of the vector; laws (value at 1, both formulas of the derivative) are model checked, behaviours are replayed into the matrices.')
P('C02', 'A discretised problem represents the stated equations and conditions',
  'For every system of differential equations, boundary conditions and integral constraints, the discretised residual at any state consists of the values of the boundary conditions followed by the exact coefficients of the equations in the basis belonging to the order of the problem; '
  'evaluating the residual as a function gives the equations applied to the state, its norm is the sum of the norms of equations and conditions, and the linear system has as many rows and columns as that prescribes, for the current parameters and number of coefficients whatever was done before.',
  'programs inputs histories', 'all polynomial differential equations with one or two unknowns, orders up to six, parameters, known functions, integrals; all point conditions with derivatives; intervals; histories of parameters, sizes and states',
  'tests contain four equations and check only solutions',
  COL, [('translation of equations, boundary conditions and constraints', 'funpy/colloc/source/compiler.py funpy/colloc/LinSysBase.py')],
  ['residual vector', 'residual function and norm', 'boundary rows and shape of the matrix'],
  design='`spec/Expr.tla`: exact meaning and Frechet derivative of expression trees on rational Chebyshev series, ultraspherical bases; laws checked by TLC over all small trees (`spec/ExprLaws.tla`); `spec/Bvp.tla` grows random problems and histories, '
         '`harness/bvp.py` writes them as text and plays them against the operator, the linear system and the discretisation.')
P('C03', 'The linearisation is the derivative of the residual',
  'At every state, the matrix of the linearised problem applied to any direction gives the exact derivative of all equations in that direction, including integral terms, products, powers, nested derivatives and coupling between unknowns; '
  'derivatives with respect to a parameter are those of the equations.',
  'programs inputs', 'all polynomial differential equations with one or two unknowns and integrals of them, all states and directions, all parameters',
  'Newton iterations converge (slowly) with many wrong derivatives, and tests look at what they converge to',
  COL + ' funpy/colloc/ultraS/matrices.py', [('symbolic derivative and splitting into coefficients of derivatives and integrals', 'funpy/colloc/source/compiler.py')],
  ['the matrix applied to coefficient vectors', 'parameter derivatives'],
  design='actions Apply and DPar of `spec/Bvp.tla`; the derivative in the specification is checked by TLC against exact difference quotients (invariants Frechet, Lin, ParD of ExprLaws).')
P('C04', 'Linearised problems are solved whatever the method',
  'Whenever the linearised problem has a well determined solution, the exact solvers (LU and QR) return it, as functions on the interval of the problem, and report success; linearising, solving and evaluating residuals never change the state at which they are done.',
  'programs inputs histories', 'all generated problems with square, well-conditioned systems, all right hand sides with known solutions, both methods',
  'tests solve one linear problem',
  COL + ' funpy/newton/NewtonSystem.py funpy/linalg/exact_linear_solver.py funpy/linalg/qr_chol.py', [('assembly, projection and conversion back to functions', 'funpy/newton/NewtonSystem.py')],
  ['returned functions and success flag', 'the state after the operations'],
  design='action Solve of `spec/Bvp.tla`: the right hand side is the exact image of known functions, which have to come back; ill-conditioned systems are left out by their computed condition number.')
P('C05', 'Adaptive refinement stops with an answer two grids agree on',
  'Adaptive solves work on strictly growing grids, never smaller than the guess and never beyond the requested limits, each solve starting from the best solution so far; they stop with success exactly when two successive solutions agree within the tolerance, or when the last grid is reached. The answer is always the guess or a solution the nonlinear solver reported as successful, failed solves never change it, and after the given number of failures without any success the search is given up and reported as failed.',
  'schedules configurations', 'all sequences of outcomes of the nonlinear solver (success or failure, near or far solutions), all limits, sizes of guesses and kinds of states',
  'tests solve one problem, for which no solve fails', 'funpy/colloc/adapt.py funpy/colloc/chebOp.py funpy/vectorspaces/base_state.py',
  [('adaptive loop', 'funpy/colloc/adapt.py')], ['sizes of the grids and starting points of the solves', 'answer, success and iteration count'],
  design='`spec/Adapt.tla`: the loop with the nonlinear solver as adversary; seven invariants are model checked over all outcomes, behaviours are played against the loop by a scripted solver.')
P('C07', 'Removing, adding and permuting rows keeps all other entries',
  'Deleting rows or columns (one or many, in any order and storage format), appending rows, permuting rows or columns and dropping entries below machine precision leave exactly the entries they should at exactly the positions they should, and change nothing else: operations that return a new matrix leave their arguments alone. Splitting boundary entries off stacked coefficient vectors and putting them back is lossless.',
  'inputs histories', 'all matrices up to 7 by 7 with zeros, numbers, entries just below and above machine precision, all sequences of operations, all storage formats',
  'tests delete a few fixed rows', 'funpy/colloc/sparse/csr.py funpy/colloc/sparse/csc.py funpy/colloc/tools.py funpy/support/tools.py',
  [('row operations on compressed matrices', 'funpy/colloc/sparse/csr.py'), ('column operations', 'funpy/colloc/sparse/csc.py')],
  ['entries of resulting matrices and vectors', 'arguments after each call'],
  design='`spec/Pack.tla`: matrices as sequences of rows, every operation defined index by index; one-by-one deletion and splitting laws are model checked, behaviours are replayed into all storage formats.')
P('C08', 'Linear combinations and adjoints of linear operators',
  'Sums, differences, negatives and scalar multiples (from either side) of linearisations, at the same or different points and parameters, act on functions as the corresponding combination of their actions, including integral terms and constraints; and forming them changes none of the operators involved. For operators with constant coefficients the adjoint exchanges the roles of equations and unknowns and changes the sign of odd derivatives.',
  'programs inputs', 'all generated equations with one or two unknowns, pairs of points and parameters, coefficients and functions the operators are applied to',
  'tests form no combinations of operators', 'funpy/colloc/quasiOp.py funpy/colloc/quasiOpBlock.py funpy/colloc/linBlock.py funpy/colloc/ultraS/ultraS.py',
  [('operator arithmetic', 'funpy/colloc/quasiOpBlock.py'), ('discretised adjoint', 'funpy/colloc/ultraS/ultraS.py')], ['coefficients of the images of functions'],
  design='actions Comb and Adj of `spec/Bvp.tla`: the exact image is the combination of two exact Frechet derivatives; for constant coefficients the adjoint is the transposed operator between two reflections.')
P('C10', 'Solving boundary value and eigenvalue problems gives their answers',
  'Solving a boundary value problem with success gives a function that satisfies equations and boundary conditions: for linear problems, and for nonlinear ones started close to a solution, it is that solution, whatever method, guess, interval, order and way of writing the problem, and stable problems are solved; the reported residual belongs to the answer. Computed spectra of reaction diffusion systems linearised at constant states contain the leading exact eigenvalues and no others among them.',
  'programs inputs configurations', 'all generated linear and nonlinear problems of order 1 to 4 with one or two unknowns and known polynomial solutions, Dirichlet, Neumann, Robin and clamped conditions, five nonlinear solvers, adaptive or fixed grids; reaction diffusion systems with four kinds of boundary conditions',
  'tests solve a few fixed problems', COL + ' funpy/colloc/adapt.py funpy/colloc/eig.py funpy/newton/newton.py funpy/newton/NewtonSystem.py funpy/linalg/exact_linear_solver.py',
  [('top level solve', 'funpy/colloc/chebOp.py'), ('spectra', 'funpy/colloc/eig.py')], ['answers, success flags and residuals', 'eigenvalues'],
  design='`spec/Problems.tla`: the solution is chosen first, forcing and boundary data are its exact images; spectra are those of the exact reaction matrices minus diffusion times squared wave numbers. The adaptive solver stops when two grids agree, which for solutions that no coarse grid can represent may be a coincidence (two grids that add a function of the wrong parity), so adaptive problems have solutions of degree at most 3.')

P('L01', 'Linear systems and their bordered extensions are solved exactly',
  'Solutions of square systems and of their adjoints, also bordered by rows and columns, and also when the core matrix has a null vector, satisfy their equations to the accuracy the conditioning allows, '
  'whatever rows and columns of the border were exchanged before; so do null vectors, tangents, particular solutions, systems at folds, and iterative solutions reported as successful. '
  'Solutions of wide and of rank deficient systems are the least squares solutions of least norm; determinants have the right value and sign; matrices and right hand sides are not changed.',
  'inputs histories', 'all small matrices of full rank or with deficient rank, with up to three borders, sequences of exchanges and solves; dense and sparse, direct and iterative solvers',
  'no test solves a linear system with these classes',
  'funpy/linalg/bem_solve.py funpy/linalg/bemw_solve.py funpy/linalg/brd_solve.py funpy/linalg/qr_solve.py funpy/linalg/qr_chol.py funpy/linalg/lucp.py funpy/linalg/nullspace.py funpy/linalg/fold_solve.py funpy/linalg/gbit.py funpy/linalg/helpers.py funpy/linalg/exact_linear_solver.py',
  [('mixed block elimination', 'funpy/linalg/bem_solve.py'), ('several borders', 'funpy/linalg/bemw_solve.py'), ('pseudo inverses', 'funpy/linalg/qr_chol.py'), ('iteration with error bound', 'funpy/linalg/gbit.py')],
  ['solutions, null vectors, determinants, factors, success reports', 'arguments afterwards'],
  design='Linear.tla: cores and borders over the rationals, answers by exact elimination; TLC checks that the answers satisfy their equations (and least norm conditions), and the block elimination formulas, for all small systems; '
         'behaviours (border, exchange, solve, adjoint, unit, zero, least norm, determinant, null vectors, folds, iteration) are replayed on all solver classes.')
