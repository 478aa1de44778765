import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
S='interpolation/splines/'; M='interpolation/multilinear/'
p('C01','Multilinear evaluation is the tensor-product piecewise-linear interpolant',
 'At any point inside the grid, multilinear evaluation (eval_linear, eval_spline with k=1, mlinterp) returns, up to rounding, the tensor-product piecewise-linear interpolant of the node values: every node (including the first and last of each dimension) is reproduced, and each result is the barycentric combination of the 2^d corners of the cell that contains the point and of nothing else. It holds for any number of dimensions, any number of nodes (two or more) per dimension, any mix of regular and irregular dimensions, scalar or vector values, and any batch size.',
 ['inputs','configurations'],'all cartesian grids (d>=1, n>=2 per dimension, regular/irregular mixes, any location and scale), all finite node values, all points of the grid domain, scalar/vector values, single/batched evaluation',
 'The tests evaluate eval_linear/mlinterp on one or two unit-square grids of equal size and mostly assert only that a result exists or that a regular and an equivalent irregular grid agree with each other; nothing compares a value with the node data, and no asymmetric grid, third dimension, 2-node dimension or truly irregular spacing is evaluated.',
 [S+'codegen.py',S+'eval_splines.py',M+'mlinterp.py',M+'fungen.py'],
 [('cell location and barycentric coordinates','codegen.py eval_template/eval_template_vectorized; fungen.py get_index'),('blending and tensor reduction','codegen.py blending_formula/get_values/gen_trex; fungen.py get_coeffs/tensor_reduction')],
 ['return value / out array of eval_linear, eval_spline(k=1), mlinterp'])
p('C02','Outside the grid each extrapolation mode gives its documented value',
 'For linear and cubic splines and for points with any subset of coordinates outside the grid: "constant" returns exactly 0 (for values and requested derivatives), "nearest" returns the interpolant at the coordinate-wise projection onto the grid, and "linear" (also the default) continues the interpolant along every out-of-range coordinate as a straight line with the boundary value and slope. Points on the boundary belong to the grid, and the mode is honoured identically for single points and batches, scalar and vector values, allocated and in-place results, regular and (for linear splines) irregular grids.',
 ['inputs','configurations'],'all grids, all points with at least one coordinate outside or exactly on the boundary, all three modes, k in {1,3}, every calling convention (point/tuple/batch, scalar/vector, allocate/in place, with or without derivatives)',
 'test_multilinear_extrap checks only that point-wise, batched and in-place calls agree on one 1-d regular grid with scalar values; no expected extrapolated value is ever asserted, and cubic, multi-dimensional, vector-valued, irregular or derivative extrapolation is not exercised.',
 [S+'codegen.py',S+'eval_splines.py',S+'option_types.py'],
 [('clamping / early-out on out-of-range coordinates','codegen.py eval_template, eval_template_vectorized (extrap_mode branches)'),('linear continuation of cubic basis functions','codegen.py blending_formula (lambda<0, lambda>1)'),('mode dispatch by option type or literal string','eval_splines.py __eval_linear/__eval_cubic overloads')],
 ['return value / out array of eval_linear, eval_cubic, eval_spline'])
p('C03','Prefiltering yields the natural cubic spline coefficients of the data',
 'For any regular grid with at least two nodes per dimension (1 to 4 dimensions) and any finite node values, cubic prefiltering returns the unique array with two extra coefficients per dimension whose spline takes the given value at every node and has zero second derivative at both ends of every dimension. Vector-valued data are filtered component by component, in-place and allocating calls and the legacy filter functions give the same coefficients, and k=1 prefiltering leaves the values unchanged.',
 ['inputs','configurations'],'all regular grids d=1..4, n>=2, all finite value arrays (scalar or vector valued, any memory layout and magnitude), prefilter / filter_cubic / filter_coeffs / filter_mcoeffs, allocating or in place',
 'Tests only check the shape of the coefficient array for one 31x31 grid; no coefficient, node reproduction or end condition is asserted, and non-square grids, d=1,3,4, tiny grids and in-place prefiltering are never run.',
 [S+'prefilter_cubic.py',S+'filter_cubic.py'],
 [('banded solve with natural boundary rows','find_coefs_1d, solve_deriv_interp_1d (both files)'),('dimension-by-dimension sweep','__filter_cubic / filter_coeffs_1d..4d')],
 ['returned or in-place coefficient array'])
p('C04','Cubic evaluation is the C2 natural tensor-product cubic spline',
 'Evaluating a cubic spline inside the grid returns, for any coefficient array, the tensor-product uniform cubic B-spline combination of the 4^d local coefficients; applied to prefiltered data it therefore equals the natural cubic spline through the data, which is twice continuously differentiable and reproduces affine functions. This holds for 1 to 4 dimensions, unequal node counts and steps, scalar and vector values.',
 ['inputs','configurations'],'all regular grids d=1..4 with n>=2, all finite coefficient/value arrays, all points in the domain including nodes, cell boundaries and both end cells',
 'The tests check types and shapes of cubic evaluations (constant point [0.5,0.5] repeated) and never compare an interpolated value with anything.',
 [S+'codegen.py',S+'eval_splines.py',S+'eval_cubic.py'],
 [('cubic B-spline basis matrix and blending','eval_splines.py Ad/dAd; codegen.py blending_formula'),('tensor reduction over 4^d coefficients','codegen.py get_values/gen_trex')],
 ['eval_cubic, eval_spline(k=3), eval_cubic_spline*, vec_eval_cubic_spline*'])
p('C05','Requested partial derivatives are the true derivatives of the interpolant',
 'Every partial derivative requested from eval_spline (any order tuple for linear splines, orders 0 and 1 per dimension including mixed partials for cubic splines) equals the corresponding derivative, in the units of the grid coordinates, of the interpolant that value evaluation returns, at every point where that interpolant is differentiable. Results appear in the order in which they were requested, for regular and irregular grids, inside the grid and in the linear-extrapolation region, with the documented output layout.',
 ['inputs','configurations'],'all grids, all coefficient arrays, all points not on a kink, all lists of derivative orders (any order, repetitions of dimensions, with or without the value itself), scalar/vector, point/batch, allocate/in place',
 'Linear derivatives are only tested for batched scalar data on irregular grids with one fixed order list; cubic derivatives are only executed; regular-grid linear derivatives, vector values, mixed partials of cubic splines and extrapolated derivatives are never compared with anything.',
 [S+'codegen.py',S+'eval_splines.py'],
 [('differentiated blending functions and step scaling','codegen.py blending_formula'),('order bookkeeping','codegen.py get_code_spline bases_orders, templates val_* / out[...,j]')],
 ['eval_spline(diff=...) results'])
p('C06','All calling conventions of the spline evaluators agree',
 'For one grid, coefficient array and set of points, every way of asking gives the same numbers up to rounding: one point (array or tuple) or a batch, allocated or in-place output, scalar or vector-valued data (component by component), C, Fortran, strided or read-only arrays, calls from Python, from jitted code or from guvectorized code, eval_linear/eval_cubic or eval_spline, and the legacy function wrappers. Output types and shapes are those documented for the combination, including empty batches.',
 ['configurations','inputs'],'all combinations of the listed calling conventions x dimensions x grids x point sets (including size 0, 1 and large batches)',
 'The tests run a handful of the combinations at one size each and compare only a few of them (2-d linear C/F order; 1-d linear point/batch).',
 [S+'eval_splines.py',S+'codegen.py',S+'eval_cubic.py',S+'multilinear_numba.py'],
 [('type-driven dispatch','eval_splines.py __eval_spline, overloads of _eval_linear/_eval_cubic, allocate_output'),('compatibility wrappers','eval_cubic.py, multilinear_numba.py')],
 ['results of each variant of the same logical request'])
p('C07','interp and mlinterp agree with clamped / extended piecewise-linear interpolation',
 'interp gives piecewise multilinear interpolation with every out-of-range coordinate clamped to the nearest grid bound (as numpy.interp does in one dimension), for scalar, tuple, point, list-of-points and (1-d and 2-d) cartesian-product arguments, regular and irregular dimensions, with results arranged as the arguments are. mlinterp gives the same interpolant with linear extension outside the grid, and both give the same result from Python and from jitted code.',
 ['inputs','configurations'],'all strictly increasing grids d>=1 with n>=2 (regular tuples or arrays, mixed), all finite values, all finite points in any documented argument form',
 'The tests call each form once on a unit grid and assert only that the result is not None.',
 [M+'mlinterp.py',M+'fungen.py'],
 [('argument-form detection and generated wrappers','mlinterp.py detect_types, make_mlinterp, ol_interp'),('projection onto the grid','fungen.py project'),('index and barycenters','fungen.py get_index')],
 ['interp, mlinterp results'])
p('C08','Evaluation and filtering never access memory outside their arrays',
 'No evaluation, prefiltering, gradient, Hermite or polynomial-basis call made with consistently shaped arguments reads or writes outside the arrays it was given or allocated, whatever the point coordinates: on, near or arbitrarily far outside the grid bounds, infinite or NaN. Such calls do not crash the process or raise index errors.',
 ['inputs','configurations'],'all consistently shaped argument sets, all IEEE double coordinates including NaN, infinities, huge and subnormal values and exact bounds; all dimensions, orders, modes and layouts',
 'Compiled kernels are built without bounds checks, so an out-of-range read silently returns neighbouring memory and the tests cannot see it; tests only use points inside or slightly outside the unit cube.',
 [S+'codegen.py',S+'prefilter_cubic.py',S+'filter_cubic.py',S+'eval_cubic_numba.py',S+'hermite.py',M+'fungen.py','interpolation/complete_poly.py'],
 [('clamping of the cell index','codegen.py templates; eval_cubic_numba.py; fungen.py get_index/clamp'),('row arithmetic of the banded solver','solve_deriv_interp_1d'),('searchsorted bracketing','hermite.py HermiteInterpolation')],
 ['guard pages around every array; bounds-checked compilation; red zones around outputs'])
p('C09','Calls never modify their inputs; in-place calls write all of out, nothing else',
 'No evaluation, filtering, fitting, basis or grid-construction call changes any array passed to it as input (grids, node values, coefficients, points, fitted data). A call given an output array overwrites every element of it with exactly what the allocating call would return, independently of its previous contents, and writes nothing outside it; an allocating call returns fresh memory that does not share storage with its inputs or with earlier results (k=1 prefiltering, which hands its argument back unchanged, excepted).',
 ['inputs','histories','configurations'],'all API calls and argument layouts (contiguous, strided views of larger buffers, Fortran), all previous contents of out including NaN, repeated calls',
 'No test compares an input before and after a call, and in-place tests use zero-filled outputs without surrounding memory checks.',
 [S+'codegen.py',S+'eval_splines.py',S+'prefilter_cubic.py',S+'filter_cubic.py',S+'splines.py','interpolation/complete_poly.py','interpolation/smolyak/interp.py','interpolation/smolyak/grid.py','interpolation/cartesian.py'],
 [('kernels write only out','codegen.py templates'),('defensive copies','splines.py set_values; complete_poly.py fit_values')],
 ['byte digests of inputs before/after; canaries around outputs'])
p('C10','Results depend only on the arguments, not on call history or concurrency',
 'The result of a call is determined by its arguments alone: it is bit-for-bit the same (up to rounding where numpy linear algebra does the arithmetic) when repeated, whatever other calls (other dimensions, dtypes, layouts, orders, modes, derivative lists) were compiled or executed before it, in whatever order, in a fresh process, or concurrently from several threads, including threads that run compiled code without the interpreter lock and first calls that compile concurrently.',
 ['histories','schedules'],'all sequences and interleavings of calls to the jitted evaluators, filters, interp/mlinterp, Hermite and polynomial-basis functions in one process, against the same call in a fresh process',
 'Tests run each call once in one fixed order on one thread; a specialization cached or generated under the wrong key, or scratch state shared between calls, is invisible to them.',
 [S+'eval_splines.py',S+'codegen.py',S+'eval_cubic.py',M+'mlinterp.py',M+'fungen.py',S+'prefilter_cubic.py'],
 [('code generation into per-call contexts','codegen.py source_to_function; mlinterp.py ol_interp (module globals)'),('literal dispatch on k, diff, extrap_mode','eval_splines.py eval_spline'),('scratch bands allocated per call','prefilter_cubic.py __filter_cubic')],
 ['digest of every result keyed by call, across histories, threads and processes'])
p('C11','Spline objects always reflect the last accepted values',
 'After any sequence of constructions and value updates, calling CubicSpline, CubicSplines, LinearSpline or LinearSplines returns the (natural cubic or multilinear) interpolant of the most recently accepted values, so evaluating at the object\'s own grid enumeration gives those values back in order. Cubic objects reject non-finite values and non-finite points with an exception, a rejected update leaves them as they were, and later changes to arrays handed to them do not affect them. Deep copies and unpickled objects start out with the same interpolant and are independent afterwards.',
 ['histories','inputs','configurations'],'all sequences of construct / set_values (valid, non-finite, differently shaped but compatible) / evaluate (point, batch, in place) / grid, over all regular grids and several live objects',
 'Tests construct each object once with one grid and check shapes only.',
 [S+'splines.py',S+'multilinear.py'],
 [('value update and coefficient refresh','splines.py set_values; multilinear.py set_values'),('node enumeration','splines.py grid; multilinear.py mlinspace; cartesian.py mlinspace'),('finite checks','splines.py set_values/interpolate')],
 ['object calls, .grid, interpolate'],
 [dict(name='coefficients / values of the object',meaning='current interpolant',where='splines.py __coeffs__/__mcoeffs__, multilinear.py values/mvalues')])
p('C12','Multi-spline gradient evaluation returns the spline and its exact gradient',
 'Evaluating cubic multi-splines with derivatives (CubicSplines.interpolate(diff=True), vec_eval_cubic_splines_G) returns the same values as plain evaluation and, for every point, dimension and component, the partial derivative of that value with respect to the point\'s coordinate. It holds for 1 to 4 dimensions, unequal node counts and steps, any number of components, inside the grid and in the extrapolation region, and for caller-provided output arrays.',
 ['inputs','configurations'],'all regular grids d=1..4, all coefficient arrays and component counts, all points inside and outside the grid',
 'One test calls it on one 2-d grid at one point and checks shapes only; the 4-d kernel alone is nearly 3000 generated lines that are never run.',
 [S+'eval_cubic_numba.py',S+'eval_cubic.py',S+'splines.py'],
 [('unrolled value and derivative kernels','eval_cubic_numba.py vec_eval_cubic_splines_G_1..4'),('dispatch on dimension','eval_cubic.py vec_eval_cubic_splines_G')],
 ['values and dvalues arrays'])
p('C13','Hermite interpolation matches values and slopes at nodes, clamps outside',
 'Between two consecutive abscissas, Hermite interpolation returns the unique cubic that takes the given values and the given derivatives at both; at every abscissa it returns the given value, and outside the abscissa range it returns the first or last value. Vector evaluation equals scalar evaluation element by element, from Python or jitted code, for any strictly increasing abscissas (two or more).',
 ['inputs','configurations'],'all strictly increasing abscissas (n>=2, any spacing), all finite values and slopes, all finite evaluation points including nodes and both bounds, scalar/vector/matrix forms',
 'The single test runs it on random data and asserts nothing.',
 [S+'hermite.py'],
 [('bracketing and local coordinate','HermiteInterpolation, hermite_interp'),('basis polynomials','hermite_splines')],
 ['HermiteInterpolation, HermiteInterpolationVect, hermite (jitted)'])
p('C14','Complete-polynomial bases list every monomial once, derivatives in step',
 'For any number of variables n and degree d up to 5, the complete polynomial basis has exactly binomial(n+d, d) rows, which are all monomials of total degree at most d, each exactly once, starting with the constant and the n variables; the derivative basis holds in each row the partial derivative of the monomial in the same row. A vector of variables and each column of a matrix of observations give the same basis, for all real inputs including zeros and negatives; degrees above 5, negative degrees and invalid derivative indices are rejected.',
 ['inputs','configurations'],'all n>=1, 0<=d<=5, all derivative indices, all real (float or integer) observations, vector and matrix forms',
 'Tests check a few entries for n=2,3 and degree 2-4; the ten hand-unrolled loop nests for each degree and form are mostly never executed.',
 ['interpolation/complete_poly.py'],
 [('hand-unrolled loop nests per degree','_complete_poly_impl(_vec), _complete_poly_der_impl(_vec)'),('term count','n_complete')],
 ['complete_polynomial, complete_polynomial_der, n_complete'])
p('C15','Complete-polynomial fits are least-squares projections with damped updates',
 'After fitting, a complete polynomial approximant evaluates to the least-squares projection of the data on the complete polynomials of its degree: polynomials of that degree are recovered everywhere, residuals are orthogonal to the basis, and its derivative method returns the exact partial derivative of its own value. With damping in (0,1), the new approximant is (1-damp) times the fresh fit plus damp times the previous approximant, through any sequence of fits; scalar and vector data are treated alike component by component.',
 ['inputs','histories','configurations'],'all sample sets of full column rank, all data (scalar or vector valued), degrees 0..5, all sequences of damped and undamped refits',
 'Tests fit two low-degree functions of two variables once; derivatives of the fit, damping results, over-determined non-polynomial data and refit sequences are not checked.',
 ['interpolation/complete_poly.py'],
 [('least-squares fit and damping','CompletePolynomial.fit_values'),('evaluation and derivative','CompletePolynomial.__call__, der')],
 ['CompletePolynomial call, der, coefs'])
p('C16','Smolyak grids have exactly the prescribed distinct points and a solvable basis',
 'For every dimension d>=2 and isotropic or anisotropic density, the Smolyak grid consists of exactly the points of the sparse-grid rule (tensor products of nested Chebyshev extrema whose level sum is at most d+max density, each level bounded by that dimension\'s density plus one), all distinct, inside and touching the user bounds, with as many basis polynomials as points and a nonsingular basis matrix whose stored factors reproduce it. The published point-count formula agrees for densities 1-3, and mapping to the unit cube and back is the identity.',
 ['configurations','inputs'],'all d>=2, mu>=1 (integer or per-dimension list), all bounds lb<ub (default, scalar, list, array), points anywhere',
 'Tests build three fixed grids and only look at interpolation output; no anisotropic grid is ever built and no structural property of the grid is asserted.',
 ['interpolation/smolyak/grid.py','interpolation/smolyak/util.py'],
 [('index enumeration','smol_inds, permute, poly_inds'),('nested node chains','s_n, a_chain, phi_chain'),('domain transforms','SmolyakGrid.dom2cube/cube2dom'),('factorization','SmolyakGrid.__init__')],
 ['SmolyakGrid attributes, num_grid_points, build_grid, build_B'])
p('C17','Smolyak interpolation is exact on its span, with exact derivatives',
 'The Smolyak interpolant takes the given values at all grid points, reproduces every polynomial in the span of its basis everywhere in the domain, and returns on request its exact gradient in user coordinates, its derivative with respect to the coefficients and its derivative with respect to the grid values, in that order, for any combination of requested outputs. Updating the values makes the interpolant equal to a freshly built one.',
 ['inputs','configurations','histories'],'all isotropic/anisotropic grids and bounds, all grid values, all evaluation points, all combinations of requested outputs, all sequences of value updates',
 'Tests check derivatives of one linear function on one 5-d isotropic grid; values are printed but not compared, anisotropic grids, higher-degree functions and output-flag combinations are not covered.',
 ['interpolation/smolyak/interp.py','interpolation/smolyak/grid.py'],
 [('coefficient solve','find_theta'),('basis and derivative matrices','build_B, cheby2n'),('chain rule to user domain','SmolyakInterp.interpolate')],
 ['SmolyakInterp.interpolate, update_theta, theta'])
p('C18','Grid enumeration and grid constructors are faithful',
 'Enumerating a cartesian grid (cartesian, mlinspace, nodes) lists every combination of the one-dimensional nodes exactly once, with the last dimension varying fastest in C order and the first in F order, so that values computed on the enumeration and reshaped to the grid shape (in that order) are the values at those nodes. Regular dimensions have equally spaced nodes that include both bounds, nodes works for every grid the constructors accept, and the grid constructors return a valid description unchanged and reject ill-formed ones (empty or reversed bounds, fewer than two nodes, wrong types).',
 ['inputs','configurations'],'all lists of 1-d node arrays (any d>=1, any lengths), both orders, all bounds and counts, all valid and ill-formed grid descriptions',
 'Only used indirectly in the tests on square grids, where a transposed enumeration goes unnoticed.',
 ['interpolation/cartesian.py','interpolation/splines/__init__.py'],
 [('repetition arithmetic','cartesian.py cartesian, _repeat_1d'),('validation','splines/__init__.py UCGrid, CGrid, nodes')],
 ['cartesian, mlinspace, nodes, UCGrid, CGrid'])
p('C19','B-spline basis functions form a nonnegative, local partition of unity',
 'For any strictly increasing knot vector and degree p, the basis function number i is nonnegative, vanishes outside its p+2 consecutive knots, is a piecewise polynomial of degree p equal to the standard B-spline on those knots, and the basis functions sum to one wherever a full set of p+1 overlaps. ',
 ['inputs','configurations'],'all strictly increasing knot vectors, degrees 0..5, indices and evaluation points including knots',
 'No test touches these functions.',
 [S+'basis_splines.py'],
 [('Cox-de Boor recursion','B, B0')],
 ['B, B0'])
p('C20','The same numbers in another representation give the same result',
 'Results depend on the numbers passed, not on how they are stored. For every argument an entry point accepts (data, coefficients, grid bounds, counts and nodes, points, samples, knots), giving the same numbers as integers or single precision instead of doubles, as lists, tuples or NumPy scalars where sequences and scalars are taken, or as Fortran-ordered, strided, reversed, broadcast or read-only arrays gives a result of the same shape and, up to rounding, the same values: integer arguments never truncate a result.',
 ['inputs','configurations'],'all public evaluators, filters, objects, bases, grids and fits; all accepted number types, containers and memory layouts of each argument',
 'Tests pass contiguous double arrays almost everywhere; the representations multiply with entry points and arguments.',
 [S+'eval_splines.py',S+'codegen.py',S+'splines.py',S+'multilinear.py',S+'filter_cubic.py',S+'hermite.py','interpolation/multilinear/mlinterp.py','interpolation/multilinear/fungen.py','interpolation/complete_poly.py','interpolation/smolyak/interp.py','interpolation/smolyak/grid.py','interpolation/cartesian.py'],
 [('output allocation as doubles, whatever the inputs','allocate_output, numpy.zeros calls'),('conversion of inputs','splines.py, multilinear.py constructors, cartesian.mlinspace'),('type-driven dispatch of points and grids','eval_splines, mlinterp, fungen')],
 ['public entry points'])
p('C21','Results do not depend on units, axis order or batch; linear in the data',
 'For every evaluator, filter, interpolant and fit: multiplying the data by a factor (of any sign and size) multiplies the result by it, adding data sets adds the results, and adding a constant to the node values adds it; measuring coordinates in other units, from another origin or in the opposite direction (grid, points, samples and knots together) leaves values unchanged and rescales derivatives accordingly; reordering the axes reorders partial derivatives and nothing else; and each row of a batch depends only on that row, so permuting, repeating, splitting or merging batches permutes, repeats, splits or merges the results.',
 ['inputs','configurations'],'all data, units of data and coordinates, axis permutations and batch compositions for linear and cubic splines, prefiltering, interp/mlinterp, Hermite, gradients, spline objects, complete polynomials, Smolyak interpolation, B-splines and grid enumeration',
 'A unit test has one scale and one axis order; absolute tolerances, hidden thresholds, transposed axes and state carried from one row to the next only show when two related calls are compared.',
 [S+'codegen.py',S+'eval_splines.py',S+'eval_cubic_numba.py',S+'filter_cubic.py',S+'prefilter_cubic.py',S+'hermite.py',S+'basis_splines.py','interpolation/multilinear/fungen.py','interpolation/multilinear/mlinterp.py','interpolation/complete_poly.py','interpolation/smolyak/interp.py','interpolation/smolyak/grid.py','interpolation/cartesian.py'],
 [('location of the cell and coordinate scaling','codegen.py, fungen.py get_index'),('loops over rows of a batch','codegen.py, fungen.py vectorized kernels, hermite.py'),('normal equations and factorizations','complete_poly.py fit_values, smolyak/interp.py')],
 ['public entry points'])
p('C22','Code templates render to the text their constructs denote',
 'The bundled template language, from which the spline evaluators are generated, renders every template made of its documented constructs (text, expressions, filters, if/elif/else, for with unpacking, continue and break, python statements and blocks, defaults, comments, nested in any way) to exactly the text those constructs denote for the given variables: other text is copied unchanged, a statement alone on its line leaves no line behind, a variable assigned by a statement or a loop keeps its value afterwards, a template can be rendered again with other variables, HTML templates quote what they insert. Malformed templates are rejected with a TemplateError that tells line and column, errors while rendering tell them too, and the loop helper numbers, compares and groups items as documented.',
 ['inputs','configurations'],'all templates composed of the documented constructs, all variables, default and custom delimiters, all malformed templates',
 'No test touches the template language; the evaluators use a few of its constructs.',
 ['interpolation/tempita/__init__.py','interpolation/tempita/_looper.py'],
 [('lexing and removal of white space around statements','tempita lex, trim_lex'),('parsing of nested blocks','tempita parse_expr, parse_cond, parse_for'),('evaluation in one namespace','tempita Template._interpret_codes'),('loop helper','tempita/_looper.py loop_pos')],
 ['tempita.Template, tempita.HTMLTemplate, tempita.sub, tempita.sub_html, tempita.looper'])
p('C23','Unsupported requests are refused with an exception and leave no trace',
 'A request the library does not support ends in an exception, never in numbers: spline orders other than 1 and 3 in evaluation and prefiltering; cubic evaluation on a grid with an irregular dimension anywhere; derivatives of a cubic spline above the first or negative, and derivative tuples whose length is not the number of dimensions; extrapolation arguments of eval_linear and eval_cubic that are not one of the options; node values with fewer dimensions than the grid, or for batches more than one additional dimension, points of rank above two, tuples with too few or too many coordinates (splines, filters, interp, mlinterp); Smolyak grids of fewer than two dimensions, with a density below one anywhere, or with densities or bounds of the wrong length, and Smolyak data or points of the wrong size; complete polynomials of negative degree or degree above five, or derivatives with respect to missing variables; spline objects with inconsistent bounds and orders, values of the wrong size, non-finite values or points (cubic), points with a wrong number of columns (cubic), evaluation without values. After any refusal the supported requests give the same answers as before, for objects too.',
 ['inputs','configurations','histories'],'all kinds of unsupported requests, with the offending element at any position, in any dimension, scalar or vector data, single points or batches; any mix of refused and supported requests',
 'No test makes an unsupported request; a guard that is dropped or weakened, or that looks at one dimension only, goes unnoticed and wrong numbers are returned.',
 [S+'codegen.py',S+'eval_splines.py',S+'prefilter_cubic.py',S+'splines.py',S+'multilinear.py','interpolation/multilinear/mlinterp.py','interpolation/multilinear/fungen.py','interpolation/smolyak/grid.py','interpolation/smolyak/interp.py','interpolation/complete_poly.py'],
 [('guards on order and kind of grid','codegen.get_code_spline, blending_formula'),('dispatch on types, no match means an error','eval_splines and prefilter_cubic overloads'),('validation of arguments','SmolyakGrid.__init__, CubicSpline(s), complete_polynomial')],
 ['public entry points'])
p('C24','Calls leave nothing behind in the process',
 'Importing the package and calling any of its functions leaves the process as it was: the state of the numpy and Python random generators, floating point error handling and print options of numpy, warning filters, environment, working directory and the files in it, import path, locale, signal handlers, standard streams and hooks are unchanged, and nothing is written to standard output or standard error. Once call and result are dropped, no argument and no result is kept alive by the package (objects that live on hold what they were given; in-place calls give back the output array they were given). Memory stays bounded however often a call is repeated with other data of the same types: compiled code releases what it allocates and nothing accumulates per call. A repeated call with arguments of the same types compiles nothing (calls of eval_spline and prefilter from Python, whose literal arguments numba types again on every call, excepted).',
 ['inputs','histories'],'all calls of all public functions and objects with any data, in any order and number',
 'Tests look at return values of single calls; a leak, a changed global setting or a compilation per call does not change any of them.',
 [S+'eval_splines.py',S+'eval_cubic.py',S+'prefilter_cubic.py',S+'filter_cubic.py',S+'splines.py',S+'multilinear.py',S+'hermite.py',S+'codegen.py','interpolation/multilinear/mlinterp.py','interpolation/multilinear/fungen.py','interpolation/smolyak/grid.py','interpolation/smolyak/interp.py','interpolation/complete_poly.py','interpolation/cartesian.py'],
 [('compilation once per signature','njit and generated_jit decorators, source_to_function'),('memory of compiled code','numba runtime'),('no module-level caches of data','objects own their state')],
 ['process state, numba runtime statistics, references and allocated blocks around calls'])
p('C25','Copies and pickles behave like the original, in any process',
 'Spline objects, Smolyak grids and interpolants, complete polynomials and templates, in any state (before and after values were given, after evaluations, cached properties, updates and refused updates), can be copied with copy.copy and copy.deepcopy and pickled with every protocol. A copy has the same type and gives the same answers as the original at the time of copying (also when the pickle is read in a process that has never used the package), and copying changes nothing. Deep copies and unpickled objects then live on independently: each answers like an object of its own that went through the same history, whatever happens to the original or to other copies. The public functions, grids and the individual extrapolation options can be copied and pickled likewise, and copied functions give the same results.',
 ['inputs','histories'],'all objects in all states reachable by updates and evaluations, all kinds of copies, histories before and after the copy, evaluation in the same or in another process',
 'No test copies or pickles anything; a member that cannot be pickled, state kept outside the object or shared between copies shows only when copies are made and then used in different ways.',
 [S+'splines.py',S+'multilinear.py',S+'eval_splines.py',S+'prefilter_cubic.py','interpolation/smolyak/grid.py','interpolation/smolyak/interp.py','interpolation/complete_poly.py','interpolation/tempita/__init__.py','interpolation/cartesian.py','interpolation/multilinear/mlinterp.py',S+'option_types.py'],
 [('all state is held by the object, in plain attributes','CubicSpline(s), LinearSpline(s), SmolyakGrid, SmolyakInterp, CompletePolynomial, Template'),('updates replace attributes','set_values, update_theta, fit_values')],
 ['answers of the objects, results of the functions'])
for x in P: x['statement']=x['statement'].strip()
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
