"""Writes properties.jsonl (the text lives here so that it can be reviewed and diffed)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['pyproximal/' + f for f in files],
                          'state': [dict(name=a, meaning=b, where='pyproximal/' + c) for a, b, c in state],
                          'mechanism': [dict(name=a, where='pyproximal/' + b) for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


PX = 'proximal/'
p('P01', 'Non-positive steps are refused, positive steps are accepted',
  'For every proximal operator the package provides, and every operator derived from one (adjoint, sum, chain, '
  'pre- and post-composition, stacking, orthogonal composition), prox and proxdual called with a positional step '
  'that is zero or negative, or an array step with any zero or negative entry, raise ValueError and return nothing. '
  'A step that is positive in every entry is never refused for its sign.',
  ['inputs', 'configurations'], 'every operator class, every method, every scalar or per-component step',
  'Tests call one operator with one negative step; the guard is a decorator repeated on some sixty methods and must '
  'be on each override, evaluated on the whole of an array step.',
  ['ProxOperator.py'] + [PX + f for f in ('L1.py', 'L2.py', 'VStack.py', 'Sum.py', 'Orthogonal.py', 'Simplex.py')],
  [('positivity guard', 'ProxOperator.py'), ('guarded overrides', 'proximal/')])

p('P02', 'Dual proximal operators obey Moreau; the adjoint swaps prox and dual',
  'For every operator whose parameters are constant, the dual prox satisfies the Moreau decomposition '
  'x = prox(x; tau) + tau * proxdual(x / tau; 1 / tau), whether the dual is derived or has its own closed form, and '
  'an operator that defines only the dual gets its prox from the same identity. The adjoint operator swaps prox and '
  'dual prox (twice gives the operator back), and the moreau helper returns True exactly when the identity '
  'holds numerically for its x and tau and otherwise raises (or returns False when asked not to raise).',
  ['inputs', 'configurations'], 'every x, every tau > 0, every operator',
  'Tests evaluate the identity at one random vector with tau=1 or 2 per operator; swapped or mis-scaled steps vanish at tau=1.',
  ['ProxOperator.py', 'utils/moreau.py'] + [PX + f for f in ('L1.py', 'L21.py', 'Euclidean.py', 'L2.py', 'Box.py')],
  [('Moreau fallback', 'ProxOperator.py'), ('closed-form duals', 'proximal/L1.py'), ('closed-form duals', 'proximal/L21.py'),
   ('closed-form duals', 'proximal/Euclidean.py'), ('adjoint wrapper', 'ProxOperator.py'), ('moreau helper', 'utils/moreau.py')])

p('P03', 'Convex operators: value is the documented function, prox its minimiser',
  'For L1 (with shift g), L2 (plain, with b, q, dense, factorised or iterative operator), L2 convolution (signals of the transform length; shorter ones by the documented '
  'Fourier-domain formula), L21, L21+L1, Euclidean norm, Huber, circular Huber, quadratic, user-supplied nonlinear and total variation, evaluating the '
  'operator returns the documented function value, and prox(x, tau) returns the point that minimises tau times that '
  'value plus half the squared distance to x (to solver accuracy where an inner iterative solver is used).',
  ['inputs', 'configurations'], 'every x, every tau > 0, every weight and option combination of the documented form',
  'Tests check Moreau (which any firmly wrong pair can satisfy) at one random point; optimality must hold in every '
  'branch of each closed form, at thresholds and ties, for every weight.',
  [PX + f for f in ('L1.py', 'L2.py', 'L21.py', 'L21_plus_L1.py', 'Euclidean.py', 'Huber.py', 'Quadratic.py', 'Nonlinear.py', 'TV.py')],
  [('soft thresholding', 'proximal/L1.py'), ('linear solves', 'proximal/L2.py'), ('block thresholding', 'proximal/L21.py'),
   ('branching shrinkage', 'proximal/Huber.py'), ('dual projected gradient', 'proximal/TV.py')])

p('P04', 'Non-convex penalties: prox and value match their documented forms',
  'SCAD (tau < a-1), the quadratic envelopes of the cardinality penalty and indicator, Log, ETP and Geman return from '
  'prox a global minimiser of tau times their value plus half the squared distance, componentwise, with their value '
  'the documented penalty. L0 keeps exactly the entries whose magnitude exceeds tau*sigma, Log1 and relaxed '
  'Mumford-Shah apply their documented closed-form thresholds, and each of these three returns its documented value.',
  ['inputs', 'configurations'], 'every x, every admissible tau and penalty parameter',
  'A non-convex prox has several stationary points; the tests sample a few points against a grid, and the wrong '
  'branch is picked only near thresholds or at steps above one.',
  [PX + f for f in ('SCAD.py', 'QuadraticEnvelope.py', 'Log.py', 'ETP.py', 'Geman.py', 'L0.py', 'RelaxedMS.py')],
  [('branch selection', 'proximal/SCAD.py'), ('branch selection', 'proximal/QuadraticEnvelope.py'),
   ('root selection', 'proximal/Log.py'), ('root selection', 'proximal/ETP.py'), ('fixed point', 'proximal/Geman.py'),
   ('hard threshold', 'proximal/L0.py')])

p('P05', 'Projections return the nearest feasible point and leave feasible points alone',
  'Every set operator (box, Euclidean ball, half space, affine set, simplex, L1 ball, L0 and L1,0 balls, nuclear ball, '
  'Hankel, hyperplane-box, intersection of total-variation-like balls) returns from prox and from its projection a '
  'feasible point, at least as close to x as any other point of a convex set (for L0-type balls: the largest '
  'magnitudes kept), independently of tau. Feasible points are returned unchanged, and the indicator value accepts '
  'the returned point and rejects points clearly outside.',
  ['inputs', 'configurations'], 'every x, every set parameter (radius, bounds, coefficients, dims), to the stated root-finder tolerance',
  'Tests check one interior and one exterior vector per set; nearest-point optimality over all feasible competitors, '
  'bounds of either sign, zero radii and vectors on the boundary are not reached.',
  ['projection/' + f for f in ('Box.py', 'Euclidean.py', 'HalfSpace.py', 'AffineSet.py', 'Simplex.py', 'L1.py', 'L0.py',
                               'Nuclear.py', 'Hankel.py', 'Intersection.py')] + [PX + 'Simplex.py', PX + '_Simplex_numba.py'],
  [('bisection on the multiplier', 'projection/Box.py'), ('closed forms', 'projection/'), ('indicator values', 'proximal/')])

p('P06', 'Spectral operators act on singular values and keep singular vectors',
  'The nuclear norm (plain or weighted), the nuclear ball, singular-value penalties and the rank envelope '
  'reshape x to the stated matrix dimensions, apply the corresponding vector operator to the singular values only, '
  'rebuild with the same singular vectors (conjugated correctly for complex matrices) and return a flattened result '
  'of the same length. Their values are the corresponding vector values of the singular values.',
  ['inputs', 'configurations'], 'every matrix, tall, wide or square, every vector penalty',
  'Tests use one random matrix shape per operator; a transposed factor, wrong axis or dropped conjugate is invisible '
  'on symmetric or real examples.',
  [PX + f for f in ('Nuclear.py', 'SingularValuePenalty.py', 'QuadraticEnvelope.py', 'Hankel.py')] + ['projection/Nuclear.py', 'projection/Hankel.py'],
  [('svd, shrink, rebuild', 'proximal/Nuclear.py'), ('svd, penalty prox, rebuild', 'proximal/SingularValuePenalty.py')])

p('P07', 'Composition calculus: sums, scalings, shifts, stacks, orthogonal maps',
  'Adding a vector v to f gives value f(x) + <v,x> and prox_tau f(x - tau v); multiplying by sigma > 0 gives sigma f(x) and '
  'prox_{sigma tau} f; f(a x + b) has prox (prox_{a^2 tau} f(a x + b) - b) / a; chaining gives prox g after prox f. A '
  'stacked operator evaluates and proxes each block with its own operator, and '
  'composition with a partially orthogonal map, with shift b and scaling alpha, follows its documented formula in value and prox.',
  ['inputs', 'programs', 'configurations'], 'every operator expression, every x, v, a != 0, b, sigma, tau, every block split',
  'Tests compose two or three concrete norms; the rules must hold for arbitrary operands, nested compositions and uneven blocks.',
  ['ProxOperator.py', PX + 'VStack.py', PX + 'Orthogonal.py'],
  [('derived operators', 'ProxOperator.py'), ('block loop', 'proximal/VStack.py'), ('orthogonal composition', 'proximal/Orthogonal.py')])

p('P08', 'Gradients are the gradients of the values',
  'Whenever an operator declares it has a gradient (L2, L2 convolution, quadratic, Euclidean norm away from zero, user nonlinear, '
  'and their sums with a vector, scalings and shifts), its gradient is the derivative of its value (L2 leaves its '
  'linear term out only when asked to). Operators without one return the gradient of their Moreau envelope, '
  '(x - prox(x; s)) / s with s the envelope parameter, and the gradient-test helpers accept exact gradients and '
  'reject wrong ones.',
  ['inputs', 'configurations'], 'every x and parameter, every composition of gradient-bearing operators',
  'Tests probe a finite difference along one random coordinate for a few operators.',
  ['ProxOperator.py', 'utils/gradtest.py'] + [PX + f for f in ('L2.py', 'Quadratic.py', 'Euclidean.py', 'Nonlinear.py')],
  [('Moreau-envelope gradient', 'ProxOperator.py'), ('analytic gradients', 'proximal/L2.py'), ('gradient tests', 'utils/gradtest.py')])

p('P09', 'No call modifies the data handed to it',
  'Evaluating a value, prox, dual prox, gradient or projection of any operator leaves its argument and every array '
  'or operator parameter the caller supplied unchanged. Running any solver leaves the starting points, data, weights '
  'and step arrays handed to it unchanged, also when a linear operator or a prox returns its own input object.',
  ['inputs', 'programs', 'configurations'], 'every operator, projection and solver, every aliasing pattern a caller can create',
  'Tests never compare arguments before and after; in-place arithmetic shows only with particular options or with identity-like operators.',
  ['ProxOperator.py', 'optimization/primal.py', 'optimization/primaldual.py', 'optimization/palm.py', 'optimization/bregman.py',
   'optimization/sr3.py', 'optimization/pnp.py', 'projection/Intersection.py', PX + 'L2.py', PX + 'Orthogonal.py', PX + '_Dykstra.py'],
  [('copies before in-place updates', 'optimization/primal.py')])

p('P10', 'Call-history contracts: counters, scheduled parameters, caches, warm starts',
  'Operators with scheduled parameters (L1, L0, relaxed Mumford-Shah weights, L0 and L1,0 ball radii, L2 inner '
  'iterations) advance their counter by exactly one per prox call and evaluate the schedule at the current counter in '
  'both prox and value. A cached factorisation never changes what a call returns whatever sequence of steps preceded '
  'it, and warm-started operators store the last solution as the next starting guess only when warm start is on. '
  'Operators with constant parameters and no warm start return the same result for the same call whatever was called before.',
  ['histories', 'inputs'], 'every sequence of calls with every sequence of steps',
  'Tests make one or two calls on fresh objects; stale caches and miscounted schedules need particular call histories.',
  [PX + f for f in ('L1.py', 'L0.py', 'L2.py', 'RelaxedMS.py', 'Quadratic.py', 'Nonlinear.py', 'TV.py')],
  [('counting wrapper', 'proximal/L1.py'), ('factorisation cache', 'proximal/L2.py'), ('warm start', 'proximal/L2.py')],
  [('count', 'prox calls made so far', 'proximal/L1.py'), ('tausigma, cl', 'cached factorisation and its key', 'proximal/L2.py'),
   ('x0', 'warm start', 'proximal/L2.py')])

p('P11', 'Proximal-gradient solvers follow their documented iteration',
  'ProximalPoint, ProximalGradient (no, FISTA or Vandenberghe acceleration, relaxation eta, fixed, per-iteration-callable or backtracked '
  'step), AcceleratedProximalGradient, AndersonProximalGradient and GeneralizedProximalGradient compute at every iteration exactly the documented '
  'update from the previous iterates, for every smooth f, proximable g, weight and starting point. A backtracked step '
  'is the first in the geometric sequence from the current step that meets the sufficient-decrease test, within the '
  'allowed number of trials.',
  ['inputs', 'configurations', 'histories'], 'every f, g (operators with prox and grad), step, option and number of iterations',
  'Tests run lasso-type problems to convergence, where different recursions share the limit point; errors in momentum, '
  'relaxation or the tested point change only the path.',
  ['optimization/primal.py'],
  [('main loops', 'optimization/primal.py'), ('backtracking', 'optimization/primal.py')])

p('P12', 'Splitting solvers follow their documented iteration',
  'HQS, ADMM, ADMM with L2 data term, linearised ADMM, Douglas-Rachford, PPXA, consensus ADMM and TwIST compute at '
  'every iteration exactly the documented update, including order of the two proxes, dual update, relaxation, '
  'over-relaxation, weights and per-term steps, for all operators, starting points and options.',
  ['inputs', 'configurations', 'histories'], 'every f, g (or list of terms), linear operator, step, option and number of iterations',
  'Tests compare limits of two solvers on one convex problem; swapped order, missing relaxation or a stale variable keeps the limit.',
  ['optimization/primal.py'],
  [('main loops', 'optimization/primal.py')])

p('P13', 'Primal-dual solvers follow their documented iteration',
  'PrimalDual (both update orders, relaxation theta, fixed or per-iteration steps, optional extra linear term and '
  'shifted dual) computes exactly the documented alternation of dual and primal proxes. AdaptivePrimalDual computes the same '
  'alternation with its residual-balancing update of tau, mu and alpha, including the linear term.',
  ['inputs', 'configurations', 'histories'], 'every f, g, linear operator, step sequence, option and number of iterations',
  'Tests compare the limit with another solver on one TV problem; the extrapolation point, step at iteration k and '
  'residual signs do not affect the limit.',
  ['optimization/primaldual.py'],
  [('main loops', 'optimization/primaldual.py')])

p('P14', 'Alternating bilinear solvers and bilinear operators keep their contracts',
  'PALM and iPALM update x then y by the documented proximal-gradient steps with step gamma times the block Lipschitz constant (or '
  'the backtracked step), using the partial gradients at the current other block and, for iPALM, the documented '
  'inertial points. Bilinear operators return the partial gradients and block Lipschitz constants of half their '
  'squared residual at their current blocks, and evaluating the functional at given blocks does not change the blocks '
  'they hold.',
  ['inputs', 'configurations', 'histories'], 'every bilinear operator, f, g, step option, starting point and number of iterations',
  'Tests run one factorisation to a small residual; wrong inertia, wrong block at backtracking or stale state still reduces it.',
  ['optimization/palm.py', 'utils/bilinear.py'],
  [('alternating loop', 'optimization/palm.py'), ('backtracking', 'optimization/palm.py'), ('block state', 'utils/bilinear.py')],
  [('x, y', 'current blocks of the bilinear operator', 'utils/bilinear.py')])

p('P15', 'Outer drivers hand the right subproblem to the inner solver',
  'Bregman calls its inner solver every outer iteration with the data term minus the current subgradient, starting '
  'from the previous (or initial) point as configured, and updates the subgradient from the new point; PlugAndPlay '
  'passes the denoiser, reshaped to the given dimensions with the configured step, as the prox of the regulariser; '
  'SR3 and Segment build and solve exactly their documented problem and return their documented outputs.',
  ['inputs', 'configurations', 'programs'], 'every inner solver, operator, denoiser and option',
  'Tests run a single configuration to a loose error; a wrong subproblem with a close solution passes.',
  ['optimization/bregman.py', 'optimization/pnp.py', 'optimization/sr3.py', 'optimization/segmentation.py'],
  [('outer loop', 'optimization/bregman.py'), ('denoiser adapter', 'optimization/pnp.py'), ('relaxed least squares', 'optimization/sr3.py')])

p('P16', 'Iteration protocol: callbacks, stopping and returned iterate',
  'Every iterative solver runs at most the requested number of iterations, calls the callback exactly once after each '
  'completed iteration with the iterate of that iteration, and returns the last iterate it computed. With a tolerance '
  'it stops at the first iteration whose documented measure is below it and at no other, without one it runs all '
  'iterations, and asking for printed progress never changes what is computed.',
  ['inputs', 'configurations', 'histories'], 'every solver, number of iterations, tolerance, callback and show setting',
  'Tests look at final models only; a callback given a stale or aliased iterate, an off-by-one stop or a log that advances state is invisible.',
  ['optimization/primal.py', 'optimization/primaldual.py', 'optimization/palm.py', 'optimization/bregman.py', 'optimization/pnp.py'],
  [('loop control', 'optimization/primal.py'), ('loop control', 'optimization/primaldual.py'), ('loop control', 'optimization/palm.py')])

p('P17', 'Sums of functions and generic intersections follow Dykstra-type iterations',
  'The Sum operator evaluates to the sum of its terms (False as soon as a set indicator among them rejects the point) and its prox runs the '
  'documented Dykstra-like iteration: sequential for two terms, otherwise parallel with the weights normalised to one and '
  'step tau/weight (or tau itself when asked for) per term. The projection on a generic intersection runs Dykstra with one '
  'correction vector per set, and its indicator is true exactly when every projection moves the point by less than the tolerance. '
  'Both stop at the requested count or at the first iteration that changes no entry by as much as the tolerance, and empty lists are refused.',
  ['inputs', 'configurations', 'histories'], 'every list of operators or projections, weights, tau and iteration limits',
  'Tests use two or three concrete sets and a loose tolerance on the limit; wrong increments or weights converge to a nearby point.',
  [PX + 'Sum.py', PX + '_Dykstra.py', PX + 'GenericIntersection.py', 'projection/GenericIntersection.py'],
  [('Dykstra helpers', 'proximal/_Dykstra.py'), ('sum prox', 'proximal/Sum.py'), ('intersection projection', 'projection/GenericIntersection.py')],
  [('increments', 'Dykstra correction vectors', 'proximal/_Dykstra.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
