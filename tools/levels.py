"""level and note per claimed property"""
BASE = ' Trusted: the pyvc generator and its models of the Python/numpy operations used, z3/cvc5; floats are treated as exact extended reals, so rounding is outside the proof. The same contracts are also evaluated on the unmodified code for seeded inputs.'
LEVELS = {
    'P01': ('proof', 'For every event class: all field values and sequence lengths, by structural induction (sub-events are opaque and survive by hypothesis). Random nested trees are a bounded addition.' + BASE),
    'P02': ('proof', 'compose and build are proved from an arbitrary builder state of unbounded length; the history property follows by induction over calls. Random histories are a bounded addition.' + BASE),
    'P03': ('proof', 'Every event class and relation with arbitrary parameters, every wrapper over opaque supported or unsupported sub-events (lists of any length), from an arbitrary accountant state, for both accountants; the event tree property follows by induction. The ledger is seen through the builder contract (P02), mechanism losses through uninterpreted functions. Random histories on the unmodified accountants are a bounded addition.' + BASE),
    'P04': ('proof', 'Every event class adds count times its own loss to an arbitrary (also infinite) state at every order; self-composition multiplies counts; composition of any number of opaque sub-events adds the sum of their losses. The per-mechanism RDP functions are opaque here (P06, P07). Random histories are a bounded addition.' + BASE),
    'P05': ('proof', 'Every event class, both wrappers and any number of opaque sub-events: the distribution held is the old one composed with the right one count times, where privacy loss distributions are seen through an arbitrary additive homomorphism (their algebra is P11, P13). Random histories with real distributions are a bounded addition, compared up to the discretisation.' + BASE),
    'P06': ('proof', 'Closed forms for Gaussian, Laplace (orders away from 1), randomized response, tree aggregation and composed Gaussians, for all parameters and orders; the Poisson-sampled Gaussian at every integer order as a binomial sum of any length, log_add through its proved contract. Bounded, not proved: fractional orders of the Poisson-sampled Gaussian, sampling without replacement, Laplace orders close to 1, degenerate and invalid parameters (arbitrary-precision oracles on the unmodified code).' + BASE),
    'P07': ('proof', 'Isolation of the charge for any inner event, history and count; the theorem bounds for order lists of any length, including the monotone closure (an inductive array summary); the search for gamma by Houdini invariants over an arbitrary mean function; the mean formula over the contracts of its two series. Bounded, not proved: the two Taylor series, and the end-to-end comparison with an arbitrary-precision oracle. The theorems themselves are taken from the paper.' + BASE),
    'P08': ('proof', 'compute_epsilon and compute_delta are proved for order lists of any length, including infinite orders and infinite RDP; accountant queries are proved against them.' + BASE),
    'P09': ('proof', 'delta queries of dense and sparse PMFs for any number of losses, masses and epsilons: the value equals the hockey-stick sum plus the infinity mass, falls with epsilon, is the infinity mass at infinite epsilon, does not depend on storage; the vectorised two-pointer loops by Houdini invariants over opaque losses and masses. Losses are within 700 in magnitude (precondition). Bounded, not proved: composed deltas and infinite epsilons inside a vector (seeded distributions on the unmodified code).' + BASE),
    'P10': ('proof', 'Inversion of delta for dense and sparse PMFs with any number of losses and any masses: the result is infinite exactly when the infinity mass exceeds delta, otherwise finite and non-negative, delta at it is at most the target and delta at every smaller non-negative epsilon is above it. Losses within 700 in magnitude, exact arithmetic. Bounded additions: rounding, extreme losses and real distributions against an arbitrary-precision oracle on the unmodified code.' + BASE),
    'P11': ('exploration', 'Contract of composition evaluated on the unmodified code against exact convolution: bounded, not proved.'),
    'P12': ('exploration', 'Contract of the discretised distributions evaluated on the unmodified code against divergences computed from the output densities in arbitrary precision: bounded, not proved.'),
    'P13': ('proof', 'Delta and epsilon queries (scalar and vector) are the worse direction, composition and self-composition act direction by direction, and construction from probabilities builds both directions, for any two one-directional distributions, which are used through their contracts (P09 to P11). Bounded, not proved: identity distributions and compositions of real distributions.' + BASE),
    'P14': ('exploration', 'Contract of the constructors evaluated on the unmodified code against the hockey-stick divergence: bounded, not proved.'),
    'P15': ('proof', 'Losses and inverse losses of the four additive-noise mechanisms, with and without sampling, for all parameters: the loss is the log-ratio of the densities and the inverse separates the outcomes with at least the given loss. Bounded, not proved: deltas at every epsilon, the mixture of Gaussians, and degenerate values (arbitrary-precision oracles on the unmodified code).' + BASE),
    'P16': ('proof', 'Laplace and discrete Laplace: no outcome of the calibrated mechanism has a loss above epsilon, for all parameters. Gaussian mechanisms and the searches over numbers of queries: through the proved contract of the monotone search (P17), with the delta curve as an arbitrary function, assuming delta for adding a record is at most that for removing one. Advanced composition against the theorem for every number of queries, with opaque binomial coefficients. Deltas of the real mechanisms and compositions are a bounded addition.' + BASE),
    'P17': ('proof', 'For every monotone extended-real function, all bounds, targets, tolerances and guesses, continuous and discrete, by inductive loop invariants found with Houdini. Guesses are positive and within the bounds, and an infinite upper bound comes with a guess (preconditions); termination and floating-point resolution are checked on bounded runs only.' + BASE),
    'P18': ('proof', 'For every event family and accountant (epsilon as an arbitrary extended-real function of the parameter), brackets, guesses and tolerances, discrete or not; scipy brentq is used through an assumed contract, the recursive bisection through its own proved contract. Runs with the real accountants are a bounded addition; termination is not proved.' + BASE),
    'P19': ('exploration', 'Contract of the convolution helpers evaluated on the unmodified code against exact convolution: bounded, not proved.'),
    'P20': ('proof', 'The accounted event, the multipliers, the calculator and the budget check for all parameters, with calibration by its contract (P18) and the accountant as any accountant (P05); private_lsh_clustering checks the budget before it releases anything. Runs with the real accountant and with recorded noise draws are a bounded addition. Known finding: counts have discrete Laplace noise and are accounted as continuous Laplace.' + BASE),
    'P21': ('proof', 'Grouping by the next hash and the children of a node, for any number of points, any projections, prefix and noise. Bounded, not proved: whole trees (levels, thresholds, depth, leaves), on the unmodified code against the partition by hash prefixes.' + BASE),
    'P22': ('proof', 'Clipping, private counts, private averages and the nodes that release them, for any number of points, seen through their norms and an arbitrary coordinate. Bounded, not proved: the coreset of a whole tree, against a reference that follows the documentation.' + BASE),
}
NA = {}
