import json
D='python/dp_accounting/dp_accounting/'
C='learning/clustering/'
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("P01","Privacy events survive conversion to named tuples and back",
 "For every privacy event built from the library's event classes, converting it to its named-tuple form and back yields an equal event, however deeply events are nested inside other events, lists or tuples, and whatever the parameter values are. The module and class names in the named tuple may be text or bytes.",
 ["inputs"],"all event classes, all parameter values, all finite nestings of events in fields and sequences",
 "Tests convert a dozen concrete events; the nesting depth and the parameter values are unbounded.",
 [D+"dp_event.py"],[("to_named_tuple",D+"dp_event.py:DpEvent.to_named_tuple"),("from_named_tuple",D+"dp_event.py:DpEvent.from_named_tuple")])
p("P02","The event builder describes exactly the events composed into it",
 "After any sequence of compose calls, the event built by the builder, when its compositions and self-compositions are expanded, is exactly the expanded sequence of the composed events with their multiplicities, in order, with no-op events left out. Building does not change what later calls return, and a call with a non-event, a non-integer count or a count below one raises TypeError or ValueError and changes nothing.",
 ["histories","inputs"],"all finite histories of compose and build calls with arbitrary events and counts, including self-composed events nested to any depth",
 "The order in which equal and different events alternate, the nesting of self-compositions and interleaved builds are unbounded; tests try a handful.",
 [D+"dp_event_builder.py"],[("compose",D+"dp_event_builder.py:DpEventBuilder.compose"),("build",D+"dp_event_builder.py:DpEventBuilder.build")])
p("P03","Accountants check an event completely before they account for it",
 "Asking an accountant whether it supports an event never changes its ledger or its privacy loss. Composing an event it does not support raises UnsupportedEventError and leaves the ledger and the reported epsilon and delta unchanged; composing an event it supports does not raise that error, extends the ledger by exactly that event and count, and returns the accountant. An event nested at any depth that is unsupported makes the whole event unsupported.",
 ["histories","inputs"],"all accountants, all neighbouring relations, all event trees and all histories of compose and supports calls",
 "Which sub-event is unsupported, at which depth and after which history, is unbounded.",
 [D+"privacy_accountant.py",D+"rdp/rdp_privacy_accountant.py",D+"pld/pld_privacy_accountant.py"],
 [("compose/supports",D+"privacy_accountant.py:PrivacyAccountant"),("rdp traversal",D+"rdp/rdp_privacy_accountant.py:RdpAccountant._maybe_compose"),("pld traversal",D+"pld/pld_privacy_accountant.py:PLDAccountant._maybe_compose")])
p("P04","RDP accounting is additive over composition and multiplicity",
 "The Renyi privacy loss an RDP accountant reports after any history is, at every order, the sum over the composed events of each event's own loss times its multiplicity. Composing an event n times, composing its n-fold self-composition once, and composing a list of n copies all give the same loss, the order of composition does not matter, no-op events add nothing, and after a non-private event epsilon is infinite and delta is 1 for ever.",
 ["histories","inputs"],"all event trees built by composition and self-composition over the supported events, all counts, all order lists, all histories",
 "The additive law quantifies over every event, count, nesting and starting state; tests compare a few fixed compositions.",
 [D+"rdp/rdp_privacy_accountant.py",D+"privacy_accountant.py"],
 [("accumulation",D+"rdp/rdp_privacy_accountant.py:RdpAccountant._maybe_compose")])
p("P05","PLD accounting composes every event with its full multiplicity",
 "The privacy loss distribution a PLD accountant holds after any history is the composition of one distribution per composed event, each self-composed as many times as its total multiplicity through composition counts and self-composed events. No-op events and events that provably release nothing (sampling probability 0, one bucket, a sensitivity of 0) leave it unchanged; non-private events and events with zero noise make epsilon infinite and delta 1 for ever.",
 ["histories","inputs"],"all event trees built over the supported events, all counts, parameters and neighbouring relations, all histories",
 "Multiplicity arises from every nesting of counts and self-compositions for each event class; tests only sample some classes with some counts.",
 [D+"pld/pld_privacy_accountant.py"],
 [("composition",D+"pld/pld_privacy_accountant.py:PLDAccountant._maybe_compose")])
p("P06","Each event's RDP is the documented Renyi divergence bound at every order",
 "For every supported event, every valid parameter and every order, the RDP contributed is the mechanism's documented formula: order/(2 sigma^2) for Gaussian, the closed forms for Laplace and for randomized response under both relations, the binomial-sum bound for Poisson-sampled Gaussian at integer orders, the sampling-without-replacement bound, and order*depth/(2 sigma^2) for tree aggregation. A composition of Gaussians inside a sampled event counts as the one Gaussian with noise multiplier (sum of sigma_i^-2)^(-1/2), for integer and floating-point noise multipliers alike. Zero noise or an infinite order gives infinite RDP wherever the mechanism has infinite divergence, and invalid parameters raise an error.",
 ["inputs"],"all events, all parameters, all orders >= 1 including infinity, all nestings of Gaussian compositions",
 "Parameters and orders are continuous; tests pin a few numbers with tolerances.",
 [D+"rdp/rdp_privacy_accountant.py"],
 [("sampled gaussian",D+"rdp/rdp_privacy_accountant.py:_compute_rdp_poisson_subsampled_gaussian"),("wor",D+"rdp/rdp_privacy_accountant.py:_compute_rdp_sample_wor_gaussian_int"),("effective noise",D+"rdp/rdp_privacy_accountant.py:_effective_gaussian_noise_multiplier"),("laplace",D+"rdp/rdp_privacy_accountant.py:_laplace_rdp"),("randomized response",D+"rdp/rdp_privacy_accountant.py:_randomized_response_rdp_replace_one"),("tree",D+"rdp/rdp_privacy_accountant.py:_compute_rdp_single_epoch_tree_aggregation")])
p("P07","Repeat-and-select accounting is a conservative, isolated charge",
 "The RDP charged for a repeat-and-select event depends only on that event and is added, times its multiplicity, to whatever the accountant held before. At every order it is at least the RDP of a single run and at least the bound of the published theorems for the given mean and shape, a non-private inner event gives an infinite charge, and the repetition distribution used has a mean of at least the requested one.",
 ["inputs","histories"],"all inner events, means >= 1, shapes >= 0 including infinity, all order lists, all prior histories",
 "The charge is computed by temporarily replacing the accountant's state and from minima over all orders; tests cover few order lists and shapes.",
 [D+"rdp/rdp_privacy_accountant.py"],
 [("repeat and select",D+"rdp/rdp_privacy_accountant.py:_compute_rdp_repeat_and_select"),("gamma search",D+"rdp/rdp_privacy_accountant.py:_gamma_truncated_negative_binomial"),("state save/restore",D+"rdp/rdp_privacy_accountant.py:RdpAccountant._maybe_compose")])
p("P08","Conversion from RDP to epsilon and delta is sound and optimal over the orders",
 "For any orders and RDP values, the epsilon reported for a delta is the smallest, and the delta reported for an epsilon is the smallest, of the published conversion bounds taken over the orders, never smaller than the bounds allow, with the order that attains it. Epsilon is never negative or NaN, delta lies in [0,1], infinite RDP at every order gives infinite epsilon and delta 1, and larger RDP or smaller target never makes the answer smaller.",
 ["inputs"],"all lists of orders >= 1 (including infinite orders) and RDP values in [0, infinity], all targets",
 "The minimum ranges over arbitrary lists of real orders and losses and special values (zero, infinity); tests use a few curves.",
 [D+"rdp/rdp_privacy_accountant.py"],
 [("compute_epsilon",D+"rdp/rdp_privacy_accountant.py:compute_epsilon"),("compute_delta",D+"rdp/rdp_privacy_accountant.py:compute_delta")])
p("P09","Delta of a discretised privacy loss distribution is its hockey-stick divergence",
 "For every discretised privacy loss distribution and every epsilon, the reported delta equals the infinity mass plus the sum over losses above epsilon of (1 - exp(epsilon - loss)) times the probability. Scalar and vector queries, dense and sparse storage, and the delta of a composition computed without materialising it all agree, and delta never increases with epsilon.",
 ["inputs"],"all finite loss distributions, all offsets, discretisation intervals, infinity masses and epsilon values including infinities and repeated or unsorted vectors",
 "Sums run over distributions of arbitrary size and epsilon falls on, between or outside arbitrary grid points.",
 [D+"pld/pld_pmf.py"],
 [("delta formula",D+"pld/pld_pmf.py:_get_delta_for_epsilon"),("vector delta",D+"pld/pld_pmf.py:_get_delta_for_epsilon_vectorized"),("composed delta",D+"pld/pld_pmf.py:DensePLDPmf.get_delta_for_epsilon_for_composed_pld")])
p("P10","Epsilon of a discretised privacy loss distribution inverts its delta",
 "For every discretised privacy loss distribution and target delta, the reported epsilon is non-negative, the distribution's delta at that epsilon is at most the target, and no smaller non-negative epsilon has this property. If the infinity mass exceeds the target the reported epsilon is infinite.",
 ["inputs"],"all finite loss distributions and all target deltas, in dense and sparse storage",
 "The inversion walks an arbitrarily long distribution with running sums; tests use distributions of two or three points.",
 [D+"pld/pld_pmf.py"],
 [("inverse",D+"pld/pld_pmf.py:_get_epsilon_for_delta")])
p("P11","Composition of privacy loss distributions is exact convolution, up to pessimistic truncation",
 "Composing two distributions gives the distribution of the sum of independent losses: probabilities convolve, and the infinity mass becomes 1-(1-a)(1-b). Composing a distribution with itself n times equals composing it n times one by one, in either storage, up to the requested tail mass, and truncated tail mass is moved so that pessimistic estimates never report a smaller delta than the exact composition. Distributions with different discretisation or estimate type are refused.",
 ["inputs","histories"],"all pairs of distributions, all numbers of compositions, all truncation settings, both storages and both estimate types",
 "Sizes, offsets, infinity masses and composition counts are unbounded; tests fix small lists.",
 [D+"pld/pld_pmf.py",D+"pld/common.py"],
 [("compose",D+"pld/pld_pmf.py:DensePLDPmf.compose"),("self compose",D+"pld/pld_pmf.py:DensePLDPmf.self_compose"),("sparse",D+"pld/pld_pmf.py:SparsePLDPmf"),("truncation",D+"pld/pld_pmf.py:DensePLDPmf._truncate"),("convolution",D+"pld/common.py:convolve_dictionary")])
p("P12","Discretising a mechanism is on the safe side at every epsilon",
 "The discretised distribution built for a mechanism with a pessimistic estimate reports, at every epsilon, a delta of at least the mechanism's true delta, and with an optimistic estimate at most the true delta. Its probabilities and infinity mass are non-negative and, for pessimistic estimates, sum to 1. With the connect-the-dots discretisation the delta is exact at every grid point inside the covered range.",
 ["inputs"],"all supported mechanisms and parameters, adjacency types, sampling probabilities, discretisation intervals and truncation settings, all epsilon",
 "The guarantee is an inequality between functions on the whole real line for continuous parameters.",
 [D+"pld/pld_pmf.py",D+"pld/privacy_loss_distribution.py"],
 [("connect the dots",D+"pld/pld_pmf.py:create_pmf_pessimistic_connect_dots"),("privacy buckets",D+"pld/privacy_loss_distribution.py:_create_pld_pmf_from_additive_noise")])
p("P13","A privacy loss distribution answers for the worse of the two adjacencies",
 "For every privacy loss distribution, delta at each epsilon is the larger of the deltas for removing and for adding a record, and epsilon at each delta is the larger of the two epsilons. Composition and self-composition act on the two directions separately and never mix them, a distribution built as symmetric behaves as if both directions were the same, and the identity distribution is neutral for composition.",
 ["inputs","histories"],"all distributions, symmetric or not, all compositions of them",
 "Asymmetric pairs and their compositions form an unbounded space; a mix-up shows only on some pairs.",
 [D+"pld/privacy_loss_distribution.py"],
 [("both adjacencies",D+"pld/privacy_loss_distribution.py:PrivacyLossDistribution")])
p("P14","Distributions built from explicit guarantees or probabilities are exact",
 "A distribution built from two probability mass functions, from randomized response, or from an (epsilon, delta) guarantee reports at every epsilon the hockey-stick divergence of the two output distributions it stands for: never less with a pessimistic estimate, never more with an optimistic one, and equal when every loss lies on the discretisation grid. Outcomes that one side cannot produce count as infinite loss.",
 ["inputs"],"all probability mass functions, noise parameters, bucket counts, neighbouring relations, epsilons and deltas",
 "Input distributions and parameters are arbitrary; zero-probability outcomes and off-grid losses are corner cases.",
 [D+"pld/privacy_loss_distribution.py"],
 [("two pmfs",D+"pld/privacy_loss_distribution.py:from_two_probability_mass_functions"),("randomized response",D+"pld/privacy_loss_distribution.py:from_randomized_response"),("privacy parameters",D+"pld/privacy_loss_distribution.py:from_privacy_parameters")])
p("P15","Mechanism privacy losses, their inverses and their deltas are consistent",
 "For every additive-noise mechanism and adjacency, the privacy loss at an outcome is the log-ratio of the two output densities, it never increases with the outcome, and the inverse privacy loss returns the largest outcome whose loss is at least the given value. The mechanism's delta at every epsilon is the hockey-stick divergence of the two output distributions, lies in [0,1], never increases with epsilon, and has the same value for scalar, list, integer and floating-point arguments.",
 ["inputs"],"all mechanisms (Laplace, Gaussian, discrete Laplace, discrete Gaussian, mixture of Gaussians, and sampled versions), parameters, sensitivities, sampling probabilities, outcomes and epsilons",
 "Outcomes, epsilons and parameters are continuous; the corner cases (losses beyond the attainable range, sampling limits, integer types) are many.",
 [D+"pld/privacy_loss_mechanism.py"],
 [("losses and inverses",D+"pld/privacy_loss_mechanism.py:MonotonePrivacyLoss"),("delta",D+"pld/privacy_loss_mechanism.py:AdditiveNoisePrivacyLoss.get_delta_for_epsilon"),("mixture",D+"pld/privacy_loss_mechanism.py:MixtureGaussianPrivacyLoss")])
p("P16","Noise calibrated from a privacy guarantee satisfies that guarantee",
 "Every mechanism created from a privacy guarantee (Laplace, discrete Laplace, Gaussian, discrete Gaussian) has, at the guarantee's epsilon, a delta of at most the guarantee's delta, for any sensitivity. The smallest-noise searches over numbers of queries return a parameter whose composed delta is within the budget, and the advanced-composition helper returns an epsilon whose composition bound is within the total delta, or nothing when none exists.",
 ["inputs"],"all epsilons, deltas, sensitivities and numbers of queries in the documented domain",
 "Guarantees and sensitivities are continuous; tests check a handful of numbers.",
 [D+"pld/accountant.py",D+"pld/privacy_loss_mechanism.py",D+"pld/common.py"],
 [("from_privacy_guarantee",D+"pld/privacy_loss_mechanism.py:from_privacy_guarantee"),("smallest noise",D+"pld/accountant.py:get_smallest_gaussian_noise"),("advanced composition",D+"pld/accountant.py:advanced_composition")])
p("P17","Monotone-function search returns a point on the safe side within tolerance",
 "Given a monotone function and a target, the search returns a point inside the bounds where the function does not exceed the target, and moving from it by the tolerance towards larger function values reaches or exceeds the target (or leaves the bounds). It returns nothing exactly when no point of the bounds qualifies, and in discrete mode the returned point is the best integer.",
 ["inputs"],"all monotone functions, increasing or decreasing, all bounds, targets, tolerances and initial guesses, continuous or discrete",
 "The function is arbitrary, so correctness is a loop invariant of a bisection with a doubling phase, not a matter of sampled functions.",
 [D+"pld/common.py"],
 [("search",D+"pld/common.py:inverse_monotone_function")])
p("P18","Mechanism calibration never exceeds the privacy target",
 "If calibration of a mechanism parameter returns a value, the accountant's epsilon (or delta) for the event made from that value is at most the target, and the value lies within the given or found bracket; when the target is attainable at the end-points only, an end-point is returned. For integer-valued parameters the result is an integer, and failure to find a bracket raises an error instead of returning a parameter.",
 ["inputs","programs"],"all monotone event families, accountants, targets, brackets or initial guesses, tolerances, and discrete or continuous parameters",
 "The event family is arbitrary user code, so the guarantee is an invariant of the bracket and bisection loops.",
 [D+"mechanism_calibration.py"],
 [("calibrate",D+"mechanism_calibration.py:calibrate_dp_mechanism"),("bracket search",D+"mechanism_calibration.py:_search_for_explicit_bracket_interval")])
p("P19","Convolution helpers are exact and their truncation bounds are safe",
 "Convolving two lists or two sparse distributions gives exactly the distribution of the sum, and self-convolving n times equals n-fold convolution restricted to the returned range. The range chosen for a given tail mass leaves out at most that much probability of the n-fold convolution, and conversions between list and sparse form lose nothing but probability the caller allowed to drop.",
 ["inputs"],"all lists and sparse distributions, all numbers of convolutions, all tail masses and orders",
 "Sizes, counts and masses are unbounded, and the tail bound is an inequality over all of them.",
 [D+"pld/common.py"],
 [("convolve",D+"pld/common.py:self_convolve"),("bounds",D+"pld/common.py:compute_self_convolve_bounds"),("list/sparse",D+"pld/common.py:dictionary_to_list")])
p("P20","Private clustering spends no more than its privacy budget",
 "For every privacy parameter, depth and multiplier, the event accounted for in private clustering contains one mechanism for the private sums and one count mechanism per tree level with exactly the noise those mechanisms add. Calibrated noise multipliers give an epsilon of at most the requested epsilon at the requested delta, and a configuration that would exceed the budget is rejected before any data is released.",
 ["inputs","configurations"],"all epsilons, deltas, radii, tree depths and explicit or calibrated noise multipliers",
 "The accounted event and the noise actually added are computed in different modules from continuous parameters; tests check a few settings.",
 [C+"privacy_calculator.py",C+"clustering_params.py",C+"central_privacy_utils.py",C+"coreset_params.py"],
 [("accounting",C+"privacy_calculator.py"),("noise",C+"central_privacy_utils.py"),("budget",C+"clustering_params.py")])
p("P21","The clustering tree partitions the data and bounds each point's contribution",
 "At every level of the locality-sensitive-hashing tree every data point belongs to at most one node, the children of a node hold exactly the node's points, and each point is counted at most once per level and averaged in at most one leaf. Only nodes whose private count passes the level's threshold are branched and the depth never exceeds the configured maximum; leaves have distinct hash prefixes.",
 ["inputs","configurations"],"all data sets, projections, depths, branching thresholds and noise outcomes",
 "Data, projections and noise are arbitrary, so the partition is a data-structure invariant over all trees.",
 [C+"lsh.py",C+"lsh_tree.py"],
 [("hashing",C+"lsh.py"),("tree",C+"lsh_tree.py")])
p("P22","Clustering clips every point to the radius and releases only noised values",
 "After clipping, every point has norm at most the configured radius, points already within the radius are unchanged and directions are preserved. The released count is the number of points plus noise, floored as documented, and the released average is the clipped sum plus noise calibrated to the radius divided by the private count, never using the exact count.",
 ["inputs"],"all data sets, radii, noise values and private counts",
 "Norms and noise are continuous; a sensitivity violation shows only for points outside the radius or for extreme noise.",
 [C+"central_privacy_utils.py",C+"clustering_params.py"],
 [("clip",C+"clustering_params.py:Data.clip_by_radius"),("count and average",C+"central_privacy_utils.py")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), [len(x['title']) for x in P])
