#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

STEP = 'src/bartz/mcmcstep.py'; LOOP = 'src/bartz/mcmcloop.py'; GROVE = 'src/bartz/grove.py'
EXT = 'src/bartz/jaxext.py'; BART = 'src/bartz/BART.py'; PREP = 'src/bartz/prepcovars.py'; DBG = 'src/bartz/debug.py'
UNTESTED = 'None of the 28 stable tests runs an MCMC step at all; even upstream test_interface.py samples a handful of seeds at one shape (n=30, p=2, 20 trees, depth 6).'

prop('C01', 'Residuals always equal data minus forest',
 'After every MCMC step the residual vector kept in the state equals the response minus the sum over all trees of the value of the leaf each datapoint falls into, up to accumulated floating point roundoff. This holds whatever mixture of grow and prune moves was proposed, accepted, rejected or impossible along the way, for any entropy stream, data, tree depth, forest size, minimum leaf size and residual/count batch size.',
 ['histories', 'inputs', 'configurations'], 'every state reached by any sequence of steps, for every stream of random bits and every legal configuration of the initial state',
 UNTESTED + ' Drift or desynchronisation shows only after particular sequences of accepted/rejected moves.',
 [STEP, GROVE], [('incremental residual update', STEP + ':accept_move_and_sample_leaves'), ('tentative grow of leaf values', STEP + ':adapt_leaf_trees_to_grow_indices')],
 ['state returned by mcmcstep.step / handed to run_mcmc callbacks'], [('resid', 'response minus forest', 'state dict'), ('leaf_trees', 'leaf values', 'state dict')])

prop('C02', 'Every tree in every state is a valid decision tree',
 'In every state and in every saved trace sample each tree is a well formed binary heap: the unused slot is zero, no decision node hangs below a leaf, all leaf values are finite, and array shapes and dtypes stay those of the initial state. Every decision node tests an existing predictor at a cutpoint between 1 and that predictor\'s number of cutpoints and strictly inside the range left open by its ancestors, so both of its branches are reachable.',
 ['histories', 'inputs', 'configurations'], 'every tree of every state reached by any sequence of steps under any stream of random bits, with or without a minimum leaf size, including predictors with few or no cutpoints and cutpoint counts at integer type boundaries',
 UNTESTED + ' debug.check_trace does not look at cutpoint or predictor ranges.',
 [STEP, GROVE, DBG], [('choice of the splitting rule', STEP + ':choose_variable, choose_split, split_range'), ('structure update', STEP + ':apply_moves_to_split_trees')],
 ['var_trees, split_trees, leaf_trees in states and traces'])

prop('C03', 'Datapoint bookkeeping agrees with the trees',
 'In every state, for every tree, the recorded leaf of each datapoint is exactly the leaf reached by routing that datapoint through the tree (left iff predictor < cutpoint). When a minimum leaf size is set, the flag telling whether a leaf that is not on the bottom level holds at least twice that many datapoints is exact for every such leaf, and it is absent when no minimum is set.',
 ['histories', 'inputs', 'configurations'], 'every state reached by any sequence of steps under any stream of random bits',
 UNTESTED + ' The cache is only ever updated incrementally, so an error needs a history to appear and then persists.',
 [STEP, GROVE], [('incremental leaf indices', STEP + ':apply_grow_to_indices, apply_moves_to_leaf_indices'), ('affluence flags', STEP + ':accept_moves_parallel_stage')],
 ['leaf_indices, affluence_trees in the state'], [('leaf_indices', 'leaf each datapoint falls into', 'state dict'), ('affluence_trees', 'leaf has at least 2*min points', 'state dict')])

prop('C04', 'No leaf ever holds fewer points than the minimum',
 'When a minimum number of datapoints per leaf is set (5 in the high level interface), no step ever creates a leaf with fewer datapoints than that, so every tree that is not a bare root has at least the minimum in all its leaves, in every state and every saved sample. Consequently a dataset with fewer than twice the minimum keeps all trees bare roots.',
 ['histories', 'inputs', 'configurations'], 'every leaf of every state reached under any stream of random bits, any minimum (including 0 and 1), any data with ties and empty bins',
 'Upstream checks one seed per predictor kind with the default minimum of 5 through the high level interface; none of the 28 stable tests does.',
 [STEP, BART], [('rejection of undersized children', STEP + ':accept_move_and_sample_leaves'), ('growable leaves', STEP + ':growable_leaves')],
 ['var_trees, split_trees, X in the state and the trace'])

prop('C05', 'One legal move per tree per step, and counters report it',
 'In one MCMC step each tree keeps its structure, or turns exactly one leaf into a decision node with two leaf children, or turns exactly one decision node with two leaf children into a leaf; rules of all other decision nodes stay untouched. The grow/prune acceptance counters equal the number of trees that grew/shrank, and the proposal counters are consistent with which moves were possible: a tree that can only grow counts as a grow proposal, one that can only be pruned as a prune proposal, one that can do neither as no proposal, and every other tree as exactly one of the two.',
 ['histories', 'inputs', 'configurations'], 'every consecutive pair of states of every history under any stream of random bits',
 UNTESTED + ' Counters and move legality relate consecutive states, which no test looks at.',
 [STEP, LOOP], [('move proposal', STEP + ':sample_moves'), ('acceptance', STEP + ':accept_moves_sequential_stage, accept_moves_final_stage')],
 ['grow_prop_count, grow_acc_count, prune_prop_count, prune_acc_count and tree arrays of consecutive states'])

prop('C06', 'Tree moves are proposed and accepted with the right odds',
 'From any state the random tree update follows the Metropolis-Hastings kernel of the BART posterior: grow or prune with equal odds when both are possible, the leaf to grow with odds proportional to the prior nonterminal probability at its depth, the node to prune uniformly, the predictor uniformly among those with cutpoints still available there and the cutpoint uniformly among the available ones; the move is accepted with probability min(1, prior ratio x transition ratio x marginal likelihood ratio). When saving of the ratios is enabled, the two log factors recorded for each tree (in the direction of growth) are those of an actually possible move and, for accepted moves, of that move.',
 ['histories', 'inputs', 'configurations'], 'the transition law out of every reachable state, for any forest size, depth, prior, noise variance, data and minimum leaf size',
 'A wrong Metropolis factor biases the posterior without breaking any invariant; upstream only compares posterior means with the R package BART at two settings, and that test cannot run here.',
 [STEP], [('transition and prior ratio', STEP + ':compute_partial_ratio, complete_ratio, compute_p_prune'), ('likelihood ratio', STEP + ':precompute_likelihood_terms, compute_likelihood_ratio'), ('proposals', STEP + ':choose_leaf, choose_leaf_parent, choose_variable, choose_split')],
 ['structures before/after one step over many random keys', "state['ratios']"])

prop('C07', 'Leaf values are drawn from their conditional posterior',
 'Given the tree structures, noise variance and the other trees, at each step every leaf of every tree is redrawn independently from a normal with precision count/sigma2 + num_trees and mean equal to the sum of partial residuals in the leaf over sigma2, divided by that precision; leaves without datapoints follow the prior of variance 1/num_trees. Trees are updated one after the other in order, each seeing the already updated ones, and draws of different leaves, trees and steps are independent.',
 ['histories', 'inputs', 'configurations'], 'every leaf redrawn in every step of every history (after accepted, rejected and impossible moves alike), for any data and configuration',
 UNTESTED + ' A biased or correlated draw leaves all shapes and invariants intact; it takes the recorded history and a distributional oracle to see it.',
 [STEP], [('posterior of the leaves', STEP + ':precompute_leaf_terms, accept_move_and_sample_leaves'), ('partial residual sums', STEP + ':sum_resid')],
 ['leaf_trees of consecutive states'])

prop('C08', 'Noise variance is drawn from its conditional posterior',
 'At the end of each step the noise variance is redrawn from the inverse gamma with shape equal to the prior shape plus half the number of datapoints and scale equal to the prior scale plus half the squared norm of the residuals after the tree update. Draws are positive, independent across steps, and in the high level interface the reported sigma of each saved or burn-in iteration is the square root of that iteration\'s draw in the units of the response.',
 ['histories', 'inputs', 'configurations'], 'every step of every history, for any prior, data size (including none) and data scale',
 UNTESTED + ' The law of a draw conditional on the history cannot be seen from the finite/shape assertions upstream has.',
 [STEP, BART], [('conjugate draw', STEP + ':sample_sigma'), ('units', BART + ':_extract_sigma')],
 ['sigma2, resid in states; sigma, first_sigma of gbart'])

prop('C09', 'Burn-in, saving and thinning only select from one chain',
 'For a fixed initial state and key, the numbers of burn-in iterations, saved iterations and the thinning factor only decide which iterations of one and the same chain are recorded: the k-th saved sample is the state after burn-in + k * thinning iterations, the burn-in trace holds the first iterations, and the final state is the one after the last iteration. Traces have exactly the requested lengths and the documented fields, also when nothing is burned in or saved.',
 ['histories', 'configurations', 'inputs'], 'every pair of run lengths (burn-in, saved, thinning, including zeros) covering the same iterations, for any key and initial state',
 'Upstream compares three settings with one seed each; none of the stable tests does.',
 [LOOP, BART], [('burn-in/main loops', LOOP + ':run_mcmc'), ('empty traces', LOOP + ':run_mcmc.empty_trace')],
 ['outputs of run_mcmc; yhat_train, sigma, first_sigma of gbart'])

prop('C10', 'A chain resumes exactly from a serialized state',
 'The MCMC state is self contained: if the process dies after any iteration and the state saved at some earlier iteration is restored, possibly in a fresh process, on another thread or another device, continuing with the same keys reproduces exactly the chain that was lost. Likewise a fitted model restored from its serialized form makes exactly the same predictions and reports the same attributes.',
 ['crash_points', 'histories', 'fault_sequences'], 'every crash point and every checkpoint the crash falls back to, repeated crashes, torn checkpoints, and all restart environments',
 'No test serializes a state or restarts anything.',
 [STEP, LOOP, BART, EXT], [('all state in one pytree', STEP + ':init'), ('static config travels with the state', EXT + ':LeafDict')],
 ['states of the interrupted and of the uninterrupted chain; predictions of a restored gbart'])

prop('C11', 'A step never modifies its input and chains never interact',
 'Stepping a chain, running the MCMC loop or evaluating a trace leaves the state dictionary it was given and everything reachable from it unchanged and usable, whether run compiled or not, so that branching from a kept state or repeating a step with the same key gives the same result. Chains advanced in the same process in any interleaving, sharing data arrays, compiled code or even a common ancestor state, evolve exactly as if each ran alone. Likewise a fit leaves the data, the settings dictionary and the key it was given unchanged, and the result of a fit does not depend on the fits done before in the same process, nor does a fitted model change when others are fitted.',
 ['schedules', 'histories'], 'every interleaving of steps of several chains, branches and repeats from kept states, sessions of fits sharing their inputs, in compiled and op-by-op execution',
 'No test keeps an input state and looks at it after a step, and none runs two chains.',
 [STEP, LOOP], [('copy before update', STEP + ':bart.copy() in each stage'), ('callback/jit caches', LOOP + ':make_simple_print_callback, run_mcmc')],
 ['input state after the call; twin histories'])

prop('C12', 'The callback sees every iteration once, with its true state',
 'During a run the user callback is invoked exactly once per iteration with the correct iteration index, burn-in flag, index since the last saved sample and the run lengths as given, and with the complete state after that iteration: what it sees coincides with the traces and final state returned. If it fails at some iteration the run fails and later iterations are not reported as successful, and later runs are unaffected.',
 ['histories', 'fault_sequences', 'configurations'], 'every combination of run lengths, every iteration, every point at which the callback fails',
 'No test passes a callback to run_mcmc.',
 [LOOP], [('callback invocation', LOOP + ':run_mcmc.inner_loop')],
 ['arguments received by the callback vs. traces and final state'])

prop('C13', 'The progress report is exact',
 'When fitting, exactly one progress line is printed for each iteration whose 1-based number is a multiple of the requested period, burn-in and thinned-out iterations included, and none otherwise. Each line carries the true iteration number, the true total number of iterations, whether it belongs to the burn-in, and the fractions of trees for which grow/prune was proposed and of proposals that were accepted in that very iteration; printing does not influence the results, and a failure of the output stream is never turned into a silently wrong fit.',
 ['histories', 'configurations', 'fault_sequences'], 'every combination of period, burn-in, saved and thinning counts, concurrent or repeated fits with different periods, and output failures at any line',
 'No test looks at the printed output.',
 [LOOP, BART], [('print callback', LOOP + ':make_simple_print_callback, _simple_print_callback')],
 ['standard output of gbart and of run_mcmc with the print callback'])

prop('C14', 'Predictions are exactly those of the recorded forests',
 'For every saved iteration, the predictions on training and test points equal offset + scale times the sum, over all trees recorded for that iteration, of the value of the leaf the (binned) point falls into; means are averages over saved iterations. Predictions on the training predictors reproduce the training predictions exactly, predictions of a point do not depend on which other points are in the request or on when and how often predictions are requested, and data frames and arrays with the same content give the same results, while requests whose format or columns do not match the training data are refused without side effects.',
 ['histories', 'inputs', 'configurations', 'fault_sequences'], 'every fitted model and every sequence of valid and invalid prediction requests, any request size (including empty), any container, under any memory budget for batching',
 'Upstream compares predict(X) with yhat_train for one seed and shape; no test evaluates a forest independently or uses data frames.',
 [BART, LOOP, GROVE, EXT], [('forest evaluation', LOOP + ':evaluate_trace; ' + GROVE + ':evaluate_forest, traverse_tree'), ('format check', BART + ':_process_predictor_input, _check_compatible_formats')],
 ['yhat_train, yhat_test, predict, *_mean of gbart; evaluate_trace'])

prop('C15', 'Memory budgets and batch sizes never change results',
 'Processing in batches is invisible: for any memory budget, a function wrapped for automatic batching returns the same values as unwrapped (along any batched or unbatched axes), splits the work into equal batches that fit the budget whenever that is possible, and warns when it is not. Predictions, predictor binning and quantile cutpoints under any budget equal those with unlimited budget, and MCMC steps with any residual or count batch size make the same decisions and values up to roundoff.',
 ['configurations', 'inputs', 'histories'], 'every budget from one byte up and every batch size (including none, 1, non-divisors and more than the number of datapoints)',
 'The stable tests exercise autobatch at six sizes on one function; no test reaches more than one batch in predictions or binning (the budget is fixed at 512 MiB), and none compares batch sizes in a step.',
 [EXT, LOOP, PREP, STEP], [('autobatch', EXT + ':autobatch'), ('batched sums', STEP + ':_aggregate_batched_onetree, _aggregate_batched_alltrees')],
 ['outputs under different budgets; states after one step with different batch sizes'])

prop('C16', 'Concurrent use from several threads equals serial use',
 'Fits, predictions, lazily computed attributes and MCMC runs issued from several threads, on shared or separate models, data and states, return exactly what each call returns when executed alone, under any interleaving of the threads. No call raises because of the presence of the others.',
 ['schedules'], 'every interleaving of the host code of concurrently executing calls',
 'No test uses threads, and a race shows only under particular interleavings.',
 [BART, LOOP, EXT], [('no shared mutable module state', 'src/bartz'), ('cached attributes and callback cache', BART + ':yhat_train; ' + LOOP + ':make_simple_print_callback')],
 ['return values of each call under a controlled thread schedule'])

prop('C17', 'An interrupted or failed call leaves no damage behind',
 'If a call is cut short at any point by an interrupt, a failed allocation, a failing host computation or a failing output stream, the error reaches the caller (it is never replaced by a wrong result), and models, states and input data in the caller\'s hands remain as they were. Repeating the call afterwards, or making any other call, gives exactly the result it would have given had the failure never happened.',
 ['fault_sequences', 'crash_points'], 'every point of the library\'s host code (including while a function is being traced for compilation) at which an exception can surface, and sequences of several such failures',
 'No test injects a failure.',
 [BART, LOOP, STEP, EXT, PREP], [('functional updates, no global state', 'src/bartz'), ('host callback for the inverse gamma quantile', EXT + ':pure_callback_ufunc')],
 ['outcome of the interrupted call; results of repeated calls'])

prop('C18', 'The seed alone decides the result',
 'Given the same data and settings, a fit or an MCMC run is determined by its seed or key alone: it is bit for bit the same when repeated, in a fresh process, under a different hash seed, at a different time of day, after unrelated work and with other random generators in any state; an integer seed is equivalent to the random key made from it. Different seeds give different chains, and distinct iterations and trees consume distinct randomness.',
 ['schedules', 'histories', 'configurations'], 'every seed, every process environment and every history of earlier calls in the process',
 'No test runs a fit twice or in two processes.',
 [BART, LOOP, STEP], [('key handling', BART + ':_run_mcmc'), ('key splitting', LOOP + ':run_mcmc; ' + STEP + ':step, sample_trees, sample_moves')],
 ['bitwise digests of all outputs'])

prop('C19', 'Changing units changes results only by the units',
 'Rescaling and shifting the response transforms offset, scale, lamda, sigest, sigma and all predictions of the fit accordingly and leaves the tree structures of the whole chain as they were. Rescaling predictors (and test predictors along) by a positive factor leaves the fit and its predictions unchanged, with both uniform and quantile binning.',
 ['histories', 'inputs', 'configurations'], 'every chain, for any entropy stream and any affine change of units (exactly for powers of two, where floating point commutes with scaling)',
 'Upstream checks one scale and shift with one seed to 1e-5; none of the stable tests does.',
 [BART, PREP], [('standardisation', BART + ':_transform_input, _transform_output, _process_scale_settings, _process_noise_variance_settings')],
 ['attributes of twin fits'])

prop('C20', 'Execution mode is transparent',
 'A step, a run or a whole fit gives the same chain (up to floating point roundoff) whether executed op by op, compiled, vectorised over several chains, or placed on another device, and a vectorised batch of chains evolves as the chains would separately. All of them can be used inside a user\'s own compiled function.',
 ['configurations', 'schedules', 'histories'], 'every reachable state and key, in every execution mode',
 'Upstream has one test that compiles a fit; none of the stable tests does.',
 [STEP, LOOP, BART], [('tracer-safe code', STEP + ':_choose_suffstat_batch_size'), ('static config', EXT + ':LeafDict')],
 ['states after the same step in different modes'])

prop('C21', 'Degenerate but valid problems are handled, results finite',
 'For any finite training data of representable spread with a non-constant response (or fewer than two responses) and any valid settings, fitting and predicting succeed with finite outputs (averages over no samples excepted) of the documented shapes and types: no, one or two datapoints, more predictors than datapoints, constant, duplicated or collinear predictors, a single cutpoint, cutpoint counts at integer type boundaries, trees of maximum depth one or two, no burn-in, no saved samples, thinning, empty test sets. Dataset sizes below two use the documented fallbacks (offset 0 without data, scale 1 and sigest 1 below two datapoints).',
 ['inputs', 'configurations', 'histories'], 'every valid data shape and setting, over whole chains under any entropy stream',
 'Upstream runs n = 0, 1, 2, 9 with one setting each; none of the stable tests fits anything.',
 [BART, PREP, STEP, LOOP], [('fallbacks for small data', BART + ':_process_*_settings'), ('empty traces', LOOP + ':run_mcmc'), ('tree arrays of small depth', STEP + ':ancestor_variables, randint_exclude')],
 ['all public attributes of gbart and predict'])

prop('C22', 'Diagnostics flag corrupted trees and only those',
 'The tree diagnostics never flag a forest produced by the sampler, and after corruption of stored tree arrays (non-finite leaf values, values in the unused slot, decision nodes below leaves, wrong integer types) flag exactly the affected trees with exactly the matching error names. The depth and points-per-leaf distributions they report match a direct count over the recorded trees, and the printed form of a tree lists its nodes with their rules and values.',
 ['fault_sequences', 'histories', 'inputs'], 'every recorded history and every single or combined corruption of its stored arrays',
 'Upstream only asserts that no error is flagged for one seed; nothing checks that errors are found.',
 [DBG, BART, GROVE], [('checks', DBG + ':check_functions, check_tree, describe_error'), ('distributions', DBG + ':trace_depth_distr, trace_points_per_leaf_distr')],
 ['debug.check_trace, debug.describe_error, depth and points-per-leaf distributions'])

prop('C27', 'Any schedule of updates preserves the posterior',
 'If the trees, leaf values and noise variance are a draw from the prior (trees by the prior split probabilities with rules uniform among those available, restricted to valid trees; leaf values of variance 1/num_trees; inverse gamma noise variance) and the responses a draw from the model given them, then after any sequence of full steps, forest updates, noise updates and whole runs, interleaved with redrawing the response given the parameters, reordering the trees and returning to earlier states, parameters and responses still follow that same joint law. In particular a fit without data samples from the documented prior: the split probabilities base/(1+depth)^power, function values normal around the offset with the documented scale, noise variance scaled inverse chi squared with sigdf degrees of freedom and scale lamda.',
 ['histories', 'schedules', 'configurations'], 'every schedule of updates, every prior setting, number of datapoints, trees, depths, minimum leaf size and cutpoints',
 'This is what the sampler exists to provide; it is a statement about the distribution over all entropy streams, which a test with a few seeds cannot see. Upstream compares posterior means with the R package at two settings, which can not run here.',
 [STEP, LOOP, BART], [('the two halves of a step', STEP + ':sample_trees, sample_sigma'), ('acceptance', STEP + ':accept_moves_and_sample_leaves'), ('prior settings', BART + ':_setup_mcmc')],
 ['states before and after schedules of updates over many chains', 'traces of fits without data'])

prop('C28', 'Presentation of the training data does not matter',
 'A fit or step depends on the datapoints, not on how they are presented: listing the same datapoints in another order only permutes the per-datapoint results, and the container (array, data frame, series, their index and the names of the columns), memory layout and numerical type of the same values do not matter at all. With quantile cutpoints and a given noise prior, replacing predictors by strictly increasing functions of themselves (in training and test data) changes nothing.',
 ['inputs', 'histories'], 'every dataset, order, container, type and layout, every increasing function, every reached state',
 'Upstream compares one data frame with one array; nothing permutes datapoints or transforms predictors.',
 [BART, STEP, PREP], [('input processing', BART + ':_process_predictor_input, _process_response_input'), ('binning', PREP + ':bin_predictors'), ('sums over datapoints', STEP + ':sum_resid, count_datapoints_per_leaf')],
 ['public attributes of gbart', 'consecutive states'])

prop('C23', 'Binning follows the half-open convention',
 'A value x is mapped to bin i iff cutpoint i-1 < x <= cutpoint i, for any cutpoint array and search method, in the smallest unsigned type that can hold the number of cutpoints.',
 ['inputs'], 'every value and every sorted cutpoint array', 'Two example values are tested.',
 [PREP], [('searchsorted', PREP + ':bin_predictors')])
prop('C24', 'Cutpoints are sorted, separating and within the requested number',
 'Quantile cutpoints separate the observed values of each predictor with at most the requested number of bins and are padded with the largest value of the type; uniform cutpoints are evenly spaced strictly between minimum and maximum.',
 ['inputs'], 'every predictor matrix and number of bins', 'A dozen small arrays are tested.',
 [PREP], [('quantiles', PREP + ':_quantilized_splits_from_matrix'), ('uniform grid', PREP + ':uniform_splits_from_matrix')])
prop('C25', 'Prior calibration follows the documented formulas',
 'The default offset, scale, sigest and lamda are the documented functions of the training data and of k, sigdf, sigquant.',
 ['inputs'], 'every dataset and prior setting', 'No stable test looks at them.',
 [BART, EXT], [('settings', BART + ':_process_noise_variance_settings, _process_offset_settings, _process_scale_settings'), ('inverse gamma quantile', EXT + ':scipy.stats.invgamma.ppf')])
prop('C26', 'Auxiliary array functions meet their numpy/scipy contracts',
 'unique, minimal_unsigned_dtype, signed_to_unsigned, huge_value, gammainccinv return what their documentation and their numpy/scipy counterparts specify.',
 ['inputs'], 'every input array, size and dtype', 'A few arrays are tested.',
 [EXT], [('unique etc.', EXT)])

out = pathlib.Path(__file__).resolve().parents[1] / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
