"""The properties: what is claimed, why tests cannot settle it, where it is anchored, how it is decided."""

CY = 'acv_explainers/cyext_acv/cyext_acv.pyx'
NOPA = 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx'
CACHE = 'acv_explainers/cyext_acv/cyext_acv_cache.pyx'
TREE = 'acv_explainers/acv_tree.py'
BTREE = 'acv_explainers/base_tree.py'
ACX = 'acv_explainers/acv_agnosticX.py'
BACX = 'acv_explainers/base_agnostree.py'
UT = 'acv_explainers/utils.py'
CEXT = 'acv_explainers/cext_acv/_cext.cc'


def anchors(files, mech, observe, state=()):
    return {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': [observe], 'hook_needed': None}


SCHED = ('The simulator decides every interleaving of the worker threads at each memory access, the team size really obtained, '
         'the contents of every uninitialised heap block and the reuse of freed blocks; ')
TRUST = (' Trusts: the reference model in sim/oracle.py, sim/forest.py or sim/treecase.py, the interleaving model (sequentially consistent, one access at a '
         'time), gcc\'s tsan instrumentation to expose every access. Nothing is claimed beyond the seeds run; sizes are bounded (a few features, tens of rows, few trees).')
TESTS16 = 'The 16 stable tests run one fitted model per API on one dataset with whatever interleaving the machine happens to give, '

PROPS = [
 dict(id='C01', title='Shapley values of tree ensembles are exact whatever the threads do',
  statement='For every tree ensemble, background data, grouping of features and batch of observations, the Shapley values returned are the exact Shapley values of '
            'the leaf-based conditional expectation game estimated on the background data, each group of features sharing one value. They do not depend on the number of '
            'worker threads, on how those threads are interleaved, on what memory held before, nor on the shapes of the trees of the ensemble.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'],
              'text': 'all ensembles (any shapes, depths, numbers of outputs), background data incl. values on split thresholds, groupings, observations, thread counts, and all interleavings of the team'},
  why_tests_cant=TESTS16 + 'and compare with another implementation within a tolerance; a wrong reduction, a shared scratch variable or a buffer sized by the wrong tree only shows for some ensembles or some interleavings.',
  anchors=anchors([CY, BTREE, TREE, CEXT],
      [('parallel loop over observations with per-leaf game', CY + ' shap_values_leaves_pa'), ('partition of the leaves', BTREE + ' BaseTree.__init__'), ('number of visible variables per leaf', BTREE + ' max_var')],
      'return value of ACVTree.shap_values', [('phi buffers', 'per-observation accumulators shared by the team', CY + ' shap_values_leaves_pa')]),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against an exact Shapley reference model',
  note='Seeded search, not exhaustive. ' + SCHED + 'every value is compared with exact Shapley values computed by enumeration of all coalitions.' + TRUST),

 dict(id='C02', title='Active Shapley values share out only the active features, exactly',
  statement='Given, for each observation, the active (sufficient) features and the others as null features, the active Shapley values are the exact Shapley values of the game among '
            'the active features (or groups) in which the null features join every non-empty coalition, and are zero, never undefined, for null features. '
            'This holds both for one common set of active features and for a different set and size per observation, under every interleaving of the workers.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all ensembles, background data, partitions into active/null features (common or per observation), groupings and interleavings'},
  why_tests_cant=TESTS16 + 'with one partition; per-observation partitions of different sizes and groupings are never compared with the definition.',
  anchors=anchors([CY, TREE, UT], [('common partition', CY + ' shap_values_acv_leaves'), ('partition per observation', CY + ' shap_values_acv_leaves_adap'), ('null coalition', UT + ' get_null_coalition')],
      'return values of ACVTree.shap_values_acv and shap_values_acv_adap'),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against an exact reference model',
  note='Seeded search. ' + SCHED + 'values compared with an exact enumeration of the two-level game.' + TRUST),

 dict(id='C03', title='Parallel, sequential and cached estimators are interchangeable',
  statement='For the same model, data and arguments, the parallel, the sequential and the cached variants of every tree estimator (Shapley values and their normalized form, active Shapley '
            'values, same-decision probabilities, conditional expectations, swings, minimal explanation searches) return the same results up to rounding and ties. '
            'Warming, reusing or sharing the cache, and asking for one or many threads, never changes a result.',
  quantifier={'over': ['schedules', 'inputs', 'configurations', 'histories'], 'text': 'all ensembles, data, groupings, observations (also on split thresholds), cache settings, thread counts and interleavings'},
  why_tests_cant=TESTS16 + 'and never compare a cached with an uncached call on observations lying on thresholds or on leaves without background rows.',
  anchors=anchors([CY, NOPA, CACHE, BTREE, TREE], [('cache construction', BTREE + ' BaseTree.__init__ / ' + CACHE + ' leaves_cache*'), ('cached values', CACHE + ' shap_values_cache*'), ('sequential kernels', NOPA)],
      'return values of the *_nopa, *_cache and plain methods of ACVTree', [('leaf caches', 'precomputed leaf statistics', BTREE + ' BaseTree')]),
  technique='seeded search over OpenMP interleavings with three implementations as each other\'s oracle (differential simulation)',
  note='Seeded search; the parallel variant runs under a seeded interleaving, the sequential and cached ones are its oracle. ' + TRUST),

 dict(id='C04', title='Tree same-decision probabilities and conditional expectations are exact',
  statement='For every classification ensemble, and for a single regression tree with the leaf estimator or any regression ensemble with the discrete estimator, the same-decision probability '
            'given a set of features is the one defined by the leaf-based (or discrete) conditional estimator on the background data. The conditional expectations (leaf, normalized, discrete) '
            'and the ensemble prediction equal their definitions too, for every observation of the batch and under every interleaving of the workers.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all ensembles, background data, conditioning sets (also empty and full), observations, tolerance intervals and interleavings'},
  why_tests_cant=TESTS16 + 'and check a handful of probabilities to a tolerance of sampling noise.',
  anchors=anchors([CY, TREE, BTREE], [('probabilities', CY + ' compute_sdp_clf/_cat, compute_sdp_reg/_cat'), ('expectations', CY + ' compute_exp, compute_exp_normalized, compute_exp_cat')],
      'return values of ACVTree.compute_sdp_*, compute_exp*, predict', [('per-thread sums', 'numerators and norms kept across the loops', CY)]),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against an exact reference model',
  note='Seeded search. ' + SCHED + 'probabilities whose denominator cancels to rounding noise are skipped (counted as borderline). The leaf estimator on several regression trees is excluded: the authors\' code documents it as supporting one tree.' + TRUST),

 dict(id='C05', title='Tree minimal sufficient explanations are sufficient, best and smallest',
  statement='The minimal-explanation search of a tree ensemble returns, for each observation, a set of units (features or groups) of the smallest size reaching the requested probability, '
            'with the highest probability at the sizes examined, together with its exact probability and size; when no set within the examined sizes reaches the level, it reports the best one examined. '
            'Global importance counts each feature of the explanations found, whatever the interleaving and the other observations of the batch.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all ensembles, data, groupings, levels, smallest sizes, early-stop settings, search spaces and interleavings'},
  why_tests_cant=TESTS16 + 'where the first candidate usually wins; minimality quantifies over all subsets.',
  anchors=anchors([CY, TREE], [('search loop over coalitions', CY + ' global_sdp_clf, global_sdp_clf_approx, global_sdp_reg, global_sdp_reg_cat'), ('search space', TREE + ' importance_sdp_*')],
      'tuple returned by ACVTree.importance_sdp_clf/_search/_reg/_reg_cat', [('s_star, len_s_star, sdp', 'best explanation so far per observation, shared by the team', CY)]),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against exhaustive reference search',
  note='Seeded search. ' + SCHED + 'each answer is compared with the best of all coalitions by an exact model; candidates within rounding of the level are skipped.' + TRUST),

 dict(id='C06', title='Projected-forest probabilities are exact for every observation',
  statement='For every forest, training data, conditioning sets and minimal node size, the same-decision, different-decision and counterfactual probabilities, the conditional mean, the '
            'conditional distribution function and quantiles returned by the agnostic explainer, and by the tree explainer\'s consistent estimators, are those of the forest projected on the conditioning features of each observation. '
            'Results are per observation and do not depend on thread interleaving, team size or previous memory contents.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all forests, data (other than the training data too), conditioning sets, node sizes, decision intervals and interleavings'},
  why_tests_cant=TESTS16 + 'with a learnt forest whose exact projected probabilities nobody computed.',
  anchors=anchors([CY, ACX, BACX, TREE, CEXT], [('projection of the forest', CY + ' compute_sdp_rf, compute_ddp_rf, compute_cdp_rf, compute_exp_rf, compute_cdf_rf'), ('tree tables', BACX + ' BaseAgnosTree')],
      'return values of ACXplainer.compute_{sdp,ddp,cdp,exp,cdf}_rf and ACVTree.compute_{sdp,exp,cdf}_rf', [('nodes_level, in_data', 'per-thread node sets and row sets', CY)]),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against an exact projected-forest model',
  note='Seeded search. ' + SCHED + 'the forest is a given set of trees in ranger\'s format (ranger itself is outside the repository). The distribution function is compared for node sizes at most 1, where the order in which nodes are visited cannot matter.' + TRUST),

 dict(id='C07', title='The rule of an explanation contains its observation and matches its probability',
  statement='The rule computed for an explanation is a box that contains the observation, bounds only features of the explanation, and is exactly the cell of the projected forest; the '
            'probability reported with it is the one of that cell and the weights of the training rows sum the projected leaves they fall in. The rules and probabilities of neighbouring '
            'training rows that the maximal-rule computation starts from follow the same definition.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all forests, data, explanations, node sizes and interleavings'},
  why_tests_cant=TESTS16 + 'and do not look at the bounds or at the weights.',
  anchors=anchors([CY, ACX, BACX], [('rules', CY + ' compute_sdp_rule, compute_ddp_rule, compute_cdp_rule'), ('weights', CY + ' compute_ddp_weights, compute_cdp_weights'), ('rules of the data rows', CY + ' compute_sdp_maxrule')],
      'return values of ACXplainer.compute_*_rule, compute_*_weights and of the maximal-rule kernel', [('partition', 'bounds accumulated per observation', CY)]),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against an exact projected-forest model',
  note='Seeded search. ' + SCHED + 'bounds are compared exactly, weights and probabilities up to rounding.' + TRUST),

 dict(id='C09', title='Forest minimal explanations are sufficient, best and smallest',
  statement='The minimal sufficient (and minimal counterfactual, divergent) explanation search of the agnostic explainer (and the sufficient one of the tree explainer\'s consistent estimator) returns for each observation a smallest set of units reaching the level, '
            'of highest probability among the sizes examined, with its exact probability and size, or the best examined when none reaches it. With more than ten features it searches the ten most '
            'important ones, and global importance counts the features of the explanations found, whatever the interleaving.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all forests, data, groupings, levels, smallest sizes, early-stop settings and interleavings'},
  why_tests_cant=TESTS16 + 'with one level and no oracle for minimality.',
  anchors=anchors([CY, ACX, BACX, TREE], [('search', CY + ' global_sdp_rf, global_ddp_rf, global_cdp_rf'), ('search space', ACX + ' importance_*_rf')], 'tuple returned by ACXplainer.importance_{sdp,ddp,cdp}_rf and ACVTree.importance_sdp_rf',
      [('s_star', 'best explanation so far per observation', CY)]),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against exhaustive reference search',
  note='Seeded search. ' + SCHED + 'compared with the best of all coalitions by an exact model; candidates within rounding of the level are skipped.' + TRUST),

 dict(id='C10', title='All minimal explanations are listed, once, and nothing else',
  statement='The search for all sufficient (or all counterfactual) explanations of an observation returns exactly the sets of units that reach the level and contain no smaller such set, each '
            'once, with its exact probability, per observation and aligned with the input. The local importance derived from them is the share of each observation\'s explanations that contain the feature, averaged over the observations that have one.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all forests, data, groupings, levels, smallest sizes and interleavings'},
  why_tests_cant=TESTS16 + 'and do not check completeness or minimality of the lists.',
  anchors=anchors([CY, ACX, BACX, TREE], [('enumeration', CY + ' sufficient_expl_rf, sufficient_cxpl_rf'), ('local importance', ACX + ' compute_local_sdp')], 'return values of ACXplainer.sufficient_expl_rf, sufficient_cxpl_rf, compute_local_sdp and ACVTree.sufficient_expl_rf'),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against exhaustive reference search',
  note='Seeded search. ' + SCHED + 'the list is compared with the exact antichain of minimal sets.' + TRUST),

 dict(id='C11', title='Conditional and interventional probabilities respect the given boxes',
  statement='When the features outside the explanation are constrained to a given box, the different-decision and counterfactual probabilities and the weights are those of the forest projected on the explanation and '
            'on the box; under an intervention, those of the forest projected on the box alone with the explanation left free. The minimal interventional searches are smallest, sufficient and best for the same probabilities.',
  quantifier={'over': ['schedules', 'inputs', 'configurations'], 'text': 'all forests, data, explanations, boxes (points, intervals, unbounded), levels and interleavings'},
  why_tests_cant=TESTS16 + 'and exercise only one box through the counterfactual workflow.',
  anchors=anchors([CY, ACX, BACX], [('conditional', CY + ' compute_ddp_cond_weights, compute_cdp_cond_weights'), ('interventional', CY + ' compute_ddp_intv_weights, compute_cdp_intv_weights, *_intv_same, global_*_intv')],
      'return values of ACXplainer.compute_*_cond_weights, compute_*_intv_weights, importance_*_intv'),
  technique='seeded search over OpenMP interleavings, team sizes and heap contents, against an exact projected-forest model',
  note='Seeded search. ' + SCHED + 'the interventional counterfactual probability is compared for regression only (its classification branch has no documented meaning).' + TRUST),

 dict(id='C08', title='Maximal rules only grow, and only over rows that agree',
  statement='Whatever the random draws of the rule search and the schedule of the threads, the maximal rule returned for an observation contains the observation and the rule of its explanation, and every '
            'training row it adds to that rule has a rule of its own reaching the requested level for the decision of the observation. The probability returned is the one of the starting rule. '
            'This holds for both search strategies and all search parameters, including none or a single iteration.',
  quantifier={'over': ['schedules', 'inputs', 'configurations', 'fault_sequences'], 'text': 'all forests, data, explanations, levels, search parameters, interleavings and random streams (fair, extreme, repeating)'},
  why_tests_cant=TESTS16 + 'with one random stream; a bad candidate accepted by the search shows only for some draws.',
  anchors=anchors([UT, ACX, CY], [('annealing', UT + ' rules_by_annealing, rules_simulated_annealing, generate_valid_rule, check_rule'), ('union of adjacent rules', UT + ' extend_partition, find_union, extend_rec'), ('rules of the rows', CY + ' compute_sdp_maxrule')],
      'return value of ACXplainer.compute_sdp_maxrules'),
  technique='seeded search over random streams (fair and adversarial), OpenMP interleavings and heap contents, invariants over the result',
  note='Seeded search. numpy\'s global random generator is a simulated stream in most runs (extremes, bursts, repeats). Rows are judged by an exact projected-forest model.' + TRUST),

 dict(id='C12', title='The global rules answer from their last completed fit, with the best eligible rule',
  statement='Once global rules are fitted, a point is answered by the rule that contains it (a rule without features contains every point), has the requested coverage on the training rows, and is the most accurate of those (for regression: has the '
            'smallest error) provided it reaches the requested level; the answer is the majority class, mean target or class share of the training rows of the rule. No eligible rule means no '
            'answer, and rules without training rows never count. Answers always come from the last completed fit: a fit that is rejected, runs out of memory or is interrupted changes nothing.',
  quantifier={'over': ['inputs', 'histories', 'fault_sequences'], 'text': 'all rule sets (duplicates, unbounded, empty), data, coverage and accuracy levels, points, and histories of fits, failed or interrupted fits and predictions'},
  why_tests_cant=TESTS16 + 'fit the rules once and predict once; a rule chosen before the coverage filter, or state replaced before a fit completes, shows only for some rule sets or fault points.',
  anchors=anchors([ACX, UT], [('fit', ACX + ' fit_global_rules'), ('choice of the rule', UT + ' global_rules_model, global_rules_model_reg'), ('figures of the rules', UT + ' compute_rules_metrics, unique_rules_s_star')],
      'return values of ACXplainer.predict_global_rules, predict_proba_global_rules', [('rules', 'distinct rules, their features and figures of the last fit', ACX)]),
  technique='seeded search over histories of fits, predictions and faults (exceptions at chosen points of the computation, failing allocations, invalid arguments), against a reference model of the fitted state',
  note='Seeded search. Interrupts are raised at a chosen line of the code the fit calls, not between the final assignments of the fit itself. Binary classes only.' + TRUST),

 dict(id='C13', title='Answers do not depend on what was asked before',
  statement='Whatever was asked of an explainer before (other operations, other data, a refit, calls rejected, interrupted or out of memory, a fit that failed) and whatever other explainers did in between, '
            'every operation answers as it would on a fresh explainer fitted with the last completed fit.',
  quantifier={'over': ['histories', 'fault_sequences', 'schedules', 'inputs'], 'text': 'all sequences of the operations of both explainers on several objects, with refits of other dimensions, failing fits, invalid arguments, exceptions at any point of the Python code they call, failing allocations'},
  why_tests_cant=TESTS16 + 'each on a freshly fitted object and in a fixed order.',
  anchors=anchors([ACX, BACX, TREE, BTREE, CY], [('lazily built explainer', ACX + ' check_is_explainer, fit'), ('per-object caches', TREE + ' shap_values cache of the tree explainer'), ('module-level state', CY)],
      'return values of all public operations of ACXplainer and ACVTree'),
  technique='seeded search over operation histories with exceptions, failing allocations and failing fits injected, each answer compared with a fresh object',
  note='Seeded search. The oracle is the code itself on a fresh object (C01-C12 judge that answer).' + TRUST),

 dict(id='C14', title='Concurrent callers get the answers they would get alone',
  statement='Several threads may use the same explainers at the same time, from the first use on: every operation answers as if it ran alone, whatever the others ask meanwhile and even if their calls are interrupted, '
            'and the explainers remain fit for use.',
  quantifier={'over': ['schedules', 'inputs', 'fault_sequences'], 'text': 'all interleavings (line by line of the Python code, access by access of the parallel regions) of two or three callers with one to three operations each, interrupted or not'},
  why_tests_cant=TESTS16 + 'from one thread.',
  anchors=anchors([ACX, BACX, TREE, BTREE, CY], [('lazily built explainer', ACX + ' check_is_explainer'), ('tree explainer cache', TREE), ('kernels release the interpreter lock', CY)],
      'return values of the public operations of ACXplainer and ACVTree, called from several threads', [('explainer, explainer_built', 'the structure built on first use', ACX)]),
  technique='seeded search over interleavings of caller threads and their OpenMP teams, with interrupts, each answer compared with a fresh object used alone',
  note='Seeded search. Operations that draw from the process-wide random generator or store a fit are left to C08, C12, C13. The oracle is the code itself on a fresh object (C01-C12 judge that answer).' + TRUST),

 dict(id='C18', title='Counterfactual rules are what they claim to be, and so are the points sampled from them',
  statement='In the counterfactual workflow, whatever the random draws: every local rule fixes the null features at the observation and every regional rule keeps the sufficient rule on them; its probability and weights are '
            'those of the forest under exactly that condition; only rules at the requested level are returned, or the single best one; none contains another and each is met by a training row '
            'with the target output. A sampled point differs from its observation only in the active features, lies in the most probable rule, and its score, outcome, accuracy and coverage are reported as they are. The listing shows every rule found, with its bounds, output and probability. '
            'Interrupting or repeating a step, or running the other workflow in between, changes none of this.',
  quantifier={'over': ['inputs', 'configurations', 'schedules', 'histories', 'fault_sequences'], 'text': 'all forests, data, targets, levels, search parameters, random streams, interleavings, and orders of the steps of the two workflows with interrupted and repeated steps'},
  why_tests_cant=TESTS16 + 'and none runs the counterfactual workflow to its end; its result depends on random draws.',
  anchors=anchors(['acv_explainers/counterfactual_rules.py', 'acv_explainers/utils_cr.py', ACX, CY], [('workflow', 'acv_explainers/counterfactual_rules.py CR.run_*'), ('rules', 'acv_explainers/utils_cr.py return_*_counterfactuals*, get_compatible_leaf*, remove_in_wsdp'), ('sampling', 'acv_explainers/utils_cr.py simulated_annealing, generate_candidate')],
      'attributes of CR after each step (counterfactuals_samples_*, dist_*, errs_*, accuracy_*, coverage_*) and what its show_* methods print', [('rules of the last completed step', 'attributes of CR', 'acv_explainers/counterfactual_rules.py')]),
  technique='seeded search over random streams (fair and adversarial), step histories with interrupts, OpenMP interleavings and heap contents, against an exact projected-forest model',
  note='Seeded search. The isolation forest is a fixed score. The target output occurs in the training rows. Points in no regional rule are not judged.' + TRUST),
 dict(id='C17', title='The web application shows one completed compilation, exactly',
  statement='What the application shows comes from one completed compilation, with exactly the data, names and explainers that were compiled. A compilation that fails while writing leaves the previous one as it was; '
            'an interruption, a killed process or a power failure leaves the previous one, the new one or none, never a torn file or files of two compilations; and a running application never mixes two compilations. Every page '
            'shows the explanations, probabilities, rules, coverage, accuracy and Shapley values of the chosen observation at the chosen parameters, whatever other pages, observations and sessions were shown before or at the same time.',
  quantifier={'over': ['histories', 'fault_sequences', 'schedules', 'inputs'],
              'text': 'all histories of compilations, restarts and page views by several sessions; all crash points and disk failures within a compilation; stopped and concurrent page runs; all data, column names and explainers'},
  why_tests_cant='No test covers the application; torn or mixed files need a fault at a particular write, and mixed pages a particular history of views.',
  anchors=anchors(['acv_app/app.py', 'acv_app/sdp_app.py', 'acv_app/sv_app.py', 'acv_app/plots.py'], [('compilation', 'acv_app/app.py compile_ACXplainers, compile_acv, save_bundle'), ('loading', 'acv_app/app.py main'), ('pages', 'acv_app/sdp_app.py, acv_app/sv_app.py write_pg'), ('figures', 'acv_app/plots.py waterfall')],
      'calls the pages make to the streamlit interface', [('bundle files', 'x/y train/test csv and the two joblib files', 'acv_app/app.py'), ('st.cache', 'results kept between reruns and sessions', 'acv_app/app.py, acv_app/sdp_app.py')]),
  technique='seeded search over disk faults, crash points with a durable-state model, histories of sessions and interleavings, pages compared with a fresh explainer on the compiled data',
  note='Seeded search. Streamlit (not installed) is a recording stand-in with its documented cache semantics; matplotlib.pyplot and table styling are recorders. Power failures keep operations on names in order and what was synced. '
       'Compilations do not overlap with a page loading its files. Explainers of tree models (compile_acv), which the pages do not support, are checked as loaded.'),
 dict(id='C15', title='What is passed in is only read, and what comes out belongs to the caller',
  statement='An operation never changes the data, observations, thresholds, rules or sets of features it is given, not even when it is interrupted or fails half-way. How an array is stored - its order, strides, being part of a '
            'larger array, read-only, or of another number type holding the same values - does not change the answer (a layout may be refused, never misread). Results share no memory with the arguments or with the explainer: overwriting them '
            'changes no later answer.',
  quantifier={'over': ['inputs', 'histories', 'fault_sequences', 'schedules'], 'text': 'all operations of both explainers, all layouts of their arguments, all sequences of calls with overwritten results, and all interruptions and allocation failures within them'},
  why_tests_cant=TESTS16 + 'always with fresh contiguous arrays, and none looks at its arguments or at another result afterwards.',
  anchors=anchors([ACX, 'acv_explainers/acv_tree.py', 'acv_explainers/utils.py', CY], [('arguments', 'acv_explainers/acv_agnosticX.py, acv_explainers/acv_tree.py: the public operations'), ('loops over rows', CY)],
      'arguments before and after each call; answers to the same values stored otherwise', [('data, observations', 'arrays of the caller', ACX), ('rules and their features', 'fit_global_rules', 'acv_explainers/utils.py')]),
  technique='seeded search over layouts of the arguments, histories with overwritten results, interrupts and allocation failures, OpenMP interleavings and heap contents, against the same calls on fresh C arrays',
  note='Seeded search. Answers are compared up to 1e-9 (additions may be done in another order) and up to the choice among equal candidates; the arguments are compared bit for bit.' + TRUST),
 dict(id='C19', title='An explainer is about exactly the model it is given',
  statement='The explainer built from a trained model gives the outputs of that model for every input (probabilities for classification trees and forests, raw scores for boosted models), missing values included where the model supports them, and its '
            'contributions add up to the output for the observation minus the average output over the background. This holds for every supported kind of model and training options (classes, labels, weights, losses, base scores, parallel trees, early stopping), '
            'whatever was converted before, after interrupted conversions and storing and loading; training the model again does not change an explainer built before.',
  quantifier={'over': ['inputs', 'configurations', 'histories', 'fault_sequences'], 'text': 'all trained models of the supported kinds that can be built here (scikit-learn, xgboost, ranger), all inputs, and all histories of training, conversion, interruption and storage'},
  why_tests_cant='The tests convert four models with fixed options, and compare the output of none of them but through one sum; wrong trees, offsets or classes need particular options.',
  anchors=anchors(['acv_explainers/base_tree.py', 'acv_explainers/base_agnostree.py', 'acv_explainers/cext_acv/acv_tree.h'], [('conversion', 'acv_explainers/base_tree.py BaseTree.__init__, SingleTree, IsoTree, XGBTreeModelLoader'), ('ranger', 'acv_explainers/base_agnostree.py'), ('outputs', 'acv_explainers/base_tree.py predict, cext_acv dense_tree_predict')],
      'outputs of the model and of the explainer', [('trees of the model', 'children_*, features, thresholds, values, base_offset', 'acv_explainers/base_tree.py')]),
  technique='seeded search over trained models, histories of training and conversion with interrupts and allocation failures, storing and loading, OpenMP interleavings; oracle: the outputs of the model itself',
  note='Seeded search. Inputs are numbers a float holds exactly (the models round to floats). LightGBM, CatBoost, pyspark and the other optional libraries cannot be run here. For ranger the oracle is the trees as ranger gives them out.'),
 dict(id='C16', title='Marginal explanations are exact, whatever the model does',
  statement='For a model that is only called, the marginal same-decision probability of a set of features is exactly the fraction of background rows on which the model keeps the decision for the observation (for regression: moves by at most the '
            'threshold) once the features of the set take the values of the observation, and 1 for all features. The explanations searched with it are minimal, best of their size and correctly counted, within the groups, the search space and the sizes asked for. '
            'A model that fails or is interrupted at any call, and other callers at work in between, change nothing: the failure is passed on, the arrays of the caller stay as they were, and the next answer is exact.',
  quantifier={'over': ['inputs', 'fault_sequences', 'schedules', 'histories'], 'text': 'all models, observations, backgrounds, sets of features, groups, levels and search spaces; all points where a call of the model fails; all turns of callers sharing the model and the data'},
  why_tests_cant='No test covers the marginal explanations; a wrong choice shows for particular models and groups only, and a failing model is never simulated.',
  anchors=anchors(['acv_explainers/utils_sdp.py', 'acv_explainers/acv_tree.py', ACX], [('probabilities', 'acv_explainers/utils_sdp.py single_msdp, single_msdp_reg'), ('searches', 'acv_explainers/utils_sdp.py importance_msdp_*_search'), ('search space', 'acv_explainers/acv_tree.py importance_msdp_*')],
      'calls of the model and the values returned', [('data, observations', 'arrays of the caller', 'acv_explainers/utils_sdp.py')]),
  technique='seeded search over models, questions, failing model calls and turns of two callers, against brute-force enumeration of every candidate set',
  note='Seeded search. No native code and no parallelism of its own takes part. The variants that start a pool of processes are not reachable from the explainers and not run.'),
 dict(id='C20', title='Swing values are the Shapley values of keeping the decision',
  statement='The swing values of an observation are the Shapley values of the game in which a set of features wins when its same-decision probability reaches the threshold (no feature loses, all win; a group plays as one): they add up to 1, each splits into '
            'its positive and negative part, and the counts of winning, losing and neutral arrivals are exact. The parallel and sequential variants agree, whatever the schedule, the number of threads and the memory they are given.',
  quantifier={'over': ['inputs', 'schedules', 'configurations'], 'text': 'all classification tree ensembles, observations, backgrounds, groups and thresholds; all interleavings of the team; all contents of fresh memory'},
  why_tests_cant='The only tests of swing values are commented out; a wrong game shows for particular sets of features, points on split thresholds and memory contents only.',
  anchors=anchors(['acv_explainers/acv_tree.py', CY, 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx', 'acv_explainers/py_acv.py'], [('game and values', CY + ' compute_sdp_swing, compute_sdp_swing_diff, swing_sv_clf, swing_sv_clf_direct'), ('sequential', 'cyext_acv_nopa.pyx swing_sv_clf_direct_nopa'), ('reference', 'acv_explainers/py_acv.py swing_tree_shap_clf')],
      'results of swing_sv_clf*, demo_swing_sv_clf', [('probabilities per leaf', 'mean_forest, p_n and the like', CY)]),
  technique='seeded search over ensembles, points on thresholds, OpenMP interleavings and heap contents, against exact enumeration of the game',
  note='Seeded search. Sets whose probability is equal to the threshold up to rounding, or 0/0 up to rounding, may count either way (interval check). swing_sv_clf_slow plays the game of the estimator without normalisation, as written.' + TRUST),
]

NOT_APPLICABLE = []
