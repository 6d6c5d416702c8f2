"""the properties, one table: writes properties.jsonl and MANIFEST.json (python3 tools/props.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'explicit TLA+ specification checked with TLC; executions of the real code judged by TLC against it'


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), level='model_checking', note='', tech=TECH):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                state=state, observe=observe, level=level, note=note, tech=tech)


CM = 'ylearn/causal_model/'
EM = 'ylearn/estimator_model/'
PROPS = [
    P('C01', 'Editing a causal graph changes exactly what was asked for',
      'Adding or removing variables, directed edges or confounding arcs, taking a subgraph and cutting the edges into or '
      'out of a set of variables yield exactly the graph which graph theory defines for that edit. Asked for a new graph, '
      'an operation returns it and leaves the original as it was; asked to edit in place, it changes that graph only. '
      'Graphs never share structure: no later edit of one graph shows in another.',
      ['histories', 'inputs'], 'every sequence of edits over a family of graphs derived from one another, with any names of variables',
      'tests edit one small graph once and look at one result; sharing shows only after a history of edits',
      [CM + 'graph.py'], [('CausalGraph edits', CM + 'graph.py'), ('remove_incoming_edges / remove_outgoing_edges / build_sub_graph', CM + 'graph.py')],
      state=[('causation', 'parents of each variable', CM + 'graph.py'), ('latent_confounding_arcs', 'pairs with a hidden common cause', CM + 'graph.py')],
      note='design model exhaustive for 3 variables and 2 handles; every one of its transitions is replayed in the code, plus random histories'),
    P('C02', 'Graph queries agree with the theory of mixed causal graphs',
      'Parents, ancestors, descendants, topological order, acyclicity, confounded components, adjacency matrix, the explicit '
      'graph with one latent variable per arc, and d-separation are what the directed mixed graph defines, whatever the '
      'variables are called and in whichever form they are passed. A query never changes the graph.',
      ['inputs', 'histories'], 'every acyclic directed mixed graph, set of variables and naming',
      'tests query a handful of textbook graphs with one spelling of the arguments',
      [CM + 'graph.py'], [('queries of CausalGraph', CM + 'graph.py'), ('explicit_unob_var_dag', CM + 'graph.py')],
      note='exhaustive over graphs with 3 variables, all (thorough) or sampled graphs with 4, random ones with up to 7'),
    P('C03', 'Back-door adjustment sets are exactly the valid ones',
      'A set is accepted as a back-door set if and only if it contains no descendant of a treatment and blocks every back-door path; '
      'the searches return the parents when they are valid, one smallest valid set, or all valid sets, report that there is none '
      'exactly when there is none, and give an adjustment formula that equals the interventional distribution. '
      'The back-door paths listed are exactly those of the graph, and an effect is only ever estimated with a set valid for the treatment '
      'and outcome it is estimated for, whatever the model was asked before.',
      ['inputs', 'histories'], 'every causal graph with hidden confounding, disjoint treatments, outcomes and candidate set, and earlier queries of the same model',
      'tests check one or two sets in a few textbook graphs and never that an unlisted set is invalid or that a formula equals the effect',
      [CM + 'model.py', CM + 'graph.py'], [('is_valid_backdoor_set, get_backdoor_set, get_backdoor_path, has_collider', CM + 'model.py'), ('estimate', CM + 'model.py')],
      note='criterion proved sound against the semantics of interventions on all graphs with 3 and 4 variables in the model'),
    P('C04', 'Front-door sets are exactly the valid ones',
      'For a treatment that is a cause of the outcome, a set is accepted as a front-door set if and only if it intercepts every directed path, has no '
      'open back-door path from the treatment, and has its back-door paths to the outcome blocked by the treatment. The searches return one smallest set '
      'or all of them among the variables on the directed paths, report that there is none exactly when there is none, and their formula equals the interventional distribution.',
      ['inputs'], 'every causal graph with hidden confounding, treatment, outcome and non-empty candidate set',
      'tests run one graph; validity of every set and of the formula is quantified over all graphs',
      [CM + 'model.py'], [('is_frontdoor_set, get_frontdoor_set', CM + 'model.py')],
      note='formulas evaluated exactly over a finite field at random models of the graph (Schwartz-Zippel)'),
    P('C05', 'Instruments are exactly the valid ones',
      'A variable is reported as an instrument for a treatment and an outcome if and only if it is a direct cause of the treatment and, once the edges '
      'into the treatment are cut, separated from the outcome. A given set is accepted if and only if all its members are instruments; '
      'queries leave the graph unchanged.',
      ['inputs'], 'every causal graph with hidden confounding, treatment, outcome and candidate set',
      'tests query one graph',
      [CM + 'model.py'], [('get_iv, is_valid_iv', CM + 'model.py')],
      note='exhaustive over graphs with 3 variables, sampled with 4 to 6'),
    P('C06', 'General identification is sound and complete',
      'An interventional distribution is declared identifiable exactly when it is a function of the observed distribution for every model of the graph, and then '
      'the returned expression, and its printed form, equal that distribution in every positive model. Otherwise identification fails with the dedicated error; '
      'the graph and the arguments are left unchanged.',
      ['inputs'], 'every causal graph with hidden confounding, disjoint sets of treatments and outcomes, and every model of it',
      'tests compare strings for two graphs',
      [CM + 'model.py', CM + 'prob.py', CM + 'graph.py'], [('id, identify', CM + 'model.py'), ('Prob.parse', CM + 'prob.py')],
      note='completeness by the hedge criterion in the model; soundness by exact evaluation over a finite field'),
    P('C07', 'A learned matrix becomes an acyclic graph with the roles it implies',
      'Breaking the cycles of a learned matrix gives an acyclic one which differs only in removed edges, each of which was a weakest edge of a cycle, and an acyclic matrix is kept; '
      'conversions list exactly the (direct or all) causes of each variable and the stronger direction of each pair, and a learner returns the same labelled acyclic thresholded matrix for the same data and seed. '
      'The roles derived from a discovered graph are those its ancestors, instruments and back-door sets define; automatically chosen treatments are the strongest causes of the outcome of one kind, never more than allowed, and inputs are not changed.',
      ['inputs', 'configurations'], 'every matrix of weights, naming, data set, way of identification and limit',
      'tests run learners on one data set and look at the shape of the result',
      ['ylearn/causal_discovery/_base.py', 'ylearn/causal_discovery/_discovery.py', 'ylearn/api/_identifier.py', 'ylearn/api/utils.py'],
      [('trim_cycle, matrix2dict, matrix2array', 'ylearn/causal_discovery/_base.py'), ('identify_treatment, identify_aci', 'ylearn/api/_identifier.py')],
      note='every way of trimming all matrices of 3 variables with small weights is explored in the model; random matrices with up to 6 variables in the code'),
    P('C08', 'Meta-learners give the effects their definition defines',
      'The effect an S-, T- or X-learner reports for any individual is the one its definition gives for the plugged-in models and the data of the fit: '
      'prediction under treat minus prediction under control (S), difference of the models of the two arms (T), the given weighting of the models of imputed effects (X); '
      'each arm is learned from its own examples only. This holds for any number, labels and combination of treatments, choice of treat and control, discrete outcomes (per class, or the asked class), '
      'separate or combined treatments, the training or new data in any order of columns and rows, single effects or their mean; the permuted learners answer the same for every ordered pair. Data is not changed.',
      ['inputs', 'configurations'], 'every study (roles, labels, sizes), plugged-in model, pair of treatments and form of the question',
      'tests fit on one simulated data set and look at shapes and rough errors',
      [EM + 'meta_learner.py', EM + '_permuted.py', EM + 'utils.py'],
      [('SLearner, TLearner, XLearner', EM + 'meta_learner.py'), ('PermutedLearner', EM + '_permuted.py')],
      state=[('_fitted_dict_*', 'the fitted models of the arms', EM + 'meta_learner.py')],
      note='models are exact integer stand-ins, so that the whole answer is compared exactly; definitions explored exhaustively for small data in the model'),
    P('C09', 'Answers depend on the last fit and the question only',
      'What a fitted estimator, bound, score, tree, forest, policy, interpreter or uplift model answers is a function of its configuration, the data it was last fitted with and the question: '
      'it equals the answer of a new object fitted once with that data. Earlier fits (with other columns, sizes, labels or numbers of treatments), earlier or repeated questions and other objects do not show; '
      'after a failed fit it answers as before or refuses, before any fit it refuses, and no fit or question changes the data handed in.',
      ['histories', 'configurations'], 'every history of fits, failed fits and questions on objects of one kind, and data sets of different shape',
      'tests fit every object once',
      [EM + 'base_models.py', EM + 'meta_learner.py', EM + 'double_ml.py', EM + 'doubly_robust.py', EM + 'causal_tree.py', EM + 'iv.py', 'ylearn/policy/policy_model.py', 'ylearn/uplift/_model.py'],
      [('fit / estimate / effect_nji', EM)],
      state=[('_is_fitted', 'whether it may answer', EM + 'base_models.py')],
      note='all histories up to length 5 of two objects in the model; generated histories replayed for 35 kinds of objects'),
    P('C10', 'Double machine learning regresses residuals on residuals',
      'DoubleML reports the effects of the final model fitted to (residual of the outcome) on (residual of the treatment times the covariates with a constant), where residuals use predictions '
      'of models fitted to adjustment and covariates, on the other folds only when cross-fitting; treatments are one-hot coded when discrete (combinations when several). '
      'The effect for any treat and control, of every treatment against a control, for a class of a discrete outcome, for new data and as a mean follow from it linearly. Data is not changed.',
      ['inputs', 'configurations'], 'every study, number of folds, kind of treatment and outcome, transformer, pair of treatments and form of the question',
      'tests look at shapes and rough errors on simulated data',
      [EM + 'double_ml.py', EM + 'utils.py'], [('DoubleML', EM + 'double_ml.py')],
      state=[('x_hat_dict, y_hat_dict', 'predictions out of fold', EM + 'double_ml.py')],
      note='exact integer stand-ins; whole answers compared exactly'),
    P('C11', 'The doubly robust estimator gives the doubly robust effects',
      'DoublyRobust reports the effects of the final models fitted to the differences of the pseudo-outcomes: for every treatment the prediction of its outcome model '
      'plus, for examples which got it, the residual divided by their propensity, with models fitted on the other folds only when cross-fitting; without covariates it reports the mean difference. '
      'This holds for any labels, number and combination of treatments, treat and control, new data and form of the question, also for the permuted version. Data is not changed.',
      ['inputs', 'configurations'], 'every study, number of folds, pair of treatments and form of the question',
      'tests look at shapes and rough errors on simulated data',
      [EM + 'doubly_robust.py', EM + '_permuted.py'], [('DoublyRobust', EM + 'doubly_robust.py'), ('PermutedDoublyRobust', EM + '_permuted.py')],
      state=[('yx_hat_dict', 'nuisance models and pseudo-outcomes', EM + 'doubly_robust.py')],
      note='exact integer stand-ins; compared within the constant 1e-5 added to propensities'),
    P('C12', 'Bounds of the effect are the bounds which the assumptions allow',
      'Without assumptions ApproxBound returns, per individual, the smallest and largest effect compatible with the predicted outcomes and treatment probabilities and the limits of the outcome '
      '(given, or the least and largest outcome of the data); assuming non-negative (non-positive) effects the lower (upper) bound is zero. '
      'This holds for any labels and combination of treatments, treat and control, given or learned probabilities, with and without covariates and for new data.',
      ['inputs', 'configurations'], 'every study, pair of treatments, limits, assumption and probabilities',
      'tests check that the call returns',
      [EM + 'approximation_bound.py'], [('ApproxBound', EM + 'approximation_bound.py')],
      note='soundness and sharpness of the formula checked over all small distributions in the model; "optimal" is not judged'),
    P('C13', 'Uplift curves, top points and scores are those defined',
      'The cumulative lift, gain and Qini curve of a score at k are the lift, gain and Qini of the k individuals with the highest scores, from zero for nobody to a height at the full population '
      'which is the same for every score; the top point is the score at which the curve is highest, and the AUUC and Qini scores are the area of the curve, the Qini score relative to a random order. '
      'This holds for any labels of the arms, columns, index and number of scores, with true effects or observed outcomes, and UpliftModel returns what the functions return; the data given are not changed.',
      ['inputs'], 'every scored sample, with arms of any labels, ties among scores and several score columns',
      'tests check that the curves can be computed and drawn',
      ['ylearn/uplift/_metric.py', 'ylearn/uplift/_model.py'], [('get_cumlift, get_gain, get_qini, auuc_score, qini_score', 'ylearn/uplift/_metric.py'), ('UpliftModel', 'ylearn/uplift/_model.py')],
      note='among equal scores every order is accepted; the random baseline is bounded only; samples of up to 8 individuals'),
    P('C14', 'A policy tree is grown greedily and recommends what is best in the leaf reached',
      'Every split of a PolicyTree respects the limits given (depth, samples and weight per leaf, samples to split, number of leaves, least decrease) and is one with the largest gain in the total effect of the best treatment per leaf; '
      'a node stays a leaf only if no allowed split gains enough, and with a limited number of leaves the node which gains most is split first. '
      'An individual gets the (weighted) mean effects of the leaf it falls in and a treatment which is best there, in whatever order rows and columns come and wherever the effects come from; '
      'PolicyInterpreter decides and explains accordingly. Fitting again starts afresh, and data are not changed.',
      ['inputs', 'configurations'], 'every sample, effects per treatment, sample weights, limits and new individual',
      'tests check that trees can be fitted and drawn, for one data set',
      ['ylearn/policy/policy_model.py', 'ylearn/policy/_tree/tree_criterion.pyx', 'ylearn/sklearn_ex/cloned/tree/_tree.pyx', 'ylearn/effect_interpreter/policy_interpreter.py'],
      [('PolicyTree', 'ylearn/policy/policy_model.py'), ('PRegCriteria', 'ylearn/policy/_tree/tree_criterion.pyx'), ('DepthFirstTreeBuilder, BestFirstTreeBuilder', 'ylearn/sklearn_ex/cloned/tree/_tree.pyx'),
       ('PolicyInterpreter', 'ylearn/effect_interpreter/policy_interpreter.py')],
      note='trees of up to 12 rows; ties between splits and zero gains are left open; with random splits or features only limits, values and predictions are judged'),
    P('C15', 'A causal tree splits where effects differ and reports differences of means',
      'Among the rows treated with treat or control, every split of a CausalTree respects the limits given and is one with the largest decrease of the documented impurity (squared effect less the variances of the two groups); '
      'a node stays a leaf only if no allowed split decreases it enough. An individual gets the difference of the mean outcomes of the two groups in the leaf it falls in, of the held-out rows if some are held out and tell it; '
      'a CTCausalForest gives the average of its trees, each grown so on a sub-sample of the size asked for; this holds for any labels, roles, order of rows and columns, and for objects fitted again.',
      ['inputs', 'configurations'], 'every sample, choice of treat and control, limits, sub-sample, held-out rows and new individual',
      'tests only check that effects are not missing, for one tree per data set',
      [EM + 'causal_tree.py', EM + '_tree/tree_criterion.pyx', EM + '_tree/tree_criterion_lib.cpp', 'ylearn/sklearn_ex/cloned/tree/_tree.pyx', 'ylearn/sklearn_ex/cloned/tree/_splitter.pyx', EM + '_generalized_forest/_base_forest.py'],
      [('CausalTree, CTCausalForest', EM + 'causal_tree.py'), ('HonestCMSE', EM + '_tree/tree_criterion.pyx'), ('BestSplitter', 'ylearn/sklearn_ex/cloned/tree/_splitter.pyx')],
      note='trees of up to 14 rows, 9 when rows are drawn or held out; one outcome; an empty group counts as one with outcomes of zero, as in the code'),
    P('C16', 'A generalized random forest solves the locally weighted equations of effects',
      'Every tree of a GRForest or CausalForest is grown greedily on a sub-sample of the size asked for, each split with the largest influence on the coefficient of its node and within the limits given, '
      'and gives an individual the rows in its leaf (of those held out for this if there are any) as neighbours of equal weight. The effect reported for an individual is the solution of the least squares of the outcome on the treatments, both centred by the averaged weights; '
      'a CausalForest does so with the out-of-fold residuals of double machine learning and the treatments other than the control. It holds for any number of individuals asked for at once, data given as frame or array, warm starts, any order of rows and columns, and objects fitted again.',
      ['inputs', 'configurations'], 'every sample, limits, sub-sample, held-out rows, number of trees and treatments, and new individual',
      'tests only look that effects of the right shape are returned for one data set',
      [EM + '_generalized_forest/_base_forest.py', EM + '_generalized_forest/_grf.py', EM + 'causal_forest.py', EM + '_generalized_forest/tree/_grf_tree.py', EM + '_generalized_forest/tree/_criterion.pyx',
       EM + '_generalized_forest/tree/_util_lib.cpp', EM + '_generalized_forest/tree/_splitter.pyx', EM + '_generalized_forest/tree/_tree.pyx', EM + 'utils.py'],
      [('BaseCausalForest', EM + '_generalized_forest/_base_forest.py'), ('GrfTreeCriterion', EM + '_generalized_forest/tree/_criterion.pyx'), ('CausalForest', EM + 'causal_forest.py')],
      note='samples of up to 11 rows, 6 where rows are drawn or held out; which of the allowed splits is best is judged for one treatment; one outcome, no sample weights'),
    P('C17', 'Why takes every column for what it is and tabulates the effects asked for',
      'Fitting a Why gives treatments, adjustments, covariates and instruments the roles the user or the identifier says (identified ones only where nothing is said, a treatment in no other role, the caller\'s lists and data unchanged), infers what is discrete as documented, '
      'and fits one estimator per treatment and per ordered pair of discrete treatments on all columns in their own roles, whatever their types. '
      'causal_effect then has one line per treatment and label other than the control (or per combination), in the user\'s own labels, with mean, extremes and standard deviation or all values of the effect that treatment\'s estimator reports for these individuals, at the cost the user defines.',
      ['inputs', 'configurations'], 'every study, types of columns, roles said or identified, and every question put to the object',
      'tests look at the shape of the tables for a handful of data sets, and cannot tell whether the numbers are in the right place',
      ['ylearn/api/_why.py', 'ylearn/api/utils.py', 'ylearn/api/_identifier.py', EM + '_permuted.py', EM + '_factory.py', 'ylearn/sklearn_ex/_data_cleaner.py'],
      [('Why.fit, Why.identify, Why.causal_effect', 'ylearn/api/_why.py'), ('DefaultIdentifier', 'ylearn/api/_identifier.py'), ('PermutedLearner', EM + '_permuted.py'), ('cost_effect, safe_remove', 'ylearn/api/utils.py')],
      note='exact stand-ins for the models; up to two treatments and 24 rows; the choice of the default identifier among candidates is free; effects of chosen estimators with machine learning models are not compared'),
    P('C18', 'What Why says about individuals is consistent with its effects',
      'whatif gives each individual its outcome plus the effect of changing its own treatment to the new value (nothing changes where it is the same), individual_causal_effect the effect of its own treatment against the control, '
      'uplift_model the individuals of the two arms with effect, arm and outcome, and policy_interpreter a tree over the covariates whose values are mean effects of each combination of labels (less costs) and whose decision is the best of them. '
      'This holds for any labels, types of columns, indices (also repeated ones), target outcome, cost function, and order of treatments, and leaves the data unchanged.',
      ['inputs', 'configurations'], 'every study, individual and question',
      'tests only look that answers of the right size are returned',
      ['ylearn/api/_why.py', 'ylearn/api/utils.py', 'ylearn/api/_wrapper.py', EM + '_permuted.py', 'ylearn/uplift/_model.py'],
      [('Why.whatif, Why.individual_causal_effect, Why.uplift_model, Why.policy_interpreter, Why.score', 'ylearn/api/_why.py'), ('WrappedPolicyInterpreter', 'ylearn/api/_wrapper.py')],
      note='exact stand-ins for the models; up to 6 individuals per question; costs are not judged for individual_causal_effect, and of the scores only the area under the uplift curve'),
    P('C19', 'Cleaning, encoding and selecting columns follow fixed rules replayed on new data',
      'Cleaning removes exactly the rows without a label and the requested, repeated, identifier-like and constant columns that are not reserved, turns infinities into missing values and whole numbers and readable text into floats, and new data get exactly the columns and conversions learned in fitting (a new fit learns anew). '
      'Encoders give a category its rank among those seen and unseen ones one code of their own and decode what they encode, missing numbers become the mean, and mappers of columns apply each transformer to its columns once and keep rows, index and names. '
      'The task inferred from a label (missing values never count), the scores of predictions and the features selected by importance follow their definitions.',
      ['inputs', 'histories', 'configurations'], 'every frame, label, option, and sequence of fitting, withdrawing columns and asking',
      'no test covers any of this but fitting on one fixed frame',
      ['ylearn/sklearn_ex/_data_cleaner.py', 'ylearn/sklearn_ex/_transformer.py', 'ylearn/sklearn_ex/_dataframe_mapper.py', 'ylearn/utils/_common.py', 'ylearn/utils/metrics.py'],
      [('DataCleaner.fit_transform, transform, append_drop_columns', 'ylearn/sklearn_ex/_data_cleaner.py'),
       ('SafeOrdinalEncoder, ArrayOneHotEncoder, general_preprocessor, FeatureImportancesSelectionTransformer', 'ylearn/sklearn_ex/_transformer.py'),
       ('DataFrameMapper', 'ylearn/sklearn_ex/_dataframe_mapper.py'), ('infer_task_type', 'ylearn/utils/_common.py'), ('calc_score', 'ylearn/utils/metrics.py')],
      note='frames of up to 12 rows (150 for importances) with small whole numbers, numerals and words'),
    P('C20', 'Bayesian networks answer what their equations and interventions imply',
      'A network accepts exactly the acyclic graphs of one piece and tells their parents, children, blankets and orders; categories are coded by rank and unknown ones refused. '
      'With the distributions of its nodes fixed, every value sampled or predicted is what was set by an intervention, else what was observed (outcomes never count as observed), else what follows from its parents, and an estimated effect is the difference of the outcomes with the treatments set to the two values, the other observed values and interventions held; fitted networks find the mechanisms behind simple data. '
      'Interventions add up on one object until it is fitted again, never reach copies, originals or data, and the same seed gives the same answers whatever was done in between.',
      ['inputs', 'histories', 'configurations'], 'every graph, mixture of numeric and categorical columns, distribution, and sequence of fitting, intervening, copying and asking',
      'no test touches Bayesian networks',
      ['ylearn/bayesian/_network.py', 'ylearn/bayesian/_dag.py', 'ylearn/bayesian/_base.py', 'ylearn/bayesian/_data.py', 'ylearn/bayesian/_collectors.py', 'ylearn/bayesian/_modules.py'],
      [('SviBayesianNetwork.fit, do, sample, predict, estimate', 'ylearn/bayesian/_network.py'), ('DAG, DiGraph', 'ylearn/bayesian/_dag.py'),
       ('CategoryNodeState', 'ylearn/bayesian/_base.py'), ('DataLoader', 'ylearn/bayesian/_data.py'), ('collectors', 'ylearn/bayesian/_collectors.py')],
      note='networks of up to 5 nodes whose fitted parameters are replaced by point-like ones (attribute params_)'),
    P('C21', 'The R-loss of an estimator is the one defined',
      'RLoss.score is the mean over the examples of the squared difference of the residual of the outcome and the residual of the treatment times the effect reported by the scored estimator, '
      'with residuals of models cross-fitted on the other folds, for the treat and control the estimator was fitted for, any labels and roles, and continuous treatments. Neither data nor estimator change.',
      ['inputs', 'configurations'], 'every study, estimator with its treat and control, and number of folds',
      'tests only look that a number is returned',
      [EM + 'effect_score.py'], [('RLoss', EM + 'effect_score.py')],
      note='exact integer stand-ins'),
    P('C22', 'Nonparametric two-stage least squares is the one defined',
      'The first model is fitted once, to the features of the treatments given those of the instruments times those of the covariates, with adjustments and a constant; the second once, to the outcomes given what the first predicts times the features of the covariates, with adjustments and a constant. '
      'The effect of treat over control (one pair or one per individual; 1 and 0 by default) is the difference of what the second model predicts for them, for the training or new data, averaged for ATE and CATE; counterfactuals are its predictions for the treatments in the data, and effect_nji those of every combination of categories over the first. '
      'This holds for any basis, numbers of columns, labels of discrete instruments and treatments, and data are left unchanged.',
      ['inputs', 'configurations'], 'every study, polynomial basis, combination of roles and labels, and way to give treat and control',
      'tests only look that effects of one simulated data set are returned',
      [EM + 'iv.py'], [('NP2SLS', EM + 'iv.py')],
      note='exact integer stand-ins for the two models; studies of up to 7 rows'),
    P('C23', 'Explained effects follow a valid tree whose texts are its paths',
      'The tree which a CEInterpreter grows on the covariates to explain the effects an estimator tells keeps every limit asked for, splits wherever a split reduces the squared deviations of the effects, and makes the split which reduces them most (the most promising node first when leaves are limited). '
      'What it predicts for the training or new data is the mean effect of the rows of the leaf reached, node_dict_ has mean and deviation of every node, and the texts of interpret are exactly the decisions on the way to that leaf, whether data, covariates or nothing are given. '
      'This holds for any number and shape of effects, options passed on to the estimator, transformed covariates and repeated fits, and data are left unchanged.',
      ['inputs', 'configurations', 'histories'], 'every table of covariates and effects, option of the tree, way to ask and repeated use',
      'tests only look that texts are returned',
      ['ylearn/effect_interpreter/ce_interpreter.py'], [('CEInterpreter', 'ylearn/effect_interpreter/ce_interpreter.py')],
      note='samples of up to 10 rows; optimal splits only for squared_error with splitter best'),
]

NOT_APPLICABLE = []


def main():
    out = []
    checks = []
    na = list(NOT_APPLICABLE)
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        out.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                        quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a))
        assert len(p['title']) <= 80, p['id']
        if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
            checks.append(dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']}",
                               thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']}",
                               technique=p['tech'], level=p['level'], level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='the check is not built yet'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                       notes='TLA+ with TLC; see DESIGN.md'), f, indent=1)
        f.write('\n')


main()
