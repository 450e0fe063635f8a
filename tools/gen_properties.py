#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json
B='causal_effect_bandits/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
H=['inputs','histories','configurations']
p('C01','Bandit histories record every round truthfully',
 'For every run of the uniform, LUCB and successive-elimination bandits, the returned lower-bound, upper-bound and estimate history of each arm has exactly one entry per round, i.e. as many entries as the cumulative sample history. Entry t equals that arm\'s cost times the bound or estimate the arm held at the end of round t, also for arms that were not sampled in that round.',
 H,'all numbers (>=2) of arms, all positive costs, all sequences of bounds/estimates the arms may report (ties and infinities included), any data source, any limit',
 'Three tests run 3 unit-cost arms with constant estimates for at most 5 rounds; cost is never different from 1 and estimates never change.',
 ['bandits.py'],[('per-round append loops','bandits.py: UniformAlgorithm.run, LUCBAlgorithm.run, SuccessiveEliminationAlgorithm.run')],
 [('lcb_by_arm/ucb_by_arm/var_est_by_arm','per-arm histories','bandits.py BanditData')],['return value of run()'])
p('C02','Sample accounting equals the data actually handed to arms',
 'In every bandit run (with a data source that supplies full batches) the per-arm sample history has one entry per round, equal to the number of units handed to that arm in that round and 0 if it was not sampled. The cumulative history entry of a round equals the total number of units handed to all arms up to the end of that round.',
 H,'all numbers of arms, batch sizes, selection outcomes and run lengths',
 'Tests pin one deterministic trajectory per algorithm; selection patterns with ties, many arms or early stopping are not reached.',
 ['bandits.py'],[('total_samples / samples_by_arm bookkeeping','bandits.py: run methods')],
 [('cum_samples','cumulative units','BanditData'),('samples_by_arm','units per arm and round','BanditData')],['return value of run()'])
p('C03','Confidence budget is split evenly over all arms',
 'Every time a bandit updates an arm it asks for an error level equal to the bandit\'s error probability divided by the total number of arms, in every round, for every arm and algorithm, regardless of how many arms are still being sampled. Hence the error levels in force never sum to more than the error probability.',
 H,'all error probabilities in (0,1), all arm counts, all rounds',
 'Test arms ignore the error level, so no existing test observes it.',
 ['bandits.py'],[('arm.update(new_samples, error_prob / len(arms))','bandits.py: run methods')],(),['arguments of the arms\' update'])
p('C04','Arms consume data in order, in full batches, without reuse',
 'When a run is given a fixed dataset and starts from freshly reset arms, the successive batches handed to each arm are consecutive blocks of units_per_round units starting at the first unit, independent of algorithm and selection, and no data is generated. Without a dataset, every batch is one requested from the data generator in that same round with exactly units_per_round units; uniform (always) and LUCB (in its first round) share one batch among all arms, otherwise every arm update gets its own batch.',
 H,'all datasets/generators, arm counts, selection histories, batch sizes',
 'No test passes a fixed dataset and test arms only look at the batch length.',
 ['bandits.py'],[('n_start = arm.get_num_units()','bandits.py: run methods')],(),['arguments of the arms\' update and of generate'])
p('C05','Uniform and LUCB end a run only for a justified reason',
 'A uniform or LUCB run ends only in one of two situations. Either the samples used exceed the sample limit and the arms returned are exactly those whose current cost-weighted variance estimate is minimal; or exactly one arm is returned, it has a minimal cost-weighted estimate, all cost-weighted upper bounds are finite, and its upper bound is below every other arm\'s lower bound by more than the error tolerance.',
 H,'all arm counts >=2, positive costs, NaN-free bounds and estimates including infinities and ties, all tolerances and limits',
 'Three easy instances with unit cost and zero tolerance; ties, infinities, tolerance and budget exhaustion are not covered.',
 ['bandits.py'],[('_check_fixed_conf_end_condition','bandits.py'),('limit check','bandits.py: run methods')],(),['best_arm of the returned data'])
p('C06','The sample limit bounds every run and every run terminates',
 'With a finite nonnegative sample limit every bandit run terminates and no round starts once the total has exceeded the limit, so every entry of the cumulative history except the last is at most the limit and the history is strictly increasing. An absent limit (None) means unlimited and is accepted whenever a confidence is given.',
 H,'all nonnegative limits, batch sizes >=1, arm counts >=2, arm behaviours',
 'Termination and the bound are for-all-histories claims; tests run at most 5 rounds.',
 ['bandits.py'],[('if total_samples > self.sample_limit: break','bandits.py: run methods')],(),['cum_samples','calls of the arms\' update'])
p('C07','Successive elimination drops only beaten arms and never the leader',
 'At the end of each round an arm leaves the competition only if its cost-weighted lower bound is at or above the lowest cost-weighted upper bound among surviving arms of minimal cost-weighted estimate; such arms do leave, except an arm attaining that lowest upper bound, which always stays. Surviving arms are sampled exactly once per round and dropped arms never again. The returned list is never empty: it holds the sole survivor, or, when the sample limit is exceeded, exactly the arms (of all arms) of minimal cost-weighted estimate.',
 H,'all arm counts, costs, NaN-free bounds and estimates (ties, zero-width and infinite intervals)',
 'One deterministic instance with three arms; ties of leaders, zero-width intervals and budget exhaustion are not reached.',
 ['bandits.py'],[('candidate filter','bandits.py: SuccessiveEliminationAlgorithm.run')],[('candidate_arms','surviving arms','bandits.py')],['arms updated per round','best_arm'])
p('C08','LUCB samples the leader and its strongest challenger',
 'After the first round, LUCB samples exactly two distinct arms per round, chosen from the estimates and bounds that all arms hold at that time. If some arm\'s cost-weighted estimate is strictly larger than the minimum, they are one arm of minimal cost-weighted estimate with the highest cost-weighted upper bound among those, and one of the remaining arms with the lowest cost-weighted lower bound among the remaining; if all arms tie, they are two distinct arms chosen at random, and selection never fails.',
 H,'all arm counts >=2, costs, NaN-free bounds/estimates with arbitrary ties and infinities, all random choices',
 'One instance with unit costs; ties between and inside the two groups are not reached.',
 ['bandits.py'],[('select_arms','bandits.py: LUCBAlgorithm.select_arms')],(),['return value of select_arms','arms updated per round'])
p('C09','Invalid bandit configurations are rejected',
 'Constructing any of the three bandits raises ValueError exactly when the error probability is not strictly between 0 and 1, the error tolerance is negative, a given confidence is not strictly between 0 and 1, or neither a confidence nor a finite sample limit is given. Otherwise construction succeeds and the bandit uses the values it was given.',
 ['inputs','configurations'],'all real parameter values, None and infinity',
 'Tests only construct valid bandits.',
 ['bandits.py'],[('BAIBanditAlgorithm.__init__','bandits.py')],(),['constructor outcome','public attributes'])
p('C10','Reset returns bandits, arms and estimators to their initial state',
 'After any history, resetting an arm leaves it as newly built: interval (-inf, inf), no estimates, zero updates, no data, and a nuisance estimator that reports it has not been fit, with cost, name and hyper-parameters kept; resetting a bandit does this for every one of its arms. Every bundled nuisance estimator supports reset and afterwards behaves like a new one with the same hyper-parameters.',
 ['inputs','histories'],'all arm classes, estimator classes and prior histories',
 'No test calls reset.',
 ['arms.py','bandits.py','parameters.py'],[('reset methods','arms.py, bandits.py, parameters.py')],(),['ci, var_est, ate, num_pulled, get_num_units, has_enough_samples'])
p('C11','Variance confidence intervals are well formed',
 'Whenever a sample-splitting arm holding at least one evaluation unit is updated with finite data (with the finite-sample method: for hyper-parameters for which the boundary of the method is a real number), it stores and returns an interval with 0 <= lower <= upper, and its variance estimate is nonnegative; for the CLT and finite-sample methods the interval contains the estimate (the chi-square method needs at least two evaluation units). If the nuisance estimator has not seen enough samples the interval is [0, inf), the estimate infinite and the effect NaN; an error level outside (0,1) raises ValueError and changes nothing; a NaN estimate is never stored silently but raises ValueError.',
 H,'all data, error levels, interval methods, hyper-parameters for which the finite-sample formula is defined, and update histories',
 'Two tests check the finite-sample method on one simulated trajectory each; CLT and chi-square are never run.',
 ['arms.py'],[('SampleSplittingArm.update','arms.py')],(),['return value of update, ci, var_est, ate'])
p('C12','Intervals follow the chosen statistical method exactly',
 'With v the variance estimate, n the number of evaluation units and d the error level: the chi-square interval is v(n-1) divided by the 1-d/2 and d/2 quantiles of the chi-square law with n-1 degrees of freedom; the CLT interval at the arm\'s k-th update is v plus the d/(2k^2) and 1-d/(2k^2) normal quantiles times sqrt(variance of the squared centred scores / n), cut at 0 below; the finite-sample interval is v plus/minus 5/8(sqrt(2g)+tau) sqrt(2 log(max(g,8g^2) n/m)/n + 1/2 + log(4/d))/sqrt(n) plus the squared width of the nuisance confidence sequence at level d/2, cut at 0 below, and [0, inf) when fewer than m evaluation units exist.',
 H,'all scores, error levels, fold sizes, hyper-parameters and update counts',
 'Tests only check that the interval brackets the estimate; wrong quantiles, counts or levels stay unnoticed.',
 ['arms.py'],[('SampleSplittingArm.update','arms.py')],(),['return value of update'])
p('C13','Nuisance fitting and evaluation use disjoint folds',
 'In a sample-splitting arm the nuisance estimator is fit, once per update, on exactly the first fold of the data seen so far, and the effect and variance estimates are computed only from the second fold: the effect is the mean of the fitted scores on it, the variance the mean squared deviation of those scores from the effect. A bootstrap arm fits only on (parts of) the first fold and takes the effect and variance from the scores on the second.',
 H,'all data, estimators, update histories',
 'Leakage between folds leaves point estimates plausible; tests compare with 5% tolerance on one path.',
 ['arms.py'],[('fit/_split_data[0], calculate_score/_split_data[1]','arms.py: update methods')],[('_split_data','the folds','arms.py')],['arguments given to the nuisance estimator, ate, var_est'])
p('C14','Arms retain every unit exactly once',
 'After any sequence of updates, the folds of an arm together hold every unit it was ever given (after its data transformer), each exactly once, and the reported number of units is their count. With stable splits a unit never changes fold; otherwise all data seen so far is split anew. The data given to an arm is not modified, and the update counter equals the number of updates since creation or reset.',
 H,'all batch sequences, both splitting modes, both arm classes',
 'Tests never inspect accumulated data nor use re-splitting.',
 ['arms.py','data.py'],[('_split_data maintenance','arms.py: update methods'),('append/k_fold','data.py')],[('_split_data','the folds','arms.py')],['get_num_units, num_pulled, data given to the estimator'])
p('C15','Bootstrap intervals are proper order statistics',
 'A bootstrap arm draws the configured number B of bootstrap variances (ceil(4/d) when unspecified, d the error level), each from scores on the complement of the random part of the first fold the estimator was just fit on, and its interval consists of the entries floor(B d/2) and ceil(B(1-d/2))-1 (counting from 0) of the sorted variances. Hence lower <= upper whenever the variances are numbers; an error level outside (0,1) raises ValueError and changes nothing.',
 H,'all error levels in (0,1), all B, all data',
 'BootstrapArm has no test.',
 ['arms.py'],[('BootstrapArm.update','arms.py')],(),['return value of update, calls to the estimator'])
p('C16','Random splits partition the data and keep units intact',
 'Splitting a dataset into k folds or subsampling it distributes every unit to exactly one part, keeps each unit\'s covariates, exposure and response together, keeps absent exposures/responses absent and leaves the original unchanged. k-fold returns exactly k folds whose sizes differ by at most one; a fold count below 1 or a proportion outside [0,1] raises ValueError.',
 ['inputs'],'all dataset sizes and contents, all k, p and all random permutations/masks',
 'One test uses 4 units and 2 folds with one seed; subsample has no test.',
 ['data.py'],[('ExpData.k_fold','data.py'),('ExpData.subsample','data.py')],(),['returned ExpData objects'])
p('C17','Appending and indexing keep units aligned',
 'Appending a dataset yields the old units followed by the new ones in all present arrays, with the unit count updated and the argument unchanged; incompatible covariates or missing exposures/responses raise ValueError and leave the dataset unchanged. Indexing a dataset applies the same selection to covariates, exposures and responses and leaves absent ones absent, and the length of a dataset is its number of units.',
 ['inputs','histories'],'all datasets, slices and index arrays',
 'append, __getitem__ and __len__ are only exercised indirectly.',
 ['data.py'],[('ExpData.append/__getitem__/__len__','data.py')],(),['ExpData arrays and n_units'])
p('C18','Data transformers select exactly the stated covariates',
 'The remove-coordinates transformer keeps all covariate columns except the given one, in order; the coordinate-mask transformer keeps exactly the listed columns, in the listed order; the identity transformer returns its input. All keep units, exposures and responses, return two-dimensional covariates with a matching feature count and never modify their input.',
 ['inputs'],'all datasets with two-dimensional covariates and all valid indices/masks',
 'Only remove-coordinate 0 of two columns is used in tests.',
 ['data.py'],[('get_remove_coordinates_fn, get_coordinate_mask_fn, get_identity_fn','data.py')],(),['returned ExpData'])
p('C19','Tabular conditional distributions are proper and smoothed',
 'After fitting on any nonempty data (with smoothing ratio >= 1), for every x value seen the fitted probabilities over the seen z values sum to 1 and are at least the minimum probability 1/(support size * ratio); they equal the empirical conditional frequencies when none of those is below the minimum, and values below the minimum become exactly the minimum. A fit depends only on the data it was given, and predicting returns, pair by pair, the fitted probability (0 for unseen values) without changing the model.',
 ['inputs','histories'],'all finite samples, support sizes, smoothing ratios >= 1, sequences of fits',
 'One test with a uniform 3x3 table, where smoothing never acts.',
 ['data.py'],[('TabularCPD.fit/predict','data.py')],[('table','conditional probabilities','data.py')],['table, predict'])
p('C20','AIPW scores use the doubly robust formula with bounded propensity',
 'For every fitted AIPW estimator the propensities used lie in [min_overlap, 1-min_overlap], being the model\'s treatment probabilities clipped to that range, and the score of each unit is mu(1,z)-mu(0,z) + (y-mu(x,z))(x/e - (1-x)/(1-e)) with the fitted response mu and propensity e evaluated at that unit. The response is fit on exposure and covariates, the propensity on covariates to predict exposure.',
 ['inputs','configurations'],'all datasets with binary exposure, all predictors and overlap bounds in (0, 1/2]',
 'The AIPW test checks two regression coefficients on one dataset; scores are only compared loosely through an arm.',
 ['parameters.py'],[('AIPW.fit/transform/_phi/calculate_score','parameters.py')],(),['calculate_score, transform, training data passed to predictors'])
p('C21','Front-door scores follow the documented formula',
 'For every fitted front-door estimator, the eight nuisance components of a unit equal their documented definitions in terms of the fitted response, the fitted conditional table (clipped to [min_overlap, 1-min_overlap] where it is used as P(z_i|.)), its support and the exposure probability, for covariates of any dimension, and the score is (y-mu)(P(z|1)-P(z|0))/P(z|x) + f1 + w(f2-f3). The exposure probability is the treated fraction clipped to [min_overlap, 1-min_overlap].',
 ['inputs','configurations'],'all datasets with binary integer exposure and finite-support covariates, any covariate dimension and support size',
 'Tests use one-dimensional binary z and check fitted components or a 5% variance match with hand-set parameters.',
 ['parameters.py'],[('FrontDoorLinearFiniteZ.fit/transform/_phi','parameters.py')],(),['transform, calculate_score, exp_prob'])
p('C22','Nuisance estimators never estimate from insufficient data',
 'AIPW and front-door estimators leave their models untouched when the data has fewer than min_units treated or fewer than min_units control units, and otherwise refit all of them on exactly the given data; they report enough samples exactly when a fit has succeeded since creation or reset. Fitting, or evaluating a fitted estimator, on data with the wrong covariate dimension raises ValueError and changes nothing; evaluating an estimator that has never been fit successfully yields all-NaN components, one row per unit and one column per component.',
 H,'all datasets, thresholds and call histories',
 'Tests only fit once with abundant data.',
 ['parameters.py'],[('fit/transform/has_enough_samples','parameters.py')],[('_has_been_fit','whether a fit has succeeded','parameters.py')],['has_enough_samples, transform, predictors\' fit calls'])
p('C23','Linear nuisance estimators fit the right groups and score correctly',
 'The binary-treatment linear estimator fits one response model on exactly the treated units and the other on exactly the control units (both untouched if a group is empty) and scores each unit by the difference of the treated and control predictions at its covariates. The linear-regression estimator uses n(XX+lambda I)^-1 for the design [exposure, covariates] of the n units it was fit on, and scores unit i by the first coordinate of that matrix times the unit\'s design row times its response.',
 ['inputs','histories'],'all datasets, dimensions, regularisation strengths',
 'Neither class has a test.',
 ['parameters.py'],[('LinearParameterBinaryTreatment, LinearRegressionParameter','parameters.py')],(),['calculate_score, training data passed to the predictors'])
p('C24','SCM samples follow the causal graph',
 'Generating n samples from an SCM evaluates each variable\'s distribution exactly once, after all its parents, with n and its parents\' samples in declared order, and returns the covariates in declared order side by side with the treatment as exposure and the response variable as response. A variable order that is not topological raises ValueError, and so does constructing an SCM whose variables lack parents or distributions or whose treatment, response or covariates are not variables.',
 ['inputs','programs'],'all finite graphs, orders, distributions and sample sizes',
 'Tests use two fixed graphs and only compare moments.',
 ['scm.py'],[('SCM.__init__/generate','scm.py')],(),['calls to the distributions, returned ExpData'])
p('C25','Estimating a treatment effect does not disturb the SCM',
 'The estimated treatment effect is the mean response of n samples generated with the treatment set to 1 for all units minus the mean response of n samples with it set to 0, all other distributions unchanged. Afterwards, even if sampling fails, the SCM\'s distributions are the ones it had before.',
 ['inputs','fault_sequences'],'all SCMs, sample sizes and points of failure of a distribution',
 'No test calls it (it could not run at all in the original code).',
 ['scm.py'],[('SCM.compute_treatment_effect','scm.py')],(),['return value, cpds'])
p('C26','Distribution building blocks compute what they document',
 'For every unit: categorical conditioning draws from the distribution indexed by that unit\'s conditioning value given that unit\'s other parents; the linear, transformed and structural Gaussian distributions equal the documented function of the unit\'s parents plus Gaussian noise of the given mean and covariance (standard deviation sqrt(cov) for scalars); the logistic ones are Bernoulli with the sigmoid of the documented linear form. None of them modifies its arguments.',
 ['inputs'],'all numbers of parents, units, dimensions and coefficient values',
 'Only used indirectly by code that tests do not reach (paper_utils).',
 ['scm.py'],[('categorical_conditioning, normal_cpd, transformed_normal_cpd, structural_equation_with_noise, add_gaussian_noise, logistic_*','scm.py')],(),['return values and arguments'])
p('C27','The linear data generator obeys its model',
 'Each generated dataset has n units with the configured number of covariates, exposures drawn as Bernoulli(sigmoid(x.gamma)) (gamma zero by default), and responses equal to x.beta + tau*exposure plus the output of the noise model, which is called exactly once with n. A gamma of the wrong shape or a noise vector of the wrong length raises ValueError.',
 ['inputs','configurations'],'all dimensions, coefficients, noise models, sample sizes',
 'LinearDataGenerator has no test.',
 ['data.py'],[('LinearDataGenerator','data.py')],(),['generate'])
p('C28','Paper arms are exactly the valid adjustment sets',
 'In the examples of section 5, the SCM\'s covariate columns and the arms\' selections agree: the first arm sees exactly the columns of Z0, and each of the 2^M other arms sees, for every back-door path i, exactly the columns of Z_i or exactly those of V_i, all 2^M combinations occurring once, in the order its name spells. Each arm\'s cost is the sum of the costs of the variables it observes (z0_cost for the first) and its estimator expects exactly the number of columns the arm selects.',
 ['inputs','configurations'],'all numbers of paths M, dimensions and costs',
 'paper_utils has no test; a column mix-up still runs and yields plausible plots.',
 ['paper_utils.py','data.py'],[('generate_example_from_cpd','paper_utils.py')],(),['arm list, data seen by each arm'])
p('C29','Paper instances are determined by their seed',
 'The parameters of the section 5.1 and 5.2 conditional distributions depend only on the dimensions, the number of paths and the seed: building them neither reads nor advances numpy\'s global random state when a seed is given.',
 ['inputs','histories'],'all seeds, dimensions and prior states of the global generator',
 'No test builds them.',
 ['paper_utils.py','nonlinear_utils.py'],[('rng = np.random.default_rng(seed)','paper_utils.py')],(),['global numpy random state; sampled distributions'])
p('C30','Softmax returns a probability vector',
 'For every finite nonempty vector x the softmax helpers return exp(x_i)/sum_j exp(x_j), evaluated with the maximum subtracted from the exponents: all entries are nonnegative and sum to 1, and no exponent is positive, so nothing overflows. The input is not modified.',
 ['inputs'],'all finite vectors of any length',
 'No test.',
 ['nonlinear_utils.py','paper_utils.py'],[('softmax','nonlinear_utils.py, paper_utils.py')],(),['return value'])
p('C31','Plots show each arm\'s own aligned history',
 'For each arm plotted, the drawn estimate curve, bound curves and filled band are that arm\'s own histories against the cumulative samples, all starting after the same number of skipped initial rounds, and the curve carries the arm\'s name.',
 ['inputs'],'all arm lists, histories and skip counts',
 'No test.',
 ['plotting_utils.py'],[('plot_bandit_results','plotting_utils.py')],(),['calls on the axis object'])
p('C32','Nuisance confidence-sequence widths follow the paper',
 'For AIPW and front-door estimators, with V the Gram matrix of the design (covariates; exposure and covariates for front-door), s the sub-Gaussian scale, r the mixture parameter, d the level (one third of it for front-door): the regression radius is sqrt(s log det(sV+rI) - s log(r^p d^2)) over the square root of the least eigenvalue of V(V+(r/s)I)^-1V, and the width is infinite while the first term does not exceed the second. The AIPW width is radius*(1/min_overlap - 1); the front-door width is radius*(1+2(1/min_overlap-1)) + t*(1/min_overlap-1) with t the uniform-boundary radius at one third of the level.',
 ['inputs','configurations'],'all data, levels, scales and mixture parameters',
 'Tests only see the width through a bracketing check on one trajectory.',
 ['parameters.py'],[('calculate_cs_width','parameters.py')],(),['calculate_cs_width'])
p('C33','Intervals cover the asymptotic variance with the stated probability',
 'The confidence sequence of each arm contains the true variance simultaneously over all rounds with probability at least one minus its error level.',
 ['histories'],'all data distributions satisfying the paper\'s assumptions',
 'A probabilistic statement about infinite histories.',
 ['arms.py','parameters.py'],[('SampleSplittingArm.update','arms.py')],(),['ci'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
