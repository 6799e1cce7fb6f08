"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))
M = 'pymcmcstat/MCMC.py'
prop('P01', 'Stored chain rows and stored misfits always belong together',
     'Row 0 of the stored chain is the starting point, and every later row is either the previous row or a point at which the user\'s misfit was evaluated during that very step; the stored misfit row is the user\'s misfit at exactly that parameter vector. Every call of the user\'s misfit gets the full parameter vector, with non-sampled parameters at their configured values, and the reported final parameter values are the last chain row in the sampled positions and the configured values elsewhere. This holds whatever the user\'s misfit or prior function does with the arrays it is handed or with the array it returns.',
     ['inputs', 'configurations', 'histories'], 'every model, data set, parameter set (sampled and fixed in any order), sampling method, option combination and user function style',
     'Tests run one two-parameter linear model and compare shapes or a few seeded rows; no test recomputes the misfit along a chain or uses fixed parameters in other positions, buffer-reusing or argument-mutating user functions.',
     [M, 'pymcmcstat/procedures/SumOfSquares.py', 'pymcmcstat/samplers/Metropolis.py', 'pymcmcstat/samplers/DelayedRejection.py'],
     [('chain/misfit row update', M + ': update of chain and sschain in the simulation loop'), ('full-vector assembly and result copy', 'pymcmcstat/procedures/SumOfSquares.py: evaluate_sos_function')],
     [('chain, sschain', 'sampled values and misfits per step', M)], ['results dictionary', 'user misfit callback', 'custom sampler callback'])
prop('P02', 'Sampling never leaves the parameter limits and never rejects inside them',
     'No stored sample, and no call of the user\'s misfit, model or prior, ever uses a sampled parameter value outside its closed [minimum, maximum] interval; a candidate is discarded as out of bounds exactly when at least one sampled component lies outside its own interval. Contradictory limits or a start outside the limits are refused before any sampling.',
     ['inputs', 'configurations'], 'every set of limits (finite, one-sided, infinite, start on a limit, limits on fixed parameters), every proposal width, method and stage',
     'Tests call the bounds helper on a couple of vectors; whether each stage of each method applies the right parameter\'s limits for all parameter layouts is never observed.',
     ['pymcmcstat/samplers/utilities.py', 'pymcmcstat/samplers/Metropolis.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/settings/ModelParameters.py'],
     [('bounds test', 'pymcmcstat/samplers/utilities.py: is_sample_outside_bounds'), ('start checks', 'pymcmcstat/settings/ModelParameters.py: _check_parameter_limits, _check_initial_values_wrt_parameter_limits')],
     [('limits', 'per-parameter closed interval', 'pymcmcstat/settings/ModelParameters.py')], ['user callbacks', 'results dictionary', 'process exit'])
prop('P03', 'First-stage candidates are accepted with the Metropolis probability',
     'An in-bounds first-stage candidate is accepted with probability min(1, exp(-half the change of (sum over components of misfit/error variance, plus prior term))), where the old misfit, prior term and error variance are those of the current state, whatever the number of misfit components, the prior, and whether error variances are being sampled. A candidate whose posterior is not a number or is zero is never accepted.',
     ['inputs', 'histories', 'configurations'], 'every state and candidate reached, every prior (default Gaussian, flat, user-defined), number of misfit components, fixed or sampled error variance, also in continued runs',
     'Tests evaluate the acceptance formula on hand-picked numbers with mocked randomness; the pairing of the right misfit, prior and error variance along whole histories is not observed.',
     ['pymcmcstat/samplers/Metropolis.py', 'pymcmcstat/samplers/utilities.py', 'pymcmcstat/procedures/PriorFunction.py', M],
     [('log posterior ratio and test', 'pymcmcstat/samplers/utilities.py: calculate_log_posterior_ratio, log_posterior_ratio_acceptance_test'), ('prior term', 'pymcmcstat/procedures/PriorFunction.py')],
     [('current state', 'theta, misfit, prior, error variance of the last accepted state', M)], ['user callbacks', 'global random stream', 'results dictionary'])
prop('P04', 'Delayed-rejection stages use the correct acceptance probability',
     'After a rejection the next candidate is drawn around the current state with the narrower proposal of that stage, for as many stages as requested, and is accepted with the delayed-rejection probability that keeps the posterior invariant: posterior ratio times the ratio of all earlier-stage proposal densities and rejection probabilities along the reversed path. Earlier candidates that were out of bounds or whose posterior was not a number count as having zero posterior, and no stage follows an acceptance.',
     ['inputs', 'histories', 'configurations'], 'every path of up to four stages, every stage scaling, user-supplied stage proposals, dimensions 1 to 4, bounds, priors and error variances',
     'Tests compare the recursion with stored numbers for one two-stage path and otherwise mock it; three- and four-stage paths, bounds in the middle of a path and non-default scalings are not reached.',
     ['pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/procedures/CovarianceProcedures.py', 'pymcmcstat/samplers/Adaptation.py'],
     [('stage loop', 'pymcmcstat/samplers/DelayedRejection.py: run_delayed_rejection'), ('acceptance recursion', 'pymcmcstat/samplers/DelayedRejection.py: alphafun, nth_stage_log_proposal_ratio')],
     [('stage proposal factors and inverses', 'Cholesky factor per stage', 'pymcmcstat/procedures/CovarianceProcedures.py')], ['user callbacks', 'global random stream', 'results dictionary'])
prop('P05', 'Proposals follow the configured and correctly adapted covariance',
     'Candidates are drawn from a Gaussian centred at the current state whose covariance is, until the first adaptation, the configured one (or the documented default) for the sampled parameters and afterwards the scaled sample covariance of all chain rows so far (combined with the weighted initial covariance when requested), with non-adapting parameters keeping their initial covariance, tiny regularisation if singular, and only rejection-driven rescaling during burn-in. Adaptation happens exactly every adaptation interval up to the last adaptation step and never for the non-adaptive methods; the robust adaptive method instead stretches or shrinks the covariance along the last move according to its acceptance probability. The reported proposal covariance, chain covariance and chain mean are the ones in use.',
     ['inputs', 'histories', 'configurations'], 'every chain history, adaptation interval, burn-in, last-adaptation step, initial weight, adapt flags, scale, dimension, continued runs',
     'Tests check the recursive covariance update on small fixed arrays; whether the right rows with the right weights are used at every adaptation of a whole run, and whether proposals use the result, is not observed.',
     ['pymcmcstat/samplers/Adaptation.py', 'pymcmcstat/procedures/CovarianceProcedures.py', 'pymcmcstat/samplers/utilities.py', M],
     [('adaptation', 'pymcmcstat/samplers/Adaptation.py: run_adaptation'), ('initial covariance', 'pymcmcstat/procedures/CovarianceProcedures.py'), ('adaptation schedule', M + ': simulation loop')],
     [('proposal factor, chain covariance, mean, weight', 'adaptation state', 'pymcmcstat/procedures/CovarianceProcedures.py')], ['global random stream', 'user callbacks', 'results dictionary', 'covariance log'])
prop('P06', 'Sampled error variances follow their conditional distribution',
     'When error variances are sampled, every step draws, independently for every misfit component, the inverse of a Gamma variable with shape (prior weight + number of observations)/2 and rate (prior weight times prior variance + current misfit)/2 of that same component. When they are not sampled the configured variance is used throughout and no variance chain is reported.',
     ['inputs', 'histories', 'configurations'], 'every misfit history, number of components, prior weight and variance, number of observations (shape below and above one)',
     'Tests check the gamma generator\'s output shape and one seeded value; the distribution, its dependence on the current misfit and the component pairing are not observed.',
     ['pymcmcstat/procedures/ErrorVarianceEstimator.py', 'pymcmcstat/settings/ModelSettings.py', M],
     [('variance draw', 'pymcmcstat/procedures/ErrorVarianceEstimator.py'), ('setting expansion', 'pymcmcstat/settings/ModelSettings.py')],
     [('error variance', 'current value per component', M)], ['results dictionary'])
prop('P07', 'Reported rejection and acceptance figures match what happened',
     'The reported total rejection rate is the number of steps that kept the old state divided by the number of simulations of that run, the out-of-bounds rate counts the rejected steps whose last candidate was out of bounds, and the per-stage acceptance counts add up with the rejections to the number of simulations, each stage counting exactly the steps accepted at it. The reported number of simulations, parameter names, limits, sampled positions, proposal factors and configured settings describe the same run.',
     ['histories', 'configurations'], 'every run history and every method/stage/limit configuration, repeated and continued runs',
     'Tests feed hand-made counters into the results object; the counters are never compared with what a run actually did.',
     [M, 'pymcmcstat/structures/ResultsStructure.py', 'pymcmcstat/samplers/DelayedRejection.py'],
     [('rejection counters', M + ': update of rejected counters'), ('results assembly', 'pymcmcstat/structures/ResultsStructure.py')],
     [('rejected', 'total, interval and out-of-bounds counts', M), ('iacce', 'acceptances per stage', 'pymcmcstat/samplers/DelayedRejection.py')], ['results dictionary', 'user callbacks'])
prop('P08', 'Runs are reproducible and observers never change them',
     'With the same seed and settings a run gives bit-identical chains, misfits, variances and statistics, whatever was run before in the process. Verbosity, progress bar, print interval, logging and result-file options, log block size and a custom sampler that only looks never change the sampled values.',
     ['configurations', 'histories'], 'every combination of display, logging and observer options, every method, after any earlier activity in the process',
     'Tests run each display or logging option on its own and look at the side effect, never at whether the sampled chain changed.',
     [M, 'pymcmcstat/settings/SimulationOptions.py', 'pymcmcstat/utilities/progressbar.py', 'pymcmcstat/utilities/general.py', 'pymcmcstat/chain/ChainProcessing.py'],
     [('single global random stream', M + ': constructor seeding'), ('logging inside the loop', M)],
     [], ['results dictionary', 'global random stream'])
prop('P09', 'User inputs and earlier results are never modified',
     'Running a simulation never changes arrays, lists or dictionaries the user passed in (data, initial covariance, stage scalings and proposals, error variances and their prior settings, parameter values, names), and post-processing (statistics, diagnostics, interval generation, plotting, export) never changes the chain, the results or the settings it was given. Results already returned do not change when another simulation is run.',
     ['inputs', 'histories'], 'every settable array or list, every post-processing call in any order, any later simulation with the same or another object',
     'Tests do not compare inputs before and after; aliasing shows only with particular shapes and types (arrays of full length, floats, lists shorter than needed).',
     [M, 'pymcmcstat/settings/ModelSettings.py', 'pymcmcstat/procedures/CovarianceProcedures.py', 'pymcmcstat/propagation.py', 'pymcmcstat/plotting/PredictionIntervals.py', 'pymcmcstat/plotting/utilities.py', 'pymcmcstat/chain/ChainStatistics.py', 'pymcmcstat/structures/ResultsStructure.py'],
     [('copies of settings', 'pymcmcstat/settings/ModelSettings.py, pymcmcstat/procedures/CovarianceProcedures.py')],
     [], ['caller-held objects'])
prop('P10', 'Continuing a run extends the chain from exactly where it stopped',
     'A run continued from its previous results keeps all earlier chain, misfit and variance rows unchanged, adds one row per new simulation after the first, and its first new step starts from the last stored state with that state\'s misfit, prior and error variance; fixed parameters, limits and priors (also those centred at the original start) stay as configured. Continuing without an earlier run is refused.',
     ['histories', 'configurations'], 'every number of continuations, run lengths, methods, with and without sampled variances and fixed parameters',
     'Tests continue once and look at the chain length only.',
     [M, 'pymcmcstat/settings/ModelParameters.py'],
     [('chain expansion', M + ': set-up for continued simulations'), ('results to parameters', 'pymcmcstat/settings/ModelParameters.py: _results_to_params')],
     [('chain index', 'global row index', M)], ['results dictionary', 'user callbacks'])
prop('P11', 'Saved results files reproduce the results and can restart a run',
     'A results file written at the end of a run and loaded again gives back every value of the in-memory results exactly (light files leave out only the chains, which are then loaded from the logs). A run restarted from such a file starts its sampled parameters at the saved final values and its proposal at the saved final proposal covariance, leaving fixed parameters and priors as configured in the new run.',
     ['inputs', 'histories', 'configurations'], 'every results content (infinite, not-a-number, integer, list, numpy scalar settings), method, fixed parameters, file name choice, light or full',
     'Tests mock the file layer or round-trip a toy dictionary; full results of real runs are not compared and restart is only smoke tested.',
     ['pymcmcstat/structures/ResultsStructure.py', 'pymcmcstat/utilities/NumpyEncoder.py', 'pymcmcstat/chain/ChainProcessing.py', M],
     [('export', 'pymcmcstat/structures/ResultsStructure.py'), ('load', 'pymcmcstat/chain/ChainProcessing.py: load_serial_simulation_results'), ('restart', M)],
     [], ['results files', 'results dictionary'])
prop('P12', 'Log files always hold an exact, ordered prefix of the chain',
     'At any moment the binary and text logs, read back with the library, give exactly the first rows of the chain, misfit chain and variance chain in order, without loss, duplication or rounding: all rows after a finished run, and all completed blocks if the process is interrupted (exception, exit or kill) at any step while user code runs. Logs of a continued run append only the new rows, and each block\'s index entry and proposal covariance describe that block. Only the kinds of file asked for are written, and only in the output directory; nothing is written when nothing is asked for.',
     ['crash_points', 'histories', 'configurations'], 'every block size and run length (also not multiples), every step at which the run is aborted or the process killed, both formats, continued runs',
     'Tests write logs with mocked writers or one block size and never interrupt a run.',
     [M, 'pymcmcstat/chain/ChainProcessing.py'],
     [('block writer', M + ': save to log file'), ('readers', 'pymcmcstat/chain/ChainProcessing.py: read_in_bin_file, read_in_txt_file')],
     [('log block counters', 'start and end of next block', M)], ['files in the log directory', 'library readers'])
prop('P13', 'Parallel chains are independent, complete and kept in order',
     'A parallel simulation runs exactly the requested number of chains, chain k starting at the k-th initial values (inside the limits, fixed parameters kept), each a valid chain of the common settings; results, directories and files are returned in chain order whatever the scheduling. Chains use different random numbers, and the original settings object is not altered.',
     ['schedules', 'inputs', 'configurations'], 'every number of chains and cores, assignment of chains to workers, per-chain run time, initial values, output options',
     'Tests mock the pool or run two chains once; chain identity, random-stream independence across workers and ordering with ten or more chains are not observed.',
     ['pymcmcstat/ParallelMCMC.py', 'pymcmcstat/chain/ChainProcessing.py'],
     [('replication', 'pymcmcstat/ParallelMCMC.py: setup_parallel_simulation'), ('worker pool', 'pymcmcstat/ParallelMCMC.py: run_parallel_simulation'), ('loading', 'pymcmcstat/ParallelMCMC.py: load_parallel_simulation_results')],
     [('parmc', 'list of per-chain objects', 'pymcmcstat/ParallelMCMC.py')], ['returned results', 'files per chain'])
prop('P14', 'Chain statistics equal their definitions for every chain',
     'For every chain the reported mean, standard deviation, batch-means error, Geweke score and p-value and integrated autocorrelation time equal their defining formulas per parameter, independent of the other parameters present; apart from the mean and the Geweke score they are unchanged by shifting, and all scale correctly. Acceptance figures printed are those of the results and chain given, and no input is altered.',
     ['inputs'], 'every chain length, number of parameters, scale, offset, autocorrelation, constant columns',
     'Tests compare with stored numbers for one or two tiny chains.',
     ['pymcmcstat/chain/ChainStatistics.py', 'pymcmcstat/utilities/general.py'],
     [('statistics', 'pymcmcstat/chain/ChainStatistics.py: chainstats, batch_mean_standard_deviation, geweke, integrated_autocorrelation_time')],
     [], ['returned dictionary', 'printed table'])
prop('P15', 'The Gelman-Rubin diagnostic equals its definition for every chain set',
     'For every set of two or more chains the diagnostic reports for each named parameter the scale reduction factor, between, within and mixture variances and effective sample size given by their definitions on the chains used (the second half when results are given), independent of chain order and unchanged by shift and scale. Fewer than two chains are refused.',
     ['inputs'], 'every number and length of chains, parameters, names, scales, results dictionaries or arrays',
     'Tests check keys of the returned dictionary and one stored value.',
     ['pymcmcstat/chain/ChainStatistics.py', 'pymcmcstat/chain/ChainProcessing.py'],
     [('diagnostic', 'pymcmcstat/chain/ChainStatistics.py: gelman_rubin, calculate_psrf'), ('chain list', 'pymcmcstat/chain/ChainProcessing.py: generate_chain_list, generate_combined_chain_with_index')],
     [], ['returned dictionary', 'printed table'])
prop('P16', 'Propagated intervals are quantiles of model outputs at posterior samples',
     'Uncertainty propagation evaluates the model only at full parameter vectors made of one stored chain row plus the fixed values, each prediction adding observation noise with the error variance of that same row and that same output (normal, square-root or log scale); with at least as many samples requested as rows, every row is used once in order, otherwise rows are drawn uniformly. The plotted bands and median, over one or two independent variables, are the exact empirical quantiles for the requested percentages, for every output.',
     ['inputs', 'configurations'], 'every chain, variance input form (none, number, per-output values, chain), number of outputs, sample count, noise scale, interval percentages, fixed parameters',
     'Tests check output shapes for a constant model with one parameter layout.',
     ['pymcmcstat/propagation.py'],
     [('propagation', 'pymcmcstat/propagation.py: calculate_intervals, observation_sample, define_sample_points'), ('quantiles and plot', 'pymcmcstat/propagation.py: generate_quantiles, plot_intervals')],
     [], ['returned arrays', 'model callback', 'figure contents', 'global random stream'])
prop('P17', 'Prediction intervals are per-batch quantiles of model and noise samples',
     'The prediction-interval tool evaluates each batch\'s model with that batch\'s data at parameter vectors made of stored rows after the burn-in plus fixed values, and reports for every batch and output column the exact empirical quantiles of the responses and of responses plus noise whose variance is that row\'s error variance for that batch or column. When fewer samples than rows are requested, rows are drawn uniformly from those after the burn-in; error variances matching neither the batches nor the columns are refused. Plotted bands are labelled with the probability they cover.',
     ['inputs', 'configurations'], 'every batch structure, shared or per-batch or per-column variances, burn-in, sample count, model list or single model, fixed parameters',
     'Tests check internal helpers on toy arrays; the assembled result is not recomputed.',
     ['pymcmcstat/plotting/PredictionIntervals.py', 'pymcmcstat/plotting/utilities.py'],
     [('interval generation', 'pymcmcstat/plotting/PredictionIntervals.py'), ('quantiles', 'pymcmcstat/plotting/utilities.py: empirical_quantiles')],
     [], ['returned intervals', 'model callback', 'figure contents'])
prop('P18', 'Settings resolve to their documented values and errors are refused',
     'Without a user misfit the misfit of each data batch is the weighted sum of squared differences between that batch\'s data and the model at that batch\'s inputs; observation counts, batch counts, error variances and their prior settings resolve to the documented defaults or to what the user gave, expanded to one value per misfit component, also when the object is run again. Inconsistent settings are refused instead of sampled with.',
     ['inputs', 'configurations'], 'every number, shape, type and weight of data sets, list or array input, user-specified or default counts and variances, one or several misfit components, repeated runs',
     'Tests check each resolution helper on a few values; combinations through a real run are not reached.',
     ['pymcmcstat/settings/ModelSettings.py', 'pymcmcstat/settings/DataStructure.py', 'pymcmcstat/settings/SimulationOptions.py', 'pymcmcstat/procedures/SumOfSquares.py', 'pymcmcstat/settings/ModelParameters.py'],
     [('settings resolution', 'pymcmcstat/settings/ModelSettings.py'), ('data container', 'pymcmcstat/settings/DataStructure.py'), ('default misfit', 'pymcmcstat/procedures/SumOfSquares.py: mcmc_sos_function')],
     [], ['results dictionary', 'model callback', 'process exit'])
prop('P19', 'Custom samplers are driven exactly once per step with the true state',
     'Every registered custom sampler is set up once before sampling and then updated exactly once per step, in registration order, with the step number, whether that step accepted, and the state stored for that step (parameters, misfit and current error variance); the values returned are what the user\'s misfit receives at the following evaluations. Chains a custom sampler asks to save are logged completely and in order.',
     ['histories', 'configurations'], 'every number of custom samplers, method, variance sampling, block size',
     'Tests use one no-op sampler and check only that the run finishes.',
     [M, 'pymcmcstat/procedures/SumOfSquares.py'],
     [('custom sampler calls', M + ': simulation loop and set-up'), ('forwarding', 'pymcmcstat/procedures/SumOfSquares.py: evaluate_sos_function')],
     [('custom sampler output', 'values forwarded to the misfit', M)], ['custom sampler callbacks', 'user misfit callback', 'log files'])
prop('P20', 'The non-adaptive samplers leave the posterior distribution invariant',
     'Started from an exact draw of the posterior, the sampled parameters (and error variances, when sampled) after any number of steps of the non-adaptive methods are still distributed according to the posterior defined by misfit, prior and limits. Adaptive runs on such posteriors recover their mean and spread.',
     ['inputs', 'histories'], 'every target (Gaussian, truncated, skewed, several components), proposal width, number of stages',
     'Only statistical observation of many runs can show it; tests compare single seeded runs at most.',
     ['pymcmcstat/samplers/Metropolis.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/procedures/ErrorVarianceEstimator.py', M],
     [('transition kernel', 'pymcmcstat/samplers/Metropolis.py, pymcmcstat/samplers/DelayedRejection.py')],
     [], ['results dictionary'])
prop('P21', 'Chain plots show exactly the chain they are given',
     'Chain, pairwise, histogram, density and metric plots display, for each parameter in its own panel with its own name, exactly the samples of that parameter (evenly thinned from the first sample on when there are too many or a step is requested), and histograms and densities are the normalised distribution of all samples. Probability ellipses trace the contour of the given mean and covariance.',
     ['inputs'], 'every chain length, number of parameters, thinning, name list (missing, short, full)',
     'Tests check that figures have the right number of axes and some labels.',
     ['pymcmcstat/plotting/MCMCPlotting.py', 'pymcmcstat/plotting/utilities.py'],
     [('plots', 'pymcmcstat/plotting/MCMCPlotting.py'), ('thinning, names, grids', 'pymcmcstat/plotting/utilities.py')],
     [], ['figure contents'])
prop('P22', 'What is printed during a run is what is in use',
     'The table printed before sampling lists every sampled parameter once, in order, under its own name, with its start, limits and prior as used and a mark exactly on the parameters that do not adapt. The rejection figures printed at every print interval and adaptation are the percentages of steps rejected so far, since the last adaptation, and out of bounds so far. The progress display counts up to the number of simulations and never beyond, and the displayed settings are those of the run. What the verbosity or a switched-off progress bar suppresses is not printed.',
     ['inputs', 'histories', 'configurations'], 'every verbosity, print interval, method, set of fixed and non-adapting parameters, pace of the clock',
     'Tests check the formatting of single numbers; the figures depend on the history of the run and on elapsed time.',
     ['pymcmcstat/settings/ModelParameters.py', 'pymcmcstat/utilities/general.py', 'pymcmcstat/utilities/progressbar.py', 'pymcmcstat/samplers/Adaptation.py', M],
     [('parameter table', 'pymcmcstat/settings/ModelParameters.py: display_parameter_settings'), ('rejection figures', M + ': print_rejection_statistics'),
      ('progress', 'pymcmcstat/utilities/progressbar.py')],
     [('rejection counters', 'counts printed', M)], ['standard output'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
