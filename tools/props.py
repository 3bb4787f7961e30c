"""The properties, in one place: properties.jsonl and MANIFEST.json come from here."""

S = 'discs/samplers/'
M = 'discs/models/'
ALL_SAMPLERS = [S + f for f in (
    'randomwalk.py', 'gibbs.py', 'blockgibbs.py', 'hammingball.py', 'gwg.py',
    'path_auxiliary.py', 'dlmc.py', 'dmala.py')]


def P(id, title, statement, over, text, why, files, mechanism, technique, note,
      observe=None):
  return dict(id=id, title=title, statement=statement, over=over, text=text,
              why=why, files=files, mechanism=mechanism, technique=technique,
              note=note, observe=observe)


PROPS = [
P('C01', 'Gibbs-type samplers draw from the exact conditional distributions',
  'One step of the Gibbs, block Gibbs and Hamming ball samplers, and one sweep of the block Gibbs sampler of a restricted Boltzmann machine, changes only the variables it is scheduled to resample and draws their new values from their exact conditional distribution under the model given all the others. This holds for binary and categorical variables, for every block size, ball size and scan position, including the last incomplete block, so the target distribution is left invariant.',
  ['inputs', 'configurations', 'schedules'],
  'every energy function, start state, number of variables, number of categories, block or ball size, position in the scan and random seed',
  'The sampler tests look at array shapes and at the drift of a mean after many steps on one Bernoulli model; a wrong conditional (biased choice, missing block, wrong normalisation) passes them, and they do not run in the stable suite.',
  [S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py', M + 'rbm.py'],
  [('enumeration of the candidates of a block and categorical draw from their energies', 'discs/samplers/blockgibbs.py, discs/samplers/hammingball.py'),
   ('position in the scan carried in the sampler state', 'discs/samplers/gibbs.py, discs/samplers/blockgibbs.py'),
   ('alternating conditional draws of hidden and visible units', 'discs/models/rbm.py')],
  'runtime monitoring of real sampler transitions; chi-square oracle against exactly enumerated conditionals',
  'Held on the transitions observed: arbitrary energy tables of at most 256 states, every scan position, frequencies judged at p < 1e-11. Trusts numpy/scipy and jax.random.'),

P('C02', 'Metropolis-type samplers are reversible with respect to the target',
  'With its tuning state fixed, one step of the random walk, gradient-informed Gibbs, path auxiliary, discrete Langevin (DLMC) and discrete MALA samplers satisfies detailed balance: in equilibrium every move between two states occurs exactly as often as the reverse move. This holds for binary and categorical variables, every balancing function, step size and number of flips, both Langevin solvers, and with or without exact neighbourhood energies.',
  ['inputs', 'configurations'],
  'every target distribution, pair of states, sampler option, tuning state reached in a real run and random seed',
  'Tests check shapes and a mean on one easy model; an error in the acceptance ratio or in the reverse proposal probability leaves shapes right and usually still moves towards the mode.',
  [S + f for f in ('randomwalk.py', 'gwg.py', 'path_auxiliary.py', 'dlmc.py', 'dmala.py')] + ['discs/common/math_util.py'],
  [('Metropolis-Hastings acceptance with forward and backward proposal log-probabilities', 'discs/samplers/*.py step functions'),
   ('log-probability of the selected flips', 'discs/common/math_util.py')],
  'runtime monitoring of real sampler transitions; oracle on the balance of observed flows under the exact target',
  'Held on the transitions observed: arbitrary tables of at most 32 states, flows judged at |z| > 7.5 or p < 1e-11; very small violations of balance (below the noise of about 10^5 transitions per state) are not seen.'),

P('C03', 'Chains of every sampler on every model converge to the model distribution',
  'For every supported pair of sampler and model, long chains started anywhere end up distributed as the exponential of the energy the model reports, divided by its temperature where it has one, including after step-size adaptation during burn-in. The result does not depend on the starting state or on the parity of the number of steps.',
  ['inputs', 'configurations', 'schedules'],
  'every model instance, sampler with its options, start state and random seed',
  'No test compares a sampled distribution with the model distribution; they check means of one model at a tolerance, with hard-coded seeds.',
  ALL_SAMPLERS + [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'mis.py', 'maxcut.py', 'maxclique.py', 'normcut.py')],
  [('sampler step followed by accept or reject', 'discs/samplers'), ('energies and their gradients', 'discs/models'),
   ('adaptation of the step size', 'discs/samplers/dlmc.py, discs/samplers/dmala.py, discs/samplers/path_auxiliary.py, discs/samplers/randomwalk.py')],
  'runtime monitoring of long real chains; histogram oracle against the exactly enumerated model distribution',
  'Held on the chains observed; models of at most 81 states; a bias below about 0.03 in total variation is not reported.'),

P('C04', 'Chains of a batch neither influence nor copy each other',
  'What one chain of a batch does in a step depends only on its own state and its own share of the randomness: replacing the states of the other chains leaves it unchanged. Chains of the same batch move independently of each other, they do not share their random choices. Exempt are the samplers\' documented batch statistics (step-size calibration of the Langevin samplers, the ball radius of the Hamming ball sampler).',
  ['inputs', 'configurations', 'histories'],
  'every sampler, batch size, content of the other chains and random seed',
  'Tests run one batch and average over it; leaks between chains (a sum over the wrong axis, one key used for all) need two runs with different neighbours, or joint statistics.',
  ALL_SAMPLERS, [('reductions over all axes except the batch axis', 'discs/samplers, discs/common/math_util.py'),
                 ('random draws shaped by the batch', 'discs/samplers')],
  'differential runtime monitoring (same chain, different neighbours) and joint-frequency oracle on real steps',
  'Held on the chains observed; independence judged at p < 1e-11 for pairs of neighbouring chains.'),

P('C05', 'Chains stay in the sample space and numerically sane on hostile targets',
  'Whatever the model, every sampler returns states inside the sample space with the shape and type of the input, finite acceptance rates between 0 and 1, and finite positive tuning values; a chain never moves into a state whose acceptance probability is negligible. This covers flat, very steep, spiked and badly scaled energies, single-variable models, and long adaptive runs with acceptance near 0 or 1, as long as single-change energy differences stay below about 120 for the Langevin samplers.',
  ['inputs', 'configurations', 'histories'],
  'every energy function within the stated range, shape, number of categories, sampler option and length of the run',
  'Tests use mild models; overflow, NaN and out-of-range states appear only at extreme energies or after long adaptation.',
  ALL_SAMPLERS + ['discs/common/math_util.py'],
  [('log-space acceptance and proposal probabilities', 'discs/samplers, discs/common/math_util.py'),
   ('clipping of step sizes and radii', 'discs/samplers/dlmc.py, dmala.py, path_auxiliary.py, randomwalk.py')],
  'runtime invariant monitoring of every returned state under hostile targets, eager and compiled',
  'Held on the steps observed; steep targets up to differences of 120 nats for Langevin samplers, far beyond that for the others.'),

P('C06', 'Steps and likelihood evaluations are counted honestly',
  'After any number of steps, the number of steps a sampler reports equals the steps taken, and the number of likelihood evaluations it reports equals the evaluations the model really received per chain, a gradient counting as two and an exact neighbourhood evaluation as the model declares.',
  ['histories', 'configurations'],
  'every sampler, option, variable type, number of variables and number of steps',
  'No test reads these counters, on which every efficiency figure of the benchmark (ESS per evaluation) is based.',
  ALL_SAMPLERS + [S + 'abstractsampler.py'],
  [('counters in the sampler state', 'discs/samplers/abstractsampler.py and the step functions')],
  'runtime monitoring: instrumented model counts real evaluations, oracle compares with the reported counters at every step',
  'Held on the runs observed, including evaluations executed inside loops, which are counted when they execute.'),

P('C07', 'Adaptive samplers settle at the configured target acceptance rate',
  'With adaptation on, the random walk, path auxiliary, DLMC and DMALA samplers tune their step size so that the running acceptance rate settles at the configured target when it is attainable, grows to the largest useful step on flat targets and recovers from bad initial values; the acceptance rate they report is the fraction of proposals accepted. With adaptation off the step size never changes.',
  ['histories', 'configurations', 'inputs'],
  'every adaptive sampler, target rate, model, initial step and length of the run',
  'Tests run a few steps; wrong sign, wrong target, frozen or runaway tuning show only over hundreds of steps.',
  [S + f for f in ('randomwalk.py', 'path_auxiliary.py', 'dlmc.py', 'dmala.py')],
  [('update of the radius or log step size from the acceptance rate', 'discs/samplers/*.py step functions')],
  'runtime monitoring of tuning trajectories; bounded-progress oracle on windowed acceptance and observed move sizes',
  'Liveness restated as: within 500 steps the window acceptance is within 0.05 of the target on models with 36 to 64 variables.'),

P('C08', 'Masked-out variables never change and the rest is sampled correctly',
  'With a mask of free variables in the model parameters, the binary gradient-informed Gibbs sampler and the path auxiliary samplers never change a masked-out variable, whatever the step size adaptation does, and sample the free ones in detailed balance with the conditional distribution given the frozen ones. The padding nodes of batched graphs therefore keep their value through a whole run.',
  ['inputs', 'histories', 'configurations'],
  'every mask, target, sampler option and length of the run, as long as a fixed number of flips does not exceed the number of free variables',
  'No test uses a mask; violations need masks, long adaptation, or padded graphs.',
  [S + 'gwg.py', S + 'path_auxiliary.py', 'discs/common/math_util.py', 'discs/graph_loader/common.py'],
  [('mask applied to the proposal logits', 'discs/samplers/gwg.py, discs/samplers/path_auxiliary.py'),
   ('mask of real nodes supplied by the loaders', 'discs/graph_loader')],
  'runtime invariant monitoring of masked coordinates plus flow-balance oracle on the free ones',
  'Held on the masks and runs observed; same statistical thresholds as C02.'),

P('C09', 'Energies of the statistical models equal their definition',
  'For every state, parameter set and accepted encoding of the state (integer or one-hot, any integer or float type, any batch size), the log-probability that the Bernoulli, categorical, Ising, Potts, factorial HMM, restricted Boltzmann machine and residual network models report equals their mathematical definition. The transition and initial probabilities that the factorial HMM generates are normalised.',
  ['inputs', 'configurations'],
  'every state, encoding, shape, parameter value and configuration of the models',
  'Tests compare a few hand-made states of four models on 2x2 grids; type conversions, boundary terms and one-hot detection depend on the input.',
  [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'resnet.py', 'deep_ebm.py')],
  [('forward pass of each model', 'discs/models'), ('parameter initialisation', 'discs/models')],
  'reference-model monitor: every reported energy compared with a float64 implementation of the definition',
  'Held on the states compared; differences below 2e-4 of the size of the terms count as rounding. The residual network is compared with an independent implementation of the same architecture.'),

P('C10', 'Combinatorial energies score the given graph exactly',
  'For independent set, clique, cut and normalised-cut problems, the energy of an assignment is the objective minus the constraint violations times the configured penalty on the graph that was loaded, divided by the temperature, whatever padding batching added. The evaluation used for reporting is the same quantity without the temperature. For independent set, clique and cut the best value over all assignments is the optimum of the graph and is attained by a feasible solution; for normalised cut a partition that leaves a part empty scores below every one that does not.',
  ['inputs', 'configurations'],
  'every graph, node and edge order, weighting, padding, assignment, penalty and temperature',
  'There is no test of any combinatorial model.',
  [M + f for f in ('mis.py', 'maxclique.py', 'maxcut.py', 'normcut.py', 'comb_ebm.py')] + ['discs/common/utils.py'],
  [('masked sums over the edge list', 'discs/models'), ('division by temperature', 'discs/models/comb_ebm.py')],
  'reference-model monitor: energies and evaluations compared with definitions on the original networkx graph, exhaustive on small graphs',
  'Held on graphs of at most 14 nodes, every assignment on the smallest ones.'),

P('C11', 'Reported value and gradient agree with the energy',
  'For every model and state, the value returned together with a gradient equals the energy returned alone, and the gradient is the derivative of that energy with respect to the state, chain by chain. For energies linear in each variable, moving one binary variable changes the energy by exactly the gradient entry.',
  ['inputs', 'configurations'],
  'every model, parameter set, state and batch',
  'Tests compare gradients on one small state of four models.',
  [M + 'abstractmodel.py', M + 'bernoulli.py', M + 'categorical.py', M + 'ising.py', M + 'potts.py', M + 'fhmm.py', M + 'rbm.py', M + 'resnet.py', M + 'mis.py', M + 'maxcut.py', M + 'maxclique.py', M + 'normcut.py'],
  [('automatic differentiation of the summed energy', 'discs/models/abstractmodel.py and overrides'),
   ('overrides of single models', 'discs/models/bernoulli.py, rbm.py, text_infilling.py')],
  'runtime monitoring with a finite-difference and discrete-difference oracle on the real energy',
  'Held on the states compared, within float32 finite-difference accuracy.'),

P('C12', 'Neighbourhood log-ratios are the exact single-change energy changes',
  'For the models that offer exact neighbourhood evaluation (Bernoulli, independent set, cut and normalised cut), the returned log-ratio of every single-variable change equals the energy after the change minus the energy before it, and the energy returned along is that of the state. Padded edges and nodes contribute nothing.',
  ['inputs', 'configurations'],
  'every model with a neighbourhood evaluation, instance, padding and state',
  'No test calls it.',
  [M + f for f in ('bernoulli.py', 'mis.py', 'maxcut.py', 'normcut.py', 'comb_ebm.py')],
  [('closed-form neighbourhood differences', 'discs/models')],
  'runtime monitoring: every reported ratio compared with the difference of two real energies',
  'Held on the changes compared; relative differences below 3e-4 count as rounding.'),

P('C13', 'Random selection primitives draw the right law and report its likelihood',
  'Multinomial selection draws exactly the requested number of items, each row of a batch from its own distribution: independently with replacement, or distinct items by successive weighted choice without replacement, and the reported log-likelihoods are those of the items in the order drawn. The accept/reject step takes the new state of a chain as a whole with the stated probability, independently per chain, and reports which it took. The numerical helpers they are built on agree with exact arithmetic.',
  ['inputs'],
  'every weight vector, count, mask, temperature and random seed',
  'Tests check two values of two helpers.',
  ['discs/common/math_util.py'], [('Gumbel top-k and Bernoulli selection', 'discs/common/math_util.py')],
  'runtime monitoring of drawn items; chi-square and exact-likelihood oracles',
  'Held on the draws observed; laws judged at p < 1e-11.'),

P('C14', 'Graph instances reach the models complete, unchanged and exactly once',
  'Every instance of a dataset is delivered exactly once per pass, with all its nodes, edges, weights and reference value, padding marked as padding, in any batch size, and partitioned without loss or duplication over processes. Generated random graphs have the requested size and are connected where required.',
  ['inputs', 'configurations', 'histories'],
  'every dataset content, batch size, number of processes and padding',
  'No test loads a graph.',
  ['discs/graph_loader/common.py', 'discs/graph_loader/mis_loader.py', 'discs/graph_loader/maxcut_loader.py', 'discs/graph_loader/maxclique_loader.py', 'discs/graph_loader/normcut_loader.py', 'discs/graph_loader/graph_gen.py', 'discs/common/utils.py'],
  [('conversion of a graph to padded arrays', 'discs/graph_loader/*.py'), ('batching and distribution over processes', 'discs/graph_loader/common.py')],
  'exactly-once and fidelity monitor over the stream of loaded instances against the files written',
  'Held on the datasets written by the harness, in the formats the loaders read.'),

P('C15', 'Optimisation results are the best of the states actually visited',
  'In a combinatorial optimisation experiment every instance is sampled for the configured number of steps with the configured number of chains, at the temperatures of its annealing schedule, each step continuing from the previous one with fresh randomness. The reported best ratios, their trajectory over the logged steps, their mean and the saved best samples are those of the states the chains of that instance visited at those steps, relative to the reference value of the instance, and plotted acceptance rates and hops are those of the observed steps. No instance of any batch is lost, repeated or mixed up with another.',
  ['inputs', 'configurations', 'schedules', 'histories'],
  'every problem, dataset, sampler, batch layout, chain length, logging interval, annealing schedule and random seed',
  'No test runs an experiment; the numbers in results.pkl depend on the whole history of a run.',
  ['discs/experiment/sampling.py', 'discs/evaluators/co_eval.py', 'discs/common/experiment_saver.py', 'discs/common/utils.py', 'discs/models/comb_ebm.py'],
  [('annealing loop and best-so-far bookkeeping', 'discs/experiment/sampling.py'), ('writing of the results', 'discs/common/experiment_saver.py'), ('temperature schedules', 'discs/common/utils.py')],
  'event log of every sampler step of real runs; offline checker recomputing all reported values from the visited states',
  'Held on the runs observed: graphs of at most 10 nodes, at most 40 steps; the objective of normalised cut is taken from the model (C10 judges it).'),

P('C16', 'Classical sampling experiments report the statistics of their own chains',
  'A sampling experiment runs the configured number of chains for the configured number of steps from the initial samples of the model, each step continuing from the previous one with fresh randomness, and labels the results with the sampler, model and options that were run. The reported effective sample size is that of the distances of the recorded part of the chains to the reference sample, its rates are per step, second and energy evaluation of that run, and the plotted acceptance rates and hops are those of its steps. Saved samples are those of the same few chains at the saved steps, and saved parameters are those of the model.',
  ['inputs', 'configurations', 'schedules', 'histories'],
  'every model, sampler and options, chain length, number of chains, recorded fraction and random seed',
  'No test runs an experiment or computes an effective sample size.',
  ['discs/experiment/sampling.py', 'discs/evaluators/ess_eval.py', 'discs/common/experiment_saver.py', 'discs/common/utils.py'],
  [('sampling loop, burn-in and mapping to a scalar', 'discs/experiment/sampling.py'), ('autocorrelation estimate', 'discs/evaluators/ess_eval.py'), ('results.csv, samples.pkl, params.pkl', 'discs/common/experiment_saver.py')],
  'event log of every sampler step of real runs; offline checker recomputing statistics and files in float64',
  'Held on the runs observed: at most 12 variables and 60 steps; ESS rates per step and per energy evaluation are judged at ess_ratio 0.5 only.'),

P('C17', 'Annealed importance sampling estimates the true partition function',
  'Annealed importance sampling on a trained image model runs its chains along the geometric path from the base distribution, whose samples it starts from, to the model, at inverse temperatures rising to exactly one. The weight of a chain is the accumulated energy of the states it visited, the reported log partition function after each step is the logarithm of the mean weight over all chains, and the final estimate agrees with the exact value up to its standard error.',
  ['inputs', 'configurations', 'histories'],
  'every trained model, sampler, number of chains and steps, and random seed',
  'No test runs annealed importance sampling; a wrong weight still gives a plausible number.',
  ['discs/experiment/sampling.py', M + 'resnet.py', M + 'deep_ebm.py', 'discs/common/experiment_saver.py'],
  [('weight accumulation', 'discs/experiment/sampling.py (EBM_Experiment)'), ('base distribution and tempered energy', 'discs/models/resnet.py')],
  'event log of every sampler step of real runs; weights recomputed in float64, unbiasedness oracle against enumeration',
  'Held on the runs observed: images of at most 16 pixels; the estimate is judged at 7 standard errors or a bound of probability 1e-10.'),

P('C18', 'Text infilling tasks conserve the corpora and scores follow definition',
  'Building the text infilling tasks takes the requested number of sentences of admissible length out of each corpus, leaving exactly the remaining lines as references, and hides the requested number of distinct inner words, uniformly, recording the token positions of the masks. The BLEU, self-BLEU and unique n-gram scores of infilled sentences are those of their definitions against those references.',
  ['inputs', 'configurations'],
  'every pair of corpora, sentence length bounds, number of tasks and masks, set of sentences and random seed',
  'No test builds the tasks or computes a score.',
  ['discs/common/utils.py', 'discs/common/create_text_infilling_dataset.py', 'discs/evaluators/lm_eval.py'],
  [('selection, cleaning and masking of sentences', 'discs/common/utils.py'), ('n-gram and BLEU scores', 'discs/evaluators/lm_eval.py')],
  'conservation monitor over generated corpora, and scores recomputed from their definitions',
  'Held on the corpora generated by the harness (every line terminated); scored sentences have at least five words.'),

P('C19', 'Running on several devices changes neither chains nor reports',
  'With parallel running enabled, instances or chains are dealt out to all local devices without losing, repeating or mixing any, every device has randomness of its own, and the reported results are those of all chains on all devices, in the order and with the meaning they have on one device. This holds for more, fewer and as many instances as devices; with parallel running disabled one device is used.',
  ['inputs', 'configurations', 'schedules', 'histories'],
  'every number of devices, instances and chains, experiment, sampler and random seed',
  'Tests run on one device.',
  ['discs/experiment/sampling.py', 'discs/common/utils.py'],
  [('sharding of parameters, states and keys, gathering of results', 'discs/experiment/sampling.py, discs/common/utils.py')],
  'event log of every sampler step on 2, 4 and 8 XLA devices; the offline checkers of C15, C16 and C17',
  'Held on the runs observed, on XLA CPU devices of one host; accelerators and several hosts are not available here.'),

P('C20', 'Training follows persistent contrastive divergence',
  'A training run updates the parameters by the configured optimizer, learning-rate schedule and gradient clipping along the gradient of the contrastive loss, taken between the data batch and the negative samples of that iteration. The negative samples are persistent: they continue from those of the last iteration (restricted Boltzmann machine) or from rows of the replay buffer, which are written back to where they came from (image model), and are moved the configured number of sampler steps with fresh randomness under the parameters of that moment. Logged numbers, drawn images and the saved parameters, moving average and configuration are those of the run, on any number of devices.',
  ['inputs', 'configurations', 'histories'],
  'every data set, training option, number of devices, iterations and random seed',
  'No test trains anything; a wrong sign, stale samples or a lost average still produces falling losses and saved files.',
  ['discs/learning/train.py', 'discs/learning/replay_buffer.py', 'discs/learning/rbm/main_rbm_training.py', 'discs/learning/binary_ebm/main_binary_training.py', 'discs/common/data_loader.py', 'discs/common/utils.py'],
  [('training loop, optimizer and schedules', 'discs/learning/train.py'), ('persistent samples', 'discs/learning/rbm/main_rbm_training.py, discs/learning/replay_buffer.py')],
  'event log of real training programs (batches, sampler steps, buffer traffic, logged scalars); updates recomputed in float64',
  'Held on the runs observed: images of at most 16 pixels, at most 10 iterations, 1 to 4 XLA CPU devices; torch and tensorflow_datasets are stand-ins.'),

P('C21', "Reports show every finished experiment's own numbers",
  'The reporting programs show, for every finished experiment of a sweep, exactly the numbers its run saved, under the labels of the options it was run with, and nothing for experiments that did not finish. This holds for the bar charts and curves of effective sample size, the tables of optimisation and text results, the curves over time, estimation errors, partition functions, normalised-cut evaluation and saved sample images, whatever subset of the sweep has finished and whatever order the folders are found in.',
  ['inputs', 'configurations', 'histories'],
  'every sweep, set of finished experiments, order of folders and saved values',
  'No test reads a report; a bar in the place of another looks as good as the right one.',
  ['discs/plot_results/plot_results.py', 'discs/plot_results/plot_co_through_time.py', 'discs/plot_results/plot_ais.py', 'discs/plot_results/plot_estimation_error.py', 'discs/plot_results/plot.py', 'discs/plot_results/plot_ising_temp.py', 'discs/evaluators/bernoulli_eval.py', 'discs/common/experiment_saver.py', 'discs/common/normcut_evaluator.py'],
  [('grouping of experiment folders and drawing', 'discs/plot_results'), ('result files', 'discs/common/experiment_saver.py')],
  'reporting programs run on folders filled by the real saver; recorder of drawn figures and tables, compared value by value',
  'Held on the sweeps of the shipped configurations and random variations; plot_ebm (a personal script with fixed paths) is not covered.'),

P('C22', 'The options of a launch reach the run that is carried out',
  'The model, sampler, evaluator and experiment that a launch builds carry the options given on its command line; where none is given, those of the experiment file, then of the model and sampler configuration, then the defaults, while graph problems take the description of their dataset and trained models the configuration saved with their parameters. The launcher sends out every combination a sweep describes exactly once, each with a results folder of its own named after its options, every shipped one launches, and results are saved where the launch said.',
  ['inputs', 'configurations'],
  'every shipped configuration, sweep, work unit and override of an option',
  'No test parses a configuration; a dropped override silently runs another experiment under the label of the intended one.',
  ['discs/xm_launcher.py', 'discs/experiment/main_sampling.py', 'discs/common/configs.py', 'discs/common/utils.py', 'discs/run_configs', 'discs/models/configs', 'discs/samplers/configs', 'discs/experiment/configs'],
  [('merging of configuration layers', 'discs/experiment/main_sampling.py, discs/common/utils.py'), ('sweeps', 'discs/run_configs')],
  'launch program run with the arguments of every shipped work unit and random overrides; the objects it builds are observed and compared',
  'Held on the launches observed; the cluster (xmanager) is a stand-in that keeps the jobs.'),

P('C23', 'Initial states and model parameters follow their stated law',
  'The initial states of every model lie in its sample space and are drawn independently over chains and variables, uniformly or from the data mean of a trained model, the same for the same random key and fresh for another; those of normalised cut leave no part empty. The parameters that the Bernoulli, categorical, Ising, Potts and factorial HMM models generate follow the law set by their configuration. Trained models use the parameters and architecture of the checkpoint they are given, and refuse to be built when it is missing.',
  ['inputs', 'configurations'],
  'every model, configuration, shape, number of chains and random key',
  'Tests check the shape of initial samples of four models.',
  [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'resnet.py', 'deep_ebm.py', 'comb_ebm.py', 'normcut.py')],
  [('draws of initial samples and parameters', 'discs/models'), ('loading of trained parameters', 'discs/models/deep_ebm.py')],
  'runtime monitoring of drawn states and parameters; chi-square and Kolmogorov-Smirnov oracles against the stated laws',
  'Held on the draws observed (10^4 to 10^5 per law, p < 1e-10).'),

P('C24', 'Text infilling scores and reports the sentences it sampled',
  'The energy of an infilled sentence is the sum over its blanks of the masked-language-model log-probability of the token filled in, each with that position masked and the other blanks filled, equal for token ids and one-hot vectors, and its gradient is that of this energy. Initial tokens follow the masked language model, or are uniform where configured. The infilling experiment handles every task exactly once, reports the sentences its chains ended with, and as the top k the highest scoring of them per task.',
  ['inputs', 'configurations', 'histories'],
  'every checkpoint, task, number of blanks, tokens, sampler, number of chains and random seed',
  'No test loads a language model.',
  [M + 'text_infilling.py', 'discs/common/customized_huggingface_flax_bert.py', 'discs/experiment/sampling.py', 'discs/common/experiment_saver.py'],
  [('masked-token scores and decoding', 'discs/models/text_infilling.py'), ('one-hot input to BERT', 'discs/common/customized_huggingface_flax_bert.py'), ('resampling loop and top-k selection', 'discs/experiment/sampling.py (Text_Infilling_Experiment)')],
  'differential runtime monitoring against the BERT of the transformers library; event log of real infilling runs',
  'Held on randomly initialised BERT checkpoints of one or two layers; real pretrained weights are not available offline.'),

P('C25', 'Evaluations and steps are pure functions of their arguments',
  'Calling a model function, a sampler step or a selection primitive again with the same arguments gives the same result, whatever was called in between on the same object or others, and leaves the caller\'s samples, parameters and sampler state untouched. Compiling a call, or advancing several instances together in one vectorised call, gives the same results as one eager call at a time, up to rounding.',
  ['inputs', 'histories', 'schedules', 'configurations'],
  'every model, sampler option, order of calls and way of execution',
  'Tests make each call once; leftovers of earlier calls need a history.',
  ALL_SAMPLERS + [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'resnet.py', 'mis.py', 'maxcut.py', 'maxclique.py', 'normcut.py')] + ['discs/common/math_util.py'],
  [('state passed in and returned, never kept', 'discs/samplers, discs/models')],
  'differential runtime monitoring: random histories of calls on shared objects against fresh objects, compiled and vectorised calls',
  'Held on the histories observed; the text infilling model, bound to its current task, is left out. Up to two of 66 compared chains may differ by rounding.'),

P('C26', 'Training data arrives complete, unaltered and in the right split',
  'The training data loader hands out, in one pass, every example of a process\'s share exactly once except those of an incomplete last batch, in batches laid out over the local devices, preprocessed example by example, in order or shuffled as configured, over and over where configured; the shares of the processes divide the data without overlap or loss. The readers of the image datasets return the images of the published files, with their orientation, scaling and splits, each image in exactly one split and evaluation images binarised with the probability of their gray values. The mean image used to initialise models is that of the dataset.',
  ['inputs', 'configurations', 'histories'],
  'every dataset, batch size, number of devices and processes, shuffling and repetition',
  'No test loads training data.',
  ['discs/common/data_loader.py', 'discs/learning/raw_torch_dataset.py', 'discs/learning/train.py', 'discs/common/utils.py'],
  [('sharding, shuffling and batching', 'discs/common/data_loader.py'), ('reading of image files', 'discs/learning/raw_torch_dataset.py'), ('mean image', 'discs/learning/train.py')],
  'exactly-once monitor over the stream of batches, every example traced back to the data written for the run',
  'Held on the datasets written by the harness; processes are simulated, torch and torchvision are stand-ins that provide arrays.'),
P('C27', 'Repeating a run reproduces its results',
  'Running a sampling, optimisation, partition-function or text-infilling experiment again with the same options visits the same states and reports the same results, measured times and what is divided by them aside. This holds in a new process, after other experiments in the same process, whatever the global random states of Python and numpy, in whatever order the directories of a dataset are listed, and in a folder that holds the results of an earlier experiment. Training a restricted Boltzmann machine again with the same seed and data yields the same parameters.',
  ['histories', 'configurations'],
  'every experiment, model, sampler and option, and everything that ran before in the process or wrote to the folder',
  'No test runs an experiment, let alone twice.',
  ['discs/experiment/sampling.py', 'discs/common/experiment_saver.py', 'discs/graph_loader', 'discs/models', 'discs/samplers', 'discs/learning/rbm/main_rbm_training.py'],
  [('random keys of a run', 'discs/experiment/sampling.py'), ('results files', 'discs/common/experiment_saver.py'), ('order of the instances', 'discs/graph_loader')],
  'differential monitor: every sampler step and reported number of a run compared with repetitions in a disturbed process and in a new one',
  'Held on the repeated runs; one machine, one or two devices. Training of image networks draws from the unseeded numpy generator and is not covered.'),
]

NOT_APPLICABLE = []
