"""Per-property text of DESIGN.md: what is monitored, generated, compared."""
NOTES = {
'C01': '''Workload: energy tables of 4 to 256 states in several shapes (1-D, 2-D,
2 to 4 categories), every block size that divides and does not divide the number
of variables, every scan position, every start state, tens of thousands of
single steps each; RBM Gibbs sweeps with random weights. Monitor: (start, end)
of every step. Oracle: the exact conditional of the scheduled block, chi-square
per start state; nothing outside the block moves; over one scan every variable
is resampled; the chain's invariant distribution is the target.''',
'C02': '''Workload: tables with 16 to 32 states, every sampler x balancing function x
solver x fixed/adaptive x number of flips, with tuning states taken from real
runs of 1 to 260 steps (multiples of the re-estimation periods included) on the
target itself and on a flat one. Monitor: counts of transitions between all
pairs of states. Oracle: pi(x) P(x,y) = pi(y) P(y,x) for every pair, and
stationarity of one step; batch size one where the sampler keeps batch
statistics, so that a dependence on the batch shows up as one on the chain. Steep
targets (neighbouring states up to e^30 apart) for every balancing function, where
a proposal density used on one side only would show.''',
'C03': '''Workload: every sampler on every model of the repository at a size that
can be enumerated, chains from fixed and random starts, adaptation on, hundreds
of steps. Oracle: final histogram over independent chains against the exact
distribution from the definition of the model (not from the code).''',
'C04': '''Same key, same chain, different neighbours must give the same move
(after 1, 20, 33 and 200 steps of tuning); the joint frequencies of pairs of chains
must factorise; energies and gradients of a state must not depend on the batch
it is in; RBM Gibbs likewise.''',
'C05': '''Steep, flat, spiked, one-sided, tiny-scale and huge-scale targets;
one-variable models; thousands of steps, compiled and eager. Every returned
state, acceptance and tuning value is checked against the sample space and for
finiteness; a move whose exact acceptance probability is below e^-60 must not
happen.''',
'C06': '''An instrumented model counts the evaluations that are really executed
(host callbacks, so loops and scans count what runs) and the monitor compares
them with the counters after every step, eager and compiled.''',
'C07': '''Tuning runs of 500 steps on 36 to 64 variables with several target rates,
schedules and starting values: windowed acceptance must settle within 0.05 of
the target, steps must grow on flat targets, recover after a switch to a steep
target, and stay constant with adaptation off; the acceptance rate reported by
the step is compared with accepted moves. Targets on which no step size can reach
the rate must leave the tuning value positive and finite, and it must recover when
an ordinary target follows.''',
'C08': '''Random masks (shared and per chain), tuning states grown on flat targets so that
the number of flips reaches the number of free variables, long adaptive runs and
padded graph batches. Masked coordinates must never change; the free ones must
balance with respect to the conditional target. Whole annealing runs of the real
experiment on padded graphs: no padded position changes at any step.''',
'C09': '''Random shapes, parameters (the model's own, random, and sixty times larger), integer,
float and one-hot encodings, compiled and eager; oracle in float64 from the
definition, including a from-scratch evaluation of the residual network.''',
'C10': '''Random graphs (isolated nodes, shuffled node order, weights, dense and
sparse, several per batch so that padding occurs) written to disk in the dataset
formats, loaded by the real loaders, random and extreme assignments, three
temperatures; for small graphs all assignments against networkx optima; partitions
with an empty part must score below every proper one.''',
'C11': '''Central differences of the real energy in every coordinate and exact
single-change differences for the multilinear energies, per chain.''',
'C12': '''All single-variable changes of random states of random instances,
with padding, at several temperatures, against two calls of the energy.''',
'C13': '''Counting of drawn items, sequences and sets against exact Plackett-Luce
and multinomial probabilities; log-likelihoods against float64; accept/reject
frequencies at log-probabilities from -inf to 30 and NaN; chunked and batched
variants.''',
'C14': '''Datasets with unique graphs are written, streamed back through the loaders with
several batch sizes and simulated process counts, and compared edge by edge;
every index must appear exactly once over all processes; SATLIB reduction from
CNF files; random graph generator.''',
'C15': '''`vmon/exp.py` wraps the real model and sampler handed to the real
experiment: every model instance is tagged through its parameters, every sampler
step reports (instance, step, key, states before and after, temperature, mask)
through `jax.debug.callback`, so vmapped, scanned or pmapped loops are all seen.
The offline checker demands continuity, fresh keys, schedule temperatures, and
recomputes ratios, trajectories, means and best samples from the visited states
in float64 with the graphs written to disk. Also under several host devices.''',
'C16': '''Same event log over all classical models and 14 sampler configurations;
`results.csv`, `samples.pkl`, `params.pkl` and figures are recomputed. ESS in
float64 by the Geyer cut-off, both readings accepted within 1e-4 of the cut.
Saved chains are matched to observed ones by bipartite matching. Also under several
host devices.''',
'C17': '''Checkpoints written by the harness; weights recomputed from the visited
states; for 3x3 images the mean weight of 4000 chains is compared with the
enumerated partition function, the start states with the base distribution. Also
under several host devices.''',
'C18': '''Generated corpora with quotes, unknown words, repeated lines; multiset
conservation of lines; masks compared with the tokenizer; uniformity of masked
positions; all scores from their definitions.''',
'C19': '''C15, C16 and C17 monitors under 2, 4 and 8 forced host devices and layouts
with more, fewer and as many instances as devices; sharding helpers by
conservation.''',
'C24': '''A tiny BERT with the real vocabulary size is written as a checkpoint, loaded
by DISCS and by the transformers library; energies, gradients, initial tokens,
reported and top-k sentences compared.''',
'C20': '''The two training scripts run as programs (`vmon/train_driver.py`) with their own
configuration files and random options; batches, sampler steps (with the
parameters used), replay buffer traffic, logged scalars, figures and files are
recorded. Offline, every update is recomputed in float64 (closed-form RBM
gradient, central differences for the network; SGD, Adam, AdamW, clipping, three
schedules, moving average), persistence is followed row by row, and the
conversion of torch checkpoints is compared energy by energy.''',
'C21': '''Folders named as the launcher names them, for the shipped sweeps and random
variations, filled by the real saver with random results, some unfinished; the
report scripts run as programs (`vmon/report.py`), figures are caught when they
are saved and read back in data coordinates (bars with their tick and legend
labels, lines, texts), tables are parsed; every number must be the saved one and
every finished experiment present.''',
'C22': '''The launcher runs as a program over every shipped sweep with a stand-in for
xmanager; its jobs are compared with the sweep. `main_sampling` run as a program for every work unit of every shipped sweep and
for random overrides, stopped when the experiment starts; every option of the
built model, sampler, evaluator, saver and experiment is compared with the layer
it must come from; some small runs go to the end and their files are compared.''',
'C23': '''Tens of thousands of initial states per model, over chains and over keys:
marginals, pairs of variables, pairs of chains, determinism, compiled draws;
parameters over keys by Kolmogorov-Smirnov, lattice fields against the circle of
the definition, the hidden chain behind factorial HMM observations decoded from
nearly noise-free instances, the noise decoded and tested over time; checkpoints written, loaded and compared leaf by
leaf.''',
'C25': '''One shared object receives a random history of calls; each result is compared
bit by bit with the same call on a fresh object, and arguments with snapshots.
Compiled, unrolled and vectorised (several graphs at once) calls are compared
with eager single ones, allowing a few rounding-induced decisions.''',
'C26': '''Numbered examples through the real loader with 1 to 4 devices and 1 to 4
simulated processes, with and without shuffling, repetition and dropping of the
rest; every row is traced back. Image files are written in the six published
formats (amat, mat, pickle) and read back split by split.''',
'C27': '''The workloads of C15, C16, C17, C24 and C20 configure an experiment; it is run
after one with the same model and sampler but other options, again after another
experiment with other global random states, reversed directory listings and the
older results in its folder, and once more in a new process with another string
hash. Steps are compared one by one, reported numbers name by name.''',
}
