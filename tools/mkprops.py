#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip(), "meaning": "state the property is about", "where": files[0]} for x in state.split(",")]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("D01", "Linked dataset fields stay aligned through every history of edits",
 "In a dataset the linked fields always hold the same number of rows, row i of every linked field comes from the same append, and appends, clears, type conversions, buffer growth and field additions never lose, reorder, duplicate or blend rows. "
 "An append that is rejected (wrong number of fields or wrong row size) leaves the dataset exactly as it was. "
 "len(), field arrays, getLinked(i), getSample, iteration and the current index always describe exactly those rows, and nothing from unused buffer space.",
 ["histories", "inputs"], "every sequence of addField/linkFields/unlinkFields/appendLinked/addSample/append/setField/clear/reset/getLinked/iteration calls, on plain, supervised and importance datasets of any dimensions",
 "Doctests append a handful of rows once; they never cross several buffer doublings, never fail in the middle of an append, and never interleave clear, iteration and further appends.",
 ["pybrain/datasets/dataset.py", "pybrain/datasets/supervised.py", "pybrain/datasets/importance.py"],
 [("linked append/growth", "DataSet.appendLinked, _appendUnlinked, _resize"), ("current index iteration", "DataSet.getLinked, __iter__, reset, endOfData")],
 state="data buffers, endmarkers, link set, current index")

prop("D02", "A sequential dataset is always a partition of its rows into sequences",
 "At every moment the sequences of a sequential (or reinforcement) dataset partition its rows in append order: newSequence opens a new last sequence unless the current one is empty, sample appends extend the last sequence, removeSequence removes exactly the chosen sequence's rows and leaves all others unchanged, and clear leaves one empty sequence. "
 "getNumSequences, getSequenceLength, getSequence, iteration over sequences, getCurrentSequence, gotoSequence, endOfSequence and getSumOverSequences all report that same partition. "
 "Indices beyond the last row or sequence are refused rather than answered with other rows.",
 ["histories", "inputs"], "every sequence of newSequence/addSample/removeSequence/clear/gotoSequence/getLinked calls and every sequence index",
 "The existing doctests of this module fail or touch one tiny fixed example; sequence bookkeeping is index arithmetic that only breaks at particular combinations (empty sequence, last sequence, removal in the middle).",
 ["pybrain/datasets/sequential.py", "pybrain/datasets/reinforcement.py"],
 [("sequence start indices", "SequentialDataSet.newSequence, _getSequenceField, removeSequence")],
 state="sequence_index field, linked fields")

prop("D03", "Splits, batches and class conversions neither lose nor invent samples",
 "splitWithProportion, splitByClass and the stratified split of sequences divide a dataset into parts that together contain every original sample exactly once and in the stated sizes; batches() and randomBatches() visit every selected row exactly once with only the last batch allowed to be short, the permuted order being the given permutation. "
 "Class histograms count exactly the stored labels, conversion to one-of-many encoding and back restores the labels with every row having exactly one 1 at its class position, and the class labels are accompanied by a class field that always equals the original labels. "
 "None of these operations changes any original input value.",
 ["inputs", "histories"], "every dataset content, split proportion, batch size, permutation and class labelling",
 "Tests use one fixed tiny dataset; off-by-one batch boundaries or duplicated split rows depend on length/size combinations.",
 ["pybrain/datasets/supervised.py", "pybrain/datasets/dataset.py", "pybrain/datasets/classification.py"],
 [("split/batch", "SupervisedDataSet.splitWithProportion, DataSet.batches, randomBatches"), ("class encoding", "ClassificationDataSet._convertToOneOfMany, _convertToClassNb, calculateStatistics, splitByClass")])

prop("D04", "Saved, reloaded and copied datasets equal the original and stay independent",
 "Saving any dataset to a file (pickle) and loading it back, and copying it, gives a dataset of the same class with the same fields, dimensions, rows, links and sequence partition. "
 "After a copy, appending to, clearing or editing one of the two never shows in the other. "
 "Compact saving writes exactly the stored rows.",
 ["inputs", "histories"], "every dataset class, every content and every history of edits before and after the copy/save",
 "Round trips are only exercised by doctests that fail at baseline; independence after copying needs a second operation history.",
 ["pybrain/datasets/dataset.py", "pybrain/utilities.py", "pybrain/datasets/supervised.py"],
 [("save/load", "Serializable.saveToFile, loadFromFile, DataSet.saveToPickle"), ("copy", "DataSet.copy")])

prop("N01", "A network computes the composition its connection graph describes",
 "For any acyclic graph of modules and connections (full, identity, linear, shared, permutation, sliced, subsampling; any number of inputs, outputs and biases), activating a sorted network returns what the graph describes: each module receives the sum over its incoming connections, outputs are the concatenation of the output modules, inputs are split over the input modules in order of addition. "
 "The result does not depend on the order in which non-input/output modules or connections were added, nor on earlier activations, and a cyclic graph of ordinary connections is always refused when sorted. "
 "Networks used as modules inside other networks and module meshes/slices compute the same as the flattened graph.",
 ["inputs", "configurations", "histories"], "every graph topology, insertion order, weight assignment, input vector and activation history",
 "Tests build a few fixed feed-forward nets; wrong ordering, double application or stale buffers only show on particular topologies and repeated use.",
 ["pybrain/structure/networks/network.py", "pybrain/structure/networks/feedforward.py", "pybrain/structure/connections/full.py", "pybrain/structure/connections/connection.py", "pybrain/structure/moduleslice.py", "pybrain/structure/modulemesh.py"],
 [("topological sort", "Network.sortModules/_topologicalSort"), ("forward pass", "FeedForwardNetworkComponent._forwardImplementation"), ("connections", "structure/connections/*.py _forwardImplementation")],
 state="module buffers, sorted module list")

prop("N02", "A network's parameter vector is one consistent view of its components",
 "After sorting, the parameter vector of a network is the concatenation of the parameters of its parameterised components with every shared parameter container counted once; writing through the network, through a component, or through any slice is visible everywhere else, immediately and in the next activation. "
 "paramdim, len(params) and len(derivs) agree, resetDerivatives zeroes exactly the derivatives, and setting parameters of the wrong length is refused. "
 "A copy has equal parameters and from then on never shares them with the original; masked parameters always expose exactly the enabled subset, hold the disabled ones at zero in the wrapped module while keeping their stored value for when they are enabled again, and respect the maximum complexity.",
 ["histories", "configurations"], "every network composition (nesting, sharing, re-sorting after adding components) and every sequence of parameter reads, writes, copies and mask changes",
 "Ownership and aliasing are implicit numpy view relations which a value-comparing example cannot distinguish from copies unless written through each alias in turn.",
 ["pybrain/structure/parametercontainer.py", "pybrain/structure/networks/network.py", "pybrain/structure/connections/shared.py", "pybrain/structure/evolvables/maskedparameters.py"],
 [("ownership", "ParameterContainer._setParameters/_setDerivatives"), ("collection", "Network._rebuild params in sortModules")],
 state="_params/_derivs arrays and their owners")

prop("N03", "Back-propagation yields the exact gradient and accumulates it",
 "For every network, after an activation, backActivate with an output error returns the error propagated to the inputs (the vector-Jacobian product) and adds to each parameter's derivative exactly the output-error-weighted partial derivative of the network function, for every connection and layer type that defines one (softmax layers pass the error through unchanged, by convention). "
 "Shared parameters receive the sum over all their uses, contributions of successive samples accumulate until resetDerivatives, and neither parameters nor outputs are changed by the backward pass.",
 ["inputs", "configurations", "histories"], "every topology, weights, inputs, output errors and sequence of activate/backActivate/resetDerivatives calls",
 "A finite-difference check on one network cannot see double counting on re-convergent paths, shared weights or accumulated samples.",
 ["pybrain/structure/networks/network.py", "pybrain/structure/networks/feedforward.py", "pybrain/structure/connections/full.py", "pybrain/structure/connections/linear.py", "pybrain/structure/connections/shared.py", "pybrain/structure/modules/module.py"],
 [("backward pass", "FeedForwardNetworkComponent._backwardImplementation"), ("connection derivatives", "*Connection._backwardImplementation")],
 state="derivs vectors, error buffers")

prop("N04", "Recurrent networks follow their one-step-delay semantics over any sequence",
 "At time t a recurrent network's modules receive the current outputs through ordinary connections and the outputs of time t-1 (zero at the first step) through recurrent connections; reset() makes the next activation behave like the first of a fresh copy, and sequence length or internal buffer growth never changes any value. "
 "Back-propagating the output errors of the whole sequence in reverse order accumulates the exact gradient of the unfolded network (back-propagation through time). "
 "In forget mode outputs are the same while no history is retained and back-propagation is refused.",
 ["inputs", "histories", "configurations"], "every recurrent topology, every sequence length across buffer doublings, and every interleaving of activate/backActivate/reset",
 "Doctests run a few steps; errors at the first step after reset, at a buffer doubling or in the carried state need specific lengths and histories.",
 ["pybrain/structure/networks/recurrent.py", "pybrain/structure/modules/module.py", "pybrain/structure/networks/network.py"],
 [("time offset", "RecurrentNetworkComponent.activate/backActivate/_forwardImplementation"), ("buffer growth", "Module._growBuffers")],
 state="offset, time-indexed buffers")

prop("N05", "Every module type computes its documented function and error signal",
 "Each layer type (linear, bias, sigmoid, tanh, ReLU, softsign, softmax, partial softmax, gate, double gate, switch, multiplication, LSTM with and without peepholes, multi-dimensional LSTM, state-dependent/Gaussian with zero noise, sample layers, tables) maps any input to the value its defining formula gives, and its backward pass returns the formula's derivative times the output error. "
 "The result is independent of earlier calls except for the documented recurrent state, which reset() clears. "
 "Activating the same module again with the same input after reset gives the same output.",
 ["inputs", "histories"], "every layer type, dimension, input vector, output error and call history",
 "Few layer types have any test at all; formula and state errors differ per layer and per history.",
 ["pybrain/structure/modules/sigmoidlayer.py", "pybrain/structure/modules/tanhlayer.py", "pybrain/structure/modules/softmax.py", "pybrain/structure/modules/gate.py", "pybrain/structure/modules/lstm.py", "pybrain/structure/modules/mdlstm.py", "pybrain/structure/modules/table.py"],
 [("layer transfer", "*Layer._forwardImplementation/_backwardImplementation")])

prop("N06", "Networks survive copying, pickling and XML round trips",
 "A network copied, pickled and unpickled, or written to XML and read back has the same class, module names, topology (ordinary and recurrent), shared-parameter groups, and the same outputs for every input sequence as the original, with parameters equal (to the precision written, for XML). "
 "The restored network is independent: changing, training or resetting either one never affects the other. "
 "Several networks appended to one XML file are each read back as themselves.",
 ["configurations", "histories", "inputs"], "every buildable network (layer types, sharing, slices, recurrence), its parameters and its state at the time of saving",
 "The existing tests do not read XML back for most components; a lost slice or flag shows only for networks which use it.",
 ["pybrain/tools/customxml/networkwriter.py", "pybrain/tools/customxml/networkreader.py", "pybrain/tools/customxml/handling.py", "pybrain/structure/networks/network.py", "pybrain/structure/evolvables/evolvable.py"],
 [("xml", "NetworkWriter.writeNetwork / NetworkReader.readNetwork"), ("copy", "Network.copy")])

prop("N07", "Network builders construct exactly the topology their arguments describe",
 "buildNetwork(sizes, options) creates a sorted network with layers of exactly those sizes and classes, fully connected in order, biases exactly where requested, and the parameter count that follows; unknown options and too few layers are refused. "
 "Multi-dimensional/convolutional, bidirectional and border-swiping networks share weights exactly per direction/class of position so that their output equals the direct evaluation of their defining recurrence, and a neuron-decomposed network's per-neuron parameter groups partition its parameters with set-after-get being the identity.",
 ["configurations", "inputs"], "every admissible combination of sizes, options, sequence lengths, symmetric flags, and parameter assignment",
 "Doctests build one or two sizes; wrong neighbour, mirrored or border connections depend on sizes and flags.",
 ["pybrain/tools/shortcuts.py", "pybrain/structure/networks/bidirectional.py", "pybrain/structure/networks/swiping.py", "pybrain/structure/networks/borderswiping.py", "pybrain/structure/networks/neurondecomposable.py"],
 [("topology construction", "buildNetwork, BidirectionalNetwork.__init__, SwipingNetwork._buildSwipingStructure, NeuronDecomposableNetwork._buildDecomposition")])

prop("T01", "Back-propagation training applies exactly the documented update",
 "One epoch of back-propagation training presents every sequence of the dataset exactly once (in shuffled order), online mode updating after each sequence and batch mode once with the summed gradient; each update adds learningrate times the gradient of the squared error (importance-weighted where the dataset carries importances) plus momentum times the previous update, with learning-rate decay and weight decay applied as configured. "
 "The reported error is the (weighted) average squared error over the presented samples, and the gradient-descent helper alone reproduces the same rule for any gradient sequence.",
 ["inputs", "histories", "configurations"], "every dataset, network, learning rate, momentum, decay, batch mode and number of epochs",
 "The doctest trains until an error threshold, which most wrong update rules still reach.",
 ["pybrain/supervised/trainers/backprop.py", "pybrain/auxiliary/gradientdescent.py"],
 [("epoch", "BackpropTrainer.train, _calcDerivs"), ("update", "GradientDescent.__call__")])

prop("T02", "RProp step sizes and weight changes follow the sign rule",
 "At every update the RProp rule moves each parameter by exactly its current step in the direction that reduces the error (the sign of the gradient handed over; no move where it is zero) and then multiplies that parameter's step by the increase factor if the gradient kept its sign since the previous update or by the decrease factor if it flipped (a flipped gradient is forgotten, so the update after it does not adapt the step), always clamped between minimum and maximum step; parameters evolve independently of each other. "
 "This holds for the RProp trainer over whole training histories (one update per epoch with the gradient summed over all sequences, including weight decay, starting from the module's current weights) and for the gradient-descent helper in RProp mode, which leaves the caller's gradient unmodified.",
 ["inputs", "histories"], "every gradient history and every step-size configuration",
 "Convergence-style doctests pass with wrong clamping or factor order.",
 ["pybrain/supervised/trainers/rprop.py", "pybrain/auxiliary/gradientdescent.py"],
 [("rprop update", "RPropMinusTrainer.train, GradientDescent.__call__")])

prop("T03", "Early stopping, validation and cross-validation account for data and weights",
 "trainUntilConvergence leaves the network with the weights of the lowest validation error reached by any of the trained epochs, returns prefixes of the true error histories, trains at most maxEpochs epochs (at least one), and stops as soon as the whole last window of continueEpochs validation errors is worse than the window before or constant; it trains only on the training part, which together with the disjoint validation part covers the dataset. "
 "Cross-validation uses every sample in exactly one validation fold (fold sizes differing by at most one) and trains each fold on the complement with a fresh copy of the model for the requested epochs, returning the mean performance and leaving the given model alone; the validation helpers compute the stated measures (classification performance, ESS, MSE, sequence classification) for any outputs, targets, sequences and importances, resetting the module at every sequence start.",
 ["inputs", "histories", "configurations"], "every dataset size, fold count, epoch limit and sequence of validation errors",
 "Depends on where in the error history the minimum lies and on divisibility of sizes by folds.",
 ["pybrain/supervised/trainers/backprop.py", "pybrain/supervised/trainers/trainer.py", "pybrain/tools/validation.py"],
 [("early stopping", "BackpropTrainer.trainUntilConvergence"), ("folds", "CrossValidator.validate"), ("measures", "Validator")])

prop("O01", "Black-box optimizers keep a truthful record of their evaluations",
 "For every optimizer, objective and option set, the reported best evaluable and best evaluation belong together and are the best over all evaluations made so far in the stated direction (maximise or minimise); only the stochastic and the noisy hill climber report their current point instead, which is always an evaluated one with its value. "
 "Every call of the objective is counted; a learning step begins only while the evaluations it needs are still allowed, the number of learning steps (in total, or additionally for one call of learn) is below its limit and the desired value has not been reached, and learning stops for no other reason except convergence or an undefined objective value. "
 "Stored evaluation logs list every evaluation in order and agree with what the objective received and returned; minimisation of f and maximisation of -f, plain arrays, lists and parameter containers, evaluator objects and options set before or after construction lead to the same search from the same random numbers. "
 "The optimizer never modifies the caller's initial evaluable nor results it reported earlier.",
 ["inputs", "histories", "configurations"], "every optimizer class, objective value sequence (ties, undefined values), start point, limits and flags",
 "Tests only run a few optimizers to a threshold on convex functions; wrong bookkeeping needs ties, non-monotone value sequences, exact limits.",
 ["pybrain/optimization/optimizer.py", "pybrain/optimization/hillclimber.py", "pybrain/optimization/randomsearch.py", "pybrain/optimization/neldermead.py", "pybrain/optimization/finitedifference/fd.py", "pybrain/optimization/distributionbased/xnes.py", "pybrain/structure/evolvables/maskedparameters.py"],
 [("evaluation bookkeeping", "BlackBoxOptimizer._oneEvaluation, learn, _stoppingCriterion, setEvaluator")],
 state="bestEvaluation/bestEvaluable, numEvaluations, logs")

prop("O02", "Population-based search follows its selection and replacement scheme",
 "Hill climbing mutates a copy of its current candidate and moves only to candidates at least as good (the stochastic climber may also accept worse ones, never when cold, always when hot); random search draws every candidate afresh; memetic search varies the topology of its best candidate and improves it by a local search with the other variation (inverse: the other way round), and the variation operators of the evolvables are always restored. "
 "ES keeps the best mu of lambda children (comma) or of parents and children (plus), gives every parent the same number of children, re-evaluates the parents when the objective is noisy, and its hall of fame holds the best of each generation. "
 "The GA keeps its population size, passes the stated elite on unchanged and breeds only by crossing two distinct selected best individuals, the two children of a pair sharing their alleles, within the bounds if there are any. "
 "In PSO each particle remembers the best position it was evaluated at, is drawn only towards that and towards the evaluated position of the best particle of its neighbourhood, and moves by its velocity. "
 "All of this holds for minimisation and maximisation and for every fitness history.",
 ["histories", "inputs", "configurations"], "every fitness landscape (including ties), population size, elitism and topology setting",
 "Selection errors do not stop these algorithms from improving on easy test functions.",
 ["pybrain/optimization/populationbased/ga.py", "pybrain/optimization/populationbased/es.py", "pybrain/optimization/populationbased/pso.py", "pybrain/optimization/hillclimber.py", "pybrain/optimization/memetic/memetic.py", "pybrain/optimization/memetic/innermemetic.py"],
 [("generation step", "GA.produceOffspring/select, ES._learnStep, ParticleSwarmOptimizer._learnStep, MemeticSearch._oneEvaluation")])

prop("O03", "Non-dominated sorting and crowding selection are exact",
 "non_dominated_front returns exactly the non-dominated elements of any finite set of fitness vectors, non_dominated_sort partitions the population into successive such fronts, crowding distances equal the defining sum of normalised gaps with extremes infinite, and the selection keeps whole better fronts before the least crowded of the first front that does not fit. "
 "The multi-objective GA's reported best set is always the non-dominated subset of everything it selected.",
 ["inputs"], "every finite multiset of fitness vectors in any dimension, including ties and duplicates, and every selection size",
 "There is one small example; divide-and-conquer variants are used only from a size threshold on.",
 ["pybrain/tools/nondominated.py", "pybrain/optimization/populationbased/multiobjective/nsga2.py"],
 [("fronts", "non_dominated_front*, non_dominated_sort, crowding_distance")])

prop("O04", "Coevolution keeps its books and selects by relative fitness",
 "In every coevolutionary search each relative evaluation is counted and stored once, for the pair that was really played, and a pair's result is never forgotten or turned round; a candidate's fitness is the sum (or, with competitive sharing, the shared sum) of its results against the opponents it met, and averages over repeated games are averages. "
 "Selection keeps exactly the best of the population (elitism keeps them unchanged, parents can be averaged with their children), populations keep their size, hall-of-fame and shared-sampling opponents come from the declared sets, and learning stops at the stated number of evaluations or generations.",
 ["histories", "configurations"], "every outcome matrix (also intransitive ones), population size, selection proportion, sampling and averaging setting",
 "No test runs the coevolutionary algorithms.",
 ["pybrain/optimization/populationbased/coevolution/coevolution.py", "pybrain/optimization/populationbased/coevolution/competitivecoevolution.py", "pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py"],
 [("bookkeeping", "Coevolution._beats, _doTournament, _evaluatePopulation"), ("competitive", "CompetitiveCoevolution._competitiveSharedFitness, _initPopulation")])

prop("T04", "Evolino evolves the network it evaluates",
 "An Evolino network computes the LSTM recurrence with its last output, scaled, fed back: washing out feeds the true values, generating its own, extrapolating is resetting, washing out and generating; sequences may be processed in parts and are not modified. "
 "Its genome holds every recurrent weight exactly once, one chromosome per cell; setting and reading genomes and output weights are exact inverses and nothing else changes them. "
 "Each epoch evaluates every combination on the declared washout/training split, with the least-squares output weights for its own genome, and scores the outputs of the network configured that way; the network is left with the genome and weights of the best individual; "
 "selection and reproduction follow in that order, keeping sub-population sizes, and burst mutation happens exactly after the set number of epochs without improvement.",
 ["inputs", "histories"], "every genome, output matrix, sequence, feedback factor, split, population size and history of fitness values",
 "One doctest trains one network for one epoch.",
 ["pybrain/structure/modules/evolinonetwork.py", "pybrain/supervised/trainers/evolino.py", "pybrain/supervised/evolino/filter.py", "pybrain/supervised/evolino/individual.py", "pybrain/supervised/evolino/population.py"],
 [("network", "EvolinoNetwork.washout, generate, extrapolate, setGenome, getGenome"), ("evaluation", "EvolinoEvaluation.apply"), ("epochs", "EvolinoTrainer.train")])

prop("R01", "Agent-environment interaction keeps its protocol and its history",
 "Each experiment interaction performs exactly observe, act, execute, reward in that order with scaling/clipping to the declared limits, advances the step counter once, and a logging agent's history records exactly the observation, action and reward of that interaction, in order; acting before observing or rewarding before acting is refused. "
 "An episodic experiment starts every episode with a reset and one new history sequence, ends it exactly when the task says finished and returns that episode's rewards; the (discounted) cumulative reward equals the sum of the discounted step rewards; a queued experiment runs with its stated queue length; learning agents learn from the stated number of episodes.",
 ["histories", "configurations"], "every interaction history, episode length, number of episodes, limits, discount and agent/experiment class",
 "Protocol errors such as a missing reset, off-by-one reward or a lost final step appear only over several episodes.",
 ["pybrain/rl/experiments/experiment.py", "pybrain/rl/experiments/episodic.py", "pybrain/rl/experiments/continuous.py", "pybrain/rl/experiments/queued.py", "pybrain/rl/agents/logging.py", "pybrain/rl/agents/learning.py", "pybrain/rl/environments/task.py", "pybrain/rl/environments/episodic.py"],
 [("interaction", "Experiment._oneInteraction"), ("history", "LoggingAgent"), ("cumulative reward", "EpisodicTask.addReward")],
 state="agent history dataset, step counter, cumulative reward")

prop("R02", "Value-based learners apply exactly their update equations",
 "For any history of episodes, Q-learning, SARSA and Q(lambda) change the action-value table exactly by their defining equations, transition by transition, in order, never across an episode boundary, on only the visited (traced) entries, with the configured alpha, gamma and lambda. "
 "Greedy actions always have maximal value among the available ones, and exploration returns only legal actions: exactly greedy when exploration is off.",
 ["histories", "inputs"], "every table size, episode set, reward sequence and learning-rate/discount setting (dyadic values give exact arithmetic)",
 "No test pins the value table after learning; a wrong next-state or episode leak still learns on the maze example.",
 ["pybrain/rl/learners/valuebased/q.py", "pybrain/rl/learners/valuebased/sarsa.py", "pybrain/rl/learners/valuebased/qlambda.py", "pybrain/rl/learners/valuebased/interface.py", "pybrain/rl/explorers/discrete/egreedy.py"],
 [("updates", "Q.learn, SARSA.learn, QLambda.learn"), ("greedy", "ActionValueInterface.getMaxAction")])

prop("R03", "Model-based evaluation and policy iteration solve the given decision process",
 "For every finite decision process the policy evaluation satisfies the Bellman equation of the collapsed chain, Q-values are the one-step look-ahead of those values, greedy policies put equal probability exactly on the maximising actions, every policy row sums to one, and policy iteration returns a policy that is greedy with respect to its own value, hence optimal.",
 ["inputs"], "every finite transition model, reward vector, discount below one and initial policy",
 "No tests exist for the model-based learners.",
 ["pybrain/rl/learners/modelbased/policyiteration.py"],
 [("policy iteration", "trueValues, trueQValues, collapsedTransitions, greedyPolicy, policyIteration")])

prop("R04", "Policy-gradient learners follow the log likelihood of what was done",
 "For every explored action a policy-gradient learner records exactly one row: the gradient, with respect to all parameters of policy and explorer, of the log likelihood of that action alone (scaled by the variance of each action component), in the order of the recorded history; a reset forgets the rows together with the history. "
 "REINFORCE ascends the mean over episodes of the summed gradients times the return minus the variance-minimising baseline, so that a constant added to all returns changes nothing; ENAC follows the least-squares regression of returns on summed gradients with an intercept; each step is applied to the current parameters with learning rate and momentum, and gradients larger than 1000 in absolute value are scaled down to it. "
 "Gaussian explorers perturb the policy's action with the stated deviation, state-dependent ones with a matrix that is constant in an episode and new in the next; without learning the policy acts unperturbed. "
 "Reward-weighted regression weights every step of an episode by its exponentially transformed return relative to the best one, keeps the discounted returns, adapts its temperature from them and reports the true averages.",
 ["histories", "inputs"], "every policy, explorer, interaction history, reward sequence and order of episodes, learning steps, parameter changes and resets",
 "No unit test exercises these learners; a wrong gradient still learns something on easy tasks.",
 ["pybrain/rl/learners/directsearch/policygradient.py", "pybrain/rl/learners/directsearch/reinforce.py", "pybrain/rl/learners/directsearch/enac.py", "pybrain/rl/learners/directsearch/rwr.py", "pybrain/rl/explorers/continuous/normal.py", "pybrain/rl/explorers/continuous/sde.py"],
 [("gradient record", "PolicyGradientLearner.explore/learn/reset"), ("gradients", "Reinforce.calculateGradient, ENAC.calculateGradient"), ("regression weights", "RWR.learnOneBatch, updateTau")])

prop("R05", "Control tasks follow their equations, limits and rules",
 "One action moves each control environment by its stated equations of motion: the cart-pole variants (one Runge-Kutta step of 1/50 s for one or two poles, or the linear transition), the mountain car, the acrobot (four sub-steps of 1/20 s), the steered ship, and the simple environment; speeds, positions and angles stay within the stated bounds (clipped, stopped or wrapped), and resets start from the stated states or ranges. Asking for sensors, observations, rewards or totals changes nothing. "
 "Every balance task scales and clips actions and observations as declared, hides what it declares hidden, gives exactly the reward its rule states for the angles and position after the action, and is finished exactly when a pole has fallen, the cart has left its range, or the time is up. "
 "Mountain car and acrobot pay on reaching the goal, then stand still, and end after two further actions or at the step limit; XOR tasks show the two bits of their counter and pay for the right answer; the total reward of a task is the (discounted) sum of its rewards since the last reset, and is the fitness of a controller, averaged over the batch.",
 ["inputs", "histories", "configurations"], "every state, action sequence, disturbance, time limit, discount and task variant",
 "The tests do not touch these environments.",
 ["pybrain/rl/environments/cartpole/cartpole.py", "pybrain/rl/environments/cartpole/doublepole.py", "pybrain/rl/environments/cartpole/nonmarkovpole.py", "pybrain/rl/environments/cartpole/nonmarkovdoublepole.py", "pybrain/rl/environments/cartpole/balancetask.py", "pybrain/rl/environments/classic/mountaincar.py", "pybrain/rl/environments/classic/acrobot.py", "pybrain/rl/environments/classic/xor.py", "pybrain/rl/environments/shipsteer/shipsteer.py", "pybrain/rl/environments/shipsteer/northwardtask.py", "pybrain/rl/environments/simple/environment.py", "pybrain/rl/environments/simple/tasks.py"],
 [("dynamics", "CartPoleEnvironment._derivs, MountainCar.DoAction, AcrobotTask.DoAction, ShipSteeringEnvironment.step"), ("rules", "BalanceTask.getReward, isFinished; XORTask.performAction; MinimizeTask")])

prop("G01", "The capture game enforces its rules on every reachable board",
 "On every board size and after every legal move history, group membership, group sizes and liberty counts are those of the rules of Go, a move is accepted only on an empty point of the board (and not suicidal when suicide is disabled), an accepted move changes only that point, and the game ends exactly when a stone is captured (mover wins), a suicide or a resignation occurs (mover loses). "
 "The lists of legal, acceptable (non-suicidal) and killing moves and the board sensors/array equal what the rules give for the current board.",
 ["histories", "configurations"], "every sequence of moves (legal or not) on every board size, with and without suicide",
 "Doctests play single random games; the incremental liberty bookkeeping can only be wrong after particular merges.",
 ["pybrain/rl/environments/twoplayergames/capturegame.py", "pybrain/rl/environments/twoplayergames/twoplayergame.py"],
 [("incremental groups", "CaptureGame._setStone"), ("rules", "CaptureGame.doMove, _suicide, _capture")],
 state="board, groups, liberties, winner")

prop("G02", "Gomoku and Pente enforce their rules on every reachable board",
 "After every move history the game is won exactly when the last stone completed five or more in a row in any of the four directions (in Pente also when five pairs were captured), captures remove exactly the enclosed pairs, the game is a draw exactly when no move is left, and moves are accepted only on empty points of the board. "
 "Legal-move and killing-move lists, sensors and board arrays equal what the rules give for the current board.",
 ["histories", "configurations"], "every sequence of moves (legal or not) on every board size",
 "Doctests play one game; borders, overlong rows and multiple simultaneous captures need specific positions.",
 ["pybrain/rl/environments/twoplayergames/gomoku.py", "pybrain/rl/environments/twoplayergames/pente.py"],
 [("five in a row", "GomokuGame._fiveRow"), ("captures", "PenteGame.doMove/_killsWith")])

prop("G03", "Game tasks, players and tournaments score games fairly",
 "In a tournament every ordered pair meets once per round, players alternate moves beginning with the first of the pair who has the starting colour, and the recorded outcome is the actual winner or a draw; Elo updates conserve the total score. "
 "Game tasks give zero reward until the game ends and then the signed reward of the actual result from the learner's side including the move-count coefficient, whoever started; provided players return only legal moves for their own colour and take an immediately winning move when they promise to.",
 ["histories", "configurations"], "every agent pool, game outcome history, starting side and reward coefficient",
 "Depends on outcome sequences and colours; doctests play single games without checking scores.",
 ["pybrain/rl/experiments/tournament.py", "pybrain/rl/environments/twoplayergames/tasks/capturetask.py", "pybrain/rl/environments/twoplayergames/tasks/gomokutask.py", "pybrain/rl/environments/twoplayergames/gomokuplayers/killing.py", "pybrain/rl/environments/twoplayergames/capturegameplayers/killing.py"],
 [("tournament", "Tournament.organize/_oneGame/eloScore"), ("task reward", "CaptureGameTask.getReward")])

prop("G04", "Mazes and grid POMDPs move, observe and reward by their map",
 "In a maze without stochasticity each action moves one cell in its direction if that cell is free and otherwise leaves the position unchanged and registers a bump; observations are exactly the walls around the current cell (rotated with the heading in the polar maze, where turning actions change only the heading); start positions are drawn from the allowed ones. "
 "Maze tasks reward the goal, bumps and ordinary steps with the declared values, finish exactly at the goal or after the maximal number of steps, and fully observable tasks give distinct cells distinct observations.",
 ["histories", "configurations"], "every maze map, start, action sequence and task variant",
 "No tests run the mazes except through a learning example.",
 ["pybrain/rl/environments/mazes/maze.py", "pybrain/rl/environments/mazes/polarmaze.py", "pybrain/rl/environments/mazes/tasks/maze.py", "pybrain/rl/environments/mazes/tasks/mdp.py", "pybrain/rl/environments/mazes/tasks/tmaze.py"],
 [("movement", "Maze.performAction, PolarMaze.performAction"), ("observation", "Maze.getSensors")])

prop("U01", "Combinatorial and array utilities meet their definitions",
 "Flood fill and graph reachability return exactly the nodes connected to the seeds (reachability with minimal distances on paths that do not pass through another destination; flood fill stops when the relevant ones are found); memoised functions call the function once for distinct arguments and always return what it returned for them. "
 "Gray codes, binary numbers, one-to-n codes, permutations, block decompositions and triangular packing are exact and agree with their inverses; block matrices consist of their blocks; combinations, cross products, dictionary combinations and selections contain every element exactly once. "
 "Argmax helpers return exactly the true maxima, random ones each of them; index drawing returns only indices of non-zero probability, with the given (or softmax) probabilities; scaling, error percentages and average first encounters equal their definitions; the Fisher information blocks of a Gaussian and their inverses belong to its covariance. "
 "None of these functions modifies its arguments.",
 ["inputs", "histories"], "every graph, set, matrix shape, block size, permutation, vector, weight list and call history",
 "Doctests show one example per function.",
 ["pybrain/utilities.py", "pybrain/tools/fisher.py", "pybrain/tools/functions.py"],
 [("utilities", "flood, reachable, memoize, permute, permuteToBlocks, one_to_n, n_to_one, all_argmax, r_argmax, flat2triu, triu2flat, drawIndex, drawGibbs, avgFoundAfter, dictCombinations"), ("Fisher information", "calcFisherInformation, calcInvFisher")])

prop("U02", "Ranking and search helpers order candidates by their true fitness",
 "Ranking functions return one weight per candidate, in the candidates' order, that never ranks a worse candidate above a better one, with the defined values for top-fraction and linear variants; grid search evaluates every grid point exactly once and returns one with the best performance. "
 "Evolino populations return exactly the n best/worst individuals, removal removes exactly those, reproduction and mutation keep parents intact, and hash-based nearest neighbours come only from inserted items, nearest first.",
 ["inputs", "histories"], "every fitness vector, fraction, grid, population history and set of inserted items",
 "Ties, sizes and parameter corner cases are not sampled by tests.",
 ["pybrain/tools/rankingfunctions.py", "pybrain/tools/gridsearch.py", "pybrain/supervised/evolino/population.py", "pybrain/supervised/evolino/gpopulation.py", "pybrain/supervised/knn/lsh/minhash.py", "pybrain/supervised/knn/lsh/nearoptimal.py"],
 [("ranking", "RankingFunction subclasses"), ("grid", "GridSearch2D.search"), ("population", "SimplePopulation, EvolinoPopulation")])

prop("O05", "Benchmark functions and their transformations mean what they declare",
 "Every benchmark function returns the value of its definition, repeatably, whatever other functions exist or have been evaluated, for arrays and parameter containers alike, and leaves its argument unchanged; it refuses dimensions outside its range. "
 "Its declared optimum, through any stack of translations, rotations, soft constraints and opposites, is where its value is zero, and no value is better; direction and desired value follow the transformations; soft constraints add exactly the penalty outside the domain, in the direction of worse. "
 "As an environment it observes exactly once the value of the last action. The BBOB functions have the value zero at their declared optimum within the domain and are nowhere negative. "
 "Multi-objective functions, and their opposites, return the defined objectives and report the feasibility and constraint violations of the point last evaluated; constrained multi-objective search records them truthfully and returns feasible solutions when it found any.",
 ["inputs", "histories"], "every function, dimension, point, stack of transformations and history of evaluations of several live functions",
 "Tests evaluate a handful of functions only as targets of an optimizer.",
 ["pybrain/rl/environments/functions/function.py", "pybrain/rl/environments/functions/transformations.py", "pybrain/rl/environments/functions/unimodal.py", "pybrain/rl/environments/functions/multimodal.py", "pybrain/rl/environments/functions/unbounded.py", "pybrain/rl/environments/functions/multiobjective.py", "pybrain/rl/environments/functions/bbob2010.py", "pybrain/rl/environments/functions/lennardjones.py"],
 [("functions", "FunctionEnvironment.__call__, performAction, getSensors"), ("transformations", "TranslateFunction, RotateFunction, SoftConstrainedFunction, oppositeFunction, BBOBTransformationFunction"), ("multi-objective", "ConstDeb, ConstSrn, ConstOsy, ConstTnk, ConstBnh")])

prop("T05", "Density trainers follow the likelihood of their data",
 "A restricted Boltzmann machine built from dimensions or from modules computes its hidden probabilities from its weights and biases, and its inverse computes visible probabilities from the transposed weights. "
 "Training performs contrastive divergence: every iteration changes each weight and bias by the momentum times the previous change plus the rate times the mean over the batch of data statistics minus reconstruction statistics (minus the weight cost for weights), with hidden states drawn from their probabilities, every row of the dataset in exactly one batch. "
 "Training a deep belief network trains each layer in turn on what the trained layers below make of the dataset, leaves the learned weights in the network, and leaves the network the owner of its parameters. "
 "Mixture density trainers report the mean negative log-likelihood of the targets and move the parameters against its true gradient.",
 ["inputs", "histories"], "every layer size, weight vector, dataset, batch, configuration and outcome of the random draws",
 "No test covers these trainers; the results depend on random draws and on the gradient of a likelihood.",
 ["pybrain/structure/networks/rbm.py", "pybrain/unsupervised/trainers/rbm.py", "pybrain/unsupervised/trainers/deepbelief.py", "pybrain/supervised/trainers/mixturedensity.py", "pybrain/structure/modules/mixturedensity.py"],
 [("machines", "Rbm.fromDims, fromModules, invert, activate"), ("contrastive divergence", "RbmGibbsTrainer.trainOnDataset"), ("deep belief networks", "DeepBeliefTrainer.train, iterRbms"), ("mixture densities", "BackpropTrainerMix, RPropMinusTrainerMix")])

prop("T06", "Training tools keep the best network and read and shape data faithfully",
 "The regression and classification tools train block by block until the epoch limit or, with a convergence criterion and a test set, until the test error has not improved for that many blocks; the curves hold the epochs and the true training and test errors of every block, and are saved completely; with a validation set the network ends with the weights of the best test error. "
 "Set-up networks have the dimensions of the data and one output per class. Time windows are exactly the consecutive complete windows of every sequence, with the last target of each; normalization maps data sets and single patterns to the declared bounds (or zero mean and unit deviation) of the data it was calculated on, also after saving and loading. "
 "Pickled dictionaries return what was written and appended, and the SVM, raw and MNIST readers return exactly the samples, labels and counts of the file last read.",
 ["inputs", "histories"], "every history of errors, limits and criteria, every sequence set, window size, data set, bounds and file content",
 "No test covers these tools.",
 ["pybrain/tools/neuralnets.py", "pybrain/tools/datasettools.py", "pybrain/tools/filehandling.py", "pybrain/tools/svmdata.py", "pybrain/tools/datasets/mnist.py"],
 [("training tools", "NNregression, NNclassifier: runTraining, setupNN, saveTrainingCurve"), ("data", "convertSequenceToTimeWindows, DataSetNormalizer"), ("files", "addToDictFile, pickleReadDict, SVMData, makeMnistDataSets")])

prop("U03", "Analysis and sampling tools return what their definitions promise",
 "Principal components of any data set are orthonormal eigenvectors of its covariance along which it varies most, the reduced data are the centred data in these coordinates, and the iterative variant spans the same space when that is well determined. k-means++ seeds are data points chosen greedily and the clusters have the means of their members. "
 "A Gaussian process predicts exactly the posterior mean and covariance of its kernel, noise and current training data, on its grid or on any array, after any history of additions and resets; its draws have that distribution. "
 "Importance mixing keeps and draws exactly the samples its acceptance rules admit and always returns a full batch; buffet matrices follow the stick-breaking construction and are ordered without losing a column; adaptive resampling returns medians, and raises or lowers the number of evaluations with the rank changes it sees; mixtures of Gaussians stay distributions and learn by their rule. "
 "Universal search runs programs in order of their complexity with the first success as the result; keyword arguments become attributes, defaults or errors as declared; notebooks of experiments report their own means and deviations and read back what they saved.",
 ["inputs", "histories"], "every data set, dimension, training history, density, draw, noise history, program list and keyword set",
 "Only two principal components examples and one ordering are tested.",
 ["pybrain/auxiliary/pca.py", "pybrain/auxiliary/kmeans.py", "pybrain/auxiliary/gaussprocess.py", "pybrain/auxiliary/importancemixing.py", "pybrain/tools/ibp.py", "pybrain/tools/aptativeresampling.py", "pybrain/tools/mixtures/mixtureofgaussian.py", "pybrain/tools/mixtures/mogpuremax.py", "pybrain/tools/kwargsprocessor.py", "pybrain/tools/example_tools.py", "pybrain/rl/learners/meta/levinsearch.py"],
 [("data", "pca, reduceDim, pPca, kinit, kmeanspp"), ("processes", "GaussianProcess"), ("samples", "importanceMixing, leftordered, generateIBP, AdaptiveResampler, MixtureOfGaussians"), ("search and bookkeeping", "LevinSeach, KWArgsProcessor, ExTools")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
