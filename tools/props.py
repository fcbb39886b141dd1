# ---------------------------------------------------------------------------
# Task graphs
GR = 'TLA+ task graph state machine (TLC exhaustive) + trace validation of the real graphs by TLC'

OB = 'TLA+ model of objects as their contents, with equality, hash and validity (TLC exhaustive) + trace validation of the real objects by TLC'
prop('G01', 'Task graphs accept exactly what was demonstrated',
     'A task graph accepts an execution (alternating states and actions) if and only if it is valid '
     '(it starts and ends with a state and each action\'s pre- and post-conditions hold), starts in an initial state, '
     'ends in a terminal state and only uses transitions that were added; validity is decided for executions of any length. '
     'Adding a valid execution adds its transitions, its first state as initial and its last as terminal, and nothing else; '
     'an invalid one raises ValueError and leaves the graph unchanged; adding then removing transitions, and comparing graphs, '
     'follow the sets of transitions, initial and terminal states.',
     ['inputs', 'histories'], 'all sequences of graph modifications and queries, all paths (valid or malformed, of any length)',
     'Tests add a couple of fixed paths; they never interleave removals and queries, splice paths or check rejected additions.',
     [T, 'task_models/action.py', 'task_models/state.py'],
     [('path validation', 'task.py: check_path, split_path'), ('graph updates', 'task.py: TaskGraph.add_path, BaseGraph')],
     GR)
prop('G02', 'The conjugate graph is the exact dual of a deterministic task graph',
     'Conjugating a task graph gives exactly the arcs: from the initial node to each action available in an initial state (labelled by it), '
     'from an action to each action available in the (non-terminal) state it leads to, and from an action to the terminal node when it leads to a terminal state. '
     'A graph in which a state has two outcomes for one action is rejected with ValueError, a deterministic one never is, and conjugation leaves the task graph unchanged.',
     ['inputs', 'histories'], 'all finite task graphs built by any history of additions and removals',
     'Tests conjugate two small graphs; sinks, loops, several starts, shared states and removals are not reached.',
     [T], [('conjugation', 'task.py: ConjugateTaskGraph.from_task_graph'),
           ('determinism check', 'task.py: check_only_deterministic_transitions')], GR)
prop('G03', 'Maximum chains of a conjugate graph are found exactly once',
     'The chains enumerated from a conjugate graph are exactly the maximal sequences, of at least two nodes and reachable from the initial node, '
     'in which each node has a single successor and each next node a single predecessor; each one is enumerated once. '
     'The enumeration always terminates, cycles included, and does not change the graph.',
     ['inputs'], 'all labelled directed graphs (loops, cycles, unreachable parts, several labels per arc)',
     'Tests have three example graphs, whose exploration order is one of many; non-termination and repetition appear only on some graphs.',
     [T], [('search of chains', 'task.py: ConjugateTaskGraph.get_max_chains')], GR)
prop('G04', 'Maximum cliques of a graph are found exactly once',
     'The cliques enumerated from a conjugate graph are exactly the maximal sets of at least two nodes that are pairwise linked in both directions; '
     'each is enumerated once, self-loops and repeated labels notwithstanding. The same holds for the general search on symmetric graphs.',
     ['inputs'], 'all directed graphs / all symmetric graphs',
     'Tests have a few fixed graphs; a wrong pivot or a wrong exclusion set only loses or repeats cliques on some graphs.',
     [T], [('Bron-Kerbosch', 'task.py: max_cliques, _bron_kerbosch'), ('symmetrisation', 'task.py: get_max_cliques')], GR)
prop('G05', 'Compacting nodes replaces exactly these nodes by the new one',
     'Compacting a set of nodes removes the arcs inside the set, replaces the nodes of the set by the new node on arcs crossing it (label dropped), and leaves all other arcs untouched. '
     'If the initial (terminal) node is compacted then the new node becomes the initial (terminal) node of this graph only, so that later searches and compactions work on the compacted graph.',
     ['inputs', 'histories'], 'all graphs, subsets of nodes and successions of compactions',
     'Tests compact one chain and one clique; sequences of compactions and compaction of end points are not explored.',
     [T], [('compaction', 'task.py: BaseGraph.compact, ConjugateTaskGraph.compact')], GR)
prop('G06', 'Equality and hash of states, conditions and actions are coherent',
     'Equality of states, conditions, actions, meta-actions, circuit parts and states, and array beliefs is an equivalence that holds exactly when contents are the same '
     '(whatever the numeric type, the order of parts or the construction), and comparing with an object of another kind answers false instead of failing. '
     'Equal objects have equal hashes, so that sets and dictionaries of them hold exactly one entry per content.',
     ['inputs', 'histories'], 'all pairs/triples of objects, all sequences of insertions and removals in sets and dictionaries',
     'Tests compare a few hand-written pairs.',
     [T, 'task_models/action.py', 'task_models/state.py', 'task_models/snap_circuit.py', 'task_models/lib/belief.py'],
     [('equality and hash', 'action.py, state.py, snap_circuit.py, task.py: MetaAction, belief.py: ArrayBelief')], OB)
prop('G07', 'Actions are valid exactly when pre- and post-conditions hold',
     'A pre/post-condition action is valid for a pair of states exactly when the features selected by each mask have the expected values before and after; a condition that expects a value it masks is refused. '
     'Placing a circuit part is valid exactly when it was not at this location and orientation before and is there after, whatever the other parts, '
     'and the features of a circuit state mark exactly its parts at their locations.',
     ['inputs'], 'all masks, values and feature vectors; all boards, sets of parts, locations and orientations',
     'Tests check a handful of masks and one board.',
     ['task_models/action.py', 'task_models/snap_circuit.py'],
     [('conditions', 'action.py: Condition.check, PrePostConditionAction.check'), ('circuit features', 'snap_circuit.py')], OB)
prop('G08', 'The exported dictionary of a graph is faithful',
     'The dictionary exported from a graph has the given name, one node with a unique identifier per node of the graph, and one link per transition, whose identifiers and label are those of the transition.',
     ['inputs'], 'all graphs, conjugate graphs and compacted graphs',
     'Tests check one graph.', [T], [('export', 'task.py: BaseGraph.as_dictionary, all_nodes')], GR)

# ---------------------------------------------------------------------------
# Hierarchical tasks
TR = 'TLA+ model of task trees (TLC exhaustive) + trace validation of the real trees by TLC'
prop('H01', 'Expanding a parallel combination gives each order once',
     'A parallel combination expands into an alternative of sequences with exactly one sequence for each order of its children, keeping name and highlighting of the combination. '
     'Each sequence holds its own copies of the children, which keep structure, kinds of actions and their attributes (durations, objects, agent, conditions, probabilities), highlighting and alternative probabilities, and are renamed with the index of the order so that leaf names are unique when they were; '
     'the original tree is left unchanged.',
     ['inputs'], 'all task trees with any nesting of parallel, alternative and sequential combinations and any leaf actions',
     'Tests expand two parallel leaves.', [T, 'task_models/action.py'],
     [('expansion', 'task.py: ParallelCombination.to_alternative, deep_copy')], TR)
prop('H02', 'Alternative probabilities are validated and kept',
     'The probabilities of an alternative default to uniform, and are otherwise those that were given, at construction or later, through copies and expansions. '
     'Probabilities with a value below 0 or above 1 or that do not sum to 1 raise ValueError and leave those in place unchanged.',
     ['inputs', 'histories'], 'all probability vectors and sequences of settings and copies',
     'Tests set a few vectors.', [T], [('probabilities', 'task.py: AlternativeCombination.proba')], TR)
prop('H03', 'Task trees survive export and loading, and lookups are exact',
     'Exporting a task tree gives each node a unique identifier in prefix order, its parent\'s identifier, its kind, name and highlighting; '
     'loading such a tree restores names, kinds, identifiers, parents, highlighting, agents and order of children, so that export of the loaded tree is the same tree (agents aside, which are not exported). '
     'Lookups by identifier (parent), by name and of the next human action return the first matching node in tree order, or nothing when there is none.',
     ['inputs'], 'all task trees (any nesting, agents, highlighting), all identifiers and names',
     'Tests export one tree; loading and lookups are not tested at all.',
     [T, 'task_models/json_to_htm.py'],
     [('export', 'task.py: as_dictionary'), ('loading', 'json_to_htm.py'), ('lookups', 'task.py: HierarchicalTask')], TR)
prop('H04', 'Meta-actions convert to the combination they stand for',
     'Converting a meta-action gives a combination of its kind (sequence, parallel or alternative) over its actions in order, nested meta-actions being converted recursively and plain actions becoming leaves holding that very action; its name joins the names of its actions with the symbol of its kind.',
     ['inputs'], 'all nestings of meta-actions',
     'No test converts a meta-action.', [T], [('conversion', 'task.py: MetaAction.to_combination')], TR)
prop('H05', 'Hierarchies are recovered from their executions',
     'Take a hierarchy of sequences and parallel combinations over distinct actions in which no parallel combination is directly inside another one, and each parallel combination either has two children or has children without parallel combinations. '
     'From the task graph of all its executions, compacting in its conjugate graph any chain into a sequence meta-action and, when there is no chain, any clique into a parallel meta-action always comes to an end with a single node, and the combination this node converts to has exactly the demonstrated executions (between the initial and terminal actions). '
     'For any other task the same procedure only ever compacts chains and cliques of the current graph and stops when there are none.',
     ['inputs', 'histories'], 'all such hierarchies; all choices of chains and cliques; meta-actions given lists or sets',
     'No test goes from demonstrations to a hierarchy; the only such program is a sample on one example, with one order of choices.',
     [T], [('extraction', 'task.py: TaskGraph.conjugate, ConjugateTaskGraph.get_max_chains, get_max_cliques, compact, MetaAction')],
     'TLA+ state machine of the extraction of hierarchies (TLC exhaustive over small tasks and all choices) + trace validation by TLC of recorded extractions')

# ---------------------------------------------------------------------------
# Conversion of tasks to POMDPs
TM = 'TLA+ specification of the decision model of a task (TLC exhaustive over small tasks and all options) + comparison by TLC of each distribution, observation and cost of real models'
prop('T01', 'Transitions of converted tasks follow the task structure',
     'In the model made from a task (alternatives having default probabilities), states are the init/human/robot states of each leaf then the end states, and every row of the transition matrix is the specified distribution: '
     'asking or telling an intention moves init states, the human state leaves at the rate of the action\'s duration, the physical action succeeds from the robot state except for its failure probability, and success leads to the initial states of the next leaves in the task (those after it in sequences, the common continuation after alternatives), weighted by their start probabilities. '
     'With options (deterministic, loop, reward state) the end states follow: absorbing, looping back to the start distribution, or through the reward state.',
     ['inputs', 'configurations'], 'all task trees with default alternative probabilities, all durations and probabilities, all options of the converter',
     'Tests check a few fixed trees; nestings of alternatives and sequences, and combinations of options, are not.',
     ['task_models/task_to_pomdp.py', T],
     [('transitions', 'task_to_pomdp.py: update_T of leaf, sequence, alternatives; update_T_end')], TM)
prop('T02', 'Observations of converted tasks follow the task structure',
     'In the model made from a task, each action gives the specified observation for every arrival state: physical actions give an error except when arriving in the continuation of their leaf, asking intentions answers yes/no in the human/robot state of the leaf, asking whether finished answers yes exactly in the states that come after the leaf in executions going through both, waiting observes nothing, and reward or loop ends are observed as done. '
     'Structured and deterministic options change exactly the documented observations.',
     ['inputs', 'configurations'], 'all task trees with default alternative probabilities and all options of the converter',
     'Tests check a few fixed trees without nested alternatives.',
     ['task_models/task_to_pomdp.py'], [('observations', 'task_to_pomdp.py: update_O')], TM)
prop('T03', 'Costs of converted tasks follow durations and rewards',
     'In the model made from a task, each action costs its duration (error time of its physical action when not in the robot state, robot time in it, communication times) plus the intrinsic cost for all but waiting, minus the subtask reward exactly when the leaf is left (the penalty of ill-timed communications in structured models aside); '
     'end states give the end reward when waiting and cost the intrinsic cost otherwise, through the reward state when there is one.',
     ['inputs', 'configurations'], 'all task trees, durations, costs and options',
     'Tests check a few entries of one tree.',
     ['task_models/task_to_pomdp.py'], [('costs', 'task_to_pomdp.py: update_R, update_R_end')], TM)
prop('T04', 'The hold-and-release model is valid and follows its parameters',
     'The hold-and-release model is a valid model for every finishing probability and costs: the human finishes with the given probability at each step, physical actions fail and cost when the human is not done, terminate the task when done, and communication observes the progress of the human.',
     ['inputs'], 'all costs and finishing probabilities', 'Not tested.',
     ['task_models/hold_and_release.py'], [('model', 'hold_and_release.py')], TM)
prop('B01', 'Transitions of bring-next models follow the task structure',
     'In the bring-next model of a task, the only way out of the state before a leaf is getting the object of this leaf, which leads to the states before its possible next leaves with their start probabilities; every other action keeps the state. The end is absorbing, or goes back to the start distribution when looping, and the start distribution is that of the first leaves of the task.',
     ['inputs', 'configurations'], 'all task trees with default alternative probabilities, objects shared by leaves or not, all options',
     'Tests check three small trees.', ['task_models/bring_next_to_pomdp.py', T],
     [('transitions', 'bring_next_to_pomdp.py: update_T')], TM)
prop('B02', 'Observations of bring-next models follow the task structure',
     'In the bring-next model of a task, asking for an object answers yes exactly in the states before a leaf using this object and no elsewhere (or nothing with probability 0.1 with the no-answer option), and getting an object gives an error except when arriving after one of its leaves, where the error probability is 0.1.',
     ['inputs', 'configurations'], 'all task trees and options', 'Tests check three small trees.',
     ['task_models/bring_next_to_pomdp.py'], [('observations', 'bring_next_to_pomdp.py: update_O, init_O')], TM)
prop('B03', 'Costs of bring-next models follow their parameters',
     'In the bring-next model of a task, asking costs the communication cost, getting the object of the current leaf costs the getting cost and getting any other one the error cost; the end reward is given once when the end is reached, or at each action from the end when looping.',
     ['inputs', 'configurations'], 'all task trees, costs and options', 'Tests check three small trees.',
     ['task_models/bring_next_to_pomdp.py'], [('costs', 'bring_next_to_pomdp.py: update_R, init_R, update_R_end')], TM)
prop('B04', 'Tower tasks offer the intended orders',
     'The task of building towers of a given height and number offers, for each given order, one sequence bringing every part exactly once in that order; the vertical order finishes each tower before the next, and the horizontal order finishes each level before the next.',
     ['inputs'], 'all heights and numbers of towers', 'Not tested.',
     ['task_models/tower_problem.py'], [('orders', 'tower_problem.py')], TM)

# ---------------------------------------------------------------------------
# POMDP library
PO = 'TLA+ model of exact beliefs and model files (TLC exhaustive) + trace validation of the real models by TLC'
PG = 'TLA+ state machine of policy graphs and solver files (TLC exhaustive) + trace validation of the real policies by TLC'
prop('P01', 'Belief update is Bayes\' rule; impossible observations raise',
     'Updating a belief with an action and an observation gives the exact posterior distribution of the state after the action. When the observation has probability zero a dedicated error is raised, and the given belief and model are never modified. '
     'Sampled transitions and starts follow the distributions and rewards of the model, costs being negated rewards.',
     ['inputs', 'histories'], 'all models, beliefs and sequences of actions and observations',
     'Tests update two beliefs.', ['task_models/lib/pomdp.py'],
     [('belief update', 'pomdp.py: POMDP.belief_update'), ('sampling', 'pomdp.py: sample_transition, sample_start')], PO)
prop('P02', 'Invalid models are rejected, valid ones accepted',
     'Building a model succeeds exactly when shapes agree, start, transition and observation probabilities sum to one, names are unique, the discount is in [0, 1] and the kind of values is known; otherwise ValueError is raised. '
     'Names default to indices, and randomising a valid model keeps it valid with every outcome possible.',
     ['inputs'], 'all arrays, names and parameters, each with any single or combined defect',
     'Tests have one example per defect.', ['task_models/lib/pomdp.py', 'task_models/lib/utils.py'],
     [('validation', 'pomdp.py: POMDP.__init__, _assert_*')], PO)
prop('P03', 'Model files and JSON hold the same model',
     'The file written for the solver, read according to its format, gives back the discount, names, start, transition and observation probabilities and rewards of the model within the written precision, each written distribution being non-negative and keeping its sum. '
     'A model saved to and loaded from JSON is the same model.',
     ['inputs'], 'all models (names or counts, any probabilities and rewards)',
     'Tests compare one dump with one file.', ['task_models/lib/pomdp.py'],
     [('dump', 'pomdp.py: dump, _dump_*'), ('JSON', 'pomdp.py: to_dict, from_dict')], PO)
prop('P04', 'Policy graphs are followed exactly',
     'A policy graph starts in the given node, or the one whose values are best for the start belief; at each step it gives the action of its node, and an observation moves it along its transition. '
     'An observation without transition raises an error and leaves the runner in its node; resetting with a belief moves to the best node for it, and without one to the initial node. '
     'A belief-tracking runner always follows the exact belief and acts as the best node for it.',
     ['inputs', 'histories'], 'all policy graphs and sequences of steps and resets',
     'Tests do a few steps on two graphs.', ['task_models/lib/pomdp.py'],
     [('policy graph', 'pomdp.py: GraphPolicy, GraphPolicyRunner, GraphPolicyBeliefRunner')], PG)
prop('P05', 'Solver output is read exactly, or rejected',
     'Reading the value function and policy graph written by the solver gives exactly its actions, vectors and transitions (a dash being no transition), blank lines ignored; inconsistent files (actions that differ between both, unknown actions or nodes, missing vectors) are rejected. '
     'Running the solver hands it the dumped model and the given options and returns the policy it wrote, starting in the best node for the model\'s start; a policy saved to and loaded from JSON is the same.',
     ['inputs', 'fault_sequences'], 'all well-formed or defective solver outputs; all policies',
     'The solver is not available to most tests; parsing is tested on one example.',
     ['task_models/lib/pomdp.py'], [('parsing', 'pomdp.py: parse_value_function, parse_policy_graph, load_policy_from'), ('solve', 'pomdp.py: POMDP.solve')], PG)
prop('P06', 'Trajectory trees and belief graphs cover all possible observations',
     'The trajectory tree of a belief runner holds, at each node up to the horizon, the exact belief, the action and node of the policy for it, and one child per possible observation and no other; one tree is given for each possible starting state and the runner keeps its belief after building a tree. '
     'Visiting reachable beliefs gives a policy graph with one node per belief met (up to the tolerance), the action of the policy for each and its transition for each possible observation.',
     ['inputs'], 'all models, policies and horizons', 'Tests check the trees of one model.',
     ['task_models/lib/pomdp.py'], [('trees', 'pomdp.py: trajectory_tree, trajectory_trees_from_starts'), ('visit', 'pomdp.py: visit, _Aux')], PG)

# ---------------------------------------------------------------------------
# POMCP
ST = 'TLA+ state machine of Monte-Carlo tree search (TLC exhaustive) + replay of every recorded transition of the real planner through it by TLC'
PA = 'TLA+ model of particle beliefs and of their sampled successors (TLC exhaustive) + trace validation by TLC of recorded beliefs and sampled transitions'
prop('L01', 'Particle beliefs only hold possible states',
     'A particle belief has the requested number of particles, each of them a state that is possible after the actions and observations made so far; its probabilities are the frequencies of its particles and samples are drawn among them. '
     'When an observation is too rare to find enough particles, those that were found are duplicated, and if there are none a dedicated error is raised; the previous belief is never modified.',
     ['inputs', 'histories'], 'all models, particle counts and sequences of actions and observations, rare and impossible observations included',
     'Tests use one model and one observation.', ['task_models/lib/belief.py'],
     [('particles', 'belief.py: ParticleBelief, _SuccessorSampler')], PA)
prop('M01', 'Search tree statistics are those of the simulations run',
     'Each simulation adds exactly one visit to each node it goes through and to the node it creates when it goes on from it, and to no other node. It updates the value of each with the discounted sum of the rewards obtained from it on, averaged over rollouts below a new node, so that with plain averages a value is the mean of these returns; '
     'visits of an explored node equal the sum of those of its actions plus those made when it was created.',
     ['histories', 'inputs'], 'all models and sequences of simulations, rollout counts, discounts and horizons',
     'Tests check that counts are not null after some simulations.', ['task_models/lib/pomcp.py'],
     [('simulation', 'pomcp.py: _simulate_from_node, rollout_from_node'), ('averages', 'pomcp.py: _ValueAverage')], ST)
prop('M02', 'Unexplored actions come first, then the best bound is chosen',
     'During exploration an action that was never tried is chosen before any other, each such action being possible; when all were tried the action with the greatest value plus exploration bonus (constant times the square root of log of visits over visits of the action, scaled by the range of values if relative) is chosen. '
     'The action returned for execution is the one with the best value.',
     ['histories', 'inputs'], 'all statistics of the tree and exploration constants, absolute or relative',
     'Tests check the choice for two sets of values.', ['task_models/lib/pomcp.py'],
     [('choice', 'pomcp.py: get_best_action, augmented_values')], ST)
prop('M03', 'Simulations stop at the horizon',
     'A simulation, rollouts included, makes exactly as many transitions as the horizon allows from its start: a count of transitions, a count of changes of task step, stopping in the final state for horizons that say so. '
     'Horizons are fresh for each simulation, each rollout continues with its own copy of what remains, and a horizon that is not reached never stops a simulation.',
     ['inputs', 'histories'], 'all horizon kinds and lengths, models, rollout counts',
     'Tests check one length with one model.',
     ['task_models/lib/pomcp.py', 'task_models/supportive.py', 'task_models/evaluation.py'],
     [('horizons', 'pomcp.py: NTransitionsHorizon; supportive.py: NHTMHorizon; evaluation.py: FinishedOrNTransitionsHorizon')], ST)
prop('M04', 'A planner follows its history, and failed steps change nothing',
     'After any sequence of actions and observations the belief of the planner is the posterior of the model for this history, as given by successive belief updates from the start. A step that fails (no action chosen, unknown or impossible observation) raises an error and leaves belief, history and next decisions unchanged; reset returns to the start belief and keeps what was learnt.',
     ['histories', 'fault_sequences'], 'all sequences of decisions, steps (possible or not) and resets',
     'Tests make a couple of possible steps.', ['task_models/lib/pomcp.py'],
     [('runner', 'pomcp.py: POMCPPolicyRunner.step, _SearchTree.get_node')], ST)
prop('M05', 'Histories with the same belief share their statistics',
     'When values are grouped by belief, any two histories with the same belief lead to the same node, with the same statistics, and histories with different beliefs to different nodes; each simulation counts on the shared node every time it goes through it. Exported trees describe each shared node in full once. Particle beliefs are refused.',
     ['histories', 'inputs'], 'all models, histories and simulations', 'Tests check one model.',
     ['task_models/lib/pomcp.py'], [('shared nodes', 'pomcp.py: _ObservationLookupSearchTree')], ST)
prop('M06', 'Exported search trees describe the search tree',
     'The exported tree (values or policy) has the belief, value and visits of each node, children for exactly its explored actions or observations with their names in order, and in policy exports the best action, the values, bonuses and visits of all actions and only the children of the best action, each told which observation leads to it. '
     'Exporting to a file, belief quotient included, gives the same tree with the names and exploration parameters and changes no statistics.',
     ['histories'], 'all search trees reached by simulations and steps', 'Tests check the keys of small examples.',
     ['task_models/lib/pomcp.py'], [('export', 'pomcp.py: to_dict, export_pomcp, map')], ST)
AS = 'TLA+ model of two threads and a lock, with safety and liveness (TLC exhaustive) + trace validation by TLC of recorded interleavings against it and the search tree specification'
prop('A01', 'Background exploration never corrupts the tree or loses statistics',
     'Whatever the interleaving of background simulations with decisions, steps, resets and executed functions, simulations and these operations are never simultaneous, so that the statistics of the tree are those of a sequential run of the simulations made. Functions executed exclusively return their value, and errors are passed to the caller without stopping exploration.',
     ['schedules', 'histories'], 'all interleavings of the exploring thread with calls from the user\'s thread',
     'Tests run one uncontrolled schedule.', ['task_models/lib/pomcp.py'],
     [('lock', 'pomcp.py: AsyncPOMCPPolicyRunner._Thread')], AS)
prop('A02', 'Background exploration follows the current history and stops',
     'Background exploration always simulates from the node of the current history, with the chosen action until an observation is given, and after a step or reset from the new node. Stopping returns in bounded time, after which no simulation runs; stopping twice is harmless and deciding after having stopped works.',
     ['schedules', 'histories'], 'all interleavings and sequences of operations, stop included',
     'Tests start and stop once.', ['task_models/lib/pomcp.py'],
     [('thread', 'pomcp.py: AsyncPOMCPPolicyRunner')], AS)

# ---------------------------------------------------------------------------
# Supportive model
SU = 'TLA+ specification of the supportive model with exact rational distributions (TLC exhaustive) + trace validation by TLC of exact distributions enumerated from the code'
prop('S01', 'The step graph has exactly the executions of the task',
     'In the model of supportive behaviours, sequences of steps from an initial to a final step along the successor relation are exactly the executions of the task tree: all children of a sequence in order, one child of an alternative, all children of a parallel combination in some order. Initial steps are exactly those that can come first and every last step leads to cleaning.',
     ['inputs'], 'all task trees', 'Tests check four small trees.',
     ['task_models/supportive.py', T], [('graph of steps', 'supportive.py: _HTMToDAG')], SU)
prop('S02', 'State encoding is a bijection and quotients are marginals',
     'The integer states are in bijection with combinations of task step, preferences, body features and objects; setting a feature changes this feature only, and copies are independent and equal. Grouping a belief by task step or by preference gives the marginal probabilities (preferences being listed from the last to the first).',
     ['inputs', 'histories'], 'all numbers of steps, preferences, features and objects; all sequences of settings; all beliefs',
     'Tests check a few states of one shape.', ['task_models/supportive.py'],
     [('encoding', 'supportive.py: _SupportivePOMDPState')], SU)
prop('S03', 'Supportive transitions and observations follow the documented dynamics',
     'For every state and action the distribution of next state and observation is the specified one: independent object and preference changes, progress to a uniformly chosen successor on wait or suitable holding, failures of undesired holding, consumption and use of objects by the human, answers on the preference, bringing and clearing objects with their failures and not-found cases, cleaning by waiting and an absorbing final state. '
     'Without randomness the most likely outcome is obtained.',
     ['inputs', 'configurations'], 'all tasks, states, actions and parameter values; exact distributions',
     'Tests fix the random generator or force probabilities for a few states.',
     ['task_models/supportive.py'], [('dynamics', 'supportive.py: SupportivePOMDP.sample_transition')], SU)
prop('S04', 'Supportive rewards follow the documented costs',
     'For every transition the reward is the specified sum: subtask reward on progress, preference reward when holding as preferred, compensation when rewards are made independent of preferences, costs of holding, of intrinsic robot actions, of each object the human has to get or clean, and the final reward once when the task is cleaned up.',
     ['inputs', 'configurations'], 'all tasks, states, actions and parameters', 'Tests check a few cases.',
     ['task_models/supportive.py'], [('rewards', 'supportive.py: SupportivePOMDP.sample_transition')], SU)
prop('S05', 'Supportive models start, name and number states coherently',
     'Start states are initial steps drawn uniformly, with each preference drawn with its probability and objects absent except for spontaneous changes. Numbers and names of actions, observations, states, features and task steps agree with each other: one bring action per object, one clear action for each object that is used or partly consumed, and a state is final exactly in the last task step.',
     ['inputs', 'configurations'], 'all tasks and parameters; exact start distribution', 'Tests check one task.',
     ['task_models/supportive.py'], [('start and names', 'supportive.py: sample_start, actions, features')], SU)

# ---------------------------------------------------------------------------
# Evaluation
prop('E01', 'Evaluation records are faithful episodes with discounted return',
     'The record of an evaluation has the states, actions, observations and rewards of the transitions made with the model, in order, with one more state than actions; the policy was reset before and given each observation. It ends as soon as a final state or the maximum number of transitions is reached, its return is the sum of rewards discounted from the start (or plain without discount), and its number of simulator calls is the one made during the episode. The summary that is logged lists the same transitions. The trajectory that a planner makes by itself goes on until a final state, and its log lists its transitions in order, the belief on the first preference after each of them, and the total reward.',
     ['histories', 'inputs'], 'all models, policies, discounts and maximum lengths', 'Not tested.',
     ['task_models/evaluation.py', 'task_models/lib/pomcp.py'], [('episode', 'evaluation.py: simulate_one_evaluation, evaluate'), ('trajectory', 'pomcp.py: POMCPPolicyRunner.run_trajectory')], 'TLA+ model of episodes (TLC exhaustive) + trace validation by TLC of recorded evaluations, in process and in subprocesses')
prop('E02', 'Repeating in processes gives all results or fails',
     'Repeating a function n times in processes returns exactly the n results of n runs, each with its own random state, never running more processes at once than the number of processors. If any process fails, by an error or by being killed, even while it sends its result, an error is raised instead of returning or waiting for ever.',
     ['schedules', 'fault_sequences'], 'all numbers of repetitions, durations and failures of any subset of processes (errors, exits, signals)',
     'Tests run one success and one failure.', ['task_models/utils/multiprocess.py'],
     [('pool', 'utils/multiprocess.py: RepeatPool')], 'TLA+ model of the parent, processes, failures and pipes with liveness (TLC exhaustive) + trace validation by TLC of recorded runs with injected failures')
prop('E03', 'The hand-written long policy follows its protocol',
     'The hand-written policy brings all tools first, then for each subtask brings a leg then holds until it succeeds, then clears all tools and finally waits. Failures make it try again, an object that is already there or already cleared counts as success, other observations raise its unexpected-observation error, and reset starts over; every step is recorded in its history.',
     ['histories'], 'all sequences of observations and resets', 'Not tested.',
     ['task_models/policy.py'], [('protocol', 'policy.py: PolicyLongSupportiveSequence')], 'TLA+ model of the policy and of worlds with failures, with liveness (TLC exhaustive) + trace validation by TLC of recorded runs')
prop('E04', 'Experiments run their stages in order with their parameters',
     'An experiment uses the default parameters completed and replaced by the given ones (and by the debugging ones in debug mode), without changing the defaults. A run initializes, warms the policy up for the given number of iterations, makes the given number of evaluations, finishes, and then only writes its results, if it has a path; when a stage fails the run fails and writes nothing. The file holds the parameters and evaluations of the run, is read back by launchers as returns, times and calls, and configurations written by launchers or given on the command line give the same parameters. Planners of experiments have the given numbers of iterations, rollouts and particles, exploration and horizon. Elapsed times are those reported by the system.',
     ['inputs', 'faults', 'histories'], 'all parameters, stages that fail, and repeated runs', 'Not tested.',
     ['task_models/evaluation.py', 'task_models/utils/multiprocess.py'], [('stages', 'evaluation.py: SupportiveExperiment.run'), ('planner', 'evaluation.py: init_pomcp_policy'), ('launcher', 'evaluation.py: ExpLauncher'), ('elapsed', 'utils/multiprocess.py: get_process_elapsed_time')],
     'TLA+ model of the stages of an experiment, with failures (TLC exhaustive) + trace validation by TLC of recorded runs')


prop('E05', 'Jobs evaluate their policy on the model of their task and parameters',
     'Each script of an experiment on supportive behaviours builds the model of its task (its possible executions, with the help and objects each step needs) with the probabilities, rewards and costs that its parameters and defaults give, and makes the number of evaluations asked for (by default 100 for several tasks, 20 otherwise). Each evaluation starts in a start state of the model, goes through possible transitions with their observations and rewards, takes the actions that the policy of the job (always or never holding, holding one way or at random, or planning) may take after these observations, ends in a final state or at the limit of the job, and has the sum of rewards as return. Jobs with unknown tasks or policies fail and write nothing.',
     ['inputs', 'histories'], 'all parameters of the scripts, and all random evaluations', 'Scripts of experiments are not tested; a run goes through tasks, models, policies, planners, evaluations and processes together.',
     ['samples/supportive_evaluation_preference_job.py', 'samples/supportive_evaluation_multitask_job.py', 'samples/supportive_evaluation_pomcp_job.py', 'task_models/evaluation.py', 'task_models/policy.py', 'task_models/supportive.py'],
     [('jobs', 'samples/supportive_evaluation_*_job.py: Experiment'), ('evaluations', 'evaluation.py: SupportiveExperiment.run, simulate_one_evaluation'), ('policy', 'policy.py: PolicyLongSupportiveSequence'), ('model', 'supportive.py: SupportivePOMDP.sample_transition')],
     'TLA+ model of jobs: episodes of hand-written policies in models of supportive tasks (TLC exhaustive, with liveness) + trace validation by TLC of runs of the scripts')

prop('E06', 'Launchers prepare every compared experiment, and figures show its results',
     'Each launcher of experiments (preferences, tasks, parameters of the planner) prepares exactly one configuration for each combination of values it compares, under different names, for its own script of jobs, with parameters that this script knows. Its figures have, for each compared policy or parameter, one curve that shows at each value the mean of the results of this very configuration (with its standard deviation where asked for), or a box with their quartiles under its label; legends give to each curve its colour, and the averages printed are those of the results. In general, curves show means and deviations of the given samples at the given (or successive) places, boxes their quartiles, matrices and beliefs each value in its cell with labels at the centres of rows and columns (beliefs refuse labels that do not fit), on the given axes only and with the given colours; parameters for printing can be set, given ones coming last, without changing the defaults; bars of progress show the part that is done.',
     ['inputs', 'histories'], 'all results of jobs, all samples, labels and options', 'Neither launchers nor figures are tested.',
     ['samples/supportive_evaluation_preference.py', 'samples/supportive_evaluation_multitask.py', 'samples/supportive_evaluation_pomcp.py', 'task_models/evaluation.py', 'task_models/utils/plot.py', 'task_models/plot.py', 'task_models/utils/term.py'],
     [('launchers', 'samples/supportive_evaluation_*.py: init_jobs, plot_results; evaluation.py: ExpLauncher'), ('figures', 'utils/plot.py: plot_var, boxplot, pcolormesh; plot.py: plot_beliefs'), ('bars', 'utils/term.py: progress_bar')],
     'TLA+ model of launchers: configurations, results of jobs in any order, statistics shown (TLC exhaustive, with liveness) + trace validation by TLC of recorded launchers and figures')
