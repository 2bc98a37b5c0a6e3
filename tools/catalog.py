"""The properties, as data.  tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, state=state, observe=observe, note=note))


B = 'src/sims_pars/bayesnet/'

P('C01', 'Network links are exactly the links the definitions declare',
  'After any sequence of accepted node definitions, whether added one by one, read from a script or from a JSON record, '
  'every node holds its latest definition, its incoming links are exactly the parents that definition names, and every '
  'parent that was not defined yet is present as an exogenous node. A definition of a node that already exists replaces '
  'the old one together with its links and description, and leaves its links to children alone.',
  ['inputs', 'histories'], 'all definitions, scripts and records, in every order, including redefinitions of existing '
  'and of implicitly created nodes',
  'The tests build a few fixed scripts; redefinition orders, implicit parents and descriptions combine without bound.',
  [B + 'bn.py', B + 'loci.py'],
  [('adding a definition', B + 'bn.py BayesianNetwork.append_loci'), ('reading a line', B + 'loci.py parse_loci'),
   ('reading a record', B + 'loci.py loci_from_json'), ('reading a script', B + 'bn.py bayes_net_from_script')],
  observe=['parents/children of every node', 'definition held by a node'])

P('C02', 'A rejected change leaves the network acyclic and as it was',
  'A definition that would close a cycle, and any definition offered to a completed network, is rejected with an error, '
  'and the network is then exactly as before: same nodes, links, definitions and descriptions. No accepted definition '
  'ever makes the network cyclic, and a user function cannot be registered twice under one name.',
  ['inputs', 'histories'], 'every network state reached by accepted definitions, every further definition',
  'Tests try one cycle; whether rejection happens before the first change depends on the order of the tests and writes '
  'on every path.',
  [B + 'bn.py', B + 'dag.py'],
  [('cycle and freeze test before any change', B + 'bn.py BayesianNetwork.append_loci')])

P('C03', 'A completed network is closed and its cached views are the true ones',
  'Completing a network closes it to change and fixes its node order, roots, leaves, random roots, exogenous nodes, '
  'script and JSON record, and each of these equals what a fresh computation over the nodes and links gives: the order '
  'lists every node once with parents before children. Reopening a network keeps nodes and links and discards every one '
  'of these views, so that views of an open network are computed from its present content.',
  ['inputs', 'histories'], 'every network, every interleaving of definitions, completion and reopening',
  'Tests look at views of two small networks once; staleness needs a history of completion and reopening.',
  [B + 'bn.py', B + 'dag.py'],
  [('completion', B + 'bn.py BayesianNetwork.complete'), ('reopening', B + 'bn.py BayesianNetwork.defrost'),
   ('views', B + 'bn.py Order, Roots, Leaves, RVRoots, Exo, to_json, to_script')],
  state=[dict(name='cached views', meaning='order, roots, leaves, exogenous nodes, exports', where=B + 'bn.py')])

P('C04', 'Merging overrides by name and keeps everything else',
  'Merging a second network into a first gives a new network under the new name in which every non-exogenous node of '
  'the second has the second one\'s definition, description and parents, every other node keeps the first one\'s, links '
  'are exactly those the definitions declare, and exogenous nodes nobody uses are gone. Both inputs stay as they were, and '
  'the user functions of both are available, the second one\'s winning.',
  ['inputs'], 'all pairs of networks, with any overlap of names and any roles in either',
  'One test merges two tiny networks; overlap patterns (overridden inner nodes, exogenous on one side only) are unbounded.',
  [B + 'bn.py', B + 'dag.py'],
  [('merge', B + 'bn.py BayesianNetwork.merge'), ('link repair', B + 'bn.py __check_edges'),
   ('dropping incoming links', B + 'dag.py DAG.remove_in_edges')])

P('C05', 'Exports, copies and clones rebuild the same network',
  'The JSON record and the script of a network state every node with its definition and description, reading the record '
  'back gives a network with the same name, nodes, definitions, descriptions and links, and copies, clones and '
  'extensions hold the same nodes under the requested name. Extending into an existing network replaces its nodes only '
  'when override is asked for.',
  ['inputs'], 'all networks, open or completed, all node kinds and descriptions',
  'Tests compare a script once; every node kind has its own writer and reader that have to agree.',
  [B + 'bn.py', B + 'loci.py'],
  [('record of a network', B + 'bn.py form_js, node_to_js'), ('script', B + 'bn.py form_script'),
   ('rebuild', B + 'bn.py bayes_net_from_json, copy, clone, extend'), ('record of a node', B + 'loci.py to_json')])

P('C06', 'Every node is given its true role',
  'A node is reported as exogenous, random or deterministic exactly according to the kind of its definition, a random '
  'root is a random node with no random node above it, and a network or selection is reported to contain randomness, or '
  'to still need calculation, exactly when one of the nodes concerned does.',
  ['inputs'], 'all networks and all selections of nodes',
  'Tests ask for a few nodes of two networks.',
  [B + 'bn.py', B + 'dag.py'],
  [('role queries', B + 'bn.py is_exogenous, is_rv, is_deterministic, has_randomness, needs_calculation'),
   ('random roots', B + 'bn.py find_rv_roots'), ('exogenous nodes', B + 'bn.py find_exo')])

P('C07', 'Graph dependency queries answer for the graph as it is',
  'For every acyclic graph and every selection of nodes, parents, children, ancestors, descendants, roots, leaves, order '
  'and offspring are the graph-theoretic ones; the sufficient nodes of targets are the targets plus all their ancestors, '
  'the minimal nodes given known values are those reached without passing a known one, and the minimal requirements are '
  'the known nodes used directly by that computation. Reduced and merged graphs keep exactly the nodes and links these '
  'sets call for, and the input graphs stay unchanged; removing what lies upstream or downstream of given nodes removes '
  'their ancestors or descendants and nothing else.',
  ['inputs'], 'all acyclic graphs, all selections including empty and overlapping ones',
  'The tests query one seven-node graph; the answers are closures over arbitrary graphs.',
  [B + 'dag.py', B + 'bn.py'],
  [('queries', B + 'dag.py DAG'), ('sufficient and minimal nodes', B + 'dag.py get_sufficient_nodes, get_minimal_nodes, '
   'minimal_requirements'), ('reduction and merging', B + 'dag.py minimal_dag, merge_dag')])

P('C08', 'A full sample evaluates every node once, parents first',
  'Sampling a network visits every node in dependency order, takes a supplied or fixed value where there is one and '
  'otherwise evaluates the node\'s definition on the values already drawn, so that a deterministic node always equals its '
  'expression at its parents and a random node is drawn from its distribution at its parents. Exogenous nodes take the '
  'supplied value, and the outcome carries every node.',
  ['inputs'], 'all networks, all supplied values',
  'Tests draw a few samples of fixed networks and look at one or two nodes.',
  [B + 'bn.py', B + 'loci.py'],
  [('sampling', B + 'bn.py sample, sample_chromosome'), ('evaluation of a node', B + 'loci.py Loci.render')])

P('C09', 'A minimal sample computes only what the wanted nodes need',
  'Sampling for wanted nodes under given values evaluates exactly the nodes needed for them that are not given, in '
  'dependency order, never changes a given value, and returns the wanted nodes, together with the computed mediators '
  'when and only when those are asked for.',
  ['inputs'], 'all networks, wanted sets, given values and modes',
  'Tests use one network and one choice of given and wanted nodes.',
  [B + 'bn.py', B + 'dag.py'],
  [('minimal sampling', B + 'bn.py sample_minimally'), ('what is needed', B + 'dag.py get_sufficient_nodes')])

P('C10', 'The log density of a parameter set is the sum over its nodes',
  'Evaluating a parameter set on a network adds up, over the nodes of the network, the log density of each random node '
  'at its value given its parents\' values in the same set; fixed, deterministic, exogenous and derived nodes contribute '
  'nothing, and no value changes.',
  ['inputs'], 'all networks and parameter sets',
  'Tests evaluate one set; a dropped or doubled node only shows for networks that have it.',
  [B + 'bn.py', B + 'loci.py'],
  [('evaluation', B + 'bn.py evaluate_nodes'), ('density of a node', B + 'loci.py evaluate')])

P('C11', 'A stored log probability never outlives the values it was computed for',
  'Whenever a value of a parameter set changes, by assignment or by an intervention, its stored log probability is '
  'cleared or recomputed for the new values, and the total of prior and likelihood is reported only as their sum. A copy '
  'carries the same values and stored probabilities as the original at the moment of copying.',
  ['histories'], 'all sequences of assignments, interventions, evaluations and copies',
  'Tests never change a value after evaluation.',
  [B + 'chromosome.py', B + 'bn.py', 'src/sims_pars/simulation/parcore.py'],
  [('invalidation', B + 'chromosome.py __setitem__, impulse, reset_probability')],
  state=[dict(name='stored log probabilities', meaning='prior and likelihood of the current values',
              where=B + 'chromosome.py')])

P('C12', 'An intervention changes what it names and what follows from it, nothing else',
  'Intervening on a parameter set with given values sets exactly the named loci that exist, recomputes exactly the nodes '
  'that depend on them and are not themselves named, in dependency order and from the new values, and leaves every other '
  'value alone; naming nothing known changes nothing.',
  ['inputs', 'histories'], 'all networks, parameter sets and interventions',
  'Tests intervene once on one node.',
  [B + 'chromosome.py'],
  [('intervention', B + 'chromosome.py Chromosome.impulse')])

P('C13', 'Copies of a parameter set are independent of the original',
  'A copy of a parameter set holds equal values and probabilities, and no later change to either shows in the other. '
  'Reading, listing and exporting a parameter set show exactly its current values, and rebuilding from an export gives an '
  'equal set.',
  ['histories'], 'all parameter sets and all later changes to copy or original',
  'Sharing only shows after a change following the copy; no test makes one.',
  [B + 'chromosome.py'],
  [('copy', B + 'chromosome.py Chromosome.clone'), ('export', B + 'chromosome.py to_json, to_data, from_json')])

S = 'src/sims_pars/simulation/'
U = 'src/sims_pars/'

P('C14', 'Evaluating an expression is a pure function of its names\' values',
  'The value of a parsed expression depends only on the values of the names it declares and on the registered functions, '
  'is the value of the written expression at them, and evaluating it changes neither the expression nor the environment '
  'it is given. It is reported as executable exactly when all the names it declares are supplied and every function it calls is registered.',
  ['inputs', 'histories'], 'all expressions and environments, any number of evaluations in any order',
  'Tests evaluate each expression once; pollution of a shared environment shows only on later evaluations.',
  [U + 'util.py', U + 'factory/craftstation.py'],
  [('evaluation', U + 'util.py MathExpression.__call__, execute, evaluate_function'),
   ('helper functions', U + 'util.py step, ifelse')])

P('C15', 'Every named distribution family is the distribution its name says',
  'For each registered distribution family the arguments of a definition are mapped to the parameters of the '
  'distribution the family documents, with the documented argument names, types, order, ranges and defaults, and '
  'arguments outside the range are refused. No family name stands for another family.',
  ['inputs'], 'all registered families and all argument values',
  'Tests build a few families at one parameter value and look at means; a swapped or inverted parameter of another '
  'family passes.',
  [U + 'prob.py', U + 'factory'],
  [('family table', U + 'prob.py register calls and their builders'), ('argument checks', U + 'factory/arguments.py')])

P('C16', 'A distribution object samples and scores one and the same law',
  'Sampling and log density of a distribution object refer to the same underlying distribution: values are drawn '
  'from it in the number asked for, the log density of a value is the log of its density or mass, outside the support '
  'it is minus infinity, and mean, spread, bounds and type are those of that distribution.',
  ['inputs'], 'all distribution objects a definition can create, values and sample sizes',
  'Tests check single draws and means; densities outside the support and sizes above one are not reached.',
  [U + 'prob.py'],
  [('continuous and discrete', U + 'prob.py SpDouble, SpInteger'),
   ('constant and categorical', U + 'prob.py Const, CategoricalRV')])

P('C17', 'Completing a definition keeps its meaning and fills only what is missing',
  'Completing a distribution definition assigns positional and keyword arguments to the family\'s parameters, keeps every '
  'given argument, adds only the family\'s defaults, and rejects unknown, repeated or missing ones. Completing it '
  'again changes nothing, and creating from the completed form gives what creating from the original gives.',
  ['inputs'], 'all families and all written argument lists',
  'Tests complete a handful of definitions; argument orders and mixtures are unbounded.',
  [U + 'factory/craftstation.py', U + 'prob.py', U + 'bayesnet/bn.py'],
  [('completion', U + 'factory/craftstation.py Atelier.complete_def'), ('creation', U + 'factory/craftstation.py create'),
   ('use', U + 'prob.py complete_function, parse_distribution')])

P('C18', 'A node\'s declared parents are exactly the names its definition uses',
  'For every kind of definition, the declared parents are the variable names occurring in it, each once, without the '
  'names of functions, constants and keyword arguments. Nothing outside the declared parents is needed to evaluate it.',
  ['inputs'], 'all expressions and argument lists the language admits',
  'Tests parse a few expressions; a name missed inside a call, list or nested argument breaks the dependency order.',
  [U + 'util.py', U + 'bayesnet/loci.py'],
  [('names in an expression', U + 'util.py find_ast_parents, ast_to_math_expression'),
   ('parents of a node', U + 'bayesnet/loci.py Parents')])

P('C19', 'Generating a parameter core fills exactly the group\'s own parameters',
  'Generating a core for a group fixes exactly the group\'s parameters, each supplied value kept and every other one drawn '
  'from its definition at the values of its parents, held by the core or by its ancestors. The core carries its group, '
  'name, parent and a log probability that covers exactly what it holds, and gets its samplers for the nodes left floating.',
  ['inputs', 'histories'], 'all networks, group hierarchies and supplied values',
  'Tests generate one hierarchy; which values are taken from where depends on the hierarchy and on what is supplied.',
  [S + 'simugroup.py', S + 'simucore.py', S + 'parcore.py', S + 'fn.py'],
  [('generation', S + 'simugroup.py SimulationGroup.generate'), ('root generation', S + 'simucore.py generate')])

P('C20', 'A hierarchy of parameter cores stays a consistent tree',
  'Breeding, looking up, removing, detaching and duplicating cores keep parent and child references in agreement, names '
  'unique below one parent, and a lookup finds the nearest value up the hierarchy. A detached or copied core keeps the '
  'values and samplers it could see and shares nothing with the original.',
  ['histories'], 'all sequences of breeding, detaching, removal and copying on all hierarchies',
  'Tests breed and detach once; stale references appear only in longer histories.',
  [S + 'parcore.py', S + 'simugroup.py', S + 'simucore.py'],
  [('tree operations', S + 'parcore.py breed, detach_from_parent, remove_children, get_child, get_sibling, duplicate'),
   ('lookup', S + 'parcore.py __getitem__, __iter__')],
  state=[dict(name='hierarchy', meaning='parent and children references of cores', where=S + 'parcore.py')])

P('C21', 'An impulse reaches every dependent value and sampler of the hierarchy',
  'An impulse on a core sets the named values where they are held, redraws every held value that depends on a named one '
  'and is not itself given, in dependency order, and refreshes every frozen sampler whose node depends on it, in the core '
  'and in all its descendants. Nothing else changes.',
  ['histories', 'inputs'], 'all hierarchies and all impulses',
  'Tests use one two-level hierarchy; a sampler that keeps its old distribution looks fine until it is used.',
  [S + 'parcore.py', S + 'simugroup.py'],
  [('entry', S + 'parcore.py impulse'), ('cascade', S + 'parcore.py set-response recursion'),
   ('local update', S + 'simugroup.py set_response')])

P('C22', 'A sampler draws its node from the values in force where it is used',
  'A sampler asked for a value draws the node from its definition at the current values of its parents: a frozen one from '
  'the distribution at its last update, a single one from the values it is handed, a compound one after drawing the '
  'unfixed nodes in between, in order. Sampling never changes the values handed in.',
  ['inputs', 'histories'], 'all nodes, samplers and calling cores',
  'Tests draw single values; the values used are visible only through their distribution.',
  [S + 'actor.py', S + 'simugroup.py', S + 'parcore.py'],
  [('kinds of sampler', S + 'actor.py'), ('placement', S + 'simugroup.py put_local_actors, put_shared_actors'),
   ('access', S + 'parcore.py get_sampler, get_samplers')])

P('C23', 'Each floating node gets the kind of sampler its parents call for',
  'A node whose parents are all fixed at the group is sampled from its definition directly, shared between members only '
  'when none of its parents can differ between them; any other node is sampled through the unfixed nodes it needs, '
  'reading only fixed and exogenous ones. Every floating node of a group or of a group below it has a sampler.',
  ['inputs'], 'all networks and group hierarchies',
  'Tests print blueprints for one hierarchy.',
  [S + 'nodeset.py'],
  [('choice', S + 'nodeset.py sampler blueprints'), ('construction', S + 'nodeset.py ActorBlueprint.compose_actor')])

P('C24', 'Node sets allocate consistently and refuse changes once allocated',
  'A tree of node sets accepts children only before nodes are allocated, refuses fixed nodes that depend on floating '
  'ones, hands every undefined node down to the first level where its parents are known, and returns to the '
  'unallocated state on defrosting. The allocation is reported group by group with the nodes each one holds.',
  ['histories', 'inputs'], 'all trees of node sets, networks and orders of calls',
  'Tests allocate two small trees.',
  [S + 'nodeset.py', S + 'simucore.py', S + 'simugroup.py', U + 'bayesnet/dag.py'],
  [('life cycle', S + 'nodeset.py add_child, new_child, inject_bn, defrost'),
   ('hand-down', S + 'nodeset.py undefined nodes')])

P('C33', 'Resampling draws from the given values with the given weights',
  'Resampling returns the requested number of the given items, together with what accompanies them, chosen with '
  'probability proportional to the weights supplied, without changing the input.',
  ['inputs'], 'all collections, weights, sizes and accompanying data',
  'Tests look at the length of one result.',
  [U + 'util.py'],
  [('resampling', U + 'util.py resample')])

P('C36', 'No state is shared between objects except the registries meant for it',
  'Objects built by the same constructor share no mutable default, and the tables of functions and distribution families '
  'change only through their registration calls, which reject or replace as documented.',
  ['histories'], 'all orders of construction and registration',
  'Sharing shows only between two objects used in the same process, which unit tests build afresh.',
  [U + 'factory', U + 'util.py', S + 'nodeset.py'],
  [('registries', U + 'util.py add_math_func, add_data_func; ' + U + 'factory/craftstation.py register')])

F = U + 'fit/'

P('C29', 'A particle is scored once, on its own simulation against every target',
  'The distance or log likelihood of a particle is the sum over all targets of each target\'s score of that particle\'s '
  'simulated outputs, is remembered with the particle and never stands for another one. Copying, recording and rebuilding '
  'a particle or a posterior set keep its parameters and outputs, and the parameters a model is run with carry every '
  'fixed outside value.',
  ['inputs', 'histories'], 'all models, targets, particles and orders of scoring, copying and recording',
  'Tests score single particles of toy models with one kind of target.',
  [F + 'base.py', F + 'results.py', F + 'targets/single.py', F + 'toys.py'],
  [('scores', F + 'base.py DataModel.calc_distance, calc_likelihood, flatten'), ('particle', F + 'base.py Particle'),
   ('parameters of a run', F + 'base.py serve, sample_prior'), ('posterior set', F + 'results.py ParameterSet')],
  state=[dict(name='particle notes', meaning='scores and outputs remembered with a particle', where=F + 'base.py')])

P('C30', 'Targets are read and scored as their format says',
  'A number is a target with relative error, a record with bounds a range, a text a distribution and a target object '
  'itself; anything else is refused. Distances are never negative for point and range targets, zero exactly at the target '
  'value, and scale with the stated uncertainty, which is the one reported as observation variance.',
  ['inputs'], 'all target descriptions and simulated values',
  'Tests read three targets and check their kind.',
  [F + 'targets/__init__.py', F + 'targets/single.py', F + 'targets/base.py'],
  [('reading', F + 'targets/__init__.py read_targets'), ('scoring', F + 'targets/single.py')])

P('C31', 'Unit coordinates and parameter values convert to each other exactly',
  'For every combination of finite and infinite bounds the conversion chosen maps the unit interval increasingly onto the '
  'whole range and the reverse conversion is its inverse. The ranges offered for a model are those of its random roots.',
  ['inputs'], 'all domains and all values in the unit interval or the range',
  'Tests convert five points of one domain of each kind.',
  [F + 'converter.py', F + 'base.py'],
  [('choice', F + 'converter.py get_converter'), ('conversions', F + 'converter.py ConverterFF, FI, IF, II'),
   ('domains', F + 'base.py DataModel.Domain')])

P('C34', 'The monitor\'s history is complete and in time order',
  'Every kept note is recorded once, under the time it was kept at, when time moves on; time never moves back, staying '
  'at the same time records nothing, and resetting forgets all records and notes. The reported trajectory is exactly the '
  'recorded history. Messages are logged at the level they are given at, in every log that was added.',
  ['histories'], 'all sequences of keeping, stepping and resetting',
  'Tests keep and step twice.',
  [U + 'monitor.py'],
  [('history', U + 'monitor.py step, keep, reset, Trajectories'), ('messages', U + 'monitor.py info, warning, error')],
  state=[dict(name='records', meaning='closed notes by time and the notes still open', where=U + 'monitor.py')])

P('C37', 'Data-driven samplers follow the data they were built from',
  'Tables, time series, regressions and hazards sample from the frequencies, curves, linear predictors and hazards they '
  'were given, normalised where they are probabilities, and a conditioned or marginalised table is that of the selected '
  'rows. Drawing never changes the source data, and density, sampler, mean and spread of a hazard distribution are of one law.',
  ['inputs'], 'all tables, series, coefficients and covariates',
  'There are almost no tests for these parts.',
  [U + 'data/static.py', U + 'data/timeseries.py', U + 'data/reg/linear.py', U + 'data/reg/glm.py',
   U + 'data/reg/hazard.py', U + 'data/reg/survival.py'],
  [('tables', U + 'data/static.py'), ('series', U + 'data/timeseries.py'), ('regressions', U + 'data/reg/')])

P('C25', 'Rejection ABC keeps exactly the simulations within its tolerance',
  'The tolerance is the stated quantile of the finite distances of test simulations from the prior. Every particle of '
  'the posterior set was drawn afresh from the prior, simulated by the model and has a distance not above that '
  'tolerance, the set has the requested size, and the reported tolerance, acceptance rate and sample size are those of '
  'the collection. Fitting prepares, updates and finishes in this order with the settings given.',
  ['inputs', 'histories'], 'all models, settings, random draws and numbers of rejected simulations',
  'Tests run one toy model; acceptance depends on random draws and on distances at the edge of the tolerance.',
  [F + 'abcom/alg.py', F + 'base.py'],
  [('tolerance', F + 'abcom/alg.py initialise'), ('acceptance', F + 'abcom/alg.py sample_ess'),
   ('collection', F + 'abcom/alg.py sample_posteriors'), ('life cycle', F + 'base.py Fitter.fit')],
  state=[dict(name='tolerance', meaning='quantile of the test distances', where=F + 'abcom/alg.py State')])

P('C26', 'Sequential ABC tightens, reweights, resamples and moves by its rules',
  'A round never raises the tolerance, gives weight zero to particles outside it and normalises the rest, resamples by '
  'weight when the effective size falls below the threshold, and moves a particle only to a proposal within the '
  'tolerance, keeping it otherwise. Proposals perturb free parameters by their weighted spread, stay in the support and '
  'are given up after a bounded number of tries; rounds go on until a round, stay or acceptance limit is met, and the '
  'posterior set is drawn from the last round.',
  ['inputs', 'histories'], 'all models, settings, random draws, distances and numbers of rounds',
  'Tests run a toy model once; the rules meet ties, degenerate weights and infinite distances only on rare draws.',
  [F + 'abc_smc/alg.py'],
  [('tolerance', F + 'abc_smc/alg.py find_eps, _a_round'), ('weights', F + 'abc_smc/alg.py update_wts, resample'),
   ('moves', F + 'abc_smc/alg.py calc_weighted_std, sample_mutation, mcmc_proposal'),
   ('end', F + 'abc_smc/alg.py _check_termination')],
  state=[dict(name='round', meaning='particles, weights, tolerance, stay count', where=F + 'abc_smc/alg.py StateABCSMC')])

P('C27', 'Running in parallel changes where work is done, not what is done',
  'For every sampler the parallel run applies the same operation to the same inputs the same number of times as the '
  'serial one, and particles that travel to or from workers arrive with their parameters, outputs, scores and notes, so '
  'that what is collected and counted does not depend on the choice.',
  ['schedules', 'inputs'], 'all samplers, settings and schedules of workers',
  'Tests run serially or look at sizes only; workers see packed copies of particles.',
  [F + 'abcom/alg.py', F + 'abc_smc/alg.py', F + 'base.py', U + 'bayesnet/chromosome.py'],
  [('dispatch', F + 'abcom/alg.py initialise, sample_posteriors; ' + F + 'abc_smc/alg.py initialise, mcmc_proposal'),
   ('packing', F + 'base.py Particle.to_json, from_json; ' + U + 'bayesnet/chromosome.py to_json, from_json')])

P('C28', 'A fitter runs the model and settings it is given, stage by stage',
  'A fitter starts from its algorithm\'s own default settings, overridden by the known settings given at construction or '
  'for a run, and unknown names change nothing. A run attaches the model it was asked to fit, starts with an empty '
  'collection of results and goes through initialisation, updating and termination once each in that order, '
  'and closing a fitter leaves it without a model.',
  ['inputs', 'histories'], 'all algorithms, models, settings and orders of calls',
  'Tests run each algorithm once from a new fitter with two settings.',
  [F + 'base.py', F + 'abcom/alg.py', F + 'abc_smc/alg.py', F + 'hme/alg.py'],
  [('settings', F + 'base.py Fitter.__init__, update_settings'), ('stages', F + 'base.py Fitter.fit, attach, close'),
   ('algorithms', F + 'abcom/alg.py, ' + F + 'abc_smc/alg.py, ' + F + 'hme/alg.py constructors')],
  state=[dict(name='run', meaning='attached model, settings, collector', where=F + 'base.py Fitter')])

P('C32', 'History matching keeps the plausible region wave by wave',
  'Each wave simulates a space-filling design inside the current bounds, trains one emulator per target on exactly those '
  'runs, and judges new points of the bounds by the largest standardised distance to any target, counting model, '
  'observation and emulator variance. The points below the cut-off, which is relaxed just enough to keep the required '
  'share, give the next bounds, and the reported error, cut-off, share and ranges are those of the last wave, with '
  'waves stopping at the stated maximum.',
  ['inputs', 'histories'], 'all models, targets, settings, random draws and numbers of waves',
  'There are no tests for this part, and single runs would not show which points were dropped or how coordinates map.',
  [F + 'hme/alg.py', F + 'hme/emulator.py', F + 'targets/single.py'],
  [('implausibility', F + 'hme/alg.py Matchers'), ('waves', F + 'hme/alg.py _a_wave, _keep_plausible'),
   ('emulators', F + 'hme/emulator.py')],
  state=[dict(name='wave', meaning='bounds, plausible points, cut-off, share', where=F + 'hme/alg.py StateHME')])

P('C35', 'Everything the code refers to exists and calls fit what they call',
  'No operation of the package, the superseded fitting package and genetic algorithm aside, can fail because a name, '
  'import, exported name, attribute of the object itself or setting is defined nowhere, because a call inside the package passes '
  'arguments its callee does not take, because a message names more arguments than it is given, or because a local value '
  'is read that nothing has set.',
  ['inputs', 'schedules'], 'every function of the package and every path through it',
  'A test notices such a reference only when it runs that very line.',
  [U + 'prob.py', U + 'util.py', U + 'fn.py', U + 'monitor.py', B + 'bn.py', S + 'parcore.py', F + 'base.py'],
  [('names and exports', 'all modules'), ('calls', 'all modules'), ('attributes', 'all classes')],
  note='reference, attribute, arity and definite-unassignment analysis over the syntax trees (static)')

P('C42', 'The bundled example models are the problems they are named after',
  'The beta-binomial example draws the counts of 10 and of 20 trials from its two probabilities and targets the given '
  'counts; the normal example averages n draws around each of its two means with the common spread, and targets averages '
  'of n draws around the given means; the epidemic example follows the SIR equations for 1000 people, 10 of them infected '
  'at first, and reports incidence, prevalence and recovery at each whole time from 2 to 7, its targets being those at the '
  'given rates with 5% error. Every simulation carries the parameters it was made with.',
  ['inputs'], 'all data, rates and parameter sets',
  'Tests run the examples at a few parameter values and do not look at the numbers.',
  [F + 'toys.py'],
  [('models', F + 'toys.py BetaBin, Normal2, EpiSIR'), ('factories', F + 'toys.py get_betabin, get_normal2, get_sir')])

NA = []


def N_A(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))


N_A('C38', 'Samples collected by a fitter follow the posterior distribution',
    'The particles a fitter returns are distributed as the (approximate) posterior for its tolerance and model, and '
    'estimates from them converge as the number of particles grows.',
    ['inputs', 'schedules'], 'all models, priors, data and numbers of particles',
    'A run yields one random sample; tests cannot judge its law.',
    [F + 'abcom/alg.py', F + 'abc_smc/alg.py'], [('samplers', F + 'abcom/alg.py, ' + F + 'abc_smc/alg.py')],
    'a limit law over random draws; what is decided statically are the rules each step follows (C25, C26)')

N_A('C39', 'Drawn numbers follow the laws of their families',
    'Values drawn from a family have the frequencies its density gives, for every parameter.',
    ['inputs'], 'all families, parameters and streams of random numbers',
    'Tests draw few numbers.',
    [U + 'prob.py'], [('families', U + 'prob.py')],
    'the law of the numbers is that of scipy and numpy; which library law with which parameters is decided in C16 and C17')

N_A('C40', 'Emulators predict the simulator within their stated variance',
    'For points of the current bounds the emulator\'s mean and variance cover the simulator\'s output at the stated rate.',
    ['inputs'], 'all models, designs and targets',
    'Accuracy depends on the model and the design.',
    [F + 'hme/emulator.py'], [('emulator', F + 'hme/emulator.py GPREmulator')],
    'accuracy of a numerical regression by an outside library is not decidable from the source; the wiring is (C32)')

N_A('C41', 'Fitting and evaluation finish in the time their settings suggest',
    'Every fitting run ends for every model, and its cost grows linearly with the requested number of particles.',
    ['inputs', 'schedules'], 'all models and settings',
    'Termination depends on the chance of acceptance under the model.',
    [F + 'abcom/alg.py', F + 'abc_smc/alg.py'], [('loops', F + 'abcom/alg.py sample_ess')],
    'the loops end with a probability the model decides; no static bound exists')
