"""Kinds of attributes that constructors alone do not reveal (hints only: they pick the vocabulary
in which a term is expressed, never whether an obligation holds)."""
ATTR = {
    ('BayesianNetwork', 'DAG'): 'DAG',
    ('ParameterCore', 'SG'): 'SimulationGroup',
    ('ParameterCore', 'Parent'): 'ParameterCore',
    ('ParameterCore', 'Children'): 'dict[ParameterCore]',
    ('ParameterCore', 'Actors'): 'dict',
    ('ParameterCore', 'ChildrenActors'): 'dict[dict]',
    ('PseudoParameterCore', 'Children'): 'dict[PseudoParameterCore]',
    ('PseudoParameterCore', 'Parent'): 'PseudoParameterCore',
    ('Chromosome', 'Locus'): 'dict',
    ('SimulationGroup', 'SC'): 'SimulationCore',
    ('SimulationGroup', 'BN'): 'BayesianNetwork',
    ('SimulationGroup', 'LocalActors'): 'dict[ActorBlueprint]',
    ('SimulationGroup', 'SharedActors'): 'dict[ActorBlueprint]',
    ('SimulationCore', 'BN'): 'BayesianNetwork',
    ('SimulationCore', 'SGs'): 'dict[SimulationGroup]',
    ('SimulationCore', 'RootNode'): 'NodeSet',
    ('Particle', 'Pars'): 'Chromosome',
    ('Particle', 'Sims'): 'dict',
    ('Particle', 'Notes'): 'dict',
    ('DataModel', 'ExoParameters'): 'dict',
    ('DataModel', 'FreeParameters'): 'list',
    ('DataModel', 'BayesianNetwork'): 'BayesianNetwork',
    ('DataModel', 'Data'): 'dict',
    ('Fitter', 'Settings'): 'dict',
    ('Fitter', 'Model'): 'DataModel',
    ('Fitter', 'Collector'): 'ParameterSet',
    ('Fitter', 'Monitor'): 'Monitor',
    ('ParameterSet', 'Notes'): 'dict',
    ('ParameterSet', 'Particles'): 'list[Particle]',
    ('ApproxBayesCom', 'State'): 'StateABC',
    ('ApproxBayesComSMC', 'State'): 'StateABCSMC',
    ('BayesHistoryMatching', 'State'): 'StateHME',
    ('StateABCSMC', 'Wts'): 'arr',
    ('StateABCSMC', 'Particles'): 'list[Particle]',
    ('StateHME', 'Particles'): 'list[Particle]',
    ('StateHME', 'Matchers'): 'Matchers',
    ('StateHME', 'Emulators'): 'dict',
    ('StateHME', 'Converters'): 'list',
    ('Matchers', 'Data'): 'dict',
    ('Monitor', 'Records'): 'list',
    ('Monitor', 'Last'): 'dict',
    ('Atelier', 'Creators'): 'dict',
    ('MathExpression', 'Var'): 'set',
    ('MathExpression', 'Func'): 'set',
    ('ParsedFunction', 'Arguments'): 'list[dict]',
    ('EvaluatedFunction', 'Arguments'): 'list[dict]',
    ('DistributionLoci', 'Parsed'): 'ParsedFunction',
    ('FunctionLoci', 'Func'): 'MathExpression',
    ('CategoricalRV', 'kv'): 'dict',
    ('CategoricalRV', 'p'): 'arr',
    ('CategoricalRV', 'cat'): 'list',
    ('NodeSet', '_NodeSet__children'): 'dict[NodeSet]',
    ('NodeSet', '_NodeSet__parent'): 'NodeSet',
    ('NodeSet', '_NodeSet__as_fixed'): 'set',
    ('NodeSet', '_NodeSet__as_floating'): 'set',
    ('NodeSet', '_NodeSet__was_fixed'): 'set',
    ('NodeSet', '_NodeSet__will_be_floating'): 'set',
    ('NodeSet', 'FixedNodes'): 'set',
    ('NodeSet', 'FloatingNodes'): 'set',
    ('NodeSet', 'ExoNodes'): 'set',
    ('NodeSet', 'ListeningNodes'): 'set',
    ('NodeSet', 'LocalSamplers'): 'dict[ActorBlueprint]',
    ('NodeSet', 'SharedSamplers'): 'dict[ActorBlueprint]',
    ('ActorBlueprint', 'ToRead'): 'list',
    ('ActorBlueprint', 'ToSample'): 'list',
    ('CompoundActor', 'Flow'): 'list[Loci]',
    ('LinearCombination', 'Regressors'): 'list',
    ('LogisticRegression', 'LC'): 'LinearCombination',
    ('Sampler', 'Chromosome'): 'ParameterCore',
}
ANYATTR = {}
GLOB = {'DistributionCentre': 'Atelier', 'AtelierDict': 'dict', 'DATA_FUNC': 'dict', 'MATH_FUNC': 'dict'}

# functions with obligations of their own, kept as named calls inside other functions:
# qualified name -> (type of the result, exceptions it may raise)
STUBS = {
    'sims_pars.bayesnet.loci:parse_loci': (None, ('ScriptException',)),
    'sims_pars.bayesnet.loci:loci_from_json': ('Loci', ()),
    'sims_pars.prob:parse_distribution': ('AbsDistribution', ('KeyError',)),
    'sims_pars.prob:complete_function': ('ParsedFunction', ()),
    'sims_pars.util:parse_function': ('ParsedFunction', ()),
    'sims_pars.util:evaluate_function': (None, ()),
    'sims_pars.util:parse_math_expression': ('MathExpression', ()),
    'sims_pars.bayesnet.bn:bayes_net_from_script': ('BayesianNetwork', ()),
    'sims_pars.bayesnet.bn:bayes_net_from_json': ('BayesianNetwork', ()),
    'sims_pars.simulation.fn:as_simulation_core': ('SimulationCore', ()),
    'sims_pars.factory.craftstation:Atelier.create': (None, ('KeyError', 'TypeError')),
    'sims_pars.bayesnet.bn:BayesianNetwork.copy': ('BayesianNetwork', ()),
    'sims_pars.bayesnet.bn:BayesianNetwork.append_loci': 'append',
    'sims_pars.bayesnet.bn:BayesianNetwork.__check_edges': ('append', 'in:BayesianNetwork.merge'),
    'sims_pars.fit.base:DataModel.sample_prior': ('Chromosome', (), 'impure', 'far'),
    'sims_pars.fit.base:DataModel.serve': ('Chromosome', ('ValidationError',), 'impure', 'far'),
    'sims_pars.fit.base:DataModel.Domain': ('list[Domain]', (), 'far'),
    'sims_pars.fit.base:DataModel.calc_distance': (None, (), 'far'),
    'sims_pars.fit.abc_smc.alg:sample_fin': (None, (), 'impure'),
    'sims_pars.fit.abc_smc.alg:sample_fin_cont': (None, (), 'impure'),
    'sims_pars.fit.abc_smc.alg:sample_mutation': (None, (), 'impure'),
    'sims_pars.fit.abcom.alg:sample_fin': (None, (), 'impure'),
    'sims_pars.fit.abcom.alg:sample_ess': (None, (), 'impure'),
    'sims_pars.fit.abc_smc.alg:ApproxBayesComSMC._a_round': (None, (), 'impure'),
    'sims_pars.fit.abc_smc.alg:ApproxBayesComSMC._check_termination': (None, (), 'impure'),
    'sims_pars.fit.hme.alg:BayesHistoryMatching._a_wave': (None, (), 'impure'),
    'sims_pars.fit.hme.alg:BayesHistoryMatching._check_termination': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._validate_initial_conditions': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._resolve_local_nodes': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._raise_up_floating': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._resolve_relations': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._locate_undefined': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._define_sampler_blueprints': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet._sort_fixed_nodes': (None, (), 'impure'),
    'sims_pars.simulation.nodeset:NodeSet.inject_bn': (None, (), 'impure'),
    'sims_pars.simulation.simugroup:SimulationGroup.generate': ('ParameterCore', (), 'impure', 'in:ParameterCore.clone'),
    'sims_pars.simulation.simucore:SimulationCore.clone': ('SimulationCore', (), 'impure', 'in:ParameterCore.clone'),
    'sims_pars.simulation.parcore:ParameterCore.__children_copy': (None, (), 'impure', 'in:ParameterCore.clone'),
    'sims_pars.bayesnet.dag:minimal_dag': ('DAG', (), 'in:NodeSet._resolve_local_nodes'),
    'sims_pars.bayesnet.dag:minimal_requirements': ('list', (), 'in:NodeSet._resolve_local_nodes'),
    'sims_pars.bayesnet.bn:BayesianNetwork.has_randomness': (None, (), 'in:NodeSet._resolve_local_nodes'),
}

# calls whose result is an object nobody else holds (their own obligations say so)
MAKES = {'sims_pars.bayesnet.bn:BayesianNetwork.copy', 'sims_pars.bayesnet.chromosome:Chromosome.clone',
         'sims_pars.bayesnet.bn:bayes_net_from_json', 'sims_pars.bayesnet.bn:bayes_net_from_script'}
