"""Reference model of simulation groups, parameter cores, actors and node sets."""
import numpy as np
import networkx as nx
from sims_pars.bayesnet.chromosome import Chromosome
from sims_pars.bayesnet.loci import DistributionLoci, ExoValueLoci
from sims_pars.simulation.actor import FrozenSingleActor, SingleActor, CompoundActor, Sampler
from sims_pars.simulation.simugroup import SimulationGroup
from sims_pars.simulation.simucore import SimulationCore
from sims_pars.simulation.parcore import ParameterCore
from sims_pars.simulation.nodeset import NodeSet, ActorBlueprint


# ------------------------------------------------------------------ actors
def upstream(self, pas):
    out = {}
    if self.ToRead and pas is not None:
        for p in self.ToRead:
            try:
                out[p] = pas[p]
            except (KeyError, AttributeError, TypeError):
                pass
    return out


@of('sims_pars.simulation.actor:SimulationActor.read_upstream', 'C22')
def read_upstream(self: 'SimulationActor', pas=None):
    return upstream(self, pas)


@of('sims_pars.simulation.actor:FrozenSingleActor', 'C22')
def frozen_actor(field, loci, pas):
    self = FrozenSingleActor.__new__(FrozenSingleActor)
    self.Field = field
    self.Loci = loci
    self.ToRead = pas
    self.Sampler = None
    return self


@of('sims_pars.simulation.actor:FrozenSingleActor.sample', 'C22')
def frozen_sample(self: 'FrozenSingleActor', pas=None):
    if isinstance(self.Loci, DistributionLoci):
        return self.Sampler.sample()
    return self.Sampler


@of('sims_pars.simulation.actor:FrozenSingleActor.update', 'C22 C21')
def frozen_update(self: 'FrozenSingleActor', pas):
    up = upstream(self, pas)
    if isinstance(self.Loci, DistributionLoci):
        self.Sampler = self.Loci.get_distribution(up)
    else:
        self.Sampler = self.Loci.render(up)


@of('sims_pars.simulation.actor:SingleActor', 'C22')
def single_actor(field, loci, pas):
    self = SingleActor.__new__(SingleActor)
    self.Field = field
    self.Loci = loci
    self.ToRead = pas
    return self


@of('sims_pars.simulation.actor:SingleActor.sample', 'C22')
def single_sample(self: 'SingleActor', pas=None):
    return self.Loci.render(upstream(self, pas))


@of('sims_pars.simulation.actor:CompoundActor', 'C22')
def compound_actor(field, loci, to_read, to_sample: 'list'):
    self = CompoundActor.__new__(CompoundActor)
    self.Field = field
    self.Loci = loci
    self.ToRead = to_read
    self.Flow = list(to_sample)
    return self


@of('sims_pars.simulation.actor:CompoundActor.sample', 'C22')
def compound_sample(self: 'CompoundActor', pas=None):
    vals = upstream(self, pas)
    for loc in self.Flow:
        vals[loc.Name] = loc.render(vals)
    return self.Loci.render(vals)


@of('sims_pars.simulation.actor:CompoundActor.sample_with_mediators', 'C22')
def compound_mediators(self: 'CompoundActor', pas=None):
    vals = upstream(self, pas)
    out = {}
    for loc in self.Flow:
        x = loc.render(vals)
        vals[loc.Name] = x
        out[loc.Name] = x
    out[self.Field] = self.Loci.render(vals)
    return out


@of('sims_pars.simulation.actor:Sampler.__call__', 'C22')
def sampler_call(self: 'Sampler'):
    return self.Actor.sample(self.Chromosome)


@of('sims_pars.simulation.actor:Sampler.update', 'C22')
def sampler_update(self: 'Sampler', cms=None):
    if cms is not None:
        self.Chromosome = cms
    if isinstance(self.Actor, FrozenSingleActor):
        self.Actor.update(self.Chromosome)


@of('sims_pars.simulation.actor:Sampler.sample', 'C22')
def sampler_sample(self: 'Sampler', n=1):
    if n <= 1:
        return self.Actor.sample(self.Chromosome)
    return [self.Actor.sample(self.Chromosome) for _ in range(n)]


# ------------------------------------------------------------------ groups
@of('sims_pars.simulation.simugroup:SimulationGroup', 'C19')
def make_group(ns: 'NodeSet'):
    self = SimulationGroup.__new__(SimulationGroup)
    self.Name = ns.Name
    self.SC = None
    self.BN = None
    self.Children = list(ns._NodeSet__children)
    self.Listening = list(ns.ListeningNodes)
    self.Exogenous = list(ns.ExoNodes)
    self.Fixed = list(ns.FixedNodes)
    self.Floating = list(ns.FloatingNodes)
    self.LocalActors = ns.LocalSamplers
    self.SharedActors = ns.SharedSamplers
    return self


@of('sims_pars.simulation.simugroup:SimulationGroup.set_simulation_core', 'C19')
def set_simulation_core(self: 'SimulationGroup', sc: 'SimulationCore'):
    self.SC = sc
    self.BN = sc.BN


@of('sims_pars.simulation.simugroup:SimulationGroup.put_local_actors', 'C22 C20')
def put_local_actors(self: 'SimulationGroup', pc: 'ParameterCore'):
    out = {}
    for k in self.LocalActors:
        out[k] = self.LocalActors[k].compose_actor(self.BN)
    for k in out:
        if isinstance(out[k], FrozenSingleActor):
            out[k].update(pc)
    pc.Actors = out


def shared_on(self, parent):
    out = {}
    for k in self.SharedActors:
        out[k] = self.SharedActors[k].compose_actor(self.BN)
    for k in out:
        if isinstance(out[k], FrozenSingleActor):
            out[k].update(parent)
    if parent.ChildrenActors is None:
        parent.ChildrenActors = {}
    parent.ChildrenActors[self.Name] = out


@of('sims_pars.simulation.simugroup:SimulationGroup.put_shared_actors_on_parent', 'C22 C20')
def put_shared_on_parent(self: 'SimulationGroup', parent: 'ParameterCore'):
    shared_on(self, parent)


@of('sims_pars.simulation.simugroup:SimulationGroup.put_shared_actors', 'C22 C20')
def put_shared_actors(self: 'SimulationGroup', pc: 'ParameterCore'):
    if pc.Parent is None:
        raise AttributeError('root')
    shared_on(self, pc.Parent)


@of('sims_pars.simulation.simugroup:SimulationGroup.set_response', 'C21 C11')
def set_response(self: 'SimulationGroup', imp: 'dict', shocked: 'list', actors: 'list', hoist: 'dict',
                 pc: 'ParameterCore'):
    total = 0
    for d in imp:
        if d in pc.Locus:
            pc.Locus[d] = imp[d]
    for d in self.Fixed:
        if d in imp:
            pc.Locus[d] = imp[d]
        elif d in shocked:
            pc[d] = self.BN[d].render(pc)
        total += self.BN[d].evaluate(pc)
    pc.LogProb = total
    for a in actors:
        pc.Actors[a].update(pc)
    for k in hoist:
        for a in hoist[k]:
            pc.ChildrenActors[k][a].update(pc)


@of('sims_pars.simulation.simugroup:SimulationGroup.breed', 'C20 C19')
def group_breed(self: 'SimulationGroup', nickname, group, pa, exo):
    if group not in self.Children:
        raise KeyError('no such group')
    return self.SC.SGs[group].generate(nickname, parent=pa, exo=exo)


@of('sims_pars.simulation.simugroup:SimulationGroup.to_json', 'C24')
def group_json(self: 'SimulationGroup'):
    return {'Name': self.Name, 'Exogenous': list(self.Exogenous), 'Listening': list(self.Listening),
            'BeFixed': list(self.Fixed), 'BeFloating': list(self.Floating), 'Children': list(self.Children)}


@of('sims_pars.simulation.simugroup:SimulationGroup.generate', 'C19')
def generate(self: 'SimulationGroup', nickname, parent: 'ParameterCore' = None, exo: 'dict' = None):
    given = dict(exo) if exo else {}
    vals = dict(given)
    for d in self.Exogenous:
        if d not in vals:
            try:
                vals[d] = parent[d]
            except (TypeError, KeyError):
                vals[d] = self.BN[d].render(vals)
    total = 0
    for d in self.Fixed:
        if d not in vals:
            try:
                vals[d] = self.BN[d].render(vals)
            except KeyError:
                pass
        if d in vals:
            total += self.BN[d].evaluate(vals)
    out = {k: vals[k] for k in vals if k in self.Fixed}
    for k in given:
        out[k] = given[k]
    pc = ParameterCore(nickname, self, out, total)
    if parent is not None:
        pc.Parent = parent
    return pc


# ------------------------------------------------------------------ cores
@of('sims_pars.simulation.simucore:SimulationCore.__getitem__', 'C20')
def core_item(self: 'SimulationCore', item):
    return self.SGs[item]


@of('sims_pars.simulation.simucore:SimulationCore.get', 'C20')
def core_get(self: 'SimulationCore', item):
    return self.SGs[item]


@of('sims_pars.simulation.simucore:SimulationCore.generate', 'C19')
def core_generate(self: 'SimulationCore', nickname=None, exo: 'dict' = None):
    name = nickname if nickname else self.Name
    return self.SGs[self.RootSG].generate(name, None, dict(exo) if exo else {})


@of('sims_pars.simulation.simucore:SimulationCore.to_json', 'C24')
def core_json(self: 'SimulationCore'):
    return {'BayesianNetwork': self.BN.to_json(), 'Root': self.RootSG}


@of('sims_pars.simulation.simucore:SimulationCore.clone', 'C20')
def core_clone(self: 'SimulationCore'):
    return SimulationCore(self.BN, self.RootNode)


# ------------------------------------------------------------------ parameter cores
@of('sims_pars.simulation.parcore:ParameterCore', 'C19 C20')
def make_core(nickname, sg: 'SimulationGroup', vs: 'dict', prior):
    self = ParameterCore.__new__(ParameterCore)
    self.Locus = dict(vs) if vs else {}
    self.LogProb = prior
    self.Nickname = nickname
    self.SG = sg
    self.Parent = None
    self.Children = {}
    self.Actors = None
    self.ChildrenActors = None
    return self


@of('sims_pars.simulation.parcore:ParameterCore.Group', 'C20')
def core_group(self: 'ParameterCore'):
    return self.SG.Name


@of('sims_pars.simulation.parcore:ParameterCore.breed', 'C20')
def breed(self: 'ParameterCore', nickname, group, exo=None):
    if nickname in self.Children:
        raise ValueError('exists')
    chd = self.SG.breed(nickname, group, self, exo)
    self.Children[nickname] = chd
    return chd


@of('sims_pars.simulation.parcore:ParameterCore.get_sibling', 'C20')
def sibling(self: 'ParameterCore', nickname, exo=None):
    return self.Parent.breed(nickname, self.Group, exo)


@of('sims_pars.simulation.parcore:ParameterCore.get_prototype', 'C20')
def prototype(self: 'ParameterCore', group, exo=None):
    return self.SG.breed('prototype', group, self, exo)


@of('sims_pars.simulation.parcore:ParameterCore.duplicate', 'C20')
def duplicate(self: 'ParameterCore', nickname):
    if not self.Parent:
        raise AttributeError('root')
    return self.Parent.breed(nickname, self.Group, exo=self.Locus)


@of('sims_pars.simulation.parcore:ParameterCore.detach_from_parent', 'C20 C11')
def detach(self: 'ParameterCore', collect_pars=False):
    if self.Parent:
        if self.Nickname in self.Parent.Children:
            del self.Parent.Children[self.Nickname]
        if collect_pars:
            seen = list(self)
            for k, v in seen:
                self[k] = v
            self.SG.put_local_actors(self)
        self.Parent = None


@of('sims_pars.simulation.parcore:ParameterCore.remove_children', 'C20')
def remove_children(self: 'ParameterCore', k):
    if k in self.Children:
        chd = self.Children[k]
        del self.Children[k]
        return chd


@of('sims_pars.simulation.parcore:ParameterCore.get_actors', 'C20 C22')
def get_actors(self: 'ParameterCore', shared=True):
    if shared and self.Parent:
        if self.Parent.ChildrenActors is None or self.Group not in self.Parent.ChildrenActors:
            self.SG.put_shared_actors(self)
        return self.Parent.ChildrenActors[self.Group]
    if self.Actors is None:
        self.SG.put_local_actors(self)
    return self.Actors


@of('sims_pars.simulation.parcore:ParameterCore.list_actors', 'C20')
def list_actors(self: 'ParameterCore', shared=True):
    return list(get_actors(self, shared))


@of('sims_pars.simulation.parcore:ParameterCore.get_sampler', 'C20 C22')
def get_sampler(self: 'ParameterCore', sampler, shared=True):
    return Sampler(get_actors(self, shared)[sampler], self)


@of('sims_pars.simulation.parcore:ParameterCore.get_samplers', 'C20 C22')
def get_samplers(self: 'ParameterCore', shared=True):
    out = {}
    actors = get_actors(self, shared)
    for k in actors:
        out[k] = Sampler(actors[k], self)
    return out


@of('sims_pars.simulation.parcore:ParameterCore.get_child', 'C20')
def get_child(self: 'ParameterCore', name):
    return self.Children[name]


@of('sims_pars.simulation.parcore:ParameterCore.get_child_samplers', 'C20 C22')
def get_child_samplers(self: 'ParameterCore', group):
    assert group in self.SG.Children
    if self.ChildrenActors is None or group not in self.ChildrenActors:
        shared_on(self.SG.SC.SGs[group], self)
    return self.ChildrenActors[group]


@of('sims_pars.simulation.parcore:ParameterCore.find_descendant', 'C20')
def find_descendant(self: 'ParameterCore', address: 'str'):
    sel = self
    for name in address.split('@'):
        sel = sel.Children[name]
    return sel


@of('sims_pars.simulation.parcore:ParameterCore.impulse', 'C21')
def core_impulse(self: 'ParameterCore', imp, bn: 'BayesianNetwork' = None):
    try:
        g = self.SG.SC.BN.DAG
    except AttributeError:
        g = bn.DAG
    if isinstance(imp, dict):
        hit = set()
        for k in imp:
            hit |= nx.descendants(g, k)
        again = {k for k in imp if imp[k] is None}
        given = {k: imp[k] for k in imp if imp[k] is not None}
        hit = {k for k in hit if k not in given} | again
    elif isinstance(imp, list):
        hit = set(imp)
        for k in imp:
            hit |= nx.descendants(g, k)
        given = {}
    else:
        raise AttributeError('imp')
    self._ParameterCore__set_response(given, hit)


@of('sims_pars.simulation.parcore:ParameterCore.__set_response', 'C21')
def cascade(self: 'ParameterCore', imp: 'dict', shocked: 'set'):
    loci = [s for s in shocked if s in self.Locus]
    actors = []
    if self.Actors is not None:
        actors = [k for k in self.Actors if k in shocked and isinstance(self.Actors[k], FrozenSingleActor)]
    hoist = {}
    if self.ChildrenActors is not None:
        for g in self.ChildrenActors:
            hoist[g] = [k for k in self.ChildrenActors[g]
                        if k in shocked and isinstance(self.ChildrenActors[g][k], FrozenSingleActor)]
    self.SG.set_response(imp, loci, actors, hoist, self)
    for chd in self.Children.values():
        chd._ParameterCore__set_response(imp, shocked)


@of('sims_pars.simulation.parcore:ParameterCore.reset_sc', 'C20')
def reset_sc(self: 'ParameterCore', sc: 'SimulationCore'):
    self.SG = sc.SGs[self.SG.Name]
    for chd in self.Children.values():
        chd.reset_sc(sc)


@of('sims_pars.simulation.parcore:ParameterCore.DeepLogPrior', 'C10')
def deep(self: 'ParameterCore'):
    total = self.LogProb
    for chd in self.Children.values():
        total += chd.DeepLogPrior
    return total


@of('sims_pars.simulation.parcore:ParameterCore.__getitem__', 'C20')
def lookup(self: 'ParameterCore', item):
    if item in self.Locus:
        return self.Locus[item]
    if not self.Parent:
        raise KeyError('not found')
    try:
        return self.Parent[item]
    except (AttributeError, KeyError, TypeError):
        raise KeyError('not found')


@of('sims_pars.simulation.parcore:ParameterCore.__iter__', 'C20')
def walk(self: 'ParameterCore'):
    if self.Parent:
        for v in iter(self.Parent):
            yield v
    for k in self.Locus:
        yield k, self.Locus[k]


@of('sims_pars.simulation.parcore:ParameterCore.clone', 'C20 C13')
def core_copy(self: 'ParameterCore', copy_sc=False, include_children=False):
    if self.Parent:
        raise AttributeError('not the root')
    if copy_sc:
        sg = self.SG.SC.clone().SGs[self.Group]
    else:
        sg = self.SG
    out = sg.generate(self.Nickname, exo=dict(self))
    out.LogProb = self.LogProb
    if include_children:
        self._ParameterCore__children_copy(out)
    return out


@of('sims_pars.simulation.parcore:ParameterCore.__children_copy', 'C20 C13')
def children_copy(self: 'ParameterCore', pc_new: 'ParameterCore'):
    for k in self.Children:
        chd = self.Children[k]
        new = pc_new.breed(k, chd.Group, exo=chd.Locus)
        new.LogProb = chd.LogProb
        chd._ParameterCore__children_copy(new)


# ------------------------------------------------------------------ pseudo parameters
@of('sims_pars.simulation.parcore:PseudoParameterCore.breed', 'C20')
def pseudo_breed(self: 'PseudoParameterCore', nickname, group, exo=None):
    from sims_pars.simulation.parcore import PseudoParameterCore
    if nickname in self.Children:
        raise ValueError('exists')
    chd = PseudoParameterCore(nickname, group)
    chd.Parent = self
    self.Children[nickname] = chd
    return chd


@of('sims_pars.simulation.parcore:PseudoParameterCore.detach_from_parent', 'C20')
def pseudo_detach(self: 'PseudoParameterCore', collect_pars=False):
    if self.Parent:
        if self.Nickname in self.Parent.Children:
            del self.Parent.Children[self.Nickname]
        self.Parent = None


@of('sims_pars.simulation.parcore:PseudoParameterCore.remove_children', 'C20')
def pseudo_remove(self: 'PseudoParameterCore', k):
    if k in self.Children:
        chd = self.Children[k]
        del self.Children[k]
        return chd


@of('sims_pars.simulation.parcore:PseudoParameterCore.DeepLogPrior', 'C10')
def pseudo_deep(self: 'PseudoParameterCore'):
    total = 0
    for chd in self.Children.values():
        total += chd.DeepLogPrior
    return total


@of('sims_pars.simulation.parcore:PseudoParameterCore', 'C20')
def make_pseudo(nickname, group='Unknown'):
    from sims_pars.simulation.parcore import PseudoParameterCore
    self = PseudoParameterCore.__new__(PseudoParameterCore)
    self.Locus = {}
    self.LogProb = 0
    self.Nickname = nickname
    self.SG = None
    self.Parent = None
    self.Children = {}
    self.Actors = None
    self.ChildrenActors = None
    self._PseudoParameterCore__group = group
    return self


@of('sims_pars.simulation.parcore:PseudoParameterCore.Group', 'C20')
def pseudo_group(self: 'PseudoParameterCore'):
    return self._PseudoParameterCore__group


@of('sims_pars.simulation.parcore:PseudoParameterCore.get_sibling', 'C20')
def pseudo_sibling(self: 'PseudoParameterCore', nickname, exo=None):
    from sims_pars.simulation.parcore import PseudoParameterCore
    return PseudoParameterCore(nickname, self.Group)


@of('sims_pars.simulation.parcore:PseudoParameterCore.get_prototype', 'C20')
def pseudo_prototype(self: 'PseudoParameterCore', group, exo=None):
    from sims_pars.simulation.parcore import PseudoParameterCore
    return PseudoParameterCore('prototype', group)


@of('sims_pars.simulation.parcore:PseudoParameterCore.duplicate', 'C20')
def pseudo_duplicate(self: 'PseudoParameterCore', nickname):
    from sims_pars.simulation.parcore import PseudoParameterCore
    return PseudoParameterCore(nickname, self.Group)


@of('sims_pars.simulation.parcore:PseudoParameterCore.get_samplers', 'C20')
def pseudo_samplers(self: 'PseudoParameterCore', include_parent=False):
    return {}


@of('sims_pars.simulation.parcore:PseudoParameterCore.get_sampler', 'C20')
def pseudo_sampler(self: 'PseudoParameterCore', sampler, shared=True):
    raise KeyError('no sampler')


@of('sims_pars.simulation.parcore:PseudoParameterCore.get_child', 'C20')
def pseudo_child(self: 'PseudoParameterCore', name):
    return self.Children[name]


@of('sims_pars.simulation.parcore:PseudoParameterCore.find_descendant', 'C20')
def pseudo_find(self: 'PseudoParameterCore', address: 'str'):
    sel = self
    for nm in address.split('@')[1:]:
        sel = sel.get_child(nm)
    return sel


@of('sims_pars.simulation.parcore:PseudoParameterCore.impulse', 'C20')
def pseudo_impulse(self: 'PseudoParameterCore', imp, bn=None):
    return None


@of('sims_pars.simulation.parcore:PseudoParameterCore.reset_sc', 'C20')
def pseudo_reset(self: 'PseudoParameterCore', sc):
    return None


@of('sims_pars.simulation.parcore:PseudoParameterCore.__getitem__', 'C20')
def pseudo_getitem(self: 'PseudoParameterCore', item):
    raise KeyError('not found')


@of('sims_pars.simulation.parcore:PseudoParameterCore.__iter__', 'C20')
def pseudo_iter(self: 'PseudoParameterCore'):
    if self.Parent:
        for v in iter(self.Parent):
            yield v
    for v in self.Locus.items():
        yield v


# ------------------------------------------------------------------ sampler blueprints and node sets
@of('sims_pars.simulation.nodeset:ActorBlueprint', 'C23')
def make_blueprint(name, actor_type, to_read=None, to_sample=None):
    self = ActorBlueprint.__new__(ActorBlueprint)
    self.Name = name
    self.Type = actor_type
    self.ToRead = list(to_read) if to_read else []
    self.ToSample = list(to_sample) if to_sample else []
    return self


@of('sims_pars.simulation.nodeset:ActorBlueprint.compose_actor', 'C23 C22')
def compose(self: 'ActorBlueprint', bn: 'BayesianNetwork'):
    if self.Type is ActorBlueprint.Frozen:
        return FrozenSingleActor(self.Name, bn[self.Name], self.ToRead)
    if self.Type is ActorBlueprint.Single:
        return SingleActor(self.Name, bn[self.Name], self.ToRead)
    return CompoundActor(self.Name, bn[self.Name], self.ToRead, [bn[d] for d in self.ToSample])


@of('sims_pars.simulation.nodeset:NodeSet', 'C24 C36')
def make_nodeset(name, as_fixed=None, as_floating=None):
    self = NodeSet.__new__(NodeSet)
    self.Name = name
    self._NodeSet__parent = None
    self._NodeSet__children = {}
    self._NodeSet__as_fixed = set(as_fixed) if as_fixed else set()
    self._NodeSet__as_floating = set(as_floating) if as_floating else set()
    self.ExoNodes = None
    self.ListeningNodes = None
    self.FixedNodes = None
    self.FloatingNodes = None
    self._NodeSet__was_fixed = None
    self._NodeSet__will_be_floating = None
    self.LocalSamplers = None
    self.SharedSamplers = None
    self._NodeSet__frozen = False
    return self


@of('sims_pars.simulation.nodeset:NodeSet.defrost', 'C24')
def ns_defrost(self: 'NodeSet'):
    self.ExoNodes = None
    self.ListeningNodes = None
    self.FixedNodes = None
    self.FloatingNodes = None
    self._NodeSet__was_fixed = None
    self._NodeSet__will_be_floating = None
    self.LocalSamplers = {}
    self.SharedSamplers = {}
    self._NodeSet__frozen = False


@of('sims_pars.simulation.nodeset:NodeSet.add_child', 'C24', on_raise=True)
def ns_add_child(self: 'NodeSet', ns: 'NodeSet'):
    assert not self._NodeSet__frozen
    self._NodeSet__children[ns.Name] = ns
    ns._NodeSet__parent = self


@of('sims_pars.simulation.nodeset:NodeSet.new_child', 'C24', on_raise=True)
def ns_new_child(self: 'NodeSet', name, as_fixed=None, as_floating=None):
    ns = NodeSet(name, as_fixed, as_floating)
    assert not self._NodeSet__frozen
    self._NodeSet__children[name] = ns
    ns._NodeSet__parent = self
    return ns


@of('sims_pars.simulation.nodeset:NodeSet.Children', 'C24')
def ns_children(self: 'NodeSet'):
    return self._NodeSet__children


@of('sims_pars.simulation.nodeset:NodeSet.Parent', 'C24')
def ns_parent(self: 'NodeSet'):
    return self._NodeSet__parent


@of('sims_pars.simulation.nodeset:NodeSet._validate_initial_conditions', 'C24')
def ns_validate(self: 'NodeSet', bn: 'BayesianNetwork'):
    for ch in self._NodeSet__children.values():
        if not ch._validate_initial_conditions(bn):
            return False
    above = set()
    for k in self._NodeSet__as_fixed:
        above |= nx.ancestors(bn.DAG, k)
    for d in self._NodeSet__as_floating:
        if d not in self._NodeSet__as_fixed and d in above:
            return False
    return True


@of('sims_pars.simulation.nodeset:NodeSet._hoist_node', 'C24')
def ns_hoist(self: 'NodeSet', node):
    if node not in self._NodeSet__was_fixed:
        self.FixedNodes.add(node)
        self._NodeSet__was_fixed.add(node)


@of('sims_pars.simulation.nodeset:NodeSet._raise_up_floating', 'C24')
def ns_raise(self: 'NodeSet'):
    below = set()
    for ch in self._NodeSet__children.values():
        below |= ch._raise_up_floating()
    self._NodeSet__will_be_floating = below
    return below | self.FloatingNodes


@of('sims_pars.simulation.nodeset:NodeSet._claim_used_nodes', 'C24')
def ns_claim(self: 'NodeSet'):
    out = set(self.FixedNodes) | set(self.FloatingNodes)
    for ch in self._NodeSet__children.values():
        out |= ch._claim_used_nodes()
    return out


@of('sims_pars.simulation.nodeset:NodeSet._sort_fixed_nodes', 'C24')
def ns_sort(self: 'NodeSet', bn: 'BayesianNetwork'):
    self.FixedNodes = bn.sort(self.FixedNodes)
    for ch in self._NodeSet__children.values():
        ch._sort_fixed_nodes(bn)


@of('sims_pars.simulation.nodeset:NodeSet._pass_down_undefined', 'C24')
def ns_pass(self: 'NodeSet', bn: 'BayesianNetwork', fixed: 'set', floating: 'set', nodes: 'list'):
    fix = set(self.FixedNodes) | fixed
    flo = set(self.FloatingNodes) | floating | fix
    down = set()
    for node in nodes:
        ps = set(bn[node].Parents)
        if ps <= fix:
            if bn.is_rv(node):
                self.FloatingNodes.add(node)
            else:
                self.FixedNodes.add(node)
        elif ps <= flo:
            self.FloatingNodes.add(node)
        else:
            down.add(node)
    for ch in self._NodeSet__children.values():
        ch._pass_down_undefined(bn, fix, flo, down)


@of('sims_pars.simulation.nodeset:NodeSet.has_floating_blueprint', 'C23')
def ns_has(self: 'NodeSet', node):
    return node in self.LocalSamplers


@of('sims_pars.simulation.nodeset:NodeSet._define_sampler_blueprints', 'C23')
def ns_blueprints(self: 'NodeSet', bn: 'BayesianNetwork'):
    from sims_pars.bayesnet.dag import minimal_requirements
    fixed = self._NodeSet__was_fixed | self.FixedNodes
    self.LocalSamplers = {}
    self.SharedSamplers = {}
    for d in self.FloatingNodes | self._NodeSet__will_be_floating:
        pars = set(bn[d].Parents)
        if pars <= fixed:
            local = ActorBlueprint(d, ActorBlueprint.Frozen, pars, None)
            self.LocalSamplers[d] = local
            if pars & self.FixedNodes:
                self.SharedSamplers[d] = ActorBlueprint(d, ActorBlueprint.Single, pars, None)
            else:
                self.SharedSamplers[d] = local
        else:
            req = minimal_requirements(bn.DAG, d, fixed)
            read = [n for n in req if n in fixed or bn.is_exogenous(n)]
            both = ActorBlueprint(d, ActorBlueprint.Compound, read, [n for n in req if n not in read])
            self.LocalSamplers[d] = both
            self.SharedSamplers[d] = both
    for ch in self._NodeSet__children.values():
        ch._define_sampler_blueprints(bn)


@of('sims_pars.simulation.fn:find_free_parameters', 'C19')
def free_parameters(sm: 'SimulationCore', exo: 'dict' = None):
    p = sm.generate(exo=exo)
    return [k for k in p.Locus if k in sm.BN.RVRoots]


# ------------------------------------------------------------------ allocation of nodes
@of('sims_pars.simulation.nodeset:NodeSet.inject_bn', 'C24', on_raise=True)
def ns_inject(self: 'NodeSet', bn: 'BayesianNetwork'):
    assert not self._NodeSet__frozen
    assert self._validate_initial_conditions(bn)
    self._resolve_local_nodes(bn)
    self._raise_up_floating()
    self._resolve_relations(bn)
    self._locate_undefined(bn)
    self._define_sampler_blueprints(bn)
    self._sort_fixed_nodes(bn)
    self._NodeSet__frozen = True


@of('sims_pars.simulation.nodeset:NodeSet._locate_undefined', 'C24 C23')
def ns_locate(self: 'NodeSet', bn: 'BayesianNetwork'):
    used = self._claim_used_nodes()
    self._pass_down_undefined(bn, set(), set(), [n for n in bn.Order if n not in used])


@of('sims_pars.simulation.nodeset:NodeSet._resolve_local_nodes', 'C24')
def ns_local(self: 'NodeSet', bn: 'BayesianNetwork', fixed: 'set' = None):
    from sims_pars.bayesnet.dag import minimal_dag, minimal_requirements
    g = bn.DAG
    asked = self._NodeSet__as_fixed | self._NodeSet__as_floating
    mini = minimal_dag(g, asked).order()
    # nodes in between: fixed as soon as nothing random is left above them
    self.FixedNodes = set(self._NodeSet__as_fixed)
    self.FloatingNodes = set(self._NodeSet__as_floating)
    self._NodeSet__was_fixed = set(fixed) if self._NodeSet__parent and fixed else set()
    known = self._NodeSet__was_fixed | self.FixedNodes
    for d in g.sort(set(mini) - asked):
        if bn.has_randomness(d, known):
            self.FloatingNodes.add(d)
        else:
            self.FixedNodes.add(d)
            known.add(d)
    # floating nodes that turn out to be determined
    for d in bn.sort(self.FloatingNodes):
        if not bn.has_randomness(d, known):
            self.FloatingNodes.remove(d)
            self.FixedNodes.add(d)
            known.add(d)
    # the root also fixes every root of the network that is not random
    if not self._NodeSet__parent:
        for d in bn.Roots:
            if not bn.has_randomness(d):
                self.FixedNodes.add(d)
                known.add(d)
    listening, exo = set(), set()
    for i, d in enumerate(mini):
        rq = minimal_requirements(g, d, mini[:i])
        if d in self.FloatingNodes:
            listening |= set(rq)
        else:
            exo |= set(rq)
    self.ListeningNodes = listening - set(mini)
    self.ExoNodes = exo - self.FixedNodes
    for ch in self._NodeSet__children.values():
        ch._resolve_local_nodes(bn, known)


@of('sims_pars.simulation.nodeset:NodeSet._resolve_relations', 'C24')
def ns_relations(self: 'NodeSet', bn: 'BayesianNetwork'):
    new = {d for d in self.ExoNodes if d not in self._NodeSet__was_fixed}
    up = [d for d in new if not bn.has_randomness(d, self._NodeSet__was_fixed)]
    here = {d for d in new if bn.has_randomness(d, self._NodeSet__was_fixed)}
    self.ExoNodes.difference_update(here)
    self.FixedNodes.update(here)
    if self._NodeSet__parent:
        for d in up:
            self._NodeSet__parent._hoist_node(d)
    else:
        self.FixedNodes.update(up)
        self.ExoNodes.difference_update(up)
    given = self.FixedNodes | self.ExoNodes | self._NodeSet__was_fixed
    for d in [d for d in self.ListeningNodes if d not in self._NodeSet__was_fixed and not bn.is_exogenous(d)]:
        if bn.has_randomness(d, given):
            self.FloatingNodes.add(d)
        else:
            self.FixedNodes.add(d)
    self.ListeningNodes.difference_update(self.FixedNodes)
    self.ListeningNodes.difference_update(self.FloatingNodes)
    for ch in self._NodeSet__children.values():
        ch._resolve_relations(bn)


@of('sims_pars.simulation.fn:as_simulation_core', 'C24 C19')
def core_of(bn: 'BayesianNetwork', ns: 'NodeSet' = None):
    if not ns:
        ns = NodeSet('Root', None, bn.DAG.leaves())
    ns.inject_bn(bn)
    return SimulationCore(bn, ns)


@of('sims_pars.simulation.fn:get_all_float_sc', 'C24')
def float_core(script):
    from sims_pars.bayesnet.bn import bayes_net_from_script
    from sims_pars.simulation.fn import as_simulation_core
    bn = bayes_net_from_script(script)
    return as_simulation_core(bn, NodeSet('Root', as_floating=bn.Order))


@of('sims_pars.simulation.fn:get_all_fixed_sc', 'C24')
def fixed_core(script):
    from sims_pars.bayesnet.bn import bayes_net_from_script
    from sims_pars.simulation.fn import as_simulation_core
    bn = bayes_net_from_script(script)
    return as_simulation_core(bn, NodeSet('Root', as_fixed=bn.Order))


def groups_of(ns, out):
    out[ns.Name] = SimulationGroup(ns)
    if ns.Children:
        for ch in ns.Children.values():
            groups_of(ch, out)


@of('sims_pars.simulation.simucore:SimulationCore', 'C19 C24')
def make_core(bn: 'BayesianNetwork', root: 'NodeSet' = None):
    from sims_pars.simulation.simucore import get_simulation_groups
    self = SimulationCore.__new__(SimulationCore)
    self.Name = bn.Name
    self.BN = bn
    self.RootNode = root
    self.RootSG = root.Name
    self.SGs = get_simulation_groups(root)
    for sg in self.SGs.values():
        sg.set_simulation_core(self)
    return self
