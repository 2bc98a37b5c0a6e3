"""Reference model of the dependency-graph queries."""
import networkx as nx
from sims_pars.bayesnet.dag import DAG


@of('sims_pars.bayesnet.dag:DAG.parents', 'C07 C01')
def parents(self: 'DAG', node):
    return set(self.predecessors(node))


@of('sims_pars.bayesnet.dag:DAG.children', 'C07 C01')
def children(self: 'DAG', node):
    return set(self.successors(node))


@of('sims_pars.bayesnet.dag:DAG.ancestors', 'C07')
def ancestors(self: 'DAG', node):
    return set(nx.ancestors(self, node))


@of('sims_pars.bayesnet.dag:DAG.descendants', 'C07')
def descendants(self: 'DAG', node):
    return set(nx.descendants(self, node))


@of('sims_pars.bayesnet.dag:DAG.upstream', 'C07')
def upstream(self: 'DAG', nodes):
    out = set()
    for d in nodes:
        out |= nx.ancestors(self, d)
    return out


@of('sims_pars.bayesnet.dag:DAG.downstream', 'C07')
def downstream(self: 'DAG', nodes):
    out = set()
    for d in nodes:
        out |= nx.descendants(self, d)
    return out


@of('sims_pars.bayesnet.dag:get_offsprings', 'C07')
def get_offsprings(g: 'DAG', nodes):
    out = set()
    for d in nodes:
        out |= nx.descendants(g, d)
    return out


@of('sims_pars.bayesnet.dag:DAG.roots', 'C07 C03')
def roots(self: 'DAG'):
    return [k for k in self.nodes() if not set(self.predecessors(k))]


@of('sims_pars.bayesnet.dag:DAG.leaves', 'C07 C03')
def leaves(self: 'DAG'):
    return [k for k in self.nodes() if not set(self.successors(k))]


@of('sims_pars.bayesnet.dag:DAG.order', 'C07 C03')
def order(self: 'DAG'):
    return list(nx.topological_sort(self))


@of('sims_pars.bayesnet.dag:DAG.sort', 'C07')
def sort(self: 'DAG', nodes):
    return [n for n in nx.topological_sort(self) if n in nodes]


@of('sims_pars.bayesnet.dag:DAG.remove_upstream', 'C07')
def remove_upstream(self: 'DAG', nodes):
    if not isinstance(nodes, list):
        nodes = [nodes]
    for n in list(nx.topological_sort(self)):
        if n not in nodes and set(nodes) & nx.descendants(self, n):
            self.remove_node(n)


@of('sims_pars.bayesnet.dag:DAG.remove_downstream', 'C07')
def remove_downstream(self: 'DAG', nodes):
    if not isinstance(nodes, list):
        nodes = [nodes]
    for n in reversed(list(nx.topological_sort(self))):
        if n not in nodes and set(nodes) & nx.ancestors(self, n):
            self.remove_node(n)


@of('sims_pars.bayesnet.dag:DAG.check_acyclic', 'C07')
def check_acyclic(self: 'DAG'):
    return nx.is_directed_acyclic_graph(self)


@of('sims_pars.bayesnet.dag:DAG.remove_in_edges', 'C07 C04')
def remove_in_edges(self: 'DAG', node):
    for p in list(self.predecessors(node)):
        self.remove_edge(p, node)


@of('sims_pars.bayesnet.dag:DAG.remove_out_edges', 'C07')
def remove_out_edges(self: 'DAG', node):
    for c in list(self.successors(node)):
        self.remove_edge(node, c)


@of('sims_pars.bayesnet.dag:get_sufficient_nodes', 'C07 C09 C24')
def get_sufficient_nodes(g: 'DAG', included, given: 'list' = None):
    cut = g.copy()
    for n in given or []:
        for p in list(cut.predecessors(n)):
            cut.remove_edge(p, n)
    out = set(included)
    for n in included:
        out |= nx.ancestors(cut, n)
    return out



@of('sims_pars.bayesnet.dag:get_minimal_nodes', 'C07 C24')
def get_minimal_nodes(g: 'DAG', included, given: 'list' = None):
    return {n for n in get_sufficient_nodes(g, included, given) if n not in (given or [])}


@of('sims_pars.bayesnet.dag:minimal_requirements', 'C07 C06')
def minimal_requirements(g: 'DAG', target, cond: 'list'):
    given = [s for s in cond if s in g and s != target]
    need = get_sufficient_nodes(g, [target], given)
    return [n for n in nx.topological_sort(g) if n in need and n != target]


@of('sims_pars.bayesnet.dag:merge_dag', 'C07')
def merge_dag(g1: 'DAG', g2: 'DAG'):
    return nx.compose(g1, g2)


@of('sims_pars.bayesnet.dag:minimal_dag', 'C07')
def minimal_dag(g: 'DAG', nodes):
    order = [n for n in nx.topological_sort(g) if n in nodes]
    keep = set(order)
    for i in range(len(order)):
        for j in range(i, len(order)):
            for path in nx.all_simple_paths(g, order[i], order[j]):
                keep.update(path)
    return g.subgraph(keep)
