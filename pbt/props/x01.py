"""X01: NetworkX functions give the same answers on pymnet networks as on equal NetworkX graphs."""
import re
import random
from hypothesis import strategies as st
from pbt.harness import case, check, raises, fail
from pbt.model import build, ref, same_state, links_of
from pbt import gen

CASES = []
MONO = st.one_of(gen.ml_spec(aspects=(0,), directed=(False,), weights=gen.weights_pos, loops=False, min_nodes=3, max_nodes=7, dense=True),
                 gen.ml_spec(aspects=(0,), directed=(False,), weights=gen.weights_pos, loops=False, min_nodes=2, max_nodes=7))

UNARY = """number_connected_components connected_components is_connected clustering average_clustering transitivity triangles degree_centrality
betweenness_centrality closeness_centrality core_number is_bipartite density find_cliques is_eulerian floyd_warshall number_of_selfloops
degree_histogram to_dict_of_lists average_neighbor_degree square_clustering isolates eccentricity center diameter radius periphery
harmonic_centrality edge_betweenness_centrality articulation_points bridges biconnected_components is_tree is_forest number_of_nodes number_of_edges
nodes degree number_of_isolates all_pairs_shortest_path_length all_pairs_dijkstra_path_length
non_edges local_efficiency global_efficiency wiener_index node_connectivity edge_connectivity s_metric is_weighted""".split()
GRAPHS = "k_core complement k_shell create_empty_copy power".split()
# answers that depend on the order of nodes or on ties: only what is determined is compared
LOOSE = {"minimum_spanning_tree": "weight", "maximum_spanning_tree": "weight", "convert_node_labels_to_integers": "shape",
         "line_graph": "shape", "disjoint_union(G)": "shape"}
GRAPHS += sorted(LOOSE)
NARY = {
    "shortest_path_length": lambda m, G, a, b: m.shortest_path_length(G, a),
    "dijkstra_path_length": lambda m, G, a, b: m.dijkstra_path_length(G, a, b),
    "has_path": lambda m, G, a, b: m.has_path(G, a, b),
    "clustering-kw": lambda m, G, a, b: m.clustering(G=G, nodes=[a, b], weight="weight"),
    "common_neighbors": lambda m, G, a, b: m.common_neighbors(G, a, b),
    "jaccard": lambda m, G, a, b: m.jaccard_coefficient(G),
    "weighted_degree": lambda m, G, a, b: m.degree(G, weight="weight"),
    "betweenness-w": lambda m, G, a, b: m.betweenness_centrality(G, weight="weight"),
    "closeness-kw": lambda m, G, a, b: m.closeness_centrality(G, u=a),
    "ego": lambda m, G, a, b: m.ego_graph(G, a),
    "subgraph": lambda m, G, a, b: m.subgraph(G, [a, b]),
    "induced": lambda m, G, a, b: m.induced_subgraph(G, [n for n in G if n != a]),
    "relabel": lambda m, G, a, b: m.relabel_nodes(G, {a: "new-1"}),
    "compose": lambda m, G, a, b: m.compose(G, G),
    "disjoint_union(G)": lambda m, G, a, b: m.disjoint_union(G, G),
    "cartesian": lambda m, G, a, b: m.cartesian_product(G, G),
    "iso": lambda m, G, a, b: m.is_isomorphic(G, G),
    "number_of_paths": lambda m, G, a, b: m.all_simple_paths(G, a, b, cutoff=3),
    "spl-missing-node": lambda m, G, a, b: m.shortest_path_length(G, "no such node"),
    "laplacian": lambda m, G, a, b: m.laplacian_matrix(G, nodelist=sorted(G, key=repr)),
    "adjacency": lambda m, G, a, b: m.adjacency_matrix(G, nodelist=sorted(G, key=repr)),
    "numpy": lambda m, G, a, b: m.to_numpy_array(G, nodelist=sorted(G, key=repr)),
    "difference": lambda m, G, a, b: m.difference(G, G),
}


def native(g):
    import networkx
    G = networkx.Graph()
    G.add_nodes_from(u[0] for u in sorted(g.nls, key=repr))
    for k, w in g.links().items():
        k = sorted((u[0] for u in k), key=repr)
        G.add_edge(k[0], k[-1], weight=w)
    return G


PAIRS = {"edge_betweenness_centrality", "bridges", "non_edges", "jaccard"}     # node pairs whose order means nothing


def pairs(x):
    """Forget the order of the first two entries of each tuple (of the keys, for dicts)."""
    if isinstance(x, dict):
        return {frozenset(k): v for k, v in x.items()}
    return [(frozenset(t[:2]),) + tuple(t[2:]) for t in x]


def norm(x):
    import networkx
    from pymnet.net import MultilayerNetwork
    if isinstance(x, MultilayerNetwork):
        return ("graph", frozenset(x), frozenset((frozenset(e[:2]), e[2]) for e in x.edges))
    if isinstance(x, networkx.Graph):
        return ("graph", frozenset(x.nodes), frozenset((frozenset(e[:2]), e[2].get("weight", 1)) for e in x.edges(data=True)))
    if hasattr(x, "todense"):
        x = x.todense()
    if hasattr(x, "tolist"):
        x = x.tolist()
        tup = lambda y: tuple(map(tup, y)) if isinstance(y, list) else y
        return norm(tup(x))
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return round(float(x), 7) + 0.0          # 2 and 2.0 are the same answer
    if isinstance(x, dict):
        return sorted(((repr(norm(k)), repr(norm(v))) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return sorted(repr(norm(y)) for y in x)
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if hasattr(x, "__iter__") and not isinstance(x, str):
        return sorted(repr(norm(y)) for y in x)
    return x


def loosely(r, how):
    """What is determined of a graph result: number of nodes, degrees, weights, components."""
    import networkx
    G = networkx.Graph()
    G.add_nodes_from(list(r.nodes))
    G.add_weighted_edges_from([(e[0], e[1], e[2].get("weight", 1)) for e in r.edges(data=True)])
    comps = sorted(len(c) for c in networkx.connected_components(G))
    if how == "weight":
        return ("graph", frozenset(G), G.number_of_edges(), round(sum(w for _, _, w in G.edges(data="weight")), 7), comps)
    return ("graph", sorted(d for _, d in G.degree()), sorted(round(d, 7) for _, d in G.degree(weight="weight")), comps)


def wrapped(r):
    import networkx
    from pymnet import nxwrap
    return r if isinstance(r, networkx.Graph) else nxwrap.autowrap(r)


def outcome(f):
    try:
        return ("value", norm(f()))
    except Exception as e:
        return ("raises", type(e).__name__)


def intact(original):
    import networkx
    check(networkx.Graph is original, "networkx.Graph was left replaced")
    check(type(networkx.Graph([(1, 2)])) is original, "networkx makes other graphs")


@case(CASES, lambda: st.tuples(MONO, st.lists(st.sampled_from(UNARY + GRAPHS + sorted(NARY) * 2), min_size=1, max_size=6, unique=True), st.integers(0, 99), st.integers(0, 99)),
      quick=1500, rule="the network has two links or more")
def functions(x, rec):
    import networkx
    from pymnet import nx
    spec, names, ia, ib = x
    net, g = build(spec), ref(spec)
    ns = sorted((u[0] for u in g.nls), key=repr)
    a, b = ns[ia % len(ns)], ns[ib % len(ns)]
    original = networkx.Graph
    for name in names:
        f = NARY.get(name) or (lambda m, G, a, b: getattr(m, name)(G))
        p = pairs if name in PAIRS else (lambda r: loosely(wrapped(r), LOOSE[name])) if name in LOOSE else (lambda r: r)
        exp = outcome(lambda: p(f(networkx, native(g), a, b)))
        got = outcome(lambda: p(f(nx, net, a, b)))
        try:
            check(got == exp, "%s gives %r on the pymnet network, %r on the equal NetworkX graph" % (name, got, exp))
            intact(original)
        finally:
            networkx.Graph = original
        same_state(net, g, check, "network after %s:" % name)
        rec.label("raises" if exp[0] == "raises" else "graph" if isinstance(exp[1], tuple) and exp[1][:1] == ("graph",) else "value")
        if isinstance(exp[1], tuple) and exp[1][:1] == ("graph",):
            from pymnet.net import MultilayerNetwork
            r = f(nx, net, a, b)
            check(isinstance(r, MultilayerNetwork) and r.aspects == 0, "%s returns %r, not a pymnet network" % (name, type(r)))
            if True:
                r[a, "brand-new"] = 9
                same_state(net, g, check, "network after its %s was changed:" % name)
    rec.nontrivial(len(g.links()) > 1)


GENERATORS = ["gnp_random_graph(%(n)d,0.5,seed=%(s)d)", "fast_gnp_random_graph(%(n)d,0.4,seed=%(s)d)", "gnm_random_graph(%(n)d,2,seed=%(s)d)",
              "barabasi_albert_graph(%(n)d,2,seed=%(s)d)", "path_graph(%(n)d)", "complete_graph(%(n)d)", "star_graph(%(n)d)", "cycle_graph(%(n)d)",
              "watts_strogatz_graph(%(n)d,2,0.4,seed=%(s)d)", "newman_watts_strogatz_graph(%(n)d,2,0.4,seed=%(s)d)", "grid_2d_graph(2,%(n)d)",
              "complete_bipartite_graph(2,%(n)d)", "random_regular_graph(2,%(n)d,seed=%(s)d)", "petersen_graph()", "hypercube_graph(3)", "wheel_graph(%(n)d)",
              "random_tree(%(n)d,seed=%(s)d)", "empty_graph(%(n)d)", "karate_club_graph()", "grid_graph([2,%(n)d])", "florentine_families_graph()",
              "les_miserables_graph()", "circulant_graph(%(n)d,[1,2])", "ladder_graph(%(n)d)", "balanced_tree(2,2)", "stochastic_block_model([3,3],[[.5,.1],[.1,.5]],seed=%(s)d)",
              "from_edgelist([(1,2),(2,%(n)d)])"]


@case(CASES, lambda: st.tuples(st.sampled_from(GENERATORS), st.integers(3, 8), st.integers(0, 10 ** 6)), quick=400, rule="always")
def generators(x, rec):
    import networkx
    from pymnet import nx
    from pymnet.net import MultilayerNetwork
    expr, n, s = x
    expr = expr % {"n": n, "s": s}
    original = networkx.Graph
    G = eval("m." + expr, {"m": networkx})
    net = eval("m." + expr, {"m": nx})
    intact(original)
    check(isinstance(net, MultilayerNetwork) and net.aspects == 0 and not net.directed, "%s returns %r" % (expr, type(net)))
    if "seed" in expr and list(net) != list(G):   # networks are sets of nodes: what is drawn may depend on the order
        check(set(net) == set(G), "%s has the nodes %r, NetworkX has %r" % (expr, list(net), list(G)))
        if re.match("gnm|watts|random_regular|random_tree|barabasi", expr):
            check(len(list(net.edges)) == G.number_of_edges(), "%s has %d links, NetworkX has %d" % (expr, len(list(net.edges)), G.number_of_edges()))
        rec.label("other order")
    else:
        check(norm(net) == norm(G), "%s: %r, NetworkX has %r" % (expr, norm(net), norm(G)))
    rec.nontrivial()


@case(CASES, lambda: st.tuples(MONO, st.lists(st.tuples(st.sampled_from(["add_edge", "add_edge_w", "add_edge_attr", "add_node", "remove_edge", "net", "netdel", "del_weight", "item_other", "edges_from", "weighted_from", "item", "copy", "adj_item", "adj_del", "edge_copy", "loop"]),
                                                         st.integers(0, 6), st.integers(0, 6), st.sampled_from([1, 2, 0.5, 3, 0])), min_size=1, max_size=12), st.booleans()),
      quick=900, rule="two or more changes through the wrapper")
def view_history(x, rec):
    """The wrapper is a live two-way view: changes on either side are seen on the other."""
    import networkx
    from pymnet import nxwrap
    spec, ops, tup = x
    net, g = build(spec), ref(spec)
    V = nxwrap.autowrap(net)
    pool = sorted((u[0] for u in g.nls), key=repr) + (["q1", "q2", ("t", 1)] if tup else ["q1", "q2", "q3"])
    rn = 0
    for op, i, j, w in ops:
        a, b = pool[i % len(pool)], pool[j % len(pool)]
        k = frozenset([(a,), (b,)])
        tuples = isinstance(a, tuple) or isinstance(b, tuple)
        if w == g.noedge:
            w = 4
        if op == "loop":
            b, op = a, ["add_edge_w", "net", "remove_edge", "add_edge"][j % 4]
            k, tuples = frozenset([(a,)]), isinstance(a, tuple)
        elif a == b and op != "add_node":
            continue
        if op == "add_edge":
            V.add_edge(a, b)
            g.set((a,), (b,), g.w((a,), (b,)) if (a,) in g.nls and (b,) in g.nls and g.w((a,), (b,)) != g.noedge else 1)
        elif op == "add_edge_w":
            V.add_edge(a, b, weight=w)
            g.set((a,), (b,), w)
        elif op == "add_edge_attr":
            V.add_edge(a, b, colour="red", weight=w)
            g.set((a,), (b,), w)
        elif op == "add_node":
            V.add_node(a)
            g.add_node(a)
        elif op == "remove_edge":
            if k in g.links():
                V.remove_edge(a, b)
                g.set((a,), (b,), g.noedge)
        elif op == "net" and not tuples:
            net[a, b] = w
            g.set((a,), (b,), w)
        elif op == "netdel" and not tuples and (a,) in g.nls and (b,) in g.nls:
            net[a, b] = g.noedge
            g.set((a,), (b,), g.noedge)
        elif op == "edges_from":
            V.add_edges_from([(a, b, {"weight": w})])
            g.set((a,), (b,), w)
        elif op == "weighted_from":
            V.add_weighted_edges_from([(a, b, w)])
            g.set((a,), (b,), w)
        elif op == "item" and k in g.links():
            V[a][b]["weight"] = w
            g.set((a,), (b,), w)
        elif op == "del_weight" and k in g.links():
            del V[a][b]["weight"]
            g.set((a,), (b,), g.noedge)
        elif op == "item_other" and k in g.links():
            V[a][b]["colour"] = w               # only weights are stored
            check("colour" not in V[a][b], "an attribute other than the weight appeared")
        elif op == "adj_item" and (a,) in g.nls:
            V.adj[a]            # the read-only view of NetworkX
            V._adj[a][b] = {"weight": w} if i % 2 else {}
            g.set((a,), (b,), w if i % 2 else 1)
        elif op == "adj_del" and k in g.links():
            del V._adj[a][b]
            g.set((a,), (b,), g.noedge)
        elif op == "edge_copy" and k in g.links():
            c, d = V._adj[a][b].copy(), V._adj[a].copy()
            check(set(d) == {v for v in [x[0] for x in g.nls] if frozenset([(a,), (v,)]) in g.links()}, "copied neighbourhood")
            c["weight"] = 77
            del d[b]            # copies are independent
        elif op == "copy":
            if 0 in g.links().values():
                continue        # see the finding on links of weight zero
            C = V.copy()
            check(norm(C) == norm(V), "copy of the wrapper differs")
            C.add_edge("zz", "yy")
        if op not in ("net", "netdel", "copy"):
            rn += 1
        G = native(g)
        check(set(V.nodes) == set(G.nodes) and len(V) == len(G), "nodes %r, expected %r" % (set(V.nodes), set(G.nodes)))
        check(norm(V) == norm(G), "wrapper shows %r, expected %r" % (norm(V), norm(G)))
        check(V.number_of_edges() == G.number_of_edges() and dict(V.degree()) == dict(G.degree()), "edge count or degrees")
        if not any(isinstance(u[0], tuple) for u in g.nls):
            same_state(net, g, check, "network behind the wrapper after %s:" % op)
        for u in G:
            check(len(V[u]) == len(G[u]), "number of neighbours of", u)
            check(set(V[u]) == set(G[u]) and set(V.neighbors(u)) == set(G[u]), "neighbours of", u)
            for v in G:
                check(V.has_edge(u, v) == G.has_edge(u, v), "has_edge", u, v)
                if G.has_edge(u, v):
                    check(V[u][v]["weight"] == G[u][v]["weight"] and dict(V[u][v]) == {"weight": G[u][v]["weight"]}, "weight")
    check("nobody" not in V and raises(KeyError, lambda: V["nobody"]) and raises(KeyError, lambda: V[pool[0]]["nobody"]) or (pool[0],) not in g.nls, "missing nodes")
    rec.nontrivial(rn > 1)
    rec.label("tuples" if tup else "plain")


@case(CASES, lambda: st.one_of(gen.ml_spec(min_nodes=2), gen.mx_spec(min_nodes=2)), quick=200, rule="the network is directed or has aspects")
def domain(spec, rec):
    """Only undirected monoplex networks are wrapped; layers of multiplex networks are."""
    from pymnet import nx, nxwrap
    import networkx
    net, g = build(spec), ref(spec, couplings=False)
    if spec["aspects"] or spec["directed"]:
        check(raises(AssertionError, lambda: nx.number_of_nodes(net)), "a network that is no undirected monoplex was wrapped")
        rec.nontrivial()
    original = networkx.Graph
    if spec["kind"] == "mx" and spec["aspects"] == 1 and not spec["directed"]:
        for l in g.dims[1]:
            A = net.A[l]
            mem = {u[0] for u in g.nls if u[1] == l}
            G = networkx.Graph()
            G.add_nodes_from(mem)
            for k in g.links():
                if next(iter(k))[1] == l:
                    G.add_edge(*[u[0] for u in k])
            check(nx.number_connected_components(A) == networkx.number_connected_components(G), "components of layer", l)
            rec.label("layer")
    intact(original)


TGEN = {"grid2": lambda m, n: m.grid_2d_graph(2, n), "grid3": lambda m, n: m.grid_graph([2, 2, n]), "hyper": lambda m, n: m.hypercube_graph(3),
        "product": lambda m, n: m.cartesian_product(m.path_graph(2), m.cycle_graph(n + 1)), "product3": lambda m, n: m.cartesian_product(m.grid_2d_graph(2, 2), m.star_graph(n)),
        "edges": lambda m, n: m.from_edgelist([((i, j), (j, i + 1)) for i in range(n) for j in range(2)])}
TQUERY = {
    "splkw": lambda m, G, a, b: m.shortest_path_length(G, source=a, target=b),
    "hp-kw": lambda m, G, a, b: m.has_path(G, source=a, target=b),
    "ego-kw": lambda m, G, a, b: m.ego_graph(G, n=a),
    "closeness-kw": lambda m, G, a, b: m.closeness_centrality(G, u=b),
    "clustering-one": lambda m, G, a, b: m.clustering(G, nodes=a),
    "clustering-some": lambda m, G, a, b: m.clustering(G, nodes=[a, b]),
    "component": lambda m, G, a, b: m.node_connected_component(G, n=b),
    "degree": lambda m, G, a, b: m.degree(G, a),
    "bfs": lambda m, G, a, b: m.single_source_shortest_path_length(G, source=a),
    "ecc": lambda m, G, a, b: m.eccentricity(G, v=a),
    "core": lambda m, G, a, b: m.core_number(G),
    "both": lambda m, G, a, b: m.compose(G=G, H=m.path_graph(3)),
    "compose2": lambda m, G, a, b: m.compose(G, m.grid_2d_graph(3, 2)),
}


@case(CASES, lambda: st.tuples(st.sampled_from(sorted(TGEN)), st.integers(2, 4), st.lists(st.integers(0, 9), min_size=16, max_size=16),
                               st.lists(st.sampled_from(sorted(TQUERY) * 3 + [f for f in UNARY + GRAPHS if f not in LOOSE] + sorted(set(NARY) - set(LOOSE) - {"iso", "number_of_paths", "cartesian"})), min_size=1, max_size=5, unique=True),
                               st.integers(0, 99), st.integers(0, 99)), quick=300, rule="some link remains")
def tuple_nodes(x, rec):
    """The networks NetworkX generates can have tuples as nodes; they can be used like others."""
    import networkx
    from pymnet import nx
    how, n, keep, names, ia, ib = x
    original = networkx.Graph
    G0, N0 = TGEN[how](networkx, n), TGEN[how](nx, n)
    check(norm(N0) == norm(G0), "%s: %r, NetworkX has %r" % (how, norm(N0), norm(G0)))
    ns = sorted(G0, key=repr)
    sub = [v for i, v in enumerate(ns) if keep[i % 16] > 0] or ns
    G, net = networkx.Graph(networkx.subgraph(G0, sub)), nx.subgraph(N0, sub)
    check(norm(net) == norm(G), "subgraph of %s: %r, NetworkX has %r" % (how, norm(net), norm(G)))
    networkx.set_edge_attributes(G, 1, "weight")        # links of pymnet networks always have a weight
    a, b = sub[ia % len(sub)], sub[ib % len(sub)]
    for name in names:
        f = TQUERY.get(name) or NARY.get(name) or (lambda m, G, a, b: getattr(m, name)(G))
        p = pairs if name in PAIRS else (lambda r: r)
        exp = outcome(lambda: p(f(networkx, G, a, b)))
        got = outcome(lambda: p(f(nx, net, a, b)))
        try:
            check(got == exp, "%s of %s with nodes %r and %r gives %r, NetworkX gives %r" % (name, how, a, b, got, exp))
            intact(original)
        finally:
            networkx.Graph = original
        check(norm(net) == norm(G), "network after %s:" % name)
        rec.label("raises" if exp[0] == "raises" else "value")
    rec.nontrivial(G.number_of_edges() > 0)
    rec.label(how)


# edge_connectivity: with self-links the result of NetworkX depends on the order of the nodes
gen.again(CASES, "functions_with_self_links", functions, st.tuples(gen.ml_spec(aspects=(0,), directed=(False,), weights=gen.weights_pos, loops=True, min_nodes=3, max_nodes=7, dense=True),
          st.lists(st.sampled_from([f for f in UNARY + GRAPHS + sorted(NARY) * 2 if f != "edge_connectivity"]), min_size=1, max_size=6, unique=True), st.integers(0, 99), st.integers(0, 99)),
          quick=300, rule="the network has two links or more")
gen.again(CASES, "functions_on_larger_networks", functions, st.tuples(gen.big_spec(kind=("ml",), aspects=(0,), directed=(False,), loops=False, weights="pos", nodes=(10, 25), degree=(2, 3, 4)),
          st.lists(st.sampled_from([f for f in UNARY + GRAPHS + sorted(NARY) if f not in ("iso", "number_of_paths", "find_cliques")]), min_size=1, max_size=4, unique=True),
          st.integers(0, 99), st.integers(0, 99)), quick=60, rule="the network has two links or more")



def node_removal(spec, rec):
    """Finding: functions that remove nodes from copies do not work."""
    import networkx
    from pymnet import nx
    net, g = build(spec), ref(spec)
    try:
        r = nx.contracted_nodes(net, 1, 2)
    except Exception as e:
        fail("%s: %s" % (type(e).__name__, e))
    check(norm(r) == norm(networkx.contracted_nodes(native(g), 1, 2)), "contracted graph differs")


def node_attributes(args, rec):
    """Finding: node attributes are not stored."""
    from pymnet import nx
    try:
        nx.random_geometric_graph(*args, seed=1)
    except Exception as e:
        fail("random_geometric_graph raises %s" % type(e).__name__)


def zero_weights(spec, rec):
    """Finding: new networks have noEdge=0, so that links of weight zero of a network with another noEdge are lost in them."""
    from pymnet import nx
    net, g = build(spec), ref(spec)
    r = nx.create_empty_copy(net)
    r = nx.relabel_nodes(net, {1: 11})
    check(len(r.edges) == len(net.edges), "relabelled network has %d links of %d" % (len(r.edges), len(net.edges)))


PROBES = {"zero_weights": zero_weights, "node_removal": node_removal, "node_attributes": node_attributes}
