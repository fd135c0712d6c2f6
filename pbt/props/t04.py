"""T04: thresholding, underlying graph and layer-wise randomisation keep exactly what they should."""
import ast, itertools
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import Ref, build, ref, key, link, same_state, links_of
from pbt import gen

CASES = []
RULES = {">=": lambda w, t: w >= t, "<=": lambda w, t: w <= t, ">": lambda w, t: w > t, "<": lambda w, t: w < t}
anynet = st.one_of(gen.ml_spec(min_nodes=1), gen.mx_spec(min_nodes=1), gen.ml_spec(min_nodes=3, dense=True),
                   gen.mx_spec(min_nodes=3, dense=True), gen.mx_spec(min_nodes=2, kinds=("none",)))


@case(CASES, lambda: st.tuples(anynet, st.sampled_from([1, 2, 0.5, 0, -1, 3, 1.0]), st.sampled_from([None, ">=", "<=", ">", "<"])),
      quick=1200, rule="some links are kept and some dropped")
def threshold(x, rec):
    from pymnet import transforms
    from pymnet.net import MultiplexNetwork
    spec, t, rule = x
    net, g = build(spec), ref(spec)
    out = transforms.threshold(net, t) if rule is None else transforms.threshold(net, t, method=rule)
    r = g.copy()
    r.E = {k: w for k, w in g.E.items() if RULES[rule or ">="](w, t)}
    check(out.directed == net.directed and out.noEdge == net.noEdge and out.aspects == net.aspects
          and out.fullyInterconnected == net.fullyInterconnected, "parameters of the thresholded network")
    uncoupled = spec["kind"] == "mx" and all(c is None or c == "none" for c in spec["couplings"])
    if uncoupled:
        check(type(out) is MultiplexNetwork, "thresholding an uncoupled multiplex network gives", type(out))
    same_state(out, r, check, "threshold %s %r:" % (rule, t))
    same_state(net, g, check, "original after threshold:")
    check(raises(Exception, lambda: transforms.threshold(net, t, method="==")) or not g.E, "unknown rule is accepted")
    # both sides of the cut partition the links
    opp = {">=": "<", "<=": ">", ">": "<=", "<": ">=", None: "<"}[rule]
    other = transforms.threshold(net, t, method=opp)
    check(len(out.edges) + len(other.edges) == len(net.edges), "the two sides of the cut do not partition the links")
    rec.nontrivial(0 < len(r.E) < len(g.E))
    rec.label(spec["kind"], "rule" + str(rule), "fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected")


@case(CASES, lambda: anynet, quick=700, rule="at least two links")
def underlying_graph(spec, rec):
    """One node per node-layer, named by its string; links carried over."""
    from pymnet import transforms
    net, g = build(spec), ref(spec)
    out = transforms.get_underlying_graph(net)
    r = Ref(0, g.directed, g.noedge)
    for u in g.nls:
        r.add_node(str(u))
    for (u, v), w in g.E.items():
        r.E[((str(u),), (str(v),))] = w
    same_state(out, r, check, "underlying graph:")
    check({ast.literal_eval(n) for n in out} == g.nls, "node names do not evaluate back to the node-layers")
    same_state(net, g, check, "original:")
    rec.nontrivial(len(g.links()) >= 2)
    rec.label(spec["kind"], "asp%d" % spec["aspects"])


@case(CASES, lambda: st.tuples(st.one_of(gen.mx_spec(aspects=(1,), min_nodes=2), gen.mx_spec(aspects=(1,), min_nodes=3, dense=True)),
                               st.integers(0, 10 ** 6)), quick=400, rule="some layer has at least one link")
def randomized_layers(x, rec):
    """Each layer of randomize_nodes_by_layer is the original layer with its nodes permuted."""
    import random
    import networkx as nx
    from pymnet import transforms
    spec, seed = x
    net, g = build(spec), ref(spec)
    random.seed(seed)
    out = transforms.randomize_nodes_by_layer(net)
    check(type(out) is type(net) and out.couplings == net.couplings and out.directed == net.directed, "kind of network")
    check(set(out.slices[1]) == g.dims[1], "layers changed")

    def tonx(A):
        G = nx.DiGraph() if A.directed else nx.Graph()
        G.add_nodes_from(A)
        for e in A.edges:
            G.add_edge(e[0], e[1], w=e[2])
        return G
    for l in g.dims[1]:
        a, b = net.A[l], out.A[l]
        check(set(a) == set(b), "node set of layer %r changed: %r -> %r" % (l, set(a), set(b)))
        check(len(a.edges) == len(b.edges), "number of links of layer %r changed" % (l,))
        check(nx.is_isomorphic(tonx(a), tonx(b), edge_match=lambda x, y: x["w"] == y["w"]), "layer %r is not a node permutation of the original" % (l,))
    same_state(net, g, check, "original:")
    rec.nontrivial(any(len(net.A[l].edges) for l in g.dims[1]))
    rec.label("fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected")
    return out


@case(CASES, lambda: st.integers(0, 1000), quick=12, rule="always")
def randomization_moves_nodes(seed, rec):
    """Layers are permuted independently and not always by the identity."""
    import random
    from pymnet import transforms
    from pymnet.net import MultiplexNetwork
    net = MultiplexNetwork()
    for i in range(12):
        net[i, i + 1, "a"] = 1
        net[i, i + 1, "b"] = 1
    random.seed(seed)
    moved = agree = 0
    for _ in range(5):
        out = transforms.randomize_nodes_by_layer(net)
        ea, eb = {frozenset(e[:2]) for e in out.A["a"].edges}, {frozenset(e[:2]) for e in out.A["b"].edges}
        moved += ea != {frozenset(e[:2]) for e in net.A["a"].edges}
        agree += ea == eb
    check(moved > 0, "five randomisations left a 13-node path unchanged")
    check(agree < 5, "the layers are permuted identically every time")
    rec.nontrivial()


@case(CASES, lambda: st.tuples(st.integers(0, 10 ** 6), st.sampled_from([3, 4]), st.booleans(), st.booleans()), quick=6, rule="always")
def permutations_are_uniform(x, rec):
    """Every permutation of a layer's nodes is equally likely, whatever happens in the other layer."""
    import math
    import random
    from pymnet import transforms
    from pymnet.net import MultiplexNetwork
    seed, n, directed, fi = x
    net = MultiplexNetwork(directed=directed, fullyInterconnected=fi)
    w = itertools.count(1)
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for l in "ab":
        for i, j in pairs:
            net[i, j, l] = next(w)
    random.seed(seed)
    perms, N = math.factorial(n), 100 * math.factorial(n)
    count, both = Counter(), 0
    for _ in range(N):
        out = transforms.randomize_nodes_by_layer(net)
        got = [tuple(sorted((e[2] - (0 if l == "a" else len(pairs)), frozenset(e[:2])) for e in out.A[l].edges)) for l in "ab"]
        # all weights differ, so the two links of the first node fix the permutation
        got = [tuple(tuple(sorted(e)) for _, e in x) for x in got]
        count["a", got[0]] += 1
        count["b", got[1]] += 1
        both += got[0] == got[1]
    bound = lambda p: 6.5 * (N * p * (1 - p)) ** 0.5 + 2
    for l in "ab":
        cs = [c for (k, _), c in count.items() if k == l]
        check(len(cs) == perms, "of the %d permutations of the nodes of a layer %d are seen in %d draws" % (perms, len(cs), N))
        for c in cs:
            check(abs(c - N / perms) <= bound(1 / perms), "one of %d permutations is drawn %d times in %d" % (perms, c, N))
    check(abs(both - N / perms) <= bound(1 / perms), "both layers get the same permutation %d times in %d" % (both, N))
    rec.nontrivial()


gen.again(CASES, "larger_threshold", threshold, st.tuples(gen.big_spec(limit=100), st.sampled_from([1, 2, 0.5, 0]), st.sampled_from([None, ">=", "<=", ">", "<"])), quick=40, rule="some links are kept and some dropped")
gen.again(CASES, "larger_underlying_graph", underlying_graph, gen.big_spec(limit=100), quick=30, rule="at least two links")

