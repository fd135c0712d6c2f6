"""M02: Erdos-Renyi and full networks have exactly the nodes, layers and link counts asked for, uniformly."""
import itertools, math, random
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import links_of, link
from pbt import gen

CASES = []
SEED = st.integers(0, 10 ** 6)


def simple(net, nodes, what=""):
    check(set(net) == set(nodes), what, "nodes %r, expected %r" % (set(net), set(nodes)))
    links, count = links_of(net)
    check(count == len(links), what, "a link is repeated")
    for e, w in links.items():
        check(len(e) == 2 and w == 1, what, "link", e, w)
    return {frozenset(x[0] for x in e) for e in links}


@st.composite
def sl_input(draw):
    n = draw(st.integers(0, 9))
    kind = draw(st.integers(0, 2))
    nodes = [list(range(n)), gen.STRS[:n], [3 * i + 2 for i in range(n)]][kind]
    perm = draw(st.permutations(nodes)) if draw(st.booleans()) else nodes
    m = n * (n - 1) // 2
    mode = draw(st.sampled_from(["p", "p", "edges"]))
    return list(perm), mode, (draw(st.sampled_from([0, 0.0, 1, 1.0, 0.3, 0.5, 0.9, 1e-6, 0.999999])) if mode == "p" else draw(st.sampled_from(sorted({0, m, m // 2, max(m - 1, 0), draw(st.integers(0, m))})))), draw(SEED)


@case(CASES, sl_input, quick=1000, rule="three nodes and neither empty nor full requested")
def single_layer(x, rec):
    from pymnet import models
    from pymnet.net import MultilayerNetwork
    nodes, mode, val, seed = x
    net = MultilayerNetwork(aspects=0)
    random.seed(seed)
    models.single_layer_er(net, nodes, **{mode: val})
    links = simple(net, nodes)
    m = len(nodes) * (len(nodes) - 1) // 2
    if mode == "edges":
        check(len(links) == val, "%d links, requested %d" % (len(links), val))
        check(raises(Exception, lambda: models.single_layer_er(MultilayerNetwork(aspects=0), nodes, edges=m + 1)), "more links than pairs accepted")
    elif val in (0, 1):
        check(len(links) == m * val, "%d links with p=%r" % (len(links), val))
    check(raises(Exception, lambda: models.single_layer_er(MultilayerNetwork(aspects=0), nodes)), "neither p nor edges is accepted")
    check(raises(Exception, lambda: models.single_layer_er(MultilayerNetwork(aspects=0), nodes, p=0.5, edges=0)), "both p and edges are accepted")
    rec.nontrivial(len(nodes) > 2 and (0 < val < 1 if mode == "p" else 0 < val < m))
    rec.label(mode, "val%s" % val if mode == "p" else "edges")


@case(CASES, lambda: st.tuples(st.integers(3, 9), st.sampled_from([0.05, 0.2, 0.5, 0.7, 0.95]), SEED), quick=24, rule="always")
def probability(x, rec):
    """Every pair is linked with probability p (deviations of more than 6.5 standard deviations are violations)."""
    from pymnet import models
    n, p, seed = x
    random.seed(seed)
    runs = 400
    c = Counter()
    for _ in range(runs):
        for e in models.er(n, p).edges:
            c[frozenset(e[:2])] += 1
    pairs = list(itertools.combinations(range(n), 2))
    sd = math.sqrt(runs * p * (1 - p))
    for q in pairs:
        check(abs(c[frozenset(q)] - runs * p) < 6.5 * sd + 1, "pair %r linked in %d of %d networks, p=%g" % (q, c[frozenset(q)], runs, p))
    tot = sum(c.values())
    N = runs * len(pairs)
    check(abs(tot - N * p) < 6 * math.sqrt(N * p * (1 - p)) + 1, "%d links in %d pairs, p=%g" % (tot, N, p))
    rec.nontrivial()


@case(CASES, lambda: st.tuples(st.sampled_from([0.0002, 0.0008, 0.003, 0.01, 0.99, 0.997, 0.9997]), SEED), quick=12, rule="always")
def extreme_probability(x, rec):
    """Small and large probabilities in larger networks: the number of links, and where they lie, is as the probability says."""
    from pymnet import models
    p, seed = x
    random.seed(seed)
    n, runs = 150, max(6, int(60 * min(1, 0.001 / min(p, 1 - p)))) if p < 0.5 else 5
    pairs = n * (n - 1) // 2
    tot, thirds = 0, Counter()
    for _ in range(runs):
        for e in models.er(n, p).edges:
            tot += 1
            thirds[e[0] * 3 // n] += 1
            thirds[e[1] * 3 // n] += 1
    sd = math.sqrt(runs * pairs * p * (1 - p))
    check(abs(tot - runs * pairs * p) < 6.5 * sd + 2, "%d links in %d networks of %d pairs, p=%g" % (tot, runs, pairs, p))
    for k in range(3):
        check(abs(thirds[k] - runs * pairs * p * 2 / 3.0) < 9 * sd + 4, "%d of %d ends in the %d-th third of the nodes, p=%g" % (thirds[k], 2 * tot, k, p))
    rec.nontrivial()
    rec.label("p%g" % p)


@case(CASES, lambda: st.tuples(st.integers(3, 8), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)), quick=16, rule="always")
def fixed_edges_uniform(x, rec):
    from pymnet import models
    n, k, seed = x
    m = n * (n - 1) // 2
    k = 1 + k % (m - 1)
    random.seed(seed)
    runs = 400
    c = Counter()
    for _ in range(runs):
        for e in models.er(n, edges=k).edges:
            c[frozenset(e[:2])] += 1
    p = k / float(m)
    for q in itertools.combinations(range(n), 2):
        check(abs(c[frozenset(q)] - runs * p) < 6.5 * math.sqrt(runs * p * (1 - p)) + 1, "pair %r linked in %d of %d networks with %d links" % (q, c[frozenset(q)], runs, k))
    rec.nontrivial()


@st.composite
def er_input(draw):
    nl = draw(st.integers(1, 3))
    form = draw(st.sampled_from(["mono", "layers", "nodes-scalar", "nodes-list", "partial"]))
    mode = "p" if form == "partial" else draw(st.sampled_from(["p", "edges"]))
    if form in ("mono", "layers"):
        n = draw(st.integers(1, 7))
        sets = [list(range(n))] * (1 if form == "mono" else nl)
    else:
        sets = [draw(st.lists(st.sampled_from(range(9)), min_size=draw(st.sampled_from([2, 2, 2, 0])), max_size=7, unique=True)) for _ in range(nl)]
        n = sets
    ms = [len(s) * (len(s) - 1) // 2 for s in sets]
    if mode == "p":
        vals = [draw(st.sampled_from([0, 1, 0.5, 0.2, 1.0, 0.0])) for _ in sets]
    else:
        vals = [draw(st.integers(0, m)) for m in ms]
    if form == "nodes-scalar":
        vals = [min(vals)] * len(sets)
    return form, mode, n, sets, vals, draw(SEED), draw(st.sampled_from([None, ("categorical", 2.0), ("ordinal", 3.0), "none"]))


@case(CASES, er_input, quick=900, rule="some layer has links and some possible links missing, in two layers or one monoplex")
def multiplex_er(x, rec):
    from pymnet import models
    form, mode, n, sets, vals, seed, coup = x
    random.seed(seed)
    w, kind = 1.0, "categorical"
    if form == "mono":
        net = models.er(n, **{mode: vals[0]})
        check(net.aspects == 0, "not a monoplex network")
        parts = [net]
    else:
        if form == "partial":
            if coup is None:
                net = models.er_partially_interconnected(sets, vals)
            else:
                net = models.er_partially_interconnected(sets, vals, couplings=coup)
                kind, w = coup if coup != "none" else ("none", 0)
        elif form == "layers":
            net = models.er(n, **{mode: vals})
        elif form == "nodes-scalar":
            net = models.er(n, **{mode: vals[0]})
        else:
            net = models.er(n, **{mode: vals})
        check(type(net).__name__ == "MultiplexNetwork" and net.aspects == 1, "kind of network")
        check(net.fullyInterconnected == (form == "layers"), "interconnection of the network")
        check(set(net.slices[1]) == set(range(len(sets))), "layers %r" % (net.slices[1],))
        check(set(net.slices[0]) == set(i for s in sets for i in s), "nodes")
        check(set(net.iter_node_layers()) == {(i, l) for l, s in enumerate(sets) for i in s}, "node-layers")
        parts = [net.A[l] for l in range(len(sets))]
        for a, b in itertools.permutations(range(len(sets)), 2):
            for i in net.slices[0]:
                both = i in sets[a] and i in sets[b]
                e = w if both and (kind == "categorical" or (kind == "ordinal" and abs(a - b) == 1)) else 0
                check(net[i, i, a, b] == e, "coupling of %r between %r and %r is %r" % (i, a, b, net[i, i, a, b]))
    some = False
    for A, nodes, v in zip(parts, sets, vals):
        links = simple(A, nodes, form)
        m = len(nodes) * (len(nodes) - 1) // 2
        if mode == "edges":
            check(len(links) == v, "%d links, requested %d" % (len(links), v))
        elif v in (0, 1):
            check(len(links) == m * v, "%d links with p=%r" % (len(links), v))
        some |= 0 < len(links) < m
    rec.nontrivial(some and (form == "mono" or len(sets) > 1))
    rec.label(form, mode)


@case(CASES, lambda: st.tuples(st.integers(1, 6), st.sampled_from([None, 1, 2, 3, ["x"], ["x", "y"], [3, 1, 2], "multi1", "multi2", "multi-xy"]),
                               st.sampled_from([None, "none", ("categorical", 2.0), ("ordinal", 1.0)])), quick=300, rule="more than one node and layer")
def full_networks(x, rec):
    from pymnet import models
    n, layers, coup = x
    nodes = list(range(n))
    if isinstance(layers, str):
        arg = {"multi1": 1, "multi2": 2, "multi-xy": ["x", "y", "z"]}[layers]
        ls = list(range(arg)) if isinstance(arg, int) else arg
        net = models.full_multilayer(n, arg)
        nls = list(itertools.product(nodes, ls))
        check(type(net).__name__ == "MultilayerNetwork" and net.aspects == 1, "kind of network")
        exp = {frozenset(p): 1 for p in itertools.combinations(nls, 2)}
        check(links_of(net)[0] == exp, "links of the full multilayer network")
        check(set(net.iter_node_layers()) == set(nls), "node-layers %r" % sorted(net.iter_node_layers()))
        rec.nontrivial(n > 1 and len(ls) > 1)
        return
    if coup and layers == ["x", "y"] and coup[0] == "ordinal":
        coup = None
    kw = {} if coup is None else {"couplings": coup}
    net = models.full(n, layers, **kw)
    if layers is None:
        check(net.aspects == 0, "kind of network")
        check(len(simple(net, nodes)) == n * (n - 1) // 2, "links missing")
        rec.nontrivial(n > 2)
        return
    ls = list(range(layers)) if isinstance(layers, int) else layers
    check(type(net).__name__ == "MultiplexNetwork" and net.aspects == 1 and net.fullyInterconnected, "kind of network")
    check(set(net.slices[1]) == set(ls), "layers %r" % (net.slices[1],))
    for l in ls:
        check(len(simple(net.A[l], nodes)) == n * (n - 1) // 2, "links missing in layer", l)
    kind, w = ("categorical", 1.0) if coup is None else ("none", 0) if coup == "none" else coup
    for a, b in itertools.permutations(ls, 2):
        e = w if kind == "categorical" or (kind == "ordinal" and abs(a - b) == 1) else 0
        check(net[0, 0, a, b] == e, "coupling %r-%r is %r" % (a, b, net[0, 0, a, b]))
    rec.nontrivial(n > 1 and len(ls) > 1)


@case(CASES, lambda: st.tuples(st.integers(1, 5), st.sampled_from([1, 2, 3, ["x", "y"], [5, 2, 9]]), st.sampled_from([0, 1, 1.0, 0.5, 0.1]), st.booleans(), SEED),
      quick=400, rule="two layers, two nodes, 0 < p < 1")
def multilayer_er(x, rec):
    from pymnet import models
    n, layers, p, rw, seed = x
    ls = list(range(layers)) if isinstance(layers, int) else layers
    random.seed(seed)
    net = models.er_multilayer(n, layers, p, randomWeights=rw) if rw else models.er_multilayer(n, layers, p)
    nls = list(itertools.product(range(n), ls))
    check(type(net).__name__ == "MultilayerNetwork" and net.aspects == 1 and not net.directed, "kind of network")
    check(set(net.iter_node_layers()) == set(nls), "node-layers %r" % sorted(net.iter_node_layers(), key=repr))
    links, count = links_of(net)
    check(count == len(links) and all(len(e) == 2 for e in links), "self-links or repeated links")
    for e, w in links.items():
        check(0 < w <= 1 if rw else w == 1, "weight %r" % w)
    m = len(nls) * (len(nls) - 1) // 2
    if p in (0, 1):
        check(len(links) == m * p, "%d links of %d with p=%r" % (len(links), m, p))
    if rw and len(links) > 4:
        check(len(set(links.values())) > 1, "random weights are all equal")
    rec.nontrivial(0 < p < 1 and n > 1 and len(ls) > 1)


@case(CASES, lambda: st.tuples(st.integers(2, 4), st.sampled_from([0.2, 0.5, 0.8]), SEED), quick=10, rule="always")
def multilayer_probability(x, rec):
    from pymnet import models
    n, p, seed = x
    random.seed(seed)
    runs, ls = 300, ["x", "y"]
    c = Counter()
    for _ in range(runs):
        for e in links_of(models.er_multilayer(n, ls, p))[0]:
            c[e] += 1
    for q in itertools.combinations(itertools.product(range(n), ls), 2):
        check(abs(c[frozenset(q)] - runs * p) < 6.5 * math.sqrt(runs * p * (1 - p)) + 1, "pair %r linked in %d of %d networks, p=%g" % (q, c[frozenset(q)], runs, p))
    rec.nontrivial()


@st.composite
def long_single(draw):
    n = draw(st.integers(30, 120))
    rnd = random.Random(draw(SEED))
    nodes = [list(range(n)), ["v%d" % i for i in range(n)], [3 * i + 2 for i in range(n)]][draw(st.integers(0, 2))]
    rnd.shuffle(nodes)
    m = n * (n - 1) // 2
    if draw(st.booleans()):
        return nodes, "p", draw(st.sampled_from([0, 1, 0.3, 0.02, 0.001, 0.97])), draw(SEED)
    return nodes, "edges", draw(st.sampled_from([0, 1, n - 1, n, 2 * n, m // 2, m // 2 + 1, m - n, m - 1, m])), draw(SEED)


gen.again(CASES, "larger_single_layer", single_layer, long_single, quick=240, rule="three nodes and neither empty nor full requested")


@st.composite
def long_er(draw):
    nl = draw(st.integers(2, 6))
    form = draw(st.sampled_from(["mono", "layers", "nodes-scalar", "nodes-list", "partial"]))
    mode = "p" if form == "partial" else draw(st.sampled_from(["p", "edges"]))
    rnd = random.Random(draw(SEED))
    top = draw(st.integers(20, 60))
    sets = [list(range(top))] * (1 if form == "mono" else nl) if form in ("mono", "layers") else [rnd.sample(range(top), rnd.randint(2, top)) for _ in range(nl)]
    ms = [len(s) * (len(s) - 1) // 2 for s in sets]
    vals = [rnd.choice([0, 1, 0.5, 0.02, 0.2]) for _ in sets] if mode == "p" else [rnd.choice([0, 1, m, m // 2, m // 3, rnd.randint(0, m)]) for m in ms]
    if form == "nodes-scalar":
        vals = [min(vals)] * len(sets)
    return form, mode, top if form in ("mono", "layers") else sets, sets, vals, draw(SEED), draw(st.sampled_from([None, ("categorical", 2.0), ("ordinal", 3.0), "none"]))


gen.again(CASES, "larger_multiplex_er", multiplex_er, long_er, quick=200, rule="some layer has links and some possible links missing, in two layers or one monoplex")
gen.again(CASES, "larger_full", full_networks, lambda: st.tuples(st.integers(7, 30), st.sampled_from([None, 4, 6, list("vwxyz"), "multi2", "multi-xy"]),
          st.sampled_from([None, "none", ("categorical", 2.0)])), quick=120, rule="more than one node and layer")
gen.again(CASES, "larger_multilayer_er", multilayer_er, lambda: st.tuples(st.integers(6, 20), st.sampled_from([1, 2, 4, 5, list("xyzw"), [5, 2, 9]]), st.sampled_from([0, 1, 1.0, 0.5, 0.1]), st.booleans(), SEED),
          quick=160, rule="two layers, two nodes, 0 < p < 1")
