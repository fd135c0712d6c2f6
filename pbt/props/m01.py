"""M01: configuration models realise exactly the requested degrees."""
import itertools, random
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises, fail
from pbt.model import links_of
from pbt import gen

CASES = []


@st.composite
def degree_seq(draw, lo=16, hi=30, dense=True):
    """Degree lists with enough links for the edge swaps of the algorithm (see DESIGN: the finding on dense sequences)."""
    kind = draw(st.sampled_from(["ones", "low", "low", "regular", "hub"] + (["dense"] if dense else [])))
    n = draw(st.integers(lo, hi))
    if kind == "ones":
        d = draw(st.lists(st.sampled_from([0, 1, 1]), min_size=n, max_size=n))
        if sum(d) % 2:
            d[d.index(1)] = 0
        return d
    if kind == "regular":
        return [2] * n
    if kind == "dense":
        n = draw(st.integers(24, 28))
        k = draw(st.sampled_from([4, 6, 8, 10]))
        return [k] * n
    if kind == "hub":
        d = [2] * n
        d[0] = 4
        return d
    d = draw(st.lists(st.sampled_from([0, 1, 2, 3, 2, 2]), min_size=n, max_size=n))
    i = 0
    while sum(d) < 2 * 8 * 3:
        d[i % n] = max(d[i % n], 2) if i < n else 3
        i += 1
    if sum(d) % 2:
        j = max(range(n), key=lambda x: d[x])
        d[j] -= 1
        if sum(d) < 48:
            d[j] += 2
    return d


NAMES = [lambda i: i, lambda i: "n%02d" % i, lambda i: 100 - i]


def simple(net, what=""):
    """Undirected simple graph with unit weights; returns degree per node from the links."""
    deg = {n: 0 for n in net}
    links, count = links_of(net)
    check(count == len(links), what, "a link is repeated")
    for e, w in links.items():
        check(len(e) == 2, what, "self-link", e)
        check(w == 1, what, "weight", w)
        for x in e:
            deg[x[0]] += 1
    return deg


@case(CASES, lambda: st.tuples(degree_seq(), st.integers(0, 2), st.integers(0, 10 ** 6)), quick=700,
      rule="a node has degree two or more")
def node_degrees(x, rec):
    from pymnet import models
    seq, nm, seed = x
    d = {NAMES[nm](i): k for i, k in enumerate(seq)}
    if not any(seq):
        return
    random.seed(seed)
    before = dict(d)
    net = models.conf(d, degstype="nodes")
    check(d == before, "the degrees given were modified")
    check(type(net).__name__ == "MultilayerNetwork" and net.aspects == 0, "kind of network")
    check(simple(net) == d, "degrees %r, requested %r" % (simple(net), d))
    rec.nontrivial(max(seq) > 1)
    rec.label("max%d" % max(seq))


@case(CASES, lambda: st.tuples(degree_seq(), st.integers(0, 10 ** 6)), quick=500, rule="two different degrees")
def degree_distribution(x, rec):
    from pymnet import models
    from pymnet.net import MultilayerNetwork
    seq, seed = x
    dist = dict(Counter(seq))
    random.seed(seed)
    if seed % 2:
        net = MultilayerNetwork(aspects=0)
        models.single_layer_conf(net, dist)
    else:
        net = models.conf(dist)
    got = simple(net)
    check(set(got) == set(range(len(seq))), "nodes %r" % sorted(got))
    check(Counter(got.values()) == Counter(seq), "degree distribution %r, requested %r" % (dict(Counter(got.values())), dist))
    rec.nontrivial(len(dist) > 1)
    # who gets which degree is random
    rec.label("shuffled" if [got[i] for i in range(len(seq))] != sorted(seq) else "sorted")


@case(CASES, lambda: st.tuples(st.lists(degree_seq(dense=False), min_size=1, max_size=3), st.sampled_from(["list", "dict"]),
                               st.sampled_from(["distribution", "nodes"]), st.booleans(), st.sampled_from([None, "none", ("ordinal", 1.0), ("categorical", 2.0)]),
                               st.integers(0, 10 ** 6)), quick=400, rule="two layers with links")
def multiplex_conf(x, rec):
    from pymnet import models
    seqs, form, dtype, align, coup, seed = x
    if align:
        n = min(len(s) for s in seqs)
        seqs = [seqs[0]] + [seqs[0][k:] + seqs[0][:k] for k in range(1, len(seqs))]
    shift = [0 if align else 5 * k for k in range(len(seqs))]
    if seed % 3 == 0:
        shift = [0] * len(seqs)         # layers that have different numbers of the same nodes
    degs = [{i + s: k for i, k in enumerate(q)} for q, s in zip(seqs, shift)]
    arg = [dict(Counter(d.values())) for d in degs] if dtype == "distribution" else degs
    names = list(range(len(seqs)))
    if form == "dict":
        names = [7, 3, 5][:len(seqs)]
        arg = dict(zip(names, arg))
    random.seed(seed)
    kw = {} if coup is None else {"couplings": coup}
    net = models.conf(arg, degstype=dtype, **kw)
    check(type(net).__name__ == "MultiplexNetwork" and net.aspects == 1 and set(net.slices[1]) == set(names), "layers of the network", net.slices)
    for l, d in zip(names, degs):
        got = simple(net.A[l], "layer %r:" % (l,))
        if dtype == "nodes":
            full = dict(d)
            if net.fullyInterconnected:
                check(all(set(e) == set(degs[0]) for e in degs), "a network whose layers have different nodes is fully interconnected")
            check(got == full, "layer %r has degrees %r, requested %r" % (l, got, full))
        else:
            check(Counter(got.values()) == Counter(d.values()), "layer %r degree distribution" % (l,))
            check(set(got) == set(range(len(d))), "layer %r nodes %r" % (l, sorted(got)))
    # couplings
    kind, w = (("categorical", 1.0) if coup is None else ("none", 0) if coup == "none" else coup)
    for i in list(net)[:3]:
        for a in names:
            for b in names:
                if a != b and (i, a) in set(net.iter_node_layers()) and (i, b) in set(net.iter_node_layers()):
                    e = w if kind == "categorical" or (kind == "ordinal" and abs(a - b) == 1) else 0
                    check(net[i, i, a, b] == e, "coupling %r-%r is %r" % (a, b, net[i, i, a, b]))
    rec.nontrivial(sum(1 for s in seqs if any(s)) > 1)
    rec.label(form, dtype, "aligned" if align else "shifted", kind)


@st.composite
def seed_network(draw):
    """Layers with enough links: circulant-like plus random chords."""
    n = draw(st.integers(16, 24))
    nl = draw(st.integers(0, 2))
    layers = []
    for _ in range(max(nl, 1)):
        chords = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=8))
        start = draw(st.sampled_from([0, 0, 3]))
        layers.append((start, [(i, (i + 1) % n) for i in range(n)] + [(a, b) for a, b in chords if a != b]))
    return n, nl, layers, draw(st.booleans()), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([None, "none", ("categorical", 3.0)]))


@case(CASES, seed_network, quick=300, rule="always")
def conf_of_network(x, rec):
    """Given a network, the model keeps its nodes, layers and every node's degree in every layer."""
    from pymnet import models
    from pymnet.net import MultilayerNetwork, MultiplexNetwork
    n, nl, layers, fi, seed, coup = x
    if nl == 0:
        net = MultilayerNetwork(aspects=0)
        parts = {None: net}
    else:
        net = MultiplexNetwork(couplings="ordinal", fullyInterconnected=fi)
        for l in range(nl):
            net.add_layer(l)
        parts = {l: net.A[l] for l in range(nl)}
    for (start, es), A in zip(layers, parts.values()):
        for a, b in es:
            A[a + start, b + start] = 1
        A.add_node(99)
    want = {l: {i: A[i].deg() for i in A} for l, A in parts.items()}
    edges = {l: {frozenset(e[:2]) for e in A.edges} for l, A in parts.items()}
    random.seed(seed)
    out = models.conf(net) if coup is None else models.conf(net, couplings=coup)
    check(out is not net and out.aspects == net.aspects, "kind of the copy")
    if nl == 0:
        check(simple(out) == want[None], "degrees changed")
    else:
        check(set(out.slices[1]) == set(range(nl)), "layers changed")
        for l in range(nl):
            check(simple(out.A[l]) == want[l], "degrees of layer %r changed" % (l,))
        if nl == 2:
            w = 0 if coup == "none" else 1.0 if coup is None else 3.0
            check(out[99, 99, 0, 1] == w, "coupling of the copy is %r, expected %r" % (out[99, 99, 0, 1], w))
    check({l: {frozenset(e[:2]) for e in A.edges} for l, A in parts.items()} == edges, "the network given was modified")
    rec.nontrivial()
    rec.label("layers%d" % nl, "fi" if fi else "nonfi")


@st.composite
def overlap_input(draw):
    n = draw(st.integers(36, 42))     # enough free links for the swaps: see the finding below
    layers = draw(st.sampled_from([["a"], ["a", "b"], ["a", "b"], [0, 1, 2]]))
    combos = [c for k in range(1, len(layers) + 1) for c in itertools.combinations(layers, k)]
    use = draw(st.lists(st.booleans(), min_size=len(combos), max_size=len(combos)))
    use[0] = True
    use = [u and sum(use[:k]) < 3 for k, u in enumerate(use)]
    out = {}
    for c, u in zip(combos, use):
        if u:
            d = draw(st.lists(st.sampled_from([1, 1, 2, 2, 0]), min_size=n, max_size=n))
            while sum(d) < 60:
                d[d.index(min(d))] += 1
            if sum(d) % 2:
                d[d.index(1) if 1 in d else 0] += 1
            out[c] = {i: k for i, k in enumerate(d)}
        else:
            out[c] = {i: 0 for i in range(n)}
    return out, draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([None, ("categorical", 1.0)]))


@case(CASES, overlap_input, quick=300, rule="two layer combinations with links")
def overlap_conf(x, rec):
    """conf_overlaps: every node has exactly the requested number of links in exactly each set of layers."""
    from pymnet import models
    req, seed, coup = x
    random.seed(seed)
    net = models.conf_overlaps(req) if coup is None else models.conf_overlaps(req, couplings=coup)
    layers = set(l for c in req for l in c)
    nodes = set(n for d in req.values() for n in d)
    check(set(net.slices[0]) == nodes, "nodes %r, requested %r" % (sorted(net.slices[0]), sorted(nodes)))
    check(set(net.slices[1]) == layers, "layers %r" % (net.slices[1],))
    where = {}
    for l in layers:
        simple(net.A[l])
        for e in net.A[l].edges:
            where.setdefault(frozenset(e[:2]), set()).add(l)
    for c, d in req.items():
        got = {n: 0 for n in d}
        for e, ls in where.items():
            if ls == set(c):
                for n in e:
                    got[n] += 1
        check(got == d, "overlap degrees for %r are %r, requested %r" % (c, got, d))
    if coup and len(layers) > 1:
        a, b = sorted(layers)[:2]
        check(net[0, 0, a, b] == 1.0, "couplings")
    rec.nontrivial(sum(1 for d in req.values() if any(d.values())) > 1)
    rec.label("layers%d" % len(layers))


@case(CASES, lambda: st.integers(0, 10 ** 6), quick=6, rule="always")
def all_pairs_possible(seed, rec):
    """No pair of nodes is systematically linked or unlinked."""
    from pymnet import models
    random.seed(seed)
    n, runs = 16, 300
    c = Counter()
    for _ in range(runs):
        for e in models.conf({i: 3 for i in range(n)}, degstype="nodes").edges:
            c[frozenset(e[:2])] += 1
    exp = runs * 3.0 / (n - 1)      # 60
    for p in itertools.combinations(range(n), 2):
        check(exp * 0.35 < c[frozenset(p)] < exp * 2.2, "pair %r linked %d times of %d, expected about %.0f" % (p, c[frozenset(p)], runs, exp))
    rec.nontrivial()


@case(CASES, lambda: st.lists(st.integers(0, 3), min_size=3, max_size=8), quick=60, rule="always")
def impossible_degrees(seq, rec):
    """An odd sum of degrees is refused."""
    from pymnet import models
    if sum(seq) % 2 == 0:
        seq = seq + [1]
    check(raises(AssertionError, lambda: models.conf({i: k for i, k in enumerate(seq)}, degstype="nodes")), "odd degree sum accepted", seq)
    check(raises(Exception, lambda: models.conf({1: 2}, degstype="nonsense")), "unknown degstype accepted")
    rec.nontrivial()


def stuck_conf(x, rec):
    """Finding: no restarts and no graphicality test, so the swap loop never ends when no swap is possible."""
    from pymnet import models
    degs, seed = x
    calls = [0]
    orig = random.sample

    def counted(*a, **k):
        calls[0] += 1
        if calls[0] > 20000:
            fail("does not terminate: no valid swap in 20000 attempts")
        return orig(*a, **k)
    random.seed(seed)
    random.sample = counted
    try:
        net = models.conf(dict(degs), degstype="nodes")
    except (AssertionError, ValueError):
        return          # refusing is fine
    finally:
        random.sample = orig
    check(simple(net) == dict(degs), "degrees differ")


PROBES = {"stuck_conf": stuck_conf}


@st.composite
def long_degrees(draw):
    """A longer degree list from a drawn seed, with a wide range of degrees."""
    n, top = draw(st.sampled_from([(40, 2), (60, 3), (100, 3), (100, 5), (160, 6), (300, 4)]))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    d = [rnd.choice([1, 2, rnd.randint(0, top), rnd.randint(0, top)]) for _ in range(n)]
    d[0] = top + 2
    if sum(d) % 2:
        d[1] += 1 if d[1] == 0 else -1
    return d


gen.again(CASES, "larger_node_degrees", node_degrees, lambda: st.tuples(long_degrees(), st.integers(0, 2), st.integers(0, 10 ** 6)), quick=240, rule="a node has degree two or more")
gen.again(CASES, "larger_distributions", degree_distribution, lambda: st.tuples(long_degrees(), st.integers(0, 10 ** 6)), quick=200, rule="two different degrees")
gen.again(CASES, "larger_multiplex", multiplex_conf, lambda: st.tuples(st.lists(long_degrees(), min_size=2, max_size=3), st.sampled_from(["list", "dict"]),
          st.sampled_from(["distribution", "nodes"]), st.booleans(), st.sampled_from([None, "none", ("ordinal", 1.0), ("categorical", 2.0)]), st.integers(0, 10 ** 6)),
          quick=120, rule="two layers with links")


@st.composite
def hub_degrees(draw):
    """Few nodes with very many links: the first pairing then contains several self-links of one node and links repeated three times and more."""
    n = draw(st.sampled_from([60, 80, 120]))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    d = [rnd.choice([1, 2, 2, 3]) for _ in range(n)]
    d[0], d[1] = n // draw(st.sampled_from([3, 4, 5])), n // draw(st.sampled_from([4, 6]))
    if draw(st.booleans()):
        d[2] = d[3] = n // 8
    if sum(d) % 2:
        d[5] += 1
    return d


@st.composite
def hub_overlaps(draw):
    n = draw(st.sampled_from([60, 80, 120]))
    layers = draw(st.sampled_from([["a"], ["a", "b"], ["a", "b"], [0, 1, 2]]))
    combos = draw(st.permutations([c for k in range(1, len(layers) + 1) for c in itertools.combinations(layers, k)]))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    out = {}
    for j, c in enumerate(combos):
        d = [rnd.choice([1, 1, 2, 2]) if j < 3 else 0 for _ in range(n)]
        if j < 3:
            d[0], d[1] = n // draw(st.sampled_from([6, 8])), n // draw(st.sampled_from([6, 10]))
        if sum(d) % 2:
            d[5] += 1
        out[c] = {i: k for i, k in enumerate(d)}
    return out, draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([None, ("categorical", 1.0)]))


gen.again(CASES, "hubs", node_degrees, lambda: st.tuples(hub_degrees(), st.integers(0, 2), st.integers(0, 10 ** 6)), quick=250, rule="a node has degree two or more")
gen.again(CASES, "overlap_hubs", overlap_conf, hub_overlaps, quick=250, rule="two layer combinations with links")
