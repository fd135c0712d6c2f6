"""V01: layouts give every node or node-layer one finite place, in the box, fixed where asked."""
import math, random
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import build, ref
from pbt import gen

CASES = []
ASSUMPTIONS = ["Networks with at least one node, noEdge 0 and positive weights."]
NETS = st.one_of(gen.mx_spec(aspects=(1,), weights=gen.weights_pos, min_nodes=1, dense=True), gen.ml_spec(aspects=(1,), weights=gen.weights_pos, min_nodes=1, dense=True),
                 gen.mx_spec(aspects=(1,), weights=gen.weights_pos, min_nodes=2, max_nodes=6), gen.ml_spec(aspects=(1,), weights=gen.weights_pos, min_nodes=2, max_nodes=6))
NETS2 = st.one_of(NETS, NETS, gen.mx_spec(aspects=(2,), weights=gen.weights_pos, min_nodes=1), gen.ml_spec(aspects=(2,), weights=gen.weights_pos, min_nodes=1))


def seeded(seed, f):
    import numpy
    random.seed(seed)
    numpy.random.seed(seed)
    return f()


def places(c, keys, what):
    check(set(c) == set(keys), what, "places", sorted(map(repr, c)), "expected", sorted(map(repr, keys)))
    for k in c:
        check(len(c[k]) == 2 and all(math.isfinite(x) for x in c[k]), what, "puts", k, "at", c[k])


def near(a, b):
    return abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9


@case(CASES, st.tuples(NETS, st.sampled_from(["spring", "fr", "random", "circular", "shell", "spectral"]), st.sampled_from([True, True, False, None]), st.integers(0, 99)), quick=900,
      rule="a layout was made for three nodes or more")
def layouts(t, rec):
    """get_layout places exactly the nodes (aligned) or the node-layers (not aligned) and is repeatable."""
    from pymnet.visuals import layouts as L
    spec, name, aligned, seed = t
    r = ref(spec)
    net = build(spec)
    al = aligned if aligned is not None else spec["kind"] == "mx"
    if not al and name not in ("fr", "random"):
        check(raises(Exception, L.get_layout, name, net, alignedNodes=aligned), "layout", name, "was made for nodes that are not aligned")
        return
    f = lambda: L.get_layout(name, net, **({} if aligned is True and seed % 2 else {"alignedNodes": aligned}))
    nodes, nls = seeded(seed, f)
    if al:
        places(nodes, r.dims[0], name)
        check(not nls, name, "places node-layers", nls)
    else:
        places(nls, r.nls, name)
        check(not nodes, name, "places nodes", nodes)
    again = seeded(seed, f)
    for a, b in zip((nodes, nls), again):
        check(all(near(a[k], b[k]) for k in a), name, "gives other coordinates for the same seed")
    got = nodes or nls
    if name in ("fr", "random"):
        check(all(-1e-9 <= x <= 1 + 1e-9 for c in got.values() for x in c), name, "leaves the unit box:", got)
    if len(got) > 1 and name in ("fr", "random", "circular", "shell", "spring"):
        pts = sorted(tuple(c) for c in got.values())
        if name == "fr":   # nodes without a common layer do not repel each other: they may meet
            check(not all(near(a, pts[0]) for a in pts) or (not al and len(r.dims[1]) > 1), name, "puts all nodes to one place", got)
        else:
            same_layer = al or len(r.dims[1]) == 1
            check(not same_layer or all(not near(a, b) for a, b in zip(pts, pts[1:])), name, "puts two nodes to one place", got)
    check(net == build(spec), "the network was modified")
    check(raises(Exception, L.get_layout, "no such layout", net), "an unknown layout was accepted")
    rec.nontrivial(len(r.dims[0]) >= 3)
    rec.label(name, "aligned" if al else "free", "directed" if spec["directed"] else "undirected", "fi" if spec["fi"] else "partial")


@st.composite
def fr_case(draw, nets=NETS2):
    spec = draw(nets)
    box = draw(st.sampled_from([None, 1.0, 2, (3, 0.5), [0.25, 4]]))
    dist = draw(st.sampled_from([None, None, 0.1, 1]))
    aligned = draw(st.booleans())
    r = ref(spec)
    b = (1.0, 1.0) if box is None else (tuple(box) if isinstance(box, (tuple, list)) else (box, box))
    pt = lambda: (draw(st.integers(0, 16)) / 16 * b[0], draw(st.integers(0, 16)) / 16 * b[1])
    initial = {n: pt() for n in sorted(r.dims[0], key=repr) if draw(st.booleans())}
    initial_nl = {} if aligned else {u: pt() for u in sorted(r.nls, key=repr) if draw(st.booleans())}
    start = initial if aligned else {u: c for u in sorted(r.nls, key=repr) for c in [initial_nl.get(u, initial.get(u[0]))] if c}
    fixed = [k for k in start if draw(st.integers(0, 2)) == 0]
    return spec, box, dist, aligned, initial, initial_nl, fixed, draw(st.sampled_from([1, 10, 30, 100])), draw(st.integers(0, 99)), draw(st.booleans())


@case(CASES, fr_case(), quick=700, rule="some coordinates given and three places or more")
def force_directed(t, rec):
    """Initial and fixed coordinates, box size, distances and iterations of the Fruchterman-Reingold layout."""
    from pymnet.visuals import layouts as L
    spec, box, dist, aligned, initial, initial_nl, fixed, its, seed, as_set = t
    r = ref(spec)
    net = build(spec)
    kw = {"alignedNodes": aligned, "iterations": its}
    if box is not None:
        kw["boxSize"] = box
    if dist is not None:
        kw["nodeDist"] = dist
    if initial or seed % 2:
        kw["nodeCoords"] = dict(initial)
    if initial_nl:
        kw["nodelayerCoords"] = dict(initial_nl)
    if fixed:
        kw["fixedNodes" if aligned else "fixedNodeLayers"] = set(fixed) if as_set else list(fixed)
    f = lambda: L.get_fruchterman_reingold_multilayer_layout(net, **kw)
    got = seeded(seed, f)
    places(got, r.dims[0] if aligned else r.nls, "the layout")
    b = (1.0, 1.0) if box is None else (tuple(box) if isinstance(box, (tuple, list)) else (box, box))
    start = initial if aligned else {u: initial_nl.get(u, initial.get(u[0])) for u in r.nls}
    for k, c in got.items():
        check(-1e-9 <= c[0] <= b[0] + 1e-9 and -1e-9 <= c[1] <= b[1] + 1e-9, k, "is at", c, "outside of the box", b)
        if k in fixed:
            check(near(c, start[k]), "fixed", k, "was moved from", start[k], "to", c)
    if not fixed and len(got) > 1:
        for d in (0, 1):
            xs = [c[d] for c in got.values()]
            if max(xs) - min(xs) > 1e-6:
                check(abs(min(xs)) < 1e-6 and abs(max(xs) - b[d]) < 1e-6, "coordinates from", min(xs), "to", max(xs), "in a box of", b)
    again = seeded(seed, f)
    check(all(near(got[k], again[k]) for k in got), "other coordinates for the same seed")
    check(kw.get("nodeCoords", initial) == initial and kw.get("nodelayerCoords", initial_nl) == initial_nl, "the given coordinates were modified")
    check(net == build(spec), "the network was modified")
    rec.nontrivial(bool(initial or initial_nl) and len(got) > 2)
    rec.label("aligned" if aligned else "free", "fixed" if fixed else "moving", "aspects%d" % spec["aspects"])


@case(CASES, st.tuples(st.integers(0, 10 ** 6), st.booleans(), st.booleans()), quick=6, rule="always")
def groups(t, rec):
    """Linked nodes are drawn to each other: over sixty networks of two groups, distances in a group are shorter than between them."""
    import itertools, pymnet
    from pymnet.visuals import layouts as L
    first, aligned, layered = t
    inside, across, ratios = [], [], []
    for i in range(60):
        rng = random.Random(first * 100 + i)
        n, k = rng.choice([5, 6, 8]), rng.choice([1, 2, 3])
        fi = rng.random() < 0.5
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=fi) if layered else pymnet.MultiplexNetwork(couplings="categorical", fullyInterconnected=fi)
        for l in range(k):
            for a, b in itertools.combinations(range(2 * n), 2):
                if rng.random() < (0.8 if a % 2 == b % 2 else 0.03):
                    net[a, b, l, l] = 1
        if layered:
            for a in range(2 * n):
                for l, m in itertools.combinations(range(k), 2):
                    net[a, a, l, m] = 1
        got = seeded(first + i, lambda: L.get_layout("fr", net, alignedNodes=aligned))
        got = got[0] or got[1]
        one, two = [], []
        for a, b in itertools.combinations(got, 2):
            if aligned or a[1] == b[1]:
                same = (a if aligned else a[0]) % 2 == (b if aligned else b[0]) % 2
                (one if same else two).append(math.dist(got[a], got[b]))
        ratios.append((sum(one) / len(one)) / (sum(two) / len(two)))
    mean = sum(ratios) / len(ratios)
    check(mean < 0.87, "distances in a group are on average", mean, "times those between groups")
    rec.nontrivial(True)
    rec.label("aligned" if aligned else "free", "multilayer" if layered else "multiplex")


@case(CASES, st.tuples(st.dictionaries(st.integers(0, 9), st.tuples(st.integers(-8, 8).map(lambda x: x / 4), st.integers(-8, 8).map(lambda x: x / 4)), min_size=1, max_size=6),
                       st.sampled_from([(1, 1), (2, 3), (0.5, 4.0)]), st.booleans()), quick=400, rule="different x and y coordinates")
def normalization(t, rec):
    """normalize_coordinates is the linear map of the ranges to [0, boxSize], in place or not."""
    from pymnet.visuals import layouts as L
    coords, box, inplace = t
    given = dict(coords)
    got = L.normalize_coordinates(given, box, inplace=inplace)
    check(set(got) == set(coords), "keys", set(got))
    check(given == (got if inplace else coords), "the coordinates given are", given)
    for d in (0, 1):
        lo, hi = min(c[d] for c in coords.values()), max(c[d] for c in coords.values())
        for k in coords:
            want = (coords[k][d] - lo) / (hi - lo) * box[d] if hi > lo else None
            check(0 <= got[k][d] <= box[d] if want is None else abs(got[k][d] - want) < 1e-9, "coordinate", d, "of", k, "is", got[k][d], "expected", want)
    rec.nontrivial(all(len({c[d] for c in coords.values()}) > 1 for d in (0, 1)))


@st.composite
def big(draw):
    return draw(gen.big_spec(aspects=(1,), weights="pos", noedge=(0,), nodes=(8, 40), limit=120))


gen.again(CASES, "larger_layouts", layouts, lambda: st.tuples(big(), st.sampled_from(["spring", "fr", "random", "circular", "shell", "spectral"]), st.sampled_from([True, True, False, None]), st.integers(0, 99)),
          quick=160, rule="a layout was made for three nodes or more")
gen.again(CASES, "larger_force_directed", force_directed, lambda: fr_case(big()), quick=100, rule="some coordinates given and three places or more")
