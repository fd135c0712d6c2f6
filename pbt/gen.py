"""Strategies for network specs (plain literals)."""
from hypothesis import strategies as st

INTS = [1, 2, 0, 3, 4, 5, 6, 7, 8, 9]
STRS = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"]
LSTRS = ["x", "y", "z", "a", "b", "w"]       # overlaps with node names on purpose
LINTS = [1, 2, 3, 4, 0, -1]

ODD = [0, "a", "", 1, 2.5, "0", -3, "b", 4, "d"]         # cannot be sorted, falsy values, equal when printed
LODD = ["", 0, "0", 2.5, "a", -1]
ANY, LANY = (INTS, STRS, ODD), (LSTRS, LINTS, LODD)
# numbers and strings whose orders differ when they are compared as the other kind, ignoring case or by length
SINTS, SSTRS = [10, 9, -2, 100, 2, -10, 11, 1, 20, 3], ["b9", "b10", "B", "a", "", "C1", "aa", "c", "Z", "b1"]
SORTABLE = {"node_pools": (INTS, STRS, SINTS, SSTRS), "layer_pools": (LSTRS, LINTS, SINTS, SSTRS)}
NOEDGE = (0, 0, 0, -1)

weights_any = st.sampled_from([1, 1, 1, 2, 3, 0.5, -1, -2.5, 7, 0.25])
weights_pos = st.sampled_from([1, 1, 1, 2, 3, 0.5, 4, 0.25, 7])
weights_one = st.just(1)


@st.composite
def names(draw, lo=1, hi=5, pools=ANY):
    pool = draw(st.sampled_from(list(pools)))
    hi = min(hi, len(pool))
    n = draw(st.sampled_from(list(range(hi, lo - 1, -1)) + ([] if hi < lo + 2 else [hi, hi - 1])))
    start = draw(st.integers(0, len(pool) - n)) if draw(st.booleans()) else 0
    return pool[start:start + n]


def nlset(draw, nodes, layers, keep=None):
    """A random non-empty subset of node-layer tuples."""
    import itertools
    allnl = [tuple(x) for x in itertools.product(nodes, *layers)]
    if not allnl:
        return []
    if keep is None:
        keep = draw(st.sampled_from([3, 5, 7, 9]))
    mask = draw(st.lists(st.integers(0, 9), min_size=len(allnl), max_size=len(allnl)))
    out = [x for x, m in zip(allnl, mask) if m < keep]
    return out or [allnl[0]]


@st.composite
def edges_on(draw, nls, weights, loops=False, maxdeg=2.0, same_layer=False, maxn=None):
    """Distinct-pair edge list on node-layers."""
    if not nls:
        return []
    n = len(nls)
    if maxn is None:
        maxn = max(1, int(maxdeg * n))
    lo = min(maxn, draw(st.sampled_from([0, n // 2, n, 2 * n])))
    pairs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=lo, max_size=maxn))
    out, seen = [], set()
    for i, j in pairs:
        u, v = nls[i], nls[j]
        if (u, v) in seen:
            continue
        if u == v and not loops:
            continue
        if same_layer:
            if u[1:] != v[1:]:
                v = (v[0],) + u[1:]
                if v not in nls or (v == u and not loops) or (u, v) in seen:
                    continue
        seen.add((u, v))
        seen.add((v, u))
        out.append((u, v, draw(weights)))
    return out


@st.composite
def edges_dense(draw, nls, weights, loops=False, same_layer=False, directed=False, p=None):
    """Edge list by a bitmap over all pairs (denser than edges_on)."""
    pairs = []
    for i, u in enumerate(nls):
        for j, v in enumerate(nls):
            if (j < i and not directed) or (u == v and not loops):
                continue
            if same_layer and u[1:] != v[1:]:
                continue
            pairs.append((u, v))
    if not pairs:
        return []
    if p is None:
        p = draw(st.sampled_from([2, 4, 6, 8, 10]))
    bits = draw(st.lists(st.integers(0, 9), min_size=len(pairs), max_size=len(pairs)))
    return [(u, v, draw(weights)) for (u, v), b in zip(pairs, bits) if b < p]


@st.composite
def ml_spec(draw, aspects=(0, 1, 2, 0, 1, 2, 3), directed=(False, True), fi=(True, False), noedge=NOEDGE, loops=True,
            weights=weights_any, max_nodes=4, max_layers=3, dense=None, min_nodes=0, min_layers=1, node_pools=ANY,
            layer_pools=LANY):
    asp = draw(st.sampled_from(list(aspects)))
    dirc = draw(st.sampled_from(list(directed)))
    f = draw(st.sampled_from(list(fi))) or asp == 0
    ne = draw(st.sampled_from(list(noedge)))
    nodes = draw(names(min_nodes, max_nodes, node_pools))
    if asp == 2:
        max_layers = min(max_layers, 2) if draw(st.booleans()) else max_layers
    if asp == 3:
        max_layers, min_layers, max_nodes = min(max_layers, 2), min(min_layers, 2), max(min_nodes, min(max_nodes, 3))
    layers = [draw(names(min_layers, max_layers, layer_pools)) for _ in range(asp)]
    import itertools
    if f:
        nls = [tuple(x) for x in itertools.product(nodes, *layers)]
    else:
        nls = nlset(draw, nodes, layers)
    dn = draw(st.booleans()) if dense is None else dense
    if dn and len(nls) <= 12:
        edges = draw(edges_dense(nls, weights, loops=loops, directed=dirc))
    else:
        edges = draw(edges_on(nls, weights, loops=loops))
        if dirc:
            extra = draw(st.lists(st.integers(0, 99), max_size=4))
            seen = {(u, v) for u, v, w in edges}
            for x in extra:
                if edges:
                    u, v, w = edges[x % len(edges)]
                    if (v, u) not in seen:
                        seen.add((v, u))
                        edges.append((v, u, draw(weights)))
    edges = [e for e in edges if e[2] != ne]
    return {"kind": "ml", "aspects": asp, "directed": dirc, "noedge": ne, "fi": f, "nodes": nodes,
            "layers": layers, "nls": [] if f else nls, "edges": edges}


@st.composite
def coupling_spec(draw, layers, directed=False, kinds=("categorical", "ordinal", "none", "net"), noedge=0):
    kinds = list(kinds)
    if not all(isinstance(l, int) for l in layers) and "ordinal" in kinds:
        kinds.remove("ordinal")
    k = draw(st.sampled_from(kinds))
    w = draw(st.sampled_from([1.0, 2, 0.5, 3]))
    if k == "none":
        return draw(st.sampled_from([None, "none"]))
    if k == "net":
        cd = directed and draw(st.booleans())
        pairs = [(a, b) for i, a in enumerate(layers) for j, b in enumerate(layers) if (i < j or (cd and i > j))]
        mask = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
        return {"net": [(a, b, draw(st.sampled_from([1, 2, 0.5, 3]))) for (a, b), m in zip(pairs, mask) if m],
                "directed": cd, "layers": list(layers), "noedge": noedge}
    form = draw(st.integers(0, 2))
    if form == 0:
        return k
    if form == 1:
        return (k,)
    return (k, w)


@st.composite
def mx_spec(draw, aspects=(1, 1, 2, 1, 1, 2, 3), directed=(False, True), fi=(True, False), noedge=NOEDGE, weights=weights_any,
            kinds=("categorical", "ordinal", "none", "net"), max_nodes=4, max_layers=3, min_nodes=0, min_layers=1,
            dense=None, node_pools=ANY, layer_pools=LANY):
    asp = draw(st.sampled_from(list(aspects)))
    dirc = draw(st.sampled_from(list(directed)))
    f = draw(st.sampled_from(list(fi)))
    ne = draw(st.sampled_from(list(noedge)))
    if asp == 3:
        max_layers, min_layers, max_nodes = min(max_layers, 2), min(min_layers, 2), max(min_nodes, min(max_nodes, 3))
    nodes = draw(names(min_nodes, max_nodes, node_pools))
    layers = [draw(names(min_layers, max_layers, layer_pools)) for _ in range(asp)]
    import itertools
    if f:
        nls = [tuple(x) for x in itertools.product(nodes, *layers)]
    else:
        nls = nlset(draw, nodes, layers)
    cs = [draw(coupling_spec(layers[a], dirc, kinds, ne)) for a in range(asp)]
    dn = draw(st.booleans()) if dense is None else dense
    if dn and len(nls) <= 16:
        edges = draw(edges_dense(nls, weights, loops=False, same_layer=True, directed=dirc))
    else:
        edges = draw(edges_on(nls, weights, loops=False, same_layer=True, maxdeg=3))
    edges = [e for e in edges if e[2] != ne]
    return {"kind": "mx", "aspects": asp, "directed": dirc, "noedge": ne, "fi": f, "nodes": nodes,
            "layers": layers, "nls": [] if f else nls, "couplings": cs, "edges": edges}


@st.composite
def connected_spec(draw, min_nodes=3, max_nodes=5, min_layers=1, max_layers=3, weights=weights_any, fi=(False, False, True), max_nls=12):
    """One-aspect undirected network whose linked part is mostly one component: a random tree over the
    node-layers and some further links."""
    import itertools
    n, k = draw(st.sampled_from(range(max_nodes, min_nodes - 1, -1))), draw(st.sampled_from(range(max_layers, min_layers - 1, -1)))
    nodes, layers = draw(names(n, n)), draw(names(k, k, (LSTRS, LINTS)))
    f = draw(st.sampled_from(list(fi)))
    allnl = [tuple(x) for x in itertools.product(nodes, layers)]
    nls = allnl if f else [x for x, m in zip(allnl, draw(st.lists(st.integers(0, 9), min_size=len(allnl), max_size=len(allnl)))) if m < 8]
    order = draw(st.permutations(nls))[:max_nls]
    seen, edges = set(), []
    for i in range(1, len(order)):
        if draw(st.integers(0, 9)) > 0:
            j = draw(st.integers(max(0, i - 4), i - 1))
            edges.append((order[j], order[i], draw(weights)))
            seen.add(frozenset((order[i], order[j])))
    pairs = [(u, v) for i, u in enumerate(order) for v in order[:i] if frozenset((u, v)) not in seen]
    p = draw(st.sampled_from([2, 3, 1, 0]))
    bits = draw(st.lists(st.integers(0, 9), min_size=len(pairs), max_size=len(pairs)))
    edges += [(u, v, draw(weights)) for (u, v), b in zip(pairs, bits) if b < p]
    return {"kind": "ml", "aspects": 1, "directed": False, "noedge": 0, "fi": f, "nodes": nodes, "layers": [layers],
            "nls": [] if f else nls, "edges": edges}


BIG_W = {"any": [1, 1, 1, 2, 3, 0.5, -1, -2.5, 7, 0.25], "pos": [1, 1, 1, 2, 3, 0.5, 4, 0.25, 7], "one": [1]}


@st.composite
def big_spec(draw, kind=("ml", "mx"), aspects=(1, 1, 2, 0), directed=(False, True), fi=(True, False), noedge=NOEDGE, weights="any", loops=True,
             nodes=(8, 30), layers=(2, 6), limit=150, kinds=("categorical", "ordinal", "none", "net"), names=("int", "str"), layer_names=("int", "str"),
             degree=(1, 2, 4, 8), hub=True, spread=None):
    """A larger network made from a few drawn parameters and a drawn seed: sizes the other strategies do not reach."""
    import itertools
    import random
    kd = draw(st.sampled_from(list(kind)))
    asp = draw(st.sampled_from([a for a in aspects if a or kd == "ml"]))
    dirc, ne = draw(st.sampled_from(list(directed))), draw(st.sampled_from(list(noedge)))
    f = draw(st.sampled_from(list(fi))) or asp == 0
    dims = [draw(st.integers(*layers)) if asp == 1 else draw(st.integers(2, max(2, min(3, layers[1])))) for _ in range(asp)]
    per = 1
    for x in dims:
        per *= x
    n = max(2, min(draw(st.integers(*nodes)), limit // per))
    nn, ln = draw(st.sampled_from(list(names))), draw(st.sampled_from(list(layer_names)))
    deg, member, withhub = draw(st.sampled_from(list(degree))), draw(st.sampled_from([9, 6, 3])), hub and draw(st.booleans())
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    N = ["n%d" % i if nn == "str" else i for i in range(n)]
    L = [["l%d" % i if ln == "str" else i for i in range(k)] for k in dims]
    rnd.shuffle(N)
    for x in L:
        rnd.shuffle(x)
    allnl = [tuple(x) for x in itertools.product(N, *L)]
    nls = allnl if f else ([x for x in allnl if rnd.randrange(10) < member] or [allnl[0]])
    there, edges, seen = set(nls), [], set()
    center = rnd.choice(nls)
    for i in range(deg * len(nls) // 2 + (len(nls) if withhub else 0)):
        u = rnd.choice(nls)
        v = center if withhub and i % 3 == 0 else rnd.choice(nls)
        if kd == "mx" or (asp and rnd.random() < 0.5):
            v = (v[0],) + u[1:]
        if v not in there or (u == v and (kd == "mx" or not loops)) or (u, v) in seen or (not dirc and (v, u) in seen):
            continue
        seen.add((u, v))
        w = rnd.choice(BIG_W[weights])
        if w != ne:
            edges.append((u, v, w))
    out = {"kind": kd, "aspects": asp, "directed": dirc, "noedge": ne, "fi": f, "nodes": N, "layers": L, "nls": [] if f else nls, "edges": edges}
    if kd == "mx":
        out["couplings"] = [draw(coupling_spec(l, dirc, kinds, ne)) for l in L]
    return out


def again(registry, name, body, strategy, quick, rule, **kw):
    """The same check over another strategy."""
    from pbt.harness import case

    def more(spec, rec):
        body(spec, rec)
    more.__doc__ = "Larger inputs: " + (body.__doc__ or body.__name__)
    return case(registry, strategy, quick=quick, rule=rule, name=name, **kw)(more)
