"""Brute-force graphlet tables: connected multiplex graphs up to renaming, from their definition."""
import functools, itertools, zlib
from hypothesis import strategies as st

POOLS = [["a", "b", "c"], [1, 2, 3], ["c", "a", "b"], [3, 1, 2]]


@st.composite
def config(draw, big=False, couplings=(None, None, "categorical", "ordinal"), top=4):
    """(n, layers, n_l, couplings, allowed_aspects): parameters of pymnet.graphlets."""
    layers = draw(st.sampled_from(POOLS))[:draw(st.sampled_from([2, 3, 1]))]
    n_l = draw(st.sampled_from(range(1, len(layers) + 1)))
    n = draw(st.sampled_from([x for x in {1: (3, 4, 5), 2: (3, 2, 4), 3: (2, 3)}[n_l] if (x <= top) and (x < 4 or n_l == 1 or (big and len(layers) == 2))]))
    c = draw(st.sampled_from([x for x in couplings if x != "ordinal" or isinstance(layers[0], int)]))
    return n, tuple(layers), n_l, c, draw(st.sampled_from(["all", (0,)]))


def aspects(c):
    return "all" if c[4] == "all" else [0]


def subsets(layers):
    return [frozenset(x) for k in range(len(layers) + 1) for x in itertools.combinations(layers, k)]


def coupled(coupling, a, b):
    return coupling == "categorical" or (coupling == "ordinal" and abs(a - b) == 1)


def orders(layers, conf):
    """(key of the layer structure, layer order) pairs that make graphs comparable."""
    if conf[4] != "all":
        o = tuple(sorted(layers))
        return [(o, o)]
    return [(tuple(coupled(conf[3], a, b) for i, a in enumerate(o) for b in o[:i]), o) for o in itertools.permutations(sorted(layers))]


def canon(nodes, layers, links, conf, root=None):
    """Canonical form; links: {frozenset((u, v)): set of layers}; root: a node singled out (maybe a node-layer)."""
    best = None
    for key, lo in orders(layers, conf):
        code = {l: 1 << i for i, l in enumerate(lo)}
        if root is not None and isinstance(root, tuple):
            key = key + (lo.index(root[1]),)
        rn = root[0] if isinstance(root, tuple) else root
        rest = [x for x in nodes if root is None or x != rn]
        val = {p: sum(code[l] for l in ls) for p, ls in links.items()}
        for perm in itertools.permutations(rest):
            no = ((rn,) if root is not None else ()) + perm
            f = (key, tuple(val.get(frozenset((no[i], no[j])), 0) for i in range(len(no)) for j in range(i)))
            if best is None or f < best:
                best = f
    return best


def connected(nodes, links):
    nodes = list(nodes)
    seen, todo = {nodes[0]}, [nodes[0]]
    while todo:
        u = todo.pop()
        for v in nodes:
            if v not in seen and links.get(frozenset((u, v))):
                seen.add(v)
                todo.append(v)
    return len(seen) == len(nodes)


def links_of(net):
    """{pair: layers} of a multiplex network's intra-layer links."""
    d = {}
    for l in net.iter_layers():
        for e in net.A[l].edges:
            d.setdefault(frozenset(e[:2]), set()).add(l)
    return d


@functools.lru_cache(maxsize=None)
def classes(conf, k):
    """Canonical forms of all connected graphs on k nodes over all admissible layer sets."""
    out = set()
    pairs = [frozenset(p) for p in itertools.combinations(range(k), 2)]
    for ls in itertools.combinations(conf[1], conf[2]):
        for choice in itertools.product(subsets(ls), repeat=len(pairs)):
            links = dict(zip(pairs, choice))
            if connected(range(k), links):
                out.add(canon(range(k), ls, links, conf))
    return frozenset(out)


CACHE = {}


def choose_backend(conf):
    """Isomorphism mappings from either backend, as after installing them in another order: any isomorphism will do."""
    try:
        from pymnet.isomorphisms import isomorphism_mapping_backends as names
        names.sort(reverse=zlib.crc32(repr(conf).encode()) % 3 > 0)
    except (ImportError, AttributeError):
        pass


def table(conf):
    """(nets, invs, auts) as the library makes them, made once per worker."""
    import pymnet
    choose_backend(conf)
    if conf not in CACHE:
        n, layers, n_l, c, aa = conf
        nets, invs = pymnet.graphlets.graphlets(n, list(layers), n_l, couplings=c, allowed_aspects=aspects(conf))
        CACHE[conf] = nets, invs, pymnet.graphlets.automorphism_orbits(nets, allowed_aspects=aspects(conf))
    return CACHE[conf]


def make(nodes, layers, links, coupling):
    import pymnet
    net = pymnet.MultiplexNetwork(couplings=coupling, fullyInterconnected=True)
    for x in nodes:
        net.add_node(x)
    for l in layers:
        net.add_layer(l)
    for u, v, l in links:
        net[u, v, l] = 1
    return net


@st.composite
def target(draw, conf, lo=2, hi=6, names=None, tree=False):
    """Node names, the network's layers and links (u, v, layer) for a given configuration."""
    k = draw(st.sampled_from(range(hi, lo - 1, -1)))
    nodes = draw(st.permutations((names or list(range(10)))))[:k]
    if conf[4] == "all" and conf[3] != "ordinal" and draw(st.booleans()):
        layers = ["p", "q", "r"][:conf[2]] if draw(st.booleans()) else [7, 8, 9][:conf[2]]
    else:
        layers = draw(st.permutations(conf[1]))[:conf[2]]
    pairs = [(nodes[i], nodes[j], l) for i in range(k) for j in range(i) for l in layers]
    p = draw(st.sampled_from([4, 6, 2, 8]))
    bits = draw(st.lists(st.integers(0, 9), min_size=len(pairs), max_size=len(pairs)))
    links = [e for e, b in zip(pairs, bits) if b < p]
    if tree and draw(st.integers(0, 5)):
        for i in range(1, k):
            e = (nodes[i], nodes[draw(st.integers(0, i - 1))], draw(st.sampled_from(layers)))
            if e not in links:
                links.append(e)
    return list(nodes), list(layers), links
