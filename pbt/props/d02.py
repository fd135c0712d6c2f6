"""D02: dijkstra gives the true distances and exactly the links on shortest paths."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref, key, same_state
from pbt import gen

CASES = []
W = st.sampled_from([1, 1, 2, 3, 0.5, 0.25, 4, 0.1, 0.3, 1 / 3.0, 0.37, 1e-3, 12345.678])
W0 = st.sampled_from([0, 0, 1, 1, 2, 0.5])
MIXED = ["a", 1, "b", 2, 3, "c"]


@st.composite
def path_input(draw, zero=False, aspects=(0, 1, 2), prune=False):
    w = W0 if zero else W
    ne = -1 if zero else 0
    pools = (gen.INTS, gen.STRS) if draw(st.integers(0, 3)) else (MIXED,)
    mk = dict(weights=w, noedge=(ne,), aspects=aspects, node_pools=pools, max_nodes=6, min_nodes=3)
    spec = draw(st.one_of(gen.ml_spec(loops=zero, **mk), gen.ml_spec(loops=False, dense=True, **mk),
                          gen.mx_spec(**{**mk, "aspects": [a for a in aspects if a] or [1]})))
    if 0 in aspects and len(aspects) == 1 and spec["kind"] == "mx":
        spec = draw(gen.ml_spec(loops=False, **mk))
    g = ref(spec)
    nls = sorted(g.nls, key=repr)
    idx = draw(st.lists(st.integers(0, len(nls) - 1), min_size=1, max_size=2)) if nls else []
    return spec, [nls[i] for i in idx]


def distances(g, srcs):
    """Bellman-Ford over the explicit links."""
    d = {s: 0 for s in srcs}
    for _ in range(len(g.nls) + 1):
        changed = False
        for (u, v), w in g.E.items():
            if u in d and (v not in d or d[u] + w < d[v]):
                d[v] = d[u] + w
                changed = True
        if not changed:
            break
    return d


def tight(g, d):
    return {(u, v): w for (u, v), w in g.E.items() if u != v and u in d and d[u] + w == d[v]}


def forest_links(f):
    out = {}
    for e in f.edges:
        u, v = tuple(e[:-1][0::2]), tuple(e[:-1][1::2])
        if u != v:
            out[(u, v)] = e[-1]
    return out


def run(x, rec, zero):
    from pymnet import diagnostics
    spec, srcs = x
    net, g = build(spec), ref(spec)
    give = [iter, list, tuple, set][len(g.E) % 4]
    d, f = diagnostics.dijkstra(net, give([key(s) for s in srcs]))
    exp = distances(g, srcs)
    check(d == {key(u): w for u, w in exp.items()}, "distances from %r: %r, expected %r" % (srcs, d, exp))
    check(f.directed and f.aspects == net.aspects, "kind of the forest")
    want = tight(g, exp)
    got = forest_links(f)
    check(got == want, "forest links %r, links on shortest paths %r" % (got, want))
    check(set(f.slices[0]) == {u[0] for u in exp}, "nodes of the forest %r" % set(f.slices[0]))
    if spec["aspects"]:
        check(set(f.iter_node_layers()) == set(exp), "node-layers of the forest")
    same_state(net, g, check, "original:")
    inc = {}
    for (u, v) in want:
        inc[v] = inc.get(v, 0) + 1
    rec.nontrivial(len(exp) > len(set(srcs)) + 1)
    rec.label("tie" if any(c > 1 for c in inc.values()) else "no-tie", spec["kind"], "asp%d" % spec["aspects"],
              "directed" if spec["directed"] else "undirected", "sources%d" % len(set(srcs)),
              give.__name__, "unreached" if len(exp) < len(g.nls) else "all-reached")


@case(CASES, lambda: path_input(), quick=1500, rule="some node-layer is reached that is not a source, at two or more hops or branches")
def shortest_paths(x, rec):
    run(x, rec, False)


@case(CASES, lambda: path_input(zero=True), quick=500, rule="as shortest_paths, with links of weight zero in a network whose no-edge value is -1")
def zero_weights(x, rec):
    run(x, rec, True)


@case(CASES, lambda: st.tuples(path_input(aspects=(1, 2)), st.integers(1, 7)), quick=800, rule="a node is reachable in two node-layers at different distances")
def pruned_aspects(x, rec):
    """With aspects left out: minimum over their layers, and the union of the shortest paths to the minimisers."""
    from pymnet import diagnostics
    (spec, srcs), bits = x
    net, g = build(spec), ref(spec)
    asp = [a for a in range(spec["aspects"] + 1) if a and (bits >> (a - 1)) & 1] or [1]
    given = sorted({tuple(None if a in asp else n for a, n in enumerate(s)) for s in srcs}, key=repr)
    srcs_full = [u for u in itertools.product(*g.dims) if u in g.nls and g.tot(u)
                 and any(all(c is None or c == y for c, y in zip(s, u)) for s in given)]
    nd, nf = diagnostics.dijkstra_mlayer_prune(net, list(given), asp)
    d = distances(g, srcs_full)
    proj = lambda u: tuple(y for a, y in enumerate(u) if a not in asp)
    best = {}
    for u, w in d.items():
        best[proj(u)] = min(w, best.get(proj(u), w))
    iso = {tuple(c for a, c in enumerate(s) if a not in asp) for s in given}
    gotd = {k: w for k, w in nd.items() if k in best or not (k in iso and w == 0)}
    check(gotd == best, "distances %r, expected %r (sources %r without aspects %r)" % (nd, best, given, asp))
    t = tight(g, d)
    todo = [u for u, w in d.items() if w == best[proj(u)]]
    seen, want = set(todo), {}
    while todo:
        v = todo.pop()
        for (a, b), w in t.items():
            if b == v:
                want[(a, b)] = w
                if a not in seen:
                    seen.add(a)
                    todo.append(a)
    got = forest_links(nf)
    check(got == want, "pruned forest %r, expected %r" % (got, want))
    same_state(net, g, check, "original:")
    rec.nontrivial(any(w > best[proj(u)] for u, w in d.items()))
    rec.label(spec["kind"], "asp%d" % spec["aspects"], "prune%s" % asp)


@case(CASES, lambda: st.tuples(path_input(zero=True, aspects=(1, 2)), st.integers(1, 7)), quick=250, rule="as pruned_aspects, with links of weight zero")
def pruned_zero_weights(x, rec):
    pruned_aspects(x, rec)


@st.composite
def big_paths(draw, aspects=(0, 1, 1, 2)):
    spec = draw(gen.big_spec(aspects=aspects, weights="pos", noedge=(0,), loops=False, degree=(2, 3, 4)))
    nls = sorted(ref(spec).nls, key=repr)
    return spec, [nls[i % len(nls)] for i in draw(st.lists(st.integers(0, 999), min_size=1, max_size=3))]


gen.again(CASES, "longer_paths", shortest_paths, big_paths(), quick=60, rule="some node-layer is reached that is not a source, at two or more hops or branches")
gen.again(CASES, "longer_pruned_paths", pruned_aspects, st.tuples(big_paths(aspects=(1, 2)), st.integers(1, 7)), quick=40, rule="a node is reachable in two node-layers at different distances")

