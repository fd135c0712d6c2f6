"""T01: aggregation and overlay sum link weights over the dropped layers."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import Ref, build, ref, key, link, same_state
from pbt import gen

CASES = []


def agg_ref(g, aspects, selfedges):
    """Sum of the weights of all links that fall on the same pair of remaining node-layers."""
    keep = [a for a in range(g.aspects + 1) if a not in aspects]
    r = Ref(len(keep) - 1, g.directed, g.noedge, g.fi)
    for i, a in enumerate(keep):
        for n in g.dims[a]:
            r.dims[i].add(n)
    if not r.fi:
        r._nls = {tuple(u[a] for a in keep) for u in g.nls}
    tot = {}
    for k, w in g.links().items():
        if g.directed:
            u, v = k
        else:
            k = sorted(k, key=repr)
            u, v = k[0], k[-1]
        pu, pv = tuple(u[a] for a in keep), tuple(v[a] for a in keep)
        if pu == pv and not selfedges:
            continue
        kk = (pu, pv) if g.directed else frozenset((pu, pv))
        tot[kk] = tot.get(kk, 0) + w
    for kk, w in tot.items():
        if w == g.noedge:
            continue
        if g.directed:
            r.E[kk] = w
        else:
            k = list(kk)
            r.E[(k[0], k[-1])] = w
            r.E[(k[-1], k[0])] = w
    return r


@st.composite
def agg_input(draw):
    spec = draw(st.one_of(gen.ml_spec(aspects=(1, 2, 2, 3), noedge=(0, 0, -1)),
                          gen.mx_spec(noedge=(0, 0, -1)),
                          gen.ml_spec(aspects=(1, 2, 2, 3), noedge=(0, -1, 1), min_nodes=2, min_layers=2, dense=True), gen.mx_spec(noedge=(0, -1), min_nodes=2, min_layers=2, dense=True)))
    asp = spec["aspects"]
    if asp == 1:
        a = draw(st.sampled_from([1, (1,)]))
    else:
        a = draw(st.sampled_from([1, 2, (1,), (2,), (1, 2), (2, 1)] if asp == 2 else [1, 2, 3, (1, 3), (2, 3), (2, 1), (3, 1), (1, 2, 3), (3, 2, 1)]))
    return spec, a, draw(st.booleans()), draw(st.booleans())


@case(CASES, agg_input, quick=1200, rule="two links of the original fall on the same pair of the aggregate")
def aggregate(x, rec):
    from pymnet import transforms
    from pymnet.net import MultilayerNetwork
    spec, a, selfe, given = x
    net, g = build(spec), ref(spec)
    aspects = (a,) if isinstance(a, int) else a
    if any(isinstance(c, dict) and c["directed"] and not spec["directed"] for c in spec.get("couplings", [])):
        return
    kw = {"selfEdges": selfe} if selfe else {}
    if given:
        target = MultilayerNetwork(aspects=spec["aspects"] - len(aspects), noEdge=spec["noedge"],
                                   directed=spec["directed"], fullyInterconnected=spec["fi"])
        kw["newNet"] = target
    out = transforms.aggregate(net, a, **kw)
    if given:
        check(out is target, "aggregate does not fill and return the given network")
    r = agg_ref(g, aspects, selfe)
    check(out.aspects == r.aspects and out.directed == r.directed and out.noEdge == r.noedge, "parameters of the aggregated network")
    same_state(out, r, check, "aggregate over %r (selfEdges=%r):" % (a, selfe))
    same_state(net, g, check, "original after aggregate:")
    rec.nontrivial(len(r.links()) < sum(1 for _ in g.links()) and len(r.links()) > 0)
    rec.label(spec["kind"], "asp%d-over%d" % (spec["aspects"], len(aspects)), "directed" if r.directed else "undirected",
              "fi" if spec["fi"] else "nonfi", "self" if selfe else "noself")


@case(CASES, lambda: st.one_of(gen.mx_spec(aspects=(1,)), gen.ml_spec(aspects=(1,), loops=False), gen.mx_spec(aspects=(1,), min_nodes=3, min_layers=2, dense=True),
                                     gen.mx_spec(aspects=(1,), noedge=(-1,), min_nodes=2, min_layers=2, dense=True)), quick=700, rule="some pair is linked in two layers")
def overlay(spec, rec):
    from pymnet import transforms
    net, g = build(spec), ref(spec)
    out = transforms.overlay_network(net)
    r = Ref(0, g.directed, g.noedge)
    for n in g.dims[0]:
        r.add_node(n)
    tot, cnt = {}, {}
    for (u, v), w in g.E.items():
        if u[1:] == v[1:]:
            tot[(u[0], v[0])] = tot.get((u[0], v[0]), 0) + w
            cnt[(u[0], v[0])] = cnt.get((u[0], v[0]), 0) + 1
    for (a, b), w in tot.items():
        if w != g.noedge:
            r.E[((a,), (b,))] = w
    same_state(out, r, check, "overlay:")
    same_state(net, g, check, "original after overlay:")
    # entry by entry: the overlay weight is the sum of the intra-layer weights
    for a in g.dims[0]:
        for b in g.dims[0]:
            if a != b:
                s = sum(net[a, b, l] for l in g.dims[1] if net[a, b, l] != g.noedge)
                check(abs((0 if out[a, b] == g.noedge else out[a, b]) - s) < 1e-9 or s == g.noedge, "overlay weight", a, b, out[a, b], s)
    rec.nontrivial(any(c > 1 for c in cnt.values()))


@case(CASES, lambda: gen.ml_spec(aspects=(2,), weights=gen.weights_pos, max_layers=2), quick=250, rule="at least two links")
def stepwise(spec, rec):
    """Aggregating the two aspects one after the other, in either order, is aggregating both."""
    from pymnet import transforms
    net = build(spec)
    both = transforms.aggregate(net, (1, 2))
    a12 = transforms.aggregate(transforms.aggregate(net, 1), 1)
    a21 = transforms.aggregate(transforms.aggregate(net, 2), 1)
    check(a12 == both, "aggregating aspect 1 then 2 differs from both at once")
    check(a21 == both, "aggregating aspect 2 then 1 differs from both at once")
    tot = sum(e[-1] for e in both.edges)
    exp = sum(w for k, w in ref(spec).links().items() if (k[0][0] != k[1][0] if spec["directed"] else len({x[0] for x in k}) == 2))
    check(abs(tot - exp) < 1e-9, "total weight changed: %r, expected %r" % (tot, exp))
    rec.nontrivial(len(spec["edges"]) >= 2)


gen.again(CASES, "larger_aggregate", aggregate, st.one_of(gen.big_spec(aspects=(1, 2), noedge=(0, -1)), gen.big_spec(kind=("ml",), aspects=(1, 2), noedge=(1,))).flatmap(
    lambda s: st.tuples(st.just(s), st.sampled_from([1, (1,)] if s["aspects"] == 1 else [1, 2, (1, 2), (2, 1)]), st.booleans(), st.booleans())), quick=50,
    rule="two links of the original fall on the same pair of the aggregate")
gen.again(CASES, "larger_overlay", overlay, gen.big_spec(aspects=(1,), loops=False), quick=40, rule="some pair is linked in two layers")

