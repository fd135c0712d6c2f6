"""C01: clustering coefficients of monoplex networks follow their formulas."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref, key
from pbt import gen

CASES = []
ASSUMPTIONS = ["Undirected networks without self-links and with positive weights, as the functions assume."]
KW = dict(aspects=(0,), directed=(False,), loops=False)


@st.composite
def weighted(draw):
    """Monoplex network by a bitmap over all pairs; weights dyadic so that scaling is exact."""
    nodes = draw(gen.names(2, 7))
    n = len(nodes)
    pairs = list(itertools.combinations(nodes, 2))
    p = draw(st.sampled_from([5, 7, 4, 9, 10, 2]))
    bits = draw(st.lists(st.integers(0, 9), min_size=len(pairs), max_size=len(pairs)))
    ws = draw(st.sampled_from([[1], [1, 2, 0.5, 4, 3], [0.25, 5], [2]]))
    edges = [((a,), (b,), draw(st.sampled_from(ws))) for (a, b), x in zip(pairs, bits) if x < p]
    edges = draw(st.permutations(edges))
    return {"kind": "ml", "aspects": 0, "directed": False, "noedge": draw(st.sampled_from([0, 0, -1])), "fi": True,
            "nodes": nodes, "layers": [], "nls": [], "edges": edges}


NETS = st.one_of(weighted(), weighted(), weighted(), gen.ml_spec(weights=gen.weights_pos, max_nodes=5, **KW))


def formulas(E, nodes, i):
    """Values of the coefficients by their formulas over ordered pairs; None where not defined."""
    nb = [j for j in nodes if (i, j) in E]
    k = len(nb)
    if k < 2:
        return dict(lcc=None, cc_zhang=None, cc_onnela=None, cc_barrat=None)
    wmax = max(E.values())
    prs = [(j, h) for j in nb for h in nb if j != h]
    tri = [(j, h) for j, h in prs if (j, h) in E]
    return dict(
        lcc=len(tri) / len(prs),
        cc_zhang=sum(E[i, j] * E[i, h] * E[j, h] for j, h in tri) / (wmax * sum(E[i, j] * E[i, h] for j, h in prs)),
        cc_onnela=sum((E[i, j] * E[i, h] * E[j, h]) ** (1 / 3.) for j, h in tri) / (wmax * k * (k - 1)),
        cc_barrat=sum((E[i, j] + E[i, h]) / 2. for j, h in tri) / (sum(E[i, j] for j in nb) * (k - 1)))


def verify(net, r, names, what=""):
    """Compare every coefficient of a monoplex pymnet network with its formula on the reference graph."""
    from pymnet import cc
    E = {(a[0], b[0]): w for (a, b), w in r.E.items()}
    nodes = [u[0] for u in r.nls]
    close = lambda x, y: x is not None and y is not None and abs(x - y) < 1e-9
    values = {n: [] for n in names}
    defined = 0
    for i in nodes:
        f = formulas(E, nodes, i)
        for n in names:
            got = getattr(cc, n)(net, i)
            und = getattr(cc, n)(net, i, undefReturn="undefined")
            if f[n] is None:
                check(got == 0.0 and und == "undefined", what, n, "of", i, "is", got, und, "where it is not defined")
            else:
                defined += f[n] not in (0, 1)
                check(close(got, f[n]) and close(und, f[n]), what, n, "of", i, "is", got, "expected", f[n])
                values[n].append(f[n])
        t, d = cc.cc_num_den(net, i)
        k = sum((i, j) in E for j in nodes)
        check(d == k * (k - 1) / 2 and t == sum((j, h) in E and (i, j) in E and (i, h) in E for j, h in itertools.combinations(nodes, 2)),
              what, "triangles and pairs of", i, "are", (t, d))
    for n in names:
        got = cc.gcc_from_lcc(net, getattr(cc, n))
        if values[n]:
            check(close(got, sum(values[n]) / len(values[n])), what, "mean of the defined", n, "is", got)
        else:
            check(got is None, what, "mean of no defined", n, "is", got)
    tri = sum(E[i, j] * E[i, h] * E[j, h] for i in nodes for j in nodes for h in nodes if j != h and (i, j) in E and (i, h) in E and (j, h) in E)
    den = sum(E[i, j] * E[i, h] for i in nodes for j in nodes for h in nodes if j != h and (i, j) in E and (i, h) in E)
    got = cc.gcc_zhang(net)
    check(got is None if not den else close(got, tri / den / max(E.values())), what, "gcc_zhang is", got)
    return defined


ALL = ("lcc", "cc_zhang", "cc_onnela", "cc_barrat")


@case(CASES, NETS, quick=2500, rule="some coefficient strictly between 0 and 1")
def monoplex_coefficients(spec, rec):
    """lcc, Zhang, Onnela and Barrat coefficients, their means and the global Zhang coefficient, for every node."""
    net = build(spec)
    d = verify(net, ref(spec), ALL)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(d)
    rec.label("noedge%s" % spec["noedge"], "weighted" if len({e[2] for e in spec["edges"]}) > 1 else "equal-weights")


@case(CASES, st.tuples(weighted(), st.sampled_from([2, 0.5, 4])), quick=700, rule="a node with a coefficient strictly between 0 and 1")
def scaling_and_unit_weights(t, rec):
    """Coefficients do not change when all weights are scaled, and equal the unweighted coefficient for equal weights."""
    from pymnet import cc
    spec, c = t
    net = build(spec)
    scaled = build(dict(spec, edges=[(u, v, w * c) for u, v, w in spec["edges"]]))
    ones = build(dict(spec, edges=[(u, v, c) for u, v, w in spec["edges"]]))
    vals = []
    for i in spec["nodes"]:
        base = cc.lcc(net, i)
        vals.append(base)
        for n in ALL:
            f = getattr(cc, n)
            check(abs(f(scaled, i) - f(net, i)) < 1e-9, n, "changes from", f(net, i), "to", f(scaled, i), "when weights are multiplied by", c)
            check(abs(f(ones, i) - base) < 1e-9, n, "of equal weights is", f(ones, i), "and lcc is", base)
    rec.nontrivial(any(0 < x < 1 for x in vals))


MX = dict(directed=(False,), aspects=(1,), weights=gen.weights_pos, noedge=(0,))


@case(CASES, st.one_of(gen.mx_spec(min_nodes=3, dense=True, **MX), gen.mx_spec(min_nodes=4, max_nodes=5, min_layers=2, dense=True, **MX), gen.mx_spec(**MX)), quick=900,
      rule="some coefficient strictly between 0 and 1 in a layer or the aggregate")
def layers_and_aggregates(spec, rec):
    """The same on the intra-layer networks of multiplex networks and on their aggregation."""
    import pymnet
    from pbt.model import Ref
    net = build(spec)
    r = ref(spec, couplings=False)
    d = 0
    agg = Ref(0, False)
    for n in r.dims[0]:
        agg.add_node(n)
    for l in sorted(r.dims[1], key=repr):
        sub = Ref(0, False)
        for u in r.nls:
            if u[1] == l:
                sub.add_node(u[0])
        for (u, v), w in r.E.items():
            if u[1] == v[1] == l:
                sub.E[(u[:1], v[:1])] = w
                agg.E[(u[:1], v[:1])] = agg.E.get((u[:1], v[:1]), 0) + w
        d += verify(net.A[l], sub, ALL, "layer %r:" % l)
    d += verify(pymnet.aggregate(net, 1), agg, ALL, "aggregate:")
    check(net == build(spec), "the network was modified")
    rec.nontrivial(d)
    rec.label("fi" if spec["fi"] else "partial")


gen.again(CASES, "larger_monoplex", monoplex_coefficients, gen.big_spec(kind=("ml",), aspects=(0,), directed=(False,), loops=False, weights="pos", nodes=(10, 40), degree=(4, 8, 12)),
          quick=40, rule="some coefficient strictly between 0 and 1")
gen.again(CASES, "larger_layers", layers_and_aggregates, gen.big_spec(kind=("mx",), aspects=(1,), directed=(False,), weights="pos", noedge=(0,), nodes=(8, 20), degree=(4, 8)),
          quick=25, rule="some coefficient strictly between 0 and 1 in a layer or the aggregate")

