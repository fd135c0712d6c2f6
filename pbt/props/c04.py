"""C04: the other multiplex clustering coefficients follow their formulas."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import build, ref, P
from pbt import gen

CASES = []
ASSUMPTIONS = ["One-aspect multiplex networks with noEdge 0, no self-links and positive weights (any for the unweighted coefficients of Battiston et al.); undirected unless stated otherwise."]
close = lambda x, y: x is not None and y is not None and abs(x - y) < 1e-9


def nets(directed=(False,), weights=gen.weights_pos, fi=(True, False), lo=1, kinds=("categorical", "none", "ordinal"), noedge=(0,)):
    kw = dict(aspects=(1,), noedge=noedge, directed=directed, weights=weights, fi=fi, kinds=kinds)
    return st.one_of(*[gen.mx_spec(min_nodes=a, max_nodes=b, min_layers=max(lo, c), max_layers=d, dense=True, **kw)
                       for a, b, c, d in ((3, 4, 2, 3), (4, 5, 2, 2), (4, 5, 1, 3), (4, 4, 3, 4))] + [gen.mx_spec(min_layers=lo, max_layers=max(lo, 3), **kw)])


def tensor(spec):
    """(nodes, layers, W(i, j, layer), node-layers)."""
    r = ref(spec, couplings=False)
    D = {(u[0], v[0], u[1]): w for (u, v), w in r.E.items()}
    return sorted(r.dims[0], key=repr), sorted(r.dims[1], key=repr), lambda i, j, l: D.get((i, j, l), spec["noedge"]), r.nls


@case(CASES, nets(), quick=900, rule="some value not 0 or 1")
def barrett(spec, rec):
    """Three implementations of Barrett's coefficient against the quadruple sums."""
    import pymnet
    from pymnet import cc
    N, L, W, nls = tensor(spec)
    net = build(spec)
    an = pymnet.aggregate(net, 1)
    S = {(i, j): sum(W(i, j, l) for l in L) for i in N for j in N}
    vals = []
    for i in N:
        num = sum(S[i, j] * S[i, h] * S[j, h] for j in N for h in N)
        den = sum(S[i, j] * sum(max(W(i, h, l), W(j, h, l)) for h in N for l in L) for j in N)
        want = num / den if den else 0.0
        for name, got in (("cc_barrett", cc.cc_barrett(net, i, an)), ("cc_barrett_optimized", cc.cc_barrett_optimized(net, i, an)),
                          ("cc_barrett_explicit", cc.cc_barrett_explicit(net, i))):
            check(close(got, want), name, "of", i, "is", got, "expected", want)
        if not den:
            check(cc.cc_barrett(net, i, an, undefReturn=7) == 7 and cc.cc_barrett_optimized(net, i, an, undefReturn=7) == 7 and cc.cc_barrett_explicit(net, i, undefReturn=7) == 7,
                  "undefined value is not returned for", i)
        vals.append(want)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(x not in (0, 1) for x in vals))
    rec.label("fi" if spec["fi"] else "partial")


@st.composite
def brodka_case(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        spec = draw(nets(directed=(True,)))
    else:
        spec = draw(nets(weights=gen.weights_one if kind == 1 else gen.weights_pos))
    return spec, draw(st.sampled_from([1, 2, "all", 3]))


@case(CASES, brodka_case(), quick=1100, rule="some value above 0")
def brodka(t, rec):
    """Cross-layer coefficient: links among the nodes linked to the focal one (either way) in at least the threshold number of layers."""
    import pymnet
    from pymnet import cc
    spec, th = t
    N, L, W, nls = tensor(spec)
    net = build(spec)
    k = len(L) if th == "all" else th
    vals = []
    unweighted = all(e[2] == 1 for e in spec["edges"]) and not spec["directed"]
    for u in N:
        nb = [v for v in N if sum(bool(W(u, v, l) or W(v, u, l)) for l in L) >= k and v != u]
        want = sum(W(h, v, l) + W(v, h, l) for l in L for v in nb for h in nb) / (2. * len(nb) * len(L)) if nb else 0.0
        got = cc.lcc_brodka(net, u, threshold=th)
        check(close(got, want), "lcc_brodka of", u, "with threshold", th, "is", got, "expected", want)
        if not nb:
            check(cc.lcc_brodka(net, u, threshold=th, undefReturn=7) == 7, "lcc_brodka of", u, "ignores undefReturn")
        if th == 1:
            check(close(cc.lcc_brodka(net, u), want), "default threshold is not 1")
        if unweighted:
            got = cc.lcc_brodka(net, u, threshold=th, anet=pymnet.aggregate(net, 1))
            check(close(got, want), "lcc_brodka of", u, "from the aggregate is", got, "expected", want)
        vals.append(want)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(vals))
    rec.label("th%s" % th, "directed" if spec["directed"] else "undirected", "fi" if spec["fi"] else "partial")


@case(CASES, nets(directed=(False, True), fi=(True,), noedge=(0, 0, -1), weights=gen.weights_any), quick=900, rule="some value above 0")
def battiston(spec, rec):
    """Both coefficients of Battiston et al. on node-aligned networks, normalised by the number of other layers."""
    from pymnet import cc
    N, L, W, nls = tensor(spec)
    net = build(spec)
    A = lambda i, j, l: int(W(i, j, l) != spec["noedge"])
    b = len(L)
    vals = []
    for u in N:
        V = [v for v in N if v != u]
        if b >= 2:
            num = sum(A(u, v, al) * A(v, h, be) * A(h, u, al) for al in L for be in L if be != al for v in V for h in V)
            den = sum(A(u, v, al) * A(h, u, al) for al in L for v in V for h in V)
            want = num / den / (b - 1) if den else None
            got = cc.lcc_battiston1(net, u, undefReturn=None)
            check(got is None if want is None else close(got, want), "lcc_battiston1 of", u, "is", got, "expected", want)
            check(close(cc.lcc_battiston1(net, u), want or 0.0), "lcc_battiston1 of", u, "without undefReturn")
            vals.append(want)
        else:
            check(raises(AssertionError, cc.lcc_battiston1, net, u), "lcc_battiston1 accepted a single layer")
        want = None
        if b >= 3:
            num = sum(A(u, v, al) * A(v, h, ga) * A(h, u, be) for al in L for be in L if be != al for ga in L if ga not in (al, be) for v in V for h in V)
            den = sum(A(u, v, al) * A(h, u, be) for al in L for be in L if be != al for v in V for h in V)
            want = num / den / (b - 2) if den else None
        got = cc.lcc_battiston2(net, u, undefReturn=None)
        check(got is None if want is None else close(got, want), "lcc_battiston2 of", u, "is", got, "expected", want)
        vals.append(want)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(vals))
    rec.label("layers%d" % b, "directed" if spec["directed"] else "undirected")


@case(CASES, nets(), quick=900, rule="some value strictly between 0 and 1")
def criado(spec, rec):
    """Links in each layer among the aggregate neighbours present there, over the pairs of those."""
    import pymnet
    from pymnet import cc
    N, L, W, nls = tensor(spec)
    net = build(spec)
    an = pymnet.aggregate(net, 1)
    vals = []
    for u in N:
        nb = {v for v in N if any(W(u, v, l) for l in L)}
        on = {l: [v for v in nb if (v, l) in nls] for l in L}
        num = sum(bool(W(v, h, l)) for l in L for v in on[l] for h in on[l])
        den = sum(len(x) * (len(x) - 1) for x in on.values())
        want = num / den if den else None
        for a in (None, an):
            got = cc.lcc_criado(net, u, anet=a, undefReturn=None)
            check(got is None if want is None else close(got, want), "lcc_criado of", u, "is", got, "expected", want)
        check(close(cc.lcc_criado(net, u), want or 0.0), "lcc_criado of", u, "without undefReturn")
        vals.append(want)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(x and x < 1 for x in vals))
    rec.label("fi" if spec["fi"] else "partial")


@case(CASES, nets(), quick=700, rule="triangles in some layer but not in all")
def layer_sequences(spec, rec):
    """Triangles and connected pairs per layer, their averages, and the coefficient of all layers together."""
    from pymnet import cc
    N, L, W, nls = tensor(spec)
    net = build(spec)
    tot_t = tot_d = 0
    seen = set()
    order = list(net.A)
    check(sorted(order, key=repr) == L, "layers", order)
    for u in N:
        t, d = [], []
        for l in order:
            nb = [v for v in N if W(u, v, l)]
            t.append(sum(bool(W(v, h, l)) for v, h in itertools.combinations(nb, 2)))
            d.append(len(nb) * (len(nb) - 1) // 2)
        seen |= {x > 0 for x in t}
        tot_t, tot_d = tot_t + sum(t), tot_d + sum(d)
        got = cc.cc_sequence(net, u)
        check(list(got[0]) == t and list(got[1]) == d, "cc_sequence of", u, "is", got, "expected", (t, d))
        if all(d):
            got, want = cc.cc_layers_avg(net, u), sum(x / y for x, y in zip(t, d)) / len(d)
            check(close(got, want), "cc_layers_avg of", u, "is", got, "expected", want)
        if any(d):
            got, want = cc.cc_layers_wavg(net, u), sum(t) / sum(d)
            check(close(got, want), "cc_layers_wavg of", u, "is", got, "expected", want)
    got = cc.gcc_super_graph_no_couplings(net)
    check(got is None if not tot_d else close(got, tot_t / tot_d), "gcc_super_graph_no_couplings is", got, "expected", tot_t, "/", tot_d)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(len(seen) == 2)


@case(CASES, st.one_of(nets(fi=(True,)), gen.ml_spec(aspects=(1,), noedge=(0,), directed=(False,), loops=False, weights=gen.weights_pos, min_nodes=2, fi=(True,), dense=True),
                       gen.ml_spec(aspects=(1,), noedge=(0,), directed=(False,), loops=False, weights=gen.weights_pos, min_nodes=3, min_layers=2, max_layers=2, fi=(True,), dense=True)),
      quick=220, thorough=2500, rule="a value strictly between 0 and 1")
def supra_graph(spec, rec):
    """Coefficients of the supra-graph and contractions of the adjacency tensor."""
    import numpy
    from pymnet import cc
    r = ref(spec)
    if not r.nls:
        return
    net = build(spec)
    nls = sorted(r.nls, key=repr)
    M = numpy.array([[r.w(u, v) for v in nls] for u in nls], dtype=float)
    A = (M != 0).astype(float)
    div = lambda a, b: a / b if b else None
    same = lambda got, want: got is None if want is None else close(got, want)
    closed = lambda X, Y: float(numpy.trace(X @ X @ Y))
    pairs = lambda X: float((X @ X).sum() - numpy.trace(X @ X))
    want = div(closed(A, A), pairs(A))
    got = cc.gcc_super_graph(net)
    check(same(got, want), "gcc_super_graph is", got, "expected", want)
    vals = [want]
    want = div(closed(M, M), pairs(M))
    for f in (cc.gcc_contraction_m, cc.gcc_contraction_m_ct, cc.gcc_contraction_m_full):
        check(same(f(net), want), f.__name__, "is", f(net), "expected", want)
    vals.append(want)
    names = sorted(r.dims[0], key=repr)
    O = numpy.zeros((len(names), len(names)))
    for (u, v), w in r.E.items():
        if u[1] == v[1]:
            O[names.index(u[0]), names.index(v[0])] += w
    want = div(closed(O, O), len(r.dims[1]) * pairs(O))
    for f in (cc.gcc_contraction_o2, cc.gcc_contraction_o_full):
        check(same(f(net), want), f.__name__, "is", f(net), "expected", want)
    vals.append(want)
    want = div(closed(O, O), len(r.dims[1]) * float((O @ O).sum()) - float(numpy.trace(O @ O)))   # pairs of the same link are left out once
    check(same(cc.gcc_contraction_o(net), want), "gcc_contraction_o is", cc.gcc_contraction_o(net), "expected", want)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(x and x < 1 for x in vals))
    rec.label(spec["kind"])


def big(directed=(False,), weights="pos", fi=(True, False), noedge=(0,), limit=60):
    return gen.big_spec(kind=("mx",), aspects=(1,), directed=directed, noedge=noedge, weights=weights, fi=fi, kinds=("categorical", "none", "ordinal"), nodes=(6, 16), layers=(2, 5),
                        layer_names=("int",), limit=limit, degree=(4, 8))


gen.again(CASES, "larger_barrett", barrett, big(), quick=25, rule="some value not 0 or 1")
gen.again(CASES, "larger_battiston", battiston, big(directed=(False, True), fi=(True,), noedge=(0, -1), weights="any"), quick=25, rule="some value above 0")
gen.again(CASES, "larger_criado", criado, big(), quick=20, rule="some value strictly between 0 and 1")
gen.again(CASES, "larger_layer_sequences", layer_sequences, big(), quick=20, rule="triangles in some layer but not in all")
gen.again(CASES, "larger_supra_graph", supra_graph, big(fi=(True,), limit=24), quick=10, rule="a value strictly between 0 and 1")

