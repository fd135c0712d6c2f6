"""C03: alternating-walker clustering coefficients are the stated ratios of cycle counts."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref
from pbt import gen
from pbt.props.c02 import multiplex, walks, add, big

CASES = []
ASSUMPTIONS = ["Undirected unweighted one-aspect multiplex networks with categorical couplings."]
W = st.sampled_from([(0.5, 0.5, None), (1 / 3., 1 / 3., 1 / 3.), (1, 0, None), (0, 1, None), (0.7, 0.3, None), (0.25, 0.5, 0.75), (1, 0, 0), (0, 0, 1), (0, 1, 0), (0.5, 0.5, 0), (1, 0.5, 0), (0.5, 0, 0.5)])
close = lambda x, y: x is not None and abs(x - y) < 1e-9


def parts(v):
    """(t1, t2, t3), (d1, d2, d3) of a count vector."""
    return (v[0], v[1] + v[2] + v[3], v[4]), (v[5], v[6] + v[7] + v[8], v[9])


def ratio(a, b):
    return a / b if b else 0


def vector(v):
    t, d = parts(v)
    return tuple(map(ratio, t, d))


def value(v, w):
    """Weighted mean of the three coefficients, or the walker's ratio with costs when w3 is None."""
    if w[2] is not None:
        return sum(x * y for x, y in zip(w, vector(v)))
    t, d = parts(v)
    a, b = w[0], w[1]
    f = (a ** 3, a * b * b, b ** 3)
    return ratio(sum(x * y for x, y in zip(t, f)), sum(x * y for x, y in zip(d, f)))


@case(CASES, st.tuples(multiplex(), W), quick=1100, rule="some local value strictly between 0 and 1")
def coefficients_from_counts(t, rec):
    """Local, node, average and global alternating-walker coefficients with every weighting and as vectors."""
    import pymnet
    from pymnet import cc
    spec, w = t
    r = ref(spec, couplings=False)
    if not r.nls:
        return
    cnt = walks(r)
    net = build(spec)
    kw = dict(w1=w[0], w2=w[1], w3=w[2])
    lkw, skw, gkw = dict(kw), dict(kw), dict(kw)
    ckw = dict(a=w[0], b=w[1])
    if len(spec["edges"]) % 2 and w == (0.5, 0.5, None):
        lkw, gkw, ckw = {}, {}, {}      # the defaults
    if len(spec["edges"]) % 2 and w == (1 / 3., 1 / 3., 1 / 3.):
        skw = {}
    anets = [None, pymnet.aggregate(net, 1)] if spec["fi"] else [None]
    local = []
    for n in r.dims[0]:
        for l in r.dims[1]:
            v = cnt.get((n, l), [0] * 10)
            for an in anets:
                got = cc.lcc_aw(net, n, l, anet=an, **lkw)
                check(close(got, value(v, w)), "lcc_aw of", (n, l), "with", w, "is", got, "expected", value(v, w))
                got = cc.lcc_aw(net, n, l, returnCVector=True, anet=an)
                check(all(map(close, got, vector(v))), "coefficients of", (n, l), "are", got, "expected", vector(v))
            if (n, l) in cnt:
                local.append(value(v, w))
        v = add([cnt[n, l] for l in r.dims[1] if (n, l) in cnt])
        for an in anets:
            got = cc.sncc_aw(net, n, anet=an, **lkw)
            check(close(got, value(v, w)), "sncc_aw of", n, "with", w, "is", got, "expected", value(v, w))
            got = cc.sncc_aw(net, n, returnCVector=True, anet=an)
            check(all(map(close, got, vector(v))), "coefficients of node", n, "are", got, "expected", vector(v))
        if w[2] is None:
            got = cc.sncc_aw_layercost(net, n, **ckw)
            check(close(got, value(v, w)), "sncc_aw_layercost of", n, "is", got, "expected", value(v, w))
        else:
            d = parts(v)[1]
            got = cc.sncc_aw_seplayers(net, n, undefined="undefined", **skw)
            if any(x == 0 and y > 0 for x, y in zip(d, w)):
                check(got == "undefined", "sncc_aw_seplayers of", n, "is", got, "with the denominators", d, "and weights", w)
            else:
                check(close(got, value(v, w)), "sncc_aw_seplayers of", n, "is", got, "expected", value(v, w))
    got = cc.avg_lcc_aw(net, **lkw)
    check(close(got, sum(local) / len(local)), "avg_lcc_aw with", w, "is", got, "expected", sum(local) / len(local))
    got = cc.avg_lcc_aw(net, returnCVector=True)
    want = [sum(x) / len(cnt) for x in zip(*[vector(v) for v in cnt.values()])]
    check(all(map(close, got, want)), "average coefficients are", got, "expected", want)
    v = add(list(cnt.values()))
    got = cc.gcc_aw(net, **gkw)
    check(close(got, value(v, w)), "gcc_aw with", w, "is", got, "expected", value(v, w))
    got = cc.gcc_aw(net, returnCVector=True)
    check(all(map(close, got, vector(v))), "global coefficients are", got, "expected", vector(v))
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(0 < x < 1 for x in local))
    rec.label("w3" if w[2] is not None else "costs", "fi" if spec["fi"] else "partial", "layers%d" % len(r.dims[1]))


@case(CASES, st.tuples(multiplex(fi=(True,)), W), quick=500, rule="two or more of the three denominators are positive")
def matrix_coefficients(t, rec):
    """The matrix versions and those counting walks in both directions."""
    import numpy
    from pymnet import cc
    spec, w = t
    r = ref(spec, couplings=False)
    if not r.nls:
        return
    cnt = walks(r)
    net = build(spec)
    v = add(list(cnt.values()))
    w3 = w if w[2] is not None else (0.2, 0.3, 0.5)
    c = vector(v)
    args = () if w3 == (1 / 3., 1 / 3., 1 / 3.) else w3      # the default
    got = cc.gcc_aw_seplayers_adj(net, *args)
    check(close(got, value(v, w3)), "gcc_aw_seplayers_adj is", got, "expected", value(v, w3))
    got = cc.gcc_aw_seplayers_adj(net, returnCVector=True)
    check(isinstance(got, tuple) and len(got) == 3 and all(map(close, got, c)), "coefficients from matrices are", got, "expected", c)
    # cycles in both directions: those not symmetric count twice
    t2, d2 = 2 * v[1] + 2 * v[2] + v[3], 2 * v[6] + 2 * v[7] + v[8]
    m = (c[0], ratio(t2, d2), c[2])
    got = cc.gcc_moreno2_seplayers(net, *args)
    check(close(got, sum(x * y for x, y in zip(m, w3))), "gcc_moreno2_seplayers is", got, "expected", m, "weighted with", w3)
    a, b = 0.4, 0.6
    f = (a ** 3, a * b * b, b ** 3)
    want = ratio(v[0] * f[0] + t2 * f[1] + 2 * v[4] * f[2], v[5] * f[0] + d2 * f[1] + 2 * v[9] * f[2])
    got = cc.gcc_moreno2_seplayers(net, a, b, None)
    check(close(got, want), "gcc_moreno2_seplayers with costs is", got, "expected", want)
    if v[5] and d2:
        got = cc.gcc_vector_moreno2(net)
        check(all(map(close, got, m)), "gcc_vector_moreno2 is", got, "expected", m)
        got = cc.gcc_moreno2(net, *args)
        check(close(got, sum(x * y for x, y in zip(m, w3))), "gcc_moreno2 is", got, "expected", m, "weighted with", w3)
    nls = sorted(r.nls, key=repr)
    A = numpy.array([[int((x, y) in r.E) for y in nls] for x in nls])
    C = numpy.array([[int(x[0] == y[0] and x[1] != y[1]) for y in nls] for x in nls])

    def prod(s):
        M = numpy.eye(len(nls), dtype=int)
        for ch in s:
            M = M @ (A if ch == "a" else C)
        return M
    off = lambda M: int(M.sum() - numpy.trace(M))
    nom = [("aaa",), ("aacac", "cacaa", "acaac", "caaca", "acaca"), ("acacac", "cacaca")]
    den = [("aa",), ("aac", "caca", "aca", "caac", "acac"), ("acac", "cacac")]
    ds = [sum(off(prod(s)) for s in x) for x in den]
    if all(ds):
        want = [sum(int(numpy.trace(prod(s))) for s in x) / d for x, d in zip(nom, ds)]
        got = cc.gcc_vector_moreno(net)
        check(all(map(close, got, want)), "gcc_vector_moreno is", got, "expected", want)
        got = cc.gcc_moreno(net, *args)
        check(close(got, sum(x * y for x, y in zip(want, w3))), "gcc_moreno is", got)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(sum(x > 0 for x in parts(v)[1]) >= 2)
    rec.label("layers%d" % len(r.dims[1]))


gen.again(CASES, "larger_networks", coefficients_from_counts, st.tuples(big(), W), quick=20, rule="some local value strictly between 0 and 1")
gen.again(CASES, "larger_matrices", matrix_coefficients, st.tuples(big((True,)), W), quick=15, rule="two or more of the three denominators are positive")

