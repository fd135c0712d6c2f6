"""C02: all implementations of the elementary 3-cycle counts agree with the walks they stand for."""
import itertools, os, resource, subprocess, sys
from hypothesis import strategies as st
from pbt import harness
from pbt.harness import case, check
from pbt.model import build, ref
from pbt import gen

CASES = []
ASSUMPTIONS = ["Undirected unweighted one-aspect multiplex networks with categorical couplings, where the elementary cycles are defined."]
NAMES = ("aaa", "aacac", "acaac", "acaca", "acacac", "afa", "afcac", "acfac", "acfca", "acfcac")
KW = dict(directed=(False,), aspects=(1,), weights=gen.weights_one, noedge=(0,), **gen.SORTABLE)
CPL = ("categorical",)


@st.composite
def multiplex(draw, fi=(True, False), weight_one=True):
    spec = draw(st.one_of(*[gen.mx_spec(kinds=CPL, fi=fi, min_nodes=3, max_nodes=n, min_layers=m, max_layers=k, dense=True, **KW)
                            for n, m, k in ((4, 2, 3), (5, 2, 3), (5, 3, 3), (3, 1, 4))] + [gen.mx_spec(kinds=CPL, fi=fi, **KW)]))
    if weight_one:
        spec["couplings"] = [draw(st.sampled_from(["categorical", ("categorical", 1.0)]))]
    return spec


def walks(r):
    """{node-layer: ten counts} by multiplying out the walks a (link in the layer), c (step to another layer) and f (any other node of the layer)."""
    import numpy
    nls = sorted(r.nls, key=repr)
    ix = {u: i for i, u in enumerate(nls)}
    a, c, f = (numpy.zeros((len(nls), len(nls)), dtype=int) for _ in range(3))
    for u in nls:
        for v in nls:
            if u != v and (u, v) in r.E and u[1] == v[1]:
                a[ix[u], ix[v]] = 1
            if u[0] == v[0] and u[1] != v[1]:
                c[ix[u], ix[v]] = 1
            if u[1] == v[1] and u[0] != v[0]:
                f[ix[u], ix[v]] = 1
    mats = dict(a=a, c=c, f=f)
    out = {u: [] for u in nls}
    for name in NAMES:
        m = numpy.eye(len(nls), dtype=int)
        for ch in name:
            m = m @ mats[ch]
        for u in nls:
            out[u].append(int(m[ix[u], ix[u]]))
    return out


def add(vs):
    return tuple(map(sum, zip(*vs))) if vs else (0,) * 10


@case(CASES, multiplex(weight_one=False), quick=900, rule="at least three of the five closed cycle types occur")
def brute_force_counts(spec, rec):
    """cc_cycle_vector_bf and elementary_cycles for every node, layer, and sum over them."""
    from pymnet import cc
    r = ref(spec, couplings=False)
    w = walks(r)
    net = build(spec)
    zero = (0,) * 10
    nodes, layers = sorted(r.dims[0], key=repr), sorted(r.dims[1], key=repr)
    for n, l in itertools.product(nodes, layers):
        want = tuple(w.get((n, l), zero))
        got = tuple(cc.cc_cycle_vector_bf(net, n, l))
        check(got == want, "cycles", NAMES, "around", (n, l), "are", got, "expected", want)
        check(tuple(cc.elementary_cycles(net, n, l)) == want, "elementary_cycles of", (n, l))
    for n in nodes:
        want = add([w[n, l] for l in layers if (n, l) in w])
        got = cc.elementary_cycles(net, n)
        check(isinstance(got, tuple) and got == want, "cycles around node", n, "are", got, "expected", want)
    for l in layers:
        want = add([w[n, l] for n in nodes if (n, l) in w])
        got = cc.elementary_cycles(net, layer=l)
        check(got == want, "cycles around layer", l, "are", got, "expected", want)
    got = cc.elementary_cycles(net)
    check(got == add(list(w.values())), "all cycles are", got, "expected", add(list(w.values())))
    out = cc.cc_aw_vector(net)
    it = [(n, l) for n in net for l in net.get_layers(1)]
    full = [w.get(u, zero) for u in it]
    want = ([x[0] for x in full], [x[5] for x in full], [sum(x[1:4]) for x in full], [sum(x[6:9]) for x in full], [x[4] for x in full], [x[9] for x in full])
    check(tuple(map(list, out)) == tuple(want), "cc_aw_vector is", out, "expected", want)
    check(net == build(spec), "the network was modified")
    rec.nontrivial(sum(x > 0 for x in add(list(w.values()))[:5]) >= 3)
    rec.label("fi" if spec["fi"] else "partial", "layers%d" % len(layers))


@case(CASES, multiplex(fi=(True,)), quick=700, rule="at least three of the five closed cycle types occur")
def matrix_and_aggregate_counts(spec, rec):
    """cc_cycle_vector_anet, cc_cycle_vector_adj, elementary_cycles with an aggregate and gcc_aw_vector_adj agree with the same walks."""
    import pymnet
    from pymnet import cc
    r = ref(spec, couplings=False)
    if not r.nls:
        return
    w = walks(r)
    net = build(spec)
    anet = pymnet.aggregate(net, 1)
    a0 = pymnet.aggregate(net, 1)
    nodes, layers = sorted(r.dims[0], key=repr), sorted(r.dims[1], key=repr)
    for n in nodes:
        for l in layers:
            want = tuple(w[n, l])
            got = tuple(cc.cc_cycle_vector_anet(net, n, l, anet))
            check(got == want, "cycles", NAMES, "around", (n, l), "with the aggregate are", got, "expected", want)
            got = tuple(int(x) for x in cc.cc_cycle_vector_adj(net, n, l))
            check(got == want, "cycles", NAMES, "around", (n, l), "from the matrices are", got, "expected", want)
            check(tuple(cc.elementary_cycles(net, n, l, anet=anet)) == want, "elementary_cycles of", (n, l), "with the aggregate")
        want = add([w[n, l] for l in layers])
        for got in (cc.cc_cycle_vector_anet(net, n, None, anet), cc.elementary_cycles(net, n, anet=anet)):
            check(tuple(got) == want, "cycles around node", n, "with the aggregate are", tuple(got), "expected", want)
    for l in layers:
        got = cc.elementary_cycles(net, layer=l, anet=anet)
        check(got == add([w[n, l] for n in nodes]), "cycles around layer", l, "with the aggregate are", got)
    check(cc.elementary_cycles(net, anet=anet) == add(list(w.values())), "all cycles with the aggregate are", cc.elementary_cycles(net, anet=anet))
    out = cc.gcc_aw_vector_adj(net)
    order = [tuple(x) for x in net.get_supra_adjacency_matrix()[1]]
    want = ([w[u][0] for u in order], [w[u][5] for u in order], [sum(w[u][1:4]) for u in order], [sum(w[u][6:9]) for u in order], [w[u][4] for u in order], [w[u][9] for u in order])
    # the matrices of the complete network may list the node-layers in another order only if names differ, so compare per node-layer
    check(tuple([int(x) for x in col] for col in out) == tuple(want), "gcc_aw_vector_adj is", out, "expected", want)
    check(net == build(spec) and anet == a0, "a network was modified")
    rec.nontrivial(sum(x > 0 for x in add(list(w.values()))[:5]) >= 3)
    rec.label("layers%d" % len(layers))


CHAIN = """
import sys
sys.path.insert(0, %r)
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings="categorical", fullyInterconnected=%r)
for i in range(%d):
    net[i, i + 1, "a"] = 1
net[0, 1, "b"] = 1
c = cc.elementary_cycles(net)
print("counted", c[0], c[5])
"""


@case(CASES, st.tuples(st.sampled_from([2500, 3500]), st.booleans()), quick=3, thorough=8, rule="always")
def long_chains(t, rec):
    """Counting does not depend on the interpreter's stack: a long chain of nodes is counted with a small stack."""
    n, fi = t

    def small():
        resource.setrlimit(resource.RLIMIT_STACK, (512 * 1024, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHAIN % (harness.REPO, fi, n)], preexec_fn=small, capture_output=True, text=True, timeout=300)
    check(p.returncode == 0, "counting the cycles of a chain of", n, "nodes ends with status", p.returncode, p.stderr[-300:])
    check(p.stdout.split() == ["counted", "0", str(2 * (n - 1))], "a chain of", n, "nodes gives", p.stdout)
    rec.nontrivial()


def big(fi=(True, False)):
    return gen.big_spec(kind=("mx",), aspects=(1,), directed=(False,), noedge=(0,), weights="one", kinds=CPL, fi=fi, nodes=(6, 12), layers=(3, 6), limit=50, degree=(4, 8)).map(
        lambda s: dict(s, couplings=["categorical"]))


gen.again(CASES, "larger_brute_force_counts", brute_force_counts, big(), quick=30, rule="at least three of the five closed cycle types occur")
gen.again(CASES, "larger_matrix_and_aggregate_counts", matrix_and_aggregate_counts, big((True,)), quick=20, rule="at least three of the five closed cycle types occur")

