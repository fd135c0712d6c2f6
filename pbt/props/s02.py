"""S02: Rand-ESU samples every acceptable subgraph with the product of the given probabilities, repeatably."""
import math, random
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref
from pbt import gen
from pbt.props.s01 import subgraphs, collect, sorted_, random_net, WIDE

CASES = []
ASSUMPTIONS = ["Sampling frequencies are compared with bounds 6.5 standard deviations plus a constant wide, over fixed seeds."]
NETS = st.one_of(gen.connected_spec(max_nodes=4), gen.connected_spec(max_nodes=4, min_layers=2), gen.connected_spec(max_layers=2, max_nodes=4),
                 gen.mx_spec(aspects=(1,), directed=(False,), min_nodes=3, min_layers=2, dense=True))
SEEDS = st.one_of(st.integers(0, 10 ** 6), st.sampled_from(["abc", "", b"xyz", 0, 3.5]))
PROBS = st.sampled_from([0.7, 0.9, 1, 0.8, 1, 0.9, 0.5, 1, 0.3, 0, 0.95])


@st.composite
def sampling_case(draw, low=False):
    spec = draw(NETS)
    nn, nl = draw(st.sampled_from([2, 3, 1, 2])), draw(st.sampled_from([2, 1, 2, 3]))
    d = nn + nl - 1
    p = draw(st.lists(st.sampled_from([0.6, 0.8, 1, 0.5, 0.35]) if low else PROBS, min_size=d, max_size=d))
    return spec, nn, nl, p, draw(SEEDS), draw(st.booleans())


@case(CASES, sampling_case(), quick=1500, rule="at least three acceptable subgraphs and probabilities strictly between 0 and 1")
def sampled_subset(t, rec):
    """A sample has only acceptable subgraphs, none twice, is the same for the same seed, and needs no changes to the network."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    spec, nn, nl, p, seed, copy = t
    want = subgraphs(ref(spec), nn, nl)
    net = build(spec)
    pp = list(p)
    kw = dict(nnodes=nn, nlayers=nl, p=pp, seed=seed, copy_network=copy)
    lists = []
    for how in range(2):
        res = []
        esu(net, res if how else res.append, **kw)
        lists.append(res)
    check(lists[0] == lists[1], "two runs with the same seed differ:", lists)
    got = collect(esu, net, **kw)
    for k, n in got.items():
        check(k in want, "sampled", tuple(map(sorted_, k)), "which is not acceptable")
        check(n == 1, "sampled", tuple(map(sorted_, k)), n, "times")
    check(net == build(spec), "the network was modified")
    check(pp == list(p), "the list of probabilities was modified")
    if 0 in p:
        check(not got, "sampled something with a zero probability")
    if all(x == 1 for x in p):
        check(set(got) == set(want), "all probabilities are one but subgraphs are missing")
    rec.nontrivial(len(want) >= 3 and any(0 < x < 1 for x in p) and 0 not in p)
    rec.label("partial" if 0 < len(got) < len(want) else ("all" if got else "nothing"), "copy" if copy else "in-place")


@case(CASES, sampling_case(low=True), quick=90, thorough=700, rule="at least two acceptable subgraphs and probabilities below 1")
def sampling_probabilities(t, rec):
    """Over many seeds each acceptable subgraph is sampled with the product of the probabilities."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    spec, nn, nl, p, seed, copy = t
    want = subgraphs(ref(spec), nn, nl)
    if not want:
        return
    net = build(spec)
    K = 350
    cnt = Counter()
    both = Counter()
    for s in range(K):
        res = []
        esu(net, res, nnodes=nn, nlayers=nl, p=p, seed=s, copy_network=copy)
        cnt.update((frozenset(a), frozenset(b)) for a, b in res)
    q = math.prod(p)
    tol = 6.5 * math.sqrt(K * q * (1 - q)) + (0 if q == 1 else 6)
    for k in want:
        check(abs(cnt[k] - K * q) <= tol, "sampled", tuple(map(sorted_, k)), cnt[k], "times in", K, "runs, expected about", K * q)
    rec.nontrivial(len(want) >= 2 and q < 1)
    rec.label("subgraphs%d" % min(9, len(want)))


@case(CASES, st.tuples(st.sampled_from([6, 5, 7, 4]), st.sampled_from([2, 3, 2]), st.integers(0, 10 ** 6), st.sampled_from([0.3, 0.5, 0.2])), quick=100, thorough=700,
      rule="more than 20 acceptable subgraphs")
def larger_random_networks(t, rec):
    """On larger random networks, enumeration is complete and samples are repeatable subsets of it."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    n, k, seed, dens = t
    rng = random.Random(seed)
    nls = [(i, l) for i in range(n) for l in "xyz"[:k] if rng.random() < 0.8]
    edges = [(u, v, 1) for i, u in enumerate(nls) for v in nls[:i] if rng.random() < dens]
    spec = dict(kind="ml", aspects=1, directed=False, noedge=0, fi=False, nodes=list(range(n)), layers=[list("xyz"[:k])], nls=nls, edges=edges)
    net = build(spec)
    total = 0
    for nn, nl in ((3, 2), (2, 2), (4, 1), (3, k)):
        want = subgraphs(ref(spec), nn, nl)
        total += len(want)
        for copy in (True, False):
            got = collect(esu, net, nnodes=nn, nlayers=nl, copy_network=copy, seed=seed)
            check(set(got) == set(want) and all(x == 1 for x in got.values()), "enumeration of", nn, nl, "found", len(got), "with", sum(got.values()), "entries, expected", len(want))
            part = collect(esu, net, nnodes=nn, nlayers=nl, copy_network=copy, seed=seed, p=[0.6] * (nn + nl - 1))
            check(set(part) <= set(want) and all(x == 1 for x in part.values()), "sample of", nn, nl, "is not a subset without repetitions")
    rec.nontrivial(total > 20)


@case(CASES, st.tuples(random_net(small=True), st.sampled_from(WIDE[:7] + WIDE[8:9]), st.integers(0, 20), st.sampled_from([0.5, 0.8, 0.95, 0.3]), st.sampled_from([1, 1, 0.9, 0.7]), st.booleans()),
      quick=14, thorough=120, rule="at least ten acceptable subgraphs")
def larger_sampling_probabilities(t, rec):
    """On average the sampled part of the acceptable subgraphs is the product of the probabilities, whichever depth they are for."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    spec, (nn, nl), i, x, y, copy = t
    want = set(subgraphs(ref(spec), nn, nl))
    if not want:
        return
    net = build(spec)
    p = [1] * (nn + nl - 1)
    p[(i // len(p)) % len(p)] = y
    p[i % len(p)] = x
    q = math.prod(p)
    K = 220
    shares = []
    cnt = Counter()
    for s in range(K):
        res = []
        esu(net, res, nnodes=nn, nlayers=nl, p=p, seed=s, copy_network=copy)
        got = [(frozenset(a), frozenset(b)) for a, b in res]
        check(len(set(got)) == len(got) and set(got) <= want, "sample is not a subset without repetitions")
        shares.append(len(got) / len(want))
        cnt.update(got)
    mean = sum(shares) / K
    sd = math.sqrt(sum((v - mean) ** 2 for v in shares) / (K - 1))
    check(abs(mean - q) <= 7 * max(sd, 0.02) / math.sqrt(K), "sampled", mean, "of", len(want), "subgraphs on average, expected", q, "with p =", p)
    tol = 7 * math.sqrt(K * q * (1 - q)) + 6
    for k in want:
        check(abs(cnt[k] - K * q) <= tol, "sampled", tuple(map(sorted_, k)), cnt[k], "times in", K, "runs, expected about", K * q)
    rec.nontrivial(len(want) >= 10)
    rec.label("n%d-l%d" % (nn, nl), "depth%d" % (i % len(p)))
