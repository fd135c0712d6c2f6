"""S03: the subgraph requirement checks mean what they say; creators of sampling test networks."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check, fail, raises
from pbt.model import build, ref
from pbt import gen
from pbt.props.s01 import NETS, KW, adjacency, acceptable, fits, role_sets, sorted_

CASES = []
ASSUMPTIONS = ["Undirected one-aspect networks, the domain stated in the functions' documentation."]


@st.composite
def requirement(draw):
    spec = draw(NETS)
    r = ref(spec)
    nodes, layers = sorted_(r.dims[0]), sorted_(r.dims[1])
    ns = draw(st.permutations(nodes))[:draw(st.sampled_from([2, 3, 1, 4]))]
    ls = draw(st.permutations(layers))[:draw(st.sampled_from([2, 3, 1]))]
    k = len(ls)
    on = [{u[0] for u in r.nls if u[1] == l and u[0] in ns} for l in draw(st.permutations(ls))]
    sizes = [max(1, len(x)) for x in on]
    inter = [len(set.intersection(*[on[i] for i in c])) for c in role_sets(k)]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        if draw(st.booleans()) or not inter:
            i = draw(st.integers(0, max(0, k - 1)))
            if sizes:
                sizes[i] = max(1, sizes[i] + draw(st.sampled_from([-1, 1])))
        else:
            i = draw(st.integers(0, len(inter) - 1))
            inter[i] = max(0, inter[i] + draw(st.sampled_from([1, -1])))
    none = draw(st.lists(st.integers(0, 3), min_size=len(inter), max_size=len(inter)))
    inter = [None if m == 3 else x for m, x in zip(none, inter)]
    return spec, ns, ls, sizes, inter, draw(st.sampled_from(["strict", "less_or_equal"]))


@case(CASES, requirement(), quick=3000, rule="the subgraph is connected with at least two node-layers")
def requirement_checks(t, rec):
    """relaxed_check_reqs and default_check_reqs hold exactly for connected subgraphs without empty nodes or layers that fit some role assignment."""
    from pymnet.sampling.reqs import default_check_reqs, relaxed_check_reqs
    spec, ns, ls, sizes, inter, kind = t
    if not ns or not ls:
        return
    r = ref(spec)
    S = acceptable(adjacency(r), ns, ls)
    net = build(spec)
    nodes, layers = list(ns), list(ls)
    got = relaxed_check_reqs(net, nodes, layers)
    check(got is (S is not None), "relaxed_check_reqs is", got, "for a subgraph that is", "" if S else "not", "acceptable")
    want = S is not None and fits(S, ls, sizes, inter, kind)
    args = (list(sizes), list(inter))
    got = default_check_reqs(net, nodes, layers, *args, nnodes=len(ns), nlayers=len(ls), intersection_type=kind)
    check(got is want, "default_check_reqs is", got, "expected", want)
    check(default_check_reqs(net, nodes[::-1], layers[::-1], *args, nnodes=len(ns), nlayers=len(ls), intersection_type=kind) is want, "order of the names matters")
    n = sum(sizes)
    if None not in inter:
        for c, x in zip(role_sets(len(sizes)), inter):
            n += x if len(c) % 2 else -x
        if kind == "strict":
            if n == len(ns):
                check(default_check_reqs(net, nodes, layers, *args) is want, "differs without nnodes and nlayers")
            else:
                check(raises(AssertionError, default_check_reqs, net, nodes, layers, *args), "wrong number of nodes was accepted")
        else:
            check(default_check_reqs(net, nodes, layers, *args, nnodes=len(ns), intersection_type=kind) is want, "differs without nlayers")
    else:
        check(raises(TypeError, default_check_reqs, net, nodes, layers, *args), "Nones without nnodes and nlayers were accepted")
    check(raises(AssertionError, default_check_reqs, net, nodes, layers, *args, nnodes=len(ns) + 1, nlayers=len(ls), intersection_type=kind), "wrong nnodes accepted")
    check(raises(AssertionError, default_check_reqs, net, nodes, layers, *args, nnodes=len(ns), nlayers=len(ls) + 1, intersection_type=kind), "wrong nlayers accepted")
    check(raises(TypeError, default_check_reqs, net, nodes, layers, *args, nnodes=len(ns), nlayers=len(ls), intersection_type="exact"), "unknown type accepted")
    check(args == (list(sizes), list(inter)) and nodes == list(ns) and layers == list(ls), "arguments were modified")
    check(net == build(spec), "the network was modified")
    rec.nontrivial(S is not None and len(S) >= 2)
    rec.label("fits" if want else ("connected" if S else "not-connected"), kind, "layers%d" % len(ls))


@st.composite
def wide_requirement(draw):
    """Three to five layers and up to seven nodes: a connected subgraph's own numbers with a few of them changed."""
    import random
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    k, n = draw(st.sampled_from([4, 3, 4, 5])), draw(st.sampled_from([4, 5, 3, 6, 7]))
    change, nones = draw(st.sampled_from([0, 1, 1, 2])), draw(st.sampled_from([0, 0, 3]))
    kind, conn = draw(st.sampled_from(["strict", "strict", "less_or_equal"])), draw(st.sampled_from([True, True, True, False]))
    nodes, layers = ["n%d" % i for i in range(n + 1)], ["l%d" % i for i in range(k + 1)]
    member = draw(st.sampled_from([0.5, 0.75]))
    nls = [(a, b) for a in nodes for b in layers if rng.random() < member] + [(nodes[i % n], layers[i % k]) for i in range(max(n, k))]
    nls = sorted(set(nls))
    ns, ls = nodes[:n], layers[:k]
    rng.shuffle(ns), rng.shuffle(ls)
    inside = [u for u in nls if u[0] in ns and u[1] in ls]
    rng.shuffle(inside)
    edges = [(u, inside[rng.randrange(i)], 1) for i, u in enumerate(inside) if i and (conn or rng.random() < 0.93)]
    edges += [(u, v, 1) for u in nls if u not in inside for v in rng.sample(nls, min(2, len(nls))) if v != u and v in inside]
    spec = {"kind": "ml", "aspects": 1, "directed": False, "noedge": 0, "fi": False, "nodes": nodes, "layers": [layers], "nls": nls, "edges": edges}
    order = rng.sample(ls, k)
    on = [{u[0] for u in inside if u[1] == l} for l in order]
    sizes, inter = [len(x) for x in on], [len(set.intersection(*[on[i] for i in c])) for c in role_sets(k)]
    for _ in range(change):
        if rng.randrange(6) == 0:
            i = rng.randrange(k)
            sizes[i] = max(1, sizes[i] + rng.choice([-1, 1]))
        else:
            i = rng.randrange(len(inter)) if rng.randrange(3) else -1 - rng.randrange(k + 1)
            inter[i] = max(0, inter[i] + rng.choice([-1, 1]))
    if nones:
        inter = [None if rng.randrange(nones) == 0 else x for x in inter]
    return spec, ns, ls, sizes, inter, kind


gen.again(CASES, "wide_requirement_checks", requirement_checks, wide_requirement(), quick=600, rule="the subgraph is connected with at least two node-layers")


@case(CASES, st.lists(st.lists(st.integers(0, 9), min_size=1, max_size=6, unique=True), min_size=1, max_size=4), quick=400, rule="at least two layers with a shared node")
def required_lengths(sets, rec):
    """Sizes and intersections of node sets give the size of their union and the number of sets."""
    from pymnet.sampling.reqs import default_calculate_required_lengths as f
    sets = [set(x) for x in sets]
    sizes = [len(x) for x in sets]
    inter = [len(set.intersection(*[sets[i] for i in c])) for c in role_sets(len(sets))]
    check(f(list(sizes), list(inter)) == (len(set().union(*sets)), len(sets)), "union of", sets, "is said to be", f(list(sizes), list(inter)))
    bad = [([], []), (sizes, inter + [0]), (sizes + [1], inter), ([0] + sizes[1:], inter), ([1.0] + sizes[1:], inter)]
    if inter:
        bad += [(sizes, inter[:-1]), (sizes, inter[:-1] + [-1]), (sizes, [None] + inter[1:]), (sizes, inter[:-1] + [0.5])]
    for a, b in bad:
        try:
            out = f(list(a), list(b))
        except (AssertionError, TypeError):
            continue
        fail("accepted", a, b, "giving", out)
    rec.nontrivial(any(inter))
    rec.label("layers%d" % len(sets))


@case(CASES, st.tuples(st.lists(st.lists(st.integers(0, 9), max_size=5, unique=True), min_size=1, max_size=4), st.sampled_from([0.5, 0, 1, 0.2]), st.integers(0, 10 ** 6)),
      quick=500, rule="at least three node-layers and an edge probability between 0 and 1")
def random_networks_for_sampling(t, rec):
    """er_multilayer_partially_interconnected has exactly the given node-layers and only unit links between different ones."""
    from pymnet.sampling.creators import er_multilayer_partially_interconnected as f
    sets, p, seed = t
    net = f([list(x) for x in sets], p, seed=seed)
    want = {(n, l) for l, x in enumerate(sets) for n in x}
    nls = list(net.iter_node_layers())
    check(set(nls) == want and len(nls) == len(want), "node-layers", nls, "expected", want)
    check(set(net.slices[1]) == set(range(len(sets))) and set(net.slices[0]) == {n for n, l in want}, "nodes or layers", net.slices)
    check(not net.directed and net.aspects == 1 and not net.fullyInterconnected, "network of the wrong kind")
    es = list(net.edges)
    check(all(e[-1] == 1 for e in es), "weights other than 1")
    check(all((e[0], e[2]) != (e[1], e[3]) for e in es), "self-link")
    m = len(want) * (len(want) - 1) // 2
    check(len(es) == (m if p == 1 else 0 if p == 0 else len(es)), "number of links", len(es), "for p", p)
    check(net == f(iter([tuple(x) for x in sets]), p, seed=seed), "the same seed gave another network")
    rec.nontrivial(len(want) >= 3 and 0 < p < 1)


def nodelists(t, rec):
    """Probe of the known finding S03-random-nodelists: the function as it is."""
    from pymnet.sampling.creators import random_nodelists as f
    out = [list(x) for x in f(*t)]
    check(len(out) == t[2] and all(len(set(x)) == t[1] for x in out), "lists", out)


PROBES = {"nodelists": nodelists}


def pools():
    """random_nodelists, with the missing Python 2 name xrange (known finding) supplied so that the rest of it is still checked."""
    from pymnet.sampling import creators
    creators.xrange = range
    return creators.random_nodelists


@case(CASES, st.tuples(st.integers(1, 12), st.integers(0, 12), st.integers(0, 5), st.one_of(st.integers(0, 99), st.just("s"))), quick=300, rule="some nodes left out")
def node_pools(t, rec):
    """random_nodelists yields the requested number of distinct nodes of the pool per layer."""
    f = pools()
    pool, per, layers, seed = t
    if per > pool:
        check(raises(ValueError, list, f(pool, per, max(1, layers), seed)), "more nodes than the pool has were promised")
        return
    a = [list(x) for x in f(pool, per, layers, seed)]
    check(len(a) == layers, "number of lists", len(a))
    for x in a:
        check(len(x) == per == len(set(x)) and all(isinstance(n, int) and 0 <= n < pool for n in x), "list", x, "is not a sample of", per, "of", pool)
    check(a == [list(x) for x in f(pool, per, layers, seed)], "the same seed gave other lists")
    rec.nontrivial(0 < per < pool and layers)


@case(CASES, st.just(0), quick=1, thorough=1, rule="always")
def uniform_samples(t, rec):
    """Every node of the pool and every possible link is equally likely."""
    from pymnet.sampling.creators import er_multilayer_partially_interconnected as er
    random_nodelists = pools()
    import math
    K = 3000
    for i in range(7):
        c = sum(i in x for x in random_nodelists(7, 3, K, seed=5))
        check(abs(c - K * 3 / 7) < 6.5 * math.sqrt(K * 3 / 7 * 4 / 7), "node", i, "is in", c, "of", K, "samples of 3 of 7")
    cnt = {}
    for s in range(900):
        for e in er([[0, 1], [1, 2], [0]], 0.3, seed=s).edges:
            k = frozenset([(e[0], e[2]), (e[1], e[3])])
            cnt[k] = cnt.get(k, 0) + 1
    check(len(cnt) == 10, "only", len(cnt), "of 10 links ever appear")
    for k, c in cnt.items():
        check(abs(c - 270) < 6.5 * math.sqrt(900 * .3 * .7), "link", k, "appears in", c, "of 900 networks, expected 270")
    rec.nontrivial()
