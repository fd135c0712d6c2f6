"""S01: the ESU enumeration and the naive enumeration find exactly the acceptable subgraphs, each once."""
import itertools
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import build, ref
from pbt import gen

CASES = []
ASSUMPTIONS = ["Undirected one-aspect networks with noEdge 0, the domain stated in the functions' documentation."]
KW = dict(aspects=(1,), directed=(False,), weights=gen.weights_any)
NETS = st.one_of(
    gen.connected_spec(), gen.connected_spec(min_layers=2), gen.connected_spec(min_nodes=4), gen.connected_spec(max_layers=2),
    gen.connected_spec(min_nodes=2, max_nodes=3, min_layers=2),
    gen.ml_spec(min_nodes=2, max_nodes=4, min_layers=2, fi=(False,), dense=True, **KW), gen.mx_spec(min_nodes=3, max_nodes=5, min_layers=2, dense=True, **KW),
    gen.ml_spec(**KW))


def adjacency(r):
    adj = {u: set() for u in r.nls}
    for (u, v) in r.E:
        adj[u].add(v)
    return adj


def acceptable(adj, nodes, layers):
    """The induced node-layers form one connected component touching every listed node and layer; None if not."""
    S = [u for u in itertools.product(nodes, layers) if u in adj]
    if not S or {u[0] for u in S} != set(nodes) or {u[1] for u in S} != set(layers):
        return None
    seen, todo, inside = {S[0]}, [S[0]], set(S)
    while todo:
        for v in adj[todo.pop()] & inside:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return S if seen == inside else None


def subgraphs(r, nn, nl):
    """Every connected induced subgraph with nn nodes and nl layers, as {(frozenset, frozenset): node-layers}."""
    adj, out = adjacency(r), {}
    for nodes in itertools.combinations(sorted(r.dims[0], key=repr), nn):
        for layers in itertools.combinations(sorted(r.dims[1], key=repr), nl):
            S = acceptable(adj, nodes, layers)
            if S:
                out[frozenset(nodes), frozenset(layers)] = S
    return out


def role_sets(k):
    return [c for j in range(2, k + 1) for c in itertools.combinations(range(k), j)]


def fits(S, layers, sizes, inter, kind):
    """Some assignment of the layers to the roles gives the requested sizes and intersections."""
    on = {l: {u[0] for u in S if u[1] == l} for l in layers}
    if len(sizes) != len(layers):
        return False
    for perm in itertools.permutations(layers):
        if [len(on[l]) for l in perm] != list(sizes):
            continue
        ok = True
        for c, want in zip(role_sets(len(layers)), inter):
            if want is None:
                continue
            have = len(set.intersection(*[on[perm[i]] for i in c]))
            ok = ok and (have == want if kind == "strict" else have <= want)
        if ok:
            return True
    return False


def collect(f, net, how="list", **kw):
    res = []
    f(net, res if how == "list" else res.append, **kw)
    for item in res:
        check(isinstance(item, tuple) and len(item) == 2 and all(isinstance(x, list) for x in item), "result is not a pair of lists:", item)
        check(all(len(x) == len(set(x)) for x in item), "repeated name in", item)
    return Counter((frozenset(a), frozenset(b)) for a, b in res)


def same(got, want, what):
    for k, n in got.items():
        check(k in want, what, "found", tuple(map(sorted_, k)), "which is not acceptable")
        check(n == 1, what, "found", tuple(map(sorted_, k)), n, "times")
    for k in want:
        check(k in got, what, "missed", tuple(map(sorted_, k)))


def sorted_(s):
    return sorted(s, key=repr)


@st.composite
def by_size(draw):
    spec = draw(NETS)
    return spec, draw(st.sampled_from([3, 2, 4, 1])), draw(st.sampled_from([2, 2, 3, 1])), draw(st.booleans()), draw(st.integers(0, 99))


@case(CASES, by_size(), quick=2500, rule="at least two acceptable subgraphs of the size and one that is not")
def all_connected_subgraphs(t, rec):
    """nnodes and nlayers given: every connected induced subgraph of that size, exactly once."""
    from pymnet import sampling
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    from pymnet.sampling.dumb import dumb_enumeration as dumb
    spec, nn, nl, copy, seed = t
    r = ref(spec)
    want = subgraphs(r, nn, nl)
    net = build(spec)
    kw = dict(nnodes=nn, nlayers=nl)
    same(collect(esu, net, seed=seed, copy_network=copy, **kw), want, "ESU")
    same(collect(esu, net, how="call", copy_network=not copy, p=[1.0] * (nn + nl - 1), **kw), want, "ESU with a callable")
    same(collect(dumb, net, how="call" if seed % 2 else "list", **kw), want, "naive enumeration")
    check(net == build(spec), "the network was modified")
    import math
    total = math.comb(len(r.dims[0]), nn) * math.comb(len(r.dims[1]), nl)
    rec.nontrivial(2 <= len(want) < total)
    rec.label("n%d-l%d" % (nn, nl), "found" if want else "none")


@st.composite
def by_requirements(draw):
    """Requirements taken from an actual subgraph of the network, some of them changed."""
    spec = draw(NETS)
    r = ref(spec)
    nodes, layers = sorted(r.dims[0], key=repr), sorted(r.dims[1], key=repr)
    nn = min(draw(st.sampled_from([3, 2, 4, 1])), max(1, len(nodes)))
    nl = min(draw(st.sampled_from([2, 3, 2, 1])), max(1, len(layers)))
    found = sorted(subgraphs(r, nn, nl).items(), key=lambda kv: repr((sorted_(kv[0][0]), sorted_(kv[0][1]))))
    if found and draw(st.integers(0, 9)):
        (ns, ls), S = found[draw(st.integers(0, 999)) % len(found)]
        order = draw(st.permutations(sorted_(ls)))
        on = [{u[0] for u in S if u[1] == l} for l in order]
        sizes = [len(x) for x in on]
        inter = [len(set.intersection(*[on[i] for i in c])) for c in role_sets(nl)]
    else:
        sizes = [draw(st.integers(1, 3)) for _ in range(nl)]
        inter = [draw(st.integers(0, min(sizes[i] for i in c))) for c in role_sets(nl)]
    form = draw(st.sampled_from(["strict", "none", "less", "none-less", "common"]))
    if nl == 1 and form == "common":
        form = "strict"
    if "less" in form:
        inter = [x + draw(st.integers(0, 1)) for x in inter]
    elif draw(st.integers(0, 3)) == 0 and inter:
        i = draw(st.integers(0, len(inter) - 1))
        inter[i] = max(0, inter[i] + draw(st.sampled_from([-1, 1])))
    if "none" in form:
        mask = draw(st.lists(st.booleans(), min_size=len(inter), max_size=len(inter)))
        inter = [None if m else x for x, m in zip(inter, mask)]
    return spec, nn, sizes, inter, form, draw(st.booleans()), draw(st.integers(0, 99))


def arguments(nn, sizes, inter, form):
    """(keyword arguments, meaning (sizes, list of intersections, kind, nnodes))."""
    kind = "less_or_equal" if "less" in form else "strict"
    if form == "common" and inter:
        return dict(sizes=sizes, intersections=inter[-1], nnodes=nn), (sizes, [None] * (len(inter) - 1) + inter[-1:], "strict", nn)
    kw = dict(sizes=sizes, intersections=inter)
    if kind != "strict":
        kw["intersection_type"] = kind
    if kind != "strict" or None in inter:
        kw["nnodes"] = nn
        return kw, (sizes, inter, kind, nn)
    n = sum(sizes)
    for c, x in zip(role_sets(len(sizes)), inter):
        n += x if len(c) % 2 else -x
    return kw, (sizes, inter, kind, n)


@case(CASES, by_requirements(), quick=2500, rule="some but not all connected subgraphs of the size meet the requirements, or at least two do")
def required_sizes_and_intersections(t, rec):
    """sizes and intersections in every documented form: exactly the connected subgraphs with some fitting role assignment."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    from pymnet.sampling.dumb import dumb_enumeration as dumb
    spec, nn, sizes, inter, form, copy, seed = t
    kw, (sz, it, kind, n) = arguments(nn, list(sizes), list(inter), form)
    if n < 1:
        rec.label("contradictory")
        return
    r = ref(spec)
    pool = subgraphs(r, n, len(sz))
    want = {k: S for k, S in pool.items() if fits(S, sorted_(k[1]), sz, it, kind)}
    net = build(spec)
    same(collect(esu, net, seed=seed, copy_network=copy, **kw), want, "ESU")
    same(collect(dumb, net, **kw), want, "naive enumeration")
    check(net == build(spec), "the network was modified")
    check(kw.get("sizes") == list(sizes), "sizes was modified")
    rec.nontrivial(len(want) >= 2 or 0 < len(want) < len(pool))
    rec.label(form, "layers%d" % len(sz), "found" if want else "none")


@case(CASES, by_size(), quick=1000, rule="at least two acceptable subgraphs")
def own_check_function(t, rec):
    """A custom check function sees each candidate with its own links intact and decides; the candidates include every connected subgraph."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    from pymnet.sampling.dumb import dumb_enumeration as dumb
    spec, nn, nl, copy, seed = t
    r = ref(spec)
    adj = adjacency(r)
    net = build(spec)
    seen = []

    def chk(network, nodelist, layerlist, keep=lambda a, b: True):
        check(len(nodelist) == nn and len(layerlist) == nl, "candidate of the wrong size", nodelist, layerlist)
        inside = [u for u in itertools.product(nodelist, layerlist) if u in adj]
        have = set(u for u in network.iter_node_layers()) & set(itertools.product(nodelist, layerlist))
        check(have == set(inside), "the candidate's node-layers are not those of the network", have, inside)
        for u in inside:
            for v in inside:
                check(network[u][v] == r.w(u, v), "a link inside a candidate was changed", u, v)
        check({u[0] for u in inside} == set(nodelist) and {u[1] for u in inside} == set(layerlist), "candidate with an empty node or layer")
        seen.append((frozenset(nodelist), frozenset(layerlist)))
        return keep(nodelist, layerlist)

    got = collect(esu, net, nnodes=nn, nlayers=nl, custom_check_function=chk, copy_network=copy, seed=seed)
    want = subgraphs(r, nn, nl)
    check(got == Counter(seen), "accepted candidates are not the results")
    check(all(n == 1 for n in got.values()), "candidate examined twice")
    for k in want:
        check(k in got, "connected subgraph", tuple(map(sorted_, k)), "was not a candidate")
    odd = lambda a, b: sum(map(ord, repr(sorted_(a)) + repr(sorted_(b)))) % 2 == 0 and acceptable(adj, a, b) is not None
    some = {k for k in want if odd(k[0], k[1])}
    for f in (esu, dumb):
        same(collect(f, net, nnodes=nn, nlayers=nl, custom_check_function=lambda n_, a, b: odd(a, b)), some, f.__name__)
    rec.nontrivial(len(want) >= 2)


@case(CASES, by_size(), quick=120, rule="network with node-layers")
def combinations_refused(t, rec):
    """Arguments that do not say which subgraphs are acceptable are refused."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    from pymnet.sampling.dumb import dumb_enumeration as dumb
    spec, nn, nl, copy, seed = t
    net = build(spec)
    bad = [dict(), dict(sizes=[1, 1]), dict(nnodes=nn), dict(nlayers=nl), dict(sizes=[nn, nl], intersections=[None]), dict(sizes=[1, 1], intersections=[0], nnodes=2, nlayers=2),
           dict(sizes=[1, 1], intersections=1), dict(sizes=[1, 1], intersections=-1, nnodes=2), dict(nnodes=0, nlayers=nl), dict(nnodes=nn, nlayers=0),
           dict(nnodes=nn + 0.5, nlayers=nl), dict(sizes=[1, 1], intersections=[0], intersection_type="less_or_equal"), dict(sizes=[1, 2], intersections=[]),
           dict(nnodes=nn, custom_check_function=lambda *a: True), dict(sizes=[0, 1], intersections=[0]), dict(sizes=[1, 1], intersections=[-1])]
    for kw in bad:
        for f in (esu, dumb):
            check(raises(AssertionError, f, net, [], **kw), f.__name__, "accepted", kw)
    if net.get_layers(aspect=0) and list(net.iter_node_layers()):
        for f in (esu, dumb):
            check(raises(TypeError, f, net, 5, nnodes=1, nlayers=1), f.__name__, "accepted a number as the results container")
    rec.nontrivial(bool(ref(spec).nls))


gen.again(CASES, "larger_networks", all_connected_subgraphs,
          st.tuples(gen.big_spec(aspects=(1,), directed=(False,), noedge=(0,), nodes=(6, 8), layers=(3, 5), limit=30, degree=(1, 2), kinds=("categorical", "none")), st.sampled_from([3, 2, 4]),
                    st.sampled_from([2, 3]), st.booleans(), st.integers(0, 99)), quick=30, rule="at least two acceptable subgraphs of the size and one that is not")


@st.composite
def random_net(draw, small=False):
    """A denser or longer network than connected_spec's: up to eight nodes, up to seven layers, some fully interconnected."""
    import random
    n, k = draw(st.sampled_from([(6, 3), (7, 3), (4, 5), (3, 7), (5, 4), (7, 2), (8, 1), (4, 6)]))
    if small:
        n, k = min(n, 6), min(k, 4)
    fi, names, dens = draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([0.08, 0.15, 0.3, 0.5]))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    nodes, layers = [("n%d" % i if names else i) for i in range(n)], [("l%d" % i if names else i) for i in range(k)]
    rng.shuffle(nodes), rng.shuffle(layers)
    nls = [u for u in itertools.product(nodes, layers) if fi or rng.random() < 0.8]
    edges = [(u, v, rng.choice([1, 1, 2, -1, 0.5])) for i, u in enumerate(nls) for v in nls[:i] if rng.random() < dens * (3 if u[0] == v[0] or u[1] == v[1] else 0.4)]
    return {"kind": "ml", "aspects": 1, "directed": False, "noedge": 0, "fi": fi, "nodes": nodes, "layers": [layers], "nls": [] if fi else nls, "edges": edges}


WIDE = [(2, 2), (3, 2), (2, 3), (4, 2), (5, 1), (5, 2), (6, 1), (2, 4), (3, 3), (2, 5), (3, 4)]


@case(CASES, st.tuples(random_net(), st.permutations(WIDE).map(lambda x: x[:3]), st.booleans(), st.integers(0, 99)), quick=100, rule="more than ten acceptable subgraphs")
def many_nodes_or_layers(t, rec):
    """As all_connected_subgraphs, for subgraphs of up to six nodes and five layers in networks of up to eight nodes and seven layers."""
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    from pymnet.sampling.dumb import dumb_enumeration as dumb
    spec, sizes, copy, seed = t
    r = ref(spec)
    net = build(spec)
    total = 0
    for i, (nn, nl) in enumerate(sizes):
        want = subgraphs(r, nn, nl)
        total += len(want)
        same(collect(esu, net, seed=seed, copy_network=copy, nnodes=nn, nlayers=nl), want, "ESU")
        if i == 0:
            same(collect(dumb, net, nnodes=nn, nlayers=nl), want, "naive enumeration")
    check(net == build(spec), "the network was modified")
    rec.nontrivial(total > 10)
    rec.label("fi" if spec["fi"] else "nonfi", "nls%d+" % (len(r.nls) // 8 * 8))
