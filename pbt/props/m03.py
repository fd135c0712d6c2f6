"""M03: overlap, preferential attachment, small-world and geometric models keep their stated counts."""
import itertools, math, random
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import links_of

CASES = []
SEED = st.integers(0, 10 ** 6)


def layer_links(net, l, n, what=""):
    A = net.A[l]
    check(set(A) == set(range(n)), what, "nodes of layer %r: %r" % (l, sorted(A)))
    out = set()
    for e in A.edges:
        check(e[0] != e[1] and e[2] == 1, what, "edge", e)
        check(frozenset(e[:2]) not in out, what, "repeated edge", e)
        out.add(frozenset(e[:2]))
    return out


def couplings_ok(net, layers, coup):
    ls = sorted(layers)
    if len(ls) > 1:
        w = 0 if coup is None else coup[1]
        check(net[0, 0, ls[0], ls[1]] == w, "coupling is %r, requested %r" % (net[0, 0, ls[0], ls[1]], coup))


@st.composite
def ov_input(draw):
    layers = draw(st.sampled_from([[0, 1], ["a", "b"], [0, 1, 2], ["a", "b", "c"]]))
    combos = [c for k in range(2, len(layers) + 1) for c in itertools.combinations(layers, k)]
    edges = draw(st.sampled_from([4, 5, 8, 10]))
    left = {l: 10 for l in layers}
    ps = {}
    for c in draw(st.permutations(combos)):
        top = min(left[l] for l in c)
        t = draw(st.integers(0, top))
        if draw(st.integers(0, 3)):
            ps[c] = t / 10.0
            for l in c:
                left[l] -= t
    for l in layers:
        if draw(st.integers(0, 2)) == 0 or not any(l in c for c in ps):
            ps[(l,)] = draw(st.sampled_from([0, 0.5, 1.0]))
    n = draw(st.integers(16, 20))
    keys = draw(st.permutations(sorted(ps, key=repr)))
    return n, edges, [(k, ps[k]) for k in keys], draw(SEED), draw(st.sampled_from([None, ("categorical", 2.0)]))


@case(CASES, ov_input, quick=600, rule="some layers share links and some layer has links of its own")
def overlaps_match_aggregated(x, rec):
    """The aggregated network has (links per layer) x (layers) links; overlaps and exclusive links as requested."""
    from pymnet import models
    n, edges, ps, seed, coup = x
    ps = dict(ps)
    random.seed(seed)
    net = models.er_overlaps_match_aggregated(n, edges, ps) if coup is None else models.er_overlaps_match_aggregated(n, edges, ps, couplings=coup)
    layers = {l for c in ps for l in c}
    check(set(net.slices[1]) == layers, "layers", net.slices[1])
    where = {}
    for l in layers:
        for e in layer_links(net, l, n):
            where.setdefault(e, set()).add(l)
    got = Counter(frozenset(s) for s in where.values())
    exp, excl = Counter(), {l: edges for l in layers}
    for c, p in ps.items():
        if len(c) > 1:
            m = int(round(p * edges))
            if m:
                exp[frozenset(c)] += m * len(c)
            for l in c:
                excl[l] -= m
    for l, m in excl.items():
        if m > 0:
            exp[frozenset([l])] += m
    check(got == exp, "links per set of layers %r, expected %r" % (dict(got), dict(exp)))
    if all(m >= 0 for m in excl.values()):
        check(len(where) == edges * len(layers), "%d links in the aggregated network, expected %d" % (len(where), edges * len(layers)))
    couplings_ok(net, layers, coup)
    rec.nontrivial(any(len(k) > 1 for k in exp) and any(len(k) == 1 for k in exp))
    rec.label("layers%d" % len(layers))


@case(CASES, lambda: st.tuples(st.integers(1, 14), st.lists(st.integers(0, 4), min_size=1, max_size=3), SEED, st.sampled_from([None, ("categorical", 2.0)])),
      quick=700, rule="some layer has more nodes than twice its attachment number, which is positive")
def attachment_counts(x, rec):
    """ba_total_degree: from the m-th node on, every new node brings exactly m links to older nodes, in every layer."""
    from pymnet import models
    n, ms, seed, coup = x
    random.seed(seed)
    net = models.ba_total_degree(n, ms) if coup is None else models.ba_total_degree(n, ms, couplings=coup)
    check(set(net.slices[1]) == set(range(len(ms))), "layers", net.slices[1])
    for l, m in enumerate(ms):
        links = layer_links(net, l, n)
        back = Counter(max(e) for e in links)
        for i in range(n):
            check(back[i] == (m if i >= m else 0), "node %d has %d links to older nodes in a layer with %d" % (i, back[i], m))
    couplings_ok(net, range(len(ms)), coup)
    rec.nontrivial(any(m > 0 and n > 2 * m for m in ms))


@case(CASES, lambda: SEED, quick=8, rule="always")
def attachment_is_preferential(seed, rec):
    """Hubs appear in the layer with one link per node where the other layer has its hubs; attachment by total degree."""
    from pymnet import models
    random.seed(seed)
    n = 900
    net = models.ba_total_degree(n, [1, 3])
    deg = [[net.A[l][i].deg() for i in range(n)] for l in range(2)]
    top = max(deg[1])
    check(top > 38, "largest degree is %d: uniform attachment would give about 22" % top)
    tot = [a + b for a, b in zip(*deg)]
    # attachment proportional to total degree: the ten largest nodes of the dense layer get a large share of the sparse layer
    big = sorted(range(n), key=lambda i: -deg[1][i])[:10]
    share = sum(deg[0][i] for i in big) / float(sum(deg[0]))
    check(share > 0.045, "hubs of the dense layer get only %.3f of the sparse layer's links" % share)
    rec.nontrivial()


@case(CASES, lambda: st.tuples(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=1, max_size=3).filter(lambda ms: 1 in ms), SEED), quick=30, thorough=200,
      rule="there are several layers")
def attachment_counts_every_layer(x, rec):
    """Where a new node brings one link, its end has each older node with the share of the total degree: the degrees in every layer
    (and the links made and received there) of the ends do not deviate from their expectations given the network so far."""
    from pymnet import models
    ms, seed = x
    random.seed(seed)
    n, reps = 160, 12
    score, var = Counter(), Counter()
    for _ in range(reps):
        net = models.ba_total_degree(n, ms)
        made = [[[j for j in net.A[l][i] if j < i] for i in range(n)] for l in range(len(ms))]
        rec_ = [[0] * n for _ in ms]
        own = [[0] * n for _ in ms]
        for i in range(n):
            w = [sum(rec_[l][j] + own[l][j] for l in range(len(ms))) for j in range(i)]
            tot = float(sum(w))
            for t, m in enumerate(ms):
                if m != 1 or i < 2:
                    continue
                check(len(made[t][i]) == 1, "links made", made[t][i])
                end = made[t][i][0]
                check(w[end] > 0, "a node without links was preferred")
                for k in range(len(ms)):
                    for what, d in (("received", rec_[k]), ("made", own[k])):
                        mean = sum(w[j] * d[j] for j in range(i)) / tot
                        score[t, k, what] += d[end] - mean
                        var[t, k, what] += sum(w[j] * d[j] * d[j] for j in range(i)) / tot - mean * mean
            for l in range(len(ms)):
                own[l][i] = len(made[l][i])
                for j in made[l][i]:
                    rec_[l][j] += 1
    for key, v in sorted(var.items()):
        if v > 30:
            z = score[key] / math.sqrt(v)
            check(abs(z) < 6.5, "links on layer %d: links %s on layer %d by their ends deviate %.1f standard deviations from attachment by total degree" % (key[0], key[2], key[1], z))
    rec.nontrivial(len(ms) > 1)
    rec.label("layers%d" % len(ms))


@case(CASES, lambda: st.tuples(st.integers(5, 14), st.lists(st.integers(0, 2), min_size=1, max_size=3), st.sampled_from([0, 0.0, 0.3, 1.0, None]), SEED,
                               st.sampled_from([None, ("categorical", 2.0)])), quick=500, rule="some layer has links")
def small_world(x, rec):
    """ws: every layer has the requested number of links (multiples of the node count); without rewiring, a ring lattice."""
    from pymnet import models
    n, ks, p, seed, coup = x
    random.seed(seed)
    kw = {} if p is None else {"p": p}
    if coup:
        kw["couplings"] = coup
    net = models.ws(n, [k * n for k in ks], **kw)
    check(set(net.slices[1]) == set(range(len(ks))), "layers", net.slices[1])
    for l, k in enumerate(ks):
        links = layer_links(net, l, n)
        check(len(links) == k * n, "%d links in a layer, requested %d" % (len(links), k * n))
        if p in (0, 0.0) and p is not None:
            check(links == {frozenset((i, (i + d) % n)) for i in range(n) for d in range(1, k + 1)}, "not a ring lattice: %r" % links)
    couplings_ok(net, range(len(ks)), coup)
    rec.nontrivial(any(ks))
    rec.label("p%s" % p)


@case(CASES, lambda: SEED, quick=6, rule="always")
def rewiring_happens(seed, rec):
    from pymnet import models
    random.seed(seed)
    n = 60
    ring = {frozenset((i, (i + d) % n)) for i in range(n) for d in (1, 2)}
    net = models.ws(n, [2 * n, 2 * n], p=0.5)
    a, b = layer_links(net, 0, n), layer_links(net, 1, n)
    check(25 < len(a - ring) < 90 and 25 < len(b - ring) < 90, "rewired %d and %d of 120 links with p=0.5" % (len(a - ring), len(b - ring)))
    check(a != b, "layers are identical")
    net = models.ws(n, [2 * n])
    check(12 < len(layer_links(net, 0, n) - ring) < 65, "default rewiring")
    rec.nontrivial()


@case(CASES, lambda: st.tuples(st.integers(2, 20), st.lists(st.integers(0, 30), min_size=1, max_size=3), SEED, st.sampled_from([None, ("categorical", 2.0)])),
      quick=400, rule="some layer has links")
def geometric(x, rec):
    from pymnet import models
    n, ms, seed, coup = x
    random.seed(seed)
    net = models.geo(n, ms) if coup is None else models.geo(n, ms, couplings=coup)
    check(set(net.slices[1]) == set(range(len(ms))), "layers", net.slices[1])
    tot = 0
    for l, m in enumerate(ms):
        links = layer_links(net, l, n)
        tot += len(links)
        if m == 0:
            check(not links, "links in a layer without any requested")
    couplings_ok(net, range(len(ms)), coup)
    rec.nontrivial(tot > 0)


@case(CASES, lambda: SEED, quick=6, rule="always")
def geometric_counts(seed, rec):
    """About the requested number of links, and layers share the node positions (so their links coincide far above chance)."""
    from pymnet import models
    random.seed(seed)
    n, m, tot, common = 100, 100, 0, [0, 0, 0]
    for _ in range(8):
        net = models.geo(n, [m, m, 0, m])
        a, b, c = [layer_links(net, l, n) for l in (0, 1, 3)]
        tot += len(a) + len(b) + len(c)
        for k, (d, e) in enumerate([(a, b), (a, c), (b, c)]):
            common[k] += len(d & e)
    check(60 < tot / 24.0 < 140, "on average %.1f links, requested %d" % (tot / 24.0, m))
    check(min(common) / 8.0 > 25, "pairs of layers share %s links on average: not the same positions" % [k / 8.0 for k in common])
    rec.nontrivial()


@st.composite
def long_overlaps(draw):
    """More links, in up to four layers."""
    layers = draw(st.sampled_from([[0, 1, 2], ["a", "b", "c", "d"], [4, 3]]))
    edges = draw(st.sampled_from([20, 50, 80]))
    combos = [c for k in range(2, len(layers) + 1) for c in itertools.combinations(layers, k)]
    left, ps = {l: 10 for l in layers}, {}
    for c in draw(st.permutations(combos)):
        t = draw(st.integers(0, min(min(left[l] for l in c), 5)))
        if draw(st.booleans()):
            ps[c] = t / 10.0
            for l in c:
                left[l] -= t
    for l in layers:
        if not any(l in c for c in ps):
            ps[(l,)] = 0.5
    return draw(st.integers(40, 70)), edges, sorted(ps.items(), key=repr), draw(SEED), draw(st.sampled_from([None, ("categorical", 2.0)]))


from pbt.gen import again
again(CASES, "larger_overlaps", overlaps_match_aggregated, long_overlaps, quick=160, rule="some layers share links and some layer has links of its own")
again(CASES, "larger_attachment", attachment_counts, lambda: st.tuples(st.integers(30, 200), st.lists(st.integers(0, 8), min_size=1, max_size=5), SEED, st.sampled_from([None, ("categorical", 2.0)])),
      quick=160, rule="some layer has more nodes than twice its attachment number, which is positive")
again(CASES, "larger_small_world", small_world, lambda: st.tuples(st.integers(20, 100), st.lists(st.integers(0, 5), min_size=1, max_size=4), st.sampled_from([0, 0.0, 0.3, 1.0, None]), SEED,
      st.sampled_from([None, ("categorical", 2.0)])), quick=160, rule="some layer has links")
again(CASES, "larger_geometric", geometric, lambda: st.tuples(st.integers(30, 100), st.lists(st.integers(0, 200), min_size=1, max_size=4), SEED, st.sampled_from([None, ("categorical", 2.0)])),
      quick=120, rule="some layer has links")


@case(CASES, lambda: st.tuples(st.integers(1, 3), SEED), quick=9, rule="several layers")
def attachment_exact(x, rec):
    """With one link per node and layer and four nodes, the frequencies of all outcomes match the probabilities computed from the definition."""
    import itertools
    from pymnet import models
    k, seed = x
    runs = 3000
    random.seed(seed)
    seen = Counter()
    for _ in range(runs):
        net = models.ba_total_degree(4, [1] * k)
        seen[tuple(tuple(min(net.A[l][i]) for l in range(k)) for i in (2, 3))] += 1
    total = 0.0
    for two in itertools.product(range(2), repeat=k):
        w = [k, k, k]
        for e in two:
            w[e] += 1
        for three in itertools.product(range(3), repeat=k):
            p = 0.5 ** k
            for e in three:
                p *= w[e] / float(sum(w))
            total += p
            got = seen[two, three]
            check(abs(got - runs * p) < 6.5 * math.sqrt(runs * p * (1 - p)) + 3, "nodes 2 and 3 attach to %r and %r in %d of %d networks, probability %.3f" % (two, three, got, runs, p))
    check(abs(total - 1) < 1e-9, "probabilities")
    rec.nontrivial(k > 1)
    rec.label("layers%d" % k)
