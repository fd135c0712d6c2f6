"""L03: orbit equations hold for the orbit counts of every node of every network."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt import glets
from pbt.props import l02
from pbt.props.l02 import expected

CASES = []
ASSUMPTIONS = ["PyBliss is replaced by a brute-force stand-in (standins/PyBliss.py).",
               "Equations up to 5 nodes in one layer, 4 nodes in two, 3 nodes in three layers (those the 'notes' of the library say are implemented)."]
CONFS = [(3, ("a",), 1, None, "all"), (4, ("b",), 1, None, "all"), (3, ("a", "b"), 2, None, "all"), (3, ("a", "b"), 2, None, (0,)), (3, (1, 2), 2, "categorical", "all"),
         (3, ("a", "b", "c"), 2, None, (0,)), (3, ("a", "b", "c"), 2, None, "all"), (3, ("a", "b", "c"), 1, None, (0,)), (3, (1, 2, 3), 3, None, "all")]
HEAVY = [(5, ("a",), 1, None, "all"), (4, ("a", "b"), 2, None, "all"), (4, ("a", "b"), 2, None, (0,)), (4, (1, 2), 1, None, (0,))]
EQS = {}


def equations(conf):
    import pymnet
    if conf not in EQS:
        nets, invs, auts = glets.table(conf)
        EQS[conf] = pymnet.graphlets.orbit_equations(conf[0], nets, auts, invs, allowed_aspects=glets.aspects(conf))
    return EQS[conf]


def sides(key):
    """The orbits of a key: (o, o) or (larger, smaller)."""
    if len(key[0]) == 3:
        return key[0], key[0]
    a, b = key[0][0], key[1][0]
    return (a, b) if a[0] >= b[0] else (b, a)


SUBS = {}


def subtract(conf, a, b):
    import pymnet
    if (conf, a, b) not in SUBS:
        nets, invs, auts = glets.table(conf)
        SUBS[conf, a, b] = pymnet.graphlets.graphlets_module.subtrahend(a, b, nets, auts, invs, allowed_aspects=glets.aspects(conf))
    return SUBS[conf, a, b]


def on_network(conf, t, rec):
    nodes, layers, links = t
    nets, invs, auts = glets.table(conf)
    eqs = equations(conf)
    net = glets.make(nodes, layers, links, conf[3])
    d = glets.links_of(net)
    want = expected(conf, nodes, layers, d)
    some = 0
    for u in nodes:
        c = lambda o: want.get((u, o), 0)
        for key, terms in eqs.items():
            a, b = sides(key)
            left = c(a) * (c(a) - 1) // 2 if a == b else c(a) * (c(b) - subtract(conf, a, b))
            right = sum(co * c(o) for o, co in terms.items())
            check(left == right, "equation", key, "of", terms, "gives", left, "=", right, "for node", u, "of links", d)
            some += left > 0
    rec.nontrivial(some >= 2)
    rec.label("n%d" % conf[0], "layers%d" % conf[2], str(conf[4]))


@case(CASES, st.sampled_from(CONFS).flatmap(lambda c: st.tuples(st.just(c), glets.target(c, lo=4, hi=7, tree=True))), quick=550, rule="two equations with positive sides")
def equations_hold(t, rec):
    """Products of small orbit counts are the stated combinations of larger ones, for brute-force counts."""
    on_network(t[0], t[1], rec)


@case(CASES, st.sampled_from(HEAVY).flatmap(lambda c: st.tuples(st.just(c), glets.target(c, lo=5, hi=7 if c[0] < 5 else 6, tree=True))), quick=70, rule="two equations with positive sides", cpu=240)
def larger_equations_hold(t, rec):
    """The same for the largest tables."""
    on_network(t[0], t[1], rec)


@st.composite
def orbit_pair(draw):
    conf = draw(st.sampled_from(CONFS[2:] + HEAVY[1:3]))
    nets, invs, auts = glets.table(conf)
    k = draw(st.sampled_from(sorted(nets)))
    i = draw(st.integers(0, len(nets[k]) - 1))
    return conf, k, i, draw(st.integers(0, k - 1)), draw(st.integers(0, 10**6))


@case(CASES, orbit_pair, quick=400, rule="an orbit of at least three nodes")
def subtrahends(t, rec):
    """The subtrahend is the number of occurrences of the smaller orbit within the larger one (one node more, or equally many)."""
    conf, k, i, u, pick = t
    nets, invs, auts = glets.table(conf)
    if conf not in l02.ROOTED:
        l02.ROOTED[conf] = l02.rooted(conf)
    R = l02.ROOTED[conf]
    net = nets[k][i]
    links, ls = glets.links_of(net), list(net.slices[1])
    a = (k, i, auts[k, i, u])
    here = R[k, glets.canon(range(k), ls, links, conf, root=u)]
    check(here == a, "orbit", a, "of graphlet", links, "is that of", here)
    twos = {}
    for v in range(k):
        sub = {p: x for p, x in links.items() if p == {u, v}}
        if v != u and sub:
            b = R[2, glets.canon([u, v], ls, sub, conf, root=u)]
            twos[b] = twos.get(b, 0) + 1
    for b in sorted({(2, j, o) for (kk, j, x), o in auts.items() if kk == 2}):
        check(subtract(conf, a, b) == twos.get(b, 0), "subtrahend of", b, "in", a, "is", subtract(conf, a, b), "expected", twos.get(b, 0))
    if k == 4:
        # a three-node orbit occurs at most once in a four-node one without sharing further nodes
        inside = {R[3, glets.canon([u, v, w], ls, sub, conf, root=u)] for v, w in itertools.combinations(set(range(k)) - {u}, 2)
                  for sub in [{p: x for p, x in links.items() if p <= {u, v, w}}] if glets.connected([u, v, w], sub)}
        threes = sorted({(3, j, o) for (kk, j, x), o in auts.items() if kk == 3})
        for b in sorted(inside) + [threes[(pick + s * 5) % len(threes)] for s in range(4)]:
            check(subtract(conf, a, b) == (b in inside), "subtrahend of", b, "in", a, "is", subtract(conf, a, b), "expected", int(b in inside))
    check(subtract(conf, a, a) == 1, "subtrahend of", a, "in itself is", subtract(conf, a, a))
    same = sorted({(k, j, o) for (kk, j, x), o in auts.items() if kk == k} - {a})
    for s in range(min(6, len(same))):
        b = same[(pick + s * 7) % len(same)]
        check(subtract(conf, a, b) == 0, "subtrahend of", b, "in", a, "is", subtract(conf, a, b), "expected 0")
    same = [b for b in same if b[:2] == a[:2]]
    for b in same:
        check(subtract(conf, a, b) == 0, "subtrahend of", b, "in", a, "is", subtract(conf, a, b), "expected 0")
    rec.nontrivial(k > 2)
    rec.label("nodes%d" % k, "aspects%s" % (conf[4],), "orbits of the graphlet%d" % (len(same) + 1))


@case(CASES, st.tuples(st.one_of(st.lists(st.integers(-9, 99), max_size=7, unique=True), st.lists(st.text(max_size=2), max_size=6, unique=True)), st.sampled_from([2, 3, 1, 4])),
      quick=250, rule="at least two partitions")
def partitions(t, rec):
    """Partitions into groups of a size, with or without a remainder of any other size, each once."""
    from pymnet import graphlets
    gl = graphlets.graphlets_module
    items, r = t
    shape = lambda p: frozenset(frozenset(g) for g in p)

    def groups(rest, k):
        """All sets of k disjoint groups of r items."""
        if k == 0:
            return {frozenset()}
        out = set()
        for c in itertools.combinations(sorted(rest), r):
            for more in groups(set(rest) - set(c), k - 1):
                out.add(more | {frozenset(c)})
        return out

    want = set()
    for k in range(len(items) // r + 1):
        n = len(items) - k * r
        if n != r and (n or k) or (n == 0 and not items):
            for g in groups(items, k):
                rest = set(items) - set().union(*g)
                want.add(g | ({frozenset(rest)} if rest else frozenset()))
    got = [tuple(p) for p in gl.partitions_with_remainder(items, r)]
    check(all(sorted(x for g in p for x in g) == sorted(items) for p in got), "a partition of", items, "has other items:", got)
    check(len(got) == len(want) and set(map(shape, got)) == want, "partitions of", items, "into", r, "are", got)
    if len(items) % r == 0:
        got = [tuple(p) for p in gl.partitions(items, r)]
        want = groups(items, len(items) // r)
        check(len(got) == len(want) and set(map(shape, got)) == want, "partitions of", items, "into", r, "are", got)
    rec.nontrivial(len(want) > 1)
    rec.label("size%d" % r)


def all_pairs(conf):
    """Unordered pairs of orbits that can be combined: at most n nodes together, the smaller one of at most three, same layers."""
    nets, invs, auts = glets.table(conf)
    orbits = sorted({(k, i, o) for (k, i, u), o in auts.items()})
    out = set()
    for a, b in itertools.combinations_with_replacement(orbits, 2):
        if a[0] + b[0] - 1 <= conf[0] and min(a[0], b[0]) <= 3 and set(nets[a[0]][a[1]].slices[1]) == set(nets[b[0]][b[1]].slices[1]):
            out.add(frozenset((a, b)))
    return out


@case(CASES, st.sampled_from(CONFS + HEAVY[:3]), quick=24, thorough=60, rule="more than one equation", cpu=240)
def independent_set(conf, rec):
    """There is one equation per pair of orbits; the independent ones have full rank, that of all equations, and one redundant orbit each."""
    import random
    import numpy
    import pymnet
    gl = pymnet.graphlets
    nets, invs, auts = glets.table(conf)
    eqs = equations(conf)
    want = all_pairs(conf)
    check(len(eqs) == len(want) and {frozenset(sides(k)) for k in eqs} == want, "equations are", sorted(map(repr, eqs)), "for the pairs", sorted(map(repr, want)))
    order = gl.ordered_orbit_list(gl.orbit_numbers(conf[0], nets, auts))
    for k, terms in eqs.items():
        a, b = sides(k)
        check(all(max(a[0], b[0]) < o[0] <= a[0] + b[0] - 1 and co > 0 for o, co in terms.items()), "equation", k, "has the terms", terms)
    rec.nontrivial(len(eqs) > 1)
    if conf[0] == 5 or conf[3]:
        return
    inds, eqs2 = gl.independent_equations(conf[0], conf[2], list(conf[1]), allowed_aspects=glets.aspects(conf))
    check(dict(eqs2) == dict(eqs), "independent_equations made other equations than orbit_equations")
    check(set(inds) <= set(eqs), "independent equations", set(inds) - set(eqs), "do not exist")
    reds = gl.redundant_orbits(inds, eqs, gl.orbit_numbers(conf[0], nets, auts), order)
    check(len(set(reds)) == len(reds) == len(inds), len(inds), "independent equations,", len(reds), "redundant orbits")
    top = {str(o) for k in inds for o in eqs[k]}
    check(set(reds) <= top, "redundant orbits", set(reds) - top, "are in no equation")
    if conf[2] != len(conf[1]):
        return
    # at the counts of a node of a large random network the rows of gradients show which equations follow from others
    rnd = random.Random(7)
    nodes = list(range(8))
    net = glets.make(nodes, conf[1], [(i, j, l) for i, j in itertools.combinations(nodes, 2) for l in conf[1] if rnd.random() < 0.4], None)
    counts = expected(conf, nodes, list(conf[1]), glets.links_of(net))
    c = {o: counts.get((0, o), 0) for o in order}
    pos = {o: i for i, o in enumerate(order)}
    keys = list(eqs)
    J = numpy.zeros((len(keys), len(order)))
    for r, k in enumerate(keys):
        a, b = sides(k)
        if a == b:
            J[r, pos[a]] += c[a] - 0.5
        else:
            J[r, pos[a]] += c[b] - subtract(conf, a, b)
            J[r, pos[b]] += c[a]
        for o, co in eqs[k].items():
            J[r, pos[o]] -= co
    J /= numpy.abs(J).max(axis=1, keepdims=True)
    rank = lambda M: numpy.linalg.matrix_rank(M, tol=1e-8) if len(M) else 0
    every, ind = rank(J), rank(J[[i for i, k in enumerate(keys) if k in inds]])
    check(every == ind == len(inds), len(inds), "independent equations of rank", ind, "among equations of rank", every)
