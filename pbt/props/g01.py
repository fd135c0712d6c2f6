"""G01: isomorphism comparisons, mappings, invariants and automorphisms agree with trying every permutation."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import Ref, build, ref, key, link, same_state
from pbt import gen

CASES = []
ASSUMPTIONS = ["PyBliss is not installed: its role (invariants, automorphisms) is played by the brute-force stand-in in /verif/standins."]
KW = dict(directed=(False,), loops=True, **gen.SORTABLE)
ONE = dict(aspects=(0, 1), max_nodes=4, max_layers=3)
TWO = dict(aspects=(2,), max_nodes=3, max_layers=2)      # the NetworkX backend (VF2) is exponential on large symmetric networks
NETS = st.one_of(gen.ml_spec(min_nodes=2, dense=True, **KW, **ONE), gen.ml_spec(**KW, **ONE), gen.ml_spec(**KW, **TWO),
                 gen.ml_spec(aspects=(0,), min_nodes=4, max_nodes=5, **KW), gen.ml_spec(min_nodes=2, min_layers=2, dense=True, **KW, **TWO),
                 gen.ml_spec(aspects=(1,), min_nodes=3, max_nodes=4, min_layers=2, dense=True, **KW),
                 gen.mx_spec(directed=(False,), **gen.SORTABLE, min_nodes=2, **TWO),
                 gen.mx_spec(directed=(False,), **gen.SORTABLE, aspects=(1,), min_nodes=2, max_nodes=4), gen.mx_spec(directed=(False,), **gen.SORTABLE, aspects=(1,), min_nodes=3, min_layers=2, dense=True))


@st.composite
def pair(draw):
    spec = draw(NETS)
    asp = spec["aspects"]
    allowed = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(range(asp + 1)), unique=True, min_size=1)))
    if allowed is not None and draw(st.integers(0, 9)) == 0:
        allowed = []
    g = ref(spec)
    perms = []
    for a, d in enumerate(g.dims):
        d = sorted(d, key=repr)
        if allowed is None or a in allowed or draw(st.integers(0, 4)) == 0:
            q = draw(st.permutations(d))
            mode = draw(st.integers(0, 3)) if (allowed is None or a in allowed) else 0
            if mode == 3:       # other names altogether
                q = [("q%02d" % i if isinstance(d[0], str) else 50 + i) for i in range(len(d))] if d else q
            perms.append(list(zip(d, q)))
        else:
            perms.append([(x, x) for x in d])
    mods = draw(st.lists(st.tuples(st.sampled_from(["swap", "swap", "swap", "toggle", "node", "layer", "nl"]), st.integers(0, 99), st.integers(0, 99)),
                         min_size=1, max_size=2)) if draw(st.integers(0, 2)) else []
    return spec, allowed, perms, mods, draw(st.integers(0, 10 ** 6))


def second(spec, perms, mods):
    """The permuted and possibly modified network as a reference graph."""
    g = ref(spec)
    m = [dict(p) for p in perms]
    f = lambda u: tuple(m[a][x] for a, x in enumerate(u))
    h = Ref(g.aspects, False, 0, spec["fi"])
    h.dims = [set(m[a][x] for x in d) for a, d in enumerate(g.dims)]
    h._nls = {f(u) for u in g.nls}
    h.E = {(f(u), f(v)): 1 for (u, v) in g.E}
    for how, i, j in mods:
        nls = sorted(h.nls, key=repr)
        ks = sorted(h.links(), key=repr)
        if how == "toggle" and nls:
            u, v = nls[i % len(nls)], nls[j % len(nls)]
            h.set(u, v, 0 if (u, v) in h.E else 1)
        elif how == "swap" and ks and nls:
            k = sorted(ks[i % len(ks)], key=repr)
            v = nls[j % len(nls)]
            if (k[0], v) not in h.E:
                h.set(k[0], k[-1], 0)
                h.set(k[0], v, 1)
        elif how == "node" and h.dims[0]:
            h.add_node("zz" if isinstance(next(iter(h.dims[0])), str) else 99)
        elif how == "layer" and h.aspects and h.dims[1]:
            h.add_layer("zz" if isinstance(next(iter(h.dims[1])), str) else 99)
        elif how == "nl" and not h.fi:
            full = sorted(itertools.product(*h.dims), key=repr)
            if full:
                h.touch(full[i % len(full)])
    return g, h


def make(h, seed):
    """Build the reference graph as a multilayer network, inserted in a shuffled order."""
    import random
    from pymnet.net import MultilayerNetwork
    rnd = random.Random(seed)
    net = MultilayerNetwork(aspects=h.aspects, fullyInterconnected=h.fi)
    items = [("n", x) for x in h.dims[0]] + [("l", a, x) for a in range(1, h.aspects + 1) for x in h.dims[a]]
    items += [("e",) + k for k in h.E if repr(k[0]) <= repr(k[1])] + ([] if h.fi else [("nl", u) for u in h.nls])
    items.sort(key=repr)
    rnd.shuffle(items)
    for it in items:
        if it[0] == "n":
            net.add_node(it[1])
        elif it[0] == "l":
            net.add_layer(it[2], it[1])
        elif it[0] == "nl":
            net.add_node(it[1][0], layer=it[1][1] if h.aspects == 1 else it[1][1:])
        else:
            u, v = (it[1], it[2]) if rnd.random() < .5 else (it[2], it[1])
            net[link(u, v)] = 1
    return net


def mappings(g, h, allowed):
    """Every tuple of dimension bijections (identity outside `allowed`) turning g into h."""
    n = g.aspects + 1
    if len(g.nls) != len(h.nls) or len(g.E) != len(h.E):
        return []
    for a in allowed:
        if len(g.dims[a]) != len(h.dims[a]):
            return []
    opts = []
    for a in range(n):
        d = sorted(g.dims[a], key=repr)
        if a in allowed:
            opts.append([dict(zip(d, q)) for q in itertools.permutations(sorted(h.dims[a], key=repr))])
        else:
            opts.append([{x: x for x in d}])
    out = []
    N, E = h.nls, set(h.E)
    gn, ge = sorted(g.nls, key=repr), list(g.E)
    for ms in itertools.product(*opts):
        f = lambda u: tuple(m[x] for m, x in zip(ms, u))
        if all((f(u), f(v)) in E for u, v in ge) and all(f(u) in N for u in gn):
            out.append(ms)
    return out


def full(ms, g):
    """Fill in what a mapping leaves unchanged."""
    return tuple({x: m.get(x, x) for x in d} for m, d in zip(ms, g.dims))


def stray(g, h, allowed):
    """Fixed elementary layers without node-layers that the other network does not have: no defined answer."""
    return any(g.dims[a] != h.dims[a] for a in range(g.aspects + 1) if a not in allowed)


@case(CASES, pair, quick=1500, rule="isomorphic by a mapping that is not the identity, or not isomorphic with equal numbers of nodes, layers and links")
def comparison(x, rec):
    from pymnet import isomorphisms as I
    spec, allowed, perms, mods, seed = x
    g, h = second(spec, perms, mods)
    n1, n2 = build(spec), make(h, seed)
    al = list(range(g.aspects + 1)) if allowed is None else allowed
    arg = {} if allowed is None else {"allowed_aspects": list(allowed)}
    exp = mappings(g, h, al)
    if stray(g, h, al) and {tuple(u[a] for a in range(g.aspects + 1) if a not in al) for u in g.nls} == \
            {tuple(u[a] for a in range(g.aspects + 1) if a not in al) for u in h.nls}:
        return
    iso = bool(exp)
    small = len(g.nls) + sum(map(len, g.dims)) <= 14         # VF2 is exponential on larger symmetric networks
    if seed % 4 == 0 and small:
        check(I.is_isomorphic(n1, n2, **arg) == iso, "is_isomorphic with the automatic backend")
    for backend in (("nx", "bliss") if seed % 4 else ("auto", "bliss")) if small else ("bliss",):
        got = I.is_isomorphic(n1, n2, backend=backend, **arg)
        check(got is iso or got == iso, "is_isomorphic (%s) says %r, permutations say %r" % (backend, got, iso))
        check(I.is_isomorphic(n2, n1, backend=backend, **arg) == iso, "is_isomorphic is not symmetric")
        for fixed in (False, True) if seed % 3 == 0 else (bool(seed % 2),):
            m = I.get_isomorphism(n1, n2, include_fixed=fixed, backend=backend, **arg)
            check((m is not None) == iso, "get_isomorphism (%s) returns %r, permutations say %r" % (backend, m, iso))
            if m is not None:
                check(len(m) == g.aspects + 1, "mapping of %d aspects" % len(m))
                for a, p in enumerate(m):
                    check(set(p) <= g.dims[a], "mapping of unknown elements", p)
                    if fixed:
                        check(set(p) == g.dims[a], "mapping %r leaves out elements of %r" % (p, g.dims[a]))
                    else:
                        check(all(k != v for k, v in p.items()), "fixed elements included", p)
                check(full(m, g) in [full(e, g) for e in exp], "the mapping %r does not turn the first network into the second" % (m,))
    c1, c2 = I.get_complete_invariant(n1, **arg), I.get_complete_invariant(n2, **arg)
    check((c1 == c2) == iso, "complete invariants are %s but isomorphic=%r" % ("equal" if c1 == c2 else "different", iso))
    if iso:
        check(hash(c1) == hash(c2), "equal invariants hash differently")
    same_state(n1, g, check, "first network:")
    rec.label("iso" if iso else "not-iso", spec["kind"], "all" if allowed is None else "allowed%d-of-%d" % (len(allowed), g.aspects + 1))
    if iso:
        rec.nontrivial(any(any(k != v for k, v in m.items()) for m in exp[0]))
    else:
        rec.nontrivial([len(d) for d in g.dims] == [len(d) for d in h.dims] and len(g.E) == len(h.E))


@case(CASES, lambda: st.tuples(NETS, st.one_of(st.none(), st.lists(st.sampled_from(range(3)), unique=True, min_size=1))), quick=700,
      rule="the automorphism group is not trivial")
def automorphisms(x, rec):
    """The generators generate exactly the automorphism group."""
    from pymnet import isomorphisms as I
    spec, allowed = x
    net, g = build(spec), ref(spec)
    if allowed is not None:
        allowed = [a for a in allowed if a <= spec["aspects"]] or [0]
    al = list(range(g.aspects + 1)) if allowed is None else allowed
    arg = {} if allowed is None else {"allowed_aspects": allowed}
    freeze = lambda ms: tuple(tuple(sorted(m.items(), key=repr)) for m in ms)
    exp = {freeze(m) for m in mappings(g, g, al)}
    for fixed in (False, True):
        gens = I.get_automorphism_generators(net, include_fixed=fixed, **arg)
        for m in gens:
            check(len(m) == g.aspects + 1, "generator of %d aspects" % len(m))
            if fixed:
                check([set(p) for p in m] == list(g.dims), "generator %r leaves out elements" % (m,))
            else:
                check(all(k != v for p in m for k, v in p.items()), "fixed elements included", m)
        gens = [full(m, g) for m in gens]
        idn = tuple({x: x for x in d} for d in g.dims)
        seen, todo = {freeze(idn)}, [idn]
        while todo:
            p = todo.pop()
            for q in gens:
                r = tuple({x: qq[pp[x]] for x in pp} for pp, qq in zip(p, q))
                if freeze(r) not in seen:
                    seen.add(freeze(r))
                    todo.append(r)
        check(seen == exp, "the generators %r generate %d permutations, the group has %d" % (gens, len(seen), len(exp)))
    rec.nontrivial(len(exp) > 1)
    rec.label(spec["kind"], "order%d" % min(len(exp), 99))


@case(CASES, lambda: st.tuples(gen.ml_spec(), gen.mx_spec(), st.integers(0, 3)), quick=150, rule="always")
def refusals(x, rec):
    """Directed networks, networks with other aspects, and unknown backends are refused."""
    from pymnet import isomorphisms as I
    s1, s2, a = x
    n1, n2 = build(s1), build(s2)
    for n in (n1, n2):
        if n.directed:
            check(raises(AssertionError, lambda: I.is_isomorphic(n, n)), "a directed network was compared")
    if not n1.directed and not n2.directed and n1.aspects != n2.aspects:
        check(raises(AssertionError, lambda: I.is_isomorphic(n1, n2)), "networks with different aspects were compared")
    check(raises(AssertionError, lambda: I.is_isomorphic(n1, n1, backend="none such")), "unknown backend")
    check(raises(AssertionError, lambda: I.get_complete_invariant(n1, backend="nx")), "nx gives no invariants")
    check(raises(AssertionError, lambda: I.get_automorphism_generators(n1, backend="nx")), "nx gives no automorphisms")
    rec.nontrivial()


@st.composite
def big_pair(draw):
    spec = draw(gen.big_spec(kind=("ml", "ml", "mx"), aspects=(1, 1, 0, 2), directed=(False,), noedge=(0,), weights="one", nodes=(5, 12), layers=(2, 4), limit=36,
                             degree=(2, 3, 4), kinds=("categorical", "none")))
    asp = spec["aspects"]
    allowed = draw(st.one_of(st.none(), st.lists(st.sampled_from(range(asp + 1)), unique=True, min_size=1)))
    g = ref(spec)
    perms = []
    for a, d in enumerate(g.dims):
        d = sorted(d, key=repr)
        q = draw(st.permutations(d)) if allowed is None or a in allowed else d
        if (allowed is None or a in allowed) and draw(st.integers(0, 3)) == 0:
            q = [("q%02d" % i if isinstance(d[0], str) else 50 + i) for i in range(len(d))]
        perms.append(list(zip(d, q)))
    mods = draw(st.lists(st.tuples(st.sampled_from(["swap", "swap", "toggle", "nl"]), st.integers(0, 999), st.integers(0, 999)), min_size=1, max_size=2)) if draw(st.booleans()) else []
    return spec, allowed, perms, mods, draw(st.integers(0, 10 ** 6))


def refined(g, al):
    """Colours of node-layers and elementary layers after refinement, as a multiset: different ones are proof of non-isomorphism."""
    color = {("e", a, x): ("e", a, 0 if a in al else repr(x)) for a, d in enumerate(g.dims) for x in d}
    color.update({("n",) + u: ("n",) for u in g.nls})
    nb = {k: [] for k in color}
    for u in g.nls:
        for a, x in enumerate(u):
            nb[("n",) + u].append(("e", a, x))
            nb[("e", a, x)].append(("n",) + u)
    for u, v in g.E:
        nb[("n",) + u].append(("n",) + v)
    color = {k: hash(c) for k, c in color.items()}
    for _ in range(6):
        color = {k: hash((color[k], tuple(sorted(color[x] for x in nb[k])))) for k in color}
    return sorted(color.values())


@case(CASES, big_pair, quick=250, rule="isomorphic by a mapping that is not the identity, or not isomorphic with equal numbers of nodes, layers and links", cpu=240)
def larger_comparison(x, rec):
    """A renamed copy is isomorphic, by a mapping that is checked link by link; a changed copy is not when its refined colours differ."""
    from pymnet import isomorphisms as I
    spec, allowed, perms, mods, seed = x
    g, h = second(spec, perms, mods)
    n1, n2 = build(spec), make(h, seed)
    al = list(range(g.aspects + 1)) if allowed is None else allowed
    arg = {} if allowed is None else {"allowed_aspects": list(allowed)}
    colors = refined(g, al)
    differ = colors != refined(h, al)
    if not mods:
        iso = True
    elif differ:
        iso = False
    else:
        return
    m0 = [dict(p) for p in perms]
    # VF2 is exponential in symmetric networks: it is asked where most colours are those of one element only
    asked = len(g.nls) <= 24 and (iso or len(set(colors)) > 0.75 * len(colors))
    for backend in ("bliss", "nx") if asked else ("bliss",):
        got = I.is_isomorphic(n1, n2, backend=backend, **arg)
        check(got == iso, "is_isomorphic (%s) says %r, expected %r" % (backend, got, iso))
        m = I.get_isomorphism(n1, n2, include_fixed=True, backend=backend, **arg)
        check((m is not None) == iso, "get_isomorphism (%s) returns %r, expected isomorphic=%r" % (backend, m, iso))
        if m is not None:
            check([set(p) for p in m] == list(g.dims) and [set(p.values()) for p in m] == list(h.dims), "the mapping is not one of the dimensions", m)
            check(all(k == v for a, p in enumerate(m) if a not in al for k, v in p.items()), "a fixed aspect was mapped", m)
            f = lambda u: tuple(q[y] for q, y in zip(m, u))
            check({f(u) for u in g.nls} == h.nls and {(f(u), f(v)) for u, v in g.E} == set(h.E), "the mapping %r does not turn the first network into the second" % (m,))
    c1, c2 = I.get_complete_invariant(n1, **arg), I.get_complete_invariant(n2, **arg)
    check((c1 == c2) == iso, "complete invariants are %s but isomorphic=%r" % ("equal" if c1 == c2 else "different", iso))
    for m in I.get_automorphism_generators(n1, include_fixed=True, **arg):
        f = lambda u: tuple(q[y] for q, y in zip(m, u))
        check([set(p) for p in m] == list(g.dims) and {f(u) for u in g.nls} == g.nls and {(f(u), f(v)) for u, v in g.E} == set(g.E), "the generator %r is not an automorphism" % (m,))
    same_state(n1, g, check, "first network:")
    rec.label("iso" if iso else "not-iso", spec["kind"], "all" if allowed is None else "allowed%d-of-%d" % (len(allowed), g.aspects + 1), "VF2-%s" % iso if asked else "bliss-only")
    rec.nontrivial(any(a != b for p in m0 for a, b in p.items()) if iso else [len(d) for d in g.dims] == [len(d) for d in h.dims] and len(g.E) == len(h.E))
