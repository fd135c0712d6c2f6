"""N04: a multiplex network stores one network per layer; every write path agrees."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check, fail, raises
from pbt.model import Ref, key, link, same_state, add_couplings, coupling_args, links_of, unlink
from pbt import gen

CASES = []
@st.composite
def history(draw):
    asp = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    NODES = draw(st.sampled_from([[1, 2, 3, "a"], [1, 2, 3, "a"], [0, "", "0", 2.5]]))
    d, fi = draw(st.booleans()), draw(st.booleans())
    ne = draw(st.sampled_from([0, 0, 0, -1]))
    layers = [draw(st.sampled_from([[1, 2, 3], ["x", "y", "z"], [1, 2], [2, 0, 1], ["", 0, "x"]] if asp < 3 else [[1, 2], ["x", "y"], [0, -1], ["", 0]])) for _ in range(asp)]
    cs = [draw(gen.coupling_spec(l, d, ("categorical", "ordinal", "none", "net"), ne)) for l in layers]

    def nl():
        return (draw(st.sampled_from(NODES)),) + tuple(draw(st.sampled_from(l)) for l in layers)
    vals = [ne, 1, 2, 0.5, 3]
    ops, used = [], []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["set", "set", "set", "set", "again", "again", "node", "layer", "nl", "Anode", "copyA", "bad"]))
        if k in ("set", "again"):
            if k == "again" and used:
                u, v = draw(st.sampled_from(used))
                if draw(st.booleans()):
                    u, v = v, u
            else:
                u = nl()
                v = (draw(st.sampled_from([n for n in NODES if n != u[0]])),) + u[1:]
                used.append((u, v))
            ops.append(("set", u, v, draw(st.sampled_from(vals)), draw(st.integers(0, 3))))
        elif k == "node":
            ops.append(("node", draw(st.sampled_from(NODES))))
        elif k == "layer":
            a = draw(st.integers(1, asp))
            ops.append(("layer", draw(st.sampled_from(layers[a - 1])), a))
        elif k == "nl":
            ops.append(("nl", nl()))
        elif k == "Anode":
            ops.append(("Anode", nl()))
        elif k == "copyA":
            lay = nl()[1:]
            es = draw(st.lists(st.tuples(st.sampled_from(NODES), st.sampled_from(NODES), st.sampled_from([1, 2, 3])), max_size=4))
            es = [(a, b, w) for a, b, w in es if a != b]
            ops.append(("copyA", lay, draw(st.lists(st.sampled_from(NODES), max_size=3, unique=True)), es))
        else:
            ops.append(("bad", nl(), nl()))
    return {"aspects": asp, "directed": d, "fi": fi, "noedge": ne, "couplings": cs, "ops": ops}


def lk(lay):
    return lay[0] if len(lay) == 1 else tuple(lay)


def apply(net, r, op, rec=None):
    from pymnet.net import MultilayerNetwork
    if op[0] == "set":
        _, u, v, w, how = op
        lay = u[1:]
        have = all(l in r.dims[a + 1] for a, l in enumerate(lay))
        if how == 0:
            net[(u[0], v[0]) + lay] = w
        elif how == 1:
            net[key(u)][key(v)] = w
        elif how == 2 and have:
            net.A[lk(lay)][u[0], v[0]] = w
        elif how == 3 and have:
            net.A[lk(lay)][u[0]][v[0]] = w
        else:
            net[link(u, v)] = w
        r.set(u, v, w)
    elif op[0] == "node":
        net.add_node(op[1])
        r.add_node(op[1])
    elif op[0] == "layer":
        net.add_layer(op[1], op[2])
        r.add_layer(op[1], op[2])
    elif op[0] == "nl":
        u = op[1]
        net.add_node(u[0], layer=lk(u[1:]))
        r.add_node(u[0], u[1:])
    elif op[0] == "Anode":
        u = op[1]
        if all(l in r.dims[a + 1] for a, l in enumerate(u[1:])):
            net.A[lk(u[1:])].add_node(u[0])
            r.add_node(u[0], u[1:])
    elif op[0] == "copyA":
        _, lay, nodes, es = op
        if not all(l in r.dims[a + 1] for a, l in enumerate(lay)):
            return
        m = MultilayerNetwork(aspects=0, directed=r.directed, noEdge=r.noedge)
        for n in nodes:
            m.add_node(n)
        for a, b, w in es:
            m[a, b] = w
        net.A[lk(lay)] = m
        # independent copy: writing to the source afterwards changes nothing
        m["intruder", "other"] = 1
        for k in [k for k in r.E if k[0][1:] == lay]:
            del r.E[k]
        if not r.fi:
            r._nls = {u for u in r._nls if u[1:] != lay}
        for n in nodes + [x for e in es for x in e[:2]]:
            r.add_node(n, lay)
        for a, b, w in es:
            r.set((a,) + lay, (b,) + lay, w)
        if rec:
            rec.label("copyA")


def full(r, cs):
    g = r.copy()
    add_couplings(g, cs)
    return g


def check_layers(net, r, what):
    """Each intra-layer network holds exactly its layer's nodes and links."""
    combos = list(itertools.product(*r.dims[1:])) if all(r.dims[1:]) else []
    check(set(net.A) == {lk(c) for c in combos} and len(net.A) == len(combos), what, "layer keys of net.A", list(net.A))
    check(net.A is net.intranets, what, "A and intranets differ")
    for c in combos:
        A = net.A[lk(c)]
        exp_nodes = {u[0] for u in r.nls if u[1:] == c} if not r.fi else r.dims[0]
        check(set(A) == set(exp_nodes) and len(A) == len(exp_nodes), what, "nodes of layer %r: %r, expected %r" % (c, set(A), exp_nodes))
        check(set(net.iter_nodes(lk(c))) == set(exp_nodes), what, "iter_nodes(%r)" % (c,))
        d, n = links_of(A)
        exp = {((u[0],), (v[0],)) if r.directed else frozenset(((u[0],), (v[0],))): w for (u, v), w in r.E.items() if u[1:] == c}
        check(d == exp and n == len(d), what, "links of layer %r: %r, expected %r" % (c, d, exp))
        check(A.noEdge == r.noedge and A.directed == r.directed and A.aspects == 0, what, "parameters of the intra-layer network")


def run(spec, rec, every=1):
    from pymnet.net import MultiplexNetwork
    net = MultiplexNetwork(couplings=coupling_args(spec["couplings"]), directed=spec["directed"],
                           noEdge=spec["noedge"], fullyInterconnected=spec["fi"])
    r = Ref(spec["aspects"], spec["directed"], spec["noedge"], spec["fi"])
    for i, op in enumerate(spec["ops"]):
        if op[0] == "bad":
            _, u, v = op
            known = all(x in r.dims[a] for n in (u, v) for a, x in enumerate(n))
            if u[1:] == v[1:] and u != v:
                continue
            if u != v and not known:
                continue

            def put():
                net[link(u, v)] = 1
            if known and (r.fi or (u in r.nls and v in r.nls)):
                check(raises(KeyError, put), "setting the %s %r is accepted" % ("self-link" if u == v else "inter-layer link", link(u, v)))
                rec.label("refused")
            continue
        apply(net, r, op, rec)
        what = "after op %d %r:" % (i, op)
        if i % every and i < len(spec["ops"]) - 1:
            continue
        for a in range(r.aspects + 1):
            check(set(net.slices[a]) == r.dims[a], what, "dimension %d: %r, expected %r" % (a, net.slices[a], r.dims[a]))
        nls = list(net.iter_node_layers())
        check(set(nls) == r.nls and len(nls) == len(r.nls), what, "node-layers %r, expected %r" % (nls, r.nls))
        check_layers(net, r, what)
    g = full(r, spec["couplings"])
    univ = list(itertools.product(*r.dims)) if all(r.dims) else []
    if len(univ) > 40:
        univ = sorted(univ, key=repr)[::len(univ) // 30]
    for u in univ:
        check(net[key(u)].deg_out() == len(g.out(u)), "number of neighbours of %r is %d, expected %d" % (u, net[key(u)].deg_out(), len(g.out(u))))
        check(set(net[key(u)].iter_out()) == g.out(u), "neighbours of %r" % (u,))
        for v in univ:
            for got in (net[link(u, v)], net[key(u)][key(v)]):
                check(got == g.w(u, v), "link %r -> %r reads %r, expected %r" % (u, v, got, g.w(u, v)))
            if u[1:] == v[1:]:
                check(net[(u[0], v[0]) + u[1:]] == g.w(u, v), "short form of", u, v)
                check(net.A[lk(u[1:])][u[0], v[0]] == r.w(u, v), "A form of", u, v)
    rec.nontrivial(len(r.E) >= 2)
    rec.label("asp%d" % r.aspects, "directed" if r.directed else "undirected", "fi" if r.fi else "nonfi")
    for c in spec["couplings"]:
        rec.label("net" if isinstance(c, dict) else str(c if isinstance(c, (str, type(None))) else c[0]))


@case(CASES, history, quick=1600, rule="at least two intra-layer link entries remain")
def write_paths(spec, rec):
    run(spec, rec)


@st.composite
def long_history(draw):
    """A long history over more nodes and layers, made from a drawn seed."""
    import random
    asp = draw(st.sampled_from([1, 1, 2]))
    n, k = draw(st.integers(4, 20)), draw(st.integers(2, 7 if asp == 1 else 3))
    d, fi, ne = draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([0, 0, -1]))
    layers = [[("l%d" % i if a else i) for i in range(k)] for a in range(asp)]
    cs = [draw(gen.coupling_spec(l, d, ("categorical", "ordinal", "none", "net"), ne)) for l in layers]
    nops, removals = draw(st.integers(30, 200)), draw(st.sampled_from([1, 3, 6]))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    nl = lambda: (rnd.randrange(n),) + tuple(rnd.choice(l) for l in layers)
    ops, used = [], []
    for _ in range(nops):
        x = rnd.randrange(30)
        if x == 0:
            ops.append(("node", rnd.randrange(n + 3)))
        elif x == 1:
            a = rnd.randint(1, asp)
            ops.append(("layer", rnd.choice(layers[a - 1]), a))
        elif x == 2:
            ops.append(("nl", nl()))
        elif x == 3:
            ops.append(("Anode", nl()))
        elif x == 4:
            es = [(rnd.randrange(n), rnd.randrange(n), rnd.choice([1, 2, 3])) for _ in range(rnd.randrange(12))]
            ops.append(("copyA", nl()[1:], rnd.sample(range(n), rnd.randrange(4)), [e for e in es if e[0] != e[1]]))
        elif x == 5:
            ops.append(("bad", nl(), nl()))
        else:
            u = nl()
            v = (rnd.choice([y for y in range(n) if y != u[0]]),) + u[1:]
            if used and rnd.randrange(10) < removals:
                u, v = rnd.choice(used)
                if rnd.random() < 0.3:
                    u, v = v, u
            used.append((u, v))
            ops.append(("set", u, v, ne if rnd.randrange(10) < removals else rnd.choice([1, 2, 0.5, 3]), rnd.randrange(4)))
    return {"aspects": asp, "directed": d, "fi": fi, "noedge": ne, "couplings": cs, "ops": ops}


@case(CASES, long_history, quick=200, rule="at least two intra-layer link entries remain")
def long_histories(spec, rec):
    run(spec, rec, every=20)
