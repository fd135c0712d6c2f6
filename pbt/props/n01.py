"""N01: a general multilayer network is exactly the state its update history describes."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check, fail, raises
from pbt.model import Ref, key, link, same_state, edge_list, unlink
from pbt import gen

CASES = []

POOLS = [([1, 2, 3, "a"], [[1, 2, "x"], ["x", "y", 1], [1, "z"]]),
         ([0, "", "0", 2.5], [[0, 1, ""], ["", 0, "x"], [0, -1]]),
         ([1, 2, 3, "a"], [[1, 2, "x"], ["x", "y", 1], [1, "z"]])]


@st.composite
def history(draw, directed=None):
    asp = draw(st.sampled_from([0, 1, 1, 2, 0, 1, 2, 3]))
    NODES, LAYERS = draw(st.sampled_from(POOLS))

    def _nl(draw, asp):
        return (draw(st.sampled_from(NODES)),) + tuple(draw(st.sampled_from(LAYERS[a])) for a in range(asp))
    d = draw(st.booleans()) if directed is None else directed
    fi = draw(st.booleans())
    ne = draw(st.sampled_from([0, 0, 0, -1, 5, None]))
    vals = [ne, ne, 1, 2, 0.5, -1, 0]
    nops = draw(st.integers(1, 14))
    ops, used = [], []
    for _ in range(nops):
        k = draw(st.sampled_from(["set", "set", "set", "set", "again", "again", "again", "node", "layer", "nl"]))
        if k == "set":
            u, v = _nl(draw, asp), _nl(draw, asp)
            if draw(st.integers(0, 5)) == 0:
                v = u
            used.append((u, v))
            ops.append(("set", u, v, draw(st.sampled_from(vals)), draw(st.integers(0, 3))))
        elif k == "again":
            if not used:
                continue
            u, v = draw(st.sampled_from(used))
            if draw(st.booleans()):
                u, v = v, u
            ops.append(("set", u, v, draw(st.sampled_from(vals)), draw(st.integers(0, 3))))
        elif k == "node":
            ops.append(("node", draw(st.sampled_from(NODES))))
        elif k == "layer":
            if asp == 0:
                ops.append(("layer", draw(st.sampled_from(NODES)), 0))
            else:
                a = draw(st.integers(1, asp))
                ops.append(("layer", draw(st.sampled_from(LAYERS[a - 1])), a))
        elif asp:
            ops.append(("nl", _nl(draw, asp), draw(st.booleans())))
    return {"aspects": asp, "directed": d, "fi": fi, "noedge": ne, "ops": ops}


def make(spec):
    from pymnet.net import MultilayerNetwork
    net = MultilayerNetwork(aspects=spec["aspects"], noEdge=spec["noedge"], directed=spec["directed"],
                            fullyInterconnected=spec["fi"])
    return net, Ref(spec["aspects"], spec["directed"], spec["noedge"], spec["fi"])


def apply(net, r, op):
    """One public operation on the network and on the model."""
    if op[0] == "set":
        _, u, v, w, how = op
        same = u[1:] == v[1:]
        if how == 0 and same:                      # short form net[i,j,s,x]
            net[(u[0], v[0]) + u[1:]] = w
        elif how == 1:                             # node object form net[u][v]
            net[key(u)][key(v)] = w
        elif how == 2 and r.aspects == 0:
            net[u[0], v[0]] = w
        else:
            net[link(u, v)] = w
        r.set(u, v, w)
    elif op[0] == "node":
        net.add_node(op[1])
        r.add_node(op[1])
    elif op[0] == "layer":
        net.add_layer(op[1], op[2])
        r.add_node(op[1]) if op[2] == 0 else r.add_layer(op[1], op[2])
    elif op[0] == "nl":
        u, aslist = op[1], op[2]
        layer = u[1] if r.aspects == 1 else (list(u[1:]) if aslist else u[1:])
        net.add_node(u[0], layer=layer)
        r.add_node(u[0], u[1:])


def read_all(net, r, what):
    """Every access form returns the model's value for every pair."""
    univ = list(itertools.product(*r.dims)) if all(r.dims) else []
    for u in univ[:14]:
        for v in univ[:14]:
            w = r.w(u, v)
            check(net[link(u, v)] == w, what, "net[%r] is %r, expected %r" % (link(u, v), net[link(u, v)], w))
            check(net[key(u)][key(v)] == w, what, "net[%r][%r] is %r, expected %r" % (key(u), key(v), net[key(u)][key(v)], w))
            if u[1:] == v[1:]:
                s = (u[0], v[0]) + u[1:]
                check(net[s] == w, what, "short form net[%r] is %r, expected %r" % (s, net[s], w))
        node = net[key(u)]
        for f, e in ((node.iter_out, r.out(u)), (node.iter_in, r.inn(u)), (node.iter_total, r.tot(u))):
            got = list(f())
            check(len(got) == len(e) and set(got) == {key(v) for v in e}, what, "%s of %r gives %r, the links say %r" % (f.__name__, u, got, e))


def run(spec, rec):
    net, r = make(spec)
    removed = 0
    for i, op in enumerate(spec["ops"]):
        if op[0] == "set" and op[3] == r.noedge and (op[1], op[2]) in r.E:
            removed += 1
        apply(net, r, op)
        if op[0] == "set":
            _, u, v, w, how = op
            check(net[link(u, v)] == w, "after op", i, op, "reads", net[link(u, v)])
        same_state(net, r, check, "after op %d %r:" % (i, op))
    read_all(net, r, "at the end:")
    # views of the node and layer sets
    check(len(net) == len(r.dims[0]), "len(net)", len(net), len(r.dims[0]))
    check(sorted(map(repr, net)) == sorted(map(repr, r.dims[0])), "iter(net)")
    check(sorted(map(repr, net.iter_nodes())) == sorted(map(repr, r.dims[0])), "iter_nodes()")
    for a in range(1, r.aspects + 1):
        check(set(net.get_layers(a)) == r.dims[a], "get_layers")
        check(sorted(map(repr, net.iter_layers(a))) == sorted(map(repr, r.dims[a])), "iter_layers(aspect)")
    combos = list(itertools.product(*r.dims[1:]))
    if r.aspects:
        got = list(net.iter_layers())
        exp = [c[0] for c in combos] if r.aspects == 1 else combos
        check(sorted(map(repr, got)) == sorted(map(repr, exp)), "iter_layers()", got, exp)
        for c in combos:
            lay = c[0] if r.aspects == 1 else c
            got = list(net.iter_nodes(lay))
            exp = {u[0] for u in r.nls if u[1:] == c} if not r.fi else r.dims[0]
            check(len(got) == len(set(got)) and set(got) == set(exp), "iter_nodes(%r): %r, expected %r" % (lay, got, exp))
    rec.nontrivial(len(r.E) >= 2 or removed > 0)
    rec.label("aspects%d" % r.aspects, "directed" if r.directed else "undirected", "fi" if r.fi else "nonfi",
              "removal" if removed else "noremoval")
    if any(u == v for u, v in r.E):
        rec.label("selfloop")


@case(CASES, lambda: history(False), quick=900, rule="the history leaves two links or removes one")
def undirected_history(spec, rec):
    run(spec, rec)


@case(CASES, lambda: history(True), quick=900, rule="the history leaves two links or removes one")
def directed_history(spec, rec):
    run(spec, rec)


@case(CASES, lambda: st.tuples(history(), st.integers(0, 7)), quick=150,
      rule="always (a wrong number of indices on a non-trivial net)")
def bad_index_counts(spec, rec):
    """Only d, d+1 and 2d indices address anything; other counts are refused and change nothing."""
    h, extra = spec
    net, r = make(h)
    for op in h["ops"]:
        apply(net, r, op)
    d = r.aspects + 1
    if extra in (d, d + 1, 2 * d) or extra == 0:
        return
    idx = tuple([1] * extra)

    def put():
        net[idx if extra > 1 else 1] = 3
    check(raises(KeyError, lambda: net[idx]), "reading %d indices on %d aspects is accepted" % (extra, r.aspects))
    check(raises(KeyError, put), "writing %d indices on %d aspects is accepted" % (extra, r.aspects))
    same_state(net, r, check, "after refused access:")
    rec.nontrivial()


@case(CASES, history, quick=250, rule="the history leaves two links")
def hub_and_scale(spec, rec):
    """Same law on a larger network: the history is replayed on shifted copies of the names."""
    net, r = make(spec)
    asp = r.aspects
    for shift in range(6):
        for op in spec["ops"]:
            def m(u):
                return ("n%d_%s" % (shift if u[0] != 1 else 0, u[0]),) + tuple(u[1:])
            if op[0] == "set":
                op = ("set", m(op[1]), m(op[2]), op[3], op[4])
            elif op[0] == "nl":
                op = ("nl", m(op[1]), op[2])
            elif op[0] == "node" or (op[0] == "layer" and op[2] == 0):
                op = (op[0],) + (m((op[1],))[0],) + tuple(op[2:])
            apply(net, r, op)
    same_state(net, r, check, "at the end:")
    rec.nontrivial(len(r.E) >= 2)


@st.composite
def long_history(draw):
    """A long history over more names than the drawn ones, made from a drawn seed; states are compared on the way."""
    import random
    asp = draw(st.sampled_from([1, 1, 2, 0, 3]))
    n, k = draw(st.integers(4, 25)), draw(st.integers(2, {0: 1, 1: 7, 2: 4, 3: 2}[asp] if asp else 2))
    nops, ne = draw(st.integers(30, 250)), draw(st.sampled_from([0, 0, -1, None]))
    directed, fi, removals = draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([1, 3, 6]))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    nl = lambda: (rnd.randrange(n),) + tuple("l%d" % rnd.randrange(k) for _ in range(asp))
    ops, used = [], []
    for _ in range(nops):
        x = rnd.randrange(20)
        if x < 2 or (x == 2 and not asp):
            ops.append(("node", rnd.randrange(n + 3)))
        elif x == 2:
            ops.append(("layer", "l%d" % rnd.randrange(k + 1), rnd.randint(1, asp)))
        elif x == 3 and asp:
            ops.append(("nl", nl(), rnd.random() < 0.5))
        else:
            u, v = nl(), nl()
            if rnd.random() < 0.4:
                u = (0,) + u[1:]
            if rnd.random() < 0.3:
                v = (v[0],) + u[1:]
            if used and rnd.randrange(10) < removals:
                u, v = rnd.choice(used)
                if rnd.random() < 0.3:
                    u, v = v, u
            used.append((u, v))
            w = ne if rnd.randrange(10) < removals else rnd.choice([1, 2, 0.5, -1, 7])
            ops.append(("set", u, v, w, rnd.randrange(4)))
    return {"aspects": asp, "directed": directed, "fi": fi, "noedge": ne, "ops": ops}


@case(CASES, long_history, quick=250, rule="at least ten link entries are left")
def long_histories(spec, rec):
    net, r = make(spec)
    for i, op in enumerate(spec["ops"]):
        apply(net, r, op)
        if op[0] == "set":
            check(net[link(op[1], op[2])] == op[3], "after op", i, op, "reads", net[link(op[1], op[2])])
        if i % 25 == 0:
            same_state(net, r, check, "after op %d:" % i)
    same_state(net, r, check, "at the end:")
    read_all(net, r, "at the end:")
    rec.nontrivial(len(r.E) >= 10)
    rec.label("aspects%d" % r.aspects, "links%d0" % (len(r.E) // 10))
