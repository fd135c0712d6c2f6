"""N02: degrees, strengths and neighbour iteration of a general network are those of its links."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref, key, link
from pbt import gen
from pbt.props import n01

CASES = []


def match(v, dims):
    return dims is None or all(d is None or x == d for x, d in zip(v, dims))


def wsum(xs):
    return sum(xs)


def nodeviews(net, r, u):
    """All the ways of naming node u with a filter: (view, filter)."""
    return net[key(u)]


def check_view(r, node, u, dims, view_dims, what, call=True):
    """node: MultilayerNode; dims passed explicitly to deg/str when call, else None (view filter)."""
    a = dims if call and dims is not None else ()
    eff = dims if call and dims is not None else view_dims
    out = {v for v in r.out(u) if match(v, eff)}
    inn = {v for v in r.inn(u) if match(v, eff)}
    tot = out | inn
    sout = wsum(r.E[(u, v)] for v in out)
    sinn = wsum(r.E[(v, u)] for v in inn)
    if r.directed:
        exp = dict(deg=len(tot), deg_total=len(tot), deg_in=len(inn), deg_out=len(out),
                   str=sout + sinn, str_total=sout + sinn, str_in=sinn, str_out=sout)
    else:
        exp = dict(deg=len(out), deg_total=len(out), deg_in=len(out), deg_out=len(out),
                   str=sout, str_total=sout, str_in=sout, str_out=sout)
    for m, e in exp.items():
        g = getattr(node, m)(*a)
        check(abs(g - e) < 1e-9, what, "%s of %r with filter %r is %r, expected %r" % (m, u, eff, g, e))
    if not call or dims is None:
        check(len(node) == exp["deg"], what, "len of node object", len(node), exp["deg"])
        exps = dict(iter_out=out, iter_in=inn if r.directed else out, iter_total=tot if r.directed else out)
        for m, e in exps.items():
            got = list(getattr(node, m)())
            e = {key(x) for x in e}
            check(len(got) == len(set(got)), what, "%s of %r repeats a neighbour: %r" % (m, u, got))
            check(set(got) == e, what, "%s of %r with filter %r gives %r, expected %r" % (m, u, eff, got, e))
        got = list(node)
        e = {key(x) for x in exps["iter_total"]}
        check(set(got) == e and len(got) == len(e), what, "iteration over node %r gives %r, expected %r" % (u, got, e))


def all_filters(r, u, pick):
    """Filters over the network's own names: the interesting ones plus those selected by `pick`."""
    doms = [[None] + sorted(d, key=repr) for d in r.dims]
    fs = list(itertools.product(*doms))
    out = []
    for i in pick:
        out.append(fs[i % len(fs)])
    out.append(tuple(None for _ in doms))
    out.append((None,) + u[1:])            # intra-layer
    out.append((u[0],) + (None,) * (len(u) - 1))  # same node, other layers
    return out


def check_all(net, r, pick, what, univ=None):
    univ = univ or (list(itertools.product(*r.dims)) if all(r.dims) else [])
    for u in univ[:12]:
        node = net[key(u)]
        check_view(r, node, u, None, None, what)
        for f in all_filters(r, u, pick):
            check_view(r, node, u, f, None, what)
            # slicing notation: colons in the second index of a pair select, values filter
            idx = []
            for a in range(r.aspects + 1):
                idx += [u[a], slice(None, None, None) if f[a] is None else f[a]]
            if any(x is None for x in f):
                view = net[tuple(idx)]
                check_view(r, view, u, None, f, what + " slice", call=False)
        # documented short forms
        if r.aspects >= 1:
            v = net[(u[0], slice(None, None, None)) + u[1:]]
            check_view(r, v, u, None, (None,) + u[1:], what + " short slice", call=False)


def run(spec, rec):
    h, pick = spec
    net, r = n01.make(h)
    removed = False
    for op in h["ops"]:
        if op[0] == "set" and op[3] == r.noedge and (op[1], op[2]) in r.E:
            removed = True
        n01.apply(net, r, op)
    check_all(net, r, pick, "history")
    rec.nontrivial(len(r.E) >= 2)
    rec.label("aspects%d" % r.aspects, "directed" if r.directed else "undirected")
    if removed:
        rec.label("removal")
    if any(u == v for u, v in r.E):
        rec.label("selfloop")
    if r.directed and any((v, u) in r.E for u, v in r.E if u != v):
        rec.label("reciprocal")


picks = st.lists(st.integers(0, 10 ** 4), min_size=2, max_size=3)


@case(CASES, lambda: st.tuples(n01.history(False), picks), quick=400, rule="at least two links remain")
def undirected(spec, rec):
    run(spec, rec)


@case(CASES, lambda: st.tuples(n01.history(True), picks), quick=500, rule="at least two links remain")
def directed(spec, rec):
    run(spec, rec)


@case(CASES, lambda: st.tuples(gen.ml_spec(), picks, st.lists(st.integers(0, 999), max_size=6)), quick=400,
      rule="at least two links remain after removing the chosen ones")
def dense_then_remove(spec, rec):
    """Dense network, then links removed / rewritten in a chosen order: counters stay exact."""
    from pbt.model import build, ref
    s, pick, kill = spec
    net, r = build(s), ref(s)
    for k in kill:
        if s["edges"]:
            u, v, w = s["edges"][k % len(s["edges"])]
            if k % 3 == 0:
                u, v = v, u
            val = s["noedge"] if k % 4 else 9
            net[link(u, v)] = val
            r.set(u, v, val)
    check_all(net, r, pick, "dense")
    # handshake: every link is seen from both ends
    univ = list(itertools.product(*r.dims)) if all(r.dims) else []
    loops = sum(1 for (u, v) in r.E if u == v)
    if r.directed:
        so = sum(net[key(u)].deg_out() for u in univ)
        si = sum(net[key(u)].deg_in() for u in univ)
        check(so == si == len(r.E) == len(net.edges), "sum of out-degrees %d, of in-degrees %d, links %d, len(edges) %d" % (so, si, len(r.E), len(net.edges)))
    else:
        sd = sum(net[key(u)].deg() for u in univ)
        check(sd + loops == 2 * len(net.edges), "sum of degrees %d, loops %d, len(edges) %d" % (sd, loops, len(net.edges)))
    rec.nontrivial(len(r.E) >= 2)


@case(CASES, lambda: st.tuples(gen.big_spec(kind=("ml",), limit=50), picks), quick=40, rule="at least two links")
def larger_networks(x, rec):
    spec, pick = x
    net, r = build(spec), ref(spec)
    check_all(net, r, pick, "larger", sorted(r.nls, key=repr)[:25])
    rec.nontrivial(len(r.links()) >= 2)
    rec.label("asp%d" % r.aspects, "directed" if r.directed else "undirected", "fi" if r.fi else "nonfi")

