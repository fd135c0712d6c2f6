"""T02: subnet gives the induced subnetwork; it and its enumeration are independent of the original."""
import itertools
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import Ref, build, ref, key, link, same_state, add_couplings, observe, links_of
from pbt import gen

CASES = []


def induced(r, sel, cs=None):
    """r: reference without couplings; sel: list of selected names per dimension (None = all)."""
    sel = [set(r.dims[a]) if s is None else set(s) & r.dims[a] for a, s in enumerate(sel)]
    out = Ref(r.aspects, r.directed, r.noedge, r.fi)
    for a in range(1, r.aspects + 1):
        out.dims[a] = set(sel[a])
    inside = lambda u: all(x in sel[a] for a, x in enumerate(u))
    if r.fi:
        out.dims[0] = set(sel[0])
    else:
        out._nls = {u for u in r.nls if inside(u)}
        out.dims[0] = {u[0] for u in out._nls}
    out.E = {(u, v): w for (u, v), w in r.E.items() if inside(u) and inside(v)}
    if cs is not None:
        add_couplings(out, cs)
    return out


@st.composite
def sub_input(draw):
    spec = draw(st.one_of(gen.ml_spec(noedge=(0, 0, -1), min_nodes=2), gen.mx_spec(noedge=(0, 0, -1), min_nodes=2), gen.ml_spec(), gen.mx_spec(), gen.ml_spec(min_nodes=3, dense=True), gen.mx_spec(min_nodes=3, dense=True)))
    sel = []
    for a, names in enumerate([spec["nodes"]] + spec["layers"]):
        if draw(st.integers(0, 5)) == 0:
            sel.append(None)
        else:
            keep = draw(st.sampled_from([9, 8, 6, 4]))
            bits = draw(st.lists(st.integers(0, 9), min_size=len(names), max_size=len(names)))
            s = [n for n, b in zip(names, bits) if b < keep]
            if draw(st.integers(0, 3)) == 0:
                s.append("nonexistent")
            if s and draw(st.integers(0, 3)) == 0:
                s.append(s[0])
            sel.append(s)
    target = draw(st.sampled_from([None, None, "same", "ml", "nonfi"]))
    return spec, sel, target, draw(st.sampled_from([False, False, True]))


def compare(out, r, cs, what):
    """Like same_state, but nodes without any node-layer may or may not be listed."""
    if not r.fi:
        extra = set(out.slices[0]) - r.dims[0]
        check(not extra or not (extra & {u[0] for u in out.iter_node_layers()}), what, "invented node-layers", extra)
        r = r.copy()
        r.dims[0] |= extra
    same_state(out, r, check, what)


@case(CASES, sub_input, quick=1500, rule="the selection keeps some links and drops some")
def induced_subnet(x, rec):
    from pymnet import transforms
    from pymnet.net import MultilayerNetwork, MultiplexNetwork
    spec, sel, target, nolinks = x
    net = build(spec)
    base, g = ref(spec, couplings=False), ref(spec)
    cs = spec.get("couplings")
    kw = {}
    T = None
    mx = spec["kind"] == "mx"
    if target == "same":
        T = (MultiplexNetwork(couplings=net.couplings, directed=net.directed, noEdge=net.noEdge, fullyInterconnected=net.fullyInterconnected)
             if mx else MultilayerNetwork(aspects=net.aspects, directed=net.directed, noEdge=net.noEdge, fullyInterconnected=net.fullyInterconnected))
    elif target == "ml":
        T = MultilayerNetwork(aspects=net.aspects, directed=net.directed, noEdge=net.noEdge, fullyInterconnected=net.fullyInterconnected)
    elif target == "nonfi" and net.aspects > 0:
        T = MultilayerNetwork(aspects=net.aspects, directed=net.directed, noEdge=net.noEdge, fullyInterconnected=False)
    if T is not None:
        kw["newNet"] = T
    if nolinks:
        kw["nolinks"] = True
    out = transforms.subnet(net, *sel, **kw)
    if T is not None:
        check(out is T, "the given network is not the one returned")
    if isinstance(out, MultiplexNetwork):
        check(mx and out.aspects == net.aspects, "type of the subnetwork")
        r = induced(base, sel)
        if nolinks:
            r.E = {}
        add_couplings(r, cs)
    else:
        check(not mx or T is not None, "subnetwork of a multiplex network is not a multiplex network")
        r = induced(g, sel)
        if nolinks:
            r.E = {}
        if target == "nonfi" and T is not None:
            r._nls = r.nls
            r.fi = False
    check(out.directed == net.directed and out.noEdge == net.noEdge, "parameters of the subnetwork")
    if T is None:
        check(type(out) is type(net) and out.fullyInterconnected == net.fullyInterconnected, "kind of the subnetwork")
    compare(out, r, cs, "subnet(%r, nolinks=%r, newNet=%s):" % (sel, nolinks, target))
    same_state(net, g, check, "original after subnet:")
    # independence
    for e in list(out.edges):
        if e[0] != e[1] or not isinstance(out, MultiplexNetwork):
            if not isinstance(out, MultiplexNetwork) or e[2:-1:2] == e[3:-1:2]:
                out[e[:-1]] = 77
    out.add_node("brand-new")
    same_state(net, g, check, "original after the subnetwork was changed:")
    kept = len(r.links())
    rec.nontrivial(0 < kept < len(g.links()))
    rec.label(spec["kind"], "target-" + str(target), "nolinks" if nolinks else "links", "fi" if spec["fi"] else "nonfi")


@case(CASES, lambda: st.one_of(gen.ml_spec(), gen.mx_spec()), quick=300, rule="the network has two links")
def whole_network(spec, rec):
    """Selecting everything copies the network."""
    from pymnet import transforms
    net = build(spec)
    names = [list(spec["nodes"])] + [list(l) for l in spec["layers"]]
    r = ref(spec)
    a = transforms.subnet(net, *[None] * (net.aspects + 1))
    b = transforms.subnet(net, *[list(d) for d in r.dims])
    compare(a, induced(r, [None] * (net.aspects + 1)), None, "subnet with None:")
    check(a == b, "None and listing every name select differently")
    if net.aspects:
        check(raises(AssertionError, lambda: transforms.subnet(net, names[0])), "missing layer selections are accepted")
    rec.nontrivial(len(r.links()) >= 2)


@case(CASES, lambda: st.tuples(st.one_of(gen.ml_spec(loops=False, max_nodes=4, max_layers=2), gen.mx_spec(max_nodes=4, max_layers=2)),
                               st.lists(st.lists(st.sampled_from([1, 1, 1, 1, 0]), min_size=4, max_size=4), min_size=2, max_size=2)), quick=300,
      rule="the first step keeps something the second drops, and links remain")
def nested(x, rec):
    """Taking a subnetwork of a subnetwork is taking the intersection."""
    from pymnet import transforms
    spec, masks = x
    net = build(spec)
    names = [list(spec["nodes"])] + [list(l) for l in spec["layers"]]
    s1 = [[n for i, n in enumerate(ns) if masks[0][(i + a) % 4]] for a, ns in enumerate(names)]
    s2 = [[n for i, n in enumerate(ns) if masks[1][(i + a) % 4]] for a, ns in enumerate(names)]
    a = transforms.subnet(transforms.subnet(net, *s1), *s2)
    b = transforms.subnet(net, *[[n for n in p if n in q] for p, q in zip(s1, s2)])
    check(a == b, "subnet of subnet differs from the subnet of the intersection")
    rec.nontrivial(any(set(p) - set(q) for p, q in zip(s1, s2)) and len(b.edges) > 0)


def canon(net):
    nls, E = observe(net)
    return (tuple(tuple(sorted(d, key=repr)) for d in net.slices), tuple(sorted(nls, key=repr)),
            tuple(sorted(((u, v, w) for (u, v), w in E.items()), key=repr)))


@st.composite
def small_for_iter(draw):
    spec = draw(st.one_of(gen.ml_spec(max_nodes=3, max_layers=2, aspects=(0, 1), loops=False, dense=False),
                          gen.mx_spec(max_nodes=3, max_layers=2, aspects=(1,), dense=False),
                          gen.ml_spec(max_nodes=2, max_layers=2, aspects=(2,), loops=False, dense=False),
                          gen.mx_spec(max_nodes=3, max_layers=2, aspects=(2,), dense=False)))
    spec["edges"] = spec["edges"][:5 if spec["aspects"] < 2 else 3]
    rem = draw(st.sampled_from([[], [0], [0]] + ([[1], [0, 1]] if spec["aspects"] else []) +
                               ([[2], [2, 1], [0, 2], [0, 1, 2]] if spec["aspects"] > 1 else [])))
    return spec, rem, draw(st.booleans())


@case(CASES, small_for_iter, quick=300, rule="more than three subnetworks")
def subnet_enumeration(x, rec):
    """subnet_iter yields every subnetwork exactly once."""
    from pymnet import transforms
    spec, rem, edges = x
    net = build(spec)
    base, g = ref(spec, couplings=False), ref(spec)
    cs = spec.get("couplings")
    kw = dict(remove_elayers=rem, remove_edges=edges)
    if len(spec["edges"]) % 2:      # the defaults
        kw = {k: v for k, v in kw.items() if v != dict(remove_elayers=[], remove_edges=True)[k]}
    got = Counter(canon(s) for s in transforms.subnet_iter(net, **kw))
    opts = []
    for a in range(net.aspects + 1):
        d = sorted(base.dims[a], key=repr)
        if a in rem:
            opts.append([c for k in range(1, len(d) + 1) for c in itertools.combinations(d, k)])
        else:
            opts.append([d])
    exp = Counter()
    for sel in itertools.product(*opts):
        r = induced(base, sel)
        links = list(r.links().items())
        subsets = itertools.chain.from_iterable(itertools.combinations(links, k) for k in range(len(links) + 1)) if edges else [links]
        for ss in subsets:
            rr = r.copy()
            rr.E = {}
            for k, w in ss:
                if r.directed:
                    rr.E[k] = w
                else:
                    kk = list(k)
                    rr.E[(kk[0], kk[-1])] = w
                    rr.E[(kk[-1], kk[0])] = w
            if cs is not None:
                add_couplings(rr, cs)
            exp[(tuple(tuple(sorted(d, key=repr)) for d in rr.dims), tuple(sorted(rr.nls, key=repr)),
                 tuple(sorted(((u, v, w) for (u, v), w in rr.E.items()), key=repr)))] += 1
    # node sets of non-aligned networks: compare node-layers and links only
    strip = (lambda c: Counter({k: v for k, v in c.items()})) if g.fi else \
        (lambda c: sum((Counter({(k[0][1:],) + k[1:]: v}) for k, v in c.items()), Counter()))
    got, exp = strip(got), strip(exp)
    check(set(got) == set(exp), "subnetworks missing: %r; unexpected: %r" % (list(set(exp) - set(got))[:2], list(set(got) - set(exp))[:2]))
    check(got == exp, "some subnetwork is produced a wrong number of times")
    same_state(net, g, check, "original after subnet_iter:")
    rec.nontrivial(len(exp) > 3)
    rec.label(spec["kind"], "remove%s" % rem, "edges" if edges else "induced")


@st.composite
def big_sub(draw):
    import random
    spec = draw(gen.big_spec(noedge=(0, -1), limit=100))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    sel = []
    for names in [spec["nodes"]] + spec["layers"]:
        keep = draw(st.sampled_from([0.9, 0.5, 0.2, None]))
        sel.append(None if keep is None else [x for x in names if rnd.random() < keep])
    return spec, sel, draw(st.sampled_from([None, None, "same", "ml", "nonfi"])), draw(st.sampled_from([False, False, True]))


gen.again(CASES, "larger_induced_subnet", induced_subnet, big_sub(), quick=50, rule="the selection keeps some links and drops some")

