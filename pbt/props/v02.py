"""V02: a drawn figure shows exactly the network, each element with the property value asked for."""
import math, random
from hypothesis import strategies as st
from pbt.harness import case, check, fail, raises
from pbt.model import build, ref
from pbt import gen

CASES = []
ASSUMPTIONS = ["Matplotlib backend (Agg), read through the artists of the returned figure; positive node sizes, padding > 0, noEdge 0, no self-links."]

POS = gen.weights_pos
SL = (gen.LSTRS, gen.LINTS)       # the default layer order is by name
NETS = st.one_of(gen.mx_spec(aspects=(1,), layer_pools=SL, weights=POS, min_nodes=2, max_nodes=4, dense=True), gen.ml_spec(aspects=(1,), layer_pools=SL, weights=POS, min_nodes=2, max_nodes=4, loops=False, dense=True),
                 gen.mx_spec(aspects=(1,), layer_pools=SL, weights=POS, min_nodes=1, max_nodes=4, max_layers=4), gen.ml_spec(aspects=(1,), layer_pools=SL, weights=POS, min_nodes=1, max_nodes=4, max_layers=4, loops=False))
COLORS = ["red", "#29b7c1", "lime", (0.25, 0.5, 0.75), "k"]
STYLES = ["-", "--", ":", "-."]
FONTS = ["normal", "italic", "oblique"]


def plt():
    import matplotlib.pyplot as p
    return p


# ------------------------------------------------------------------------------- the scene drawn
def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(round(x, 6) for x in to_rgba(c))


def r6(*xs):
    return tuple(round(float(x), 5) + 0.0 for x in xs)


def scene(ax):
    """-> (plates, discs, texts, lines); a plate is a rectangle, a disc a circle."""
    plates, discs = [], []
    for p in ax.patches:
        pts = p._segment3d
        xs, ys, zs = zip(*[tuple(float(v) for v in q) for q in pts])
        check(max(zs) - min(zs) < 1e-9, "a layer or a node is not level:", min(zs), max(zs))
        fc = rgba(p.get_facecolor())
        row = {"x": (min(xs) + max(xs)) / 2, "y": (min(ys) + max(ys)) / 2, "w": max(xs) - min(xs), "h": max(ys) - min(ys), "z": zs[0], "color": fc, "zo": p.zorder}
        (plates if len(pts) <= 5 else discs).append(row)
    texts = [{"text": t.get_text(), "pos": tuple(float(x) for x in t.get_position_3d()), "color": rgba(t.get_color()), "size": t.get_size(),
              "style": t.get_style(), "alpha": t.get_alpha(), "zo": t.zorder} for t in ax.texts]
    lines = []
    for l in ax.lines:
        X, Y, Z = l.get_data_3d()
        check(len(X) == 2, "a line has", len(X), "points")
        a, b = [tuple(float(v) for v in q) for q in zip(X, Y, Z)]
        lines.append({"a": a, "b": b, "color": rgba(l.get_color()), "width": l.get_linewidth(), "style": l.get_linestyle(), "alpha": l.get_alpha(), "zo": l.zorder})
    return plates, discs, texts, lines


def draw(net, seed=0, **kw):
    import numpy
    from pymnet.visuals.drawcore import draw as d
    random.seed(seed)
    numpy.random.seed(seed)
    return d(net, **kw)


def coordinates(net, kw, seed):
    import numpy
    from pymnet.visuals import layouts as L
    random.seed(seed)
    numpy.random.seed(seed)
    n, nl = L.get_layout(kw.get("layout", "spring"), net, alignedNodes=kw.get("alignedNodes", True))
    n, nl = dict(n), dict(nl)
    n.update(kw.get("nodeCoords", {}))
    nl.update(kw.get("nodelayerCoords", {}))
    return lambda u: tuple(float(x) for x in (nl[u] if u in nl else n[u[0]]))


# ------------------------------------------------------------------------------- property values
class Props:
    """What the documentation says of the property parameters: dict, then rule, then default."""
    BASE = {
        "layerColor": "#29b7c1", "layerAlpha": 0.75, "layerLabel": None, "layerLabelLoc": (1, 1), "layerLabelSize": None, "layerLabelColor": "k", "layerLabelStyle": "normal",
        "layerLabelAlpha": 1.0, "layerOrder": 0, "nodeLabel": None, "nodeLabelSize": None, "nodeLabelColor": "k", "nodeLabelStyle": "normal", "nodeLabelAlpha": 1.0,
        "nodeSize": None, "nodeColor": "black", "edgeColor": "gray", "edgeWidth": 1.5, "edgeAlpha": 1, "edgeZ": 0, "edgeStyle": "-"}
    RULES = {"layerLabel": {"rule": "name"}, "layerOrder": {"rule": "name"}, "nodeLabel": {"rule": "nodename"}, "nodeSize": {"rule": "scaled", "scalecoeff": 0.2},
             "edgeStyle": {"rule": "edgetype", "intra": "-", "inter": ":"}}

    def __init__(self, r, kw):
        self.r, self.kw = r, kw
        self.n = len(r.dims[0])

    def __call__(self, prop, item):
        d, rule, default = self.kw.get(prop + "Dict", {}), self.kw.get(prop + "Rule", self.RULES.get(prop, {})), self.kw.get("default" + prop[0].upper() + prop[1:], self.BASE[prop])
        if prop.startswith("edge") and not self.r.directed and item not in d and (item[1], item[0]) in d:
            return d[(item[1], item[0])]
        if item in d:
            return d[item]
        if not rule:
            return default
        v = self.by(item, rule["rule"], rule)
        if v is None:
            return default
        if "propscale" in rule:
            v = v * rule["propscale"] / math.sqrt(self.n)
        if "f" in rule:
            v = rule["f"](v)
        if rule.get("mapping"):
            v = rule[v]
        if "scaleby" in rule:
            s = rule["scaleby"]
            v = v * (rule[self.by(item, s, rule)] if isinstance(s, str) else s)
        if "colormap" in rule:
            v = plt().get_cmap(rule["colormap"])(v)
        return v

    def by(self, item, name, rule):
        if name == "name":
            return item
        if name == "nodename":
            return item[0]
        if name == "degree":
            return len(self.r.tot(item))
        if name == "layer":
            if isinstance(item[0], tuple):
                return item[0][1] if item[0][1] == item[1][1] else "interlayer"
            return item[1]
        if name == "scaled":
            return rule.get("scalecoeff", 1.0) / math.sqrt(self.n)
        if name == "edgetype":
            return rule.get("intra" if item[0][1] == item[1][1] else "inter")
        if name == "edgeweight":
            return self.r.w(*item)
        if name == "sourcedestweight":
            return item[0], item[1], self.r.w(*item)
        raise KeyError(name)


def expected(spec, net, kw, seed):
    r = ref(spec)
    P = Props(r, kw)
    gap, pad = kw.get("layergap", 1.0), kw.get("layerPadding", 0.05)
    at = coordinates(net, kw, seed)
    order = sorted(r.dims[1], key=lambda l: P("layerOrder", l))
    z = {l: (len(order) - 1 - i) * gap for i, l in enumerate(order)}
    size = {u: P("nodeSize", u) for u in r.nls}
    lo = [min(at(u)[d] - size[u] / 2. for u in r.nls) for d in (0, 1)]
    hi = [max(at(u)[d] + size[u] / 2. for u in r.nls) for d in (0, 1)]
    place = {u: tuple((at(u)[d] - lo[d] + pad) / (hi[d] - lo[d] + 2 * pad) for d in (0, 1)) + (z[u[1]],) for u in r.nls}
    return r, P, z, size, place


def near(a, b):
    return abs(a - b) < 1e-5


def same(what, got, want):
    """Two multisets of rows; a row is a tuple whose floats are compared with a tolerance."""
    got = [_canon(g) for g in got]
    want = [_canon(g) for g in want]
    rest = list(got)
    for w in want:
        for g in rest:
            if _eq(w, g):
                rest.remove(g)
                break
        else:
            fail(what, w, "is missing; drawn are", got)
    check(not rest, what, "drawn without reason:", rest)


def _canon(row):
    out = []
    for x in row:
        if isinstance(x, tuple):
            out.extend(_canon(x))
        else:
            out.append(float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x)
    return tuple(out)


def _eq(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-5 if isinstance(x, float) and isinstance(y, float) else x == y for x, y in zip(a, b))


def verify(spec, kw, seed, fig, ax=None, nodes=True, edges=True):
    net = build(spec)
    r, P, z, size, place = expected(spec, net, kw, seed)
    gap = kw.get("layergap", 1.0)
    ax = ax if ax is not None else fig.axes[0]
    plates, discs, texts, lines = scene(ax)
    # layers
    shape = kw.get("layershape", "rectangle")
    visible = [l for l in z if P("layerAlpha", l) != 0]
    want = [(0.5, 0.5, 1, 1, z[l], rgba(P("layerColor", l))[:3] + (P("layerAlpha", l),)) for l in visible]
    row = lambda d: (d["x"], d["y"], d["w"], d["h"], d["z"], d["color"])
    want_nodes = []
    for u in r.nls:
        if size[u] > 0:
            x, y, zz = place[u]
            want_nodes.append((x, y, size[u], size[u], zz, rgba(P("nodeColor", u))))
    if shape == "rectangle":
        same("layer", [row(p) for p in plates], want)
        same("node", [row(p) for p in discs], want_nodes)
    else:
        check(not plates, "rectangles were drawn")
        same("layer or node", [row(p) for p in discs], want + want_nodes)
    # labels
    from matplotlib.font_manager import FontProperties
    trow = lambda t: (t["text"], t["pos"], t["color"], t["size"], t["style"], t["alpha"])
    pts = lambda s: FontProperties(size=s).get_size_in_points()
    want = []
    for l in visible:
        if P("layerLabel", l) is not None:
            want.append((str(P("layerLabel", l)), tuple(P("layerLabelLoc", l)) + (z[l],), rgba(P("layerLabelColor", l)), pts(P("layerLabelSize", l)), P("layerLabelStyle", l), P("layerLabelAlpha", l)))
    for u in r.nls:
        if size[u] > 0 and P("nodeLabel", u) is not None:
            x, y, zz = place[u]
            want.append((str(P("nodeLabel", u)), (x + size[u] / 2, y + size[u] / 2, zz), rgba(P("nodeLabelColor", u)), pts(P("nodeLabelSize", u)), P("nodeLabelStyle", u), P("nodeLabelAlpha", u)))
    for t in texts:   # node labels hang a hair's breadth above the node
        zs = [v for v in z.values() if -1e-9 <= t["pos"][2] - v < 0.01]
        check(zs, "a label is at height", t["pos"][2])
        t["pos"] = t["pos"][:2] + (zs[0],)
    same("label", [trow(t) for t in texts], want)
    # links: one line for each gap between layers, whichever end it is drawn from
    want, raised, drawn = {}, {}, {}
    for (u, v), w in r.E.items():
        if u == v:
            continue
        a, b = place[u], place[v]
        n = max(1, int(round(abs(a[2] - b[2]) / gap)))
        at = lambda i: tuple(p + (q - p) * i / n for p, q in zip(a, b))
        e = (u, v)
        for i in range(n):
            p, q = sorted([r6(*at(i)), r6(*at(i + 1))])
            k = (p, q, rgba(P("edgeColor", e)), float(P("edgeWidth", e)), P("edgeStyle", e), float(P("edgeAlpha", e)))
            want[k] = e
            raised.setdefault(k, set()).add(P("edgeZ", e))
    got = {}
    for l in lines:
        p, q = sorted([r6(*l["a"]), r6(*l["b"])])
        got[(p, q, l["color"], float(l["width"]), l["style"], float(l["alpha"]))] = l
    rest = list(got)
    for w, e in want.items():
        g = [k for k in got if _eqline(w, k)]
        check(g, "the link", e, "is not drawn as", w, "lines:", list(got))
        rest = [k for k in rest if k not in g]
        if len(raised[w]) == 1 and len(g) == 1:
            drawn.setdefault(frozenset((w[0][2], w[1][2])), []).append((next(iter(raised[w])), got[g[0]]["zo"], e))
    for rows in drawn.values():   # between the same heights the links with a larger edgeZ cover the others
        for z1, o1, e1 in rows:
            for z2, o2, e2 in rows:
                check(z1 <= z2 or o1 > o2, "the link", e1, "with edgeZ", z1, "does not cover", e2, "with", z2)
    check(not rest, "lines without a link:", rest)
    # what covers what: layers, their nodes, their labels, and then the next layer
    eps = 1e-6
    by = lambda v: min(z.values(), key=lambda q: abs(q - v))
    for p in plates:
        check(all(d["zo"] > p["zo"] + eps for d in discs if by(d["z"]) >= p["z"] - eps), "a node is hidden under its layer or a lower one")
        check(all(d["zo"] < p["zo"] for d in discs if by(d["z"]) < p["z"] - eps), "a node shines through an upper layer")
        check(all(q["zo"] > p["zo"] for q in plates if q["z"] > p["z"] + eps), "a layer covers an upper one")
        for l in lines:
            top, low = max(l["a"][2], l["b"][2]), min(l["a"][2], l["b"][2])
            check(l["zo"] > p["zo"] - eps or low < p["z"] - eps, "a link is hidden under its layer or a lower one")
            check(l["zo"] < p["zo"] or top > p["z"] - gap / 4 and low >= p["z"] - eps, "a link shines through an upper layer")
    for d in discs:
        if shape == "rectangle":
            check(all(l["zo"] < d["zo"] or near(P("edgeZ", next(iter(r.E))), 1) or max(l["a"][2], l["b"][2]) > d["z"] + eps for l in lines) if not (kw.get("edgeZDict") or kw.get("edgeZRule") or kw.get("defaultEdgeZ")) else True,
                  "a link covers a node of its layer")
    return r


def _eqline(w, g):
    (p, q, *x), (p2, q2, *x2) = w, g
    pt = lambda s, t: all(abs(i - j) < 3e-5 for i, j in zip(s, t))
    return x == x2 and ((pt(p, p2) and pt(q, q2)) or (pt(p, q2) and pt(q, p2)))


def run(spec, kw, seed, rec, **more):
    import copy
    net = build(spec)
    given = copy.deepcopy(kw)
    try:
        fig = draw(net, seed, **kw, **more)
        check(fig is not None and hasattr(fig, "savefig"), "draw returned", fig)
        r = verify(spec, kw, seed, fig, ax=more.get("ax"))
        a = more.get("ax") or fig.axes[0]
        check(near(a.azim, kw.get("azim", -51)), "azim is", a.azim)
        check(near(a.elev, min(179, max(0, kw.get("elev", 22)))), "elev is", a.elev)
        check(net == build(spec), "the network was modified")
        for k in given:
            check(repr(kw[k]) == repr(given[k]) or callable(kw[k]) or any(callable(x) for x in (kw[k].values() if isinstance(kw[k], dict) else [])), "the parameter", k, "was changed to", kw[k])
    finally:
        plt().close("all")
    return r


def some(draw, items, values, p=1):
    return {i: draw(st.sampled_from(values)) for i in items if draw(st.integers(0, 2)) < p}


def put(draw, kw, prop, items, values, rules=(), p=1):
    """Randomly set propDict, propRule and defaultProp."""
    how = draw(st.integers(0, 7))
    if how & 1:
        kw[prop + "Dict"] = some(draw, items, values, draw(st.integers(1, 2)))
    if how & 2 and rules:
        kw[prop + "Rule"] = dict(draw(st.sampled_from(list(rules))))
    elif how & 6 == 6:
        kw[prop + "Rule"] = {}
    if how & 4:
        kw["default" + prop[0].upper() + prop[1:]] = draw(st.sampled_from(values))


def half(x):
    return x / 2.0


def bylabel(x):
    return "n%s" % (x,)


def shade(x):
    return (hash(str(x)) % 7) / 7.0 if not isinstance(x, (int, float)) else (x % 7) / 7.0


def length(x):
    return 0.5 + len(repr(x)) / 10.0


def items(spec):
    r = ref(spec)
    ks = lambda s: sorted(s, key=repr)
    es = [e for e in ks(r.E) if r.directed or repr(e[0]) <= repr(e[1])]
    return r, ks(r.dims[0]), ks(r.dims[1]), ks(r.nls), es


@st.composite
def coords_case(draw, nets=NETS):
    spec = draw(nets)
    r, ns, ls, us, es = items(spec)
    kw = {"layout": draw(st.sampled_from(["circular", "circular", "shell", "random", "fr", "spring"]))}
    c = st.tuples(st.integers(-8, 8), st.integers(-8, 8)).map(lambda t: (t[0] / 4, t[1] / 4))
    how = draw(st.integers(0, 7))
    if how & 1:
        kw["nodeCoords"] = {n: draw(c) for n in ns if draw(st.booleans())}
    if how & 2:
        kw["nodelayerCoords"] = {u: draw(c) for u in us if draw(st.booleans())}
    if kw["layout"] in ("random", "fr") and how & 4:
        kw["alignedNodes"] = False
    if draw(st.booleans()):
        kw["layergap"] = draw(st.sampled_from([0.5, 2, 1.25]))
    if draw(st.booleans()):
        kw["layerPadding"] = draw(st.sampled_from([0.01, 0.5]))
    put(draw, kw, "nodeSize", us, [0.1, 0.3, 0.02, 0.005])
    if kw.get("nodeSizeRule") == {} and kw.get("defaultNodeSize") is None:
        kw["defaultNodeSize"] = 0.05
    if draw(st.booleans()):
        kw["azim"], kw["elev"] = draw(st.sampled_from([(0, 90), (30, -20), (200, 179), (-51, 300)]))
    if draw(st.booleans()):
        kw["layershape"] = draw(st.sampled_from(["rectangle", "circle"]))
    return spec, kw, draw(st.integers(0, 99))


@case(CASES, coords_case(), quick=250, rule="two layers or more, a link, and given coordinates or sizes")
def places(t, rec):
    """Nodes at their (given or laid out) coordinates on their layers, links between them, camera, padding, gaps."""
    spec, kw, seed = t
    r = run(spec, kw, seed, rec)
    rec.nontrivial(len(r.dims[1]) > 1 and bool(r.E) and any(k.startswith("node") for k in kw))
    rec.label(kw["layout"], "given" if "nodeCoords" in kw or "nodelayerCoords" in kw else "laid out", "directed" if r.directed else "undirected")


@st.composite
def layers_case(draw, nets=NETS):
    spec = draw(nets)
    r, ns, ls, us, es = items(spec)
    kw = {"layout": "circular", "layergap": draw(st.sampled_from([1.0, 0.5]))}
    put(draw, kw, "layerColor", ls, COLORS, [{"rule": "name", "f": shade, "colormap": "jet"}, dict([("rule", "name"), ("mapping", True)] + [(l, COLORS[i % 5]) for i, l in enumerate(ls)])])
    put(draw, kw, "layerAlpha", ls, [0.5, 0, 1, 0.125], [{"rule": "name", "f": shade}])
    put(draw, kw, "layerLabel", ls, ["one", "two", 3], [{"rule": "name", "f": bylabel}, {"rule": "name"}])
    put(draw, kw, "layerLabelLoc", ls, [(0, 0), (1, 0), (0.5, 0.25)])
    put(draw, kw, "layerLabelSize", ls, [5, 12, 20], [{"rule": "name", "f": length, "scaleby": 10}])
    put(draw, kw, "layerLabelColor", ls, COLORS, [{"rule": "name", "f": shade, "colormap": "viridis"}])
    put(draw, kw, "layerLabelStyle", ls, FONTS)
    put(draw, kw, "layerLabelAlpha", ls, [0.25, 0.5, 1], [{"rule": "name", "f": shade}])
    how = draw(st.integers(0, 3))
    if how == 1:
        perm = draw(st.permutations(range(len(ls))))
        kw["layerOrderDict"] = dict(zip(ls, perm))
    elif how == 2:
        perm = draw(st.permutations(range(len(ls))))
        kw["layerOrderRule"] = dict([("rule", "name"), ("mapping", True)] + list(zip(ls, perm)))
    if kw.get("layerLabelRule") == {} and not draw(st.booleans()):
        del kw["layerLabelRule"]
    return spec, kw, 0


@case(CASES, layers_case(), quick=200, rule="two layers or more with properties set")
def layers(t, rec):
    """Order, colour, transparency and labels of the layers."""
    spec, kw, seed = t
    r = run(spec, kw, seed, rec)
    rec.nontrivial(len(r.dims[1]) > 1 and len(kw) > 3)
    rec.label(*[k for k in kw if k.endswith("Rule")])


@st.composite
def nodes_case(draw, nets=NETS):
    spec = draw(nets)
    r, ns, ls, us, es = items(spec)
    kw = {"layout": "circular"}
    cmap = [{"rule": "degree", "scaleby": 0.2, "colormap": "jet"}, {"rule": "name", "f": shade, "colormap": "viridis"}, dict([("rule", "layer"), ("mapping", True)] + [(l, COLORS[i % 5]) for i, l in enumerate(ls)])]
    put(draw, kw, "nodeColor", us, COLORS, cmap)
    sizes = [{"rule": "degree", "scaleby": 0.05}, {"rule": "degree", "propscale": 0.1}, {"rule": "scaled"}, {"rule": "scaled", "scalecoeff": 0.4}, {"rule": "degree", "f": half, "propscale": 0.2, "scaleby": 0.5},
             {"rule": "layer", "f": length, "scaleby": 0.1}, dict([("rule", "scaled"), ("scalecoeff", 0.3), ("scaleby", "layer")] + [(l, i + 0.5) for i, l in enumerate(ls)]),
             dict([("rule", "scaled"), ("scaleby", "degree")] + [(d, (d + 1) / 4.0) for d in range(40)])]
    put(draw, kw, "nodeSize", us, [0.1, 0.3, 0.02, 0.005, 0], sizes)
    if kw.get("nodeSizeRule") == {} and kw.get("defaultNodeSize") is None:
        kw["defaultNodeSize"] = 0.05
    put(draw, kw, "nodeLabel", us, ["one", "two", 3], [{"rule": "name"}, {"rule": "degree"}, {"rule": "nodename", "f": bylabel}, {"rule": "layer"}])
    put(draw, kw, "nodeLabelSize", us, [5, 12, 20], [{"rule": "degree", "f": length, "scaleby": 5}])
    put(draw, kw, "nodeLabelColor", us, COLORS, cmap)
    put(draw, kw, "nodeLabelStyle", us, FONTS, [dict([("rule", "layer"), ("mapping", True)] + [(l, FONTS[i % 3]) for i, l in enumerate(ls)])])
    put(draw, kw, "nodeLabelAlpha", us, [0.25, 0.5, 1], [{"rule": "name", "f": shade}])
    return spec, kw, 0


@case(CASES, nodes_case(), quick=250, rule="three nodes or more with properties set")
def nodes(t, rec):
    """Size, colour and label of every node by dictionary, rule (name, degree, layer, scaled...), modifier or default."""
    spec, kw, seed = t
    r = run(spec, kw, seed, rec)
    rec.nontrivial(len(r.nls) > 2 and len(kw) > 3)
    rec.label(*[k + ":" + v["rule"] for k, v in kw.items() if k.endswith("Rule") and v])


def wsum(x):
    return 0.5 + x[2]


@st.composite
def edges_case(draw, nets=NETS):
    spec = draw(nets)
    r, ns, ls, us, es = items(spec)
    kw = {"layout": "circular", "layergap": draw(st.sampled_from([1.0, 0.7]))}
    keys = [e if draw(st.booleans()) or r.directed else (e[1], e[0]) for e in es]
    inter = [("interlayer", "magenta")]
    put(draw, kw, "edgeColor", keys, COLORS, [{"rule": "edgetype", "intra": "red", "inter": "lime"}, {"rule": "edgetype", "inter": "lime"}, {"rule": "edgetype", "intra": "red"},
                                              {"rule": "edgeweight", "scaleby": 0.1, "colormap": "jet"}, dict([("rule", "layer"), ("mapping", True)] + inter + [(l, COLORS[i % 5]) for i, l in enumerate(ls)])])
    put(draw, kw, "edgeWidth", keys, [0.5, 1, 4], [{"rule": "edgeweight"}, {"rule": "edgeweight", "scaleby": 2}, {"rule": "edgetype", "intra": 3.0}, {"rule": "sourcedestweight", "f": wsum}, {"rule": "edgeweight", "f": half},
                                                   {"rule": "edgetype", "intra": 2.0, "inter": 0.25, "scaleby": 3}])
    put(draw, kw, "edgeAlpha", keys, [0.25, 1, 0.5], [{"rule": "edgetype", "inter": 0.125}, {"rule": "edgeweight", "f": shade}])
    put(draw, kw, "edgeStyle", keys, STYLES, [{"rule": "edgetype", "intra": "--", "inter": "-"}, {"rule": "edgetype", "inter": "--"}])
    put(draw, kw, "edgeZ", keys, [0, 1, 0.5], [{"rule": "edgetype", "inter": 1}])
    return spec, kw, 0


@case(CASES, edges_case(), quick=250, rule="three links or more with properties set")
def edges(t, rec):
    """Colour, width, transparency and style of every link, in networks directed or not."""
    spec, kw, seed = t
    r = run(spec, kw, seed, rec)
    rec.nontrivial(len(r.links()) > 2 and len(kw) > 3)
    rec.label("directed" if r.directed else "undirected", *[k + ":" + v["rule"] for k, v in kw.items() if k.endswith("Rule") and v])


@st.composite
def order_case(draw):
    return draw(NETS), draw(st.lists(st.sampled_from(["red", "lime", "blue", "k", "magenta"]), min_size=1, max_size=4)), draw(st.booleans())


@case(CASES, order_case(), quick=80, rule="more elements than values")
def sequences(t, rec):
    """The "order" rule deals the values of its sequence out in turn."""
    spec, seq, on_layers = t
    r = ref(spec)
    net = build(spec)
    try:
        fig = draw(net, layout="circular", **{("layerColorRule" if on_layers else "nodeColorRule"): {"rule": "order", "sequence": list(seq)}})
        plates, discs, texts, lines = scene(fig.axes[0])
        got = sorted(x["color"][:3] for x in (plates if on_layers else discs))
        n = len(r.dims[1]) if on_layers else len(r.nls)
        check(got == sorted(rgba(seq[i % len(seq)])[:3] for i in range(n)), "colours", got, "for the sequence", seq)
    finally:
        plt().close("all")
    rec.nontrivial(n > len(seq) > 1)


@case(CASES, st.tuples(NETS, NETS, st.booleans(), st.sampled_from([None, (3, 2), (8, 8)])), quick=60, rule="two different networks")
def figures(t, rec):
    """Drawing to given axes, figure sizes, repeated drawing, what must be refused, and fitting tall stacks to the figure."""
    spec1, spec2, twice, figsize = t
    import mpl_toolkits.mplot3d  # noqa
    try:
        fig = plt().figure()
        a, b = fig.add_subplot(121, projection="3d"), fig.add_subplot(122, projection="3d")
        kw1, kw2 = {"layout": "circular", "edgeColorRule": {"rule": "edgetype", "intra": "red"}}, {"layout": "shell"}
        check(draw(build(spec1), 0, ax=a, **kw1) is fig and draw(build(spec2), 0, ax=b, **kw2) is fig, "drawing to given axes returned another figure")
        verify(spec1, kw1, 0, fig, ax=a)
        verify(spec2, kw2, 0, fig, ax=b)
        kw = {"layout": "circular"}
        f2 = draw(build(spec1), 0, **kw, **({"figsize": figsize} if figsize else {}))
        check(f2 is not fig, "the second figure is the first one")
        verify(spec1, kw, 0, f2)
        check(figsize is None or tuple(f2.get_size_inches()) == figsize, "figure of", f2.get_size_inches(), "inches")
        plain = plt().figure().add_subplot(111)
        check(raises(Exception, draw, build(spec1), 0, ax=plain, **kw), "two-dimensional axes were accepted")
        check(raises(Exception, draw, build(spec1), 0, backend="no such backend", **kw), "an unknown backend was accepted")
        check(raises(Exception, draw, build(spec1), 0, nodeColorRule={"rule": "no such rule"}, **kw), "an unknown rule was accepted")
        check(raises(Exception, draw, build(spec1), 0, layershape="triangle", **kw), "an unknown shape was accepted")
        # autoscale
        from mpl_toolkits.mplot3d import proj3d
        gap = 1.5 if twice else 1.0
        f3 = draw(build(spec1), 0, layergap=gap, **kw)
        f3.canvas.draw()
        ax = f3.axes[0]
        top = (len(ref(spec1).dims[1]) - 1) * gap
        for x in (0, 1):
            for y in (0, 1):
                for zz in (0, top):
                    p = ax.transAxes.inverted().transform(ax.transData.transform(proj3d.proj_transform(x, y, zz, ax.get_proj())[:2]))
                    check(-0.35 < p[0] < 1.35 and -0.2 < p[1] < 1.1, "the corner", (x, y, zz), "of a layer is drawn at", p, "of the axes")
    finally:
        plt().close("all")
    rec.nontrivial(spec1 != spec2 and len(ref(spec1).dims[1]) > 1)
    rec.label("layers%d" % len(ref(spec1).dims[1]))


BIG = gen.big_spec(aspects=(1,), noedge=(0,), weights="pos", loops=False, nodes=(5, 14), layers=(2, 7), limit=40, degree=(1, 2, 3))
gen.again(CASES, "larger_places", places, lambda: coords_case(BIG), quick=25, rule="two layers or more, a link, and given coordinates or sizes")
gen.again(CASES, "larger_layers", layers, lambda: layers_case(BIG), quick=15, rule="two layers or more with properties set")
gen.again(CASES, "larger_nodes", nodes, lambda: nodes_case(BIG), quick=25, rule="three nodes or more with properties set")
gen.again(CASES, "larger_edges", edges, lambda: edges_case(BIG), quick=25, rule="three links or more with properties set")
