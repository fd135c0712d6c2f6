"""T03: relabel and normalize rename nodes and layers and change nothing else."""
import copy, itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import Ref, build, ref, key, link, same_state, add_couplings
from pbt import gen

CASES = []
anynet, sortable = (st.one_of(gen.ml_spec(min_nodes=1, **k), gen.mx_spec(min_nodes=1, **k), gen.ml_spec(min_nodes=3, dense=True, **k), gen.mx_spec(min_nodes=3, dense=True, **k))
                    for k in ({}, gen.SORTABLE))


def rename(r, maps):
    f = lambda u: tuple(maps[a].get(x, x) for a, x in enumerate(u))
    out = Ref(r.aspects, r.directed, r.noedge, r.fi)
    for a in range(r.aspects + 1):
        out.dims[a] = {maps[a].get(x, x) for x in r.dims[a]}
    if not r.fi:
        out._nls = {f(u) for u in r.nls}
    out.E = {(f(u), f(v)): w for (u, v), w in r.E.items()}
    return out


def rename_couplings(cs, maps):
    out = []
    for a, c in enumerate(cs):
        if isinstance(c, dict):
            m = maps[a + 1]
            c = dict(c, net=[(m.get(x, x), m.get(y, y), w) for x, y, w in c["net"]], layers=[m.get(x, x) for x in c["layers"]])
        out.append(c)
    return out


@st.composite
def relabel_input(draw):
    spec = draw(anynet)
    maps = []
    for a, names in enumerate([spec["nodes"]] + spec["layers"]):
        names = list(names)
        kind = draw(st.sampled_from(["none", "partial", "perm", "fresh"]))
        ordinal = a > 0 and spec["kind"] == "mx" and (spec["couplings"][a - 1] == "ordinal" or
                                                        (isinstance(spec["couplings"][a - 1], tuple) and spec["couplings"][a - 1][0] == "ordinal"))
        if kind == "none" or not names:
            maps.append({})
        elif kind == "perm":
            p = draw(st.permutations(names))
            maps.append(dict(zip(names, p)))
        elif kind == "partial":
            k = draw(st.integers(1, len(names)))
            maps.append({n: (100 + i if ordinal or isinstance(n, int) else "new%d" % i) for i, n in enumerate(names[:k])})
        else:
            maps.append({n: (100 + 3 * i if ordinal else ("new%d" % i if draw(st.booleans()) else 500 + i)) for i, n in enumerate(names)})
        if draw(st.integers(0, 4)) == 0 and maps[-1]:
            maps[-1]["unused"] = "never"
    return spec, maps, draw(st.integers(0, 3))


@case(CASES, relabel_input, quick=1300, rule="some node or layer with a link gets a new name")
def relabel(x, rec):
    from pymnet import transforms
    spec, maps, form = x
    net = build(spec)
    base, g = ref(spec, couplings=False), ref(spec)
    nm, lm = dict(maps[0]), [dict(m) for m in maps[1:]]
    kw = {}
    if nm or form != 0:
        kw["nodeNames"] = nm
    if spec["aspects"] == 1:
        kw["layerNames"] = lm[0] if form in (0, 1) else lm
    elif spec["aspects"] >= 2:
        if lm[-1] or form % 2:
            kw["layerNames"] = lm if form < 2 else tuple(lm)
        else:
            kw["layerNames"] = lm[:-1]
    before = copy.deepcopy(kw)
    out = transforms.relabel(net, **kw)
    check(kw == before, "relabel modified the caller's maps: %r became %r" % (before, kw))
    r = rename(base, maps)
    if spec["kind"] == "mx":
        add_couplings(r, rename_couplings(spec["couplings"], maps))
    check(type(out) is type(net) and out.fullyInterconnected == net.fullyInterconnected and out.noEdge == net.noEdge
          and out.directed == net.directed and out.aspects == net.aspects, "kind or parameters of the relabelled network")
    same_state(out, r, check, "relabel(%r):" % (kw,))
    same_state(net, g, check, "original after relabel:")
    # renaming back gives the original
    inv = [{v: k for k, v in m.items()} for m in maps]
    if all(len(i) == len(m) for i, m in zip(inv, maps)) and all(not ((set(m.values()) - set(m)) & base.dims[a]) for a, m in enumerate(maps)):
        inv = [{v: k for k, v in m.items() if k in base.dims[a]} for a, m in enumerate(maps)]
        back = transforms.relabel(out, nodeNames=inv[0], layerNames=inv[1] if spec["aspects"] == 1 else inv[1:])
        check(back == net, "relabelling back does not restore the network")
    rec.nontrivial(bool(base.E) and any(m for m in maps))
    rec.label(spec["kind"], "asp%d" % spec["aspects"], "fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected")


@case(CASES, lambda: st.tuples(sortable, st.sampled_from([None, True, False]), st.sampled_from([None, True, False]),
                               st.sampled_from([None, 0, 1, -2, 5]), st.sampled_from([None, 0, 1, 7])), quick=900,
      rule="the network has a link")
def normalize(x, rec):
    from pymnet import transforms
    spec, n2i, l2i, ns, ls = x
    net = build(spec)
    base, g = ref(spec, couplings=False), ref(spec)
    kw = {}
    if n2i is not None:
        kw["nodesToIndices"] = n2i
    if l2i is not None:
        kw["layersToIndices"] = l2i
    if ns is not None:
        kw["nodeStart"] = ns
    if ls is not None:
        kw["layerStart"] = ls
    res = transforms.normalize(net, **kw)
    ns, ls = ns or 0, ls or 0
    nodemap = layermap = None
    if n2i is None and l2i is None:
        out = res
    elif l2i is None:
        out, nodemap = res
    elif n2i is None:
        out, layermap = res
    else:
        out, nodemap, layermap = res
    check(set(out.slices[0]) == set(range(ns, ns + len(base.dims[0]))), "node indices", out.slices[0])
    for a in range(1, spec["aspects"] + 1):
        check(set(out.slices[a]) == set(range(ls, ls + len(base.dims[a]))), "layer indices", out.slices[a])
    # the documented order: sorted names
    maps = [dict((n, i + (ns if a == 0 else ls)) for i, n in enumerate(sorted(d))) for a, d in enumerate(base.dims)]
    if nodemap is not None:
        exp = maps[0] if n2i else {v: k for k, v in maps[0].items()}
        check(nodemap == exp, "node map %r, expected %r" % (nodemap, exp))
    if layermap is not None:
        lms = [layermap] if spec["aspects"] == 1 else layermap
        check(len(lms) == spec["aspects"], "layer maps", layermap)
        for a, m in enumerate(lms):
            exp = maps[a + 1] if l2i else {v: k for k, v in maps[a + 1].items()}
            check(m == exp, "layer map %r, expected %r" % (m, exp))
    r = rename(base, maps)
    if spec["kind"] == "mx":
        add_couplings(r, rename_couplings(spec["couplings"], maps))
    check(type(out) is type(net), "kind of the normalized network")
    same_state(out, r, check, "normalize:")
    same_state(net, g, check, "original after normalize:")
    rec.nontrivial(bool(base.E))
    rec.label(spec["kind"], "asp%d" % spec["aspects"], "n2i=%s" % n2i, "l2i=%s" % l2i)


@st.composite
def big_relabel(draw):
    spec = draw(gen.big_spec(limit=100, layer_names=("int",)))
    maps = []
    for names in [spec["nodes"]] + spec["layers"]:
        shift = draw(st.integers(0, len(names) - 1))
        maps.append({x: names[(i + shift) % len(names)] for i, x in enumerate(names)} if shift % 2 else {x: 1000 + i for i, x in enumerate(names[:shift])})
    return spec, maps, draw(st.integers(0, 3))


gen.again(CASES, "larger_relabel", relabel, big_relabel(), quick=40, rule="some node or layer with a link gets a new name")
gen.again(CASES, "larger_normalize", normalize, st.tuples(gen.big_spec(limit=100), st.sampled_from([None, True, False]), st.sampled_from([None, True, False]), st.sampled_from([None, 0, 1, 5]),
                                                           st.sampled_from([None, 0, 7])), quick=40, rule="the network has a link")

