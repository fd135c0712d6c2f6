"""N03: equality, hashing, copying and the edge list depend on the network's content only."""
import copy, itertools, pickle
from hypothesis import strategies as st
from pbt.harness import case, check, fail, Skip
from pbt.model import build, ref, link, same_state, links_of, key
from pbt import gen

CASES = []

anynet = lambda **k: st.one_of(gen.ml_spec(**k), gen.mx_spec(**k))


def shuffled(spec, perm):
    """The same content built in another order, edges given from their other end when undirected."""
    s = copy.deepcopy(spec)

    def sh(xs, salt):
        xs = list(xs)
        out = []
        i = 0
        while xs:
            out.append(xs.pop(perm[(i + salt) % len(perm)] % len(xs)))
            i += 1
        return out
    s["nodes"] = sh(s["nodes"], 0)
    s["layers"] = [sh(l, 1) for l in s["layers"]]
    s["nls"] = sh(s["nls"], 2)
    s["edges"] = sh(s["edges"], 3)
    if not s["directed"]:
        s["edges"] = [((v, u, w) if perm[i % len(perm)] % 2 else (u, v, w)) for i, (u, v, w) in enumerate(s["edges"])]
    return s


perms = st.lists(st.integers(0, 100), min_size=4, max_size=8)


@case(CASES, lambda: st.tuples(anynet(noedge=(0, 0, -1)), perms), quick=500, rule="the network has at least two links")
def order_does_not_matter(x, rec):
    spec, perm = x
    a, b = build(spec), build(shuffled(spec, perm))
    # a detour that leaves no trace: create a link between existing node-layers and remove it again
    r = ref(spec, couplings=False)
    nls = sorted(r.nls, key=repr)
    if len(nls) > 1:
        u, v = nls[perm[0] % len(nls)], nls[perm[1] % len(nls)]
        if spec["kind"] == "ml" or (u[1:] == v[1:] and u != v):
            if (u, v) not in r.E:
                b[link(u, v)] = 3
                b[link(u, v)] = r.noedge
    check(a == b and b == a, "networks with the same content compare different")
    check(not (a != b) and not (b != a), "!= disagrees with ==")
    check(hash(a) == hash(b), "equal networks hash differently")
    check(a == a and not (a == 1) and a != None and a != "x", "comparison with itself / other types")
    rec.nontrivial(len(spec["edges"]) >= 2)
    rec.label(spec["kind"], "directed" if spec["directed"] else "undirected", "fi" if spec["fi"] else "nonfi", "asp%d" % spec["aspects"])


def mutate(spec, kind, pick):
    """A spec with different content, or None when the mutation does not apply."""
    s = copy.deepcopy(spec)
    asp = s["aspects"]
    r = ref(spec, couplings=False)
    if kind == "node":
        s["nodes"] = list(s["nodes"]) + ["zzz"]
    elif kind == "layer":
        if asp == 0:
            return None
        a = pick % asp
        if s["kind"] == "mx" and any(isinstance(l, int) for l in s["layers"][a]):
            new = 77
        else:
            new = "zzl"
        s["layers"][a] = list(s["layers"][a]) + [new]
    elif kind == "nl":
        if s["fi"]:
            return None
        miss = sorted(set(itertools.product(*r.dims)) - r.nls, key=repr)
        if not miss:
            return None
        s["nls"] = list(s["nls"]) + [miss[pick % len(miss)]]
    elif kind == "edge-":
        if not s["edges"]:
            return None
        u, v, w = s["edges"].pop(pick % len(s["edges"]))
        if not s["fi"]:
            s["nls"] = list(s["nls"]) + [u, v]
    elif kind == "edge+":
        nls = sorted(r.nls, key=repr)
        cand = [(u, v) for u in nls for v in nls if (u, v) not in r.E and
                (s["kind"] == "ml" or (u != v and u[1:] == v[1:]))]
        if not cand:
            return None
        u, v = cand[pick % len(cand)]
        s["edges"] = list(s["edges"]) + [(u, v, 11)]
    elif kind == "weight":
        if not s["edges"]:
            return None
        i = pick % len(s["edges"])
        u, v, w = s["edges"][i]
        s["edges"][i] = (u, v, [w + 13, -w, w + 1e-6, w * 2, 1 / w][(pick // 11) % 5])
        if s["edges"][i][2] == w or s["edges"][i][2] == s["noedge"]:
            return None
    elif kind == "weights-swapped":
        es = [(i, j) for i in range(len(s["edges"])) for j in range(i) if s["edges"][i][2] != s["edges"][j][2]]
        if not es:
            return None
        i, j = es[pick % len(es)]
        (a, b, w), (c, d, x) = s["edges"][i], s["edges"][j]
        s["edges"][i], s["edges"][j] = (a, b, x), (c, d, w)
    elif kind == "name":
        # one node has another name of equal text or value class; everything else is the same
        if not s["nodes"]:
            return None
        old = s["nodes"][pick % len(s["nodes"])]
        new = old + " " if isinstance(old, str) else str(old)
        f = lambda u: (new,) + tuple(u[1:]) if u[0] == old else u
        s["nodes"] = [new if n == old else n for n in s["nodes"]]
        s["edges"] = [(f(u), f(v), w) for u, v, w in s["edges"]]
        s["nls"] = [f(u) for u in s["nls"]]
    elif kind == "permuted":
        # two nodes exchange all their links
        if len(s["nodes"]) < 2:
            return None
        a, b = s["nodes"][pick % len(s["nodes"])], s["nodes"][(pick // 7) % len(s["nodes"])]
        m = {a: b, b: a}
        f = lambda u: (m.get(u[0], u[0]),) + tuple(u[1:])
        s["edges"] = [(f(u), f(v), w) for u, v, w in s["edges"]]
        s["nls"] = [f(u) for u in s["nls"]]
    elif kind == "rewire":
        # same number of links, same nodes: one link moved
        nls = sorted(r.nls, key=repr)
        cand = [(u, v) for u in nls for v in nls if (u, v) not in r.E and
                (s["kind"] == "ml" or (u != v and u[1:] == v[1:]))]
        if not cand or not s["edges"]:
            return None
        i = pick % len(s["edges"])
        u, v = cand[(pick // 7) % len(cand)]
        old = s["edges"][i]
        s["edges"][i] = (u, v, old[2])
        if not s["fi"]:
            s["nls"] = list(s["nls"]) + [old[0], old[1]]
    elif kind == "reverse":
        if not s["directed"] or not s["edges"]:
            return None
        i = pick % len(s["edges"])
        u, v, w = s["edges"][i]
        if u == v or r.E.get((v, u)) is not None:
            return None
        s["edges"][i] = (v, u, w)
    elif kind == "directed":
        s["directed"] = not s["directed"]
        for c in s.get("couplings", []):
            if isinstance(c, dict):
                c["directed"] = False
    elif kind == "noedge":
        s["noedge"] = -99
    elif kind == "coupling":
        if s["kind"] != "mx":
            return None
        a = pick % asp
        old = s["couplings"][a]
        new = [["categorical", 99], "ordinal", "categorical", ["ordinal", 0.75], None][(pick // 3) % 5]
        num = all(isinstance(l, int) for l in s["layers"][a])
        none = old is None or old == "none"
        weighted = lambda c: (c, 1.0) if isinstance(c, str) else (c[0], 1.0 if len(c) == 1 else c[1])
        if new is None:
            if none:
                return None
        elif (not num and "ordinal" in new) or (not none and not isinstance(old, dict) and weighted(old) == weighted(new)):
            return None
        s["couplings"][a] = new
    elif kind == "swaplayer":
        # links moved to another layer: the same aggregated content
        if s["kind"] != "mx" or asp != 1 or len(s["layers"][0]) < 2 or not s["edges"]:
            return None
        l1, l2 = s["layers"][0][:2]
        m = {l1: l2, l2: l1}
        before = {(u, v): w for u, v, w in s["edges"]}
        s["edges"] = [((u[0], m.get(u[1], u[1])), (v[0], m.get(v[1], v[1])), w) for u, v, w in s["edges"]]
        if not s["fi"]:
            return None
    return s


def difference(x, rec):
    spec, kind, pick = x
    s2 = mutate(spec, kind, pick)
    if s2 is None:
        return
    r1, r2 = ref(spec, couplings=False), ref(s2, couplings=False)
    if (r1.dims, r1.nls, r1.links(), r1.directed, r1.noedge) == (r2.dims, r2.nls, r2.links(), r2.directed, r2.noedge) and kind != "coupling":
        return
    a, b = build(spec), build(s2)
    check(not (a == b) and not (b == a), "networks that differ by", kind, "compare equal")
    check(a != b and b != a, "!= disagrees with == after", kind)
    rec.nontrivial()
    rec.label(kind, spec["kind"])


big = lambda **k: st.one_of(gen.ml_spec(min_nodes=3, dense=True, **k), gen.mx_spec(min_nodes=3, dense=True, **k), gen.ml_spec(min_nodes=2, **k))
for _name, _kinds, _strat, _n in [
        ("difference_in_sets", ["nl", "node", "layer", "noedge", "directed", "name"], lambda: anynet(min_nodes=1), 600),
        ("difference_in_links", ["rewire", "edge-", "edge+", "permuted"], lambda: big(), 700),
        ("difference_in_direction", ["reverse"], lambda: big(directed=(True,)), 150),
        ("difference_in_weights", ["weights-swapped", "weight", "weight"], lambda: big(), 600),
        ("difference_in_layers", ["swaplayer"], lambda: gen.mx_spec(aspects=(1,), fi=(True,), min_nodes=2, min_layers=2), 200),
        ("difference_in_couplings", ["coupling"], lambda: gen.mx_spec(), 300)]:
    case(CASES, (lambda k, s: lambda: st.tuples(s(), st.sampled_from(k), st.integers(0, 1000)))(_kinds, _strat), quick=_n, name=_name,
         rule="the mutation applied and changed the content")(difference)


@case(CASES, lambda: gen.ml_spec(aspects=(1, 2), min_nodes=1), quick=120, rule="always")
def interconnection_kind_is_seen(spec, rec):
    s2 = dict(spec, fi=not spec["fi"])
    if s2["fi"]:
        s2["nls"] = []
    else:
        s2["nls"] = sorted(ref(spec).nls, key=repr)
    a, b = build(spec), build(s2)
    check(not (a == b) and not (b == a) and a != b, "fully and non-fully interconnected networks compare equal")
    rec.nontrivial()


@case(CASES, lambda: st.tuples(anynet(min_nodes=1), st.sampled_from(["deepcopy", "pickle"]), st.integers(0, 1000)), quick=400,
      rule="the network has a link")
def copies_are_equal_and_independent(x, rec):
    spec, how, pick = x
    net = build(spec)
    c = copy.deepcopy(net) if how == "deepcopy" else pickle.loads(pickle.dumps(net))
    r = ref(spec)
    check(c == net and net == c and type(c) is type(net), "copy differs from the original")
    same_state(c, r, check, "copy:")
    # change the copy through every kind of write, the original stays
    r2 = ref(spec, couplings=False)
    nls = sorted(r2.nls, key=repr)
    if nls:
        u = nls[pick % len(nls)]
        v = nls[(pick // 5) % len(nls)]
        if spec["kind"] == "mx":
            v = (v[0],) + u[1:]
        if u != v:
            c[link(u, v)] = 42
            r2.set(u, v, 42)
        for e in spec["edges"][:2]:
            c[link(e[0], e[1])] = spec["noedge"]
            r2.set(e[0], e[1], spec["noedge"])
    c.add_node("new-node")
    r2.add_node("new-node")
    same_state(net, r, check, "original after the copy was changed:")
    if spec["kind"] == "mx":
        from pbt.model import add_couplings
        add_couplings(r2, spec["couplings"])
    same_state(c, r2, check, "changed copy:")
    rec.nontrivial(bool(spec["edges"]))
    rec.label(spec["kind"], how)


@case(CASES, lambda: anynet(noedge=(0, 0, -1)), quick=500, rule="the network has at least two links")
def edge_list(spec, rec):
    net, r = build(spec), ref(spec)
    d, n = links_of(net)
    check(n == len(d), "edge iterator repeats an edge")
    check(d == r.links(), "edges are %r, expected %r" % (d, r.links()))
    check(len(net.edges) == n, "len(edges) is %d, %d edges are iterated" % (len(net.edges), n))
    for e in net.edges:
        check(isinstance(e, tuple) and len(e) == 2 * (r.aspects + 1) + 1, "malformed edge", e)
        check(net[e[:-1]] == e[-1], "edge", e, "reads", net[e[:-1]])
    if spec["kind"] == "mx":
        # intra-layer edge lists partition the intra-layer links
        base = ref(spec, couplings=False)
        for lay in itertools.product(*base.dims[1:]):
            A = net.A[lay[0] if base.aspects == 1 else lay]
            dd, m = links_of(A)
            exp = {}
            for (u, v), w in base.E.items():
                if u[1:] == lay:
                    exp[((u[0],), (v[0],)) if base.directed else frozenset(((u[0],), (v[0],)))] = w
            check(m == len(dd) == len(A.edges) and dd == exp, "edges of layer %r: %r, expected %r" % (lay, dd, exp))
    rec.nontrivial(len(d) >= 2)


gen.again(CASES, "larger_order_does_not_matter", order_does_not_matter, st.tuples(gen.big_spec(limit=80), perms), quick=30, rule="the network has at least two links")
gen.again(CASES, "larger_edge_list", edge_list, gen.big_spec(), quick=50, rule="the network has at least two links")
gen.again(CASES, "larger_copies", copies_are_equal_and_independent, st.tuples(gen.big_spec(limit=80), st.sampled_from(["deepcopy", "pickle"]), st.integers(0, 1000)), quick=25, rule="always")

