"""L02: orbit counts of nodes count the connected induced subgraphs around them; correlation distances."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt import gen, glets

CASES = []
ASSUMPTIONS = ["PyBliss is replaced by a brute-force stand-in (standins/PyBliss.py).",
               "pandas is not installed: orbit count tables are given as an object with the used parts of its interface (shape, loc, copy, conversion to an array)."]


def rooted(conf):
    """{rooted canonical form: orbit} of a configuration."""
    nets, invs, auts = glets.table(conf)
    d = {}
    for k in nets:
        for i, net in enumerate(nets[k]):
            links, ls = glets.links_of(net), list(net.slices[1])
            for u in range(k):
                d[k, glets.canon(range(k), ls, links, conf, root=u)] = (k, i, auts[k, i, u])
    return d


ROOTED = {}


def expected(conf, nodes, layers, links):
    """{(node, orbit): count} from all connected subsets of at most n nodes; links: {pair: layers}."""
    if conf not in ROOTED:
        ROOTED[conf] = rooted(conf)
    out = {}
    for k in range(2, conf[0] + 1):
        for s in itertools.combinations(nodes, k):
            sub = {p: ls for p, ls in links.items() if p <= set(s)}
            if glets.connected(s, sub):
                for u in s:
                    o = (u, ROOTED[conf][k, glets.canon(s, layers, sub, conf, root=u)])
                    out[o] = out.get(o, 0) + 1
    return out


@st.composite
def counting(draw):
    conf = draw(glets.config(big=False, top=5))
    if conf[2] == 2 and len(conf[1]) == 2 and draw(st.integers(0, 3)) == 0:
        conf = (4,) + conf[1:]
    return conf, draw(glets.target(conf, lo=3, hi=5 if conf[0] == 4 and conf[2] > 1 else 6, names=draw(st.sampled_from([None, None, ["a", "b", "c", "d", "e", "f"]])), tree=True))


@case(CASES, counting, quick=330, rule="at least three orbits with positive counts")
def orbit_counts(t, rec):
    """Counts for one node at a time and for all nodes together."""
    import pymnet
    gl = pymnet.graphlets
    conf, (nodes, layers, links) = t
    nets, invs, auts = glets.table(conf)
    n = conf[0]
    order = gl.ordered_orbit_list(gl.orbit_numbers(n, nets, auts))
    net = glets.make(nodes, layers, links, conf[3])
    want = expected(conf, nodes, layers, glets.links_of(net))
    kw = dict(allowed_aspects=glets.aspects(conf))
    one = {}
    for u in nodes:
        gl.orbit_counts(n, u, net, nets, one, auts, invs, order, **kw)
    both = [("orbit_counts", one), ("orbit_counts_all", gl.orbit_counts_all(net, n, nets, invs, auts, order, **kw))]
    for name, got in both:
        check(set(got) == {(u, o) for u in nodes for o in order}, name, "has the entries", sorted(map(repr, got)))
        for x in got:
            check(got[x] == want.get(x, 0), name, "of", x, "is", got[x], "expected", want.get(x, 0), "links", glets.links_of(net))
    check(net == glets.make(nodes, layers, links, conf[3]), "the network was modified")
    rec.nontrivial(len({o for u, o in want}) >= 3)
    rec.label("n%d" % n, "nodes%d" % len(nodes), str(conf[3]), str(conf[4]))


@case(CASES, counting, quick=150, rule="some count above one")
def larger_graphlets_refused(t, rec):
    """A network with other layers than the graphlets cannot be counted with fixed layers and is refused."""
    import pymnet
    gl = pymnet.graphlets
    conf, (nodes, layers, links) = t
    conf = conf[:4] + ((0,),)
    nets, invs, auts = glets.table(conf)
    order = gl.ordered_orbit_list(gl.orbit_numbers(conf[0], nets, auts))
    ren = {l: "q%s" % i if isinstance(l, str) else 50 + i for i, l in enumerate(layers)}
    net = glets.make(nodes, [ren[l] for l in layers], [(u, v, ren[l]) for u, v, l in links], conf[3] if conf[3] != "ordinal" else None)
    if links:
        check(raises(KeyError, gl.orbit_counts_all, net, conf[0], nets, invs, auts, order, allowed_aspects=[0]), "graphlets with unknown layers were counted")
    rec.nontrivial(bool(links))


class Loc:
    def __init__(self, frame):
        self.frame = frame

    def __setitem__(self, i, row):
        assert len(row) == self.frame.shape[1]
        if i == len(self.frame.rows):
            self.frame.rows.append(list(row))
        else:
            self.frame.rows[i] = list(row)


class Frame:
    """The parts of pandas.DataFrame the library uses."""

    def __init__(self, rows):
        self.rows = [list(r) for r in rows]

    shape = property(lambda s: (len(s.rows), len(s.rows[0])))
    loc = property(Loc)

    def copy(self, deep=True):
        return Frame(self.rows)

    def __array__(self, dtype=None, copy=None):
        import numpy
        return numpy.array(self.rows, dtype=dtype)


def ranks(xs):
    return [sum(y < x for y in xs) + (sum(y == x for y in xs) + 1) / 2. for x in xs]


def spearman(a, b):
    a, b = ranks(a), ranks(b)
    ma, mb = sum(a) / len(a), sum(b) / len(b)
    sab = sum((x - ma) * (y - mb) for x, y in zip(a, b))
    sa, sb = sum((x - ma) ** 2 for x in a), sum((y - mb) ** 2 for y in b)
    return sab / (sa * sb) ** 0.5 if sa and sb else None


@st.composite
def frames(draw):
    cols = draw(st.integers(3, 6))
    return [[[draw(st.integers(0, 6)) for _ in range(cols)] for _ in range(draw(st.integers(2, 6)))] for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 6])))]


@case(CASES, frames, quick=350, rule="two tables or more and no constant column")
def correlation_distance(tables, rec):
    """GCM is the rank correlation with a row of ones added; GCD the Euclidean distance of upper triangles."""
    import warnings
    from pymnet import graphlets as gl
    warnings.simplefilter("ignore")
    gcms, ok = [], True
    for rows in tables:
        f = Frame(rows)
        full = rows + [[1] * len(rows[0])]
        if any(len(set(col)) == 1 for col in zip(*full)):
            ok = False                      # correlations are undefined (scipy decides what is returned)
            continue
        m = gl.GCM(f)
        check(len(m) == len(rows[0]), "GCM has shape", getattr(m, "shape", None))
        check(f.rows == rows, "GCM changed the table of orbit counts:", f.rows)
        for i in range(len(m)):
            for j in range(len(m)):
                want = spearman([r[i] for r in full], [r[j] for r in full])
                check(abs(m[i][j] - want) < 1e-9, "GCM entry", (i, j), "is", m[i][j], "expected", want)
        gcms.append(m)
    if ok:
        d = gl.GCD_matrix(gcms)
        check(len(d) == len(gcms) and all(len(r) == len(gcms) for r in d), "GCD_matrix has shape", d)
        for a, x in enumerate(gcms):
            for b, y in enumerate(gcms):
                want = sum((x[i][j] - y[i][j]) ** 2 for i in range(len(x)) for j in range(i)) ** 0.5
                check(abs(d[a][b] - want) < 1e-7 and abs(gl.GCD(x, y) - want) < 1e-7, "distance", d[a][b], "expected", want)
        if len(gcms) > 1:
            check(raises(AssertionError, gl.GCD, gcms[0], gcms[1][:2, :2]), "matrices of different shapes were compared")
    rec.nontrivial(ok and len(gcms) > 1)


gen.again(CASES, "larger_networks", orbit_counts, glets.config(big=False, top=4).flatmap(lambda c: st.tuples(st.just(c), glets.target(c, lo=8, hi=11, names=range(20), tree=True))), quick=30,
          rule="at least three orbits with positive counts")

