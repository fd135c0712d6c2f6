"""N05: a multiplex network behaves as the multilayer network with its coupling links written out."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref, key, link, same_state, links_of
from pbt import gen
from pbt.props import n02

CASES = []


@case(CASES, lambda: st.tuples(gen.mx_spec(min_nodes=1), n02.picks), quick=1200,
      rule="some node-layer has both intra-layer and coupling neighbours")
def degrees_strengths_neighbours(x, rec):
    spec, pick = x
    net, g = build(spec), ref(spec)
    univ = list(itertools.product(*g.dims)) if all(g.dims) else []
    n02.check_all(net, g, pick, "multiplex", univ)
    rec.nontrivial(any({v[1:] == u[1:] for v in g.tot(u)} == {True, False} for u in g.nls))
    rec.label("asp%d" % g.aspects, "directed" if g.directed else "undirected", "fi" if g.fi else "nonfi")
    for c in spec["couplings"]:
        rec.label("net" if isinstance(c, dict) else str(c if isinstance(c, (str, type(None))) else c[0]))


@case(CASES, lambda: gen.mx_spec(min_nodes=1), quick=700,
      rule="the network has coupling links and intra-layer links")
def same_as_explicit_multilayer(spec, rec):
    from pymnet.net import MultilayerNetwork
    net, g = build(spec), ref(spec)
    same_state(net, g, check, "multiplex:", pairs=len(g.nls) <= 12)
    m = MultilayerNetwork(aspects=g.aspects, noEdge=g.noedge, directed=g.directed, fullyInterconnected=g.fi)
    for a in range(g.aspects + 1):
        for n in g.dims[a]:
            m.add_layer(n, a)
    if not g.fi:
        for u in g.nls:
            m.add_node(u[0], layer=u[1] if g.aspects == 1 else u[1:])
    for (u, v), w in g.E.items():
        m[link(u, v)] = w
    for u in itertools.product(*g.dims):
        for meth in ("deg", "deg_in", "deg_out", "deg_total", "str", "str_in", "str_out", "str_total"):
            a, b = getattr(net[key(u)], meth)(), getattr(m[key(u)], meth)()
            check(abs(a - b) < 1e-9, "%s of %r: multiplex %r, equivalent multilayer network %r" % (meth, u, a, b))
        check(set(net[key(u)]) == set(m[key(u)]), "neighbours of", u)
    check(len(net.edges) == len(m.edges), "number of edges", len(net.edges), len(m.edges))
    intra = any(u[1:] == v[1:] for u, v in g.E)
    inter = any(u[1:] != v[1:] for u, v in g.E)
    rec.nontrivial(intra and inter)
    rec.label("intra" if intra else "-", "inter" if inter else "no-inter")


BIG = gen.big_spec(kind=("mx",), limit=60, layer_names=("int", "int", "str"))
gen.again(CASES, "larger_explicit_multilayer", same_as_explicit_multilayer, BIG, quick=40, rule="the network has coupling links and intra-layer links")
gen.again(CASES, "larger_degrees", degrees_strengths_neighbours, st.tuples(gen.big_spec(kind=("mx",), limit=24, layer_names=("int", "int", "str")), n02.picks), quick=20,
          rule="some node-layer has both intra-layer and coupling neighbours")

