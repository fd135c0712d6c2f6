"""D01: degree distributions, densities and overlap degrees count the links of the network."""
import itertools
from collections import Counter
from hypothesis import strategies as st
from pbt.harness import case, check, raises
from pbt.model import Ref, build, ref, key, same_state
from pbt import gen

CASES = []
anynet = st.one_of(gen.ml_spec(min_nodes=1), gen.mx_spec(min_nodes=1), gen.ml_spec(min_nodes=3, dense=True),
                   gen.mx_spec(min_nodes=3, dense=True), gen.ml_spec(), gen.mx_spec())


@case(CASES, lambda: anynet, quick=1500, rule="two different degrees occur")
def degree_tables(spec, rec):
    from pymnet import diagnostics
    net, g = build(spec), ref(spec)
    per = {u: len(g.tot(u)) for u in g.nls}
    got = diagnostics.degs(net, degstype="nodes")
    check(got == {key(u): d for u, d in per.items()}, "degs(nodes) is %r, links say %r" % (got, per))
    exp = dict(Counter(per.values()))
    for out in (diagnostics.degs(net), diagnostics.degs(net, degstype="distribution")):
        check(out == exp, "degree distribution %r, expected %r" % (out, exp))
    check(raises(Exception, lambda: diagnostics.degs(net, degstype="nonsense")), "an unknown degstype is accepted")
    same_state(net, g, check, "original:")
    rec.nontrivial(len(exp) > 1)
    rec.label(spec["kind"], "fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected", "asp%d" % spec["aspects"])


@case(CASES, lambda: anynet, quick=1200, rule="the density is not 0")
def density(spec, rec):
    """Links over possible links among all nodes in all layers; zero when no link is possible."""
    from pymnet import diagnostics
    net, g = build(spec), ref(spec)
    n = 1
    for d in g.dims:
        n *= len(d)
    pairs = n * (n - 1) if g.directed else n * (n - 1) / 2.0
    links = len(g.links())
    got = diagnostics.density(net)
    if pairs == 0:
        if links:
            return      # only self-links: no definition
        check(got == 0, "density of a network with no possible link is", got)
    else:
        check(abs(got - links / float(pairs)) < 1e-12, "density %r, expected %d/%g" % (got, links, pairs))
    same_state(net, g, check, "original:")
    rec.nontrivial(links > 0 and pairs > 0)
    rec.label(spec["kind"], "fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected")


@case(CASES, lambda: st.one_of(gen.mx_spec(min_nodes=2), gen.mx_spec(min_nodes=3, dense=True, min_layers=2), gen.mx_spec()), quick=800,
      rule="two layers with different link counts")
def per_layer(spec, rec):
    from pymnet import diagnostics
    net, g = build(spec), ref(spec, couplings=False)
    layers = [k[0] if spec["aspects"] == 1 else k for k in itertools.product(*g.dims[1:])]
    full = lambda l: (l,) if spec["aspects"] == 1 else l
    dens, dist, nodes = diagnostics.multiplex_density(net), diagnostics.multiplex_degs(net), diagnostics.multiplex_degs(net, degstype="nodes")
    if spec["aspects"] == 1:
        check(set(dens) == set(layers) and set(dist) == set(layers) and set(nodes) == set(layers),
              "layers reported: %r / %r / %r" % (set(dens), set(dist), set(nodes)))
    counts = set()
    for l in dens:
        mem = [u for u in g.nls if u[1:] == full(l)]
        links = {k for k in g.links() if (next(iter(k)) if isinstance(k, frozenset) else k[0])[1:] == full(l)}
        per = {u[0]: len(g.tot(u)) for u in mem}
        counts.add(len(links))
        check(nodes[l] == per, "degrees in layer %r are %r, expected %r" % (l, nodes[l], per))
        check(dist[l] == dict(Counter(per.values())), "degree distribution of layer %r is %r" % (l, dist[l]))
        m = len(mem)
        pairs = m * (m - 1) if g.directed else m * (m - 1) / 2.0
        check(abs(dens[l] - (len(links) / pairs if pairs else 0)) < 1e-12, "density of layer %r is %r" % (l, dens[l]))
    rec.nontrivial(len(counts) > 1)
    rec.label("asp%d" % spec["aspects"], "fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected")


@case(CASES, lambda: st.one_of(gen.mx_spec(aspects=(1,), min_nodes=3, dense=True, min_layers=2, weights=gen.weights_one),
                               gen.mx_spec(aspects=(1,), min_nodes=2, min_layers=1, weights=gen.weights_pos)), quick=800,
      rule="some link is in exactly two layers or more")
def overlap_degrees(spec, rec):
    """For every set of layers: per node, the links present in exactly those layers."""
    from pymnet import diagnostics
    net, g = build(spec), ref(spec, couplings=False)
    got = diagnostics.overlap_degs(net)
    layers = g.dims[1]
    exact = {}
    for (u, v) in g.E:
        exact.setdefault((u[0], v[0]), set()).add(u[1])
    combos = [frozenset(c) for k in range(1, len(layers) + 1) for c in itertools.combinations(sorted(layers, key=repr), k)]
    check(len(got) == len(combos) and {frozenset(c) for c in got} == set(combos), "layer combinations %r" % (list(got),))
    for c, table in got.items():
        pairs = {p for p, ls in exact.items() if ls == set(c)}
        present = {u[0] for u in g.nls if u[1] in c}
        for n in g.dims[0]:
            d = len({b for a, b in pairs if a == n} | {a for a, b in pairs if b == n})
            check(table.get(n, 0) == d, "node %r has overlap degree %r for layers %r, expected %d" % (n, table.get(n), c, d))
            check(n in table or n not in present, "node %r missing from the table of %r" % (n, c))
        check(set(table) <= g.dims[0], "unknown nodes in the table")
    same_state(net, ref(spec), check, "original:")
    rec.nontrivial(any(len(s) > 1 for s in exact.values()))
    rec.label("fi" if spec["fi"] else "nonfi", "directed" if spec["directed"] else "undirected")


gen.again(CASES, "larger_degree_tables", degree_tables, gen.big_spec(), quick=60, rule="two different degrees occur")
gen.again(CASES, "larger_density", density, gen.big_spec(), quick=40, rule="the density is not 0")
gen.again(CASES, "larger_per_layer", per_layer, gen.big_spec(kind=("mx",), aspects=(1, 1, 2)), quick=40, rule="two layers with different link counts")
gen.again(CASES, "larger_overlap_degrees", overlap_degrees, gen.big_spec(kind=("mx",), aspects=(1,), weights="pos", degree=(4, 8, 12), nodes=(6, 20)), quick=40, rule="some link is in exactly two layers or more")

