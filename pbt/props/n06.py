"""N06: the supra-adjacency matrix is the network's link table."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref, key, link
from pbt import gen

CASES = []


def run(spec, rec):
    import numpy
    import pymnet
    net, g = build(spec), ref(spec)
    for inc in (True, False):
        for f in (lambda: net.get_supra_adjacency_matrix(includeCouplings=inc),
                  lambda: pymnet.supra_adjacency_matrix(net, includeCouplings=inc)):
            m, nodes = f()
            tup = [n if g.aspects > 0 else (n,) for n in nodes]
            check(len(set(tup)) == len(tup), "node-layer list repeats an entry", nodes)
            check(set(tup) >= g.nls, "node-layer list misses", g.nls - set(tup))
            check(set(tup) <= set(itertools.product(*g.dims)), "node-layer list invents entries")
            check(m.shape == (len(tup), len(tup)), "shape", m.shape, "for", len(tup), "node-layers")
            a = numpy.asarray(m)
            for i, u in enumerate(tup):
                for j, v in enumerate(tup):
                    e = g.w(u, v) if inc or u[1:] == v[1:] else 0
                    check(a[i, j] == (0 if e == g.noedge else e), "entry %r,%r is %r, expected %r (includeCouplings=%r)" % (u, v, a[i, j], e, inc))
            if not g.directed:
                check((a == a.T).all(), "matrix of an undirected network is not symmetric")
    # default argument
    m, nodes = net.get_supra_adjacency_matrix()
    m2, nodes2 = net.get_supra_adjacency_matrix(includeCouplings=True)
    check((numpy.asarray(m) == numpy.asarray(m2)).all() and nodes == nodes2, "includeCouplings is not on by default")
    # strengths are the row and column sums
    a = numpy.asarray(m)
    for i, u in enumerate(nodes):
        check(abs(net[u].str_out() - a[i].sum()) < 1e-9, "out-strength of %r is not its row sum" % (u,))
        check(abs(net[u].str_in() - a[:, i].sum()) < 1e-9, "in-strength of %r is not its column sum" % (u,))
    check(len(net.edges) == (numpy.count_nonzero(a) if g.directed else (numpy.count_nonzero(a) + numpy.count_nonzero(a.diagonal())) // 2),
          "number of edges is not the number of nonzero entries")
    rec.nontrivial(len(g.links()) >= 2)
    rec.label(spec["kind"], "asp%d" % g.aspects, "directed" if g.directed else "undirected", "fi" if g.fi else "nonfi")
    if any(u[1:] != v[1:] for u, v in g.E):
        rec.label("inter-layer")


@case(CASES, lambda: gen.ml_spec(**gen.SORTABLE), quick=700, rule="at least two links")
def multilayer(spec, rec):
    run(spec, rec)


@case(CASES, lambda: gen.mx_spec(**gen.SORTABLE), quick=700, rule="at least two links")
def multiplex(spec, rec):
    run(spec, rec)


gen.again(CASES, "larger", run, gen.big_spec(limit=60), quick=40, rule="at least two links")

