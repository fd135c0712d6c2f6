"""N07: the modularity view shows each intra-layer entry less the expectation of the null model of its layer."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt.model import build, ref, key, link
from pbt import gen

CASES = []
ASSUMPTIONS = ["Undirected networks with at least one aspect and non-negative weights."]
KW = dict(directed=(False,), weights=gen.weights_pos)
NETS = st.one_of(gen.mx_spec(min_nodes=2, min_layers=2, dense=True, **KW), gen.ml_spec(aspects=(1,), min_nodes=2, min_layers=2, dense=True, **KW),
                 gen.ml_spec(aspects=(1, 2), **KW), gen.mx_spec(min_nodes=1, aspects=(1, 2), **KW), gen.ml_spec(aspects=(2,), min_nodes=2, max_layers=2, dense=True, **KW))


@case(CASES, st.tuples(NETS, st.sampled_from([1.0, 0.5, 2, 0, None])), quick=1200, rule="a layer with at least two links and an inter-layer link or coupling")
def modularity_entries(t, rec):
    """B = A - gamma k_is k_js / 2 m_s inside layers and A between layers, for every pair of node-layers."""
    from pymnet.net import ModularityMultilayerNetworkView as View
    spec, gamma = t
    r = ref(spec)
    net = build(spec)
    view = View(net) if gamma is None else View(net, gamma=gamma)
    g = 1.0 if gamma is None else gamma
    k = {u: sum(w for (a, b), w in r.E.items() if a == u and b[1:] == u[1:]) for u in r.nls}
    two_m = {}
    for u, x in k.items():
        two_m[u[1:]] = two_m.get(u[1:], 0) + x
    for u in r.nls:
        for v in r.nls:
            want = 0 if r.w(u, v) == r.noedge else r.w(u, v)
            if u[1:] == v[1:] and two_m[u[1:]]:
                want = want - g * k[u] * k[v] / two_m[u[1:]]
            got = view[link(u, v)]
            check(abs(got - want) < 1e-9, "entry", u, v, "is", got, "expected", want)
            check(abs(view[u][v] - want) < 1e-9, "entry", u, v, "read through the node is", view[u][v], "expected", want)
    for s, x in two_m.items():
        if g == 1:
            tot = sum(view[link(u, v)] for u in r.nls for v in r.nls if u[1:] == v[1:] == s)
            check(abs(tot) < 1e-7, "the entries of layer", s, "do not sum to zero:", tot)
    if spec["aspects"] <= 2 and all(len({isinstance(x, str) for x in d}) < 2 for d in r.dims):     # names can be sorted
        m, nodes = view.get_supra_adjacency_matrix()
        check(set(nodes) >= r.nls and len(set(nodes)) == len(nodes), "node-layers of the modularity matrix", nodes)
        for i, u in enumerate(nodes):
            for j, v in enumerate(nodes):
                check(abs(m[i, j] - view[link(u, v)]) < 1e-9, "modularity matrix entry", u, v, m[i, j], view[link(u, v)])
    check(net == build(spec), "the network was modified")
    intra = [kk for kk in r.links() if len({u[1:] for u in kk}) == 1]
    rec.nontrivial(len(intra) >= 2 and len(intra) < len(r.links()))
    rec.label(spec["kind"], "empty-layer" if any(x == 0 for x in two_m.values()) else "")


gen.again(CASES, "larger_modularity_entries", modularity_entries, st.tuples(gen.big_spec(aspects=(1, 1, 2), directed=(False,), weights="pos", limit=36), st.sampled_from([1.0, 0.5, None])), quick=25,
          rule="a layer with at least two links and an inter-layer link or coupling")

