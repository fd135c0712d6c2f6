"""L01: the graphlet tables list every connected multiplex graph and its orbits exactly once."""
import itertools
from hypothesis import strategies as st
from pbt.harness import case, check
from pbt import glets

CASES = []
ASSUMPTIONS = ["PyBliss is replaced by a brute-force stand-in (standins/PyBliss.py).",
               "Up to 4 nodes in 2 layers, 3 nodes in 3 layers, 5 nodes in 1 layer."]


@case(CASES, st.tuples(glets.config(big=True, top=5), st.permutations([10, 11, 12, 13, 14])), quick=130, rule="more than two classes of some size")
def every_class_once(t, rec):
    """The listed graphlets are all connected graphs on the admissible layers, each class once, indexed by invariant."""
    import pymnet
    conf, names = t
    n, layers, n_l, coupling, aa = conf
    nets, invs = pymnet.graphlets.graphlets(n, list(layers), n_l if n_l != len(layers) or n % 2 else None, couplings=coupling, allowed_aspects=glets.aspects(conf))
    check(set(nets) == set(range(2, n + 1)), "sizes", set(nets))
    index = {}
    for k in nets:
        forms = []
        for i, net in enumerate(nets[k]):
            check(set(net.slices[0]) == set(range(k)), "graphlet", (k, i), "has nodes", set(net.slices[0]))
            check(len(net.slices[1]) == n_l and set(net.slices[1]) <= set(layers), "graphlet", (k, i), "has layers", set(net.slices[1]))
            links = glets.links_of(net)
            check(glets.connected(range(k), links), "graphlet", (k, i), "is not connected:", links)
            check(all(len(p) == 2 for p in links), "graphlet", (k, i), "has a self-link")
            ls = list(net.slices[1])
            for a, b in itertools.permutations(ls, 2):
                check((net[0, 0, a, b] != 0) == glets.coupled(coupling, a, b), "graphlet", (k, i), "couples", a, b, "with", net[0, 0, a, b])
            forms.append(glets.canon(range(k), ls, links, conf))
            ci = str(pymnet.get_complete_invariant(pymnet.transforms.relabel(net, dict(zip(range(k), names))), allowed_aspects=glets.aspects(conf)))
            check(invs.get(ci) == (k, i), "invariant of a renamed copy of graphlet", (k, i), "points to", invs.get(ci))
        want = glets.classes(conf, k)
        check(len(set(forms)) == len(forms), "two graphlets on", k, "nodes are isomorphic")
        check(set(forms) == set(want), "%d graphlets on %d nodes, %d classes of connected graphs" % (len(forms), k, len(want)))
        index.update({(k, i): 1 for i in range(len(nets[k]))})
    check(sorted(invs.values()) == sorted(index), "the invariants do not point to every graphlet once")
    rec.nontrivial(any(len(x) > 2 for x in nets.values()))
    rec.label("n%d" % n, "layers%d/%d" % (n_l, len(layers)), str(coupling), str(aa))


@case(CASES, glets.config(big=True, top=5, couplings=(None, "categorical")), quick=70, rule="a graphlet with an orbit of several nodes, and one without symmetry")
def orbits(conf, rec):
    """Nodes (node-layers) share an orbit exactly when some renaming of the graphlet onto itself maps one to the other."""
    import pymnet
    gl = pymnet.graphlets
    nets, invs, _ = glets.table(conf)
    auts = gl.automorphism_orbits(nets, allowed_aspects=glets.aspects(conf))
    small = {k: nets[k] for k in nets if k <= 3}
    nl = gl.graphlets_module.automorphism_orbits_nl(small, allowed_aspects=glets.aspects(conf))
    check(len(auts) == sum(k * len(nets[k]) for k in nets), "orbit table has", len(auts), "entries")
    sizes = set()
    expected = set()
    for k in nets:
        for i, net in enumerate(nets[k]):
            links, ls = glets.links_of(net), list(net.slices[1])
            form = {u: glets.canon(range(k), ls, links, conf, root=u) for u in range(k)}
            for u, v in itertools.combinations(range(k), 2):
                check((auts[k, i, u] == auts[k, i, v]) == (form[u] == form[v]), "nodes", u, v, "of graphlet", (k, i), links, "have orbits", auts[k, i, u], auts[k, i, v])
            for u in range(k):
                check(form[auts[k, i, u]] == form[u], "orbit of", u, "is named after", auts[k, i, u])
                expected.add((k, i, auts[k, i, u]))
            sizes.add(len(set(form.values())) == k)
            sizes.add("sym" if len(set(form.values())) < k else "")
            if k <= 3:
                form = {(u, l): glets.canon(range(k), ls, links, conf, root=(u, l)) for u in range(k) for l in ls}
                for a, b in itertools.combinations(form, 2):
                    check((nl[k, i, a] == nl[k, i, b]) == (form[a] == form[b]), "node-layers", a, b, "of graphlet", (k, i), links, "have orbits", nl[k, i, a], nl[k, i, b])
    lists = gl.list_orbits(auts)
    check(sorted(o for x in lists.values() for o in x) == sorted(expected) and all(o[0] == k for k in lists for o in lists[k]), "list_orbits is", lists)
    n = conf[0]
    numbers = gl.orbit_numbers(n, nets, auts)
    check(set(numbers) == expected and sorted(numbers.values()) == list(range(len(expected))), "orbit numbers", numbers)
    order = gl.ordered_orbit_list(numbers)
    check(len(order) == len(numbers) and all(numbers[o] == i for i, o in enumerate(order)), "ordered orbits", order)
    rec.nontrivial(True in sizes and "sym" in sizes)
    rec.label("n%d" % n, str(conf[4]))


@st.composite
def lookup_case(draw):
    conf = draw(glets.config(big=True))
    return conf, draw(glets.target(conf, lo=2, hi=conf[0], tree=True))


@case(CASES, lookup_case, quick=500, rule="a connected network of three nodes or more")
def orbit_of_a_network(t, rec):
    """orbit_name finds the graphlet and the orbit of a node of any connected network of at most n nodes."""
    import pymnet
    conf, (nodes, layers, links) = t
    nets, invs, auts = glets.table(conf)
    net = glets.make(nodes, layers, links, conf[3])
    d = glets.links_of(net)
    if not glets.connected(nodes, d):
        return
    form = glets.canon(nodes, layers, d, conf)
    for u in nodes:
        k, i, o = pymnet.graphlets.graphlets_module.orbit_name(u, net, nets, invs, auts, allowed_aspects=glets.aspects(conf))
        g = nets[k][i]
        gd, gl = glets.links_of(g), list(g.slices[1])
        check(k == len(nodes) and glets.canon(range(k), gl, gd, conf) == form, "network", d, "is reported to be graphlet", (k, i), gd)
        check(o == auts[k, i, o] and glets.canon(range(k), gl, gd, conf, root=o) == glets.canon(nodes, layers, d, conf, root=u), "node", u, "of", d, "is reported in orbit", o, "of", gd)
    rec.nontrivial(len(nodes) > 2)
    rec.label("nodes%d" % len(nodes), str(conf[3]), str(conf[4]))
