"""Reference model: an explicit multilayer graph, written from the library's documentation.

`Ref` knows only node-layer tuples and an explicit link dictionary; every quantity is computed the
slow, obvious way.  Network *specs* are plain literals; `build(spec)` makes the real network through
the public API and `ref(spec)` the reference graph (for multiplex networks with the inter-layer
coupling links written out explicitly)."""
import itertools


class Ref:
    def __init__(self, aspects, directed, noedge=0, fi=True):
        self.aspects, self.directed, self.noedge = aspects, directed, noedge
        self.fi = fi or aspects == 0
        self.dims = [set() for _ in range(aspects + 1)]
        self._nls = set()
        self.E = {}           # (u, v) -> weight; both orientations when undirected

    # ---- state changes
    def add_node(self, n, layer=None):
        """layer: tuple of elementary layers, or None."""
        self.dims[0].add(n)
        if layer is not None and not self.fi:
            for a, l in enumerate(layer):
                self.dims[a + 1].add(l)
            self._nls.add((n,) + tuple(layer))

    def add_layer(self, l, a=1):
        self.dims[a].add(l)

    def touch(self, u):
        for a, x in enumerate(u):
            self.dims[a].add(x)
        self._nls.add(tuple(u))

    def set(self, u, v, w):
        self.touch(u)
        self.touch(v)
        if w == self.noedge:
            self.E.pop((u, v), None)
            if not self.directed:
                self.E.pop((v, u), None)
        else:
            self.E[(u, v)] = w
            if not self.directed:
                self.E[(v, u)] = w

    # ---- observations
    @property
    def nls(self):
        if self.fi:
            return set(itertools.product(*self.dims))
        return set(self._nls)

    def w(self, u, v):
        return self.E.get((u, v), self.noedge)

    def out(self, u):
        return {b for (a, b) in self.E if a == u}

    def inn(self, u):
        return {a for (a, b) in self.E if b == u}

    def tot(self, u):
        return self.out(u) | self.inn(u)

    def links(self):
        """One canonical entry per link: dict key -> weight (frozenset of endpoints if undirected)."""
        if self.directed:
            return dict(self.E)
        return {frozenset(k): w for k, w in self.E.items()}

    def copy(self):
        r = Ref(self.aspects, self.directed, self.noedge, self.fi)
        r.dims = [set(d) for d in self.dims]
        r._nls = set(self._nls)
        r.E = dict(self.E)
        return r


def key(u):
    """Index used to reach a node-layer in the library: bare name when there are no aspects."""
    return u[0] if len(u) == 1 else tuple(u)


def link(u, v):
    """(i,s,..),(j,r,..) -> (i,j,s,r,..)"""
    out = []
    for a, b in zip(u, v):
        out += [a, b]
    return tuple(out)


def unlink(e):
    return tuple(e[0::2]), tuple(e[1::2])


# ------------------------------------------------------------------------------- building nets
def P():
    import pymnet
    return pymnet


def coupling_args(cs):
    """spec couplings -> argument for MultiplexNetwork.  Each: None | 'none' | ['categorical', w] |
    'categorical' | ['ordinal', w] | 'ordinal' | {'net': [(l1,l2,w)..], 'directed': bool, 'layers': []}"""
    from pymnet.net import MultilayerNetwork
    out = []
    for c in cs:
        if isinstance(c, dict):
            m = MultilayerNetwork(aspects=0, directed=c["directed"], noEdge=c.get("noedge", 0))
            for l in c["layers"]:
                m.add_node(l)
            for a, b, w in c["net"]:
                m[a, b] = w
            out.append(m)
        elif isinstance(c, (list, tuple)):
            out.append(tuple(c))
        else:
            out.append(c)
    return out


def build(spec):
    """Build the real network through the public interface."""
    from pymnet.net import MultilayerNetwork, MultiplexNetwork
    kw = dict(aspects=spec["aspects"], noEdge=spec.get("noedge", 0), directed=spec["directed"], fullyInterconnected=spec["fi"])
    if spec["kind"] != "ml":
        del kw["aspects"]
    if len(spec["edges"]) % 2:      # the documented defaults
        kw = {k: v for k, v in kw.items() if v != dict(aspects=0, noEdge=0, directed=False, fullyInterconnected=True)[k]}
    net = MultilayerNetwork(**kw) if spec["kind"] == "ml" else MultiplexNetwork(couplings=coupling_args(spec["couplings"]), **kw)
    for n in spec["nodes"]:
        net.add_node(n)
    for a, ls in enumerate(spec["layers"]):
        for l in ls:
            net.add_layer(l, a + 1)
    for nl in spec.get("nls", []):
        net.add_node(nl[0], layer=(nl[1] if spec["aspects"] == 1 else tuple(nl[1:])))
    for u, v, w in spec["edges"]:
        net[link(u, v)] = w
    return net


def coupling_weight(c, l1, l2):
    """Weight of the implied inter-layer link l1->l2 in one aspect, or None."""
    if c is None or c == "none" or (isinstance(c, (list, tuple)) and c[0] == "none"):
        return None
    if isinstance(c, dict):
        w = None
        for a, b, x in c["net"]:
            if (a, b) == (l1, l2) or (not c["directed"] and (b, a) == (l1, l2)):
                w = None if x == c.get("noedge", 0) else x
        return w
    kind, w = (c, 1.0) if isinstance(c, str) else (c[0], c[1] if len(c) > 1 else 1.0)
    if kind == "categorical":
        return w if l1 != l2 else None
    if kind == "ordinal":
        return w if abs(l1 - l2) == 1 else None
    raise AssertionError(c)


def ref(spec, couplings=True):
    """Reference graph of a spec, coupling links made explicit."""
    r = Ref(spec["aspects"], spec["directed"], spec.get("noedge", 0), spec["fi"])
    for n in spec["nodes"]:
        r.add_node(n)
    for a, ls in enumerate(spec["layers"]):
        for l in ls:
            r.add_layer(l, a + 1)
    for nl in spec.get("nls", []):
        r.add_node(nl[0], tuple(nl[1:]))
    for u, v, w in spec["edges"]:
        r.set(tuple(u), tuple(v), w)
    if spec["kind"] == "mx" and couplings:
        add_couplings(r, spec["couplings"])
    return r


def add_couplings(r, cs):
    nls = r.nls
    for u in nls:
        for a in range(1, r.aspects + 1):
            for l in r.dims[a]:
                if l == u[a]:
                    continue
                v = u[:a] + (l,) + u[a + 1:]
                if v in nls:
                    w = coupling_weight(cs[a - 1], u[a], l)
                    if w is not None and w != r.noedge:
                        r.E[(u, v)] = w


# --------------------------------------------------------------------------- observing real nets
def edge_list(net):
    """[(u, v, w)] as iterated by net.edges."""
    out = []
    for e in net.edges:
        u, v = unlink(e[:-1])
        out.append((u, v, e[-1]))
    return out


def links_of(net):
    """Links as reported by the edge iterator, and the number of repetitions seen."""
    d, n = {}, 0
    for u, v, w in edge_list(net):
        d[(u, v) if net.directed else frozenset((u, v))] = w
        n += 1
    return d, n


def observe(net):
    """Full public observation of a network: node sets, node-layers, directed link dictionary."""
    nls = list(net.iter_node_layers())
    E = {}
    for u in nls:
        for v in net[key(u)].iter_out():
            v = v if isinstance(v, tuple) and net.aspects > 0 else (v,)
            E[(u, v)] = net[link(u, v)]
    return nls, E


def same_state(net, r, check, what="", pairs=False):
    """The network's public state is exactly the reference's: dimension sets, node-layers and links."""
    for a in range(r.aspects + 1):
        check(set(net.slices[a]) == r.dims[a], what, "dimension %d: %r, expected %r" % (a, set(net.slices[a]), r.dims[a]))
    nls = list(net.iter_node_layers())
    check(len(nls) == len(set(nls)), what, "iter_node_layers repeats an entry:", nls)
    check(set(nls) == r.nls, what, "node-layers %r, expected %r" % (sorted(map(repr, nls)), sorted(map(repr, r.nls))))
    d, n = links_of(net)
    check(n == len(d), what, "edge iterator repeats an edge")
    exp = r.links()
    check(d == exp, what, "edges %r, expected %r" % (d, exp))
    if pairs:
        for u in itertools.product(*r.dims):
            for v in itertools.product(*r.dims):
                check(net[link(u, v)] == r.w(u, v), what, "link %r->%r is %r, expected %r" % (u, v, net[link(u, v)], r.w(u, v)))
