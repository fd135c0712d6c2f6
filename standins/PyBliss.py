"""Stand-in for the PyBliss package (not installed): same interface, brute-force algorithms.

Vertex-coloured undirected graphs; canonical labelling by individualisation and colour refinement with
pruning by the automorphisms found, so it is complete for the small graphs the checks use."""
import random
import zlib


def _refine(adj, colors):
    """Equitable refinement; colours are renumbered canonically 0..k-1."""
    n = len(adj)
    while True:
        sig = [(colors[v], tuple(sorted(colors[w] for w in adj[v]))) for v in range(n)]
        order = {s: i for i, s in enumerate(sorted(set(sig)))}
        new = [order[s] for s in sig]
        if len(order) == len(set(colors)):
            return new
        colors = new


class Graph(object):
    def __init__(self):
        self._color, self._adj = {}, {}

    def add_vertex(self, v, color=0):
        self._color[v] = color
        self._adj.setdefault(v, set())

    def add_edge(self, v1, v2):
        for v in (v1, v2):
            if v not in self._color:
                self.add_vertex(v)
        self._adj[v1].add(v2)
        self._adj[v2].add(v1)

    def _int(self):
        vs = list(self._color)
        idx = {v: i for i, v in enumerate(vs)}
        return vs, [sorted(idx[w] for w in self._adj[v]) for v in vs], [self._color[v] for v in vs]

    def _search(self):
        """(canonical labelling as list, automorphism generators as lists)"""
        vs, adj, col = self._int()
        n = len(vs)
        ranks = {c: i for i, c in enumerate(sorted(set(col)))}
        best, gens = [None, None], []

        def leaf(colors):
            form = tuple(sorted((min(colors[v], colors[w]), max(colors[v], colors[w])) for v in range(n) for w in adj[v] if v <= w))
            if best[0] is None or form < best[0]:
                best[0], best[1] = form, list(colors)
            elif form == best[0]:
                inv = {c: v for v, c in enumerate(best[1])}
                perm = [inv[colors[v]] for v in range(n)]
                if perm != list(range(n)):
                    gens.append(perm)

        def orbit(v, path):
            fix = [g for g in gens if all(g[x] == x for x in path)]
            out, todo = {v}, [v]
            while todo:
                x = todo.pop()
                for g in fix:
                    if g[x] not in out:
                        out.add(g[x])
                        todo.append(g[x])
            return out

        def go(colors, path):
            colors = _refine(adj, colors)
            cells = {}
            for v, c in enumerate(colors):
                cells.setdefault(c, []).append(v)
            open_ = [c for c in sorted(cells) if len(cells[c]) > 1]
            if not open_:
                leaf(colors)
                return
            done = []
            for v in cells[open_[0]]:
                # orbits under the inverse too: generators have finite order, so forward closure suffices
                if any(v in orbit(d, path) for d in done):
                    continue
                done.append(v)
                go([2 * c + (0 if x == v or c != open_[0] else 1) for x, c in enumerate(colors)], path + [v])

        go([ranks[c] for c in col], [])
        return vs, best[1], gens

    def canonical_labeling(self):
        vs, lab, _ = self._search()
        return {v: lab[i] for i, v in enumerate(vs)}

    def relabel(self, lab):
        g = Graph()
        for v, c in self._color.items():
            g.add_vertex(lab[v], c)
        for v in self._adj:
            for w in self._adj[v]:
                g.add_edge(lab[v], lab[w])
        return g

    def _form(self):
        return (tuple(sorted(self._color.items())), tuple(sorted((v, w) for v in self._adj for w in self._adj[v] if v <= w)))

    def __str__(self):
        return repr(self._form())

    def find_automorphisms(self, report_function, report_function_arg=None):
        vs, _, gens = self._search()
        for g in gens:
            report_function({vs[i]: vs[j] for i, j in enumerate(g)}, report_function_arg)

    def get_isomorphism(self, other):
        # any isomorphism is a valid answer: the canonical one is preceded by some automorphism, chosen by the content of the graphs
        vs, lab, gens = self._search()
        a, b = {v: lab[i] for i, v in enumerate(vs)}, other.canonical_labeling()
        if self.relabel(a)._form() != other.relabel(b)._form():
            return None
        inv = {l: v for v, l in b.items()}
        perm = list(range(len(vs)))
        rnd = random.Random(zlib.crc32(repr((self._form(), other._form())).encode()))
        for _ in range(rnd.randrange(2 * len(gens) + 2) if gens else 0):
            g = rnd.choice(gens)
            perm = [g[x] for x in perm]
        return {v: inv[lab[perm[i]]] for i, v in enumerate(vs)}
