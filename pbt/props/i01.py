"""I01: networks written to files and read from files are the networks that were meant."""
import io, itertools, json, os, shutil, tempfile
from hypothesis import strategies as st
from pbt.harness import case, check, raises, fail
from pbt.model import Ref, build, ref, links_of, same_state
from pbt import gen

CASES = []
LABELS = ["barry", "david", "lin", "pat", "russ", "x1", "22", "a-b"] + ["p%d" % i for i in range(9, 30)]
LEVELS = ["friend", "kin", "work", "club", "trade", "l6", "l7"]


def mixcase(s, k):
    return [s, s.upper(), s.capitalize(), s[:1] + s[1:].upper()][k % 4]


@st.composite
def dl_input(draw, big=False):
    n = draw(st.integers(6, 25) if big else st.integers(1, 5))
    nm = draw(st.sampled_from([1, 2, 4, 7] if big else [1, 1, 2, 3]))
    dens = draw(st.sampled_from([1, 3, 5, 8]))
    if big:
        import random
        rnd = random.Random(draw(st.integers(0, 10 ** 6)))
        bits = [rnd.randrange(10) for _ in range(n * n * nm)]
    else:
        bits = draw(st.lists(st.integers(0, 9), min_size=n * n * nm, max_size=n * n * nm))
    m = [[[1 if bits[(l * n + i) * n + j] < dens else 0 for j in range(n)] for i in range(n)] for l in range(nm)]
    opts = {"dl": draw(st.sampled_from(["dl", "DL", "Dl"])), "sameline": draw(st.booleans()), "nm1": draw(st.booleans()),
            "upper": draw(st.booleans()), "spaces": draw(st.booleans()),
            "format": draw(st.sampled_from([None, "fullmatrix", "FullMatrix", "fullmatrix diagonal present"])),
            "labels": draw(st.sampled_from(["none", "labels", "labels", "rowcol", "embedded", "row", "col", "labels+row", "labels+col", "two"])), "vary": draw(st.booleans()),
            "levels": draw(st.booleans()), "one": draw(st.sampled_from(["1", "1.0", "1", "2.5"])), "zero": draw(st.sampled_from(["0", "0.0"])),
            "split": draw(st.lists(st.booleans(), min_size=8, max_size=8)), "case": draw(st.integers(0, 3)), "case2": draw(st.integers(0, 3)),
            "wrap": draw(st.sampled_from([0, 0, 1, 2, 3])), "newline": draw(st.booleans()), "blank": draw(st.booleans()),
            "dataU": draw(st.booleans()), "form": draw(st.sampled_from(["list", "iter", "file", "path"])),
            "fi": draw(st.booleans()), "coup": draw(st.sampled_from([None, "none", ("categorical", 2.0), ("ordinal", 1.0)])),
            "order": draw(st.booleans())}
    return n, nm, m, opts


def labellines(names, split):
    """Commas and line changes mixed."""
    out, cur = [], []
    for i, x in enumerate(names):
        cur.append(x)
        if split[i % 8] or i == len(names) - 1:
            out.append((", " if split[(i + 1) % 8] else ",").join(cur))
            cur = []
    return out


def dl_names(n, o):
    """Row and column names (in lower case)."""
    k, a, b = o["labels"], LABELS[:n], LABELS[2:n + 2]
    return {"none": (list(range(n)),) * 2, "row": (a, list(range(n))), "col": (list(range(n)), a), "labels+row": (b, a), "labels+col": (a, b), "two": (a, b)}.get(k, (a, a))


def dl_value(x, y, o):
    return o["one"] if not o["vary"] else ["0.5", "1", "1.5", "-2", "2.5", "0.1234567890123", "1e-3", "-1", "123456.789"][(len(str(x)) + len(str(y)) + ord(str(x)[0]) + ord(str(y)[0])) % 9]


def dl_text(n, nm, m, o):
    eq = " = " if o["spaces"] else "="
    N, NM = ("N", "NM") if o["upper"] else ("n", "nm")
    size = N + eq + str(n)
    if nm > 1 or o["nm1"]:
        size += " " + NM + eq + str(nm)
    lines = [o["dl"] + " " + size] if o["sameline"] else [o["dl"], size]
    names = LABELS[:n]
    head = []
    if o["format"]:
        head.append(["format" + eq + o["format"]])
    rows, cols = dl_names(n, o)
    if o["labels"].startswith("labels"):
        head.append(["Labels:"] + labellines([mixcase(x, o["case"] + i) for i, x in enumerate(names)], o["split"]))
    if o["labels"] in ("rowcol", "row", "labels+row", "two"):
        head.append(["row labels:"] + labellines([mixcase(x, o["case"] + i) for i, x in enumerate(rows)], o["split"]))
    if o["labels"] in ("rowcol", "col", "labels+col", "two"):
        head.append(["column labels:"] + labellines([mixcase(x, o["case2"] + i) for i, x in enumerate(cols)], o["split"][::-1]))
    if o["labels"] == "embedded":
        head.append(["labels embedded"])
    if o["levels"] and nm > 1:
        head.append(["level labels:"] + labellines(["friend", "Kin", "work"][:nm] + LEVELS[3:nm], o["split"]))
    if o["order"]:
        head.reverse()
    for h in head:
        lines += h
    lines.append("DATA:" if o["dataU"] else "data:")
    if o["labels"] == "embedded":
        lines.append(" ".join(mixcase(x, o["case"] + i) for i, x in enumerate(names)))
    for l in range(nm):
        for i in range(n):
            f = [dl_value(rows[i], cols[j], o) if x else o["zero"] for j, x in enumerate(m[l][i])]
            if o["labels"] == "embedded":
                f = [mixcase(names[i], o["case2"] + i)] + f
            if o["wrap"]:
                lines += [" ".join(f[k:k + o["wrap"]]) for k in range(0, len(f), o["wrap"])]
            else:
                lines.append(("  " if o["spaces"] else "") + " ".join(f))
    if o["blank"]:
        lines.append("")
    return lines


@case(CASES, dl_input, quick=1500, rule="three nodes, some links and some missing links")
def ucinet(x, rec):
    from pymnet import netio
    n, nm, m, o = x
    lines = dl_text(n, nm, m, o)
    kw = {"fullyInterconnected": o["fi"]}
    if o["coup"] is not None:
        kw["couplings"] = o["coup"]
    d = None
    try:
        if o["form"] == "path":
            d = tempfile.mkdtemp(prefix="pbt-io-")
            p = os.path.join(d, "net.dl")
            with open(p, "w") as f:
                f.write("\n".join(lines) + ("\n" if o["newline"] else ""))
            net = netio.read_ucinet(p, **kw)
        elif o["form"] == "file":
            net = netio.read_ucinet(io.StringIO("\n".join(lines)), **kw)
        else:
            src = [l + "\n" for l in lines] if o["newline"] else lines
            net = netio.read_ucinet(iter(src) if o["form"] == "iter" else src, **kw)
    finally:
        if d:
            shutil.rmtree(d)
    rows, cols = dl_names(n, o)
    names = rows + [x for x in cols if x not in rows]
    levels = LEVELS[:nm] if o["levels"] else list(range(nm))
    r = Ref(0 if nm == 1 else 1, False, 0, nm == 1 or o["fi"])
    if nm > 1:
        for l in levels:
            r.add_layer(l)
    if o["fi"]:
        for i in names:
            r.add_node(i)
    tot = 0
    for l in range(nm):
        for i, j in itertools.product(range(n), range(n)):
            if m[l][i][j] and rows[i] != cols[j]:
                u, v = (rows[i],), (cols[j],)
                if nm > 1:
                    u, v = u + (levels[l],), v + (levels[l],)
                tot += r.w(u, v) == 0
                r.set(u, v, float(dl_value(rows[i], cols[j], o)))
    if nm == 1 and not o["fi"]:
        for i in set(net) & set(names):
            r.add_node(i)       # nodes without links are optional then
    if nm > 1:
        from pbt.model import add_couplings
        c = ("categorical", 1.0) if o["coup"] is None else o["coup"]
        if c != "none" and c[0] == "ordinal" and o["levels"]:
            c = None            # ordinal coupling of named levels has no meaning: look at the layers only
        if c is not None:
            add_couplings(r, [c])
        if c is None:
            for l in levels:
                check({frozenset(e[:2]) for e in net.A[l].edges} == {frozenset(a[0] for a in k) for k in r.links() if next(iter(k))[1] == l}, "links of level", l)
            return
    same_state(net, r, check, "network read from\n%s\n" % "\n".join(lines))
    rec.nontrivial(n > 2 and 0 < tot < nm * len(names) * (len(names) - 1) / 2)
    rec.label("nm%d" % nm, "labels-" + o["labels"], "wrap%d" % o["wrap"], o["form"], "fi" if o["fi"] else "nonfi")


gen.again(CASES, "larger_ucinet", ucinet, lambda: dl_input(big=True), quick=120, rule="three nodes, some links and some missing links")


@case(CASES, lambda: st.tuples(dl_input(), st.integers(0, 8)), quick=500, rule="always")
def ucinet_malformed(x, rec):
    """Input that is not a complete DL full matrix file is refused, not guessed."""
    from pymnet import netio
    (n, nm, m, o), how = x
    o = dict(o, wrap=0, blank=False, labels="none" if how == 4 else "two" if how == 8 else o["labels"])
    lines = dl_text(n, nm, m, o)
    di = [i for i, l in enumerate(lines) if l.lower().startswith("data")][0]
    if how == 0:
        lines = lines[1:] if o["sameline"] else ["xx"] + lines[1:]
    elif how == 1:
        lines = lines[:-1]                                       # last row missing
    elif how == 2:
        lines = lines[:di]                                       # no data
    elif how == 3:
        lines.insert(di, "nonsense command")
    elif how == 4:
        lines.insert(di, "format = edgelist1")
    elif how == 5:
        lines = lines[:di + 1] + [lines[di + 1] + " 1 1"] + lines[di + 2:]   # a row (or the labels) too long
    elif how == 6:
        lines = lines[: (1 if not o["sameline"] else 0)]
    elif how == 7:
        lines = lines[:di] + [o["case"] % 3 * "row " * (o["case"] < 2) + (o["case"] == 2) * "column " + "labels:", ",".join(LABELS[:n]), "labels embedded"] + lines[di:]
    elif how == 8:                                               # three descriptions of the names
        lines = lines[:di] + ["labels:", ",".join(LABELS[:n])] + lines[di:]
    check(raises(Exception, lambda: netio.read_ucinet(lines)), "malformed input (kind %d) accepted:\n%s" % (how, "\n".join(lines)))
    rec.nontrivial()
    rec.label("kind%d" % how)


WEIGHTS = st.sampled_from([1, 1, 2, 0.5, -1, -2.5, 0.1, 1 / 3.0, -2 / 7.0, 123456789.25, 1e-9, 1e22, 2 ** 60, 1234567, 0.1 + 0.2, 5e-324])
MXIO = st.one_of(gen.mx_spec(aspects=(1,), min_nodes=2, weights=WEIGHTS), gen.mx_spec(aspects=(1,), min_nodes=3, dense=True, weights=WEIGHTS))


@case(CASES, lambda: st.tuples(MXIO, st.sampled_from(["string", "path", "fileobj"])), quick=700, rule="at least two links in the layers")
def json_output(x, rec):
    from pymnet import netio
    spec, how = x
    net, g = build(spec), ref(spec, couplings=False)
    d = tempfile.mkdtemp(prefix="pbt-io-")
    try:
        p = os.path.join(d, "n.json")
        if how == "string":
            s = netio.write_json(net)
        else:
            check(netio.write_json(net, p if how == "path" else open(p, "w")) is None, "return value")
            s = open(p).read()
    finally:
        shutil.rmtree(d)
    j = json.loads(s)
    nodes = [v["name"] for v in j["nodes"]]
    layers = [v["name"] for v in j["layers"]]
    check(len(nodes) == len(set(nodes)) and set(nodes) == g.dims[0], "nodes", nodes)
    check(len(layers) == len(set(layers)) and set(layers) == g.dims[1], "layers", layers)
    links = {}
    for e in j["links"]:
        u, v = (nodes[e["source"]], layers[e["layer"]]), (nodes[e["target"]], layers[e["layer"]])
        k = (u, v) if g.directed else frozenset((u, v))
        check(k not in links, "link written twice", k)
        links[k] = e["value"]
    check(links == g.links(), "links %r, expected %r" % (links, g.links()))
    same_state(net, ref(spec), check, "original:")
    rec.nontrivial(len(links) > 1)
    rec.label(how, "directed" if g.directed else "undirected", "fi" if spec["fi"] else "nonfi")


@st.composite
def edgefile_input(draw):
    n, nl = draw(st.integers(2, 5)), draw(st.integers(1, 3))
    rows = draw(st.lists(st.tuples(st.sampled_from([1, 2, 5][:nl]), st.integers(1, n), st.integers(1, n), st.sampled_from([1, 2, 0.5, 3.25, -1, -0.5, 0.1, 1 / 3.0, 1e-9, 1e22, 123456789.25])), max_size=10))
    return rows, draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(["path", "list", "file"])), draw(st.sampled_from([" ", "\t", "  "])), \
        draw(st.sampled_from([None, "none", ("categorical", 2.0), "ordinal"])), draw(st.sampled_from([True, True, False]))


@case(CASES, edgefile_input, quick=700, rule="two links or more")
def edge_files_read(x, rec):
    """Every row 'layer from to weight' is a link of that layer (the last one counts); self-links are left out, or refused on request."""
    from pymnet import netio
    from pbt.model import add_couplings
    rows, fi, directed, form, sep, coup, ignore = x
    text = "".join(sep.join(map(str, r)) + "\n" for r in rows)
    kw = dict(fullyInterconnected=fi, directed=directed)
    if len(rows) % 2:       # the defaults
        kw = {k: v for k, v in kw.items() if v != dict(fullyInterconnected=True, directed=False)[k]}
    if coup is not None:
        kw["couplings"] = coup
    if not ignore:
        kw["ignoreSelfLink"] = False
    d = tempfile.mkdtemp(prefix="pbt-io-")
    try:
        p = os.path.join(d, "e.txt")
        with open(p, "w") as f:
            f.write(text)
        src = p if form == "path" else text.splitlines() if form == "list" else open(p)
        if not ignore and any(a == b for _, a, b, _ in rows):
            check(raises(KeyError, lambda: netio.read_edge_files(src, **kw)), "a self-link that was not to be ignored is not refused")
            return
        net = netio.read_edge_files(src, **kw)
        if form == "file":
            src.close()
    finally:
        shutil.rmtree(d)
    r = Ref(1, directed, 0, fi)
    for l, a, b, w in rows:
        if a != b:
            r.set((a, l), (b, l), float(w))
    add_couplings(r, ["categorical" if coup is None else coup])
    same_state(net, r, check, "read from\n%s" % text)
    rec.nontrivial(len({(l, a, b) for l, a, b, w in rows if a != b}) > 1)
    rec.label(form, "directed" if directed else "undirected", "fi" if fi else "nonfi")


@case(CASES, lambda: st.tuples(gen.mx_spec(aspects=(1,), min_nodes=2, dense=True, weights=WEIGHTS, node_pools=(gen.INTS,), layer_pools=(gen.LINTS, gen.LSTRS)),
                               st.booleans(), st.booleans(), st.booleans(), st.sampled_from(["\t", " ", ";"])), quick=700, rule="two links or more")
def edge_files_written(x, rec):
    """One file per layer with every link once; with int names the rows read back as the same links."""
    from pymnet import netio
    spec, weights, master, numeric, sep = x
    net, g = build(spec), ref(spec, couplings=False)
    d = tempfile.mkdtemp(prefix="pbt-io-")
    try:
        pre = os.path.join(d, "out-")
        kw = dict(columnSeparator=sep, weights=weights, masterFile=master, numericNodes=numeric)
        netio.write_edge_files(net, pre, **{k: v for k, v in kw.items() if v != dict(columnSeparator="\t", weights=True, masterFile=False, numericNodes=False)[k]})
        files = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
    finally:
        shutil.rmtree(d)
    exp = {"out-%s.edg" % l for l in g.dims[1]} | ({"out-.txt"} if master else set())
    check(set(files) == exp, "files %r, expected %r" % (sorted(files), sorted(exp)))
    if master:
        rows = files["out-.txt"].splitlines()
        check(sorted(rows) == sorted("out-%s.edg;%s;" % (l, l) for l in g.dims[1]), "master file", rows)
    got, conv = {}, lambda s: int(s)
    for l in g.dims[1]:
        for line in files["out-%s.edg" % l].splitlines():
            f = line.split(sep)
            check(len(f) == (3 if weights else 2), "columns in", line)
            u, v = (conv(f[0]), l), (conv(f[1]), l)
            k = (u, v) if g.directed else frozenset((u, v))
            check(k not in got, "link written twice", k)
            got[k] = float(f[2]) if weights else 1
    want = g.links() if weights else {k: 1 for k in g.links()}
    if numeric:
        nodes = sorted(g.dims[0])
        check(all(0 <= u[0] < len(nodes) for k in got for u in k), "node numbers out of range")

        def renamed(m):
            return {(tuple((m[u[0]], u[1]) for u in k) if g.directed else frozenset((m[u[0]], u[1]) for u in k)): w for k, w in want.items()}
        check(any(renamed(dict(zip(nodes, p))) == got for p in itertools.permutations(range(len(nodes)))),
              "no numbering of the nodes turns the network into the files")
    else:
        check(got == want, "links in the files %r, expected %r" % (got, want))
    if not numeric and weights and not g.directed and all(isinstance(l, int) for l in g.dims[1]):
        lines = ["%s %s" % (l, row.replace(sep, " ")) for l in g.dims[1] for row in files["out-%s.edg" % l].splitlines()]
        back = netio.read_edge_files(lines, fullyInterconnected=spec["fi"])
        check({k: float(w) for k, w in want.items()} == {k: w for k, w in links_of(back)[0].items() if len({u[1] for u in k}) == 1}, "round trip")
    rec.nontrivial(len(want) > 1)
    rec.label("weights" if weights else "plain", "numeric" if numeric else "names", "directed" if g.directed else "undirected")


MXBIG = dict(kind=("mx",), aspects=(1,))
gen.again(CASES, "larger_json_output", json_output, st.tuples(gen.big_spec(**MXBIG), st.sampled_from(["string", "path", "fileobj"])), quick=40, rule="at least two links in the layers")
gen.again(CASES, "larger_edge_files_written", edge_files_written, st.tuples(gen.big_spec(names=("int",), **MXBIG), st.booleans(), st.booleans(), st.just(False), st.sampled_from(["\t", " ", ";"])), quick=40,
          rule="two links or more")



def ucinet_roundtrip(spec, rec):
    """Finding: write_ucinet is a stub."""
    from pymnet import netio
    net = build(spec)
    d = tempfile.mkdtemp(prefix="pbt-io-")
    try:
        p = os.path.join(d, "n.dl")
        netio.write_ucinet(net, p)
        size = os.path.getsize(p)
        check(size > 0, "write_ucinet writes an empty file")
        back = netio.read_ucinet(p)
    finally:
        shutil.rmtree(d)
    check({k for k in links_of(back)[0]} == {k for k in links_of(net)[0]}, "links differ")


PROBES = {"ucinet_roundtrip": ucinet_roundtrip}
