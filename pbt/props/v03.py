"""V03: the web figures (d3 and three.js scripts) are valid scripts that contain exactly the network."""
import io, json, math, os, random, re, subprocess, tempfile
from hypothesis import strategies as st
from pbt.harness import HarnessError, case, check, fail, raises
from pbt.model import build, ref
from pbt import gen

CASES = []
ASSUMPTIONS = ["The scripts are executed with node against stand-ins of d3 and three.js."]
POS = gen.weights_pos
ODD = ["O'Hara", 'say "hi"', "back\\slash", "</script>", "<!--", "<script>", "<!-- <script>", "<SCRIPT ", "<b>", "new\nline", "tab\t", "@netjson", "{}", "é", "日本", "&amp;", "", " ", "\u2028", "${x}", "`", "// x", "null"]


SL = (gen.LSTRS, gen.LINTS)       # the default layer order is by name


@st.composite
def web_spec(draw):
    spec = draw(gen.mx_spec(aspects=(1,), weights=gen.weights_any, min_nodes=1, max_nodes=6, max_layers=4, dense=draw(st.booleans())))
    if draw(st.booleans()):
        pick = [x for x in draw(st.permutations(ODD)) if x not in spec["nodes"] and x not in spec["layers"][0]]
        names = {n: (pick[i] if draw(st.booleans()) else n) for i, n in enumerate(spec["nodes"])}
        lnames = {l: (pick[-1 - i] if draw(st.booleans()) else l) for i, l in enumerate(spec["layers"][0])}
        f = lambda u: (names[u[0]], lnames[u[1]])
        spec = dict(spec, nodes=[names[n] for n in spec["nodes"]], layers=[[lnames[l] for l in spec["layers"][0]]], nls=[f(u) for u in spec["nls"]],
                    edges=[(f(u), f(v), w) for u, v, w in spec["edges"]], couplings=["categorical" if isinstance(spec["couplings"][0], dict) or spec["couplings"][0] in ("ordinal",) or "ordinal" in str(spec["couplings"][0]) else spec["couplings"][0]])
    return spec


D3 = """
const fs=require('fs'), vm=require('vm');
const any=new Proxy(function(){},{get:(t,k)=>k===Symbol.toPrimitive?()=>0:any, apply:()=>any, construct:()=>any});
const out=[];
for (const s of JSON.parse(fs.readFileSync(0,'utf8'))) {
 const calls={layers:[],force:null};
 const ctx={d3:any, console:console, result:null};
 try { vm.createContext(ctx); for (const part of s) vm.runInContext(part,ctx); out.push({net:ctx.mpnet}); } catch (e) { out.push({error:String(e)}); }
}
console.log(JSON.stringify(out));
"""


def node_js(program, data):
    p = subprocess.run(["node", "-e", program], input=json.dumps(data), capture_output=True, text=True, timeout=60)
    if p.returncode:
        raise HarnessError("node failed: " + p.stderr[-500:])
    return json.loads(p.stdout)


def scripts(html):
    """Contents of the script elements without a source, as an HTML parser sees them."""
    out, i = [], 0
    while True:
        m = re.compile(r"<script([^>]*)>", re.I).search(html, i)
        if not m:
            return out
        state, end = "data", None
        for k in re.compile(r"<!--|-->|<(/?)script(?=[\s/>])", re.I).finditer(html, m.end()):
            t = k.group().lower()
            if t == "<!--":
                state = "escaped" if state == "data" else state
            elif t == "-->":
                state = "data"
            elif t == "<script":
                state = "double" if state == "escaped" else state
            elif state == "double":
                state = "escaped"
            else:
                end = k
                break
        check(end, "a script element is not closed")
        if "src" not in m.group(1):
            out.append(html[m.end():end.start()])
        i = end.end()


class Sink(io.StringIO):
    text = None

    def close(self):
        self.text = self.getvalue()
        super().close()


@case(CASES, st.tuples(web_spec(), st.sampled_from(["string", "file", "name"])), quick=300, rule="a link and two layers or more")
def webplot(t, rec):
    """The data in the d3 page are the nodes, the layers and the intra-layer links of the network."""
    from pymnet.visuals import webplots
    spec, how = t
    r = ref(spec)
    net = build(spec)
    page = webplots.webplot(net)
    if how == "file":
        f = Sink()
        check(webplots.webplot(net, f) is None, "webplot returned something although there is a file")
        text = f.text if f.text is not None else f.getvalue()
    elif how == "name":
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "page.html")
            if spec["directed"]:   # there may be another page
                with open(p, "w") as f:
                    f.write(page + "<p>old</p>" * 9)
            check(webplots.webplot(net, p) is None, "webplot returned something although there is a file")
            with open(p) as f:
                text = f.read()
    else:
        text = page
    check("<p>old</p>" not in text, "the old contents of the file are still there")
    check(page in text, "the page in the file is not the page returned")
    got = node_js(D3, [scripts(text)])[0]
    check("error" not in got, "the script does not run:", got.get("error"))
    got = got["net"]
    key = lambda x: json.dumps(x)
    check(sorted(key(n["name"]) for n in got["nodes"]) == sorted(map(key, r.dims[0])), "nodes", got["nodes"])
    check(sorted(key(n["name"]) for n in got["layers"]) == sorted(map(key, r.dims[1])), "layers", got["layers"])
    want = {}
    for (u, v), w in r.E.items():
        if u[1] == v[1]:
            k = (u[0], v[0]) if r.directed else frozenset((u[0], v[0]))
            want[(k, u[1])] = w
    links = {}
    for l in got["links"]:
        a, b, layer = got["nodes"][l["source"]]["name"], got["nodes"][l["target"]]["name"], got["layers"][l["layer"]]["name"]
        k = ((a, b) if r.directed else frozenset((a, b)), layer)
        check(k not in links, "the link", k, "is there twice")
        links[k] = l["value"]
    check(links == want, "links", links, "expected", want)
    check(net == build(spec), "the network was modified")
    check(raises(Exception, webplots.webplot, build(dict(spec, kind="ml", edges=[]))), "a network that is not a multiplex was accepted")
    rec.nontrivial(bool(want) and len(r.dims[1]) > 1)
    rec.label(how, "odd" if any(n in ODD for n in list(r.dims[0]) + list(r.dims[1])) else "plain", "directed" if r.directed else "undirected")


THREE = """
const fs=require('fs'), vm=require('vm');
const any=new Proxy(function(){},{get:(t,k)=>k===Symbol.toPrimitive?()=>0:any, apply:()=>any, construct:()=>any});
class V { constructor(x,y,z){this.x=x;this.y=y;this.z=z;} set(x,y,z){this.x=x;this.y=y;this.z=z;return this;} copy(v){return this.set(v.x,v.y,v.z);} clone(){return new V(this.x,this.y,this.z);}
 subVectors(a,b){return this.set(a.x-b.x,a.y-b.y,a.z-b.z);} addVectors(a,b){return this.set(a.x+b.x,a.y+b.y,a.z+b.z);} multiplyScalar(s){return this.set(this.x*s,this.y*s,this.z*s);}
 length(){return Math.sqrt(this.x*this.x+this.y*this.y+this.z*this.z);} normalize(){const l=this.length()||1;return this.multiplyScalar(1/l);} toArray(){return [this.x,this.y,this.z];} }
const out=[];
for (const s of JSON.parse(fs.readFileSync(0,'utf8'))) {
 const items=[];
 const base={Vector3:V, Scene:function(){this.position=new V(0,0,0); this.add=function(o){items.push(o);};},
  Mesh:function(g,m){this.geometry=g;this.position=new V(0,0,0);this.setRotationFromEuler=function(r){this.rotation=r;};},
  SphereGeometry:function(r){this.kind='sphere';this.r=r;}, CylinderGeometry:function(a,b,l){this.kind='cylinder';this.length=l;},
  ArrowHelper:function(d,o,l){this.rotation=d.clone();}};
 const ctx={THREE:new Proxy(base,{get:(t,k)=>k in t?t[k]:any}), window:{innerWidth:100,innerHeight:100}, document:any, Detector:any, requestAnimationFrame:()=>0, console:console};
 try { vm.createContext(ctx); for (const part of s) vm.runInContext(part,ctx);
  const rows=[]; for (const o of items) if (o && o.geometry && typeof o.geometry.kind==='string') rows.push({kind:o.geometry.kind, at:o.position.toArray(), r:o.geometry.r, length:o.geometry.length, dir:o.rotation?o.rotation.toArray():null});
  out.push({items:rows}); } catch (e) { out.push({error:String(e)}); }
}
console.log(JSON.stringify(out));
"""


@st.composite
def three_case(draw, nets=None):
    spec = draw(nets if nets is not None else st.one_of(gen.mx_spec(aspects=(1,), layer_pools=SL, weights=POS, min_nodes=1, max_layers=4, dense=True), gen.ml_spec(aspects=(1,), layer_pools=SL, weights=POS, min_nodes=1, loops=False, max_layers=4, dense=True)))
    r = ref(spec)
    c = st.tuples(st.integers(-8, 8), st.integers(-8, 8)).map(lambda t: (t[0] / 4, t[1] / 4))
    return spec, {n: draw(c) for n in sorted(r.dims[0], key=repr)}, draw(st.sampled_from([1.0, 2.5])), draw(st.sampled_from([0.05, 0.2])), draw(st.sampled_from([0.05, 0.3]))


@case(CASES, three_case(), quick=300, rule="links in a layer and between layers")
def three(t, rec):
    """The three.js scene has one sphere per node-layer and a cylinder from end to end of every link."""
    from pymnet.visuals.drawcore import draw
    spec, coords, gap, size, pad = t
    r = ref(spec)
    net = build(spec)
    page = draw(net, layout="circular", backend="threejs", nodeCoords=coords, layergap=gap, layerPadding=pad, nodeSizeRule={}, defaultNodeSize=size)
    got = node_js(THREE, [scripts(page)])[0]
    check("error" not in got, "the script does not run:", got.get("error"))
    order = sorted(r.dims[1])
    z = {l: (len(order) - 1 - i) * gap for i, l in enumerate(order)}
    ns = {u[0] for u in r.nls}
    lo = [min(coords[n][d] for n in ns) - size / 2 for d in (0, 1)]
    hi = [max(coords[n][d] for n in ns) + size / 2 for d in (0, 1)]
    at = {u: [(coords[u[0]][d] - lo[d] + pad) / (hi[d] - lo[d] + 2 * pad) for d in (0, 1)] + [z[u[1]]] for u in r.nls}
    spheres = [i["at"] for i in got["items"] if i["kind"] == "sphere"]
    tubes = [i for i in got["items"] if i["kind"] == "cylinder"]
    check(len(spheres) == len(at), len(spheres), "spheres for", len(at), "node-layers")
    # the scale of the scene is the backend's business; it is the same everywhere
    far = max(max(map(abs, p)) for p in at.values())
    scale = max(max(map(abs, p)) for p in spheres) / far
    check(scale > 0, "all spheres are at the origin")
    key = lambda p: tuple(round(x / scale, 4) + 0.0 for x in p)
    eq = lambda p, q: all(abs(x - y) < 2e-4 for x, y in zip(p, q))
    have = [key(p) for p in spheres]
    for u, p in at.items():
        m = [h for h in have if eq(h, p)]
        check(m, "no sphere for", u, "at", p, "; spheres:", have)
        have.remove(m[0])
    lines = []
    for i in tubes:
        d = [x * i["length"] / 2 for x in i["dir"]]
        lines.append((key([x - y for x, y in zip(i["at"], d)]), key([x + y for x, y in zip(i["at"], d)])))
    used = set()
    for (u, v) in r.E:
        m = [k for k, (a, b) in enumerate(lines) if (eq(a, at[u]) and eq(b, at[v])) or (eq(b, at[u]) and eq(a, at[v]))]
        check(m, "no line for the link", u, v, "from", at[u], "to", at[v], "; lines:", lines)
        used.update(m)
    check(used == set(range(len(lines))), "lines without a link:", [lines[k] for k in range(len(lines)) if k not in used])
    check(net == build(spec), "the network was modified")
    rec.nontrivial(any(u[1] == v[1] for u, v in r.E) and any(u[1] != v[1] for u, v in r.E))
    rec.label("directed" if r.directed else "undirected", "layers%d" % len(order))


gen.again(CASES, "larger_webplot", webplot, lambda: st.tuples(gen.big_spec(kind=("mx",), aspects=(1,), nodes=(8, 40)), st.sampled_from(["string", "file", "name"])), quick=160, rule="a link and two layers or more")
gen.again(CASES, "larger_three", three, lambda: three_case(gen.big_spec(aspects=(1,), noedge=(0,), weights="pos", loops=False, nodes=(6, 15), limit=40, degree=(1, 2, 4))), quick=160, rule="links in a layer and between layers")
