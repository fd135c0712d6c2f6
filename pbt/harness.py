"""Runner shared by all checks: drives Hypothesis generators against the oracles in pbt.props.*,
measures coverage, writes evidence and replay files.

A property module registers tests with @case(...).  A test receives one plain-literal `spec`
(drawn by a Hypothesis strategy) and a Rec object for classification; it raises Violation through
check()/fail().  Any other exception is attributed by its traceback: if pymnet code is on it, the
library failed on an input in its domain (a violation); otherwise the harness is wrong (exit 2)."""
import ast, hashlib, importlib, json, multiprocessing, os, pprint, resource, signal, sys, tempfile
import time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP_DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
WHEELS = "/opt/veriftools/wheels"

PROP_MODULES = {}          # property id -> module name, filled by pbt.props.index
QUICK_SEARCHES = 3         # independent searches (seeds) per case family in the quick tier
CPU_LIMIT_PER_CASE = 60.0  # CPU seconds; cases take milliseconds: beyond this = does not terminate


class Violation(Exception):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The machinery itself is wrong."""


class Skip(Exception):
    """This generated case is outside the property's domain (counted, never a pass)."""


class _CpuTimeout(BaseException):
    pass


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def fail(*msg):
    raise Violation(" ".join(str(m) for m in msg))


def raises(exc, f, *a, **k):
    """True if f raises exc; other exceptions propagate."""
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def setup_paths():
    if sys.path and sys.path[0] == "":
        sys.path.pop(0)
    sys.path.insert(0, REPO)
    # the brute-force stand-in for the (absent) PyBliss package must be importable before pymnet is
    sys.path.insert(0, os.path.join(VERIF, "standins"))
    try:
        import hypothesis  # noqa
    except ImportError:
        for d in HYP_DIRS:
            if os.path.isdir(os.path.join(d, "hypothesis")):
                sys.path.append(d)
                break
        try:
            import hypothesis  # noqa
        except ImportError:
            import glob
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                for w in sorted(glob.glob(os.path.join(WHEELS, pat))):
                    sys.path.append(w)
            import hypothesis  # noqa
    if not os.environ.get("MPLCONFIGDIR"):
        d = "/opt/venv/mplconfig"
        os.environ["MPLCONFIGDIR"] = d if os.path.isdir(d) else tempfile.gettempdir()
    import pymnet
    here = os.path.dirname(os.path.abspath(pymnet.__file__))
    if here != os.path.join(REPO, "pymnet"):
        raise HarnessError("pymnet imported from %s, not from %s" % (here, REPO))


# ------------------------------------------------------------------------------- registration
class Case:
    def __init__(self, name, strategy, func, quick, thorough, rule, cpu):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.thorough, self.rule, self.cpu = quick, thorough, rule, cpu


def case(registry, strategy, quick=200, thorough=None, rule="", name=None, cpu=CPU_LIMIT_PER_CASE):
    def deco(f):
        c = Case(name or f.__name__, strategy, f, quick, thorough or quick * 30, rule, cpu)
        if any(x.name == c.name for x in registry):
            raise HarnessError("duplicate case " + c.name)
        registry.append(c)
        return f
    return deco


class Rec:
    """Per-case classification."""

    def __init__(self):
        self.trivial = True
        self.labels = []
        self.evals = 0

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False

    def label(self, *names):
        self.labels.extend(names)


def _pymnet_frames(exc):
    out = []
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if fr.filename.startswith(os.path.join(REPO, "pymnet")):
                out.append("%s:%s in %s" % (os.path.relpath(fr.filename, REPO), fr.lineno, fr.name))
        exc = exc.__cause__ or exc.__context__
    return out


def run_one(c, spec, rec):
    """Run one case; return None or raise Violation / HarnessError / Skip."""
    def on_cpu(signum, frame):
        raise _CpuTimeout()
    old = signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, c.cpu)
    try:
        c.func(spec, rec)
    except (Violation, HarnessError, Skip):
        raise
    except _CpuTimeout as e:
        fr = _pymnet_frames(e)
        if fr:
            raise Violation("does not terminate within %g CPU seconds; in %s" % (c.cpu, fr[-1])) from e
        raise HarnessError("harness exceeded the CPU limit of a case") from e
    except Exception as e:
        fr = _pymnet_frames(e)
        if fr:
            raise Violation("unexpected %s: %s  [%s]" % (type(e).__name__, e, " <- ".join(fr[-3:]))) from e
        if isinstance(e, (TypeError, AttributeError, LookupError, ArithmeticError, ValueError)):
            # the oracle could not evaluate what it got from the library: a result of another type or shape than promised
            here = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("the results cannot be evaluated: %s: %s  [%s:%s]" % (type(e).__name__, e, os.path.basename(here.filename), here.lineno)) from e
        raise HarnessError("exception in the harness: %r\n%s" % (e, traceback.format_exc())) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _digest(spec):
    return hashlib.blake2b(repr(spec).encode(), digest_size=8).hexdigest()


def _run_case(c, seed, n, out):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    # Hypothesis follows every drawn case by up to five copies with parts duplicated; the strategies here draw
    # repetitions themselves, so keep that for few cases and spend the budget on freshly drawn ones.
    mutate = getattr(eng.ConjectureRunner, "generate_mutations_from", None)
    if mutate is not None and not getattr(mutate, "_thinned", False):
        def thinned(self, data):
            if self.random.random() < 0.08:
                mutate(self, data)
        thinned._thinned = True
        eng.ConjectureRunner.generate_mutations_from = thinned
    st = {"evaluations": 0, "skipped": 0, "labels": {}, "samples": [], "nontrivial": set()}
    bad = {}
    t0 = time.time()

    def body(spec):
        if bad.get("stop"):
            raise bad["exc"]
        rec = Rec()
        st["evaluations"] += 1
        try:
            run_one(c, spec, rec)
        except Skip:
            st["skipped"] += 1
            return
        except Violation as e:
            bad["spec"], bad["exc"] = spec, e
            if "does not terminate" in str(e):
                bad["stop"] = True
            raise
        except HarnessError as e:
            bad["harness"] = (spec, e)
            raise
        for l in rec.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if not rec.trivial:
            h = _digest(spec)
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len(st["samples"]) < 3 or (st["evaluations"] % 97 == 0 and len(st["samples"]) < 5):
                    s = repr(spec)
                    if len(s) < 1500:
                        st["samples"].append(s)

    strat = c.strategy() if callable(c.strategy) else c.strategy
    test = given(strat)(body)
    test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed((seed * 1000003 + zlib.crc32(c.name.encode())) & 0x7FFFFFFF)(test)
    res = {"case": c.name, "status": "ok"}
    try:
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except HarnessError as e:
        res["status"], res["error"] = "error", str(e)
    except Exception as e:
        if "harness" in bad:
            res["status"], res["error"] = "error", "%s\nspec=%r" % (bad["harness"][1], bad["harness"][0])
        elif "spec" in bad:
            res["status"] = "violation"
            res["spec"] = repr(bad["spec"])
            res["message"] = str(bad["exc"])
        else:
            res["status"], res["error"] = "error", traceback.format_exc()
    if res["status"] == "ok" and "spec" in bad:
        res["status"], res["spec"], res["message"] = "violation", repr(bad["spec"]), str(bad["exc"])
    st["wall"] = time.time() - t0
    st["nontrivial"] = sorted(st["nontrivial"])
    res.update(st)
    with open(out, "w") as f:
        json.dump(res, f)


def _child(modname, idx, seed, n, out):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(3000)
        mod = importlib.import_module(modname)
        _run_case(mod.CASES[idx], seed, n, out)
    except BaseException:
        with open(out, "w") as f:
            json.dump({"case": "#%d" % idx, "status": "error", "error": traceback.format_exc()}, f)
    os._exit(0)


# ------------------------------------------------------------------------------ known findings
def load_findings():
    """known-findings.txt: lines 'finding: {json}' and 'fixed: property=... commit what'."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                out.append(json.loads(line[len("finding: "):]))
    return out


def probe_findings(pid, mod):
    """Run each listed failing input on the real code.  Still failing as described: KNOWN-FINDING.
    Failing in another way: a violation.  Passing: nothing to say (the defect is gone)."""
    viol = []
    for f in load_findings():
        if f["property"] != pid:
            continue
        probe = mod.PROBES[f["probe"]]
        c = Case("probe:" + f["id"], None, probe, 1, 1, "", CPU_LIMIT_PER_CASE)
        try:
            run_one(c, f["input"], Rec())
        except Violation as e:
            if f["signature"] in str(e):
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, f["what"], f["id"]))
            else:
                viol.append({"case": "probe:" + f["id"], "status": "violation", "probe": f["probe"],
                             "spec": repr(f["input"]), "message": str(e)})
    return viol


# --------------------------------------------------------------------------------------- main
def write_replay(pid, res):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, res["case"].replace(":", "_").replace("/", "_")))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": res["case"], "probe": res.get("probe"),
                   "spec": res["spec"], "message": res["message"]}, f, indent=1)
    return os.path.relpath(path, VERIF)


def replay(path):
    from pbt.props import index
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module(index.MODULES[r["property"]])
    spec = ast.literal_eval(r["spec"])
    if r.get("probe"):
        c = Case(r["case"], None, mod.PROBES[r["probe"]], 1, 1, "", CPU_LIMIT_PER_CASE)
    else:
        c = [x for x in mod.CASES if x.name == r["case"]][0]
    print("replaying", r["property"], r["case"])
    pprint.pprint(spec, width=120)
    try:
        run_one(c, spec, Rec())
    except Violation as e:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("  ", e)
        return 1
    except Skip:
        print("case is outside the property's domain")
        return 0
    print("held")
    return 0


def main(argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only, pid, rep, scale = None, None, None, 1.0
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--only":
            only = next(it)
        elif a == "--replay":
            rep = next(it)
        elif a == "--scale":
            scale = float(next(it))
        else:
            pid = a
    try:
        setup_paths()
        if rep:
            return replay(rep)
        from pbt.props import index
        modname = index.MODULES[pid]
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR: cannot start", pid)
        return 2
    cases = [(i, c) for i, c in enumerate(mod.CASES) if only is None or only in c.name]
    # split expensive cases over several workers: each shard is its own seeded search
    jobs = []
    for i, c in cases:
        n = c.thorough if tier == "thorough" else c.quick
        n = max(1, int(n * scale))
        if tier == "thorough":
            shards = 8 if n >= 400 else 1
            n = max(1, n // shards)
        else:
            shards = QUICK_SEARCHES
        jobs += [(s, i, seed + 7919 * s, n) for s in range(shards)]
    jobs = [j[1:] for j in sorted(jobs)]
    tmp = tempfile.mkdtemp(prefix="pbt-")
    ctx = multiprocessing.get_context("fork")
    ncpu = min(8, os.cpu_count() or 1)
    running, results, pending = [], [], list(enumerate(jobs))
    try:
        while pending or running:
            while pending and len(running) < ncpu:
                k, (i, sd, n) = pending.pop(0)
                out = os.path.join(tmp, "r%d.json" % k)
                p = ctx.Process(target=_child, args=(modname, i, sd, n, out))
                p.start()
                running.append((p, out, i))
            time.sleep(0.02)
            for t in list(running):
                p, out, i = t
                if not p.is_alive():
                    p.join()
                    running.remove(t)
                    if os.path.exists(out):
                        with open(out) as f:
                            results.append(json.load(f))
                    else:
                        results.append({"case": mod.CASES[i].name, "status": "error",
                                        "error": "worker died with exit code %r" % p.exitcode})
    finally:
        for p, _, _ in running:
            p.kill()
        for fn in os.listdir(tmp):
            os.unlink(os.path.join(tmp, fn))
        os.rmdir(tmp)
    errors = [r for r in results if r["status"] == "error"]
    best = {}                  # several searches may find the same thing: keep the smallest input per family
    for r in results:
        if r["status"] == "violation" and (r["case"] not in best or len(r["spec"]) < len(best[r["case"]]["spec"])):
            best[r["case"]] = r
    viols = list(best.values())
    try:
        viols += probe_findings(pid, mod)
    except Exception:
        errors.append({"case": "probe", "error": traceback.format_exc()})
    # evidence
    per, samples, nt, ev = {}, [], set(), 0
    for r in results:
        if "evaluations" not in r:
            continue
        d = per.setdefault(r["case"], {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "labels": {}, "wall_s": 0})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += len(r["nontrivial"])
        d["skipped"] += r["skipped"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        ev += r["evaluations"]
        nt |= {r["case"] + x for x in r["nontrivial"]}
        for s in r["samples"][:2]:
            samples.append({"case": r["case"], "input": s})
    rules = {c.name: c.rule for _, c in cases if c.rule}
    evidence = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nt),
            "rule": "Cases are drawn by seeded Hypothesis strategies (one search per case family). "
                    "A case is non-trivial when: " + "; ".join("[%s] %s" % kv for kv in rules.items()),
            "samples": samples[:40], "case_families": per,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for name, d in sorted(per.items()):
        print("%-34s %6d cases %6d non-trivial %5d skipped %6.1fs  %s" % (
            name, d["evaluations"], d["distinct_nontrivial"], d["skipped"], d["wall_s"],
            " ".join("%s=%d" % kv for kv in sorted(d["labels"].items()))[:220]))
    for r in viols:
        path = write_replay(pid, r)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   case=%s: %s" % (r["case"], r["message"][:1500]))
        print("   input=%s" % r["spec"][:1500])
    for r in errors:
        print("HARNESS-ERROR case=%s\n%s" % (r["case"], r["error"][-3000:]))
    if viols:
        return 1
    if errors:
        return 2
    if any(d["evaluations"] and not d["distinct_nontrivial"] for d in per.values()) and only is None and scale >= 1:
        print("HARNESS-ERROR: a case family generated no non-trivial case")
        return 2
    print("HELD property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, ev, len(nt), time.time() - t0))
    return 0
