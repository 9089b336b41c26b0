"""Explores the cases of one property and reports."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
VENV = os.environ.get("VT_PYTHON", "/opt/venv/bin/python")
SITE = "/opt/venv/lib/python3.12/site-packages"
HARNESS = "vt.harness"


def harness_modules():
    import vt.harness
    return ["%s.%s" % (HARNESS, m.name) for m in pkgutil.iter_modules(vt.harness.__path__)]


# -- replay interpreter -----------------------------------------------------------

class Server:
    def __init__(self):
        env = dict(os.environ)
        env.update(PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE="1", VT_REPO=REPO, PYTHONHASHSEED="0")
        env.pop("PYTHONHOME", None)
        self.p = subprocess.Popen([VENV, "-m", "vt.concserver"] + harness_modules(), cwd="/", env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        line = self.p.stdout.readline()
        if line.strip() != "ready":
            raise RuntimeError("replay interpreter did not start")

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay interpreter died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_server = None


def server():
    global _server
    if _server is None or _server.p.poll() is not None:
        _server = Server()
    return _server


# -- symbolic side ------------------------------------------------------------------

_ready = False
_funcs = set()


def setup():
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.setrecursionlimit(5000)
    from . import instr, hooks, stubs  # noqa: F401
    instr.install("pycose", REPO)
    instr.install(HARNESS, ROOT)
    for m in harness_modules():
        importlib.import_module(m)
    mon = sys.monitoring
    mon.use_tool_id(3, "vt")
    root = os.path.join(os.path.realpath(REPO), "pycose") + os.sep

    def start(code, off):
        fn = os.path.realpath(code.co_filename)
        if fn.startswith(root) and code.co_name != "<module>":
            _funcs.add(fn[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def concretely(prop, name, params, values, tier):
    return server().ask(prop=prop, case=name, params=params, values=values, tier=tier)


def run_path(case, params, tier, prefix, stats, opts):
    from . import sym, symenv, cborm, instr
    from .registry import Ns
    import z3
    ctx = sym.Ctx(prefix, stats, opts)
    sym.set_ctx(ctx)
    cborm.WIRE.clear()
    instr.purge("pycose")
    sys.monitoring.restart_events()
    E = symenv.SymE(ctx, tier)
    status, why = "done", ""
    try:
        try:
            case.fn(E, Ns(), **params)
        except sym.Control:
            raise
        except MemoryError:
            if os.environ.get("VT_TRACE_MEM"):
                traceback.print_exc()
            raise sym.Abort("memory")
        except z3.Z3Exception as e:
            raise sym.Abort("engine: %s" % e)
        except RecursionError:
            raise sym.Abort("recursion")
        except Exception as e:
            # the library failed where the case says it must not
            ctx.checks_reached += 1
            stats.checks += 1
            tb = traceback.format_exc()[-1500:]
            m = ctx.get_model()
            vals = [E.values(m)]
            ctx.query()
            for _ in range(opts.more_models):
                d = E.differ(ctx.last)
                if d is None:
                    break
                ctx.solver.add(d)
                if ctx.query() != z3.sat:
                    break
                vals.append(E.values(ctx.last))
            E.cexs.append(symenv.Cex("uncaught " + type(e).__name__, vals))
            status, why = "exception", tb
    except sym.PathEnd as e:
        status, why = "end", str(e)
    except sym.Diverged as e:
        status, why = "diverged", str(e)
    except sym.Abort as e:
        status, why = "abort", str(e)
    return ctx, E, status, why


def explore(task):
    """Worker entry: explore some prefixes of one case instance for a while."""
    try:
        return _explore(task)
    except BaseException:
        return {"crash": traceback.format_exc()[-3000:], "job": task["job"]}


def _explore(task):
    setup()
    from . import sym, registry
    case = registry.CASES[task["prop"]][task["case"]]
    params, tier = task["params"], task["tier"]

    class O(sym.Opts):
        pass
    O.query_ms = task["query_ms"]
    O.path_s = task["path_s"]
    stats = sym.Stats()
    out = {"job": task["job"], "paths": 0, "ended": 0, "abort": {}, "reached": 0, "violations": [], "unconfirmed": [],
           "validated": 0, "divergences": [], "samples": [], "crash": None, "second": None}
    stack = list(task["prefixes"])
    t0 = time.time()
    quota = task["validate"]
    rng = random.Random(task["seed"] * 7919 + task["job"])
    _funcs.clear()
    confirmed = set()
    labels_seen = {}
    turn = 0
    while stack:
        if out["paths"] + out["ended"] and (time.time() - t0 > task["slice_s"] or time.time() > task["deadline"]):
            break
        # mostly depth first; now and then the shallowest, so that a time limit leaves no whole subtree unvisited
        turn += 1
        prefix = stack.pop(0 if turn % 3 == 0 else -1)
        ctx, E, status, why = run_path(case, params, tier, prefix, stats, O)
        stack.extend(ctx.alts)
        if status in ("abort", "diverged"):
            out["abort"][why] = out["abort"].get(why, 0) + 1
        elif status == "end":
            out["ended"] += 1
        else:
            out["paths"] += 1
            stats.paths += 1
        if ctx.checks_reached:
            out["reached"] += 1
        for c in E.cexs:
            n = labels_seen[c.label] = labels_seen.get(c.label, 0) + 1
            if c.label in confirmed or n > 12:
                continue
            last = None
            for v in c.values:
                r = concretely(case.prop, case.name, params, v, tier)
                last = r
                bad = list(r["violations"])
                if r["error"] and not r["error"].startswith("harness:"):
                    bad.append("uncaught " + r["error"])
                if bad and not r["skipped"]:
                    for b in bad:
                        confirmed.add(b)
                    confirmed.add(c.label)
                    out["violations"].append({"labels": bad, "values": v, "trace": r.get("trace", "")})
                    last = None
                    break
            if last is not None:
                agrees = None
                if status != "exception":
                    agrees = not last["missing"] and len(last["notes"]) >= len(E.notes)
                out["unconfirmed"].append({"label": c.label, "values": c.values[0], "agrees": agrees,
                                           "why": why[-600:] if status == "exception" else "",
                                           "replay": {k: last[k] for k in ("notes", "error", "skipped", "missing")}})
        # translation validation: the path's model must behave the same for real
        if status == "done" and not E.cexs and (quota > 0 or rng.random() < task["validate_p"]):
            quota -= 1
            try:
                m = ctx.get_model()
            except sym.Control:
                continue
            v = E.values(m)
            want = E.note_values(m)
            r = concretely(case.prop, case.name, params, v, tier)
            bad = list(r["violations"])
            if r["error"] and not r["error"].startswith("harness:"):
                bad.append("uncaught " + r["error"])
            if bad and not r["skipped"]:
                out["violations"].append({"labels": bad, "values": v, "trace": r.get("trace", "")})
            elif r["error"] or r["notes"] != want or r["missing"] or r["skipped"]:
                out["divergences"].append({"values": v, "want": want, "got": r["notes"], "error": r["error"],
                                           "missing": r["missing"], "skipped": r["skipped"],
                                           "trace": r.get("trace", "")[-300:]})
            else:
                out["validated"] += 1
            if len(out["samples"]) < 1:
                out["samples"].append({"params": params, "inputs": v, "observed": want[:12]})
    out["left"] = stack
    out["stats"] = stats.asdict()
    out["pins"] = stats.pin_sites
    out["funcs"] = sorted(_funcs)
    out["wall"] = time.time() - t0
    return out


# -- one property -------------------------------------------------------------------

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches(finding, prop, case, params, label):
    if finding.get("kind") == "fixed" or finding["property"] != prop:
        return False
    if finding.get("case") not in (None, case):
        return False
    if label not in finding["labels"]:
        return False
    return all(params.get(k) == v or (isinstance(v, list) and params.get(k) in v)
               for k, v in finding.get("params", {}).items())


def pool_init():
    import signal
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # a path that needs more memory than this is given up (and counted), instead of taking the machine down
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))


def tree_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, "pycose")
    for d, ds, fs in sorted(os.walk(base)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def check(prop, tier="quick", seed=1, only=None, verbose=False, budget=None, jobs=None):
    """Returns (exit code, evidence dict)."""
    t0 = time.time()
    setup()
    from . import registry
    if prop not in registry.CASES:
        print("no cases for", prop)
        return 2, None
    budget = budget or float(os.environ.get("VT_BUDGET", 240 if tier == "quick" else 600))
    deadline = t0 + budget
    insts = []
    for name, c in registry.CASES[prop].items():
        if only and only not in name:
            continue
        for params in c.instances(tier):
            insts.append((c, params))
    nproc = jobs or int(os.environ.get("VT_JOBS", "0")) or min(8, os.cpu_count() or 1)
    base = dict(prop=prop, tier=tier, seed=seed, query_ms=15000 if tier == "quick" else 40000,
                path_s=40 if tier == "quick" else 120, deadline=deadline,
                validate_p=0.02 if tier == "quick" else 0.05)
    agg = {"paths": 0, "ended": 0, "reached": 0, "validated": 0}
    per = [dict(paths=0, reached=0, left=0, validated=0) for _ in insts]
    abort, pins, funcs = {}, {}, set()
    stats = {}
    violations, unconfirmed, divergences, samples, crashes = [], [], [], [], []
    known = known_findings()
    queue = []
    for j, (c, params) in enumerate(insts):
        queue.append((j, [[]], 2))
    left_total = 0
    ctxm = mp.get_context("fork")
    pool = cf.ProcessPoolExecutor(nproc, mp_context=ctxm, initializer=pool_init)
    running = {}
    stop_at_violation = tier == "quick"

    def submit():
        while queue and len(running) < nproc + 2:
            if time.time() > deadline - 1:
                break
            j, prefixes, quota = queue.pop(0)
            c, params = insts[j]
            task = dict(base, job=j, case=c.name, params=params, prefixes=prefixes, validate=quota,
                        slice_s=4.0 if tier == "quick" else 10.0)
            running[pool.submit(explore, task)] = j
    try:
        submit()
        while running:
            done, _ = cf.wait(list(running), timeout=5, return_when=cf.FIRST_COMPLETED)
            if not done and time.time() > deadline + 2 * base["path_s"] + 30:
                crashes.append("worker did not answer")
                break
            for f in done:
                j = running.pop(f)
                c, params = insts[j]
                try:
                    r = f.result()
                except Exception as e:
                    crashes.append("%s %s: %r" % (c.name, params, e))
                    continue
                if r["crash"]:
                    crashes.append("%s %s: %s" % (c.name, params, r["crash"]))
                    continue
                for k in agg:
                    agg[k] += r[k]
                per[j]["paths"] += r["paths"]
                per[j]["reached"] += r["reached"]
                per[j]["validated"] += r["validated"]
                for k, v in r["abort"].items():
                    abort[k] = abort.get(k, 0) + v
                for k, v in r["pins"].items():
                    pins[k] = pins.get(k, 0) + v
                for k, v in r["stats"].items():
                    stats[k] = stats.get(k, 0) + v
                funcs.update(r["funcs"])
                for lst, key in ((violations, "violations"), (unconfirmed, "unconfirmed"),
                                 (divergences, "divergences")):
                    for v in r[key]:
                        lst.append(dict(v, case=c.name, params=params))
                samples += r["samples"]
                if stop_at_violation and any(not any(matches(k, prop, v["case"], v["params"], lab) for k in known)
                                             for v in violations for lab in v["labels"]):
                    queue.clear()
                    continue
                if r["left"]:
                    # split the frontier so that idle workers can help
                    left = r["left"]
                    k = max(1, min(len(left), nproc - len(running) - len(queue)))
                    for i in range(k):
                        if left[i::k]:
                            queue.append((j, left[i::k], 0))
            submit()
    finally:
        for w in list((pool._processes or {}).values()) if crashes else []:
            w.kill()
        pool.shutdown(wait=not crashes, cancel_futures=True)
    for j, prefixes, _ in queue:
        per[j]["left"] += len(prefixes)
        left_total += len(prefixes)

    new, listed = [], {}
    for v in violations:
        fresh = []
        for lab in v["labels"]:
            hit = next((k for k in known if matches(k, prop, v["case"], v["params"], lab)), None)
            if hit:
                listed[hit["id"]] = hit
            else:
                fresh.append(lab)
        if fresh:
            new.append(dict(v, labels=fresh))
    vacuous = sorted({insts[j][0].name for j in range(len(insts))} -
                     {insts[j][0].name for j in range(len(insts)) if per[j]["reached"]})
    outdir = os.path.join(ROOT, "evidence", "replay")
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    code = 0
    if new:
        os.makedirs(outdir, exist_ok=True)
        seen = set()
        n = 0
        for v in new:
            key = (v["case"], tuple(v["labels"]))
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(outdir, "%s-%d.json" % (prop, n))
            n += 1
            with open(path, "w") as f:
                json.dump({"property": prop, "case": v["case"], "params": v["params"], "values": v["values"],
                           "labels": v["labels"], "tier": tier, "trace": v["trace"],
                           "replay": "%s/check --replay %s" % (ROOT, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %s %s: %s" % (v["case"], json.dumps(v["params"]), "; ".join(v["labels"])))
            if n >= 5:
                break
        code = 1
    # a counterexample that the real code does not show: if the real run took the
    # same observable path, the encoding of the check itself is at fault
    hard = [u for u in unconfirmed if u["agrees"]]
    if code == 0 and (crashes or vacuous or hard or agg["reached"] == 0):
        code = 2
    if verbose or code == 2:
        for u in unconfirmed[:5]:
            print("UNCONFIRMED", json.dumps(u)[:1500])
        for x in crashes[:3]:
            print("CRASH", x)
        if vacuous:
            print("VACUOUS", vacuous)
    if verbose:
        for d in divergences[:5]:
            print("DIVERGENCE", json.dumps(d)[:1500])
        for k, v in sorted(abort.items(), key=lambda t: -t[1])[:10]:
            print("ABORT", v, k)
        for k, v in sorted(pins.items(), key=lambda t: -t[1])[:10]:
            print("PIN", v, k)
    cases_doc = {}
    for j, (c, params) in enumerate(insts):
        d = cases_doc.setdefault(c.name, {"doc": c.doc, "instances": 0, "paths": 0, "paths_reaching_assertion": 0,
                                          "unexplored_prefixes": 0})
        d["instances"] += 1
        d["paths"] += per[j]["paths"]
        d["paths_reaching_assertion"] += per[j]["reached"]
        d["unexplored_prefixes"] += per[j]["left"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["paths"] + agg["ended"],
            "transitions": stats.get("branches", 0),
            "traces_validated_against_impl": agg["validated"],
            "samples": samples[:6] or ["none"],
            "paths_completed": agg["paths"], "paths_ended_by_assumption": agg["ended"],
            "paths_reaching_an_assertion": agg["reached"],
            "assertions_evaluated": stats.get("checks", 0), "assertions_discharged": stats.get("discharged", 0),
            "solver_queries": stats.get("queries", 0), "solver_unknown": stats.get("unknown", 0),
            "solver_s": round(stats.get("solver_s", 0), 2),
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "cases": cases_doc,
            "complete_within_bounds": not (left_total or abort or pins),
            "unexplored_prefixes": left_total, "paths_cut": abort, "values_fixed_for_library_calls": pins,
            "translation_divergences": len(divergences),
            "unconfirmed_counterexamples": len(unconfirmed),
            "source_tree": tree_hash(),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ASSUMPTIONS,
        "violations": len(new),
    }
    if new:
        ev["coverage"]["violations_found"] = [{"case": v["case"], "params": v["params"], "labels": v["labels"]}
                                              for v in new[:20]]
    if divergences:
        ev["coverage"]["divergence_examples"] = divergences[:3]
    if unconfirmed:
        ev["coverage"]["unconfirmed_examples"] = unconfirmed[:3]
    if vacuous:
        ev["coverage"]["vacuous_cases"] = vacuous
    return code, ev


ASSUMPTIONS = [
    "cryptographic primitives are ideal: no collisions, no forgeries, truncation to 8 bytes keeps outputs distinct",
    "asymmetric key material is concrete (fixed keys per curve); messages, headers and symmetric keys are symbolic",
    "byte strings and texts are bounded as stated per case; text is printable ASCII",
    "CBOR is handled structurally (cbor2's shortest definite-length encoding is injective and self-delimiting)",
]


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER_FORCE") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--self-test", action="store_true", dest="selftest")
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        out = concretely(r["property"], r["case"], r["params"], r["values"], r["tier"])
        print(json.dumps(out, indent=1))
        bad = out["violations"] or out["error"]
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
        return 1 if bad else 0
    if a.selftest:
        # solver, instrumented import of the library and replay interpreter work
        import z3
        x = z3.BitVec("x", 8)
        so = z3.Solver()
        so.add(x * 3 == 7)
        assert so.check() == z3.sat
        setup()
        from . import registry
        p = sorted(registry.CASES)[0]
        n, c = next(iter(registry.CASES[p].items()))
        r = concretely(p, n, next(iter(c.instances("quick"))), {}, "quick")
        assert "violations" in r
        server().close()
        print("ok: %d properties, %d cases" % (len(registry.CASES), sum(map(len, registry.CASES.values()))))
        return 0
    if a.list:
        setup()
        from . import registry
        for p in sorted(registry.CASES):
            for n, c in registry.CASES[p].items():
                print(p, n, len(list(c.instances(a.tier))))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    code, ev = check(a.prop, a.tier, seed, a.only, a.v, a.budget, a.jobs)
    if ev is not None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        if not a.only:
            with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        c = ev["coverage"]
        print("%s %s: exit %d, %d paths (%d reach an assertion), %d/%d assertions discharged, %d queries %.1fs solver, "
              "%d validated, %d divergent, left %d, cut %d, pins %d, %.1fs" % (
                  a.prop, a.tier, code, c["states"], c["paths_reaching_an_assertion"], c["assertions_discharged"],
                  c["assertions_evaluated"], c["solver_queries"], c["solver_s"], c["traces_validated_against_impl"],
                  c["translation_divergences"], c["unexplored_prefixes"], sum(c["paths_cut"].values()),
                  sum(c["values_fixed_for_library_calls"].values()), ev["wall_s"]))
    return code
