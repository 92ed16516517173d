"""Check runner.

  run.py check C01 [--tier quick|thorough]    decide a property
  run.py replay FILE                          replay a recorded counterexample
  run.py _concrete C01                        (internal) replay server on unpatched freegs
"""
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

PY = "/opt/venv/bin/python"


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


class HarnessTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise HarnessTimeout()


# ----------------------------------------------------------------- symbolic worker


def trace_lines():
    """Records which lines of freegs are executed (symbolically) from now on: {(module.function): {lines}}."""
    from engine import loader
    seen = {}
    root = os.path.realpath(loader.REPO) + os.sep
    m = sys.monitoring
    tool = 3

    def line(code, n):
        f = code.co_filename
        if os.path.realpath(f).startswith(root):
            mod = os.path.relpath(os.path.realpath(f), root)[:-3].replace(os.sep, ".")
            seen.setdefault(mod + "." + code.co_qualname.replace(".<locals>", ""), set()).add(n)
        return m.DISABLE
    try:
        m.use_tool_id(tool, "verif")
        m.register_callback(tool, m.events.LINE, line)
        m.set_events(tool, m.events.LINE)
    except Exception:
        pass
    return seen


def explore(fg, env, h, tier, seed, conn, budget):
    """Runs in a forked child: explores every path of one harness."""
    import warnings
    warnings.simplefilter("ignore")
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    from engine import ctx as C
    from engine.sym import PathEnd, Unsupported
    t0 = time.time()
    lines_seen = trace_lines()
    opts = dict(h.get("opts", {}))
    if tier == "thorough":
        opts["dump"] = []
    stats = C.Stats()
    c = C.SymCtx(fg, tier, seed, stats, opts)
    c.env = env
    c.np = fg._verif_np
    c.pi = fg._verif_np.pi
    C.set_current(c)
    c.deadline = t0 + budget
    rng = random.Random("%s|%s" % (seed, h["name"]))
    res = dict(harness=h["name"], obligations={}, candidates=[], witnesses=[], inconclusive=[],
               notes=[], complete=False, dropped=0)
    work = [[]]
    nmodels = 0
    reached = 0
    try:
        while work:
            prefix = work.pop()
            c.pending = []
            c.start_path(prefix)
            env.reset()
            status = "ok"
            exc = None
            try:
                h["fn"](c)
            except PathEnd:
                status = "end"
            except Unsupported as e:
                status = "unsupported"
                exc = e
            except C.TooManyPaths:
                raise
            except (TimeoutError, HarnessTimeout):
                status = "late"  # what was decided so far on this path counts
            except Exception as e:
                status = "exception"
                exc = e
                tb = traceback.extract_tb(e.__traceback__)
                where = ["%s:%d" % (f.filename.replace(VERIF, "verif"), f.lineno) for f in tb][-4:]
            work.extend(c.pending)
            if len(work) + stats.paths > c.max_paths:
                raise C.TooManyPaths("more than %d paths" % c.max_paths)
            stats.paths += 1
            if status == "end":
                # infeasible assumption or cut: nothing is claimed on this path
                res["dropped"] += 1
                continue
            if status == "unsupported":
                tb = traceback.extract_tb(exc.__traceback__)
                where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-3:]
                res["inconclusive"].append("unsupported: %s at %s" % (str(exc)[:200], " < ".join(where)))
                m = c.model_of(None, rng, want=4)
                res["candidates"].extend(dict(obl="(unsupported)", values=v, why="hunt") for v in m)
            elif status == "exception":
                m = c.model_of(None, rng, want=4)
                res["candidates"].extend(
                    dict(obl="exception", values=v, why="exception",
                         detail="%s: %s [%s]" % (type(exc).__name__, str(exc)[:200], " < ".join(where))) for v in m)
                if not m and c.model_status == "unsat":
                    res["infeasible"] = res.get("infeasible", 0) + 1
                    continue
                if not m:
                    res["inconclusive"].append("exception path without a model: %r" % (exc,))
            elif c.path_obls:
                reached += 1
            # obligations recorded on this path (also before an exception)
            bad_here = 0
            for name, st, detail, bad in c.path_obls:
                o = res["obligations"].setdefault(name, dict(proved=0, violated=0, unknown=0))
                o[st] += 1
                if st != "proved" and bad_here < 6 and len(res["candidates"]) < 60:
                    bad_here += 1
                    m = c.model_of(bad, rng, want=3)
                    if not m and (st == "violated" or c.model_status != "unsat"):
                        # any input of this path; the replay decides
                        u = c.model_status
                        m = c.model_of(None, rng, want=2)
                        if st != "violated":
                            res["inconclusive"].append("undecided: %s (%s)" % (name, u))
                    for v in m:
                        res["candidates"].append(dict(obl=name, values=v, why=st, detail=detail[:300]))
                    if not m and c.model_status == "unsat":
                        # the branch timed out earlier, but no input takes this path
                        o[st] -= 1
                        res["infeasible"] = res.get("infeasible", 0) + 1
                    elif not m:
                        res["inconclusive"].append("no model for %s (%s)" % (name, st))
                elif st != "proved":
                    res["suppressed"] = res.get("suppressed", 0) + 1
            if status == "late":
                raise TimeoutError
            if status == "ok" and len(res["witnesses"]) < opts.get("witnesses", 12):
                m = c.model_of(None, rng, want=1, tries=60)
                if m:
                    res["witnesses"].append(m[0])
                    nmodels += 1
        res["complete"] = True
    except C.TooManyPaths as e:
        res["inconclusive"].append(str(e))
    except (TimeoutError, HarnessTimeout):
        res["inconclusive"].append("time budget of %ds exhausted, %d paths left" % (budget, len(work)))
    except MemoryError:
        res["inconclusive"].append("out of memory")
    except Exception as e:
        res["inconclusive"].append("engine error: %r %s" % (e, traceback.format_exc()[-600:]))
    res["reached"] = reached
    res["notes"] = sorted(c.notes)
    res["stats"] = stats.as_dict()
    res["atoms"] = len(C.REG.atoms)
    res["dump"] = opts.get("dump") or []
    res["functions"] = {k: sorted(v) for k, v in lines_seen.items()}
    res["wall"] = time.time() - t0
    conn.send(json.dumps(res, default=str))
    conn.close()
    os._exit(0)


def functions_of(prop, results):
    """Functions of freegs whose code was executed on symbolic values in this run (name: lines executed)."""
    d = {}
    for r in results.values():
        for k, v in (r.get("functions") or {}).items():
            d.setdefault(k, set()).update(v)
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "w") as f:
            json.dump({k: sorted(v) for k, v in d.items()}, f)
    return ["%s (%d lines)" % (k, len(v)) for k, v in sorted(d.items())]


# ----------------------------------------------------------------- concrete server


def harness_limit(e, tb):
    """The code asks a stand-in of the harness for something which it does not have, or calls it in another way: says
    nothing about the code."""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        mod = getattr(o if isinstance(o, type) else type(o), "__module__", "") or ""
        return mod.startswith(("props", "engine"))
    if isinstance(e, TypeError) and "argument" in str(e) and "<locals>" in str(e).split("(")[0]:
        # wrong arguments for a function defined inside a harness, called by the code
        return len(tb) > 0 and "/props/" not in tb[-1].filename and "/freegs/" in tb[-1].filename
    return False


def concrete_one(fg, h, job, seed, tier):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    from engine import ctx as C
    c = C.ConcreteCtx(fg, tier, job.get("seed", seed), dict(job["values"]))
    c.np = np
    c.pi = np.pi
    c.env = None
    out = dict(status="ok", results=[])
    try:
        with np.errstate(all="ignore"):
            h["fn"](c)
    except C.AssumptionFailed:
        out["status"] = "skip"
    except HarnessTimeout:
        out["status"] = "hang"
    except RecursionError as e:
        out["status"] = "exception"
        out["exc"] = "RecursionError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        out["status"] = "limit" if harness_limit(e, tb) else "exception"
        out["exc"] = "%s: %s [%s]" % (type(e).__name__, str(e)[:200], " < ".join(where))
    out["results"] = [(n, bool(ok), str(d)[:300]) for n, ok, d in c.results]
    out["values"] = {k: v for k, v in c.values.items()}
    return out


def concrete_server(pid):
    """Reads a JSON list of jobs on stdin, writes a JSON list of results."""
    jobs = json.load(sys.stdin)
    real_out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    from engine import loader
    import resource
    prop = load_prop(pid)
    fg = loader.load_real()
    hs = {h["name"]: h for h in prop.HARNESSES}
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    signal.signal(signal.SIGALRM, _alarm)
    res = []
    for job in jobs:
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            h = hs[job["harness"]]
            signal.alarm(h.get("opts", {}).get("concrete_timeout", 60))
            try:
                o = concrete_one(fg, h, job, seed, tier)
                signal.alarm(0)
            except HarnessTimeout:
                o = dict(status="hang", results=[])
            except BaseException as e:
                o = dict(status="error", results=[], exc=repr(e))
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(o, default=str))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(p, 0)
        try:
            res.append(json.loads(data))
        except Exception:
            res.append(dict(status="error", results=[], exc="child died"))
    with os.fdopen(real_out, "w") as f:
        f.write(json.dumps(res))


def run_concrete(pid, jobs, tier, seed, nproc=8):
    if not jobs:
        return []
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONNOUSERSITE="1")
    n = max(1, min(nproc, (len(jobs) + 3) // 4))
    chunks = [list(range(i, len(jobs), n)) for i in range(n)]
    procs = []
    for ch in chunks:
        p = subprocess.Popen([PY, os.path.join(HERE, "run.py"), "_concrete", pid],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env, cwd=VERIF, text=True)
        procs.append((p, ch))
    out = [None] * len(jobs)
    import threading

    def comm(p, ch):
        try:
            so, se = p.communicate(json.dumps([jobs[i] for i in ch], default=str), timeout=600)
            rs = json.loads(so)
        except Exception as e:
            try:
                p.kill()
            except Exception:
                pass
            try:
                se2 = se
            except NameError:
                se2 = ""
            rs = [dict(status="error", results=[], exc="%r %s" % (e, se2[-500:]))] * len(ch)
        for i, r in zip(ch, rs):
            out[i] = r

    ths = [threading.Thread(target=comm, args=pc) for pc in procs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out


# ----------------------------------------------------------------- known findings


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def match_known(known, pid, harness, obl):
    for k in known:
        if k.get("property") == pid and k.get("status", "known") == "known" \
                and fnmatch.fnmatchcase(harness, k.get("harness", "*")) \
                and fnmatch.fnmatchcase(obl, k.get("obligation", "*")):
            return k
    return None


# ----------------------------------------------------------------- main check


def failures_of(r):
    """List of (obligation, detail) that fail in a concrete run."""
    if r["status"] == "exception":
        fs = [("exception", r.get("exc", ""))]
    elif r["status"] == "hang":
        fs = [("hang", "no result within the time limit")]
    else:
        fs = []
    fs += [(n, d) for n, ok, d in r["results"] if not ok]
    if r["status"] in ("skip", "error"):
        return []
    return fs


def check(pid, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = load_prop(pid)
    hs = [h for h in prop.HARNESSES if tier == "thorough" or not h.get("thorough_only")]
    if only:
        hs = [h for h in hs if fnmatch.fnmatch(h["name"], only)]
    total_budget = 3000 if tier == "thorough" else 420
    from engine import loader
    load_error = None
    fg = env = None
    try:
        fg, env = loader.load_symbolic()
        if hasattr(prop, "prepare"):
            prop.prepare(fg)
    except BaseException as e:
        load_error = "%r %s" % (e, traceback.format_exc()[-800:])
    results = {}
    if load_error is None:
        mpc = mp.get_context("fork")
        queue = list(hs)
        running = []
        maxp = min(8, os.cpu_count() or 4)
        while queue or running:
            while queue and len(running) < maxp:
                h = queue.pop(0)
                budget = h.get("opts", {}).get("budget", 150 if tier == "quick" else 1500)
                if tier == "thorough":
                    budget = max(budget, h.get("opts", {}).get("budget_thorough", 1500))
                budget = max(20, min(budget, total_budget - (time.time() - t0)))
                a, b = mpc.Pipe(False)
                p = mpc.Process(target=explore, args=(fg, env, h, tier, seed, b, budget))
                p.start()
                b.close()
                running.append((h, p, a, time.time() + budget + 150))
            for item in running[:]:
                h, p, a, dl = item
                if a.poll(0.02):
                    try:
                        results[h["name"]] = json.loads(a.recv())
                    except EOFError:
                        results[h["name"]] = None
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    running.remove(item)
                elif not p.is_alive():
                    results[h["name"]] = None
                    running.remove(item)
                elif time.time() > dl:
                    p.kill()
                    p.join()
                    results[h["name"]] = None
                    running.remove(item)
    # ---- concrete phase: replay candidates, validate the encoding on witnesses
    jobs = []
    rng = random.Random(seed)
    for h in hs:
        r = results.get(h["name"])
        if r is None:
            r = dict(harness=h["name"], obligations={}, candidates=[], witnesses=[],
                     inconclusive=[load_error or "harness process ended without a result (limit or crash)"],
                     notes=[], complete=False, stats={}, reached=0, dropped=0, atoms=0, dump=[], wall=0)
            results[h["name"]] = r
        for i, cand in enumerate(r["candidates"]):
            jobs.append(dict(kind="candidate", harness=h["name"], idx=i, values=cand["values"], seed=seed + i))
        for i, w in enumerate(r["witnesses"]):
            jobs.append(dict(kind="witness", harness=h["name"], idx=i, values=w, seed=seed + i))
        # undecided parts: hunt with arbitrary inputs; always a few extra validation points
        n = h.get("opts", {}).get("samples", 4)
        if r["inconclusive"] or r["candidates"]:
            n = max(n, h.get("opts", {}).get("hunt", 40))
        if not h.get("opts", {}).get("no_concrete"):
            for i in range(n):
                jobs.append(dict(kind="sample", harness=h["name"], idx=i, values={}, seed=seed * 1000 + i))
    jobs = [j for j in jobs if not next(h for h in hs if h["name"] == j["harness"]).get("opts", {}).get("no_concrete")]
    outs = run_concrete(pid, jobs, tier, seed)
    violations = {}
    validated = 0
    per_h = {h["name"]: dict(valid=0, skip=0, fail=0, error=0) for h in hs}
    repro = set()
    for j, o in zip(jobs, outs):
        ph = per_h[j["harness"]]
        if o["status"] == "skip":
            ph["skip"] += 1
            continue
        if o["status"] == "limit":
            results[j["harness"]]["inconclusive"].append("outside the harness: " + str(o.get("exc"))[:300])
        if o["status"] == "error":
            ph["error"] += 1
            results[j["harness"]]["inconclusive"].append("replay error: " + str(o.get("exc"))[:300])
            continue
        fs = failures_of(o)
        if not fs:
            ph["valid"] += 1
            validated += 1
            continue
        ph["fail"] += 1
        for n, d in fs:
            violations.setdefault((j["harness"], n), dict(values=o.get("values", j["values"]), seed=j["seed"],
                                                        detail=d, kind=j["kind"]))
        repro.add(j["harness"])
    # candidates that no replay reproduced
    for h in hs:
        r = results[h["name"]]
        if r["candidates"] and h["name"] not in repro:
            names = sorted(set(c["obl"] for c in r["candidates"]))
            if names != ["(unsupported)"]:
                r["inconclusive"].append("counterexample not reproduced on the real code: %s" % names[:6])
    known = load_known()
    news = []
    kf = {}
    for (h, n), v in sorted(violations.items()):
        k = match_known(known, pid, h, n)
        if k:
            kf.setdefault(k["id"], k)
        else:
            news.append((h, n, v))
    # ---- cross-check with cvc5 (thorough)
    cross = None
    if tier == "thorough":
        cross = cross_check([d for r in results.values() for d in r.get("dump", [])])
    # ---- evidence
    obl = sum(len(r["obligations"]) for r in results.values())
    inst = {k: sum(o[k] for r in results.values() for o in r["obligations"].values())
            for k in ("proved", "violated", "unknown")}
    stat = {}
    for r in results.values():
        for k, v in r.get("stats", {}).items():
            stat[k] = stat.get(k, 0) + v
    inconcl = {h: r["inconclusive"] for h, r in results.items() if r["inconclusive"]}
    vac = [h["name"] for h in hs if not results[h["name"]].get("reached") and not results[h["name"]]["inconclusive"]]
    samples = []
    for h in hs:
        r = results[h["name"]]
        if r["witnesses"]:
            samples.append(dict(harness=h["name"], path_witness=r["witnesses"][0]))
    cov = dict(
        states=int(stat.get("paths", 0)),
        transitions=int(stat.get("decisions", 0)),
        traces_validated_against_impl=validated,
        samples=samples[:8] or [dict(note="no witness")],
        harnesses={h["name"]: dict(
            what=(h["fn"].__doc__ or "").strip(), bounds=h.get("bounds", ""),
            obligations={n: o for n, o in results[h["name"]]["obligations"].items()},
            paths=results[h["name"]].get("stats", {}).get("paths", 0),
            complete=results[h["name"]]["complete"],
            reachability_witness=bool(results[h["name"]].get("reached")),
            stats=results[h["name"]].get("stats", {}), wall_s=round(results[h["name"]].get("wall", 0), 2),
            concrete=per_h[h["name"]], notes=results[h["name"]]["notes"]) for h in hs},
        functions_targeted=sorted(set(getattr(prop, "ENCODES", []))),
        functions_encoded=functions_of(prop, results),
        bounds=getattr(prop, "BOUNDS", ""),
        obligations_named=obl,
        obligation_instances=inst,
        solver_queries=int(stat.get("queries", 0)),
        solver_unsat=int(stat.get("unsat", 0)),
        solver_sat=int(stat.get("sat", 0)),
        solver_unknown=int(stat.get("unknown", 0)),
        solver_time_s=round(stat.get("solver_time", 0.0), 3),
        solver="z3 " + _z3v(),
        inconclusive=inconcl,
        unreached=vac,
        known_findings=[k["id"] for k in kf.values()],
    )
    if cross is not None:
        cov["cvc5_cross_check"] = cross
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(prop, "LEVEL", "model_checking"),
              coverage=cov, assumptions=COMMON_ASSUMPTIONS + list(getattr(prop, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(news))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    # ---- report
    print("property %s (%s): %d harnesses, %d paths, %d obligation instances proved, %d solver queries "
          "(%.1fs), %d concrete runs of the real code agree, %.1fs" % (
              pid, tier, len(hs), cov["states"], inst["proved"], cov["solver_queries"],
              cov["solver_time_s"], validated, time.time() - t0))
    for h, l in inconcl.items():
        for m in l[:3]:
            print("INCONCLUSIVE property=%s harness=%s %s" % (pid, h, m))
    for h in vac:
        print("INCONCLUSIVE property=%s harness=%s no obligation reached" % (pid, h))
    for k in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if verbose:
        for h in hs:
            r = results[h["name"]]
            print("  ", h["name"], "paths", r.get("stats", {}).get("paths"), "wall %.1f" % r.get("wall", 0),
                  "concrete", per_h[h["name"]], "dropped", r.get("dropped"), "queries", r.get("stats", {}).get("queries"),
                  "solver %.1f" % r.get("stats", {}).get("solver_time", 0))
            for n, o in r["obligations"].items():
                if o["violated"] or o["unknown"] or verbose > 1:
                    print("      ", n, o)
            for cnd in r["candidates"][:5]:
                print("       cand", cnd["obl"], cnd["why"], cnd.get("detail", "")[:300])
    if cross is not None and cross["disagreements"]:
        print("INCONCLUSIVE property=%s cvc5 disagrees with z3 on %d queries" % (pid, cross["disagreements"]))
    if news:
        path = os.path.join(VERIF, "evidence", "replay_%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, violations=[
                dict(harness=h, obligation=n, values=v["values"], seed=v["seed"], detail=v["detail"], found_by=v["kind"])
                for h, n, v in news]), f, indent=1, default=str)
        for h, n, v in news[:8]:
            print("  violated: harness=%s obligation=%s %s" % (h, n, v["detail"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    "values range over the exact reals: floating-point rounding, overflow and NaN are outside the claim "
    "(a float constant in the source is read as the simplest rational that rounds to it)",
    "denominators met on a path are non-zero on that path",
    "numpy, scipy, shapely are replaced in the encoding by the stand-ins of engine/shims.py; every path "
    "witness is additionally run through the real libraries and must agree",
]


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def cross_check(dump):
    """Diff z3 verdicts with cvc5 on the recorded queries."""
    import tempfile
    res = dict(queries=0, agree=0, cvc5_unknown=0, disagreements=0)
    t0 = time.time()
    for smt, verdict in dump[:300]:
        if time.time() - t0 > 300:
            break
        if verdict == "unknown":
            continue
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic QF_NRA)\n" + smt)
            name = f.name
        try:
            r = subprocess.run(["cvc5", "--tlimit=5000", name], capture_output=True, text=True, timeout=20)
            o = r.stdout.strip().split("\n")[0]
        except Exception:
            o = "unknown"
        finally:
            os.unlink(name)
        res["queries"] += 1
        if o == verdict:
            res["agree"] += 1
        elif o in ("sat", "unsat"):
            res["disagreements"] += 1
        else:
            res["cvc5_unknown"] += 1
    return res


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    bad = 0
    jobs = [dict(harness=v["harness"], values=v["values"], seed=v["seed"]) for v in d["violations"]]
    outs = run_concrete(pid, jobs, os.environ.get("VERIF_TIER", "quick"), 1)
    for v, o in zip(d["violations"], outs):
        fs = failures_of(o)
        print(v["harness"], v["obligation"], "->", "reproduced" if fs else o["status"], fs[:3])
        bad += bool(fs)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[0] == "_concrete":
        concrete_server(a[1])
        return 0
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "check":
        pid = a[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        only = a[a.index("--only") + 1] if "--only" in a else None
        return check(pid, tier, only, verbose=2 if "-vv" in a else ("-v" in a))
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.modules.setdefault("engine.run", sys.modules["__main__"])
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if rc is not None else 0)
