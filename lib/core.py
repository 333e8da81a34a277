"""Bounded-exhaustive explorer.

A check module defines
    PID                      property id
    cases(tier)              generator of cases (plain tuples / lists / dicts); simplest first
    run(case, ctx)           executes ONE complete behaviour of the real code and compares every
                             observation with the reference model (through ctx)
    BOUNDS(tier) -> dict     (optional) description of the bounds
The explorer enumerates *all* cases (no sampling, no seed dependence), distributes them over forked
workers, merges measured counts and writes the evidence file.
"""
import os, sys
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
REPO = os.environ.get("DIREPACK_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import contextlib, hashlib, importlib, io, json, multiprocessing as mp, pickle, signal, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
LEVEL = "model_checking"


class CaseTimeout(BaseException):
    pass


STOP_AFTER = int(os.environ.get("VERIF_STOP_AFTER", "25"))      # debugging aid: list more disagreements


class StopCase(BaseException):
    """raised by ctx when a case cannot be continued (already recorded)"""


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Ctx:
    """per-case context: records operations, observations and disagreements"""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.transitions = 0
        self.comparisons = 0
        self.states = set()
        self.outcomes = set()
        self.skips = {}
        self.viol = []
        self.traces = 0
        self.trace = []
        self.last = None
        self.outlevel = {}

    # --- bookkeeping
    def op(self, what, fn, *a, **k):
        """one transition of the real code"""
        self.transitions += 1
        self.last = what
        self.trace.append(what)
        return fn(*a, **k)

    def state(self, *parts):
        self.states.add(digest(parts))

    def outcome(self, *parts):
        self.outcomes.add(digest(parts))

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def fail(self, sig, msg):
        self.viol.append((sig, msg, list(self.trace)))

    # --- observations
    def true(self, cond, sig, msg=""):
        self.comparisons += 1
        if not cond:
            self.fail(sig, msg)
        return bool(cond)

    def eq(self, got, ref, sig, rtol=1e-6, atol=None, shape=True):
        import numpy as np
        self.comparisons += 1
        ok, why = close(got, ref, rtol, atol, shape)
        if not ok:
            self.fail(sig, why)
        return ok

    def same(self, got, ref, sig):
        self.comparisons += 1
        if not deep_equal(got, ref):
            self.fail(sig, "got %s, expected %s" % (short(got), short(ref)))
            return False
        return True

    def raises(self, what, fn, sig, allowed=(Exception,)):
        """fn must be refused"""
        self.comparisons += 1
        try:
            r = self.op(what, fn)
        except allowed as e:
            return e
        except Exception as e:
            self.fail(sig, "refused with unexpected %s: %s" % (type(e).__name__, e))
            return e
        self.fail(sig, "accepted, returned %s" % short(r))
        return None


def short(o, n=300):
    s = repr(o).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def digest(o):
    import numpy as np
    h = hashlib.sha1()

    def up(o):
        if isinstance(o, np.ndarray):
            if o.dtype.kind == "f":
                with np.errstate(all="ignore"):
                    q = np.where(np.isfinite(o), np.round(o, 9) + 0.0, o)
                h.update(str(o.shape).encode() + q.tobytes())
            elif o.dtype.kind == "O":
                h.update(repr(o.tolist()).encode())
            else:
                h.update(str(o.shape).encode() + o.tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for x in o:
                up(x)
            h.update(b")")
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                up(o[k])
        elif isinstance(o, float):
            h.update(repr(round(o, 9)).encode())
        else:
            h.update(repr(o).encode())
    up(o)
    return h.digest()[:10]


def close(got, ref, rtol=1e-6, atol=None, shape=True):
    import numpy as np
    try:
        g = np.asarray(got, dtype="float64")
    except Exception as e:
        return False, "not numeric: %s (%s)" % (short(got), e)
    r = np.asarray(ref, dtype="float64")
    if shape:
        if g.shape != r.shape:
            return False, "shape %s, expected %s" % (g.shape, r.shape)
    else:
        if g.size != r.size:
            return False, "size %d, expected %d" % (g.size, r.size)
        g = g.reshape(-1)
        r = r.reshape(-1)
    if g.size == 0:
        return True, ""
    gn, rn = np.isnan(g), np.isnan(r)
    if (gn != rn).any():
        return False, "NaN pattern differs: got %s, expected %s" % (short(g), short(r))
    fin = ~rn
    gi, ri = np.isinf(g[fin]), np.isinf(r[fin])
    if (gi != ri).any() or (g[fin][gi] != r[fin][ri]).any():
        return False, "infinities differ: got %s, expected %s" % (short(g), short(r))
    gg, rr = g[fin][~gi], r[fin][~ri]
    if gg.size == 0:
        return True, ""
    sc = np.max(np.abs(rr))
    if atol is None:
        atol = rtol * sc + 1e-10
    err = np.abs(gg - rr)
    bad = err > atol + rtol * np.abs(rr)
    if bad.any():
        return False, "max deviation %.3g (tolerance %.3g): got %s, expected %s" % (
            err.max(), atol, short(g), short(r))
    return True, ""


def deep_equal(a, b):
    import numpy as np, pandas as pd
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (pd.DataFrame, pd.Series, pd.Index)):
        return type(a) == type(b) and a.equals(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) == type(b):
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    try:
        return type(a) == type(b) and (a == b or (a != a and b != b))
    except Exception:
        return a is b


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {f["signature"]: f["what"] for f in d.get("findings", []) if f["property"] == pid}


# ---------------------------------------------------------------- engine
def _alarm(sig, frm):
    raise CaseTimeout()


def _own_access(e):
    """Our own access to a private helper that has been renamed or moved: not
    behaviour of the code under test, so no verdict."""
    if not isinstance(e, (AttributeError, ImportError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    msg = str(e)
    private = "._" in msg or "attribute '_" in msg or "name '_" in msg
    return bool(tb) and os.path.abspath(tb[-1].filename).startswith(here + os.sep) \
        and "direpack" in msg and private


def run_case(mod, case, limit, tier="quick"):
    ctx = Ctx(tier)
    buf = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"):
                mod.run(case, ctx)
        ctx.traces += 1
    except StopCase:
        pass
    except CaseTimeout:
        ctx.fail("no-termination", "no answer after %ss in %s" % (limit, ctx.last))
    except (KeyboardInterrupt, SystemExit):
        ctx.fail("exit", "the code under test tried to end the process in %s" % (ctx.last,))
    except BaseException as e:
        if _own_access(e):
            ctx.skip("private helper not reachable under its name")
            return ctx
        ctx.fail("exception:%s" % type(e).__name__, "unexpected %s: %s in step %r\n%s" % (
            type(e).__name__, e, ctx.last, traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx


def _worker(mod, cases, counter, stop, conn, limit, chunk, current, wid, tier):
    import gc
    acc = {"tr": 0, "cmp": 0, "st": set(), "out": set(), "skip": {}, "viol": [], "done": 0, "traces": 0}
    last_send = time.time()
    while not stop.value:
        with counter.get_lock():
            i0 = counter.value
            counter.value = i0 + chunk
        if i0 >= len(cases):
            break
        for i in range(i0, min(i0 + chunk, len(cases))):
            if stop.value:
                break
            current[wid] = i
            c = run_case(mod, cases[i], limit, tier)
            acc["tr"] += c.transitions
            acc["cmp"] += c.comparisons
            acc["st"] |= c.states
            acc["out"] |= c.outcomes
            acc["traces"] += c.traces
            for k, v in c.skips.items():
                acc["skip"][k] = acc["skip"].get(k, 0) + v
            for v in c.viol[:5]:
                acc["viol"].append((i,) + v)
            acc["done"] += 1
            if c.viol or time.time() - last_send > 2:
                conn.send(("part", acc))
                acc = {"tr": 0, "cmp": 0, "st": set(), "out": set(), "skip": {}, "viol": [], "done": 0, "traces": 0}
                last_send = time.time()
    conn.send(("end", acc))
    conn.close()


def main(pid, argv=None):
    argv = sys.argv[2:] if argv is None else argv
    t0 = time.time()
    tier = "quick"
    if os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    replay = None
    only = None
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--replay="):
            replay = a.split("=", 1)[1]
        elif a.startswith("--only="):
            only = a.split("=", 1)[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    sys.path.insert(0, VERIF)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    limit = 120 if tier == "quick" else 600
    res = {"tr": 0, "cmp": 0, "st": set(), "out": set(), "skip": {}, "viol": [], "done": 0, "traces": 0}
    cases = []
    mod = None
    capped = None
    import_error = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                import direpack  # the code under test, from the working tree
                if not os.path.abspath(direpack.__file__).startswith(os.path.abspath(REPO)):
                    raise ImportError("direpack imported from %s" % direpack.__file__)
                mod = importlib.import_module("checks.%s" % pid.lower())
    except BaseException as e:
        import_error = traceback.format_exc()
    if import_error:
        res["viol"].append((-1, "import", "the package cannot be used:\n" + import_error, []))
    else:
        if replay:
            rec = pickle.load(open(replay + ".pkl", "rb"))
            c = run_case(mod, rec, limit, tier)
            for v in c.viol:
                print(v[0], v[1], v[2])
            sys.exit(1 if c.viol else 0)
        cases = list(mod.cases(tier))
        if only is not None:
            cases = [c for c in cases if only in repr(c)]
        nw = min(int(os.environ.get("VERIF_WORKERS", 0)) or len(os.sched_getaffinity(0)), max(1, len(cases)))
        chunk = max(1, min(64, len(cases) // (nw * 12) or 1))
        ctxm = mp.get_context("fork")
        counter = ctxm.Value("l", 0)
        stop = ctxm.Value("b", 0, lock=False)
        current = ctxm.Array("l", [-1] * nw, lock=False)
        procs = []
        sys.stdout.flush()
        for w in range(nw):
            r, s = ctxm.Pipe(False)
            p = ctxm.Process(target=_worker, args=(mod, cases, counter, stop, s, limit, chunk, current, w, tier))
            p.start()
            s.close()
            procs.append([p, r, w])
        live = list(procs)
        from multiprocessing.connection import wait
        kf = known_findings(pid)
        while live:
            ready = wait([x[1] for x in live], timeout=5)
            for x in list(live):
                if x[1] in ready:
                    try:
                        tag, acc = x[1].recv()
                    except EOFError:
                        live.remove(x)
                        x[0].join(5)
                        res["viol"].append((current[x[2]], "crash", "worker died (exit code %s)" % x[0].exitcode, []))
                        continue
                    res["tr"] += acc["tr"]
                    res["cmp"] += acc["cmp"]
                    res["st"] |= acc["st"]
                    res["out"] |= acc["out"]
                    res["done"] += acc["done"]
                    res["traces"] += acc["traces"]
                    for k, v in acc["skip"].items():
                        res["skip"][k] = res["skip"].get(k, 0) + v
                    res["viol"] += acc["viol"]
                    if tag == "end":
                        live.remove(x)
                        x[0].join()
            fresh = sum(1 for v in res["viol"] if v[1] not in kf)
            if fresh >= STOP_AFTER and not stop.value:
                stop.value = 1
                capped = "stopped after %d violations" % fresh
            if time.time() > deadline and not stop.value:
                stop.value = 1
                capped = "time limit reached, %d of %d cases completed" % (res["done"], len(cases))
            if time.time() > deadline + 90:
                for x in live:
                    x[0].kill()
    return finish(pid, tier, seed, mod, cases, res, capped, t0)


def finish(pid, tier, seed, mod, cases, res, capped, t0):
    kf = known_findings(pid)
    viols, known = [], {}
    for v in res["viol"]:
        if v[1] in kf:
            known[v[1]] = known.get(v[1], 0) + 1
        else:
            viols.append(v)
    viols.sort(key=lambda v: v[0])
    for s in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[s]))
    fam = {}
    for c in cases:
        k = c[0] if isinstance(c, (tuple, list)) and c and isinstance(c[0], str) else "case"
        fam[k] = fam.get(k, 0) + 1
    samples = [short(jsonable(c), 400) for c in (cases[:2] + cases[len(cases) // 2: len(cases) // 2 + 1] + cases[-2:])]
    cov = {
        "states": len(res["st"]),
        "transitions": res["tr"],
        "traces_validated_against_impl": res["traces"],
        "samples": samples or ["(none: the package could not be imported)"],
        "exhaustive": capped is None and res["done"] == len(cases) and len(cases) > 0,
        "executions_enumerated": len(cases),
        "executions_completed": res["done"],
        "observations_compared": res["cmp"],
        "distinct_outcomes": len(res["out"]),
        "executions_per_family": fam,
        "excluded_observations": res["skip"],
        "rule": (getattr(mod, "RULE", "") or "").strip() if mod else "",
    }
    if capped:
        cov["cap"] = capped
    if mod and hasattr(mod, "BOUNDS"):
        cov["bounds"] = jsonable(mod.BOUNDS(tier))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols),
          "known_findings_observed": known}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d observations, %d outcomes, skips %s, %.1fs%s" % (
        pid, tier, res["done"], len(res["st"]), res["tr"], res["cmp"], len(res["out"]), res["skip"],
        time.time() - t0, " [%s]" % capped if capped else ""))
    if viols:
        if STOP_AFTER != 25:
            by = {}
            for i, sig, msg, trace in viols:
                by.setdefault(sig, []).append((i, msg))
            for sig in sorted(by):
                print("  %d x %s" % (len(by[sig]), sig))
                for i, msg in by[sig][:4]:
                    print("      %s  %s" % (short(cases[i], 200), str(msg)[:160].replace("\n", " ")))
        for n, (i, sig, msg, trace) in enumerate(viols[:10]):
            path = os.path.join(EVID, "replays", "%s_%d.json" % (pid, n))
            json.dump({"property": pid, "case": jsonable(cases[i]) if 0 <= i < len(cases) else None, "signature": sig,
                       "message": msg, "trace": jsonable(trace),
                       "replay": "./check %s --replay=%s" % (pid, path)}, open(path, "w"), indent=1, default=str)
            if 0 <= i < len(cases):
                pickle.dump(cases[i], open(path + ".pkl", "wb"))
            if n < 3:
                print("  case %s\n  %s: %s\n  trace (%d steps) ... %s" % (short(cases[i] if 0 <= i < len(cases) else None, 600), sig, str(msg)[:1500], len(trace), short(trace[-5:], 800)))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(EVID, "replays", "%s_0.json" % pid)))
        sys.stdout.flush()
        return 1
    return 0


