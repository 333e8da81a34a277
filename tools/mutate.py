#!/opt/venv/bin/python
"""mutate.py OUT.jsonl [--file SUBSTR] [--n N] [--seed S] [--budget SECONDS] [--jobs J]
Mutation testing of the CHECKS (a development aid, decides nothing): small changes of the code are made in scratch copies,
the checks that concern the file are run on each; prints the changes that no check notices within the budget."""
import ast, json, os, random, shutil, sys, time, argparse, signal
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/direpack"
REL = [("preprocessing/robcent", "C01 C04 C02 C25 C17 C18 C19 C20 C21"), ("preprocessing/_preproc", "C02 C01 C04 C25 C03 C18 C19 C20"),
       ("preprocessing/", "C03 C17 C18 C19 C20 C21"), ("sprm/_m", "C05 C07 C08"), ("sprm/rm", "C08 C09 C24 C17 C18 C19 C20 C21"),
       ("sprm/snipls", "C06 C25 C09 C24 C17 C18 C19 C20 C21"), ("sprm/sprm", "C07 C09 C24 C17 C18 C19 C20 C21"),
       ("dicomo/", "C10 C11 C12 C17 C18 C19 C20 C26"), ("ppdire/capi", "C12 C17 C18 C20 C19"), ("ppdire/", "C13 C14 C09 C24 C17 C18 C19 C20 C21"),
       ("sudire/", "C15 C26 C16 C09 C24 C17 C18 C19 C20 C21"), ("ipopt_temp", "C22"), ("plot/", "C23"), ("cross_val", "C21 C05"),
       ("utils/", "C25 C26 C09 C19 C20 C01")]


def sites(path):
    s = open(path, newline="").read()
    t = ast.parse(s)
    lines = s.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    b = [l.encode() for l in lines]

    def pos(ln, col):
        return off[ln - 1] + len(b[ln - 1][:col].decode())

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def add(n, new, kind):
        a, e = seg(n)
        if s[a:e] != new:
            out.append((a, e, new, kind, n.lineno))
    U = ast.unparse
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Call) and U(n.func) in ("print", "warnings.warn", "warn"):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(m) for m in ast.walk(n)}
    for n in ast.walk(t):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                  ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            add(n, U(ast.Compare(n.left, [sw[type(n.ops[0])]()], n.comparators)), "cmp")
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
            for o in sw.get(type(n.op), []):
                if isinstance(n.op, ast.Add) and any(isinstance(m, ast.Constant) and isinstance(m.value, str) for m in ast.walk(n)):
                    continue
                if isinstance(n.op, ast.Mod):
                    continue
                add(n, "(" + U(ast.BinOp(n.left, o(), n.right)) + ")", "bin")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.1), "float")
        elif isinstance(n, ast.BoolOp):
            add(n, "(" + U(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)) + ")", "boolop")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(n, "(" + U(n.operand) + ")", "neg")
        elif isinstance(n, ast.Call):
            f = U(n.func)
            if f in ("np.abs", "abs", "np.sqrt", "np.square", "np.array", "np.sort", "np.unique", "np.ravel", "copy.deepcopy", "np.diag") and len(n.args) == 1:
                add(n, "(" + U(n.args[0]) + ")", "unwrap")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten", "ravel", "T") and not n.args:
                add(n, "(" + U(n.func.value) + ")", "uncopy")
            for sub in (("np.median", "np.mean"), ("np.mean", "np.median"), ("np.min", "np.max"), ("np.max", "np.min"), ("max", "min"), ("min", "max"),
                        ("np.floor", "np.ceil"), ("np.ceil", "np.floor"), ("np.argmax", "np.argmin"), ("np.argmin", "np.argmax"), ("np.sum", "np.nansum")):
                if f == sub[0]:
                    add(n.func, sub[1], "fun")
            for k in n.keywords:
                if k.arg:
                    add(n, U(ast.Call(n.func, n.args, [q for q in n.keywords if q is not k])), "dropkw")
            if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
                add(n, U(ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords)), "swapargs")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n, ast.If) and "verbose" in U(n.test):
                continue
            add(n.test, "(True)", "cond")
            add(n.test, "(False)", "cond")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, "value", None), ast.Constant):
            add(n, "pass", "del")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            add(n, "(" + U(n.value) + ")", "T")
    return s, out


def relevant(f):
    for p, c in REL:
        if f.startswith(p):
            return c.split()
    return []


def child(slot, root, checks, budget, wfd):
    import contextlib, io, traceback, warnings, random as R
    os.setpgrp()
    os.environ["DIREPACK_REPO"] = root
    sys.path.insert(0, V)
    res = ("survived", {})
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from lib import core
            import importlib
            import direpack
            assert direpack.__file__.startswith(root), direpack.__file__
            done = {}
            for c in checks:
                mod = importlib.import_module("checks." + c.lower())
                kf = core.known_findings(c)
                cs = list(mod.cases("quick"))
                idx = list(range(len(cs)))
                R.Random(1).shuffle(idx)
                t0 = time.time()
                n = 0
                for i in idx:
                    x = core.run_case(mod, cs[i], 60, "quick")
                    bad = [v for v in x.viol if v[0] not in kf]
                    n += 1
                    if bad:
                        res = ("killed", c, bad[0][0], n)
                        raise StopIteration
                    if time.time() - t0 > budget:
                        break
                done[c] = "%d/%d" % (n, len(cs))
            res = ("survived", done)
    except StopIteration:
        pass
    except BaseException as e:
        res = ("killed", "import", repr(e)[:200], 0)
    os.write(wfd, json.dumps(res).encode())
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--file", default=""); ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--budget", type=float, default=40); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    import numpy, scipy.stats, scipy.optimize, pandas, sklearn, sklearn.base, sklearn.model_selection, statsmodels.api, matplotlib.pyplot, dcor
    import sklearn.pipeline, sklearn.preprocessing, statsmodels.regression.quantile_regression  # noqa
    todo = []
    seen = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            seen.add(json.loads(l)["id"])
    for d, _, fs in os.walk(SRC):
        if "/test" in d or "__pycache__" in d:
            continue
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith(".py") and f != "__init__.py" and a.file in rel and relevant(rel):
                s, out = sites(os.path.join(d, f))
                for k, o in enumerate(out):
                    todo.append((rel, k, s, o))
    print(len(todo), "sites")
    random.Random(a.seed).shuffle(todo)
    todo = [t for t in todo[:a.n] if "%s#%d" % (t[0], t[1]) not in seen]
    if a.only:
        todo = [t for t in todo if "%s#%d" % (t[0], t[1]) in a.only.split(",")]
    base = "/dev/shm/mut%d" % os.getpid()
    live = {}
    k = 0
    f = open(a.out, "a")
    while todo or live:
        while todo and len(live) < a.jobs:
            rel, i, s, (p, e, new, kind, ln) = todo.pop(0)
            m = s[:p] + new + s[e:]
            try:
                compile(m, rel, "exec")
            except SyntaxError:
                continue
            root = "%s/%d" % (base, k); k += 1
            shutil.copytree("/repo/src", root + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
            open(root + "/src/direpack/" + rel, "w", newline="").write(m)
            r, w = os.pipe()
            sys.stdout.flush(); f.flush()
            pid = os.fork()
            if not pid:
                os.close(r)
                child(k, root, relevant(rel), a.budget, w)
            os.close(w)
            live[pid] = (r, root, dict(id="%s#%d" % (rel, i), line=ln, kind=kind, old=s[p:e], new=new), time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if not pid:
            for q, x in live.items():
                if time.time() - x[3] > 1500:
                    try: os.killpg(q, signal.SIGKILL)
                    except OSError: pass
            time.sleep(.1)
            continue
        r, root, rec, t0 = live.pop(pid)
        data = b""
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        shutil.rmtree(root)
        rec["res"] = json.loads(data) if data else ["killed", "died", "", 0]
        rec["t"] = round(time.time() - t0, 1)
        f.write(json.dumps(rec) + "\n"); f.flush()
        if rec["res"][0] == "survived":
            print("SURVIVED %s line %d %s: %s -> %s  (%.0fs)" % (rec["id"], rec["line"], rec["kind"], rec["old"][:150].replace("\n", " "), rec["new"][:150], rec["t"]), flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
