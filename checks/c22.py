"""C22 the interior-point adapter passes the problem on faithfully."""
import copy
import importlib
import itertools
import numpy as np
from lib import core

PID = "C22"
RULE = """The solver library is replaced by an enumerated caller.  Every problem of a catalogue (objective with approximated, user-supplied or
joint derivative x extra arguments x constraint list) x every sequence of callbacks (objective, gradient, constraints, jacobian, progress report) over
two or three points (sharing coordinates, or next to each other) up to the depth bound x (new array per call, one buffer overwritten in place, returned arrays overwritten by the caller);
after every callback the answer is compared with the definition at the point asked.  Then every bound list, constraint list order,
option subset, start form and solver status through the whole adapter; and the approximate derivative classes over call sequences."""
ASSUMPTIONS = ["the solver is a stand-in that calls the documented callbacks; the real library is not installed",
               "approximated derivatives are compared with the exact ones within the forward difference error"]
PTS = ((0.5, -1.25, 2.0), (-0.75, -1.25, 1.5), (0.5 + 1e-7, -1.25, 2.0))      # the second shares a coordinate with the first, the third is next to it


def npts(jac):
    return 3 if jac == "true" else 2        # joint value and derivative: answers are remembered between callbacks
OPS = ("objective", "gradient", "constraints", "jacobian")


def BOUNDS(tier):
    return {"callback depth": 3 if tier == "quick" else 5, "points": "2 (3 for joint value and derivative)", "problems": len(JAC) * len(ARGS) * len(CONS), "tier": tier}


JAC = ("none", "true", "callable")
ARGS = ("", "args", "args+kwargs")
W = np.array([1.0, -2.0, 0.5])


def f0(x, a=1.0, k=0.0):
    return a * float(np.sum(x ** 2)) + float(W @ x) + k * x[0] * x[1]


def g0(x, a=1.0, k=0.0):
    return 2 * a * np.asarray(x) + W + k * np.array([x[1], x[0], 0.0])


def fg(x, a=1.0, k=0.0):
    return f0(x, a, k), g0(x, a, k)


# constraints: function, exact jacobian (as rows)
def lin(x, c=0.0, s=1.0):
    return s * (x[0] - x[1]) - c


def lin_j(x, c=0.0, s=1.0):
    return np.array([[s, -s, 0.0]])


def vec(x):
    return np.array([x[0] * x[1], x[2] ** 2])


def vec_j(x):
    return np.array([[x[1], x[0], 0.0], [0.0, 0.0, 2 * x[2]]])


def ent(x, i, j):
    return x[i] * x[j] - (1.0 if i == j else 0.0)


def ent_j(x, i, j):
    r = np.zeros((1, 3))
    r[0, i] += x[j]
    r[0, j] += x[i]
    return r


E = lambda t, f, j, args=(), given=False: (t, f, j, tuple(args), given)
CONS = {
    "dict": E("eq", lin, lin_j), "eq": [E("eq", lin, lin_j, (0.25,))], "ineq-jac": [E("ineq", lin, lin_j, (1.0, -2.0), True)],
    "eq-ineq": [E("eq", lin, lin_j), E("ineq", ent, ent_j, (1, 2))], "ineq-eq": [E("ineq", ent, ent_j, (1, 2)), E("eq", lin, lin_j, (), True)],
    "vector": [E("ineq", vec, vec_j), E("eq", lin, lin_j, (0.5, 3.0))], "vector-jac": [E("eq", lin, lin_j), E("eq", vec, vec_j, (), True)],
    "same-function": [E("eq", ent, ent_j, (i, j)) for i in range(3) for j in range(i, 3)], "same-twice": [E("eq", lin, lin_j, (0.0, 1.0)), E("ineq", lin, lin_j, (5.0, -1.0))],
    "none": [],
}
# every ordered selection of scalar and vector valued constraints of both types: their bounds and values stack in the order given
KIND = {"e": E("eq", lin, lin_j), "i": E("ineq", ent, ent_j, (1, 2)), "E": E("eq", vec, vec_j), "I": E("ineq", vec, vec_j)}
ORDERED = []
for _r in (1, 2, 3, 4):
    for _w in itertools.permutations("eiEI", _r):
        ORDERED.append("order:" + "".join(_w))
        CONS[ORDERED[-1]] = [KIND[_k] for _k in _w]


def spec(c):
    d = {"type": c[0], "fun": c[1]}
    if c[3]:
        d["args"] = c[3]
    if c[4]:
        d["jac"] = c[2]
    return d


def conlist(name):
    c = CONS[name]
    return spec(c) if isinstance(c, tuple) else [spec(e) for e in c]


def entries(name):
    c = CONS[name]
    return [c] if isinstance(c, tuple) else list(c)


def cases(tier):
    q = tier == "quick"
    for jac in JAC:
        for a in ARGS:
            for cn in [c for c in CONS if c not in ORDERED]:
                for buf in ("new", "reused", "clobber"):
                    if cn == "none":
                        if buf == "new":
                            yield ("seq", jac, a, cn, buf, ())
                        continue
                    firsts = list(itertools.product(range(len(OPS)), range(npts(jac))))
                    for first in firsts:
                        yield ("seq", jac, a, cn, buf, first)
    for cn in CONS:
        for b in (None, "box", "half", "order"):
            for st in (0, 1, 2, -1, 5):
                for x0 in ("array", "list", "int", "column") if not q or st == 0 else ("array",):
                    yield ("adapter", cn, b, st, x0)
    for cn in ORDERED:
        for buf in ("new", "reused"):
            for first in itertools.product(range(len(OPS)), range(npts("callable"))):
                if not q or first[0] >= 2:
                    yield ("seq", "callable", "", cn, buf, first)
    names = ("disp", "maxiter", "tol", "print_level", "max_iter", "mu_strategy", "hessian_approximation", "acceptable_tol")
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            for tol in (None, 1e-3):
                for byt in (False, True):
                    yield ("options", sub, tol, byt)
    for cls in ("FunctionWithApproxJacobian", "FunctionWithApproxJacobianCentral"):
        for fn in ("lin", "vec", "obj"):
            for seq in itertools.product(range(6), repeat=3 if q else 4):
                for buf in ("new", "reused"):
                    yield ("approx", cls, fn, seq, buf)
    yield ("errors",)


def kwargs_of(a):
    args, kw = {"": ((), None), "args": ((1.5,), None), "args+kwargs": ((0.75,), {"k": 2.0})}[a]
    return args, kw


def exact(op, x, a, cn):
    args, kw = kwargs_of(a)
    kw = kw or {}
    if op == "objective":
        return f0(x, *args, **kw)
    if op == "gradient":
        return g0(x, *args, **kw)
    es = entries(cn)
    if op == "constraints":
        return np.concatenate([np.atleast_1d(e[1](x, *e[3])) for e in es])
    return np.vstack([e[2](x, *e[3]) for e in es])


class FakeProblem:
    """stand-in for the solver's problem class: hands control to the enumerated script"""
    script = None

    def __init__(self, *a, **k):
        self.a, self.k = a, k
        self.options = []

    def add_option(self, k, v):
        self.options.append((k, v))

    addOption = add_option

    def solve(self, x0):
        return type(self).script(self, x0)


class adapter:
    def __init__(self, script):
        self.script = script

    def __enter__(self):
        self.iw = importlib.import_module("direpack.ipopt_temp.ipopt_wrapper")
        self.old = (self.iw.cyipopt, self.iw.CYIPOPT_INSTALLED)
        P = type("Problem", (FakeProblem,), {"script": staticmethod(self.script)})
        mod = type("M", (), {})()
        mod.Problem = mod.problem = P
        self.iw.cyipopt, self.iw.CYIPOPT_INSTALLED = mod, True
        return self.iw

    def __exit__(self, *a):
        self.iw.cyipopt, self.iw.CYIPOPT_INSTALLED = self.old


INFO = lambda st, obj: {"status": st, "status_msg": b"message %d" % st, "obj_val": obj, "x": None, "mult_g": np.zeros(1)}


def problem_args(jac, a, cn):
    args, kw = kwargs_of(a)
    return dict(fun=fg if jac == "true" else f0, args=args, kwargs=kw, jac={"none": None, "true": True, "callable": g0}[jac], constraints=conlist(cn))


def run(case, ctx):
    if case[0] != "approx":
        iw = importlib.import_module("direpack.ipopt_temp.ipopt_wrapper")
        if not all(hasattr(iw, a) for a in ("cyipopt", "CYIPOPT_INSTALLED", "minimize_ipopt")):
            ctx.skip("adapter not reachable")
            return
    return globals()["run_" + case[0]](case, ctx)


def run_seq(case, ctx):
    _, jac, a, cn, buf, first = case
    depth = 3 if ctx.tier == "quick" else 5
    alphabet = list(itertools.product(range(len(OPS)), range(npts(jac))))
    ops = [o for o in alphabet if cn != "none" or o[0] < 2]
    seqs = itertools.product(ops, repeat=depth) if not first else (tuple([first]) + r for r in itertools.product(ops, repeat=depth - 1))
    cache = {}
    for o, p in ops:
        cache[o, p] = np.array(exact(OPS[o], np.array(PTS[p]), a, cn), dtype=float)
    for seq in seqs:
        ctx.state((case, seq))
        done = {"obj": 0, "grad": 0}

        def script(problem, x0):
            po = problem.k.get("problem_obj") or (problem.a[2] if len(problem.a) > 2 else None)
            b = np.zeros(3)
            for t, (o, p) in enumerate(seq):
                if buf == "reused":
                    b[:] = PTS[p]
                    x = b
                else:
                    x = np.array(PTS[p])
                keep = x.copy()
                ctx.op("%s at %d" % (OPS[o], p), lambda: None)
                got = getattr(po, OPS[o])(x)
                approx = (OPS[o] == "gradient" and jac == "none") or OPS[o] == "jacobian"
                ctx.eq(np.array(got, float), cache[o, p], "%s:%s" % (OPS[o], jac if o < 2 else "constraint"), rtol=0, atol=5e-6 if approx else 1e-12)
                ctx.true(np.array_equal(x, keep), "solver-buffer-changed:" + OPS[o], "")
                done["obj"] += o == 0
                done["grad"] += o == 1
                if buf == "clobber" and isinstance(got, np.ndarray) and OPS[o] in ("constraints", "jacobian"):
                    got[...] = 777.0
                if t == 1:
                    po.intermediate(0, t + 3, 1.0, 0.0, 0.0, 0.1, 0.0, 0.0, 1.0, 1.0, 1)
            return np.array(PTS[0]), INFO(0, 1.25)
        with adapter(script) as iw:
            r = iw.minimize_ipopt(x0=np.array(PTS[0]), **problem_args(jac, a, cn))
        if jac != "true":
            ctx.same((int(r.nfev), int(r.njev)), (done["obj"], done["grad"]), "evaluation-counts")
        ctx.same(int(r.nit), 4 if len(seq) > 1 else 0, "iteration-count")
    ctx.outcome((jac, a, cn, first))


def run_adapter(case, ctx):
    _, cn, b, st, x0f = case
    ctx.state(case)
    bounds = {None: None, "box": [(-1.0, 1.0), (-2.0, 2.0), (0.0, 3.0)], "half": [(-1e19, 1.0), (0.5, 1e19), (-4.0, 4.0)], "order": ((0.0, 0.0), (1.0, 5.0), (-7.0, -3.0))}[b]
    base = [1.0, 2.0, 3.0]
    x0 = {"array": np.array(base), "list": list(base), "int": np.array([1, 2, 3]), "column": np.array(base, dtype="float32")}[x0f]
    seen = {}
    ans = np.array([4.0, -5.0, 6.5])
    info = INFO(st, 2.75)

    def script(problem, s):
        seen["p"], seen["x0"] = problem, np.array(s, dtype=float)
        return ans.copy(), info
    with adapter(script) as iw:
        r = ctx.op("minimize_ipopt", lambda: iw.minimize_ipopt(f0, x0, bounds=bounds, constraints=conlist(cn), options={"maxiter": 7}))
    k = seen["p"].k
    es = entries(cn)
    m = [len(np.atleast_1d(e[1](np.array(base), *e[3]))) for e in es]
    ctx.same((int(k["n"]), int(k["m"])), (3, sum(m)), "problem-size")
    cl = np.zeros(sum(m))
    cu = np.concatenate([np.zeros(c) if e[0] == "eq" else np.full(c, np.inf) for e, c in zip(es, m)]) if es else np.zeros(0)
    ctx.eq(np.array(k["cl"], float).ravel(), cl, "constraint-lower", rtol=0, atol=0)
    got = np.array(k["cu"], float).ravel()
    ctx.same((got >= 1e15).tolist(), np.isinf(cu).tolist(), "constraint-upper")
    ctx.eq(np.where(got >= 1e15, 0.0, got), np.zeros(sum(m)), "constraint-upper", rtol=0, atol=0)
    if bounds is None:
        ctx.true(k.get("lb") is None or np.all(np.array(k["lb"], float) <= -1e15), "bounds:none")
        ctx.true(k.get("ub") is None or np.all(np.array(k["ub"], float) >= 1e15), "bounds:none")
    else:
        ctx.eq(np.array(k["lb"], float), [v[0] for v in bounds], "bounds:lower", rtol=0, atol=0)
        ctx.eq(np.array(k["ub"], float), [v[1] for v in bounds], "bounds:upper", rtol=0, atol=0)
    ctx.eq(seen["x0"].ravel(), base, "start", rtol=0, atol=0)
    ctx.eq(np.array(r.x, float), ans, "answer", rtol=0, atol=0)
    ctx.same((bool(r.success), int(r.status)), (st == 0, st), "status")
    ctx.true(r.message == info["status_msg"], "message", r.message)
    ctx.eq(float(r.fun), 2.75, "objective-reported", rtol=0, atol=0)
    ctx.true(r.info is info or r.info == info, "info")
    ctx.outcome((cn, b, st))


def txt(o):
    return o.decode() if isinstance(o, bytes) else o


def run_options(case, ctx):
    _, sub, tol, byt = case
    ctx.state(case)
    vals = {"disp": 5, "maxiter": 11, "tol": 1e-5, "print_level": 2, "max_iter": 9, "mu_strategy": "monotone", "hessian_approximation": "exact", "acceptable_tol": 0.125}
    o = {(k.encode() if byt else k): vals[k] for k in sub}
    keep = dict(o)
    seen = {}

    def script(problem, s):
        seen["o"] = [(txt(k), txt(v)) for k, v in problem.options]
        return np.zeros(3), INFO(0, 0.0)
    with adapter(script) as iw:
        ctx.op("minimize_ipopt", lambda: iw.minimize_ipopt(f0, np.zeros(3), tol=tol, options=o if sub else None))
    ctx.same(o, keep, "options-changed")
    got = dict(seen["o"])
    ctx.same(len(got), len(seen["o"]), "option-twice")
    exp = {}
    for k in sub:
        new = {"disp": "print_level", "maxiter": "max_iter"}.get(k, k)
        if new != k and new in sub:
            new = k                      # both spellings given: left as they are
        exp[new] = vals[k]
    exp.setdefault("print_level", 0)
    exp.setdefault("tol", tol or 1e-8)
    exp.setdefault("mu_strategy", "adaptive")
    exp.setdefault("hessian_approximation", "limited-memory")
    for k in exp:
        ctx.same(got.get(k), exp[k], "option:" + k)
    ctx.same(sorted(got), sorted(exp), "option-names")
    ctx.outcome(tuple(sorted(got.items(), key=str)))


def run_approx(case, ctx):
    _, cls, fn, seq, buf = case
    ctx.state(case)
    mod = importlib.import_module("direpack.ipopt_temp.jacobian")
    F = getattr(mod, cls, None)
    if F is None:
        ctx.skip("class not reachable")
        return
    f, j, args = {"lin": (lin, lin_j, (0.5, 2.0)), "vec": (vec, vec_j, ()), "obj": (f0, lambda x: g0(x).reshape(1, -1), ())}[fn]
    w = F(f, epsilon=1e-6, verbose=False)
    b = np.zeros(3)
    for s in seq:
        p = PTS[s % 3]
        if buf == "reused":
            b[:] = p
            x = b
        else:
            x = np.array(p)
        if s < 3:
            ctx.eq(np.array(ctx.op("value", lambda: w(x, *args)), float), f(np.array(p), *args), "approx-value", rtol=0, atol=1e-12)
        else:
            ctx.eq(np.array(ctx.op("jac", lambda: w.jac(x, *args)), float), j(np.array(p), *args), "approx-jacobian:" + cls, rtol=0, atol=1e-8 if "Central" in cls else 5e-6)
        ctx.true(np.array_equal(x, p), "point-changed")
    ctx.outcome((cls, fn, seq))


def run_errors(case, ctx):
    ctx.state(case)
    with adapter(lambda p, s: (np.zeros(3), INFO(0, 0.0))) as iw:
        for what, kw in (("hess", dict(hess=lambda x: np.eye(3))), ("hessp", dict(hessp=lambda x, p: p)), ("jac", dict(jac="2-point")), ("type", dict(constraints=[{"type": "equal", "fun": lin}]))):
            try:
                iw.minimize_ipopt(f0, np.zeros(3), **kw)
                ok = False
            except Exception:
                ok = True
            ctx.true(ok, "unsupported-accepted:" + what)
    ctx.outcome("errors")
