"""C16 bootstrap estimate of the structural dimension."""
import contextlib
import itertools
import numpy as np
import pandas as pd
import direpack
from lib import data
from direpack import sudire, estimate_structural_dim

PID = "C16"
RULE = """The random generator is replaced by a script: every sequence of draws over an alphabet of resamples (identity, reversal,
rotations, duplicated and dropped cases) for every candidate dimension and replication within the bound x methods x
settings x containers.  The fits made by the code are recorded; the averages are recomputed from the recorded resamples
with independently fitted reductions."""
ASSUMPTIONS = ["resamples in the alphabet keep the predictors' rank", "a run whose draws do not go through numpy's legacy random functions is judged on the resamples it used (pairing, averages), not on the script"]


def alphabet(n):
    r = list(range(n))
    return [r, r[::-1], r[3:] + r[:3], [0, 0, 1] + r[3:], r[:-2] + [2, 2], [i - i % 2 if i < 6 else i for i in r],
            [n - 1] * 2 + r[2:], r[1::2] + r[::2]]


def BOUNDS(tier):
    return {"n": 12, "p": "2..3", "B": "1..4", "draw alphabet": "4..8 resamples", "sequences": "all of length p*B", "tier": tier}


METH = ("sir", "save", "dr", "phd")
SET = [dict(n_slices=2), dict(n_slices=3), dict(n_slices=3, scale_data=False), dict(n_slices=3, center="median"),
       dict(n_slices=2, center_data=False), dict(n_slices=3, center_data=False, scale_data=False)]


def cases(tier):
    q = tier == "quick"
    for me in METH:
        for script in itertools.product((0, 2, 3, 5), repeat=2):
            yield ("boot", 50, 2, 1, me, SET[1], script, "array")
    for me in METH:
        for st in SET:
            for script in itertools.product(range(4), repeat=2):          # p=2, B=1
                yield ("boot", 12, 2, 1, me, st, script, "array")
    for me in METH[:2] if q else METH:
        for cont in ("array", "frame", "column", "integer"):
            for script in itertools.product((0, 2, 3, 4), repeat=3):        # p=3, B=1
                yield ("boot", 12, 3, 1, me, SET[1], script, cont)
    for me in METH[2:3] if q else METH:
        for script in itertools.product(range(4) if q else range(8), repeat=4):   # p=2, B=2
            yield ("boot", 12, 2, 2, me, SET[0], script, "array")
    for me in ("sir",) if q else METH:
        for script in itertools.product((0, 2, 3) if q else (0, 2, 3, 4), repeat=6):      # p=2, B=3
            yield ("boot", 12, 2, 3, me, SET[1], script, "array")
    for script in itertools.product((3, 4), repeat=8):                      # p=2, B=4
        yield ("boot", 12, 2, 4, "save", SET[0], script, "array")
    yield ("boot", 12, 2, 2, "sir", {}, (0, 1, 2, 3), "array")


def run(case, ctx):
    _, n, p, B, me, st, script, cont = case
    ctx.state(case)
    X, y = data.regression(n, p, 2, noise=4.0)
    if cont == "integer":
        X, y = np.round(X * 4), np.round(y * 4)
    args = {"array": (X, y), "frame": (pd.DataFrame(X, columns=list("abc")[:p]), pd.Series(y)), "column": (X, y.reshape(-1, 1)),
            "integer": (X.astype(int), y.astype(int))}[cont]
    A = alphabet(n)
    left = list(script)
    used, rec = [], []

    def draw(*a, **k):
        size = k.get("size", a[2] if len(a) > 2 else a[1] if len(a) > 1 else None)
        if size not in (n, (n,), [n]) or not left:
            used.append(None)
            return real(*a, **k)
        i = left.pop(0)
        used.append(i)
        return np.array(A[i])

    real = np.random.randint
    fit0 = sudire.fit

    def fit(self, X_, *a, **k):
        yv = k.get("y", a[0] if a else None)
        rec.append((np.array(X_, dtype=float, copy=True), np.array(yv, dtype=float, copy=True).ravel(), self.n_components))
        return fit0(self, X_, *a, **k)

    old = (np.random.randint, np.random.choice)
    before = (args[0].copy(), args[1].copy())
    try:
        sudire.fit = fit
        np.random.randint = draw
        np.random.choice = draw
        h, avg = ctx.op("estimate %s" % (script,), estimate_structural_dim, me, args[0], args[1], B, **dict(st))
    finally:
        sudire.fit = fit0
        np.random.randint, np.random.choice = old
    ctx.true(np.array_equal(np.asarray(before[0]), np.asarray(args[0])) and np.array_equal(np.asarray(before[1]), np.asarray(args[1])), "input-changed")
    avg = [float(v) for v in avg]
    ctx.true(1 <= int(h) <= len(avg), "dimension-range", (h, avg))
    ctx.true(avg[int(h) - 1] <= min(avg) + 1e-9, "argmin", (h, avg))
    ctx.true(len(avg) == p, "candidates", avg)
    full = lambda r: r[0].shape == X.shape and np.array_equal(r[0], X) and np.array_equal(r[1], y)
    if len(rec) < p * B:
        ctx.skip("fits not observable")
        return
    rows = {tuple(X[i]) + (y[i],) for i in range(n)}
    per = {k: [] for k in range(1, p + 1)}
    seen = {k: 0 for k in per}
    ok = True
    for r in rec:
        ok &= ctx.true(r[0].shape == (n, p) and len(r[1]) == n, "resample-size", r[0].shape)
        if not ok:
            return
        ctx.true(all(tuple(r[0][i]) + (r[1][i],) in rows for i in range(n)), "pairs-kept-together", "a resampled case has another case's response")
        if full(r) and not seen[r[2]]:
            seen[r[2]] = 1
            continue
        per[r[2]].append(r)
    scripted = None not in used and len(used) == p * B
    if scripted:
        want = sorted(tuple(map(tuple, np.column_stack([X[A[i]], y[A[i]]]))) for i in used)
        got = sorted(tuple(map(tuple, np.column_stack([r[0], r[1]]))) for k in per for r in per[k])
        ctx.true(want == got, "draws-used", "the resamples are not the drawn cases")
    else:
        ctx.skip("draws not scripted")
    ref = []
    proj = lambda r, k: np.asarray(sudire(me, n_components=k, verbose=False, **st).fit(r[0], r[1]).proj_mat_, float)
    for k in range(1, p + 1):
        if not ctx.true(len(per[k]) == B, "replications", "%d resamples for dimension %d" % (len(per[k]), k)):
            return
        F = proj((X, y), k)
        ref.append([np.sqrt(np.linalg.eigvalsh((F - proj(r, k)).T @ (F - proj(r, k)))[-1].clip(0)) for r in per[k]])
    mean = [sum(v) / B for v in ref]
    if not np.allclose(avg, mean, rtol=1e-6, atol=1e-7):
        run_ = [sum(sum(v) for v in ref[:k]) / (B * k) for k in range(1, p + 1)]
        if np.allclose(avg, run_, rtol=1e-6, atol=1e-7):
            ctx.fail("running-averages", "got %s, distances %s" % (avg, ref))
        else:
            ctx.fail("averages", "got %s, distances %s" % (avg, ref))
    ctx.comparisons += 1
    ctx.outcome(h, np.round(avg, 4))
