"""C24 regressions and reductions are equivariant under relabelling and change of units."""
import numpy as np
from lib import models, ref, reg

PID = "C24"
RULE = """Orbit exploration: every estimator configuration x table x every generator of the case and variable permutation groups (all
adjacent transpositions, cyclic shift, reversal) x unit, origin and sign changes of the response and of each predictor in turn (predictors' units where
scaling is on, origins where centring is on) and their pairwise products; fit on the transformed table and compare every case-wise,
variable-wise and overall result with the transformed result of the original table."""
ASSUMPTIONS = ["unit changes are powers of two and origin changes dyadic, so the transformed table is exact",
               "a deviation counts only when the original result is stable under relative perturbations of 1e-11 of the table (a tie or discontinuity at the table itself is not judged)",
               "score columns of reductions are compared up to sign"]


def BOUNDS(tier):
    return {"generators": "all adjacent transpositions, shift, reversal; all single unit/origin/sign changes" + ("" if tier == "quick" else "; pairs of generators"), "tier": tier}


GR = dict(optimizer="grid", optimizer_options={"ndir": 24, "maxiter": 6})


def mods(tier):
    out = [m for m in models.catalogue(tier) if m[1].get("regopt") != "quantile"]
    for c, s in (("kstepLTS", "scaleTau2"), ("mean", "mad"), ("kstepLTS", "mad")):
        out.append(("rm", dict(fun="Hampel", centre=c, scale=s), {}))
        out.append(("snipls", dict(eta=0.5, n_components=2, centre=c, scale=s), {}))
    out.append(("sprm", dict(fun="Huber", centre="mean", scale="mad", n_components=1, eta=0.6, start_cutoff_mode="same"), {}))
    for me in ("dcov-sdr", "mdd-sdr"):
        out.append(("sudire", dict(sudiremeth=me, n_components=1), {}))
    return [m for m in out if m[1].get("sudiremeth") not in ("dcov-sdr", "mdd-sdr")]


def gens(mdl, n, p, tier, const):
    kind, par, _ = mdl
    G = [("case", "swap", i) for i in range(n - 1)] + [("case", "shift", 0), ("case", "reverse", 0)]
    if kind != "ppdire":           # the search for directions visits variables in order
        G += [("var", "swap", j) for j in range(p - 1)] + [("var", "shift", 0), ("var", "reverse", 0)]
    one = models.one_block(mdl)
    centred = {"snipls": par.get("centre") != "None", "rm": True, "sprm": True, "ppdire": par.get("center_data", True), "sudire": par.get("center_data", True)}[kind]
    scaled = {"snipls": par.get("scale") != "None", "rm": True, "sprm": par.get("scale") != "None", "ppdire": par.get("scale_data", True) and par.get("center_data", True),
              "sudire": par.get("scale_data", True)}[kind]
    if kind == "rm" and par.get("scale") == "None":
        scaled = False
    single = par.get("centre") not in ("l1median", "kstepLTS") and par.get("center") not in ("l1median", "kstepLTS")   # those centres depend on the relative units
    if not one:
        for a, b in ((2.0, 0.0), (-1.0, 0.0), (0.0625, 0.0), (1024.0, 0.0), (1.0, 16.0), (-4.0, 3.0), (2.0 ** -20, 0.0), (2.0 ** 20, 0.0)):
            if not 1e-4 < abs(a) < 1e4 and par.get("optimizer") == "SLSQP":
                continue                # the general optimiser has an absolute tolerance
            if b and not centred:
                continue
            if a < 0 and par.get("sudiremeth") in ("sir", "save", "dr") and n % par.get("n_slices", 6):
                continue                # unequal slices are not mirrored
            if a < 0 and par.get("sudiremeth") == "phd":
                continue                # its eigenvalues are ordered with their sign
            if a < 0 and kind == "sprm" and (par["centre"], par["scale"]) != ("median", "mad"):
                continue                # signed starting weights: known finding, see run_sign
            G.append(("y", a, b))
    if par.get("scale") == "scaleTau2":
        centred = scaled = False        # the pooled tau scale is a recorded finding of C02
    if centred:
        for j in range(p):
            G.append(("x", j, 1.0, 8.0))
        G.append(("x", "all", 1.0, -32.0))
    if scaled and single:
        for j in range(p):
            for c in (0.25, -1.0, 64.0, 2.0 ** -12, 2.0 ** -30, 2.0 ** 24):
                if not 1e-4 < abs(c) < 1e4 and kind == "sudire":
                    continue                # its covariance matrix would be singular to working precision
                if kind in ("ppdire",) and c < 0:
                    continue
                if j in const:
                    continue
                G.append(("x", j, c, 0.0))
    if kind in ("snipls", "sprm", "rm", "sudire"):
        G.append(("x", "all", -1.0, 0.0))
        if kind != "sudire" or scaled:
            G.append(("x", "all", 4.0, 0.0))
    return G


FINDING = ("sign", ("sprm", dict(fun="Hampel", centre="mean", scale="mad", n_components=1, eta=0.3), {}), (9, 3, 1, "out"))


def cases(tier):
    q = tier == "quick"
    for mdl in mods(tier):
        for ds in models.datasets(q, mdl):
            if q and ds[3] == "offset":
                continue
            yield ("orbit", mdl, ds)
    for c, s in (("mean", "std"), ("mean", "mad"), ("median", "std")):
        for ds in ((9, 3, 1, "out"), (12, 4, 1, "out"), (12, 4, 1, "none"), (9, 3, 2, "down")):
            for fun in ("Hampel", "Huber", "Fair"):
                yield ("sign", ("sprm", dict(fun=fun, centre=c, scale=s, n_components=1, eta=0.3), {}), ds)


def perm(n, g):
    o = list(range(n))
    if g[1] == "swap":
        i = g[2]
        o[i], o[i + 1] = o[i + 1], o[i]
    elif g[1] == "shift":
        o = o[1:] + o[:1]
    else:
        o = o[::-1]
    return np.array(o)


def apply(g, X, y, Xn):
    X, y, Xn = X.copy(), y.copy(), Xn.copy()
    if g[0] == "case":
        o = perm(len(y), g)
        return X[o], y[o], Xn
    if g[0] == "var":
        o = perm(X.shape[1], g)
        return X[:, o], y, Xn[:, o]
    if g[0] == "y":
        return X, g[1] * y + g[2], Xn
    J = range(X.shape[1]) if g[1] == "all" else [g[1]]
    for j in J:
        X[:, j] = g[2] * X[:, j] + g[3]
        Xn[:, j] = g[2] * Xn[:, j] + g[3]
    return X, y, Xn


def observe(mdl, X, y, Xn):
    m = models.make(mdl)
    models.fit(m, mdl, X, y)
    o = {}
    kind = mdl[0]
    if models.has_predict(mdl):
        o["pred"] = np.asarray(m.predict(Xn), float).reshape(-1)
    if kind in ("snipls", "rm", "sprm") or (kind == "ppdire" and not models.one_block(mdl)):
        o["fitted"] = np.asarray(m.fitted_, float).reshape(-1)
        o["resid"] = np.asarray(m.residuals_, float).reshape(-1)
        c = np.asarray(m.coef_, float)
        o["coef"] = c if kind == "ppdire" else c.reshape(-1, 1)
        if kind == "sprm" and len(c) != X.shape[1]:          # variables without spread are left out
            o["coef"] = np.zeros((X.shape[1], 1))
            o["coef"][np.asarray(m.non_zero_scale_vars_, int)] = c.reshape(-1, 1)
    if kind == "sudire":
        o["fitted"] = np.asarray(m.ols_obj_.fittedvalues, float).reshape(-1)
    if kind in ("rm", "sprm"):
        for a in ("caseweights_", "x_caseweights_", "y_caseweights_"):
            o[a] = np.asarray(getattr(m, a), float).reshape(-1)
    if models.has_transform(mdl):
        o["scores"] = np.asarray(m.x_scores_, float)
        o["new"] = np.asarray(m.transform(Xn), float)
        if kind == "sudire":            # scores of the data as they are: compare up to their origin
            c = o["scores"].mean(axis=0)
            o["scores"], o["new"] = o["scores"] - c, o["new"] - c
    if kind in ("snipls", "sprm"):
        o["ret"] = np.zeros(X.shape[1])
        if m.colret_ is not None:
            o["ret"][np.asarray(m.colret_, dtype=int)] = 1.0
    return o


def expected(g, base, mdl, n, p):
    o = {k: v.copy() for k, v in base.items()}
    if g[0] == "case":
        i = perm(n, g)
        for k in ("fitted", "resid", "scores", "caseweights_", "x_caseweights_", "y_caseweights_"):
            if k in o:
                o[k] = o[k][i]
    elif g[0] == "var":
        i = perm(p, g)
        for k in ("coef", "ret"):
            if k in o:
                o[k] = o[k][i]
    elif g[0] == "y":
        a, b = g[1], g[2]
        for k, (s, t) in (("pred", (a, b)), ("fitted", (a, b)), ("resid", (a, 0.0)), ("coef", (a, 0.0))):
            if k in o:
                o[k] = s * o[k] + t
    else:
        if "coef" in o:
            J = list(range(p)) if g[1] == "all" else [g[1]]
            o["coef"][J] /= g[2]
        if mdl[1].get("scale") == "None" or mdl[1].get("scale_data") is False:
            for k in ("scores", "new"):
                if k in o:
                    o[k] *= g[2]
    return o


def diff(got, exp, r=1e-6):
    """first quantity that deviates: (name, deviation)"""
    for k in exp:
        a, b = got.get(k), exp[k]
        if a is None or a.shape != b.shape:
            return k, "shape"
        if k in ("scores", "new"):
            s = np.sign(np.nansum(exp["scores"] * got["scores"], axis=0)) if got["scores"].shape == exp["scores"].shape else 1.0
            a = a * np.where(s == 0, 1.0, s)
        if (np.isnan(a) != np.isnan(b)).any():
            return k, "missing"
        t = r * (1e-9 + np.nanmax(np.abs(b)) if b.size else 1.0) + (1e-9 if k in ("ret",) or "weights" in k else 0.0)
        if k in ("fitted", "pred", "resid"):
            t = r * (np.nanmax(np.abs(exp.get("fitted", b))) + np.nanmax(np.abs(exp.get("resid", b))))
        e = np.nanmax(np.abs(a - b)) if b.size else 0.0
        if e > t:
            return k, "%.3g against %.3g" % (e, t)
    return None


def run_sign(case, ctx):
    """reversing the response: exact equivariance, except for the recorded signed starting weights"""
    _, mdl, ds = case
    X, y = models.load(ds)
    ctx.state(case)
    base = observe(mdl, X, y, X)
    got = ctx.op("fit reversed", observe, mdl, X, -y, X)
    d = diff(got, expected(("y", -1.0, 0.0), base, mdl, *X.shape), 1e-3)
    ctx.comparisons += 1
    if d is None:
        return
    if shaky(mdl, X, y, X, base, 1e-3):
        ctx.skip("table at a discontinuity")
        return
    par = dict(mdl[1])
    try:
        w, v = reg.sprm(X, y, h=par.pop("n_components"), **par), reg.sprm(X, -y, h=mdl[1]["n_components"], **par)
    except ref.Ambiguous:
        ctx.skip("reference ambiguous")
        return
    known = all(np.allclose(o["fitted"], r["fit"], rtol=1e-4, atol=1e-4 * np.abs(y).max()) for o, r in ((base, w), (got, v)))
    if known and case == FINDING:
        ctx.fail("sprm-signed-start-weights", "%s %s" % (ds, d))
    elif not known:
        ctx.fail("sprm:y-sign:" + d[0], "%s %s" % (ds, d))


def run(case, ctx):
    if case[0] == "sign":
        return run_sign(case, ctx)
    _, mdl, ds = case
    X, y = models.load(ds)
    n, p = X.shape
    Xn, _ = models.load((n, p, ds[2] + 5, "none"))
    kind = mdl[0]
    const = [j for j in range(p) if np.ptp(X[:, j]) == 0]
    Xn[:, const] = X[0, const]
    try:
        base = observe(mdl, X, y, Xn)
    except Exception:
        ctx.skip("configuration not applicable to the table")
        return
    G = [(g,) for g in gens(mdl, n, p, ctx.tier, const)]
    if ctx.tier != "quick":
        G += [(a[0], b[0]) for a in G for b in G if a[0][0] != b[0][0]]
    unstable = None
    rt = 1e-2 if mdl[1].get("optimizer") == "SLSQP" else 1e-3 if "l1median" in (mdl[1].get("centre"), mdl[1].get("center")) else 1e-6      # the general optimiser and the spatial median stop at their own tolerance
    for gs in G:
        ctx.state((case, gs))
        A, b, An = X, y, Xn
        exp = base
        for g in gs:
            A, b, An = apply(g, A, b, An)
            exp = expected(g, exp, mdl, n, p)
        got = ctx.op("fit " + "+".join(map(str, gs)), observe, mdl, A, b, An)
        d = diff(got, exp, rt)
        if d is not None:
            if unstable is None:
                unstable = shaky(mdl, X, y, Xn, base, rt)
            if unstable:
                ctx.skip("table at a discontinuity")
                continue
        sig = "%s:%s" % (kind, "+".join(g[0] if g[0] != "y" or g[1] > 0 else "y-sign" for g in gs))
        if not ctx.true(d is None, "%s:%s" % (sig, d[0] if d else ""), "%s %s" % (gs, d)):
            return
    ctx.outcome(tuple(np.round(v, 4).tobytes() for v in base.values()))


def shaky(mdl, X, y, Xn, base, rt):
    e = 1e-6 if "l1median" in (mdl[1].get("centre"), mdl[1].get("center")) else 1e-11
    for s in range(12):
        r = np.random.RandomState(s)
        try:
            o = observe(mdl, X * (1 + e * r.uniform(-1, 1, X.shape)) + e * r.uniform(-1, 1, X.shape), y * (1 + e * r.uniform(-1, 1, y.shape)), Xn)
        except Exception:
            return True
        if diff(o, base, rt) is not None:
            return True
    return False
