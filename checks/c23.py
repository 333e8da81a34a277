"""C23 plots show exactly the model's numbers."""
import itertools
import numpy as np
import pandas as pd
from lib import data, models, core
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection
from matplotlib.colors import to_rgba
from matplotlib.markers import MarkerStyle
from matplotlib.patches import Rectangle

PID = "C23"
RULE = """Every model of a catalogue (with and without outliers of either kind, removed variables, every container) x plot kind x data split
(training, both, new only) x naming mode x component pair x weight kind x truncation x variable names; the artists of the figure are
read back and compared, as a labelled set of points, bars and annotations, with the model's own results."""
ASSUMPTIONS = ["the drawing back end is the non-interactive one; rendering of an artist by the plotting library is not judged",
               "flagging of a case by colour and marker follows the documented weight classes"]
COL = ["#101010", "#fafafa", "#0000ff", "#00ff00", "#777777", "#ff0000", "#00ffff", "#ff00ff"]
MRK = ["o", "d", "v"]


def BOUNDS(tier):
    return {"models": len(MODELS), "component pairs": "all ordered pairs", "tier": tier}


GR = dict(optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4})
# kind, settings, table deviation, container
MODELS = [
    ("sprm", dict(n_components=2, eta=0.0, fun="Hampel"), "out", "array"), ("sprm", dict(n_components=3, eta=0.3, fun="Huber"), "mild", "column"),
    ("sprm", dict(n_components=2, eta=0.2, fun="Fair"), "none", "array"), ("sprm", dict(n_components=2, eta=0.1, fun="Hampel"), "const", "array"),
    ("sprm", dict(n_components=2, eta=0.4, fun="Hampel", columns=True), "out", "frame"), ("sprm", dict(n_components=2, eta=0.6, fun="Hampel", centre="mean", scale="std"), "xout", "series"),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=3, square_pi=True, **GR), "none", "array"),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, regopt="robust", **GR), "out", "frame"),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, scale_data=False, **GR), "none", "column"),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=2, **GR), "none", "array"),
    ("sudire", dict(sudiremeth="sir", n_components=2, n_slices=4), "none", "array"), ("sudire", dict(sudiremeth="save", n_components=3, n_slices=2), "none", "frame"),
    ("sudire", dict(sudiremeth="phd", n_components=2, scale_data=False), "out", "series"),
]
SPLIT = ("train", "both", "new")
NAMES = ("no", "all", "train", "new")


def cases(tier):
    q = tier == "quick"
    for i, m in enumerate(MODELS):
        h = m[1]["n_components"]
        for split in SPLIT:
            for nm in NAMES:
                for lab in (False, True):
                    if not (m[0] == "ppdire" and m[1]["pi_arguments"]["mode"] == "var"):
                        for yv in ("flat", "column", "series", "colframe") if split != "train" else ("flat",):
                            yield ("yyp", i, split, nm, lab, yv)
                    for c in itertools.product(range(h), repeat=2):
                        yield ("proj", i, split, nm, lab, c)
                    if m[0] == "sprm":
                        for mode in ("overall", "x", "y"):
                            yield ("weights", i, split, nm, lab, mode)
        if m[0] == "sprm":
            for ent in ("coef_", "coef_scaled_"):
                for tr in (0, 0.1, 0.3, 0.5, 0.75, 0.99):
                    for cols in (False, True):
                        yield ("coef", i, ent, tr, cols)
    for g in range(4):
        yield ("contour", g)
    for kind in ("sprm", "ppdire", "sudire"):
        yield ("type", kind)


FIT = {}


def load(i):
    """(model, X, y, Xn, yn); fitted once per process"""
    if i in FIT:
        return FIT[i]
    kind, par, dev, cont = MODELS[i]
    n = 18 if kind == "sudire" else 12
    X, y = data.regression(n, 4, 3, noise=2.0)
    Xn, yn = data.regression(6, 4, 8, noise=2.0)
    if dev in ("out", "mild"):
        y[2] += 60.0 if dev == "out" else 7.0
        y[5] -= 6.0
        Xn[1] += 40.0
    if dev == "xout":
        X[4] += 25.0
        Xn[3] -= 4.0
    if dev == "const":
        X[:, 1] = 3.0
        Xn[:, 1] = 3.0
        y[0] += 50
    A, b, An = X, y, Xn
    if cont == "frame":
        A, b, An = pd.DataFrame(X, columns=list("pqrs")), pd.DataFrame({"y": y}), pd.DataFrame(Xn, columns=list("pqrs"))
    elif cont == "series":
        A, b = pd.DataFrame(X, columns=list("pqrs")), pd.Series(y, index=range(50, 50 + n))
    elif cont == "column":
        b = y.reshape(-1, 1)
    m = models.make((kind, par, {}))
    m.fit(*((A,) if kind == "ppdire" and par["pi_arguments"]["mode"] == "var" else (A, b)))
    FIT[i] = (m, X, y, An, yn)
    return FIT[i]


def drawn(fig):
    ax = fig.axes[0]
    pts, bars, lines, notes = [], [], [], []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            off = np.ma.getdata(c.get_offsets())
            fc = c.get_facecolors()
            vert = np.asarray(c.get_paths()[0].vertices)
            for k, (a, b) in enumerate(off):
                pts.append((float(a), float(b), tuple(np.round(fc[k % len(fc)], 4)), marker_of(vert)))
    for p in ax.patches:
        if isinstance(p, Rectangle):
            bars.append((p.get_x() + p.get_width() / 2, p.get_height(), tuple(np.round(p.get_facecolor(), 4))))
    for l in ax.lines:
        lines.append((np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)))
    for t in ax.texts:
        xy = getattr(t, "xy", t.get_position())
        notes.append((t.get_text(), float(xy[0]), float(xy[1])))
    return ax, pts, bars, lines, notes


SHAPES = {}


def marker_of(vert):
    if not SHAPES:
        for m in MRK:
            s = MarkerStyle(m)
            SHAPES[m] = s.get_path().transformed(s.get_transform()).vertices
    for m, v in SHAPES.items():
        if v.shape == vert.shape and np.allclose(v, vert, atol=1e-6):
            return m
    return "?"


def rgba(i):
    return tuple(np.round(to_rgba(COL[i]), 4))


def call(ctx, name, fn):
    plt.close("all")
    ctx.op(name, fn)
    figs = plt.get_fignums()
    ctx.same(len(figs), 1, "figures:" + name)
    return plt.figure(figs[-1])


def match(ctx, got, exp, sig):
    """labelled sets of points: every expected tuple is drawn once, nothing else"""
    def key(t):
        return tuple((round(v, 5) + 0.0) if isinstance(v, float) else v for v in t)
    got, exp = list(got), list(exp)
    if not ctx.same(len(got), len(exp), sig + ":count"):
        return
    left = list(got)
    for e in exp:
        ok = None
        for k, g in enumerate(left):
            if all((abs(a - b) <= 1e-7 * (1 + abs(b))) if isinstance(b, float) else a == b for a, b in zip(g, e)):
                ok = k
                break
        if not ctx.true(ok is not None, sig, "%r not drawn; drawn %r" % (e, left[:6])):
            return
        left.pop(ok)
    ctx.outcome((sig, tuple(sorted(map(str, map(key, exp))))))


def classes(w, new):
    """colour and marker per case from its weight"""
    out = []
    for v in w:
        if v == 1:
            out.append((rgba(5 if new else 2), MRK[0]))
        elif v == 0:
            out.append((rgba(7 if new else 6), MRK[2]))
        else:
            out.append((rgba(5 if new else 2), MRK[1]))
    return out


def plotter(m, kind):
    import direpack
    return {"sprm": direpack.sprm_plot, "ppdire": direpack.ppdire_plot, "sudire": direpack.sudire_plot}[kind](m, COL)


def args(split, nm, lab, m, kind, n, Xn, yn=None):
    kw = {}
    if split != "train":
        kw["Xn"] = Xn
    if split == "new":
        kw["onlyval"] = True
    names, namesv = ["c%d" % k for k in range(n)], ["n%d" % k for k in range(len(yn))]
    if nm in ("all", "train"):
        kw["names"] = names
    if nm in ("all", "new") and split != "train":
        kw["namesv"] = namesv
    if lab:
        kw["label"] = ["resp"] if kind == "sprm" else "resp"
        kw["title"] = "a title"
    return kw


def run(case, ctx):
    ctx.state(case)
    try:
        return globals()["run_" + case[0]](case, ctx)
    finally:
        plt.close("all")


def points(ctx, case, m, kind, cx, cy, nx, ny, wc, wv, pts, notes, kw, sig):
    exp, lab = [], []
    if not kw.get("onlyval"):
        cl = classes(wc, False) if kind == "sprm" else [(rgba(2), MRK[0])] * len(cx)
        exp += [(float(a), float(b)) + c for a, b, c in zip(cx, cy, cl)]
        lab += [(t, float(cx[k]), float(cy[k])) for k, t in enumerate(kw.get("names", ()))]
    if "Xn" in kw:
        cl = classes(wv, True) if kind == "sprm" else [(rgba(5), MRK[0])] * len(nx)
        exp += [(float(a), float(b)) + c for a, b, c in zip(nx, ny, cl)]
        lab += [(t, float(nx[k]), float(ny[k])) for k, t in enumerate(kw.get("namesv", ()))]
    match(ctx, pts, exp, sig + ":points")
    match(ctx, notes, lab, sig + ":labels")
    if "label" in kw:
        groups(ctx, kind, plt.figure(plt.get_fignums()[-1]).axes[0], "Xn" in kw, not kw.get("onlyval"), wc, wv, sig)


def groups(ctx, kind, ax, new, train, wc, wv, sig):
    """the legend names each drawn group of cases: block and, for the robust method, class of weight"""
    want = {}
    for on, block, base, w in ((train, "Training", (2, 2, 6), wc), (new, "Test", (5, 5, 7), wv)):
        for k, word in enumerate(("Regular", "Moderate", "Harsh")):
            if on and (kind == "sprm" and any((v == 1, 0 < v < 1, v == 0)[k] for v in w) or kind != "sprm" and k == 0):
                want[(rgba(base[k]), MRK[k])] = (block, word)
    lg = ax.get_legend()
    if not ctx.true(lg is not None, sig + ":legend-missing"):
        return
    texts = [t.get_text() for t in lg.get_texts()]
    for c in ax.collections:
        if isinstance(c, PathCollection) and len(c.get_offsets()):
            block, word = want.get((tuple(np.round(c.get_facecolors()[0], 4)), marker_of(np.asarray(c.get_paths()[0].vertices))), ("?", "?"))
            t = c.get_label()
            ctx.true((block in t or kind == "sudire") and (kind != "sprm" or word in t) and t in texts, sig + ":legend", (t, block, word, texts))
            ctx.outcome((sig, block, word, t))


def run_yyp(case, ctx):
    _, i, split, nm, lab, yv = case
    kind = MODELS[i][0]
    m, X, y, Xn, yn = load(i)
    kw = args(split, nm, lab, m, kind, len(y), Xn, yn)
    if "Xn" in kw:
        kw["ytruev"] = {"flat": yn, "column": yn.reshape(-1, 1), "series": pd.Series(yn, index=range(9, 9 + len(yn))), "colframe": pd.DataFrame({"t": yn})}[yv]
    fig = call(ctx, "plot_yyp", lambda: plotter(m, kind).plot_yyp(**kw))
    ax, pts, bars, lines, notes = drawn(fig)
    fit = np.asarray(m.fitted_ if kind != "sudire" else m.ols_obj_.fittedvalues, float).ravel()
    pn = np.asarray(m.predict(Xn), float).ravel()
    points(ctx, case, m, kind, y, fit, yn, pn, m.caseweights_ if kind == "sprm" else None, m.weightnewx(Xn) if kind == "sprm" else None, pts, notes, kw, "yyp:" + kind)
    ctx.true(len(lines) == 1 and np.allclose(lines[0][0], lines[0][1]), "yyp-diagonal:" + kind)
    if lab:
        ctx.same(ax.get_title(), "a title", "title:" + kind)


def run_proj(case, ctx):
    _, i, split, nm, lab, c = case
    kind = MODELS[i][0]
    m, X, y, Xn, yn = load(i)
    kw = args(split, nm, lab, m, kind, len(y), Xn, yn)
    kw["components"] = list(c)
    fig = call(ctx, "plot_projections", lambda: plotter(m, kind).plot_projections(**kw))
    ax, pts, bars, lines, notes = drawn(fig)
    T, Tn = np.asarray(m.x_scores_, float), np.asarray(m.transform(Xn), float)
    points(ctx, case, m, kind, T[:, c[0]], T[:, c[1]], Tn[:, c[0]], Tn[:, c[1]], m.caseweights_ if kind == "sprm" else None, m.weightnewx(Xn) if kind == "sprm" else None, pts, notes, kw, "projections:" + kind)
    if lab:
        ctx.same(ax.get_title(), "a title", "title:" + kind)


def run_weights(case, ctx):
    _, i, split, nm, lab, mode = case
    m, X, y, Xn, yn = load(i)
    kw = args(split, nm, lab, m, "sprm", len(y), Xn, yn)
    kw["mode"] = mode
    fig = call(ctx, "plot_caseweights", lambda: plotter(m, "sprm").plot_caseweights(**kw))
    ax, pts, bars, lines, notes = drawn(fig)
    wc = np.asarray({"overall": m.caseweights_, "x": m.x_caseweights_, "y": m.y_caseweights_}[mode], float).ravel() if split != "new" else np.zeros(0)
    wv = np.asarray(m.weightnewx(Xn), float).ravel() if split != "train" else np.zeros(0)
    exp = [(float(k + 1), float(w), rgba(2)) for k, w in enumerate(wc)] + [(float(len(wc) + k + 1), float(w), rgba(5)) for k, w in enumerate(wv)]
    match(ctx, [(float(a), float(b), c) for a, b, c in bars if np.isfinite(b)], exp, "caseweights:bars")
    labs = [(t, float(k + 1), float(wc[k])) for k, t in enumerate(kw.get("names", ())) if split != "new"] + [(t, float(len(wc) + k + 1), float(wv[k])) for k, t in enumerate(kw.get("namesv", ()))]
    match(ctx, notes, labs, "caseweights:labels")
    if lab:
        lg = ax.get_legend()
        for h, t in zip(lg.legend_handles, lg.get_texts()):
            f = tuple(np.round(h.get_facecolor(), 4))
            ctx.true(("Training" if f == rgba(2) else "Test") in t.get_text(), "caseweights:legend", t.get_text())
        ctx.same(len(lg.get_texts()), (len(wc) > 0) + (len(wv) > 0), "caseweights:legend-entries")
    if lab:
        ctx.same(ax.get_title(), "a title", "title:caseweights")


def run_coef(case, ctx):
    _, i, ent, tr, cols = case
    m, X, y, Xn, yn = load(i)
    kw = dict(entity=ent, truncation=tr)
    names = ["va", "vb", "vc", "vd"]
    if cols:
        kw["columns"] = names
    kept = list(np.asarray(m.non_zero_scale_vars_))
    b = np.asarray(getattr(m, ent), float).ravel()
    fig = call(ctx, "plot_coeffs", lambda: plotter(m, "sprm").plot_coeffs(**kw))
    ax, pts, bars, lines, notes = drawn(fig)
    full = {v: (b[v] if len(b) == X.shape[1] else b[kept.index(v)]) for v in kept}
    tick = {round(float(a), 6): t.get_text() for a, t in zip(ax.get_xticks(), ax.get_xticklabels())}
    labelled = cols or tr > 0
    got = [((tick.get(round(float(a), 6), "?") if labelled else float(a)), float(h)) for a, h, c in bars]
    name = lambda v: names[v] if cols else (str(kept.index(v)) if labelled else float(kept.index(v)))
    if tr == 0:
        exp = [(name(v), float(full[v])) for v in kept]
        match(ctx, got, exp, "coef:bars")
        return
    p = len(kept)
    k = int(np.ceil(p * tr / 2))
    order = sorted(full.values())
    # the k smallest and the k largest (ties: any)
    want = sorted(order[:k] + order[max(p - k, k):]) if 2 * k < p else sorted(order)
    ctx.eq(np.sort([h for _, h in got]), want, "coef:truncated", rtol=1e-9, atol=1e-12)
    for t, h in got:
        v = [q for q in kept if (names[q] if cols else str(kept.index(q))) == t]
        if ctx.true(len(v) == 1, "coef:tick", t):
            ctx.eq(h, full[v[0]], "coef:label", rtol=1e-9, atol=1e-12)
    ctx.same(len(set(t for t, _ in got)), len(got), "coef:labels-distinct")
    ctx.outcome((ent, tr, cols, tuple(np.round(want, 5))))


def run_contour(case, ctx):
    import direpack
    from sklearn.model_selection import GridSearchCV, KFold
    from matplotlib.axes import Axes
    grid = [dict(eta=[0.1, 0.5, 0.9], n_components=[1, 2]), dict(eta=[0.8, 0.2], n_components=[3, 1, 2]), dict(eta=[0.3], n_components=[1, 2]), dict(eta=[0.0, 0.4, 0.6], n_components=[2, 1])][case[1]]
    X, y = data.regression(16, 4, 3, noise=2.0)
    gs = GridSearchCV(direpack.sprm(verbose=False), grid, cv=KFold(3), error_score="raise").fit(X, y)
    if case[1] == 3:
        gs.cv_results_["mean_test_score"][2] = np.nan
    seen = []
    old = Axes.tricontour
    Axes.tricontour = lambda self, *a, **k: seen.append(a)
    try:
        pl = direpack.sprm_plot_cv(gs, COL)
        ctx.op("contour", pl.eta_ncomp_contour)
    finally:
        Axes.tricontour = old
    s = gs.cv_results_["mean_test_score"]
    exp = [(float(q["eta"]), float(q["n_components"]), float(v)) for q, v in zip(gs.cv_results_["params"], s) if np.isfinite(v)]
    if len(exp) < 3:
        ctx.same(len(seen), 0, "contour:drawn")
        return
    if ctx.same(len(seen), 1, "contour:drawn"):
        match(ctx, [tuple(map(float, t)) for t in zip(*[np.asarray(a, float) for a in seen[0][:3]])], exp, "contour:points")
    t = pl.cv_score_table_
    match(ctx, [tuple(map(float, r)) for r in t.values if np.isfinite(float(r[2]))], exp, "contour:table")


def run_type(case, ctx):
    import direpack
    P = {"sprm": direpack.sprm_plot, "ppdire": direpack.ppdire_plot, "sudire": direpack.sudire_plot}[case[1]]
    for other in (direpack.VersatileScaler(), direpack.snipls(), object()):
        try:
            P(other, COL)
            ok = False
        except Exception:
            ok = True
        ctx.true(ok, "wrong-model-accepted:" + case[1])
    ctx.outcome(case)
