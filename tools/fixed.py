#!/usr/bin/env python3
"""Fills the 'fixed' list of known_findings.json from the fix: commits of /repo (documentation only; run by hand)."""
import json, subprocess
MAP = [("Huber and Hampel", "C05"), ("robust_loss", "C05"), ("rm starting", "C08"), ("rm with scale", "C08"), ("copy=False can predict", "C09"),
       ("zero-scale columns no longer turn", "C06"), ("inverse_transform", "C01"), ("columns and scale settings", "C17"), ("weightnewx", "C09"),
       ("start_X_init", "C07"), ("sprm scaled intercept", "C07"), ("retained variables by their index", "C07"), ("no variable is retained", "C06"),
       ("return self from fit", "C21"), ("wrapping uses", "C04"), ("gen_ss_pp", "C03"), ("GenSpatialSign", "C03"), ("single new case", "C01"),
       ("different number of columns", "C20"), ("l1median accepts", "C02"), ("center setting", "C17"), ("higher order distance", "C11"),
       ("naive distance", "C11"), ("dicomo std", "C10"), ("bias corrected higher", "C10"), ("median based corr", "C10"), ("MDDM", "C11"),
       ("fitted again", "C17"), ("capi", "C12"), ("positionally", "C13"), ("pipelines pass", "C21"), ("grid search does not write", "C18"), ("grid search works", "C14"),
       ("quantile regression uses", "C13"), ("transform returns a table", "C09"), ("compressed", "C13"), ("scaled intercept matches", "C13"),
       ("explained variance", "C13"), ("co-moment option", "C13"), ("one-column data frame", "C19"), ("single cases and constant", "C15"),
       ("copy=False", "C17"), ("starting values slice", "C26"), ("previous fit", "C17"), ("maps loadings", "C15"), ("bootstrap", "C16"),
       ("minimize_ipopt", "C18"), ("solver's buffer", "C22"), ("annotate the last", "C23"), ("caseweight plot", "C23"), ("truncated coef", "C23"),
       ("coefficient plot", "C23"), ("n_components setting", "C17"), ("radial", "C03"), ("dicomo standard deviation", "C10"), ("co-kurtosis", "C10"),
       ("fast bias corrected", "C11"), ("slices or classes", "C15"), ("without centring accepts", "C19"), ("scaleTau2 accepts", "C19"),
       ("accept integer and object", "C19"), ("dicomo accepts data", "C19"), ("Hampel weights with an infinite", "C20"), ("components below one", "C20"), ("get_params(deep", "C21"),
       ("keyword arguments of the objective", "C22"), ("plot_yyp takes", "C23"), ("nanmatdot", "C25"), ("dmetric setting", "C26"), ("directions whose projection index", "C14")]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = next((p for k, p in MAP if k in s), None)
    assert pid, s
    out.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out))
