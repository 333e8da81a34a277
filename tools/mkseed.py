#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes /verif/seeded/ID from a scratch copy of /repo's HEAD, confirms that the edits hit lines of the original
repository, that the demo passes on the unchanged tree and fails with the patch and that the stable tests pass."""
import json, os, shutil, subprocess as sp, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "aad333b"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")


def plant(m, tests=True):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    w = d + "/repo"
    try:
        sp.check_call(["git", "-C", "/repo", "worktree", "prune"])
        sp.check_call(["git", "clone", "-q", "/repo", w])
        base = {}
        for f, old, new in m["EDITS"]:
            p = os.path.join(w, "src/direpack", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = sp.check_output(["git", "-C", w, "diff"])
        assert diff
        # removed lines must belong to the original repository
        for f in {e[0] for e in m["EDITS"]}:
            orig = sp.run(["git", "-C", w, "show", "%s:src/direpack/%s" % (BASE, f)], capture_output=True).stdout.decode()
            for l in sp.check_output(["git", "-C", w, "diff", "-U0", "--", "src/direpack/" + f]).decode().splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip("\r\n") not in orig:
                    print("  NOTE line not in original:", l)
        o = os.path.join(V, "seeded", m["ID"])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/patch.diff", "wb").write(diff)
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
        open(o + "/demo.py", "w").write("import sys, os, warnings\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nwarnings.simplefilter('ignore')\n"
                                        "import numpy as np, pandas as pd\n" + m["DEMO"])
        open(o + "/demo.sh", "w").write("#!/bin/bash\n# cwd: the repository\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n"
                                        "exec %s -W ignore \"$(dirname \"$0\")/demo.py\"\n" % PY)
        os.chmod(o + "/demo.sh", 0o755)
        a = sp.run(["bash", o + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        b = sp.run(["bash", o + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True)
        print(m["ID"], "demo unchanged", a.returncode, "patched", b.returncode, (b.stderr.strip().splitlines() or [""])[-1][:160])
        if a.returncode:
            print(a.stderr[-800:])
        ok = a.returncode == 0 and b.returncode != 0
        if tests:
            e = dict(ENV, PYTHONPATH=w + "/src")
            t = sp.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--junitxml=" + d + "/j.xml"], cwd=w, env=e, capture_output=True, text=True)
            import xml.etree.ElementTree as ET
            res = {}
            for tc in ET.parse(d + "/j.xml").getroot().iter("testcase"):
                res[tc.get("classname") + "::" + tc.get("name")] = not any(c.tag in ("failure", "error") for c in tc)
            npass = sum(res.values())
            print("   tests passed", npass, [k for k, v in res.items() if not v])
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [k for k in stable if not res.get(k)]
            print("   stable failing:", bad)
            ok = ok and not bad
        print("   ", "KEEP" if ok else "REJECT")
        if not ok:
            shutil.rmtree(o)
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for spec in sys.argv[1:]:
        g = runpy.run_path(spec)
        for m in g["BUGS"]:
            plant(m)
