"""Development aid: turn edits of a scratch copy into /verif/seeded entries and confirm them.

usage: python plant.py SPEC.py [id ...]     (SPEC.py defines BUGS: list of dicts)
Each bug: id, property, edits [(file, old, new), ...], demo (python text), needs, breaks.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

SCR = "/tmp/plant"
PY = "/opt/venv/bin/python"
SEED = "/verif/seeded"
SH = """#!/bin/sh
# exits 0 when the behaviour is right, nonzero otherwise; run in the repository
exec %s -B "$(dirname "$0")/demo.py"
""" % PY
PRE = "import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nimport warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\nimport pygmm\nfrom pygmm import Scenario\n"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    want = sys.argv[2:]
    if not os.path.isdir(SCR):
        shutil.copytree("/repo", SCR, symlinks=True)
    for b in mod.BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(SEED, b["id"])
        sh("git checkout -q -- 'src/pygmm/*.py'", SCR)
        for f, _, _ in b["edits"]:
            shutil.copy(os.path.join("/repo/src/pygmm", f), os.path.join(SCR, "src/pygmm", f))
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, "src/pygmm", f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES", s.count(old), "times:", old[:60])
                ok = False
                break
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff --no-ext-diff -- 'src/pygmm/*.py'", SCR).stdout
        base = {}
        for f, _, _ in b["edits"]:
            base[f] = sh("git show 33f343a:src/pygmm/%s" % f, "/repo").stdout.splitlines()
        cur = None
        orig = False
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                cur = os.path.basename(ln)
            elif ln.startswith("-") and not ln.startswith("---"):
                orig |= ln[1:] in base[cur]
        res = {}
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        res["demo_clean"] = sh("bash %s/demo.sh" % d, "/repo").returncode
        r = sh("bash %s/demo.sh" % d, SCR)
        res["demo_bug"] = r.returncode
        res["why"] = (r.stderr.strip().splitlines() or [""])[-1][:90]
        t = sh(PY + " -m pytest -q -x -p no:cacheprovider -n0 tests 2>&1 | tail -3", SCR, env=dict(os.environ, PYTHONPATH=SCR + "/src", PYTHONDONTWRITEBYTECODE="1"))
        res["tests"] = (t.stdout.strip().splitlines() or ["?"])[-1][:60]
        c = sh("%s run.py %s" % (PY, b["property"]), "/verif", env=dict(os.environ, PYGMM_REPO=SCR))
        res["check"] = c.returncode
        first = [x for x in c.stdout.splitlines() if x.startswith("  [")]
        good = res["demo_clean"] == 0 and res["demo_bug"] != 0 and "passed" in res["tests"] and "failed" not in res["tests"] and orig
        print("%-28s %s %s orig=%s %s | %s" % (b["id"], b["property"], "GOOD" if good else "BAD", orig, {k: v for k, v in res.items()}, (first or ["-"])[0][:90]), flush=True)
        sh("git checkout -q -- 'src/pygmm/*.py'", SCR)


main()
