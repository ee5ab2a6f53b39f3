"""Planted bugs: writes seeded/<id>/ from replacements, and confirms each in a scratch copy.

usage: seeds.py make | confirm [id ...] | run [id ...]
  make     write patch.diff, demo.sh, demo.py, meta.json
  confirm  scratch copy: patch applies, tests pass, demo passes without and fails with it
  run      apply to /repo, run the check of the property, undo
"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))


HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
'''
SH = '''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export NUMBA_CACHE_DIR="$tmp/numba" PYTHONDONTWRITEBYTECODE=1 DEMO_TMP="$tmp"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def make():
    keep = {s[0] for s in SEEDS}
    root = os.path.join(V, "seeded")
    for d in os.listdir(root) if os.path.isdir(root) else []:
        if d not in keep:
            shutil.rmtree(os.path.join(root, d))
    for id, prop, edits, demo, needs, breaks in SEEDS:
        d = os.path.join(root, id)
        os.makedirs(d, exist_ok=True)
        patch, texts = "", {}
        for f, old, new in edits:
            t = texts.setdefault(f, [open(os.path.join(REPO, f)).read()] * 2)
            if t[1].count(old) != 1:
                sys.exit("%s: %d matches of %r" % (id, t[1].count(old), old))
            texts[f] = [t[0], t[1].replace(old, new)]
        for f, (a, b) in texts.items():
            patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def confirm(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    for id, prop, *_ in SEEDS:
        if ids and id not in ids:
            continue
        d = os.path.join(V, "seeded", id)
        w = tempfile.mkdtemp(prefix="seed_")
        c = os.path.join(w, "repo")
        sh(["git", "clone", "-q", REPO, c])
        msg = []
        a = sh(["bash", os.path.join(d, "demo.sh")], cwd=c)
        if a.returncode:
            msg.append("demo fails unpatched: " + a.stderr[-300:])
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=c)
        if p.returncode:
            msg.append("patch: " + p.stderr)
        b = sh(["bash", os.path.join(d, "demo.sh")], cwd=c)
        if b.returncode == 0:
            msg.append("demo passes patched")
        e = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(w, "nb"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "-x", "--deselect", "tests/test_two_dim_dw.py::test_tddw",
                "--deselect", "tests/test_two_dim_ho_b_field.py::test_tdhob", "--tb=line"], cwd=c, env=e)
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        if "46 passed" not in tail or "failed" in tail.replace("2 failed", ""):
            msg.append("tests: " + tail + t.stdout[-600:])
        print(id, prop, "OK" if not msg else msg, "| demo said:", (b.stderr or b.stdout).strip().splitlines()[-1:], flush=True)
        shutil.rmtree(w)


def run(ids, tier="quick"):
    for id, prop, *_ in SEEDS:
        if ids and id not in ids:
            continue
        d = os.path.join(V, "seeded", id)
        assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip()
        sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        try:
            r = sh(["python3", os.path.join(V, "run.py"), prop, tier], cwd=V, timeout=3600)
        finally:
            sh(["git", "-C", REPO, "checkout", "--", "."])
        caught = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
        print(id, prop, "caught" if caught else "MISSED rc=%d" % r.returncode, "|", r.stdout.strip()[:160].replace("\n", " / "), flush=True)


import importlib.util  # noqa: E402
for _f in sorted(os.listdir(os.path.join(V, "tools"))):
    if _f.startswith("seedset_"):
        _s = importlib.util.spec_from_file_location(_f[:-3], os.path.join(V, "tools", _f))
        _m = importlib.util.module_from_spec(_s)
        _m.seed = seed
        _s.loader.exec_module(_m)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    {"make": lambda: make(), "confirm": lambda: confirm(ids), "run": lambda: run(ids)}[cmd]()
