#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py, keeping a change only if
it applies, passes the stable tests, and its demonstration tells the two
trees apart.  Usage: mkseeds.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SCRATCH = "/tmp/mkseeds-scratch"
sys.path.insert(0, HERE)
import seeds        # noqa: E402

DEMO = """#!/bin/sh
# run in the top directory of the code; exit 0 if it behaves
dir=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 exec timeout 120 "$py" "$dir/demo.py"
"""


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def original(path):
    return sh("git", "-C", "/repo", "show", "0a32fb3:" + path).stdout


def build(name, s):
    d = os.path.join(OUT, name)
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    shutil.copytree(os.environ.get("SEED_BASE", "/repo"), SCRATCH, symlinks=True)
    for path, old, new in s["edits"]:
        f = os.path.join(SCRATCH, path)
        text = open(f).read()
        assert text.count(old) == 1, (name, path, text.count(old), old)
        if old not in original(path):
            print(name, "note: edited text is not in the original file")
        open(f, "w").write(text.replace(old, new))
    diff = sh("git", "-C", SCRATCH, "diff").stdout
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    demo = os.path.join(d, "demo.sh")
    open(demo, "w").write(DEMO)
    os.chmod(demo, 0o755)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    for lib, needs in (("net", ()), ("peer", ()), ("libxcm", ()),
                       ("shell", ("peer",))):
        if "from %s import" % lib in s["demo"]:
            for f in (lib,) + needs:
                shutil.copy(os.path.join(HERE, "seedlib", f + ".py"), d)
    json.dump({"property": s["property"], "needs": s["needs"],
               "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=2)
    good = sh(demo, cwd="/repo")
    bad = sh(demo, cwd=SCRATCH)
    apply = sh("git", "-C", "/repo", "apply", "--check",
               os.path.join(d, "patch.diff"))
    tests = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
               "no:cacheprovider", "test/test_filter.py",
               "test/test_timer.py", cwd=SCRATCH,
               env=dict(os.environ, PYTHONPATH=SCRATCH,
                        PYTHONDONTWRITEBYTECODE="1"))
    ok = good.returncode == 0 and bad.returncode != 0 and \
        apply.returncode == 0 and tests.returncode == 0
    print("%-28s %-4s %s  good=%d bad=%d (%s) apply=%d tests=%d %s" %
          (name, s["property"], "kept" if ok else "REJECTED",
           good.returncode, bad.returncode,
           (bad.stdout.strip().split("\n") + bad.stderr.strip().split("\n"))
           [-1 if not bad.stdout.strip() else
            len(bad.stdout.strip().split("\n")) - 1][:80],
           apply.returncode, tests.returncode,
           "" if ok else (good.stdout + good.stderr + tests.stdout)[-900:]))
    shutil.rmtree(SCRATCH)
    if not ok:
        shutil.rmtree(d)
    return ok


def main():
    names = sys.argv[1:] or list(seeds.SEEDS)
    bad = [n for n in names if not build(n, seeds.SEEDS[n])]
    if bad:
        print("rejected:", *bad)
        sys.exit(1)


main()
