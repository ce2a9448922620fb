#!/usr/bin/env python3
"""Create/verify planted bugs: tools/mkseed.py DEF.py [id...]   (scratch copy in /tmp/seedwork, never touches /repo)
DEF.py defines SEEDS = {id: dict(property, file, edits=[(old, new)], needs, breaks, demo)}; a demo is python source run
with /opt/venv/bin/python and PYTHONPATH=the repository under test."""
import json, os, subprocess, sys, runpy
W = "/tmp/seedwork"
OUT = "/verif/seeded"
SH = '#!/bin/bash\n# cwd: the repository under test\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=2\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    d = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:] or list(d)
    os.makedirs(W, exist_ok=True)
    for i in want:
        s = d[i]
        sh("rsync", "-a", "--delete", "--exclude", ".git", "/repo/", W + "/")
        if not os.path.isdir(W + "/.git"):
            sh("git", "init", "-q", cwd=W); sh("git", "config", "user.email", "a@b", cwd=W); sh("git", "config", "user.name", "x", cwd=W)
        sh("git", "add", "-A", cwd=W); sh("git", "commit", "-qm", "base", cwd=W)
        for f, old, new in s["edits"]:
            p = f"{W}/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = sh("git", "diff", cwd=W).stdout
        o = f"{OUT}/{i}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(patch)
        open(o + "/demo.py", "w").write(s["demo"])
        open(o + "/demo.sh", "w").write(SH)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        bad = sh("bash", o + "/demo.sh", cwd=W, timeout=300)
        ok = sh("bash", o + "/demo.sh", cwd="/repo", timeout=300)
        print(i, "clean", ok.returncode, "patched", bad.returncode, "" if ok.returncode == 0 and bad.returncode else "<<<<<< BAD", (ok.stderr[-600:] if ok.returncode else ""), bad.stderr.strip().split("\n")[-1][:150] if bad.returncode else "")
        sh("git", "checkout", "-q", "--", ".", cwd=W)


main()
