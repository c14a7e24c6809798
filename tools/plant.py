#!/usr/bin/env python3
"""Builds and confirms planted bugs:  plant.py DEFS.py [ID ...]      (plant.py --recheck [ID ...] for those in /verif/seeded, plant.py --table for DESIGN.md)

DEFS.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].  Each is applied to a scratch copy
of /repo; it is kept in /verif/seeded when it compiles, the stable tests pass, the demonstration tells the trees apart and only
lines of the original repository are changed.  Then the check of its property is run on the scratch copy."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

BASE = "90ea517"
ROOT = "/tmp/plant/work"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# run in the root of the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def originals(patch):
    """every removed line belongs to the original repository; at least one is removed"""
    n = 0
    f = line = None
    blame = {}
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame[f] = sh(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f]).stdout.splitlines()
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            c = blame[f][line - 1].split()[0].lstrip("^")
            if sh(["git", "-C", "/repo", "merge-base", "--is-ancestor", c, BASE]).returncode:
                return "line %d of %s is not original: %s" % (line, f, l)
            n += 1
            line += 1
        elif line is not None and l.startswith(" "):
            line += 1
    return None if n else "no original line is changed"


def tests(repo):
    sh([PY, "-m", "compileall", "-q", "pycose"], cwd=repo)
    out = repo + "/../junit.xml"
    p = sh([PY, "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", "-p", "stable_ids", "--timeout=300", "tests"], cwd=repo,
           env={"PYTHONPATH": repo + ":/opt/vp/plugins", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
    ok = p.returncode == 0 and "1640 passed" in p.stdout
    return None if ok else "\n".join(p.stdout.splitlines()[-6:])


def scratch(name):
    d = os.path.join(ROOT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def check(repo, prop, d):
    v = d + "/verif"
    shutil.copytree(os.environ.get("VERIF_SRC", "/verif"), v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    t0 = time.time()
    try:
        p = sh([sys.executable, v + "/run.py", prop], cwd=v, env={"VERIF_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=900)
    except subprocess.TimeoutExpired:
        return "TIMEOUT", 900
    lines = p.stdout.splitlines()
    hit = p.returncode == 1 and any(l.startswith("VIOLATION property=%s " % prop) for l in lines)
    why = next((l.strip() for l in lines if l.startswith("  ")), "")
    return ("caught: " + why[:170]) if hit else "MISSED rc=%d %s" % (p.returncode, " | ".join(lines[-2:])[:300]), round(time.time() - t0)


def demo(where, repo):
    return sh(["bash", where + "/demo.sh"], cwd=repo, timeout=300)


def table():
    """the list in DESIGN.md"""
    rows = ["| id | property | what it breaks | needs |", "|----|----|----|----|"]
    for i in sorted(os.listdir("/verif/seeded")):
        m = json.load(open("/verif/seeded/%s/meta.json" % i))
        rows.append("| `%s` | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))
    s = open("/verif/DESIGN.md").read()
    a = s.index("<!-- planted -->")
    open("/verif/DESIGN.md", "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n")


def main():
    if sys.argv[1] == "--table":
        return table()
    recheck = sys.argv[1] == "--recheck"
    only = sys.argv[2:]
    nocheck = "--nocheck" in only
    only = [o for o in only if o != "--nocheck"]
    if recheck:
        plants = [{"id": i} for i in sorted(os.listdir("/verif/seeded"))]
    else:
        plants = runpy.run_path(sys.argv[1])["PLANTS"]
    for p in plants:
        if only and p["id"] not in only:
            continue
        d, repo = scratch(p["id"])
        try:
            out = "/verif/seeded/" + p["id"]
            if recheck:
                p["property"] = json.load(open(out + "/meta.json"))["property"]
                a = sh(["git", "apply", out + "/patch.diff"], cwd=repo)
                if a.returncode:
                    print(p["id"], "DOES NOT APPLY", a.stdout)
                    continue
                err = originals(open(out + "/patch.diff").read())
                where = out
            else:
                err = None
                for f, old, new in p["edits"]:
                    s = open(repo + "/" + f).read()
                    if s.count(old) != 1:
                        err = "%d occurrences in %s of %r" % (s.count(old), f, old)
                        break
                    open(repo + "/" + f, "w").write(s.replace(old, new))
                patch = sh(["git", "diff"], cwd=repo).stdout
                err = err or originals(patch)
                where = d + "/demo"
                os.makedirs(where)
                open(where + "/demo.sh", "w").write(DEMO_SH)
                open(where + "/demo.py", "w").write(p["demo"].lstrip("\n"))
            if not err:
                err = tests(repo)
            if not err:
                a, b = demo(where, "/repo"), demo(where, repo)
                if a.returncode != 0:
                    err = "demo fails on the unchanged tree: " + a.stdout[-600:]
                elif b.returncode == 0:
                    err = "demo passes with the change"
            if err:
                print("%-26s %s REJECTED %s" % (p["id"], p["property"], err), flush=True)
                continue
            if not recheck:
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                open(out + "/patch.diff", "w").write(patch)
                for f in ("demo.sh", "demo.py"):
                    shutil.copy(where + "/" + f, out)
                os.chmod(out + "/demo.sh", 0o755)
                json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            if nocheck:
                print("%-26s %s ok" % (p["id"], p["property"]), flush=True)
                continue
            r, t = check(repo, p["property"], d)
            print("%-26s %s %3ss %s" % (p["id"], p["property"], t, r), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
