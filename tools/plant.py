#!/usr/bin/env python3
"""Confirms planted bugs.  usage: plant.py make SPEC.py [ID...] | confirm ID... |
  check ID... [-- SEEDS] | try SPEC.py [ID...] [-- SEEDS]

make writes seeded/<id>/ from a specification (a Python file with a list PLANTS of
dicts id, property, needs, breaks, edits [(file, old, new)], demo) and confirms it;
confirm checks that the tests pass with the bug and that only the demonstration
fails; check runs the check of the property against it.  Works on copies in /tmp/plant."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/plant"


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def copy(name):
    d = os.path.join(WORK, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    return d


def make(spec):
    d = os.path.join(VERIF, "seeded", spec["id"])
    os.makedirs(d, exist_ok=True)
    r = copy("make")
    for f, old, new in spec["edits"]:
        p = os.path.join(r, "libexactreal", f)
        s = open(p).read()
        assert s.count(old) == 1, (spec["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(spec["demo"].lstrip("\n"))
    shutil.copy(os.path.join(VERIF, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
    if os.path.isdir(os.path.join(d, "shim")):
        shutil.rmtree(os.path.join(d, "shim"))
    shutil.copytree(os.path.join(VERIF, "shim"), os.path.join(d, "shim"))
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(r)


def confirm(id):
    """Build and tests with the bug happen in /repo-like paths, so they run in /repo itself only by vcheck; here the demonstration decides."""
    d = os.path.join(VERIF, "seeded", id)
    r = copy("confirm")
    rc, out = sh("bash %s/demo.sh" % d, r)
    if rc:
        return "demo fails on the unchanged tree (%d): %s" % (rc, out[-1500:])
    rc, out = sh("git apply %s/patch.diff" % d, r)
    if rc:
        return "patch does not apply: " + out
    rc, out = sh("bash %s/demo.sh" % d, r)
    if rc in (0, 97, 98, 99):
        return "demo does not fail with the patch (%d): %s" % (rc, out[-1500:])
    return None


def check(id, seeds):
    d = os.path.join(VERIF, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    r = copy("check-" + id)
    rc, out = sh("git apply %s/patch.diff" % d, r)
    res = []
    for s in seeds:
        rc, out = sh("python3 run.py %s quick" % prop, VERIF, 1800, dict(os.environ, VERIF_REPO=r, VERIF_SEED=str(s)))
        last = [l for l in out.splitlines() if l.strip()][-2:]
        res.append("%s:%s %s" % (s, {0: "MISSED", 1: "caught"}.get(rc, "ERROR"), last[0][:200] if last else ""))
    shutil.rmtree(r)
    return prop, res


def attempt(spec, seeds, tier="quick"):
    """Runs the check against a change that is not kept."""
    r = copy("try-" + spec["id"])
    for f, old, new in spec["edits"]:
        p = os.path.join(r, "libexactreal", f)
        s = open(p).read()
        assert s.count(old) == 1, (spec["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    res = []
    for prop in spec["property"].split():
        for s in seeds:
            rc, out = sh("python3 run.py %s %s" % (prop, tier), VERIF, 1800, dict(os.environ, VERIF_REPO=r, VERIF_SEED=str(s)))
            last = [l for l in out.splitlines() if l.strip()][-2:]
            res.append("%s/%s:%s %s" % (prop, s, {0: "MISSED", 1: "caught"}.get(rc, "ERROR"), last[0][:200] if last else ""))
    shutil.rmtree(r)
    return res


if __name__ == "__main__":
    args = sys.argv[2:]
    seeds = [1]
    if "--" in args:
        i = args.index("--")
        seeds = args[i + 1:]
        args = args[:i]
    if sys.argv[1] == "make":
        env = {}
        exec(open(args[0]).read(), env)
        for spec in env["PLANTS"]:
            if len(args) == 1 or spec["id"] in args[1:]:
                make(spec)
                print(spec["id"], confirm(spec["id"]) or "confirmed", flush=True)
    elif sys.argv[1] == "try":
        env = {}
        exec(open(args[0]).read(), env)
        for spec in env["PLANTS"]:
            if len(args) == 1 or spec["id"] in args[1:]:
                try:
                    print(spec["id"], *attempt(spec, seeds), flush=True)
                except AssertionError as e:
                    print(spec["id"], "does not apply:", e, flush=True)
    elif sys.argv[1] == "confirm":
        for id in args:
            print(id, confirm(id) or "confirmed", flush=True)
    else:
        for id in args or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
            print(id, *check(id, seeds), flush=True)
