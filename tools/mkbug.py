#!/usr/bin/env python3
"""Developer helper: make and confirm planted bugs from tools/bugs/*.py.
Applies each change to /repo, builds, runs the stable tests and the demo, runs
the property's check, and always undoes the change. mkbug.py [ID...]"""
import glob, json, os, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# Run with cwd /repo after the build; exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export OPENBLAS_NUM_THREADS=1
g++ -std=c++20 -w %s -I. -I"$here/shim" "$here/demo.cc" %s -o "$work/demo" %s || exit 3
cd "$work" && timeout 250 ./demo
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    bugs = {}
    for f in sorted(glob.glob(HERE + "/tools/bugs/*.py")):
        bugs.update(runpy.run_path(f)["BUGS"])
    want = sys.argv[1:] or list(bugs)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in want:
        d = bugs[b]
        out = os.path.join(HERE, "seeded", b)
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.cc", "w").write(d["demo"])
        open(out + "/demo.sh", "w").write(DEMO % (d.get("flags", "-O1"), " ".join(d.get("sources", [])), d.get("libs", "")))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        for s in d.get("shim", []):
            os.makedirs(os.path.dirname("%s/shim/%s" % (out, s)), exist_ok=True)
            sh("cp -r %s/shim/%s %s/shim/%s" % (HERE, s, out, s))
        assert sh("git -C %s status --porcelain" % REPO).stdout == "", "dirty repo"
        r = sh("bash %s/demo.sh" % out, cwd=REPO)
        res = ["clean demo %d" % r.returncode]
        if r.returncode: print(r.stdout[-600:])
        try:
            ok = True
            for f, old, new in d["edits"]:
                s = open(os.path.join(REPO, f)).read()
                if s.count(old) != d.get("count", 1):
                    print(b, "edit does not match once:", f, s.count(old)); ok = False; break
                open(os.path.join(REPO, f), "w").write(s.replace(old, new))
            if not ok: continue
            diff = sh("git -C %s diff" % REPO).stdout
            open(out + "/patch.diff", "w").write(diff)
            r = sh("bash /opt/vp/build.sh"); res.append("build %d" % r.returncode)
            sh("bash /opt/vp/test.sh /tmp/mkbug.json")
            o = json.load(open("/tmp/mkbug.json"))
            res.append("tests %s" % ("ok" if base <= set(o["passed"]) else "FAIL"))
            r = sh("bash %s/demo.sh" % out, cwd=REPO); res.append("bug demo %d" % r.returncode)
            r = sh("python3 run_check.py %s" % d["property"], cwd=HERE); res.append("check %s: %d" % (d["property"], r.returncode))
            first = [l for l in r.stdout.splitlines() if "key=" in l][:1]
            print(b, "|", ", ".join(res), "|", (first or [r.stdout[-200:]])[0][:150])
        finally:
            sh("git -C %s checkout -- ." % REPO)
    sh("bash /opt/vp/build.sh")
main()
