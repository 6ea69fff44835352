#!/usr/bin/env python3
"""Build the harness(es) of one property from /repo's working tree, run them,
write the evidence file and give the verdict.

  run_check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run (no verdict)."""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks as C  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "g++"

SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:"
                    "hard_rss_limit_mb=6000:detect_stack_use_after_return=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=96:second_deadlock_stack=1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "LC_ALL": "C",
    "TZ": "UTC",
}


class HarnessError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_object(src, flags, tag):
    """Compile with a cache keyed on the preprocessed text, which is always
    recomputed from the working tree."""
    pre = run([CXX, "-E", *flags, src])
    if pre.returncode != 0:
        raise HarnessError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode(errors="replace")[-3000:]))
    key = hashlib.sha256(("\0".join(flags) + CXX).encode() + pre.stdout).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (os.path.basename(src).replace(".cc", ""), tag, key))
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        res = run([CXX, "-c", *flags, src, "-o", tmp])
        if res.returncode != 0:
            raise HarnessError("compiling %s failed:\n%s" % (src, res.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, obj)
    return obj


def build(unit_name):
    unit = C.UNITS[unit_name]
    san = unit.get("san", "asan")
    base = ["-std=c++20", "-w", "-DNDEBUG", "-DMETADATA_COMPRESSION_DEFAULT=true",
            "-I" + os.path.join(HERE, "lib"), *SAN[san], *unit.get("flags", [])]
    # /repo first for quoted includes; shims stand in for libraries not installed.
    base += ["-I" + REPO]
    base += ["-I" + os.path.join(HERE, s) for s in unit.get("shims", ["shim"])]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    srcs = [os.path.join(HERE, "harness", h) for h in unit["harness"]]
    srcs += [os.path.join(REPO, s) for s in unit.get("sources", [])]
    srcs += [os.path.join(HERE, s) for s in unit.get("extra", [])]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_object(s, base, san), srcs))
    exe = os.path.join(BUILD, "bin", unit_name)
    tmp = exe + ".tmp%d" % os.getpid()
    link = run([CXX, *SAN[san], *objs, "-o", tmp, *unit.get("libs", []), "-lpthread"])
    if link.returncode != 0:
        raise HarnessError("linking %s failed:\n%s" % (unit_name, link.stderr.decode(errors="replace")[-4000:]))
    os.replace(tmp, exe)
    return exe


def execute(exe, prop, seed, tier, scratch, timeout, section=None, index=None):
    out = os.path.join(scratch, "result.json")
    cur = os.path.join(scratch, "current")
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--property", prop, "--seed", str(seed), "--tier", tier, "--out", out,
           "--current", cur, "--scratch", scratch]
    if section is not None:
        cmd += ["--section", section]
    if index is not None:
        cmd += ["--index", str(index)]
    env = dict(os.environ)
    env.update(ENV)
    errf = os.path.join(scratch, "stderr")
    timed_out = False
    with open(errf, "wb") as ef, open(os.path.join(scratch, "stdout"), "wb") as of:
        try:
            rc = subprocess.run(cmd, env=env, stdout=of, stderr=ef, cwd=scratch, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            timed_out, rc = True, -1
    with open(errf, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(0)
        err = f.read(20000)
        if size > 40000:
            f.seek(size - 20000)
        err += f.read(20000)
    err = err.decode(errors="replace")
    current = ["?", "-1", ""]
    if os.path.exists(cur):
        with open(cur, "rb") as f:
            raw = f.read().split(b"\0")[0].decode(errors="replace").split("\n", 2)
            if len(raw) == 3:
                current = raw
    res = None
    if os.path.exists(out) and not timed_out and rc == 0:
        with open(out) as f:
            res = json.load(f)
    return rc, timed_out, res, err, current


def crash_kind(rc, err):
    for line in err.splitlines():
        if "ERROR: AddressSanitizer:" in line:
            return "asan-" + line.split("AddressSanitizer:")[1].split()[0].strip(":")
        if "runtime error:" in line:
            return "ubsan-" + "-".join(line.split("runtime error:")[1].split()[:3])
        if "WARNING: ThreadSanitizer:" in line:
            return "tsan-" + "-".join(line.split("ThreadSanitizer:")[1].split("(")[0].split()[:3])
        if "hard rss limit exhausted" in line:
            return "memory-exhausted"
        if "VH-HANG" in line:
            return "hang"
        if "Assertion" in line and "failed" in line:
            return "assertion"
        if "terminate called" in line:
            return "terminate"
    return "exit-%d" % rc


def load_known():
    known = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    parts = line[6:].strip().split(None, 2)
                    known.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1], parts[2]))
    return known


def main():
    args = sys.argv[1:]
    if args[0] == "--prebuild":  # fill the object cache; checks rebuild what changed
        for unit in C.UNITS:
            try:
                build(unit)
            except HarnessError as e:
                print("cannot build %s: %s" % (unit, str(e)[-300:]))
        return 0
    if args[0] == "--setup":  # nothing to prepare: each check builds what it needs
        res = run([CXX, "--version"])
        print(res.stdout.decode(errors="replace").splitlines()[0] if res.returncode == 0 else "no compiler")
        return 0 if res.returncode == 0 else 1
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = int(args[i + 1])
        elif args[i] == "--replay":
            replay = json.load(open(args[i + 1]))
            seed, tier = replay["seed"], replay["tier"]
        i += 2
    spec = C.CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="dp3verif-")
    violations, counters, samples = [], {}, []
    evaluations = distinct = 0
    try:
        for unit in spec["units"]:
            if replay and replay.get("unit") != unit:
                continue
            exe = build(unit)
            repeats = spec.get("repeat", {}).get(unit, {}).get(tier, 1)
            for rep in range(repeats):
                sd = os.path.join(scratch, "%s-%d" % (unit, rep))
                os.makedirs(sd)
                timeout = spec.get("timeout", {"quick": 700, "thorough": 7200})[tier]
                kw = {}
                if replay:
                    kw = {"section": replay["section"], "index": replay["index"]}
                rseed = seed + 1000003 * rep
                rc, to, res, err, cur = execute(exe, prop, rseed, tier, sd, timeout, **kw)
                if to:
                    # Not a verdict by itself: run it once more, alone.
                    rc, to, res, err, cur = execute(exe, prop, rseed, tier, sd, timeout,
                                                    section=cur[0], index=int(cur[1]))
                    if not to and rc == 0:
                        raise HarnessError("timed out once in case %s/%s, not again" % (cur[0], cur[1]))
                    if to:
                        violations.append({"key": cur[0] + ":hang", "section": cur[0], "index": int(cur[1]),
                                           "case": cur[2], "message": "no progress twice within %d s" % timeout,
                                           "unit": unit, "seed": rseed})
                        continue
                if rc == -9:
                    raise HarnessError("harness %s was killed" % unit)
                if rc == 3:
                    raise HarnessError("harness %s: %s" % (unit, err[-1500:]))
                if rc != 0:
                    violations.append({"key": "%s:%s" % (cur[0], crash_kind(rc, err)), "section": cur[0],
                                       "index": int(cur[1]), "case": cur[2], "message": err[:6000],
                                       "unit": unit, "seed": rseed})
                    continue
                if res is None:
                    raise HarnessError("harness %s gave no result" % unit)
                evaluations += res["evaluations"]
                distinct += res["distinct"]
                for k, v in res["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += res["samples"][:12]
                for v in res["violations"]:
                    v["unit"], v["seed"] = unit, rseed
                    violations.append(v)
    except HarnessError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_known()
    fresh = []
    seen_known = set()
    for v in violations:
        hit = [k for k in known if k[0] == prop and k[1] == v["key"]]
        if hit:
            if v["key"] not in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
            seen_known.add(v["key"])
        else:
            fresh.append(v)
    if not replay and not fresh and (evaluations == 0 or distinct < 2):
        print("CHECK-ERROR property=%s observed nothing" % prop)
        return 2
    wall = time.time() - t0
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": distinct,
                "rule": spec["rule"], "samples": samples[:24],
                "monitor_events": {k: v for k, v in sorted(counters.items())},
                "builds": [u + ":" + C.UNITS[u].get("san", "asan") for u in spec["units"]],
                "known_findings_seen": sorted(seen_known),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 2), "violations": len(fresh),
        }
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        printed = set()
        for n, v in enumerate(fresh):
            if v["key"] in printed or len(printed) >= 5:
                continue
            printed.add(v["key"])
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
            v["property"], v["tier"] = prop, tier
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s case=%s/%s: %s\n  %s" % (v["key"], v["section"], v["index"], v["case"][:300], v["message"][:500]))
        return 1
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
          (prop, tier, seed, evaluations, distinct, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
