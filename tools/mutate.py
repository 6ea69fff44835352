#!/usr/bin/env python3
"""Developer tool: apply small random changes to a source file in scratch
copies of /repo and report those that none of the given checks notices.
usage: mutate.py PROP[,PROP..] FILE[,FILE..] [-n N] [-j J] [-s SEED] [-l FIRST:LAST]"""
import concurrent.futures, os, random, re, shutil, subprocess, sys, threading
args = sys.argv[1:]
props, files = args[0].split(","), args[1].split(",")
opt = dict(zip(args[2::2], args[3::2]))
N, J, SEED = int(opt.get("-n", 40)), int(opt.get("-j", 6)), int(opt.get("-s", 1))
lo, hi = map(int, opt.get("-l", "1:1000000").split(":"))
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut%d" % os.getpid()
RULES = [(r"(?<![<\-=!>])<(?![<=])(?=\s)", " <= "), (r"(?<![>\-=!<])>(?![>=])(?=\s)", " >= "), (r"<=", "<"), (r"(?<!-)>=", ">"), (r"==", "!="), (r"!=", "=="),
         (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"\+=", "-="), (r"-=", "+="),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"),
         (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bif \((?!!)", "if (!!!"), (r"\+\+", "--"), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), (r"\bfirst\b", "second"), (r"!(?=[\w(])", ""),
         (r"\bfind\(", "rfind("), (r"\.begin\(\)", ".end()"), (r"^\s*[\w\[\]().>\-]+(\s*[+\-*]?=\s*[^;=]+|\([^;]*\));\s*$", "/*gone*/;")]
muts = []
for f in files:
    lines = open("/repo/" + f).read().split("\n")
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if "*/" in s: incomment = False; continue
        if incomment or not (lo <= i + 1 <= hi) or s.startswith(("#", "//", "using ", "namespace", "template", "throw", "case ", "class ", "static_assert")) or "Logger" in s or "runtime_error" in s or '" <<' in s or '<< "' in s: continue
        for k, (pat, rep) in enumerate(RULES):
            for m in re.finditer(pat, l):
                new = l[:m.start()] + rep + l[m.end():]
                if "if (!!!" in rep:  # negate the condition when it is on this line
                    d = 0; a = m.end()
                    for e in range(a, len(l)):
                        d += l[e] == "("; d -= l[e] == ")"
                        if d < 0: break
                    else: continue
                    new = l[:m.start()] + "if (!(" + l[a:e] + "))" + l[e + 1:]
                code = l.split("//")[0]
                if m.start() >= len(code): continue
                if code[:m.start()].count('"') % 2: continue
                muts.append((f, i, new))
random.Random(SEED).shuffle(muts)
muts = muts[:N]
print(len(muts), "changes", flush=True)
import queue
free = queue.Queue()
def prep(k):
    r, v = "%s/r%d" % (ROOT, k), "%s/v%d" % (ROOT, k)
    os.makedirs(r)
    subprocess.run("cd /repo && git ls-files -z | xargs -0 cp --parents -t %s 2>/dev/null" % r, shell=True)
    os.makedirs(v)
    for d in ("lib", "harness", "shim"): shutil.copytree(os.path.join(VER, d), v + "/" + d)
    for d in os.listdir(VER):
        if d.endswith((".py", ".txt")): shutil.copy(os.path.join(VER, d), v)
    return r, v
def run(v, r, p):
    return subprocess.run([sys.executable, "run_check.py", p, "--seed", "1"], cwd=v, env=dict(os.environ, VERIF_REPO=r, TMPDIR=v), capture_output=True, timeout=1500)
lock = threading.Lock()
stat = dict(killed=0, nocompile=0, survived=0)
def one(mu):
    f, i, new = mu
    r, v = free.get()
    try:
        path = r + "/" + f
        src = open(path).read()
        lines = src.split("\n"); old = lines[i]; lines[i] = new
        open(path, "w").write("\n".join(lines))
        res = "survived"
        for p in props:
            try: c = run(v, r, p)
            except subprocess.TimeoutExpired: res = "killed"; break
            if c.returncode == 1: res = "killed"; break
            if c.returncode > 1: res = "nocompile" if b"compiling" in c.stdout + c.stderr else "killed"; break
        open(path, "w").write(src)
        with lock:
            stat[res] += 1
            if res == "survived": print("SURVIVED %s:%d\n  - %s\n  + %s" % (f, i + 1, old.strip(), new.strip()), flush=True)
    finally: free.put((r, v))
try:
    for k in range(J): free.put(prep(k))
    with concurrent.futures.ThreadPoolExecutor(J) as ex: list(ex.map(one, muts))
    print(stat, flush=True)
finally: shutil.rmtree(ROOT, ignore_errors=True)
