"""C33: /repo's preload.sh, in a copy of the tree built by its own Makefile, runs generated command lines."""
import json, os, random, shutil, subprocess, tempfile
import vp

PROBE = r'''
import os, sys
m = open("/proc/self/maps").read()
print(repr((sys.argv[1:-1], os.getcwd(), sys.stdin.read(), "libhardened_malloc.so" in m, [l for l in %r if l in m], {k: os.environ.get(k) for k in ("A", "B C", "EMPTY")})))
sys.exit(int(sys.argv[-1]))
'''
LIBS = ["libm.so.6", "libz.so.1", "librt.so.1"]
def libpath(n):
    for d in ("/lib/x86_64-linux-gnu", "/usr/lib/x86_64-linux-gnu", "/lib64", "/usr/lib64"):
        if os.path.exists(os.path.join(d, n)):
            return os.path.join(d, n)

def tree():
    """a copy of the sources (with preload.sh), built in place as the documentation says"""
    d = os.path.join(vp.outdir(), "preloadtree")
    with vp.locked(d):
        if not os.path.exists(d + ".ok"):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(vp.REPO, d, symlinks=True, ignore=lambda p, names: [n for n in names if n in (".git", "out", "out-light") or n.endswith(".so")])
            env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "LD_PRELOAD")}
            vp._ok(vp.sh(["make", "-s", "-C", d, "CONFIG_WERROR=false"], env=env), "building a copy of the tree")
            open(d + ".ok", "w").close()
    return d

def gen(r):
    frag = ["", " ", "a", "two words", "*", "$HOME", "`id`", "$(echo x)", "-n", "--", "-", "\\", "'", '"', "\n", "a\tb", "é", "~", "!x", "x=y", "{1,2}", "#", "a;b", "&", "|", "<", ">f", "%s", "\\n", "[a-z]"]
    args = ["".join(r.choice(frag) for _ in range(r.randrange(1, 4))) for _ in range(r.randrange(7))]
    pre = [p for p in map(libpath, r.sample(LIBS, r.randrange(0, 3))) if p]
    return dict(args=args, pre=pre, unset=r.random() < .5, sep=r.choice([" ", ":"]), how=r.choice(["absolute", "relative", "other directory", "path", "nested"]), stdin="".join(r.choice(frag) for _ in range(r.randrange(6))),
        status=r.choice([0, 0, 1, 3, 77, 255]), env={k: r.choice(frag[:12]) for k in r.sample(["A", "EMPTY"], r.randrange(3))})

def evaluate(c, scratch):
    t = tree()
    d = tempfile.mkdtemp(dir=scratch)
    try:
        os.mkdir(d + "/w")
        open(d + "/probe.py", "w").write(PROBE % LIBS)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "TERM")}
        env.update(LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", **c["env"])
        if c["pre"] or not c["unset"]:
            env["LD_PRELOAD"] = c["sep"].join(c["pre"])
        cwd, cmd = d + "/w", [os.path.join(t, "preload.sh")]
        if c["how"] == "relative": cwd, cmd = t, ["./preload.sh"]
        elif c["how"] == "other directory": cwd, cmd = os.path.join(t, "include"), ["../preload.sh"]
        elif c["how"] == "path": cmd = ["preload.sh"]; env["PATH"] = t + ":" + env.get("PATH", "/usr/bin:/bin")
        elif c["how"] == "nested": cmd = cmd + ["sh", "-c", 'exec "$@"', "sh"]
        p = subprocess.run((["/usr/bin/env"] if c["how"] == "path" else []) + cmd + ["python3", "-S", d + "/probe.py"] + c["args"] + [str(c["status"])], cwd=cwd, env=env, input=c["stdin"].encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        want = (c["args"], os.path.realpath(cwd), c["stdin"], True, [l for l in LIBS if any(x.endswith(l) for x in c["pre"])], {k: c["env"].get(k) for k in ("A", "B C", "EMPTY")})
        if p.returncode != c["status"]:
            return "exit status %d instead of %d: %s" % (p.returncode, c["status"], p.stderr.decode(errors="replace")[-200:])
        try:
            got = eval(p.stdout.decode(errors="replace"), {})
        except SyntaxError:
            return "the program did not run as given: %r" % p.stdout[:200]
        names = ("arguments", "working directory", "standard input", "loaded library", "libraries preloaded before", "environment")
        for n, g, w in zip(names, got, want):
            if n == "libraries preloaded before":
                if not set(w) <= set(g): return "%s: %r instead of %r" % (n, g, w)
            elif n == "loaded library":
                if not g: return "libhardened_malloc.so is not loaded in the program: %s" % p.stderr.decode(errors="replace")[-200:].strip()
            elif g != w: return "%s: %r instead of %r" % (n, g, w)
        return None
    except OSError as e:
        return "cannot be executed: %s" % e
    except subprocess.TimeoutExpired:
        return "did not end within 60 s"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def shrink(c, fails):
    for k, v in (("args", []), ("pre", []), ("unset", True), ("how", "absolute"), ("stdin", ""), ("status", 0), ("env", {})):
        t = dict(c, **{k: v})
        if t != c and fails(t): c = t
    i = 0
    while i < len(c["args"]):
        t = dict(c, args=c["args"][:i] + c["args"][i + 1:])
        if fails(t): c = t
        else: i += 1
    return c

def run(ck):
    if not os.path.exists(os.path.join(vp.REPO, "preload.sh")) or ck.violations:
        return
    r = random.Random("%d-preload" % ck.seed)
    cs = [gen(r) for _ in range(3000 if ck.thorough() else 60)]
    tree()
    def one(c):
        if not ck.violations:
            msg = evaluate(c, ck.scratch)
            ck.evals += 1; ck.hashes.add(json.dumps(c, sort_keys=True))
            if msg and evaluate(c, ck.scratch) and not ck.violations:
                c = shrink(c, lambda t: evaluate(t, ck.scratch) is not None)
                rp = os.path.join(ck.replays, "C33-preload.replay")
                json.dump(dict(engine="preload", case=c), open(rp, "w"))
                ck.violation("C33 [preload.sh]: %s" % (evaluate(c, ck.scratch) or msg), rp)
    vp.pmap(one, cs)
    del ck.violations[1:]
    ck.cov["preload_script_runs"] = len(cs)

def replay(path):
    t = tempfile.mkdtemp()
    try:
        m = evaluate(json.load(open(path))["case"], t)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    print(m or "no difference"); return 1 if m else 0
