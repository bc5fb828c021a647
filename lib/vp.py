"""Shared machinery: builds the allocator from /repo in any configuration, runs engine workers, writes evidence."""
import hashlib, json, os, subprocess, sys, time, shutil, struct, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
NPROC = int(os.environ.get("VP_NPROC", "8"))

DEFAULT = dict(ZERO_ON_FREE="true", WRITE_AFTER_FREE_CHECK="true", SLOT_RANDOMIZE="true", SLAB_CANARY="true",
    SLAB_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_QUEUE_LENGTH=1, EXTENDED_SIZE_CLASSES="true", LARGE_SIZE_CLASSES="true",
    GUARD_SLABS_INTERVAL=1, GUARD_SIZE_DIVISOR=2, REGION_QUARANTINE_RANDOM_LENGTH=256, REGION_QUARANTINE_QUEUE_LENGTH=1024,
    REGION_QUARANTINE_SKIP_THRESHOLD=33554432, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=32, CLASS_REGION_SIZE=34359738368,
    N_ARENA=4, STATS="false", SEAL_METADATA="false")
LIGHT = dict(DEFAULT, WRITE_AFTER_FREE_CHECK="false", SLOT_RANDOMIZE="false", SLAB_QUARANTINE_RANDOM_LENGTH=0,
    SLAB_QUARANTINE_QUEUE_LENGTH=0, GUARD_SLABS_INTERVAL=8)
MB = 1 << 20
RQ = lambda r, q: dict(REGION_QUARANTINE_RANDOM_LENGTH=r, REGION_QUARANTINE_QUEUE_LENGTH=q)
SQ = lambda r, q: dict(SLAB_QUARANTINE_RANDOM_LENGTH=r, SLAB_QUARANTINE_QUEUE_LENGTH=q)
ANDROID = "-D__ANDROID__ -I%s/android -include async_safe/log.h " % ENGINE
# name -> (variant, overrides[, preprocessor flags]); the two shipped variants take every value from /repo/config/*.mk untouched
CONFIGS = {
    "default": ("default", {}),
    "light": ("light", {}),
    "smallq": ("default", dict(**RQ(2, 3), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2)),
    "noq": ("default", dict(**SQ(0, 0), **RQ(0, 0), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "noqg3": ("default", dict(**SQ(0, 0), **RQ(0, 4), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2, GUARD_SLABS_INTERVAL=3, GUARD_SIZE_DIVISOR=5)),
    "rq4_0": ("default", dict(**RQ(4, 0), **SQ(0, 1), GUARD_SIZE_DIVISOR=1, GUARD_SLABS_INTERVAL=2)),
    "sq1_0": ("default", dict(**SQ(1, 0), **RQ(1, 1), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "sq2_3": ("default", dict(**SQ(2, 3), **RQ(3, 2))),
    "tiny": ("default", dict(**SQ(0, 0), **RQ(1, 2), CLASS_REGION_SIZE=MB, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "tinyq": ("default", dict(CLASS_REGION_SIZE=2 * MB, **RQ(2, 2), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2, GUARD_SLABS_INTERVAL=2)),
    "tinylight": ("light", dict(CLASS_REGION_SIZE=MB, **RQ(2, 2), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=3)),
    "nocanary": ("default", dict(SLAB_CANARY="false", **RQ(2, 3))),
    "noext": ("default", dict(EXTENDED_SIZE_CLASSES="false", **RQ(2, 3))),
    "nolarge": ("default", dict(LARGE_SIZE_CLASSES="false", **RQ(2, 3))),
    "nozero": ("default", dict(ZERO_ON_FREE="false", WRITE_AFTER_FREE_CHECK="false", SLOT_RANDOMIZE="false", **RQ(2, 3))),
    "minimal": ("light", dict(ZERO_ON_FREE="false", SLAB_CANARY="false", EXTENDED_SIZE_CLASSES="false", LARGE_SIZE_CLASSES="false", N_ARENA=1, **RQ(0, 0), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "arena1": ("default", dict(N_ARENA=1, **RQ(0, 2))),
    "arena7": ("default", dict(N_ARENA=7, CLASS_REGION_SIZE=1 << 30, **RQ(2, 0))),
    "stats": ("default", dict(STATS="true", **RQ(2, 3))),
    "statslight": ("light", dict(STATS="true", **RQ(2, 3), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "statsmin": ("light", dict(STATS="true", EXTENDED_SIZE_CLASSES="false", LARGE_SIZE_CLASSES="false", SLAB_CANARY="false", N_ARENA=2, **RQ(0, 0))),
    "statstiny": ("default", dict(STATS="true", **RQ(1, 1), **SQ(0, 0), CLASS_REGION_SIZE=MB, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "seal": ("default", dict(SEAL_METADATA="true", **RQ(2, 3))),
    "sealstats": ("default", dict(SEAL_METADATA="true", STATS="true", **RQ(2, 3))),
    "sealtiny": ("default", dict(SEAL_METADATA="true", CLASS_REGION_SIZE=MB, **SQ(0, 0), **RQ(1, 2), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "fsq0": ("default", dict(**SQ(0, 0), **RQ(1, 0), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0)),
    "bigsq": ("default", dict(**SQ(8, 0), **RQ(1, 0))),
    "g2nc": ("light", dict(SLAB_CANARY="false", GUARD_SLABS_INTERVAL=2, **RQ(1, 0), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=4)),
    "g5": ("default", dict(GUARD_SLABS_INTERVAL=5, **RQ(1, 1), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=8)),
    "g2lt": ("light", dict(GUARD_SLABS_INTERVAL=2, CLASS_REGION_SIZE=16 * MB, **RQ(1, 0), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)),
    "android": ("default", dict(**RQ(2, 3)), ANDROID),
    "androidstats": ("default", dict(STATS="true", **RQ(2, 3)), ANDROID),
    "androidseal": ("default", dict(STATS="true", SEAL_METADATA="true", **RQ(2, 3)), ANDROID),
    "androidnoq": ("default", dict(**SQ(0, 0), **RQ(0, 0), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1), ANDROID),
    "androidlight": ("light", {}, ANDROID),
    "label": ("default", dict(**SQ(0, 1), **RQ(2, 3), FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2), "-DLABEL_MEMORY "),
    "ubsan": ("default", dict(**RQ(2, 3)), "-fsanitize=undefined -fsanitize-undefined-trap-on-error "),
    "ubsanlight": ("light", dict(STATS="true", **RQ(2, 3), CLASS_REGION_SIZE=4 * MB), "-fsanitize=undefined -fsanitize-undefined-trap-on-error "),
    "rr": ("default", dict(**SQ(1, 0), **RQ(8, 0))),
}

class Generated(dict):
    """"gen<N><needs>" names a build configuration that is a function of its name: any combination of options the
    static assertions allow; <needs> are letters pinning what a property is about (see PIN)"""
    PIN = {"c": dict(SLAB_CANARY="true"), "w": dict(ZERO_ON_FREE="true", WRITE_AFTER_FREE_CHECK="true"), "z": dict(ZERO_ON_FREE="true"),
           "t": dict(STATS="true"), "s": dict(SEAL_METADATA="true"), "q": {}, "r": {}}
    def __missing__(self, name):
        import random, re
        m = re.fullmatch(r"gen(\d+)([a-z]*)", name)
        if not m:
            raise KeyError(name)
        r = random.Random(int(m.group(1)) * 7919 + 13)
        b = lambda p: "true" if r.random() < p else "false"
        length = lambda: r.choice([0, 0, 1, 2, 3, 5, 9, 24])
        o = dict(ZERO_ON_FREE=b(.7), SLOT_RANDOMIZE=b(.5), SLAB_CANARY=b(.6), SLAB_QUARANTINE_RANDOM_LENGTH=length(), SLAB_QUARANTINE_QUEUE_LENGTH=length(),
            EXTENDED_SIZE_CLASSES=b(.6), LARGE_SIZE_CLASSES=b(.6), GUARD_SLABS_INTERVAL=r.choice([1, 1, 2, 3, 4, 7, 8, 16]), GUARD_SIZE_DIVISOR=r.choice([1, 2, 2, 3, 4, 7, 16]),
            REGION_QUARANTINE_RANDOM_LENGTH=length(), REGION_QUARANTINE_QUEUE_LENGTH=length(), REGION_QUARANTINE_SKIP_THRESHOLD=r.choice([0, 4096, 131072, MB, 32 * MB, 32 * MB]),
            FREE_SLABS_QUARANTINE_RANDOM_LENGTH=r.choice([0, 1, 1, 2, 5, 32]), CLASS_REGION_SIZE=MB << r.choice([0, 1, 3, 6, 10, 12, 15]), N_ARENA=r.choice([1, 2, 3, 4, 5, 9]),
            STATS=b(.3), SEAL_METADATA=b(.2))
        o["WRITE_AFTER_FREE_CHECK"] = b(.6) if o["ZERO_ON_FREE"] == "true" else "false"
        for k in m.group(2):
            o.update(self.PIN[k])
        if "q" in m.group(2) and not o["SLAB_QUARANTINE_RANDOM_LENGTH"] + o["SLAB_QUARANTINE_QUEUE_LENGTH"]:
            o.update(SQ(2, 1))
        if "r" in m.group(2):
            o["CLASS_REGION_SIZE"] = min(o["CLASS_REGION_SIZE"], 8 * MB)
        self[name] = (r.choice(["default", "light"]), o)
        return self[name]
CONFIGS = Generated(CONFIGS)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def mkvals(cfg, extra=None):
    """effective configuration values (variant .mk file of /repo, then overrides)"""
    variant, over = CONFIGS[cfg][:2]
    vals = {}
    for line in open(os.path.join(REPO, "config", variant + ".mk")):
        if ":=" in line:
            k, v = line.split("#")[0].split(":=")
            vals[k.strip().replace("CONFIG_", "", 1)] = v.strip()
    vals.update({k: str(v) for k, v in over.items()})
    vals.update(extra or {})
    return vals

def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "out", "out-light", "test", "androidtest"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".c", ".h", ".cc", ".mk", ".sh")) or f == "Makefile":
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

class BuildError(Exception):
    pass

def _ok(r, what):
    if r.returncode:
        raise BuildError(what + "\n" + r.stdout[-4000:])

_srchash = None
def outdir():
    global _srchash
    if _srchash is None:
        _srchash = source_hash()
    d = os.path.join(BUILD, _srchash)
    os.makedirs(d, exist_ok=True)
    return d

import contextlib, fcntl, threading
_tl = {}
_tlg = threading.Lock()
@contextlib.contextmanager
def locked(path):
    """mutual exclusion of builds between threads and processes"""
    with _tlg:
        l = _tl.setdefault(path, threading.Lock())
    with l, open(path + ".lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def make_objs(cfg, tag="", **kw):
    with locked(os.path.join(outdir(), cfg + tag)):
        return _make_objs(cfg, tag, **kw)

def _make_objs(cfg, tag="", prefix=True, cppflags="", cflags="", cxxflags="", extra=None, target=None, cc="gcc", selfinit=None):
    """Builds /repo's objects through /repo's own Makefile in the configuration `cfg`. Returns the directory."""
    variant, over = CONFIGS[cfg][:2]
    cppflags = " ".join(CONFIGS[cfg][2:]) + cppflags
    d = os.path.join(outdir(), cfg + tag)
    stamp = os.path.join(d, ".ok")
    if os.path.exists(stamp):
        return d
    os.makedirs(d, exist_ok=True)
    args = ["make", "-s", "-C", REPO, "OUT=" + d, "VARIANT=" + variant, "CC=" + cc, "CONFIG_NATIVE=false", "CONFIG_WERROR=false"]
    over = dict(over); over.update(extra or {})
    args += ["CONFIG_%s=%s" % kv for kv in over.items()]
    if selfinit is not None:
        args.append("CONFIG_SELF_INIT=" + ("true" if selfinit else "false"))
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "MFLAGS"):
        env.pop(k, None)
    env["CPPFLAGS"] = ("-DH_MALLOC_PREFIX " if prefix else "") + cppflags
    env["CFLAGS"] = "-ffat-lto-objects -g1 " + cflags
    env["CXXFLAGS"] = "-ffat-lto-objects -g1 " + cxxflags
    so = "libhardened_malloc%s.so" % ("" if variant == "default" else "-" + variant)
    objs = ["chacha.o", "h_malloc.o", "memory.o", "pages.o", "random.o", "util.o", "new.o"]
    goals = [os.path.join(d, o) for o in objs] if target is None else [os.path.join(d, so)]
    _ok(sh(args + goals, env=env), "building %s in configuration %s" % (REPO, cfg))
    open(stamp, "w").close()
    return d

ALLOBJ = ["chacha.o", "h_malloc.o", "memory.o", "pages.o", "random.o", "util.o"]
WRAPS = ["mmap", "munmap", "mprotect", "pkey_mprotect", "mremap", "madvise", "getrandom", "write", "abort", "pthread_mutex_lock", "pthread_mutex_unlock", "pkey_alloc", "pkey_set", "prctl"]

def cfg_source(cfg, extra=None):
    v = mkvals(cfg, extra)
    b = lambda k: "1" if v[k] == "true" else "0"
    return ('#include "%s/vp.h"\nextern const Cfg CFG;\nconst Cfg CFG = {"%s",%s,%s,%s,%s, %s,%s, %s,%s, %s,%s, %s,%s,%sull, %s, %sull,%s,%s,%s};\n' % (
        ENGINE, cfg, b("ZERO_ON_FREE"), b("WRITE_AFTER_FREE_CHECK"), b("SLOT_RANDOMIZE"), b("SLAB_CANARY"),
        v["SLAB_QUARANTINE_RANDOM_LENGTH"], v["SLAB_QUARANTINE_QUEUE_LENGTH"], b("EXTENDED_SIZE_CLASSES"), b("LARGE_SIZE_CLASSES"),
        v["GUARD_SLABS_INTERVAL"], v["GUARD_SIZE_DIVISOR"], v["REGION_QUARANTINE_RANDOM_LENGTH"], v["REGION_QUARANTINE_QUEUE_LENGTH"], v["REGION_QUARANTINE_SKIP_THRESHOLD"],
        v["FREE_SLABS_QUARANTINE_RANDOM_LENGTH"], v["CLASS_REGION_SIZE"], v["N_ARENA"], b("STATS"), b("SEAL_METADATA")))

_enghash = None
def engine_hash():
    global _enghash
    if _enghash is None:
        h = hashlib.sha256()
        for f in sorted(os.listdir(ENGINE)):
            if os.path.isdir(os.path.join(ENGINE, f)):
                continue
            h.update(f.encode()); h.update(open(os.path.join(ENGINE, f), "rb").read())
        _enghash = h.hexdigest()[:10]
    return _enghash

def compile_engine(src, tag="", flags=("-O1",), cxx="g++"):
    with locked(os.path.join(outdir(), src + tag)):
        return _compile_engine(src, tag, flags, cxx)

def _compile_engine(src, tag, flags, cxx):
    o = os.path.join(outdir(), "%s%s-%s.o" % (os.path.splitext(src)[0], tag, engine_hash()))
    if not os.path.exists(o):
        _ok(sh([cxx, "-std=c++17", "-g1", "-w", *flags, "-c", os.path.join(ENGINE, src), "-o", o + ".tmp"]), "compiling engine " + src)
        os.rename(o + ".tmp", o)
    return o

def build_engine(srcs, cfg, name, tag="", **kw):
    with locked(os.path.join(outdir(), "link-" + name + "-" + cfg + tag)):
        return _build_engine(srcs, cfg, name, tag, **kw)

def _build_engine(srcs, cfg, name, tag="", wraps=WRAPS, objs=ALLOBJ, link=(), extra=None, static=True, selfinit=False, eflags=("-O1",), prepare=None, **kw):
    """Links engine sources with /repo's objects (configuration cfg). Returns the binary's path."""
    d = make_objs(cfg, tag=tag, selfinit=selfinit, extra=extra, **kw)
    out = os.path.join(d, name + "-" + engine_hash())
    if os.path.exists(out):
        return out
    if prepare:
        prepare(d)
    c = out + "-cfg.cc"
    open(c, "w").write(cfg_source(cfg, extra))
    eo = [compile_engine(s, flags=eflags) for s in srcs]
    cmd = ["g++", "-std=c++17", "-g1", "-fno-lto", c] + eo + [os.path.join(d, o) for o in objs] + ["-o", out + ".tmp", "-lpthread"]
    if static:
        cmd.append("-static")
    cmd += ["-Wl,--wrap=" + w for w in wraps] + list(link)
    _ok(sh(cmd), "linking %s for %s" % (name, cfg))
    os.rename(out + ".tmp", out)
    return out

def pmap(f, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))

class Check:
    """Bookkeeping of one run of one property's check."""
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evals = 0
        self.hashes = set()
        self.nontrivial_extra = 0
        self.samples = []
        self.cov = {}
        self.rule = ""
        self.violations = []
        self.known = []
        self.assumptions = []
        self.scratch = os.path.join(BUILD, "run-" + prop)
        os.makedirs(self.scratch, exist_ok=True)
        self.replays = os.path.join(BUILD, "replays")
        os.makedirs(self.replays, exist_ok=True)
    def thorough(self):
        return self.tier == "thorough"
    def violation(self, msg, replay):
        self.violations.append((msg, replay))
    def save_replay(self, name, text):
        p = os.path.join(self.replays, "%s-%s.txt" % (self.prop, name))
        open(p, "w").write(text)
        return p
    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
            coverage=dict(dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes) + self.nontrivial_extra, rule=self.rule,
                samples=self.samples[:8] or ["none"]), **self.cov), assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        evdir = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for msg, replay in self.violations:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, "VIOLATED" if self.violations else "ok", self.evals, ev["coverage"]["distinct_nontrivial"], time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0
