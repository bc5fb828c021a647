"""Driver of the choice-stream engines (engine/caselib.cc): one binary per (engine, configuration)."""
import json, os, subprocess
import vp

def build_cxx(cfg):
    """new.o with every operator renamed (vp_...), so that the harness keeps the system's operators"""
    def rename(d):
        out = os.path.join(d, "new_vp.o")
        if not os.path.exists(out):
            syms = subprocess.run(["nm", os.path.join(d, "new.o")], stdout=subprocess.PIPE, text=True).stdout
            ren = []
            for l in syms.splitlines():
                n = l.split()[-1]
                if n.startswith(("_Znw", "_Zna", "_Zdl", "_Zda")):
                    ren.append("--redefine-sym=%s=vp%s" % (n, n))
            vp._ok(vp.sh(["objcopy", "-R", ".gnu.lto_*"] + ren + [os.path.join(d, "new.o"), out]), "objcopy")
    return vp.build_engine(["cxx.cc", "caselib.cc", "shim.cc"], cfg, "cxx", eflags=("-O1", "-I" + vp.REPO), objs=vp.ALLOBJ + ["new_vp.o"], prepare=rename)

def build_sched(cfg):
    """allocator objects instrumented by -fsanitize=thread, linked with the runtime in tsanrt.cc instead of libtsan"""
    def rename(d):
        for o in vp.ALLOBJ:
            out = os.path.join(d, "ts_" + o)
            if not os.path.exists(out):
                vp._ok(vp.sh(["objcopy", "-w", "-R", ".gnu.lto_*"] + ["--redefine-sym=%s=vp_%s" % (a, b) for a, b in (("memset", "memset"), ("memcpy", "memcpy"), ("memmove", "memmove"), ("__memcpy_chk", "memcpy_chk"))] + [os.path.join(d, o), out]), "objcopy")
    return vp.build_engine(["sched.cc", "tsanrt.cc", "caselib.cc", "shim.cc"], cfg, "sched", tag="-ts", cflags="-fsanitize=thread", objs=["ts_" + o for o in vp.ALLOBJ], prepare=rename,
        wraps=vp.WRAPS + ["pthread_mutex_init", "pthread_mutex_trylock", "pthread_atfork"])

def build_mte(cfg):
    """allocator built with HAS_ARM_MTE; arm_mte.h is replaced through its include guard, memcpy and memset are checked for tags"""
    def rename(d):
        for o in vp.ALLOBJ:
            out = os.path.join(d, "mt_" + o)
            if not os.path.exists(out):
                vp._ok(vp.sh(["objcopy", "-w", "-R", ".gnu.lto_*"] + ["--redefine-sym=%s=vp_%s" % (a, b) for a, b in (("memset", "memset"), ("memcpy", "memcpy"), ("memmove", "memmove"), ("__memcpy_chk", "memcpy_chk"))] + [os.path.join(d, o), out]), "objcopy")
    return vp.build_engine(["mte.cc", "caselib.cc", "shim.cc"], cfg, "mte", tag="-mte", wraps=vp.WRAPS + ["get_random_u64"], cflags="-fno-builtin-memcpy -fno-builtin-memset", objs=["mt_" + o for o in vp.ALLOBJ], prepare=rename,
        cppflags="-DHAS_ARM_MTE -DPROT_MTE=0x20 -DARM_MTE_H -include %s/mte_emul.h" % vp.ENGINE)

def build_meta(cfg):
    """the allocator's writable globals are moved to sections of their own, so that they can be told from the harness's"""
    def rename(d):
        for o in vp.ALLOBJ:
            out = os.path.join(d, "me_" + o)
            if not os.path.exists(out):
                ren = []
                for l in subprocess.run(["objdump", "-hw", os.path.join(d, o)], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                    f = l.split()
                    if len(f) > 2 and f[0].isdigit():
                        if f[1] == ".bss" or f[1].startswith(".bss."): ren += ["--rename-section", f[1] + "=vpbss"]
                        elif f[1] == ".data" or (f[1].startswith(".data.") and not f[1].startswith(".data.rel.ro")): ren += ["--rename-section", f[1] + "=vpdata"]
                vp._ok(vp.sh(["objcopy", "-w", "-R", ".gnu.lto_*"] + ren + [os.path.join(d, o), out]), "objcopy")
    return vp.build_engine(["meta.cc", "caselib.cc", "shim.cc"], cfg, "meta", objs=["me_" + o for o in vp.ALLOBJ], prepare=rename)

def build_dropin(cfg):
    """the shared library made by /repo's Makefile, linked dynamically"""
    d = vp.make_objs(cfg, tag="-so", prefix=False, target="so")
    out = os.path.join(d, "dropin-" + vp.engine_hash())
    with vp.locked(out):
        if not os.path.exists(out):
            so = [f for f in os.listdir(d) if f.endswith(".so") and f.startswith("libhardened")][0]
            open(out + "-cfg.cc", "w").write(vp.cfg_source(cfg))
            fl = ["-std=c++17", "-g1", "-w", "-O1", "-fno-builtin"]
            vp._ok(vp.sh(["g++"] + fl + ["-shared", "-fPIC", os.path.join(vp.ENGINE, "dropplug.cc"), "-o", os.path.join(d, "dropplug.so")]), "building the plugin")
            vp._ok(vp.sh(["g++"] + fl + ["-fPIE", "-pie", out + "-cfg.cc", os.path.join(vp.ENGINE, "dropin.cc"), os.path.join(vp.ENGINE, "caselib.cc"), "-Wl,--no-as-needed", os.path.join(d, so), "-Wl,-rpath," + d, "-Wl,--as-needed", "-ldl", "-lpthread", "-rdynamic", "-o", out + ".tmp"]), "linking dropin for " + cfg)
            os.rename(out + ".tmp", out)
    return out

# engine -> build recipe
ENGINES = {
    "cxx": dict(build=build_cxx),
    "sched": dict(build=build_sched),
    "mte": dict(build=build_mte),
    "meta": dict(build=build_meta),
    "dropin": dict(build=build_dropin),
    "dist": dict(srcs=["dist.cc", "caselib.cc", "shim.cc"], kw=dict(wraps=vp.WRAPS)),
    "rng": dict(srcs=["rng.cc", "caselib.cc", "shim.cc"], kw=dict(wraps=vp.WRAPS + ["chacha_keystream_bytes"])),
}
def build(engine, cfg):
    e = ENGINES[engine]
    if "build" in e:
        return e["build"](cfg)
    return vp.build_engine(e["srcs"], cfg, engine, eflags=("-O1", "-I" + vp.REPO), **e.get("kw", {}))

# property -> list of (engine, config, mode, cases in the quick tier, thorough multiplier)
SC = lambda mode, *cw: [("sched", c, mode, n * 3, 40) for c, n in cw]
PLAN = {
    "C29": SC("", ("default", 500), ("light", 350), ("noq", 300), ("tiny", 250), ("arena1", 350), ("stats", 250), ("seal", 250), ("arena7", 150), ("sq2_3", 200), ("nolarge", 150), ("androidstats", 200), ("androidlight", 120)) + SC("large", ("default", 120), ("noq", 200), ("smallq", 120), ("light", 80), ("nolarge", 80)),
    "C28": SC("fork", ("default", 250), ("light", 200), ("seal", 150), ("stats", 100), ("tiny", 150), ("arena1", 100), ("androidstats", 100)) + [("dist", c, "fork", n, 20) for c, n in (("default", 60), ("light", 40), ("noq", 40), ("arena7", 16), ("noext", 16), ("tiny", 16))],
    "C30": SC("totals", ("stats", 350), ("statslight", 350), ("statsmin", 200), ("androidstats", 300)),
    "C37": SC("init", ("default", 500), ("light", 400), ("arena1", 300), ("seal", 300), ("stats", 200), ("minimal", 200), ("tiny", 200), ("android", 200), ("androidstats", 200)),
    "C25": [("rng", "default", "", 8000, 40), ("rng", "ubsan", "", 2000, 40), ("rng", "default", "exact", 0, 0)],
    "C22": [("meta", c, "", n, 30) for c, n in (("default", 700), ("light", 600), ("noq", 600), ("smallq", 400), ("nozero", 500), ("minimal", 500), ("nocanary", 300), ("seal", 300), ("tiny", 400), ("stats", 300), ("arena7", 200))] + [("dropin", c, "scan", 200, 20) for c in ("default", "light", "seal", "stats")] + [("dist", c, "state", 1, 10) for c in ("default", "light", "tiny", "noqg3")] + [("mte", c, m, n, 20) for c, m, n in (("android", "canary", 200), ("androidlight", "", 200))],
    "C24": [("dist", c, "layout", n, 8) for c, n in (("default", 3), ("light", 2), ("tiny", 3), ("noqg3", 1), ("arena7", 1), ("noext", 1), ("nozero", 1))] +
        [("dist", c, "", n, 12) for c, n in (("default", 80), ("light", 48), ("noq", 64), ("noqg3", 48), ("rq4_0", 48), ("sq2_3", 32), ("bigsq", 32), ("tiny", 16), ("rr", 24), ("arena7", 8), ("noext", 24), ("smallq", 24), ("nozero", 24))],
    "C16": [("dist", c, "regquar", n, 12) for c, n in (("default", 8), ("light", 4), ("rq4_0", 24), ("smallq", 16), ("rr", 24))],
    "C17": [("dist", c, "guards", n, 12) for c, n in (("default", 16), ("light", 8), ("noqg3", 16), ("rq4_0", 16), ("nolarge", 12))],
    "C19": [("dist", c, "slotquar", n, 12) for c, n in (("default", 16), ("sq2_3", 12), ("sq1_0", 12), ("noext", 12), ("bigsq", 8))],
    "C20": [("dist", c, "slabquar", n, 12) for c, n in (("default", 8), ("light", 16), ("noq", 16), ("noqg3", 16))],
    "C21": [("dist", c, "layout", n, 8) for c, n in (("tiny", 2), ("default", 1), ("arena7", 1))],
    "C33": [("dropin", c, "", n, 30) for c, n in (("default", 2500), ("light", 2500), ("stats", 500), ("seal", 300), ("minimal", 500))],
    "C34": [("mte", c, "", n, 30) for c, n in (("default", 1500), ("android", 1500), ("light", 1000), ("noq", 800), ("noext", 600), ("noqg3", 600), ("sq2_3", 500), ("ubsan", 400))] + [("mte", c, "canary", n, 30) for c, n in (("android", 400), ("androidnoq", 400), ("androidlight", 400))],
    "C12": [("mte", c, "canary", n, 30) for c, n in (("android", 800), ("androidnoq", 1200), ("androidlight", 800))],
    "C26": [("mte", c, "enomem", n, 30) for c, n in (("android", 400), ("light", 600), ("noq", 600), ("androidnoq", 600))],
    "C27": [("mte", c, "fatal", n, 30) for c, n in (("android", 400), ("light", 500), ("androidnoq", 800))],
    "C32": [("cxx", "default", "", 6000, 30), ("cxx", "light", "", 3000, 30), ("cxx", "nolarge", "", 2000, 30), ("cxx", "minimal", "", 2000, 30)],
    "C11": [("cxx", "default", "mismatch", 3000, 30), ("cxx", "light", "mismatch", 1500, 30), ("cxx", "nolarge", "mismatch", 1000, 30), ("cxx", "minimal", "mismatch", 1000, 30)],
}
RULES = {
    "C29": "multi-threaded programs (2-4 threads, shared pool of blocks, few size classes) under generated schedules with a scheduling point at every lock, unlock, atomic, system call and memory access of the allocator; non-trivial: more than two preemptions or lock waits inside the allocator",
    "C28": "multi-threaded programs that fork while other threads are inside the allocator; non-trivial: at least one other thread could run at a fork; and processes whose children, grandchildren and own later draws are compared generator by generator (all are non-trivial)",
    "C30": "multi-threaded programs whose totals are compared with the live blocks at quiescent points; non-trivial: more than two preemptions or lock waits inside the allocator",
    "C37": "programs of 1-4 threads whose first allocator calls (any entry point, misuse before initialisation included) race under generated schedules; non-trivial: more than two preemptions or lock waits inside the allocator, or a misuse",
    "C32": "operator new/delete sequences over all forms, sizes and alignments with scripted new-handlers under injected exhaustion; non-trivial: at least three different forms or situations",
    "C11": "operator sequences ended by a sized delete of another class; non-trivial: at least three different forms",
    "C16": "campaigns over freshly initialised processes whose quarantine delays are compared with the random array's distribution; all are non-trivial",
    "C17": "campaigns over freshly initialised processes whose guard sizes are compared with the uniform distribution; all are non-trivial",
    "C19": "campaigns over freshly initialised processes whose slot quarantine delays are compared with the random array's distribution; all are non-trivial",
    "C20": "campaigns over freshly initialised processes whose slab quarantine delays are compared with the random array's distribution; all are non-trivial",
    "C21": "campaigns over freshly initialised processes whose region bases are compared with the documented range; all are non-trivial",
    "C22": "allocation histories (with failing system calls, threads and forks) with scans of all accessible block memory, of free slots byte by byte and of the allocator's writable globals for pointers to its state, and inspection of the state's mapping; histories of the tagging build in which tagging is disabled (the global state stays read-only); non-trivial: more than three blocks were freed",
    "C24": "campaigns over many freshly initialised processes: region bases, state and large-block guards, slots, canaries, delays of the three random quarantines, compared with the documented distribution by chi-square at 8.5 standard deviations; non-trivial: at least one distribution was tested",
    "C33": "histories mixing every entry point of the library, the C library's allocating functions, a plugin, threads and forks in a process linked with the built shared library; non-trivial: blocks of at least five sources",
    "C34": "allocation histories in the tagging build under emulated tagging instructions whose random tag is chosen adversarially among the allowed ones; non-trivial: more than three tags compared with a neighbour's or the slot's previous one",
    "C12": "allocation histories in the tagging build (emulated instructions), tagging disabled on the way, then one byte of a canary changed, canary draws of zero included; non-trivial: more than three tags compared or a canary changed",
    "C26": "allocation histories in the tagging build (emulated instructions) with system calls failing with ENOMEM; non-trivial: a call failed or more than three tags compared",
    "C27": "allocation histories in the tagging build (emulated instructions), initialisation and disabling included, with a system call failing with another error; non-trivial: a call failed, or more than three tags compared",
    "C25": "request sequences against a reference ChaCha8 under generated OS byte streams (short reads, interrupts, failures), the cipher at generated block counters, every 16-bit draw of generated bounds, bisection of 64-bit preimages; non-trivial: at least one comparison with the reference was made over more than five draws, or a whole bound was counted",
}

def run(ck):
    prop = ck.prop
    ck.rule = (ck.rule + "; " if ck.rule else "") + RULES[prop]
    jobs = []
    plan = [list(p) for p in PLAN[prop]]
    if prop == "C25" and ck.thorough():
        plan[1][3], plan[1][4] = 65535, 1
    bins = dict(zip([(p[0], p[1]) for p in plan], vp.pmap(lambda p: build(p[0], p[1]), plan)))
    for pi, (eng, cfg, mode, n, mult) in enumerate(plan):
        if ck.thorough():
            n *= mult
        if not n:
            continue
        w = ENGINES[eng].get("workers", 8)
        parts = min(w, n)
        for k in range(parts):
            jobs.append((pi, eng, cfg, mode, n // parts + (1 if k < n % parts else 0), k, parts))
    budget = 600 if not ck.thorough() else 4 * 3600
    def one(j):
        pi, eng, cfg, mode, cnt, k, parts = j
        left = budget - (vp.time.time() - ck.t0)
        if ck.violations or left <= 0:
            return None
        out = os.path.join(ck.scratch, "%s-%s-%d-%d" % (eng, cfg, pi, k))
        for f in (out, out + ".replay"):
            if os.path.exists(f):
                os.remove(f)
        p = subprocess.run([bins[(eng, cfg)], "--prop", prop, "--seed", str(ck.seed * 1000 + pi), "--cases", str(cnt), "--start", str(k), "--stride", str(parts), "--out", out, "--mode", mode, "--budget", str(left),
            "--confirm", str(ENGINES[eng].get("confirm", 3))] + (["--thorough"] if ck.thorough() else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, **ENGINES[eng].get("env", {})))
        if not os.path.exists(out):
            raise RuntimeError("worker failed: %s %s" % (j, p.stdout[-800:]))
        d = json.load(open(out))
        if d["rc"]:
            rp = os.path.join(ck.replays, "%s-%s-%s-%d-%d.replay" % (prop, eng, cfg, pi, k))
            os.replace(out + ".replay", rp)
            ck.violation("%s [%s %s%s]: %s" % (prop, eng, cfg, " " + mode if mode else "", d["msg"]), rp)
        return d, eng
    counts, per, inc = {}, {}, 0
    for r in vp.pmap(one, jobs):
        if not r:
            continue
        d, eng = r
        ck.evals += d["executions"]; inc += d["inconclusive"]
        key = eng + "/" + d["config"] + ("/" + d["mode"] if d["mode"] else "")
        per[key] = per.get(key, 0) + d["executions"]
        for k, v in d["counts"].items():
            counts[eng + "." + k] = counts.get(eng + "." + k, 0) + v
        for h in d["hashes"]:
            ck.hashes.add((key, h))
        for s in d["samples"]:
            if sum(1 for x in ck.samples if x.startswith("[" + key)) < 2 and len(ck.samples) < 8:
                ck.samples.append("[%s] %s" % (key, s))
    ck.cov.setdefault("case_engine_events", {}).update(counts)
    ck.cov.setdefault("cases_per_engine", {}).update(per)
    ck.cov["inconclusive"] = ck.cov.get("inconclusive", 0) + inc
    return inc

def replay(path):
    h = {}
    for line in open(path):
        if line.startswith(("engine ", "config ", "property ", "mode ")):
            k, _, v = line.strip().partition(" ")
            h.setdefault(k, v)
    b = build(h["engine"], h["config"])
    p = subprocess.run([b, "--prop", h["property"], "--replay", path], stdout=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, **ENGINES[h["engine"]].get("env", {})))
    print(p.stdout.strip())
    return p.returncode
