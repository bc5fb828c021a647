"""History engine driver: which configurations and how many histories decide each property."""
import json, os, struct, subprocess
import vp

SRCS = ["hist.cc", "shim.cc", "api.cc"]
API = ["h_" + x for x in "malloc calloc realloc posix_memalign aligned_alloc memalign valloc pvalloc free cfree free_sized malloc_usable_size malloc_object_size malloc_object_size_fast mallopt malloc_trim malloc_stats mallinfo2 mallinfo malloc_info mallinfo_narenas mallinfo_nbins mallinfo_arena_info mallinfo_bin_info malloc_disable malloc_enable".split()]
ALLC = ["default", "light", "smallq", "noq", "noqg3", "rq4_0", "sq1_0", "tiny", "tinyq", "tinylight", "nocanary", "noext", "nolarge", "nozero", "minimal", "arena1", "arena7", "stats", "seal"]
# property -> (list of (config, relative number of histories), histories in the quick tier)
PLAN = {
    "C01": ([("default", 3), ("light", 3), ("noq", 3), ("smallq", 2), ("tiny", 2), ("nozero", 1), ("minimal", 2), ("noqg3", 1)], 9000),
    "C02": ([("default", 3), ("light", 2), ("nocanary", 1), ("noext", 1), ("nolarge", 1), ("minimal", 1)], 9000),
    "C03": ([("default", 3), ("light", 2), ("noq", 2), ("nocanary", 1), ("noext", 1), ("nolarge", 2), ("nozero", 1), ("minimal", 1), ("tiny", 1), ("ubsan", 1)], 9000),
    "C04": ([("default", 2), ("light", 3), ("noq", 3), ("smallq", 1), ("nozero", 2), ("noext", 1), ("nolarge", 1), ("minimal", 1)], 8000),
    "C05": ([("default", 2), ("light", 2), ("tiny", 3), ("tinyq", 2), ("tinylight", 3), ("nolarge", 1), ("minimal", 1), ("ubsanlight", 1)], 6000),
    "C06": ([("default", 2), ("light", 2), ("noq", 2), ("nocanary", 1), ("minimal", 1)], 6000),
    "C07": ([("default", 3), ("light", 2), ("noq", 1), ("nocanary", 1), ("noext", 1), ("nolarge", 1), ("minimal", 1), ("seal", 1), ("ubsan", 1)], 9000),
    "C08": ([("default", 3), ("light", 1), ("nocanary", 2), ("noext", 2), ("nolarge", 2), ("minimal", 2)], 8000),
    "C09": ([("default", 3), ("light", 3), ("noq", 2), ("smallq", 2), ("sq1_0", 1), ("tiny", 1), ("nolarge", 1), ("minimal", 2), ("arena7", 1), ("ubsan", 1)], 12000),
    "C10": ([("default", 3), ("light", 3), ("noq", 2), ("smallq", 2), ("minimal", 2), ("arena7", 1)], 12000),
    "C11": ([("default", 3), ("light", 2), ("nocanary", 1), ("noext", 1), ("nolarge", 1), ("minimal", 1)], 10000),
    "C12": ([("default", 3), ("light", 3), ("noq", 2), ("nozero", 1), ("noext", 1)], 10000),
    "C13": ([("noq", 4), ("default", 2), ("sq1_0", 2), ("rq4_0", 2), ("nocanary", 1), ("noext", 1)], 5000),
    "C14": ([(c, 1) for c in ALLC + ["sq2_3", "fsq0", "rr", "android", "label", "ubsan", "ubsanlight"]], 9000),
    "C15": ([("default", 3), ("light", 3), ("noq", 2), ("nocanary", 1), ("noext", 1), ("nolarge", 1)], 9000),
    "C16": ([("default", 1), ("smallq", 3), ("noqg3", 2), ("rq4_0", 3), ("noq", 1), ("nolarge", 2), ("arena1", 1)], 9000),
    "C17": ([("default", 2), ("noqg3", 2), ("rq4_0", 2), ("nolarge", 2), ("noq", 1), ("noext", 1), ("minimal", 1)], 9000),
    "C18": ([("default", 2), ("light", 3), ("noqg3", 2), ("rq4_0", 2), ("noext", 1), ("tiny", 1), ("noq", 1), ("g2nc", 2), ("g5", 2), ("g2lt", 1)], 7000),
    "C19": ([("default", 2), ("sq1_0", 3), ("rq4_0", 3), ("sq2_3", 2), ("noext", 2), ("light", 1)], 4000),
    "C20": ([("noq", 4), ("light", 3), ("noqg3", 3), ("sq1_0", 1), ("rq4_0", 1), ("tiny", 1), ("minimal", 2), ("fsq0", 1), ("android", 1)], 6000),
    "C21": ([("default", 2), ("light", 2), ("arena7", 3), ("arena1", 1), ("tiny", 2), ("statsmin", 1)], 6000),
    "C23": ([("seal", 2), ("sealstats", 2), ("sealtiny", 1), ("androidseal", 2)], 5000),
    "C28": ([("default", 2), ("light", 2), ("smallq", 1), ("noq", 1), ("tiny", 1), ("stats", 1), ("seal", 1), ("arena7", 1), ("android", 1)], 3500),
    "C31": ([("default", 3), ("light", 3), ("smallq", 1), ("noq", 1), ("tiny", 1), ("minimal", 1), ("seal", 2), ("nolarge", 1), ("label", 2)], 6000),
    "C26": ([("default", 2), ("light", 2), ("smallq", 2), ("noq", 2), ("nolarge", 1), ("tiny", 1), ("fsq0", 2), ("ubsan", 1)], 250),
    "C27": ([("default", 2), ("light", 2), ("noq", 2), ("nolarge", 1), ("seal", 1)], 260),
    "C30": ([("stats", 3), ("statslight", 3), ("statsmin", 2), ("statstiny", 2), ("sealstats", 1), ("androidstats", 2), ("ubsanlight", 1)], 8000),
    "C35": ([("noq", 3), ("smallq", 3), ("light", 2), ("noqg3", 2), ("sq1_0", 1), ("minimal", 1), ("tiny", 1), ("default", 1)], 6000),
    "C36": ([("default", 2), ("light", 2), ("noq", 2), ("smallq", 2), ("minimal", 1), ("label", 3), ("seal", 2)], 9000),
}
# property -> (generated configurations per run, pinned options); in the thorough tier four times as many
GEN = {"C14": (8, ""), "C12": (2, "c"), "C13": (2, "w"), "C15": (3, "z"), "C19": (3, "q"), "C30": (3, "t"), "C23": (2, "s"), "C05": (2, "r"), "C21": (3, ""), "C16": (3, ""), "C18": (3, ""), "C20": (2, ""), "C35": (2, "")}
for _p in PLAN:
    GEN.setdefault(_p, (2, "") if _p not in ("C26", "C27", "C28") else (1, ""))

def plan_of(prop, seed, thorough):
    plan, quick = PLAN[prop]
    n, pins = GEN[prop]
    n *= 4 if thorough else 1
    return plan + [("gen%d%s" % (seed * 1000 + int(prop[1:]) * 16 + k if k < 16 else seed * 1000 + 700 + k, pins), 1) for k in range(n)], quick

RULES = {
    "C01": "histories from the state-aware generator, non-trivial if a freed slot was reused, a slab recycled or a realloc moved a block",
    "C02": "histories, non-trivial if a bad alignment was tried, an over-page-aligned block was made or more than 8 blocks were allocated",
    "C03": "histories, non-trivial if at least one realloc moved or resized a block",
    "C04": "histories, non-trivial if fresh zero was checked on recycled memory or after a realloc move",
    "C05": "histories, non-trivial if an impossible request was made or a region was exhausted",
    "C06": "histories, non-trivial if at least two zero-size blocks were made",
    "C07": "histories, non-trivial if live blocks were queried",
    "C08": "histories, non-trivial if more than four requests were compared with the documented class",
    "C09": "histories ending in an invalid free, non-trivial if the invalid free was executed",
    "C10": "histories ending in an invalid query or realloc, non-trivial if it was executed",
    "C11": "histories, non-trivial if a sized free (matching or mismatching) was executed",
    "C12": "histories, non-trivial if a canary byte was written",
    "C13": "histories ending with a write to a freed slot and churn until its reuse, non-trivial if the allocator stopped the program",
    "C14": "histories of correct use in every fixed and several generated configurations, non-trivial with five or more allocations",
    "C15": "histories, non-trivial if a freed block was read back for erasure",
    "C16": "histories, non-trivial if large blocks were allocated and something was freed",
    "C17": "histories, non-trivial if guards of a large block were inspected",
    "C18": "histories, non-trivial if at least two slabs were activated",
    "C19": "histories, non-trivial if a quarantined slot was reused",
    "C20": "histories, non-trivial if an emptied slab was released",
    "C21": "histories, non-trivial if several threads or more than 20 blocks took part",
    "C23": "histories (with injected failures, threads, forks, parallel phases, re-entrant malloc_info) in sealed builds; non-trivial if the rights were checked after more than twenty API returns",
    "C28": "histories with forks, the child continuing the history; non-trivial if at least one fork happened",
    "C31": "histories with every system call of the process trapped by seccomp; non-trivial if more than three allocator system calls were compared with the documented list",
    "C26": "every (operation, system call) of generated histories is made to fail with ENOMEM (single and short runs of failures); non-trivial if a failure was injected",
    "C27": "every (operation, system call) of generated histories and of initialisation is made to fail with a random non-ENOMEM errno; non-trivial if the failure was injected and ended the process",
    "C30": "histories, non-trivial if statistics were compared after a free",
    "C35": "histories, non-trivial with more than ten frees",
    "C36": "histories with injected ENOMEM, non-trivial if errno was compared around a free",
}

def run(ck, props=None, scale=1.0):
    prop = ck.prop
    plan, quick = plan_of(prop, ck.seed, ck.thorough())
    total = int(quick * scale * (25 if ck.thorough() else 2))
    ck.rule = RULES[prop]
    wsum = sum(w for _, w in plan)
    vp.pmap(lambda s: vp.compile_engine(s), SRCS)
    bins = dict(zip([c for c, _ in plan], vp.pmap(lambda cw: vp.build_engine(SRCS, cw[0], "hist", wraps=vp.WRAPS + API), plan)))
    jobs = []
    for ci, (c, w) in enumerate(plan):
        n = max(1, total * w // wsum)
        # split into stride-interleaved chunks so that jobs are small
        parts = max(1, min(8, n // 60 + 1)) if total < 1000 else 4
        if ck.thorough():
            parts = 16
        for k in range(parts):
            cnt = n // parts + (1 if k < n % parts else 0)
            if cnt:
                jobs.append((c, ci, k, parts, cnt))
    budget = 700 if not ck.thorough() else 4 * 3600
    def one(j):
        c, ci, k, parts, cnt = j
        if ck.violations:
            return None
        out = os.path.join(ck.scratch, "%s-%d" % (c, k))
        left = budget - (vp.time.time() - ck.t0)
        if left <= 0:
            return None
        p = subprocess.run([bins[c], "--prop", prop, "--seed", str(ck.seed * 1000 + ci), "--cases", str(cnt), "--start", str(k), "--stride", str(parts), "--out", out, "--hashes", out + ".h",
            "--budget", str(left)] + (["--thorough"] if ck.thorough() else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise RuntimeError("worker failed: %s %s" % (j, p.stdout[-500:]))
        d = json.load(open(out)); d["hashes"] = open(out + ".h", "rb").read() if os.path.exists(out + ".h") else b""
        if d["rc"]:
            rp = os.path.join(ck.replays, "%s-%s-%d.replay" % (prop, c, k))
            if os.path.exists(out + ".replay"):
                os.replace(out + ".replay", rp)
            ck.violation("%s [%s]: %s" % (prop, c, d["msg"]), rp)
        return d
    counts, kinds, perc, inc = {}, {}, {}, 0
    for d in vp.pmap(one, jobs):
        if not d:
            continue
        ck.evals += d["executions"]
        inc += d["inconclusive"]
        perc[d["config"]] = perc.get(d["config"], 0) + d["executions"]
        for k, v in d["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in d["op_kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        hs = d["hashes"]
        for i in range(0, len(hs), 8):
            ck.hashes.add((d["config"], hs[i:i + 8]))
        for s in d["samples"]:
            if len(ck.samples) < 6:
                ck.samples.append("[%s] %s" % (d["config"], s))
    ck.cov.update(executions_per_configuration=perc, model_events=counts, operations_generated=kinds, inconclusive=inc)
    ck.assumptions += ["system calls behave as the kernel documents; the harness sees every memory system call of the allocator through link-time interposition",
                       "getrandom is replaced by a stream that is a function of the case seed"]

def replay(path):
    cfg = None
    for line in open(path):
        if line.startswith("config "):
            cfg = line.split()[1]
        if line.startswith("property "):
            prop = line.split()[1]
    b = vp.build_engine(SRCS, cfg, "hist", wraps=vp.WRAPS + API)
    p = subprocess.run([b, "--prop", prop, "--replay", path], stdout=subprocess.PIPE, text=True)
    print(p.stdout.strip())
    return p.returncode
