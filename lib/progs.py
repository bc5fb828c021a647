"""C33: generated programs run with and without the shipped libraries; the same results are expected."""
import hashlib, json, os, random, shutil, subprocess, tempfile
import vp

def g_stl(r):
    ops = "map unmap umap rehash deque list shared tree wide huge string vec large threads pass throw badalloc set regex valarray stream".split()
    return ["%s %d %d" % (r.choice(ops), r.choice([r.randrange(20), r.randrange(400), r.randrange(2000)]), r.randrange(1, 1000)) for _ in range(r.randrange(3, 40))]
def r_stl(items, d):
    return [["STL"]], "\n".join(items) + "\n"

PYT = ["x.extend(range({a})); p(len(x), sum(x) % 9973)", "x = [v * {b} for v in x if v % 3] + [{a}]; p(len(x))", "d.update({{str(i * {b}): 'v' * (i % {b}) for i in range({a})}}); p(len(d))", "for k in list(d)[:{b}]: del d[k]\np(len(d))",
    "s = ''.join(chr(97 + i % 26) for i in range({a})) * ({b} % 40 + 1); p(len(s), hash(s) % 1000)", "import zlib; z = zlib.compress(s.encode() * ({b} % 30)); p(len(z), zlib.crc32(zlib.decompress(z)))", "import hashlib; p(hashlib.sha256(repr(sorted(d.items())).encode()).hexdigest())",
    "import re; p(len(re.findall(r'(a+|b*c)[d-h]?', s)))", "import json; p(len(json.dumps(d)), json.loads(json.dumps(d)) == d)", "import threading; out = []; ts = [threading.Thread(target=lambda i=i: out.append(sum(j * i for j in range({a})))) for i in range({b} % 6 + 1)]; [t.start() for t in ts]; [t.join() for t in ts]; p(sum(out))",
    "b = bytearray({a} * {b}); b[::7] = bytes(len(b[::7])); b += b'xy' * {b}; del b[:{a}]; p(len(b))", "import array; a = array.array('d', range({a})); a.extend(a); p(sum(a), len(a))", "import collections; q = collections.deque(maxlen={b}); q.extend(range({a})); p(list(q)[-3:])",
    "import subprocess, sys; p(subprocess.run([sys.executable, '-S', '-c', 'print(len(bytes({a}000)))'], stdout=subprocess.PIPE).stdout)", "import pickle; p(pickle.loads(pickle.dumps((x[:{b}], d)))[1] == d)", "import os\npid = os.fork()\nif not pid:\n    y = [bytes(i) for i in range({a})]; os._exit(len(y) % 200)\np(os.waitpid(pid, 0)[1])",
    "import decimal; decimal.getcontext().prec = {b} + 5; p(str(decimal.Decimal({a} + 2).sqrt()))", "p(str(({a} + 3) ** {b})[:60])", "import sqlite3; c = sqlite3.connect(':memory:'); c.execute('create table t(a,b)'); c.executemany('insert into t values(?,?)', [(i % 17, 'z' * (i % 90)) for i in range({a})]); p(c.execute('select a,count(*),sum(length(b)) from t group by a order by a').fetchall())",
    "import ctypes; l = ctypes.CDLL(None); l.malloc.restype = ctypes.c_void_p; l.free.argtypes = [ctypes.c_void_p]; ps = [l.malloc({b} * 10) for _ in range({a} % 200)]; [l.free(v) for v in ps]; p(len(ps))", "import mmap; m = mmap.mmap(-1, ({a} + 1) * 4096); m[:5] = b'hello'; p(m[:6], len(m)); m.close()"]
def g_py(r):
    return [r.choice(PYT).format(a=r.choice([r.randrange(1, 60), r.randrange(1, 3000)]), b=r.randrange(2, 400)) for _ in range(r.randrange(2, 25))]
def r_py(items, d):
    open(d + "/p.py", "w").write("import sys\nx, d, s = [1, 2], {'a': 'b'}, 'abc'\ndef p(*v): print(*v)\n" + "\n".join(items) + "\n")
    return [["python3", "-S", "p.py"]], ""
SQL = ["insert into t select value, value * {b} % 97, printf('%.*c', value % {b}, 'x') from generate_series(1, {a});", "update t set b = b + {b} where a % 3 = {a} % 3;", "delete from t where a % {b} = 1;", "select count(*), sum(a), sum(b), sum(length(c)) from t;", "select b, count(*) from t group by b order by 2 desc, 1 limit 5;", "create index if not exists i{b} on t(b, a);",
    "select count(*) from t x join t y on x.a = y.b;", "with recursive f(a, b) as (select 1, 1 union all select b, (a + b) % 10007 from f limit {a}) select sum(a) from f;", "select hex(sha3('x{a}')) is not null;", "select group_concat(c) from (select substr(c, 1, 3) c from t limit {b});", "begin; delete from t; rollback;", "vacuum;", "select json_group_array(a) from (select a from t order by a limit {b});", "select length(zeroblob({a} * {b})), length(replace(hex(zeroblob({a})), '0', 'ab'));"]
def g_sql(r):
    return [r.choice(SQL).format(a=r.randrange(1, 900), b=r.randrange(2, 60)) for _ in range(r.randrange(3, 25))]
def r_sql(items, d):
    return [["sqlite3", "-batch", ":memory:"]], "create table t(a int, b int, c text);\n" + "\n".join(items) + "\n"
def g_c(r):
    def expr(k):
        if k == 0: return r.choice(["a", "b", "n", str(r.randrange(1, 999)), "t[%d]" % r.randrange(8)])
        return "(%s %s %s)" % (expr(k - 1), r.choice("+ - * ^ & |".split()), expr(r.randrange(k)))
    out = []
    for i in range(r.randrange(1, 14)):
        body = "".join("  %s\n" % r.choice(["for (int i = 0; i < n; i++) t[i & 7] += %s;", "if (%s) a ^= b; else b += n;", "while (n-- > 0) a += %s;", "t[n & 7] = %s;", "switch (n & 3) { case 0: a = %s; break; case 2: b = 3; }", "a = f(a, b) + %s;"]).__mod__(expr(r.randrange(1, 4))) for _ in range(r.randrange(1, 9)))
        out.append("long f%d(long a, long b, int n) { long t[8] = {1, 2, 3};\n%s  return a + b + t[1]; }\n" % (i, body))
    return out
def r_c(items, d):
    open(d + "/t.c", "w").write("long f(long, long);\n" + "".join(items))
    return [["gcc", "-O2", "-g0", "-S", "t.c", "-o", "t.s"], ["cat", "t.s"]], ""
SH = ["sort -k2 f | tail -n {a}", "sort -n -u f | head -n {b}", "awk '{{ n[$1 % {b}] += $2 }} END {{ for (i = 0; i < {b}; i++) print i, n[i] }}' f", "sed -E 's/([0-9]+) ([a-z]+)/\\2-\\1/g; {b}q' f", "grep -E '(a|b)+[c-{c}]?{c}' f | wc", "gzip -9 < f | gzip -d | cksum", "xz -0 < f | xz -d | cksum", "bzip2 < f | bzip2 -d | cksum",
    "tar cf - f | tar xOf - f | cksum", "cat f f f >> f2; cksum f2; diff f f2 | wc -l", "i=0; while [ $i -lt {b} ]; do x=\"$x$i\"; i=$((i+1)); done; echo ${{#x}}", "declare -A m; for i in $(seq {b}); do m[k$((i % 17))]+=$i; done; echo ${{m[k3]}}", "seq {a} | tac | paste -s -d+ | bc", "perl -e 'my %h; $h{{$_ % {b}}} .= \"x\" x ($_ % 50) for 1..{a}; my $t = 0; $t += length $h{{$_}} for sort keys %h; print \"$t\\n\"; @a = map {{ [$_, \"s$_\"] }} 1..{a}; print scalar(@a), \"\\n\"'",
    "perl -ne 'while (/([a-z]{{2,}})/g) {{ $c{{$1}}++ }} END {{ print join(\",\", map {{ \"$_=$c{{$_}}\" }} sort keys %c), \"\\n\" }}' f | cksum", "jq -n '[range({a})] | map(. * {b}) | group_by(. % 7) | map(length)' -c", "tclsh <<< 'for {{set i 0}} {{$i < {a}}} {{incr i}} {{ lappend l [string repeat x [expr {{$i % {b}}}]]; dict set d $i $l }}; puts [llength $l] ; puts [dict size $d]' | tail -2", "m4 -D N={b} <<< 'define(`r', `ifelse($1, 0, , `$1 r(decr($1))')')r(N)'",
    "openssl dgst -sha256 < f; openssl enc -aes-128-cbc -K 00 -iv 00 < f 2>/dev/null | cksum", "find . -type f | sort | xargs cksum", "git init -q r{a}; cd r{a}; cp ../f .; git add f; git -c user.name=a -c user.email=b commit -q -m x --date '2020-01-01T00:00:00Z'; git gc -q; git rev-parse HEAD^{{tree}}; cd ..", "printf 'p = %s\\n' {a} | z3 -version", "echo '(declare-const x Int)(declare-const y Int)(assert (= (+ (* {b} x) (* 7 y)) {a}))(assert (> x 0))(assert (< x 50))(check-sat)' | z3 -in", "python3 -S -c 'print(sum(range({a})))'", "expr {a} \\* {b}; factor {a}{b}1; seq -s, {b} | tr , '\\n' | shuf --random-source=f | cksum", "ls /usr/bin | head -{b} | cksum; join <(sort f) <(sort f) | wc -l", "ocaml -e 'let l = List.init {a} (fun i -> String.make (i mod {b}) (Char.chr 97)) in print_int (List.length (List.sort_uniq compare l)); print_newline ()'"]
def g_sh(r):
    return [r.choice(SH).format(a=r.randrange(1, 900), b=r.randrange(2, 90), c=r.choice("defgh")) for _ in range(r.randrange(2, 14))]
def r_sh(items, d):
    r = random.Random(len(items)); open(d + "/f", "w").write("".join("%d %s\n" % (r.randrange(5000), "".join(r.choice("abcdefgh") for _ in range(r.randrange(40)))) for _ in range(700)))
    open(d + "/s.sh", "w").write("export LC_ALL=C GIT_COMMITTER_DATE=2020-01-01T00:00:00Z HOME=$PWD GIT_CONFIG_NOSYSTEM=1\n" + "\n".join(items) + "\n")
    return [["bash", "s.sh"]], ""
JS = ["x = x.concat(Array.from({{length: {a}}}, (_, i) => i * {b})); p(x.length)", "m = new Map(x.map(v => [v % {b}, 's'.repeat(v % 90)])); p(m.size)", "p(JSON.stringify([...m]).length)", "b = Buffer.alloc({a} * {b}, 'ab'); p(require('crypto').createHash('sha1').update(b).digest('hex'))", "p(require('zlib').gzipSync(Buffer.from(x.join())).length > 0)", "x = x.filter(v => v % 3); p(x.length)", "p('abc'.repeat({a}).replace(/b(c)/g, '$1-').length)", "let f{b}_{a} = new Float64Array({a} * 100).fill({b}); p(f{b}_{a}.reduce((a, c) => a + c))"]
def g_js(r):
    return list(dict.fromkeys(r.choice(JS).format(a=r.randrange(1, 900), b=r.randrange(2, 90)) for _ in range(r.randrange(2, 12))))
def r_js(items, d):
    open(d + "/p.js", "w").write("let x = [1, 2, 3], m = new Map(), b; const p = v => console.log(String(v));\n" + ";\n".join(items) + "\n")
    return [["node", "p.js"]], ""
# tool -> generator, runner, weight
TOOLS = {"stl": (g_stl, r_stl, 10), "python3": (g_py, r_py, 6), "sqlite3": (g_sql, r_sql, 3), "gcc": (g_c, r_c, 3), "bash": (g_sh, r_sh, 6), "node": (g_js, r_js, 1)}

def build(cfg):
    import cases
    cases.build_dropin(cfg)
    d = vp.make_objs(cfg, tag="-so", prefix=False, target="so")
    exe = os.path.join(vp.outdir(), "stlprog-" + vp.engine_hash())
    with vp.locked(exe):
        if not os.path.exists(exe):
            vp._ok(vp.sh(["g++", "-std=c++17", "-O1", "-w", "-faligned-new", os.path.join(vp.ENGINE, "stlprog.cc"), "-o", exe + ".tmp", "-lpthread"]), "compiling stlprog")
            os.rename(exe + ".tmp", exe)
    return os.path.join(d, [f for f in os.listdir(d) if f.endswith(".so") and f.startswith("libhardened")][0]), exe

def execute(tool, items, so, exe, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        cmds, stdin = TOOLS[tool][1](items, d)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "TERM")}
        env.update(PYTHONHASHSEED="0", HOME=d, TMPDIR=d, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
        if so:
            env["LD_PRELOAD"] = so
        out = b""
        for c in cmds:
            p = subprocess.run([exe if x == "STL" else x for x in c], cwd=d, env=env, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            out += p.stdout + b"\nexit %d\n" % p.returncode
            if b"fatal allocator error" in p.stderr:
                out += p.stderr[-300:]
        return out
    except subprocess.TimeoutExpired:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def differs(tool, items, so, exe, scratch):
    """None, or a description of the difference"""
    if not items:
        return None
    a = execute(tool, items, None, exe, scratch)
    if a is None:
        return None
    b = execute(tool, items, so, exe, scratch)
    if b is None:
        return "did not end within 120 s"
    if a == b:
        return None
    a2 = execute(tool, items, None, exe, scratch)
    if a2 != a:
        return None # not deterministic
    la, lb = a.decode(errors="replace").splitlines(), b.decode(errors="replace").splitlines()
    i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    return "output line %d is %r, without the library %r" % (i + 1, (lb + [""])[min(i, len(lb))][:150], (la + [""])[min(i, len(la))][:150])

def shrink(tool, items, fails):
    import time
    end = time.time() + 40; n = 2
    while len(items) > 1 and time.time() < end:
        step = max(1, len(items) // n); done = True
        for i in range(0, len(items), step):
            c = items[:i] + items[i + step:]
            if c and fails(c):
                items, done = c, False; break
            if time.time() > end: break
        if done:
            if step == 1: break
            n *= 2
    return items

def run(ck):
    tools = [t for t in TOOLS if t == "stl" or shutil.which(t)]
    jobs = []
    per = 110 if not ck.thorough() else 4000
    for ci, cfg in enumerate(("default", "light")):
        for i in range(per):
            jobs.append((cfg, i, random.Random("%d-%d-%d" % (ck.seed, ci, i))))
    bins = {c: build(c) for c in ("default", "light")}
    stats = {}
    t1 = vp.time.time(); lim = 150 if not ck.thorough() else 2 * 3600
    def one(j):
        cfg, i, r = j
        if ck.violations or vp.time.time() - t1 > lim:
            return
        tool = r.choices(tools, [TOOLS[t][2] for t in tools])[0]
        items = TOOLS[tool][0](r); so, exe = bins[cfg]
        msg = differs(tool, items, so, exe, ck.scratch)
        key = "programs/%s/%s" % (tool, cfg); stats[key] = stats.get(key, 0) + 1
        ck.evals += 1
        ck.hashes.add((key, hashlib.sha1("\n".join(items).encode()).hexdigest()))
        if len(ck.samples) < 12 and i < 4: ck.samples.insert(0, "[%s] %d items: %s" % (key, len(items), items[0][:80]))
        if msg and differs(tool, items, so, exe, ck.scratch):
            items = shrink(tool, items, lambda c: differs(tool, c, so, exe, ck.scratch) is not None)
            rp = os.path.join(ck.replays, "C33-prog-%s-%s-%d.replay" % (tool, cfg, i))
            json.dump({"engine": "progs", "tool": tool, "config": cfg, "items": items, "msg": msg}, open(rp, "w"), indent=1)
            ck.violation("C33 [program %s %s]: %s; program: %s" % (tool, cfg, msg, " ;; ".join(items)[:300].replace("\n", "\\n")), rp)
    vp.pmap(one, jobs)
    ck.cov["programs"] = stats
    ck.rule += "; generated programs for installed interpreters, compilers and tools run with and without the library, all non-trivial"

def replay(path):
    d = json.load(open(path)); so, exe = build(d["config"]); t = tempfile.mkdtemp()
    try:
        m = differs(d["tool"], d["items"], so, exe, t)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    print(m or "no difference"); return 1 if m else 0
