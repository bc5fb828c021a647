"""Generated inputs against /repo's arm_mte.h itself: its functions are cross-compiled for AArch64 with clang and the
machine code is executed by an interpreter of the instructions involved, over a memory with a tag per 16-byte granule."""
import json, os, random, re, subprocess
import vp

SRC = """#include <stddef.h>
#include "%s/arm_mte.h"
void vp_tag_clear(void *p, size_t n) { arm_mte_tag_and_clear_mem(p, n); }
void *vp_irg(void *p, unsigned long m) { return arm_mte_create_random_tag(p, m); }
"""
M64 = (1 << 64) - 1
ADDR = (1 << 56) - 1

class Unsupported(Exception):
    pass
class Wrong(Exception):
    pass

def build():
    """disassembled functions: name -> [(address, mnemonic, operands)]"""
    d = os.path.join(vp.outdir(), "armmte")
    os.makedirs(d, exist_ok=True)
    c, o = os.path.join(d, "w.c"), os.path.join(d, "w.o")
    with vp.locked(o):
        open(c, "w").write(SRC % vp.REPO)
        r = vp.sh(["clang", "--target=aarch64-linux-gnu", "-ffreestanding", "-nostdlibinc", "-march=armv8.5-a+memtag", "-std=c17", "-O1", "-w", "-I", os.path.join(vp.REPO, "include"), "-I", vp.REPO, "-c", c, "-o", o])
        if r.returncode:
            raise Unsupported("cross-compilation failed: " + r.stdout[-300:])
        dump = vp.sh(["llvm-objdump-18" if os.path.exists("/usr/bin/llvm-objdump-18") else "llvm-objdump", "-d", "--no-show-raw-insn", "--mattr=+mte,+v8.5a", o])
        if dump.returncode:
            raise Unsupported("disassembly failed: " + dump.stdout[-300:])
    fns, cur = {}, None
    for l in dump.stdout.splitlines():
        m = re.match(r"[0-9a-f]+ <(\w+)>:", l)
        if m:
            cur = fns.setdefault(m.group(1), [])
            continue
        m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*?)\s*(//.*)?$", l)
        if m and cur is not None:
            ops = re.sub(r"<[^>]*>", "", m.group(3)).strip()
            cur.append((int(m.group(1), 16), m.group(2), split_ops(ops)))
    return fns

def split_ops(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += (ch == "[") - (ch == "]")
        if ch == "," and not depth:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

class Machine:
    def __init__(self, code, dczid, irg):
        self.code = code
        self.at = {a: i for i, (a, _, _) in enumerate(code)}
        self.r = {"x%d" % i: (0xdead0000 + i) for i in range(31)}
        self.r["sp"] = 0x7ff0000
        self.stack = {}
        self.flags = (0, 0, 0, 0)
        self.dczid, self.irg = dczid, irg
        self.writes = []      # (address, length, tag or None, zero)
        self.steps = 0
    def reg(self, n):
        if n in ("xzr", "wzr"): return 0
        if n == "lr": n = "x30"
        if n == "fp": n = "x29"
        if n == "wsp": return self.r["sp"] & 0xffffffff
        if n[0] == "w": return self.r["x" + n[1:]] & 0xffffffff
        if n not in self.r: raise Unsupported("register " + n)
        return self.r[n]
    def set(self, n, v):
        if n in ("xzr", "wzr"): return
        if n == "lr": n = "x30"
        if n == "fp": n = "x29"
        if n[0] == "w": self.r["x" + n[1:]] = v & 0xffffffff
        else:
            if n not in self.r: raise Unsupported("register " + n)
            self.r[n] = v & M64
    def width(self, n):
        return 32 if n[0] == "w" else 64
    def imm(self, s):
        return int(s.lstrip("#"), 0)
    def operand(self, ops, w):
        """last operand, with an optional shift or extension"""
        v = self.imm(ops[0]) if ops[0].startswith("#") else self.reg(ops[0])
        if len(ops) > 1:
            m = re.fullmatch(r"(lsl|lsr|asr|uxtw|uxtx|sxtw)(?: #(\w+))?", ops[1])
            if not m: raise Unsupported(" ".join(ops))
            k = int(m.group(2) or "0", 0)
            if m.group(1) in ("lsl", "uxtx"): v <<= k
            elif m.group(1) == "uxtw": v = (v & 0xffffffff) << k
            elif m.group(1) == "lsr": v >>= k
            elif m.group(1) == "sxtw": v = ((v & 0xffffffff) - ((v & 0x80000000) << 1)) << k
            else: v = (v - ((v >> (w - 1)) << w)) >> k
        return v & ((1 << w) - 1)
    def addsub(self, a, b, w, sub):
        mask = (1 << w) - 1
        t = a + ((~b & mask) + 1 if sub else b)
        res = t & mask
        n = res >> (w - 1)
        sa, sb = a >> (w - 1), (b >> (w - 1)) ^ (1 if sub else 0)
        if sub: c = int(a >= b); v = int((a >> (w - 1)) != (b >> (w - 1)) and n != (a >> (w - 1)))
        else: c = int(t >> w != 0); v = int(sa == sb and n != sa)
        return res, (n, int(res == 0), c, v)
    def cond(self, c):
        n, z, cf, v = self.flags
        t = dict(eq=z, ne=not z, hs=cf, cs=cf, lo=not cf, cc=not cf, mi=n, pl=not n, vs=v, vc=not v, hi=cf and not z, ls=not cf or z, ge=n == v, lt=n != v, gt=not z and n == v, le=z or n != v, al=1)
        if c not in t: raise Unsupported("condition " + c)
        return bool(t[c])
    def mem(self, ops):
        """address of a memory operand, with pre/post indexing applied"""
        m = re.fullmatch(r"\[(\w+)(?:,\s*#(-?\w+))?\](!?)", ops[0])
        if not m: raise Unsupported("addressing " + " ".join(ops))
        base = self.reg(m.group(1)); off = int(m.group(2) or "0", 0)
        if len(ops) > 1:
            self.set(m.group(1), base + self.imm(ops[1])); return base
        if m.group(3): self.set(m.group(1), base + off)
        return (base + off) & M64
    def tagstore(self, a, n, tag, zero):
        if (a & ADDR) % 16: raise Wrong("tag store to the unaligned address %#x" % a)
        self.writes.append((a & ADDR, n, tag, zero))
    def run(self):
        i = 0
        while True:
            self.steps += 1
            if self.steps > 60000: raise Wrong("the function does not terminate")
            if not 0 <= i < len(self.code): raise Wrong("execution left the function")
            a, op, o = self.code[i]
            i += 1
            j = None
            if op == "ret": return
            if op in ("nop", "hint", "bti", "paciasp", "autiasp", "dsb", "isb", "dmb"): continue
            if op in ("add", "sub", "adds", "subs"):
                w = self.width(o[0])
                res, f = self.addsub(self.reg(o[1]) & ((1 << w) - 1), self.operand(o[2:], w), w, op[:3] == "sub")
                self.set(o[0], res)
                if op[-1] == "s": self.flags = f
            elif op in ("cmp", "cmn"):
                w = self.width(o[0])
                self.flags = self.addsub(self.reg(o[0]), self.operand(o[1:], w), w, op == "cmp")[1]
            elif op in ("and", "orr", "eor", "bic", "orn", "eon", "ands", "bics"):
                w = self.width(o[0]); b = self.operand(o[2:], w); x = self.reg(o[1]); mask = (1 << w) - 1
                if op[:3] in ("bic", "orn", "eon"): b = ~b & mask
                res = x & b if op[:3] in ("and", "bic") else x | b if op[:3] == "orr" or op == "orn" else x ^ b
                self.set(o[0], res)
                if op[-1] == "s": self.flags = (res >> (w - 1), int(res == 0), 0, 0)
            elif op == "tst":
                w = self.width(o[0]); res = self.reg(o[0]) & self.operand(o[1:], w)
                self.flags = (res >> (w - 1), int(res == 0), 0, 0)
            elif op in ("mov", "movz", "mvn", "neg"):
                w = self.width(o[0]); v = self.operand(o[1:], w)
                self.set(o[0], v if op[:3] == "mov" else (~v if op == "mvn" else -v) & ((1 << w) - 1))
            elif op == "movk":
                sh = int(o[2].split("#")[1], 0) if len(o) > 2 else 0
                self.set(o[0], self.reg(o[0]) & ~(0xffff << sh) | self.imm(o[1]) << sh)
            elif op in ("lsl", "lsr", "asr"):
                w = self.width(o[0]); x = self.reg(o[1]); k = self.operand(o[2:], w) % w
                self.set(o[0], x << k if op == "lsl" else x >> k if op == "lsr" else (x - ((x >> (w - 1)) << w)) >> k)
            elif op == "ubfx":
                self.set(o[0], self.reg(o[1]) >> self.imm(o[2]) & (1 << self.imm(o[3])) - 1)
            elif op == "csel":
                self.set(o[0], self.reg(o[1] if self.cond(o[3]) else o[2]))
            elif op == "cset":
                self.set(o[0], int(self.cond(o[1])))
            elif op == "mrs":
                if o[1].upper() != "DCZID_EL0": raise Unsupported("mrs " + o[1])
                self.set(o[0], self.dczid)
            elif op == "b": j = int(o[0], 16)
            elif op.startswith("b."):
                if self.cond(op[2:]): j = int(o[0], 16)
            elif op in ("cbz", "cbnz"):
                if (self.reg(o[0]) == 0) == (op == "cbz"): j = int(o[1], 16)
            elif op in ("tbz", "tbnz"):
                if (self.reg(o[0]) >> self.imm(o[1]) & 1) == (op == "tbnz"): j = int(o[2], 16)
            elif op in ("stzg", "stg", "stz2g", "st2g"):
                src = self.reg(o[0])
                self.tagstore(self.mem(o[1:]), 32 if "2" in op else 16, src >> 56 & 15, "z" in op)
            elif op == "dc":
                kind = o[0].lower(); line = 4 << (self.dczid & 15); x = self.reg(o[1])
                if kind not in ("gzva", "gva", "zva"): raise Unsupported("dc " + kind)
                if self.dczid & 16: raise Wrong("DC %s is used although DCZID_EL0.DZP prohibits it" % kind.upper())
                self.writes.append((x & ADDR & ~(line - 1), line, x >> 56 & 15 if kind[0] == "g" else None, kind != "gva"))
            elif op in ("str", "ldr", "stur", "ldur"):
                ad = self.mem(o[1:])
                if not self.onstack(ad): raise Unsupported("plain memory access")
                if op[0] == "s": self.stack[ad] = self.reg(o[0])
                else: self.set(o[0], self.stack.get(ad, 0))
            elif op in ("stp", "ldp"):
                ad = self.mem(o[2:]); k = self.width(o[0]) // 8
                if not self.onstack(ad): raise Unsupported("plain memory access")
                for q in (0, 1):
                    if op[0] == "s": self.stack[ad + k * q] = self.reg(o[q])
                    else: self.set(o[q], self.stack.get(ad + k * q, 0))
            elif op == "irg":
                self.set(o[0], self.irg(self.reg(o[1]), self.reg(o[2]) if len(o) > 2 else 0))
            else:
                raise Unsupported("instruction %s %s" % (op, ", ".join(o)))
            if j is not None:
                if j not in self.at: raise Unsupported("branch out of the function")
                i = self.at[j]
    def onstack(self, a):
        return 0x7fe0000 <= a < 0x8000000

def clear_case(code, c):
    """None if the generated call tags and zeroes exactly its range, else what went wrong"""
    base, n, tag, dczid = c["base"], c["len"], c["tag"], c["dczid"]
    m = Machine(code, dczid, None)
    m.r["x0"], m.r["x1"] = tag << 56 | base, n
    try:
        m.run()
    except Wrong as e:
        return str(e)
    state = {}
    for a, l, t, z in m.writes:
        for g in range(a, a + l, 16):
            old = state.get(g, (None, False))
            state[g] = (t if t is not None else old[0], z or old[1])
    for g in sorted(state):
        if not base <= g < base + n:
            return "the granule at offset %d of a %d-byte range is changed" % (g - base, n)
    for g in range(base, base + n, 16):
        t, z = state.get(g, (None, False))
        if t != tag: return "offset %d of %d bytes has tag %s, the pointer's is %d" % (g - base, n, t, tag)
        if not z: return "offset %d of %d bytes is not zeroed" % (g - base, n)
    return None

def irg_case(code, c):
    free = [t for t in range(16) if not c["mask"] >> t & 1]
    seen = []
    def irg(p, x):
        seen.append(x)
        ok = [t for t in range(16) if not x >> t & 1]
        bad = [t for t in ok if t not in free]
        # an allowed tag that should have been excluded is taken at once; the documented result without candidates is tag 0
        t = (bad or ok or [0])[c["pick"] % len(bad or ok or [0])]
        return p & ~(15 << 56) & M64 | t << 56
    m = Machine(code, 4, irg)
    m.r["x0"], m.r["x1"] = c["ptr"], c["mask"]
    try:
        m.run()
    except Wrong as e:
        return str(e)
    if not seen: return "no random tag was created"
    res = m.r["x0"]
    if res & ADDR != c["ptr"] & ADDR: return "the address changed from %#x to %#x" % (c["ptr"], res)
    if free and c["mask"] >> (res >> 56 & 15) & 1: return "tag %d is in the exclusion mask %#x" % (res >> 56 & 15, c["mask"])
    if seen and any((s ^ c["mask"]) & 0xffff for s in seen): return "tags are drawn with exclusion mask %#x instead of %#x" % (seen[-1], c["mask"])
    return None

def gen(r):
    if r.random() < .15:
        return dict(fn="irg", ptr=r.randrange(16) << 56 | r.randrange(1, 1 << 44) << 4, mask=r.choice([1, 1 | 1 << r.randrange(16), r.getrandbits(16) | 1]), pick=r.randrange(16))
    bs = r.choice([2, 3, 4, 4, 4, 5, 6, 7, 9])
    line = 4 << bs
    near = line * r.choice([1, 1, 2, 2, 2, 3, 4, 8]) + 16 * r.randrange(-3, 4)
    n = max(16, r.choice([near, near, 16 * r.randrange(1, 12), 16 * r.randrange(1, 300)]))
    base = 0x10000000 + line * r.randrange(64) + 16 * r.choice([0, 0, 1, r.randrange(max(1, line // 16)), max(0, line // 16 - 1)])
    return dict(fn="clear", base=base, len=n, tag=r.randrange(16), dczid=bs | (16 if r.random() < .15 else 0))

def evaluate(fns, c):
    return clear_case(fns["vp_tag_clear"], c) if c["fn"] == "clear" else irg_case(fns["vp_irg"], c)

def shrink(fns, c):
    best = c
    for _ in range(3):
        for k, vals in (("len", range(16, best.get("len", 16), 16)), ("base", [0x10000000, 0x10000010]), ("tag", [1]), ("mask", [1, 3]), ("dczid", [4])):
            if k in best:
                for v in vals:
                    t = dict(best, **{k: v})
                    if t != best and evaluate(fns, t):
                        best = t; break
    return best

def run(ck):
    n = 200000 if ck.thorough() else 6000
    cov = dict(cases=0, line_clears=0)
    try:
        fns = build()
        if not {"vp_tag_clear", "vp_irg"} <= set(fns): raise Unsupported("functions not found")
        r = random.Random(ck.seed)
        for _ in range(n):
            c = gen(r)
            msg = evaluate(fns, c)
            cov["cases"] += 1
            if c["fn"] == "clear" and c["len"] >= 8 << (c["dczid"] & 15): cov["line_clears"] += 1
            if msg:
                c = shrink(fns, c); msg = evaluate(fns, c)
                rp = os.path.join(ck.replays, ck.prop + "-armmte.json")
                json.dump(dict(engine="armmte", property=ck.prop, case=c), open(rp, "w"))
                ck.violation("%s [arm_mte.h]: %s" % (ck.prop, msg), rp)
                break
    except Unsupported as e:
        cov["inconclusive"] = str(e)
    ck.evals += cov["cases"]
    ck.nontrivial_extra += cov["line_clears"]
    ck.cov["arm_mte_header"] = cov

def replay(path):
    c = json.load(open(path))["case"]
    msg = evaluate(build(), c)
    print(msg or "ok")
    return 1 if msg else 0
