// C25: the random generator against a reference ChaCha8 and exact counting.
#include "caselib.h"
#include <string.h>
extern "C" {
#define _Static_assert static_assert
#include "random.h"
}
extern "C" void __real_chacha_keystream_bytes(chacha_ctx *, u8 *, u32);
const char *engine_name = "rng";
std::vector<const char *> count_names = {"stream_draws", "stream_bytes", "reseeds", "os_short_reads", "os_interrupts", "os_failures", "bounds16_exhaustive", "draws16", "bounds64", "preimages64", "counter_wraps", "child_states"};
enum { N_DRAW, N_BYTES, N_RESEED, N_SHORT, N_INTR, N_FAIL, N_B16, N_D16, N_B64, N_P64, N_WRAP, N_CHILD };

// ---- scripted keystream
static bool scripted; static u8 script[8192]; static size_t script_pos;
extern "C" void __wrap_chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 n) {
    if (!scripted) { __real_chacha_keystream_bytes(x, c, n); return; }
    for (u32 i = 0; i < n; i++) c[i] = script[(script_pos++) % sizeof script];
}
// ---- reference (written from the ChaCha specification, 8 rounds, 64-bit counter and nonce)
struct Ref {
    u8 key[32], iv[8]; u64 ctr = 0;
    static u32 le(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
    static u32 rot(u32 v, int n) { return v << n | v >> (32 - n); }
    void block(u8 *out) {
        static const char *k = "expand 32-byte k"; u32 s[16], w[16];
        for (int i = 0; i < 4; i++) s[i] = le((const u8 *)k + 4 * i);
        for (int i = 0; i < 8; i++) s[4 + i] = le(key + 4 * i);
        s[12] = (u32)ctr; s[13] = ctr >> 32; s[14] = le(iv); s[15] = le(iv + 4); memcpy(w, s, sizeof s);
        static const int q[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
        for (int r = 0; r < 4; r++) for (auto &z : q) { u32 &a = w[z[0]], &b = w[z[1]], &c = w[z[2]], &d = w[z[3]]; a += b; d = rot(d ^ a, 16); c += d; b = rot(b ^ c, 12); a += b; d = rot(d ^ a, 8); c += d; b = rot(b ^ c, 7); }
        for (int i = 0; i < 16; i++) { u32 v = w[i] + s[i]; out[4 * i] = v; out[4 * i + 1] = v >> 8; out[4 * i + 2] = v >> 16; out[4 * i + 3] = v >> 24; }
        ctr++;
    }
    void bytes(u8 *o, size_t n) { u8 b[64]; while (n) { block(b); size_t k = n < 64 ? n : 64; memcpy(o, b, k); o += k; n -= k; } }
    void seed(const u8 *s) { memcpy(key, s, 32); memcpy(iv, s + 32, 8); ctr = 0; }
};
// ---- model of the operating system's stream
static u64 os_seed; static u8 os_byte(u64 i) { return (u8)(mix(os_seed, i) >> 13); }
static u64 os_model;                        // bytes of the OS stream the model consumed
static Ch *gch; static int shorts, intrs; static u64 os_calls_fail_at, os_calls; static int fail_kind; static bool failed;
extern "C" ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags) {
    static u64 os_real = 0;
    if (flags) fail("getrandom called with flags %u", flags);
    os_calls++;
    if (os_calls_fail_at && os_calls >= os_calls_fail_at) { failed = true; CS_->expect = EXP_FATAL; CS_->terminal = 1; count(N_FAIL); static const int e[] = {38, 14, 11, 5, 22, 1}; if (fail_kind == 6) return 0; errno = e[fail_kind]; return -1; }
    if (intrs && gch->below(3) == 1) { intrs--; count(N_INTR); errno = EINTR; return -1; }
    size_t give = n; if (shorts && n > 1 && gch->below(2)) { shorts--; give = gch->range(1, n - 1); count(N_SHORT); }
    for (size_t i = 0; i < give; i++) ((u8 *)buf)[i] = os_byte(os_real++);
    return give;
}
struct Model { // the documented buffering: 256-byte cache, direct output for large requests, reseed after 256 KiB of cache
    Ref ref; u8 cache[256]; unsigned idx = 256; u64 gen = 0; u64 since = 0; u64 seen_calls = 0;
    void init_os() { u8 s[40]; for (int i = 0; i < 40; i++) s[i] = os_byte(os_model++); ref.seed(s); idx = 256; gen = 0; count(N_RESEED); }
    void refill() { if (gen >= 262144) { init_os(); since = 0; } ref.bytes(cache, 256); idx = 0; gen += 256; }
    void bytes(u8 *o, size_t n) { if (n > 128) { ref.bytes(o, n); return; } while (n) { if (idx == 256) refill(); size_t k = std::min<size_t>(n, 256 - idx); memcpy(o, cache + idx, k); idx += k; o += k; n -= k; } }
    void item(u8 *o, size_t n) { if (256 - idx < n) refill(); memcpy(o, cache + idx, n); idx += n; }
};
static void chk(const void *a, const void *b, size_t n, const char *what, u64 draw) {
    for (size_t i = 0; i < n; i++) if (((u8 *)a)[i] != ((u8 *)b)[i]) fail("%s, draw %lu: byte %zu of %zu differs from the ChaCha8 keystream of the OS seed", what, draw, i, n);
}
static void stream_case(Ch &c) {
    os_seed = c.below(1ull << 62); shorts = c.chance(50) ? c.below(60) : 0; intrs = c.chance(50) ? c.below(40) : 0;
    if (c.chance(15)) { os_calls_fail_at = c.range(1, 12); fail_kind = c.below(7); }
    static random_state st[3]; Model m[3]; memset(st, 0xa5, sizeof st);
    random_state_init(&st[0]); if (failed) fail("seeding continued although the system provided no randomness (kind %d)", fail_kind);
    m[0].init_os(); int n = 1;
    u64 draws = c.chance(10) ? c.range(1, 40) : c.range(20, 900); u64 total = 0; int style = c.below(5);
    static u8 got[70000], want[70000];
    for (u64 d = 0; d < draws; d++) {
        int k = n > 1 ? c.below(n) : 0; u64 w = c.below(style == 3 ? 20 : 10); u64 calls0 = os_calls;
        if (w < 2 || w >= 10) { // bytes
            u64 len; switch (c.below(6)) { case 0: len = c.below(9); break; case 1: len = c.range(60, 70); break; case 2: len = c.range(120, 136); break; case 3: len = c.range(250, 260); break; case 4: len = c.below(2000); break; default: len = style == 3 ? c.range(100, 128) : c.below(60000); }
            if (style == 3) len = c.range(90, 128); // fast progress towards a reseed
            u64 rep = style == 3 ? 40 : 1;
            for (u64 q = 0; q < rep; q++) { get_random_bytes(&st[k], got, len); if (failed) break; m[k].bytes(want, len); chk(got, want, len, "get_random_bytes", d); total += len; if (len <= 128) m[k].since += len; count(N_BYTES, len); }
        } else if (w < 5) { u16 v = get_random_u16(&st[k]); if (!failed) { u16 x; m[k].item((u8 *)&x, 2); chk(&v, &x, 2, "get_random_u16", d); m[k].since += 2; } }
        else if (w < 8) { u64 v = get_random_u64(&st[k]); if (!failed) { u64 x; m[k].item((u8 *)&x, 8); chk(&v, &x, 8, "get_random_u64", d); m[k].since += 8; } }
        else if (w == 8 && n < 3) { random_state_init_from_random_state(&st[n], &st[k]); if (!failed) { u8 s[40]; m[k].bytes(s, 40); m[n] = Model(); m[n].ref.seed(s); n++; count(N_CHILD); } }
        else { u64 v = get_random_u64(&st[k]); if (!failed) { u64 x; m[k].item((u8 *)&x, 8); chk(&v, &x, 8, "get_random_u64", d); m[k].since += 8; } }
        if (failed) fail("the generator continued although the system provided no randomness (kind %d)", fail_kind);
        if (m[k].since > 262144 + 256) fail("%lu bytes of cached output without reseeding", m[k].since);
        count(N_DRAW);
    }
    note("stream: seed %lu, %lu draws, %lu bytes, %lu OS calls, style %d", os_seed, draws, total, os_calls, style);
    if (draws > 5) nontrivial();
}
static void reseed_case(Ch &c) { // long runs of small draws: at least two reseeds
    os_seed = c.below(1ull << 62); shorts = c.below(4); intrs = c.below(4);
    if (c.chance(25)) { os_calls_fail_at = c.range(6, 9); fail_kind = c.below(7); }
    static random_state st; Model m; random_state_init(&st); if (failed) fail("seeding continued without randomness"); m.init_os();
    bool derived = c.chance(50); static random_state s2; if (derived) { random_state_init_from_random_state(&s2, &st); u8 s[40]; m.bytes(s, 40); m = Model(); m.ref.seed(s); st = s2; }
    u64 target = c.range(270000, 620000); u64 total = 0, d = 0; u8 g[128], w[128]; u64 mixk = c.below(3);
    Rng r(c.below(1ull << 40));
    while (total < target) {
        u64 len; bool item = false;
        if (mixk == 0) len = 8, item = true; else if (mixk == 1) len = r.range(1, 128); else { item = r.chance(50); len = item ? (r.chance(50) ? 2 : 8) : r.range(1, 128); }
        if (item) { u64 v; if (len == 2) { u16 q = get_random_u16(&st); memcpy(g, &q, 2); } else { v = get_random_u64(&st); memcpy(g, &v, 8); } } else get_random_bytes(&st, g, len);
        if (failed) fail("the generator continued although reseeding failed (kind %d)", fail_kind);
        if (item) m.item(w, len); else m.bytes(w, len);
        chk(g, w, len, "long run", d); total += len; m.since += len; d++;
        if (m.since > 262144 + 256) fail("%lu bytes of cached output without reseeding", m.since);
        count(N_DRAW); count(N_BYTES, len);
    }
    note("long run: seed %lu, %lu bytes in %lu draws, derived %d", os_seed, total, d, derived); nontrivial();
}
static void keystream_case(Ch &c) { // the cipher itself, any length, any block counter
    chacha_ctx x; Ref r; u8 k[40]; for (auto &b : k) b = c.below(256);
    chacha_keysetup(&x, k); chacha_ivsetup(&x, k + 32); r.seed(k);
    static u8 a[20000], b[20000]; int n = c.range(1, 12);
    u64 ctr = 0;
    if (c.chance(50)) { u64 w = c.below(3); ctr = w == 0 ? 0xffffffffull - c.below(20) : w == 1 ? (c.below(1 << 30) << 32) + 0xffffffffull - c.below(20) : c.below(1ull << 58); x.input[12] = (u32)ctr; x.input[13] = ctr >> 32; r.ctr = ctr; count(N_WRAP); }
    for (int i = 0; i < n; i++) { u64 len = c.chance(50) ? c.below(200) : c.chance(50) ? 64 * c.below(20) : c.below(20000); memset(a, 0, len + 1); __real_chacha_keystream_bytes(&x, a, len); r.bytes(b, len); chk(a, b, len, "chacha_keystream_bytes", i); if (a[len]) fail("keystream wrote beyond its buffer"); count(N_BYTES, len); }
    note("keystream: counter %lx, %d calls", ctr, n); nontrivial();
}
// consumption count of a bounded draw is recognised by what the following draw returns
static void bound16(unsigned b) {
    static u32 cnt[65536]; memset(cnt, 0, sizeof cnt); random_state st; u64 acc = 0;
    for (int k = 0; k < 4096; k++) { u16 v = (u16)(mix(0x35c1, k) >> 7); memcpy(script + 2 * k, &v, 2); }
    u16 v1; memcpy(&v1, script + 2, 2);
    for (u32 x = 0; x < 65536; x++) {
        os_calls = 0; random_state_init(&st); scripted = true; script_pos = 0; script[0] = x; script[1] = x >> 8;
        u16 r = get_random_u16_uniform(&st, b); u16 nx = get_random_u16(&st); scripted = false; count(N_D16);
        if (r >= b) fail("get_random_u16_uniform(%u) returned %u", b, r);
        if (nx == v1) { cnt[r]++; acc++; }
    }
    if (acc < 32768) fail("get_random_u16_uniform(%u) accepts only %lu of 65536 values", b, acc);
    for (u32 r = 1; r < b; r++) if (cnt[r] != cnt[0]) fail("get_random_u16_uniform(%u): result 0 is produced by %u of the accepted 16-bit values, result %u by %u", b, cnt[0], r, cnt[r]);
    count(N_B16);
}
static bool draw64(u64 b, u64 x, u64 *r) { // true when accepted at the first draw
    random_state st; random_state_init(&st);
    for (int k = 0; k < 1024; k++) { u64 v = mix(0x77, k); memcpy(script + 8 * k, &v, 8); } 
    u64 v1; memcpy(&v1, script + 8, 8); memcpy(script, &x, 8); scripted = true; script_pos = 0;
    *r = get_random_u64_uniform(&st, b); u64 nx = get_random_u64(&st); scripted = false; count(N_P64);
    if (*r >= b) fail("get_random_u64_uniform(%lu) returned %lu", b, *r);
    return nx == v1;
}
static void bound64(Ch &c, u64 b) {
    typedef unsigned __int128 w128; u64 first = 0; bool have = false;
    for (int k = 0; k < 5; k++) {
        u64 r = k == 0 ? 0 : k == 1 ? b - 1 : k == 2 ? b / 2 : c.below(b); u64 o;
        // any x in [ceil(r 2^64 / b), ceil((r+1) 2^64 / b)) maps to r under a multiply-shift reduction
        w128 lo = (((w128)r << 64) + b - 1) / b, hi = (((w128)(r + 1) << 64) + b - 1) / b; if (lo >= hi) continue;
        auto in = [&](w128 x) { u64 v; bool a = draw64(b, (u64)x, &v); return a && v == r; };
        w128 x0 = lo + (hi - lo) / 2, s = 0; bool f = false; w128 cand[] = {x0, hi - 1, lo, lo + 1}; for (w128 q : cand) if (q >= lo && q < hi && in(q)) { s = q; f = true; break; }
        if (!f) { if (hi - lo > 8) { note("(other reduction) "); return; } continue; }
        w128 a = s, z = s; // lowest and highest accepted
        { w128 l = lo, h = s; while (l < h) { w128 m = l + (h - l) / 2; if (in(m)) h = m; else l = m + 1; } a = h; }
        { w128 l = s, h = hi - 1; while (l < h) { w128 m = l + (h - l + 1) / 2; if (in(m)) l = m; else h = m - 1; } z = l; }
        if (a > 0 && a == lo && in(a - 1)) fail("u64 uniform: preimage of %lu extends below its interval", r);
        u64 n = (u64)(z - a) + 1; if (!have) { first = n; have = true; } else if (n != first) fail("get_random_u64_uniform(%lu): result %lu has %lu accepted preimages, another has %lu", b, r, n, first);
        (void)o;
    }
    count(N_B64);
}
void run_one(Ch &c) {
    gch = &c;
    u64 w = c.below(100);
    if (arg_mode.compare(0, 5, "exact") == 0) { // exhaustive over a slice of all 16-bit bounds
        u64 base = c.below(65535); bound16(base + 1); note("bound %lu, all 65536 draws", base + 1); nontrivial(); return; }
    if (w < 30) stream_case(c); else if (w < 42) reseed_case(c); else if (w < 65) keystream_case(c);
    else if (w < 85) { u64 k = c.below(4); unsigned b = k == 0 ? c.range(1, 300) : k == 1 ? (1u << c.below(16)) + c.below(3) - (c.below(2)) : k == 2 ? 65535 - c.below(300) : c.range(1, 65535); if (b < 1) b = 1; if (b > 65535) b = 65535; os_seed = 1; bound16(b); note("bound %u, all 65536 draws", b); nontrivial(); }
    else { os_seed = 1; int n = 0; for (int i = 0; i < 12; i++) { u64 b; switch (c.below(6)) { case 0: b = c.range(1, 1000); break; case 1: b = (1ull << c.below(64)) + c.below(5); break; case 2: b = ~0ull - c.below(1000); break; case 3: b = (1ull << 63) + c.below(1ull << 62); break; case 4: b = 3ull << c.below(62); break; default: b = c.below(1ull << c.range(2, 62)) + 1; } if (!b) b = 1; bound64(c, b); n++; note("%lu ", b); } note(": %d 64-bit bounds, preimage counts by bisection", n); nontrivial(); }
}
