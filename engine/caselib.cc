#include "caselib.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>

CaseShared *CS_;
int case_timeout = 60; bool thorough_; std::string arg_mode;
__attribute__((weak)) char *shim_fatal_buf; __attribute__((weak)) size_t shim_fatal_cap; __attribute__((weak)) volatile int *shim_aborted;
__attribute__((weak)) void engine_init() {}

u64 Ch::below(u64 n) {
    u64 x;
    if (replay) { x = i < in.size() ? in[i] : 0; if (n && x >= n) x %= n; if (!n) x = 0; }
    else x = r.below(n);
    if (i < sizeof CS_->ch / sizeof *CS_->ch) { CS_->ch[i] = x; CS_->nch = i + 1; }
    i++; return x;
}
void fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(CS_->msg, sizeof CS_->msg, fmt, ap); va_end(ap); CS_->state = 2; _exit(2); }
void note(const char *fmt, ...) { size_t l = strlen(CS_->sample); va_list ap; va_start(ap, fmt); vsnprintf(CS_->sample + l, sizeof CS_->sample - l, fmt, ap); va_end(ap); }
void giveup() { CS_->inconclusive = 1; _exit(0); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Res { int verdict; std::string msg; }; // 0 ok, 1 violation, 2 inconclusive
static Res exec_case(Ch c) {
    memset((void *)CS_, 0, offsetof(CaseShared, ch));
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl = {(rlim_t)case_timeout * 2, (rlim_t)case_timeout * 2 + 5}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        setpgid(0, 0);
        signal(SIGALRM, SIG_DFL); alarm(case_timeout);
        if (&shim_fatal_buf) { shim_fatal_buf = CS_->fatal; shim_fatal_cap = sizeof CS_->fatal; shim_aborted = &CS_->aborted; }
        run_one(c); CS_->state = 1; _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    kill(-pid, SIGKILL);
    Res r{0, ""};
    if (CS_->state == 2) { r.verdict = 1; r.msg = CS_->msg; return r; }
    if (CS_->inconclusive) { r.verdict = 2; return r; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && CS_->state == 1) return r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && CS_->aborted) {
        bool msgok = strncmp(CS_->fatal, "fatal allocator error: ", 23) == 0;
        if (CS_->expect != EXP_NONE && msgok) return r;
        r.verdict = 1; r.msg = std::string(CS_->expect != EXP_NONE ? "abort without a fatal allocator error message: " : "unexpected abort: ") + CS_->fatal;
        while (!r.msg.empty() && r.msg.back() == '\n') r.msg.pop_back(); return r;
    }
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGKILL) { r.verdict = 2; r.msg = "killed"; return r; }
        if (s == SIGALRM || s == SIGXCPU) { r.verdict = 1; r.msg = "no progress: the case did not end"; return r; }
        if (CS_->expect == EXP_ANYDEATH) return r;
        r.verdict = 1; r.msg = std::string(CS_->expect == EXP_FATAL ? "crash instead of a fatal allocator error: " : "crash: ") + strsignal(s); return r;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { r.verdict = 1; r.msg = CS_->msg[0] ? CS_->msg : "sanitizer report"; return r; }
    r.verdict = 2; r.msg = "exit status " + std::to_string(st); return r;
}
static std::string sig(const std::string &m) { std::string o; for (size_t i = 0; i < m.size(); i++) { if (m[i] == '0' && i + 1 < m.size() && m[i + 1] == 'x') { i += 2; while (i < m.size() && isxdigit((unsigned char)m[i])) i++; i--; continue; } if (!isdigit((unsigned char)m[i])) o += m[i]; } return o; }
static Ch from(const std::vector<u64> &v) { Ch c; c.in = v; c.replay = true; return c; }
static std::vector<u64> shrink(std::vector<u64> v, Res &res) {
    double end = now() + 25; std::string want = sig(res.msg);
    auto fails = [&](const std::vector<u64> &c) { Res r = exec_case(from(c)); if (r.verdict == 1 && sig(r.msg) == want) { res = r; return true; } return false; };
    for (bool red = true; red && now() < end;) {
        red = false;
        for (size_t len = v.size() / 2; len >= 1 && now() < end; len /= 2)
            for (size_t i = 0; i + len <= v.size() && now() < end;) {
                std::vector<u64> c(v.begin(), v.begin() + i); c.insert(c.end(), v.begin() + i + len, v.end());
                if (fails(c)) { v = c; red = true; } else i += len;
            }
        for (size_t i = 0; i < v.size() && now() < end; i++) {
            if (!v[i]) continue;
            std::vector<u64> c = v; c[i] = 0; if (fails(c)) { v = c; red = true; continue; }
            for (int it = 0; it < 12 && v[i] && now() < end; it++) { c = v; c[i] /= 2; if (fails(c)) { v = c; red = true; } else break; }
            if (v[i] && v[i] < 64) { c = v; c[i]--; if (fails(c)) { v = c; red = true; } }
        }
    }
    return v;
}
int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("VP_PERS")) { setenv("VP_PERS", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    std::string prop, replay, out, cfgname = CFG.name; u64 seed = 1, cases = 100, start = 0, stride = 1; double budget = 1e9; int confirm = 3;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--cases") cases = strtoull(v().c_str(), 0, 10);
        else if (a == "--start") start = strtoull(v().c_str(), 0, 10); else if (a == "--stride") stride = strtoull(v().c_str(), 0, 10); else if (a == "--replay") replay = v();
        else if (a == "--out") out = v(); else if (a == "--thorough") thorough_ = true; else if (a == "--budget") budget = atof(v().c_str()); else if (a == "--mode") arg_mode = v(); else if (a == "--confirm") confirm = atoi(v().c_str());
    }
    CS_ = (CaseShared *)mmap(nullptr, sizeof(CaseShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    engine_init();
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 3; }
        static char line[1 << 20]; std::vector<u64> v;
        while (fgets(line, sizeof line, f)) { if (strncmp(line, "choices", 7) == 0) { char *p = line + 7; for (;;) { char *e; u64 x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } } else if (strncmp(line, "mode ", 5) == 0) { arg_mode = line + 5; while (!arg_mode.empty() && arg_mode.back() == '\n') arg_mode.pop_back(); } }
        fclose(f); Res r = exec_case(from(v)); printf("%d %s | %s\n", r.verdict, r.msg.c_str(), CS_->sample); return r.verdict;
    }
    u64 ran = 0, nt = 0, inc = 0; u64 tot[48] = {0}; std::vector<u64> hashes; std::vector<std::string> samples; int rc = 0; std::string vmsg; double t0 = now(); std::string rtext;
    for (u64 i = start; i < start + cases * stride && !rc; i += stride) {
        if (now() - t0 > budget) break;
        Ch c; c.r = Rng(mix(mix(seed, i), 0xca5e));
        Res r = exec_case(c); ran++;
        if (r.verdict == 2) { inc++; continue; }
        u64 h = 7; for (u32 k = 0; k < CS_->nch; k++) h = mix(h, CS_->ch[k]);
        for (int k = 0; k < 48; k++) tot[k] += CS_->cnt[k];
        if (CS_->nontrivial) { nt++; hashes.push_back(h); if (samples.size() < 2 && CS_->sample[0]) samples.push_back(CS_->sample); }
        if (r.verdict == 1) {
            bool hang = r.msg.compare(0, 11, "no progress") == 0; // confirmed once, not shrunk
            std::vector<u64> v(CS_->ch, CS_->ch + CS_->nch); int again = 0; if (hang) confirm = 1; for (int k = 0; k < confirm; k++) { Res q = exec_case(from(v)); if (q.verdict == 1) again++; }
            if (again < confirm) { inc++; continue; }
            if (!hang) v = shrink(v, r); rc = 1; vmsg = r.msg;
            if (!hang) exec_case(from(v));
            rtext = "# replay: python3 check.py " + prop + " --replay <this file>\nengine " + engine_name + "\nproperty " + prop + "\nconfig " + cfgname + "\nmode " + arg_mode + "\n# " + vmsg + "\n# case: " + CS_->sample + "\nchoices";
            for (u64 x : v) rtext += " " + std::to_string(x); rtext += "\n";
            if (!out.empty()) { FILE *f = fopen((out + ".replay").c_str(), "w"); fputs(rtext.c_str(), f); fclose(f); }
        }
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    auto esc = [&](const std::string &s) { for (char ch : s) { if (ch == '"' || ch == '\\') fputc('\\', f); if (ch == '\n') { fputs("\\n", f); continue; } if ((unsigned char)ch >= 32 && (unsigned char)ch < 127) fputc(ch, f); } };
    fprintf(f, "{\"config\":\"%s\",\"mode\":\"", cfgname.c_str()); esc(arg_mode); fprintf(f, "\",\"executions\":%lu,\"nontrivial\":%lu,\"inconclusive\":%lu,\"wall\":%.2f,\"rc\":%d,\"msg\":\"", ran, nt, inc, now() - t0, rc); esc(vmsg); fprintf(f, "\",\"counts\":{");
    for (size_t k = 0; k < count_names.size(); k++) fprintf(f, "%s\"%s\":%lu", k ? "," : "", count_names[k], tot[k]);
    fprintf(f, "},\"samples\":["); for (size_t k = 0; k < samples.size(); k++) { fprintf(f, "%s\"", k ? "," : ""); esc(samples[k]); fputc('"', f); }
    fprintf(f, "],\"hashes\":["); for (size_t k = 0; k < hashes.size(); k++) fprintf(f, "%s%lu", k ? "," : "", hashes[k]);
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    return rc;
}
