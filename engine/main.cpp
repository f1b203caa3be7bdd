// Property-based testing engine: generates cases, evaluates the implementation
// under test (loaded from shims built from /repo) against the oracles in
// specs_*.cpp, catches crashes and hangs, confirms and shrinks failures.
#include "common.hpp"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>
#include <atomic>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>
using std::string; using std::vector;

struct ShimEntry { const char* fn; const char* codes; char ret; bool is_noexcept; void (*call)(const LD*, LD*); };
struct Lib { string name, path; std::map<string, ShimEntry> tab; };
static vector<Lib> libs;

static bool load_lib(const string& spec, string& err) {
    size_t p = spec.find('='); Lib l; l.name = spec.substr(0, p); l.path = spec.substr(p + 1); string rest = l.path;
    while (!rest.empty()) { size_t q = rest.find(','); string path = rest.substr(0, q); rest = q == string::npos ? "" : rest.substr(q + 1);
        void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { err = dlerror(); return false; }
        typedef const ShimEntry* (*Fn)(int*); Fn f = (Fn)dlsym(h, "shim_table");
        if (!f) { err = "no shim_table"; return false; }
        int n = 0; const ShimEntry* t = f(&n);
        for (int i = 0; i < n; i++) l.tab[string(t[i].fn) + "/" + t[i].codes] = t[i]; }
    libs.push_back(l); return true;
}
char lib_ret(int lib, const string& fn, const string& codes) { auto it = libs[lib].tab.find(fn + "/" + codes); return it == libs[lib].tab.end() ? 0 : it->second.ret; }
bool lib_noexcept(int lib, const string& fn, const string& codes) { auto it = libs[lib].tab.find(fn + "/" + codes); return it != libs[lib].tab.end() && it->second.is_noexcept; }

static const int MAXW = 16, MAXFAIL = 64, MAXSS = 4096;
struct Slot { volatile int active; volatile int ss; volatile int lib; volatile uint64_t idx; LD a[MAXARG]; volatile uint64_t counter; };
struct Fail { volatile int ready; int ss, lib; uint64_t idx; Args a; char msg[600]; int kind; };
struct SSStat { uint64_t cases, checked, nontriv, fresh, nans, infs; double maxerr; LD maxarg[MAXARG]; int maxlib; };
struct Shm { Slot slot[MAXW]; std::atomic<int> nfail, stop; std::atomic<int> ssfail[MAXSS]; Fail fail[MAXFAIL]; SSStat st[MAXW][MAXSS]; };
static Shm* shm; static std::atomic<uint8_t>* bloom; static const int BLOOM_LOG = 30;

struct SS { int spec; int sig; uint64_t n, sweep; };   // spec x signature
static vector<SS> sss;
static int cur_lib = 0; static uint64_t seed = 1; static bool diffmode = false, diffexact = false;

static LD call_lib(int lib, const char* fn, const string& codes, const Args& a) {
    auto& t = libs[lib].tab; auto it = t.find(string(fn) + "/" + codes);
    if (it == t.end()) { fprintf(stderr, "engine: no entry %s/%s in %s\n", fn, codes.c_str(), libs[lib].name.c_str()); _exit(77); }
    LD r = 0; it->second.call(a.v, &r); return r;
}
static bool has_entry(int lib, const string& fn, const string& codes) { return libs[lib].tab.count(fn + "/" + codes); }

static string fmt(LD v) { char b[96]; snprintf(b, sizeof b, "%.21Lg", v); return b; }
string compare(const Expect& ex, LD got, double* nerr) {
    *nerr = 0;
    bool gn = got != got, gi = std::isinf(got);
    switch (ex.kind) {
        case SKIP: return "";
        case ISNAN: return gn ? "" : "expected NaN, got " + fmt(got);
        case PINF: return (gi && got > 0) ? "" : "expected +inf, got " + fmt(got);
        case NINF: return (gi && got < 0) ? "" : "expected -inf, got " + fmt(got);
        case VAL: break;
    }
    if (gn) return ex.nan_ok ? "" : "expected " + qstr(ex.val) + ", got NaN";
    if (gi) { if (ex.inf_ok && ((got > 0) == (ex.val > 0))) return ""; return "expected " + qstr(ex.val) + ", got " + fmt(got); }
    Q d = qabs((Q)got - ex.val);
    if (ex.unit > 0) { Q n = d / ex.unit; if (d > ex.tol - ex.unit * 0 && ex.tol > 0) {} *nerr = (double)n; if (qabs(ex.val) < 1e-4000Q) *nerr = 0; }
    if (d > ex.tol) { *nerr = ex.tol > 0 ? (double)(d / ex.tol) * 1e3 : 1e300; if (ex.unit > 0) *nerr = (double)(d / ex.unit);
        return "expected " + qstr(ex.val) + " (+/- " + qstr(ex.tol) + "), got " + fmt(got) + ", error " + qstr(d) + (ex.unit > 0 ? " = " + qstr(d / ex.unit) + " units" : ""); }
    if (ex.sign && ((std::signbit(got) ? 2 : 1) != ex.sign)) return string("expected sign ") + (ex.sign == 2 ? "-" : "+") + ", got " + fmt(got);
    if (d <= (Q)ex.sub) *nerr = 0;
    return "";
}

bool g_precise = false;
// Evaluates one case on one library (or, in diff mode, on all). Returns "" if the property holds.
struct EvalOut { bool checked, nontriv; double nerr; Kind kind; int lib; };
static string eval_case(const SS& s, int lib, const Args& a, EvalOut& o) {
    const Spec& sp = specs()[s.spec]; const string& codes = sp.sigs[s.sig];
    o.checked = true; o.nontriv = true; o.nerr = 0; o.kind = VAL; o.lib = lib;
    if (sp.relation) { cur_lib = lib;
        CallFn cf = [lib](const char* fn, const string& c, const Args& x) { return call_lib(lib, fn, c, x); };
        Q ne = 0; bool nt = true; string m = sp.relation(codes, a, cf, nt, ne);
        if (m != "SKIP" && (!m.empty() || ne > 4)) { g_precise = true; ne = 0; nt = true; m = sp.relation(codes, a, cf, nt, ne); g_precise = false; }
        o.nontriv = nt; o.nerr = (double)ne; if (m == "SKIP") { o.checked = o.nontriv = false; return ""; } return m;
    }
    Expect ex = sp.oracle(codes, a); o.kind = ex.kind;
    if (ex.kind == SKIP) { o.checked = o.nontriv = false; return ""; }
    o.nontriv = ex.nontrivial;
    if (diffmode) {
        LD r0 = call_lib(0, sp.fn.c_str(), codes, a);
        for (size_t l = 1; l < libs.size(); l++) {
            LD r = call_lib((int)l, sp.fn.c_str(), codes, a);
            bool same = (r != r && r0 != r0) || (r == r0 && (!diffexact || r != 0 || std::signbit(r) == std::signbit(r0)));
            if (same) continue;
            if (diffexact) { o.lib = (int)l; return "builds disagree: " + libs[0].name + " gives " + fmt(r0) + ", " + libs[l].name + " gives " + fmt(r) + " (no difference is allowed)"; }
            if (std::isfinite(r) && std::isfinite(r0)) {
                Q d = qabs((Q)r - (Q)r0); if (ex.unit > 0 && ex.kind == VAL && qabs((Q)r0) >= (Q)ex.sub) o.nerr = std::max(o.nerr, (double)(d / ex.unit));
                if (d <= 2 * ex.tol) continue;
            } else if (ex.inf_ok || ex.nan_ok) continue;
            o.lib = (int)l;
            return "builds disagree: " + libs[0].name + " gives " + fmt(r0) + ", " + libs[l].name + " gives " + fmt(r) + " (allowed difference " + qstr(2 * ex.tol) + ")";
        }
        return "";
    }
    LD r = call_lib(lib, sp.fn.c_str(), codes, a);
    string m = compare(ex, r, &o.nerr);
    if (!m.empty() || o.nerr > 4) { g_precise = true; ex = sp.oracle(codes, a); g_precise = false; if (ex.kind == SKIP) return ""; m = compare(ex, r, &o.nerr); }
    return m;
}

static LD bits_float(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static void gen_case(const SS& s, uint64_t i, Args& a) {
    const Spec& sp = specs()[s.spec]; const string& codes = sp.sigs[s.sig];
    a.n = (int)codes.size(); for (int k = 0; k < MAXARG; k++) a.v[k] = 0;
    if (i >= s.n) {  // float bit-pattern sweep
        uint64_t k = i - s.n, stride = (1ull << 32) / s.sweep;
        uint32_t b = (uint32_t)(k * stride + Rng::mix(seed ^ k * 77) % stride);
        a.n = 1; a.v[0] = bits_float(b); return;
    }
    uint64_t h = 1469598103934665603ull; for (char c : sp.label + "/" + sp.prop) h = (h ^ (uint8_t)c) * 1099511628211ull;
    for (char c : codes) h = (h ^ (uint8_t)c) * 1099511628211ull;
    Rng r(seed, h, i, 0xC0FFEE);
    sp.gen(r, codes, a);
    for (int k = 0; k < a.n; k++) a.v[k] = to_type_any(codes[k], a.v[k]);
}

static void record(int ss, int lib, uint64_t idx, const Args& a, const string& msg, int kind) {
    int k = shm->nfail.fetch_add(1); if (k >= MAXFAIL) return;
    Fail& f = shm->fail[k]; f.ss = ss; f.lib = lib; f.idx = idx; f.a = a; f.kind = kind; snprintf(f.msg, sizeof f.msg, "%s", msg.c_str()); f.ready = 1;
}

static int nworkers = 8; static uint64_t maxfail_per = 3;
static void worker(int w, int start_ss, uint64_t start_idx) {
    Slot& sl = shm->slot[w]; sl.active = 1;
    for (int s = start_ss; s < (int)sss.size(); s++) {
        SSStat& st = shm->st[w][s]; uint64_t tot = sss[s].n + sss[s].sweep;
        uint64_t i0 = s == start_ss ? start_idx : (uint64_t)w;
        for (uint64_t i = i0; i < tot; i += nworkers) {
            if (shm->ssfail[s].load(std::memory_order_relaxed) >= (int)maxfail_per) break;
            if (shm->stop.load(std::memory_order_relaxed)) { sl.active = 0; return; }
            Args a; gen_case(sss[s], i, a);
            sl.ss = s; sl.idx = i; for (int k = 0; k < MAXARG; k++) sl.a[k] = a.v[k];
            st.cases++;
            int nl = diffmode ? 1 : (int)libs.size();
            for (int l = 0; l < nl; l++) {
                sl.lib = l; sl.counter++;
                EvalOut o; string m = eval_case(sss[s], l, a, o);
                if (!o.checked) break;
                if (l == 0) { st.checked++; if (o.kind == ISNAN) st.nans++; if (o.kind == PINF || o.kind == NINF) st.infs++;
                    if (o.nontriv) { st.nontriv++;
                        uint64_t h = 0x9E37 + s; for (int k = 0; k < a.n; k++) { uint64_t m2 = 0, e2 = 0; memcpy(&m2, &a.v[k], 8); memcpy(&e2, (char*)&a.v[k] + 8, 2); h = Rng::mix(h ^ m2) ^ Rng::mix(e2 + 1); h = Rng::mix(h); }
                        uint64_t bit = h >> (64 - BLOOM_LOG); uint8_t mask = 1 << (bit & 7);
                        if (!(bloom[bit >> 3].load(std::memory_order_relaxed) & mask) && !(bloom[bit >> 3].fetch_or(mask) & mask)) st.fresh++; } }
                if (o.nerr > st.maxerr) { st.maxerr = o.nerr; for (int k = 0; k < MAXARG; k++) st.maxarg[k] = a.v[k]; st.maxlib = o.lib; }
                if (!m.empty()) { shm->ssfail[s]++; record(s, o.lib, i, a, m, 0); break; }
            }
        }
    }
    sl.active = 0;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double hang_s = 25, budget_s = 480;

// Runs one case in a child. Returns: 0 holds, 1 fails (msg), 2 crash, 3 hang
static int isolated(const SS& s, int lib, const Args& a, string& msg) {
    int pfd[2]; if (pipe(pfd)) abort();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]); EvalOut o; string m = eval_case(s, lib, a, o);
        string out = m.empty() ? "0" : "1" + m; if (write(pfd[1], out.data(), out.size()) < 0) {} _exit(0);
    }
    close(pfd[1]); double t0 = now(); int st = 0; bool hang = false;
    for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break;
        if (now() - t0 > hang_s) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(now() - t0 < 0.05 ? 200 : 5000); }
    string out; char b[1024]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n); close(pfd[0]);
    if (hang) { msg = "did not return within " + std::to_string((int)hang_s) + " s"; return 3; }
    if (WIFSIGNALED(st)) { msg = string("killed by signal ") + strsignal(WTERMSIG(st)); return 2; }
    if (WEXITSTATUS(st) != 0) { msg = "aborted with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report)"; return 2; }
    if (out.empty() || out[0] == '0') { msg = ""; return 0; }
    msg = out.substr(1); return 1;
}

// complexity of an argument, for shrinking
static double cost(LD v) {
    if (v != v || std::isinf(v)) return 5;
    if (v == 0) return std::signbit(v) ? 1 : 0;
    int e; LD m = frexpl(fabsl(v), &e); int bits = 0; while (m != floorl(m) && bits < 70) { m *= 2; bits++; }
    return bits + (v < 0 ? 1 : 0) + fabs((double)e) * 0.02 + 1;
}
static vector<LD> candidates(char id, LD v) {
    vector<LD> c; if (v != v) return c;
    if (std::isinf(v)) { return c; }
    c = {0, 1, 2, 0.5L, 10, -1, -v, truncl(v), floorl(v), ceill(v), v / 2, v * 2, sqrtl(fabsl(v))};
    if (v != 0) { int e; LD m = frexpl(v, &e);
        for (int b = 1; b < 60; b += (b < 12 ? 1 : 5)) { c.push_back(ldexpl(roundl(ldexpl(m, b)), e - b)); c.push_back(ldexpl(truncl(ldexpl(m, b)), e - b)); c.push_back(ldexpl(ceill(ldexpl(m, b)), e - b)); }
        for (int d = 1; d <= 6; d++) { char buf[64]; snprintf(buf, sizeof buf, "%.*Lg", d, v); c.push_back(strtold(buf, 0)); } }
    vector<LD> o; for (LD x : c) { x = to_type_any(id, x); if (x != v && cost(x) < cost(v)) o.push_back(x); }
    std::sort(o.begin(), o.end(), [](LD a, LD b) { return cost(a) < cost(b); }); o.erase(std::unique(o.begin(), o.end()), o.end());
    return o;
}
static Args shrink(const SS& s, int lib, Args a, int kind, string& msg, int& steps) {
    double t0 = now(); bool again = true; steps = 0; const string& codes = specs()[s.spec].sigs[s.sig];
    if (kind == 3) return a;
    while (again && now() - t0 < 20) {
        again = false;
        for (int k = 0; k < a.n && !again; k++)
            for (LD x : candidates(codes[k], a.v[k])) {
                Args b = a; b.v[k] = x; string m; if (now() - t0 > 20) break;
                if (isolated(s, lib, b, m) == kind) { a = b; msg = m; again = true; steps++; break; }
            }
    }
    return a;
}

static string jesc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static string args_json(const Args& a) { string o = "["; for (int k = 0; k < a.n; k++) { if (k) o += ", "; o += "\"" + hexld(a.v[k]) + "\""; } return o + "]"; }
static string args_dec(const Args& a) { string o; for (int k = 0; k < a.n; k++) { if (k) o += ", "; o += fmt(a.v[k]); } return o; }
static LD parse_ld(const string& s) { return strtold(s.c_str(), 0); }

int main(int argc, char** argv) {
    vector<string> props, only; double scale = 1; string out, replay_out, dictf; bool survey = false; string rp; vector<string> libspecs; uint64_t sweep = 0; uint64_t base_cases = 20000;
    vector<string> replay; bool list = false, needs = false; string emit; 
    for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--prop") props.push_back(nx()); else if (a == "--only") only.push_back(nx()); else if (a == "--lib") libspecs.push_back(nx());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") base_cases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--sweep") sweep = strtoull(nx().c_str(), 0, 10); else if (a == "--out") out = nx(); else if (a == "--replay-out") replay_out = nx();
        else if (a == "--dict") dictf = nx(); else if (a == "--survey") survey = true; else if (a == "--diff") diffmode = true; else if (a == "--diff-exact") diffmode = diffexact = true;
        else if (a == "--budget") budget_s = atof(nx().c_str()); else if (a == "--workers") nworkers = atoi(nx().c_str()); else if (a == "--list") list = true; else if (a == "--needs") needs = true; else if (a == "--emit") emit = nx();
        else if (a == "--replay") { while (i + 1 < argc) replay.push_back(nx()); }
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 77; } }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);  // 8 MB default stack is part of the environment users have
    if (!dictf.empty()) { std::ifstream f(dictf); string t; while (f >> t) { LD v = strtold(t.c_str(), 0); if (std::isfinite(v)) dict().push_back(v); } }
    auto keep = [&](const Spec& s) { bool p = props.empty(); for (auto& x : props) if (x == s.prop) p = true; if (!p) return false; if (only.empty()) return true; for (auto& x : only) if (s.label == x) return true; return false; };
    for (size_t k = 0; k < specs().size(); k++) { Spec& s = specs()[k]; if (!keep(s)) continue;
        if (diffmode && s.relation) continue;
        double wsum = 0; for (size_t g = 0; g < s.sigs.size(); g++) wsum += g < s.weight.size() ? s.weight[g] : 1;
        for (size_t g = 0; g < s.sigs.size(); g++) { SS x; x.spec = (int)k; x.sig = (int)g; double w = g < s.weight.size() ? s.weight[g] : 1;
            x.n = (uint64_t)(base_cases * s.share * w / wsum) + 50; if (s.max_cases && x.n > s.max_cases) x.n = s.max_cases; x.sweep = (s.sigs[g] == "f" && !s.no_sweep) ? (uint64_t)(sweep * std::min(1.0, s.share)) : 0;
            sss.push_back(x); } }
    if (needs) { // entry points the selected specs call
        std::set<string> out; for (auto& x : sss) { const Spec& sp = specs()[x.spec]; if (sp.needs) { for (auto& e : sp.needs(sp.sigs[x.sig])) out.insert(e); } else out.insert(sp.fn + " " + sp.sigs[x.sig]); } for (auto& e : out) printf("%s\n", e.c_str()); return 0; }
    if (list) { for (auto& x : sss) printf("%s %s %s %s\n", specs()[x.spec].prop.c_str(), specs()[x.spec].label.c_str(), specs()[x.spec].fn.c_str(), specs()[x.spec].sigs[x.sig].c_str()); return 0; }
    if (!emit.empty()) { // emit generated cases: label fn codes hexargs...  (used by the generated-program checks)
        FILE* f = fopen(emit.c_str(), "w");
        for (auto& x : sss) for (uint64_t i = 0; i < x.n; i++) { Args a; gen_case(x, i, a); const Spec& sp = specs()[x.spec];
            Kind kd = VAL; if (sp.oracle) { Expect e = sp.oracle(sp.sigs[x.sig], a); kd = e.kind; }
            fprintf(f, "%s %s %s %d", sp.label.c_str(), sp.fn.c_str(), sp.sigs[x.sig].c_str(), (int)kd); for (int k = 0; k < a.n; k++) fprintf(f, " %s", hexld(a.v[k]).c_str()); fprintf(f, "\n"); }
        fclose(f); return 0; }
    for (auto& l : libspecs) { string e; if (!load_lib(l, e)) { fprintf(stderr, "engine: cannot load %s: %s\n", l.c_str(), e.c_str()); return 77; } }
    if (libs.empty()) { fprintf(stderr, "no libs\n"); return 77; }
    if ((int)sss.size() > MAXSS) { fprintf(stderr, "too many spec/sigs\n"); return 77; }
    g_lib_ret = [](const string& fn, const string& codes) { return lib_ret(cur_lib, fn, codes); };
    g_lib_nx = [](const string& fn, const string& codes) { return lib_noexcept(cur_lib, fn, codes); };
    if (!replay.empty()) { // label sig libname args...
        string label = replay[0], sig = replay[1], lib = replay[2]; int li = 0; for (size_t i = 0; i < libs.size(); i++) if (libs[i].name == lib) li = (int)i;
        SS* s = 0; for (auto& x : sss) if (specs()[x.spec].label == label && specs()[x.spec].sigs[x.sig] == sig) s = &x;
        if (!s) { fprintf(stderr, "replay: no such spec %s %s\n", label.c_str(), sig.c_str()); return 77; }
        Args a; a.n = (int)sig.size(); for (int k = 0; k < MAXARG; k++) a.v[k] = 0; for (int k = 0; k < a.n; k++) a.v[k] = parse_ld(replay[3 + k]);
        string m; int r = isolated(*s, li, a, m); printf("%s %s(%s) [%s, %s]: %s\n", r ? "FAILS" : "holds", specs()[s->spec].fn.c_str(), args_dec(a).c_str(), sig.c_str(), libs[li].name.c_str(), m.c_str()); return r ? 1 : 0; }
    // check entries exist
    for (auto& x : sss) { const Spec& sp = specs()[x.spec]; if (!sp.relation) for (size_t l = 0; l < libs.size(); l++) if (!has_entry((int)l, sp.fn, sp.sigs[x.sig])) { fprintf(stderr, "engine: missing entry %s/%s\n", sp.fn.c_str(), sp.sigs[x.sig].c_str()); return 77; } }
    if (survey) maxfail_per = 1u << 30;

    shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bloom = (std::atomic<uint8_t>*)mmap(0, 1u << (BLOOM_LOG - 3), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED || bloom == MAP_FAILED) { perror("mmap"); return 77; }
    double T0 = now(); vector<pid_t> pid(nworkers, 0); vector<uint64_t> lastc(nworkers, 0); vector<double> lastt(nworkers, T0);
    auto spawn = [&](int w, int ss, uint64_t idx) { fflush(stdout); fflush(stderr); pid_t p = fork(); if (p == 0) { worker(w, ss, idx); _exit(0); } pid[w] = p; lastt[w] = now(); };
    for (int w = 0; w < nworkers; w++) spawn(w, 0, w);
    int alive = nworkers; bool engine_error = false, cut = false; int nhang = 0, ncrash = 0;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) { usleep(3000); double t = now();
            if (!cut && t - T0 > budget_s) { cut = true; shm->stop = 1; fprintf(stderr, "engine: time budget of %.0f s used up; the remaining cases are not run\n", budget_s); }
            if (shm->nfail > 0 && t - T0 > budget_s / 4) shm->stop = 1;
            for (int w = 0; w < nworkers; w++) if (pid[w]) { uint64_t c = shm->slot[w].counter; if (c != lastc[w]) { lastc[w] = c; lastt[w] = t; } else if (t - lastt[w] > hang_s * 1.4) { kill(pid[w], SIGKILL); lastt[w] = t; } }
            continue; }
        for (int w = 0; w < nworkers; w++) if (pid[w] == p) { pid[w] = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; break; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { engine_error = true; alive--; break; }
            Slot& sl = shm->slot[w]; int s = sl.ss; Args a; a.n = (int)specs()[sss[s].spec].sigs[sss[s].sig].size(); for (int k = 0; k < MAXARG; k++) a.v[k] = sl.a[k];
            bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            record(s, sl.lib, sl.idx, a, hang ? "hang" : "crash", hang ? 3 : 2); shm->ssfail[s]++;
            if (hang ? ++nhang >= 2 : ++ncrash >= 24) shm->stop = 1;
            if (shm->stop) alive--; else if (shm->nfail < MAXFAIL && shm->ssfail[s] < 4) spawn(w, s, sl.idx + nworkers); else if (s + 1 < (int)sss.size()) spawn(w, s + 1, w); else alive--;
            break; }
    }
    if (engine_error) return 77;
    int nf = std::min((int)shm->nfail.load(), MAXFAIL);
    vector<int> order(nf); for (int i = 0; i < nf; i++) order[i] = i;
    std::sort(order.begin(), order.end(), [](int a, int b) { auto& x = shm->fail[a]; auto& y = shm->fail[b]; return x.ss != y.ss ? x.ss < y.ss : x.idx < y.idx; });
    // totals
    uint64_t ev = 0, chk = 0, nt = 0, fresh = 0; std::ostringstream per;
    per << "["; bool firstp = true;
    for (size_t s = 0; s < sss.size(); s++) { SSStat t = {}; for (int w = 0; w < nworkers; w++) { SSStat& u = shm->st[w][s]; t.cases += u.cases; t.checked += u.checked; t.nontriv += u.nontriv; t.fresh += u.fresh; t.nans += u.nans; t.infs += u.infs; if (u.maxerr > t.maxerr) { t.maxerr = u.maxerr; memcpy(t.maxarg, u.maxarg, sizeof t.maxarg); t.maxlib = u.maxlib; } }
        const Spec& sp = specs()[sss[s].spec]; ev += t.cases; chk += t.checked; nt += t.nontriv; fresh += t.fresh; Args ma; ma.n = (int)sp.sigs[sss[s].sig].size(); memcpy(ma.v, t.maxarg, sizeof ma.v);
        if (survey) { printf("%s %-22s %-4s n=%-9lu chk=%-9lu nt=%-9lu nan=%-7lu inf=%-7lu maxerr=%-12.5g at (%s) lib=%s fails=%d\n", sp.prop.c_str(), sp.label.c_str(), sp.sigs[sss[s].sig].c_str(), t.cases, t.checked, t.nontriv, t.nans, t.infs, t.maxerr, args_dec(ma).c_str(), libs[t.maxlib].name.c_str(), (int)shm->ssfail[s]); }
        per << (firstp ? "" : ",") << "\n  {\"spec\": \"" << sp.label << "\", \"types\": \"" << sp.sigs[sss[s].sig] << "\", \"cases\": " << t.cases << ", \"in_domain\": " << t.checked << ", \"nontrivial\": " << t.nontriv << ", \"nan\": " << t.nans << ", \"inf\": " << t.infs << ", \"max_error_units\": " << (std::isfinite(t.maxerr) ? t.maxerr : 1e300) << ", \"worst\": \"" << jesc(args_dec(ma)) << "\"}"; firstp = false; }
    per << "]";
    // samples
    std::ostringstream sm; sm << "["; int ns = 0; for (size_t s = 0; s < sss.size() && ns < 12; s += std::max<size_t>(1, sss.size() / 12)) { const Spec& sp = specs()[sss[s].spec]; Args a; gen_case(sss[s], 7 + s % 40, a); sm << (ns ? "," : "") << "\n  \"" << jesc(sp.label + "<" + sp.sigs[sss[s].sig] + ">(" + args_dec(a) + ")") << "\""; ns++; } sm << "]";
    // confirm + shrink; a failure must reproduce 3 times in isolation
    std::ostringstream fj; fj << "["; int confirmed = 0, unconfirmed = 0; bool confirmed_hang = false; std::set<string> seen;
    for (int oi : order) { Fail& f = shm->fail[oi]; if (!f.ready) continue; const SS& s = sss[f.ss]; const Spec& sp = specs()[s.spec]; string key = sp.label + "/" + sp.sigs[s.sig] + "/" + std::to_string(f.kind);
        if (seen.count(key) || confirmed >= 6 || (f.kind == 3 && confirmed_hang)) continue; string m; int k1 = isolated(s, f.lib, f.a, m); bool okk = k1 != 0; if (k1 == 3) confirmed_hang = true; for (int r = 0; r < (k1 == 3 ? 1 : 2) && okk; r++) okk = isolated(s, f.lib, f.a, m) == k1;
        if (!okk) { unconfirmed++; fprintf(stderr, "unconfirmed: %s(%s) %s\n", sp.label.c_str(), args_dec(f.a).c_str(), f.msg); continue; }
        seen.insert(key); int steps = 0; string orig = args_dec(f.a); Args a = confirmed < 2 ? shrink(s, f.lib, f.a, k1, m, steps) : f.a;
        if (survey) printf("FAIL %s<%s>(%s) [%s] %s\n", sp.label.c_str(), sp.sigs[s.sig].c_str(), args_dec(a).c_str(), libs[f.lib].name.c_str(), m.c_str());
        fj << (confirmed ? "," : "") << "\n  {\"spec\": \"" << sp.label << "\", \"function\": \"gcem::" << sp.fn << "\", \"types\": \"" << sp.sigs[s.sig] << "\", \"build\": \"" << libs[f.lib].name << "\", \"args\": " << args_json(a) << ", \"args_decimal\": \"" << jesc(args_dec(a)) << "\", \"unshrunk\": \"" << jesc(orig) << "\", \"shrink_steps\": " << steps << ", \"case_index\": " << f.idx << ", \"what\": \"" << jesc(m) << "\"}"; confirmed++; }
    fj << "]";
    if (!out.empty()) { std::ofstream o(out); o << "{\"evaluations\": " << ev << ", \"in_domain\": " << chk << ", \"nontrivial\": " << nt << ", \"distinct_nontrivial\": " << fresh << ", \"confirmed\": " << confirmed << ", \"unconfirmed\": " << unconfirmed << ", \"cut_short\": " << (cut ? "true" : "false") << ", \"seconds\": " << now() - T0 << ",\n \"samples\": " << sm.str() << ",\n \"failures\": " << fj.str() << ",\n \"per_spec\": " << per.str() << "}\n"; }
    if (survey) printf("total %lu checked %lu nontrivial %lu distinct %lu in %.1fs\n", ev, chk, nt, fresh, now() - T0);
    return confirmed ? 1 : 0;
}
