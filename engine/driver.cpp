// Explorer: runs a harness on concrete inputs, then asks the solver for an input for every branch
// direction and assertion violation not yet covered, until none is left (or the budget is).
#include "expr.h"
#include "sym.h"
#include <z3++.h>
#include <atomic>
#include <charconv>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <functional>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern Shared* SH;
extern bool sym_on;
SymHarness*& SymHarness::head() { static SymHarness* h; return h; }
SymHarness::SymHarness(const char* n, void (*f)(), int r, void (*s)()) : name(n), fn(f), setup(s), real_mode(r), next(head()) { head() = this; }

using Assign = std::map<std::string, uint64_t>;
using Clock = std::chrono::steady_clock;
static double d_of(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t b_of(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

struct Item { Assign in; uint32_t bound; int expect_kind; uint64_t h; bool taken; uint64_t pc = 0; };

// ------------------------------------------------------------------ globals
static SymHarness* H;
static int JOBS = 8, QMS = 20000;
static double TIME = 60;
static std::mutex mu;
static std::condition_variable cv;
static std::deque<Item> queue_, queue2_;   // unseen branch directions first
static std::set<std::pair<uint64_t, bool>> seen_dir;
static int busy = 0;
static bool stop = false;
static struct Stats {
    uint64_t runs = 0, ok = 0, assumed_out = 0, overflow = 0, branches = 0, q = 0, q_sat = 0, q_unsat = 0, q_unknown = 0, cache_hits = 0, trivially = 0;
    uint64_t asserts = 0, a_unsat = 0, a_sat = 0, a_unknown = 0, a_concrete = 0, a_spurious = 0, diverged = 0, eval_bad = 0, stale = 0, conc = 0, ops = 0, maxlog = 0;
    double solver = 0;
} S;
static std::set<uint64_t> fns;
static std::map<std::string, Assign> reach;
static std::map<std::string, uint64_t> amsg, unknown_at;
static std::map<uintptr_t, std::array<double, 3>> prof;
extern char __executable_start;
struct Violation { std::string msg; Assign in; std::vector<VarInfo> vars; };
static std::vector<Violation> viol;
static std::vector<std::string> samples;
static std::unordered_map<uint64_t, std::pair<int, Assign>> qcache;
static Clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(Clock::now() - T0).count(); }
static int CPU_LIMIT = 20;

// ------------------------------------------------------------------ executor
struct Exec {
    Shared* sh = nullptr;
    int to[2], from[2];
    pid_t pid = 0;
    void start()
    {
        size_t asz = 3ull << 30;
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sh->arena = (char*)mmap(nullptr, asz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sh->arena_size = asz;
        if (pipe(to) || pipe(from)) abort();
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            SH = sh;
            sh->real_mode = H->real_mode;
            sh->arena_used = 0;
            if (H->setup) H->setup();
            sh->n_log = sh->n_note = sh->n_reach = 0; // the setup is not part of a path
            char c;
            while (read(to[0], &c, 1) == 1) {
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    struct rlimit rl{(rlim_t)CPU_LIMIT, (rlim_t)CPU_LIMIT + 1};
                    setrlimit(RLIMIT_CPU, &rl);
                    struct rlimit rc{0, 0};
                    setrlimit(RLIMIT_CORE, &rc);
                    int dn = open("/dev/null", O_WRONLY);
                    if (!getenv("SYM_STDERR")) { dup2(dn, 1); dup2(dn, 2); }
                    run_child();
                }
                int st;
                waitpid(p, &st, 0);
                sh->wstatus = st;
                if (write(from[1], &c, 1) != 1) _exit(0);
            }
            _exit(0);
        }
        close(to[0]);
        close(from[1]);
    }
    [[noreturn]] void run_child()
    {
        sym_on = true;
        try {
            H->fn();
            sh->status = RS_OK;
        } catch (...) {
            sh->status = RS_EXC;
            const std::type_info* t = abi::__cxa_current_exception_type();
            int st;
            char* d = t ? abi::__cxa_demangle(t->name(), nullptr, nullptr, &st) : nullptr;
            snprintf(sh->note, 200, "%s", d ? d : "?");
        }
        _exit(0);
    }
    bool run(const Assign& in)
    {
        sh->status = RS_NONE;
        sh->n_assign = 0;
        for (auto& [k, v] : in)
            if (sh->n_assign < MAX_VAR) { AssignEnt& a = sh->assign[sh->n_assign++]; snprintf(a.name, sizeof a.name, "%s", k.c_str()); a.v = v; }
        sh->n_var = sh->n_log = sh->n_note = sh->n_reach = 0;
        sh->note[0] = 0;
        sh->n_ops = sh->conc_count = sh->stale_count = 0;
        if (sh->arena_used > (64u << 20)) madvise(sh->arena, sh->arena_used, MADV_REMOVE);
        sh->arena_used = 0;
        sh->next_id = 1;
        char c = 1;
        if (write(to[1], &c, 1) != 1) return false;
        return read(from[0], &c, 1) == 1;
    }
    void end() { close(to[1]); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
};

// ------------------------------------------------------------------ translation
struct Tr {
    z3::context& c;
    bool real;
    Shared* sh;
    std::unordered_map<const E*, z3::expr> mb, mv, mf, mi;
    std::unordered_map<const E*, std::vector<uint32_t>> vars_;
    std::unordered_map<const E*, std::vector<const E*>> spec_;
    std::unordered_map<const E*, z3::expr> side_;
    Tr(z3::context& cc, bool r, Shared* s) : c(cc), real(r), sh(s) {}

    const std::vector<uint32_t>& vars(const E* e)
    {
        auto it = vars_.find(e);
        if (it != vars_.end()) return it->second;
        std::vector<uint32_t> v;
        if (e->op == O_VAR || e->op == O_FVAR) v.push_back(e->k);
        else if (e->a) {
            v = vars(e->a);
            for (const E* x : {e->b, e->c})
                if (x) { auto& w = vars(x); std::vector<uint32_t> r; std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(r)); v.swap(r); }
        }
        return vars_[e] = std::move(v);
    }
    std::unordered_map<const E*, bool> nonlin_;
    // real arithmetic beyond linear
    bool nonlin(const E* e)
    {
        if (!e->a) return false;
        auto it = nonlin_.find(e);
        if (it != nonlin_.end()) return it->second;
        bool r = e->op == O_FSQRT || e->op == O_UF1 || e->op == O_UF2 || (e->op == O_FMUL && !vars(e->a).empty() && !vars(e->b).empty()) || (e->op == O_FDIV && !vars(e->b).empty());
        for (const E* x : {e->a, e->b, e->c}) if (x && !r) r = nonlin(x);
        return nonlin_[e] = r;
    }
    std::unordered_map<const E*, bool> hash_;
    // a hash value taken modulo a table size
    bool hashed(const E* e)
    {
        if (!e->a || vars(e).empty()) return false;
        auto it = hash_.find(e);
        if (it != hash_.end()) return it->second;
        bool r = e->op == O_UREM && (e->a->op == O_XOR || e->a->op == O_MUL || e->a->op == O_ADD) && e->bits == 64 && e->a->a->a;
        for (const E* x : {e->a, e->b, e->c}) if (x && !r) r = hashed(x);
        return hash_[e] = r;
    }
    const std::vector<const E*>& spec(const E* e)
    {
        auto it = spec_.find(e);
        if (it != spec_.end()) return it->second;
        std::vector<const E*> v;
        if (real && e->op == O_VAR && e->bits == 8) v.push_back(e);
        if (e->a) {
            v = spec(e->a);
            for (const E* x : {e->b, e->c})
                if (x) { auto& w = spec(x); std::vector<const E*> r; std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(r)); v.swap(r); }
            if (real && (e->op == O_FSQRT || e->op == O_UF1 || e->op == O_UF2)) v.insert(std::lower_bound(v.begin(), v.end(), e), e);
        }
        return spec_[e] = std::move(v);
    }
    z3::expr realnum(double d)
    {
        if (!std::isfinite(d)) return c.real_const(d != d ? "!nan" : d > 0 ? "!inf" : "!minf");
        char buf[64];
        auto r = std::to_chars(buf, buf + 60, d, std::chars_format::scientific);
        *r.ptr = 0;
        // mantissa e exponent -> rational
        std::string s(buf);
        auto e = s.find('e');
        std::string m = s.substr(0, e);
        int ex = atoi(s.c_str() + e + 1);
        std::string num;
        auto dot = m.find('.');
        if (dot != std::string::npos) { ex -= m.size() - dot - 1; m.erase(dot, 1); }
        num = m;
        std::string den = "1";
        if (ex > 0) num += std::string(ex, '0');
        else den += std::string(-ex, '0');
        return c.real_val((num + "/" + den).c_str());
    }
    z3::sort fs() { return c.fpa_sort(11, 53); }
    z3::expr rm() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
    z3::expr W(Z3_ast a) { c.check_error(); return z3::expr(c, a); }

    z3::expr tb(const E* e)
    {
        auto it = mb.find(e);
        if (it != mb.end()) return it->second;
        z3::expr r = tb_(e);
        mb.insert({e, r});
        return r;
    }
    z3::expr tb_(const E* e)
    {
        auto B = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { z3::expr x = tv(e->a), y = tv(e->b); return W(f(c, x, y)); };
        switch (e->op) {
        case O_CONST: return c.bool_val(e->k != 0);
        case O_EQ:
            if (e->a->bits == 1) {
                if (e->b->op == O_CONST) return e->b->k ? tb(e->a) : !tb(e->a);
                return tb(e->a) == tb(e->b);
            }
            if (real && intable(e->a) && intable(e->b)) return ti(e->a) == ti(e->b);
            return tv(e->a) == tv(e->b);
        case O_AND: return tb(e->a) && tb(e->b);
        case O_OR: return tb(e->a) || tb(e->b);
        case O_XOR: return tb(e->a) != tb(e->b);
        case O_ITE: return z3::ite(tb(e->a), tb(e->b), tb(e->c));
        case O_ULT: case O_ULE: {
            if (real && intable(e->a) && intable(e->b) && (e->a->op == O_CONST) != (e->b->op == O_CONST)) {
                // unsigned comparison with a constant, in terms of the signed value
                bool lt = e->op == O_ULT, left = e->a->op == O_CONST;
                const E* k = left ? e->a : e->b;
                bool neg = k->k >> (k->bits - 1) & 1;
                z3::expr d = ti(k), x = ti(left ? e->b : e->a), zero = c.int_val(0);
                if (!left) return neg ? x >= zero || (lt ? x < d : x <= d) : x >= zero && (lt ? x < d : x <= d);
                return neg ? x < zero && (lt ? d < x : d <= x) : x < zero || (lt ? d < x : d <= x);
            }
            return B(e->op == O_ULT ? Z3_mk_bvult : Z3_mk_bvule);
        }
        case O_SLT: if (real && intable(e->a) && intable(e->b)) return ti(e->a) < ti(e->b); return B(Z3_mk_bvslt);
        case O_SLE: if (real && intable(e->a) && intable(e->b)) return ti(e->a) <= ti(e->b); return B(Z3_mk_bvsle);
        case O_SADDO: { z3::expr x = tv(e->a), y = tv(e->b); return !W(Z3_mk_bvadd_no_overflow(c, x, y, true)) || !W(Z3_mk_bvadd_no_underflow(c, x, y)); }
        case O_SSUBO: { z3::expr x = tv(e->a), y = tv(e->b); return !W(Z3_mk_bvsub_no_overflow(c, x, y)) || !W(Z3_mk_bvsub_no_underflow(c, x, y, true)); }
        case O_SMULO: { z3::expr x = tv(e->a), y = tv(e->b); return !W(Z3_mk_bvmul_no_overflow(c, x, y, true)) || !W(Z3_mk_bvmul_no_underflow(c, x, y)); }
        case O_UADDO: return !B([](Z3_context k, Z3_ast a, Z3_ast b) { return Z3_mk_bvadd_no_overflow(k, a, b, false); });
        case O_USUBO: return B(Z3_mk_bvult);
        case O_UMULO: return !B([](Z3_context k, Z3_ast a, Z3_ast b) { return Z3_mk_bvmul_no_overflow(k, a, b, false); });
        case O_FEQ: if (real) return tf(e->a) == tf(e->b); { z3::expr x = tf(e->a), y = tf(e->b); return W(Z3_mk_fpa_eq(c, x, y)); }
        case O_FLT: if (real) { if (auto k = inf_cmp(e, true)) return *k; return tf(e->a) < tf(e->b); } { z3::expr x = tf(e->a), y = tf(e->b); return W(Z3_mk_fpa_lt(c, x, y)); }
        case O_FLE: if (real) { if (auto k = inf_cmp(e, false)) return *k; return tf(e->a) <= tf(e->b); } { z3::expr x = tf(e->a), y = tf(e->b); return W(Z3_mk_fpa_leq(c, x, y)); }
        case O_FUNO: if (real) return c.bool_val(false); { z3::expr x = tf(e->a), y = tf(e->b); return W(Z3_mk_fpa_is_nan(c, x)) || W(Z3_mk_fpa_is_nan(c, y)); }
        default: return tv(e) == c.bv_val(1, 1);
        }
    }
    std::optional<z3::expr> inf_cmp(const E* e, bool)
    {
        auto isinfc = [](const E* x) { return x->op == O_CONST && std::isinf(d_of(x->k)); };
        if (isinfc(e->b)) return c.bool_val(d_of(e->b->k) > 0);
        if (isinfc(e->a)) return c.bool_val(d_of(e->a->k) < 0);
        return std::nullopt;
    }
    z3::expr tv(const E* e)
    {
        auto it = mv.find(e);
        if (it != mv.end()) return it->second;
        z3::expr r = tv_(e);
        mv.insert({e, r});
        return r;
    }
    // fold TABLE into nested ite over value groups
    z3::expr table(const E* e)
    {
        const uint64_t* t = (const uint64_t*)e->k;
        unsigned n = e->a->bits >= 8 ? 256 : 1u << e->a->bits;
        z3::expr x = tv(e->a);
        std::map<uint64_t, std::vector<std::pair<unsigned, unsigned>>> g;
        for (unsigned i = 0; i < n;) {
            unsigned j = i;
            while (j + 1 < n && t[j + 1] == t[i]) ++j;
            g[t[i]].push_back({i, j});
            i = j + 1;
        }
        uint64_t dflt = 0;
        size_t best = 0;
        for (auto& [v, rs] : g) { size_t k = rs.size(); if (k > best) { best = k; dflt = v; } }
        unsigned xb = e->a->bits;
        z3::expr r = c.bv_val((uint64_t)dflt, e->bits);
        for (auto& [v, rs] : g) {
            if (v == dflt) continue;
            z3::expr_vector o(c);
            for (auto& [lo, hi] : rs) {
                if (lo == hi) o.push_back(x == c.bv_val((uint64_t)lo, xb));
                else o.push_back(z3::uge(x, c.bv_val((uint64_t)lo, xb)) && z3::ule(x, c.bv_val((uint64_t)hi, xb)));
            }
            r = z3::ite(z3::mk_or(o), c.bv_val((uint64_t)v, e->bits), r);
        }
        return r;
    }
    z3::expr tv_(const E* e)
    {
        unsigned n = e->bits;
        switch (e->op) {
        case O_CONST: return c.bv_val((uint64_t)e->k, n);
        case O_VAR:
            if (real && n >= 32) return W(Z3_mk_int2bv(c, n, ti(e)));
            return c.bv_const(sh->var[e->k].name, n);
        case O_ADD: return tv(e->a) + tv(e->b);
        case O_SUB: return tv(e->a) - tv(e->b);
        case O_MUL: return tv(e->a) * tv(e->b);
        case O_UDIV: return z3::udiv(tv(e->a), tv(e->b));
        case O_SDIV: return tv(e->a) / tv(e->b);
        case O_UREM: return z3::urem(tv(e->a), tv(e->b));
        case O_SREM: return z3::srem(tv(e->a), tv(e->b));
        case O_SHL: return z3::shl(tv(e->a), tv(e->b));
        case O_LSHR: return z3::lshr(tv(e->a), tv(e->b));
        case O_ASHR: return z3::ashr(tv(e->a), tv(e->b));
        case O_AND: if (n == 1) break; return tv(e->a) & tv(e->b);
        case O_OR: if (n == 1) break; return tv(e->a) | tv(e->b);
        case O_XOR: if (n == 1) break; return tv(e->a) ^ tv(e->b);
        case O_ZEXT: return z3::zext(tv(e->a), n - e->a->bits);
        case O_SEXT: return z3::sext(tv(e->a), n - e->a->bits);
        case O_EXTRACT: return tv(e->a).extract(e->k + n - 1, e->k);
        case O_CONCAT: return z3::concat(tv(e->a), tv(e->b));
        case O_ITE: return z3::ite(tb(e->a), tv(e->b), tv(e->c));
        case O_TABLE: return table(e);
        case O_UMIN: { z3::expr x = tv(e->a), y = tv(e->b); return z3::ite(z3::ult(x, y), x, y); }
        case O_UMAX: { z3::expr x = tv(e->a), y = tv(e->b); return z3::ite(z3::ult(x, y), y, x); }
        case O_SMIN: { z3::expr x = tv(e->a), y = tv(e->b); return z3::ite(x < y, x, y); }
        case O_SMAX: { z3::expr x = tv(e->a), y = tv(e->b); return z3::ite(x < y, y, x); }
        case O_BITS: {
            z3::expr f = tf(e->a);
            return W(Z3_mk_fpa_to_ieee_bv(c, f));
        }
        case O_F2SI:
            if (real) return W(Z3_mk_int2bv(c, n, ti(e)));
            { z3::expr f = tf(e->a); z3::expr m(c, Z3_mk_fpa_rtz(c)); return W(Z3_mk_fpa_to_sbv(c, m, f, n)); }
        case O_F2UI:
            if (real) return W(Z3_mk_int2bv(c, n, ti(e)));
            { z3::expr f = tf(e->a); z3::expr m(c, Z3_mk_fpa_rtz(c)); return W(Z3_mk_fpa_to_ubv(c, m, f, n)); }
        default: break;
        }
        // boolean-sorted nodes used as 1-bit vectors
        return z3::ite(tb(e), c.bv_val(1, 1), c.bv_val(0, 1));
    }
    // integer view of bit-vector nodes (real mode): only nodes that cannot wrap in the harnesses' ranges
    bool intable(const E* e)
    {
        switch (e->op) {
        case O_CONST: return true;
        case O_VAR: return e->bits >= 32;
        case O_F2SI: return true;
        case O_SEXT: return intable(e->a);
        case O_ADD: case O_SUB: return e->bits >= 32 && intable(e->a) && intable(e->b);
        case O_MUL: return e->bits >= 32 && ((intable(e->a) && e->b->op == O_CONST) || (intable(e->b) && e->a->op == O_CONST));
        case O_EXTRACT: return e->k == 0 && e->bits == 32 && intable(e->a);
        case O_ITE: return intable(e->b) && intable(e->c);
        default: return false;
        }
    }
    // two's complement value of an integer; 64-bit values are taken not to wrap
    z3::expr wrap(z3::expr x, unsigned bits)
    {
        if (bits >= 64) return x;
        z3::expr half = c.int_val((int64_t)1 << (bits - 1));
        return z3::ite(x >= -half && x < half, x, z3::mod(x + half, c.int_val((int64_t)1 << bits)) - half);
    }
    // signed interval of a bit-vector (arithmetic that may wrap: the whole range)
    typedef std::pair<__int128, __int128> Rng;
    std::unordered_map<const E*, Rng> rng_;
    static Rng full(unsigned bits) { return {-((__int128)1 << (bits - 1)), ((__int128)1 << (bits - 1)) - 1}; }
    Rng raw(const E* e)   // before wrapping, for ADD, SUB and MUL
    {
        Rng x = rng(e->a), y = rng(e->b);
        if (e->op == O_ADD) return {x.first + y.first, x.second + y.second};
        if (e->op == O_SUB) return {x.first - y.second, x.second - y.first};
        if (e->bits > 32 && (x.second > INT32_MAX || x.first < INT32_MIN) && (y.second > INT32_MAX || y.first < INT32_MIN)) return {-((__int128)1 << 120), (__int128)1 << 120};
        __int128 v[4] = {x.first * y.first, x.first * y.second, x.second * y.first, x.second * y.second};
        return {*std::min_element(v, v + 4), *std::max_element(v, v + 4)};
    }
    Rng rng(const E* e)
    {
        auto it = rng_.find(e);
        if (it != rng_.end()) return it->second;
        Rng f = full(e->bits), r = f;
        switch (e->op) {
        case O_CONST: { int64_t v = e->bits >= 64 ? (int64_t)e->k : (int64_t)(e->k << (64 - e->bits)) >> (64 - e->bits); r = {v, v}; break; }
        case O_VAR: if (e->bits == 8 && sh->var[e->k].hi <= 127) r = {sh->var[e->k].lo, sh->var[e->k].hi}; break;
        case O_SEXT: r = rng(e->a); break;
        case O_ZEXT: { Rng x = rng(e->a); if (e->a->bits < e->bits) r = x.first >= 0 ? x : Rng{0, ((__int128)1 << e->a->bits) - 1}; break; }
        case O_EXTRACT: if (e->k == 0) { Rng x = rng(e->a); if (x.first >= f.first && x.second <= f.second) r = x; } break;
        case O_ITE: { Rng x = rng(e->b), y = rng(e->c); r = {std::min(x.first, y.first), std::max(x.second, y.second)}; break; }
        case O_ADD: case O_SUB: case O_MUL: { Rng x = raw(e); if (x.first >= f.first && x.second <= f.second) r = x; break; }
        default: break;
        }
        return rng_[e] = r;
    }
    z3::expr fit(const E* e, z3::expr x)
    {
        Rng r = raw(e), f = full(e->bits);
        return r.first >= f.first && r.second <= f.second ? x : wrap(x, e->bits);
    }
    bool fits(const E* e)
    {
        Rng r = raw(e), f = full(e->bits);
        return r.first >= f.first && r.second <= f.second;
    }
    // integer constant equal to the unsigned value of an 8-bit variable
    z3::expr byte_int(const E* e)
    {
        const VarInfo& v = sh->var[e->k];
        z3::expr r = c.int_const(("i!" + std::string(v.name)).c_str());
        if (!side_.count(e)) {
            z3::expr x = c.bv_const(v.name, 8), s = c.int_val(0);
            for (unsigned i = 0; i < 8; ++i) s = s + z3::ite(x.extract(i, i) == c.bv_val(1, 1), c.int_val(1 << i), c.int_val(0));
            side_.insert({e, r == s && r >= (int)v.lo && r <= (int)v.hi});
        }
        return r;
    }
    bool lin(const E* e)
    {
        switch (e->op) {
        case O_CONST: return true;
        case O_VAR: return e->bits >= 32 || e->bits <= 8;
        case O_F2SI: return true;
        case O_SEXT: case O_ZEXT: return lin(e->a);
        case O_EXTRACT: return e->k == 0 && e->bits >= 8 && lin(e->a);
        case O_ADD: case O_SUB: return (e->bits >= 32 || fits(e)) && lin(e->a) && lin(e->b);
        case O_MUL: return (e->bits >= 32 || fits(e)) && lin(e->a) && lin(e->b) && (e->a->op == O_CONST || e->b->op == O_CONST);
        case O_ITE: return lin(e->b) && lin(e->c);
        default: return e->bits <= 8;
        }
    }
    z3::expr ti(const E* e)
    {
        auto it = mi.find(e);
        if (it != mi.end()) return it->second;
        z3::expr r = [&]() -> z3::expr {
            switch (e->op) {
            case O_CONST: { int64_t v = e->bits >= 64 ? (int64_t)e->k : (int64_t)(e->k << (64 - e->bits)) >> (64 - e->bits); return c.int_val(v); }
            case O_VAR: if (e->bits >= 32) return c.int_const(sh->var[e->k].name);
                if (e->bits == 8) { z3::expr x = byte_int(e); return sh->var[e->k].hi <= 127 ? x : z3::ite(x >= 128, x - 256, x); }
                break;
            case O_F2SI: case O_F2UI: { z3::expr x = tf(e->a); z3::expr z = c.real_val("0"); return z3::ite(x >= z, W(Z3_mk_real2int(c, x)), -W(Z3_mk_real2int(c, -x))); }
            case O_SEXT: return ti(e->a);
            case O_ADD: if (lin(e)) return fit(e, ti(e->a) + ti(e->b)); break;
            case O_SUB: if (lin(e)) return fit(e, ti(e->a) - ti(e->b)); break;
            case O_MUL: if (lin(e)) return fit(e, ti(e->a) * ti(e->b)); break;
            case O_EXTRACT: if (e->bits >= 8 && lin(e) && e->a->bits >= 32) {
                Rng x = rng(e->a), f = full(e->bits);
                return x.first >= f.first && x.second <= f.second ? ti(e->a) : wrap(ti(e->a), e->bits);
            } break;
            case O_ZEXT: if (e->a->bits <= 8) return u2i(e->a);
                if (lin(e->a) && rng(e->a).first >= 0) return ti(e->a);
                if (lin(e->a) && e->a->bits <= 32) { z3::expr x = ti(e->a); return z3::ite(x >= 0, x, x + c.int_val((int64_t)1 << e->a->bits)); }
                break;
            case O_ITE: if (e->bits >= 32) return z3::ite(tb(e->a), ti(e->b), ti(e->c)); break;
            default: break;
            }
            if (e->bits <= 8) {
                z3::expr x = tv(e), s = c.int_val(0);
                for (unsigned i = 0; i < e->bits; ++i) s = s + z3::ite(x.extract(i, i) == c.bv_val(1, 1), c.int_val(i + 1 == e->bits ? -(1 << i) : 1 << i), c.int_val(0));
                return s;
            }
            return W(Z3_mk_bv2int(c, tv(e), true));
        }();
        mi.insert({e, r});
        return r;
    }
    // unsigned value of a bit-vector; narrow ones as a sum of bits, which mixes better with arithmetic
    z3::expr u2i(const E* e)
    {
        if (e->op == O_VAR && e->bits == 8) return byte_int(e);
        if (e->bits <= 8 && e->op != O_ITE && e->op != O_CONST && lin(e) && rng(e).first >= 0 && (e->op == O_ADD || e->op == O_SUB || e->op == O_MUL || e->op == O_EXTRACT)) return ti(e);
        if (e->bits > 8) return lin(e) && rng(e).first >= 0 ? ti(e) : W(Z3_mk_bv2int(c, tv(e), false));
        z3::expr x = tv(e), r = c.int_val(0);
        for (unsigned i = 0; i < e->bits; ++i) r = r + z3::ite(x.extract(i, i) == c.bv_val(1, 1), c.int_val(1 << i), c.int_val(0));
        return r;
    }
    // unsigned decimal-digit sums: exact integer view (no wrap: at most 15 digits)
    z3::expr tu(const E* e)
    {
        if (e->bits == 64) switch (e->op) {
        case O_CONST: return c.int_val((int64_t)e->k);
        case O_ADD: return tu(e->a) + tu(e->b);
        case O_MUL: return tu(e->a) * tu(e->b);
        case O_ZEXT: return u2i(e->a);
        default: break;
        }
        return W(Z3_mk_bv2int(c, tv(e), false));
    }
    z3::expr tf(const E* e)
    {
        auto it = mf.find(e);
        if (it != mf.end()) return it->second;
        z3::expr r = real ? tr_(e) : tf_(e);
        mf.insert({e, r});
        return r;
    }
    // ti(e) as a real, conversions pushed to the variables
    z3::expr tir(const E* e)
    {
        if (lin(e)) switch (e->op) {
        case O_CONST: return W(Z3_mk_int2real(c, ti(e))).simplify();
        case O_SEXT: return tir(e->a);
        case O_ZEXT: if (rng(e->a).first >= 0) return tir(e->a); break;
        case O_ADD: if (fits(e)) return tir(e->a) + tir(e->b); break;
        case O_SUB: if (fits(e)) return tir(e->a) - tir(e->b); break;
        case O_MUL: if (fits(e)) return tir(e->a) * tir(e->b); break;
        default: break;
        }
        return W(Z3_mk_int2real(c, ti(e)));
    }
    // 1: never negative, -1: never positive, 0: not evident
    int sgn(const E* e)
    {
        switch (e->op) {
        case O_CONST: return d_of(e->k) >= 0 ? 1 : -1;
        case O_UI2F: case O_SI2F: { Rng r = rng(e->a); return r.first >= 0 ? 1 : r.second <= 0 && e->op == O_SI2F ? -1 : 0; }
        case O_FABS: case O_FSQRT: return 1;
        case O_FNEG: return -sgn(e->a);
        case O_FADD: { int a = sgn(e->a); return a && a == sgn(e->b) ? a : 0; }
        case O_FSUB: { int a = sgn(e->a); return a && a == -sgn(e->b) ? a : 0; }
        case O_FMUL: case O_FDIV: return sgn(e->a) * sgn(e->b);
        default: return 0;
        }
    }
    z3::expr tr_(const E* e)
    {
        z3::expr zero = c.real_val("0");
        switch (e->op) {
        case O_CONST: return realnum(d_of(e->k));
        case O_FVAR: return c.real_const(sh->var[e->k].name);
        case O_FADD: return tf(e->a) + tf(e->b);
        case O_FSUB: return tf(e->a) - tf(e->b);
        case O_FMUL: return tf(e->a) * tf(e->b);
        case O_FDIV: return tf(e->a) / tf(e->b);
        case O_FNEG: return -tf(e->a);
        case O_FABS: { z3::expr x = tf(e->a); return sgn(e->a) > 0 ? x : sgn(e->a) < 0 ? -x : z3::ite(x >= zero, x, -x); }
        case O_FITE: return z3::ite(tb(e->a), tf(e->b), tf(e->c));
        case O_FFLOOR: return W(Z3_mk_int2real(c, W(Z3_mk_real2int(c, tf(e->a)))));
        case O_FCEIL: return -W(Z3_mk_int2real(c, W(Z3_mk_real2int(c, -tf(e->a)))));
        case O_FTRUNC: { z3::expr x = tf(e->a); return z3::ite(x >= zero, W(Z3_mk_int2real(c, W(Z3_mk_real2int(c, x)))), -W(Z3_mk_int2real(c, W(Z3_mk_real2int(c, -x))))); }
        case O_FROUND: { z3::expr x = tf(e->a), h = c.real_val("1/2"); return z3::ite(x >= zero, W(Z3_mk_int2real(c, W(Z3_mk_real2int(c, x + h)))), -W(Z3_mk_int2real(c, W(Z3_mk_real2int(c, h - x))))); }
        case O_SI2F: return tir(e->a);
        case O_UI2F: if (lin(e->a) && rng(e->a).first >= 0) return tir(e->a); return W(Z3_mk_int2real(c, tu(e->a)));
        case O_FSQRT: {
            z3::expr x = tf(e->a);
            char nm[32]; snprintf(nm, 32, "!sqrt%llx", (unsigned long long)e->h);
            z3::expr r = c.real_const(nm);
            side_.insert({e, r >= zero && r * r == x});
            return r;
        }
        case O_UF1: case O_UF2: {
            static const char* N[] = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sinh", "cosh", "tanh", "atan2", "pow"};
            z3::sort R = c.real_sort();
            z3::expr x = tf(e->a);
            z3::expr one = c.real_val("1"), pi = realnum(M_PI), h = realnum(M_PI_2);
            if (e->op == O_UF2) {
                z3::expr y = tf(e->b);
                z3::func_decl f = c.function(N[e->k], R, R, R);
                z3::expr r = f(x, y);
                if (e->k == UF_ATAN2)   // x is the ordinate here
                    side_.insert({e, r >= -pi && r <= pi && z3::implies(x > zero, r > zero && r < pi) && z3::implies(x < zero, r < zero && r > -pi) &&
                                     z3::implies(x == zero && y > zero, r == zero) && z3::implies(x == zero && y < zero, r == pi) &&
                                     z3::implies(y == zero && x > zero, r == h) && z3::implies(y == zero && x < zero, r == -h)});
                else side_.insert({e, c.bool_val(true)});
                return r;
            }
            z3::func_decl f = c.function(N[e->k], R, R);
            z3::expr r = f(x);
            z3::expr ax = c.bool_val(true);
            z3::func_decl si = c.function("sin", R, R), co = c.function("cos", R, R);
            switch (e->k) {
            case UF_SIN: case UF_COS: ax = si(x) * si(x) + co(x) * co(x) == one && si(x) <= one && si(x) >= -one && co(x) <= one && co(x) >= -one && z3::implies(x == zero, si(x) == zero && co(x) == one); break;
            case UF_ACOS: ax = r >= zero && r <= pi && co(r) == x; break;
            case UF_ASIN: ax = r >= -h && r <= h && si(r) == x; break;
            case UF_ATAN: ax = r > -h && r < h && z3::implies(x > zero, r > zero) && z3::implies(x < zero, r < zero) && z3::implies(x == zero, r == zero);
                // monotone, and with a slope of at most 1: its values near some points
                for (double t : {1. / 7, 1. / 3, .5, .75, 1., 4. / 3, 2., 3., 7.}) {
                    ax = ax && z3::implies(x >= realnum(t - 1e-9), r >= realnum(atan(t) - 1e-8)) && z3::implies(x <= realnum(t + 1e-9), r <= realnum(atan(t) + 1e-8));
                    ax = ax && z3::implies(x >= realnum(-t - 1e-9), r >= realnum(-atan(t) - 1e-8)) && z3::implies(x <= realnum(-t + 1e-9), r <= realnum(-atan(t) + 1e-8));
                }
                break;
            case UF_EXP: ax = r > zero; break;
            case UF_COSH: ax = r >= one; break;
            case UF_TANH: ax = r > -one && r < one; break;
            default: break;
            }
            side_.insert({e, ax});
            return r;
        }
        default: throw std::runtime_error("real translation: op " + std::to_string(e->op));
        }
    }
    z3::expr tf_(const E* e)
    {
        auto f2 = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast, Z3_ast)) { z3::expr x = tf(e->a), y = tf(e->b), r = rm(); return W(f(c, r, x, y)); };
        auto rnd = [&](Z3_ast m) { z3::expr mm(c, m); z3::expr x = tf(e->a); return W(Z3_mk_fpa_round_to_integral(c, mm, x)); };
        switch (e->op) {
        case O_CONST: { z3::expr b = c.bv_val((uint64_t)e->k, 64); return W(Z3_mk_fpa_to_fp_bv(c, b, fs())); }
        case O_FVAR: { z3::expr b = c.bv_const(sh->var[e->k].name, 64); return W(Z3_mk_fpa_to_fp_bv(c, b, fs())); }
        case O_OFBITS: { z3::expr b = tv(e->a); return W(Z3_mk_fpa_to_fp_bv(c, b, fs())); }
        case O_FADD: return f2(Z3_mk_fpa_add);
        case O_FSUB: return f2(Z3_mk_fpa_sub);
        case O_FMUL: return f2(Z3_mk_fpa_mul);
        case O_FDIV: return f2(Z3_mk_fpa_div);
        case O_FNEG: return W(Z3_mk_fpa_neg(c, tf(e->a)));
        case O_FABS: return W(Z3_mk_fpa_abs(c, tf(e->a)));
        case O_FSQRT: { z3::expr x = tf(e->a), r = rm(); return W(Z3_mk_fpa_sqrt(c, r, x)); }
        case O_FITE: return z3::ite(tb(e->a), tf(e->b), tf(e->c));
        case O_FFLOOR: return rnd(Z3_mk_fpa_rtn(c));
        case O_FCEIL: return rnd(Z3_mk_fpa_rtp(c));
        case O_FTRUNC: return rnd(Z3_mk_fpa_rtz(c));
        case O_FROUND: return rnd(Z3_mk_fpa_rna(c));
        case O_SI2F: { z3::expr x = tv(e->a), r = rm(); return W(Z3_mk_fpa_to_fp_signed(c, r, x, fs())); }
        case O_UI2F: { z3::expr x = tv(e->a), r = rm(); return W(Z3_mk_fpa_to_fp_unsigned(c, r, x, fs())); }
        case O_UF1: { static const char* N[] = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sinh", "cosh", "tanh"}; return c.function(N[e->k], fs(), fs())(tf(e->a)); }
        case O_UF2: return c.function(e->k == UF_ATAN2 ? "atan2" : "pow", fs(), fs(), fs())(tf(e->a), tf(e->b));
        default: throw std::runtime_error("fp translation: op " + std::to_string(e->op));
        }
    }
};

// ------------------------------------------------------------------ worker
static uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

static uint64_t eval(const E* e, const std::vector<uint64_t>& in, std::unordered_map<const E*, uint64_t>& m)
{
    if (e->op == O_CONST) return e->k;
    if (e->op == O_VAR || e->op == O_FVAR) return in[e->k];
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    uint64_t a = eval(e->a, in, m), b = e->b ? eval(e->b, in, m) : 0, c = e->c ? eval(e->c, in, m) : 0;
    return m[e] = sym_eval_op(e, a, b, c);
}

static std::string show(const VarInfo& v, uint64_t x)
{
    char b[64];
    if (v.kind == V_REAL) snprintf(b, 64, "%.12g", d_of(x));
    else if (v.bits == 8) snprintf(b, 64, x >= 32 && x < 127 ? "%llu'%c'" : "%llu", (unsigned long long)x, (char)x);
    else if (v.bits == 32) snprintf(b, 64, "%d", (int)x);
    else snprintf(b, 64, "%lld", (long long)x);
    return b;
}

static std::string dump(const E* e, int depth = 0)
{
    if (!e) return "-";
    char b[64];
    if (e->op == O_CONST) { if (e->isf) snprintf(b, 64, "%g", d_of(e->k)); else snprintf(b, 64, "%lld", (long long)e->k); return b; }
    if (e->op == O_VAR || e->op == O_FVAR) { snprintf(b, 64, "v%d", (int)e->k); return b; }
    snprintf(b, 64, "op%d.%d", e->op, e->bits);
    if (depth > 14) return std::string(b) + "...";
    std::string s = std::string("(") + b + " " + dump(e->a, depth + 1);
    if (e->b) s += " " + dump(e->b, depth + 1);
    if (e->c) s += " " + dump(e->c, depth + 1);
    return s + ")";
}

struct Worker {
    Exec ex;
    std::unique_ptr<z3::context> ctx;
    int ctx_uses = 0;

    void loop()
    {
        for (;;) {
            Item it;
            {
                std::unique_lock<std::mutex> l(mu);
                cv.wait(l, [] { return stop || !queue_.empty() || !queue2_.empty() || busy == 0; });
                auto& q = queue_.empty() ? queue2_ : queue_;
                if (stop || q.empty()) { cv.notify_all(); return; }
                it = std::move(q.front());
                q.pop_front();
                ++busy;
            }
            std::vector<Item> out;
            try { process(it, out); }
            catch (z3::exception& e) { std::lock_guard<std::mutex> l(mu); fprintf(stderr, "z3: %s\n", e.msg()); S.q_unknown++; unknown_at[std::string("z3 exception: ") + e.msg()]++; }
            catch (std::exception& e) { std::lock_guard<std::mutex> l(mu); fprintf(stderr, "engine: %s\n", e.what()); S.q_unknown++; unknown_at[std::string("engine: ") + e.what()]++; }
            {
                std::lock_guard<std::mutex> l(mu);
                for (auto& o : out) (seen_dir.insert({o.pc, o.taken}).second ? queue_ : queue2_).push_back(std::move(o));
                --busy;
                if (elapsed() > TIME || !viol.empty()) stop = true;
                cv.notify_all();
            }
        }
    }

    void violation(const std::string& m)
    {
        Violation v;
        v.msg = m;
        for (uint32_t i = 0; i < ex.sh->n_var; ++i) {
            v.vars.push_back(ex.sh->var[i]);
            v.in[ex.sh->var[i].name] = ex.sh->var[i].cv;
        }
        std::lock_guard<std::mutex> l(mu);
        viol.push_back(v);
        stop = true;
    }

    void process(const Item& it, std::vector<Item>& out)
    {
        if (!ex.run(it.in)) throw std::runtime_error("executor died");
        Shared* sh = ex.sh;
        uint32_t n = sh->n_log;
        // account for the run
        {
            std::lock_guard<std::mutex> l(mu);
            S.runs++;
            S.branches += n;
            S.maxlog = std::max<uint64_t>(S.maxlog, n);
            S.stale += sh->stale_count;
            S.conc += sh->conc_count;
            S.ops += sh->n_ops;
            for (auto f : sh->fns) if (f) fns.insert(f);
            if (sh->status == RS_OK) S.ok++;
            if (sh->status == RS_ASSUME) S.assumed_out++;
            if (sh->status == RS_OVERFLOW) S.overflow++;
            Assign a;
            if (sh->n_reach || samples.size() < 6)
                for (uint32_t i = 0; i < sh->n_var; ++i) a[sh->var[i].name] = sh->var[i].cv;
            for (uint32_t i = 0; i < sh->n_reach; ++i) reach.insert({sh->reach[i], a});
            if (samples.size() < 6 && sh->status == RS_OK && (S.runs % 7 == 1)) {
                std::string s;
                for (uint32_t i = 0; i < sh->n_var; ++i) if (sh->var[i].name[0] != '!') s += (s.empty() ? "" : " ") + std::string(sh->var[i].name) + "=" + show(sh->var[i], sh->var[i].cv);
                samples.push_back(s);
            }
        }
        if (WIFSIGNALED(sh->wstatus)) {
            int sg = WTERMSIG(sh->wstatus);
            if (sg == SIGKILL && sh->status == RS_NONE) { std::lock_guard<std::mutex> l(mu); S.overflow++; unknown_at["run killed"]++; return; }
            violation(sg == SIGXCPU ? "the code does not terminate (CPU limit)" : std::string("crash: signal ") + strsignal(sg));
            return;
        }
        if (sh->status == RS_NONE) { violation("the process ended unexpectedly (exit status " + std::to_string(WEXITSTATUS(sh->wstatus)) + ")"); return; }
        if (sh->status == RS_EXC) { violation(std::string("uncaught exception ") + sh->note); return; }
        if (sh->status == RS_ASSERTFAIL) { violation(sh->msg[sh->fail_msg]); return; }
        // did the run take the direction the solver asked for?
        if (it.expect_kind >= 0) {
            const LogEnt* fl = it.bound && it.bound <= n ? &sh->log[it.bound - 1] : nullptr;
            bool good = fl && fl->cond;
            if (good && it.expect_kind != L_CONC) good = fl->cond->h == it.h && fl->taken == it.taken;
            if (!good && getenv("SYM_TRACEDIV")) { fprintf(stderr, "GOT %d %s\n", fl ? fl->taken : -1, fl && fl->cond ? dump(fl->cond).c_str() : "none"); std::string z; for (uint32_t v = 0; v < sh->n_var; ++v) z += std::string(sh->var[v].name) + "=" + show(sh->var[v], sh->var[v].cv) + " "; fprintf(stderr, "DIV %llx %d kind=%d pc=%lx %s\n", (unsigned long long)it.h, it.taken, it.expect_kind, (long)(it.pc - (uintptr_t)&__executable_start), z.c_str()); }
            if (!good) { std::lock_guard<std::mutex> l(mu); S.diverged++; if (it.expect_kind == L_ASSERT) S.a_spurious++; return; }
        }
        if (!ctx || ++ctx_uses > 300) { ctx = std::make_unique<z3::context>(); ctx_uses = 0; }
        z3::context& c = *ctx;
        Tr tr(c, sh->real_mode & 1, sh);
        std::vector<uint64_t> in(sh->n_var);
        for (uint32_t i = 0; i < sh->n_var; ++i) in[i] = sh->var[i].cv;
        // union-find over variables, constraints per group
        std::vector<int> uf(sh->n_var);
        for (size_t i = 0; i < uf.size(); ++i) uf[i] = i;
        auto find = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
        std::vector<std::vector<uint32_t>> grp(sh->n_var);
        std::unordered_set<const E*> seen;
        std::unordered_map<const E*, uint64_t> em;
        uint64_t bad = 0;
        struct Local { uint64_t q = 0, sat = 0, unsat = 0, unk = 0, hit = 0, as = 0, au = 0, asat = 0, aunk = 0, ac = 0, triv = 0; double t = 0; std::map<std::string, uint64_t> am, ua; std::map<uintptr_t, std::array<double, 3>> prof; } L;
        const bool PROF = getenv("SYM_PROF");

        for (uint32_t i = 0; i < n; ++i) {
            const LogEnt le = sh->log[i];
            if (le.kind == L_ASSERT) { if (i + 1 > it.bound || it.expect_kind < 0) { L.as++; L.am[sh->msg[le.msg]]++; } }
            if (!le.cond) { if (i + 1 > it.bound || it.expect_kind < 0) { L.ac++; } continue; }
            if ((eval(le.cond, in, em) & 1) != (le.cond->cv & 1) || (le.cond->cv & 1) != le.taken) ++bad;
            if (seen.count(le.cond)) { if (le.kind == L_ASSERT && i >= it.bound) L.au++; continue; }
            bool explore = le.kind != L_ASSUME && i >= it.bound;
            auto& vs = tr.vars(le.cond);
            if (explore && elapsed() < TIME) {
                // slice
                std::vector<uint32_t> slice;
                std::set<int> roots;
                for (auto v : vs) roots.insert(find(v));
                for (int r : roots) slice.insert(slice.end(), grp[r].begin(), grp[r].end());
                std::sort(slice.begin(), slice.end());
                uint64_t key = mixh(le.cond->h, 1 + le.taken);
                { std::vector<uint64_t> hs; for (auto k : slice) hs.push_back(mixh(sh->log[k].cond->h, sh->log[k].taken)); std::sort(hs.begin(), hs.end()); for (auto h : hs) key = mixh(key, h); }
                int res = -1;
                Assign model;
                const bool many = le.kind == L_CONC && (le.cond->op == O_EQ || le.cond->op == O_FEQ) && le.cond->a->bits > 1 && le.cond->b->op == O_CONST;
                auto emit = [&](const Assign& md) {
                    if (getenv("SYM_TRACEDIV")) fprintf(stderr, "WANT %llx not %d %s\n", (unsigned long long)le.cond->h, le.taken, dump(le.cond).c_str());
                    Item ni;
                    for (uint32_t v = 0; v < sh->n_var; ++v) ni.in[sh->var[v].name] = in[v];
                    for (auto& [k, v] : md) ni.in[k] = v;
                    ni.bound = i + 1;
                    ni.expect_kind = le.kind;
                    ni.h = le.cond->h;
                    ni.taken = !le.taken;
                    ni.pc = (uint64_t)le.pc;
                    out.push_back(std::move(ni));
                };
                if (!many) {
                    std::lock_guard<std::mutex> l(mu);
                    auto q = qcache.find(key);
                    if (q != qcache.end()) { res = q->second.first; model = q->second.second; }
                }
                if (res >= 0) L.hit++;
                else {
                    auto t0 = Clock::now();
                    z3::check_result cr = z3::unknown;
                    z3::expr_vector as(c);
                    std::set<const E*> sp;
                    auto add = [&](const E* e, bool taken) { z3::expr x = tr.tb(e); as.push_back(taken ? x : !x); for (auto s : tr.spec(e)) sp.insert(s); };
                    for (auto k : slice) add(sh->log[k].cond, sh->log[k].taken);
                    add(le.cond, !le.taken);
                    for (auto s : sp) if (s->op != O_VAR) tr.tf(s);
                    for (auto s : sp) {
                        auto si = tr.side_.find(s);
                        if (si != tr.side_.end()) as.push_back(si->second);
                        else if (s->op != O_VAR) throw std::runtime_error("no definition");
                    }
                    std::set<uint32_t> qv(vs.begin(), vs.end());
                    for (auto k : slice) for (auto v : tr.vars(sh->log[k].cond)) qv.insert(v);
                    std::set<uint32_t> fixed;
                    auto tryto = [&](const z3::expr_vector& a2, const char* tactic, unsigned ms) {
                        z3::solver s = tactic ? z3::tactic(c, tactic).mk_solver() : z3::solver(c);
                        z3::params p(c);
                        p.set("timeout", ms);
                        s.set(p);
                        for (auto x : a2) s.add(x);
                        z3::check_result r = s.check();
                        if (r == z3::sat && getmodel(s.get_model(), qv, tr, model, in, slice, le)) {
                            // values between the decimals of a variable: ask for values on the grid
                            bool nl = tr.nonlin(le.cond);
                            for (auto k : slice) nl = nl || tr.nonlin(sh->log[k].cond);
                            if (!nl) {
                                z3::params pp(c);
                                pp.set("timeout", std::min(ms, 400u));
                                s.set(pp);
                                for (auto v : qv) {
                                    VarInfo& vi = sh->var[v];
                                    if (vi.kind == V_BV || vi.decimals < 0) continue;
                                    s.add(z3::expr(c, Z3_mk_is_int(c, c.real_const(vi.name) * c.real_val(std::to_string((long long)pow(10, vi.decimals)).c_str()))));
                                }
                                if (s.check() == z3::sat) getmodel(s.get_model(), qv, tr, model, in, slice, le);
                                return r;
                            }
                            // one after the other
                            for (auto v : qv) {
                                VarInfo& vi = sh->var[v];
                                if (vi.kind == V_BV || vi.decimals < 0) continue;
                                double p = pow(10, vi.decimals), d;
                                memcpy(&d, &model[vi.name], 8);
                                std::string t = std::to_string((long long)std::llround(d * p)) + "/" + std::to_string((long long)p);
                                s.push();
                                s.add(c.real_const(vi.name) == c.real_val(t.c_str()));
                                if (s.check() != z3::sat) { s.pop(); continue; }
                                if (!getmodel(s.get_model(), qv, tr, model, in, slice, le)) break;
                            }
                        }
                        return r;
                    };
                    if (getenv("SYM_TRACEQ")) { fprintf(stderr, "Q%u slice=%zu vars=%zu ", i, slice.size(), qv.size()); if (getenv("SYM_DUMPQ")) { z3::solver s(c); for (auto x : as) s.add(x); fprintf(stderr, "%s\n", s.to_smt2().c_str()); } }
                    bool hashed = tr.hashed(le.cond);
                    for (auto k : slice) hashed = hashed || tr.hashed(sh->log[k].cond);
                    if (hashed && qv.size() <= 4) cr = tryto(as, nullptr, 300);
                    else if (sh->real_mode & 1) {
                        cr = tryto(as, nullptr, QMS / 4);
                        if (cr == z3::unknown) cr = tryto(as, "qfnra-nlsat", QMS);
                    } else
                        cr = tryto(as, nullptr, QMS);
                    // undecided: split on the values of a byte or two
                    std::function<z3::check_result(unsigned)> split = [&](unsigned depth) {
                        uint32_t best = ~0u;
                        std::vector<unsigned> dom;
                        for (auto v : qv) {
                            if (sh->var[v].kind != V_BV || sh->var[v].bits != 8 || fixed.count(v)) continue;
                            std::vector<unsigned> d;
                            std::vector<uint64_t> x = in;
                            for (unsigned b = 0; b < 256; ++b) {
                                x[v] = b;
                                bool ok = true;
                                for (auto k : slice) {
                                    auto& kv = tr.vars(sh->log[k].cond);
                                    if (kv.size() != 1) continue;
                                    if (kv[0] != v) continue;
                                    std::unordered_map<const E*, uint64_t> em2;
                                    if ((eval(sh->log[k].cond, x, em2) & 1) != sh->log[k].taken) { ok = false; break; }
                                }
                                if (ok) d.push_back(b);
                            }
                            if (best == ~0u || d.size() < dom.size()) { best = v; dom = d; }
                        }
                        if (best == ~0u) return z3::unknown;
                        bool unk = false;
                        fixed.insert(best);
                        for (unsigned b : dom) {
                            if (elapsed() > TIME) { unk = true; break; }
                            as.push_back(c.bv_const(sh->var[best].name, 8) == c.bv_val(b, 8));
                            z3::check_result r = depth && fixed.size() < qv.size() ? z3::unknown : tryto(as, nullptr, QMS);
                            if (r == z3::unknown && depth) r = split(depth - 1);
                            as.pop_back();
                            if (r == z3::sat) { fixed.erase(best); return r; }
                            if (r == z3::unknown) { unk = true; if (!depth) break; }
                        }
                        fixed.erase(best);
                        return unk ? z3::unknown : z3::unsat;
                    };
                    if (cr == z3::unknown) cr = split(1);
                    // a concretised value: enumerate every other value it can take
                    for (unsigned cnt = 0; many && cr == z3::sat; ++cnt) {
                        L.q++; L.sat++;
                        if (PROF) L.prof[le.pc][0]++;
                        emit(model);
                        if (cnt > 1100) { cr = z3::unknown; break; }
                        std::vector<uint64_t> x = in;
                        for (uint32_t v = 0; v < sh->n_var; ++v) { auto f = model.find(sh->var[v].name); if (f != model.end()) x[v] = f->second; }
                        std::unordered_map<const E*, uint64_t> em2;
                        uint64_t val = eval(le.cond->a, x, em2);
                        E k{};
                        k.op = O_CONST; k.bits = le.cond->a->bits; k.isf = le.cond->a->isf; k.k = k.cv = val;
                        as.push_back(k.isf ? (tr.real ? tr.tf(le.cond->a) != tr.realnum(d_of(val)) : !tr.W(Z3_mk_fpa_eq(c, tr.tf(le.cond->a), tr.tf_(&k)))) : tr.tv(le.cond->a) != c.bv_val((uint64_t)val, k.bits));
                        cr = tryto(as, nullptr, QMS);
                    }
                    res = cr == z3::sat ? 1 : cr == z3::unsat ? 0 : 2;
                    double dt = std::chrono::duration<double>(Clock::now() - t0).count();
                    if (getenv("SYM_TRACEQ")) fprintf(stderr, "-> %d %.3fs\n", res, dt);
                    L.t += dt;
                    if (PROF) { auto& a = L.prof[le.pc]; a[1]++; a[2] += dt; }
                    L.q++;
                    if (res != 2 && !many) { std::lock_guard<std::mutex> l(mu); qcache[key] = {res, model}; }
                }
                if (le.kind == L_ASSERT) (res == 0 ? L.au : res == 1 ? L.asat : L.aunk)++;
                (res == 0 ? L.unsat : res == 1 ? L.sat : L.unk)++;
                if (res == 2) { char b[160]; snprintf(b, 160, "%s pc=%lx", le.kind == L_ASSERT ? sh->msg[le.msg] : "branch", (long)(le.pc - (uintptr_t)&__executable_start)); L.ua[b]++; }
                if (res == 1 && PROF) L.prof[le.pc][0]++;
                if (res == 1) emit(model);
            }
            seen.insert(le.cond);
            // add to the groups
            int r = -1;
            for (auto v : vs) {
                int f = find(v);
                if (r < 0) r = f;
                else if (f != r) { grp[r].insert(grp[r].end(), grp[f].begin(), grp[f].end()); grp[f].clear(); uf[f] = r; }
            }
            if (r >= 0) grp[r].push_back(i);
        }
        std::lock_guard<std::mutex> l(mu);
        // a flipped branch must really be flipped
        if (it.expect_kind == L_ASSERT && getenv("SYM_TRACEDIV")) { std::string z; for (uint32_t v = 0; v < sh->n_var; ++v) z += std::string(sh->var[v].name) + "=" + show(sh->var[v], sh->var[v].cv) + " "; fprintf(stderr, "SPUR pc=%lx %s\n", (long)(it.pc - (uintptr_t)&__executable_start), z.c_str()); }
        if (it.expect_kind == L_ASSERT) S.a_spurious++;   // the assertion held on replay
        S.q += L.q; S.q_sat += L.sat; S.q_unsat += L.unsat; S.q_unknown += L.unk; S.cache_hits += L.hit; S.solver += L.t;
        S.asserts += L.as; S.a_unsat += L.au; S.a_sat += L.asat; S.a_unknown += L.aunk; S.a_concrete += L.ac;
        S.eval_bad += bad;
        for (auto& [k, v] : L.am) amsg[k] += v;
        for (auto& [k, v] : L.ua) unknown_at[k] += v;
        for (auto& [k, v] : L.prof) for (int i = 0; i < 3; ++i) prof[k][i] += v[i];
    }

    // true: a variable is between the decimals it should have
    bool getmodel(z3::model m, const std::set<uint32_t>& qv, Tr& tr, Assign& model, std::vector<uint64_t> in, const std::vector<uint32_t>& slice, const LogEnt& le)
    {
        Shared* sh = ex.sh;
        model.clear();
        std::map<uint32_t, std::pair<uint64_t, uint64_t>> alt;   // grid-rounded, raw
        for (auto v : qv) {
            VarInfo& vi = sh->var[v];
            if (vi.kind == V_BV) {
                uint64_t x = 0;
                if (tr.real && vi.bits >= 32) {
                    z3::expr e = m.eval(tr.c.int_const(vi.name), true);
                    int64_t y = 0;
                    e.is_numeral_i64(y);
                    x = (uint64_t)y;
                    if (vi.bits == 32) x &= 0xffffffffu;
                } else {
                    z3::expr e = m.eval(tr.c.bv_const(vi.name, vi.bits), true);
                    e.is_numeral_u64(x);
                }
                alt[v] = {x, x};
            } else if (!tr.real) {
                uint64_t x = 0;
                z3::expr e = m.eval(tr.c.bv_const(vi.name, 64), true);
                e.is_numeral_u64(x);
                alt[v] = {x, x};
            } else {
                z3::expr e = m.eval(tr.c.real_const(vi.name), true);
                double d = 0;
                std::string s = e.is_algebraic() ? std::string(Z3_get_numeral_decimal_string(tr.c, e, 25)) : std::string(Z3_get_numeral_decimal_string(tr.c, e, 25));
                if (!s.empty() && s.back() == '?') s.pop_back();
                d = strtod(s.c_str(), nullptr);
                double g = d;
                if (vi.decimals >= 0) { double p = pow(10, vi.decimals); g = std::round(d * p) / p; }
                alt[v] = {b_of(g), b_of(d)};
            }
        }
        auto good = [&](bool raw) {
            auto x = in;
            for (auto& [v, p] : alt) x[v] = raw ? p.second : p.first;
            std::unordered_map<const E*, uint64_t> em;
            if ((eval(le.cond, x, em) & 1) == le.taken) return false;
            for (auto k : slice) if ((eval(sh->log[k].cond, x, em) & 1) != sh->log[k].taken) return false;
            return true;
        };
        bool raw = tr.real && !good(false) && good(true);
        for (auto& [v, p] : alt) model[sh->var[v].name] = raw ? p.second : p.first;
        return raw;
    }
};

// ------------------------------------------------------------------ main
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

extern char __executable_start;
int main(int argc, char** argv)
{
    std::string name, out;
    bool list = false;
    const char* replay = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--harness=")) name = v;
        else if (auto v = val("--jobs=")) JOBS = atoi(v);
        else if (auto v = val("--time=")) TIME = atof(v);
        else if (auto v = val("--qms=")) QMS = atoi(v);
        else if (auto v = val("--out=")) out = v;
        else if (auto v = val("--cpu=")) CPU_LIMIT = atoi(v);
        else if (auto v = val("--replay=")) replay = strdup(v);
        else if (a == "--list") list = true;
    }
    for (auto* h = SymHarness::head(); h; h = h->next) {
        if (list) printf("%s\n", h->name);
        if (name == h->name) H = h;
    }
    if (list) return 0;
    if (!H) { fprintf(stderr, "no harness %s\n", name.c_str()); return 3; }
    T0 = Clock::now();
    signal(SIGPIPE, SIG_IGN);
    std::vector<Worker> ws(JOBS);
    for (auto& w : ws) w.ex.start();
    Item first{{}, 0, -1, 0, false};
    if (replay) {
        FILE* f = fopen(replay, "r");
        char nm[64];
        unsigned long long v;
        while (f && fscanf(f, "%63s %llu", nm, &v) == 2) first.in[nm] = v;
        JOBS = 1;
        ws[0].ex.run(first.in);
        Shared* sh = ws[0].ex.sh;
        printf("status=%d wstatus=%d log=%u msg=%s\n", sh->status, sh->wstatus, sh->n_log, sh->status == RS_ASSERTFAIL ? sh->msg[sh->fail_msg] : "");
        for (auto& w : ws) w.ex.end();
        return sh->status == RS_OK ? 0 : 1;
    }
    queue_.push_back(first);
    std::vector<std::thread> ts;
    for (auto& w : ws) ts.emplace_back([&w] { w.loop(); });
    for (auto& t : ts) t.join();
    for (auto& w : ws) w.ex.end();
    // report
    for (auto& [k, v] : prof) fprintf(stderr, "PROF %lx %.0f %.0f %.2f\n", (long)(k - (uintptr_t)&__executable_start), v[0], v[1], v[2]);
    std::string j = "{";
    auto num = [&](const char* k, double v) { char b[96]; snprintf(b, 96, "%s\"%s\":%.10g", j.size() > 1 ? "," : "", k, v); j += b; };
    j += "\"harness\":" + jstr(name);
    num("runs", S.runs); num("paths_ok", S.ok); num("assumed_out", S.assumed_out); num("overflow", S.overflow); num("branches", S.branches);
    num("queries", S.q); num("sat", S.q_sat); num("unsat", S.q_unsat); num("unknown", S.q_unknown); num("cache_hits", S.cache_hits);
    num("asserts", S.asserts); num("assert_unsat", S.a_unsat); num("assert_sat", S.a_sat); num("assert_unknown", S.a_unknown); num("assert_concrete", S.a_concrete);
    num("assert_unreproduced", S.a_spurious); num("diverged", S.diverged); num("eval_mismatch", S.eval_bad); num("stale", S.stale); num("concretised", S.conc);
    num("expr_nodes", S.ops); num("max_path_len", S.maxlog); num("solver_s", S.solver); num("wall_s", elapsed()); num("left", queue_.size() + queue2_.size()); num("branch_dirs", seen_dir.size());
    num("real_mode", H->real_mode & 1);
    num("complete", queue_.empty() && queue2_.empty() && !S.q_unknown && !S.overflow && !S.diverged && elapsed() <= TIME && viol.empty());
    j += ",\"reach\":[";
    bool f1 = true;
    for (auto& [k, v] : reach) { j += (f1 ? "" : ",") + jstr(k); f1 = false; }
    j += "],\"known\":{";
    f1 = true;
    for (auto& [k, v] : reach)
        if (k.compare(0, 6, "KNOWN:") == 0) {
            j += (f1 ? "" : ",") + jstr(k) + ":{";
            bool f2 = true;
            for (auto& [n, x] : v) { j += (f2 ? "" : ",") + jstr(n) + ":\"" + std::to_string(x) + "\""; f2 = false; }
            j += "}";
            f1 = false;
        }
    j += "},\"assertions\":{";
    f1 = true;
    for (auto& [k, v] : amsg) { j += (f1 ? "" : ",") + jstr(k) + ":" + std::to_string(v); f1 = false; }
    j += "},\"unknown_at\":{";
    f1 = true;
    for (auto& [k, v] : unknown_at) { j += (f1 ? "" : ",") + jstr(k) + ":" + std::to_string(v); f1 = false; }
    j += "},\"samples\":[";
    f1 = true;
    for (auto& k : samples) { j += (f1 ? "" : ",") + jstr(k); f1 = false; }
    j += "],\"fns\":[";
    f1 = true;
    for (auto k : fns) { j += (f1 ? "" : ",") + std::to_string(k - (uint64_t)&__executable_start); f1 = false; }
    j += "],\"violations\":[";
    f1 = true;
    for (auto& v : viol) {
        j += (f1 ? "" : ",") + std::string("{\"msg\":") + jstr(v.msg) + ",\"vars\":[";
        bool f2 = true;
        for (auto& x : v.vars) { j += (f2 ? "" : ",") + std::string("{\"name\":") + jstr(x.name) + ",\"raw\":\"" + std::to_string(x.cv) + "\",\"show\":" + jstr(show(x, x.cv)) + "}"; f2 = false; }
        j += "]}";
        f1 = false;
    }
    j += "]}";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(j.c_str(), f); fclose(f); } }
    else puts(j.c_str());
    return viol.empty() ? 0 : 1;
}
