// In-process part of the engine: builds symbolic expressions while the instrumented code runs.
// Compiled natively (never instrumented).
#include "expr.h"
#include <cerrno>
#include <climits>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>
#include <ctype.h>
#include <map>
#include <string>
#include <vector>

Shared* SH = nullptr;           // set by the driver
bool sym_on = false;            // true inside a run

extern "C" {
const E* __sym_args[64];
const void* __sym_byval[64];
void* __sym_callee;
void* __sym_done;
const E* __sym_ret[8];
void* __sym_ret_from;
}
static const E* va_save[64];

// ---------------------------------------------------------------- expressions
static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
}
static inline uint64_t mask(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static inline double d_of(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t b_of(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline int64_t sx(uint64_t v, unsigned b) { return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b); }

[[noreturn]] static void finish(int status)
{
    SH->status = status;
    _exit(0);
}

static E* cons_tab[1 << 18];
static std::vector<E*>* cons_over;

static void* arena(size_t n)
{
    n = (n + 15) & ~15ull;
    if (SH->arena_used + n > SH->arena_size) finish(RS_OVERFLOW);
    void* p = SH->arena + SH->arena_used;
    SH->arena_used += n;
    return p;
}

const E* mk(uint8_t op, uint8_t bits, bool isf, const E* a, const E* b, const E* c, uint64_t k, uint64_t cv)
{
    uint64_t h = mix(op * 131 + bits, k);
    if (op == O_TABLE) {
        h = op;
        const uint64_t* t = (const uint64_t*)k;
        for (int i = 0; i < 256; ++i) h = mix(h, t[i]);
    }
    if (a) h = mix(h, a->h);
    if (b) h = mix(h, b->h * 3);
    if (c) h = mix(h, c->h * 7);
    unsigned i = h & ((1 << 18) - 1);
    for (unsigned n = 0; n < 64; ++n, i = (i + 1) & ((1 << 18) - 1)) {
        E* e = cons_tab[i];
        if (!e) break;
        if (e->h == h && e->op == op && e->bits == bits && e->a == a && e->b == b && e->c == c && (e->k == k || op == O_TABLE)) return e;
    }
    E* e = (E*)arena(sizeof(E));
    *e = E{op, bits, isf, 0, SH->next_id++, a, b, c, k, cv, h};
    if (!cons_tab[i]) cons_tab[i] = e;
    SH->n_ops++;
    return e;
}
static const E* constant(uint64_t v, unsigned bits) { v &= mask(bits); return mk(O_CONST, bits, false, nullptr, nullptr, nullptr, v, v); }
static const E* constf(uint64_t v) { return mk(O_CONST, 64, true, nullptr, nullptr, nullptr, v, v); }
static inline bool isc(const E* e) { return e->op == O_CONST; }
static const E* as_bv(const E* e)
{
    if (!e->isf) return e;
    if (e->op == O_OFBITS) return e->a;
    return mk(O_BITS, 64, false, e, nullptr, nullptr, 0, e->cv);
}
static const E* as_f(const E* e)
{
    if (e->isf) return e;
    if (e->op == O_BITS) return e->a;
    if (isc(e)) return constf(e->k);
    return mk(O_OFBITS, 64, true, e, nullptr, nullptr, 0, e->cv);
}
static const E* norm(const E* e) { return e && isc(e) ? nullptr : e; }

static void log_ent(const E* cond, bool taken, int kind, uintptr_t pc, int msg = 0)
{
    if (SH->n_log >= MAX_LOG) finish(RS_OVERFLOW);
    LogEnt& l = SH->log[SH->n_log++];
    l.cond = cond;
    l.pc = pc;
    l.taken = taken;
    l.kind = kind;
    l.msg = msg;
}
static void fnmark(uintptr_t pc)
{
    unsigned i = (pc * 0x9e3779b97f4a7c15ull) >> 50;
    for (int n = 0; n < 32; ++n) {
        uint64_t& s = SH->fns[(i + n) & (MAX_FN - 1)];
        if (s == pc) return;
        if (!s) { s = pc; return; }
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))

static const E* mk_not(const E* e)
{
    if (isc(e)) return constant(!e->k, 1);
    if (e->op == O_EQ && e->a->bits == 1 && e->b->op == O_CONST && e->b->k == 0) return e->a;
    return mk(O_EQ, 1, false, e, constant(0, 1), nullptr, 0, !e->cv);
}
static const E* mk_and(const E* a, const E* b)
{
    if (isc(a)) return a->k ? b : a;
    if (isc(b)) return b->k ? a : b;
    if (a == b) return a;
    return mk(O_AND, 1, false, a, b, nullptr, 0, a->cv & b->cv);
}
static const E* mk_or(const E* a, const E* b)
{
    if (isc(a)) return a->k ? a : b;
    if (isc(b)) return b->k ? b : a;
    if (a == b) return a;
    return mk(O_OR, 1, false, a, b, nullptr, 0, a->cv | b->cv);
}
static const E* mk_extract(const E* e, unsigned off, unsigned bits);
static const E* mk_ext(unsigned op, const E* e, unsigned to);
static const E* mk_bin(unsigned op, unsigned bits, const E* a, const E* b);

// an integer as a linear form of byte variables (each counted from its least value), congruent to the
// expression modulo 2^bits; lets division and remainder by constants of digit sums be taken apart
struct LinForm { int n = 0; const E* v[24]; __int128 c[24]; __int128 c0 = 0; };
static bool lf_range(const LinForm& f, __int128& lo, __int128& hi)
{
    lo = hi = f.c0;
    for (int i = 0; i < f.n; ++i) {
        __int128 w = SH->var[f.v[i]->k].hi - SH->var[f.v[i]->k].lo;
        (f.c[i] < 0 ? lo : hi) += f.c[i] * w;
    }
    const __int128 L = (__int128)1 << 100;
    return lo > -L && hi < L;
}
static bool lf_add(LinForm& r, const LinForm& x, __int128 k)
{
    const __int128 L = (__int128)1 << 64;
    if (k > L || k < -L) return false;
    r.c0 += x.c0 * k;
    for (int i = 0; i < x.n; ++i) {
        int j = 0;
        while (j < r.n && r.v[j] != x.v[i]) ++j;
        if (j == r.n) { if (r.n == 24) return false; r.v[r.n] = x.v[i]; r.c[r.n++] = 0; }
        r.c[j] += x.c[i] * k;
        if (r.c[j] > L || r.c[j] < -L) return false;
    }
    if (r.c0 > ((__int128)1 << 70) || r.c0 < -((__int128)1 << 70)) return false;
    return true;
}
static bool linform(const E* e, LinForm& r, int depth = 0)
{
    if (depth > 40 || e->isf) return false;
    auto sgn = [](uint64_t k, unsigned bits) { return bits >= 64 ? (int64_t)k : (int64_t)(k << (64 - bits)) >> (64 - bits); };
    switch (e->op) {
    case O_CONST: r.c0 = sgn(e->k, e->bits); return true;
    case O_VAR:
        if (e->bits != 8 || SH->var[e->k].hi > 127) return false;
        r.n = 1; r.v[0] = e; r.c[0] = 1; r.c0 = SH->var[e->k].lo;
        return true;
    case O_ADD: case O_SUB: {
        LinForm x;
        return linform(e->a, r, depth + 1) && linform(e->b, x, depth + 1) && lf_add(r, x, e->op == O_ADD ? 1 : -1);
    }
    case O_MUL: case O_SHL: {
        if (!isc(e->b) || (e->op == O_SHL && e->b->k >= 63)) return false;
        LinForm x;
        return linform(e->a, x, depth + 1) && lf_add(r, x, e->op == O_MUL ? (__int128)sgn(e->b->k, e->bits) : (__int128)1 << e->b->k);
    }
    case O_EXTRACT: return e->k == 0 && linform(e->a, r, depth + 1);
    case O_SEXT: case O_ZEXT: {
        __int128 lo, hi;
        if (!linform(e->a, r, depth + 1) || !lf_range(r, lo, hi)) return false;
        unsigned m = e->a->bits;
        return e->op == O_SEXT ? lo >= -((__int128)1 << (m - 1)) && hi < (__int128)1 << (m - 1) : lo >= 0 && hi < (__int128)1 << m;
    }
    default: return false;
    }
}
static const E* lf_build(const LinForm& f, unsigned bits)
{
    const E* r = constant(0, bits);
    __int128 k = f.c0;
    for (int i = 0; i < f.n; ++i) {
        if (!f.c[i]) continue;
        const E* t = mk_ext(O_ZEXT, f.v[i], bits);
        k -= f.c[i] * (__int128)SH->var[f.v[i]->k].lo;
        r = mk_bin(O_ADD, bits, mk_bin(O_MUL, bits, t, constant((uint64_t)f.c[i] & mask(bits), bits)), r);
    }
    return mk_bin(O_ADD, bits, r, constant((uint64_t)k & mask(bits), bits));
}
// e / K or e % K for a digit sum, or null
static const E* lin_divrem(const E* e, uint64_t K, bool rem)
{
    LinForm f;
    if (!K || e->bits < 32 || !linform(e, f) || !f.n) return nullptr;
    __int128 lo, hi;
    if (!lf_range(f, lo, hi) || lo < 0 || hi >= (__int128)1 << e->bits) return nullptr;
    LinForm q = f, m = f;
    for (int i = 0; i < f.n; ++i) {
        if (f.c[i] < 0) return nullptr;
        q.c[i] = f.c[i] / K; m.c[i] = f.c[i] % K;
    }
    q.c0 = f.c0 / K; m.c0 = f.c0 % K;
    if (!lf_range(m, lo, hi) || lo < 0 || hi >= (__int128)K) return nullptr;
    return lf_build(rem ? m : q, e->bits);
}
static const E* mk_bin(unsigned op, unsigned bits, const E* a, const E* b)
{
    bool cmp = (op >= O_EQ && op <= O_SLE) || (op >= O_SADDO && op <= O_UMULO);
    uint64_t cv = sym_eval_op(nullptr, 0, 0, 0);
    (void)cv;
    E tmp{};
    tmp.op = op; tmp.bits = cmp ? 1 : bits; tmp.a = a; tmp.b = b;
    uint64_t r = sym_eval_op(&tmp, a->cv, b->cv, 0);
    if (isc(a) && isc(b)) return constant(r, cmp ? 1 : bits);
    switch (op) {
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
        if (isc(a)) std::swap(a, b);
        break;
    default: break;
    }
    if (isc(b)) {
        uint64_t k = b->k;
        switch (op) {
        case O_ADD: case O_SUB: case O_SHL: case O_LSHR: case O_ASHR: case O_OR: case O_XOR:
            if (k == 0) return a;
            if (op == O_OR && k == mask(bits)) return b;
            if (op == O_XOR && bits == 1) return mk_not(a);
            if (op == O_SUB) return mk_bin(O_ADD, bits, a, constant(-k, bits));
            if (op == O_LSHR && bits >= 32 && k < bits) if (const E* x = lin_divrem(a, (uint64_t)1 << k, false)) return x;
            if (op == O_ADD && a->op == O_ADD && isc(a->b)) return mk_bin(O_ADD, bits, a->a, constant(a->b->k + k, bits));
            break;
        case O_MUL: if (k == 1) return a; if (k == 0) return b; break;
        case O_UDIV: case O_SDIV: if (k == 1) return a;
            if (op == O_UDIV && bits >= 32) if (const E* x = lin_divrem(a, k, false)) return x;
            break;
        case O_UREM: if (bits >= 32) if (const E* x = lin_divrem(a, k, true)) return x; break;
        case O_AND:
            if (bits >= 32 && !(k & (k + 1)) && k) if (const E* x = lin_divrem(a, k + 1, true)) return x;
            if (k == mask(bits)) return a;
            if (k == 0) return b;
            if (a->op == O_ZEXT && (k & mask(a->a->bits)) == mask(a->a->bits)) return a;
            break;
        case O_EQ:
            if (a->bits == 1) return k ? a : mk_not(a);
            if (a->op == O_ZEXT) {
                if (k > mask(a->a->bits)) return constant(0, 1);
                return mk_bin(O_EQ, a->a->bits, a->a, constant(k, a->a->bits));
            }
            if (a->op == O_SEXT) {
                if ((uint64_t)(sx(k, a->a->bits) & mask(a->bits)) != k) return constant(0, 1);
                return mk_bin(O_EQ, a->a->bits, a->a, constant(k, a->a->bits));
            }
            if (a->op == O_ADD && isc(a->b)) return mk_bin(O_EQ, a->bits, a->a, constant(k - a->b->k, a->bits));
            if (a->op == O_ITE && isc(a->b) && isc(a->c)) {
                if (a->b->k == k && a->c->k == k) return constant(1, 1);
                if (a->b->k == k) return a->a;
                if (a->c->k == k) return mk_not(a->a);
                return constant(0, 1);
            }
            break;
        case O_ULT:
            if (k == 0) return constant(0, 1);
            if (a->op == O_ZEXT && k > mask(a->a->bits)) return constant(1, 1);
            if (a->op == O_ZEXT) return mk_bin(O_ULT, a->a->bits, a->a, constant(k, a->a->bits));
            break;
        default: break;
        }
    }
    if (op == O_EQ && a->bits >= 32 && !isc(a) && !isc(b)) {
        LinForm x, y;
        if (linform(a, x) && linform(b, y) && lf_add(x, y, -1)) {
            bool z = true;
            for (int i = 0; i < x.n; ++i) z = z && !x.c[i];
            if (z) return constant(((uint64_t)x.c0 & mask(a->bits)) == 0, 1);
        }
    }
    if (a == b) {
        switch (op) {
        case O_EQ: case O_ULE: case O_SLE: return constant(1, 1);
        case O_ULT: case O_SLT: return constant(0, 1);
        case O_SUB: case O_XOR: return constant(0, bits);
        case O_AND: case O_OR: case O_UMIN: case O_UMAX: case O_SMIN: case O_SMAX: return a;
        default: break;
        }
    }
    return mk(op, cmp ? 1 : bits, false, a, b, nullptr, 0, r);
}
static const E* mk_ext(unsigned op, const E* e, unsigned to)
{
    if (e->bits == to) return e;
    uint64_t r = op == O_SEXT ? (uint64_t)sx(e->cv, e->bits) & mask(to) : e->cv;
    if (isc(e)) return constant(r, to);
    if (e->op == O_ZEXT) return mk_ext(O_ZEXT, e->a, to);
    return mk(op, to, false, e, nullptr, nullptr, 0, r);
}
static const E* mk_extract(const E* e, unsigned off, unsigned bits)
{
    if (off == 0 && bits == e->bits) return e;
    uint64_t r = (e->cv >> off) & mask(bits);
    if (isc(e)) return constant(r, bits);
    if (e->op == O_EXTRACT) return mk_extract(e->a, off + (unsigned)e->k, bits);
    if (e->op == O_ZEXT || e->op == O_SEXT) {
        if (off + bits <= e->a->bits) return mk_extract(e->a, off, bits);
        if (e->op == O_ZEXT && off >= e->a->bits) return constant(0, bits);
        if (e->op == O_ZEXT && off == 0) return mk_ext(O_ZEXT, e->a, bits);
        if (e->op == O_SEXT && off == 0) return mk_ext(O_SEXT, e->a, bits);
    }
    if (e->op == O_CONCAT) {    // a: high, b: low
        unsigned lo = e->b->bits;
        if (off + bits <= lo) return mk_extract(e->b, off, bits);
        if (off >= lo) return mk_extract(e->a, off - lo, bits);
    }
    if (e->op == O_ITE && isc(e->b) && isc(e->c)) {
        const E *x = mk_extract(e->b, off, bits), *y = mk_extract(e->c, off, bits);
        if (x == y) return x;
        return mk(O_ITE, bits, false, e->a, x, y, 0, r);
    }
    if (e->op == O_SHL && isc(e->b) && e->b->k < e->bits) {
        unsigned k = e->b->k;
        if (off + bits <= k) return constant(0, bits);
        if (off >= k) return mk_extract(e->a, off - k, bits);
    }
    if (e->op == O_LSHR && isc(e->b) && e->b->k < e->bits && off + bits + e->b->k <= e->bits) return mk_extract(e->a, off + e->b->k, bits);
    if (bits >= 8 && (e->op == O_AND || e->op == O_OR || e->op == O_XOR))
        return mk_bin(e->op, bits, mk_extract(e->a, off, bits), mk_extract(e->b, off, bits));
    if (off == 0 && (bits == 8 || bits == 32) && (e->op == O_ADD || e->op == O_SUB))
        return mk_bin(e->op, bits, mk_extract(e->a, 0, bits), mk_extract(e->b, 0, bits));
    return mk(O_EXTRACT, bits, false, e, nullptr, nullptr, off, r);
}
static const E* mk_concat(const E* hi, const E* lo)
{
    unsigned bits = hi->bits + lo->bits;
    uint64_t r = (hi->cv << lo->bits) | lo->cv;
    if (isc(hi) && isc(lo)) return constant(r, bits);
    if (isc(hi) && hi->k == 0) return mk_ext(O_ZEXT, lo, bits);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->bits) return mk_extract(hi->a, lo->k, bits);
    return mk(O_CONCAT, bits, false, hi, lo, nullptr, 0, r);
}
static const E* mk_ite(const E* c, const E* t, const E* f)
{
    if (isc(c)) return c->k ? t : f;
    if (t == f) return t;
    if (t->isf || f->isf) {
        t = as_f(t); f = as_f(f);
        return mk(O_FITE, 64, true, c, t, f, 0, c->cv ? t->cv : f->cv);
    }
    if (t->bits == 1 && isc(t) && isc(f)) return t->k ? c : mk_not(c);
    if (t->bits == 1 && isc(f)) return f->k ? mk_or(mk_not(c), t) : mk_and(c, t);
    if (t->bits == 1 && isc(t)) return t->k ? mk_or(c, f) : mk_and(mk_not(c), f);
    return mk(O_ITE, t->bits, false, c, t, f, 0, c->cv ? t->cv : f->cv);
}
static const E* mk_f1(unsigned op, const E* a, uint64_t cv) { return mk(op, 64, true, a, nullptr, nullptr, 0, cv); }
static const E* mk_uf(unsigned uf, const E* a, const E* b, double cv) { return mk(b ? O_UF2 : O_UF1, 64, true, a, b, nullptr, uf, b_of(cv)); }

// O_DIG nodes are the bytes of formatted numbers: they can be copied but any computation on them
// sees the concrete character (the text layout is not symbolic, the number it denotes is).
static bool opaque(const E* e) { return e && e->op == O_DIG; }

extern "C" {

static void conc_pc(const E* s, uint64_t v, uintptr_t pc)
{
    if (!s || isc(s) || opaque(s)) return;
    if (s->isf) {
        const E* c = mk(O_FEQ, 1, false, s, constf(s->cv), nullptr, 0, 1);
        log_ent(c, 1, L_CONC, pc);
    } else if (s->bits == 1) {
        log_ent(s, s->cv, L_CONC, pc);
    } else {
        const E* c = mk_bin(O_EQ, s->bits, s, constant(s->cv, s->bits));
        if (!isc(c)) log_ent(c, 1, L_CONC, pc);
    }
    SH->conc_count++;
    fnmark(pc);
}
void __sym_conc(const E* s, uint64_t v) { if (s) conc_pc(s, v, PC); }

// signed interval of an integer expression
struct Rng { __int128 lo, hi; };
static Rng rfull(unsigned bits) { return {-((__int128)1 << (bits - 1)), ((__int128)1 << (bits - 1)) - 1}; }
static Rng rng(const E* e, int depth = 0)
{
    Rng f = rfull(e->bits);
    if (!depth) {
        LinForm x;
        __int128 lo, hi;
        if (linform(e, x) && lf_range(x, lo, hi) && lo >= f.lo && hi <= f.hi) return {lo, hi};
    }
    if (depth > 24) return f;
    switch (e->op) {
    case O_CONST: { int64_t v = e->bits >= 64 ? (int64_t)e->k : (int64_t)(e->k << (64 - e->bits)) >> (64 - e->bits); return {v, v}; }
    case O_VAR: if (e->bits == 8 && SH->var[e->k].hi <= 127) return {SH->var[e->k].lo, SH->var[e->k].hi}; return f;
    case O_SEXT: return rng(e->a, depth + 1);
    case O_ZEXT: { Rng x = rng(e->a, depth + 1); return x.lo >= 0 ? x : Rng{0, ((__int128)1 << e->a->bits) - 1}; }
    case O_EXTRACT: { if (e->k) return f; Rng x = rng(e->a, depth + 1); return x.lo >= f.lo && x.hi <= f.hi ? x : f; }
    case O_ITE: { Rng x = rng(e->b, depth + 1), y = rng(e->c, depth + 1); return {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; }
    case O_ADD: case O_SUB: case O_MUL: {
        Rng x = rng(e->a, depth + 1), y = rng(e->b, depth + 1), r;
        if (e->op == O_ADD) r = {x.lo + y.lo, x.hi + y.hi};
        else if (e->op == O_SUB) r = {x.lo - y.hi, x.hi - y.lo};
        else {
            const __int128 L = (__int128)1 << 60;
            if (x.lo < -L || x.hi > L || y.lo < -L || y.hi > L) return f;
            __int128 v[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
            r = {*std::min_element(v, v + 4), *std::max_element(v, v + 4)};
        }
        return r.lo >= f.lo && r.hi <= f.hi ? r : f;
    }
    default: return f;
    }
}
static bool exact_int(Rng r) { return r.lo > -((__int128)1 << 52) && r.hi < ((__int128)1 << 52); }
// the 64-bit integer a double expression is exactly equal to, or null
static const E* fint(const E* e, int depth = 0)
{
    if (depth > 24) return nullptr;
    switch (e->op) {
    case O_CONST: {
        double d = d_of(e->k);
        if (!(std::fabs(d) < 4e15) || d != std::trunc(d)) return nullptr;
        return constant((uint64_t)(int64_t)d, 64);
    }
    case O_SI2F: { const E* x = mk_ext(O_SEXT, e->a, 64); return exact_int(rng(x)) ? x : nullptr; }
    case O_UI2F: {
        const E* x = e->a->bits < 64 ? mk_ext(O_ZEXT, e->a, 64) : e->a;
        Rng r = rng(x);
        return exact_int(r) && r.lo >= 0 ? x : nullptr;
    }
    case O_FNEG: { const E* x = fint(e->a, depth + 1); return x ? mk_bin(O_SUB, 64, constant(0, 64), x) : nullptr; }
    case O_FADD: case O_FSUB: case O_FMUL: {
        const E* x = fint(e->a, depth + 1);
        if (!x) return nullptr;
        const E* y = fint(e->b, depth + 1);
        if (!y) return nullptr;
        const E* r = mk_bin(e->op == O_FADD ? O_ADD : e->op == O_FSUB ? O_SUB : O_MUL, 64, x, y);
        return exact_int(rng(r)) ? r : nullptr;
    }
    case O_FITE: {
        const E* x = fint(e->b, depth + 1);
        if (!x) return nullptr;
        const E* y = fint(e->c, depth + 1);
        return y ? mk(O_ITE, 64, false, e->a, x, y, 0, e->a->cv ? x->cv : y->cv) : nullptr;
    }
    default: return nullptr;
    }
}

// the same expression with another concrete value (-0 and +0 in real arithmetic)
static const E* recv(const E* e, uint64_t v)
{
    if (e->cv == v) return e;
    E* n = (E*)arena(sizeof(E));
    *n = *e;
    n->id = SH->next_id++;
    n->cv = v;
    return n;
}

const E* __sym_bin(uint32_t op, uint32_t bits, const E* a, const E* b, uint64_t va, uint64_t vb, uint64_t vr)
{
    if (!a && !b) return nullptr;
    if (opaque(a) || opaque(b)) {
        if (opaque(a)) a = nullptr;
        if (opaque(b)) b = nullptr;
        if (!a && !b) return nullptr;
    }
    fnmark(PC);
    if (op >= 0x200) {
        if (op == 0x301) {  // is_fpclass: in real mode NaN/inf never arise symbolically
            if ((SH->real_mode & 1)) return nullptr;
            conc_pc(a, va, PC);
            return nullptr;
        }
        unsigned pred = op - 0x200;
        a = a ? as_f(a) : constf(va);
        b = b ? as_f(b) : constf(vb);
        double x = d_of(a->cv), y = d_of(b->cv);
        auto EQ = [&] { return mk(O_FEQ, 1, false, a, b, nullptr, 0, x == y); };
        auto LT = [&](const E* p, const E* q) { return mk(O_FLT, 1, false, p, q, nullptr, 0, d_of(p->cv) < d_of(q->cv)); };
        auto LE = [&](const E* p, const E* q) { return mk(O_FLE, 1, false, p, q, nullptr, 0, d_of(p->cv) <= d_of(q->cv)); };
        auto UNO = [&] {
            if ((SH->real_mode & 1)) return constant(x != x || y != y, 1);
            return mk(O_FUNO, 1, false, a, b, nullptr, 0, x != x || y != y);
        };
        if ((SH->real_mode & 1) && (x != x || y != y)) return nullptr;
        const E* r = nullptr;
        if (!(SH->real_mode & 1)) {
            const E* ia = fint(a);
            const E* ib = ia ? fint(b) : nullptr;
            if (ib) {
                auto eq = [&] { return mk_bin(O_EQ, 64, ia, ib); };
                auto lt = [&](const E* p, const E* q) { return mk_bin(O_SLT, 64, p, q); };
                auto le = [&](const E* p, const E* q) { return mk_bin(O_SLE, 64, p, q); };
                switch (pred) {
                case 1: case 9: r = eq(); break;
                case 2: case 10: r = lt(ib, ia); break;
                case 3: case 11: r = le(ib, ia); break;
                case 4: case 12: r = lt(ia, ib); break;
                case 5: case 13: r = le(ia, ib); break;
                case 6: case 14: r = mk_not(eq()); break;
                case 7: r = constant(1, 1); break;
                case 8: r = constant(0, 1); break;
                default: return nullptr;
                }
                return norm(r);
            }
        }
        switch (pred) {
        case 1: r = EQ(); break;
        case 2: r = LT(b, a); break;
        case 3: r = LE(b, a); break;
        case 4: r = LT(a, b); break;
        case 5: r = LE(a, b); break;
        case 6: r = mk_and(mk_not(EQ()), mk_not(UNO())); break;
        case 7: r = mk_not(UNO()); break;
        case 8: r = UNO(); break;
        case 9: r = mk_or(EQ(), UNO()); break;
        case 10: r = mk_not(LE(a, b)); break;
        case 11: r = mk_not(LT(a, b)); break;
        case 12: r = mk_not(LE(b, a)); break;
        case 13: r = mk_not(LT(b, a)); break;
        case 14: r = mk_not(EQ()); break;
        default: return nullptr;
        }
        return norm(r);
    }
    bool neg = op & 0x100;
    op &= 0xff;
    if ((op >= O_FADD && op <= O_FREM) || op == O_FMIN || op == O_FMAX) {
        a = a ? as_f(a) : constf(va);
        b = b ? as_f(b) : constf(vb);
        if (op == O_FREM) { conc_pc(a, va, PC); conc_pc(b, vb, PC); return nullptr; }
        double x = d_of(a->cv), y = d_of(b->cv), r = d_of(vr);
        if ((SH->real_mode & 1)) {
            if (op == O_FDIV && !isc(b)) {
                const E* z = mk(O_FEQ, 1, false, b, constf(0), nullptr, 0, y == 0);
                log_ent(z, y == 0, L_BRANCH, PC);
            }
            if (op == O_FDIV && y == 0) {
                // infinity of the sign of the dividend, or nan
                if (!isc(a)) {
                    log_ent(mk(O_FLT, 1, false, a, constf(0), nullptr, 0, x < 0), x < 0, L_BRANCH, PC);
                    if (!(x < 0)) log_ent(mk(O_FEQ, 1, false, a, constf(0), nullptr, 0, x == 0), x == 0, L_BRANCH, PC);
                }
                return nullptr;
            }
            if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(r)) { return nullptr; }
            if (op == O_FMIN || op == O_FMAX) {
                const E* lt = mk(O_FLT, 1, false, a, b, nullptr, 0, x < y);
                return op == O_FMIN ? mk_ite(lt, a, b) : mk_ite(lt, b, a);
            }
            if (op == O_FMUL && ((isc(a) && x == 0) || (isc(b) && y == 0))) return nullptr;
            if ((op == O_FMUL || op == O_FDIV) && isc(b) && y == 1) return recv(a, vr);
            if (op == O_FMUL && isc(a) && x == 1) return recv(b, vr);
            if ((op == O_FADD || op == O_FSUB) && isc(b) && y == 0) return recv(a, vr);
            if (op == O_FADD && isc(a) && x == 0) return recv(b, vr);
            if (op == O_FSUB && a == b) return nullptr;
        }
        if (op == O_FMIN || op == O_FMAX) { conc_pc(a, va, PC); conc_pc(b, vb, PC); return nullptr; }
        if ((op == O_FADD || op == O_FMUL) && a->h > b->h) std::swap(a, b);
        return mk(op, 64, true, a, b, nullptr, 0, vr);
    }
    a = a ? as_bv(a) : constant(va, bits);
    b = b ? as_bv(b) : constant(vb, bits);
    if (a->bits != bits || b->bits != bits) return nullptr;
    const E* r = mk_bin(op, bits, a, b);
    if (neg) r = mk_not(r);
    return norm(r);
}

const E* __sym_cast(uint32_t op, uint32_t from, uint32_t to, const E* s, uint64_t v, uint64_t vr)
{
    if (!s) return nullptr;
    if (opaque(s))   // a character of a formatted number on its way through int_type
        return (op == O_ZEXT || op == O_SEXT || (op == O_EXTRACT && to >= 8)) ? s : nullptr;
    fnmark(PC);
    switch (op) {
    case O_ZEXT: case O_SEXT: return norm(mk_ext(op, as_bv(s), to));
    case O_EXTRACT: return norm(mk_extract(as_bv(s), 0, to));
    case O_SI2F: case O_UI2F:
        return mk(op, 64, true, as_bv(s), nullptr, nullptr, 0, vr);
    case O_F2SI: case O_F2UI: {
        s = as_f(s);
        if (const E* i = fint(s)) {
            Rng r = rng(i), f = rfull(to);
            if (op == O_F2SI ? r.lo >= f.lo && r.hi <= f.hi : r.lo >= 0 && r.hi <= f.hi * 2 + 1) return norm(mk_extract(i, 0, to));
        }
        if (s->op == O_SI2F && op == O_F2SI) {
            if (s->a->bits <= 32 && to >= s->a->bits) return norm(mk_ext(O_SEXT, s->a, to));
        }
        return mk(op, to, false, s, nullptr, nullptr, 0, vr & mask(to));
    }
    case O_FNEG: s = as_f(s); return s->op == O_FNEG ? recv(s->a, vr) : mk_f1(op, s, vr);
    case O_FABS: s = as_f(s); if (s->op == O_FABS) return recv(s, vr); return mk_f1(op, s, vr);
    case O_FSQRT: {
        s = as_f(s);
        if ((SH->real_mode & 1)) {
            const E* n = mk(O_FLT, 1, false, s, constf(0), nullptr, 0, d_of(s->cv) < 0);
            log_ent(n, d_of(s->cv) < 0, L_BRANCH, PC);
            if (d_of(s->cv) < 0 || !std::isfinite(d_of(s->cv))) return nullptr;
        }
        return mk_f1(op, s, vr);
    }
    case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FROUND: return mk_f1(op, as_f(s), vr);
    case 0x300: {   // llvm.abs
        s = as_bv(s);
        const E* z = constant(0, s->bits);
        return norm(mk_ite(mk_bin(O_SLT, s->bits, s, z), mk_bin(O_SUB, s->bits, z, s), s));
    }
    default: return nullptr;
    }
}

const E* __sym_select(uint32_t bits, const E* c, const E* t, const E* f, uint64_t vc, uint64_t vt, uint64_t vf)
{
    if (!c && !t && !f) return nullptr;
    bool isf = bits & 0x100;
    bits &= 0xff;
    if (!c || opaque(c)) return vc ? t : f;
    if (opaque(t) || opaque(f)) { conc_pc(c, vc, PC); return vc ? t : f; }
    fnmark(PC);
    if (isf) {
        t = t ? as_f(t) : constf(vt);
        f = f ? as_f(f) : constf(vf);
        if ((SH->real_mode & 1) && (!std::isfinite(d_of(t->cv)) || !std::isfinite(d_of(f->cv)))) { conc_pc(c, vc, PC); return vc ? norm(t) : norm(f); }
    } else {
        t = t ? as_bv(t) : constant(vt, bits);
        f = f ? as_bv(f) : constant(vf, bits);
        if (t->bits != bits || f->bits != bits) return nullptr;
    }
    return norm(mk_ite(c, t, f));
}

void __sym_branch(const E* s, bool c)
{
    if (!s || isc(s) || opaque(s)) return;
    fnmark(PC);
    log_ent(s, c, L_BRANCH, PC);
}

void __sym_switch(const E* s, uint64_t v, const uint64_t* cs, uint64_t n, uint32_t bits)
{
    if (!s || isc(s) || opaque(s)) return;
    fnmark(PC);
    s = as_bv(s);
    for (uint64_t i = 0; i < n; ++i) {
        const E* e = mk_bin(O_EQ, bits, s, constant(cs[i], bits));
        bool t = v == cs[i];
        if (!isc(e)) log_ent(e, t, L_BRANCH, PC);
        if (t) break;
    }
}

// ---------------------------------------------------------------- shadow memory
struct Page { uintptr_t no; uint64_t e[4096]; };
static uint8_t filt[65536];
static std::map<uintptr_t, Page*>* pages;
static Page* last_page;

static Page* find_page(uintptr_t no)
{
    if (!filt[no & 0xffff]) return nullptr;
    if (last_page && last_page->no == no) return last_page;
    auto it = pages->find(no);
    if (it == pages->end()) return nullptr;
    return last_page = it->second;
}
static Page* get_page(uintptr_t no)
{
    if (Page* p = find_page(no)) return p;
    if (!pages) pages = new std::map<uintptr_t, Page*>;
    filt[no & 0xffff] = 1;
    Page* p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p->no = no;
    (*pages)[no] = p;
    return p;
}
static inline uint64_t sh_get(uintptr_t a)
{
    Page* p = find_page(a >> 12);
    return p ? p->e[a & 4095] : 0;
}
static inline void sh_set(uintptr_t a, uint64_t v)
{
    if (!v) {
        Page* p = find_page(a >> 12);
        if (p) p->e[a & 4095] = 0;
    } else
        get_page(a >> 12)->e[a & 4095] = v;
}
static void sh_clear(uintptr_t a, size_t n)
{
    if (!pages) return;
    uintptr_t end = a + n;
    while (a < end) {
        uintptr_t pe = ((a >> 12) + 1) << 12;
        if (pe > end) pe = end;
        if (Page* p = find_page(a >> 12))
            memset(&p->e[a & 4095], 0, (pe - a) * 8);
        a = pe;
    }
}
static inline bool any_shadow(uintptr_t a, size_t n)
{
    for (uintptr_t p = a >> 12; p <= (a + n - 1) >> 12; ++p)
        if (filt[p & 0xffff]) return true;
    return false;
}

// 8-bit expression of the byte at a, or null
static const E* byte_at(uintptr_t a)
{
    uint64_t v = sh_get(a);
    if (!v) return nullptr;
    const E* e = (const E*)(v & ~7ull);
    unsigned i = v & 7;
    if (((e->cv >> (8 * i)) & 0xff) != *(const uint8_t*)a) { SH->stale_count++; sh_set(a, 0); return nullptr; }
    if (e->op == O_DIG) return e;
    if (e->isf && (SH->real_mode & 1)) {
        // a part of a double: meaningful only while the whole double is still there
        bool whole = true;
        for (unsigned k = 0; k < 8; ++k) whole = whole && sh_get(a - i + k) == ((uint64_t)e | k);
        if (whole) { uint64_t m; memcpy(&m, (const void*)(a - i), 8); whole = m == e->cv; }
        if (whole) conc_pc(e, e->cv, PC);
        else SH->stale_count++;
        sh_set(a, 0);
        return nullptr;
    }
    return norm(mk_extract(as_bv(e), 8 * i, 8));
}

const E* __sym_load(const void* ptr, uint64_t n)
{
    uintptr_t a = (uintptr_t)ptr;
    if (!filt[(a >> 12) & 0xffff] && !filt[((a + n - 1) >> 12) & 0xffff]) return nullptr;
    uint64_t s[8];
    bool any = false;
    for (unsigned i = 0; i < n; ++i) any |= (s[i] = sh_get(a + i)) != 0;
    if (!any) return nullptr;
    const E* e0 = (const E*)(s[0] & ~7ull);
    if (e0) {
        unsigned i0 = s[0] & 7, i = 1;
        for (; i < n; ++i)
            if (s[i] != s[0] + i || (s[i] & 7) != i0 + i) break;
        if (i == n) {
            uint64_t mem = 0;
            memcpy(&mem, ptr, n);
            if (((e0->cv >> (8 * i0)) & mask(8 * n)) == mem) {
                if (i0 == 0 && e0->bits == 8 * n) return e0;
                if (e0->op == O_DIG) return e0;
                if (!(e0->isf && (SH->real_mode & 1))) return norm(mk_extract(as_bv(e0), 8 * i0, 8 * n));
            } else if (e0->op != O_DIG) {
                // overwritten by code that is not instrumented
                SH->stale_count++;
                sh_clear(a, n);
                return nullptr;
            }
        }
    }
    const E* r = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        const E* b = byte_at(a + i);
        if (opaque(b) && n > 1) b = nullptr;
        if (n == 1) return b;
        if (!b) b = constant(*((const uint8_t*)ptr + i), 8);
        r = r ? mk_concat(b, r) : b;
    }
    return norm(r);
}

void __sym_store(void* ptr, uint64_t n, const E* s)
{
    uintptr_t a = (uintptr_t)ptr;
    if (!s || isc(s)) {
        if (!filt[(a >> 12) & 0xffff] && !filt[((a + n - 1) >> 12) & 0xffff]) return;
        sh_clear(a, n);
        return;
    }
    if (s->bits != 8 * n && !opaque(s)) { sh_clear(a, n); conc_pc(s, s->cv, PC); return; }
    for (unsigned i = 0; i < n; ++i) sh_set(a + i, (uint64_t)s | i);
}

void __sym_memcpy(void* d, const void* s, uint64_t n)
{
    if (!n) return;
    uintptr_t a = (uintptr_t)d, b = (uintptr_t)s;
    if (!b) { if (any_shadow(a, n)) sh_clear(a, n); return; }
    if (!any_shadow(b, n)) { if (any_shadow(a, n)) sh_clear(a, n); return; }
    std::vector<uint64_t> t(n);
    for (uint64_t i = 0; i < n; ++i) t[i] = sh_get(b + i);
    for (uint64_t i = 0; i < n; ++i) sh_set(a + i, t[i]);
}
void __sym_memset(void* d, const E* s, uint64_t n)
{
    if (!n) return;
    uintptr_t a = (uintptr_t)d;
    if (!s || isc(s)) { if (any_shadow(a, n)) sh_clear(a, n); return; }
    for (uint64_t i = 0; i < n; ++i) sh_set(a + i, (uint64_t)s);
}

// ---------------------------------------------------------------- symbolic addresses
static uint64_t eval_with(const E* e, const E* var, uint64_t v, std::map<const E*, uint64_t>& memo)
{
    if (e == var) return v;
    if (!e->a) return e->cv;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    uint64_t a = eval_with(e->a, var, v, memo);
    uint64_t b = e->b ? eval_with(e->b, var, v, memo) : 0;
    uint64_t c = e->c ? eval_with(e->c, var, v, memo) : 0;
    return memo[e] = sym_eval_op(e, a, b, c);
}
// the unique 8-bit-or-narrower sub-expression the address depends on
static bool pivot(const E* e, const E*& p)
{
    if (isc(e)) return true;
    if (!e->isf && e->bits <= 8) {
        if (p && p != e) return false;
        p = e;
        return true;
    }
    if (!e->a || e->isf) return false;
    return pivot(e->a, p) && (!e->b || pivot(e->b, p)) && (!e->c || pivot(e->c, p));
}
static bool readable(const void* p, size_t n, void* out)
{
    struct iovec l{out, n}, r{(void*)p, n};
    return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}

const E* __sym_load_addr(const void* ptr, const E* sa, uint64_t n)
{
    if (!sa || isc(sa) || opaque(sa)) return __sym_load(ptr, n);
    const E* p = nullptr;
    if (n <= 8 && !sa->isf && pivot(sa, p) && p) {
        uint64_t* t = (uint64_t*)arena(256 * 8);
        bool ok = true;
        uint64_t ads[256], lo = ~0ull, hi = 0;
        for (unsigned v = 0; v < 256; ++v) {
            t[v] = 0;
            if (v > mask(p->bits)) continue;
            std::map<const E*, uint64_t> memo;
            ads[v] = eval_with(sa, p, v, memo);
            lo = std::min(lo, ads[v]);
            hi = std::max(hi, ads[v]);
        }
        static char blk[8192];
        bool whole = hi - lo + n <= sizeof blk && readable((void*)lo, hi - lo + n, blk);
        for (unsigned v = 0; v <= mask(p->bits) && v < 256; ++v) {
            if (whole) memcpy(&t[v], blk + (ads[v] - lo), n);
            else if (!readable((void*)ads[v], n, &t[v])) { t[v] = 0; continue; }
            if (any_shadow(ads[v], n) && __sym_load((void*)ads[v], n)) { ok = false; break; }
        }
        if (ok) {
            bool same = true;
            for (unsigned v = 1; v <= mask(p->bits); ++v) same &= t[v] == t[0];
            if (same) return nullptr;
            fnmark(PC);
            return mk(O_TABLE, 8 * n, false, p, nullptr, nullptr, (uint64_t)t, t[p->cv]);
        }
    }
    conc_pc(sa, (uint64_t)ptr, PC);
    return __sym_load(ptr, n);
}

void __sym_va_entry(void* fn, uint32_t nfixed)
{
    bool ok = __sym_callee == fn;
    for (unsigned i = 0; i < 63; ++i) va_save[i] = nullptr;
    if (ok)
        for (unsigned i = nfixed; i < 64 && i < nfixed + 8; ++i) va_save[i - nfixed] = __sym_args[i];
    __sym_callee = nullptr;
}

// ---------------------------------------------------------------- library models
#define WRAP_ARG(i) (ok_ ? __sym_args[i] : nullptr)
#define WRAP_BEGIN(f) bool ok_ = __sym_callee == (void*)f; (void)ok_; __sym_callee = nullptr;
#define WRAP_RET(f, e) do { __sym_ret[0] = (e); __sym_ret_from = (void*)f; } while (0)

size_t __symw_strlen(const char* s)
{
    WRAP_BEGIN(__symw_strlen)
    size_t i = 0;
    for (;; ++i) {
        const E* b = byte_at((uintptr_t)s + i);
        if (b && !opaque(b)) {
            const E* z = mk_bin(O_EQ, 8, b, constant(0, 8));
            if (!isc(z)) log_ent(z, s[i] == 0, L_BRANCH, PC);
        }
        if (!s[i]) break;
    }
    WRAP_RET(__symw_strlen, nullptr);
    return i;
}
static int cmp_model(const void* f, const char* a, const char* b, size_t n, bool stop0, bool eqonly, uintptr_t pc)
{
    // concrete result
    int r = 0;
    size_t m = n;
    for (size_t i = 0; i < n; ++i) {
        unsigned char x = a[i], y = b[i];
        if (x != y) { r = x < y ? -1 : 1; m = i + 1; break; }
        if (stop0 && !x) { m = i + 1; break; }
    }
    bool any = false;
    size_t lim = stop0 ? m : n;
    for (size_t i = 0; i < lim && !any; ++i) {
        const E *x = byte_at((uintptr_t)a + i), *y = byte_at((uintptr_t)b + i);
        any = (x && !opaque(x)) || (y && !opaque(y));
    }
    const E* res = nullptr;
    if (any) {
        fnmark(pc);
        if (stop0) {    // strings: branch byte by byte
            for (size_t i = 0; i < lim; ++i) {
                const E *x = byte_at((uintptr_t)a + i), *y = byte_at((uintptr_t)b + i);
                if (opaque(x)) x = nullptr;
                if (opaque(y)) y = nullptr;
                if (!x && !y) continue;
                bool c = !x || !y;
                uint8_t k = x ? b[i] : a[i];
                const E* xe = x ? x : constant((uint8_t)a[i], 8);
                const E* ye = y ? y : constant((uint8_t)b[i], 8);
                const E* eq = mk_bin(O_EQ, 8, xe, ye);
                if (!isc(eq)) log_ent(eq, a[i] == b[i], L_BRANCH, pc);
                if (a[i] != b[i]) {
                    const E* lt = mk_bin(O_ULT, 8, xe, ye);
                    if (!isc(lt)) log_ent(lt, (uint8_t)a[i] < (uint8_t)b[i], L_BRANCH, pc);
                } else if (!(c && k)) {
                    const E* z = mk_bin(O_EQ, 8, xe, constant(0, 8));
                    if (!isc(z)) log_ent(z, a[i] == 0, L_BRANCH, pc);
                }
            }
        } else {
            const E* e = constant(0, 32);
            for (size_t i = n; i-- > 0;) {
                const E *x = byte_at((uintptr_t)a + i), *y = byte_at((uintptr_t)b + i);
                if (opaque(x)) x = nullptr;
                if (opaque(y)) y = nullptr;
                const E* xe = x ? x : constant((uint8_t)a[i], 8);
                const E* ye = y ? y : constant((uint8_t)b[i], 8);
                const E* d = eqonly ? constant(1, 32) : mk_ite(mk_bin(O_ULT, 8, xe, ye), constant(-1, 32), constant(1, 32));
                e = mk_ite(mk_bin(O_EQ, 8, xe, ye), e, d);
            }
            res = norm(e);
            if (eqonly && r) r = 1;
        }
    } else if (eqonly && r)
        r = 1;
    WRAP_RET(f, res);
    return r;
}
int __symw_memcmp(const void* a, const void* b, size_t n) { WRAP_BEGIN(__symw_memcmp) conc_pc(WRAP_ARG(2), n, PC); return cmp_model((void*)__symw_memcmp, (const char*)a, (const char*)b, n, false, false, PC); }
int __symw_bcmp(const void* a, const void* b, size_t n) { WRAP_BEGIN(__symw_bcmp) conc_pc(WRAP_ARG(2), n, PC); return cmp_model((void*)__symw_bcmp, (const char*)a, (const char*)b, n, false, true, PC); }
int __symw_strcmp(const char* a, const char* b) { WRAP_BEGIN(__symw_strcmp) return cmp_model((void*)__symw_strcmp, a, b, SIZE_MAX, true, false, PC); }
int __symw_strncmp(const char* a, const char* b, size_t n) { WRAP_BEGIN(__symw_strncmp) conc_pc(WRAP_ARG(2), n, PC); return cmp_model((void*)__symw_strncmp, a, b, n, true, false, PC); }
void* __symw_memchr(const void* s, int c, size_t n)
{
    WRAP_BEGIN(__symw_memchr)
    const E* sc = WRAP_ARG(1);
    conc_pc(WRAP_ARG(2), n, PC);
    const unsigned char* p = (const unsigned char*)s;
    const E* ce = sc && !opaque(sc) ? mk_extract(as_bv(sc), 0, 8) : constant(c, 8);
    void* r = nullptr;
    for (size_t i = 0; i < n; ++i) {
        const E* b = byte_at((uintptr_t)p + i);
        if (opaque(b)) b = nullptr;
        if (b || !isc(ce)) {
            const E* eq = mk_bin(O_EQ, 8, b ? b : constant(p[i], 8), ce);
            if (!isc(eq)) log_ent(eq, p[i] == (unsigned char)c, L_BRANCH, PC);
        }
        if (p[i] == (unsigned char)c) { r = (void*)(p + i); break; }
    }
    WRAP_RET(__symw_memchr, nullptr);
    return r;
}
void* __symw_memcpy(void* d, const void* s, size_t n) { WRAP_BEGIN(__symw_memcpy) conc_pc(WRAP_ARG(2), n, PC); __sym_memcpy(d, s, n); memcpy(d, s, n); WRAP_RET(__symw_memcpy, nullptr); return d; }
void* __symw_memmove(void* d, const void* s, size_t n) { WRAP_BEGIN(__symw_memmove) conc_pc(WRAP_ARG(2), n, PC); __sym_memcpy(d, s, n); memmove(d, s, n); WRAP_RET(__symw_memmove, nullptr); return d; }
void* __symw_memset(void* d, int c, size_t n) { WRAP_BEGIN(__symw_memset) const E* x = WRAP_ARG(1); __sym_memset(d, x ? mk_extract(as_bv(x), 0, 8) : nullptr, n); memset(d, c, n); WRAP_RET(__symw_memset, nullptr); return d; }

static int ctype_model(void* f, int c, const E* s, int (*fn)(int), bool delta)
{
    int r = fn(c);
    const E* e = nullptr;
    if (s && !opaque(s)) {
        s = as_bv(s);
        const E* lo = mk_extract(s, 0, 8);
        uint64_t* t = (uint64_t*)arena(256 * 8);
        for (int v = 0; v < 256; ++v) t[v] = (uint32_t)(delta ? fn(v) - v : fn(v));
        bool same = true;
        for (int v = 1; v < 256; ++v) same &= t[v] == t[0];
        if (!same) {
            e = mk(O_TABLE, 32, false, lo, nullptr, nullptr, (uint64_t)t, t[lo->cv]);
            if (delta) e = mk_bin(O_ADD, 32, s, e);
            e = norm(e);
        } else if (delta)
            e = s;
    }
    WRAP_RET(f, e);
    return r;
}
#define CT(n, d) int __symw_##n(int c) { WRAP_BEGIN(__symw_##n) fnmark(PC); return ctype_model((void*)__symw_##n, c, WRAP_ARG(0), n, d); }
CT(isdigit, false) CT(isalpha, false) CT(isalnum, false) CT(isspace, false) CT(isupper, false) CT(islower, false) CT(isprint, false) CT(ispunct, false)
CT(isxdigit, false) CT(iscntrl, false) CT(isgraph, false) CT(isblank, false) CT(toupper, true) CT(tolower, true)

static bool is_pow_half(double d) { return d == 0.5; }
static double uf1(void* f, unsigned uf, double x, const E* s, double r)
{
    const E* e = nullptr;
    if (s) {
        s = as_f(s);
        if ((SH->real_mode & 1) && !std::isfinite(r)) e = nullptr;
        else e = mk_uf(uf, s, nullptr, r);
    }
    WRAP_RET(f, e);
    return r;
}
static void dom_branch(const E* s, double lo, double hi, uintptr_t pc)
{
    if (!s || !(SH->real_mode & 1)) return;
    s = as_f(s);
    double v = d_of(s->cv);
    log_ent(mk(O_FLT, 1, false, s, constf(b_of(lo)), nullptr, 0, v < lo), v < lo, L_BRANCH, pc);
    if (!(v < lo)) log_ent(mk(O_FLT, 1, false, constf(b_of(hi)), s, nullptr, 0, hi < v), hi < v, L_BRANCH, pc);
}
#define UF1W(n, u) double __symw_##n(double x) { WRAP_BEGIN(__symw_##n) return uf1((void*)__symw_##n, u, x, WRAP_ARG(0), n(x)); }
UF1W(sin, UF_SIN) UF1W(cos, UF_COS) UF1W(tan, UF_TAN) UF1W(atan, UF_ATAN) UF1W(exp, UF_EXP)
UF1W(sinh, UF_SINH) UF1W(cosh, UF_COSH) UF1W(tanh, UF_TANH)
double __symw_log(double x) { WRAP_BEGIN(__symw_log) auto a = WRAP_ARG(0); dom_branch(a, 4.9e-324, 1e308, PC); return uf1((void*)__symw_log, UF_LOG, x, a, log(x)); }
double __symw_log10(double x) { WRAP_BEGIN(__symw_log10) auto a = WRAP_ARG(0); dom_branch(a, 4.9e-324, 1e308, PC); return uf1((void*)__symw_log10, UF_LOG10, x, a, log10(x)); }
double __symw_asin(double x) { WRAP_BEGIN(__symw_asin) auto a = WRAP_ARG(0); dom_branch(a, -1, 1, PC); return uf1((void*)__symw_asin, UF_ASIN, x, a, asin(x)); }
double __symw_acos(double x) { WRAP_BEGIN(__symw_acos) auto a = WRAP_ARG(0); dom_branch(a, -1, 1, PC); return uf1((void*)__symw_acos, UF_ACOS, x, a, acos(x)); }
double __symw_sqrt(double x)
{
    WRAP_BEGIN(__symw_sqrt)
    const E* a = WRAP_ARG(0);
    double r = sqrt(x);
    const E* e = a ? __sym_cast(O_FSQRT, 64, 64, a, b_of(x), b_of(r)) : nullptr;
    WRAP_RET(__symw_sqrt, e);
    return r;
}
#define CASTW(n, op) double __symw_##n(double x) { WRAP_BEGIN(__symw_##n) const E* a = WRAP_ARG(0); double r = n(x); WRAP_RET(__symw_##n, a ? __sym_cast(op, 64, 64, a, b_of(x), b_of(r)) : nullptr); return r; }
CASTW(fabs, O_FABS) CASTW(floor, O_FFLOOR) CASTW(ceil, O_FCEIL) CASTW(round, O_FROUND) CASTW(trunc, O_FTRUNC)
long __symw_lround(double x)
{
    WRAP_BEGIN(__symw_lround)
    const E* a = WRAP_ARG(0);
    long r = lround(x);
    const E* e = nullptr;
    if (a) e = __sym_cast(O_F2SI, 64, 64, __sym_cast(O_FROUND, 64, 64, a, b_of(x), b_of(round(x))), b_of(round(x)), (uint64_t)r);
    WRAP_RET(__symw_lround, e);
    return r;
}
double __symw_atan2(double y, double x)
{
    WRAP_BEGIN(__symw_atan2)
    const E *a = WRAP_ARG(0), *b = WRAP_ARG(1);
    double r = atan2(y, x);
    const E* e = nullptr;
    if (a || b) e = mk_uf(UF_ATAN2, a ? as_f(a) : constf(b_of(y)), b ? as_f(b) : constf(b_of(x)), r);
    WRAP_RET(__symw_atan2, e);
    return r;
}
double __symw_pow(double x, double y)
{
    WRAP_BEGIN(__symw_pow)
    const E *a = WRAP_ARG(0), *b = WRAP_ARG(1);
    double r = pow(x, y);
    const E* e = nullptr;
    if (a && !b && y == (int)y && y >= 0 && y <= 8) {
        a = as_f(a);
        if (y > 0) {
            e = a;
            double acc = x;
            for (int i = 1; i < (int)y; ++i) { acc *= x; e = mk(O_FMUL, 64, true, e, a, nullptr, 0, b_of(acc)); }
            r = acc;
        }
    } else if (a && !b && is_pow_half(y)) {
        r = sqrt(x);
        e = __sym_cast(O_FSQRT, 64, 64, a, b_of(x), b_of(r));
    } else if (a || b)
        e = std::isfinite(r) ? mk_uf(UF_POW, a ? as_f(a) : constf(b_of(x)), b ? as_f(b) : constf(b_of(y)), r) : nullptr;
    WRAP_RET(__symw_pow, e);
    return r;
}
double __symw_hypot(double x, double y)
{
    WRAP_BEGIN(__symw_hypot)
    const E *a = WRAP_ARG(0), *b = WRAP_ARG(1);
    const E* e = nullptr;
    double r = hypot(x, y);
    if (a || b) {
        const E* xx = __sym_bin(O_FMUL, 64, a, a, b_of(x), b_of(x), b_of(x * x));
        const E* yy = __sym_bin(O_FMUL, 64, b, b, b_of(y), b_of(y), b_of(y * y));
        const E* ss = __sym_bin(O_FADD, 64, xx, yy, b_of(x * x), b_of(y * y), b_of(x * x + y * y));
        r = sqrt(x * x + y * y);
        e = __sym_cast(O_FSQRT, 64, 64, ss, b_of(x * x + y * y), b_of(r));
    }
    WRAP_RET(__symw_hypot, e);
    return r;
}
double __symw_fmod(double x, double y)
{
    WRAP_BEGIN(__symw_fmod)
    const E *a = WRAP_ARG(0), *b = WRAP_ARG(1);
    double r = fmod(x, y);
    const E* e = nullptr;
    if (a && !b && y != 0 && (SH->real_mode & 1) && std::isfinite(x)) {
        // x - trunc(x / y) * y
        const E* ye = constf(b_of(y));
        const E* q = mk(O_FDIV, 64, true, as_f(a), ye, nullptr, 0, b_of(x / y));
        const E* t = mk_f1(O_FTRUNC, q, b_of(trunc(x / y)));
        const E* m = mk(O_FMUL, 64, true, t, ye, nullptr, 0, b_of(trunc(x / y) * y));
        e = mk(O_FSUB, 64, true, as_f(a), m, nullptr, 0, b_of(r));
    } else {
        if (a) conc_pc(a, 0, PC);
        if (b) conc_pc(b, 0, PC);
    }
    WRAP_RET(__symw_fmod, e);
    return r;
}
double __symw_fmax(double x, double y) { WRAP_BEGIN(__symw_fmax) const E *a = WRAP_ARG(0), *b = WRAP_ARG(1); double r = fmax(x, y); WRAP_RET(__symw_fmax, a || b ? __sym_bin(O_FMAX, 64, a, b, b_of(x), b_of(y), b_of(r)) : nullptr); return r; }
double __symw_fmin(double x, double y) { WRAP_BEGIN(__symw_fmin) const E *a = WRAP_ARG(0), *b = WRAP_ARG(1); double r = fmin(x, y); WRAP_RET(__symw_fmin, a || b ? __sym_bin(O_FMIN, 64, a, b, b_of(x), b_of(y), b_of(r)) : nullptr); return r; }
double __symw_modf(double x, double* ip)
{
    WRAP_BEGIN(__symw_modf)
    const E* a = WRAP_ARG(0);
    double r = modf(x, ip);
    const E *t = nullptr, *e = nullptr;
    if (a) {
        t = mk_f1(O_FTRUNC, as_f(a), b_of(*ip));
        e = mk(O_FSUB, 64, true, as_f(a), t, nullptr, 0, b_of(r));
    }
    __sym_store(ip, 8, t);
    WRAP_RET(__symw_modf, e);
    return r;
}

// allocation: fresh memory is concrete
void* __symw__Znwm(size_t n) { __sym_callee = nullptr; void* p = ::operator new(n); if (pages) sh_clear((uintptr_t)p, n); WRAP_RET(__symw__Znwm, nullptr); return p; }
void* __symw__Znam(size_t n) { __sym_callee = nullptr; void* p = ::operator new[](n); if (pages) sh_clear((uintptr_t)p, n); WRAP_RET(__symw__Znam, nullptr); return p; }
void* __symw_malloc(size_t n) { __sym_callee = nullptr; void* p = malloc(n); if (pages && p) sh_clear((uintptr_t)p, n); WRAP_RET(__symw_malloc, nullptr); return p; }
void* __symw_calloc(size_t m, size_t n) { __sym_callee = nullptr; void* p = calloc(m, n); if (pages && p) sh_clear((uintptr_t)p, m * n); WRAP_RET(__symw_calloc, nullptr); return p; }
void* __symw_realloc(void* o, size_t n) { __sym_callee = nullptr; void* p = malloc(n); if (p) { sh_clear((uintptr_t)p, n); if (o) { size_t old = 0; (void)old; __sym_memcpy(p, o, n); memcpy(p, o, n); } } WRAP_RET(__symw_realloc, nullptr); return p; }

// ---------------------------------------------------------------- numbers in text
struct Scan {
    const char* p;
    uintptr_t pc;
    const E* sym() { const E* b = byte_at((uintptr_t)p); return opaque(b) ? nullptr : b; }
    const E* dig() { const E* b = byte_at((uintptr_t)p); return opaque(b) ? b : nullptr; }
    bool is_digit()
    {
        bool r = *p >= '0' && *p <= '9';
        if (const E* b = sym()) {
            const E* e = mk_bin(O_ULT, 8, mk_bin(O_SUB, 8, b, constant('0', 8)), constant(10, 8));
            if (!isc(e)) log_ent(e, r, L_BRANCH, pc);
        }
        return r;
    }
    bool is(char c)
    {
        bool r = *p == c;
        if (const E* b = sym()) {
            const E* e = mk_bin(O_EQ, 8, b, constant((uint8_t)c, 8));
            if (!isc(e)) log_ent(e, r, L_BRANCH, pc);
        }
        return r;
    }
    bool is_space()
    {
        bool r = *p == ' ' || (*p >= 9 && *p <= 13);
        if (const E* b = sym()) {
            const E* e = mk_or(mk_bin(O_EQ, 8, b, constant(' ', 8)), mk_bin(O_ULT, 8, mk_bin(O_SUB, 8, b, constant(9, 8)), constant(5, 8)));
            if (!isc(e)) log_ent(e, r, L_BRANCH, pc);
        }
        return r;
    }
};

double __symw_strtod(const char* s, char** end)
{
    WRAP_BEGIN(__symw_strtod)
    Scan c{s, PC};
    int saved = errno;
    char* ne;
    errno = 0;
    double nat = strtod(s, &ne);
    int nerr = errno;
    errno = saved;
    auto done = [&](const char* e, const E* ex, double v) {
        if (end) { *end = (char*)e; __sym_store(end, 8, nullptr); }
        if (nerr) errno = nerr;
        WRAP_RET(__symw_strtod, ex);
        return v;
    };
    bool any = false;
    for (const char* q = s; q <= ne; ++q) any |= sh_get((uintptr_t)q) != 0;
    if (!any) return done(ne, nullptr, nat);
    fnmark(PC);
    while (c.is_space()) ++c.p;
    bool neg = false;
    if (c.is('-')) { neg = true; ++c.p; }
    else if (c.is('+')) ++c.p;
    // text produced by a formatted symbolic number
    if (const E* d = c.dig()) {
        const E* val = d->a;
        const char* txt = (const char*)(uintptr_t)d->k;   // full text the number was printed as
        unsigned idx = d->flag;
        if (idx == 0) {
            const char* q = c.p;
            unsigned i = 0;
            bool good = true;
            while (q < ne && txt[i]) {
                uint64_t v = sh_get((uintptr_t)q);
                const E* e = (const E*)(v & ~7ull);
                if (*q != txt[i]) { good = false; break; }
                if (*q != '.' && !(e && e->op == O_DIG && e->k == d->k && e->flag == i)) { good = false; break; }
                ++q; ++i;
            }
            good = good && q == ne;
            bool seen_dot = memchr(txt, '.', i) != nullptr;
            for (unsigned j = i; txt[j]; ++j) {
                if (txt[j] == '.') { seen_dot = true; continue; }
                if (txt[j] != '0' || !seen_dot) good = false;
            }
            if (good) return done(ne, neg ? __sym_cast(O_FNEG, 64, 64, val, 0, b_of(nat)) : val, nat);
        }
        // a rearranged number: fall back to its concrete value
        conc_pc(val, val->cv, PC);
        return done(ne, nullptr, nat);
    }
    // decimal digits
    const char* start = c.p;
    const E* N = constant(0, 64);
    int nd = 0, nf = 0;
    bool dot = false;
    for (;;) {
        if (c.is_digit()) {
            const E* b = c.sym();
            const E* dv = b ? mk_ext(O_ZEXT, mk_bin(O_SUB, 8, b, constant('0', 8)), 64) : constant(*c.p - '0', 64);
            N = mk_bin(O_ADD, 64, mk_bin(O_MUL, 64, N, constant(10, 64)), dv);
            ++nd;
            if (dot) ++nf;
            ++c.p;
        } else if (!dot && c.is('.')) {
            dot = true;
            ++c.p;
        } else
            break;
    }
    if (nd == 0) {
        // inf, nan or no number
        if (c.p == start) { c.is('i'); c.is('I'); c.is('n'); c.is('N'); }
        return done(ne, nullptr, nat);
    }
    if (nd == 1 && !dot && start[0] == '0' && (c.is('x') || c.is('X'))) {
        for (const char* q = s; q <= ne; ++q) { c.p = q; if (const E* b = c.sym()) conc_pc(b, *q, PC); }
        return done(ne, nullptr, nat);
    }
    if (c.is('e') || c.is('E')) {
        for (const char* q = s; q <= ne; ++q) { c.p = q; if (const E* b = c.sym()) conc_pc(b, *q, PC); }
        return done(ne, nullptr, nat);
    }
    if (isc(N)) return done(ne, nullptr, nat);
    if (nd > 15) {
        for (const char* q = s; q < ne; ++q) { c.p = q; if (const E* b = c.sym()) conc_pc(b, *q, PC); }
        return done(ne, nullptr, nat);
    }
    double p10 = 1;
    for (int i = 0; i < nf; ++i) p10 *= 10;
    const E* f = mk(O_UI2F, 64, true, N, nullptr, nullptr, 0, b_of((double)N->cv));
    if (nf) f = mk(O_FDIV, 64, true, f, constf(b_of(p10)), nullptr, 0, b_of((double)N->cv / p10));
    if (neg) f = mk_f1(O_FNEG, f, b_of(-d_of(f->cv)));
    return done(c.p, f, nat);
}

static long strtol_model(void* f, const char* s, char** end, int base, bool uns, uintptr_t pc)
{
    Scan c{s, pc};
    int saved = errno;
    char* ne;
    errno = 0;
    long nat = uns ? (long)strtoul(s, &ne, base) : strtol(s, &ne, base);
    int nerr = errno;
    errno = saved;
    auto done = [&](const char* e, const E* ex) {
        if (end) { *end = (char*)e; __sym_store(end, 8, nullptr); }
        if (nerr) errno = nerr;
        WRAP_RET(f, ex);
        return nat;
    };
    bool any = false;
    for (const char* q = s; q <= ne; ++q) any |= sh_get((uintptr_t)q) != 0;
    if (!any) return done(ne, nullptr);
    fnmark(pc);
    while (c.is_space()) ++c.p;
    bool neg = false;
    if (c.is('-')) { neg = true; ++c.p; }
    else if (c.is('+')) ++c.p;
    if (const E* d = c.dig()) {
        // the integer part of a formatted number
        const char* txt = (const char*)(uintptr_t)d->k;
        bool good = d->flag == 0 && base == 10;
        unsigned i = 0;
        for (const char* q = c.p; good && q < ne; ++q, ++i) {
            const E* e = (const E*)(sh_get((uintptr_t)q) & ~7ull);
            good = *q == txt[i] && e && e->op == O_DIG && e->k == d->k && e->flag == i;
        }
        if (good && (!txt[i] || txt[i] == '.') && i <= 15) {
            const E* val = d->a;
            const E* n = mk(O_F2SI, 64, false, val, nullptr, nullptr, 0, (uint64_t)(neg ? -nat : nat));
            if (neg) n = mk_bin(O_SUB, 64, constant(0, 64), n);
            return done(ne, norm(n));
        }
        conc_pc(d->a, 0, pc);
        return done(ne, nullptr);
    }
    if (base != 10) {
        for (const char* q = s; q <= ne; ++q) { c.p = q; if (const E* b = c.sym()) conc_pc(b, *q, pc); }
        return done(ne, nullptr);
    }
    const E* N = constant(0, 64);
    int nd = 0;
    while (c.is_digit()) {
        const E* b = c.sym();
        const E* dv = b ? mk_ext(O_ZEXT, mk_bin(O_SUB, 8, b, constant('0', 8)), 64) : constant(*c.p - '0', 64);
        N = mk_bin(O_ADD, 64, mk_bin(O_MUL, 64, N, constant(10, 64)), dv);
        ++nd;
        ++c.p;
    }
    if (nd == 0 || isc(N)) return done(ne, nullptr);
    if (nd > 18) {
        for (const char* q = s; q < ne; ++q) { c.p = q; if (const E* b = c.sym()) conc_pc(b, *q, pc); }
        return done(ne, nullptr);
    }
    if (neg) N = mk_bin(O_SUB, 64, constant(0, 64), N);
    return done(c.p, norm(N));
}
#define STL(n, u) long __symw_##n(const char* s, char** e, int b) { WRAP_BEGIN(__symw_##n) conc_pc(WRAP_ARG(2), b, PC); return strtol_model((void*)__symw_##n, s, e, b, u, PC); }
STL(strtol, false) STL(__isoc23_strtol, false) STL(strtoll, false) STL(__isoc23_strtoll, false)
STL(strtoul, true) STL(__isoc23_strtoul, true) STL(strtoull, true) STL(__isoc23_strtoull, true)

static uint32_t var_index(const char* name, int kind, int bits, int decimals, uint64_t dflt);
// mark the characters of `out` as the decimal text of the symbolic number v
static void mark_number(char* out, size_t len, const E* v)
{
    // only the unsigned part carries the number
    char* p = out;
    while (p < out + len && (*p == ' ' || *p == '-' || *p == '+')) ++p;
    bool neg = p > out && p[-1] == '-';
    size_t n = 0;
    while (p + n < out + len && ((p[n] >= '0' && p[n] <= '9') || p[n] == '.')) ++n;
    if (!n || n > 40) return;
    char* t = (char*)arena(n + 1);
    memcpy(t, p, n);
    t[n] = 0;
    const E* val = neg ? mk_f1(O_FNEG, v, b_of(-d_of(v->cv))) : v;
    if (v->op == O_FNEG && neg) val = v->a;
    for (size_t i = 0; i < n; ++i) {
        E* e = (E*)arena(sizeof(E));
        *e = E{O_DIG, 8, 0, (uint8_t)i, SH->next_id++, val, nullptr, nullptr, (uint64_t)(uintptr_t)t, (uint64_t)(uint8_t)p[i], mix(mix(val->h, i), 77)};
        sh_set((uintptr_t)p + i, (uint64_t)e);
    }
}
static unsigned fmt_count;
// symbolic value of a number printed with `prec` decimals
// least k such that the real value of e is always a multiple of 10^-k, or 99 when that is not evident
static int grid(const E* e, int depth = 0)
{
    if (depth > 40) return 99;
    switch (e->op) {
    case O_CONST: {
        double d = d_of(e->k);
        for (int k = 0; k <= 9; ++k, d *= 10)
            if (std::fabs(d) < 1e15 && std::fabs(d - std::nearbyint(d)) <= 1e-9 * std::max(1., std::fabs(d)) * 1e-3) return k;
        return 99;
    }
    case O_FVAR: { int d = SH->var[e->k].decimals; return d < 0 ? 99 : d; }
    case O_SI2F: case O_UI2F: case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FROUND: return 0;
    case O_FNEG: case O_FABS: return grid(e->a, depth + 1);
    case O_FADD: case O_FSUB: case O_FMIN: case O_FMAX: { int a = grid(e->a, depth + 1); return a > 20 ? 99 : std::max(a, grid(e->b, depth + 1)); }
    case O_FITE: { int a = grid(e->b, depth + 1); return a > 20 ? 99 : std::max(a, grid(e->c, depth + 1)); }
    case O_FMUL: { int a = grid(e->a, depth + 1), b = grid(e->b, depth + 1); return a > 20 || b > 20 ? 99 : a + b; }
    case O_FDIV: {
        if (!isc(e->b)) return 99;
        double d = d_of(e->b->k);
        int a = grid(e->a, depth + 1);
        if (a > 20) return 99;
        for (int k = 0; k <= 9; ++k, d /= 10) if (std::fabs(d) == 1) return a + k;
        return 99;
    }
    default: return 99;
    }
}
static const E* rounded(const E* v, int prec, const char* out, size_t len)
{
    double shown = strtod(std::string(out, len).c_str(), nullptr);
    if (grid(v) <= prec) {
        E* e = (E*)arena(sizeof(E));
        *e = *v;
        e->id = SH->next_id++;
        e->cv = b_of(shown);
        return e;
    }
    char nm[40];
    snprintf(nm, sizeof nm, "!fmt%u", fmt_count++);
    uint32_t i = var_index(nm, V_REAL, 64, -1, b_of(shown));
    SH->var[i].cv = b_of(shown);
    const E* r = mk(O_FVAR, 64, true, nullptr, nullptr, nullptr, i + 1000000ull * 0, b_of(shown));
    double half = 0.5;
    for (int k = 0; k < prec; ++k) half /= 10;
    half *= 1.000001;
    const E* lo = mk(O_FSUB, 64, true, v, constf(b_of(half)), nullptr, 0, b_of(d_of(v->cv) - half));
    const E* hi = mk(O_FADD, 64, true, v, constf(b_of(half)), nullptr, 0, b_of(d_of(v->cv) + half));
    log_ent(mk(O_FLE, 1, false, lo, r, nullptr, 0, 1), 1, L_ASSUME, 0);
    log_ent(mk(O_FLE, 1, false, r, hi, nullptr, 0, 1), 1, L_ASSUME, 0);
    return r;
}
static void sign_branch(const E* v, uintptr_t pc)
{
    double d = d_of(v->cv);
    log_ent(mk(O_FLT, 1, false, v, constf(0), nullptr, 0, d < 0), d < 0, L_BRANCH, pc);
}
static int fmt_model(char* out, size_t n, const char* fmt, va_list ap, const E* const* sh, uintptr_t pc)
{
    va_list ap2;
    va_copy(ap2, ap);
    int r = vsnprintf(out, n, fmt, ap2);
    va_end(ap2);
    if (out && n) sh_clear((uintptr_t)out, std::min<size_t>(n, r >= 0 ? r + 1 : 0));
    // "%f" or "%.Nf" / "%.*f" alone with a symbolic double
    int vi = 0, prec = 6;
    const char* f = fmt;
    bool fl = false;
    if (*f == '%') {
        ++f;
        if (*f == '.') {
            ++f;
            if (*f == '*') { prec = va_arg(ap, int); ++f; ++vi; }
            else prec = strtol(f, (char**)&f, 10);
        }
        fl = (*f == 'f' || *f == 'F') && !f[1];
    }
    if (sh && sh[vi] && fl && (SH->real_mode & 1)) {
        const E* v = as_f(sh[vi]);
        sign_branch(v, pc);
        if (out && r > 0 && (size_t)r < n) mark_number(out, r, rounded(v, prec, out, r));
    } else if (sh) {
        for (int i = 0; i < 8; ++i) conc_pc(sh[i], 0, pc);
    }
    return r;
}
int __symw_vsnprintf(char* out, size_t n, const char* fmt, va_list ap)
{
    WRAP_BEGIN(__symw_vsnprintf)
    int r = fmt_model(out, n, fmt, ap, va_save, PC);
    for (auto& v : va_save) v = nullptr;
    WRAP_RET(__symw_vsnprintf, nullptr);
    return r;
}
int __symw_snprintf(char* out, size_t n, const char* fmt, ...)
{
    WRAP_BEGIN(__symw_snprintf)
    const E* a[8] = {};
    if (ok_) for (int i = 0; i < 8; ++i) a[i] = __sym_args[3 + i];
    int cnt = 0;
    for (const char* p = fmt; *p; ++p) if (*p == '%') ++cnt;
    for (int i = cnt + 1; i < 8; ++i) a[i] = nullptr;
    if (cnt == 0) a[0] = nullptr;
    va_list ap;
    va_start(ap, fmt);
    int r = fmt_model(out, n, fmt, ap, a, PC);
    va_end(ap);
    WRAP_RET(__symw_snprintf, nullptr);
    return r;
}
int __symw_sprintf(char* out, const char* fmt, ...)
{
    WRAP_BEGIN(__symw_sprintf)
    const E* a[8] = {};
    if (ok_) for (int i = 0; i < 8; ++i) a[i] = __sym_args[2 + i];
    int cnt = 0;
    for (const char* p = fmt; *p; ++p) if (*p == '%') ++cnt;
    for (int i = cnt + 1; i < 8; ++i) a[i] = nullptr;
    if (cnt == 0) a[0] = nullptr;
    va_list ap;
    va_start(ap, fmt);
    int r = fmt_model(out, 1 << 20, fmt, ap, a, PC);
    va_end(ap);
    WRAP_RET(__symw_sprintf, nullptr);
    return r;
}

// std::to_string(integer): the digits are symbolic; with mode bit 2 only the current text (for texts that are never read back)
static std::string int_text(void* f, bool neg, uint64_t mag, const E* v, unsigned bits, bool sgn, uintptr_t pc)
{
    std::string r = (neg ? "-" : "") + std::to_string(mag);
    sh_clear((uintptr_t)&r, sizeof r);
    if (v && !isc(v) && !(SH->real_mode & 2)) {
        v = as_bv(v);
        if (opaque(v)) v = nullptr;
    } else
        v = nullptr;
    if (v) {
        fnmark(pc);
        const E* zero = constant(0, bits);
        if (sgn) {
            const E* c = mk_bin(O_SLT, bits, v, zero);
            if (!isc(c)) log_ent(c, neg, L_BRANCH, pc);
            if (neg) v = mk_bin(O_SUB, bits, zero, v);
        }
        uint64_t lim = bits == 32 ? 0xffffffffull : ~0ull, p = 1;
        int n = (int)r.size() - neg;
        for (int k = 1; k <= n; ++k) {
            if (p > lim / 10) break;
            p *= 10;
            const E* c = mk_bin(O_ULT, bits, v, constant(p, bits));
            if (!isc(c)) log_ent(c, mag < p, L_BRANCH, pc);
        }
        p = 1;
        for (int k = 0; k < n; ++k) {
            const E* d = mk_bin(O_UREM, bits, k ? mk_bin(O_UDIV, bits, v, constant(p, bits)) : v, constant(10, bits));
            const E* b = isc(d) ? nullptr : norm(mk_extract(d, 0, 8));
            if (b) b = norm(mk_bin(O_ADD, 8, b, constant('0', 8)));
            sh_set((uintptr_t)&r[r.size() - 1 - k], (uint64_t)b);
            p *= 10;
        }
    }
    WRAP_RET(f, nullptr);
    return r;
}
#define TOSTR(n, T, bits, sgn) std::string __symw_##n(T x) { WRAP_BEGIN(__symw_##n) return int_text((void*)__symw_##n, sgn && x < 0, sgn && x < 0 ? 0 - (uint64_t)(int64_t)x : (uint64_t)x, WRAP_ARG(1), bits, sgn, PC); }
TOSTR(_ZNSt7__cxx119to_stringEi, int, 32, true) TOSTR(_ZNSt7__cxx119to_stringEj, unsigned, 32, false)
TOSTR(_ZNSt7__cxx119to_stringEl, long, 64, true) TOSTR(_ZNSt7__cxx119to_stringEm, unsigned long, 64, false)

// any function is a correct hash: a constant one leaves the key comparison to the code under test
size_t __symw__ZSt11_Hash_bytesPKvmm(const void*, size_t, size_t) { __sym_callee = nullptr; WRAP_RET(__symw__ZSt11_Hash_bytesPKvmm, nullptr); return 0; }

// std::ctype<char>::do_toupper/do_tolower called directly
char __symw__ZNKSt5ctypeIcE10do_toupperEc(const void*, char c) { WRAP_BEGIN(__symw__ZNKSt5ctypeIcE10do_toupperEc) const E* a = WRAP_ARG(1); const E* x = a && !opaque(a) ? mk_ext(O_ZEXT, as_bv(a), 32) : nullptr; char r = (char)ctype_model(nullptr, (unsigned char)c, x, toupper, true); const E* e = __sym_ret[0]; WRAP_RET(__symw__ZNKSt5ctypeIcE10do_toupperEc, e ? norm(mk_extract(e, 0, 8)) : nullptr); return r; }
char __symw__ZNKSt5ctypeIcE10do_tolowerEc(const void*, char c) { WRAP_BEGIN(__symw__ZNKSt5ctypeIcE10do_tolowerEc) const E* a = WRAP_ARG(1); const E* x = a && !opaque(a) ? mk_ext(O_ZEXT, as_bv(a), 32) : nullptr; char r = (char)ctype_model(nullptr, (unsigned char)c, x, tolower, true); const E* e = __sym_ret[0]; WRAP_RET(__symw__ZNKSt5ctypeIcE10do_tolowerEc, e ? norm(mk_extract(e, 0, 8)) : nullptr); return r; }

// ---------------------------------------------------------------- harness API
static uint32_t var_index(const char* name, int kind, int bits, int decimals, uint64_t dflt)
{
    char nm[40];
    int n = 0;
    snprintf(nm, sizeof nm, "%s", name);
    for (uint32_t i = 0; i < SH->n_var; ++i)
        if (!strcmp(SH->var[i].name, nm)) { snprintf(nm, sizeof nm, "%s~%d", name, ++n); i = -1u; }
    if (SH->n_var >= MAX_VAR) finish(RS_OVERFLOW);
    uint32_t i = SH->n_var++;
    VarInfo& v = SH->var[i];
    memcpy(v.name, nm, sizeof nm);
    v.kind = kind;
    v.bits = bits;
    v.decimals = decimals;
    v.cv = dflt;
    for (uint32_t k = 0; k < SH->n_assign; ++k)
        if (!strcmp(SH->assign[k].name, nm)) v.cv = SH->assign[k].v;
    return i;
}
static uint64_t name_hash(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }
static const E* var_node(uint32_t i)
{
    VarInfo& v = SH->var[i];
    E* e = (E*)arena(sizeof(E));
    *e = E{(uint8_t)(v.kind == V_REAL ? O_FVAR : O_VAR), v.bits, v.kind == V_REAL, 0, SH->next_id++, nullptr, nullptr, nullptr, i, v.cv, name_hash(v.name)};
    return e;
}

int sym_replaying(void) { return 0; }
static void assume_ent(const E* c)
{
    if (isc(c)) { if (!c->k) finish(RS_ASSUME); return; }
    if (!c->cv) { log_ent(c, 0, L_ASSUMEFAIL, 0); finish(RS_ASSUME); }
    log_ent(c, 1, L_ASSUME, 0);
}
uint8_t sym_byte(const char* name, unsigned lo, unsigned hi)
{
    uint32_t i = var_index(name, V_BV, 8, 0, lo);
    SH->var[i].lo = lo;
    SH->var[i].hi = hi;
    const E* e = var_node(i);
    if (lo > 0) assume_ent(mk_bin(O_ULE, 8, constant(lo, 8), e));
    if (hi < 255) assume_ent(mk_bin(O_ULE, 8, e, constant(hi, 8)));
    WRAP_RET(sym_byte, e);
    return SH->var[i].cv;
}
int64_t sym_i64(const char* name, int64_t lo, int64_t hi)
{
    uint32_t i = var_index(name, V_BV, 64, 0, lo);
    const E* e = var_node(i);
    assume_ent(mk_bin(O_SLE, 64, constant(lo, 64), e));
    assume_ent(mk_bin(O_SLE, 64, e, constant(hi, 64)));
    WRAP_RET(sym_i64, e);
    return SH->var[i].cv;
}
int sym_int(const char* name, int lo, int hi)
{
    uint32_t i = var_index(name, V_BV, 32, 0, (uint32_t)lo);
    const E* e = var_node(i);
    assume_ent(mk_bin(O_SLE, 32, constant((uint32_t)lo, 32), e));
    assume_ent(mk_bin(O_SLE, 32, e, constant((uint32_t)hi, 32)));
    WRAP_RET(sym_int, e);
    return (int)SH->var[i].cv;
}
int sym_choice(const char* name, int n)
{
    uint32_t i = var_index(name, V_BV, 16, 0, 0);
    const E* e = var_node(i);
    assume_ent(mk_bin(O_ULT, 16, e, constant(n, 16)));
    int v = (int)SH->var[i].cv;
    conc_pc(e, v, PC);
    WRAP_RET(sym_choice, nullptr);
    return v;
}
bool sym_flag(const char* name) { int r = sym_choice(name, 2); WRAP_RET(sym_flag, nullptr); return r; }
double sym_real(const char* name, double lo, double hi, int decimals)
{
    double d0 = lo;
    if (lo < 0 && hi > 0) d0 = 0;
    uint32_t i = var_index(name, V_REAL, 64, decimals, b_of(d0));
    const E* e = var_node(i);
    double v = d_of(SH->var[i].cv);
    assume_ent(mk(O_FLE, 1, false, constf(b_of(lo)), e, nullptr, 0, lo <= v));
    assume_ent(mk(O_FLE, 1, false, e, constf(b_of(hi)), nullptr, 0, v <= hi));
    WRAP_RET(sym_real, e);
    return v;
}
void sym_assume(bool c)
{
    WRAP_BEGIN(sym_assume)
    const E* e = WRAP_ARG(0);
    if (!e || isc(e)) { if (!c) finish(RS_ASSUME); return; }
    assume_ent(e);
}
void sym_assert_(bool c, const char* msg)
{
    WRAP_BEGIN(sym_assert_)
    const E* e = WRAP_ARG(0);
    unsigned m = 0;
    for (; m < SH->n_msg; ++m) if (!strcmp(SH->msg[m], msg)) break;
    if (m == SH->n_msg && m < MAX_MSG) { snprintf(SH->msg[m], sizeof SH->msg[m], "%s", msg); SH->n_msg++; }
    if (e && !isc(e)) log_ent(e, c, L_ASSERT, PC, m);
    else log_ent(nullptr, c, L_ASSERT, PC, m);
    if (!c) { SH->fail_msg = m; SH->fail_pc = PC; finish(RS_ASSERTFAIL); }
}
void sym_reach(const char* l)
{
    for (unsigned i = 0; i < SH->n_reach; ++i) if (!strcmp(SH->reach[i], l)) return;
    if (SH->n_reach < 128) snprintf(SH->reach[SH->n_reach++], 64, "%s", l);
}
void sym_note_(const char* t)
{
    size_t n = strlen(t);
    if (SH->n_note + n + 2 < sizeof SH->note) { memcpy(SH->note + SH->n_note, t, n); SH->n_note += n; SH->note[SH->n_note++] = '\n'; SH->note[SH->n_note] = 0; }
}
int sym_concrete_int(int v)
{
    WRAP_BEGIN(sym_concrete_int)
    conc_pc(WRAP_ARG(0), (uint32_t)v, PC);
    WRAP_RET(sym_concrete_int, nullptr);
    return v;
}
const char* sym_numtext_(double v, int decimals)
{
    WRAP_BEGIN(sym_numtext_)
    const E* e = WRAP_ARG(0);
    static char buf[16][64];
    static int bi;
    char* b = buf[bi++ & 15];
    int n = snprintf(b, 64, "%.*f", decimals, v);
    sh_clear((uintptr_t)b, 64);
    if (e && !isc(e)) {
        e = as_f(e);
        sign_branch(e, PC);
        if (strtod(b, nullptr) == v) mark_number(b, n, e);
        else mark_number(b, n, rounded(e, decimals, b, n));
    }
    WRAP_RET(sym_numtext_, nullptr);
    return b;
}
} // extern "C"

// ---------------------------------------------------------------- evaluation of one node
uint64_t sym_eval_op(const E* e, uint64_t a, uint64_t b, uint64_t c)
{
    if (!e) return 0;
    unsigned n = e->bits;
    unsigned an = e->a ? e->a->bits : n;
    uint64_t M = mask(n);
    switch (e->op) {
    case O_CONST: return e->k;
    case O_ADD: return (a + b) & M;
    case O_SUB: return (a - b) & M;
    case O_MUL: return (a * b) & M;
    case O_UDIV: return b ? a / b : M;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sx(a, n), y = sx(b, n); if (!y) return x >= 0 ? M : 1; if (y == -1) return (0 - (uint64_t)x) & M; return (x / y) & M; }
    case O_SREM: { int64_t x = sx(a, n), y = sx(b, n); if (!y) return a; if (y == -1) return 0; return (x % y) & M; }
    case O_SHL: return b >= n ? 0 : (a << b) & M;
    case O_LSHR: return b >= n ? 0 : a >> b;
    case O_ASHR: return b >= n ? (sx(a, n) < 0 ? M : 0) : (uint64_t)(sx(a, n) >> b) & M;
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, an) < sx(b, an);
    case O_SLE: return sx(a, an) <= sx(b, an);
    case O_ZEXT: return a;
    case O_SEXT: return (uint64_t)sx(a, an) & M;
    case O_EXTRACT: return (a >> e->k) & M;
    case O_CONCAT: return (a << e->b->bits) | b;
    case O_ITE: case O_FITE: return a ? b : c;
    case O_TABLE: return ((const uint64_t*)e->k)[a & 255];
    case O_FADD: return b_of(d_of(a) + d_of(b));
    case O_FSUB: return b_of(d_of(a) - d_of(b));
    case O_FMUL: return b_of(d_of(a) * d_of(b));
    case O_FDIV: return b_of(d_of(a) / d_of(b));
    case O_FREM: return b_of(fmod(d_of(a), d_of(b)));
    case O_FNEG: return b_of(-d_of(a));
    case O_FABS: return b_of(fabs(d_of(a)));
    case O_FSQRT: return b_of(sqrt(d_of(a)));
    case O_FEQ: return d_of(a) == d_of(b);
    case O_FLT: return d_of(a) < d_of(b);
    case O_FLE: return d_of(a) <= d_of(b);
    case O_FUNO: return d_of(a) != d_of(a) || d_of(b) != d_of(b);
    case O_SI2F: return b_of((double)sx(a, an));
    case O_UI2F: return b_of((double)a);
    case O_F2SI: return (uint64_t)(int64_t)d_of(a) & M;
    case O_F2UI: return (uint64_t)d_of(a) & M;
    case O_FFLOOR: return b_of(floor(d_of(a)));
    case O_FCEIL: return b_of(ceil(d_of(a)));
    case O_FTRUNC: return b_of(trunc(d_of(a)));
    case O_FROUND: return b_of(round(d_of(a)));
    case O_BITS: case O_OFBITS: return a;
    case O_UF1: {
        double x = d_of(a);
        switch (e->k) {
        case UF_SIN: return b_of(sin(x)); case UF_COS: return b_of(cos(x)); case UF_TAN: return b_of(tan(x)); case UF_ASIN: return b_of(asin(x));
        case UF_ACOS: return b_of(acos(x)); case UF_ATAN: return b_of(atan(x)); case UF_EXP: return b_of(exp(x)); case UF_LOG: return b_of(log(x));
        case UF_LOG10: return b_of(log10(x)); case UF_SINH: return b_of(sinh(x)); case UF_COSH: return b_of(cosh(x)); case UF_TANH: return b_of(tanh(x));
        }
        return 0;
    }
    case O_UF2: return b_of(e->k == UF_ATAN2 ? atan2(d_of(a), d_of(b)) : pow(d_of(a), d_of(b)));
    case O_SADDO: { __int128 r = (__int128)sx(a, an) + sx(b, an); return r != sx((uint64_t)r & mask(an), an); }
    case O_SSUBO: { __int128 r = (__int128)sx(a, an) - sx(b, an); return r != sx((uint64_t)r & mask(an), an); }
    case O_SMULO: { __int128 r = (__int128)sx(a, an) * sx(b, an); return r != sx((uint64_t)r & mask(an), an); }
    case O_UADDO: { unsigned __int128 r = (unsigned __int128)a + b; return r > mask(an); }
    case O_USUBO: return a < b;
    case O_UMULO: { unsigned __int128 r = (unsigned __int128)a * b; return r > mask(an); }
    case O_UMIN: return a < b ? a : b;
    case O_UMAX: return a > b ? a : b;
    case O_SMIN: return sx(a, n) < sx(b, n) ? a : b;
    case O_SMAX: return sx(a, n) > sx(b, n) ? a : b;
    default: return 0;
    }
}
