// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"
#include "ValueCalculator.h"
#include <cmath>
#include <climits>

static int ival(const std::string& d)
{
    int v = 0;
    for (char c : d) v = v * 10 + (c - '0');
    return v;
}
static bool has(const fn::AllAttributesParser& p, unsigned id, int line, double& v)
{
    auto& m = p.get_macro_values();
    auto it = m.find({id, line});
    if (it == m.end()) return false;
    v = it->second;
    return true;
}
static Opt mopt()
{
    Opt o;
    o.ps = ParserSettings{true, false, false, false, false};
    return o;
}

// ---------------------------------------------------------------- C07 the value in force
static std::unique_ptr<fn::AllAttributesParser> ap;
static void msetup() { ap = mkparser(mopt()); }
// three assignments on increasing lines to variables #1/#2, then a use on a later line, as a word value and in an expression
HARNESS_SETUP(lookup, 1, msetup)
{
    int line = 0, val[3] = {}, def[3] = {}, lines[3], ids[3], old = 0, had = 0;
    for (int i = 0; i < 3; ++i) {
        line += sym_int("gap", 1, 1000);
        int id = 1 + sym_choice("id", 2);
        std::string d = sym_bytes(("d" + std::to_string(i)).c_str(), 1, '0', '9');
        auto r = parse(*ap, std::string("#") + "12"[id - 1] + "=" + d, line);
        sym_assert(r.ok, "an assignment of a number is accepted");
        old = val[id];
        had = def[id];
        lines[i] = line;
        ids[i] = id;
        val[id] = ival(d);
        def[id] = 1;
    }
    int use = 1 + sym_choice("use", 2);
    bool expr = sym_flag("expr");
    // a line before the last assignment may be parsed again after it
    if (!expr && sym_flag("earlier")) {
        line = lines[2] - 1;
        if (line < 1) return;
        for (int i = 0; i < 2; ++i) if (lines[i] > line) return;   // not when it is an assignment itself
        if (lines[1] == line) return;
        val[ids[2]] = old;
        def[ids[2]] = had;
        sym_reach("earlier");
    }
    else line += sym_int("gap", 1, 1000);
    std::string u = std::string("#") + "12"[use - 1];
    auto r = parse(*ap, expr ? "#5=" + u : "B" + u, line);
    sym_note("use of " + u + (r.ok ? " accepted" : " rejected " + r.msg));
    sym_reach(def[use] ? "defined" : "undefined");
    sym_assert(r.ok == !!def[use], "a line that uses an undefined variable is rejected, any other accepted");
    if (!def[use]) { sym_assert(!r.msg.empty(), "the missing variable is reported"); return; }
    double v = -1;
    bool h = has(*ap, expr ? 5 : 4102, line, v);
    sym_note("value " + std::to_string(v));
    sym_assert(h, "the evaluated value is recorded for the line");
    sym_assert(v == val[use], "a variable has the value assigned last before the line");
}
// variable numbers: only an assignment to the very same number counts
HARNESS(ids, 0)
{
    fn::macro_map m;
    unsigned a = sym_int("id_a", 1, 9999), b = sym_int("id_b", 1, 9999), c = sym_int("id_c", 1, 9999);
    int la = sym_int("line_a", 0, 100000), lb = sym_int("line_b", 0, 100000), lc = sym_int("line_c", 0, 100000), at = sym_int("line", 0, 100000);
    unsigned use = sym_int("use", 1, 9999);
    m.emplace(fn::macro_map_key{a, la}, 1.);
    m.emplace(fn::macro_map_key{b, lb}, 2.);
    m.emplace(fn::macro_map_key{c, lc}, 3.);
    auto it = m.lower_bound({use, at});
    // oracle: the entry with the greatest line not after `at`
    int best = -1, v = 0;
    auto see = [&](unsigned id, int line, int val) { if (id == use && line <= at && line > best) { best = line; v = val; } };
    see(a, la, 1); see(b, lb, 2); see(c, lc, 3);
    bool found = it != m.end() && it->first.id == use;
    sym_reach(found ? "found" : "none");
    sym_assert(found == (best >= 0), "a variable is found exactly when it was assigned at or before the line");
    if (found) sym_assert(it->second == v, "the latest assignment at or before the line is found");
}

// ---------------------------------------------------------------- C08 arithmetic
static bool calc(const std::string& e, double& v, std::string& msg, const fn::macro_map& m = {})
{
    fn::ValueCalculator c;
    return c.parse(e, msg, true, m, v, ELanguage::English);
}
struct Num { std::string text; double v; };
static Num digit(const char* name, int intd, int frac = 0)
{
    std::string a = sym_bytes(name, intd, '0', '9'), b = frac ? sym_bytes((std::string(name) + "f").c_str(), frac, '0', '9') : "";
    double v = ival(a);
    if (frac) { double p = 1; for (int i = 0; i < frac; ++i) p *= 10; v = v + ival(b) / p; }
    return {a + (frac ? "." + b : ""), v};
}
static double op2(char o, double a, double b)
{
    return o == '+' ? a + b : o == '-' ? a - b : o == '*' ? a * b : a / b;
}
static bool near(double a, double b) { double d = a - b; return (d <= 1e-9) & (d >= -1e-9); }
static bool mul(char o) { return o == '*' || o == '/'; }
HARNESS(arith, 1)
{
    static const char ops[] = "+-*/";
    Num a = digit("a", 1, 1), b = digit("b", 1), c = digit("c", 2);
    char o1 = ops[sym_choice("op1", 4)], o2 = ops[sym_choice("op2", 4)];
    int shape = sym_choice("shape", 7);
    bool neg = sym_flag("negated");
    bool blank = sym_flag("blanks");
    if (o1 == '/') sym_assume(b.v != 0);
    if (o2 == '/') sym_assume(c.v != 0);
    std::string B = blank ? " " : "", e, A = (neg ? "-" : "") + a.text;
    double av = neg ? -a.v : a.v, x = 0;
    switch (shape) {
    case 0: // a o b o c
        e = A + B + o1 + B + b.text + B + o2 + B + c.text;
        x = mul(o2) && !mul(o1) ? op2(o1, av, op2(o2, b.v, c.v)) : op2(o2, op2(o1, av, b.v), c.v);
        break;
    case 1: // [a o b] o c
        e = "[" + A + B + o1 + b.text + "]" + o2 + B + c.text;
        x = op2(o2, op2(o1, av, b.v), c.v);
        break;
    case 2: { // a o [b o c]
        e = A + o1 + B + "[" + b.text + B + o2 + c.text + "]";
        double r = op2(o2, b.v, c.v);
        if (o1 == '/') sym_assume(r != 0);
        x = op2(o1, av, r);
        break;
    }
    case 3: { // -[a o b] o c
        e = std::string("-[") + A + o1 + b.text + "]" + o2 + c.text;
        x = op2(o2, -op2(o1, av, b.v), c.v);
        break;
    }
    case 4: // [[a]] o ABS[b o c]
        e = "[[" + A + "]]" + o1 + "ABS[" + b.text + o2 + c.text + "]";
        { double r = op2(o2, b.v, c.v); r = std::fabs(r); if (o1 == '/') sym_assume(r != 0); x = op2(o1, av, r); }
        break;
    case 5: { // a o #7 o c
        e = A + o1 + "#7" + o2 + c.text;
        x = mul(o2) && !mul(o1) ? op2(o1, av, op2(o2, b.v, c.v)) : op2(o2, op2(o1, av, b.v), c.v);
        break;
    }
    case 6: // -#7 o #8
        e = std::string("-#7") + o2 + "#8";
        x = op2(o2, -b.v, c.v);
        break;
    }
    fn::macro_map m;
    m.emplace(fn::macro_map_key{7, 5}, b.v);
    m.emplace(fn::macro_map_key{8, 5}, c.v);
    double v = 0;
    std::string msg;
    bool ok = calc(e, v, msg, m);
    sym_note(e + " = " + std::to_string(v) + " expected " + std::to_string(x));
    sym_reach(ok ? "accepted" : "rejected");
    sym_assert(ok, "a well formed expression is evaluated");
    sym_assert(near(v, x), "an expression has its arithmetic value (* and / before + and -, equal operators from the left)");
}
HARNESS(funcs, 1)
{
    Num a = digit("a", 2, 1);
    bool neg = sym_flag("neg");
    double x = neg ? -a.v : a.v;
    std::string A = (neg ? "-" : "") + a.text;
    double v = 0, w = 0;
    int f = sym_choice("function", 17);
    const double d2r = 3.14159265358979323846 / 180;
    static const char* names[] = {"ABS", "SIN", "COS", "TAN", "ATAN", "ASIN", "ACOS", "SQRT", "EXP", "LOG", "LOG10", "FIX", "FUP", "ROUND", "SINH", "COSH", "TANH"};
    if (f >= 7 && f <= 10 && f != 8) sym_assume(x > 0);
    if (f == 5 || f == 6) { sym_assume(x <= 1); sym_assume(x >= -1); }
    std::string msg;
    bool ok = calc(std::string(names[f]) + "[" + A + "]", v, msg);
    sym_note(std::string(names[f]) + "[" + A + "] = " + std::to_string(v));
    sym_assert(ok, "a function of a number is evaluated");
    switch (f) {
    case 0: w = x < 0 ? -x : x; break;
    case 1: w = std::sin(x * 3.14159265358979323846 / 180); break;
    case 2: w = std::cos(x * 3.14159265358979323846 / 180); break;
    case 3: w = std::tan(x * 3.14159265358979323846 / 180); break;
    case 4: w = std::atan(x) * 180 / 3.14159265358979323846; break;
    case 5: w = std::asin(x) * 180 / 3.14159265358979323846; break;
    case 6: w = std::acos(x) * 180 / 3.14159265358979323846; break;
    case 7: sym_assert(near(v * v, x) && v >= 0, "SQRT is the square root"); return;
    case 8: w = std::exp(x); break;
    case 9: w = std::log(x); break;
    case 10: w = std::log10(x); break;
    case 11: w = std::floor(x); break;
    case 12: w = std::ceil(x); break;
    case 14: w = std::sinh(x * 3.14159265358979323846 / 180); break;
    case 15: w = std::cosh(x * 3.14159265358979323846 / 180); break;
    case 16: w = std::tanh(x * 3.14159265358979323846 / 180); break;
    case 13: w = x < 0 ? -std::floor(-x + 0.5) : std::floor(x + 0.5); break;
    }
    sym_note("expected " + std::to_string(w));
    sym_assert(near(v, w), "a function has its mathematical value, angles in degrees");
}
// ---------------------------------------------------------------- C09 integer operations
HARNESS(bits, 0)
{
    static const char* ops[] = {"AND", "OR", "XOR", "MOD"};
    int o = sym_choice("op", 4), digits = o == 3 ? 2 : 3;
    std::string a = sym_bytes("a", 1 + sym_choice("alen", digits), '0', '9'), b = sym_bytes("b", 1 + sym_choice("blen", digits), '0', '9');
    int x = ival(a), y = ival(b);
    double v = 0;
    std::string msg;
    bool ok = calc(a + " " + ops[o] + " " + b, v, msg);
    sym_note(a + " " + ops[o] + " " + b + " = " + std::to_string(v));
    if (o == 3 && y == 0) { sym_reach("mod0"); sym_assert(!ok && !msg.empty(), "MOD by zero is reported"); return; }
    sym_assert(ok, "an integer operation is evaluated");
    int w = o == 0 ? x & y : o == 1 ? x | y : o == 2 ? x ^ y : x % y;
    sym_reach("value");
    sym_assert((int)v == w && v == (double)w, "AND, OR, XOR and MOD work on the integer values");
}
HARNESS(bcd, 0)
{
    std::string a = sym_bytes("a", 1 + sym_choice("len", 4), '0', '9');
    int x = ival(a);
    double v = 0, back = 0;
    std::string msg;
    bool ok = calc("BIN[" + a + "]", v, msg);
    sym_assert(ok, "BIN is evaluated");
    int64_t w = 0;
    int sh = 0;
    for (size_t i = a.size(); i-- > 0;) { w |= (int64_t)(a[i] - '0') << sh; sh += 4; }
    sym_note("BIN[" + a + "] = " + std::to_string(v));
    sym_assert((int64_t)v == w, "BIN writes each decimal digit as a four-bit group");
    fn::macro_map m;
    m.emplace(fn::macro_map_key{1, 1}, v);
    ok = calc("BCD[#1]", back, msg, m);
    sym_assert(ok, "BCD is evaluated");
    sym_assert((int)back == x, "BCD reverses BIN");
}
// operands of either sign and any size, through macro variables
HARNESS(bits_signed, 2)
{
    static const char* ops[] = {"AND", "OR", "XOR", "MOD"};
    int o = sym_choice("op", 4);
    int x = sym_int("x", -2147483647, 2147483647), y = o == 3 ? sym_int("y", -100, 100) : sym_int("y", -2147483647, 2147483647);
    if (o == 3) sym_assume((x >= -100000) & (x <= 100000));
    fn::macro_map m;
    m.emplace(fn::macro_map_key{1, 1}, (double)x);
    m.emplace(fn::macro_map_key{2, 1}, (double)y);
    double v = 0;
    std::string msg;
    bool ok = calc(std::string("#1 ") + ops[o] + " #2", v, msg, m);
    sym_note(std::to_string(x) + " " + ops[o] + " " + std::to_string(y) + " = " + std::to_string(v));
    if (o == 3 && y == 0) { sym_reach("mod0"); sym_assert(!ok && !msg.empty(), "MOD by zero is reported"); return; }
    sym_assert(ok, "an integer operation is evaluated");
    sym_reach("value");
    if (o == 3) {
        // the remainder has the sign of the dividend: x = q*y + v with |v| < |y|
        int w = (int)v;
        sym_assert(v == (double)w, "MOD gives an integer");
        sym_assert(w == x % y, "MOD is the remainder, with the sign of the dividend");
    } else
        sym_assert((int)v == (o == 0 ? x & y : o == 1 ? x | y : x ^ y) && v == (double)(int)v, "AND, OR and XOR work on the integer values");
}
// binding: AND and MOD like *, OR and XOR like +
HARNESS(bits_mixed, 0)
{
    static const char* ops[] = {"+", "-", "*", "AND", "OR", "XOR", "MOD"};
    int o1 = sym_choice("op1", 7), o2 = sym_choice("op2", 7);
    std::string a = sym_bytes("a", 2, '0', '9'), b = sym_bytes("b", 1, '1', '9'), c = sym_bytes("c", 1, '1', '9');
    auto hi = [](int o) { return o == 2 || o == 3 || o == 6; };
    auto op = [](int o, int x, int y) { return o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : o == 3 ? x & y : o == 4 ? x | y : o == 5 ? x ^ y : x % y; };
    int x = ival(a), y = ival(b), z = ival(c), w;
    if (hi(o2) && !hi(o1)) { int r = op(o2, y, z); w = op(o1, x, r); } else w = op(o2, op(o1, x, y), z);
    double v = 0;
    std::string msg;
    bool ok = calc(a + ops[o1] + b + ops[o2] + c, v, msg);
    sym_note(a + ops[o1] + b + ops[o2] + c + " = " + std::to_string(v));
    sym_reach("value");
    sym_assert(ok, "an integer expression is evaluated");
    sym_assert(v == (double)w, "AND and MOD bind like *, OR and XOR like +, equal operators from the left");
}
HARNESS(bcd_wide, 1)
{
    unsigned x = ival(sym_bytes("x0", 1, '1', '9') + sym_bytes("x", 4 + sym_choice("digits", 5), '0', '9'));
    fn::macro_map m;
    m.emplace(fn::macro_map_key{1, 1}, (double)x);
    double v = 0, back = 0;
    std::string msg;
    bool ok = calc("BIN[#1]", v, msg, m);
    sym_assert(ok, "BIN is evaluated");
    uint64_t w = 0, sh = 0;
    for (unsigned r = x; ; r /= 10) { w += (uint64_t)(r % 10) << sh; sh += 4; if (r < 10) break; }
    sym_assert((uint64_t)v == w, "BIN writes each decimal digit as a four-bit group");
    m.emplace(fn::macro_map_key{2, 1}, v);
    ok = calc("BCD[#2]", back, msg, m);
    sym_assert(ok, "BCD is evaluated");
    sym_reach("value");
    sym_assert((int64_t)back == (int64_t)x, "BCD reverses BIN");
}
