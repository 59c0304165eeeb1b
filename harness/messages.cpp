// The messages that explain a rejected line, in both languages.
// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"
#include <cstring>

// each piece stands in the text
static bool has(const std::string& t, const std::vector<std::string>& pieces)
{
    for (auto& p : pieces) if (t.find(p) == std::string::npos) return false;
    return true;
}
static Opt opt(ELanguage l)
{
    Opt o;
    o.lang = l;
    o.nc = true;
    o.ps = {true, true, true, true, true};
    o.g = {{{0, {}}, {"motion"}}, {{1, {}}, {"motion"}}, {{2, {}}, {"motion"}}, {{20, {}}, {"unit"}}, {{81, {}}, {"cycle"}}, {{83, {}}, {"cycle"}}, {{90, {}}, {"distance"}}, {{91, {}}, {"distance"}}, {{54, 1}, {"extra"}}, {{54, 2}, {"extra"}}};
    o.m = {{{3, {}}, {"spindle"}}, {{5, {}}, {"spindle"}}, {{6, {}}, {"tool"}}};
    return o;
}
static std::string explain(const std::string& m)
{
    size_t at = m.find(" <- ");
    return at == std::string::npos ? m : m.substr(at + 4);
}
static int count(const std::string& t, const std::string& p)
{
    int n = 0;
    for (size_t at = 0; (at = t.find(p, at)) != std::string::npos; at += p.size()) ++n;
    return n;
}
// one text per error: what the line has is named, in either language
static void check(Opt en, const std::vector<std::string>& before, const std::string& line, const std::vector<std::string>& pieces, bool whole = false)
{
    Opt pl = en;
    en.lang = ELanguage::English;
    pl.lang = ELanguage::Polish;
    auto a = mkparser(en), b = mkparser(pl);
    int n = 0;
    for (auto& s : before) { ++n; sym_assert(parse(*a, s, n).ok && parse(*b, s, n).ok, "the lines before are right"); }
    ++n;
    auto x = parse(*a, line, n), y = parse(*b, line, n);
    std::string ex = explain(x.msg), ey = explain(y.msg);
    sym_note("'" + line + "' English '" + x.msg + "' Polish '" + y.msg + "'");
    sym_assert(x.ok == y.ok, "the verdict does not depend on the language");
    sym_assert(!x.ok, "the line is rejected");
    if (x.ok || y.ok) return;
    sym_assert(!ex.empty() && !ey.empty(), "a rejected line has an explanation");
    sym_assert(has(ex, pieces) && has(ey, pieces), "the explanation names what is wrong");
    sym_assert(count(ex, "Value") + count(ex, "Code") + count(ex, "Expected") + count(ex, "Missing") + count(ex, "Forbidden") + count(ex, "Same") <= 2, "the explanation is given once");
    sym_reach("told");
}
// ---- ranges: any bounds, any value outside
HARNESS(msg_range, 0)
{
    Opt o = opt(ELanguage::English);
    o.nc = false;
    o.ps = {false, false, false, false, false};
    int lo = sym_int("lo", 3, 7), hi = sym_int("hi", 3, 7);
    sym_assume(lo <= hi);
    static const char* w[] = {"X", "N", "M", "F"};
    std::string a = w[sym_choice("word", 4)], d = sym_bytes("d", sym_choice("digits", 2) + 1, '0', '9');
    bool minus = a == "X" && sym_flag("minus");
    int v = 0;
    for (char c : d) v = v * 10 + (c - '0');
    if (minus) v = -v;
    o.metric[a].range_from = lo;
    o.metric[a].range_to = hi;
    sym_assume((v < lo) | (v > hi));
    sym_assume(d.size() == 1 || d[0] != '0');
    sym_assume(v != 0);
    std::string line = a + (minus ? "-" : "") + d + (a == "X" ? "." : "");
    check(o, {}, line, {std::string("[") + (minus ? "-" : "") + d + "]", "[" + std::to_string(lo) + ", " + std::to_string(hi) + "]", "[" + a + "]"});
}
HARNESS(msg_decimal, 0)
{
    Opt o = opt(ELanguage::English);
    o.nc = false;
    o.ps = {false, false, false, false, false};
    int lo = sym_int("lo", 2, 5), hi = sym_int("hi", 2, 5);
    sym_assume(lo <= hi);
    o.metric["X"].decimal_from = lo;
    o.metric["X"].decimal_to = hi;
    std::string d = sym_bytes("d", 1, '0', '9');
    int v = d[0] - '0';
    sym_assume((v < lo) | (v > hi));
    check(o, {}, "Y1.X3." + d, {"[" + d + "]", "[" + std::to_string(lo) + ", " + std::to_string(hi) + "]", "[X]"});
}
// ---- the limits of the machine
HARNESS(msg_limits, 0)
{
    Opt o = opt(ELanguage::English);
    static const char* ds[] = {"300", "301", "999", "310.5"};
    int lim = 300 - sym_choice("limit", 3);
    std::string l = std::to_string(lim), d = ds[sym_choice("value", 4)], whole = d.substr(0, 3);
    o.metric["S"].decimal_to = 9999;
    sym_assume(atoi(d.c_str()) > lim);
    switch (sym_choice("what", 3)) {
    case 0: o.kin.maximum_spindle_speed = lim; check(o, {}, "S" + d, {"S [" + d + "]", l}); break;
    case 1: o.kin.numer_of_items_in_the_warehouse = lim; check(o, {}, "T" + whole, {"T [" + whole + "]", l}); break;
    case 2: o.kin.max_working_feed = lim; check(o, {}, "F" + d, {"F [" + d + "]", l}); break;
    }
}
HARNESS(msg_travel, 0)
{
    Opt o = opt(ELanguage::English);
    static const char* ax[] = {"X", "Y", "Z"};
    int k = sym_choice("axis", 3);
    double z = sym_choice("zero", 3) * 10 - 10, lo = -100, hi = 200;
    o.kin.cartesian_system_axis[ax[k]] = {lo, hi};
    (k == 0 ? o.zero.x : k == 1 ? o.zero.y : o.zero.z) = z;
    bool minus = sym_flag("minus");
    static const char* v[] = {"211", "300.5", "999"};
    std::string t = v[sym_choice("value", 3)], s = (minus ? "-" : "") + t;
    check(o, {}, std::string("G0") + ax[k] + s, {std::string(ax[k]) + " [" + s, "[" + std::to_string((int)(lo - z)), ", " + std::to_string((int)(hi - z))});
}
// ---- the other errors, each with the word or number it is about
HARNESS(msg_table, 0)
{
    struct Case { const char* before; const char* line; std::vector<std::string> pieces; };
    static const std::vector<Case> cases = {
        {"", "X#", {"#"}}, {"", "/12G0", {"[12]", "[1,9]", "/"}}, {"", "N1.5", {"[N]"}}, {"", "X1.Y", {"[Y]"}}, {"", "X1.X2.", {"X"}},
        {"", "G81Z-5.R1.F10", {"S"}}, {"", "G1X5.F10", {"S"}}, {"M3S10", "G1X5.", {"F"}}, {"M3S10F10", "G2X5.", {"R", "I", "J"}},
        {"M3S10F10", "G0G1X1.", {"G0", "G1", "motion"}}, {"", "M3M5", {"M3", "M5", "spindle"}}, {"", "G54.1G54.2", {"G54.1", "G54.2", "extra"}},
        {"", "G90G91", {"G90", "G91", "distance"}}, {"", "G#9", {"#9"}}, {"", "X#9", {"#9"}}, {"", "S1S2", {"S"}}, {"", "T1T2", {"T"}},
        {"", "#0=1", {"[0]", "[#]"}},
    };
    auto& c = cases[sym_choice("case", (int)cases.size())];
    std::vector<std::string> before;
    if (*c.before) before.push_back(c.before);
    check(opt(ELanguage::English), before, c.line, c.pieces);
}
HARNESS(msg_operator, 0)
{
    Opt o = opt(ELanguage::English);
    o.def.operator_turns_on_rotation = true;
    if (sym_flag("speed")) check(o, {}, "S" + sym_bytes("d", 1, '1', '9'), {"S"});
    else check(o, {}, sym_flag("left") ? "M4" : "M3", {"M3/M4"});
}
// ---- any line: the language changes neither the verdict nor the words nor whether there is a message
static std::unique_ptr<fn::AllAttributesParser> en, pl;
static void both_setup()
{
    Opt o;
    en = mkparser(o);
    o.lang = ELanguage::Polish;
    pl = mkparser(o);
}
static void same(const std::string& s)
{
    auto x = parse(*en, s), y = parse(*pl, s);
    sym_note("'" + s + "' English '" + x.msg + "' Polish '" + y.msg + "'");
    sym_assert(x.ok == y.ok, "the verdict does not depend on the language");
    sym_assert(show(x.v) == show(y.v), "the words do not depend on the language");
    sym_assert(x.msg.empty() == y.msg.empty(), "there is a message in both languages or in none");
    size_t a = x.msg.find(" <- "), b = y.msg.find(" <- ");
    sym_assert(a == b && (a == std::string::npos || x.msg.compare(0, a, y.msg, 0, b) == 0), "the place of the error does not depend on the language");
    sym_reach(x.ok ? "accepted" : "rejected");
}
HARNESS_SETUP(msg_any, 0, both_setup) { same(sym_bytes("c", 3, 1, 126)); }
HARNESS_SETUP(msg_line, 0, both_setup)
{
    static const char* t[] = {"X??", "X?.?", "N??", "G?M?", "/?", "X[?", "#?=", "(?", "X1Y?Z", "X-?.", "D-?", "X1X?"};
    same(fill(t[sym_choice("line", 12)], '!', '}'));
}
