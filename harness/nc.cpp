// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"
#include <cmath>

static int ival(const std::string& d)
{
    int v = 0;
    for (char c : d) v = v * 10 + (c - '0');
    return v;
}
static bool near(double a, double b) { double d = a - b; return (d <= 1e-6) & (d >= -1e-6); }
static Opt ncopt(bool path, bool analysis, bool zero = false)
{
    Opt o;
    o.nc = true;
    o.ps = ParserSettings{true, false, path, analysis, zero};
    return o;
}
static std::unique_ptr<fn::AllAttributesParser> pa, pb;

// ---------------------------------------------------------------- C10 a macro reference means the value
static void same_state(fn::AllAttributesParser& a, fn::AllAttributesParser& b)
{
    auto &ra = a.get_word_range(), &rb = b.get_word_range();
    sym_assert(ra.size() == rb.size(), "the same words are stated");
    for (auto& x : ra) {
        auto it = rb.find(x.first);
        sym_assert(it != rb.end(), "the same words are stated");
        if (it == rb.end()) return;
        sym_assert(near(std::get<1>(x.second), std::get<1>(it->second)), "positions are those of the line with values");
        sym_assert(near(std::get<0>(x.second), std::get<0>(it->second)) & near(std::get<2>(x.second), std::get<2>(it->second)), "ranges are those of the line with values");
    }
    auto &ma = a.get_macro_values(), &mb = b.get_macro_values();
    sym_assert(ma.size() == mb.size(), "the same variables are set");
    for (auto& x : ma) {
        auto it = mb.find(x.first);
        sym_assert(it != mb.end(), "the same variables are set");
        if (it == mb.end()) return;
        sym_assert(near(x.second, it->second), "variables have the values of the line with values");
    }
    sym_assert(a.get_unit_system() == b.get_unit_system(), "the unit system is the same");
}
static void subst_setup()
{
    Opt o = ncopt(true, true);
    o.ps.verify_code_groups = true;
    o.g = {{{1, 0}, {"1"}}, {{2, 0}, {"1"}}, {{20, 0}, {"2"}}, {{21, 0}, {"2"}}, {{54, 1}, {"3"}}, {{54, 0}, {"3"}}};
    o.m = {{{3, 0}, {"1"}}, {{4, 0}, {"1"}}};
    o.metric["E"] = o.imperial["E"] = {"E", 0, 999, 0, 999, false, fn::WordType::misc};
    pa = mkparser(o);
    pb = mkparser(o);
}
static void subst(const std::string& val, const char* t)
{
    for (auto* p : {pa.get(), pb.get()}) {
        auto r = parse(*p, "#1=" + val, 1);
        sym_assert(r.ok, "an assignment of a number is accepted");
    }
    std::string a, b;
    for (const char* c = t; *c; ++c) {
        if (*c != '@') { a += *c; b += *c; continue; }
        a += "#1";
        // the word takes one sign
        if (val[0] == '-' && !b.empty() && (b.back() == '-' || b.back() == '+')) { b.back() = b.back() == '-' ? '+' : '-'; b += val.substr(1); }
        else b += val;
    }
    auto ra = parse(*pa, a, 2), rb = parse(*pb, b, 2);
    sym_note("'" + a + "' with #1=" + val + " -> " + (ra.ok ? "accepted" : "rejected " + ra.msg) + ", '" + b + "' -> " + (rb.ok ? "accepted" : "rejected " + rb.msg));
    sym_reach(rb.ok ? "accepted" : "rejected");
    sym_assert(ra.ok == rb.ok, "a line with macro references has the verdict of the line with their values");
    same_state(*pa, *pb);
}
HARNESS_SETUP(subst_int, 1, subst_setup)
{
    static const char* t[] = {"G0X@", "X@Y-@", "B@D-@", "M@", "S@F@", "G@", "G1G@", "M3M@", "G90G1X@ Y@ F100S5", "H@X[@]", "T@M6", "E@N5", "G91X+@Z@", "F@(X1)X@", "/G0X@", "(A)/X@"};
    int neg = sym_choice("negative", 2), n = 1 + sym_choice("digits", 2);
    std::string d = sym_bytes("d", n, '0', '9'), l = t[sym_choice("line", sizeof t / sizeof *t)];
    // (a number of a code decides nearly every branch: the solver splits it digit by digit)
    if (l == "G@" || l == "M@" || l == "M3M@") for (char& c : d) c = (char)('0' + sym_concrete_int(c - '0'));
    subst((neg ? "-" : "") + d, l.c_str());
}
HARNESS_SETUP(subst_dec, 1, subst_setup)
{
    static const char* t[] = {"G0X@", "X@Y-@", "B@D@", "F@S5", "G@", "G90G1X@Z@F100S5", "X[@]"};
    int neg = sym_choice("negative", 2);
    std::string i = sym_bytes("i", 1, '0', '9'), f = sym_bytes("f", 1, '1', '9');
    subst((neg ? "-" : "") + i + "." + f, t[sym_choice("line", sizeof t / sizeof *t)]);
}

// ---------------------------------------------------------------- C11 system variables
struct Sys { char w; unsigned n; };
static const Sys sysvars[] = {{'B', 4102}, {'D', 4107}, {'E', 4108}, {'F', 4109}, {'H', 4111}, {'M', 4113}, {'N', 4114}, {'S', 4119}};
static void sys_setup()
{
    Opt o;
    o.ps = ParserSettings{true, false, false, false, false};
    for (auto* m : {&o.metric, &o.imperial})
        for (const char* w : {"B", "D", "E", "F", "H", "M", "N", "S", "X", "T", "P"}) (*m)[w] = {w, -99999, 99999, 0, 9999, false, fn::WordType::misc};
    pa = mkparser(o);
}
static double last_value(const fn::macro_map& m, unsigned id, int line, bool& found)
{
    auto it = m.lower_bound({id, line});
    found = it != m.end() && it->first.id == id;
    return found ? it->second : 0;
}
HARNESS_SETUP(sysvar, 1, sys_setup)
{
    // two lines, each with two words; system variables keep the number stated last
    static const char words[] = "BDEFHMNSXTP";
    const int nw = sizeof words - 1;
    double want[8];
    bool set[8] = {};
    for (int line = 1; line <= 2; ++line) {
        int a = sym_choice("word", nw), b = line == 1 ? (a + 1) % nw : (a + 3) % nw;
        if (line == 2) sym_assume(a < 8);
        bool macro = line == 2 && sym_flag("by_macro");
        if (macro) sym_assume(words[a] != 'N');   // a line number is not given by a variable
        if (macro) parse(*pa, "#7=12", line * 10 - 1);
        std::string text;
        for (int k = 0; k < 2; ++k) {
            int w = k ? b : a;
            int form = macro && !k ? 3 : k ? 0 : sym_choice("form", 3);
            std::string d = form == 3 ? "" : sym_bytes(("d" + std::to_string(line * 2 + k)).c_str(), 2, '0', '9');
            double v = form == 3 ? 12 : ival(d);
            text += words[w];
            if (form == 0) text += d;
            if (form == 1) { text += "-" + d; v = -v; }
            if (form == 2) { text += d + ".5"; v += .5; }
            if (form == 3) text += "#7";
            for (int s = 0; s < 8; ++s) if (sysvars[s].w == words[w]) { want[s] = v; set[s] = true; }
        }
        auto r = parse(*pa, text, line * 10);
        sym_note(text + (r.ok ? " accepted" : " rejected " + r.msg));
        sym_assert(r.ok, "a line of configured words in range is accepted");
        auto& m = pa->get_macro_values();
        for (int s = 0; s < 8; ++s)
            for (unsigned off : {0u, 200u, 400u}) {
                bool f;
                double v = last_value(m, sysvars[s].n + off, line * 10, f);
                sym_assert(f == set[s], "a system variable is set exactly when its word was stated");
                if (f) sym_assert(near(v, want[s]), "a system variable has the number its word stated last");
            }
    }
    // and it can be used
    int s = sym_choice("use", 8);
    auto r = parse(*pa, "#9=#" + std::to_string(sysvars[s].n), 30);
    sym_assert(r.ok == set[s], "a system variable can be used once its word was stated");
    if (r.ok) {
        bool f;
        double v = last_value(pa->get_macro_values(), 9, 30, f);
        sym_assert(f && near(v, want[s]), "a system variable has the number its word stated last");
    }
    sym_reach(r.ok ? "used" : "unused");
}

// ---------------------------------------------------------------- C12 units
HARNESS(units, 0)
{
    using W = fn::WordType;
    Opt o;
    int xm = sym_choice("metric_x", 2) ? 50 : 5, xi = sym_choice("imperial_x", 2) ? 60 : 4;
    o.metric = {{"X", {"X", 0, xm, 0, 99, true, W::length}}, {"G", {"G", 0, 99, 1, 9, false, W::code}}, {"#", {"#", 1, 99, 0, 0, false, W::macro}}, {"=", {"=", -99, 99, 0, 99, false, W::calc}}};
    o.imperial = o.metric;
    o.imperial["X"] = {"X", 0, xi, 0, 9, false, W::length};
    o.ps = ParserSettings{true, true, false, false, false};
    o.g = {{{20, 0}, {"1"}}, {{21, 0}, {"1"}}};
    bool inch = sym_flag("inch");
    o.nc = sym_flag("nc");
    if (!o.nc) sym_assume(!inch);
    o.def.default_driver_units = inch ? EDriverUnits::Inch : EDriverUnits::Millimeter;
    auto p = mkparser(o);
    sym_assert((p->get_unit_system() == EDriverUnits::Inch) == inch, "parsing starts in the default units");
    std::string d = sym_bytes("g", 2, '0', '9');
    int form = sym_choice("line", 7), g = ival(d);
    std::string line;
    bool counts = true;
    switch (form) {
    case 0: line = "G" + d; break;
    case 1: line = "X1 G0" + d; break;
    case 2: line = "G90G" + d + "X2"; break;
    case 3: line = "G" + d + "X99"; counts = false; break;            // out of range in both tables: rejected
    case 4: { auto r = parse(*p, "#3=" + d, 1); sym_assert(r.ok, "assignment"); line = "G#3"; break; }
    case 5: line = "(G" + d + ")"; counts = false; break;
    default: line = "G20G" + d; counts = true; break;                  // a second unit code on the line conflicts
    }
    auto r = parse(*p, line, 2);
    if (form == 6) {
        bool conflict = (g == 20) | (g == 21);
        sym_assert(r.ok == !conflict, "G20 and G21 conflict");
        if (!conflict) inch = true;
    } else if (form == 3)
        sym_assert(!r.ok, "a word out of range");
    else
        sym_assert(r.ok, "the line is accepted");
    if (counts && form != 6) { if (g == 20) inch = true; else if (g == 21) inch = false; }
    sym_note(line + " then " + (inch ? "inch" : "mm"));
    sym_reach(inch ? "inch" : "mm");
    sym_assert((p->get_unit_system() == EDriverUnits::Inch) == inch, "G20 selects inches and G21 millimetres, from accepted lines only");
    std::string x = sym_bytes("x", 2, '0', '9');
    r = parse(*p, "X" + x, 3);
    int xv = ival(x);
    sym_note("X" + x + (r.ok ? " accepted" : " rejected"));
    sym_assert(r.ok == (xv <= (inch ? xi : xm)), "words are checked against the ranges of the selected units");
    r = parse(*p, "X1.12", 4);
    sym_assert(r.ok == !inch, "decimals are checked against the ranges of the selected units");
    r = parse(*p, "X1X2", 5);
    sym_assert(r.ok == inch, "repetition is checked against the table of the selected units");
}

// ---------------------------------------------------------------- C13 limits of S, T, F
HARNESS(limits, 1)
{
    Opt o = ncopt(false, true);
    o.metric = {};
    for (const char* w : {"S", "T", "F", "X", "G", "M"}) o.metric[w] = {w, 0, 99999, 0, 999, false, fn::WordType::misc};
    o.imperial = o.metric;
    o.kin.max_working_feed = sym_int("max_feed", 0, 20000);
    o.kin.maximum_spindle_speed = sym_int("max_speed", 0, 20000);
    o.kin.numer_of_items_in_the_warehouse = sym_int("tools", 0, 20000);
    o.def.operator_turns_on_rotation = false;
    bool lathe = sym_flag("lathe");
    o.tool_type = lathe ? EMachineToolType::Lathe : sym_flag("millturn") ? EMachineToolType::Millturn : EMachineToolType::Mill;
    o.tool = lathe ? EMachineTool::lathe_zx : EMachineTool::mill_3axis;
    double mf = o.kin.max_working_feed;
    int ms = o.kin.maximum_spindle_speed, mt = o.kin.numer_of_items_in_the_warehouse;
    auto p = mkparser(o);
    int w = sym_choice("word", 4), n = 1 + sym_choice("digits", 5), frac = w == 2 || w == 0 ? sym_choice("frac", 2) : 0;
    std::string d = sym_bytes("d", n, '0', '9'), f = frac ? sym_bytes("f", 1, '0', '9') : "";
    std::string line = std::string(1, "STFX"[w]) + d + (frac ? "." + f : "");
    if (sym_flag("inside")) line = "G0" + line + "M8";
    auto r = parse(*p, line);
    bool ok = true;
    double v = std::stod(frac ? d + "." + f : d);
    if (w == 0) ok = v <= ms;
    if (w == 1) ok = std::stoi(lathe && n > 2 ? d.substr(0, n / 2) : d) <= mt;
    if (w == 2) ok = v <= mf;
    if (sym_replaying()) sym_note(line + " limits S" + std::to_string(ms) + " T" + std::to_string(mt) + " F" + std::to_string((int)mf) + (r.ok ? " accepted" : " rejected " + r.msg));
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == ok, "spindle speed, tool number and feed are accepted up to the machine's limits");
    if (!r.ok) sym_assert(!r.msg.empty() && r.msg.find("STFX"[w]) != std::string::npos, "the message names the word");
}

// ---------------------------------------------------------------- C14 travel
HARNESS(travel, 1)
{
    Opt o = ncopt(true, false, true);
    double zx = sym_int("zero_x", -500, 500), zy = sym_int("zero_y", -500, 500), zz = sym_int("zero_z", -500, 500);
    double lo[3], hi[3], z[3] = {zx, zy, zz};
    static const char* ax[] = {"X", "Y", "Z"};
    o.zero = ZeroPoint{zx, zy, zz};
    o.kin.cartesian_system_axis.clear();
    for (int k = 0; k < 3; ++k) {
        lo[k] = sym_int((std::string("min_") + ax[k]).c_str(), -500, 0);
        hi[k] = sym_int((std::string("max_") + ax[k]).c_str(), 0, 500);
        o.kin.cartesian_system_axis[ax[k]] = {lo[k], hi[k]};
    }
    auto p = mkparser(o);
    // machine position 0 (the base point) is within the travel
    bool incr = sym_flag("incremental");
    int axis = sym_choice("axis", 3);
    bool neg = sym_flag("negative");
    std::string d = sym_bytes("d", 3, '0', '9'), f = sym_bytes("f", 1, '0', '9');
    std::string line = std::string(incr ? "G91" : "G90") + (sym_flag("work") ? "G1F100S1M3" : "G0") + ax[axis] + (neg ? "-" : "") + d + "." + f;
    auto r = parse(*p, line);
    double v = std::stod((neg ? "-" : "") + d + "." + f);
    double machine = incr ? v : v + z[axis];
    if (sym_replaying()) sym_note(line + (r.ok ? " accepted" : " rejected " + r.msg) + " zero " + std::to_string(z[axis]) + " travel " + std::to_string(lo[axis]) + ".." + std::to_string(hi[axis]));
    sym_reach(r.ok ? "accepted" : "rejected");
    // whole numbers and one decimal: rounding does not decide
    bool in = (machine >= lo[axis]) & (machine <= hi[axis]), out = (machine < lo[axis]) | (machine > hi[axis]);
    if (in) sym_assert(r.ok, "a move within the travel of the axes is accepted");
    if (out) { sym_assert(!r.ok, "a move beyond the travel of an axis is rejected"); sym_assert(r.msg.find(ax[axis]) != std::string::npos, "the message names the axis"); }
}

// ---------------------------------------------------------------- C15 spindle rotation
HARNESS(rotation, 0)
{
    Opt o = ncopt(false, true);
    bool oper = sym_flag("operator_turns_on");
    o.def.operator_turns_on_rotation = oper;
    auto p = mkparser(o);
    bool G = false, M = false, S = false, reported = false;
    static const char* t[] = {"S5", "M??", "G??", "M0?S6", "G?X1", "X5", "M3G1", "S1G?1", "G#1", "M#1"};
    bool any = false;
    int n = 3;
    std::string v1 = "3";
    bool have1 = false;
    for (int i = 1; i <= n; ++i) {
        int c = i == 3 ? "\4\6\11\0\3"[sym_choice("line", 4)] : sym_choice("line", sizeof t / sizeof *t);
        if ((c == 8 || c == 9) && !have1) {
            v1 = sym_bytes("v", 1, '0', '9');
            parse(*p, "#1=" + v1, 1);
            have1 = true;
        }
        std::string line = fill(t[c], '0', '9', ("d" + std::to_string(i)).c_str());
        auto r = parse(*p, line, i + 1);
        // oracle: read the words of the line
        std::string msg;
        bool ok = true;
        for (size_t k = 0; ok && k < line.size();) {
            char w = line[k++];
            int num = 0;
            if (line[k] == '#') { num = ival(v1); k += 2; }
            else while (k < line.size() && line[k] >= '0' && line[k] <= '9') num = num * 10 + (line[k++] - '0');
            if (w == 'S') { S = true; if (oper) ok = false; }
            if (w == 'M' && (num == 3 || num == 4)) { M = true; if (oper) ok = false; }
            if (w == 'G' && !oper && (num == 1 || (num >= 81 && num <= 89))) G = true;
        }
        const char* missing = nullptr;
        if (ok && !oper && !reported && G && !(S && M)) { missing = !S ? "S" : "M3/M4"; ok = false; reported = true; }
        sym_note(line + (r.ok ? " accepted" : " rejected " + r.msg));
        sym_assert(r.ok == ok, "working motion without rotation of the spindle is reported once; S, M3, M4 are not allowed when the operator starts it");
        if (missing) sym_assert(r.msg.find(missing) != std::string::npos, "the message names what is missing");
        any = any || !r.ok;
    }
    sym_reach(any ? "rejected" : "accepted");
}
