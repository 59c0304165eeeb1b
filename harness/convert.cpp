// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"
#include <cmath>

static int ival(const std::string& d)
{
    int v = 0;
    for (char c : d) v = v * 10 + (c - '0');
    return v;
}
static double pow10i(int n) { double r = 1; while (n-- > 0) r *= 10; return r; }
static std::unique_ptr<fn::AllAttributesParser> pc;
static Parsed orig(fn::AllAttributesParser& p, const std::string& s)
{
    Parsed r;
    fn::FanucAttributeData d;
    r.ok = p.parse(1, s, d, r.msg, true);
    r.v = std::move(d.value);
    return r;
}
static std::vector<std::string> texts(const std::vector<fn::AttributeVariant>& v)
{
    std::vector<std::string> t;
    for (auto& x : v) t.push_back(show(x));
    return t;
}
static bool same(const std::vector<std::string>& a, const std::vector<std::string>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
    return true;
}
static std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i];
    return s;
}

// ---------------------------------------------------------------- C16 renumbering
// lines of every kind, symbolic settings
HARNESS(renum, 0)
{
    Opt o;
    int lo = sym_int("least", 1, 5), hi = sym_choice("table", 2) ? 9999 : 99;
    o.metric["N"] = {"N", lo, hi, 0, 0, true, fn::WordType::numbering};
    o.metric[":"] = {":", 1, 9999, 0, 0, true, fn::WordType::numbering};
    auto p = mkparser(o);
    RenumberSettings rs;
    rs.word = "N";
    rs.step = sym_int("step", 1, 90);
    rs.frequency = sym_int("frequency", 0, 3);
    rs.max_number = sym_int("max", 1, 99);
    rs.existing_only = sym_flag("existing_only");
    rs.leading_zeroes = sym_flag("leading_zeroes");
    unsigned counter = 1;
    bool rst = sym_flag("reset");
    if (sym_flag("start")) {
        counter = sym_int("start_value", 0, 99);
        p->set_renumber_start_value(counter);
    }
    if (rst) { p->renumber_reset(); counter = 1; }
    static const struct { const char* text; bool number, skip; const char* rest; } T[] = {
        {"G1X2", false, false, "G1 X2"}, {"N5G1", true, false, "G1"}, {"N67", true, false, ""}, {"%", false, true, "%"}, {"O12", false, true, "O12"},
        {"(N5)X1", false, true, "(N5) X1"}, {"/1N5G1", false, true, "/1 N5 G1"}, {"", false, true, ""}, {":7M3(A)", true, false, "M3 (A)"}, {"#1=5", false, false, "#1 =5"}};
    int n = 0, nth = 0;
    for (int i = 0; i < 3; ++i) {
        auto& t = T[i == 1 ? sym_choice("line", 10) : sym_choice("line", 2)];
        fn::FanucAttributeData d;
        std::string msg;
        bool ok = p->renumber(i + 1, t.text, d, msg, true, rs);
        if (*t.text) sym_assert(ok, "a valid line is renumbered");
        std::string want;
        bool numbered = false;
        if (t.skip || (rs.existing_only && !t.number)) want = (t.number ? "" : "") + std::string(t.rest);
        else {
            bool turn = rs.frequency < 2 || nth == 0;
            if (turn) {
                numbered = true;
                std::string num = std::to_string(counter);
                if (rs.leading_zeroes) while (num.size() < std::to_string(hi).size()) num.insert(0, "0");
                want = "N" + num + (*t.rest ? " " : "") + t.rest;
                counter += rs.step;
                if (counter > rs.max_number) counter = lo;
                ++n;
            } else want = t.rest;
            if (rs.frequency >= 2) nth = (nth + 1) % rs.frequency;
        }
        std::string got = show(d.value, " ");
        sym_note(std::string(t.text) + " -> " + got + ", expected " + want);
        sym_assert(got == want, "a line gets the next number, and nothing else of it changes");
        (void)numbered;
    }
    sym_reach(n ? "numbered" : "none");
}
// the rest of any line survives
static void any_setup()
{
    Opt o;
    o.metric[":"] = {":", 1, 9999, 0, 0, true, fn::WordType::numbering};
    for (auto& w : o.metric) w.second.unique = false;    // duplicates are not a matter of conversions
    pc = mkparser(o);
}
static std::string any_line()
{
    static const char* t[] = {"N??", "N?X??", "N5?", "?N5", "?5G1", "G?X-?.?", "X?Y?", "N#1X?", "N?(?)", "/?N5", "/??", "N7/1?", "N1N?", "(?)N?", "N[#1]X?", "#1=?", "N5#?=2", "IF[#1EQ?]", "N9WHILE[?", "%?", "O?N5", " N??", "N 5?"};
    return fill(t[sym_choice("line", sizeof t / sizeof *t)], 32, 126);
}
static void result(const char* what, const std::string& line, bool ok, const std::vector<std::string>& a, bool ok2, const std::vector<std::string>& b)
{
    sym_note(std::string(what) + " '" + line + "' " + (ok ? "accepted: " : "rejected: ") + join(a) + (ok2 ? " -> accepted: " : " -> rejected: ") + join(b));
    sym_reach(ok ? "accepted" : "rejected");
    sym_assert(ok == ok2, "a line is converted exactly when it is a valid line");
}
static bool is_number(const std::string& w, const fn::AttributeVariant& v)
{
    auto* d = boost::get<fn::DecimalAttributeData>(&v);
    return d && (d->word == "N" || d->word == ":");
}
HARNESS_SETUP(renum_any, 0, any_setup)
{
    std::string line = any_line();
    auto r = orig(*pc, line);
    fn::FanucAttributeData d;
    std::string msg;
    RenumberSettings rs{"N", 1, 1, 9999, false, false};
    pc->set_renumber_start_value(4321);
    bool ok = pc->renumber(1, line, d, msg, true, rs);
    auto a = texts(r.v), b = texts(d.value);
    result("renumber", line, r.ok, a, ok, b);
    if (!r.ok || a.empty()) return;
    bool skip = a[0][0] == '%' || boost::get<fn::StringAttributeData>(&r.v[0]) || a[0][0] == '/';
    if (skip) {
        if (a[0] == "/") return;     // a block to skip without a number: outside the claim
        sym_assert(same(a, b), "program start, program number, comment and optional block are left as they are");
        sym_reach("skipped");
        return;
    }
    size_t from = 0;
    if (is_number("", r.v[0])) {
        from = 1;
        if (show(r.v[0]).find('[') != std::string::npos) return;    // a computed number: outside the claim
    }
    sym_assert(!b.empty() && b[0] == "N4321", "the line begins with its new number");
    a.erase(a.begin(), a.begin() + from);
    if (!b.empty()) b.erase(b.begin());
    sym_assert(same(a, b), "the rest of the line is unchanged");
}

// ---------------------------------------------------------------- C17 numbering, comments, optional blocks removed
HARNESS_SETUP(remove_any, 0, any_setup)
{
    std::string line = any_line();
    auto r = orig(*pc, line);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = pc->remove_numbering(1, line, d, msg, true);
    auto a = texts(r.v), b = texts(d.value);
    result("remove numbering", line, r.ok, a, ok, b);
    if (!r.ok) return;
    if (!a.empty() && is_number("", r.v[0])) {
        if (a[0].find('[') != std::string::npos) return;
        a.erase(a.begin());
        sym_reach("removed");
    }
    sym_assert(same(a, b), "the number at the beginning of the line is removed, and nothing else");
}
HARNESS_SETUP(comment_any, 0, any_setup)
{
    static const char* t[] = {"(?)X?", "X1(?)", "X1(?)Y2(??)", "(??)", "(N?)(X)Z?", "G1?", "N5(?", "?)X", "/1(A)?", "O1?(B)", "X[?]", "(?(", "#1=?(C)"};
    std::string line = fill(t[sym_choice("line", sizeof t / sizeof *t)], 32, 126);
    auto r = orig(*pc, line);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = pc->remove_comment(1, line, d, msg, true);
    auto a = texts(r.v), b = texts(d.value);
    result("remove comment", line, r.ok, a, ok, b);
    if (!r.ok) return;
    std::vector<std::string> w;
    for (auto& x : a) {
        if (x[0] == '(') sym_reach("removed");
        else w.push_back(x);
    }
    sym_assert(same(w, b), "comments are removed, and nothing else");
}
HARNESS_SETUP(optional_any, 0, any_setup)
{
    static const char* t[] = {"/?X?", "/?/?X1", "/ ?G1", "G1/?", "/?", "?1X2", "/1N?", "N5/?", "(A)/?", "/1/2/?", "X1 /?", "/?1/X"};
    std::string line = fill(t[sym_choice("line", sizeof t / sizeof *t)], 32, 126);
    auto r = orig(*pc, line);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = pc->remove_optional_block(1, line, d, msg, true);
    auto a = texts(r.v), b = texts(d.value);
    result("remove optional block", line, r.ok, a, ok, b);
    if (!r.ok) return;
    for (auto& x : a) if (x.compare(0, 2, "/[") == 0) return;    // no optional block
    while (!a.empty() && a[0][0] == '/' && a[0].size() > 1 && a[0][1] >= '0' && a[0][1] <= '9') { a.erase(a.begin()); sym_reach("removed"); }
    sym_assert(same(a, b), "optional block codes with a number at the beginning are removed, and nothing else");
}

// ---------------------------------------------------------------- C18 unit conversion
static fn::WordGrammar wg(const char* w, int dec, fn::WordType t) { return {w, -99999, 99999, 0, (unsigned)dec, false, t}; }
HARNESS(convert1, 1)
{
    Opt o;
    static const int DEC[] = {0, 9, 99, 999, 9999};
    int di = sym_choice("decimals", 5);
    bool inch = sym_flag("to_inch");
    static const struct { const char* w; fn::WordType t; bool len; } W[] = {{"X", fn::WordType::length, true}, {"F", fn::WordType::feed, true}, {"A", fn::WordType::angle, false}, {"S", fn::WordType::misc, false}, {"P", fn::WordType::misc, false}};
    auto& w = W[sym_choice("word", 5)];
    (inch ? o.imperial : o.metric)[w.w] = wg(w.w, DEC[di], w.t);
    (inch ? o.metric : o.imperial)[w.w] = wg(w.w, 9999, w.t);
    if (!inch) o.metric[w.w].decimal_to = DEC[di];
    // lines are read with the metric table
    int n = sym_choice("digits", 4), f = sym_choice("frac", inch ? 4 : di ? 3 : 1);
    if (!n && !f) return;
    int sign = sym_choice("sign", 3);
    std::string num = n ? sym_bytes("i", n, '0', '9') : "";
    if (f || sym_flag("dot")) { if (!inch && !di) return; num += "." + (f ? sym_bytes("f", f, '0', '9') : ""); }
    auto p = mkparser(o);
    std::string line = std::string(w.w) + (sign == 1 ? "-" : sign == 2 ? "+" : "") + num;
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = p->convert_length(1, line, d, msg, true, inch ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric);
    std::string s = show(d.value);
    sym_note(line + (ok ? " -> " : " rejected ") + s + msg);
    if (!ok) { sym_reach("rejected"); auto r = orig(*p, line); sym_assert(!r.ok, "a valid line is converted"); return; }
    if (!w.len) { sym_reach("unchanged"); sym_assert(s == line, "words that are no lengths are unchanged"); return; }
    sym_reach("converted");
    sym_assert(d.value.size() == 1, "one word");
    size_t k = 1 + (sign > 0);
    sym_assert(s.compare(0, k, line.substr(0, k)) == 0, "word and sign are kept");
    std::string t = s.substr(k);
    size_t dot = t.find('.');
    int decs = dot == std::string::npos ? 0 : (int)(t.size() - dot - 1);
    sym_assert(!t.empty() && dot != 0 && decs <= di, "the number has at most the decimals of the word");
    if (dot != std::string::npos) sym_assert(decs > 0 && t.back() != '0', "no trailing zeros");
    double v = strtod(num.c_str(), nullptr), got = strtod(t.c_str(), nullptr), e = inch ? got * 25.4 - v : got - v * 25.4;
    double tol = 0.50001 / pow10i(di) * (inch ? 25.4 : 1);
    sym_assert((e <= tol) & (e >= -tol), "the length is the same, rounded to the decimals of the word");
}
// every number of two digits with every number of decimals: the text digit by digit
HARNESS(convert_small, 0)
{
    Opt o;
    static const int DEC[] = {0, 9, 99, 999, 9999};
    int di = sym_choice("decimals", 5);
    bool inch = sym_flag("to_inch");
    o.metric["X"] = wg("X", 99, fn::WordType::length);
    (inch ? o.imperial : o.metric)["X"] = wg("X", inch ? DEC[di] : di == 0 ? 0 : DEC[di], fn::WordType::length);
    int k = sym_concrete_int(sym_int("number", 0, 99));
    std::string num = std::to_string(k), want;
    auto p = mkparser(o);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = p->convert_length(1, "X" + num, d, msg, true, inch ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric);
    // in units of the last decimal
    long P = (long)pow10i(di), u = inch ? (2L * k * 10 * P + 254) / 508 : (2L * 254 * k * P + 10) / 20;
    bool tie = inch ? (2L * k * 10 * P + 254) % 508 == 0 : (2L * 254 * k * P + 10) % 20 == 0;
    auto text = [&](long n) {
        std::string t = std::to_string(n / P);
        if (di) {
            std::string f = std::to_string(P + n % P).substr(1);
            while (!f.empty() && f.back() == '0') f.pop_back();
            if (!f.empty()) t += "." + f;
        }
        return "X" + t;
    };
    std::string got = show(d.value);
    sym_note("X" + num + " -> " + got + ", expected " + text(u));
    sym_reach(inch ? "inch" : "metric");
    sym_assert(ok && (got == text(u) || (tie && got == text(u - 1))), "the converted number is written in full, without needless zeros");
}
// which words of a line are converted
HARNESS(convert_line, 0)
{
    Opt o;
    for (auto* m : {&o.metric, &o.imperial}) { (*m)["G"] = {"G", 0, 999, 0, 9, false, fn::WordType::code}; (*m)["X"] = wg("X", 9999, fn::WordType::length); (*m)["I"] = wg("I", 9999, fn::WordType::length); (*m)["F"] = wg("F", 9999, fn::WordType::feed); (*m)["R"] = wg("R", 9999, fn::WordType::length);}
    auto p = mkparser(o);
    bool inch = sym_flag("to_inch");
    const std::string a = inch ? "254" : "10", b = inch ? "10" : "254";
    std::string g = "G" + std::string(sym_flag("zero") ? "0" : "") + sym_bytes("g", 1 + sym_choice("digits", 2), '0', '9');
    int num = ival(g.substr(1));
    int dec = sym_choice("decimal", 6);
    if (dec) g += "." + std::to_string(dec == 5 ? 0 : dec);
    if (dec && (num == 20 || num == 21)) return;    // no such codes
    bool dwell = num == 4 && (!dec || dec == 5), g68 = num == 68 && dec != 1 && dec != 5;
    std::string g2 = g;
    if (!dec && num == (inch ? 21 : 20)) g2 = inch ? "G20" : "G21";
    std::string line, want;
    int form = sym_choice("form", 6);
    std::string xa = "X" + a, xb = "X" + (dwell ? a : b), fb = "F" + (dwell ? a : b), ib = "I" + (dwell || g68 ? a : b), rb = "R" + (dwell || g68 ? a : b);
    switch (form) {
    case 0: line = g + xa; want = g2 + xb; break;
    case 1: line = "N5" + g + "X-" + a + "F" + a + "S300A90"; want = "N5" + g2 + "X-" + (dwell ? a : b) + fb + "S300A90"; break;
    case 2: line = xa + g; want = xb + g2; break;
    case 3: line = g + "I" + a + "R" + a + xa; want = g2 + ib + rb + xb; break;
    case 4: line = "(X" + a + ")" + g + "X#1Y[5+1]" + "F" + a; want = "(X" + a + ")" + g2 + "X#1Y[5+1]" + fb; break;
    case 5: line = "I" + a + g + xa; want = ib + g2 + xb; break;
    }
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = p->convert_length(1, line, d, msg, true, inch ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric);
    std::string s = show(d.value);
    sym_note(line + (ok ? " -> " : " rejected ") + s + msg + ", expected " + want);
    sym_reach(ok ? dwell ? "dwell" : g68 ? "rotation" : g2 != g ? "unit" : "other" : "rejected");
    if (ok && dec != 1 && dec != 5) sym_assert(s == want, "lengths and feeds are converted, nothing else; G20 and G21 are swapped");
}

// any line is converted or rejected with the verdict of the parser, and words that are neither lengths nor feeds stay
static void conv_setup()
{
    Opt o;
    for (auto& w : o.metric) w.second.unique = false;
    o.imperial = o.metric;
    pc = mkparser(o);
}
HARNESS_SETUP(convert_any, 1, conv_setup)
{
    static const char* t[] = {"X???", "G??X1", "X1G??", "X?F?", "G?.?X1", "?5X1", "/?X1", "X[?]", "X#?", "X1(??)", "#1=?", "IF[#1EQ?]", "?X1", "O?", "%?", "G999999999?X1", "X999999999?", "G21?X2", "G1?20X2", "(?)X1", "X1/?"};
    std::string line = fill(t[sym_choice("line", sizeof t / sizeof *t)], 32, 126);
    bool inch = sym_flag("to_inch");
    auto r = orig(*pc, line);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = pc->convert_length(1, line, d, msg, true, inch ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric);
    auto a = texts(r.v), b = texts(d.value);
    result("convert", line, r.ok, a, ok, b);
    if (!ok) return;
    sym_assert(a.size() == b.size(), "no word is added or lost");
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        auto* x = boost::get<fn::DecimalAttributeData>(&r.v[i]);
        bool plain = x && (x->value || x->value2) && !x->macro && !x->open_bracket && !x->close_bracket;
        bool len = plain && (x->word == "X" || x->word == "Y" || x->word == "Z" || x->word == "F" || x->word == "I" || x->word == "J" || x->word == "K" || x->word == "R" || x->word == "Q");
        if (plain && x->word == "G") len = true;    // G20 and G21, see convert_line
        if (!len) sym_assert(a[i] == b[i], "what is neither a length nor a feed is unchanged");
    }
}

// ---------------------------------------------------------------- C19 rotation of the axes
// image of axis a (0 X, 1 Y, 2 Z) under n quarter turns about axis r: where it goes, and its direction there.
// A quarter turn about X takes Z to Y and Y to -Z, and so on around.
static void turned(int r, int n, int a, int& to, int& dir)
{
    to = a;
    dir = 1;
    while (n-- > 0) {
        if (to == r) continue;
        if (to == (r + 1) % 3) { to = (r + 2) % 3; dir = -dir; }
        else to = (r + 1) % 3;
    }
}
static const char AXW[] = "XYZ", OFW[] = "IJK";
static void rotate(bool codes)
{
    auto p = mkparser(Opt());
    int opt = sym_choice("option", 9), r = opt / 3, n = opt % 3 + 1;
    std::string line, want;
    auto add = [&](const std::string& a, const std::string& b) { line += a; want += b; };
    if (codes && sym_flag("numbered")) add("N17", "N17");
    int plane = codes ? sym_choice("plane", 4) : 0;     // none, or a code in the block
    int nax = plane == 2 ? 1 : plane == 3 ? 0 : 2, nto, ndir;
    turned(r, n, nax, nto, ndir);
    static const int PL[] = {19, 18, 17};
    if (plane) add(std::string(sym_flag("zero") ? "G0" : "G") + std::to_string(PL[nax]), "G" + std::to_string(PL[nto]));
    int motion = codes ? sym_choice("motion", 4) : 1;
    bool zero = codes && sym_flag("zero0");
    bool known = false;
    std::string finding;
    if (motion >= 2) {
        int to = ndir < 0 ? 5 - motion : motion, gto, gdir;
        turned(r, n, 2, gto, gdir);
        std::string a = std::string(zero ? "G0" : "G") + std::to_string(motion), b = "G" + std::to_string(to);
        if (gdir != ndir) { known = true; finding = "G" + std::to_string(gdir < 0 ? 5 - motion : motion); }
        add(a, known ? "@" : b);
    } else if (motion == 1) { std::string a = zero ? "G01" : "G1"; add(a, a); }
    // numbers in any notation
    static const char* NUM[] = {"?", "?.?", ".?", "#?", "[?+?]"};
    int cnt = codes ? 1 : 1 + sym_choice("words", 2);
    for (int i = 0; i < cnt; ++i) {
        int ax = codes && i == 0 ? 0 : sym_choice("axis", 3), to, dir;
        bool off = i == 1;
        turned(r, n, ax, to, dir);
        std::string num = fill(NUM[codes || i ? 0 : sym_choice("number", 5)], '0', '9');
        int sg = codes ? 0 : i ? 1 : sym_choice("sign", 3);
        std::string s0 = sg == 1 ? "-" : sg == 2 ? "+" : "", s1 = dir > 0 ? s0 : sg == 1 ? "" : "-";
        const char* W = off ? OFW : AXW;
        add(W[ax] + s0 + num, W[to] + s1 + num);
    }
    static const char* REST[] = {"", "F200", "A-90(X1)", "R5M3", "G2.1", "G#2"};
    std::string rest = REST[codes || cnt > 1 ? 0 : sym_choice("rest", 6)];
    add(rest, rest);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = p->rotate_axes(1, line, d, msg, true, (AxesRotatingOption)opt);
    std::string got = show(d.value);
    auto r0 = orig(*p, line);
    sym_note(line + (ok ? " -> " : " rejected ") + got + " expected " + want);
    sym_assert(ok == r0.ok, "a line is rotated exactly when it is valid");
    if (!ok) { sym_reach("rejected"); return; }
    sym_reach(motion >= 2 ? ndir < 0 ? "reversed arc" : "arc" : "no arc");
    if (known) {
        auto sub = [&](const std::string& g) { std::string w = want; w.replace(w.find('@'), 1, g); return w; };
        std::string right = "G" + std::to_string(ndir < 0 ? 5 - motion : motion);
        if (got == sub(finding)) {
            std::string id = "KNOWN:rotate-" + std::string(1, AXW[r]) + std::to_string(90 * n) + "-G" + std::to_string(PL[nax]);
            sym_reach(id.c_str());
            return;
        }
        want = sub(right);
    }
    sym_assert(got == want, "axes, offsets, planes and arc directions turn together, and nothing else changes");
}
HARNESS(rotate_codes, 0) { rotate(true); }
HARNESS(rotate_words, 0) { rotate(false); }
HARNESS_SETUP(rotate_any, 0, any_setup)
{
    static const char* t[] = {"X??", "?5X1", "G??X1", "G?.?X1", "/?X1", "X[?]", "X#?", "(??)X1", "#1=?", "IF[#1EQ?]", "?X1", "O?", "%?", "X1(?)", "X?Y?Z?", "U?V1W?", "G91X-?", "X1/?"};
    std::string line = fill(t[sym_choice("line", sizeof t / sizeof *t)], 32, 126);
    auto r = orig(*pc, line);
    fn::FanucAttributeData d;
    std::string msg;
    bool ok = pc->rotate_axes(1, line, d, msg, true, AxesRotatingOption::Zrotate180degrees);
    auto a = texts(r.v), b = texts(d.value);
    result("rotate", line, r.ok, a, ok, b);
    if (!ok) return;
    sym_assert(a.size() == b.size(), "no word is added or lost");
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        auto* x = boost::get<fn::DecimalAttributeData>(&r.v[i]);
        bool moved = x && (x->word == "X" || x->word == "Y" || x->word == "I" || x->word == "J");
        if (moved) {
            sym_reach("turned");
            std::string w = a[i].substr(0, 1), v = a[i].substr(1);
            if (v[0] == '-') v.erase(0, 1);
            else { if (v[0] == '+') v.erase(0, 1); v.insert(0, "-"); }
            sym_assert(b[i] == w + v, "half a turn changes the sign of the coordinate");
        } else if (x && x->word == "G") {
            bool lead = a[i].size() > 2 && a[i][1] == '0';
            if (!lead) sym_assert(a[i] == b[i], "nothing else changes");
        } else sym_assert(a[i] == b[i], "nothing else changes");
    }
}
