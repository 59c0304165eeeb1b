// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"

static std::unique_ptr<fn::AllAttributesParser> ap;

// ---------------------------------------------------------------- C02 fidelity
static void plain_setup() { ap = mkparser(Opt{}); }
static void fidelity(const std::string& s)
{
    auto r = parse(*ap, s);
    sym_note("line '" + s + "' -> '" + show(r.v, " ") + "'");
    sym_reach(r.ok ? "accepted" : "rejected");
    if (!r.ok) return;
    std::string a = squeeze(s), b = squeeze(show(r.v));
    // a word after a program number is its name and is not represented
    if (a.size() > b.size() && !r.v.empty()) {
        auto* p = boost::get<fn::StringAttributeData>(&r.v.back());
        if (p && p->word == "O") {
            bool alpha = true;
            for (size_t i = b.size(); i < a.size(); ++i) alpha = alpha && ((a[i] >= 'a' && a[i] <= 'z') || (a[i] >= 'A' && a[i] <= 'Z'));
            sym_assert(alpha, "only a name after the program number may be dropped");
            sym_assert(a.compare(0, b.size(), b) == 0, "words of an accepted line reproduce the line");
            return;
        }
    }
    sym_assert(a.size() == b.size() && a == b, "words of an accepted line reproduce the line");
}
HARNESS_SETUP(fid3, 0, plain_setup) { fidelity(sym_bytes("c", 3, 0, 255)); }
HARNESS_SETUP(fidt, 0, plain_setup)
{
    static const char* t[] = {"G1X?.?Y-?", "/?X?Z", "N?G??", "X[?+?]", "#?=?*?", "#1=#?/?", "(?)?X1", "O1? ?", "C2=??", "C2?1?", "X1.?? ?", ",?1 ?", "GOTO?N?", "S??  M?", "IF[#?EQ?]", "X?#1Y?", "[?]/?]", "% ?", "A1 ??5"};
    fidelity(fill(t[sym_choice("template", sizeof t / sizeof *t)], 0x20, 0x7e));
}

// ---------------------------------------------------------------- C03 ranges
static std::string num(const std::string& s) { return s; }
static int to_int(const std::string& digits)
{
    int v = 0;
    for (char c : digits) v = v * 10 + (c - '0');
    return v;
}
static fn::FanucWordGrammar one_word(const std::string& w, int from, int to, unsigned dfrom, unsigned dto, fn::WordType t = fn::WordType::length)
{
    fn::word_map m{{w, {w, from, to, dfrom, dto, false, t}}, {"#", {"#", 1, 9999, 0, 0, false, fn::WordType::macro}}};
    return {m, m};
}
HARNESS(range, 2)
{
    static const char* words[] = {"X", "G", ",C", "C2"};
    int w = sym_choice("word", 4);
    std::string word = words[w];
    int from = sym_int("from", -100000, 100000), to = sym_int("to", -100000, 100000);
    unsigned dfrom = sym_int("dfrom", 0, 100000), dto = sym_int("dto", 0, 100000);
    auto g = one_word(word, from, to, dfrom, dto, w == 3 ? fn::WordType::assignable : fn::WordType::length);
    fn::AllAttributesParser p(std::move(g), {}, {}, {}, ParserSettings{}, OtherSettings{ELanguage::English}, EFanucParserType::FanucMill, true);
    int ni = sym_choice("int_digits", w == 0 ? 5 : 3), sign = sym_choice("sign", 3), dot = sym_choice("dot", 2), nf = dot ? sym_choice("frac_digits", w == 0 ? 5 : 3) : 0;
    std::string I = sym_bytes("i", ni, '0', '9'), F = sym_bytes("f", nf, '0', '9');
    std::string line = word + (w == 3 ? "=" : "") + (sign == 1 ? "-" : sign == 2 ? "+" : "") + I + (dot ? "." : "") + F;
    auto r = parse(p, line);
    sym_note("line " + line + " table [" + std::to_string(from) + "," + std::to_string(to) + "] decimals [" + std::to_string(dfrom) + "," + std::to_string(dto) + "] -> " + (r.ok ? "accepted" : "rejected: " + r.msg));
    bool ok = true;
    if (ni) {
        int v = to_int(I);
        if (sign == 1) v = -v;
        ok = (v >= from) & (v <= to);
    } else
        ok = dot && nf;
    if (dot) ok = ok & (dto != 0);
    if (nf) {
        unsigned f = to_int(F);
        ok = ok & (f >= dfrom) & (f <= dto);
    }
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == ok, "a numeric word is accepted exactly when its value is within the configured ranges");
    sym_assert(r.ok || !r.msg.empty(), "a rejected value is explained");
}
// the number of a referenced macro variable is checked against the range of '#'
HARNESS(range_macro, 2)
{
    int from = sym_int("from", -1000, 100000), to = sym_int("to", -1000, 100000);
    fn::word_map m{{"X", {"X", -5, 5, 0, 9, false, fn::WordType::length}}, {"#", {"#", from, to, 0, 0, false, fn::WordType::macro}}};
    fn::AllAttributesParser p({m, m}, {}, {}, {}, ParserSettings{}, OtherSettings{ELanguage::English}, EFanucParserType::FanucMill, true);
    int n = 1 + sym_choice("digits", 4), sign = sym_choice("sign", 2);
    std::string I = sym_bytes("i", n, '0', '9');
    auto r = parse(p, std::string("X") + (sign ? "-" : "") + "#" + I);
    int v = to_int(I);
    sym_note("X#" + I);
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == ((v >= from) & (v <= to)), "a macro reference is accepted exactly when its number is within the range of macro variables");
}
// several words on one line: each is judged by its own entry; an unknown word makes the line invalid
HARNESS(range_line, 2)
{
    int a = sym_int("xto", 0, 9), b = sym_int("yto", 0, 9), c = sym_int("gto", 0, 9);
    fn::word_map m{{"X", {"X", 0, a, 0, 9, false, fn::WordType::length}}, {"Y", {"Y", -b, b, 0, 9, false, fn::WordType::length}}, {"G", {"G", 0, c, 0, 0, false, fn::WordType::code}}};
    fn::AllAttributesParser p({m, m}, {}, {}, {}, ParserSettings{}, OtherSettings{ELanguage::English}, EFanucParserType::FanucMill, true);
    std::string line;
    bool ok = true;
    for (int i = 0; i < 3; ++i) {
        int w = sym_choice("word", 4);
        bool blank = sym_flag("blank");
        std::string d = sym_bytes(("d" + std::to_string(i)).c_str(), 1, '0', '9');
        int v = d[0] - '0';
        line += std::string(blank ? " " : "") + "XYGV"[w] + d;
        ok = ok & (w == 0 ? v <= a : w == 1 ? v <= b : w == 2 ? v <= c : false);
    }
    auto r = parse(p, line);
    sym_note(line);
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == ok, "a line is accepted exactly when each of its words is known and in range");
}

// ---------------------------------------------------------------- C04 line independence
static const char* ctx_lines[] = {"X[1", "X1]", "#1=5", "#1", "[", "]", "X1/2]", "X[[#1", "#1=[2+3]", "/1 X1", "X1 Y(", "G? X", "#?=", "?"};
static const char* obs_lines[] = {"X", "X?]", "+1", "X1/1", "X1 /?", "G", "N]", "X[1+2]", "/0X1", "?1", "X1?"};
HARNESS(lines, 0)
{
    Opt o;
    auto p = mkparser(o), q = mkparser(o);
    std::string l1 = fill(ctx_lines[sym_choice("first", sizeof ctx_lines / sizeof *ctx_lines)], 0x20, 0x7e, "a");
    std::string l2 = fill(obs_lines[sym_choice("second", sizeof obs_lines / sizeof *obs_lines)], 0x20, 0x7e, "b");
    parse(*p, l1, 1);
    auto r = parse(*p, l2, 2), f = parse(*q, l2, 2);
    sym_note("after '" + l1 + "': '" + l2 + "' " + (r.ok ? "accepted" : "rejected " + r.msg) + ", alone " + (f.ok ? "accepted" : "rejected " + f.msg));
    sym_reach(f.ok ? "accepted" : "rejected");
    sym_assert(r.ok == f.ok, "the verdict on a line does not depend on the lines before it");
    sym_assert(r.msg == f.msg, "the message for a line does not depend on the lines before it");
    sym_assert(show(r.v) == show(f.v), "the words of a line do not depend on the lines before it");
}

// ---------------------------------------------------------------- C05 duplicate words
HARNESS(unique, 2)
{
    Opt o;
    bool ux = sym_int("unique_X", 0, 1) == 1, uy = sym_int("unique_Y", 0, 1) == 1, um = sym_int("unique_M", 0, 1) == 1, uc = sym_int("unique_C2", 0, 1) == 1;
    o.metric = {{"X", {"X", 0, 9, 0, 9, ux, fn::WordType::length}}, {"Y", {"Y", 0, 9, 0, 9, uy, fn::WordType::length}}, {"M", {"M", 0, 9, 0, 0, um, fn::WordType::code}},
        {"C2", {"C2", 0, 9, 0, 9, uc, fn::WordType::assignable}}};
    o.imperial = o.metric;
    o.ps = ParserSettings{sym_flag("evaluate"), false, false, false, false};
    int t = sym_choice("machine", 3);
    o.type = t == 0 ? EFanucParserType::FanucMill : t == 1 ? EFanucParserType::HaasMill : EFanucParserType::HaasLathe;
    bool haas = t == 1 || t == 2;
    auto p = mkparser(o);
    static const char* words[] = {"X", "Y", "M", "C2=", "("};
    int n[5] = {};
    std::string line;
    int len = 2 + sym_choice("words", 2);
    for (int i = 0; i < len; ++i) {
        int w = sym_choice("word", 5);
        ++n[w];
        line += words[w];
        line += w == 4 ? std::string("X1X1)") : sym_bytes(("d" + std::to_string(i)).c_str(), 1, '0', '9');
        line += ' ';
    }
    auto r = parse(*p, line);
    bool dup = (ux & (n[0] > 1)) | (uy & (n[1] > 1)) | (um & (n[2] > 1)) | (uc & (n[3] > 1)) | (haas && o.ps.evaluate_macro && n[2] > 1);
    sym_note(line + (r.ok ? " accepted" : " rejected " + r.msg));
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == !dup, "a line is rejected exactly when a word that may occur once occurs again");
    sym_assert(r.ok || !r.msg.empty(), "a rejected line has a message");
}
// macro references, brackets and expressions count as occurrences too; macro-evaluated text keeps the rule for M on Haas
HARNESS(unique_forms, 2)
{
    Opt o;
    o.ps = ParserSettings{true, false, false, false, false};
    bool haas = sym_flag("haas");
    o.type = haas ? EFanucParserType::HaasMill : EFanucParserType::FanucMill;
    auto p = mkparser(o);
    parse(*p, "#1=5", 1);
    static const char* form[] = {"5", "-5.5", "#1", "[#1+2]", "-#1", "[3]"};
    static const char* mform[] = {"5", "#1", "05"};
    bool two = sym_flag("two");
    bool m = sym_flag("M_words");
    std::string line = "G1 ";
    if (m) line += std::string("M") + mform[sym_choice("f1", 3)] + " X1 " + (two ? std::string("M") + mform[sym_choice("f2", 3)] : std::string());
    else line += std::string("X") + form[sym_choice("f1", 6)] + " Y1 M3 " + (two ? std::string("X") + form[sym_choice("f2", 6)] : std::string());
    auto r = parse(*p, line, 2);
    sym_note(line + (r.ok ? " accepted" : " rejected " + r.msg));
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == !(two && (!m || haas)), "a repeated word is found whatever form its value has");
}

// ---------------------------------------------------------------- C06 modal code groups
HARNESS(groups, 2)
{
    // the codes used by the line belong to groups a and b as chosen by symbolic bits
    Opt o;
    o.ps = ParserSettings{true, sym_flag("verify"), false, false, false};
    static const fn::CodeGroupValue codes[] = {{1, 0}, {54, 0}, {54, 1}};
    bool in[2][3][2];   // [letter][code][group]
    for (int l = 0; l < 2; ++l)
        for (int c = 0; c < 3; ++c) {
            if (l == 1 && c != 0) { in[l][c][0] = in[l][c][1] = false; continue; }
            std::set<std::string> g;
            for (int k = 0; k < 2; ++k) {
                in[l][c][k] = (l == 1 && k == 1) || (c == 2 && k == 0) ? true : sym_flag("member");
                if (in[l][c][k]) g.insert(k ? "b" : "a");
            }
            if (!g.empty()) (l ? o.m : o.g)[codes[c]] = g;
        }
    auto p = mkparser(o);
    static const char* text[2][5] = {{"G1", "G54", "G54.1", "G01", "G2"}, {"M1", "M54", "M2", "M01", "M001"}};
    static const int code_of[2][5] = {{0, 1, 2, 0, -1}, {0, -1, -1, 0, 0}};
    std::string line;
    int l[2], c[2];
    for (int i = 0; i < 2; ++i) {
        l[i] = sym_choice("letter", 2);
        int t = sym_choice("code", 5);
        c[i] = code_of[l[i]][t];
        line += std::string(i ? " X1 " : "") + text[l[i]][t];
    }
    bool conflict = false;
    if (l[0] == l[1] && c[0] >= 0 && c[1] >= 0)
        for (int k = 0; k < 2; ++k) conflict = conflict || (in[l[0]][c[0]][k] && in[l[1]][c[1]][k]);
    auto r = parse(*p, line);
    sym_note(line + (r.ok ? " accepted" : " rejected " + r.msg));
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == !(conflict && o.ps.verify_code_groups), "a line is rejected exactly when two of its G or M codes share a modal group");
}
// symbolic code numbers
HARNESS(groups_num, 2)
{
    Opt o;
    o.ps = ParserSettings{true, true, false, false, false};
    for (unsigned i = 0; i < 4; ++i) o.g[{i, 0}] = {"01"};
    o.g[{4, 0}] = {"00"}; o.g[{10, 0}] = {"00", "xx"}; o.g[{54, 1}] = {"12"}; o.g[{54, 0}] = {"12", "xx"}; o.g[{55, 0}] = {"12"};
    o.g[{54, 11}] = {"12"}; o.g[{54, 48}] = {"yy"}; o.g[{60, 0}] = {"yy"};
    o.metric["G"].decimal_to = o.imperial["G"].decimal_to = 99;
    o.m[{3, 0}] = {"s"}; o.m[{4, 0}] = {"s"}; o.m[{5, 0}] = {"s"}; o.m[{8, 0}] = {"c"}; o.m[{9, 0}] = {"c"};
    auto p = mkparser(o);
    int form = sym_choice("form", 6);
    auto grp = [&](const fn::code_groups_map& m, unsigned code, unsigned rest) { auto it = m.find({code, rest}); return it == m.end() ? std::set<std::string>{} : it->second; };
    auto share = [](const std::set<std::string>& a, const std::set<std::string>& b) { for (auto& x : a) if (b.count(x)) return true; return false; };
    std::string a, b, line;
    bool conflict = false;
    if (form == 0) {
        a = sym_bytes("a", 2, '0', '9');
        line = "G" + a + "G54";
        conflict = share(grp(o.g, sym_concrete_int(to_int(a)), 0), grp(o.g, 54, 0));
    } else if (form == 1) {
        a = sym_bytes("a", 1, '0', '9'); b = sym_bytes("b", 1, '0', '9');
        line = "X1 G" + a + "(G1)G0" + b;
        conflict = share(grp(o.g, sym_concrete_int(to_int(a)), 0), grp(o.g, sym_concrete_int(to_int(b)), 0));
    } else if (form == 2) {
        a = sym_bytes("a", 1, '0', '9'); b = sym_bytes("b", 1, '0', '9');
        line = "M" + a + "G1X2M" + b;
        conflict = share(grp(o.m, sym_concrete_int(to_int(a)), 0), grp(o.m, sym_concrete_int(to_int(b)), 0));
    } else if (form == 3) {
        a = sym_bytes("a", 1, '1', '9');
        line = "G55 Y1 G54." + a;
        conflict = share(grp(o.g, 55, 0), grp(o.g, 54, sym_concrete_int(to_int(a))));
    } else if (form == 5) {
        // two decimals; 54.1 and 54.11 and 54.21 are different codes
        a = sym_bytes("a", 2, '1', '9');
        line = std::string(sym_flag("other") ? "G60" : "G55") + " X1 G54." + a;
        conflict = share(grp(o.g, line[2] == '0' ? 60 : 55, 0), grp(o.g, 54, sym_concrete_int(to_int(a))));
    } else {
        // a code given by a macro variable
        a = sym_bytes("a", 1, '0', '9'); b = sym_bytes("b", 1, '0', '9');
        parse(*p, "#7=" + a, 1);
        line = "G#7 X1 G" + b;
        conflict = share(grp(o.g, sym_concrete_int(to_int(a)), 0), grp(o.g, sym_concrete_int(to_int(b)), 0));
    }
    auto r = parse(*p, line, 2);
    sym_note(line + (r.ok ? " accepted" : " rejected " + r.msg));
    sym_reach(r.ok ? "accepted" : "rejected");
    sym_assert(r.ok == !conflict, "a line is rejected exactly when two of its G or M codes share a modal group");
}
