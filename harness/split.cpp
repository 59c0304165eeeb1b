// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "path.h"
#include "FileSplitter.h"

// ---------------------------------------------------------------- C20 splitting a program
struct Line {
    const char* text;      // as given
    const char* rest;      // without its number, as printed
    bool numbered;         // takes a number
    int motion;            // 0..3, -1 none, 80 cycle cancel, 81 cycle start
    bool tool, skipped;    // tool change; block the splitter does not look into
};
struct Piece { std::vector<std::string> line; };
static std::string all(const std::vector<Piece>& p)
{
    std::string s;
    for (auto& x : p) { for (auto& l : x.line) s += l + ";"; s += "| "; }
    return s;
}
static std::vector<Piece> pieces(const std::vector<std::vector<std::vector<fn::AttributeVariant>>>& v)
{
    std::vector<Piece> r;
    for (auto& x : v) { r.push_back({}); for (auto& y : x) r.back().line.push_back(show(y)); }
    return r;
}
struct Want {
    std::vector<Piece> p{1};
    unsigned n = 1;
    bool retract;
    void put(const std::string& rest, bool numbered)
    {
        p.back().line.push_back(numbered ? "N" + std::to_string(n++) + rest : rest);
    }
    void cut()
    {
        if (retract) put("G0Z400", true);
        p.push_back({});
        if (retract) put("G0Z400", true);
    }
};
static void check(bool ok, const std::vector<std::vector<std::vector<fn::AttributeVariant>>>& v, const Want& w, const std::vector<std::string>& in, const std::string& msg)
{
    auto got = pieces(v);
    std::string l;
    for (auto& x : in) l += x + ";";
    sym_note(l + (ok ? " -> " : " rejected " + msg + " ") + all(got) + " expected " + all(w.p));
    sym_assert(ok, "a valid program is split");
    sym_reach(w.p.size() > 2 ? "three" : w.p.size() > 1 ? "two" : "one");
    sym_assert(all(got) == all(w.p), "every block is in exactly one piece, in order, numbered one after another, and a piece ends where it should");
}
static const Line L[] = {
    {"G0X1", "G0X1", true, 0}, {"G1X2", "G1X2", true, 1}, {"N7X3", "X3", true, -1}, {"G81X1Y1Z-1R1", "G81X1Y1Z-1R1", true, 81}, {"G80", "G80", true, 80},
    {"G0G90Y2", "G0G90Y2", true, 0}, {"", "", false, -1}, {"(X)", "(X)", false, -1}, {"/1G1X5", "/1G1X5", false, -1, false, true}, {"G90G1X4M6T5", "G90G1X4M6T5", true, 1, true}, {"M5G00X1", "M5G00X1", true, 0}, {"%", "%", false, -1}, {"G2X1R5", "G2X1R5", true, 2}, {"G73X1Z-1R1Q1", "G73X1Z-1R1Q1", true, 81}};
struct Modal {
    int g = -1;
    bool cycle = false, rc, lc;
    // may a piece begin with this block?
    bool operator()(const Line& l, bool rapid_only)
    {
        bool was = cycle, starts = false;
        if (!l.skipped) {
            if (l.motion >= 0 && l.motion <= 3) g = l.motion;
            if (l.motion >= 80) g = -1;
            if (l.motion == 81) { cycle = true; starts = true; }
            if (l.motion == 80 || (l.motion == 0 && rc) || (l.motion == 1 && lc)) cycle = false;
        }
        bool hole = was && cycle && !starts && l.motion < 0;
        if (hole || l.motion == 80) return false;
        return !rapid_only || g == 0;
    }
};
static void blocks(const std::vector<int>& set, int cnt, bool full)
{
    Opt o = popt();
    o.nc = true;
    bool rc = !full || sym_flag("rapid_cancels"), lc = !full || sym_flag("linear_cancels");
    o.def.rapid_traverse_cancel_cycle = rc;
    o.def.linear_interpolation_cancel_cycle = lc;
    auto p = mkparser(o);
    FileSplitting fs{FileSplittingType::block_numbers, sym_int("step", 1, 3), 0, 0, "", sym_flag("rapid_only"), sym_flag("retract") ? "G0Z400" : ""};
    std::vector<std::string> in;
    Want w;
    w.retract = !fs.retraction_plane.empty();
    Modal m;
    m.rc = rc;
    m.lc = lc;
    int n = 0;
    for (int i = 0; i < cnt; ++i) {
        auto& l = L[set[full && i == 0 ? sym_choice("line", 3) : sym_choice("line", set.size())]];
        in.push_back(l.text);
        if (m.cycle && ((l.motion == 0 && !rc) || (l.motion == 1 && !lc) || l.motion == 2)) return;     // not a program
        bool may = m(l, fs.rapid_traverse_only);
        if (n >= fs.step && may) { w.cut(); n = 0; }
        w.put(l.rest, l.numbered);
        ++n;
    }
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> v;
    std::string msg;
    p->renumber_reset();
    auto copy = in;
    bool ok = p->split_file(std::move(copy), v, msg, true, fs);
    check(ok, v, w, in, msg);
}
HARNESS(split_blocks, 0) { blocks({0, 1, 3, 2, 4, 5}, 4, true); }
HARNESS(split_lines, 0) { blocks({0, 2, 6, 7, 8, 9, 10, 11, 12, 13}, 3, false); }
HARNESS(split_tools, 0)
{
    Opt o = popt();
    o.nc = true;
    bool t = sym_flag("tool_number_executes");
    o.def.tool_number_executes_exchange = t;
    auto p = mkparser(o);
    FileSplitting fs{FileSplittingType::tool_change, sym_int("step", 0, 3), 0, 0, "", sym_flag("rapid_only"), sym_flag("retract") ? "G0Z400" : ""};
    static const struct { const char* text; bool num, m, t; } T[] = {{"G1X1", true, false, false}, {"T?M6", true, true, true}, {"M06", true, true, false}, {"T0?", true, false, true}, {"/1T3M6", false, false, false}, {"(M6T2)", false, false, false}, {"M?6", true, false, false}, {"", false, false, false}};
    std::vector<std::string> in;
    Want w;
    w.retract = !fs.retraction_plane.empty();
    int seen = 0;
    for (int i = 0; i < 4; ++i) {
        auto& l = T[sym_choice("line", i < 2 ? 8 : 4)];
        std::string s = fill(l.text, '0', '9');
        bool m6 = l.m;
        if (std::string(l.text) == "M?6") m6 = s == "M06";
        in.push_back(s);
        if (t ? l.t : m6) if (++seen > 1) w.cut();
        w.put(s, l.num);
    }
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> v;
    std::string msg;
    p->renumber_reset();
    auto copy = in;
    bool ok = p->split_file(std::move(copy), v, msg, true, fs);
    check(ok, v, w, in, msg);
}
HARNESS(split_text, 0)
{
    auto p = mkparser(Opt());
    FileSplitting fs{FileSplittingType::text, 0, 0, 0, sym_flag("long") ? "AB" : "A", sym_flag("rapid_only"), sym_flag("retract") ? "G0Z400" : ""};
    static const struct { const char* text; bool num; } T[] = {{"G1X1(??)", true}, {"(?B)", false}, {"(A?B)", false}, {"X5", true}, {"", false}};
    std::vector<std::string> in;
    Want w;
    w.retract = !fs.retraction_plane.empty();
    for (int i = 0; i < 3; ++i) {
        auto& l = T[sym_choice("line", 5)];
        std::string s = fill(l.text, 'A', 'C');
        in.push_back(s);
        bool has = false;
        for (size_t k = 0; k + fs.text.size() <= s.size(); ++k) {
            bool eq = true;
            for (size_t j = 0; j < fs.text.size(); ++j) eq = eq && s[k + j] == fs.text[j];
            has = has || eq;
        }
        if (has) w.cut();
        w.put(s, l.num);
    }
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> v;
    std::string msg;
    p->renumber_reset();
    auto copy = in;
    bool ok = p->split_file(std::move(copy), v, msg, true, fs);
    check(ok, v, w, in, msg);
}
// by the path or the time of work, whatever the blocks take
HARNESS(split_work, 1)
{
    bool time = sym_flag("time");
    int limit = sym_int("limit", -1, 1000);
    CncDefaultValues def = base_defaults();
    FileSplitting fs{time ? FileSplittingType::work_motion_time : FileSplittingType::work_motion_path, 0, time ? limit : 0, time ? 0 : limit, "", sym_flag("rapid_only"), sym_flag("retract") ? "G0Z400" : ""};
    fn::FileSplitter sp(fs, ELanguage::English);
    static const char* T[][2] = {{"G", "1"}, {"G", "0"}, {"Z", "3"}, {"G", "80"}, {"G", "81"}, {"X", "5"}};
    static const int MO[] = {1, 0, -1, 80, 81, -1};
    std::vector<std::vector<fn::AttributeVariant>> in;
    std::vector<PathResult> pr;
    std::vector<TimeResult> tr;
    std::string want, got, log;
    Modal m;
    m.rc = m.lc = true;
    double sum = 0;
    const char* R = fs.retraction_plane.empty() ? "" : "G0 ";
    Blk rp;
    rp.code("G", 0);
    int cuts = 0;
    for (int i = 0; i < 4; ++i) {
        int k = sym_choice("line", i == 3 ? 3 : i == 0 ? 5 : 6);
        fn::DecimalAttributeData d;
        d.word = T[k][0];
        d.value = T[k][1];
        in.push_back({d});
        double len = sym_real("work", 0, 9999, 3);
        PathResult p{};
        p.work_motion = len;
        p.fast_motion = 5;
        p.total = 99;
        TimeResult t{};
        t.work_motion = len;
        t.fast_motion = 5;
        t.total = 77;
        pr.push_back(p);
        tr.push_back(t);
        Line l{"", "", true, MO[k]};
        bool may = m(l, fs.rapid_traverse_only);
        if (limit > 0 && !(sum < limit) && may) { want += std::string(R) + "| " + R; sum = 0; ++cuts; }
        want += show(in.back()) + " ";
        sum += len;
    }
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> v;
    bool thrown = false;
    try {
        if (time) sp.evaluate(def, std::move(in), rp.v, v, tr);
        else sp.evaluate(def, std::move(in), rp.v, v, pr);
    } catch (const fn::file_splitter_exception& e) { thrown = true; }
    if (limit <= 0) { sym_assert(thrown, "a limit that is no length or time is reported"); sym_reach("no limit"); return; }
    for (size_t i = 0; i < v.size(); ++i) { if (i) got += "| "; for (auto& b : v[i]) got += show(b) + " "; }
    sym_note("limit " + std::to_string(limit) + " got " + got + " expected " + want);
    sym_reach(cuts > 1 ? "three" : cuts ? "two" : "one");
    sym_assert(!thrown && got == want, "a new piece begins with the first block that may, once the piece has taken the limit");
}
// the same for whole files: the path and the time of each block come from its own words
HARNESS(split_file, 1)
{
    Opt o = popt();
    o.nc = true;
    auto p = mkparser(o);
    bool time = sym_flag("time");
    static const char SAMPLE[] = "29";
    int limit = sym_int("limit", 1, 150);
    FileSplitting fs{time ? FileSplittingType::work_motion_time : FileSplittingType::work_motion_path, 0, time ? limit : 0, time ? 0 : limit, "", sym_flag("rapid_only"), sym_flag("retract") ? "G0Z400" : ""};
    std::vector<std::string> in;
    Want w;
    w.retract = !fs.retraction_plane.empty();
    double sum = 0;
    int g = -1;
    for (int i = 0; i < 4; ++i) {
        int k = i == 0 ? 0 : sym_choice("line", i == 3 ? 2 : 5);
        std::string d = std::string(1, (k < 3 ? SAMPLE[sym_choice("d", 2)] : '0')) + "0", s;
        double len = 0;
        bool num = true;
        double v = strtod(d.c_str(), nullptr);
        switch (k) {
        case 0: s = "G91G1X" + d + "F60"; g = 1; len = v; break;
        case 1: s = "G0Y" + d; g = 0; break;
        case 2: s = "Z" + d; len = g == 1 ? v : 0; break;
        case 3: s = ""; num = false; break;
        case 4: s = "(A)"; num = false; break;
        }
        in.push_back(s);
        if (sum >= limit && (!fs.rapid_traverse_only || g == 0)) { w.cut(); sum = 0; }
        w.put(s, num);
        sum += len;
    }
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> v;
    std::string msg;
    p->renumber_reset();
    auto copy = in;
    bool ok = p->split_file(std::move(copy), v, msg, true, fs);
    check(ok, v, w, in, msg);
}
// what cannot be split
HARNESS(split_bad, 0)
{
    Opt o = popt();
    o.nc = true;
    auto p = mkparser(o);
    static const FileSplittingType T[] = {FileSplittingType::block_numbers, FileSplittingType::tool_change, FileSplittingType::work_motion_time, FileSplittingType::work_motion_path, FileSplittingType::text};
    int t = sym_choice("type", 5);
    int step = sym_int("step", -2, 3), tm = sym_int("time", -2, 3), path = sym_int("path", -2, 3);
    int bad = sym_choice("bad", 4);     // none, first line, last line, retraction plane
    const char* wrong[] = {"G1X", "X1)", "?", "X99999"};
    const char* b = wrong[sym_choice("wrong", 4)];
    std::vector<std::string> in = {"G1X1F100", "(A)", bad == 2 ? std::string("X2(A)") + b : "X2(A)", "Z3"};
    if (bad == 1) in[0] = b;
    FileSplitting fs{T[t], step, tm, path, "A", false, bad == 3 ? b : "G0Z4"};
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> v;
    std::string msg;
    bool ok = p->split_file(std::move(in), v, msg, true, fs);
    bool arg = (t == 0 && step <= 0) || (t == 2 && tm <= 0) || (t == 3 && path <= 0);
    sym_note("type " + std::to_string(t) + " step " + std::to_string(step) + " time " + std::to_string(tm) + " path " + std::to_string(path) + " wrong '" + b + "' at " + std::to_string(bad) + (ok ? " split" : " rejected " + msg));
    sym_assert(ok == (!arg && !bad), "a program is split exactly when its lines, the retraction plane and the limit are valid");
    if (!ok && bad == 0) sym_assert(!msg.empty(), "the reason is given");
    sym_reach(ok ? "split" : bad ? "invalid line" : "no limit");
}
