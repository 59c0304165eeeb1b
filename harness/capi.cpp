// The interface for other languages: what it hands out is what the parser computed.
// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"
#include "AllAttributesParserWrapper.h"
#include <cmath>
#include <cstring>

struct Strings {
    std::vector<std::unique_ptr<char[]>> keep;
    char* operator()(const std::string& s)
    {
        keep.emplace_back(new char[s.size() + 1]);
        memcpy(keep.back().get(), s.c_str(), s.size() + 1);
        return keep.back().get();
    }
};
struct Words {
    std::vector<const char*> keys;
    std::vector<fn::WordGrammarWrapper> w;
    Words(const fn::word_map& m, Strings& s)
    {
        for (auto& [k, g] : m) { keys.push_back(s(k)); w.push_back({s(g.word), g.range_from, g.range_to, g.decimal_from, g.decimal_to, g.unique, g.word_type}); }
    }
};
struct Groups {
    std::vector<const char*> keys;
    std::vector<fn::CodeGroupValue> values;
    std::vector<int> lengths;
    Groups(const fn::code_groups_map& m, Strings& s)
    {
        std::map<std::string, std::vector<fn::CodeGroupValue>> by;
        for (auto& [c, gs] : m) for (auto& g : gs) by[g].push_back(c);
        for (auto& [g, cs] : by) { keys.push_back(s(g)); lengths.push_back((int)cs.size()); for (auto& c : cs) values.push_back(c); }
    }
};
static AllAttributesParserWrapperBase* create(const Opt& o)
{
    Strings s;
    Words me(o.metric, s), im(o.imperial, s);
    Groups g(o.g, s), m(o.m, s);
    std::vector<const char*> ops;
    for (auto& x : o.ops) ops.push_back(x.c_str());
    OtherSettings os{o.lang};
    return fn::CreateFanucAllAttributesParser(me.keys.data(), me.w.data(), (int)me.w.size(), im.keys.data(), im.w.data(), (int)im.w.size(), ops.data(), (int)ops.size(),
        g.keys.data(), g.values.data(), (int)g.keys.size(), g.lengths.data(), m.keys.data(), m.values.data(), (int)m.keys.size(), m.lengths.data(), &o.ps, &os, o.type, !o.nc);
}
static void settings(AllAttributesParserWrapperBase* p, const Opt& o)
{
    Strings s;
    std::vector<char*> bk, tk;
    std::vector<double> bv, tv;
    for (auto& [k, v] : o.points.machine_base_point) { bk.push_back(s(k)); bv.push_back(v); }
    for (auto& [k, v] : o.points.tool_exchange_point) { tk.push_back(s(k)); tv.push_back(v); }
    std::vector<AxisParametersWrapper> ax;
    for (auto& [k, v] : o.kin.cartesian_system_axis) ax.push_back({s(k), v.range_min, v.range_max});
    auto& k = o.kin;
    KinematicsWrapper kw{k.max_working_feed, k.max_fast_feed, k.maximum_spindle_speed, k.numer_of_items_in_the_warehouse, k.tool_exchange_time, k.pallet_exchange_time, k.tool_measurement_time,
        k.diameter_programming_2x, k.auto_measure_after_tool_selection, s(k.pallet_exchange_code), s(k.pallet_exchange_code_value), s(k.tool_measurement_code), s(k.tool_measurement_code_value)};
    CncDefaultValues d = o.def;
    ZeroPoint z = o.zero;
    SetNCSettings(p, o.tool, o.tool_type, bk.data(), bv.data(), (int)bk.size(), tk.data(), tv.data(), (int)tk.size(), &kw, ax.data(), (int)ax.size(), &d, &z);
}

// the parser itself and the interface to another one made alike
struct Two {
    std::unique_ptr<fn::AllAttributesParser> core;
    AllAttributesParserWrapperBase* api;
    explicit Two(const Opt& o) : core(mkparser(o)), api(create(o)) { if (o.nc) settings(api, o); }
    ~Two() { DisposeAllAttributesParser(api); }
};
static std::unique_ptr<Two> two;

static std::string word_of(const fn::AttributeVariant& v)
{
    struct V : boost::static_visitor<std::string> {
        std::string operator()(const fn::DecimalAttributeData& d) const { return d.word; }
        std::string operator()(const fn::StringAttributeData& d) const { return d.word; }
        std::string operator()(const fn::CharAttributeData& d) const { return d.word; }
    };
    return boost::apply_visitor(V(), v);
}
static void same_words(const std::vector<fn::AttributeVariant>& v, const WordValueWrapper* w, int n)
{
    sym_assert((int)v.size() == n, "as many words as the parser has");
    if ((int)v.size() != n) return;
    for (int i = 0; i < n; ++i) {
        sym_assert(w[i].word == word_of(v[i]), "each word is that of the parser");
        sym_assert(std::string(w[i].word) + w[i].value == show(v[i]), "each word has its value");
    }
}
// one operation done by both
template <class A, class B> static bool both(A core, B api)
{
    fn::FanucAttributeData d;
    std::string msg;
    WordValueWrapper* w = nullptr;
    int n = 0;
    char* m = nullptr;
    bool a = core(d, msg), b = api(&w, &n, &m);
    sym_note(std::string(a ? "accepted " : "rejected ") + show(d.value, " ") + " '" + msg + "' interface " + (b ? "accepted" : "rejected") + " " + std::to_string(n) + " words '" + (m ? m : "") + "'");
    sym_assert(a == b, "the verdict is the parser's");
    same_words(d.value, w, n);
    sym_assert((m ? std::string(m) : std::string()) == msg, "the message is the parser's");
    DisposeWordValueWrapper(w, n);
    DisposeCharArray(m);
    return a;
}
static bool both_parse(int line, const std::string& s)
{
    return both([&](auto& d, auto& msg) { return two->core->parse(line, s, d, msg, true); },
        [&](auto w, auto n, auto m) { return ParseValue(two->api, line, s.c_str(), w, n, m, true); });
}

// ---- lines
HARNESS_SETUP(capi_line, 0, [] { two = std::make_unique<Two>(Opt()); })
{
    std::string s = sym_bytes("c", 3, 1, 126);
    char* m = nullptr;
    std::string msg;
    bool a = two->core->parse(1, s, msg, true), b = Parse(two->api, 1, s.c_str(), &m, true);
    sym_assert(a == b, "the verdict is the parser's");
    sym_assert((m ? std::string(m) : std::string()) == msg, "the message is the parser's");
    DisposeCharArray(m);
    sym_reach(a ? "accepted" : "rejected");
}
HARNESS_SETUP(capi_words, 0, [] { two = std::make_unique<Two>(Opt()); })
{
    static const char* t[] = {"G??", "X-?.?", "X+.?Y?.", "X[#?+?]", "#1=?", "(?? )", "%", "/N?G1", "C2=?", ",R?", "GOTO?", "IF[#1EQ?]GOTO 3", "O?", "G1X?(?)", "#?", "X#?", "[?", "/", "N1", "?", "", "#1=[1+2]*SIN[?]", "M30", "X-[?]", "WHILE[#1LT?]DO 1"};
    std::string s = fill(t[sym_choice("line", sizeof t / sizeof *t)], '0', '9');
    sym_note(s);
    sym_reach(both_parse(1, s) ? "accepted" : "rejected");
}
// ---- groups, word ranges and settings given to the interface
static Opt groups()
{
    Opt o;
    o.ps = {true, true, true, true, true};
    o.nc = true;
    o.g = {{{1, {}}, {"motion"}}, {{0, {}}, {"motion"}}, {{90, {}}, {"distance"}}, {{91, {}}, {"distance"}}, {{5, 1}, {"high"}}, {{20, {}}, {"unit"}}, {{21, {}}, {"unit"}}};
    o.m = {{{3, {}}, {"spindle"}}, {{5, {}}, {"spindle"}}, {{8, {}}, {"coolant"}}, {{9, {}}, {"coolant"}}};
    o.imperial["X"].range_to = 20;
    o.imperial["X"].decimal_to = 3;
    return o;
}
HARNESS_SETUP(capi_groups, 0, [] { two = std::make_unique<Two>(groups()); })
{
    std::string s = fill("G?M?G?", '0', '9');
    sym_reach(both_parse(1, s) ? "accepted" : "rejected");
}
HARNESS_SETUP(capi_lines, 0, [] { two = std::make_unique<Two>(groups()); })
{
    static const char* t[] = {"G20", "G21", "X25.1234", "M3S100", "G1X3F1", "G1G0", "#1=2", "X#1Y[#1*2]", "G90G91", "Y1F?"};
    int n = 0;
    for (int i = 0; i < 3; ++i) n += both_parse(i + 1, fill(t[sym_choice("line", 10)], '0', '9', ("d" + std::to_string(i)).c_str()));
    sym_reach(n == 3 ? "accepted" : "rejected");
}
// ---- macro variables
HARNESS_SETUP(capi_macros, 0, [] { Opt o; o.ps.evaluate_macro = true; two = std::make_unique<Two>(o); })
{
    int n = sym_choice("lines", 3);
    for (int i = 0; i < n; ++i) {
        std::string s = "#10" + std::to_string(sym_choice("id", 2)) + "=" + fill("?", '0', '9', ("d" + std::to_string(i)).c_str());
        if (sym_flag("two")) s += " #7=3";
        both_parse(sym_choice("at", 3) + 1, s);
    }
    if (sym_flag("reset")) { two->core->reset_macro_values(); ResetMacroValues(two->api); }
    auto mv = two->core->get_macro_values();
    int *ids = nullptr, *lines = nullptr, c = -1, k = 0;
    double* v = nullptr;
    GetMacroValues(two->api, &ids, &lines, &v, &c);
    sym_assert(c == (int)mv.size(), "as many variables as the parser has");
    if (c != (int)mv.size()) return;
    for (auto& [key, x] : mv) {
        sym_assert(ids[k] == (int)key.id && lines[k] == (int)key.line, "each variable has its number and line");
        sym_assert(v[k] == x, "each variable has its value");
        ++k;
    }
    DisposeMacroValues(ids, lines, v);
    for (int l = 0; l < 5; ++l) {
        ids = nullptr; v = nullptr; c = -1; k = 0;
        GetLineMacroValues(two->api, l, &ids, &v, &c);
        int want = 0;
        for (auto& [key, x] : mv) want += key.line == l;
        sym_assert(c == want, "as many variables as the line has");
        if (c != want) return;
        for (auto& [key, x] : mv) if (key.line == l) {
            bool found = false;
            for (int i = 0; i < c; ++i) if (ids[i] == (int)key.id) { found = true; sym_assert(v[i] == x, "each variable of a line has its value"); }
            sym_assert(found, "each variable of a line is there");
        }
        DisposeMacroValues(ids, nullptr, v);
    }
    sym_reach(mv.empty() ? "none" : "some");
}
// ---- path and time
static void same_results()
{
    PathResultWrapper* p = nullptr;
    TimeResultWrapper* t = nullptr;
    WordResultRange* w = nullptr;
    int n = -1, unit = -1;
    GetPathValues(two->api, p, t, &w, &n, &unit);
    auto cp = two->core->get_path_result();
    auto ct = two->core->get_time_result();
    auto cw = two->core->get_word_range();
    sym_note("path " + std::to_string(p->total) + " " + std::to_string(cp.total) + " time " + std::to_string(t->total) + " " + std::to_string(ct.total));
    sym_assert((p->total == cp.total) & (p->work_motion == cp.work_motion) & (p->fast_motion == cp.fast_motion) & (p->tool_total == cp.tool_total), "the path is the parser's");
    sym_assert((t->total == ct.total) & (t->work_motion == ct.work_motion) & (t->fast_motion == ct.fast_motion) & (t->tool_total == ct.tool_total), "the time is the parser's");
    sym_assert(p->tool_id == cp.tool_id && t->tool_id == ct.tool_id, "the tool is the parser's");
    sym_assert(unit == (int)two->core->get_unit_system(), "the unit is the parser's");
    sym_assert(n == (int)cw.size(), "as many word ranges as the parser has");
    if (n != (int)cw.size()) return;
    int k = 0;
    for (auto& [name, r] : cw) {
        auto& [lo, cur, hi] = r;
        sym_assert(w[k].word == name, "each range is of its word");
        sym_assert((w[k].value_min == lo) & (w[k].value == cur) & (w[k].value_max == hi), "each range is the parser's");
        ++k;
    }
    DisposePathValues(p, t, w, n);
}
HARNESS_SETUP(capi_path, 1, [] { two = std::make_unique<Two>(groups()); both_parse(1, "M3S100F200"); })
{
    static const char* t[] = {"G0X?", "G1X-?Y3", "T?", "G20", "Z2"};
    for (int i = 0; i < 3; ++i) {
        both_parse(i + 2, fill(t[sym_choice("line", 5)], '0', '9', ("d" + std::to_string(i)).c_str()));
        if (i == 1 && sym_flag("reset")) { two->core->reset_attributes_path_calculator(); ResetPathValues(two->api); }
    }
    same_results();
    sym_reach("results");
}
// every number of the settings arrives: limits, feeds, times, codes, points
HARNESS(capi_settings, 1)
{
    Opt o = groups();
    o.ps = {true, false, true, true, true};
    auto& k = o.kin;
    int which = sym_choice("setting", 17);
    auto num = [&](const char* n, double lo, double hi) { return sym_real(n, lo, hi, 0); };
    std::vector<std::string> prog = {"M3S100F200", "G0X5Y6Z7", "G1X9", "G1Z1F3"};
    switch (which) {
    case 0: k.cartesian_system_axis["X"] = {num("a", -20, 0), num("b", 0, 20)}; break;
    case 1: k.cartesian_system_axis["Y"] = {num("a", -20, 0), num("b", 0, 20)}; break;
    case 2: k.cartesian_system_axis["Z"] = {num("a", -20, 0), num("b", 0, 20)}; break;
    case 3: k.max_working_feed = num("a", 1, 400); break;
    case 4: k.max_fast_feed = num("a", 1, 400); break;
    case 5: k.maximum_spindle_speed = sym_int("s", 1, 300); break;
    case 6: k.numer_of_items_in_the_warehouse = sym_int("s", 1, 9); prog.push_back("T5"); break;
    case 7: k.tool_exchange_time = sym_int("s", 0, 300); prog.push_back("T5M6"); break;
    case 8: k.pallet_exchange_time = sym_int("s", 0, 300); k.pallet_exchange_code = "M"; k.pallet_exchange_code_value = "60"; prog.push_back("M60"); break;
    case 9: k.tool_measurement_time = sym_int("s", 0, 300); k.tool_measurement_code = "G"; k.tool_measurement_code_value = "37"; k.auto_measure_after_tool_selection = sym_flag("auto"); prog.push_back("T5M6"); prog.push_back("G37"); break;
    case 10: k.diameter_programming_2x = sym_flag("two"); o.tool_type = EMachineToolType::Lathe; o.tool = EMachineTool::lathe_zx; prog = {"M3S100F2", "G0X5Z7", "G1X9Z1"}; break;
    case 11: o.points.machine_base_point["Z"] = num("a", -20, 20); prog.push_back("G28Z0"); break;
    case 12: o.points.tool_exchange_point["Z"] = num("a", -20, 20); prog.push_back("T5M6"); prog.push_back("X1"); break;
    case 13: o.zero = {num("a", -20, 20), 0, 0}; k.cartesian_system_axis["X"] = {-5, 5}; break;
    case 14: o.zero = {0, num("a", -20, 20), 0}; k.cartesian_system_axis["Y"] = {-5, 5}; break;
    case 15: o.zero = {0, 0, num("a", -20, 20)}; k.cartesian_system_axis["Z"] = {-5, 5}; break;
    default:
        o.def.default_motion = sym_flag("motion") ? EMotion::LinearInterpolation : EMotion::RapidTraverse;
        o.def.default_programming = sym_flag("programming") ? EProgrammingType::Incremental : EProgrammingType::Absolute;
        o.def.default_driver_units = sym_flag("unit") ? EDriverUnits::Inch : EDriverUnits::Millimeter;
        o.def.tool_number_executes_exchange = sym_flag("exchange");
        prog = {"M3S100F200", "X5Y6Z7", "X9", "T5", "Z1"};
    }
    two = std::make_unique<Two>(o);
    int line = 0;
    for (auto& s : prog) both_parse(++line, s);
    same_results();
    sym_reach("results");
    two.reset();
}
// ---- editing
HARNESS_SETUP(capi_edit, 0, [] { two = std::make_unique<Two>(Opt()); })
{
    static const char* t[] = {"N?? G1X5.1Y2", "G2X1Y4R3", "/N1G0Z7", "(? )X1", "G17I3J1", "X1(?)", "%", "N?", "/", "?", "G20", "(??)", "#1=?"};
    std::string s = fill(t[sym_choice("line", 13)], '0', '9');
    auto &c = *two->core;
    auto* p = two->api;
    sym_note(s);
    switch (sym_choice("edit", 6)) {
    case 0: {
        auto k = sym_flag("way") ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric;
        both([&](auto& d, auto& m) { return c.convert_length(3, s, d, m, true, k); }, [&](auto w, auto n, auto m) { return ConvertLength(p, 3, s.c_str(), w, n, m, true, k); });
        sym_reach("convert"); break;
    }
    case 1:
        both([&](auto& d, auto& m) { return c.remove_numbering(3, s, d, m, true); }, [&](auto w, auto n, auto m) { return RemoveNumbering(p, 3, s.c_str(), w, n, m, true); });
        sym_reach("remove numbering"); break;
    case 2: {
        RenumberSettings rs{"N", (unsigned)sym_int("step", 1, 20), (unsigned)sym_int("frequency", 1, 2), (unsigned)sym_int("max", 1, 99), sym_flag("existing"), sym_flag("zeroes")};
        std::string word = "N";
        RenumberSettingsWrapper rw{word.data(), rs.step, rs.frequency, rs.max_number, rs.existing_only, rs.leading_zeroes};
        if (sym_flag("start")) { c.set_renumber_start_value(40); SetRenumberStartValue(p, 40); }
        for (int i = 0; i < 2; ++i) {
            both([&](auto& d, auto& m) { return c.renumber(3 + i, s, d, m, true, rs); }, [&](auto w, auto n, auto m) { return Renumber(p, 3 + i, s.c_str(), w, n, m, true, &rw); });
            if (i == 0 && sym_flag("reset")) { c.renumber_reset(); RenumberReset(p); }
        }
        sym_reach("renumber"); break;
    }
    case 3: {
        auto k = static_cast<AxesRotatingOption>(sym_choice("turn", 9));
        both([&](auto& d, auto& m) { return c.rotate_axes(3, s, d, m, true, k); }, [&](auto w, auto n, auto m) { return RotateAxes(p, 3, s.c_str(), w, n, m, true, k); });
        sym_reach("rotate"); break;
    }
    case 4:
        both([&](auto& d, auto& m) { return c.remove_comment(3, s, d, m, true); }, [&](auto w, auto n, auto m) { return RemoveComment(p, 3, s.c_str(), w, n, m, true); });
        sym_reach("remove comment"); break;
    case 5:
        both([&](auto& d, auto& m) { return c.remove_optional_block(3, s, d, m, true); }, [&](auto w, auto n, auto m) { return RemoveOptionalBlock(p, 3, s.c_str(), w, n, m, true); });
        sym_reach("remove optional block"); break;
    }
}
// ---- splitting
static void split_setup() { Opt o = groups(); o.ps = {true, false, true, false, false}; two = std::make_unique<Two>(o); }
HARNESS_SETUP(capi_split, 0, split_setup)
{
    static const char* t[] = {"G0X7", "N2 T1", "(?)", "", "$", "G1X3F9"};
    std::vector<std::string> lines;
    int n = sym_choice("lines", 4);
    for (int i = 0; i < n; ++i) lines.push_back(fill(t[sym_choice("line", 6)], '0', '9', ("d" + std::to_string(i)).c_str()));
    std::vector<const char*> data;
    for (auto& l : lines) data.push_back(l.c_str());
    FileSplitting fs{static_cast<FileSplittingType>(sym_choice("type", 5)), sym_choice("step", 2) + 1, 1, 2, "T1", sym_flag("rapid"), "XY"};
    std::string text = fs.text, plane = fs.retraction_plane;
    FileSplittingWrapper fw{fs.type, fs.step, fs.time, fs.path, text.data(), fs.rapid_traverse_only, plane.data()};
    std::vector<std::vector<std::vector<fn::AttributeVariant>>> parts;
    std::string msg;
    bool a = two->core->split_file(std::vector<std::string>(lines), parts, msg, true, fs), b;
    char* m = nullptr;
    int count = -1;
    if (sym_flag("text")) {
        char** v = nullptr;
        b = SplitFileString(two->api, &fw, data.data(), n, &v, &count, &m, true);
        sym_assert(count == (int)parts.size(), "as many parts as the parser has");
        for (int i = 0; i < count && i < (int)parts.size(); ++i) {
            std::string want;
            for (auto& l : parts[i]) want += show(l, " ") + "\r\n";
            sym_assert(want.empty() ? !v[i] || !*v[i] : v[i] && want == v[i], "each part has its text");
        }
        DisposeSplitFileString(v, count);
        sym_reach(a ? "text" : "rejected");
    }
    else {
        WordValueWrapper* w = nullptr;
        int *wn = nullptr, *ln = nullptr, at = 0, l = 0;
        b = SplitFile(two->api, &fw, data.data(), n, &w, &wn, &ln, &count, &m, true);
        sym_assert(count == (int)parts.size(), "as many parts as the parser has");
        for (int i = 0; i < count && i < (int)parts.size(); ++i) {
            sym_assert(ln[i] == (int)parts[i].size(), "as many lines as the part has");
            for (auto& x : parts[i]) { same_words(x, w + at, wn[l]); at += wn[l++]; }
        }
        DisposeSplitFile(w, wn, ln, count);
        sym_reach(a ? "words" : "rejected");
    }
    sym_assert(a == b, "the verdict is the parser's");
    sym_assert((m ? std::string(m) : std::string()) == msg, "the message is the parser's");
    DisposeCharArray(m);
}
