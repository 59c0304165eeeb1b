// small helpers for demonstrations: a Fanuc parser with a plain word table
#include "stdafx.h"
#include "AllAttributesParser.h"
#include <cmath>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
using namespace parser;
namespace fn = parser::fanuc;
inline fn::word_map words()
{
    using W = fn::WordType;
    fn::word_map m{{"N", {"N", 1, 9999, 0, 0, true, W::numbering}}, {"#", {"#", 1, 9999, 0, 0, false, W::macro}}, {"G", {"G", 0, 99, 1, 9, false, W::code}}, {"M", {"M", 0, 999, 0, 0, false, W::code}},
        {"D", {"D", -999, 999, 0, 0, false, W::misc}}, {"H", {"H", 0, 999, 0, 0, true, W::misc}}, {"F", {"F", 0, 99999, 0, 9999, false, W::feed}}, {"S", {"S", 0, 99999, 0, 0, true, W::misc}},
        {"T", {"T", 0, 999, 0, 0, true, W::misc}}, {"P", {"P", 0, 99999, 0, 0, true, W::misc}}, {"L", {"L", 0, 999, 0, 0, true, W::misc}}, {"C2", {"C2", -999, 999, 0, 9999, true, W::assignable}},
        {"GOTO", {"GOTO", 1, 9999, 0, 0, false, W::misc}}};
    for (const char* l : {"X", "Y", "Z", "I", "J", "K", "Q", "R"}) m[l] = {l, -9999, 9999, 0, 9999, true, W::length};
    for (const char* l : {"A", "B", "C"}) m[l] = {l, -9999, 9999, 0, 9999, true, W::angle};
    for (const char* l : {"=", "+", "-", "*", "/"}) m[l] = {l, -99999, 99999, 0, 999999, false, W::calc};
    return m;
}
inline std::vector<std::string> ops()
{
    return {"SIN", "COS", "TAN", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "OR", "XOR", "AND", "BIN", "BCD", "IF", "WHILE", "DO", "END", "EQ", "NE", "GT", "GE", "LT", "LE", "MOD", "THEN"};
}
struct Setup {
    fn::word_map metric = words(), imperial = words();
    fn::code_groups_map g, m;
    ParserSettings ps{true, true, false, false, false};
    ELanguage lang = ELanguage::English;
    EFanucParserType type = EFanucParserType::FanucMill;
    bool nc = false;
    EMachineTool tool = EMachineTool::mill_3axis;
    EMachineToolType tool_type = EMachineToolType::Mill;
    MachinePointsData points{{{"X", 0}, {"Y", 0}, {"Z", 0}}, {{"X", 0}, {"Y", 0}, {"Z", 0}}};
    Kinematics kin{{{"X", {-1000, 1000}}, {"Y", {-1000, 1000}}, {"Z", {-1000, 1000}}}, 10000, 20000, 12000, 40, 0, 0, 0, false, false, "", "", "", ""};
    CncDefaultValues def{EMotion::RapidTraverse, EWorkPlane::XY, EDriverUnits::Millimeter, EProgrammingType::Absolute, EFeedMode::PerMinute, ERotationDirection::Stop,
        EDepthProgrammingType::Absolute, EDrillGreturnMode::G98, 0, true, true, true, true, true, false, true, false};
    ZeroPoint zero{0, 0, 0};
};
inline std::unique_ptr<fn::AllAttributesParser> make(Setup o = {})
{
    auto p = std::make_unique<fn::AllAttributesParser>(fn::FanucWordGrammar{o.metric, o.imperial}, ops(), std::move(o.g), std::move(o.m), std::move(o.ps), OtherSettings{o.lang}, o.type, !o.nc);
    if (o.nc) p->set_ncsettings(o.tool, o.tool_type, std::move(o.points), std::move(o.kin), std::move(o.def), std::move(o.zero));
    return p;
}
struct Line { bool ok; std::string msg; std::vector<fn::AttributeVariant> v; };
inline Line run(fn::AllAttributesParser& p, const std::string& s, int line = 1)
{
    Line r; fn::FanucAttributeData d;
    r.ok = p.parse(line, s, d, r.msg, true);
    r.v = d.value;
    std::printf("%d '%s': %s %s\n", line, s.c_str(), r.ok ? "accepted" : "rejected", r.msg.c_str());
    return r;
}
inline double value(fn::AllAttributesParser& p, unsigned id, int line)
{
    auto it = p.get_macro_values().lower_bound({id, line});
    return it != p.get_macro_values().end() && it->first.id == id ? it->second : NAN;
}
struct Show : boost::static_visitor<std::string> {
    std::string operator()(const fn::DecimalAttributeData& d) const
    {
        std::string s = d.word;
        if (d.assign) s += *d.assign;
        if (d.sign) s += *d.sign;
        if (d.open_bracket) s += *d.open_bracket;
        if (d.macro) s += *d.macro;
        if (d.value) s += *d.value;
        if (d.dot) s += *d.dot;
        if (d.value2) s += *d.value2;
        if (d.close_bracket) s += *d.close_bracket;
        return s;
    }
    std::string operator()(const fn::StringAttributeData& d) const { return d.word + d.value + (d.word == "(" ? ")" : ""); }
    std::string operator()(const fn::CharAttributeData& d) const { return d.word; }
};
inline std::string show(const std::vector<fn::AttributeVariant>& v)
{
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : " ") + boost::apply_visitor(Show(), x);
    return s;
}
static int failures = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); ++failures; } } while (0)
