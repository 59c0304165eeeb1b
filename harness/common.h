// Shared pieces of the harnesses: a word grammar, parser and NC settings like the ones the product ships.
#pragma once
#include "stdafx.h"
#include "AllAttributesParser.h"
#include "sym.h"
#include <memory>
#include <string>
#include <vector>

using namespace parser;
namespace fn = parser::fanuc;

inline fn::word_map base_words()
{
    using W = fn::WordType;
    return {
        {"N", {"N", 1, 9999, 0, 0, true, W::numbering}},
        {"#", {"#", 1, 9999, 0, 0, false, W::macro}},
        {"G", {"G", 0, 99, 1, 9, false, W::code}},
        {"M", {"M", 0, 999, 0, 0, false, W::code}},
        {"D", {"D", -999, 999, 0, 0, false, W::misc}},
        {"H", {"H", 0, 999, 0, 0, true, W::misc}},
        {"F", {"F", 0, 9999, 0, 9999, false, W::feed}},
        {"S", {"S", 0, 99999, 0, 0, true, W::misc}},
        {"T", {"T", 0, 999, 0, 0, true, W::misc}},
        {"P", {"P", 0, 999, 0, 0, true, W::misc}},
        {"L", {"L", 0, 999, 0, 0, true, W::misc}},
        {"K", {"K", -999, 999, 0, 9999, true, W::length}},
        {"I", {"I", -999, 999, 0, 9999, true, W::length}},
        {"J", {"J", -999, 999, 0, 9999, true, W::length}},
        {"Q", {"Q", -999, 999, 0, 9999, true, W::length}},
        {"R", {"R", -999, 999, 0, 9999, true, W::length}},
        {"A", {"A", -999, 999, 0, 9999, true, W::angle}},
        {"B", {"B", -999, 999, 0, 9999, true, W::angle}},
        {"X", {"X", -999, 999, 0, 9999, true, W::length}},
        {"Y", {"Y", -999, 999, 0, 9999, true, W::length}},
        {"Z", {"Z", -999, 999, 0, 9999, true, W::length}},
        {"C2", {"C2", -999, 999, 0, 9999, true, W::assignable}},
        {",C", {",C", -999, 999, 0, 9999, false, W::misc}},
        {",R", {",R", -999, 999, 0, 9999, false, W::misc}},
        {"=", {"=", -9999, 9999, 0, 9999, false, W::calc}},
        {"+", {"+", -9999, 9999, 0, 9999, false, W::calc}},
        {"-", {"-", -9999, 9999, 0, 9999, false, W::calc}},
        {"*", {"*", -9999, 9999, 0, 9999, false, W::calc}},
        {"/", {"/", -9999, 9999, 0, 9999, false, W::calc}},
        {"GOTO", {"GOTO", 1, 9999, 0, 0, false, W::misc}},
    };
}
inline std::vector<std::string> base_ops()
{
    return {"SIN", "COS", "TAN", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "OR", "XOR", "AND", "BIN", "BCD", "IF", "WHILE", "DO", "END", "EQ", "NE", "GT", "GE", "LT", "LE", "MOD", "THEN"};
}

// ---- printing
struct Printer : boost::static_visitor<std::string> {
    std::string operator()(const fn::DecimalAttributeData& d) const
    {
        std::string s = d.word;
        if (d.assign) s += *d.assign;
        if (d.sign) s += *d.sign;
        if (d.open_bracket) s += *d.open_bracket;
        if (d.macro) s += *d.macro;
        if (d.value) s += *d.value;
        if (d.dot) s += *d.dot;
        if (d.value2) s += *d.value2;
        if (d.close_bracket) s += *d.close_bracket;
        return s;
    }
    std::string operator()(const fn::StringAttributeData& d) const { return d.word + d.value + (d.word == "(" ? ")" : ""); }
    std::string operator()(const fn::CharAttributeData& d) const { std::string s = d.word; if (d.value) s += d.value; return s; }
};
inline std::string show(const fn::AttributeVariant& v) { return boost::apply_visitor(Printer(), v); }
inline std::string show(const std::vector<fn::AttributeVariant>& v, const char* sep = "")
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += sep; s += show(v[i]); }
    return s;
}
// the text without blanks
inline std::string squeeze(const std::string& s)
{
    std::string r;
    for (char c : s) if (c != ' ' && c != '\t') r.push_back(c);
    return r;
}

// ---- parser and NC settings
inline Kinematics base_kinematics()
{
    return {{{"X", {-1000, 1000}}, {"Y", {-1000, 1000}}, {"Z", {-1000, 1000}}}, 10000, 20000, 12000, 40, 0, 0, 0, false, false, "", "", "", ""};
}
inline CncDefaultValues base_defaults()
{
    return {EMotion::RapidTraverse, EWorkPlane::XY, EDriverUnits::Millimeter, EProgrammingType::Absolute, EFeedMode::PerMinute, ERotationDirection::Stop,
        EDepthProgrammingType::Absolute, EDrillGreturnMode::G98, 0, true, true, true, true, true, false, true, false};
}
struct Opt {
    fn::word_map metric = base_words(), imperial = base_words();
    std::vector<std::string> ops = base_ops();
    fn::code_groups_map g, m;
    ParserSettings ps{false, false, false, false, false};
    ELanguage lang = ELanguage::English;
    EFanucParserType type = EFanucParserType::FanucMill;
    bool nc = false;
    EMachineTool tool = EMachineTool::mill_3axis;
    EMachineToolType tool_type = EMachineToolType::Mill;
    MachinePointsData points{{{"X", 0}, {"Y", 0}, {"Z", 0}}, {{"X", 0}, {"Y", 0}, {"Z", 0}}};
    Kinematics kin = base_kinematics();
    CncDefaultValues def = base_defaults();
    ZeroPoint zero{0, 0, 0};
};
inline std::unique_ptr<fn::AllAttributesParser> mkparser(Opt o)
{
    auto p = std::make_unique<fn::AllAttributesParser>(fn::FanucWordGrammar{o.metric, o.imperial}, std::move(o.ops), std::move(o.g), std::move(o.m),
        std::move(o.ps), OtherSettings{o.lang}, o.type, !o.nc);
    if (o.nc) p->set_ncsettings(o.tool, o.tool_type, std::move(o.points), std::move(o.kin), std::move(o.def), std::move(o.zero));
    return p;
}
struct Parsed {
    bool ok;
    std::vector<fn::AttributeVariant> v;
    std::string msg;
};
inline Parsed parse(fn::AllAttributesParser& p, const std::string& s, int line = 1)
{
    fn::FanucAttributeData d;
    Parsed r;
    r.ok = p.parse(line, s, d, r.msg, true);
    r.v = std::move(d.value);
    return r;
}
// text with '?' replaced by symbolic bytes in [lo,hi]
inline std::string fill(const std::string& t, unsigned lo, unsigned hi, const char* name = "c")
{
    std::string s;
    int n = 0;
    for (char c : t) {
        if (c == '?') s += sym_bytes((std::string(name) + std::to_string(n++)).c_str(), 1, lo, hi);
        else s.push_back(c);
    }
    return s;
}
