// NC blocks given to the path calculator as the parser gives them.
#pragma once
#include "common.h"
#include "AttributesPathCalculator.h"
#include <cmath>
#include <map>

static bool near(double a, double b) { double d = a - b, m = (b < 0 ? -b : b) * 1e-9 + 1e-6; return (d <= m) & (d >= -m); }
static bool is_length(double l, double d2)
{
    double e = l * l - d2, t = 1e-6 + d2 * 1e-9;
    return (l >= 0) & (e <= t) & (e >= -t);
}

// one block of an NC program, with the words as the parser gives them
struct Blk {
    std::vector<fn::AttributeVariant> v;
    std::string text;
    void word(const std::string& w, bool neg, const std::string& t)
    {
        fn::DecimalAttributeData d;
        d.word = w;
        if (neg) d.sign = '-';
        size_t p = t.find('.');
        d.value = t.substr(0, p);
        if (p != std::string::npos) { d.dot = '.'; if (p + 1 < t.size()) d.value2 = t.substr(p + 1); }
        v.push_back(d);
        if (sym_replaying()) text += w + (neg ? "-" : "") + t;
    }
    void code(const std::string& w, int n) { word(w, false, std::to_string(n)); }
    // a symbolic number with a sign or without; the value is the one the text has
    double num(const std::string& w, double lo = 0, double hi = 999, int dec = 3) { return put(w, false, sym_numtext(sym_real(w.c_str(), lo, hi, dec), dec)); }
    double snum(const std::string& w, double hi = 999, int dec = 3)
    {
        double x = sym_real(w.c_str(), -hi, hi, dec);
        if (x < 0) return put(w, true, sym_numtext(-x, dec));
        return put(w, false, sym_numtext(x, dec));
    }
    double put(const std::string& w, bool neg, const std::string& t)
    {
        word(w, neg, t);
        double v = strtod(t.c_str(), nullptr);
        return neg ? -v : v;
    }
};
struct Calc {
    std::unique_ptr<fn::AttributesPathCalculator> c;
    fn::macro_map m;
    int line = 0;
    std::string msg, log;
    explicit Calc(const Opt& o) : c(std::make_unique<fn::AttributesPathCalculator>(o.tool, o.tool_type, static_cast<const MachinePointsData&>(o.points), static_cast<const Kinematics&>(o.kin), static_cast<const CncDefaultValues&>(o.def), o.lang)) {}
    bool run(const Blk& b, EDriverUnits u = EDriverUnits::Millimeter)
    {
        msg.clear();
        ++line;
        bool ok = true;
        try { c->evaluate(b.v, u, m, line); }
        catch (const fn::path_calc_exception& e) { msg = e.what(); ok = false; }
        sym_note("block " + b.text + (ok ? "" : " rejected " + msg) + " work " + std::to_string(pr().work_motion) + " fast " + std::to_string(pr().fast_motion) + " total " + std::to_string(pr().total) + " tool " + std::to_string(pr().tool_total) +
                 "; time work " + std::to_string(tr().work_motion) + " fast " + std::to_string(tr().fast_motion) + " total " + std::to_string(tr().total) + " tool " + std::to_string(tr().tool_total));
        return ok;
    }
    const PathResult& pr() { return c->get_path_result(); }
    const TimeResult& tr() { return c->get_time_result(); }
    bool range(const char* w, double& lo, double& cur, double& hi)
    {
        auto& r = c->get_word_range();
        auto i = r.find(w);
        if (i == r.end()) return false;
        std::tie(lo, cur, hi) = i->second;
        return true;
    }
};
static const char* AX[] = {"X", "Y", "Z"};
static Opt popt()
{
    Opt o;
    o.def.operator_turns_on_rotation = false;
    o.def.auto_rapid_traverse_after_tool_exchange = false;
    return o;
}

