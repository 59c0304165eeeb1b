// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "path.h"
#include <cstring>

// ---------------------------------------------------------------- C26 machining time
// feed per minute, rapid traverse; modal feed
HARNESS(time_feed, 1)
{
    Opt o = popt();
    double fast = sym_real("max_fast_feed", 1, 30000, 0);
    o.kin.max_fast_feed = fast;
    bool lathe = sym_flag("lathe");
    if (lathe) { o.tool_type = EMachineToolType::Lathe; o.kin.diameter_programming_2x = true; }
    Calc c(o);
    double f = -1, tot = 0, pos = 0;
    for (int i = 0; i < 3; ++i) {
        Blk b;
        int g = sym_choice("motion", 3);      // 0 rapid, 1 work, 2 work with a new feed
        b.code("G", g > 0);
        double x = b.num("X", 0, 999);
        sym_assume(x >= pos + 1);
        pos = x;
        if (g == 2) { f = b.num("F", 1, 9999, 1); }
        bool ok = c.run(b), bad = g == 1 && f < 0;
        if (bad) {
            sym_assert(!ok && c.msg.find("F") != std::string::npos, "working motion without a feed is reported");
            sym_reach("no feed");
            return;
        }
        sym_assert(ok, "the block is accepted");
        double l = g ? c.pr().work_motion : c.pr().fast_motion, t = g ? c.tr().work_motion : c.tr().fast_motion, ot = g ? c.tr().fast_motion : c.tr().work_motion;
        double v = g ? f : fast, e = t * v - 60 * l;
        sym_assert((e < 1e-6) & (e > -1e-6), "the time of a move is its path divided by the feed");
        sym_assert(ot == 0, "a block takes working time or rapid time");
        tot += t;
        sym_assert(near(c.tr().total, tot), "the total time is the sum of the blocks");
        sym_assert(near(c.tr().tool_total, tot), "the time of the only tool is the sum of the blocks");
    }
    sym_reach("moves");
}
// feed per revolution on lathes
HARNESS(time_rev, 1)
{
    Opt o = popt();
    int mach = sym_choice("machine", 4);   // mill, lathe, mill-turn G18, mill-turn G17
    o.tool_type = mach == 0 ? EMachineToolType::Mill : mach == 1 ? EMachineToolType::Lathe : EMachineToolType::Millturn;
    if (mach == 2) o.def.default_work_plane = EWorkPlane::XZ;
    o.kin.diameter_programming_2x = true;
    bool rev = sym_flag("default_per_revolution");
    o.def.default_feed_mode = rev ? EFeedMode::PerRevolution : EFeedMode::PerMinute;
    Calc c(o);
    Blk b;
    int mode = sym_choice("mode", 3);
    if (mode) { b.code("G", 93 + mode); rev = mode == 2; }
    int css = sym_choice("css", 3);          // nothing, G97, G96
    if (css) b.code("G", css == 1 ? 97 : 96);
    else b.code("G", 97);
    b.code("G", 1);
    double x = b.num("Z", 1, 999), f = b.num("F", 1, 99, 2), s = -1;
    bool hs = sym_flag("speed");
    if (hs) s = b.num("S", 1, 9999, 0);
    bool inch = sym_flag("inch");
    bool ok = c.run(b, inch ? EDriverUnits::Inch : EDriverUnits::Millimeter);
    bool per_rev = rev && mach != 0 && mach != 3;
    if (per_rev && !hs) { sym_assert(!ok && c.msg.find("S") != std::string::npos, "feed per revolution without a spindle speed is reported"); sym_reach("no speed"); return; }
    sym_assert(ok, "the block is accepted");
    double l = c.pr().work_motion, t = c.tr().work_motion;
    sym_assert(near(l, x), "the path");
    double e = t * f - 60 * x;
    if (per_rev && css == 2) return;   // constant surface speed: outside the claim
    if (per_rev) e = t * f * s - 60 * x;
    sym_reach(per_rev ? "per revolution" : "per minute");
    sym_assert((e < 1e-6) & (e > -1e-6), "the time of a move is its path divided by the feed");
    // the feed mode is modal
    Blk b2;
    b2.code("G", 1);
    double x2 = b2.num("X", 1, 999);
    sym_assert(c.run(b2), "the block is accepted");
    t = c.tr().work_motion;
    e = per_rev ? t * f * s - 60 * x2 : t * f - 60 * x2;
    sym_assert((e < 1e-6) & (e > -1e-6), "feed, speed and feed mode stay in force");
    sym_assert(near(c.tr().total, 60 * x / (per_rev ? f * s : f) + t), "the total time is the sum of the blocks");
}
// dwell, tool exchange, pallet exchange, measurement
HARNESS(time_events, 1)
{
    Opt o = popt();
    int te = sym_int("tool_exchange_time", 0, 100), pe = sym_int("pallet_exchange_time", 0, 100), me = sym_int("tool_measurement_time", 0, 100);
    o.kin.tool_exchange_time = te;
    o.kin.pallet_exchange_time = pe;
    o.kin.tool_measurement_time = me;
    o.kin.pallet_exchange_code = "M";
    o.kin.pallet_exchange_code_value = "60";
    o.kin.tool_measurement_code = "M";
    o.kin.tool_measurement_code_value = "61";
    bool aut = sym_flag("auto_measure"), texec = sym_flag("tool_number_executes_exchange");
    o.kin.auto_measure_after_tool_selection = aut;
    o.def.tool_number_executes_exchange = texec;
    Calc c(o);
    double tot = 0;
    for (int i = 0; i < 2; ++i) {
        Blk b;
        int k = sym_choice("event", 9);
        double add = 0;
        auto exchange = [&] { add += te; if (aut) add += me; };
        switch (k) {
        case 0: b.code("G", 4); add = b.num("X", 0, 99); break;
        case 1: b.word("G", false, "04"); add = b.num("U", 0, 99); break;
        case 2: b.code("G", 4); add = b.num("P", 0, 9999, 0) / 1000; break;
        case 3: b.code("M", 60); add = pe; break;
        case 4: b.code("M", 61); if (!aut) add = me; break;
        case 5: b.code("T", 3); if (texec) exchange(); break;
        case 6: b.code("T", 3); b.code("M", 6); exchange(); break;
        case 7: b.code("M", 6); if (!texec) exchange(); break;
        case 8: b.code("M", 62); break;
        }
        sym_assert(c.run(b), "the block is accepted");
        tot += add;
        double m = c.tr().work_motion + c.tr().fast_motion;
        sym_assert(m == 0, "an event has no motion");
        sym_note("expected total " + std::to_string(tot));
        sym_assert(near(c.tr().total, tot), "dwell, tool and pallet exchange and measurement take their configured time");
        sym_assert(c.tr().tool_total == 0, "they do not count as machining time of a tool");
    }
    sym_reach("events");
}

// ---------------------------------------------------------------- C27 path and time per tool
HARNESS(tools, 1)
{
    Opt o = popt();
    bool texec = sym_flag("tool_number_executes_exchange");
    o.def.tool_number_executes_exchange = texec;
    o.kin.max_fast_feed = 1000;
    double ex = sym_real("exchange_X", 0, 999, 3);
    o.points.tool_exchange_point = {{"X", ex}, {"Y", 0}, {"Z", 0}};
    Calc c(o);
    double path[3] = {}, time[3] = {}, sump = 0, sumt = 0;
    int tool = 0;
    for (int i = 0; i < 5; ++i) {
        Blk b;
        int t = 0;
        if (i != 2 || sym_flag("exchange")) {
            if (i == 0) t = 1;
            else if (i % 2 == 0) t = 1 + sym_choice("tool", 2);
        }
        if (t) {
            bool pre = !texec && i == 2 && sym_flag("preselect");
            b.code("T", t);
            if (!texec && !pre) b.code("M", 6);
            if (!pre) tool = t;
        } else {
            if (i == 1) { b.code("G", 1); b.code("F", 50); }
            b.num("X");
        }
        sym_assert(c.run(b), "the block is accepted");
        double m = c.pr().work_motion + c.pr().fast_motion, s = c.tr().work_motion + c.tr().fast_motion;
        path[tool] += m; time[tool] += s; sump += m; sumt += s;
        std::string id = tool ? std::to_string(tool) : "";
        sym_assert(c.pr().tool_id == id && c.tr().tool_id == id, "the active tool is the one exchanged last");
        sym_assert(near(c.pr().tool_total, path[tool]), "the path of a tool is the sum over the blocks it was active in");
        sym_assert(near(c.tr().tool_total, time[tool]), "the time of a tool is the sum over the blocks it was active in");
        sym_assert(near(c.pr().total, sump) & near(c.tr().total, sumt), "totals are the sums over all blocks");
    }
    sym_reach(tool == 1 ? "one" : "two");
}
// the tool number: the word stated, two leading digits of four on a lathe; system variables
HARNESS(tool_number, 1)
{
    Opt o = popt();
    int mach = sym_choice("machine", 3);
    o.tool_type = mach == 0 ? EMachineToolType::Mill : mach == 1 ? EMachineToolType::Lathe : EMachineToolType::Millturn;
    bool texec = sym_flag("tool_number_executes_exchange");
    o.def.tool_number_executes_exchange = texec;
    Calc c(o);
    Blk b;
    int n = 1 + sym_choice("digits", 4);
    std::string d = sym_bytes("d", n, '0', '9');
    b.word("T", false, d);
    bool m6 = sym_flag("m6");
    if (m6) b.word("M", false, sym_flag("m06") ? "06" : "6");
    sym_assert(c.run(b), "the block is accepted");
    std::string id = mach == 1 && n > 2 ? d.substr(0, n / 2) : d;
    if (!texec && !m6) id = "";
    sym_note("tool '" + c.pr().tool_id + "', expected '" + id + "'");
    sym_assert(c.pr().tool_id == id && c.tr().tool_id == id, "the active tool is the one stated");
    double v = 0;
    for (char ch : id) v = v * 10 + (ch - '0');
    for (unsigned s : {4120u, 4320u, 4520u}) {
        auto it = c.m.find({s, 1});
        sym_assert((it != c.m.end()) == !id.empty(), "the tool variables are set by a tool exchange");
        if (it != c.m.end()) sym_assert(it->second == v, "the tool variables have the tool number");
    }
    sym_reach(id.empty() ? "preselected" : "exchanged");
}

// ---------------------------------------------------------------- C28 reset
static void any_block(Blk& b, const char* nm, bool symbolic, const char* only = nullptr)
{
    auto num = [&](const char* w, double lo = 0, double hi = 999, int dec = 3) { if (symbolic) b.num(w, lo, hi, dec); else b.code(w, lo ? (int)lo + 44 : 37); };
    switch (only ? only[sym_choice(nm, strlen(only))] - 'a' : sym_choice(nm, 18)) {
    case 0: b.code("G", 1); num("X"); b.code("F", 70); break;
    case 1: b.code("G", 0); num("Y"); break;
    case 2: b.code("G", 91); num("Z"); break;
    case 3: b.code("G", 2); num("X"); num("R", 500, 999); b.code("F", 30); break;
    case 4: b.code("G", 18); break;
    case 5: b.code("G", 81); num("X"); b.word("Z", true, "5"); b.code("R", 2); b.code("F", 60); break;
    case 6: num("X"); break;
    case 7: b.code("T", 2); b.code("M", 6); break;
    case 8: b.code("G", 95); b.code("S", 500); b.code("G", 1); num("Z"); b.word("F", false, "0.5"); break;
    case 9: b.code("G", 96); b.code("S", 100); break;
    case 10: b.code("G", 99); break;
    case 11: b.code("G", 28); break;
    case 12: b.code("G", 2); b.code("X", 0); b.code("Y", 0); num("Z"); b.code("R", 5); b.code("F", 40); break;
    case 13: b.code("S", 200); b.code("F", 90); break;
    case 14: b.code("G", 4); num("P", 0, 999, 0); break;
    case 15: b.code("G", 3); num("X"); num("I", 300, 999); num("J"); b.code("F", 40); break;
    case 16: b.code("T", 1); break;
    case 17: b.code("G", 1); num("Y"); break;
    }
}
static void equal(Calc& a, Calc& b, bool whole)
{
    sym_assert(near(a.pr().work_motion, b.pr().work_motion) & near(a.pr().fast_motion, b.pr().fast_motion) & near(a.pr().total, b.pr().total) & near(a.pr().tool_total, b.pr().tool_total), "paths are those of a fresh start");
    sym_assert(near(a.tr().work_motion, b.tr().work_motion) & near(a.tr().fast_motion, b.tr().fast_motion) & near(a.tr().total, b.tr().total) & near(a.tr().tool_total, b.tr().tool_total), "times are those of a fresh start");
    sym_assert(a.pr().tool_id == b.pr().tool_id && a.tr().tool_id == b.tr().tool_id, "the tool is that of a fresh start");
    if (!whole) return;
    sym_assert(a.pr().hole_number == b.pr().hole_number && near(a.pr().cycle_distance.first, b.pr().cycle_distance.first) && near(a.pr().cycle_distance.second, b.pr().cycle_distance.second), "the cycle is that of a fresh start");
    auto &ra = a.c->get_word_range(), &rb = b.c->get_word_range();
    sym_assert(ra.size() == rb.size(), "the same words have ranges");
    for (auto& x : ra) {
        auto it = rb.find(x.first);
        sym_assert(it != rb.end(), "the same words have ranges");
        if (it == rb.end()) return;
        sym_assert(near(std::get<0>(x.second), std::get<0>(it->second)) & near(std::get<1>(x.second), std::get<1>(it->second)) & near(std::get<2>(x.second), std::get<2>(it->second)), "ranges are those of a fresh start");
    }
}
HARNESS(reset, 1)
{
    Opt o = popt();
    o.points.machine_base_point = {{"X", 1}, {"Y", 2}, {"Z", 3}};
    o.points.tool_exchange_point = {{"X", 10}, {"Y", 20}, {"Z", 300}};
    bool lathe = sym_flag("lathe");
    if (lathe) { o.tool_type = EMachineToolType::Lathe; }
    int d = sym_choice("defaults", 3);
    if (d == 1) { o.def.auto_rapid_traverse_after_tool_exchange = true; o.def.default_motion = EMotion::LinearInterpolation; o.def.tool_number_executes_exchange = true; o.def.drill_cycle_return_value = EDrillGreturnMode::G99; }
    if (d == 2) { o.def.operator_turns_on_rotation = true; o.def.default_rotation = 150; o.def.default_programming = EProgrammingType::Incremental; o.def.default_feed_mode = EFeedMode::PerRevolution; o.def.default_work_plane = EWorkPlane::YZ; }
    Calc a(o), f(o);
    Blk b1;
    any_block(b1, "before", true);
    a.run(b1);
    Blk b0;
    any_block(b0, "before2", false, "acfghmq");
    a.run(b0);
    a.c->reset();
    a.line = 0;
    equal(a, f, true);
    Blk b2;
    any_block(b2, "after", false);
    bool ra = a.run(b2), rf = f.run(b2);
    sym_assert(ra == rf && a.msg == f.msg, "the verdict is that of a fresh start");
    equal(a, f, true);
    sym_reach(ra ? "accepted" : "rejected");
}

// ---------------------------------------------------------------- C29 zero point
HARNESS(zero_point, 1)
{
    double e[3], m[3], z[3];
    Opt o = popt();
    o.nc = true;
    o.ps = ParserSettings{true, false, true, false, false};
    for (int k = 0; k < 3; ++k) {
        z[k] = sym_real((std::string("zero_") + AX[k]).c_str(), -500, 500, 3);
        e[k] = sym_real((std::string("exchange_") + AX[k]).c_str(), -500, 500, 3);
        m[k] = sym_real((std::string("base_") + AX[k]).c_str(), -500, 500, 3);
        o.points.tool_exchange_point[AX[k]] = e[k];
        o.points.machine_base_point[AX[k]] = m[k];
    }
    o.zero = ZeroPoint{z[0], z[1], z[2]};
    auto p = mkparser(o);
    auto at = [&](double* q) {
        auto& r = p->get_word_range();
        for (int k = 0; k < 3; ++k) {
            auto i = r.find(AX[k]);
            sym_assert(i != r.end(), "axes have positions");
            if (i == r.end()) return;
            sym_note(std::string(AX[k]) + " at " + std::to_string(std::get<1>(i->second)) + ", expected " + std::to_string(q[k]));
            sym_assert(near(std::get<1>(i->second), q[k]), "positions are relative to the zero point");
        }
    };
    double base[3], exch[3];
    for (int k = 0; k < 3; ++k) { base[k] = m[k] - z[k]; exch[k] = e[k] - z[k]; }
    at(base);
    bool tool = sym_flag("tool");
    auto r = parse(*p, tool ? "T1M6" : "G28", 1);
    sym_assert(r.ok, "the block is accepted");
    at(tool ? exch : base);
    double d2 = 0;
    for (int k = 0; k < 3; ++k) d2 += tool ? (e[k] - m[k]) * (e[k] - m[k]) : 0;
    sym_assert(is_length(p->get_path_result().fast_motion, d2), "the way to the point is a rapid traverse of the distance");
    sym_reach(tool ? "exchange" : "base");
}

// ---------------------------------------------------------------- the ways to write a number
static double form(Blk& b, const char* w)
{
    fn::DecimalAttributeData d;
    d.word = w;
    int k = sym_choice("form", 4);        // 12, 12., 12.3, .3
    double v = 0;
    std::string t;
    if (k < 3) { std::string s = sym_bytes("integer", 2, '1', '9'); d.value = s; v = (s[0] - '0') * 10 + (s[1] - '0'); t = s; }
    if (k) { d.dot = '.'; t += "."; }
    if (k > 1) { std::string s = sym_bytes("digit", 1, '1', '9'); d.value2 = s; v += (s[0] - '0') / 10.; t += s; }
    b.v.push_back(d);
    b.text += w + t;
    return v;
}
HARNESS(forms, 1)
{
    Opt o = popt();
    Calc c(o);
    int k = sym_choice("block", 5);
    Blk b;
    if (k == 0 || k == 4) {
        b.code("G", 1);
        double x = 120, f = 60;
        if (k) b.code("X", 120); else x = form(b, "X");
        if (k) f = form(b, "F"); else b.code("F", 60);
        sym_assert(c.run(b), "a move is accepted");
        sym_assert(near(c.pr().work_motion, x), "a coordinate has the value its text has, with decimals and without");
        sym_assert(near(c.tr().work_motion * f, 60 * x), "a feed has the value its text has, with decimals and without");
    }
    else {
        b.code("G", 4);
        bool p = k == 3;
        double t = form(b, k == 1 ? "X" : k == 2 ? "U" : "P");
        if (p && !b.v.back().which()) {
            auto* d = boost::get<fn::DecimalAttributeData>(&b.v.back());
            if (!d->dot) t /= 1000;
        }
        sym_assert(c.run(b), "a dwell is accepted");
        sym_note("expected " + std::to_string(t));
        sym_assert(near(c.tr().total, t), "a dwell takes the stated time: seconds, or milliseconds for P without decimal point");
    }
    sym_reach(k % 4 ? "dwell" : "move");
}
