// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "path.h"

// ---------------------------------------------------------------- C22 straight moves
// one block from any position
HARNESS(move1, 1)
{
    Opt o = popt();
    int mach = sym_choice("machine", 5);
    // mill, lathe with X as radius / as diameter, mill-turn in G18 / in G17
    static const EMachineToolType T[] = {EMachineToolType::Mill, EMachineToolType::Lathe, EMachineToolType::Lathe, EMachineToolType::Millturn, EMachineToolType::Millturn};
    o.tool_type = T[mach];
    o.kin.diameter_programming_2x = mach == 2;
    bool half = mach == 1 || mach == 3;
    if (mach == 3) o.def.default_work_plane = EWorkPlane::XZ;
    bool incr = sym_flag("default_incremental");
    o.def.default_programming = incr ? EProgrammingType::Incremental : EProgrammingType::Absolute;
    int g = sym_choice("default_motion", 2);
    o.def.default_motion = g ? EMotion::LinearInterpolation : EMotion::RapidTraverse;
    double p[3], x[3], n[3];
    for (int k = 0; k < 3; ++k) {
        p[k] = sym_real((std::string("from_") + AX[k]).c_str(), -999, 999, 3);
        o.points.machine_base_point[AX[k]] = p[k];
    }
    Calc c(o);
    Blk b;
    int mode = sym_choice("programming", 3), motion = sym_choice("motion", 4), axes = "\0\1\2\4\6\7"[sym_choice("axes", 6)];
    if (mode) { b.code("G", 89 + mode); incr = mode == 2; }
    if (motion == 3) { b.word("G", false, "01"); g = 1; }
    else if (motion) { b.code("G", motion - 1); g = motion - 1; }
    for (int k = 0; k < 3; ++k) {
        n[k] = p[k];
        if (!(axes >> k & 1)) continue;
        x[k] = b.snum(AX[k]);
        n[k] = incr ? p[k] + x[k] : x[k];
        if (axes == 7) sym_assume(n[k] >= p[k]);
    }
    if (g == 1) b.code("F", 100);
    if (b.v.empty()) return;
    bool ok = c.run(b);
    sym_assert(ok, "a straight move from a known position is accepted");
    double dx = n[0] - p[0], dy = n[1] - p[1], dz = n[2] - p[2];
    if (half) dx /= 2;
    double l = g == 1 ? c.pr().work_motion : c.pr().fast_motion, other = g == 1 ? c.pr().fast_motion : c.pr().work_motion;
    sym_reach(g == 1 ? "work" : "rapid");
    sym_assert(is_length(l, dx * dx + dy * dy + dz * dz), "the path of a straight move is the distance between its ends");
    sym_assert(other == 0, "a rapid traverse is not working motion and working motion is not a rapid traverse");
    sym_assert(c.pr().total == l, "the total is the path of the block");
}
// three blocks: modal state and totals
HARNESS(move3, 1)
{
    Opt o = popt();
    double p[3];
    for (int k = 0; k < 3; ++k) { p[k] = sym_real((std::string("from_") + AX[k]).c_str(), -999, 999, 3); o.points.machine_base_point[AX[k]] = p[k]; }
    Calc c(o);
    bool incr = false;
    int g = 0;
    double sum = 0, sumw = 0;
    for (int i = 0; i < 3; ++i) {
        Blk b;
        double n[3] = {p[0], p[1], p[2]};
        int kind = sym_choice("block", i == 2 ? 3 : 6);
        // 0: X alone  1: Y and Z  2: nothing but codes  +3: with the other motion and programming
        if (kind >= 3) {
            int sw = sym_choice("switch", 3);
            if (sw != 1) { g = !g; b.code("G", g); }
            if (sw != 0) { incr = !incr; b.code("G", incr ? 91 : 90); }
        }
        if (i == 0) b.code("F", 200);
        auto axis = [&](int k) {
            double v = b.num(AX[k]);
            n[k] = incr ? p[k] + v : v;
            sym_assume(n[k] >= p[k]);
        };
        if (kind % 3 == 0) axis(0);
        if (kind % 3 == 1) { axis(2); axis(1); }
        if (kind % 3 == 2) b.code("M", 8);
        sym_assert(c.run(b), "a straight move from a known position is accepted");
        double d2 = 0;
        for (int k = 0; k < 3; ++k) { d2 += (n[k] - p[k]) * (n[k] - p[k]); p[k] = n[k]; }
        double w = c.pr().work_motion, f = c.pr().fast_motion;
        sym_assert(is_length(g ? w : f, d2), "the path of a straight move is the distance from the end of the last one");
        sym_assert((g ? f : w) == 0, "a block is rapid traverse or working motion");
        sum += w + f;
        sumw += w;
        sym_assert(near(c.pr().total, sum), "the total path is the sum of the blocks");
        sym_assert(near(c.pr().tool_total, sum), "the path of the only tool is the sum of the blocks");
    }
    sym_reach(g ? "work" : "rapid");
}

// ---------------------------------------------------------------- C23 ranges of words
HARNESS(ranges, 1)
{
    Opt o = popt();
    double x0 = sym_real("from_X", -999, 999, 3);
    o.points.machine_base_point = {{"X", x0}, {"Y", 0}, {"Z", 0}};
    Calc c(o);
    bool incr = false;
    double cur = x0, lo = x0, hi = x0;
    for (int i = 0; i < 3; ++i) {
        Blk b;
        int kind = sym_choice("block", 5);
        if (kind == 1 || kind == 2) { incr = kind == 2; b.code("G", 89 + kind); }
        if (kind == 3) { b.code("G", 28); b.snum("X"); cur = x0; }
        else if (kind == 4) { b.code("G", 92); b.snum("X"); }
        else {
            double v = b.snum("X");
            cur = incr ? cur + v : v;
        }
        if (cur < lo) lo = cur;
        if (cur > hi) hi = cur;
        bool ok = c.run(b);
        sym_assert(ok, "the block is accepted");
        double l, q, h;
        bool f = c.range("X", l, q, h);
        sym_assert(f, "a stated word has a range");
        sym_note("X range " + std::to_string(l) + " " + std::to_string(q) + " " + std::to_string(h) + ", expected " + std::to_string(lo) + " " + std::to_string(cur) + " " + std::to_string(hi));
        sym_assert((l <= q) & (q <= h), "minimum <= current <= maximum");
        sym_assert(near(q, cur), "the current value is the last position");
        sym_assert(near(l, lo), "the minimum is the least position reached");
        sym_assert(near(h, hi), "the maximum is the greatest position reached");
    }
    sym_reach(incr ? "incremental" : "absolute");
}
// any word: X Y Z I J K R U P, a rotary axis of the machine; Q, L and unknown words have no range
HARNESS(range_words, 1)
{
    static const char* w[] = {"X", "Y", "Z", "I", "J", "K", "R", "U", "B", "Q", "L", "D"};
    Opt o = popt();
    o.kin.cartesian_system_axis["B"] = {-360, 360};
    o.points.machine_base_point = {{"X", 0}, {"Y", 0}, {"Z", 0}};
    Calc c(o);
    int a = sym_choice("word", 12);
    double lo = 0, hi = 0, l, q, h;
    for (int i = 0; i < 3; ++i) {
        Blk b;
        double v = b.snum(w[a]);
        if (i == 1) b.code(w[(a + 1) % 3], 7);
        if (!i && a > 2) lo = hi = v;
        sym_assert(c.run(b), "the block is accepted");
        bool f = c.range(w[a], l, q, h);
        sym_assert(f == (a < 9), "position words have a range, other words have none");
        if (!f) continue;
        if (v < lo) lo = v;
        if (v > hi) hi = v;
        sym_note(std::string(w[a]) + " range " + std::to_string(l) + " " + std::to_string(q) + " " + std::to_string(h));
        sym_assert(near(q, v) & near(l, lo) & near(h, hi), "the range of a word spans the values it took");
    }
    sym_reach(a < 9 ? "range" : "none");
}
// blocks whose axis words are not positions: dwell, offsets, coordinate systems
HARNESS(no_motion, 1)
{
    Opt o = popt();
    double p[3];
    for (int k = 0; k < 3; ++k) { p[k] = sym_real((std::string("from_") + AX[k]).c_str(), 0, 999, 3); o.points.machine_base_point[AX[k]] = p[k]; }
    Calc c(o);
    int modal = sym_choice("modal", 3);     // rapid, work, arc
    bool incr = sym_flag("incremental");
    {
        Blk b;
        b.code("G", incr ? 91 : 90);
        b.code("G", modal);
        b.code("F", 100);
        if (modal == 2) { b.code("X", incr ? 0 : 0); b.code("R", 5); if (incr) b.code("Y", 10); }
        c.run(b);
        auto& r = c.c->get_word_range();
        for (int k = 0; k < 3; ++k) p[k] = std::get<1>(r.find(AX[k])->second);
    }
    double total = c.pr().total;
    static const struct { int g, d; bool y; } codes[] = {{4, 0, false}, {10, 0, true}, {50, 1, true}, {51, 1, true}, {52, 0, true}, {53, 0, true}, {68, 0, true}, {68, 2, true}, {68, 3, true}, {68, 4, true}, {92, 0, true}};
    auto& e = codes[sym_choice("code", 11)];
    Blk b;
    b.word("G", false, std::string(sym_flag("zero") && e.g < 10 ? "0" : "") + std::to_string(e.g) + (e.d ? "." + std::to_string(e.d) : ""));
    b.snum("X");
    if (e.y && sym_flag("more")) { b.snum("Y"); b.num("Z"); }
    sym_assert(c.run(b), "the block is accepted");
    sym_assert((c.pr().work_motion == 0) & (c.pr().fast_motion == 0), "dwell, offset and coordinate system words are not a motion");
    sym_assert(near(c.pr().total, total), "the total path does not change");
    Blk b2;
    b2.code("G", 1);
    double x = b2.num("X", 0, 999), n = incr ? p[0] + x : x;
    sym_assert(c.run(b2), "the block is accepted");
    sym_assert(is_length(c.pr().work_motion, (n - p[0]) * (n - p[0])), "the next move starts where the last one ended");
    sym_reach(modal == 2 ? "arc" : "line");
}
// modal values stated in a block of their own
HARNESS(modal, 1)
{
    Opt o = popt();
    o.tool_type = sym_flag("lathe") ? EMachineToolType::Lathe : EMachineToolType::Mill;
    bool lathe = o.tool_type == EMachineToolType::Lathe;
    o.kin.diameter_programming_2x = true;
    o.points.machine_base_point = {{"X", 10}, {"Y", 20}, {"Z", 30}};
    int first = sym_choice("first", 5);
    if (first == 4) o.def.default_motion = static_cast<EMotion>(-1);
    Calc c(o);
    Blk b;
    if (first == 0) { b.code("G", 0); b.code("X", 10); }
    if (first == 1) { b.code("G", 1); b.code("X", 11); b.code("F", 77); }
    if (first == 2) { b.code("G", 3); b.code("X", 10); b.code("Z", 32); b.code("Y", 22); b.code("R", 40); b.code("F", 77); b.v.erase(b.v.begin() + 2); }
    if (first == 3) { b.code("G", 81); b.code("X", 10); b.word("Z", true, "5"); b.code("R", 2); b.code("F", 77); }
    if (first != 4) sym_assert(c.run(b), "the block is accepted");
    double x0 = first == 1 ? 11 : 10, f = 77, s = 0;
    bool incr = false, rev = false;
    Blk m;
    int what = sym_choice("what", 4);
    if (what == 0) f = m.num("F", 1, 999, 1);
    if (what == 1) { m.code("G", 91); incr = true; }
    if (what == 2) { m.code("G", 95); s = m.num("S", 1, 999, 0); rev = lathe; }
    if (what == 3) { m.code("M", 8); f = m.num("F", 1, 999, 1); m.code("G", 91); incr = true; }
    sym_assert(c.run(m), "the block is accepted");
    sym_assert((c.pr().work_motion == 0) & (c.pr().fast_motion == 0) || first == 3, "a block of modal codes is not a motion");
    Blk n;
    n.code("G", 1);
    double x = n.num("X", 12, 999);
    if (first != 1 && first != 2 && first != 3 && (what == 1 || what == 2)) n.code("F", 77);
    sym_assert(c.run(n), "the block is accepted");
    double l = incr ? x : x - x0, t = c.tr().work_motion * (rev ? f * s : f) - 60 * l;
    sym_assert(near(c.pr().work_motion, l), "G90 and G91 stay in force");
    sym_assert((t < 1e-6) & (t > -1e-6), "F, S and the feed mode stay in force");
    sym_reach(rev ? "revolution" : incr ? "incremental" : "feed");
}
