// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "path.h"

// ---------------------------------------------------------------- C25 drilling cycles
static const char* PLANE[][3] = {{"X", "Y", "Z"}, {"X", "Z", "Y"}, {"Y", "Z", "X"}};
static double put(Blk& b, const char* w, double v)
{
    if (v < 0) return b.put(w, true, sym_numtext(-v, 3));
    return b.put(w, false, sym_numtext(v, 3));
}
struct Hole { double work, rapid, known_work, known_rapid; const char* known; };
// a hole from the initial level (0) to R (down by r) and the bottom (down by d from R); n pecks of q
static Hole hole(int g, bool incr, bool g98, double r, double d, double q, int n)
{
    Hole h{d, 0, -1, -1, nullptr};
    double up = g98 ? r : 0;     // from R to the initial level
    switch (g) {
    case 74: case 84:
        h.work = 2 * d;
        h.rapid = r + up;
        if (incr && !g98) { h.known = "KNOWN:drill-tap-g91-g99"; h.known_work = h.work; h.known_rapid = 0; }
        break;
    case 76:
        h.rapid = r + d + up + 2 * q;
        if (incr) { h.known = "KNOWN:drill-bore-g91"; h.known_work = d; h.known_rapid = d + up + 2 * q; }
        break;
    case 73:
        h.work = d + n * (q / 5);
        h.rapid = r + d + up + n * (q / 5);
        if (!incr) { h.known = "KNOWN:drill-chip-g90"; h.known_work = h.work; h.known_rapid = r + d + up; }
        break;
    case 83: {
        h.work = d + n * (q / 5);
        double all = n * (n + 1) * q;                // down and up again for every full peck
        h.rapid = r + up + all - h.work;             // the caller adds the last peck
        break;
    }
    default: h.rapid = r + d + up;
    }
    return h;
}

static void judge(Calc& c, const Hole& h, double dist)
{
    double w = c.pr().work_motion, f = c.pr().fast_motion, e = w - h.work;
    if (h.known) {
        double k = w - h.known_work;
        if ((k < 1e-5) & (k > -1e-5) & near(f, h.known_rapid + dist)) { sym_reach(h.known); return; }
    }
    sym_assert((e < 1e-5) & (e > -1e-5), "the working path of a hole: its depth, as often as it is worked");
    sym_assert(near(f, h.rapid + dist), "the rapid path of a hole: to the point R, back to the level of return, and the distance from the hole before");
}
// multiples of 1/4: exact in binary and in decimal notation
static double quarters(const char* name, int lo, int hi) { return sym_int(name, lo, hi) * .25; }
static void drill(const int* codes, int n, bool qparam)
{
    Opt o = popt();
    int g = codes[sym_choice("cycle", n)], ret = sym_choice("return", 3), plane = qparam && ret == 1 ? 0 : sym_choice("plane", 3);
    // absolute; absolute with the depth as a distance; incremental
    int mode = sym_choice("mode", 3);
    bool incr = mode == 2, g98 = ret != 1;
    if (g == 87 && (!g98 || mode)) return;
    const char* const* ax = PLANE[plane];
    o.def.drill_cycle_return_value = ret == 2 ? EDrillGreturnMode::G98 : EDrillGreturnMode::G99;
    o.def.drill_cycle_z_value = mode == 1 ? EDepthProgrammingType::Incremental : EDepthProgrammingType::Absolute;
    double x0 = quarters("from_1", -800, 0), y0 = quarters("from_2", -800, 0), z0, r, d, q = 0, rest = 0;
    int pecks = 0;
    if (qparam) {     // floor(depth / peck) is exact
        z0 = quarters("level", -1200, 1200);
        r = quarters("above", 1, 200);
        q = plane ? 2. : (1 << 2 * sym_choice("peck", 2)) * .5;
        pecks = plane ? 1 + sym_choice("pecks", 2) : sym_choice("pecks", 4);
        if (sym_flag("rest")) rest = quarters("rest", 1, (int)(q * 4) - 1);
        d = pecks * q + rest;
        if (pecks == 0 && rest == 0) return;
    }
    else {
        z0 = quarters("level", -1200, 1200);
        r = quarters("above", 1, 200);
        d = quarters("depth", 1, 800);
    }
    o.points.machine_base_point = {{ax[0], x0}, {ax[1], y0}, {ax[2], z0}};
    Calc c(o);
    double zr = z0 - r, zb = zr - d;
    if (g == 87) { zr = z0 - r - d; zb = zr + d; }
    Blk b;
    if (plane) b.code("G", 17 + plane);
    if (ret != 2) b.code("G", 98 + ret);
    b.code("G", incr ? 91 : 90);
    b.code("G", g);
    double t = quarters("step", 1, 80);      // 3-4-5 triangles
    put(b, ax[0], incr ? 3 * t : x0 + 3 * t);
    put(b, ax[1], incr ? 4 * t : y0 + 4 * t);
    put(b, ax[2], mode ? -d : zb);
    put(b, "R", incr ? -r : zr);
    Hole h = hole(g, incr, g98, r, d, q, pecks);
    if (g == 83 && rest > 0) h.rapid += 2 * d;
    if (g == 87) h.rapid = 2 * r + d + 4 * q;
    if (mode == 1 && g98 && !qparam && g != 74 && g != 84) { h.known = "KNOWN:drill-depth-g98"; h.known_work = d - r; h.known_rapid = r + d; }
    if (qparam) put(b, "Q", q);
    b.code("F", 100);
    sym_assert(c.run(b), "a drilling cycle from a known position is accepted");
    judge(c, h, 5 * t);
    double total = c.pr().work_motion + c.pr().fast_motion;
    double px = x0 + 3 * t;
    Blk b2;
    double x2 = put(b2, ax[0], quarters("second", 800, 1200));
    sym_assert(c.run(b2), "the next hole is accepted");
    double dx = incr ? x2 : x2 - px;
    judge(c, h, dx);
    total += c.pr().work_motion + c.pr().fast_motion;
    sym_assert(near(c.pr().total, total), "the total is the sum of the blocks");
    px += dx;
    Blk b3;
    b3.code("G", 80);
    sym_assert(c.run(b3), "the end of the cycle is accepted");
    sym_assert(c.pr().work_motion == 0 && c.pr().fast_motion == 0, "the end of a cycle is not a motion");
    if (!g98) { sym_reach("G99"); return; }
    sym_reach(incr ? "G91" : "G90");
    Blk b4;
    b4.code("G", 90);
    b4.code("G", 0);
    double x4 = put(b4, ax[0], quarters("last", 2800, 3600));
    if (!qparam && sym_flag("level")) put(b4, ax[2], z0);
    sym_assert(c.run(b4), "a move is accepted");
    dx = x4 - px;
    sym_assert(near(c.pr().fast_motion, dx), "a move after a cycle starts above the last hole at the initial level");
}
HARNESS(drill_simple, 1)
{
    static const int C[] = {81, 84, 82, 85, 86, 88, 89, 74};
    drill(C, 8, false);
}
HARNESS(drill_q, 1)
{
    static const int C[] = {83, 73, 76, 87};
    drill(C, 4, true);
}
// ---- repetitions, a second cycle without G80, missing words
HARNESS(drill_repeat, 1)
{
    Opt o = popt();
    bool g98 = sym_flag("return");
    int kmode = sym_choice("repeat", 4);
    o.points.machine_base_point = {{"X", 0}, {"Y", 0}, {"Z", 250}};
    Calc c(o);
    double r = quarters("above", 1, 200), d = quarters("depth", 1, 800), t = quarters("step", 1, 80);
    Blk b;
    b.code("G", 91);
    b.code("G", g98 ? 98 : 99);
    b.code("G", 81);
    put(b, "X", 3 * t);
    put(b, "Y", 4 * t);
    put(b, "Z", -d);
    put(b, "R", -r);
    static const int K[] = {-1, 0, 1, 3};
    int k = K[kmode];
    if (k >= 0) b.code("K", k);
    b.code("F", 100);
    sym_assert(c.run(b), "a repeated cycle is accepted");
    Hole h = hole(81, true, g98, r, d, 0, 0);
    int n = k < 0 ? 1 : k;
    if (n == 0) {
        sym_assert(c.pr().work_motion == 0, "K0 does not drill");
        sym_assert(near(c.pr().fast_motion, 5 * t), "K0 moves to the position");
        n = 1;
        sym_reach("none");
    }
    else {
        sym_assert(near(c.pr().work_motion, n * h.work), "a cycle is worked as often as K says");
        sym_assert(near(c.pr().fast_motion, n * (h.rapid + 5 * t)), "every repetition moves by the distance and drills");
        sym_reach("repeated");
    }
    // the cycle goes on with another hole, in absolute coordinates
    Blk b2;
    double x = put(b2, "X", 3 * t * n + quarters("more", 1, 200));
    b2.code("G", 90);
    sym_assert(c.run(b2), "the next hole is accepted");
    sym_assert(near(c.pr().work_motion, h.work), "the hole of the cycle is drilled");
    sym_assert(near(c.pr().fast_motion, h.rapid + (x - 3 * t * n)), "the next hole is reached from the last repetition");
}
HARNESS(drill_again, 1)
{
    Opt o = popt();
    o.points.machine_base_point = {{"X", 0}, {"Y", 0}, {"Z", 500}};
    static const int C[] = {81, 84, 82, 85, 86, 88, 89, 74};
    Calc c(o);
    bool incr = sym_flag("incremental");
    double r1 = quarters("above", 1, 200), d1 = quarters("depth", 1, 800), r2 = quarters("above2", 1, 200), d2 = quarters("depth2", 1, 800);
    int g1 = C[sym_choice("cycle", 3)], how = sym_choice("then", 3), g2 = how == 2 ? g1 : C[sym_choice("cycle2", 8)];
    if (how != 2 && g2 == g1) return;
    Blk b, b2;
    b.code("G", incr ? 91 : 90);
    b.code("G", 98);
    b.code("G", g1);
    b.code("X", 10);
    put(b, "Z", incr ? -d1 : 500 - r1 - d1);
    put(b, "R", incr ? -r1 : 500 - r1);
    b.code("F", 100);
    sym_assert(c.run(b), "a cycle is accepted");
    Hole h = hole(g1, incr, true, r1, d1, 0, 0);
    sym_assert(near(c.pr().work_motion, h.work) && near(c.pr().fast_motion, h.rapid + 10), "a cycle");
    if (how == 1) {
        Blk z;
        z.code("G", 80);
        sym_assert(c.run(z), "the end of a cycle");
    }
    // another cycle, or the same with another depth
    if (how != 2 || sym_flag("code")) b2.code("G", g2);
    b2.code("X", incr ? 10 : 20);
    put(b2, "Z", incr ? -d2 : 500 - r2 - d2);
    put(b2, "R", incr ? -r2 : 500 - r2);
    sym_assert(c.run(b2), "another cycle is accepted");
    h = hole(g2, incr, true, r2, d2, 0, 0);
    sym_assert(near(c.pr().work_motion, h.work), "a block that states a cycle is worked as it states");
    sym_assert(near(c.pr().fast_motion, h.rapid + 10), "a block that states a cycle moves as it states");
    sym_reach(how == 2 ? "depth" : "cycle");
}
HARNESS(drill_missing, 1)
{
    static const int C[] = {81, 84, 82, 85, 86, 88, 89, 74, 83, 73, 76, 87};
    Opt o = popt();
    int ci = sym_choice("cycle", 12), plane = sym_choice("plane", 3);
    const char* const* ax = PLANE[plane];
    bool incr = sym_flag("incremental"), from[3], w[3];
    const char* W[] = {"R", "Q", ax[2]};
    for (int i = 0; i < 3; ++i) {
        from[i] = sym_flag("known");
        if (from[i]) o.points.machine_base_point[ax[i]] = 100;
        else o.points.machine_base_point.erase(ax[i]);
    }
    if (from[0] + from[1] + from[2] < 2) return;
    Calc c(o);
    Blk b;
    b.code("G", incr ? 91 : 90);
    if (plane) b.code("G", 17 + plane);
    b.code("G", C[ci]);
    put(b, ax[0], quarters("position", 0, 360));
    for (int i = 0; i < 3; ++i)
        if ((w[i] = sym_flag("word"))) put(b, W[i], i == 1 ? 2 : i ? 20 - 10 * incr : 50 - 60 * incr);
    b.code("F", 100);
    bool ok = c.run(b);
    bool need = w[0] && w[2] && (w[1] || ci < 8), known = from[0] && from[1] && from[2];
    sym_assert(ok == (need && known), "a cycle is accepted exactly when its words and the position before it are known");
    if (!ok) sym_assert(!c.msg.empty(), "a cycle that cannot be calculated is reported");
    sym_reach(ok ? "accepted" : !need ? "no word" : "no position");
}
