// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "path.h"

// ---------------------------------------------------------------- C24 arcs
// points of a circle of radius 5: exact coordinates
static const int P[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
// the angle of the arc from point a to point b, counter-clockwise
static double sweep(int a, int b)
{
    if (a == b) return 2 * M_PI;
    double t = std::atan2((double)P[b][1], (double)P[b][0]) - std::atan2((double)P[a][1], (double)P[a][0]);
    return t < 0 ? t + 2 * M_PI : t;
}
static const char* PLANE[][5] = {{"X", "Y", "I", "J", "Z"}, {"X", "Z", "I", "K", "Y"}, {"Y", "Z", "J", "K", "X"}};
// centre and a fifth of the radius; multiples of 1/4, where the positions have to be exact
static void place(double* c, double& s, bool exact)
{
    for (int k = 0; k < 2; ++k) c[k] = exact ? sym_int("centre", 1600, 2800) * .25 : sym_real("centre", 400, 700, 3);
    s = exact ? sym_int("size", 1, 160) * .25 : sym_real("size", .01, 40, 2);
}
static void put(Blk& b, const char* w, double v)
{
    if (v < 0) b.put(w, true, sym_numtext(-v, 3));
    else b.put(w, false, sym_numtext(v, 3));
}

HARNESS(arc_ij, 1)
{
    Opt o = popt();
    int plane = sym_choice("plane", 3), g = 2 + sym_choice("direction", 2), from = sym_choice("from", 12), to = sym_choice("to", 12);
    bool incr = sym_flag("incremental");
    const char* const* ax = PLANE[plane];
    double c[2], s, p[2], e[2];
    place(c, s, (to - from + 12) % 12 == 6);
    for (int k = 0; k < 2; ++k) {
        p[k] = c[k] + s * P[from][k];
        e[k] = c[k] + s * P[to][k];
        o.points.machine_base_point[ax[k]] = p[k];
    }
    Calc k(o);
    Blk b;
    b.code("G", 17 + plane);
    b.code("G", incr ? 91 : 90);
    b.code("G", g);
    for (int i = 0; i < 2; ++i) put(b, ax[i], incr ? e[i] - p[i] : e[i]);
    for (int i = 0; i < 2; ++i) put(b, ax[2 + i], s * -P[from][i]);
    b.code("F", 100);
    bool ok = k.run(b);
    sym_assert(ok, "an arc from a known position is accepted");
    bool ccw = (g == 3) != (plane == 1);     // G18 is the ZX plane
    double a = ccw ? sweep(from, to) : from == to ? 2 * M_PI : 2 * M_PI - sweep(from, to);
    bool quadrant = P[from][0] * P[to][0] > 0 && P[from][1] * P[to][1] > 0;
    double l = k.pr().work_motion, d = l - a * 5 * s;
    if (quadrant && from != to && a > M_PI) { sym_reach("KNOWN:arc-long-same-quadrant"); return; }
    sym_assert((d < 1e-3) & (d > -1e-3), "the path of an arc is its angle times its radius");
    sym_assert(k.pr().fast_motion == 0, "an arc is working motion");
    sym_assert(near(k.pr().total, l), "the total is the path of the block");
    sym_reach(a > 2 * M_PI - .001 ? "circle" : a > M_PI ? "long" : "short");
}
// the radius instead of the centre
HARNESS(arc_r, 1)
{
    Opt o = popt();
    int plane = sym_choice("plane", 3), g = 2 + sym_choice("direction", 2), from = sym_choice("from", 12), to = sym_choice("to", 12);
    bool incr = sym_flag("incremental"), neg = sym_flag("negative");
    if (from == to) return;
    const char* const* ax = PLANE[plane];
    double c[2], s, p[2], e[2];
    place(c, s, (to - from + 12) % 12 == 6);
    for (int k = 0; k < 2; ++k) {
        p[k] = c[k] + s * P[from][k];
        e[k] = c[k] + s * P[to][k];
        o.points.machine_base_point[ax[k]] = p[k];
    }
    Calc k(o);
    Blk b;
    b.code("G", incr ? 91 : 90);
    b.code("G", g);
    put(b, "R", neg ? s * -5 : s * 5);
    for (int i = 1; i >= 0; --i) put(b, ax[i], incr ? e[i] - p[i] : e[i]);
    b.code("G", 17 + plane);
    b.code("F", 100);
    sym_assert(k.run(b), "an arc from a known position is accepted");
    double a = sweep(from, to), l = k.pr().work_motion;
    if ((a > M_PI) != neg) a = 2 * M_PI - a;
    double d = l - a * 5 * s;
    sym_assert((d < 1e-3) & (d > -1e-3), "the path of an arc given by its radius: the one up to 180 degrees, or the other one when R is negative");
    sym_assert(k.pr().fast_motion == 0, "an arc is working motion");
    sym_reach(a > M_PI ? "long" : "short");
}
// an arc or a line, then another arc, then a line: modal codes and positions
HARNESS(arc_chain, 1)
{
    Opt o = popt();
    bool lathe = sym_flag("lathe"), half = lathe && sym_flag("radius");
    if (lathe) { o.tool_type = EMachineToolType::Lathe; o.def.default_work_plane = EWorkPlane::XZ; o.kin.diameter_programming_2x = !half; }
    int plane = lathe ? 1 : sym_choice("plane", 3);
    const char* const* ax = PLANE[plane];
    double f = half ? 2 : 1;     // X counts half
    double p[2] = {sym_real("from_1", 400, 700, 3), sym_real("from_2", 400, 700, 3)}, s = lathe ? .05 : 2.25;
    o.points.machine_base_point[ax[0]] = f * p[0];
    o.points.machine_base_point[ax[1]] = p[1];
    double h = 7;
    o.points.machine_base_point[ax[4]] = h;
    Calc k(o);
    double total = 0;
    bool incr = false;
    // from the point on the circle to the point on the circle, the direction, with R or with the centre
    static const struct { int a, b, g; bool r; } arcs[] = {{1, 4, 3, false}, {4, 1, 2, false}, {0, 3, 3, true}, {9, 7, 3, false}, {7, 2, 2, false}, {8, 10, 3, true}};
    int mg = 0;
    for (int i = 0; i < 2; ++i) {
        auto& r = arcs[i ? sym_choice("arc", 3) : 2 * sym_choice("arc", 3) + plane % 2];
        int g = plane == 1 ? 5 - r.g : r.g;
        Blk b;
        if (i == 0) { if (!lathe && plane) b.code("G", 17 + plane); b.code("F", 100); }
        if (i ? sym_flag("switch") : plane == 1) { incr = !incr; b.code("G", incr ? 91 : 90); }
        if (g != mg || plane == 0) b.code("G", g);
        mg = g;
        double e[2];
        for (int j = 0; j < 2; ++j) {
            e[j] = p[j] + s * (P[r.b][j] - P[r.a][j]);
            put(b, ax[j], (j ? 1 : f) * (incr ? e[j] - p[j] : e[j]));
        }
        if (r.r) put(b, "R", s * 5);
        else for (int j = 0; j < 2; ++j) put(b, ax[2 + j], (j ? 1 : f) * s * -P[r.a][j]);
        sym_assert(k.run(b), "an arc from a known position is accepted");
        double a = sweep(r.a, r.b), l = k.pr().work_motion, d;
        if (r.g == 2) a = 2 * M_PI - a;
        d = l - a * 5 * s;
        sym_assert((d < 1e-3) & (d > -1e-3), "the path of an arc is its angle times its radius, from the end of the block before");
        total += l;
        sym_assert(near(k.pr().total, total), "the total is the sum of the blocks");
        p[0] = e[0]; p[1] = e[1];
    }
    Blk b;
    b.code("G", 1);
    if (incr) b.code("G", 90);
    double z = b.num(ax[4], 8, 500), x = b.num(ax[0], 0, 100), y = b.num(ax[1], 950, 999);
    sym_assert(k.run(b), "a line is accepted");
    double v[3] = {x / f - p[0], y - p[1], z - h};
    sym_assert(is_length(k.pr().work_motion, v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), "a line after an arc starts at its end");
    sym_reach(half ? "radius" : lathe ? "lathe" : incr ? "incremental" : "absolute");
}
// full turns and quarter turns with the third axis
HARNESS(helix, 1)
{
    Opt o = popt();
    int plane = sym_choice("plane", 3), g = 2 + sym_choice("direction", 2), form = sym_choice("form", 2), from = "\1\5\10\12"[sym_choice("from", 4)];
    bool incr = sym_flag("incremental"), quarter = sym_flag("quarter");
    const char* const* ax = PLANE[plane];
    double c[2], s, p[2], z = sym_real("from_3", 300, 500, 3);
    place(c, s, true);
    for (int k = 0; k < 2; ++k) {
        p[k] = c[k] + s * P[from][k];
        o.points.machine_base_point[ax[k]] = p[k];
    }
    o.points.machine_base_point[ax[4]] = z;
    Calc k(o);
    double total = 0;
    int pos = from;
    for (int i = 0; i < 2; ++i) {
        Blk b;
        if (!i) { b.code("G", 17 + plane); b.code("G", incr ? 91 : 90); b.code("G", g); b.code("F", 50); }
        bool ccw = (g == 3) != (plane == 1);
        int to = quarter ? (pos + (ccw ? 3 : 9)) % 12 : pos;
        double dz = i ? sym_real("rise", 101, 200, 3) : sym_real("rise", 1, 100, 3);
        if (i != incr) dz = -dz;
        for (int j = 0; j < 2; ++j) put(b, ax[j], incr ? s * (P[to][j] - P[pos][j]) : c[j] + s * P[to][j]);
        put(b, ax[4], incr ? dz : z + dz);
        if (form) put(b, "R", s * 5);
        else {
            for (int j = 0; j < 2; ++j) put(b, ax[2 + j], s * -P[pos][j]);
            put(b, plane == 0 ? "K" : plane == 1 ? "J" : "I", quarter ? dz * 4 : dz);
        }
        sym_assert(k.run(b), "a helix from a known position is accepted");
        double l = k.pr().work_motion, part = quarter ? .25 : 1, t = part * 2 * M_PI * 5 * s, d = l * l - (t * t + dz * dz);
        sym_assert(l >= 0, "a path is not negative");
        // the known finding: the rise counts as if it were a radius
        double w = 2 * M_PI * part, h = quarter ? 4 * dz : dz, kd = l * l - w * w * (25 * s * s + h * h);
        if ((kd < 1e-2) & (kd > -1e-2)) sym_reach("KNOWN:helix-rise");
        else sym_assert((d < 1e-2) & (d > -1e-2), "the path of a helix follows its turn and its rise");
        z += dz;
        total += l;
        sym_assert(near(k.pr().total, total), "the total is the sum of the blocks");
        pos = to;
    }
    sym_reach(quarter ? "quarter" : "full");
    Blk b;
    b.code("G", 0);
    b.code("G", 90);
    double v[3] = {b.num(ax[0], 0, 100), b.num(ax[1], 950, 999), b.num(ax[4], 900, 999)};
    sym_assert(k.run(b), "a move is accepted");
    double x = v[0] - c[0] - s * P[pos][0], y = v[1] - c[1] - s * P[pos][1], h = v[2] - z;
    sym_assert(is_length(k.pr().fast_motion, x * x + y * y + h * h), "a move after a helix starts at its end");
}
// words that are missing
HARNESS(arc_missing, 1)
{
    Opt o = popt();
    int plane = sym_choice("plane", 3), g = 2 + sym_choice("direction", 2), have = sym_choice("have", 8), known = sym_choice("known", 4);
    const char* const* ax = PLANE[plane];
    o.points.machine_base_point.clear();
    for (int j = 0; j < 2; ++j) if (known >> j & 1) o.points.machine_base_point[ax[j]] = 0;
    Calc k(o);
    Blk b;
    b.code("G", 17 + plane);
    b.code("G", g);
    b.num(ax[0], 11, 50);
    for (int j = 0; j < 2; ++j) if (have >> j & 1) b.code(ax[2 + j], 3 + j);
    if (have & 4) b.code("R", 500);
    b.code("F", 10);
    bool ok = k.run(b);
    bool centre = (have & 3) == 3 || have & 4;
    sym_assert(ok == (known == 3 && centre), "an arc needs the position it starts at, and a centre or a radius");
    if (known != 3) { const char* w = known & 1 ? ax[1] : ax[0]; sym_assert(k.msg.find(w) != std::string::npos, "the message names the axis"); sym_reach("no position"); }
    else if (!centre) {
        sym_assert(k.msg.find(ax[2]) != std::string::npos && k.msg.find(ax[3]) != std::string::npos, "the message names the words");
        sym_reach("no centre");
    }
    else sym_reach("accepted");
    if (!ok) sym_assert(k.pr().total == 0, "a rejected block has no path");
}
