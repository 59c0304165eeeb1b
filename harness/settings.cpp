// Settings: the texts of their values, and the file they are read from.
// UNITS: parser/*.cpp parser/fanuc/AllAttributesParserDefines.cpp nclangsrv/NCSettingsReader.cpp nclangsrv/Logger.cpp
#include "stdafx.h"
#include "GeneralParserDefines.h"
#include "AllAttributesParserDefines.h"
#include "NCSettingsReader.h"
#include "sym.h"
#include <cstdio>
#include <memory>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <vector>

using namespace parser;

// ---------------------------------------------------------------- texts of enumerations
template <class E> static bool read_as(const std::string& s, E& e)
{
    std::istringstream in(s);
    try { in >> e; }
    catch (const std::invalid_argument&) { return false; }
    return true;
}
template <class E> static std::string text_of(E e)
{
    std::ostringstream o;
    o << e;
    return o.str();
}
// every value is written as a text that is read as the same value
template <class E> static void round(int n, std::vector<E> all = {})
{
    int i = all.empty() ? sym_int("value", 0, n - 1) : sym_choice("value", (int)all.size()), v = all.empty() ? i : (int)all[i];
    E e = static_cast<E>(v), back = all.empty() ? static_cast<E>((v + 1) % n) : all[(i + 1) % all.size()];
    std::string t = text_of(e);
    sym_assert(!t.empty(), "a value has a text");
    bool ok = read_as(t, back);
    sym_note("'" + t + "' is read as " + (ok ? std::to_string((int)back) : "nothing"));
    sym_assert(ok && (int)back == v, "the text of a value is read as this value");
}
HARNESS(enum_round, 0)
{
    switch (sym_choice("type", 15)) {
    case 0: round<ECncType>(5); break;
    case 1: round<EFanucParserType>(11); break;
    case 2: round<EMachineToolType>(3); break;
    case 3: round<EMachineTool>(23); break;
    case 4: round<ELanguage>(2); break;
    case 5: round<EMotion>(2, {EMotion::RapidTraverse, EMotion::LinearInterpolation}); break;
    case 6: round<EWorkPlane>(3, {EWorkPlane::XY, EWorkPlane::XZ, EWorkPlane::YZ}); break;
    case 7: round<EDriverUnits>(2, {EDriverUnits::Millimeter, EDriverUnits::Inch}); break;
    case 8: round<EFeedMode>(2, {EFeedMode::PerMinute, EFeedMode::PerRevolution}); break;
    case 9: round<ERotationDirection>(3, {ERotationDirection::Right, ERotationDirection::Left, ERotationDirection::Stop}); break;
    case 10: round<EProgrammingType>(2, {EProgrammingType::Absolute, EProgrammingType::Incremental}); break;
    case 11: round<EDepthProgrammingType>(2); break;
    case 12: round<EDrillGreturnMode>(2, {EDrillGreturnMode::G98, EDrillGreturnMode::G99}); break;
    case 13: round<UnitConversionType>(2); break;
    case 14: round<AxesRotatingOption>(9); break;
    }
    sym_reach("value");
}
HARNESS(enum_words, 0) { round<fanuc::WordType>(9); sym_reach("value"); }
// a text is read only as the value it is the text of
template <class E> static void only(const std::string& s, const std::vector<std::pair<const char*, int>>& also = {})
{
    E e{};
    if (!read_as(s, e)) { sym_reach("no"); return; }
    std::string t = text_of(e);
    bool ok = t == s;
    for (auto& [x, v] : also) ok = ok | ((s == x) & ((int)e == v));
    sym_note("'" + s + "' is read as '" + t + "'");
    sym_assert(ok, "a text is read as the value with this text");
    sym_reach("yes");
}
static std::string any_text(std::vector<const char*> near)
{
    int k = sym_choice("near", (int)near.size() + 1);
    if (k == (int)near.size()) return sym_bytes("c", sym_choice("length", 5) + 1, 33, 126);
    std::string s = near[k];
    size_t at = sym_choice("at", (int)s.size());
    s[at] = sym_byte("c", 33, 126);
    return s;
}
HARNESS(enum_text, 0)
{
    const int R = (int)ERotationDirection::Right, L = (int)ERotationDirection::Left, S = (int)ERotationDirection::Stop;
    switch (sym_choice("type", 12)) {
    case 0: only<EFanucParserType>(any_text({"fanuc_lathe_system_a", "fanuc_millturn_system_a", "fanuc_mill", "haas_lathe", "makino_mill", "generic_mill", "haas_mill", "generic_lathe"})); break;
    case 1: only<EMachineToolType>(any_text({"mill", "lathe", "millturn"})); break;
    case 2: only<EMachineTool>(any_text({"mill_3axis", "lathe_zx", "lathe_zxc", "mill-turn_XYZBC_C2"})); break;
    case 3: only<EMotion>(any_text({"rapid_traverse", "linear_interpolation"})); break;
    case 4: only<EWorkPlane>(any_text({"XY"})); break;
    case 5: only<EDriverUnits>(any_text({"millimeter", "inch"})); break;
    case 6: only<EFeedMode>(any_text({"feed_per_minute", "feed_per_revolution"})); break;
    case 7: only<ERotationDirection>(any_text({"right", "left", "M03", "CLW"}), {{"right", R}, {"M03", R}, {"CLW", R}, {"left", L}, {"M04", L}, {"CCLW", L}, {"stop", S}, {"M05", S}}); break;
    case 8: only<EProgrammingType>(any_text({"absolute", "incremental"})); break;
    case 9: only<EDrillGreturnMode>(any_text({"beginning", "point_r"})); break;
    case 10: only<AxesRotatingOption>(any_text({"X90", "Y180"})); break;
    case 11: only<fanuc::WordType>(any_text({"misc", "angle", "code", "length"})); break;
    }
}

// ---------------------------------------------------------------- the file
struct File {
    std::string path;
    explicit File(const std::string& text)
    {
        path = "/tmp/ncsetting-" + std::to_string(getpid()) + ".json";
        std::ofstream(path) << text;
    }
    ~File() { unlink(path.c_str()); }
};
struct Key { const char* group; const char* name; std::string value; };
static std::string file_of(const std::vector<Key>& keys, int without)
{
    std::string s = "{", group;
    bool first = true;
    for (int i = 0; i < (int)keys.size(); ++i) {
        auto& k = keys[i];
        if (group != k.group) {
            if (!group.empty()) s += "}";
            group = k.group;
            if (!first) s += ",";
            first = true;
            if (!group.empty()) s += "\"" + group + "\":{";
        }
        if (i == without) continue;
        if (!first) s += ",";
        first = false;
        s += "\"" + std::string(k.name) + "\":" + k.value;
    }
    return s + (group.empty() ? "}" : "}}");
}
static std::string str(const std::string& s) { return "\"" + s + "\""; }
static std::vector<Key> keys(bool alt, const std::string& tool)
{
    auto f = [&](bool x) { return std::string(x != alt ? "true" : "false"); };
    auto n = [&](double x) { std::ostringstream o; o << (alt ? -x : x); return o.str(); };
    auto i = [&](int x) { return std::to_string(alt ? x + 100 : x); };
    std::string points = "{\"tool_exchange_point\":{\"X\":" + n(1.5) + ",\"Y\":" + n(2) + ",\"Z\":" + n(3) + "},\"machine_base_point\":{\"X\":" + n(4) + ",\"Y\":" + n(5) + ",\"Z\":" + n(6) + ",\"I\":" + n(7) + "}}";
    return {
        {"", "machine_tool", str(tool)}, {"", "machine_tool_type", str(alt ? "lathe" : "millturn")}, {"", "driver", str(alt ? "haas_lathe" : "generic_mill")}, {"", "machine_points_data", points},
        {"kinematics", "cartesian_system_axis", "{\"X\":{\"range_min\":" + n(-10) + ",\"range_max\":" + n(11) + "},\"B\":{\"range_min\":" + n(-12) + ",\"range_max\":" + n(13.25) + "}}"},
        {"kinematics", "max_working_feed", n(21)}, {"kinematics", "max_fast_feed", n(22)}, {"kinematics", "maximum_spindle_speed", i(23)}, {"kinematics", "numer_of_items_in_the_warehouse", i(24)},
        {"kinematics", "tool_exchange_time", i(25)}, {"kinematics", "pallet_exchange_time", i(26)}, {"kinematics", "tool_measurement_time", i(27)}, {"kinematics", "diameter_programming_2x", f(true)},
        {"kinematics", "auto_measure_after_tool_selection", f(false)}, {"kinematics", "pallet_exchange_code", str(alt ? "M" : "")}, {"kinematics", "pallet_exchange_code_value", str("60")},
        {"kinematics", "tool_measurement_code", str("O")}, {"kinematics", "tool_measurement_code_value", str(alt ? "" : "71")},
        {"cnc_default_values", "default_motion", str(alt ? "linear_interpolation" : "rapid_traverse")}, {"cnc_default_values", "default_work_plane", str(alt ? "YZ" : "XZ")},
        {"cnc_default_values", "default_driver_units", str(alt ? "inch" : "millimeter")}, {"cnc_default_values", "default_programming", str(alt ? "incremental" : "absolute")},
        {"cnc_default_values", "default_feed_mode", str(alt ? "feed_per_minute" : "feed_per_revolution")}, {"cnc_default_values", "default_rotation_direction", str(alt ? "right" : "left")},
        {"cnc_default_values", "drill_cycle_z_value", str(alt ? "absolute" : "incremental")}, {"cnc_default_values", "drill_cycle_return_value", str(alt ? "beginning" : "point_r")},
        {"cnc_default_values", "default_rotation", i(31)}, {"cnc_default_values", "rapid_traverse_cancel_cycle", f(true)}, {"cnc_default_values", "linear_interpolation_cancel_cycle", f(false)},
        {"cnc_default_values", "circular_interpolation_cw_cancel_cycle", f(false)}, {"cnc_default_values", "circular_interpolation_ccw_cancel_cycle", f(true)},
        {"cnc_default_values", "cycle_cancel_starts_rapid_traverse", f(true)}, {"cnc_default_values", "operator_turns_on_rotation", f(false)},
        {"cnc_default_values", "tool_number_executes_exchange", f(true)}, {"cnc_default_values", "auto_rapid_traverse_after_tool_exchange", f(false)},
        {"zero_point", "X", n(41)}, {"zero_point", "Y", n(42)}, {"zero_point", "Z", n(43.5)},
    };
}
static void check(const nclangsrv::NCSettingsReader& r, bool alt, EMachineTool tool)
{
    double m = alt ? -1 : 1;
    int a = alt ? 100 : 0;
    auto p = r.getMachinePointsData();
    auto k = r.getKinematics();
    auto c = r.getCncDefaultValues();
    auto z = r.getZeroPoint();
    auto is = [](bool b, const char* what) { sym_note(what); sym_assert(b, "each setting has the value of the file"); };
    is(r.getMachineTool() == tool, "machine tool");
    is(r.getMachineToolType() == (alt ? EMachineToolType::Lathe : EMachineToolType::Millturn), "type of the machine");
    is(r.getFanucParserType() == (alt ? EFanucParserType::HaasLathe : EFanucParserType::GenericMill), "driver");
    using M = std::map<std::string, double>;
    is(p.tool_exchange_point == M{{"X", 1.5 * m}, {"Y", 2 * m}, {"Z", 3 * m}}, "tool exchange point");
    is(p.machine_base_point == M{{"X", 4 * m}, {"Y", 5 * m}, {"Z", 6 * m}, {"I", 7 * m}}, "machine base point");
    is(k.cartesian_system_axis.size() == 2 && k.cartesian_system_axis["X"].range_min == -10 * m && k.cartesian_system_axis["X"].range_max == 11 * m && k.cartesian_system_axis["B"].range_min == -12 * m && k.cartesian_system_axis["B"].range_max == 13.25 * m, "axes");
    is(k.max_working_feed == 21 * m && k.max_fast_feed == 22 * m, "feeds");
    is(k.maximum_spindle_speed == 23 + a && k.numer_of_items_in_the_warehouse == 24 + a, "limits");
    is(k.tool_exchange_time == 25 + a && k.pallet_exchange_time == 26 + a && k.tool_measurement_time == 27 + a, "times");
    is(k.diameter_programming_2x == !alt && k.auto_measure_after_tool_selection == alt, "diameter, measurement");
    is(k.pallet_exchange_code == (alt ? "M" : "") && k.pallet_exchange_code_value == "60", "pallet exchange");
    is(k.tool_measurement_code == "O" && k.tool_measurement_code_value == (alt ? "" : "71"), "tool measurement");
    is(c.default_motion == (alt ? EMotion::LinearInterpolation : EMotion::RapidTraverse), "motion");
    is(c.default_work_plane == (alt ? EWorkPlane::YZ : EWorkPlane::XZ), "plane");
    is(c.default_driver_units == (alt ? EDriverUnits::Inch : EDriverUnits::Millimeter), "units");
    is(c.default_programming == (alt ? EProgrammingType::Incremental : EProgrammingType::Absolute), "programming");
    is(c.default_feed_mode == (alt ? EFeedMode::PerMinute : EFeedMode::PerRevolution), "feed mode");
    is(c.default_rotation_direction == (alt ? ERotationDirection::Right : ERotationDirection::Left), "rotation");
    is(c.drill_cycle_z_value == (alt ? EDepthProgrammingType::Absolute : EDepthProgrammingType::Incremental), "depth");
    is(c.drill_cycle_return_value == (alt ? EDrillGreturnMode::G98 : EDrillGreturnMode::G99), "return");
    is(c.default_rotation == 31 + a, "rotation speed");
    is(c.rapid_traverse_cancel_cycle == !alt && c.linear_interpolation_cancel_cycle == alt && c.circular_interpolation_cw_cancel_cycle == alt && c.circular_interpolation_ccw_cancel_cycle == !alt, "cancelling");
    is(c.cycle_cancel_starts_rapid_traverse == !alt && c.operator_turns_on_rotation == alt && c.tool_number_executes_exchange == !alt && c.auto_rapid_traverse_after_tool_exchange == alt, "flags");
    is(z.x == 41 * m && z.y == 42 * m && z.z == 43.5 * m, "zero point");
}
// a whole file: every setting has its value
HARNESS(settings_whole, 0)
{
    bool alt = sym_flag("alt");
    auto tool = static_cast<EMachineTool>(sym_int("tool", 0, 22));
    File f(file_of(keys(alt, text_of(tool)), -1));
    nclangsrv::NCSettingsReader r(f.path, nullptr);
    bool ok = r.read();
    sym_assert(ok, "the file is read");
    if (!ok) return;
    check(r, alt, tool);
    // and once more: what was read stays
    sym_assert(r.read(), "the file is read");
    check(r, alt, tool);
    sym_reach("read");
}
// a file with a setting missing, of the wrong kind, or cut: it is not accepted, and what comes next is read whole
HARNESS(settings_part, 0)
{
    auto k = keys(false, "mill_3axis");
    int how = sym_choice("how", 3), at = sym_choice("setting", (int)k.size());
    std::string t;
    if (how == 0) t = file_of(k, at);
    else if (how == 1) { k[at].value = "{\"a\":1}"; t = file_of(k, -1); }
    else { t = file_of(k, -1); t.resize(t.size() * at / k.size()); }
    File f(t);
    nclangsrv::NCSettingsReader r(f.path, nullptr);
    bool ok = true, thrown = false;
    try { ok = r.read(); }
    catch (...) { thrown = true; }
    sym_note("without " + std::string(k[at].name) + (thrown ? " throws" : ok ? " accepted" : " not accepted"));
    sym_assert(!thrown, "no exception leaves the reading of settings");
    // (something with members in place of any text is an empty text)
    bool text = how == 1 && (std::string(k[at].name).find("_code") != std::string::npos);
    if (!text) sym_assert(!ok, "a file that does not tell every setting is not accepted");
    std::ofstream(f.path) << file_of(keys(true, "lathe_zx"), -1);
    if (!ok) { sym_assert(r.read(), "the file is read"); check(r, true, EMachineTool::lathe_zx); }
    sym_reach(ok ? "accepted" : "not accepted");
}
// no file
HARNESS(settings_none, 0)
{
    nclangsrv::NCSettingsReader r(sym_flag("empty") ? "" : "/verif/none/none.json", nullptr);
    bool ok = true;
    try { ok = r.read(); }
    catch (...) { ok = true; }
    sym_assert(!ok, "no file, no settings");
    sym_reach("none");
}
