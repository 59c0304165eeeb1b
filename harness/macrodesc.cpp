// Descriptions of macro variables: which text belongs to which variable.
// UNITS: nclangsrv/MacrosDescReader.cpp nclangsrv/Logger.cpp
#include "stdafx.h"
#include "MacrosDescReader.h"
#include "sym.h"
#include <memory>

static std::unique_ptr<nclangsrv::MacrosDescReader> rd;
static std::string here(const char* f)
{
    std::string d = __FILE__;
    return d.substr(0, d.rfind('/')) + "/data/" + f;
}
static bool with_user;
static void setup(bool user)
{
    with_user = user;
    rd = std::make_unique<nclangsrv::MacrosDescReader>(here("macros.json"), user ? here("macros_user.json") : "", nullptr);
    sym_assert(rd->read(), "the descriptions are read");
}
static std::string title_of(long n)
{
    if (with_user) {
        if (n == 7) return "Seven";
        if (n == 100) return "User 100";
        if (n >= 500 && n <= 549) return "User 500";
    }
    if (n == 100) return "Base 100";
    if (n == 101) return "Base 101";
    if (n == 500) return "Base 500";
    if (n >= 1000 && n <= 1031) return "Inputs";
    if (n == 2100) return "One of the offsets";
    if ((n >= 2001 && n <= 2200) || (n >= 10001 && n <= 10999)) return "Offsets";
    if (n == 5001) return "End";
    return "";
}
static void ask()
{
    int len = 1 + sym_choice("digits", 6);
    std::string c = sym_bytes("n", len, '0', '9');
    sym_assume(len == 1 || c[0] != '0');
    long n = 0;
    for (char d : c) n = n * 10 + (d - '0');
    auto [title, desc] = rd->getDesc(c);
    std::string want = title_of(n);
    sym_note("'" + c + "' has '" + title + "' for '" + want + "'");
    sym_assert(title == want, "a variable has its description");
    sym_assert(desc.empty() == want.empty(), "a description has its text");
    sym_reach(want.empty() ? "none" : "described");
}
HARNESS_SETUP(desc_base, 0, [] { setup(false); }) { ask(); }
HARNESS_SETUP(desc_user, 0, [] { setup(true); }) { ask(); }
// what is not the number of a variable has no description and does no harm
HARNESS_SETUP(desc_any, 0, [] { setup(true); })
{
    int len = sym_choice("length", 6);
    std::string c = sym_bytes("n", len, 1, 127);
    bool digit = false;
    for (char x : c) digit = digit | ((x >= '0') & (x <= '9'));
    auto [title, desc] = rd->getDesc(c);
    if (!digit) { sym_assert(title.empty() && desc.empty(), "what has no number has no description"); sym_reach("none"); }
    else sym_reach("some");
}
