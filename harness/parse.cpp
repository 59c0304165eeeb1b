// UNITS: parser/*.cpp parser/fanuc/*.cpp
#include "common.h"

static std::unique_ptr<fn::AllAttributesParser> ap;
static void setup()
{
    ap = std::make_unique<fn::AllAttributesParser>(fn::FanucWordGrammar{base_words(), base_words()}, base_ops(),
        fn::code_groups_map{}, fn::code_groups_map{}, ParserSettings{true, true, false, false, false}, OtherSettings{ELanguage::English},
        EFanucParserType::FanucMill, true);
}
HARNESS_SETUP(text4, 0, setup)
{
    std::string s = sym_bytes("c", 4, 0, 255);
    fn::FanucAttributeData d;
    std::string msg;
    bool r = ap->parse(1, s, d, msg, true);
    sym_reach(r ? "accepted" : "rejected");
}
HARNESS_SETUP(text3, 0, setup)
{
    std::string s = sym_bytes("c", 3, 0, 255);
    fn::FanucAttributeData d;
    std::string msg;
    bool r = ap->parse(1, s, d, msg, true);
    sym_reach(r ? "accepted" : "rejected");
}
HARNESS_SETUP(textt, 0, setup)
{
    static const char* t[] = {"G1X?Y??", "#1=??", "X#1?", "X[1??]", "X[1+2]??", "#?=[1??]", "#1=2?3?", "B??", "D? F?", "S??", "IF[#?EQ?]?", "#3=SIN[?]?", "#1?#2", "(?", "/??", "O12? ?", "C2=??", "C2=[?]?", "G#?", "M#1??",
        "X-#?", "X-[?]", "##?=1", "#[?]=?", "#1=#?", "A1/?", "N?#?", "GOTO?", "X1.?", "[?]?", "WHILE[?]DO?", "#1=ABS[??", "#1=BIN[?]", "#1=1MOD?", "X[#1/?]", "%?", "X1?Y2?", "#1=-?", "#1=1.?"};
    std::string s = fill(t[sym_choice("template", sizeof t / sizeof *t)], 0, 255);
    fn::FanucAttributeData d;
    std::string msg;
    sym_note(s);
    ap->parse(1, s, d, msg, true);
    d.value.clear();
    std::string u = "#5=#1*2 X#1";   // what the first line left behind is used by the next
    msg.clear();
    bool r = ap->parse(2, u, d, msg, true);
    d.value.clear();
    r = ap->parse(2, s, d, msg, true);
    sym_reach(r ? "accepted" : "rejected");
}
