// The language server: messages in, messages out.
// UNITS: parser/*.cpp parser/fanuc/*.cpp parser/heidenhain/*.cpp nclangsrv/*.cpp
#include "stdafx.h"
#include "JsonMessageHandler.h"
#include "NCSettingsReader.h"
#include "sym.h"
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>

using rapidjson::Value;
static std::string root()
{
    const char* r = getenv("VERIF_REPO");
    return r ? r : "/repo";
}

// ---- the server with its output caught
struct Server {
    nclangsrv::NCSettingsReader nc;
    nclangsrv::JsonMessageHandler handler;
    Server(bool path_time, const std::string& user = "") : nc("", nullptr), handler(nullptr, root(), nc, path_time, user) {}
    std::string send(const std::string& json)
    {
        std::ostringstream out;
        auto* old = std::cout.rdbuf(out.rdbuf());
        bool thrown = false;
        try { handler.parse(json); }
        catch (...) { thrown = true; }
        std::cout.rdbuf(old);
        sym_assert(!thrown, "no exception leaves the handler of a message");
        return out.str();
    }
};
static std::unique_ptr<Server> srv;

static std::string q(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else r += c;
    }
    return r + "\"";
}
static std::string opened(const std::string& text, const char* uri = "u") { return "{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":" + q(uri) + ",\"text\":" + q(text) + "}}}"; }
static std::string hover(const std::string& line, const std::string& character, const char* uri = "u") { return "{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":" + q(uri) + "},\"position\":{\"line\":" + line + ",\"character\":" + character + "}}}"; }

// the messages written: each with its length, each a JSON object
static std::vector<std::unique_ptr<rapidjson::Document>> bodies(const std::string& out)
{
    std::vector<std::unique_ptr<rapidjson::Document>> r;
    size_t at = 0;
    while (at < out.size()) {
        const std::string head = "Content-Length: ";
        bool ok = out.compare(at, head.size(), head) == 0;
        sym_assert(ok, "a message starts with its length");
        if (!ok) return r;
        at += head.size();
        size_t n = 0;
        while (at < out.size() && out[at] >= '0' && out[at] <= '9') n = n * 10 + (out[at++] - '0');
        ok = out.compare(at, 4, "\r\n\r\n") == 0;
        sym_assert(ok, "the header ends with an empty line");
        at += 4;
        sym_assert(at + n <= out.size(), "the length announced is the length written");
        if (!ok || at + n > out.size()) return r;
        auto d = std::make_unique<rapidjson::Document>();
        d->Parse(out.substr(at, n).c_str());
        sym_assert(!d->HasParseError() && d->IsObject(), "a message is a JSON object");
        if (d->HasParseError() || !d->IsObject()) return r;
        sym_assert(d->HasMember("jsonrpc"), "a message tells the protocol version");
        r.push_back(std::move(d));
        at += n;
    }
    return r;
}
static std::unique_ptr<rapidjson::Document> one(const std::string& out)
{
    auto b = bodies(out);
    sym_assert(b.size() == 1, "there is exactly one answer");
    if (b.size() != 1) return nullptr;
    return std::move(b[0]);
}

// ---------------------------------------------------------------- C36 any message
static const char* methods[] = {"initialize", "initialized", "workspace/didChangeConfiguration", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose",
    "textDocument/completion", "completionItem/resolve", "textDocument/hover", "textDocument/codeLens", "codeLens/resolve", "$/cancelRequest", "x"};
static bool is_request(int m) { return m == 0 || (m >= 6 && m <= 10); }
// The members of a message: at most one of them (the one numbered which) is missing or of any other type.
static int which, how, member;
static std::string mem(const char* key, const std::string& good)
{
    static const char* v[] = {"null", "true", "-1", "1.5", "\"\"", "[]", "{}", "[{}]"};
    std::string k = std::string("\"") + key + "\":";
    if (member++ != which) return k + good;
    return how == 0 ? "" : k + v[how - 1];
}
static std::string object(std::initializer_list<std::string> ms)
{
    std::string s;
    for (auto& x : ms) if (!x.empty()) s += (s.empty() ? "" : ",") + x;
    return "{" + s + "}";
}
static void total_setup()
{
    srv = std::make_unique<Server>(true);
    srv->send(opened("#1=5\nM3S1000F100\nG1X10\nG#1#2"));
    srv->send("{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"textDocument/completion\"}");
}
static void total_cold() { srv = std::make_unique<Server>(true); }
static void check_answer(const std::string& out, int m)
{
    if (!is_request(m)) {
        auto b = bodies(out);
        sym_assert(b.size() <= ((m == 3 || m == 4) ? 1 : 0), "a notification is not answered");
        for (auto& d : b) {
            sym_assert(d->HasMember("method") && std::string((*d)["method"].GetString()) == "textDocument/publishDiagnostics", "diagnostics are published");
            sym_assert(!d->HasMember("id"), "a notification has no id");
            sym_reach("published");
        }
        return;
    }
    auto d = one(out);
    if (!d) return;
    sym_assert(d->HasMember("id") && (*d)["id"].IsInt() && (*d)["id"].GetInt() == 7, "the answer has the id of the request");
    sym_assert(d->HasMember("result") != d->HasMember("error"), "the answer has a result or an error");
    sym_reach("answered");
}
static std::string params(int m)
{
    std::string td = mem("textDocument", object({mem("uri", "\"u\""), m == 3 ? mem("text", "\"G0X1\"") : ""}));
    switch (m) {
    case 4: return object({td, mem("contentChanges", "[" + object({mem("text", "\"G1\"")}) + "]")});
    case 7: return object({mem("label", "\"G1\""), mem("kind", "15"), mem("insertTextFormat", "2"), mem("data", "1")});
    case 8: return object({td, mem("position", object({mem("line", "0"), mem("character", "0")}))});
    case 10: return object({mem("range", object({mem("start", object({mem("line", "2"), mem("character", "0")})), mem("end", "{\"line\":2,\"character\":0}")}))});
    default: return object({td});
    }
}
static void total()
{
    int m = sym_choice("method", 13);
    which = sym_choice("which", 8);
    how = sym_choice("how", 9);
    member = 0;
    std::string out = srv->send(object({"\"jsonrpc\":\"2.0\"", "\"id\":7", "\"method\":" + q(methods[m]), mem("params", params(m))}));
    check_answer(out, m);
}
HARNESS_SETUP(msg_total, 0, total_setup) { total(); }
HARNESS_SETUP(msg_cold, 0, total_cold) { total(); }

// any text as a message
HARNESS_SETUP(msg_text, 0, total_setup)
{
    static const char* t[] = {"", "{\"id\":7,\"method\":\"textDocument/hover\",\"params\":", "{\"id\":7,\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":\"u\"},\"position\":{\"line\":", "{\"method\":", "{\"id\":7,\"method\":\"completionItem/resolve\",\"params\":{\"label\":\"#"};
    static const char* e[] = {"", "}", ",\"character\":1}}}", "}", "\"}}"};
    int c = sym_choice("text", 5);
    std::string out = srv->send(t[c] + sym_bytes("b", 4, 1, 127) + e[c]);
    auto b = bodies(out);
    sym_assert(b.size() <= 1, "there is at most one answer");
    if (b.size()) sym_reach("answered");
    else sym_reach("ignored");
}
// any id
HARNESS_SETUP(msg_id, 0, total_setup)
{
    static const int ms[] = {0, 8, 9};
    int m = ms[sym_choice("method", 3)];
    bool str = sym_flag("string");
    std::string id = str ? sym_bytes("s", 2, 'A', 'z') : "";
    if (str) for (char c : id) sym_assume(c != '\\');
    std::string digits = str ? "0" : sym_bytes("n", 2, '0', '9');
    if (!str) sym_assume(digits[0] != '0');
    int n = (digits[0] - '0') * 10 + (str ? 0 : digits[1] - '0');
    std::string out = srv->send("{\"method\":" + q(methods[m]) + ",\"id\":" + (str ? q(id) : digits) + ",\"params\":{\"textDocument\":{\"uri\":\"u\"},\"position\":{\"line\":2,\"character\":1},\"label\":\"M3\",\"range\":{\"start\":{\"line\":2}}}}");
    auto d = one(out);
    if (!d || !d->HasMember("id")) { sym_assert(false, "the answer has an id"); return; }
    auto& v = (*d)["id"];
    if (str) {
        sym_assert(v.IsString() && id == v.GetString(), "the answer has the id of the request");
        sym_reach("string");
    } else {
        sym_assert(v.IsInt() && v.GetInt() == n, "the answer has the id of the request");
        sym_reach("number");
    }
}

// ---------------------------------------------------------------- C35 hover
#include <fstream>
#include <map>
static std::map<std::string, std::string> gtitle, mtitle;
static void titles(const char* file, std::map<std::string, std::string>& t)
{
    std::ifstream f(root() + "/conf/fanuc_mill/desc/" + file);
    std::stringstream ss;
    ss << f.rdbuf();
    rapidjson::Document d;
    d.Parse(ss.str().c_str());
    if (d.HasParseError() || !d.IsObject()) return;
    for (auto& x : d["descriptions"].GetObject())
        for (auto& y : x.value.GetObject()) { t.emplace(x.name.GetString(), y.name.GetString()); break; }
}
static void hover_setup()
{
    titles("gcode_desc_en.json", gtitle);
    titles("mcode_desc_en.json", mtitle);
    srv = std::make_unique<Server>(false);
    srv->send(opened("G1X10", "v"));
    srv->send(hover("0", "0", "v"));
}
static bool dig(char c) { return c >= '0' && c <= '9'; }
// the code word at the position: from, to; empty if there is none
static std::string word_at(const std::string& l, size_t at, size_t& from, size_t& to)
{
    size_t i = 0;
    while (i < l.size()) {
        char c = l[i];
        size_t e = i + 1;
        if ((c == 'G' || c == 'g' || c == 'M' || c == 'm') && e < l.size() && dig(l[e])) {
            while (e < l.size() && dig(l[e])) ++e;
            if (e < l.size() && l[e] == '.') ++e;
            if (e < l.size() && dig(l[e])) ++e;
            if (at >= i && at < e) { from = i; to = e; return l.substr(i, e - i); }
        }
        i = e;
    }
    return "";
}
static int at_int(const Value& v, const char* a, const char* b) { return v["range"][a][b].GetInt(); }
static const Value* result_of(const std::unique_ptr<rapidjson::Document>& d)
{
    if (!d) return nullptr;
    bool ok = d->HasMember("result");
    sym_assert(ok, "the answer has a result");
    return ok ? &(*d)["result"] : nullptr;
}
static void check_range(const Value& r, int line, size_t from, size_t to)
{
    sym_assert(at_int(r, "start", "line") == line && at_int(r, "end", "line") == line, "the range is on the line asked for");
    sym_assert(at_int(r, "start", "character") == (int)from && at_int(r, "end", "character") == (int)to, "the range is the word");
}
static void hover_line(const std::string& line, int at)
{
    srv->send(opened("G0\n" + line));
    auto d = one(srv->send(hover("1", std::to_string(at))));
    auto* r = result_of(d);
    if (!r) return;
    size_t from = 0, to = 0;
    std::string w = word_at(line, at, from, to);
    if (w.empty()) {
        sym_assert(r->IsNull() || line.find('#') != std::string::npos, "nothing is told where no code stands");
        sym_reach("nothing");
        return;
    }
    sym_assert(r->IsObject() && r->HasMember("contents"), "the code is told");
    if (!r->IsObject() || !r->HasMember("contents")) return;
    check_range(*r, 1, from, to);
    std::string c = (*r)["contents"].GetString(), num = w.substr(1);
    while (num.size() > 1 && num[0] == '0') num = num.substr(1);
    auto& t = (w[0] == 'G' || w[0] == 'g') ? gtitle : mtitle;
    auto it = t.find(num);
    if (it != t.end()) {
        std::string head = "**" + w + ": " + it->second + "**";
        sym_assert(c.compare(0, head.size(), head) == 0, "the title is the one of the code");
        sym_reach("described");
    } else {
        sym_assert(c.compare(0, w.size(), w) == 0 || c.find(w) != std::string::npos, "the code is told");
        sym_reach("unknown");
    }
}
HARNESS_SETUP(hover_code, 0, hover_setup)
{
    static const char* t[] = {"G1 ???", "X1??5?", "??8?.1"};
    std::string l;
    for (const char* c = t[sym_choice("line", 3)]; *c; ++c) {
        if (*c != '?') { l += *c; continue; }
        static const char* set = "GM #1.";
        l += set[sym_choice(("c" + std::to_string(l.size())).c_str(), 6)];
    }
    hover_line(l, sym_choice("at", 7));
}
HARNESS_SETUP(hover_digits, 0, hover_setup)
{
    std::string l = "(";
    l += sym_flag("m") ? 'M' : 'G';
    l += sym_bytes("d", 2, '0', '9');
    if (sym_flag("dec")) { l += '.'; l += sym_bytes("e", 1, '0', '9'); }
    hover_line(l + ")", 2);
}

// variables: the value is the one of the last assignment at or above the line
HARNESS_SETUP(hover_macro, 0, hover_setup)
{
    // line 0, 1, 3 assign; every line also uses a variable
    std::string v = sym_bytes("v", 4, '1', '3'), u = sym_bytes("u", 2, '0', '9');
    int line = sym_choice("line", 5);
    std::string l[5] = {std::string("#90") + v[0] + "=5", std::string("#90") + v[1] + "=7", std::string("X0 #90") + v[2], std::string("#90") + v[1] + "=3.5", std::string("(#90") + v[3] + " #" + u + ")"};
    srv->send(opened(l[0] + "\n" + l[1] + "\n" + l[2] + "\n" + l[3] + "\n" + l[4]));
    size_t from = line == 2 ? 3 : line == 4 ? 1 : 0;
    auto d = one(srv->send(hover(std::to_string(line), std::to_string(from + 1))));
    auto* r = result_of(d);
    if (!r) return;
    std::string name = l[line].substr(from, 4);
    const char* value = nullptr;
    if (v[0] == name[3]) value = "5";
    if (line >= 1 && v[1] == name[3]) value = "7";
    if (line >= 3 && v[1] == name[3]) value = "3.5";
    sym_assert(r->IsObject() && r->HasMember("contents"), "the variable is told");
    if (!r->IsObject() || !r->HasMember("contents")) return;
    check_range(*r, line, from, from + 4);
    std::string c = (*r)["contents"].GetString();
    sym_note("contents '" + c + "'");
    sym_assert(c == name + " = " + (value ? value : "undefined"), "the value is the one of the last assignment at or above the line");
    sym_reach(value ? "defined" : "undefined");
}
// G#n and M#n: the code the variable stands for
HARNESS_SETUP(hover_macro_code, 0, hover_setup)
{
    std::string n = sym_bytes("n", 2, '0', '9'), v = sym_bytes("v", 2, '1', '3');
    bool m = sym_flag("m");
    sym_assume(n[0] != '0');
    std::string use = std::string(m ? "M" : "G") + "#90" + v[1];
    srv->send(opened(std::string("#90") + v[0] + "=" + n + "\n(" + use + ")"));
    auto d = one(srv->send(hover("1", "2")));
    auto* r = result_of(d);
    if (!r) return;
    if (v[0] != v[1]) {
        sym_assert(r->IsNull(), "nothing is told about a variable without a value");
        sym_reach("undefined");
        return;
    }
    sym_assert(r->IsObject() && r->HasMember("contents"), "the code is told");
    if (!r->IsObject() || !r->HasMember("contents")) return;
    check_range(*r, 1, 1, 6);
    std::string c = (*r)["contents"].GetString(), code = (m ? "M" : "G") + n;
    auto& t = m ? mtitle : gtitle;
    auto it = t.find(n);
    sym_note("contents '" + c + "'");
    if (it == t.end()) {
        sym_assert(c == use + " (" + code + ")", "the code is told");
        sym_reach("unknown");
    } else {
        std::string head = "**" + use + " (" + code + "): " + it->second + "**";
        sym_assert(c.compare(0, head.size(), head) == 0, "the title is the one of the code");
        sym_reach("described");
    }
}
// positions count UTF-16 code units
HARNESS_SETUP(hover_utf16, 0, hover_setup)
{
    static const char* ch[] = {"x", "\xc4\x85", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\t"};
    static const int units[] = {1, 1, 1, 2, 1};
    std::string l = "(";
    int p = 1;
    for (int i = 0; i < 3; ++i) {
        int k = sym_choice(("k" + std::to_string(i)).c_str(), 5);
        l += ch[k];
        p += units[k];
    }
    l += ")G90M8";
    int at = sym_choice("at", 12);
    srv->send(opened("G0\n" + l));
    auto d = one(srv->send(hover("1", std::to_string(at))));
    auto* r = result_of(d);
    if (!r) return;
    int g = p + 1, m = p + 4;
    bool on = at >= g && at < m + 2;
    sym_assert(r->IsObject() == on, "the code is told where it stands and only there");
    if (!r->IsObject() || !on) { sym_reach("nothing"); return; }
    sym_reach("code");
    if (at < m) check_range(*r, 1, g, g + 3);
    else check_range(*r, 1, m, m + 2);
    sym_assert(std::string((*r)["contents"].GetString()).find(at < m ? "G90" : "M8") != std::string::npos, "the code told is the one at the position");
}
// a line that does not exist, a number too large
HARNESS_SETUP(hover_odd, 0, total_setup)
{
    static const char* w[] = {"#", "G#", "M#", "G", "M"};
    int k = sym_choice("word", 5), n = (const int[]){0, 1, 10, 11}[sym_choice("digits", 4)], at = sym_choice("at", 4);
    std::string l = "(" + std::string(w[k]);
    for (int i = 0; i < n; ++i) l += i == 0 ? '9' : (char)sym_byte("d", '0', '9');
    srv->send(opened("#1=2\n" + l + ")"));
    auto d = one(srv->send(hover(sym_flag("line") ? "9" : "1", std::to_string(at))));
    auto* r = result_of(d);
    if (!r) return;
    sym_assert(r->IsNull() || (r->IsObject() && r->HasMember("contents") && r->HasMember("range")), "a hover has contents and range or is null");
    sym_reach(r->IsNull() ? "nothing" : "told");
}

// ---------------------------------------------------------------- C34 diagnostics
struct Diag { int line, from; std::string text; };
static void check_diags(const std::string& out, const std::vector<Diag>& want)
{
    auto d = one(out);
    if (!d) return;
    bool ok = d->HasMember("params") && (*d)["params"].HasMember("diagnostics") && (*d)["params"].HasMember("uri");
    sym_assert(ok, "diagnostics are published");
    if (!ok) return;
    auto& p = (*d)["params"];
    sym_assert(std::string(p["uri"].GetString()) == "u", "the diagnostics are those of the document");
    auto& a = p["diagnostics"];
    sym_assert(a.Size() == want.size(), "there is one diagnostic for every wrong line");
    for (auto& x : a.GetArray()) sym_note("diagnostic line " + std::to_string(at_int(x, "start", "line")) + " character " + std::to_string(at_int(x, "start", "character")) + " '" + x["message"].GetString() + "'");
    if (a.Size() != want.size()) return;
    for (size_t i = 0; i < want.size(); ++i) {
        auto& x = a[i];
        sym_assert(at_int(x, "start", "line") == want[i].line && at_int(x, "end", "line") == want[i].line, "the diagnostic is on the wrong line");
        sym_assert(at_int(x, "start", "character") == want[i].from, "the diagnostic stands where the error is");
        std::string t = x["message"].GetString();
        sym_assert(!t.empty(), "a diagnostic has a text");
        sym_assert(t == want[i].text, "the text of the diagnostic is the whole text");
        sym_reach("error");
    }
    if (want.empty()) sym_reach("clean");
}
static std::string trim(std::string s)
{
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}
static void diag_setup()
{
    srv = std::make_unique<Server>(true);
    srv->send(opened("G0X1", "v"));
}
HARNESS_SETUP(diag_lines, 0, diag_setup)
{
    static const char* ends[] = {"\n", "\r\n", " \t\r\n"};
    int above = sym_choice("above", 3);
    std::string text(above == 0 ? 0 : above == 1 ? 9 : 100, '\n');
    int line = (int)text.size();
    std::string end = ends[sym_choice("end", 3)];
    std::vector<Diag> want;
    for (int i = 0; i < 3; ++i, ++line) {
        switch (sym_choice(("kind" + std::to_string(i)).c_str(), 6)) {
        case 0: break;
        case 1: text += "(line 1: 1:2: X)"; break;
        case 2: text += "G0X1"; break;
        case 3: text += "X1 \t$ line 1: (12:3: )"; want.push_back({line, 4, "$ line 1: (12:3: )"}); break;
        case 4: text += "T99999"; want.push_back({line, 0, "Value [99999] not in range [0, 9999] for address [T]"}); break;
        case 5: text += "(\xc4\x85)X1 T99999"; want.push_back({line, 6, "T99999 <- Value [99999] not in range [0, 9999] for address [T]"}); break;
        }
        if (i < 2 || sym_flag("last")) text += end;
    }
    check_diags(srv->send(opened(text)), want);
}
// the rest of a wrong line: any text
HARNESS_SETUP(diag_text, 0, diag_setup)
{
    std::string rest = sym_bytes("r", 4, 0x20, 0x7e);
    sym_assume(rest[3] != ' ');
    for (char c : rest) sym_assume((c != '\\') & (c != '"'));
    check_diags(srv->send(opened("G0\nX1 $" + rest)), {{1, 3, "$" + rest}});
}

// ---------------------------------------------------------------- C33 path and time
static std::string lens(const char* uri = "u") { return "{\"jsonrpc\":\"2.0\",\"id\":8,\"method\":\"textDocument/codeLens\",\"params\":{\"textDocument\":{\"uri\":" + q(uri) + "}}}"; }
// the entry "name = value" of a text; false if it is not there
static bool entry(const std::string& t, const char* name, std::string& value)
{
    std::string key = std::string(" | ") + name + " = ";
    size_t at = t.find(key);
    if (at == std::string::npos) return false;
    size_t e = t.find(' ', at + key.size());
    value = t.substr(at + key.size(), e == std::string::npos ? e : e - at - key.size());
    return true;
}
// h:mm:ss.mmm or m:ss.mmm
static double seconds(const std::string& v)
{
    double s = 0;
    size_t at = 0, c;
    while ((c = v.find(':', at)) != std::string::npos) { s = (s + std::stoi(v.substr(at, c - at))) * 60; at = c + 1; }
    size_t dot = v.find('.', at);
    sym_assert(dot == at + 2 && v.size() == dot + 4, "seconds have two digits and three decimals");
    return s + std::stoi(v.substr(at, dot - at)) + std::stoi(v.substr(dot + 1)) / 1000.0;
}
struct Sums { double total = 0, time = 0, cut = 0, cut_time = 0, fast = 0, fast_time = 0, own_cut = 0, own_cut_time = 0, own_fast = 0, own_fast_time = 0; };
static void check_number(const std::string& t, const char* name, double v, bool shown, bool is_time)
{
    std::string x;
    bool has = entry(t, name, x);
    sym_note(std::string(name) + " '" + x + "' should be " + std::to_string(v));
    sym_assert(has == shown, "the text tells what there is to tell");
    if (!has || !shown) return;
    double y = is_time ? seconds(x) : std::strtod(x.c_str(), nullptr), d = y - v, tol = is_time ? 0.00051 : 0.00501;
    sym_assert((d <= tol) & (d >= -tol), "the number is the one calculated, rounded");
}
static void check_lens(const Value& x, int line, const Sums& s)
{
    sym_assert(at_int(x, "start", "line") == line, "the text stands at its line");
    std::string t = x["command"]["title"].GetString();
    sym_note("line " + std::to_string(line) + " '" + t + "'");
    check_number(t, "Total path", s.total, s.total >= 0.01, false);
    check_number(t, "Total time", s.time, s.time >= 0.01, true);
    check_number(t, "Total cut path", s.cut, s.own_cut >= 0.01, false);
    check_number(t, "Total cut time", s.cut_time, s.own_cut_time >= 0.01, true);
    check_number(t, "Total rapid path", s.fast, s.own_fast >= 0.01, false);
    check_number(t, "Total rapid time", s.fast_time, s.own_fast_time >= 0.01, true);
}
// any three lines of a program that cuts with F600 (10 a second) and has rapid motion of 20000
HARNESS_SETUP(lens_sums, 0, diag_setup)
{
    static const char* xs[] = {"0", "0.004", "0.006", "400", "-499.996"};
    static const double xv[] = {0, 0.004, 0.006, 400, -499.996};
    struct Row { int line; Sums s; bool cut, fast; };
    std::string text = "M3S1000\n\nG90G21F600\n";
    double at = 0;
    bool rapid = true;
    Sums s;
    std::vector<Row> want;
    for (int i = 0; i < 3; ++i) {
        int k = sym_choice(("line" + std::to_string(i)).c_str(), 5), v;
        if (k == 0) { text += "\n"; continue; }
        if (k == 1) text += "(X100 path = 5)";
        else {
            v = sym_choice(("x" + std::to_string(i)).c_str(), 5);
            if (k < 4) rapid = k == 2;
            text += k == 2 ? "G0X" : k == 3 ? "G1X" : "X";
            text += xs[v];
            double len = std::fabs(xv[v] - at), time = len * 60 / (rapid ? 20000 : 600);
            at = xv[v];
            s.total += len; s.time += time;
            (rapid ? s.fast : s.cut) += len; (rapid ? s.fast_time : s.cut_time) += time;
            s.own_fast = rapid ? len : 0; s.own_fast_time = rapid ? time : 0;
            s.own_cut = rapid ? 0 : len; s.own_cut_time = rapid ? 0 : time;
            if (len > 0 && s.total >= 0.01) { want.push_back({3 + i, s}); }
        }
        text += i == 1 ? "\r\n" : "\n";
    }
    srv->send(opened(text));
    auto d = one(srv->send(lens()));
    auto* r = result_of(d);
    if (!r) return;
    sym_assert(r->IsArray() || (r->IsNull() && want.empty()), "the answer is a list");
    if (!r->IsArray()) { sym_reach("still"); return; }
    sym_note(text);
    size_t n = 0;
    for (auto& x : r->GetArray()) {
        int line = at_int(x, "start", "line");
        while (n < want.size() && want[n].line < line) ++n;
        if (n == want.size() || want[n].line != line) { sym_assert(std::string(x["command"]["title"].GetString()).find('=') == std::string::npos, "only a line that moves has a text"); continue; }
        check_lens(x, want[n].line, want[n].s);
        want[n].line = -1;
    }
    for (auto& w : want) sym_assert(w.line < 0, "every line that moves has its text");
    sym_reach(want.empty() ? "still" : "lens");
}
