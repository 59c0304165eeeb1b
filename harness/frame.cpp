// The language server as a program: standard input to standard output.
// UNITS: parser/*.cpp parser/fanuc/*.cpp parser/heidenhain/*.cpp nclangsrv/*.cpp
// LIBS: -lboost_program_options
#define main server_main
#include "nclangsrv.cpp"
#undef main
#include "sym.h"
#include <csignal>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <memory>
#include <sstream>

static std::string q1(const std::string& s) { return "\"" + s + "\""; }
static std::string request(int id) { return "{\"jsonrpc\":\"2.0\",\"id\":" + std::to_string(id) + ",\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":\"u\"},\"position\":{\"line\":0,\"character\":0}}}"; }
static const char* exiting = "{\"jsonrpc\":\"2.0\",\"method\":\"exit\",\"params\":null}";

// a server that does not end with its input (a message takes some milliseconds)
static void hangs(int) { sym_assert(false, "the server ends with its input"); _exit(1); }
// what the server writes, given what it reads
static bool ran;
static std::string serve(const std::string& in)
{
    std::istringstream is(in);
    std::ostringstream os;
    auto *oi = std::cin.rdbuf(is.rdbuf()), *oo = std::cout.rdbuf(os.rdbuf());
    std::cin.clear();
    char name[] = "/verif/none/server";
    char* argv[] = {name, nullptr};
    ran = true;
    signal(SIGALRM, hangs);
    alarm(20);
    try { server_main(1, argv); }
    catch (...) { ran = false; }
    alarm(0);
    std::cin.clear();
    std::cin.rdbuf(oi);
    std::cout.rdbuf(oo);
    return os.str();
}
static void warm() { std::string b = request(1); serve("Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b + "Content-Length: " + std::to_string(strlen(exiting)) + "\r\n\r\n" + exiting); }
static std::string count(const std::string& body) { return std::to_string(body.size()); }

// the answers, in order
static void check_answers(const std::string& out, const std::vector<int>& want)
{
    sym_assert(ran, "the server ends without an exception");
    std::vector<int> got;
    for (size_t at = 0; (at = out.find("\"id\":", at)) != std::string::npos;) { at += 5; got.push_back(atoi(out.c_str() + at)); }
    std::string t;
    for (int i : got) t += " " + std::to_string(i);
    sym_note("answered:" + t);
    sym_assert(got == want, "every request is answered once and in order");
}
static std::string head(const std::string& body, const std::string& tag)
{
    std::string len = "Content-Length:";
    switch (sym_choice(("blanks" + tag).c_str(), 3)) { case 1: len += " "; break; case 2: len += "  "; break; }
    len += count(body) + "\r\n";
    std::string type = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
    switch (sym_choice(("fields" + tag).c_str(), 4)) {
    case 0: return len + "\r\n";
    case 1: return type + len + "\r\n";
    case 2: return len + type + "\r\n";
    default: return "Xy: Content-Length: 3\r\n" + len + "\r\n";
    }
}
// messages with any header fields, then the end of the input
HARNESS_SETUP(frame_fields, 0, warm)
{
    std::string in;
    std::vector<int> want;
    int n = sym_choice("messages", 3) + 1;
    for (int i = 0; i < n; ++i) {
        std::string b = request(10 + i);
        in += head(b, std::to_string(i)) + b;
        want.push_back(10 + i);
    }
    check_answers(serve(in), want);
    sym_reach("answered");
}
// a header field with any text before or after the length
HARNESS_SETUP(frame_text, 0, warm)
{
    std::string b = request(10), name = sym_bytes("f", 4, 0x21, 0x7e), text = sym_bytes("t", 5, 0x20, 0x7e);
    for (char c : name) sym_assume(c != ':');
    std::string field = name + ":" + text + "\r\n", len = "Content-Length: " + count(b) + "\r\n";
    std::string in = sym_flag("after") ? len + field : field + len;
    std::string c = request(11);
    check_answers(serve(in + "\r\n" + b + "Content-Length: " + count(c) + "\r\n\r\n" + c), {10, 11});
    sym_reach("answered");
}
// the text of a message is any text: what looks like a header in it is not one
HARNESS_SETUP(frame_body, 0, warm)
{
    static const char* t[] = {"\r\nContent-Length: 3\r\n\r\n", "\n", "", "Content-Length: 9\n\n", "\r\n\r\n{\"id\":99}"};
    std::string b = request(10);
    int k = sym_choice("inside", 5), where = sym_choice("where", 3);
    if (where == 0) b.insert(1, k == 4 ? "\r\n\r\n" : k == 2 ? "" : k == 1 ? "\n" : "\r\n\r\n\t ");
    else if (where == 1) b = "{" + q1("x") + ":" + q1(std::string("Content-Length: 7 ")) + "," + b.substr(1);
    else b += k == 1 ? "\n" : k == 3 ? "\r\n" : "";
    std::string c = request(11), bad = t[k];
    std::string in = "Content-Length: " + count(b) + "\r\n\r\n" + b;
    if (!bad.empty()) in += "Content-Length: " + count(bad) + "\r\n\r\n" + bad;
    in += "Content-Length: " + count(c) + "\r\n\r\n" + c;
    std::vector<int> want = {10};
    std::string out = serve(in);
    want.push_back(11);
    check_answers(out, want);
    sym_reach("answered");
}
// the input ends anywhere: what is whole is answered, and the server ends
HARNESS_SETUP(frame_end, 0, warm)
{
    std::string b = request(10), c = request(11);
    std::string first = "Content-Length: " + count(b) + "\r\n\r\n" + b, second = "Content-Length: " + count(c) + "\r\n\r\n" + c;
    std::string in = first + second;
    size_t cut = sym_choice("cut", (int)in.size() + 1);
    std::vector<int> want;
    if (cut >= first.size()) want.push_back(10);
    if (cut >= in.size()) want.push_back(11);
    check_answers(serve(in.substr(0, cut)), want);
    sym_reach(want.empty() ? "none" : want.size() == 1 ? "one" : "both");
}
// after "exit" nothing is answered
HARNESS_SETUP(frame_exit, 0, warm)
{
    std::string in;
    std::vector<int> want;
    bool over = false;
    for (int i = 0; i < 3; ++i) {
        bool e = sym_flag("exit");
        std::string b = e ? exiting : request(10 + i);
        in += (i == 1 ? head(b, "1") : "Content-Length: " + count(b) + "\r\n\r\n") + b;
        over = over || e;
        if (!over) want.push_back(10 + i);
    }
    check_answers(serve(in), want);
    sym_reach(over ? "exit" : "answered");
}
