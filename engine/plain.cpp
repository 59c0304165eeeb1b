// Replay of one assignment against the ordinary (not instrumented) build: no solver, no shadow values.
// usage: BIN --harness=NAME --replay=FILE   FILE: lines "variable value(u64, doubles as bits)"
// exit 0: property held; 77: assumption not met; 10: assertion failed; 11: uncaught exception; else crash
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <map>
#include <sys/resource.h>
#include <typeinfo>
#include <unistd.h>
SymHarness*& SymHarness::head() { static SymHarness* h; return h; }
SymHarness::SymHarness(const char* n, void (*f)(), int r, void (*s)()) : name(n), fn(f), setup(s), real_mode(r), next(head()) { head() = this; }
static std::map<std::string, unsigned long long> in;
static std::map<std::string, int> seen;
// a name used again is name~1, name~2, ... like in the engine
static unsigned long long get(const char* n, unsigned long long d)
{
    int k = seen[n]++;
    auto i = in.find(k ? n + ("~" + std::to_string(k)) : n);
    return i == in.end() ? d : i->second;
}
extern "C" {
int sym_replaying(void) { return 1; }
uint8_t sym_byte(const char* n, unsigned lo, unsigned hi) { uint8_t v = get(n, lo); sym_assume(v >= lo && v <= hi); return v; }
int sym_int(const char* n, int lo, int hi) { int v = (int)get(n, (uint32_t)lo); sym_assume(v >= lo && v <= hi); return v; }
int64_t sym_i64(const char* n, int64_t lo, int64_t hi) { int64_t v = get(n, lo); sym_assume(v >= lo && v <= hi); return v; }
double sym_real(const char* n, double lo, double hi, int)
{
    double d0 = lo < 0 && hi > 0 ? 0 : lo, v;
    unsigned long long b;
    memcpy(&b, &d0, 8);
    b = get(n, b);
    memcpy(&v, &b, 8);
    sym_assume(lo <= v && v <= hi);
    return v;
}
int sym_choice(const char* n, int k) { int v = (int)get(n, 0); sym_assume(v >= 0 && v < k); return v; }
bool sym_flag(const char* n) { return get(n, 0); }
void sym_assume(bool c) { if (!c) { printf("ASSUMPTION NOT MET\n"); fflush(stdout); _exit(77); } }
void sym_assert_(bool c, const char* m) { if (!c) { printf("ASSERTION FAILED: %s\n", m); fflush(stdout); _exit(10); } }
void sym_reach(const char* l) { printf("REACH %s\n", l); if (!strncmp(l, "KNOWN:", 6)) { fflush(stdout); _exit(12); } }
void sym_note_(const char* t) { printf("NOTE %s\n", t); }
const char* sym_numtext_(double v, int d) { static char b[16][64]; static int i; char* r = b[i++ & 15]; snprintf(r, 64, "%.*f", d, v); return r; }
int sym_concrete_int(int v) { return v; }
}
int main(int argc, char** argv)
{
    const char *h = "", *f = "";
    for (int i = 1; i < argc; ++i) {
        if (!strncmp(argv[i], "--harness=", 10)) h = argv[i] + 10;
        if (!strncmp(argv[i], "--replay=", 9)) f = argv[i] + 9;
    }
    if (FILE* fp = fopen(f, "r")) {
        char n[64];
        unsigned long long v;
        while (fscanf(fp, "%63s %llu", n, &v) == 2) in[n] = v;
        fclose(fp);
    }
    rlimit rl{20, 22};
    setrlimit(RLIMIT_CPU, &rl);
    setbuf(stdout, nullptr);
    for (auto* x = SymHarness::head(); x; x = x->next)
        if (!strcmp(x->name, h)) {
            if (x->setup) x->setup();
            try { x->fn(); }
            catch (std::exception& e) { printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _exit(11); }
            catch (...) { printf("UNCAUGHT exception\n"); fflush(stdout); _exit(11); }
            printf("HELD\n");
            fflush(stdout);
            _exit(0);
        }
    return 3;
}
