// Harness API.
#pragma once
#include <cstdint>
#include <string>
extern "C" {
int sym_replaying(void);
uint8_t sym_byte(const char* name, unsigned lo, unsigned hi);
int sym_int(const char* name, int lo, int hi);             // symbolic in [lo,hi]
int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
double sym_real(const char* name, double lo, double hi, int decimals); // symbolic multiple of 10^-decimals (decimals<0: any double)
int sym_choice(const char* name, int n);                   // one path per value 0..n-1
bool sym_flag(const char* name);                           // one path per value
void sym_assume(bool c);
void sym_assert_(bool c, const char* msg);
void sym_reach(const char* label);                         // reachability witness
void sym_note_(const char* text);
const char* sym_numtext_(double v, int decimals);          // decimal text whose strtod() is v, symbolically
int sym_concrete_int(int v);                               // fork on the value
}
inline uint8_t sym_u8(const char* name) { return sym_byte(name, 0, 255); }
#define sym_assert(c, msg) sym_assert_((c), msg)
#define sym_note(x) do { if (sym_replaying()) sym_note_(std::string(x).c_str()); } while (0)
inline std::string sym_numtext(double v, int decimals) { return sym_numtext_(v, decimals); }
// n symbolic bytes in [lo,hi]
inline std::string sym_bytes(const char* name, int n, unsigned lo = 0, unsigned hi = 255)
{
    std::string s;
    for (int i = 0; i < n; ++i) {
        std::string nm = std::string(name) + std::to_string(i);
        s.push_back((char)sym_byte(nm.c_str(), lo, hi));
    }
    return s;
}
struct SymHarness { const char* name; void (*fn)(); void (*setup)(); int real_mode; SymHarness* next; static SymHarness*& head(); SymHarness(const char* n, void (*f)(), int r, void (*s)() = nullptr); };
#define HARNESS(name, real) static void name##_fn(); static SymHarness name##_reg(#name, name##_fn, real); static void name##_fn()
#define HARNESS_SETUP(name, real, setup) static void name##_fn(); static SymHarness name##_reg(#name, name##_fn, real, setup); static void name##_fn()
