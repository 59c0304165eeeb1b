// Shared by the in-process runtime and the explorer: symbolic expression nodes and the path log.
#pragma once
#include <cstdint>
#include <cstddef>

enum Op : uint8_t {
    O_CONST, O_VAR, O_FVAR,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE, O_TABLE,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FABS, O_FSQRT,
    O_FEQ, O_FLT, O_FLE, O_FUNO,
    O_SI2F, O_UI2F, O_F2SI, O_F2UI, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FROUND,
    O_BITS, O_OFBITS, O_FITE, O_UF1, O_UF2,
    O_SADDO, O_SSUBO, O_SMULO, O_UADDO, O_USUBO, O_UMULO,
    O_UMIN, O_UMAX, O_SMIN, O_SMAX,
    O_FMIN, O_FMAX,
    O_DIG,      // k-th decimal digit ('0'..'9') of the integer-valued double a (|a| rounded): 8 bits
    O_FDEC,     // integer value of a decimal digit string made of nodes: a*10 + digit(b) as double
    O_COUNT
};
enum Uf : uint8_t { UF_SIN, UF_COS, UF_TAN, UF_ASIN, UF_ACOS, UF_ATAN, UF_EXP, UF_LOG, UF_LOG10, UF_SINH, UF_COSH, UF_TANH, UF_ATAN2, UF_POW };

struct E {
    uint8_t op;
    uint8_t bits;       // result width for bit-vector sorts; 64 for doubles
    uint8_t isf;        // 1: double sort
    uint8_t flag;
    uint32_t id;
    const E* a;
    const E* b;
    const E* c;
    uint64_t k;         // constant / variable index / extract offset / table pointer / uf id
    uint64_t cv;        // concrete value on the current run
    uint64_t h;         // structural hash, stable between runs
};

enum LogKind : uint8_t { L_BRANCH, L_ASSUME, L_ASSUMEFAIL, L_ASSERT, L_CONC };
struct LogEnt {
    const E* cond;      // 1-bit node
    uintptr_t pc;
    uint8_t taken;
    uint8_t kind;
    uint16_t msg;       // assertion message index
};

enum VarKind : uint8_t { V_BV, V_REAL };
struct VarInfo {
    char name[40];
    uint8_t kind, bits;
    int8_t decimals;    // V_REAL: values are multiples of 10^-decimals (-1: any double)
    uint8_t lo, hi;     // 8-bit variables: bounds
    uint64_t cv;
};
struct AssignEnt { char name[40]; uint64_t v; };

constexpr size_t MAX_LOG = 200000, MAX_VAR = 4096, MAX_MSG = 512, MAX_FN = 1 << 14;
enum RunStatus : int { RS_NONE, RS_OK, RS_ASSUME, RS_ASSERTFAIL, RS_OVERFLOW, RS_EXC };
struct Shared {
    // control
    int cmd;            // request to the executor
    int real_mode;
    int harness;
    int status;
    int wstatus;
    uint32_t fail_msg;
    uint64_t fail_pc;
    // input
    uint32_t n_assign;
    AssignEnt assign[MAX_VAR];
    // output
    uint32_t n_var;
    VarInfo var[MAX_VAR];
    uint32_t n_log;
    LogEnt log[MAX_LOG];
    uint32_t n_msg;
    char msg[MAX_MSG][96];
    uint32_t n_note;
    char note[65536];
    uint32_t n_reach;
    char reach[128][64];
    uint64_t n_ops;
    uint64_t conc_count;
    uint64_t stale_count;
    uint64_t fns[MAX_FN];   // return addresses of sites that built expressions
    // arena
    uint64_t arena_used;
    uint64_t arena_size;
    char* arena;
    uint32_t next_id;
};

uint64_t sym_eval_op(const E* e, uint64_t a, uint64_t b, uint64_t c);
