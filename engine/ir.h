// Decoded LLVM IR: what the symbolic executor runs.
#pragma once
#include "expr.h"
#include <map>
#include <string>
#include <vector>

enum IOp : u8 {
    I_BIN,      // sub = Op, dst, a, b   (w)
    I_SUBB,     // a - b
    I_ICMP,     // sub = predicate
    I_SELECT,   // a = cond, b, c ; x = slots ; imm = isptr
    I_LOAD,     // dst, a = ptr, list = (offset,width) pairs
    I_STORE,    // a = ptr, list of (value, offset, width)
    I_ALLOCA,   // dst, imm = elem size, a = count
    I_GEP,      // dst, a = base, imm = const offset, list of (idx opnd, width, scale lo, scale hi)
    I_TRUNC, I_ZEXT, I_SEXT,
    I_MOV,      // list of (dst, src)
    I_BR,       // x = edge
    I_CBR,      // a = cond, x = true edge, y = false edge
    I_SWITCH,   // a, x = default edge, list of (const idx, edge)
    I_RET,      // list of values
    I_CALL,     // x = callee func or -1 (a = pointer), list = args, y = arginfo ; invoke: edge normal = e0, unwind = e1 (or -1)
    I_LANDING,  // dst (2 slots), imm = cleanup flag, list = clause type-info operands (catch), -2 = filter
    I_RESUME,   // a, b
    I_UNREACHABLE,
    I_UNSUP,    // x = string index
    I_CMPXCHG,  // dst(2), a ptr, b cmp, c new
    I_RMW,      // dst, a ptr, b val, sub
};

enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Inst {
    u8 op = 0, sub = 0;
    u16 w = 0;
    int dst = -1;
    int a = 0, b = 0, c = 0;
    u64 imm = 0;
    int x = -1, y = -1;
    int e0 = -1, e1 = -1;
    u32 lo = 0, ln = 0; // list in Module::lists
};
struct Edge { u32 pc; u32 lo, ln; }; // phi copies (dst, src)

struct Func {
    std::string name;
    u32 id;
    bool decl = true;
    bool isIntrinsic = false;
    u32 nslots = 0;
    std::vector<u16> argw;       // widths of arg slots
    std::vector<u32> retw;       // widths of return slots
    std::vector<Inst> code;
    std::vector<u64> byval;      // per arg slot: byval size or 0
    u64 execs = 0;
    int handler = -1;
    u32 nblocks = 0;
    bool vararg = false;
};

struct ConstVal { u64 c; E e; };

struct GlobalInit {
    std::string name;
    u64 size;
    bool constant, decl;
    std::vector<u8> bytes;
    u64 addr;
};

struct Module {
    std::vector<Func*> funcs;
    std::vector<int> lists;
    std::vector<Edge> edges;
    std::vector<ConstVal> consts;
    std::vector<std::string> strs;
    std::vector<GlobalInit> globals;
    std::vector<u32> ctors;
    std::map<std::string, u32> funcByName;
};

static const u64 FUNC_BASE = 0x7000000000000000ull; // function pointers: FUNC_BASE + (id << 4)
static const int OBJ_SHIFT = 32;
static inline u64 objAddr(u32 id) { return (u64)id << OBJ_SHIFT; }

Module* loadModule(const char* path);
