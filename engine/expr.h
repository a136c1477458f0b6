// Hash-consed bit-vector expressions for symx.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <unistd.h>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef std::vector<u64> Words; // little endian words

enum Op : u8 { E_CONST, E_VAR, E_CONCAT, E_EXTRACT, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
               E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
               E_ZEXT, E_SEXT, E_ITE, E_HASH, E_NOPS };
static const char* opname[] = {"const", "var", "concat", "extract", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "zext", "sext", "ite", "hash"};

struct VS {
    static const int N = 6;
    u64 b[N];
    bool any() const { u64 r = 0; for (int i = 0; i < N; i++) r |= b[i]; return r; }
    bool meets(const VS& o) const { u64 r = 0; for (int i = 0; i < N; i++) r |= b[i] & o.b[i]; return r; }
    bool subset(const VS& o) const { u64 r = 0; for (int i = 0; i < N; i++) r |= b[i] & ~o.b[i]; return !r; }
    void add(const VS& o) { for (int i = 0; i < N; i++) b[i] |= o.b[i]; }
    void set(u32 i) { b[i >> 6] |= 1ull << (i & 63); }
    bool get(u32 i) const { return b[i >> 6] >> (i & 63) & 1; }
};

struct Expr {
    Op op;
    u32 w;
    u32 id;
    u32 hash;
    u64 val;   // const value (<=64), extract lo, var id | kind<<32
    u64* wide; // wide const words
    Expr* k[3];
    VS vs;
    // evaluation cache
    u64 evalModel;
    u64 evalVal;
    u64* evalWide;
};
typedef Expr* E;

static inline u64 maskw(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u32 nwords(u32 w) { return (w + 63) / 64; }
static inline int64_t sextw(u64 v, u32 w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

enum VarKind { VK_PLAIN = 0, VK_ATOM = 1 };
static inline u32 varId(E e) { return (u32)e->val; }
static inline u32 varKind(E e) { return (u32)(e->val >> 32); }

namespace ex {
struct Table {
    std::vector<E> slots;
    size_t n = 0;
    Table() : slots(1 << 16, nullptr) {}
};
extern Table table;
extern u32 nextId;
extern char* arena;
extern size_t arenaLeft;

static inline void* alloc(size_t n)
{
    n = (n + 7) & ~7ull;
    if (arenaLeft < n) {
        size_t chunk = std::max<size_t>(n, 1 << 20);
        arena = (char*)malloc(chunk);
        arenaLeft = chunk;
    }
    void* r = arena;
    arena += n;
    arenaLeft -= n;
    return r;
}

static inline bool same(E a, const Expr& t)
{
    if (a->op != t.op || a->w != t.w || a->val != t.val || a->k[0] != t.k[0] || a->k[1] != t.k[1] || a->k[2] != t.k[2]) return false;
    if (a->wide || t.wide) {
        if (!a->wide || !t.wide) return false;
        return memcmp(a->wide, t.wide, 8 * nwords(t.w)) == 0;
    }
    return true;
}
static inline u32 hsh(const Expr& t)
{
    u64 h = t.op * 0x9E3779B97F4A7C15ull + t.w * 0xC2B2AE3D27D4EB4Full + t.val * 0x165667B19E3779F9ull;
    for (int i = 0; i < 3; i++) h = (h ^ (t.k[i] ? t.k[i]->id + 1 : 0)) * 0xff51afd7ed558ccdull, h ^= h >> 29;
    if (t.wide)
        for (u32 i = 0; i < nwords(t.w); i++) h = (h ^ t.wide[i]) * 0xc4ceb9fe1a85ec53ull, h ^= h >> 31;
    return (u32)(h ^ (h >> 32));
}
static inline void grow()
{
    std::vector<E> old;
    old.swap(table.slots);
    table.slots.assign(old.size() * 2, nullptr);
    size_t m = table.slots.size() - 1;
    for (E e : old)
        if (e) {
            size_t i = e->hash & m;
            while (table.slots[i]) i = (i + 1) & m;
            table.slots[i] = e;
        }
}
static inline E intern(Expr& t)
{
    t.hash = hsh(t);
    size_t m = table.slots.size() - 1;
    size_t i = t.hash & m;
    while (E s = table.slots[i]) {
        if (s->hash == t.hash && same(s, t)) return s;
        i = (i + 1) & m;
    }
    E e = (E)alloc(sizeof(Expr));
    *e = t;
    e->id = nextId++;
    e->evalModel = 0;
    e->evalWide = nullptr;
    if (t.wide) {
        e->wide = (u64*)alloc(8 * nwords(t.w));
        memcpy(e->wide, t.wide, 8 * nwords(t.w));
    }
    memset(&e->vs, 0, sizeof e->vs);
    if (e->op == E_VAR) e->vs.set(varId(e));
    for (int j = 0; j < 3; j++)
        if (e->k[j]) e->vs.add(e->k[j]->vs);
    table.slots[i] = e;
    if (++table.n * 2 > table.slots.size()) grow();
    return e;
}
static inline E raw(Op op, u32 w, E a = nullptr, E b = nullptr, E c = nullptr, u64 val = 0)
{
    Expr t;
    t.op = op; t.w = w; t.val = val; t.wide = nullptr;
    t.k[0] = a; t.k[1] = b; t.k[2] = c;
    return intern(t);
}
static inline E cst(u64 v, u32 w)
{
    if (w > 64) {
        u64 buf[64];
        assert(nwords(w) <= 64);
        memset(buf, 0, sizeof buf);
        buf[0] = v;
        Expr t; t.op = E_CONST; t.w = w; t.val = 0; t.wide = buf; t.k[0] = t.k[1] = t.k[2] = nullptr;
        return intern(t);
    }
    return raw(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w));
}
static inline E cstw(const Words& v, u32 w)
{
    if (w <= 64) return cst(v[0], w);
    Words t2(v);
    t2.resize(nwords(w));
    if (w % 64) t2.back() &= maskw(w % 64);
    Expr t; t.op = E_CONST; t.w = w; t.val = 0; t.wide = t2.data(); t.k[0] = t.k[1] = t.k[2] = nullptr;
    return intern(t);
}
static inline bool isC(E e) { return e->op == E_CONST; }
static inline Words cwords(E e)
{
    if (e->wide) return Words(e->wide, e->wide + nwords(e->w));
    return Words(1, e->val);
}
static inline bool isZero(E e)
{
    if (!isC(e)) return false;
    if (!e->wide) return e->val == 0;
    for (u32 i = 0; i < nwords(e->w); i++) if (e->wide[i]) return false;
    return true;
}
static inline bool isOnes(E e)
{
    if (!isC(e)) return false;
    if (!e->wide) return e->val == maskw(e->w);
    for (u32 i = 0; i < nwords(e->w); i++) {
        u64 m = (i + 1 == nwords(e->w) && e->w % 64) ? maskw(e->w % 64) : ~0ull;
        if (e->wide[i] != m) return false;
    }
    return true;
}
static inline E ones(u32 w) { return w <= 64 ? cst(~0ull, w) : cstw(Words(nwords(w), ~0ull), w); }
static inline E var(u32 id, u32 w, u32 kind) { return raw(E_VAR, w, nullptr, nullptr, nullptr, (u64)id | ((u64)kind << 32)); }

// ---- word-level helpers on big values
static inline Words wExtract(const Words& v, u32 lo, u32 w)
{
    Words r(nwords(w), 0);
    u32 ws = lo / 64, bs = lo % 64;
    for (u32 i = 0; i < r.size(); i++) {
        u64 a = ws + i < v.size() ? v[ws + i] : 0, b = ws + i + 1 < v.size() ? v[ws + i + 1] : 0;
        r[i] = bs ? (a >> bs) | (b << (64 - bs)) : a;
    }
    if (w % 64) r.back() &= maskw(w % 64);
    return r;
}
static inline Words wConcat(const Words& hi, u32 wh, const Words& lo, u32 wl)
{
    u32 w = wh + wl;
    Words r(nwords(w) + 1, 0);
    for (u32 i = 0; i < lo.size(); i++) r[i] = lo[i];
    u32 ws = wl / 64, bs = wl % 64;
    for (u32 i = 0; i < hi.size(); i++) {
        r[ws + i] |= bs ? hi[i] << bs : hi[i];
        if (bs && ws + i + 1 < r.size()) r[ws + i + 1] |= hi[i] >> (64 - bs);
    }
    r.resize(nwords(w));
    if (w % 64) r.back() &= maskw(w % 64);
    return r;
}

E sumBuild(const std::vector<std::pair<E, u64>>& in, u64 k, u32 w);
extern bool keepWords;
std::vector<E> sumList(E e); // the summands of a sum
void sumSplit(E e, std::vector<std::pair<E, u64>>& out, u64& k); // summands with coefficients, and the constant
E mk(Op op, E a, E b); // forward
E extract(E e, u32 lo, u32 w);
E concat(E hi, E lo);
E ite(E c, E a, E b);
E notE(E a);
E eq(E a, E b);
E andE(E a, E b);
E orE(E a, E b);
E zext(E e, u32 w);
E sext(E e, u32 w);
E hashE(E data, u32 outw);

u64 evalC(E e, u64 modelId, const std::vector<Words>& m); // <=64
void evalW(E e, u64 modelId, const std::vector<Words>& m, Words& out);
void realHash(const Words& data, u32 w, u32 outw, Words& out);
std::string str(E e, int depth = 6);
} // namespace ex
