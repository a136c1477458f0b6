#include "expr.h"

namespace ex {
Table table;
u32 nextId = 1;
char* arena = nullptr;
size_t arenaLeft = 0;

static u64 foldBin(Op op, u64 a, u64 b, u32 w, bool& ok)
{
    ok = true;
    u64 m = maskw(w);
    switch (op) {
    case E_ADD: return (a + b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: if (!b) { return m; } return a / b;
    case E_UREM: if (!b) { return a; } return a % b;
    case E_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 & m : m; if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
    case E_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return b >= w ? (sextw(a, w) < 0 ? m : 0) : (u64)(sextw(a, w) >> b) & m;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, w) < sextw(b, w);
    case E_SLE: return sextw(a, w) <= sextw(b, w);
    default: ok = false; return 0;
    }
}
static int wcmp(const Words& a, const Words& b)
{
    for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
static bool foldBinW(Op op, const Words& a, const Words& b, u32 w, Words& r)
{
    r.assign(nwords(w), 0);
    bool nega = (a[(w - 1) / 64] >> ((w - 1) % 64)) & 1, negb = (b[(w - 1) / 64] >> ((w - 1) % 64)) & 1;
    switch (op) {
    case E_ADD: { unsigned __int128 c = 0; for (size_t i = 0; i < r.size(); i++) { c += a[i]; c += b[i]; r[i] = (u64)c; c >>= 64; } break; }
    case E_AND: for (size_t i = 0; i < r.size(); i++) r[i] = a[i] & b[i]; break;
    case E_OR: for (size_t i = 0; i < r.size(); i++) r[i] = a[i] | b[i]; break;
    case E_XOR: for (size_t i = 0; i < r.size(); i++) r[i] = a[i] ^ b[i]; break;
    case E_MUL:
        for (size_t i = 0; i < r.size(); i++) { unsigned __int128 c = 0; for (size_t j = 0; i + j < r.size(); j++) { c += (unsigned __int128)a[i] * b[j] + r[i + j]; r[i + j] = (u64)c; c >>= 64; } }
        break;
    case E_SHL: case E_LSHR: {
        u64 s = b[0];
        for (size_t i = 1; i < b.size(); i++) if (b[i]) s = w;
        if (s >= w) break;
        if (op == E_LSHR) { Words t = wExtract(a, (u32)s, (u32)(w - s)); for (size_t i = 0; i < t.size(); i++) r[i] = t[i]; }
        else if (s == 0) r = a;
        else { Words lo(nwords((u32)s), 0); r = wConcat(wExtract(a, 0, (u32)(w - s)), (u32)(w - s), lo, (u32)s); }
        break; }
    case E_EQ: r.assign(1, a == b); return true;
    case E_ULT: r.assign(1, wcmp(a, b) < 0); return true;
    case E_ULE: r.assign(1, wcmp(a, b) <= 0); return true;
    case E_SLT: r.assign(1, nega != negb ? nega : wcmp(a, b) < 0); return true;
    case E_SLE: r.assign(1, nega != negb ? nega : wcmp(a, b) <= 0); return true;
    case E_UDIV: case E_UREM: {
        bool z = true; for (u64 x : b) if (x) z = false;
        if (z) { if (op == E_UDIV) r.assign(nwords(w), ~0ull); else r = a; break; }
        Words q(nwords(w), 0), rem(nwords(w) + 1, 0), bb(b); bb.push_back(0);
        for (int i = (int)w - 1; i >= 0; i--) {
            u64 c = (a[i / 64] >> (i % 64)) & 1;
            for (size_t k = 0; k < rem.size(); k++) { u64 nc = rem[k] >> 63; rem[k] = (rem[k] << 1) | c; c = nc; }
            if (wcmp(rem, bb) >= 0) { u64 br = 0; for (size_t k = 0; k < rem.size(); k++) { unsigned __int128 d = (unsigned __int128)rem[k] - bb[k] - br; rem[k] = (u64)d; br = (u64)(d >> 64) & 1; } q[i / 64] |= 1ull << (i % 64); }
        }
        rem.pop_back();
        r = op == E_UDIV ? q : rem; break; }
    default: return false;
    }
    if (w % 64) r.back() &= maskw(w % 64);
    return true;
}

E notE(E a)
{
    assert(a->w == 1);
    if (isC(a)) return cst(!a->val, 1);
    if (a->op == E_XOR && isC(a->k[1])) return a->k[0];
    if (a->op == E_ULT) return mk(E_ULE, a->k[1], a->k[0]);
    if (a->op == E_ULE) return mk(E_ULT, a->k[1], a->k[0]);
    if (a->op == E_SLT) return mk(E_SLE, a->k[1], a->k[0]);
    if (a->op == E_SLE) return mk(E_SLT, a->k[1], a->k[0]);
    return raw(E_XOR, 1, a, cst(1, 1));
}
static bool isNot(E a) { return a->w == 1 && a->op == E_XOR && isC(a->k[1]) && a->k[1]->val == 1; }

E andE(E a, E b) { return mk(E_AND, a, b); }
E orE(E a, E b) { return mk(E_OR, a, b); }

bool keepWords = false; // leave word operations whole (large arithmetic terms)
E extract(E e, u32 lo, u32 w)
{
    assert(lo + w <= e->w && w > 0);
    if (lo == 0 && w == e->w) return e;
    if (isC(e)) return e->w <= 64 ? cst(e->val >> lo, w) : cstw(wExtract(cwords(e), lo, w), w);
    switch (e->op) {
    case E_EXTRACT: return extract(e->k[0], (u32)e->val + lo, w);
    case E_CONCAT: {
        E hi = e->k[0], l = e->k[1];
        if (lo >= l->w) return extract(hi, lo - l->w, w);
        if (lo + w <= l->w) return extract(l, lo, w);
        return concat(extract(hi, 0, lo + w - l->w), extract(l, lo, l->w - lo));
    }
    case E_ZEXT: {
        E x = e->k[0];
        if (lo >= x->w) return cst(0, w);
        if (lo + w <= x->w) return extract(x, lo, w);
        return zext(extract(x, lo, x->w - lo), w);
    }
    case E_SEXT:
        if (lo + w <= e->k[0]->w) return extract(e->k[0], lo, w);
        break;
    case E_ITE:
        if ((isC(e->k[1]) || isC(e->k[2]))) return ite(e->k[0], extract(e->k[1], lo, w), extract(e->k[2], lo, w));
        break;
    case E_AND: case E_OR: case E_XOR:
        if (keepWords) break;
        return mk(e->op, extract(e->k[0], lo, w), extract(e->k[1], lo, w));
    case E_ADD:
        if (lo == 0 && e->w <= 64 && !keepWords) return mk(E_ADD, extract(e->k[0], 0, w), extract(e->k[1], 0, w));
        break;
    case E_MUL:
        if (lo == 0 && isC(e->k[1]) && !keepWords) return mk(e->op, extract(e->k[0], 0, w), extract(e->k[1], 0, w));
        break;
    default: break;
    }
    return raw(E_EXTRACT, w, e, nullptr, nullptr, lo);
}

static bool adjacent(E hi, E lo, E& out)
{
    if (isC(hi) && isC(lo)) { out = cstw(wConcat(cwords(hi), hi->w, cwords(lo), lo->w), hi->w + lo->w); return true; }
    if (hi->op != E_EXTRACT) {
        return false;
    }
    if (lo->op == E_EXTRACT && lo->k[0] == hi->k[0] && lo->val + lo->w == hi->val) { out = extract(hi->k[0], (u32)lo->val, hi->w + lo->w); return true; }
    return false;
}
E concat(E hi, E lo)
{
    // normal form: right nested, hi piece is never a concat
    if (hi->op == E_CONCAT) return concat(hi->k[0], concat(hi->k[1], lo));
    E m;
    if (adjacent(hi, lo, m)) return m;
    if (lo->op == E_CONCAT && adjacent(hi, lo->k[0], m)) return concat(m, lo->k[1]);
    if (isZero(hi)) return zext(lo, hi->w + lo->w);
    if (lo->op == E_ZEXT) { // keep zero padding visible as a piece
        return concat(hi, raw(E_CONCAT, lo->w, cst(0, lo->w - lo->k[0]->w), lo->k[0]));
    }
    return raw(E_CONCAT, hi->w + lo->w, hi, lo);
}
E zext(E e, u32 w)
{
    if (w == e->w) return e;
    assert(w > e->w);
    if (isC(e)) return e->w <= 64 && w <= 64 ? cst(e->val, w) : cstw([&] { Words v = cwords(e); v.resize(nwords(w)); return v; }(), w);
    if (e->op == E_ZEXT) return zext(e->k[0], w);
    if (e->op == E_CONCAT && isZero(e->k[0])) return zext(e->k[1], w);
    return raw(E_ZEXT, w, e);
}
E sext(E e, u32 w)
{
    if (w == e->w) return e;
    if (isC(e) && w <= 64) return cst((u64)sextw(e->val, e->w), w);
    if (isC(e)) {
        Words v = cwords(e); v.resize(nwords(w), 0);
        if ((v[(e->w - 1) / 64] >> ((e->w - 1) % 64)) & 1) return concat(ones(w - e->w), e);
        return zext(e, w);
    }
    if (e->op == E_ZEXT) return zext(e->k[0], w);
    return raw(E_SEXT, w, e);
}
E ite(E c, E a, E b)
{
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (isNot(c)) return ite(c->k[0], b, a);
    if (a->w == 1) {
        if (isC(a)) return a->val ? orE(c, b) : andE(notE(c), b);
        if (isC(b)) return b->val ? orE(notE(c), a) : andE(c, a);
    }
    if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return raw(E_ITE, a->w, c, a, b);
}
E hashE(E data, u32 outw) { return raw(E_HASH, outw, data); }

// boundaries of concat/zext pieces, low to high
static void pieces(E e, std::vector<E>& out)
{
    if (e->op == E_CONCAT) { pieces(e->k[1], out); pieces(e->k[0], out); }
    else if (e->op == E_ZEXT) { pieces(e->k[0], out); out.push_back(cst(0, e->w - e->k[0]->w)); }
    else out.push_back(e);
}
static E joinPieces(const std::vector<E>& p)
{
    E r = p[0];
    for (size_t i = 1; i < p.size(); i++) r = concat(p[i], r);
    return r;
}

E eq(E a, E b)
{
    assert(a->w == b->w);
    if (a == b) return cst(1, 1);
    if (isC(a) && isC(b)) return cst(0, 1); // interned: different constants
    if (isC(a)) std::swap(a, b);
    if (a->w == 1 && isC(b)) return b->val ? a : notE(a);
    // collision freeness and distinct leaf atoms
    if (a->op == E_HASH && b->op == E_HASH) {
        if (a->k[0]->w != b->k[0]->w) return cst(0, 1);
        return eq(a->k[0], b->k[0]);
    }
    auto special = [](E x) { return x->op == E_HASH || (x->op == E_VAR && varKind(x) == VK_ATOM); };
    if (special(a) && (special(b) || isC(b))) return cst(0, 1);
    if (special(b) && isC(a)) return cst(0, 1);
    bool ca = a->op == E_CONCAT || a->op == E_ZEXT, cb = b->op == E_CONCAT || b->op == E_ZEXT;
    if (ca && (cb || isC(b))) {
        // split on common boundaries (constants split anywhere)
        std::vector<E> pa, pb;
        pieces(a, pa);
        pieces(b, pb);
        bool split = false;
        if (isC(b)) split = pa.size() > 1;
        else {
            u32 x = 0, y = 0; size_t i = 0, j = 0;
            while (i < pa.size() && j < pb.size()) {
                if (x + pa[i]->w == y + pb[j]->w) { if (i + 1 < pa.size() || j + 1 < pb.size()) split = true; x += pa[i++]->w; y += pb[j++]->w; if (split) break; }
                else if (x + pa[i]->w < y + pb[j]->w) x += pa[i++]->w; else y += pb[j++]->w;
            }
        }
        if (split) {
            // cut at the lowest common boundary
            u32 cut = 0;
            if (isC(b)) cut = pa[0]->w;
            else {
                u32 x = 0, y = 0; size_t i = 0, j = 0;
                x = pa[0]->w; y = pb[0]->w;
                while (x != y) { if (x < y) x += pa[++i]->w; else y += pb[++j]->w; }
                cut = x;
            }
            if (cut < a->w) {
                E lo = eq(extract(a, 0, cut), extract(b, 0, cut));
                if (isZero(lo)) return lo;
                return andE(lo, eq(extract(a, cut, a->w - cut), extract(b, cut, b->w - cut)));
            }
        }
    }
    if (isC(b)) {
        if (a->op == E_SEXT && a->k[0]->w == 1) {
            if (isZero(b)) return notE(a->k[0]);
            if (isOnes(b)) return a->k[0];
            return cst(0, 1);
        }
        if (a->op == E_XOR && isC(a->k[1])) return eq(a->k[0], mk(E_XOR, a->k[1], b));
        if (a->op == E_ADD && isC(a->k[1]) && a->w <= 64) return eq(a->k[0], cst(b->val - a->k[1]->val, a->w));
        if (a->op == E_ITE) {
            if (isC(a->k[1]) || isC(a->k[2])) {
                return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
            }
        }
    } else {
        if (a->op == E_ITE && a->w <= 64 && (a->k[1] == b || a->k[2] == b)) return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
        if (b->op == E_ITE && b->w <= 64 && (b->k[1] == a || b->k[2] == a)) return ite(b->k[0], eq(b->k[1], a), eq(b->k[2], a));
        if (a->op == E_ADD && b->op == E_ADD && a->k[1] == b->k[1]) return eq(a->k[0], b->k[0]);
        if (a->op == E_ADD && (a->k[0] == b || a->k[1] == b)) return eq(a->k[0] == b ? a->k[1] : a->k[0], cst(0, a->w));
        if (b->op == E_ADD && (b->k[0] == a || b->k[1] == a)) return eq(b->k[0] == a ? b->k[1] : b->k[0], cst(0, a->w));
        if (a->id > b->id) std::swap(a, b);
    }
    return raw(E_EQ, 1, a, b);
}

static bool zeroPieces(E e)
{
    if (e->op == E_ZEXT) return true;
    while (e->op == E_CONCAT) { if (isC(e->k[0])) return true; e = e->k[1]; }
    return isC(e);
}

// ---- sums are kept as a chain ((t1 + t2) + t3) + ... + constant, terms ordered by id, equal terms merged
struct Term { E e; u64 c; };
static void addTerm(E e, std::vector<Term>& t, u64& k)
{
    u32 w = e->w;
    if (isC(e)) { k += e->val; return; }
    if (e->op == E_MUL && isC(e->k[1])) { t.push_back({e->k[0], e->k[1]->val}); return; }
    if (e->op == E_CONCAT && isZero(e->k[1]) && e->k[1]->w < 64) { // x << s
        E hi = e->k[0];
        if (hi->op == E_EXTRACT && hi->val == 0 && hi->k[0]->w == w) { t.push_back({hi->k[0], 1ull << e->k[1]->w}); return; }
    }
    t.push_back({e, 1});
}
static void sumTerms(E e, std::vector<Term>& t, u64& k)
{
    size_t at = t.size();
    while (e->op == E_ADD) { addTerm(e->k[1], t, k); e = e->k[0]; }
    addTerm(e, t, k);
    (void)at;
}
std::vector<E> sumList(E e)
{
    std::vector<E> r;
    while (e->op == E_ADD) { r.push_back(e->k[1]); e = e->k[0]; }
    r.push_back(e);
    return r;
}
void sumSplit(E e, std::vector<std::pair<E, u64>>& out, u64& k)
{
    std::vector<Term> t;
    sumTerms(e, t, k);
    for (auto& x : t) out.push_back({x.e, x.c});
}
static E build(std::vector<Term>& t, u64 k, u32 w)
{
    u64 m = maskw(w);
    std::sort(t.begin(), t.end(), [](const Term& x, const Term& y) { return x.e->id < y.e->id; });
    size_t o = 0;
    for (size_t i = 0; i < t.size(); i++) {
        if (o && t[o - 1].e == t[i].e) t[o - 1].c += t[i].c;
        else t[o++] = t[i];
    }
    E r = nullptr;
    for (size_t i = 0; i < o; i++) {
        u64 c = t[i].c & m;
        if (!c) continue;
        E x = t[i].e;
        if (c != 1) {
            if (c != m && (c & (c - 1)) == 0 && !keepWords) { u32 s = (u32)__builtin_ctzll(c); x = concat(extract(x, 0, w - s), cst(0, s)); }
            else if (x->op == E_ADD) x = mk(E_MUL, x, cst(c, w));
            else x = raw(E_MUL, w, x, cst(c, w));
        }
        r = r ? raw(E_ADD, w, r, x) : x;
    }
    if (!r) return cst(k, w);
    return k ? raw(E_ADD, w, r, cst(k, w)) : r;
}
E sumBuild(const std::vector<std::pair<E, u64>>& in, u64 k, u32 w)
{
    std::vector<Term> t;
    k &= maskw(w);
    for (auto& x : in) { // a term may itself be a sum
        if (x.first->op == E_ADD || x.first->op == E_CONST || x.first->op == E_MUL) {
            std::vector<Term> u;
            u64 kk = 0;
            sumTerms(x.first, u, kk);
            k += kk * x.second;
            for (auto& y : u) t.push_back({y.e, y.c * x.second});
        } else t.push_back({x.first, x.second});
    }
    return build(t, k & maskw(w), w);
}
static E addNormal(E a, E b)
{
    u32 w = a->w;
    u64 m = maskw(w), k = 0;
    std::vector<Term> t;
    sumTerms(a, t, k);
    sumTerms(b, t, k);
    k &= m;
    if (t.size() > 600) return raw(E_ADD, w, a->id < b->id ? a : b, a->id < b->id ? b : a);
    return build(t, k, w);
}
E mk(Op op, E a, E b)
{
    u32 w = a->w;
    bool cmp = op == E_EQ || op == E_ULT || op == E_ULE || op == E_SLT || op == E_SLE;
    if (op == E_EQ) return eq(a, b);
    if (isC(a) && isC(b)) {
        if (w <= 64) { bool ok; u64 r = foldBin(op, a->val, b->val, w, ok); if (ok) return cst(r, cmp ? 1 : w); }
        else { Words r; if (foldBinW(op, cwords(a), cwords(b), w, r)) return cstw(r, cmp ? 1 : w); }
    }
    switch (op) {
    case E_ADD:
        if (isC(a)) std::swap(a, b);
        if (isZero(b)) return a;
        if (w <= 64) return addNormal(a, b);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case E_MUL:
        if (isC(a)) std::swap(a, b);
        if (isZero(b)) return b;
        if (isC(b) && w <= 64) {
            if (b->val == 1) return a;
            if (b->val == maskw(w) && w > 1) {
                // -1 * x: push into constants and sums
                if (a->op == E_MUL && isOnes(a->k[1])) return a->k[0];
                if (a->op == E_ADD) return mk(E_ADD, mk(E_MUL, a->k[0], b), mk(E_MUL, a->k[1], b));
                break;
            }
            if ((b->val & (b->val - 1)) == 0 && !keepWords) return mk(E_SHL, a, cst(__builtin_ctzll(b->val), w));
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case E_UDIV:
        if (isC(b) && w <= 64 && b->val && (b->val & (b->val - 1)) == 0) return mk(E_LSHR, a, cst(__builtin_ctzll(b->val), w));
        break;
    case E_UREM:
        if (isC(b) && w <= 64 && b->val && (b->val & (b->val - 1)) == 0) return mk(E_AND, a, cst(b->val - 1, w));
        break;
    case E_AND: case E_OR: case E_XOR: {
        if (isC(a)) std::swap(a, b);
        if (a == b) return op == E_XOR ? (w <= 64 ? cst(0, w) : cstw(Words(nwords(w), 0), w)) : a;
        if (isZero(b)) return op == E_AND ? b : a;
        if (isOnes(b)) { if (op == E_AND) return a; if (op == E_OR) return b; if (w == 1) return notE(a); }
        if (w == 1) {
            if ((isNot(a) && a->k[0] == b) || (isNot(b) && b->k[0] == a)) return cst(op == E_AND ? 0 : 1, 1);
            if (op == E_AND && a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
            if (op == E_AND && b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
            if (op == E_OR && a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a;
            if (op == E_OR && b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b;
        }
        if (isC(b) && a->op == op && isC(a->k[1])) return mk(op, a->k[0], mk(op, a->k[1], b));
        // contiguous masks become extract/concat pieces
        if (op == E_AND && isC(b) && w <= 64 && w > 1) {
            u64 m = b->val;
            u32 lo = __builtin_ctzll(m), hi = 63 - __builtin_clzll(m);
            if (m == ((maskw(hi + 1)) & ~maskw(lo)) || m == (hi == 63 ? ~0ull << lo : ((1ull << (hi + 1)) - 1) & ~((1ull << lo) - 1))) {
                E r = extract(a, lo, hi - lo + 1);
                if (lo) r = concat(r, cst(0, lo));
                return zext(r, w);
            }
        }
        if (w > 1 && zeroPieces(a) && (isC(b) || zeroPieces(b)) && (a->op == E_CONCAT || a->op == E_ZEXT)) {
            std::vector<E> pa, pb, out;
            pieces(a, pa); pieces(b, pb);
            std::vector<u32> cuts;
            u32 x = 0; for (E p : pa) cuts.push_back(x += p->w);
            x = 0; for (E p : pb) cuts.push_back(x += p->w);
            std::sort(cuts.begin(), cuts.end());
            cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
            if (cuts.size() > 1) {
                u32 lo = 0;
                for (u32 c : cuts) { out.push_back(mk(op, extract(a, lo, c - lo), extract(b, lo, c - lo))); lo = c; }
                return joinPieces(out);
            }
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break; }
    case E_SHL:
        if (isC(b)) {
            u64 s = w <= 64 ? b->val : cwords(b)[0];
            if (s >= w) return w <= 64 ? cst(0, w) : cstw(Words(nwords(w), 0), w);
            if (s == 0) return a;
            return concat(extract(a, 0, w - (u32)s), s <= 64 ? cst(0, (u32)s) : cstw(Words(nwords((u32)s), 0), (u32)s));
        }
        break;
    case E_LSHR:
        if (isC(b)) {
            u64 s = w <= 64 ? b->val : cwords(b)[0];
            if (s >= w) return w <= 64 ? cst(0, w) : cstw(Words(nwords(w), 0), w);
            if (s == 0) return a;
            return zext(extract(a, (u32)s, w - (u32)s), w);
        }
        break;
    case E_ASHR:
        if (isC(b)) {
            u64 s = w <= 64 ? b->val : cwords(b)[0];
            if (s >= w) s = w - 1;
            if (s == 0) return a;
            return sext(extract(a, (u32)s, w - (u32)s), w);
        }
        break;
    case E_ULT:
        if (a == b) return cst(0, 1);
        if (isZero(b)) return cst(0, 1);
        if (isC(b) && w <= 64 && b->val == 1) return eq(a, cst(0, w));
        if (isZero(a)) return notE(eq(b, a));
        if (isC(a) && isOnes(a)) return cst(0, 1);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULT, a->k[0], b->k[0]);
        if (a->op == E_ZEXT && isC(b) && w <= 64) return b->val > maskw(a->k[0]->w) ? cst(1, 1) : mk(E_ULT, a->k[0], cst(b->val, a->k[0]->w));
        if (b->op == E_ZEXT && isC(a) && w <= 64) return a->val >= maskw(b->k[0]->w) ? cst(0, 1) : mk(E_ULT, cst(a->val, b->k[0]->w), b->k[0]);
        break;
    case E_ULE:
        if (a == b) return cst(1, 1);
        if (isZero(a)) return cst(1, 1);
        if (isZero(b)) return eq(a, b);
        if (isC(b) && isOnes(b)) return cst(1, 1);
        if (isC(a) && w <= 64 && a->val == 1) return notE(eq(b, cst(0, w)));
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULE, a->k[0], b->k[0]);
        if (a->op == E_ZEXT && isC(b) && w <= 64) return b->val >= maskw(a->k[0]->w) ? cst(1, 1) : mk(E_ULE, a->k[0], cst(b->val, a->k[0]->w));
        if (b->op == E_ZEXT && isC(a) && w <= 64) return a->val > maskw(b->k[0]->w) ? cst(0, 1) : mk(E_ULE, cst(a->val, b->k[0]->w), b->k[0]);
        break;
    case E_SLT:
        if (a == b) return cst(0, 1);
        if (a->op == E_ZEXT && b->op == E_ZEXT) return mk(E_ULT, a, b);
        if (a->op == E_ZEXT && isC(b) && w <= 64) return sextw(b->val, w) <= 0 ? cst(0, 1) : mk(E_ULT, a, b);
        if (b->op == E_ZEXT && isC(a) && w <= 64) return sextw(a->val, w) < 0 ? cst(1, 1) : mk(E_ULT, a, b);
        break;
    case E_SLE:
        if (a == b) return cst(1, 1);
        if (a->op == E_ZEXT && b->op == E_ZEXT) return mk(E_ULE, a, b);
        if (a->op == E_ZEXT && isC(b) && w <= 64) return sextw(b->val, w) < 0 ? cst(0, 1) : mk(E_ULE, a, b);
        if (b->op == E_ZEXT && isC(a) && w <= 64) return sextw(a->val, w) <= 0 ? cst(1, 1) : mk(E_ULE, a, b);
        break;
    default: break;
    }
    // arithmetic on ite with constant arms and constant other operand
    if (isC(b) && a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], mk(op, a->k[1], b), mk(op, a->k[2], b));
    if (isC(a) && b->op == E_ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], mk(op, a, b->k[1]), mk(op, a, b->k[2]));
    return raw(op, cmp ? 1 : w, a, b);
}

// ---------------------------------------------------------------- evaluation
static void evalNode(E e, u64 id, const std::vector<Words>& m);
static inline void ev(E e, u64 id, const std::vector<Words>& m)
{
    if (e->op == E_CONST || e->evalModel == id) return;
    evalNode(e, id, m);
}
static inline Words valW(E e)
{
    if (e->op == E_CONST) return cwords(e);
    if (e->w <= 64) return Words(1, e->evalVal);
    return Words(e->evalWide, e->evalWide + nwords(e->w));
}
static inline u64 val64(E e) { return e->op == E_CONST ? e->val : e->evalVal; }
static void setW(E e, const Words& v)
{
    if (e->w <= 64) { e->evalVal = v[0]; return; }
    if (!e->evalWide) e->evalWide = (u64*)alloc(8 * nwords(e->w));
    for (u32 i = 0; i < nwords(e->w); i++) e->evalWide[i] = v[i];
}
static void evalNode(E e, u64 id, const std::vector<Words>& m)
{
    if (e->op == E_VAR) {
        u32 v = varId(e);
        if (v < m.size() && m[v].size() == nwords(e->w)) setW(e, m[v]);
        else setW(e, Words(nwords(e->w), 0));
        e->evalModel = id;
        return;
    }
    if (e->op == E_ITE) {
        ev(e->k[0], id, m);
        E t = val64(e->k[0]) ? e->k[1] : e->k[2];
        ev(t, id, m);
        if (e->w <= 64) e->evalVal = val64(t); else setW(e, valW(t));
        e->evalModel = id;
        return;
    }
    for (int i = 0; i < 3; i++) if (e->k[i]) ev(e->k[i], id, m);
    E a = e->k[0], b = e->k[1];
    bool small = e->w <= 64 && a->w <= 64 && (!b || b->w <= 64);
    switch (e->op) {
    case E_CONCAT:
        if (small) e->evalVal = ((b->w >= 64 ? 0 : val64(a) << b->w) | val64(b)) & maskw(e->w);
        else setW(e, wConcat(valW(a), a->w, valW(b), b->w));
        break;
    case E_EXTRACT:
        if (small) e->evalVal = (val64(a) >> e->val) & maskw(e->w);
        else if (e->w <= 64 && e->val / 64 == (e->val + e->w - 1) / 64) {
            const u64* p = a->op == E_CONST ? a->wide : a->evalWide;
            e->evalVal = (p[e->val / 64] >> (e->val % 64)) & maskw(e->w);
        } else setW(e, wExtract(valW(a), (u32)e->val, e->w));
        break;
    case E_ZEXT: { if (small) e->evalVal = val64(a); else { Words v = valW(a); v.resize(nwords(e->w), 0); setW(e, v); } break; }
    case E_SEXT: {
        if (small) e->evalVal = (u64)sextw(val64(a), a->w) & maskw(e->w);
        else { Words v = valW(a); bool neg = (v[(a->w - 1) / 64] >> ((a->w - 1) % 64)) & 1; if (neg) setW(e, wConcat(Words(nwords(e->w - a->w), ~0ull), e->w - a->w, v, a->w)); else { v.resize(nwords(e->w), 0); setW(e, v); } }
        break; }
    case E_HASH: { Words o; realHash(valW(a), a->w, e->w, o); setW(e, o); break; }
    default: {
        if (small) { bool ok; e->evalVal = foldBin(e->op, val64(a), val64(b), a->w, ok); if (!ok) { fprintf(stderr, "symx: cannot evaluate %s\n", opname[e->op]); _exit(3); } }
        else { Words r; if (!foldBinW(e->op, valW(a), valW(b), a->w, r)) { fprintf(stderr, "symx: cannot evaluate wide %s\n", opname[e->op]); _exit(3); } setW(e, r); }
    }
    }
    e->evalModel = id;
}
u64 evalC(E e, u64 id, const std::vector<Words>& m) { ev(e, id, m); return val64(e); }
void evalW(E e, u64 id, const std::vector<Words>& m, Words& out) { ev(e, id, m); out = valW(e); }

std::string str(E e, int depth)
{
    char buf[64];
    if (e->op == E_CONST) {
        if (!e->wide) { snprintf(buf, 64, "%llu:%u", (unsigned long long)e->val, e->w); return buf; }
        std::string s = "0x"; for (int i = (int)nwords(e->w) - 1; i >= 0; i--) { snprintf(buf, 64, "%016llx", (unsigned long long)e->wide[i]); s += buf; } return s;
    }
    if (e->op == E_VAR) { snprintf(buf, 64, "%s%u:%u", varKind(e) ? "a" : "v", varId(e), e->w); return buf; }
    if (!depth) return "...";
    std::string s = std::string("(") + opname[e->op];
    if (e->op == E_EXTRACT) { snprintf(buf, 64, "[%u+%u]", (u32)e->val, e->w); s += buf; }
    if (e->op == E_ZEXT || e->op == E_SEXT) { snprintf(buf, 64, "[%u]", e->w); s += buf; }
    for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + str(e->k[i], depth - 1);
    return s + ")";
}

// ---------------------------------------------------------------- real SHA-512 / SHA-512/256 (FIPS 180-4)
static const u64 KK[80] = {
    0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull, 0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull, 0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull, 0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull, 0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull, 0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull, 0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull, 0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull, 0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull, 0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull, 0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull, 0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull, 0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull, 0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull};
static inline u64 rr(u64 x, int n) { return (x >> n) | (x << (64 - n)); }
void realHash(const Words& data, u32 w, u32 outw, Words& out)
{
    size_t n = w / 8;
    std::vector<u8> msg(n);
    for (size_t i = 0; i < n; i++) msg[i] = (u8)(data[i / 8] >> (8 * (i % 8)));
    u64 s256[8] = {0x22312194fc2bf72cull, 0x9f555fa3c84c64c2ull, 0x2393b86b6f53b151ull, 0x963877195940eabdull, 0x96283ee2a88effe3ull, 0xbe5e1e2553863992ull, 0x2b0199fc2c85b8aaull, 0x0eb72ddc81c52ca2ull};
    u64 s512[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
    u64* s = outw == 256 ? s256 : s512;
    msg.push_back(0x80);
    while (msg.size() % 128 != 112) msg.push_back(0);
    for (int i = 0; i < 8; i++) msg.push_back(0);
    for (int i = 7; i >= 0; i--) msg.push_back((u8)((n * 8ull) >> (8 * i)));
    for (size_t off = 0; off < msg.size(); off += 128) {
        u64 W[80];
        for (int i = 0; i < 16; i++) { W[i] = 0; for (int j = 0; j < 8; j++) W[i] = W[i] << 8 | msg[off + 8 * i + j]; }
        for (int i = 16; i < 80; i++) W[i] = (rr(W[i - 2], 19) ^ rr(W[i - 2], 61) ^ (W[i - 2] >> 6)) + W[i - 7] + (rr(W[i - 15], 1) ^ rr(W[i - 15], 8) ^ (W[i - 15] >> 7)) + W[i - 16];
        u64 a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
        for (int i = 0; i < 80; i++) {
            u64 t1 = h + (rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)) + ((e & f) ^ (~e & g)) + KK[i] + W[i];
            u64 t2 = (rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
            h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
    }
    out.assign(nwords(outw), 0);
    for (u32 i = 0; i < outw / 8; i++) out[i / 8] |= ((s[i / 8] >> (8 * (7 - i % 8))) & 0xff) << (8 * (i % 8));
}
} // namespace ex
