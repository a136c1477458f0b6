// Expr -> Z3. Two encodings: hashes as an uninterpreted sort with collision-freeness axioms, or plain bit-vectors.
#include "solver.h"
#include <chrono>
#include <map>
#include <z3.h>

std::vector<VarInfo> gVars;
SolverStats gSolver;
unsigned gSolverTimeoutMs = 20000;
bool gDumpUnknown = false;

static Z3_context ctx;
static Z3_sort sBool, sInt, sH;
static Z3_func_decl fTag, fRank;
static std::map<u32, Z3_func_decl> fHashU;                // number of 256-bit pieces
static std::map<std::pair<u32, u32>, Z3_func_decl> fInvU; // (n, i)
static std::map<u32, Z3_func_decl> fHashB, fInvB;         // data width
static Z3_func_decl fTagB, fRankB;
static std::vector<Z3_ast> cU, cB; // caches by expr id
static std::vector<u32> stamp;
static u32 curStamp = 0;
static u64 rng = 0x9E3779B97F4A7C15ull;

static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }
Words freshRandom(u32 w)
{
    Words r(nwords(w));
    for (auto& x : r) x = rnd();
    if (w % 64) r.back() &= maskw(w % 64);
    return r;
}

static void errh(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(3);
}
static Z3_sort bvs(u32 w)
{
    static std::map<u32, Z3_sort> m;
    auto it = m.find(w);
    if (it != m.end()) return it->second;
    return m[w] = Z3_mk_bv_sort(ctx, w);
}
static void init()
{
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, errh);
    sBool = Z3_mk_bool_sort(ctx);
    sInt = Z3_mk_int_sort(ctx);
    sH = Z3_mk_uninterpreted_sort(ctx, Z3_mk_string_symbol(ctx, "H"));
    fTag = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "tag"), 1, &sH, sInt);
    fRank = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "rank"), 1, &sH, sInt);
    Z3_sort b256 = bvs(256);
    fTagB = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "tagb"), 1, &b256, bvs(32));
    fRankB = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "rankb"), 1, &b256, bvs(32));
}
static void collectPieces(E e, std::vector<E>& out)
{
    if (e->op == E_CONCAT) { collectPieces(e->k[1], out); collectPieces(e->k[0], out); }
    else out.push_back(e);
}
// pieces of 256 bits each of hash data
static bool hPieces(E data, std::vector<E>& out)
{
    if (data->w % 256) return false;
    if (data->w == 256) { out.push_back(data); return true; }
    for (u32 lo = 0; lo < data->w; lo += 256) out.push_back(ex::extract(data, lo, 256));
    return true;
}
static bool isHTerm(E e)
{
    if (e->w != 256) return false;
    switch (e->op) {
    case E_VAR: case E_HASH: case E_CONST: return true;
    case E_ITE: return isHTerm(e->k[1]) && isHTerm(e->k[2]);
    default: return false;
    }
}
// terms are marked apart as bit vectors (0) and as values of the hash sort (1)
static bool mark(E e, int as)
{
    if (stamp.size() <= 2 * (size_t)e->id + 1) stamp.resize(2 * (size_t)ex::nextId + 2048, 0);
    if (stamp[2 * (size_t)e->id + as] == curStamp) return false;
    stamp[2 * (size_t)e->id + as] = curStamp;
    return true;
}
static bool marked(E e, int as) { return stamp.size() > 2 * (size_t)e->id + 1 && stamp[2 * (size_t)e->id + as] == curStamp; }
struct Scan {
    bool uOk = true, anyHash = false;
    std::vector<E> special; // HASH, ATOM, CONST terms of hash sort
    std::vector<E> vars;
    void bit(E e)
    {
        if (!mark(e, 0)) return;
        bool seen = marked(e, 1);
        if (e->w == 256 && (seen || e->op == E_CONST)) uOk = false;
        if (e->op == E_CONST) return;
        if (e->op == E_VAR) {
            if (e->w == 256) uOk = false;
            if (seen) return;
            vars.push_back(e);
            if (varKind(e) == VK_ATOM) special.push_back(e), anyHash = true;
            return;
        }
        if (e->op == E_HASH) { anyHash = true; uOk = false; if (!seen) special.push_back(e); bit(e->k[0]); return; }
        if (e->op == E_EQ && e->k[0]->w == 256 && isHTerm(e->k[0]) && isHTerm(e->k[1])) { h(e->k[0]); h(e->k[1]); return; }
        for (int i = 0; i < 3; i++) if (e->k[i]) bit(e->k[i]);
    }
    void h(E e)
    {
        if (!mark(e, 1)) return;
        bool seen = marked(e, 0);
        if (seen) uOk = false;
        switch (e->op) {
        case E_VAR:
            anyHash = true;
            if (seen) break;
            vars.push_back(e);
            if (varKind(e) == VK_ATOM) special.push_back(e);
            break;
        case E_CONST: special.push_back(e); break;
        case E_ITE: bit(e->k[0]); h(e->k[1]); h(e->k[2]); break;
        case E_HASH: {
            anyHash = true;
            if (!seen) special.push_back(e);
            std::vector<E> p;
            if (!hPieces(e->k[0], p)) { uOk = false; bit(e->k[0]); break; }
            for (E x : p) { if (isHTerm(x)) h(x); else { uOk = false; bit(x); } }
            break; }
        default: break;
        }
    }
};

static Z3_ast numW(const Words& v, u32 w)
{
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, v[0], bvs(w));
    // big literal through bits
    std::string s = "0x";
    static const char* hx = "0123456789abcdef";
    if (w % 4 == 0) {
        std::vector<bool> bits(w);
        std::vector<char> nb(w);
        bool* bb = (bool*)nb.data();
        for (u32 i = 0; i < w; i++) bb[i] = (v[i / 64] >> (i % 64)) & 1;
        (void)hx;
        return Z3_mk_bv_numeral(ctx, w, bb);
    }
    std::vector<char> nb(w);
    bool* bb = (bool*)nb.data();
    for (u32 i = 0; i < w; i++) bb[i] = (v[i / 64] >> (i % 64)) & 1;
    return Z3_mk_bv_numeral(ctx, w, bb);
}

struct Tr {
    bool U;
    std::vector<Z3_ast>& c;
    Tr(bool u) : U(u), c(u ? cU : cB) {}
    Tr(std::vector<Z3_ast>& own) : U(false), c(own) {}
    Z3_ast get(E e) { return e->id < c.size() ? c[e->id] : nullptr; }
    Z3_ast put(E e, Z3_ast a)
    {
        if (c.size() <= e->id) c.resize(ex::nextId + 1024, nullptr);
        return c[e->id] = a;
    }
    Z3_ast asBv(E e)
    {
        Z3_ast a = tr(e);
        if (e->w != 1) return a;
        return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
    }
    Z3_ast bit(E e, Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, Z3_mk_unsigned_int64(ctx, 1, bvs(1))); }
    Z3_ast h(E e)
    {
        if (!U) return tr(e);
        if (Z3_ast a = get(e)) return a;
        char buf[32];
        switch (e->op) {
        case E_VAR: snprintf(buf, 32, "h%u", varId(e)); return put(e, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), sH));
        case E_CONST: snprintf(buf, 32, "k%u", e->id); return put(e, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), sH));
        case E_ITE: { Z3_ast x = tr(e->k[0]), y = h(e->k[1]), z = h(e->k[2]); return put(e, Z3_mk_ite(ctx, x, y, z)); }
        default: {
            std::vector<E> p;
            hPieces(e->k[0], p);
            std::vector<Z3_ast> a;
            for (E x : p) a.push_back(h(x));
            return put(e, Z3_mk_app(ctx, hashU((u32)p.size()), (unsigned)a.size(), a.data()));
        }
        }
    }
    static Z3_func_decl hashU(u32 n)
    {
        auto it = fHashU.find(n);
        if (it != fHashU.end()) return it->second;
        std::vector<Z3_sort> d(n, sH);
        char buf[32];
        snprintf(buf, 32, "hash%u", n);
        return fHashU[n] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, buf), n, d.data(), sH);
    }
    static Z3_func_decl invU(u32 n, u32 i)
    {
        auto k = std::make_pair(n, i);
        auto it = fInvU.find(k);
        if (it != fInvU.end()) return it->second;
        char buf[32];
        snprintf(buf, 32, "inv%u_%u", n, i);
        return fInvU[k] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, buf), 1, &sH, sH);
    }
    static Z3_func_decl hashB(u32 n, u32 outw)
    {
        u32 key = n * 1024 + outw;
        auto it = fHashB.find(key);
        if (it != fHashB.end()) return it->second;
        Z3_sort d = bvs(n), o = bvs(outw);
        char buf[32];
        snprintf(buf, 32, "hb%u_%u", n, outw);
        fHashB[key] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, buf), 1, &d, o);
        snprintf(buf, 32, "ib%u_%u", n, outw);
        fInvB[key] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, buf), 1, &o, d);
        return fHashB[key];
    }
    Z3_ast tr(E e)
    {
        if (Z3_ast a = get(e)) return a;
        char buf[32];
        Z3_ast r = nullptr;
        E a = e->k[0], b = e->k[1];
        switch (e->op) {
        case E_CONST: r = e->w == 1 ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : numW(ex::cwords(e), e->w); break;
        case E_VAR:
            snprintf(buf, 32, "v%u", varId(e));
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), e->w == 1 ? sBool : bvs(e->w));
            break;
        case E_CONCAT: r = Z3_mk_concat(ctx, asBv(a), asBv(b)); break;
        case E_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, (unsigned)(e->val + e->w - 1), (unsigned)e->val, tr(a)); r = e->w == 1 ? bit(e, x) : x; break; }
        case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - a->w, asBv(a)); break;
        case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - a->w, asBv(a)); break;
        case E_ITE: r = Z3_mk_ite(ctx, tr(a), tr(b), tr(e->k[2])); break;
        case E_EQ:
            if (U && a->w == 256 && isHTerm(a) && isHTerm(b)) r = Z3_mk_eq(ctx, h(a), h(b));
            else r = Z3_mk_eq(ctx, tr(a), tr(b));
            break;
        case E_HASH: { Z3_ast x = tr(a); r = Z3_mk_app(ctx, hashB(a->w, e->w), 1, &x); break; }
        case E_AND: case E_OR: case E_XOR:
            if (e->w == 1) {
                Z3_ast xs[2] = {tr(a), tr(b)};
                r = e->op == E_AND ? Z3_mk_and(ctx, 2, xs) : e->op == E_OR ? Z3_mk_or(ctx, 2, xs) : Z3_mk_xor(ctx, xs[0], xs[1]);
            } else r = e->op == E_AND ? Z3_mk_bvand(ctx, tr(a), tr(b)) : e->op == E_OR ? Z3_mk_bvor(ctx, tr(a), tr(b)) : Z3_mk_bvxor(ctx, tr(a), tr(b));
            break;
        default: {
            Z3_ast x = asBv(a), y = asBv(b);
            switch (e->op) {
            case E_ADD: r = Z3_mk_bvadd(ctx, x, y); break;
            case E_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
            case E_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
            case E_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
            case E_UREM: r = Z3_mk_bvurem(ctx, x, y); break;
            case E_SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
            case E_SHL: r = Z3_mk_bvshl(ctx, x, y); break;
            case E_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break;
            case E_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
            case E_ULT: r = Z3_mk_bvult(ctx, x, y); break;
            case E_ULE: r = Z3_mk_bvule(ctx, x, y); break;
            case E_SLT: r = Z3_mk_bvslt(ctx, x, y); break;
            case E_SLE: r = Z3_mk_bvsle(ctx, x, y); break;
            default: fprintf(stderr, "symx: solver: op %s\n", opname[e->op]); _exit(3);
            }
            bool cmp = e->op == E_ULT || e->op == E_ULE || e->op == E_SLT || e->op == E_SLE;
            if (e->w == 1 && !cmp) r = bit(e, r);
        }
        }
        return put(e, r);
    }
};

static Z3_ast mkInt(int v) { return Z3_mk_int(ctx, v, sInt); }

static Words numVal(Z3_ast a, u32 w)
{
    Words r(nwords(w), 0);
    if (w <= 64) { uint64_t v = 0; if (Z3_get_numeral_uint64(ctx, a, &v)) r[0] = v; return r; }
    // decimal string to words
    std::string s = Z3_get_numeral_string(ctx, a);
    for (char ch : s) {
        unsigned __int128 c = (unsigned)(ch - '0');
        for (size_t i = 0; i < r.size(); i++) { c += (unsigned __int128)r[i] * 10; r[i] = (u64)c; c >>= 64; }
    }
    return r;
}

Res z3solve(const std::vector<E>& cs, std::vector<Words>& model)
{
    init();
    auto t0 = std::chrono::steady_clock::now();
    curStamp++;
    Scan sc;
    for (E c : cs) sc.bit(c);
    bool U = sc.uOk;
    if (!U && sc.anyHash) { // rescan everything as plain bit-vectors: constants and nested hash terms included
        // keep the collected special list; it covers every hash, atom and constant compared with a hash
    }
    Tr T(U);
    Z3_solver s = (sc.anyHash || !sc.special.empty()) ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs);
    Z3_solver_set_params(ctx, s, p);
    for (E c : cs) Z3_solver_assert(ctx, s, T.tr(c));
    auto num = [&](int v) { return U ? mkInt(v) : Z3_mk_int(ctx, v, bvs(32)); };
    for (E e : sc.special) {
        if (e->w != 256) continue;
        Z3_ast x = T.h(e);
        Z3_func_decl tag = U ? fTag : fTagB, rank = U ? fRank : fRankB;
        Z3_ast tx = Z3_mk_app(ctx, tag, 1, &x);
        if (e->op == E_VAR) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tx, num(100 + (int)varId(e))));
        else if (e->op == E_CONST) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tx, num(-1 - (int)e->id)));
        else if (U) {
            std::vector<E> ps;
            hPieces(e->k[0], ps);
            Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tx, mkInt((int)ps.size())));
            Z3_ast rx = Z3_mk_app(ctx, rank, 1, &x);
            for (u32 i = 0; i < ps.size(); i++) {
                Z3_ast y = T.h(ps[i]);
                Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, Z3_mk_app(ctx, Tr::invU((u32)ps.size(), i), 1, &x), y));
                Z3_solver_assert(ctx, s, Z3_mk_gt(ctx, rx, Z3_mk_app(ctx, rank, 1, &y)));
            }
        } else {
            Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tx, num((int)(e->k[0]->w / 8 % 64))));
            Tr::hashB(e->k[0]->w, 256);
            Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, Z3_mk_app(ctx, fInvB[e->k[0]->w * 1024 + 256], 1, &x), T.tr(e->k[0])));
            std::vector<E> ps;
            Z3_ast rx = Z3_mk_app(ctx, rank, 1, &x);
            if (hPieces(e->k[0], ps)) for (E q : ps) { Z3_ast y = T.tr(q); Z3_solver_assert(ctx, s, Z3_mk_bvugt(ctx, rx, Z3_mk_app(ctx, rank, 1, &y))); }
        }
    }
    Z3_lbool lb = Z3_solver_check(ctx, s);
    Res res = lb == Z3_L_TRUE ? R_SAT : lb == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (res == R_UNKNOWN && gDumpUnknown) fprintf(stderr, "symx: unknown: %s\n%s\n", Z3_solver_get_reason_unknown(ctx, s), Z3_solver_to_string(ctx, s));
    if (res == R_SAT) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        if (model.size() < gVars.size()) model.resize(gVars.size());
        auto evalA = [&](Z3_ast a) { Z3_ast v = nullptr; if (!Z3_model_eval(ctx, m, a, true, &v)) { fprintf(stderr, "symx: model eval\n"); _exit(3); } return v; };
        // bit-vector variables
        std::vector<E> hv;
        for (E v : sc.vars) {
            if (varKind(v) == VK_ATOM) continue; // atoms keep their value
            if (v->w == 256 && (U || sc.anyHash)) { hv.push_back(v); if (U) continue; }
            Z3_ast a = evalA(T.tr(v));
            if (v->w == 1) model[varId(v)] = Words(1, Z3_get_bool_value(ctx, a) == Z3_L_TRUE);
            else model[varId(v)] = numVal(a, v->w);
        }
        if (!hv.empty()) {
            // equivalence classes of hash terms
            std::map<unsigned, std::vector<E>> cls; // ast id -> special terms
            std::map<unsigned, Words> val;
            std::map<u32, unsigned> elem;
            auto el = [&](E e) -> unsigned {
                auto it = elem.find(e->id);
                if (it != elem.end()) return it->second;
                return elem[e->id] = Z3_get_ast_id(ctx, evalA(T.h(e)));
            };
            for (E e : sc.special) if (e->w == 256) cls[el(e)].push_back(e);
            for (E v : hv) el(v);
            std::function<Words(E)> value = [&](E e) -> Words {
                if (e->op == E_CONST) return ex::cwords(e);
                if (e->op == E_VAR && varKind(e) == VK_ATOM) return model[varId(e)];
                unsigned id = el(e);
                auto it = val.find(id);
                if (it != val.end()) return it->second;
                E best = nullptr;
                auto ci = cls.find(id);
                if (ci != cls.end()) for (E x : ci->second) if (!best || x->op != E_HASH) best = x;
                Words r;
                if (best && best->op == E_HASH) {
                    std::vector<E> ps;
                    Words data(1, 0);
                    if (hPieces(best->k[0], ps)) {
                        data.clear();
                        for (E q : ps) {
                            Words pv = isHTerm(q) ? value(q) : Words();
                            if (pv.empty()) { static u64 mid = 1ull << 62; ex::evalW(q, ++mid, model, pv); }
                            data.insert(data.end(), pv.begin(), pv.end());
                        }
                    } else { static u64 mid = 1ull << 61; ex::evalW(best->k[0], ++mid, model, data); }
                    ex::realHash(data, best->k[0]->w, 256, r);
                } else if (best) r = value(best);
                else if (U) r = freshRandom(256);
                else r = e->op == E_VAR ? model[varId(e)] : freshRandom(256);
                val[id] = r;
                return r;
            };
            for (E v : hv) model[varId(v)] = value(v);
        }
        Z3_model_dec_ref(ctx, m);
        static u64 mid = 1ull << 60;
        auto fails = [&]() -> E {
            mid++;
            for (E c : cs) if (!ex::evalC(c, mid, model)) return c;
            return nullptr;
        };
        E bad = fails();
        if (bad && sc.anyHash) {
            // The condition is about bits of leaf hashes or digests, which the solver knows as ideal. Look for leaf hashes to match.
            std::vector<E> at;
            for (E v : sc.vars) if (varKind(v) == VK_ATOM) at.push_back(v);
            std::vector<Words> keep = model;
            for (int k = 0; bad && !at.empty() && k < 100000; k++) {
                for (E v : at) model[varId(v)] = freshRandom(256);
                bad = fails();
            }
            if (bad) model = keep;
        }
        if (bad) {
            if (gDumpUnknown) fprintf(stderr, "symx: model does not satisfy %s\n", ex::str(bad, 8).c_str());
            gSolver.badmodel++;
            res = R_UNKNOWN;
        }
    }
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.queries++;
    gSolver.secs += dt;
    gSolver.maxsecs = std::max(gSolver.maxsecs, dt);
    if (res == R_SAT) gSolver.sat++; else if (res == R_UNSAT) gSolver.unsat++; else gSolver.unknown++;
    return res;
}

Res z3equalCut(E a, E b, const std::vector<bool>& open)
{
    init();
    auto t0 = std::chrono::steady_clock::now();
    static std::vector<Z3_ast> local;
    static std::vector<u32> used;
    if (local.size() < ex::nextId + 16) local.resize(ex::nextId + 4096, nullptr);
    for (u32 i : used) local[i] = nullptr;
    used.clear();
    u32 names = 0; // numbered in order of appearance: queries of the same shape are the same query
    static std::map<Z3_ast, Res> known;
    Tr T(local);
    std::function<void(E)> cut = [&](E e) { // give every term at the cut a free value
        if (e->op == E_CONST) { used.push_back(e->id); return; }
        if (T.get(e)) return;
        used.push_back(e->id);
        if (e->id < open.size() && open[e->id]) {
            if (local[e->id]) return;
            for (int i = 0; i < 3; i++) if (e->k[i]) cut(e->k[i]);
            T.tr(e);
            return;
        }
        char buf[32];
        snprintf(buf, 32, "cut%u_%u", e->w, names++);
        T.put(e, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), e->w == 1 ? sBool : bvs(e->w)));
    };
    cut(a);
    cut(b);
    Z3_ast q = Z3_mk_not(ctx, Z3_mk_eq(ctx, T.tr(a), T.tr(b)));
    auto kn = known.find(q);
    if (kn != known.end()) return kn->second;
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 800);
    Z3_solver_set_params(ctx, s, p);
    Z3_solver_assert(ctx, s, q);
    Z3_lbool lb = Z3_solver_check(ctx, s);
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.queries++;
    gSolver.secs += dt;
    gSolver.maxsecs = std::max(gSolver.maxsecs, dt);
    if (lb == Z3_L_TRUE) gSolver.sat++; else if (lb == Z3_L_FALSE) gSolver.unsat++; // no answer over one cut: another cut is tried
    return known[q] = lb == Z3_L_TRUE ? R_SAT : lb == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
}
