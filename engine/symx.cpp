#include <sys/stat.h>
// symx: symbolic execution of LLVM IR with Z3.
#include "ir.h"
#include "solver.h"
#include <chrono>
#include <deque>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using ex::cst;
struct Val { u64 c; E e; };
static inline Val C(u64 v) { return {v, nullptr}; }

// ------------------------------------------------------------------ options and shared results
static std::string optBc, optOut = "/tmp/symx-out", optEntry = "harness";
static int optJobs = 8;
static u64 optMaxInsts = 200000000;
static double optTime = 600;
static bool optHash = true;
static int optMaxViol = 3;
static double optGrace = 10;
static int optSamples = 24;
static bool optVerbose = false;
static u64 optMaxAlloc = 256ull << 20;

struct Shared {
    volatile int active, stop, lock;
    u64 paths, killedAssume, insts, branches, forks, steps, concretized, asserts, assertQueries, cacheHits, candHits;
    u64 queries, sat, unsat, unknown, badmodel;
    u64 solverUs, solverMaxUs;
    double stopAt;
    int nviol, nerr, nsamples, timeout, workers;
    u64 maxConstraints, maxVars;
    int nreach;
    char reach[256][64];
    u64 reachHits[256];
    char err[2048];
    u8 fexec[1 << 16];
};
static Shared* SH;
static void lock() { while (__sync_lock_test_and_set(&SH->lock, 1)) usleep(10); }
static void unlock() { __sync_lock_release(&SH->lock); }

static struct Local { u64 paths = 0, killed = 0, insts = 0, branches = 0, forks = 0, concretized = 0, asserts = 0, assertQueries = 0, cacheHits = 0, candHits = 0, maxC = 0; } L;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;

// ------------------------------------------------------------------ state
enum OKind : u8 { O_GLOBAL, O_HEAP, O_STACK, O_DEAD };
struct Obj { u32 refs; u8 kind; bool ro, cxx; u64 size; u8* data; E* sym; };
static Obj* DEAD;
struct Page { u32 refs; Obj* o[64]; };

static Obj* newObj(u8 kind, u64 size, int fill)
{
    Obj* o = (Obj*)malloc(sizeof(Obj));
    o->refs = 1; o->kind = kind; o->ro = o->cxx = false; o->size = size; o->sym = nullptr;
    o->data = (u8*)malloc(size ? size : 1);
    memset(o->data, fill, size);
    return o;
}
static void decObj(Obj* o)
{
    if (o == DEAD || !o) return;
    if (--o->refs == 0) { free(o->data); free(o->sym); free(o); }
}
static Obj* cloneObj(Obj* s)
{
    Obj* o = (Obj*)malloc(sizeof(Obj));
    *o = *s;
    o->refs = 1;
    o->data = (u8*)malloc(s->size ? s->size : 1);
    memcpy(o->data, s->data, s->size);
    if (s->sym) { o->sym = (E*)malloc(sizeof(E) * s->size); memcpy(o->sym, s->sym, sizeof(E) * s->size); }
    return o;
}

struct Frame { Func* f; u32 pc; u32 base; int retDst; u32 nret; int e0, e1; u32 allocas; };
struct Input { std::string name; E e; u32 bytes; u8 kind; };
struct TraceRec { std::string name; E e; u64 c; u32 w; };
struct Model { std::vector<Words> v; u64 id; };
typedef std::shared_ptr<Model> ModelP;
static u64 nextModel = 1;

static const u32 QUAR = 512;
struct State {
    std::vector<Frame> fr;
    std::vector<Val> regs;
    std::vector<u32> allocas; // object ids of live stack objects
    std::vector<Page*> pages;
    u32 nextObj;
    u32 quar[QUAR]; u32 qh = 0, qn = 0;
    std::vector<E> pc;
    VS pinned{};
    u32 factK[512]; u8 factV[512];
    ModelP model;
    std::vector<Input> inputs;
    std::vector<TraceRec> trace;
    std::map<u64, std::vector<E>> hctx;
    std::map<u64, u8> hkind;
    u64 insts = 0, news = 0; // news: bytes (and 16 per object) from operator new, not deleted
    std::vector<u32> nvars; // per sort
    u64 exObj = 0, exType = 0;
    std::string exName;
    std::vector<std::pair<u64, u64>> caught;
    u32 depth = 0;

    State() { memset(factK, 0, sizeof factK); }
    State(const State& o) = default;
    ~State() { for (Page* p : pages) decPage(p); }
    static void decPage(Page* p)
    {
        if (!p || --p->refs) return;
        for (Obj* o : p->o) decObj(o);
        free(p);
    }
};
static State* cloneState(State& S)
{
    State* n = new State(S);
    for (Page* p : n->pages) if (p) p->refs++;
    return n;
}
struct Kill {};

static Module* M;
static std::deque<State*> work;
static std::vector<std::string> gNames;

static std::string curFunc(State& S)
{
    std::string s;
    int n = 0;
    for (size_t i = S.fr.size(); i-- > 0 && n < 12; n++) s += (n ? " < " : "") + S.fr[i].f->name;
    return s;
}

[[noreturn]] static void engineError(State* S, const std::string& msg)
{
    lock();
    if (!SH->nerr++) snprintf(SH->err, sizeof SH->err, "%s [%s]", msg.c_str(), S ? curFunc(*S).c_str() : "");
    SH->stop = 1;
    unlock();
    throw Kill();
}

static void writeInputs(State& S, const std::vector<Words>& m, u64 id, const std::string& path, const std::string& kind, const std::string& msg)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "# kind %s\n# msg %s\n# where %s\n", kind.c_str(), msg.c_str(), curFunc(S).c_str());
    for (Input& in : S.inputs) {
        Words w;
        ex::evalW(in.e, id, m, w);
        fprintf(f, "in %s %u ", in.name.c_str(), in.bytes);
        for (u32 i = 0; i < in.bytes; i++) fprintf(f, "%02x", i / 8 < w.size() ? (u8)(w[i / 8] >> (8 * (i % 8))) : 0);
        fprintf(f, "\n");
    }
    for (TraceRec& t : S.trace) {
        fprintf(f, "tr %s ", t.name.c_str());
        if (!t.e) fprintf(f, "%llx\n", (unsigned long long)t.c);
        else {
            Words w;
            ex::evalW(t.e, id, m, w);
            if (t.w <= 64) fprintf(f, "%llx\n", (unsigned long long)w[0]);
            else { for (u32 i = 0; i < t.w / 8; i++) fprintf(f, "%02x", (u8)(w[i / 8] >> (8 * (i % 8)))); fprintf(f, "\n"); }
        }
    }
    fclose(f);
}
static void violation(State& S, const std::vector<Words>& m, const std::string& kind, const std::string& msg)
{
    lock();
    int n = SH->nviol++;
    if (SH->nviol >= optMaxViol) SH->stop = 1;
    if (n == 0) SH->stopAt = now() + optGrace; // look a little longer for further violations
    unlock();
    if (n < optMaxViol) {
        char b[32];
        snprintf(b, 32, "/viol.%d", n);
        writeInputs(S, m, ++nextModel, optOut + b, kind, msg);
    }
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg)
{
    violation(S, S.model->v, kind, msg);
    throw Kill();
}

// ------------------------------------------------------------------ memory
static inline Obj* getObj(State& S, u32 id)
{
    u32 p = id >> 7; // ids step by 2
    if (p >= S.pages.size() || (id & 1)) return nullptr;
    Page* pg = S.pages[p];
    return pg ? pg->o[(id >> 1) & 63] : nullptr;
}
static Page* wpage(State& S, u32 p)
{
    if (p >= S.pages.size()) S.pages.resize(p + 1, nullptr);
    Page*& pg = S.pages[p];
    if (!pg) { pg = (Page*)calloc(1, sizeof(Page)); pg->refs = 1; }
    else if (pg->refs > 1) {
        Page* n = (Page*)malloc(sizeof(Page));
        *n = *pg;
        n->refs = 1;
        for (Obj* o : n->o) if (o && o != DEAD) o->refs++;
        pg->refs--;
        pg = n;
    }
    return pg;
}
static void putObj(State& S, u32 id, Obj* o) { wpage(S, id >> 7)->o[(id >> 1) & 63] = o; }
static inline Obj* wobj(State& S, u32 id)
{
    u32 p = id >> 7;
    Page* pg = S.pages[p];
    if (pg->refs > 1) pg = wpage(S, p);
    Obj*& o = pg->o[(id >> 1) & 63];
    if (o->refs > 1) { Obj* n = cloneObj(o); o->refs--; o = n; }
    return o;
}
static u32 allocObj(State& S, u8 kind, u64 size, int fill)
{
    u32 id;
    if (S.qn == QUAR) { id = S.quar[S.qh]; S.qh = (S.qh + 1) % QUAR; S.qn--; }
    else { id = S.nextObj; S.nextObj += 2; }
    putObj(S, id, newObj(kind, size, fill));
    return id;
}
static void freeObj(State& S, u32 id)
{
    Page* pg = wpage(S, id >> 7);
    Obj*& o = pg->o[(id >> 1) & 63];
    decObj(o);
    o = DEAD;
    if (S.qn == QUAR) { S.qh = (S.qh + 1) % QUAR; S.qn--; }
    S.quar[(S.qh + S.qn) % QUAR] = id;
    S.qn++;
}
static Obj* access(State& S, u64 addr, u64 n, const char* what)
{
    u32 id = (u32)(addr >> OBJ_SHIFT);
    u64 off = addr & 0xffffffffull;
    Obj* o = getObj(S, id);
    if (!o) { char b[160]; snprintf(b, 160, "%s of %llu bytes at %s (address %llx)", what, (unsigned long long)n, id == 0 ? "null" : "an invalid address", (unsigned long long)addr); fail(S, "memory", b); }
    if (o == DEAD) { char b[160]; snprintf(b, 160, "%s of %llu bytes in a freed object", what, (unsigned long long)n); fail(S, "memory", b); }
    if (off + n > o->size) { char b[160]; snprintf(b, 160, "%s of %llu bytes at offset %llu of an object of %llu bytes", what, (unsigned long long)n, (unsigned long long)off, (unsigned long long)o->size); fail(S, "memory", b); }
    return o;
}
static inline E byteE(Obj* o, u64 i) { return o->sym && o->sym[i] ? o->sym[i] : cst(o->data[i], 8); }
static E readE(Obj* o, u64 off, u64 n)
{
    // fast path: consecutive bytes of one expression
    if (o->sym && o->sym[off]) {
        E f = o->sym[off];
        if (f->op == E_EXTRACT) {
            E base = f->k[0];
            u64 lo = f->val;
            u64 i = 1;
            for (; i < n; i++) {
                E g = o->sym[off + i];
                if (!g || g->op != E_EXTRACT || g->k[0] != base || g->val != lo + 8 * i) break;
            }
            if (i == n && lo + 8 * n <= base->w) return ex::extract(base, (u32)lo, (u32)(8 * n));
        }
    }
    E r = byteE(o, off);
    for (u64 i = 1; i < n; i++) r = ex::concat(byteE(o, off + i), r);
    return r;
}
static Val readVal(Obj* o, u64 off, u32 w)
{
    u64 n = (w + 7) / 8;
    bool sym = false;
    if (o->sym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
    if (!sym && w <= 64) {
        u64 v = 0;
        memcpy(&v, o->data + off, n);
        return C(v & maskw(w));
    }
    E e = readE(o, off, n);
    if (e->w != w) e = ex::extract(e, 0, w);
    if (ex::isC(e) && w <= 64) return C(e->val);
    return {0, e};
}
static void writeE(Obj* o, u64 off, E e)
{
    // e has whole bytes
    u64 n = e->w / 8;
    if (ex::isC(e)) {
        Words v = ex::cwords(e);
        for (u64 i = 0; i < n; i++) { o->data[off + i] = (u8)(v[i / 8] >> (8 * (i % 8))); if (o->sym) o->sym[off + i] = nullptr; }
        return;
    }
    if (!o->sym) o->sym = (E*)calloc(o->size ? o->size : 1, sizeof(E));
    for (u64 i = 0; i < n; i++) {
        E b = ex::extract(e, (u32)(8 * i), 8);
        if (ex::isC(b)) { o->data[off + i] = (u8)b->val; o->sym[off + i] = nullptr; }
        else o->sym[off + i] = b;
    }
}
static void writeVal(Obj* o, u64 off, Val v, u32 w)
{
    u64 n = (w + 7) / 8;
    if (!v.e) {
        u64 x = v.c;
        if (n <= 8) memcpy(o->data + off, &x, n);
        else { memset(o->data + off, 0, n); memcpy(o->data + off, &x, 8); }
        if (o->sym) memset(o->sym + off, 0, n * sizeof(E));
        return;
    }
    E e = v.e;
    if (w % 8) e = ex::zext(e, (u32)n * 8);
    writeE(o, off, e);
}

// ------------------------------------------------------------------ solver interface
struct CacheEnt { Res r; std::vector<std::pair<u32, Words>> asg; };
struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> qcache;
static std::deque<ModelP> recent;

static void sliceFor(State& S, E c, std::vector<E>& out, VS& vs)
{
    vs = c->vs;
    std::vector<char> used(S.pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = S.pc.size(); i-- > 0;)
            if (!used[i] && S.pc[i]->vs.meets(vs)) {
                used[i] = 1;
                out.push_back(S.pc[i]);
                if (!S.pc[i]->vs.subset(vs)) { vs.add(S.pc[i]->vs); ch = true; }
            }
    }
}
static Res checkSat(State& S, E c, ModelP& out)
{
    if (ex::isC(c)) { if (!c->val) return R_UNSAT; out = S.model; return R_SAT; }
    std::vector<E> q;
    VS vs;
    sliceFor(S, c, q, vs);
    q.push_back(c);
    std::vector<u32> key;
    for (E e : q) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    auto mkModel = [&]() { ModelP m = std::make_shared<Model>(); m->v = S.model->v; m->id = ++nextModel; if (m->v.size() < gVars.size()) m->v.resize(gVars.size()); return m; };
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        L.cacheHits++;
        if (it->second.r == R_SAT) { out = mkModel(); for (auto& p : it->second.asg) out->v[p.first] = p.second; }
        return it->second.r;
    }
    int tries = 0;
    for (ModelP& r : recent) {
        if (++tries > 6) break;
        bool ok = true; // a candidate has to give every variable of the query a value
        for (u32 v = 0; v < gVars.size() && ok; v++) if (vs.get(v) && (v >= r->v.size() || r->v[v].empty())) ok = false;
        for (size_t i = q.size(); i-- > 0 && ok;) ok = ex::evalC(q[i], r->id, r->v);
        if (ok) {
            L.candHits++;
            out = mkModel();
            for (u32 v = 0; v < gVars.size() && v < r->v.size(); v++) if (vs.get(v)) out->v[v] = r->v[v];
            return R_SAT;
        }
    }
    std::vector<Words> m = S.model->v;
    Res r = z3solve(q, m);
    CacheEnt ce;
    ce.r = r;
    if (r == R_SAT) {
        out = std::make_shared<Model>();
        out->v = m;
        out->id = ++nextModel;
        for (u32 v = 0; v < gVars.size(); v++) if (vs.get(v) && v < m.size()) ce.asg.push_back({v, m[v]});
        recent.push_front(out);
        if (recent.size() > 8) recent.pop_back();
    }
    if (r == R_UNKNOWN) engineError(&S, "solver gave no answer");
    qcache.emplace(std::move(key), std::move(ce));
    return r;
}
static void addFact(State& S, E c, bool v) { u32 i = c->id & 511; S.factK[i] = c->id; S.factV[i] = v; }
static void addConstraint(State& S, E c)
{
    if (ex::isC(c)) return;
    if (c->op == E_AND) { addConstraint(S, c->k[0]); addConstraint(S, c->k[1]); addFact(S, c, true); return; }
    S.pc.push_back(c);
    L.maxC = std::max<u64>(L.maxC, S.pc.size());
    addFact(S, c, true);
    E v = c;
    if (c->w == 1 && c->op == E_XOR && ex::isC(c->k[1])) v = c->k[0];
    if (v->op == E_VAR) S.pinned.set(varId(v));
    else if (c->op == E_EQ && c->k[0]->op == E_VAR && ex::isC(c->k[1])) S.pinned.set(varId(c->k[0]));
}
static void maybeSplit();

// decide a condition; the other direction, if possible, is queued as a sibling that re-executes this instruction
static bool branch(State& S, E c, bool doSplit = true)
{
    if (ex::isC(c)) return c->val;
    L.branches++;
    if (c->vs.subset(S.pinned)) return ex::evalC(c, S.model->id, S.model->v);
    if (S.factK[c->id & 511] == c->id) return S.factV[c->id & 511];
    E nc = ex::notE(c);
    if (S.factK[nc->id & 511] == nc->id) return !S.factV[nc->id & 511];
    for (E f : S.pc) { if (f == c) return true; if (f == nc) return false; }
    bool mv = ex::evalC(c, S.model->id, S.model->v);
    E taken = mv ? c : nc, other = mv ? nc : c;
    ModelP m;
    Res r = checkSat(S, other, m);
    if (r == R_SAT) {
        State* n = cloneState(S);
        n->model = m;
        n->depth++;
        S.depth++;
        addConstraint(*n, other);
        work.push_back(n);
        L.forks++;
        addConstraint(S, taken);
        if (doSplit) maybeSplit();
    } else addFact(S, taken, true);
    return mv;
}
static u64 concretize(State& S, E e)
{
    if (ex::isC(e)) return e->val;
    u64 v = ex::evalC(e, S.model->id, S.model->v);
    if (e->vs.subset(S.pinned)) return v;
    E c = ex::eq(e, cst(v, e->w));
    if (ex::isC(c)) return v;
    bool known = S.factK[c->id & 511] == c->id && S.factV[c->id & 511];
    if (!known) for (E f : S.pc) if (f == c) { known = true; break; }
    if (known) return v;
    L.concretized++;
    ModelP m;
    E nc = ex::notE(c);
    if (checkSat(S, nc, m) == R_SAT) {
        State* n = cloneState(S);
        n->model = m;
        n->depth++;
        addConstraint(*n, nc);
        work.push_back(n);
        L.forks++;
        addConstraint(S, c);
        maybeSplit();
    } else addConstraint(S, c);
    return v;
}
static u64 conc(State& S, Val v) { return v.e ? concretize(S, v.e) : v.c; }

// address with possible symbolic part, restricted to one object first
static u64 concAddr(State& S, Val p, u64 n)
{
    if (!p.e) return p.c;
    E e = p.e;
    if (ex::isC(e)) return e->val;
    u64 v = ex::evalC(e, S.model->id, S.model->v);
    if (e->vs.subset(S.pinned)) return v;
    u64 base = v & ~0xffffffffull;
    Obj* o = getObj(S, (u32)(v >> OBJ_SHIFT));
    if (o && o != DEAD && (v & 0xffffffff) + n <= o->size) {
        // inside an object: separate the rest of the address space once
        E in = ex::mk(E_ULE, ex::mk(E_ADD, e, cst(0 - base, 64)), cst(o->size - n, 64));
        branch(S, in);
    } else {
        // outside every object under the current model: this is the failing access
        return v;
    }
    return concretize(S, e);
}

// ------------------------------------------------------------------ work splitting over processes
static double lastSplit = 0;
static void flushStats();
static bool isChild = false;
static void maybeSplit()
{
    if (work.empty() || SH->active >= optJobs || SH->stop) return;
    double t = now();
    if (t - lastSplit < 0.02) return;
    lock();
    if (SH->active >= optJobs || SH->stop) { unlock(); return; }
    SH->active++;
    SH->workers++;
    unlock();
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) { lock(); SH->active--; unlock(); return; }
    size_t give = (work.size() + 1) / 2;
    lastSplit = now();
    if (p == 0) {
        isChild = true;
        L = Local();
        gSolver = SolverStats();
        std::deque<State*> keep(work.begin(), work.begin() + give);
        work.swap(keep); // the states kept by the parent are abandoned here
        throw 1; // unwind to the worker loop, dropping the running state
    }
    // parent: drop what was given away
    for (size_t i = 0; i < give; i++) { delete work.front(); work.pop_front(); }
}

// ------------------------------------------------------------------ execution
static inline E toE(Val v, u32 w) { return v.e ? v.e : cst(v.c, w); }
static inline Val fromE(E e) { return ex::isC(e) && e->w <= 64 ? C(e->val) : Val{0, e}; }
static u64 evalAddrByName(const std::string& n) { for (auto& g : M->globals) if (g.name == n) return g.addr; return 0; }

static void pushFrame(State& S, Func* f, const Val* args, size_t n, int retDst, u32 nret, int e0, int e1)
{
    if (f->id < sizeof SH->fexec) SH->fexec[f->id] = 1;
    if (S.fr.size() > 4000) fail(S, "stack", "call depth over 4000");
    Frame F;
    F.f = f; F.pc = 0; F.base = (u32)S.regs.size(); F.retDst = retDst; F.nret = nret; F.e0 = e0; F.e1 = e1; F.allocas = (u32)S.allocas.size();
    if (n != f->argw.size() && !f->vararg) engineError(&S, "argument count calling " + f->name);
    std::vector<Val> a(args, args + n);
    S.regs.resize(F.base + f->nslots, Val{0, nullptr});
    for (size_t i = 0; i < n && i < f->argw.size(); i++) S.regs[F.base + i] = a[i];
    S.fr.push_back(F);
}
static void takeEdge(State& S, int e)
{
    Edge& ed = M->edges[e];
    Frame& F = S.fr.back();
    if (ed.ln) {
        Val* R = &S.regs[F.base];
        int* l = &M->lists[ed.lo];
        if (ed.ln == 2) R[l[0]] = l[1] >= 0 ? R[l[1]] : Val{M->consts[~l[1]].c, M->consts[~l[1]].e};
        else {
            Val tmp[64];
            std::vector<Val> big;
            Val* t = tmp;
            u32 n = ed.ln / 2;
            if (n > 64) { big.resize(n); t = big.data(); }
            for (u32 i = 0; i < n; i++) { int o = l[2 * i + 1]; t[i] = o >= 0 ? R[o] : Val{M->consts[~o].c, M->consts[~o].e}; }
            for (u32 i = 0; i < n; i++) R[l[2 * i]] = t[i];
        }
    }
    F.pc = ed.pc;
}
static void popFrame(State& S)
{
    Frame F = S.fr.back();
    while (S.allocas.size() > F.allocas) { freeObj(S, S.allocas.back()); S.allocas.pop_back(); }
    S.regs.resize(F.base);
    S.fr.pop_back();
}
static u64 rd64(State& S, u64 a)
{
    Obj* o = access(S, a, 8, "read");
    Val v = readVal(o, a & 0xffffffff, 64);
    return conc(S, v);
}
static std::string cstr(State& S, u64 a)
{
    std::string s;
    for (;;) {
        Obj* o = access(S, a, 1, "read");
        u64 off = a & 0xffffffff;
        Val v = readVal(o, off, 8);
        u64 c = conc(S, v);
        if (!c) break;
        s += (char)c;
        a++;
        if (s.size() > 4096) break;
    }
    return s;
}
// type_info: { vptr, name, base } ; name of external ones is their symbol
static std::string tiName(u64 ti)
{
    for (auto& g : M->globals) if (g.addr == ti) return g.name;
    return "?";
}
static bool tiDerived(State& S, u64 ti, u64 base)
{
    for (int i = 0; i < 20 && ti; i++) {
        if (ti == base) return true;
        GlobalInit* gi = nullptr;
        for (auto& g : M->globals) if (g.addr == ti) gi = &g;
        if (!gi || gi->decl || gi->size < 24) break;
        u64 vp;
        memcpy(&vp, &gi->bytes[0], 8);
        std::string vn = tiName(vp & ~0xffffffffull);
        if (vn.find("__si_class_type_info") == std::string::npos) break;
        memcpy(&ti, &gi->bytes[16], 8);
    }
    std::string bn = tiName(base);
    if (bn == "_ZTISt9exception") return true;
    return false;
}
static void unwind(State& S)
{
    for (;;) {
        if (S.fr.empty()) fail(S, "exception", "uncaught exception " + S.exName);
        Frame F = S.fr.back();
        popFrame(S);
        if (S.fr.empty()) fail(S, "exception", "uncaught exception " + S.exName);
        if (F.e1 >= 0) {
            // the landing pad decides
            takeEdge(S, F.e1);
            Frame& G = S.fr.back();
            Inst& I = G.f->code[G.pc];
            if (I.op != I_LANDING) engineError(&S, "unwind target without landingpad");
            u64 sel = 0;
            bool match = false;
            for (u32 i = 0; i < I.ln; i++) {
                u64 cl = M->consts[~M->lists[I.lo + i]].c;
                if (cl == 0) { match = true; sel = 0x7fffffff; break; }
                if (cl == 1) continue;
                if (tiDerived(S, S.exType, cl)) { match = true; sel = (cl >> OBJ_SHIFT) & 0x7fffffff; break; }
            }
            if (!match && !I.imm) continue;
            S.regs[G.base + I.dst] = C(S.exObj);
            S.regs[G.base + I.dst + 1] = C(match ? sel : 0);
            G.pc++;
            return;
        }
    }
}
static void raise(State& S, const std::string& name, u64 obj, u64 type)
{
    S.exObj = obj;
    S.exType = type;
    S.exName = name;
    Frame& F = S.fr.back();
    Inst& I = F.f->code[F.pc];
    // the throwing call itself may be an invoke in this frame
    Frame tmp;
    tmp.f = F.f; tmp.pc = 0; tmp.base = (u32)S.regs.size(); tmp.retDst = -1; tmp.nret = 0; tmp.e0 = I.e0; tmp.e1 = I.e1; tmp.allocas = (u32)S.allocas.size();
    S.fr.push_back(tmp);
    unwind(S);
}
static void raiseStd(State& S, const std::string& name)
{
    u32 id = allocObj(S, O_HEAP, 64, 0);
    if (u64 vt = evalAddrByName("_ZTV" + name.substr(4))) writeVal(wobj(S, id), 0, C(vt + 16), 64);
    raise(S, name, objAddr(id), evalAddrByName(name));
}

// ------------------------------------------------------------------ builtins
struct Ctx { State& S; Inst& I; Val* a; size_t n; Val ret; bool hasRet; };
enum HR { H_DONE, H_JUMPED };
typedef HR (*Handler)(Ctx&);
static std::vector<Handler> handlers;
static std::map<std::string, Handler> byName;
struct Reg { Reg(const char* n, Handler h) { byName[n] = h; } };

static void copyBytes(State& S, u64 d, u64 s, u64 n)
{
    if (!n) return;
    Obj* so = access(S, s, n, "read");
    access(S, d, n, "write");
    u32 did = (u32)(d >> OBJ_SHIFT);
    u64 so_ = s & 0xffffffff, do_ = d & 0xffffffff;
    if (did == (u32)(s >> OBJ_SHIFT)) {
        Obj* o = wobj(S, did);
        memmove(o->data + do_, o->data + so_, n);
        if (o->sym) memmove(o->sym + do_, o->sym + so_, n * sizeof(E));
        return;
    }
    so->refs++; // keep alive over the copy on write
    Obj* o = wobj(S, did);
    if (o->ro) fail(S, "memory", "write to constant data");
    memcpy(o->data + do_, so->data + so_, n);
    if (so->sym) {
        bool any = false;
        for (u64 i = 0; i < n; i++) if (so->sym[so_ + i]) { any = true; break; }
        if (any && !o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
        if (o->sym) memcpy(o->sym + do_, so->sym + so_, n * sizeof(E));
    } else if (o->sym) memset(o->sym + do_, 0, n * sizeof(E));
    decObj(so);
}
static HR h_memcpy(Ctx& c)
{
    u64 n = conc(c.S, c.a[2]);
    if (n) { u64 d = concAddr(c.S, c.a[0], n), s = concAddr(c.S, c.a[1], n); copyBytes(c.S, d, s, n); }
    c.ret = c.a[0];
    return H_DONE;
}
static HR h_memset(Ctx& c)
{
    u64 n = conc(c.S, c.a[2]);
    c.ret = c.a[0];
    if (!n) return H_DONE;
    u64 d = concAddr(c.S, c.a[0], n);
    access(c.S, d, n, "write");
    Obj* o = wobj(c.S, (u32)(d >> OBJ_SHIFT));
    u64 off = d & 0xffffffff;
    Val v = c.a[1];
    if (v.e) {
        E b = ex::extract(v.e, 0, 8);
        if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
        for (u64 i = 0; i < n; i++) o->sym[off + i] = b;
    } else {
        memset(o->data + off, (int)v.c, n);
        if (o->sym) memset(o->sym + off, 0, n * sizeof(E));
    }
    return H_DONE;
}
static HR h_memcmp(Ctx& c)
{
    // three-way on the big-endian value for memcmp; bcmp only needs zero or not
    u64 n = conc(c.S, c.a[2]);
    if (!n) { c.ret = C(0); return H_DONE; }
    u64 x = concAddr(c.S, c.a[0], n), y = concAddr(c.S, c.a[1], n);
    Obj *p = access(c.S, x, n, "read"), *q = access(c.S, y, n, "read");
    u64 po = x & 0xffffffff, qo = y & 0xffffffff;
    bool sym = false;
    for (u64 i = 0; i < n && !sym; i++) sym = (p->sym && p->sym[po + i]) || (q->sym && q->sym[qo + i]);
    if (!sym) { int r = memcmp(p->data + po, q->data + qo, n); c.ret = C((u32)(r < 0 ? -1 : r > 0)); return H_DONE; }
    E a = readE(p, po, n), b = readE(q, qo, n);
    E e = ex::eq(a, b);
    if (ex::isC(e) && e->val) { c.ret = C(0); return H_DONE; }
    E lt;
    {
        auto rev = [&](Obj* o, u64 off) { E r = byteE(o, off); for (u64 i = 1; i < n; i++) r = ex::concat(r, byteE(o, off + i)); return r; };
        lt = ex::mk(E_ULT, rev(p, po), rev(q, qo));
    }
    c.ret = fromE(ex::ite(e, cst(0, 32), ex::ite(lt, cst(0xffffffff, 32), cst(1, 32))));
    return H_DONE;
}
static HR h_bcmp(Ctx& c)
{
    u64 n = conc(c.S, c.a[2]);
    if (!n) { c.ret = C(0); return H_DONE; }
    u64 x = concAddr(c.S, c.a[0], n), y = concAddr(c.S, c.a[1], n);
    Obj *p = access(c.S, x, n, "read"), *q = access(c.S, y, n, "read");
    u64 po = x & 0xffffffff, qo = y & 0xffffffff;
    bool sym = false;
    for (u64 i = 0; i < n && !sym; i++) sym = (p->sym && p->sym[po + i]) || (q->sym && q->sym[qo + i]);
    if (!sym) { c.ret = C(memcmp(p->data + po, q->data + qo, n) != 0); return H_DONE; }
    E e = ex::eq(readE(p, po, n), readE(q, qo, n));
    c.ret = fromE(ex::zext(ex::notE(e), 32));
    return H_DONE;
}
static HR h_strlen(Ctx& c) { u64 p = conc(c.S, c.a[0]); c.ret = C(cstr(c.S, p).size()); return H_DONE; }
static HR h_strcmp(Ctx& c)
{
    std::string a = cstr(c.S, conc(c.S, c.a[0])), b = cstr(c.S, conc(c.S, c.a[1]));
    int r = a.compare(b);
    c.ret = C((u32)(r < 0 ? -1 : r > 0));
    return H_DONE;
}
static HR h_malloc(Ctx& c)
{
    if (c.a[0].e) {
        E big = ex::mk(E_ULT, cst(optMaxAlloc, 64), c.a[0].e);
        if (branch(c.S, big)) { raiseStd(c.S, "_ZTISt9bad_alloc"); return H_JUMPED; }
    }
    u64 n = conc(c.S, c.a[0]);
    if (n > optMaxAlloc) { raiseStd(c.S, "_ZTISt9bad_alloc"); return H_JUMPED; }
    c.ret = C(objAddr(allocObj(c.S, O_HEAP, n, 0xbe)));
    return H_DONE;
}
static HR h_new(Ctx& c)
{
    HR r = h_malloc(c);
    if (r == H_DONE) {
        Obj* o = wobj(c.S, (u32)(c.ret.c >> OBJ_SHIFT));
        o->cxx = true;
        c.S.news += o->size + 16;
    }
    return r;
}
static HR h_newnothrow(Ctx& c)
{
    if (conc(c.S, c.a[0]) > optMaxAlloc) { c.ret = C(0); return H_DONE; }
    return h_new(c);
}
static HR h_first(Ctx& c) { c.ret = c.a[0]; return H_DONE; }
static HR h_heap(Ctx& c) { c.ret = C(c.S.news); return H_DONE; }
static HR h_calloc(Ctx& c)
{
    u64 a = conc(c.S, c.a[0]), b = conc(c.S, c.a[1]);
    if (b && a > optMaxAlloc / b) { c.ret = C(0); return H_DONE; }
    u32 i = allocObj(c.S, O_HEAP, a * b, 0);
    Obj* o = wobj(c.S, i);
    memset(o->data, 0, a * b);
    c.ret = C(objAddr(i));
    return H_DONE;
}
static HR h_free(Ctx& c)
{
    u64 p = conc(c.S, c.a[0]);
    if (!p) return H_DONE;
    Obj* o = getObj(c.S, (u32)(p >> OBJ_SHIFT));
    if (o == DEAD) fail(c.S, "memory", "double free");
    if (!o || o->kind != O_HEAP || (p & 0xffffffff)) fail(c.S, "memory", "free of a pointer that was not allocated");
    if (o->cxx) c.S.news -= o->size + 16;
    freeObj(c.S, (u32)(p >> OBJ_SHIFT));
    return H_DONE;
}
static HR h_nop(Ctx& c) { c.ret = C(0); return H_DONE; }
static HR h_abort(Ctx& c) { fail(c.S, "abort", "abort() called"); }
static HR h_assert(Ctx& c)
{
    std::string e = cstr(c.S, conc(c.S, c.a[0])), f = cstr(c.S, conc(c.S, c.a[1]));
    fail(c.S, "assert", "internal assertion failed: " + e + " (" + f + ":" + std::to_string(c.a[2].c) + ")");
}
static HR h_glassert(Ctx& c)
{
    std::string f = cstr(c.S, conc(c.S, c.a[0])), e = cstr(c.S, conc(c.S, c.a[3]));
    fail(c.S, "memory", "library precondition failed: " + e + " (" + f + ":" + std::to_string(c.a[1].c) + ")");
}
static HR h_trap(Ctx& c) { fail(c.S, "trap", "trap"); }
static HR h_terminate(Ctx& c) { fail(c.S, "exception", "std::terminate after " + c.S.exName); }
static HR h_exalloc(Ctx& c) { c.ret = C(objAddr(allocObj(c.S, O_HEAP, conc(c.S, c.a[0]) + 64, 0))); return H_DONE; }
static HR h_throw(Ctx& c) { u64 o = conc(c.S, c.a[0]), t = conc(c.S, c.a[1]); raise(c.S, tiName(t), o, t); return H_JUMPED; }
static HR h_begincatch(Ctx& c) { c.S.caught.push_back({c.S.exObj, c.S.exType}); c.ret = c.a[0]; return H_DONE; }
static HR h_endcatch(Ctx& c) { if (!c.S.caught.empty()) c.S.caught.pop_back(); return H_DONE; }
static HR h_rethrow(Ctx& c)
{
    if (c.S.caught.empty()) fail(c.S, "exception", "rethrow without exception");
    auto p = c.S.caught.back();
    raise(c.S, c.S.exName, p.first, p.second);
    return H_JUMPED;
}
static HR h_typeid(Ctx& c) { u64 t = c.a[0].c; c.ret = C(t ? (t >> OBJ_SHIFT) & 0x7fffffff : 0x7fffffff); return H_DONE; }
template <const char* const& N> static HR h_throwstd(Ctx& c) { raiseStd(c.S, N); return H_JUMPED; }
static HR h_throwother(Ctx& c) { raiseStd(c.S, "_ZTISt9exception"); return H_JUMPED; }
static HR h_throwalloc(Ctx& c) { raiseStd(c.S, "_ZTISt9bad_alloc"); return H_JUMPED; }
static HR h_dyncast(Ctx& c)
{
    u64 p = conc(c.S, c.a[0]), dst = conc(c.S, c.a[2]);
    c.ret = C(0);
    if (!p) return H_DONE;
    u64 vp = rd64(c.S, p);
    int64_t top = (int64_t)rd64(c.S, vp - 16);
    u64 ti = rd64(c.S, vp - 8);
    for (int i = 0; i < 30 && ti; i++) {
        if (ti == dst) { c.ret = C(p + (u64)top); return H_DONE; }
        u64 tv = rd64(c.S, ti);
        std::string n = tiName(tv & ~0xffffffffull);
        if (n.find("__si_class_type_info") != std::string::npos) ti = rd64(c.S, ti + 16);
        else if (n.find("__vmi_class_type_info") != std::string::npos) engineError(&c.S, "dynamic_cast over multiple inheritance");
        else break;
    }
    return H_DONE;
}
// integer intrinsics, named with their width suffix
static E umaxE(E a, E b) { return ex::ite(ex::mk(E_ULT, a, b), b, a); }
template <int K> static HR h_minmax(Ctx& c)
{
    u32 w = c.I.w;
    E a = toE(c.a[0], w), b = toE(c.a[1], w);
    E r;
    switch (K) {
    case 0: r = umaxE(a, b); break;
    case 1: r = ex::ite(ex::mk(E_ULT, a, b), a, b); break;
    case 2: r = ex::ite(ex::mk(E_SLT, a, b), b, a); break;
    default: r = ex::ite(ex::mk(E_SLT, a, b), a, b);
    }
    c.ret = fromE(r);
    return H_DONE;
}
static HR h_bswap(Ctx& c)
{
    u32 w = c.I.w;
    E a = toE(c.a[0], w);
    E r = ex::extract(a, 0, 8);
    for (u32 i = 8; i < w; i += 8) r = ex::concat(r, ex::extract(a, i, 8));
    c.ret = fromE(r);
    return H_DONE;
}
static HR h_ctpop(Ctx& c)
{
    u32 w = c.I.w;
    if (!c.a[0].e) { c.ret = C((u64)__builtin_popcountll(c.a[0].c)); return H_DONE; }
    E a = c.a[0].e, r = cst(0, w);
    for (u32 i = 0; i < w; i++) r = ex::mk(E_ADD, r, ex::zext(ex::extract(a, i, 1), w));
    c.ret = fromE(r);
    return H_DONE;
}
static HR h_ctlz(Ctx& c)
{
    u32 w = c.I.w;
    E a = toE(c.a[0], w), r = cst(w, w);
    for (u32 i = 0; i < w; i++) r = ex::ite(ex::extract(a, i, 1), cst(w - 1 - i, w), r);
    c.ret = fromE(r);
    return H_DONE;
}
static HR h_cttz(Ctx& c)
{
    u32 w = c.I.w;
    E a = toE(c.a[0], w), r = cst(w, w);
    for (u32 i = w; i-- > 0;) r = ex::ite(ex::extract(a, i, 1), cst(i, w), r);
    c.ret = fromE(r);
    return H_DONE;
}
static HR h_abs(Ctx& c)
{
    u32 w = c.I.w;
    E a = toE(c.a[0], w);
    c.ret = fromE(ex::ite(ex::mk(E_SLT, a, cst(0, w)), ex::mk(E_MUL, a, ex::ones(w)), a));
    return H_DONE;
}
template <bool LEFT> static HR h_fsh(Ctx& c)
{
    u32 w = c.I.w;
    E a = toE(c.a[0], w), b = toE(c.a[1], w);
    E s = ex::mk(E_UREM, toE(c.a[2], w), cst(w, w));
    if (ex::isC(s)) {
        u32 k = (u32)s->val;
        if (!LEFT) { if (k == 0) { c.ret = fromE(b); return H_DONE; } k = w - k; }
        if (k == 0) { c.ret = fromE(LEFT ? a : b); return H_DONE; }
        c.ret = fromE(ex::concat(ex::extract(a, 0, w - k), ex::extract(b, w - k, k)));
        return H_DONE;
    }
    E wide = ex::concat(a, b), sh = ex::zext(s, 2 * w);
    E r = LEFT ? ex::extract(ex::mk(E_SHL, wide, sh), w, w) : ex::extract(ex::mk(E_LSHR, wide, sh), 0, w);
    c.ret = fromE(r);
    return H_DONE;
}
static HR h_usubsat(Ctx& c) { u32 w = c.I.w; E a = toE(c.a[0], w), b = toE(c.a[1], w); c.ret = fromE(ex::ite(ex::mk(E_ULT, a, b), cst(0, w), ex::mk(E_ADD, a, ex::mk(E_MUL, b, ex::ones(w))))); return H_DONE; }
// with.overflow: two results
static void ret2(Ctx& c, E r, E o)
{
    Frame& F = c.S.fr.back();
    c.S.regs[F.base + c.I.dst] = fromE(r);
    c.S.regs[F.base + c.I.dst + 1] = fromE(o);
    c.hasRet = false;
}
static HR h_uaddo(Ctx& c) { u32 w = c.I.w; E a = toE(c.a[0], w), b = toE(c.a[1], w), r = ex::mk(E_ADD, a, b); ret2(c, r, ex::mk(E_ULT, r, a)); return H_DONE; }
static HR h_usubo(Ctx& c) { u32 w = c.I.w; E a = toE(c.a[0], w), b = toE(c.a[1], w); ret2(c, ex::mk(E_ADD, a, ex::mk(E_MUL, b, ex::ones(w))), ex::mk(E_ULT, a, b)); return H_DONE; }
static HR h_umulo(Ctx& c)
{
    u32 w = c.I.w;
    E a = ex::zext(toE(c.a[0], w), 2 * w), b = ex::zext(toE(c.a[1], w), 2 * w), r = ex::mk(E_MUL, a, b);
    ret2(c, ex::extract(r, 0, w), ex::notE(ex::eq(ex::extract(r, w, w), w <= 64 ? cst(0, w) : cst(0, w))));
    return H_DONE;
}
static HR h_objectsize(Ctx& c) { c.ret = C(~0ull); return H_DONE; }
static HR h_expect(Ctx& c) { c.ret = c.a[0]; return H_DONE; }
static HR h_isconst(Ctx& c) { c.ret = C(0); return H_DONE; }

// ---- hashing, kept symbolic
static HR h_shaCtor(Ctx& c)
{
    u64 p = conc(c.S, c.a[0]);
    // arg 1: output size (32 or 64); default constructor: 64
    u64 k = c.n > 1 ? conc(c.S, c.a[1]) & 0xffffffff : 64;
    c.S.hctx[p].clear();
    c.S.hkind[p] = (u8)(k == 32 ? 32 : 64);
    return H_DONE;
}
// A context whose constructor was inlined: recognise its kind by the initial state word.
static void needCtx(Ctx& c, u64 p)
{
    if (c.S.hctx.count(p)) return;
    Obj* o = access(c.S, p, 8, "read");
    E e = readE(o, p & 0xffffffff, 8);
    if (!ex::isC(e) || (ex::cwords(e)[0] != 0x22312194fc2bf72cull && ex::cwords(e)[0] != 0x6a09e667f3bcc908ull)) engineError(&c.S, "operation on an unknown hash context");
    c.S.hctx[p].clear();
    c.S.hkind[p] = ex::cwords(e)[0] == 0x22312194fc2bf72cull ? 32 : 64;
}
static HR h_shaWrite(Ctx& c)
{
    u64 p = conc(c.S, c.a[0]), n = conc(c.S, c.a[2]);
    needCtx(c, p);
    c.ret = c.a[0];
    if (!n) return H_DONE;
    u64 d = concAddr(c.S, c.a[1], n);
    Obj* o = access(c.S, d, n, "read");
    c.S.hctx[p].push_back(readE(o, d & 0xffffffff, n));
    return H_DONE;
}
static E hashOf(const std::vector<E>& v, u32 outw)
{
    if (v.empty()) { Words w; ex::realHash(Words(1, 0), 0, outw, w); return ex::cstw(w, outw); }
    E d = v[0];
    for (size_t i = 1; i < v.size(); i++) d = ex::concat(v[i], d);
    if (ex::isC(d)) { Words w; ex::realHash(ex::cwords(d), d->w, outw, w); return ex::hashE(d, outw); }
    return ex::hashE(d, outw);
}
static HR shaFinal(Ctx& c, u32 outw)
{
    u64 p = conc(c.S, c.a[0]), d = concAddr(c.S, c.a[1], outw / 8);
    needCtx(c, p);
    if (c.S.hkind[p] * 8u != outw) c.S.hctx[p].push_back(cst(0x6b696e646d69736dull, 64)); // not the standard function: some other digest
    access(c.S, d, outw / 8, "write");
    Obj* o = wobj(c.S, (u32)(d >> OBJ_SHIFT));
    writeE(o, d & 0xffffffff, hashOf(c.S.hctx[p], outw));
    return H_DONE;
}
static HR h_shaFinal256(Ctx& c) { return shaFinal(c, 256); }
static HR h_shaFinal512(Ctx& c) { return shaFinal(c, 512); }
static HR h_shaReset(Ctx& c) { u64 p = conc(c.S, c.a[0]); c.S.hctx[p].clear(); c.S.hkind[p] = 64; c.ret = c.a[0]; return H_DONE; }

// ---- harness interface
static u32 newVar(State& S, u32 w, u32 kind, const std::string& name)
{
    // the k-th variable of a sort on a path is the same variable on every path: a number always means one sort
    static std::map<std::pair<u32, u32>, u32> sortIdx;
    static std::vector<std::vector<u32>> ids;
    u32 ti = sortIdx.emplace(std::make_pair(w, kind), (u32)sortIdx.size()).first->second;
    if (ids.size() <= ti) ids.resize(ti + 1);
    if (S.nvars.size() <= ti) S.nvars.resize(ti + 1, 0);
    u32 k = S.nvars[ti]++;
    if (ids[ti].size() <= k) {
        ids[ti].push_back((u32)gVars.size());
        gVars.push_back({w, kind, name});
    }
    u32 id = ids[ti][k];
    if (id >= 64 * VS::N) engineError(&S, "too many symbolic inputs");
    return id;
}
static void setModel(State& S, u32 id, const Words& v)
{
    ModelP m = std::make_shared<Model>();
    m->v = S.model->v;
    if (m->v.size() <= id) m->v.resize(std::max<size_t>(id + 1, gVars.size()));
    m->v[id] = v;
    m->id = ++nextModel;
    S.model = m;
}
static E symInput(State& S, u32 w, u32 bytes, u32 kind, const std::string& name)
{
    u32 id = newVar(S, w, kind, name);
    E v = ex::var(id, w, kind);
    if (kind == VK_ATOM) {
        // a fixed random value, the same on every path
        u64 x = 0x1234567 + id * 0x9E3779B97F4A7C15ull;
        Words ws(nwords(w));
        for (auto& q : ws) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; q = x * 0x2545F4914F6CDD1Dull; }
        setModel(S, id, ws);
    } else setModel(S, id, Words(nwords(w), 0));
    S.inputs.push_back({name, v, bytes, (u8)kind});
    return v;
}
static HR h_sym(Ctx& c)
{
    u64 n = conc(c.S, c.a[1]);
    if (!n) return H_DONE;
    u64 d = concAddr(c.S, c.a[0], n);
    std::string nm = cstr(c.S, conc(c.S, c.a[2]));
    access(c.S, d, n, "write");
    E v = symInput(c.S, (u32)(8 * n), (u32)n, VK_PLAIN, nm);
    writeE(wobj(c.S, (u32)(d >> OBJ_SHIFT)), d & 0xffffffff, v);
    return H_DONE;
}
static HR h_atom(Ctx& c)
{
    u64 d = concAddr(c.S, c.a[0], 32);
    access(c.S, d, 32, "write");
    E v = symInput(c.S, 256, 32, VK_ATOM, "atom");
    writeE(wobj(c.S, (u32)(d >> OBJ_SHIFT)), d & 0xffffffff, v);
    return H_DONE;
}
static HR h_u64(Ctx& c) { std::string nm = cstr(c.S, conc(c.S, c.a[0])); c.ret = {0, symInput(c.S, 64, 8, VK_PLAIN, nm)}; return H_DONE; }
static HR h_u32(Ctx& c) { std::string nm = cstr(c.S, conc(c.S, c.a[0])); c.ret = {0, symInput(c.S, 32, 4, VK_PLAIN, nm)}; return H_DONE; }
static HR h_u8(Ctx& c) { std::string nm = cstr(c.S, conc(c.S, c.a[0])); c.ret = {0, symInput(c.S, 8, 1, VK_PLAIN, nm)}; return H_DONE; }
static HR h_bool(Ctx& c)
{
    std::string nm = cstr(c.S, conc(c.S, c.a[0]));
    c.ret = {0, ex::zext(symInput(c.S, 1, 1, VK_PLAIN, nm), 32)};
    return H_DONE;
}
static HR h_conc(Ctx& c) { c.ret = C(conc(c.S, c.a[0])); return H_DONE; }
static HR h_assume(Ctx& c)
{
    Val v = c.a[0];
    if (!v.e) { if (!v.c) { L.killed++; throw Kill(); } return H_DONE; }
    E t = ex::notE(ex::eq(v.e, cst(0, v.e->w)));
    if (ex::isC(t)) { if (!t->val) { L.killed++; throw Kill(); } return H_DONE; }
    bool mv = ex::evalC(t, c.S.model->id, c.S.model->v);
    if (!mv) {
        ModelP m;
        if (checkSat(c.S, t, m) != R_SAT) { L.killed++; throw Kill(); }
        c.S.model = m;
    }
    addConstraint(c.S, t);
    return H_DONE;
}
static HR h_sxassert(Ctx& c)
{
    L.asserts++;
    Val v = c.a[0];
    if (!v.e) { if (!v.c) fail(c.S, "property", cstr(c.S, conc(c.S, c.a[1]))); return H_DONE; }
    E t = ex::notE(ex::eq(v.e, cst(0, v.e->w)));
    if (ex::isC(t)) { if (!t->val) fail(c.S, "property", cstr(c.S, conc(c.S, c.a[1]))); return H_DONE; }
    L.assertQueries++;
    ModelP m;
    if (!ex::evalC(t, c.S.model->id, c.S.model->v)) fail(c.S, "property", cstr(c.S, conc(c.S, c.a[1])));
    if (checkSat(c.S, ex::notE(t), m) == R_SAT) {
        violation(c.S, m->v, "property", cstr(c.S, conc(c.S, c.a[1])));
        addConstraint(c.S, t);
    } else addFact(c.S, t, true);
    return H_DONE;
}
// Equality of two large terms by SAT sweeping: terms are rebuilt from the leaves up; two terms that agree under a random
// model are proved equal by the solver (over a cut: whatever lies below is arbitrary) and merged. Equal roots: proved.
struct Sweep {
    State& S;
    std::vector<Words> model;
    u64 mid;
    std::unordered_map<u32, E> memo;
    std::unordered_map<u64, std::vector<E>> classes;
    u64 proved = 0, tried = 0;
    Sweep(State& s) : S(s) {}
    u64 sig(E e)
    {
        Words w;
        ex::evalW(e, mid, model, w);
        u64 h = e->w;
        for (u64 x : w) h = (h ^ x) * 0xff51afd7ed558ccdull, h ^= h >> 31;
        return h;
    }
    double lost = 0;
    bool attempt(E a, E b, const std::vector<bool>& open)
    {
        double t = now();
        if (z3equalCut(a, b, open) == R_UNSAT) return true;
        lost += now() - t;
        if (lost > 120) engineError(&S, "undecided equality");
        return false;
    }
    bool prove(E a, E b)
    {
        tried++;
        // terms common to two sums cancel
        E x = a, y = b;
        if (a->w <= 64 && (a->op == E_ADD || b->op == E_ADD)) {
            std::map<u32, int> cnt;
            std::vector<E> ta = ex::sumList(a), tb = ex::sumList(b), ra, rb;
            for (E e : tb) cnt[e->id]++;
            for (E e : ta) if (--cnt[e->id] < 0) ra.push_back(e);
            cnt.clear();
            for (E e : ta) cnt[e->id]++;
            for (E e : tb) if (--cnt[e->id] < 0) rb.push_back(e);
            x = y = cst(0, a->w);
            for (E e : ra) x = ex::mk(E_ADD, x, e);
            for (E e : rb) y = ex::mk(E_ADD, y, e);
            if (x == y) { proved++; return true; }
        }
        { // everything down to the next sums
            std::vector<bool> open(ex::nextId, false);
            std::vector<E> st;
            for (E r : {x, y}) {
                E e = r;
                while (e->op == E_ADD) { open[e->id] = true; st.push_back(e->k[1]); e = e->k[0]; }
                st.push_back(e);
            }
            size_t n = 0;
            while (!st.empty() && n < 600) {
                E e = st.back();
                st.pop_back();
                if (e->op == E_ADD || e->op == E_MUL || e->op == E_HASH || open[e->id]) continue;
                open[e->id] = true;
                n++;
                for (E k : e->k) if (k) st.push_back(k);
            }
            if (attempt(x, y, open)) { proved++; return true; }
        }
        for (int D : {3, 5, 8}) {
            std::vector<bool> open(ex::nextId, false);
            std::vector<E> front = {a, b};
            open[a->id] = open[b->id] = true;
            for (int d = 1; d < D; d++) {
                std::vector<E> nx;
                for (E e : front) for (E k : e->k) if (k && !open[k->id]) { open[k->id] = true; nx.push_back(k); }
                front.swap(nx);
            }
            if (attempt(a, b, open)) { proved++; return true; }
            if (getenv("SX_SWEEP")) fprintf(stderr, "sweep: depth %d not proved\n  %s\n  %s\n", D, ex::str(x, D).c_str(), ex::str(y, D).c_str());
        }
        return false;
    }
    E rep(E e)
    {
        if (ex::isC(e) || e->op == E_VAR || e->w < 16) return e;
        auto& v = classes[sig(e)];
        for (E x : v) if (x == e) return e;
        int n = 0;
        for (E x : v) if (x->w == e->w && n++ < 3 && prove(x, e)) return x;
        v.push_back(e);
        return e;
    }
    // summands without a common bit are joined into one word (compilers split and join such words)
    std::unordered_map<u64, bool> apart;
    E joinDisjoint(E r)
    {
        std::vector<std::pair<E, u64>> t;
        u64 k = 0;
        ex::sumSplit(r, t, k);
        bool changed = false;
        std::vector<size_t> ands;
        for (size_t i = 0; i < t.size(); i++) if (t[i].first->op == E_AND) ands.push_back(i);
        for (size_t i : ands)
            for (size_t j : ands) {
                E a = t[i].first, b = t[j].first;
                if (j <= i || !a || !b || a->op != E_AND || t[i].second != t[j].second || (ex::evalC(a, mid, model) & ex::evalC(b, mid, model))) continue;
                u64 key = (u64)a->id << 32 | b->id;
                auto it = apart.find(key);
                if (it == apart.end()) it = apart.emplace(key, prove(ex::mk(E_AND, a, b), cst(0, a->w))).first;
                if (!it->second) continue;
                t[i].first = rep(ex::mk(E_XOR, a, b));
                t[j].first = nullptr;
                changed = true;
            }
        if (!changed) return r;
        std::vector<std::pair<E, u64>> left;
        for (auto& x : t) if (x.first) left.push_back(x);
        return ex::sumBuild(left, k, r->w);
    }
    E canon(E e)
    {
        if (ex::isC(e) || e->op == E_VAR) return e;
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        if (e->op == E_ADD && e->w <= 64) {
            std::vector<std::pair<E, u64>> t;
            u64 c = 0;
            ex::sumSplit(e, t, c);
            for (auto& x : t) x.first = canon(x.first);
            E r = ex::sumBuild(t, c, e->w);
            if (r->op == E_ADD) r = joinDisjoint(r);
            r = rep(r);
            memo[e->id] = r;
            memo[r->id] = r;
            return r;
        }
        E k[3];
        bool same = true;
        for (int i = 0; i < 3; i++) { k[i] = e->k[i] ? canon(e->k[i]) : nullptr; same &= k[i] == e->k[i]; }
        E r = e;
        if (!same) switch (e->op) {
        case E_CONCAT: r = ex::concat(k[0], k[1]); break;
        case E_EXTRACT: r = ex::extract(k[0], (u32)e->val, e->w); break;
        case E_ZEXT: r = ex::zext(k[0], e->w); break;
        case E_SEXT: r = ex::sext(k[0], e->w); break;
        case E_ITE: r = ex::ite(k[0], k[1], k[2]); break;
        case E_EQ: r = ex::eq(k[0], k[1]); break;
        case E_HASH: r = ex::hashE(k[0], e->w); break;
        default: r = ex::mk(e->op, k[0], k[1]);
        }
        r = rep(r);
        memo[e->id] = r;
        memo[r->id] = r;
        return r;
    }
};
static HR h_same(Ctx& c)
{
    L.asserts++;
    State& S = c.S;
    u64 n = conc(S, c.a[2]);
    u64 x = concAddr(S, c.a[0], n), y = concAddr(S, c.a[1], n);
    E a = readE(access(S, x, n, "read"), x & 0xffffffff, n), b = readE(access(S, y, n, "read"), y & 0xffffffff, n);
    std::string msg = cstr(S, conc(S, c.a[3]));
    if (a == b) return H_DONE;
    L.assertQueries++;
    // concrete disagreement under the path's model or under random values of unconstrained variables
    std::vector<Words> m = S.model->v;
    for (int round = 0; round < 6; round++) {
        u64 id = ++nextModel;
        if (ex::evalC(ex::eq(a, b), id, m) == 0) { violation(S, m, "property", msg); throw Kill(); }
        std::vector<Words> t = S.model->v;
        for (u32 v = 0; v < gVars.size(); v++)
            if (v < t.size() && gVars[v].kind == VK_PLAIN && (a->vs.get(v) || b->vs.get(v))) t[v] = freshRandom(gVars[v].w);
        id = ++nextModel;
        bool ok = true;
        for (E p : S.pc) if (!ex::evalC(p, id, t)) { ok = false; break; }
        if (ok) m = t;
    }
    Sweep W(S);
    W.model = m;
    for (u32 v = 0; v < W.model.size() && v < gVars.size(); v++) if (gVars[v].kind == VK_PLAIN) W.model[v] = freshRandom(gVars[v].w);
    W.mid = ++nextModel;
    E ca = W.canon(a), cb = W.canon(b);
    if (getenv("SX_SWEEP")) fprintf(stderr, "sweep: %zu terms, %lu/%lu merges proved, %s\n", W.memo.size(), W.proved, W.tried, ca == cb ? "equal" : "open");
    if (ca != cb && !(ca->w >= 16 && W.prove(ca, cb))) engineError(&S, "undecided equality: " + msg);
    return H_DONE;
}
static HR h_reach(Ctx& c)
{
    std::string s = cstr(c.S, conc(c.S, c.a[0]));
    lock();
    int i = 0;
    for (; i < SH->nreach; i++) if (s == SH->reach[i]) break;
    if (i == SH->nreach && i < 256) { snprintf(SH->reach[i], 64, "%s", s.c_str()); SH->nreach++; }
    if (i < 256) SH->reachHits[i]++;
    unlock();
    return H_DONE;
}
static HR h_trace(Ctx& c)
{
    std::string s = cstr(c.S, conc(c.S, c.a[0]));
    c.S.trace.push_back({s, c.a[1].e, c.a[1].c, 64});
    return H_DONE;
}
static HR h_tracebytes(Ctx& c)
{
    std::string s = cstr(c.S, conc(c.S, c.a[0]));
    u64 n = conc(c.S, c.a[2]), d = concAddr(c.S, c.a[1], n);
    Obj* o = access(c.S, d, n, "read");
    E e = readE(o, d & 0xffffffff, n);
    if (e->w <= 64) e = ex::zext(e, 72);
    c.S.trace.push_back({s, e, 0, (u32)(8 * n)});
    return H_DONE;
}
static HR h_idealhash(Ctx& c)
{
    // sx_ideal_hash(out, data, n): SHA-512/256 of n bytes
    u64 n = conc(c.S, c.a[2]), d = concAddr(c.S, c.a[0], 32), s = concAddr(c.S, c.a[1], n);
    Obj* o = access(c.S, s, n, "read");
    std::vector<E> v{readE(o, s & 0xffffffff, n)};
    access(c.S, d, 32, "write");
    writeE(wobj(c.S, (u32)(d >> OBJ_SHIFT)), d & 0xffffffff, hashOf(v, 256));
    return H_DONE;
}
// 32-byte equality without branching
static HR h_eqbytes(Ctx& c)
{
    HR r = h_bcmp(c);
    E e = c.ret.e ? ex::eq(c.ret.e, cst(0, 32)) : cst(c.ret.c == 0, 1);
    c.ret = fromE(ex::zext(e, 32));
    return r;
}
static HR h_fail(Ctx& c) { fail(c.S, "property", cstr(c.S, conc(c.S, c.a[0]))); }
// branch-free connectives (operands 0/1 ints)
static HR h_and(Ctx& c) { E a = ex::notE(ex::eq(toE(c.a[0], 32), cst(0, 32))), b = ex::notE(ex::eq(toE(c.a[1], 32), cst(0, 32))); c.ret = fromE(ex::zext(ex::andE(a, b), 32)); return H_DONE; }
static HR h_or(Ctx& c) { E a = ex::notE(ex::eq(toE(c.a[0], 32), cst(0, 32))), b = ex::notE(ex::eq(toE(c.a[1], 32), cst(0, 32))); c.ret = fromE(ex::zext(ex::orE(a, b), 32)); return H_DONE; }
static HR h_ite(Ctx& c) { c.ret = fromE(ex::ite(ex::notE(ex::eq(toE(c.a[0], 32), cst(0, 32))), toE(c.a[1], 64), toE(c.a[2], 64))); return H_DONE; }

static void registerHandlers()
{
    auto R = [](const char* n, Handler h) { byName[n] = h; };
    for (const char* n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "__memcpy_chk"}) R(n, h_memcpy);
    for (const char* n : {"memset", "llvm.memset.p0.i64"}) R(n, h_memset);
    R("calloc", h_calloc); R("memcmp", h_memcmp); R("bcmp", h_bcmp); R("strlen", h_strlen); R("strcmp", h_strcmp);
    for (const char* n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t"}) R(n, h_new);
    R("malloc", h_malloc); R("_ZnwmRKSt9nothrow_t", h_newnothrow); R("_ZnamRKSt9nothrow_t", h_newnothrow); R("sx_heap", h_heap);
    for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "__cxa_free_exception"}) R(n, h_free);
    for (const char* n : {"atexit", "__cxa_atexit", "printf", "fprintf", "puts", "putchar", "fputs", "fwrite", "fputc", "putc", "llvm.stacksave.p0", "llvm.stackrestore.p0", "llvm.va_start", "llvm.va_end", "vfprintf", "fflush", "llvm.stacksave", "llvm.stackrestore", "perror"}) R(n, h_nop);
    R("abort", h_abort); R("__assert_fail", h_assert); R("_ZSt21__glibcxx_assert_failPKciS0_S0_", h_glassert);
    R("llvm.trap", h_trap); R("llvm.ubsantrap", h_trap); R("_ZSt9terminatev", h_terminate); R("__cxa_pure_virtual", h_trap); R("exit", h_abort); R("_exit", h_abort);
    R("__clang_call_terminate", h_terminate);
    R("__cxa_allocate_exception", h_exalloc); R("__cxa_throw", h_throw); R("__cxa_begin_catch", h_begincatch); R("__cxa_end_catch", h_endcatch); R("__cxa_rethrow", h_rethrow);
    R("llvm.eh.typeid.for", h_typeid); R("llvm.eh.typeid.for.p0", h_typeid);
    R("_ZSt17__throw_bad_allocv", h_throwalloc); R("_ZSt28__throw_bad_array_new_lengthv", h_throwalloc);
    R("_ZSt20__throw_system_errori", h_throwother);
    for (const char* n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}) R(n, h_nop);
    R("llvm.threadlocal.address.p0", h_first);
    R("__dynamic_cast", h_dyncast);
    for (const char* w : {".i8", ".i16", ".i32", ".i64", ".i128", ".i1"}) {
        std::string s(w);
        auto RI = [&](const char* b, Handler h) { byName[std::string("llvm.") + b + s] = h; };
        RI("umax", h_minmax<0>); RI("umin", h_minmax<1>); RI("smax", h_minmax<2>); RI("smin", h_minmax<3>);
        RI("bswap", h_bswap); RI("ctpop", h_ctpop); RI("ctlz", h_ctlz); RI("cttz", h_cttz); RI("abs", h_abs);
        RI("fshl", h_fsh<true>); RI("fshr", h_fsh<false>);
        RI("usub.sat", h_usubsat);
        RI("uadd.with.overflow", h_uaddo); RI("usub.with.overflow", h_usubo); RI("umul.with.overflow", h_umulo);
        RI("objectsize", h_objectsize); RI("expect", h_expect); RI("is.constant", h_isconst);
    }
    R("llvm.objectsize.i64.p0", h_objectsize);
    R("sx_sym", h_sym); R("sx_atom", h_atom); R("sx_u64", h_u64); R("sx_u32", h_u32); R("sx_u8", h_u8); R("sx_bool", h_bool);
    R("sx_conc", h_conc); R("sx_assume", h_assume); R("sx_assert", h_sxassert); R("sx_reach", h_reach); R("sx_trace", h_trace); R("sx_trace_bytes", h_tracebytes);
    R("sx_ideal_hash", h_idealhash); R("sx_same", h_same); R("sx_eqbytes", h_eqbytes); R("sx_fail", h_fail); R("sx_and", h_and); R("sx_or", h_or); R("sx_ite", h_ite);
}

// ------------------------------------------------------------------ interpreter
static void doReturn(State& S, Inst& I)
{
    Frame F = S.fr.back();
    Val rv[16];
    std::vector<Val> big;
    Val* r = rv;
    if (I.ln > 16) { big.resize(I.ln); r = big.data(); }
    for (u32 i = 0; i < I.ln; i++) { int o = M->lists[I.lo + i]; r[i] = o >= 0 ? S.regs[F.base + o] : Val{M->consts[~o].c, M->consts[~o].e}; }
    popFrame(S);
    if (S.fr.empty()) return;
    Frame& G = S.fr.back();
    if (F.retDst >= 0) for (u32 i = 0; i < I.ln; i++) S.regs[G.base + F.retDst + i] = r[i];
    if (F.e0 >= 0) takeEdge(S, F.e0);
    else G.pc++;
}

static void run(State& S)
{
    u64 lastCheck = S.insts;
    while (!S.fr.empty()) {
        Frame& F = S.fr.back();
        Val* R = &S.regs[F.base];
        Inst& I = F.f->code[F.pc];
        if (++S.insts - lastCheck > 100000) {
            L.insts += S.insts - lastCheck;
            lastCheck = S.insts;
            if (SH->stop) throw Kill();
            if (SH->stopAt && now() > SH->stopAt) { SH->stop = 1; throw Kill(); }
        if (now() - tStart > optTime) { SH->timeout = 1; SH->stop = 1; throw Kill(); }
            if (S.insts > optMaxInsts) fail(S, "nontermination", "path executes more than " + std::to_string(optMaxInsts) + " instructions");
        }
#define OP(o) ((o) >= 0 ? R[o] : Val{M->consts[~(o)].c, M->consts[~(o)].e})
        switch (I.op) {
        case I_BIN: {
            Val a = OP(I.a), b = OP(I.b);
            if (!a.e && !b.e) {
                u64 m = maskw(I.w), r = 0;
                switch (I.sub) {
                case E_ADD: r = (a.c + b.c) & m; break;
                case E_MUL: r = (a.c * b.c) & m; break;
                case E_AND: r = a.c & b.c; break;
                case E_OR: r = a.c | b.c; break;
                case E_XOR: r = a.c ^ b.c; break;
                case E_SHL: r = b.c >= I.w ? 0 : (a.c << b.c) & m; break;
                case E_LSHR: r = b.c >= I.w ? 0 : a.c >> b.c; break;
                default:
                    if ((I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM) && b.c == 0) fail(S, "arithmetic", "division by zero");
                    r = ex::mk((Op)I.sub, cst(a.c, I.w), cst(b.c, I.w))->val;
                }
                R[I.dst] = C(r);
            } else {
                E x = toE(a, I.w), y = toE(b, I.w);
                if (I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM)
                    if (branch(S, ex::eq(y, cst(0, I.w)))) fail(S, "arithmetic", "division by zero");
                S.regs[S.fr.back().base + I.dst] = fromE(ex::mk((Op)I.sub, x, y));
            }
            F.pc++;
            break; }
        case I_SUBB: {
            Val a = OP(I.a), b = OP(I.b);
            if (!a.e && !b.e) R[I.dst] = C((a.c - b.c) & maskw(I.w));
            else { E x = toE(a, I.w), y = toE(b, I.w); R[I.dst] = fromE(ex::mk(E_ADD, x, ex::mk(E_MUL, y, ex::ones(I.w)))); }
            F.pc++;
            break; }
        case I_ICMP: {
            Val a = OP(I.a), b = OP(I.b);
            if (!a.e && !b.e) {
                bool r;
                switch (I.sub) {
                case P_EQ: r = a.c == b.c; break;
                case P_NE: r = a.c != b.c; break;
                case P_UGT: r = a.c > b.c; break;
                case P_UGE: r = a.c >= b.c; break;
                case P_ULT: r = a.c < b.c; break;
                case P_ULE: r = a.c <= b.c; break;
                case P_SGT: r = sextw(a.c, I.w) > sextw(b.c, I.w); break;
                case P_SGE: r = sextw(a.c, I.w) >= sextw(b.c, I.w); break;
                case P_SLT: r = sextw(a.c, I.w) < sextw(b.c, I.w); break;
                default: r = sextw(a.c, I.w) <= sextw(b.c, I.w);
                }
                R[I.dst] = C(r);
            } else {
                E x = toE(a, I.w), y = toE(b, I.w), r;
                switch (I.sub) {
                case P_EQ: r = ex::eq(x, y); break;
                case P_NE: r = ex::notE(ex::eq(x, y)); break;
                case P_UGT: r = ex::mk(E_ULT, y, x); break;
                case P_UGE: r = ex::mk(E_ULE, y, x); break;
                case P_ULT: r = ex::mk(E_ULT, x, y); break;
                case P_ULE: r = ex::mk(E_ULE, x, y); break;
                case P_SGT: r = ex::mk(E_SLT, y, x); break;
                case P_SGE: r = ex::mk(E_SLE, y, x); break;
                case P_SLT: r = ex::mk(E_SLT, x, y); break;
                default: r = ex::mk(E_SLE, x, y);
                }
                R[I.dst] = fromE(r);
            }
            F.pc++;
            break; }
        case I_SELECT: {
            Val c = OP(I.a);
            int* l = &M->lists[I.lo];
            if (!c.e || I.imm) {
                bool t = c.e ? branch(S, c.e) : c.c != 0;
                R = &S.regs[S.fr.back().base];
                Val tmp[8];
                u32 n = I.ln / 3;
                for (u32 i = 0; i < n; i++) tmp[i] = OP(l[3 * i + (t ? 0 : 1)]);
                for (u32 i = 0; i < n; i++) R[I.dst + i] = tmp[i];
            } else {
                Val x = OP(l[0]), y = OP(l[1]);
                u32 w = (u32)l[2];
                E ce = c.e;
                if (ce->vs.subset(S.pinned)) R[I.dst] = ex::evalC(ce, S.model->id, S.model->v) ? x : y;
                else R[I.dst] = fromE(ex::ite(ce, toE(x, w), toE(y, w)));
            }
            F.pc++;
            break; }
        case I_LOAD: {
            Val p = OP(I.a);
            int* l = &M->lists[I.lo];
            u64 span = 0;
            for (u32 i = 0; i < I.ln; i += 2) span = std::max<u64>(span, (u64)l[i] + ((u64)l[i + 1] + 7) / 8);
            u64 a = concAddr(S, p, span);
            Obj* o = access(S, a, span, "read");
            R = &S.regs[S.fr.back().base];
            for (u32 i = 0; i < I.ln; i += 2) R[I.dst + i / 2] = readVal(o, (a & 0xffffffff) + (u64)l[i], (u32)l[i + 1]);
            F.pc++;
            break; }
        case I_STORE: {
            Val p = OP(I.a);
            int* l = &M->lists[I.lo];
            u64 span = 0;
            for (u32 i = 0; i < I.ln; i += 3) span = std::max<u64>(span, (u64)l[i + 1] + ((u64)l[i + 2] + 7) / 8);
            u64 a = concAddr(S, p, span);
            Obj* o = access(S, a, span, "write");
            if (o->ro) fail(S, "memory", "write to constant data");
            o = wobj(S, (u32)(a >> OBJ_SHIFT));
            R = &S.regs[S.fr.back().base];
            for (u32 i = 0; i < I.ln; i += 3) writeVal(o, (a & 0xffffffff) + (u64)l[i + 1], OP(l[i]), (u32)l[i + 2]);
            F.pc++;
            break; }
        case I_ALLOCA: {
            u64 n = conc(S, OP(I.a)) * I.imm;
            u32 id = allocObj(S, O_STACK, n, 0xaa);
            S.allocas.push_back(id);
            S.regs[S.fr.back().base + I.dst] = C(objAddr(id));
            F.pc++;
            break; }
        case I_GEP: {
            Val b = OP(I.a);
            int* l = &M->lists[I.lo];
            u64 off = I.imm;
            E se = nullptr;
            for (u32 i = 0; i < I.ln; i += 4) {
                Val v = OP(l[i]);
                u64 sc = (u64)(u32)l[i + 2] | ((u64)(u32)l[i + 3] << 32);
                if (!v.e) off += (u64)sextw(v.c, (u32)l[i + 1]) * sc;
                else {
                    E e = l[i + 1] < 64 ? ex::sext(v.e, 64) : v.e;
                    if (e->w > 64) e = ex::extract(e, 0, 64);
                    e = ex::mk(E_MUL, e, cst(sc, 64));
                    se = se ? ex::mk(E_ADD, se, e) : e;
                }
            }
            if (!b.e && !se) R[I.dst] = C(b.c + off);
            else {
                E e = toE(b, 64);
                if (se) e = ex::mk(E_ADD, e, se);
                R[I.dst] = fromE(ex::mk(E_ADD, e, cst(off, 64)));
            }
            F.pc++;
            break; }
        case I_TRUNC: {
            Val a = OP(I.a);
            if (!a.e) R[I.dst] = C(a.c & maskw(I.w));
            else R[I.dst] = fromE(ex::extract(a.e, 0, I.w));
            F.pc++;
            break; }
        case I_ZEXT: {
            Val a = OP(I.a);
            if (!a.e && I.w <= 64) R[I.dst] = a;
            else R[I.dst] = fromE(ex::zext(toE(a, (u32)I.imm), I.w));
            F.pc++;
            break; }
        case I_SEXT: {
            Val a = OP(I.a);
            if (!a.e && I.w <= 64) R[I.dst] = C((u64)sextw(a.c, (u32)I.imm) & maskw(I.w));
            else R[I.dst] = fromE(ex::sext(toE(a, (u32)I.imm), I.w));
            F.pc++;
            break; }
        case I_MOV: {
            int* l = &M->lists[I.lo];
            for (u32 i = 0; i < I.ln; i += 2) R[l[i]] = OP(l[i + 1]);
            F.pc++;
            break; }
        case I_BR: takeEdge(S, I.x); break;
        case I_CBR: {
            Val c = OP(I.a);
            bool t = c.e ? branch(S, c.e) : c.c != 0;
            takeEdge(S, t ? I.x : I.y);
            break; }
        case I_SWITCH: {
            Val v = OP(I.a);
            int* l = &M->lists[I.lo];
            int e = I.x;
            for (u32 i = 0; i < I.ln; i += 2) {
                u64 k = M->consts[~l[i]].c;
                bool t = v.e ? branch(S, ex::eq(v.e, cst(k, I.w))) : v.c == k;
                if (t) { e = l[i + 1]; break; }
            }
            takeEdge(S, e);
            break; }
        case I_RET: doReturn(S, I); break;
        case I_CALL: {
            Func* f;
            if (I.x >= 0) f = M->funcs[(size_t)I.x];
            else {
                u64 p = conc(S, OP(I.a));
                R = &S.regs[S.fr.back().base];
                if ((p & 0xf000000000000000ull) != FUNC_BASE || ((p - FUNC_BASE) >> 4) >= M->funcs.size()) fail(S, "memory", "call through an invalid function pointer");
                f = M->funcs[(p - FUNC_BASE) >> 4];
            }
            Val buf[24];
            std::vector<Val> big;
            Val* a = buf;
            if (I.ln > 24) { big.resize(I.ln); a = big.data(); }
            for (u32 i = 0; i < I.ln; i++) a[i] = OP(M->lists[I.lo + i]);
            if (f->handler >= 0) {
                Ctx c{S, I, a, I.ln, C(0), true};
                HR r = handlers[(size_t)f->handler](c);
                if (r == H_JUMPED) break;
                Frame& G = S.fr.back();
                if (c.hasRet && I.dst >= 0) {
                    if (I.w == 1 && !c.ret.e) c.ret.c &= 1;
                    S.regs[G.base + I.dst] = c.ret;
                }
                if (I.e0 >= 0) takeEdge(S, I.e0); else G.pc++;
                break;
            }
            if (f->decl) {
                if (f->isIntrinsic || true) engineError(&S, "call to unmodelled function " + f->name);
            }
            pushFrame(S, f, a, I.ln, I.dst, (u32)I.imm, I.e0, I.e1);
            break; }
        case I_LANDING: engineError(&S, "landingpad reached without unwinding");
        case I_RESUME: {
            u64 p = conc(S, OP(I.a));
            S.exObj = p;
            // continue in the caller
            unwind(S);
            break; }
        case I_UNREACHABLE: fail(S, "unreachable", "control reaches unreachable code");
        case I_CMPXCHG: {
            u64 a = concAddr(S, OP(I.a), I.w / 8);
            access(S, a, I.w / 8, "write");
            Obj* o = wobj(S, (u32)(a >> OBJ_SHIFT));
            R = &S.regs[S.fr.back().base];
            Val old = readVal(o, a & 0xffffffff, I.w), exp = OP(I.b);
            bool eq = old.e || exp.e ? branch(S, ex::eq(toE(old, I.w), toE(exp, I.w))) : old.c == exp.c;
            R = &S.regs[S.fr.back().base];
            if (eq) writeVal(wobj(S, (u32)(a >> OBJ_SHIFT)), a & 0xffffffff, OP(I.c), I.w);
            R[I.dst] = old;
            R[I.dst + 1] = C(eq);
            F.pc++;
            break; }
        case I_RMW: {
            u64 a = concAddr(S, OP(I.a), I.w / 8);
            access(S, a, I.w / 8, "write");
            Obj* o = wobj(S, (u32)(a >> OBJ_SHIFT));
            R = &S.regs[S.fr.back().base];
            Val old = readVal(o, a & 0xffffffff, I.w), v = OP(I.b);
            E x = toE(old, I.w), y = toE(v, I.w), r = y;
            if (I.sub == 1) r = ex::mk(E_ADD, x, y);
            if (I.sub == 2) r = ex::mk(E_ADD, x, ex::mk(E_MUL, y, ex::ones(I.w)));
            if (I.sub == 3) r = ex::mk(E_AND, x, y);
            if (I.sub == 4) r = ex::mk(E_OR, x, y);
            writeVal(o, a & 0xffffffff, fromE(r), I.w);
            R[I.dst] = old;
            F.pc++;
            break; }
        case I_UNSUP: engineError(&S, "unsupported instruction: " + M->strs[(size_t)I.x]);
        default: engineError(&S, "bad opcode");
        }
    }
    L.insts += S.insts - lastCheck;
}

static void sample(State& S)
{
    if (SH->nsamples >= optSamples) return;
    if (L.paths & (L.paths - 1)) return; // powers of two per worker
    lock();
    int n = SH->nsamples < optSamples ? SH->nsamples++ : -1;
    unlock();
    if (n < 0) return;
    char b[32];
    snprintf(b, 32, "/sample.%d", n);
    writeInputs(S, S.model->v, ++nextModel, optOut + b, "sample", "completed path");
}
static void flushStats()
{
    lock();
    SH->paths += L.paths; SH->killedAssume += L.killed; SH->insts += L.insts; SH->branches += L.branches; SH->forks += L.forks; SH->concretized += L.concretized;
    SH->asserts += L.asserts; SH->assertQueries += L.assertQueries; SH->cacheHits += L.cacheHits; SH->candHits += L.candHits;
    SH->queries += gSolver.queries; SH->sat += gSolver.sat; SH->unsat += gSolver.unsat; SH->unknown += gSolver.unknown; SH->badmodel += gSolver.badmodel;
    SH->solverUs += (u64)(gSolver.secs * 1e6);
    SH->solverMaxUs = std::max<u64>(SH->solverMaxUs, (u64)(gSolver.maxsecs * 1e6));
    SH->maxConstraints = std::max(SH->maxConstraints, L.maxC);
    SH->maxVars = std::max<u64>(SH->maxVars, gVars.size());
    SH->active--;
    unlock();
}
static void worker()
{
    while (!work.empty()) {
        if (SH->stop) break;
        State* S = work.back();
        work.pop_back();
        try {
            run(*S);
            L.paths++;
            sample(*S);
        } catch (Kill&) {
        } catch (int) {
            S = nullptr; // this process became a child: its work list was replaced, the running state belongs to the parent
        }
        if (S) delete S;
        if (SH->stopAt && now() > SH->stopAt) SH->stop = 1;
        if (now() - tStart > optTime) { SH->timeout = 1; SH->stop = 1; }
    }
    flushStats();
}

int main(int argc, char** argv)
{
    std::vector<std::string> needReach;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--bc") optBc = nx();
        else if (a == "--out") optOut = nx();
        else if (a == "--entry") optEntry = nx();
        else if (a == "--jobs") optJobs = atoi(nx().c_str());
        else if (a == "--max-insts") optMaxInsts = strtoull(nx().c_str(), 0, 10);
        else if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--solver-timeout") gSolverTimeoutMs = (unsigned)atoi(nx().c_str());
        else if (a == "--no-hash") optHash = false, ex::keepWords = true;
        else if (a == "--max-viol") optMaxViol = atoi(nx().c_str());
        else if (a == "--grace") optGrace = atof(nx().c_str());
        else if (a == "--samples") optSamples = atoi(nx().c_str());
        else if (a == "--dump-unknown") gDumpUnknown = true;
        else if (a == "-v") optVerbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    tStart = now();
    DEAD = newObj(O_DEAD, 0, 0);
    M = loadModule(optBc.c_str());
    double tLoad = now() - tStart;
    registerHandlers();
    for (Func* f : M->funcs) {
        auto it = byName.find(f->name);
        Handler h = it != byName.end() ? it->second : nullptr;
        if (!h && optHash) {
            // the hasher class, whatever the exact parameter types are
            auto is = [&](const char* p) { return f->name.compare(0, strlen(p), p) == 0; };
            if (is("_ZN7utreexo7CSHA512C1E") || is("_ZN7utreexo7CSHA512C2E")) h = f->name.find("ERKS") == std::string::npos ? h_shaCtor : nullptr;
            else if (is("_ZN7utreexo7CSHA5125WriteE")) h = h_shaWrite;
            else if (is("_ZN7utreexo7CSHA51211Finalize256E")) h = h_shaFinal256;
            else if (is("_ZN7utreexo7CSHA5128FinalizeE")) h = h_shaFinal512;
            else if (is("_ZN7utreexo7CSHA5125ResetE")) h = h_shaReset;
        }
        if (h) { f->handler = (int)handlers.size(); handlers.push_back(h); }
    }
    if (!M->funcByName.count(optEntry) || M->funcs[M->funcByName[optEntry]]->decl) { fprintf(stderr, "no entry function %s\n", optEntry.c_str()); return 3; }
    State* S = new State;
    mkdir(optOut.c_str(), 0777);
    S->nextObj = 2;
    S->model = std::make_shared<Model>();
    S->model->id = ++nextModel;
    for (auto& g : M->globals) {
        Obj* o = newObj(O_GLOBAL, g.size, 0);
        if (!g.bytes.empty()) memcpy(o->data, g.bytes.data(), g.size);
        o->ro = g.constant && !g.decl;
        u32 id = (u32)(g.addr >> OBJ_SHIFT);
        putObj(*S, id, o);
        S->nextObj = std::max(S->nextObj, id + 2);
    }
    // entry last on the stack bottom, constructors run first: build as nested frames in reverse
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    SH->active = 1;
    SH->workers = 1;
    int rc = 0;
    try {
        pushFrame(*S, M->funcs[M->funcByName[optEntry]], nullptr, 0, -1, 0, -1, -1);
        for (size_t i = M->ctors.size(); i-- > 0;) {
            // a constructor returns into pc 0 of the frame below: compensate the increment
            S->fr.back().pc = (u32)-1;
            Func* f = M->funcs[M->ctors[i]];
            pushFrame(*S, f, nullptr, 0, -1, 0, -1, -1);
        }
    } catch (Kill&) {
        rc = 3;
    }
    work.push_back(S);
    if (!rc) worker();
    if (isChild) _exit(0);
    while (SH->active > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { lock(); if (!SH->nerr++) snprintf(SH->err, sizeof SH->err, "worker died (status %x)", st); SH->stop = 1; SH->active--; unlock(); } continue; }
        if (p < 0) break;
        usleep(2000);
    }
    while (waitpid(-1, nullptr, 0) > 0) {}
    double wall = now() - tStart;
    // result as JSON
    FILE* f = fopen((optOut + "/result.json").c_str(), "w");
    if (!f) { perror("result.json"); return 3; }
    auto esc = [](const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; } return r; };
    fprintf(f, "{\"violations\": %d, \"errors\": %d, \"error\": \"%s\", \"timeout\": %d,\n", SH->nviol, SH->nerr, esc(SH->err).c_str(), SH->timeout);
    fprintf(f, " \"paths\": %llu, \"infeasible_by_assumption\": %llu, \"instructions\": %llu, \"branches\": %llu, \"forks\": %llu, \"concretizations\": %llu,\n", (unsigned long long)SH->paths, (unsigned long long)SH->killedAssume, (unsigned long long)SH->insts, (unsigned long long)SH->branches, (unsigned long long)SH->forks, (unsigned long long)SH->concretized);
    fprintf(f, " \"asserts\": %llu, \"assert_queries\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"solver_s\": %.3f, \"solver_max_s\": %.3f,\n", (unsigned long long)SH->asserts, (unsigned long long)SH->assertQueries, (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->cacheHits, (unsigned long long)SH->candHits, SH->solverUs / 1e6, SH->solverMaxUs / 1e6);
    fprintf(f, " \"workers\": %d, \"max_constraints\": %llu, \"max_inputs\": %llu, \"samples\": %d, \"load_s\": %.3f, \"wall_s\": %.3f,\n \"reach\": {", SH->workers, (unsigned long long)SH->maxConstraints, (unsigned long long)SH->maxVars, SH->nsamples, tLoad, wall);
    for (int i = 0; i < SH->nreach; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", esc(SH->reach[i]).c_str(), (unsigned long long)SH->reachHits[i]);
    fprintf(f, "},\n \"functions\": [");
    bool first = true;
    for (Func* fn : M->funcs) if (fn->id < sizeof SH->fexec && SH->fexec[fn->id]) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(fn->name).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    if (optVerbose || SH->nerr) fprintf(stderr, "symx: paths %llu viol %d err %d (%s) timeout %d queries %llu solver %.1fs insts %lluM wall %.1fs workers %d\n", (unsigned long long)SH->paths, SH->nviol, SH->nerr, SH->err, SH->timeout, (unsigned long long)SH->queries, SH->solverUs / 1e6, (unsigned long long)SH->insts / 1000000, wall, SH->workers);
    if (rc) return rc;
    if (SH->nerr || SH->timeout) return SH->nviol ? 1 : 2;
    return SH->nviol ? 1 : 0;
}
