// Proofs presented to a pollard. The pollard has grown with up to MAXN leaves (any of them remembered), BLOCKS blocks with deletions
// and CACHE verified honest proofs, or (RESTORED) was restored from the roots at the end of the additions or of the blocks.
// PROP 14: an arbitrary proof is accepted only if it is true. 15: honest proofs are accepted. 16: verification keeps the roots, a
// failed one leaves no trace. 18: pruning. 19: restored pollards. 20: arbitrary proofs and bytes are survived.
// 31: an arbitrary accepted proof teaches what the forest's own proof teaches.
#include "acc.h"
#ifndef ADDS
#define ADDS 1
#endif
struct Step {
    int kind; // 0 block, 1 verify, 2 restore, 3 prune
    std::vector<Leaf> adds;
    std::vector<uint64_t> targets;
    BatchProof proof;
    std::vector<H32> hashes;
    std::vector<H32> roots;
    uint64_t n;
};
static RamForest f(0);
static std::vector<Step> past;
static std::vector<H32> ever;
static void play(std::unique_ptr<Pollard>& p, const Step& s)
{
    if (s.kind == 0) sx_assert(p->Modify(s.adds, s.targets), "a valid modification of the pollard succeeds");
    if (s.kind == 1) sx_assert(p->Verify(s.proof, s.hashes), "an honest proof is accepted");
    if (s.kind == 2) p = std::make_unique<Pollard>(s.roots, s.n);
    if (s.kind == 3) p->Prune();
}
static std::unique_ptr<Pollard> fresh()
{
    auto p = std::make_unique<Pollard>(0);
    for (auto& s : past) play(p, s);
    return p;
}
static void add(std::unique_ptr<Pollard>& p, const Step& s)
{
    past.push_back(s);
    play(p, s);
}
static Step honest(const std::vector<uint64_t>& pos)
{
    Step s;
    s.kind = 1;
    s.targets = pos;
    s.hashes = at(stored(f), pos);
    sx_assert(f.Prove(s.proof, s.hashes), "the forest proves its leaves");
    return s;
}
static Step block(std::vector<uint64_t> targets, uint64_t adds, bool choice)
{
    Step s;
    s.kind = 0;
    s.targets = targets;
    std::vector<uint8_t> rem(adds, 0);
    if (choice) for (uint64_t i : pickTargets(adds, DENSE, MAXK)) rem[i] = 1;
    for (uint64_t i = 0; i < adds; i++) {
        s.adds.push_back(Leaf(newLeaf(), rem[i]));
        ever.push_back(s.adds.back().first);
    }
    UndoBatch u;
    sx_assert(f.Modify(u, s.adds, s.targets), "a valid modification of the forest succeeds");
    return s;
}
static Step restore()
{
    Step s;
    s.kind = 2;
    s.roots = rootsOf(f);
    s.n = f.NumLeaves();
    return s;
}
static std::unique_ptr<Pollard> grow()
{
    auto p = std::make_unique<Pollard>(0);
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    bool rest = RESTORED && sx_flag("restored");
    uint64_t when = rest && BLOCKS ? choose("when", BLOCKS) : 0;
    add(p, block({}, n, !rest));
    if (rest && when == 0) add(p, restore());
    for (uint64_t b = 0; b < BLOCKS; b++) {
        if (b && !sx_flag("block")) break;
        std::vector<uint64_t> t = pickTargets(f.NumLeaves(), DENSE, MAXK);
        if (!t.empty()) add(p, honest(t));
        add(p, block(t, choose("adds", ADDS), true));
        if (rest && when == b + 1) add(p, restore());
    }
    for (int c = 0; c < CACHE; c++) {
        std::vector<uint64_t> t = pickTargets(f.NumLeaves(), DENSE, MAXK);
        if (t.empty()) break;
        add(p, honest(t));
    }
    return p;
}
static std::vector<int> provable(Pollard& p)
{
    std::vector<int> v;
    for (auto& h : ever) { BatchProof b; v.push_back(p.Prove(b, {h})); }
    return v;
}
static bool alike(Pollard& p, Pollard& q)
{
    bool r = p.NumLeaves() == q.NumLeaves() && p.CountNodes() == q.CountNodes() && p.NumCachedLeaves() == q.NumCachedLeaves() && provable(p) == provable(q);
    return r && sameHashes(rootsOf(p), rootsOf(q));
}
// positions of the nodes the pollard shows to hold through the proofs it can give
static std::vector<uint64_t> held(Pollard& p)
{
    std::vector<uint64_t> v;
    uint64_t n = f.NumLeaves();
    for (uint64_t i = 0; i < n; i++) {
        BatchProof b;
        if (!p.Prove(b, {f.GetLeaf(i)})) continue;
        v.push_back(i);
        for (uint64_t x : SpecProof(n, {i}).proof) v.push_back(x);
    }
    return v;
}
struct Attack {
    std::vector<uint64_t> targets; // ascending
    BatchProof proof;
    std::vector<H32> hashes;
};
// arbitrary hashes for some targets, with any number of proof hashes up to the number of proof positions
static Attack attack()
{
    Attack a;
    uint64_t n = f.NumLeaves();
    a.targets = pickTargets(n, DENSE, MAXK);
    std::vector<uint64_t> given(a.targets);
    if (given.size() > 1 && sx_flag("reversed")) std::reverse(given.begin(), given.end());
    uint64_t most = SpecProof(n, a.targets).proof.size();
    std::vector<H32> ph(choose("hashes", most));
    for (auto& h : ph) sx_sym(h.data(), 32, "proof");
    a.hashes = std::vector<H32>(a.targets.size());
#ifdef COUNTS
    if (sx_flag("count")) a.hashes.resize(sx_flag("more") ? a.targets.size() + 1 : a.targets.size() ? a.targets.size() - 1 : 0);
#endif
    for (auto& h : a.hashes) sx_sym(h.data(), 32, "target");
    a.proof = BatchProof(given, ph);
    return a;
}
// what the pollard does with the next block does not depend on what it was shown before
static void goOn(std::unique_ptr<Pollard>& p, std::unique_ptr<Pollard>& q, const char* msg)
{
    sx_assert(alike(*p, *q), msg);
    std::vector<uint64_t> t = pickTargets(f.NumLeaves(), DENSE, MAXK);
    if (!t.empty()) {
        Step s = honest(t);
        bool a = p->Verify(s.proof, s.hashes), b = q->Verify(s.proof, s.hashes);
        sx_assert(a && b, "an honest proof is accepted");
        sx_assert(alike(*p, *q), msg);
    }
    Step s = block(t, choose("adds", ADDS), true);
    bool a = p->Modify(s.adds, s.targets), b = q->Modify(s.adds, s.targets);
    sx_assert(a && b, "a valid modification succeeds");
    sx_assert(sameHashes(rootsOf(*p), rootsOf(f)), "roots agree with the forest");
    sx_assert(alike(*p, *q), msg);
}
// whatever the pollard proves, it proves as the forest does
static void rightProofs(Pollard& p)
{
    for (auto& h : ever) {
        BatchProof x, y;
        if (p.Prove(x, {h})) sx_assert(f.Prove(y, {h}) && x == y, "a pollard's proof is the forest's");
    }
}
extern "C" void harness()
{
    std::unique_ptr<Pollard> p = grow();
    std::vector<H32> l = stored(f), roots = rootsOf(*p);
    uint64_t n = l.size();
    sx_assert(sameHashes(roots, rootsOf(f)) && p->NumLeaves() == n, "roots and leaf count are those of the forest");
#if PROP == 14 || PROP == 16 || PROP == 31
    Attack a = attack();
#if PROP == 31
    std::unique_ptr<Pollard> q = fresh();
#endif
    bool ok = p->Verify(a.proof, a.hashes);
    sx_trace("ok", ok);
    sx_assert(sameHashes(roots, rootsOf(*p)) && p->NumLeaves() == n, "verification keeps roots and leaf count");
#if PROP == 14
    if (ok) {
        sx_assert(a.hashes.size() == a.targets.size(), "as many hashes as targets");
        sx_assert(sameHashes(a.hashes, at(l, a.targets)), "a proof is accepted only if every target hash is the leaf there");
    }
#elif PROP == 31
    if (ok) {
        rightProofs(*p);
        if (!a.targets.empty()) add(q, honest(a.targets));
#if GOON
        goOn(p, q, "an accepted proof teaches what the forest's proof does");
        rightProofs(*p);
#else
        sx_assert(alike(*p, *q), "an accepted proof teaches what the forest's proof does");
        // every leaf can still be verified
        std::vector<uint64_t> all;
        for (uint64_t i = 0; i < n; i++) all.push_back(i);
        Step h = honest(all);
        sx_assert(p->Verify(h.proof, h.hashes), "an honest proof is accepted");
        rightProofs(*p);
#endif
    }
#else
    if (!ok) {
        std::unique_ptr<Pollard> q = fresh();
#if GOON
        goOn(p, q, "a failed verification leaves no trace");
#else
        sx_assert(alike(*p, *q), "a failed verification leaves no trace");
#endif
    }
#endif
    if (ok && !a.targets.empty()) sx_reach("accepted");
    if (!ok) sx_reach("refused");
#elif PROP == 15
    std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK), hold = held(*p), pp = SpecProof(n, t).proof;
    Step s = honest(t);
    std::vector<H32> ph;
    for (size_t i = 0; i < pp.size(); i++) {
        bool have = std::find(hold.begin(), hold.end(), pp[i]) != hold.end();
        if (have && sx_flag("omit")) sx_reach("omitted"); else ph.push_back(s.proof.GetHashes()[i]);
    }
    std::vector<uint64_t> given(t);
    if (given.size() > 1 && sx_flag("reversed")) std::reverse(given.begin(), given.end());
    sx_assert(p->Verify(BatchProof(given, ph), s.hashes), "an honest proof is accepted");
    sx_assert(sameHashes(roots, rootsOf(*p)) && p->NumLeaves() == n, "verification keeps roots and leaf count");
    std::vector<int> pr = provable(*p);
    for (size_t i = 0; i < ever.size(); i++) for (auto& h : s.hashes) if (sameHash(h, ever[i])) sx_assert(pr[i], "a verified leaf is provable");
    sx_assert(p->Verify(s.proof, s.hashes), "an honest proof is accepted again");
#elif PROP == 18
    std::unique_ptr<Pollard> q = std::make_unique<Pollard>(roots, n);
    p->Prune();
    sx_assert(sameHashes(roots, rootsOf(*p)) && p->NumLeaves() == n, "pruning keeps roots and leaf count");
    sx_assert(p->CountNodes() == roots.size(), "after pruning only the roots are held");
    sx_assert(p->NumCachedLeaves() == 0, "after pruning no leaf is cached");
    for (auto& h : ever) {
        BatchProof b;
        bool root = false;
        if (n & 1) root = sameHash(h, l[n - 1]);
        if (!root) sx_assert(!p->Prove(b, {h}), "after pruning no leaf below a root is provable");
    }
#elif PROP == 19
    std::unique_ptr<Pollard> q = std::make_unique<Pollard>(roots, n);
    sx_assert(sameHashes(roots, rootsOf(*q)) && q->NumLeaves() == n, "a restored pollard reports the roots and leaf count");
    sx_assert(q->CountNodes() == roots.size() && q->NumCachedLeaves() == 0, "a restored pollard holds the roots only");
#elif PROP == 20
    BatchProof b;
#if BYTES
    uint64_t len = sx_pick("len", 0, MAXLEN);
    std::vector<uint8_t> bytes(len);
    // arbitrary bytes, drawn in pieces of one hash each from the end
    uint64_t head = len < 40 ? len : 8 + (len - 8) % 32;
    if (head) sx_sym(bytes.data(), head, "bytes");
    for (uint64_t i = head; i < len; i += 32) sx_sym(bytes.data() + i, 32, "bytes");
    if (len >= 8) {
        uint64_t nt = 0, nh = 0;
        for (int i = 0; i < 4; i++) { nt = nt << 8 | bytes[i]; nh = nh << 8 | bytes[4 + i]; }
        sx_assume(sx_or(8 + 4 * nt + 32 * nh != len, nt <= MAXT));
    }
    bool decoded = b.Unserialize(bytes);
    sx_trace("decoded", decoded);
    if (decoded) sx_reach("decoded");
#else
    std::vector<uint64_t> t(choose("targets", MAXT));
    for (auto& x : t) x = sx_u64("target");
    std::vector<H32> ph(choose("hashes", MAXH));
    for (auto& h : ph) sx_sym(h.data(), 32, "proof");
    b = BatchProof(t, ph);
#endif
    // as many hashes as targets, one more or one less
    int64_t c = (int64_t)b.GetTargets().size() + 1 - (int64_t)choose("count", 2);
    std::vector<H32> th(c < 0 ? 0 : c);
    for (auto& h : th) sx_sym(h.data(), 32, "hash");
    bool ok = p->Verify(b, th);
    sx_trace("ok", ok);
    if (ok && !th.empty()) sx_reach("accepted");
    if (!ok) sx_reach("refused");
    sx_assert(sameHashes(roots, rootsOf(*p)) && p->NumLeaves() == n, "verification keeps roots and leaf count");
    // the pollard goes on working
    std::vector<uint64_t> all;
    for (uint64_t i = 0; i < n; i++) all.push_back(i);
    Step h = honest(all);
    sx_assert(p->Verify(h.proof, h.hashes), "an honest proof is accepted");
    Step s = block({}, 1, false);
    sx_assert(p->Modify(s.adds, {}), "adding a leaf succeeds");
#endif
#if PROP == 18 || PROP == 19
    for (int s = 0; s < STEPS; s++) {
        std::vector<uint64_t> t = pickTargets(f.NumLeaves(), DENSE, MAXK);
        if (!t.empty()) {
            Step h = honest(t);
            // the same proof with one hash replaced is refused by both
            int bad = WRONG ? (int)choose("wrong", 1) : 0;
            if (bad) {
                std::vector<H32> x(h.hashes), y(h.proof.GetHashes());
                uint64_t i = choose("hash", x.size() + y.size() - 1);
                H32 r;
                sx_sym(r.data(), 32, "hash");
                sx_assume(!sameHash(r, i < x.size() ? x[i] : y[i - x.size()]));
                (i < x.size() ? x[i] : y[i - x.size()]) = r;
                BatchProof b(h.proof.GetTargets(), y);
                bool pa = p->Verify(b, x), qa = q->Verify(b, x);
                sx_assert(!qa, "a restored pollard refuses a wrong proof");
                if (PROP == 18) sx_assert(!pa, "a pruned pollard refuses a wrong proof");
                if (i < x.size()) sx_assert(!pa, "a wrong leaf is refused");
                sx_reach("wrong proof");
            }
            sx_assert(p->Verify(h.proof, h.hashes), "an honest proof is accepted");
            sx_assert(q->Verify(h.proof, h.hashes), "a restored pollard accepts an honest proof");
        }
        Step b = block(t, choose("adds", ADDS), true);
        bool pa = p->Modify(b.adds, b.targets), qa = q->Modify(b.adds, b.targets);
        sx_assert(pa && qa, "a valid modification succeeds");
        sx_assert(sameHashes(rootsOf(*q), rootsOf(f)) && q->NumLeaves() == f.NumLeaves(), "a restored pollard follows the forest");
        sx_assert(sameHashes(rootsOf(*p), rootsOf(f)) && p->NumLeaves() == f.NumLeaves(), "the pollard follows the forest");
#if PROP == 18
        sx_assert(alike(*p, *q), "a pruned pollard behaves like a restored one");
#endif
        std::vector<H32> now = stored(f);
        for (auto& h : now) {
            BatchProof x, y;
            if (q->Prove(x, {h})) { sx_assert(f.Prove(y, {h}) && x == y, "a restored pollard's proof is the forest's"); sx_reach("proved"); }
        }
    }
#endif
    traceHashes("roots", rootsOf(*p));
    sx_trace("nodes", p->CountNodes());
    sx_reach("end");
}
