// Batch proof serialization. MODE 0: decode arbitrary bytes. MODE 1: round trip. MODE 2: round trip of many entries.
#include "spec.h"
#include <include/batchproof.h>
using namespace utreexo;
static BatchProof used()
{
    unsigned k = (unsigned)sx_pick("oldtargets", 0, OLD), h = (unsigned)sx_pick("oldhashes", 0, OLD);
    std::vector<uint64_t> t;
    std::vector<H32> hs(h);
    for (unsigned i = 0; i < k; i++) t.push_back(sx_u64("old"));
    for (auto& x : hs) sx_sym(x.data(), 32, "oldhash");
    return BatchProof(t, hs);
}
// s is t in ascending order: ascending, and every value of t occurs in s as often as in t
static int isSorted(const std::vector<uint64_t>& s, const std::vector<uint64_t>& t)
{
    if (s.size() != t.size()) return 0;
    int r = 1;
    for (size_t i = 1; i < s.size(); i++) r = sx_and(r, s[i - 1] <= s[i]);
#if MODE == 0
    if (t.size() > ANY) return sx_and(r, sameU64s(s, t)); // ascending by assumption
#endif
    for (size_t i = 0; i < t.size(); i++) {
        unsigned a = 0, b = 0;
        for (size_t j = 0; j < t.size(); j++) { a += t[j] == t[i]; b += s[j] == t[i]; }
        r = sx_and(r, a == b);
    }
    return r;
}
extern "C" void harness()
{
    BatchProof d = used();
#if MODE == 0
    unsigned len = (unsigned)sx_pick("len", 0, MAXLEN);
    std::vector<uint8_t> b(len);
    if (len) sx_sym(b.data(), len, "bytes");
    int want = 0;
    if (len >= 8) {
        uint64_t nt = 0, nh = 0;
        for (int i = 0; i < 4; i++) { nt = nt << 8 | b[i]; nh = nh << 8 | b[4 + i]; }
        want = 8 + 4 * nt + 32 * nh == len;
        // sorting more than ANY targets in arbitrary order is outside the bound: they come in ascending order (strictly, for more than 16)
        if (want) {
            nt = sx_conc(nt);
            for (unsigned i = 1; i < nt && nt > ANY; i++) {
                uint64_t x = 0, y = 0;
                for (int k = 0; k < 4; k++) { x = x << 8 | b[4 + 4 * i + k]; y = y << 8 | b[8 + 4 * i + k]; }
                sx_assume(nt > 16 ? x < y : x <= y);
            }
        }
    }
    bool ok = d.Unserialize(b);
    sx_assert(ok == want, "bytes decode iff their length matches the header");
    sx_trace("ok", ok);
    if (ok) {
        std::vector<uint8_t> r;
        d.Serialize(r);
        sx_assert(r.size() == len, "re-encoding has the same length");
        sx_assert(sx_eqbytes(r.data(), b.data(), len), "re-encoding gives the same bytes");
        std::vector<uint64_t> t;
        unsigned nt = (unsigned)d.GetTargets().size();
        sx_assert(8 + 4 * nt + 32 * d.GetHashes().size() == len, "all counted entries are decoded");
        for (unsigned i = 0; i < nt; i++) {
            uint64_t v = 0;
            for (int k = 0; k < 4; k++) v = v << 8 | b[8 + 4 * i + k];
            t.push_back(v);
        }
        sx_assert(sameU64s(d.GetTargets(), t), "targets are the encoded ones");
        sx_assert(isSorted(d.GetSortedTargets(), t), "ascending targets are the encoded ones sorted");
        for (unsigned i = 0; i < d.GetHashes().size(); i++) sx_assert(sx_eqbytes(d.GetHashes()[i].data(), b.data() + 8 + 4 * nt + 32 * i, 32), "hashes are the encoded ones");
        sx_reach("decoded");
    } else
        sx_reach("refused");
#elif MODE == 2
    static const unsigned sizes[] = {SIZES};
    const unsigned NS = sizeof sizes / sizeof *sizes;
    unsigned k = sizes[sx_pick("targets", 0, NS - 1)], h = sizes[sx_pick("hashes", 0, NS - 1)];
    if (BOTH == 0) sx_assume(k < 2 || h < 2);
    // every FREE-th value is arbitrary: targets in their second and lowest byte, which leaves their order known where sorting looks
    std::vector<uint64_t> t(k), st;
    unsigned at = 0;
    for (unsigned i = 0; i < k; i++) {
        at = (at + STEP) % k; // any step without a common factor: each of 0..k-1 once
        t[i] = (uint64_t)(at + 1) << 8 | (i % FREE ? (uint8_t)i : sx_u8("low"));
    }
    st.resize(k);
    for (unsigned i = 0; i < k; i++) st[(size_t)(t[i] >> 8) - 1] = t[i];
    std::vector<H32> hs(h);
    for (unsigned i = 0; i < h; i++) {
        if (i % FREE == 0) sx_sym(hs[i].data(), 32, "hash");
        else for (int j = 0; j < 32; j++) hs[i][(size_t)j] = (uint8_t)(i >> (j % 4 * 8)) ^ (uint8_t)j;
    }
    BatchProof p(t, hs);
    sx_assert(sameU64s(p.GetSortedTargets(), st), "ascending targets are the targets sorted");
    std::vector<uint8_t> b;
    p.Serialize(b);
    sx_assert(b.size() == 8 + 4 * (uint64_t)k + 32 * (uint64_t)h, "encoded length");
    sx_assert(d.Unserialize(b), "an encoded proof decodes");
    sx_assert(sameU64s(d.GetTargets(), t), "targets survive");
    sx_assert(sameU64s(d.GetSortedTargets(), st), "ascending targets survive");
    sx_assert(sameHashes(d.GetHashes(), hs), "hashes survive");
    sx_assert(d == p, "the decoded proof equals the encoded one");
    b.pop_back();
    if (k + h) sx_assert(!d.Unserialize(b), "one byte less does not decode");
    b.resize(b.size() + 2);
    sx_assert(!d.Unserialize(b), "one byte more does not decode");
    sx_reach("end");
#else
    unsigned k = (unsigned)sx_pick("targets", 0, MAXK), h = (unsigned)sx_pick("hashes", 0, NH);
    std::vector<uint64_t> t;
    for (unsigned i = 0; i < k; i++) t.push_back(sx_u32("target"));
    std::vector<H32> hs(h);
    for (auto& x : hs) sx_sym(x.data(), 32, "hash");
    BatchProof p(t, hs);
    std::vector<uint8_t> b(sx_pick("oldlen", 0, 1) * 13, 7);
    p.Serialize(b);
    sx_assert(b.size() == 8 + 4 * k + 32 * h, "encoded length");
    sx_assert(d.Unserialize(b), "an encoded proof decodes");
    sx_assert(sameU64s(d.GetTargets(), t), "targets survive");
    sx_assert(isSorted(d.GetSortedTargets(), t), "ascending targets survive");
    sx_assert(sameHashes(d.GetHashes(), hs), "hashes survive");
    sx_assert(d == p, "the decoded proof equals the encoded one");
    traceU64s("sorted", d.GetSortedTargets());
    sx_reach("end");
#endif
}
