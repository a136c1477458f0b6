// Undo data serialization. MODE 0: decode arbitrary bytes. MODE 1: round trip. MODE 2: round trip of many entries.
#include "spec.h"
#include <include/batchproof.h>
using namespace utreexo;
static UndoBatch used()
{
    unsigned k = (unsigned)sx_pick("oldtargets", 0, OLD);
    std::vector<uint64_t> t;
    std::vector<H32> hs(k);
    for (unsigned i = 0; i < k; i++) t.push_back(sx_u64("old"));
    for (auto& x : hs) sx_sym(x.data(), 32, "oldhash");
    return UndoBatch(sx_u64("oldadds"), t, hs);
}
extern "C" void harness()
{
    UndoBatch d = used();
#if MODE == 0
    unsigned len = (unsigned)sx_pick("len", 0, MAXLEN);
    std::vector<uint8_t> b(len);
    if (len) sx_sym(b.data(), len, "bytes");
    bool ok = d.Unserialize(b);
    int want = 0;
    if (len >= 8) {
        uint64_t nt = 0;
        for (int i = 0; i < 4; i++) nt = nt << 8 | b[4 + i];
        want = 8 + 36 * nt == len;
    }
    sx_assert(ok == want, "bytes decode iff their length matches the header");
    sx_trace("ok", ok);
    if (ok) {
        std::vector<uint8_t> r;
        d.Serialize(r);
        sx_assert(r.size() == len, "re-encoding has the same length");
        sx_assert(sx_eqbytes(r.data(), b.data(), len), "re-encoding gives the same bytes");
        unsigned nt = (len - 8) / 36;
        uint64_t na = 0;
        for (int i = 0; i < 4; i++) na = na << 8 | b[i];
        sx_assert(d.GetNumAdds() == na, "addition count is the encoded one");
        sx_assert(d.GetDeletedPositions().size() == nt && d.GetDeletedHashes().size() == nt, "all counted entries are decoded");
        for (unsigned i = 0; i < nt; i++) {
            uint64_t v = 0;
            for (int k = 0; k < 4; k++) v = v << 8 | b[8 + 4 * i + k];
            sx_assert(d.GetDeletedPositions()[i] == v, "positions are the encoded ones");
            sx_assert(sx_eqbytes(d.GetDeletedHashes()[i].data(), b.data() + 8 + 4 * nt + 32 * i, 32), "hashes are the encoded ones");
        }
        sx_reach("decoded");
    } else
        sx_reach("refused");
#elif MODE == 2
    static const unsigned sizes[] = {SIZES};
    unsigned k = sizes[sx_pick("targets", 0, sizeof sizes / sizeof *sizes - 1)];
    std::vector<uint64_t> t(k);
    std::vector<H32> hs(k);
    for (unsigned i = 0; i < k; i++) {
        t[i] = i % FREE ? (uint64_t)(i * 2654435761u & 0xffffffffu) : sx_u32("target");
        if (i % FREE == 0) sx_sym(hs[i].data(), 32, "hash");
        else for (int j = 0; j < 32; j++) hs[i][(size_t)j] = (uint8_t)(i >> (j % 4 * 8)) ^ (uint8_t)j;
    }
    uint64_t na = sx_u32("adds");
    UndoBatch p(na, t, hs);
    std::vector<uint8_t> b;
    p.Serialize(b);
    sx_assert(b.size() == 8 + 36 * (uint64_t)k, "encoded length");
    sx_assert(d.Unserialize(b), "encoded undo data decodes");
    sx_assert(d.GetNumAdds() == na, "addition count survives");
    sx_assert(sameU64s(d.GetDeletedPositions(), t), "positions survive");
    sx_assert(sameHashes(d.GetDeletedHashes(), hs), "hashes survive");
    sx_assert(d == p, "the decoded undo data equals the encoded one");
    b.pop_back();
    sx_assert(!d.Unserialize(b), "one byte less does not decode");
    b.resize(b.size() + 2);
    sx_assert(!d.Unserialize(b), "one byte more does not decode");
    sx_reach("end");
#else
    unsigned k = (unsigned)sx_pick("targets", 0, MAXK);
    std::vector<uint64_t> t;
    for (unsigned i = 0; i < k; i++) t.push_back(sx_u32("target"));
    std::vector<H32> hs(k);
    for (auto& x : hs) sx_sym(x.data(), 32, "hash");
    uint64_t na = sx_u32("adds");
    UndoBatch p(na, t, hs);
    std::vector<uint8_t> b(sx_pick("oldlen", 0, 1) * 13, 7);
    p.Serialize(b);
    sx_assert(b.size() == 8 + 36 * k, "encoded length");
    sx_assert(d.Unserialize(b), "encoded undo data decodes");
    sx_assert(d.GetNumAdds() == na, "addition count survives");
    sx_assert(sameU64s(d.GetDeletedPositions(), t), "positions survive");
    sx_assert(sameHashes(d.GetDeletedHashes(), hs), "hashes survive");
    sx_assert(d == p, "the decoded undo data equals the encoded one");
    sx_trace("adds", d.GetNumAdds());
    sx_reach("end");
#endif
}
