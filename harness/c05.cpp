// Target and proof sanity. MODE 0: targets against any 64-bit leaf count. MODE 1: batch proofs.
#include "spec.h"
#include <include/batchproof.h>
#include <state.h>
using namespace utreexo;
extern "C" void harness()
{
    unsigned k = (unsigned)sx_pick("k", 0, MAXK);
    std::vector<uint64_t> t;
    for (unsigned i = 0; i < k; i++) t.push_back(sx_u64("target"));
#if MODE == 0
    uint64_t n = sx_u64("n");
    bool ok = ForestState(n).CheckTargetsSanity(t);
    int want = 1;
    for (unsigned i = 1; i < k; i++) want = sx_and(want, t[i - 1] < t[i]);
    if (k) want = sx_and(want, t[k - 1] < n);
    sx_assert(ok == want, "targets accepted iff empty or strictly ascending and inside the forest");
    if (ok) sx_reach("accepted");
    else sx_reach("refused");
#else
    uint64_t n = sx_pick("n", 0, MAXN);
    unsigned h = (unsigned)sx_pick("hashes", 0, MAXH);
    std::vector<H32> hs(h);
    BatchProof p(t, hs);
    bool ok = p.CheckSanity(n);
    // reference: sort, check, count the siblings
    std::vector<uint64_t> s(t);
    for (unsigned i = 1; i < k; i++)
        for (unsigned j = i; j > 0; j--)
            if (s[j] < s[j - 1]) { uint64_t x = s[j]; s[j] = s[j - 1]; s[j - 1] = x; }
    bool want = true;
    for (unsigned i = 1; i < k; i++) if (s[i - 1] >= s[i]) want = false;
    if (k && s[k - 1] >= n) want = false;
    if (want) {
        for (auto& x : s) x = sx_conc(x);
        want = h <= SpecProof(n, s).proof.size();
    }
    sx_assert(ok == want, "proof accepted iff its sorted targets are sane and it has no surplus hashes");
    if (ok) sx_reach("accepted");
    else sx_reach("refused");
#endif
    sx_trace("ok", ok);
}
