// Byte order helpers at an arbitrary byte offset, and the bit length helper.
#include "spec.h"
#include <crypto/common.h>
template <typename T, typename W, typename R>
static void one(W wr, R rd, bool big, bool hasWrite)
{
    const unsigned S = sizeof(T);
    unsigned char buf[24], org[24];
    sx_sym(org, 24, "memory");
    for (int i = 0; i < 24; i++) buf[i] = org[i];
    unsigned off = (unsigned)sx_pick("offset", 0, 8);
    T v;
    sx_sym(&v, S, "value");
    if (hasWrite) {
        wr(buf + off, v);
        for (unsigned i = 0; i < 24; i++) {
            unsigned k = i - off;
            unsigned char w = i >= off && k < S ? (unsigned char)(v >> (8 * (big ? S - 1 - k : k))) : org[i];
            sx_assert(buf[i] == w, "write stores exactly the value's bytes in order");
        }
        sx_assert(rd(buf + off) == v, "read inverts write");
    }
    T w = 0;
    for (unsigned k = 0; k < S; k++) w = (T)(w | (T)((T)org[off + k] << (8 * (big ? S - 1 - k : k))));
    sx_assert(rd(org + off) == w, "read loads exactly the bytes in order");
    sx_trace("read", rd(org + off));
    sx_reach("end");
}
extern "C" void harness()
{
    auto none = [](unsigned char*, uint64_t) {};
    switch (sx_pick("helper", 0, 5)) {
    case 0: one<uint16_t>(WriteLE16, ReadLE16, false, true); break;
    case 1: one<uint32_t>(WriteLE32, ReadLE32, false, true); break;
    case 2: one<uint64_t>(WriteLE64, ReadLE64, false, true); break;
    case 3: one<uint32_t>(WriteBE32, ReadBE32, true, true); break;
    case 4: one<uint64_t>(WriteBE64, ReadBE64, true, true); break;
    default: {
        uint64_t x = sx_u64("x"), c = CountBits(x);
        (void)none;
        sx_assert(c <= 64, "bit length is at most 64");
        if (c < 64) sx_assert(x >> c == 0, "shifting by the bit length clears the value");
        if (c > 0) sx_assert(x >> (c - 1) == 1, "no smaller shift does");
        sx_trace("bits", c);
        sx_reach("bits");
    }
    }
}
