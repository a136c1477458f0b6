// PROP 33: opening a file with any content is survived. The file holds LEN arbitrary bytes (the leaf count within MAXCOUNT, or anything
// from 8 + FREE bytes on), the forest found there is used and closed.
#include "acc.h"
#include <fstream>
extern "C" void harness()
{
    const char* path = sx_path(0);
    uint64_t len = sx_pick("length", MINLEN, MAXLEN);
    std::vector<uint8_t> bytes(len);
    for (uint64_t i = 0; i < len; i += 32) sx_sym(bytes.data() + i, i + 32 < len ? 32 : len - i, "bytes");
    {
        std::fstream w(path, std::fstream::out | std::fstream::binary | std::fstream::trunc);
        w.write((const char*)bytes.data(), len);
    }
    uint64_t n = 0;
    for (int i = 0; i < 8 && len >= 8; i++) n = n << 8 | bytes[i];
    // the file is complete: it holds the hashes of all rows
    bool whole = false;
    if (len >= 8) {
        uint64_t room = (len - 8) / 32, c = 0;
        for (uint64_t k = 0; k <= room; k++) {
            uint64_t need = 0;
            for (uint64_t x = k; x; x >>= 1) need += x;
            if (need <= room && n == k) { whole = true; c = k; }
        }
        n = c;
    }
    {
        RamForest f{std::string(path)};
        sx_trace("leaves", f.NumLeaves());
        if (whole) {
            sx_assert(f.NumLeaves() == n, "the leaf count is the stored one");
            int same = 1;
            for (uint64_t i = 0; i < n; i++) {
                H32 h;
                for (int k = 0; k < 32; k++) h[k] = bytes[8 + 32 * i + k];
                same = sx_and(same, sameHash(f.GetLeaf(i), h));
            }
            sx_assert(same, "the leaves are the stored ones");
            sx_reach("whole");
        } else {
            sx_assert(f.NumLeaves() == 0 && rootsOf(f).empty(), "a file that ends early gives an empty forest");
            sx_reach("damaged");
        }
    }
    // closing it leaves what it could not read
    std::fstream r(path, std::fstream::in | std::fstream::binary);
    std::vector<uint8_t> now(len + 1);
    r.read((char*)now.data(), len + 1);
    sx_assert((uint64_t)r.gcount() == len, "opening and closing keeps the file");
    sx_assert(sx_eqbytes(now.data(), bytes.data(), len), "opening and closing keeps the file");
    sx_reach("end");
}
