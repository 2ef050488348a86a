// Adversarial key pools: shared prefixes, layer boundaries, NUL bytes.
#ifndef VERIF_KEYGEN_HH
#define VERIF_KEYGEN_HH
#include "pbt.hh"
#include <set>

inline std::string gen_key(pbt::Src& s, const std::vector<std::string>& pool, int style) {
    static const char* const blocks[] = {"aaaaaaaa", "aaaaaaab", "\0\0\0\0\0\0\0\0", "\xff\xff\xff\xff\xff\xff\xff\xff", "aaaaaaa\0", "bbbbbbbb"};
    static const char tailc[] = {'a', 0, '\xff', 'b'};
    std::string k;
    switch (style) {
    case 0: {                   // blocks + tail: layers
        int nb = s.weighted({4, 5, 4, 2, 1, 1});
        if (nb == 5) nb = (int) s.below(30);
        for (int i = 0; i < nb; ++i) k.append(blocks[s.weighted({8, 3, 2, 1, 1, 1})], 8);
        int nt = (int) s.below(10);
        for (int i = 0; i < nt; ++i) k.push_back(tailc[s.weighted({4, 2, 1, 1})]);
        break;
    }
    case 1: {                   // mutate an existing key
        if (pool.empty()) { k.push_back((char) s.below(256)); break; }
        k = pool[s.below(pool.size())];
        int m = (int) s.below(7);
        if (m == 0 && !k.empty()) k.resize(s.below(k.size()));                       // prefix
        else if (m == 1) { int n = 1 + (int) s.below(9); for (int i = 0; i < n; ++i) k.push_back(tailc[s.below(4)]); }
        else if (m == 2) k.push_back(0);
        else if (m == 3 && !k.empty()) { size_t p = s.below(k.size()); k[p] = (char) (k[p] + (s.coin() ? 1 : -1)); }
        else if (m == 4 && k.size() > 8) k.resize(k.size() / 8 * 8);                 // slice boundary
        else if (m == 5 && !k.empty()) k[s.below(k.size())] = (char) s.below(256);
        else if (m == 6) { while (k.size() % 8) k.push_back(0); }
        break;
    }
    case 2: {                   // one slice, all lengths
        k.assign("\0\0\0\0\0\0\0\0", 8);
        k.resize(s.below(9));
        if (!k.empty() && s.coin()) k[s.below(k.size())] = (char) s.below(3);
        break;
    }
    case 3: {                   // dense big-endian counters (splits)
        unsigned v = (unsigned) s.below(400);
        k.assign("\0\0\0\0", 4);
        k.push_back(0); k.push_back(0); k.push_back((char) (v >> 8)); k.push_back((char) v);
        if (s.chance(1, 8)) k += "suffix";
        break;
    }
    case 4: {                   // decimal
        char b[16];
        snprintf(b, sizeof(b), "%d", (int) s.below(2000));
        k = b;
        break;
    }
    case 5: {                   // random bytes of random length
        int n = s.weighted({3, 1}) == 0 ? (int) s.below(12) : (int) s.below(256);
        k = s.bytes(n);
        break;
    }
    case 6: {                   // dense counters below a shared prefix (splits inside a layer)
        unsigned v = (unsigned) s.below(200);
        k.assign("prefix..", 8);
        if (s.chance(1, 4)) k += "deeper..";
        k.push_back((char) (v >> 4)); k.push_back((char) (v << 4));
        int n = (int) s.below(3) * 5;
        k.append(n, 's');
        break;
    }
    }
    if (k.size() > 255) k.resize(255);
    return k;
}

// A pool with a style mix drawn per case, so that single-style dense cases and mixed cases both occur.
inline std::vector<std::string> gen_pool(pbt::Src& s, int maxn) {
    std::vector<std::string> pool;
    std::set<std::string> have;
    int w[7];
    int base = (int) s.below(9);
    for (int i = 0; i < 7; ++i) w[i] = base >= 7 ? 1 + (int) s.below(4) : (i == base ? 12 : i == 1 ? 4 : 0);
    int n = 1 + (int) s.below(s.coin() ? std::min(maxn, 24) : maxn);
    for (int i = 0; i < n; ++i) {
        int style = s.weighted({w[0], w[1], w[2], w[3], w[4], w[5], w[6]});
        std::string k = gen_key(s, pool, style);
        if (have.insert(k).second) pool.push_back(k);
    }
    return pool;
}
#endif
