// wire.hh -- an independent MessagePack codec for the server's protocol.
#ifndef VERIF_WIRE_HH
#define VERIF_WIRE_HH
#include "pbt.hh"
#include <math.h>
namespace wire {
struct V {
    enum T { NIL, BOOL, INT, DBL, STR, ARR, MAP, UINT,
             ABSENT /* expectations only: nil or "" */ } t = NIL;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<V> a;            // MAP: key, value, key, value ...
    V() {}
    V(int64_t x) : t(INT), i(x) {}
    V(int x) : t(INT), i(x) {}
    V(unsigned x) : t(INT), i(x) {}
    V(bool x) : t(BOOL), i(x) {}
    V(double x) : t(DBL), d(x) {}
    V(const std::string& x) : t(STR), s(x) {}
    V(const char* x) : t(STR), s(x) {}
    static V arr(std::vector<V> x = {}) { V v; v.t = ARR; v.a = std::move(x); return v; }
    static V map(std::vector<V> x = {}) { V v; v.t = MAP; v.a = std::move(x); return v; }
    bool is(int64_t x) const { return t == INT && i == x; }
    bool blank() const { return t == NIL || t == ABSENT || (t == STR && s.empty()); }
    bool operator==(const V& o) const { if (t == ABSENT || o.t == ABSENT) return blank() && o.blank(); return t == o.t && i == o.i && s == o.s && a == o.a && (d == o.d || (d != d && o.d != o.d)); }
    bool operator!=(const V& o) const { return !(*this == o); }
};
inline void be(std::string& o, uint64_t x, int n) { for (int k = n - 1; k >= 0; --k) o.push_back((char) (x >> (8 * k))); }
// `s`: choose among the legal encodings; null: the shortest
inline void enc(std::string& o, const V& v, pbt::Src* s = 0) {
    auto wide = [&](int fits, int max) { return s && s->chance(1, 6) ? fits + (int) s->below(max - fits + 1) : fits; };
    switch (v.t) {
    case V::ABSENT: case V::NIL: o.push_back((char) 0xc0); break;
    case V::BOOL: o.push_back((char) (v.i ? 0xc3 : 0xc2)); break;
    case V::DBL: { o.push_back((char) 0xcb); uint64_t u; memcpy(&u, &v.d, 8); be(o, u, 8); break; }
    case V::INT:
        if (v.i >= 0) {
            int c = v.i < 128 ? 0 : v.i < 256 ? 1 : v.i < 65536 ? 2 : v.i < 4294967296LL ? 3 : 4;
            c = wide(c, 4);
            bool sg = s && c && s->chance(1, 8) && v.i < (c == 4 ? INT64_MAX : (1LL << (8 * (1 << (c - 1)) - 1)));
            if (c == 0) o.push_back((char) v.i);
            else { o.push_back((char) ((sg ? 0xd0 : 0xcc) + c - 1)); be(o, v.i, 1 << (c - 1)); }
        } else {
            int c = v.i >= -32 ? 0 : v.i >= -128 ? 1 : v.i >= -32768 ? 2 : v.i >= -2147483648LL ? 3 : 4;
            c = wide(c, 4);
            if (c == 0) o.push_back((char) v.i);
            else { o.push_back((char) (0xd0 + c - 1)); be(o, v.i, 1 << (c - 1)); }
        }
        break;
    case V::UINT: o.push_back((char) 0xcf); be(o, v.i, 8); break;
    case V::STR: {
        size_t n = v.s.size();
        int c = wide(n < 32 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : 3, 3);
        if (c == 0) o.push_back((char) (0xa0 | n));
        else { bool bin = s && s->chance(1, 4); o.push_back((char) ((bin ? 0xc4 : 0xd9) + c - 1)); be(o, n, 1 << (c - 1)); }
        o += v.s;
        break;
    }
    case V::ARR: case V::MAP: {
        size_t n = v.t == V::MAP ? v.a.size() / 2 : v.a.size();
        int c = wide(n < 16 ? 0 : n < 65536 ? 1 : 2, 2);
        if (c == 0) o.push_back((char) ((v.t == V::MAP ? 0x80 : 0x90) | n));
        else { o.push_back((char) ((v.t == V::MAP ? 0xde : 0xdc) + c - 1)); be(o, n, c * 2); }
        for (auto& x : v.a) enc(o, x, s);
        break;
    }
    }
}
inline std::string enc(const V& v, pbt::Src* s = 0) { std::string o; enc(o, v, s); return o; }
// Decode one value at p; returns the position after it, or null (`bad` distinguishes malformed from incomplete).
inline const unsigned char* dec(const unsigned char* p, const unsigned char* e, V& v, bool& bad, int depth = 0) {
    if (p >= e) return 0;
    if (depth > 200) { bad = true; return 0; }
    unsigned char c = *p++;
    auto num = [&](int n, uint64_t& x) { if (e - p < n) return false; x = 0; for (int k = 0; k < n; ++k) x = x << 8 | *p++; return true; };
    uint64_t x, n;
    if (c < 0x80) { v = V((int64_t) c); return p; }
    if (c >= 0xe0) { v = V((int64_t) (signed char) c); return p; }
    if (c >= 0xa0 && c < 0xc0) { n = c & 31; goto str; }
    if (c >= 0x90 && c < 0xa0) { n = c & 15; v = V::arr(); goto arr; }
    if (c >= 0x80 && c < 0x90) { n = 2 * (c & 15); v = V::map(); goto arr; }
    switch (c) {
    case 0xc0: v = V(); return p;
    case 0xc2: case 0xc3: v = V(c == 0xc3); return p;
    case 0xca: { if (!num(4, x)) return 0; float f; uint32_t u = (uint32_t) x; memcpy(&f, &u, 4); v = V((double) f); return p; }
    case 0xcb: { if (!num(8, x)) return 0; double f; memcpy(&f, &x, 8); v = V(f); return p; }
    case 0xcc: case 0xcd: case 0xce: case 0xcf:
        if (!num(1 << (c - 0xcc), x)) return 0;
        v = V((int64_t) x); if ((int64_t) x < 0) v.t = V::UINT; return p;
    case 0xd0: if (!num(1, x)) return 0; v = V((int64_t) (int8_t) x); return p;
    case 0xd1: if (!num(2, x)) return 0; v = V((int64_t) (int16_t) x); return p;
    case 0xd2: if (!num(4, x)) return 0; v = V((int64_t) (int32_t) x); return p;
    case 0xd3: if (!num(8, x)) return 0; v = V((int64_t) x); return p;
    case 0xc4: case 0xc5: case 0xc6: if (!num(1 << (c - 0xc4), n)) return 0; goto str;
    case 0xd9: case 0xda: case 0xdb: if (!num(1 << (c - 0xd9), n)) return 0; goto str;
    case 0xdc: case 0xdd: if (!num(2 << (c - 0xdc), n)) return 0; v = V::arr(); goto arr;
    case 0xde: case 0xdf: if (!num(2 << (c - 0xde), n)) return 0; n *= 2; v = V::map(); goto arr;
    }
    bad = true;
    return 0;
str:
    if ((uint64_t) (e - p) < n) return 0;
    v = V(std::string((const char*) p, n));
    return p + n;
arr:
    for (uint64_t k = 0; k < n; ++k) {
        V w;
        p = dec(p, e, w, bad, depth + 1);
        if (!p) return 0;
        v.a.push_back(std::move(w));
    }
    return p;
}
inline std::string show(const V& v, int lim = 60) {
    switch (v.t) {
    case V::NIL: case V::ABSENT: return "nil";
    case V::BOOL: return v.i ? "true" : "false";
    case V::INT: case V::UINT: return std::to_string(v.i);
    case V::DBL: return std::to_string(v.d);
    case V::STR: return pbt::hexs(v.s, 24) + (v.s.size() > 24 ? "(" + std::to_string(v.s.size()) + ")" : "");
    default: {
        std::string r = v.t == V::ARR ? "[" : "{";
        int k = 0;
        for (auto& x : v.a) { if (k++) r += ","; if (k > lim) { r += "..."; break; } r += show(x, lim); }
        return r + (v.t == V::ARR ? "]" : "}");
    }
    }
}
}
#endif
