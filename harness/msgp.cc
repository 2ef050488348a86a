// msgp.cc -- M01 (round trips) and M02 (arbitrary bytes) for msgpack.{hh,cc}.
// Oracle: an independent value model with its own encoder (any legal form) and decoder.
#include "pbt.hh"
#include "msgpack.hh"
#include <memory>
#include <math.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
using pbt::Src;
using lcdf::Json;
using lcdf::String;
using lcdf::Str;
using lcdf::StringAccum;
typedef unsigned char u8;
static std::string PROP;

//////////// value model
struct V {
    enum T { NUL, BOOL, INT, DBL, STR, ARR, MAP } t = NUL;
    bool b = false;
    __int128 i = 0;
    uint64_t d = 0;             // bits of the double
    std::string s;
    std::vector<V> a;
    std::vector<std::pair<V, V>> m;     // as encoded (keys INT or STR; duplicates allowed)
    V() = default;
    V(const V&) = default;
    V(V&&) = default;
    V& operator=(const V&) = default;
    V& operator=(V&&) = default;
    ~V() {                              // not recursive: values may be nested deeply
        if (a.empty() && m.empty()) return;
        std::vector<V> w;
        auto take = [&](V& v) {
            for (auto& x : v.a) w.push_back(std::move(x));
            for (auto& x : v.m) w.push_back(std::move(x.second));
            v.a.clear(); v.m.clear();
        };
        take(*this);
        while (!w.empty()) { V x = std::move(w.back()); w.pop_back(); take(x); }
    }
};
static std::string i128(__int128 x) {
    bool neg = x < 0;
    unsigned __int128 y = neg ? -(unsigned __int128) x : (unsigned __int128) x;
    std::string r;
    do { r.insert(r.begin(), '0' + (int) (y % 10)); y /= 10; } while (y);
    return neg ? "-" + r : r;
}
static double bitsd(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static std::string show(const V& v, int depth = 0) {
    char buf[64];
    switch (v.t) {
    case V::NUL: return "null";
    case V::BOOL: return v.b ? "true" : "false";
    case V::INT: return i128(v.i);
    case V::DBL: snprintf(buf, sizeof(buf), "d%.17g", bitsd(v.d)); return buf;
    case V::STR: return pbt::hexs(v.s, 24) + (v.s.size() > 24 ? "(" + std::to_string(v.s.size()) + ")" : "");
    case V::ARR: {
        std::string r = "[";
        int n = 0;
        for (auto& x : v.a) { if (n++) r += ","; if (n > 8 || depth > 5) { r += "..." + std::to_string(v.a.size()); break; } r += show(x, depth + 1); }
        return r + "]";
    }
    default: {
        std::string r = "{";
        int n = 0;
        for (auto& x : v.m) { if (n++) r += ","; if (n > 8 || depth > 5) { r += "..." + std::to_string(v.m.size()); break; } r += show(x.first) + ":" + show(x.second, depth + 1); }
        return r + "}";
    }
    }
}
// what a decoder into Json must produce: string keys, last duplicate wins (first position)
static V canon(const V& v) {
    if (v.t == V::ARR) {
        V r; r.t = V::ARR;
        for (auto& x : v.a) r.a.push_back(canon(x));
        return r;
    } else if (v.t == V::MAP) {
        V r; r.t = V::MAP;
        for (auto& x : v.m) {
            V k; k.t = V::STR; k.s = x.first.t == V::INT ? i128(x.first.i) : x.first.s;
            size_t p = 0;
            while (p < r.m.size() && r.m[p].first.s != k.s) ++p;
            if (p == r.m.size()) r.m.emplace_back(k, canon(x.second));
            else r.m[p].second = canon(x.second);
        }
        return r;
    }
    return v;
}
static bool same(const V& a, const V& b) {
    if (a.t != b.t) return false;
    switch (a.t) {
    case V::NUL: return true;
    case V::BOOL: return a.b == b.b;
    case V::INT: return a.i == b.i;
    case V::DBL: return a.d == b.d || (std::isnan(bitsd(a.d)) && std::isnan(bitsd(b.d)));
    case V::STR: return a.s == b.s;
    case V::ARR:
        if (a.a.size() != b.a.size()) return false;
        for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false;
        return true;
    default:
        if (a.m.size() != b.m.size()) return false;
        for (size_t i = 0; i < a.m.size(); ++i) {
            size_t p = 0;
            if (i < b.m.size() && a.m[i].first.s == b.m[i].first.s) p = i;
            else while (p < b.m.size() && b.m[p].first.s != a.m[i].first.s) ++p;
            if (p == b.m.size() || !same(a.m[i].second, b.m[p].second)) return false;
        }
        return true;
    }
}
// Arrays and objects are built up directly, or with detours that must leave no trace.
static Json tojson(const V& v, Src* s = nullptr) {
    bool detour = s && (v.t == V::ARR || v.t == V::MAP) && s->chance(1, 4);
    Json copy;
    switch (v.t) {
    case V::NUL: return Json();
    case V::BOOL: return Json(v.b);
    case V::INT: if (v.i > INT64_MAX) return Json((uint64_t) v.i);
        return Json((int64_t) v.i);
    case V::DBL: return Json(bitsd(v.d));
    case V::STR: return Json(String(v.s.data(), (int) v.s.size()));
    case V::ARR: { Json j = Json::make_array(); 
        for (auto& x : v.a) {
            if (detour && s->chance(1, 6)) copy = j;
            if (detour && s->chance(1, 4)) { j.push_back(Json("gone")); j.pop_back(); }
            j.push_back(tojson(x, s));
        }
        if (detour) { j.resize((int) v.a.size() + (int) s->below(9)); j.resize((int) v.a.size()); }
        return j;
    }
    default: { Json j = Json::make_object(); 
        std::vector<std::string> junk;
        auto drop = [&] { for (auto& n : junk) j.erase(String(n.data(), (int) n.size())); junk.clear(); };
        for (auto& x : v.m) {
            if (detour && s->chance(1, 6)) copy = j;
            if (detour && s->chance(1, 3)) drop();
            for (int k = detour && s->coin() ? 1 + (int) s->below(s->coin() ? 2 : 10) : 0; k > 0; --k) {
                std::string n = (s->coin() ? "g" : "") + std::to_string(s->below(300));
                bool used = false;
                for (auto& y : v.m) if (y.first.s == n) used = true;
                if (!used) { j.set(String(n.data(), (int) n.size()), "gone"); junk.push_back(n); }
            }
            j.get_insert(String(x.first.s.data(), (int) x.first.s.size())) = tojson(x.second, s);
        }
        drop();
        return j;
    }
    }
}
static V fromjson(const Json& j, int depth = 0) {
    V v;
    if (j.is_null()) v.t = V::NUL;
    else if (j.is_b()) { v.t = V::BOOL; v.b = j.as_b(); }
    else if (j.is_u()) { v.t = V::INT; v.i = j.as_u(); }
    else if (j.is_i()) { v.t = V::INT; v.i = j.as_i(); }
    else if (j.is_d()) { v.t = V::DBL; v.d = dbits(j.as_d()); }
    else if (j.is_s()) { v.t = V::STR; v.s.assign(j.as_s().data(), j.as_s().length()); }
    else if (j.is_a()) {
        v.t = V::ARR;
        for (auto it = j.cabegin(); it != j.caend(); ++it) v.a.push_back(fromjson(*it, depth + 1));
        PBT_CHECK((int) v.a.size() == j.size(), "array iteration gives %zu elements, size() %d", v.a.size(), j.size());
    } else if (j.is_o()) {
        v.t = V::MAP;
        for (auto it = j.cobegin(); it != j.coend(); ++it) {
            V k; k.t = V::STR; k.s.assign(it.key().data(), it.key().length());
            v.m.emplace_back(k, fromjson(it.value(), depth + 1));
        }
        PBT_CHECK((int) v.m.size() == j.size(), "object iteration gives %zu members, size() %d", v.m.size(), j.size());
    } else
        pbt::fail("decoded value has no type");
    return v;
}

//////////// reference codec
static void be(std::string& o, uint64_t v, int n) { while (n--) o.push_back((char) (v >> (8 * n))); }
// every legal encoding of an integer; which is picked from form
static void enc_int(std::string& o, __int128 x, Src* s) {
    std::vector<std::string> f;
    auto add = [&](int tag, int n, uint64_t v) { std::string t(1, (char) tag); be(t, v, n); f.push_back(t); };
    if (x >= -32 && x < 128) f.push_back(std::string(1, (char) (int) x));
    uint64_t v = (uint64_t) x;
    if (x >= 0) {
        if (x < 256) add(0xCC, 1, v);
        if (x < 65536) add(0xCD, 2, v);
        if (x <= 0xFFFFFFFFLL) add(0xCE, 4, v);
        add(0xCF, 8, v);
    }
    if (x >= -128 && x < 128) add(0xD0, 1, v);
    if (x >= -32768 && x < 32768) add(0xD1, 2, v);
    if (x >= INT32_MIN && x <= INT32_MAX) add(0xD2, 4, v);
    if (x <= INT64_MAX) add(0xD3, 8, v);
    o += f[s ? s->below(f.size()) : 0];
}
static void enc_hdr(std::string& o, size_t n, int fix, size_t nfix, int t8, int t16, int t32, Src* s) {
    std::vector<std::string> f;
    auto add = [&](int tag, int k) { std::string t(1, (char) tag); be(t, n, k); f.push_back(t); };
    if (fix >= 0 && n < nfix) f.push_back(std::string(1, (char) (fix + n)));
    if (t8 && n < 256) add(t8, 1);
    if (n < 65536) add(t16, 2);
    add(t32, 4);
    o += f[s ? s->below(f.size()) : 0];
}
static void enc(std::string& o, const V& v, Src* s) {
    switch (v.t) {
    case V::NUL: o += '\xC0'; break;
    case V::BOOL: o += v.b ? '\xC3' : '\xC2'; break;
    case V::INT: enc_int(o, v.i, s); break;
    case V::DBL: {
        float f = (float) bitsd(v.d);
        if (s && dbits((double) f) == v.d && s->coin()) {
            uint32_t x; memcpy(&x, &f, 4);
            o += '\xCA'; be(o, x, 4);
        } else { o += '\xCB'; be(o, v.d, 8); }
        break;
    }
    case V::STR:
        if (s && s->chance(1, 4)) enc_hdr(o, v.s.size(), -1, 0, 0xC4, 0xC5, 0xC6, s);
        else enc_hdr(o, v.s.size(), 0xA0, 32, 0xD9, 0xDA, 0xDB, s);
        o += v.s;
        break;
    case V::ARR: enc_hdr(o, v.a.size(), 0x90, 16, 0, 0xDC, 0xDD, s); for (auto& x : v.a) enc(o, x, s); break;
    default: enc_hdr(o, v.m.size(), 0x80, 16, 0, 0xDE, 0xDF, s);
        for (auto& x : v.m) { enc(o, x.first, s); enc(o, x.second, s); }
    }
}
enum { OK = 0, MORE = 1, ERR = 2 };
enum { MAXDEPTH_SURE = 100 };     // nesting every decoder must accept
struct Dec {
    const u8* p; const u8* e;
    int maxdepth = 0;
    bool need(uint64_t n) { return (uint64_t) (e - p) >= n; }
    uint64_t get(int n) { uint64_t r = 0; while (n--) r = r << 8 | *p++; return r; }
    // key: only strings and integers are representable
    struct Fr { V* v; uint64_t left; bool key; V k; };
    int decode(V& out) {
        // iterative, so that nesting is unbounded
        std::vector<std::unique_ptr<Fr>> st;
        V root;
        V* cur = &root;
        bool iskey = false;
        while (1) {
            if (!need(1)) return MORE;
            int c = *p;
            V v;
            uint64_t n = 0;
            int kind = 0;       // 1 str 2 arr 3 map
            static const int hl[] = {0, -1, 0, 0, 1, 2, 4, -1, -1, -1, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, -1, -1, -1, -1, -1, 1, 2, 4, 2, 4, 2, 4};
            if (c < 0x80) { v.t = V::INT; v.i = c; ++p; }
            else if (c >= 0xE0) { v.t = V::INT; v.i = c - 256; ++p; }
            else if (c < 0x90) { kind = 3; n = c - 0x80; ++p; }
            else if (c < 0xA0) { kind = 2; n = c - 0x90; ++p; }
            else if (c < 0xC0) { kind = 1; n = c - 0xA0; ++p; }
            else {
                int h = hl[c - 0xC0];
                if (h < 0) return ERR;
                if (!need(1 + h)) return MORE;
                ++p;
                uint64_t x = get(h);
                switch (c) {
                case 0xC0: v.t = V::NUL; break;
                case 0xC2: case 0xC3: v.t = V::BOOL; v.b = c & 1; break;
                case 0xC4: case 0xC5: case 0xC6: case 0xD9: case 0xDA: case 0xDB: kind = 1; n = x; break;
                case 0xCA: { uint32_t w = x; float f; memcpy(&f, &w, 4); v.t = V::DBL; v.d = dbits(f); break; }
                case 0xCB: v.t = V::DBL; v.d = x; break;
                case 0xCC: case 0xCD: case 0xCE: case 0xCF: v.t = V::INT; v.i = x; break;
                case 0xD0: v.t = V::INT; v.i = (int8_t) x; break;
                case 0xD1: v.t = V::INT; v.i = (int16_t) x; break;
                case 0xD2: v.t = V::INT; v.i = (int32_t) x; break;
                case 0xD3: v.t = V::INT; v.i = (int64_t) x; break;
                case 0xDC: case 0xDD: kind = 2; n = x; break;
                case 0xDE: case 0xDF: kind = 3; n = x; break;
                }
            }
            if (kind == 1) {
                if (n > 0x7FFFFFFF) return ERR;         // longer than any string can be
                if (!need(n)) return MORE;
                v.t = V::STR; v.s.assign((const char*) p, n); p += n;
            }
            if (iskey) {
                if (kind == 2 || kind == 3 || (v.t != V::INT && v.t != V::STR)) return ERR;
                st.back()->k = v;
                iskey = false;
                st.back()->v->m.emplace_back(v, V());
                cur = &st.back()->v->m.back().second;
                continue;
            }
            if (kind == 2) v.t = V::ARR;
            if (kind == 3) v.t = V::MAP;
            *cur = v;
            if ((kind == 2 || kind == 3) && n) {
                st.emplace_back(new Fr{cur, n, false, V()});
                maxdepth = std::max(maxdepth, (int) st.size());
            } else {
                while (!st.empty() && st.back()->left == 0) st.pop_back();
            }
            // advance
            while (!st.empty() && st.back()->left == 0) st.pop_back();
            if (st.empty()) { if (maxdepth <= 3000) out = root; return OK; }
            Fr* f = st.back().get();
            --f->left;
            if (f->v->t == V::ARR) { f->v->a.emplace_back(); cur = &f->v->a.back(); }
            else iskey = true;
        }
    }
};

//////////// the decoder under test, fed in chunks
struct Out { int r; size_t used; Json j; };
struct Chunked {
    msgpack::streaming_parser sp;
    // mode 0: exact-size heap copies, no String; 1: String holding the chunk; 2: whole input as one String
    Out run(const u8* p, size_t len, const std::vector<size_t>& cuts, int mode) {
        size_t pos = 0;
        String whole;
        if (mode == 2) whole = String((const char*) p, (int) len);
        size_t ci = 0;
        while (pos < len && !sp.done()) {
            size_t n = len - pos;
            if (ci < cuts.size()) n = std::min(n, cuts[ci]);
            ++ci;
            size_t used;
            if (mode == 0) {
                std::unique_ptr<char[]> b(new char[n]);
                memcpy(b.get(), p + pos, n);
                used = sp.consume(b.get(), n);
            } else if (mode == 1) {
                String s((const char*) p + pos, (int) n);
                used = sp.consume(s.data(), n, s);
            } else
                used = sp.consume(whole.data() + pos, n, whole);
            PBT_CHECK(used <= n, "consume() of %zu bytes reports %zu consumed", n, used);
            if (!sp.done())     // the server takes anything else for an error
                PBT_CHECK(used == n, "consume() of %zu bytes stops after %zu in the middle of a value", n, used);
            pos += used;
        }
        PBT_CHECK(!sp.done() || sp.success() != sp.error(), "done() but neither or both of success and error");
        return Out{sp.success() ? OK : sp.error() ? ERR : MORE, pos, sp.success() ? sp.result() : Json()};
    }
};
static std::vector<size_t> gencuts(Src& s, size_t len) {
    std::vector<size_t> c;
    int m = s.weighted({2, 2, 2, 1});
    if (m == 0) return c;
    size_t left = len, lim = m == 1 ? 1 : m == 2 ? 4 : std::max<size_t>(1, len / 3);
    while (left && c.size() < 4000) {
        size_t n = 1 + s.below(lim);
        if (s.chance(1, 20)) n = 0;
        c.push_back(n);
        left -= std::min(left, n);
        if (c.size() > 200 && lim < 64) lim = 64 + len / 50;
    }
    return c;
}

//////////// generators
static __int128 genint(Src& s) {
    static const __int128 edges[] = {0, 1, -1, -32, -33, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 65535, 65536, INT32_MAX, (__int128) INT32_MAX + 1,
        INT32_MIN, (__int128) INT32_MIN - 1, 4294967295LL, 4294967296LL, INT64_MAX, (__int128) INT64_MAX + 1, INT64_MIN, UINT64_MAX, (__int128) UINT64_MAX - 1};
    switch (s.weighted({2, 3, 2})) {
    case 0: return (__int128) s.below(300) - 150;
    case 1: return edges[s.below(sizeof(edges) / sizeof(edges[0]))];
    default: {
        uint64_t x = s.bits64() >> s.below(64);
        return s.coin() ? (__int128) x : (__int128) (int64_t) x;
    }
    }
}
static std::string genstr(Src& s) {
    size_t n;
    switch (s.weighted({8, 3, 1})) {
    case 0: n = s.below(12); break;
    case 1: n = 28 + s.below(8); break;
    default: { static const int e[] = {254, 255, 256, 257, 300, 4094, 4096, 65535, 65536, 65540, 70000}; n = e[s.below(s.chance(1, 8) ? 11 : 5)]; }
    }
    std::string r;
    if (n > 40) { r.assign(n, (char) ('a' + s.below(26))); r[n - 1] = (char) s.below(256); r[n / 2] = (char) s.below(256); }
    else r = s.bytes((int) n);
    return r;
}
static V gen(Src& s, int depth, int& budget) {
    V v;
    --budget;
    int k = s.weighted({1, 1, 4, 2, 4, depth < 6 && budget > 0 ? 3 : 0, depth < 6 && budget > 0 ? 3 : 0});
    switch (k) {
    case 0: break;
    case 1: v.t = V::BOOL; v.b = s.coin(); break;
    case 2: v.t = V::INT; v.i = genint(s); break;
    case 3: v.t = V::DBL;
        switch (s.below(4)) {
        case 0: v.d = dbits((double) (int) s.below(1000) / 4); break;
        case 1: v.d = s.bits64(); break;
        case 2: v.d = dbits((float) bitsd(s.bits64())); break;
        default: { static const double e[] = {0.0, -0.0, 1e300, -1e-300, HUGE_VAL, -HUGE_VAL, 4.9e-324, 0.1, 9007199254740993.0}; v.d = dbits(e[s.below(9)]); }
        }
        break;
    case 4: v.t = V::STR; v.s = genstr(s); break;
    case 5: {
        v.t = V::ARR;
        size_t n = s.weighted({6, 2}) == 0 ? s.below(5) : 13 + s.below(6);
        if (depth == 0 && s.chance(1, 400)) n = 65533 + s.below(6);
        for (size_t i = 0; i < n; ++i) { if (n > 60000) { V x; x.t = V::INT; x.i = i % 100; v.a.push_back(x); } else v.a.push_back(gen(s, depth + 1, budget)); }
        break;
    }
    default: {
        v.t = V::MAP;
        size_t n = s.weighted({6, 2}) == 0 ? s.below(5) : 13 + s.below(6);
        for (size_t i = 0; i < n; ++i) {
            V key;
            if (s.chance(1, 6)) { key.t = V::INT; key.i = genint(s); }
            else if (s.coin()) { key.t = V::STR; key.s = std::string(1, (char) ('a' + s.below(5))); }
            else { key.t = V::STR; key.s = genstr(s); }
            v.m.emplace_back(key, gen(s, depth + 1, budget));
        }
    }
    }
    return v;
}

//////////// M01
struct typed_out { std::string kind; };
static void m01(Src& s) {
    int nv = 1 + s.below(3);
    std::string stream, stream2;
    std::vector<V> want;
    std::vector<size_t> ends;
    bool compound = false;
    for (int i = 0; i < nv; ++i) {
        int budget = 60;
        V v = gen(s, 0, budget), c = canon(v);
        if (c.t == V::ARR || c.t == V::MAP) compound = true;
        if (s.noting) s.note("value %d: %s\n", i, show(v).c_str());
        // their encoder
        Json j = tojson(c, &s);
        String mine = msgpack::unparse(j);
        {
            StringAccum sa;
            msgpack::unparser<StringAccum> up(sa);
            up << j;
            PBT_CHECK(sa.length() == mine.length() && memcmp(sa.data(), mine.data(), sa.length()) == 0, "unparser and unparse() differ for %s", show(c).c_str());
        }
        Dec d{(const u8*) mine.data(), (const u8*) mine.data() + mine.length()};
        V back;
        int r = d.decode(back);
        PBT_CHECK(r == OK && d.p == d.e, "encoding of %s is not one complete MessagePack value: %s", show(c).c_str(), pbt::hexs(std::string(mine.data(), mine.length())).c_str());
        PBT_CHECK(same(back, c), "%s is encoded as %s, which means %s", show(c).c_str(), pbt::hexs(std::string(mine.data(), mine.length())).c_str(), show(back).c_str());
        if (s.coin()) stream.append(mine.data(), mine.length());
        else enc(stream, v, &s);
        want.push_back(c);
        ends.push_back(stream.size());
    }
    if (s.noting) s.note("stream %s\n", pbt::hexs(stream, 200).c_str());
    // back-to-back values through one decoder, any chunking, reused by reset
    for (int rep = 0; rep < 2; ++rep) {
        Chunked ch;
        std::vector<size_t> cuts = gencuts(s, stream.size());
        int mode = s.below(3);
        size_t pos = 0;
        std::vector<Json> results;
        for (int i = 0; i < nv; ++i) {
            if (i) { ch.sp.reset(); PBT_CHECK(!ch.sp.done() && ch.sp.empty(), "parser not empty after reset()"); }
            size_t lim = s.coin() ? stream.size() : ends[i];
            Out o = ch.run((const u8*) stream.data() + pos, lim - pos, cuts, mode);
            PBT_CHECK(o.r == OK, "decoding value %d (%s) gives %s", i, show(want[i]).c_str(), o.r == ERR ? "an error" : "need more input");
            PBT_CHECK(pos + o.used == ends[i], "value %d ends at byte %zu, decoder consumed up to %zu", i, ends[i], pos + o.used);
            V got = fromjson(o.j);
            PBT_CHECK(same(got, want[i]), "decoded %s, expected %s", show(got).c_str(), show(want[i]).c_str());
            results.push_back(o.j);
            pos = ends[i];
        }
        for (int i = 0; i < nv; ++i) {          // results handed out earlier are untouched by later parses
            V got = fromjson(results[i]);
            PBT_CHECK(same(got, want[i]), "result %d changed to %s after later values were decoded", i, show(got).c_str());
        }
    }
    // one-shot decoders
    {
        std::string one = stream.substr(0, ends[0]);
        V g = fromjson(msgpack::parse(String(one.data(), (int) one.size())));
        PBT_CHECK(same(g, want[0]), "parse(String) gives %s, expected %s", show(g).c_str(), show(want[0]).c_str());
        std::unique_ptr<char[]> b(new char[one.size()]);
        memcpy(b.get(), one.data(), one.size());
        g = fromjson(msgpack::parse(b.get(), b.get() + one.size()));
        PBT_CHECK(same(g, want[0]), "parse(first, last) gives %s, expected %s", show(g).c_str(), show(want[0]).c_str());
    }
    // parser >> Json, back to back, from memory that ends with the last value
    {
        std::unique_ptr<char[]> b(new char[stream.size()]);
        memcpy(b.get(), stream.data(), stream.size());
        String str(stream.data(), (int) stream.size());
        bool own = s.coin();
        msgpack::parser p(b.get()), ps(str);
        msgpack::parser& use = own ? p : ps;
        const char* base = own ? b.get() : str.data();
        for (int i = 0; i < nv; ++i) {
            Json j;
            use >> j;
            V g = fromjson(j);
            PBT_CHECK(same(g, want[i]), "parser >> Json gives %s, expected %s", show(g).c_str(), show(want[i]).c_str());
            PBT_CHECK(use.position() == base + ends[i], "parser >> Json ends at byte %td, expected %zu", use.position() - base, ends[i]);
        }
    }
    // typed interface: unparser << T, parser >> T, skipping
    {
        int n = 1 + s.below(6);
        StringAccum sa;
        msgpack::unparser<StringAccum> up(sa);
        up << msgpack::array(n);
        std::vector<V> vs;
        std::vector<int> kind;
        for (int i = 0; i < n; ++i) {
            V v;
            int k = s.below(12);
            v.t = V::INT;
            __int128 x = genint(s);
            switch (k) {
            case 0: v.i = (int) x; up << (int) x; break;
            case 1: v.i = (unsigned) x; up << (unsigned) x; break;
            case 2: v.i = (long) x; up << (long) x; break;
            case 3: v.i = (unsigned long) x; up << (unsigned long) x; break;
            case 4: v.i = (long long) x; up << (long long) x; break;
            case 5: v.i = (unsigned long long) x; up << (unsigned long long) x; break;
            case 6: v.i = (int64_t) x; up.write_wide((int64_t) x); break;
            case 7: v.i = (uint64_t) x; up.write_wide((uint64_t) x); break;
            case 8: v.t = V::STR; v.s = genstr(s); up << Str(v.s.data(), (int) v.s.size()); break;
            case 9: v.t = V::DBL; v.d = s.bits64(); up << bitsd(v.d); break;
            case 10: v.t = V::STR; v.s = genstr(s); up << String(v.s.data(), (int) v.s.size()); break;
            default: v.t = V::NUL; up.null(); break;
            }
            vs.push_back(v);
            kind.push_back(k);
        }
        std::string enc1(sa.data(), sa.length());
        if (s.noting) s.note("typed %s\n", pbt::hexs(enc1, 100).c_str());
        V w; w.t = V::ARR; w.a = vs;
        Dec d{(const u8*) enc1.data(), (const u8*) enc1.data() + enc1.size()};
        V back;
        int r = d.decode(back);
        PBT_CHECK(r == OK && d.p == d.e && same(back, w), "typed encoder wrote %s for %s", pbt::hexs(enc1, 200).c_str(), show(w).c_str());
        // decode: from their bytes or from any legal form
        std::string src = enc1;
        if (s.coin()) { src.clear(); enc(src, w, &s); }
        std::unique_ptr<char[]> b(new char[src.size()]);
        memcpy(b.get(), src.data(), src.size());
        msgpack::parser p(b.get());
        if (s.coin()) p.skip_array_size();
        else { unsigned sz; p.read_array_header(sz); PBT_CHECK(sz == (unsigned) n, "array header read as %u, expected %d", sz, n); }
        for (int i = 0; i < n; ++i) {
            const V& v = vs[i];
            if (v.t == V::DBL && (u8) *p.position() == 0xCA) { p.skip_primitive(); continue; }
            if (s.chance(1, 4)) {
                int k = 1 + s.below(n - i);
                if (s.noting) s.note("skip %d at %d\n", k, i);
                if (k == 1) p.skip_primitive(); else p.skip_primitives(k);
                i += k - 1;
                // the position is checked by what follows, or at the end
                continue;
            }
            if (v.t == V::INT) {
#define RD(T) do { T x = 77; if (v.i >= (__int128) std::numeric_limits<T>::min() && v.i <= (__int128) std::numeric_limits<T>::max()) { p >> x; \
                PBT_CHECK((__int128) x == v.i, "element %d read as %s, expected %s", i, i128(x).c_str(), i128(v.i).c_str()); } else p.skip_primitive(); } while (0)
                switch (s.below(6)) {
                case 0: RD(int); break;
                case 1: RD(unsigned); break;
                case 2: RD(long); break;
                case 3: RD(unsigned long); break;
                case 4: RD(long long); break;
                default: RD(unsigned long long); break;
                }
            } else if (v.t == V::STR) {
                if (s.coin()) { Str x; p >> x; PBT_CHECK(x.length() == (int) v.s.size() && memcmp(x.data(), v.s.data(), v.s.size()) == 0, "element %d: wrong Str", i); }
                else { String x; p >> x; PBT_CHECK(x.length() == (int) v.s.size() && memcmp(x.data(), v.s.data(), v.s.size()) == 0, "element %d: wrong String", i); }
            } else if (v.t == V::DBL) {
                double x; p >> x; PBT_CHECK(dbits(x) == v.d || std::isnan(x), "element %d: wrong double %g", i, x);
            } else
                PBT_CHECK(p.try_read_null(), "element %d: null not read", i);
        }
        PBT_CHECK(p.position() == b.get() + src.size(), "parser ends at byte %td of %zu", p.position() - b.get(), src.size());
        s.tag("typed elements", n);
    }
    s.tag("values", nv);
    if (compound) s.tag("compound");
    s.nontrivial = compound || stream.size() > 8;
}

//////////// M02
static size_t live_now, live_peak;
static bool counting;
static void on_malloc(const volatile void*, size_t n) { if (counting) { live_now += n; live_peak = std::max(live_peak, live_now); } }
static void on_free(const volatile void* p) { if (counting && p) { size_t n = __sanitizer_get_allocated_size(p); live_now -= std::min(live_now, n); } }

static std::string genbytes(Src& s) {
    std::string b;
    int m = s.weighted({12, 6, 4, 1, 2});
    if (m == 0) {               // mutated valid encoding
        int budget = 25;
        V v = gen(s, 0, budget);
        enc(b, v, &s);
        if (b.size() > 5000) b.resize(5000);
        int k = s.below(4);
        while (k-- && !b.empty()) {
            size_t p = s.below(b.size());
            switch (s.below(4)) {
            case 0: b[p] = (char) s.below(256); break;
            case 1: b.erase(p, 1 + s.below(4)); break;
            case 2: b.insert(p, 1, (char) (0xC0 + s.below(0x20))); break;
            default: b.resize(p);
            }
        }
    } else if (m == 1) {        // headers
        int k = 1 + s.below(20);
        while (k--) {
            switch (s.below(6)) {
            case 0: b.push_back((char) (0x80 + s.below(0x60))); break;
            case 1: b.push_back((char) (0xC0 + s.below(0x20))); break;
            case 2: b.push_back((char) s.below(256)); break;
            case 3: { static const int h[] = {0xC6, 0xDB, 0xDD, 0xDF}; static const uint32_t l[] = {0, 1, 2, 3, 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x0FFFFFFF, 0x40000000, 0x20000000, 100000};
                    b.push_back((char) h[s.below(4)]); be(b, l[s.below(12)], 4); break; }
            case 4: b.push_back((char) (0x90 + s.below(4))); break;
            default: b.push_back((char) s.below(4)); b.push_back('\xA1'); b.push_back('k');
            }
        }
    } else if (m == 2)
        b = s.bytes((int) s.below(40));
    else if (m == 3) {          // nesting
        size_t n = s.below(300);
        if (s.chance(1, 10)) n = s.below(3000);
        if (s.chance(1, 60)) n = 100000 + s.below(200000);
        int k = s.below(3);
        for (size_t i = 0; i < n; ++i) {
            if (k == 0 || (k == 2 && (i * 7919) % 3)) b += '\x91';
            else b += "\x81\xA1k";
        }
        b += (char) s.below(128);
    } else {                    // several values
        int n = 2 + s.below(3);
        while (n--) { int budget = 5; V v = gen(s, 2, budget); enc(b, v, &s); }
        if (b.size() > 3000) b.resize(3000);
    }
    return b;
}
static void m02(Src& s) {
    msgpack::streaming_parser reused;
    int rounds = 1 + s.below(3);
    Chunked keep;
    for (int r0 = 0; r0 < rounds; ++r0) {
        std::string b = genbytes(s);
        if (s.noting) s.note("bytes(%zu) %s\n", b.size(), pbt::hexs(b, 200).c_str());
        Dec d{(const u8*) b.data(), (const u8*) b.data() + b.size()};
        V w;
        int want = d.decode(w);
        size_t wused = d.p - (const u8*) b.data();
        bool deep = d.maxdepth > MAXDEPTH_SURE;
        s.tag(want == OK ? "accept" : want == MORE ? "incomplete" : "reject");
        int first = -1;
        V c;
        if (want == OK && d.maxdepth <= 3000) c = canon(w);
        for (int k = 0; k < 3; ++k) {
            std::vector<size_t> cuts = k == 0 ? std::vector<size_t>() : gencuts(s, b.size());
            int mode = s.below(3);
            Chunked fresh;
            Chunked& ch = k == 2 ? keep : fresh;
            Out o{0, 0, Json()};
            counting = true; live_now = live_peak = 0;
            ch.sp.reset();
            try { o = ch.run((const u8*) b.data(), b.size(), cuts, mode); } catch (...) { counting = false; throw; }
            counting = false;
            PBT_CHECK(live_peak <= 65536 + 1024 * b.size(), "decoding %zu bytes used %zu bytes of memory", b.size(), live_peak);
            if (deep) {         // may be refused as too deep, but consistently
                if (first < 0) first = o.r;
                PBT_CHECK(o.r == first, "outcome depends on the chunking: %d and %d (deep input)", first, o.r);
                if (o.r != want) { PBT_CHECK(o.r == ERR, "outcome %d, expected %d or an error", o.r, want); s.tag("too deep"); continue; }
            }
            PBT_CHECK(o.r == want, "decoder says %s, expected %s (chunk mode %d)", o.r == OK ? "success" : o.r == MORE ? "need more" : "error",
                      want == OK ? "success" : want == MORE ? "need more" : "error", mode);
            if (want == OK) {
                PBT_CHECK(o.used == wused, "decoder consumed %zu bytes, the value has %zu", o.used, wused);
                if (d.maxdepth <= 3000) {
                    V got = fromjson(o.j);
                    PBT_CHECK(same(got, c), "decoded %s, expected %s", show(got).c_str(), show(c).c_str());
                    String re = msgpack::unparse(o.j);
                    Dec d2{(const u8*) re.data(), (const u8*) re.data() + re.length()};
                    V w2;
                    PBT_CHECK(d2.decode(w2) == OK && d2.p == d2.e && same(canon(w2), c), "re-encoding of %s decodes to %s", show(c).c_str(), show(w2).c_str());
                }
            }
        }
        if (b.size() > 3) s.nontrivial = true;
    }
}

static void one(Src& s) { if (PROP == "M01") m01(s); else m02(s); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    PROP = argv[1];
    pbt::Options o;
    o.worker_init = [] { if (PROP == "M02") __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); };
    return pbt::main_(argc - 1, argv + 1, one, PROP.c_str(), o);
}
