// jsont.cc -- J01 (print/parse round trips) and J02 (parser vs RFC 8259) for json.{hh,cc}.
#include "pbt.hh"
#include "json.hh"
#include <math.h>
#include <memory>
using pbt::Src;
using lcdf::Json;
using lcdf::String;
using lcdf::StringAccum;
typedef unsigned char u8;
static std::string PROP;

struct V {
    enum T { NUL, BOOL, INT, DBL, STR, ARR, MAP } t = NUL;
    bool b = false;
    __int128 i = 0;
    double d = 0;
    bool negzero = false;
    std::string s;
    std::vector<V> a;
    std::vector<std::pair<std::string, V>> m;
    V() = default;
    V(const V&) = default;
    V(V&&) = default;
    V& operator=(const V&) = default;
    V& operator=(V&&) = default;
};
static std::string i128(__int128 x) {
    bool neg = x < 0;
    unsigned __int128 y = neg ? -(unsigned __int128) x : (unsigned __int128) x;
    std::string r;
    do { r.insert(r.begin(), '0' + (int) (y % 10)); y /= 10; } while (y);
    return neg ? "-" + r : r;
}
static std::string show(const V& v, int depth = 0) {
    char buf[64];
    switch (v.t) {
    case V::NUL: return "null";
    case V::BOOL: return v.b ? "true" : "false";
    case V::INT: return i128(v.i);
    case V::DBL: snprintf(buf, sizeof(buf), "d%.17g", v.d); return buf;
    case V::STR: return pbt::hexs(v.s, 24);
    case V::ARR: { std::string r = "["; int n = 0; for (auto& x : v.a) { if (n++) r += ","; if (n > 8 || depth > 5) { r += "..."; break; } r += show(x, depth + 1); } return r + "]"; }
    default: { std::string r = "{"; int n = 0; for (auto& x : v.m) { if (n++) r += ","; if (n > 8 || depth > 5) { r += "..."; break; } r += pbt::hexs(x.first, 24) + ":" + show(x.second, depth + 1); } return r + "}"; }
    }
}
// -0 may come back as integer or floating zero
static bool same(const V& a, const V& b) {
    if ((a.negzero || b.negzero) && (a.t == V::INT || a.t == V::DBL) && (b.t == V::INT || b.t == V::DBL))
        return (a.t == V::INT ? (double) a.i : a.d) == 0 && (b.t == V::INT ? (double) b.i : b.d) == 0;
    if (a.t != b.t) return false;
    switch (a.t) {
    case V::NUL: return true;
    case V::BOOL: return a.b == b.b;
    case V::INT: return a.i == b.i;
    case V::DBL: return a.d == b.d;
    case V::STR: return a.s == b.s;
    case V::ARR:
        if (a.a.size() != b.a.size()) return false;
        for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false;
        return true;
    default:
        if (a.m.size() != b.m.size()) return false;
        for (size_t i = 0; i < a.m.size(); ++i) {
            size_t p = 0;
            if (b.m[i].first == a.m[i].first) p = i;
            else while (p < b.m.size() && b.m[p].first != a.m[i].first) ++p;
            if (p == b.m.size() || !same(a.m[i].second, b.m[p].second)) return false;
        }
        return true;
    }
}
// The value is built up directly, or with detours that must leave no trace:
// members and elements that are removed again, values that are overwritten,
// copies that are kept or dropped on the way.
static Json tojson(const V& v, Src* s = nullptr) {
    bool detour = s && (v.t == V::ARR || v.t == V::MAP) && s->chance(1, 4);
    std::vector<Json> copies;
    auto keep = [&](Json& j) { if (detour && s->chance(1, 6)) copies.push_back(j); };
    switch (v.t) {
    case V::NUL: return Json();
    case V::BOOL: return Json(v.b);
    case V::INT: if (v.i > INT64_MAX) return Json((uint64_t) v.i); return Json((int64_t) v.i);
    case V::DBL: return Json(v.d);
    case V::STR: return Json(String(v.s.data(), (int) v.s.size()));
    case V::ARR: {
        Json j = Json::make_array();
        for (auto& x : v.a) {
            keep(j);
            if (detour && s->chance(1, 4)) { j.push_back(Json("gone")); j.pop_back(); }
            j.push_back(tojson(x, s));
        }
        if (detour) {
            size_t at = s->below(v.a.size() + 1);
            if (s->coin()) { j.insert(j.abegin() + at, Json("gone")); keep(j); j.erase(j.abegin() + at); }
            if (s->coin()) { j.resize((int) v.a.size() + 1 + (int) s->below(9)); keep(j); j.resize((int) v.a.size()); }
        }
        return j;
    }
    default: {
        Json j = Json::make_object();
        std::vector<std::string> junk;
        auto add = [&] {
            for (int k = 1 + (int) s->below(s->coin() ? 2 : 12); k > 0; --k) {
                std::string n = (s->coin() ? "g" : "") + std::to_string(s->below(300));
                bool used = false;
                for (auto& x : v.m) if (x.first == n) used = true;
                if (used) continue;
                j.set(String(n.data(), (int) n.size()), s->coin() ? Json("gone") : Json::make_array().push_back(1));
                junk.push_back(n);
            }
        };
        auto drop = [&] {
            for (auto& n : junk) j.erase(String(n.data(), (int) n.size()));
            junk.clear();
        };
        if (detour && s->coin()) add();
        for (auto& x : v.m) {
            keep(j);
            if (detour && s->chance(1, 4)) add();
            if (detour && s->chance(1, 4)) drop();
            if (detour && s->chance(1, 4)) j.set(String(x.first.data(), (int) x.first.size()), "old");
            j.set(String(x.first.data(), (int) x.first.size()), tojson(x.second, s));
        }
        keep(j);
        if (detour && s->chance(1, 4)) add();
        drop();
        return j;
    }
    }
}
static V fromjson(const Json& j) {
    V v;
    if (j.is_null()) v.t = V::NUL;
    else if (j.is_b()) { v.t = V::BOOL; v.b = j.as_b(); }
    else if (j.is_u()) { v.t = V::INT; v.i = j.as_u(); }
    else if (j.is_i()) { v.t = V::INT; v.i = j.as_i(); }
    else if (j.is_d()) { v.t = V::DBL; v.d = j.as_d(); v.negzero = v.d == 0; }
    else if (j.is_s()) { v.t = V::STR; v.s.assign(j.as_s().data(), j.as_s().length()); }
    else if (j.is_a()) { v.t = V::ARR; for (auto it = j.cabegin(); it != j.caend(); ++it) v.a.push_back(fromjson(*it)); PBT_CHECK((int) v.a.size() == j.size(), "array size"); }
    else if (j.is_o()) {
        v.t = V::MAP;
        for (auto it = j.cobegin(); it != j.coend(); ++it) v.m.emplace_back(std::string(it.key().data(), it.key().length()), fromjson(it.value()));
        PBT_CHECK((int) v.m.size() == j.size(), "object size");
    } else
        pbt::fail("value without a type");
    return v;
}

//////////// reference parser: RFC 8259 over valid UTF-8
struct Ref {
    const std::string& t;
    size_t p = 0;
    int maxdepth = 0;
    bool bad = false;
    explicit Ref(const std::string& s) : t(s) {}
    int c() { return p < t.size() ? (u8) t[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') ++p; }
    bool lit(const char* s) { size_t n = strlen(s); if (t.compare(p, n, s) != 0) return false; p += n; return true; }
    bool digits() { if (c() < '0' || c() > '9') return false; while (c() >= '0' && c() <= '9') ++p; return true; }
    static void utf8(std::string& o, unsigned x) {
        if (x < 0x80) o += (char) x;
        else if (x < 0x800) { o += (char) (0xC0 | x >> 6); o += (char) (0x80 | (x & 63)); }
        else if (x < 0x10000) { o += (char) (0xE0 | x >> 12); o += (char) (0x80 | (x >> 6 & 63)); o += (char) (0x80 | (x & 63)); }
        else { o += (char) (0xF0 | x >> 18); o += (char) (0x80 | (x >> 12 & 63)); o += (char) (0x80 | (x >> 6 & 63)); o += (char) (0x80 | (x & 63)); }
    }
    // one character of valid UTF-8
    bool chr(std::string& o) {
        unsigned a = c(), x, n, lo;
        if (a < 0x80) { o += (char) a; ++p; return true; }
        if (a >= 0xC2 && a < 0xE0) { n = 1; x = a & 31; lo = 0x80; }
        else if (a >= 0xE0 && a < 0xF0) { n = 2; x = a & 15; lo = 0x800; }
        else if (a >= 0xF0 && a < 0xF5) { n = 3; x = a & 7; lo = 0x10000; }
        else return false;
        if (p + n >= t.size()) return false;
        for (unsigned i = 1; i <= n; ++i) { unsigned b = (u8) t[p + i]; if ((b & 0xC0) != 0x80) return false; x = x << 6 | (b & 63); }
        if (x < lo || x > 0x10FFFF || (x >= 0xD800 && x < 0xE000)) return false;
        o.append(t, p, n + 1);
        p += n + 1;
        return true;
    }
    bool hex4(unsigned& x) {
        if (p + 4 > t.size()) return false;
        x = 0;
        for (int i = 0; i < 4; ++i) { if (!isxdigit((u8) t[p])) return false; char h[2] = {t[p], 0}; x = x * 16 + strtoul(h, 0, 16); ++p; }
        return true;
    }
    bool str(std::string& o) {
        if (c() != '"') return false;
        ++p;
        while (1) {
            int ch = c();
            if (ch < 32) return false;      // includes the end
            if (ch == '"') { ++p; return true; }
            if (ch != '\\') { if (!chr(o)) return false; continue; }
            ++p;
            switch (c()) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
                ++p;
                unsigned x, y;
                if (!hex4(x)) return false;
                if (x >= 0xDC00 && x < 0xE000) return false;        // lone surrogates denote no Unicode text
                if (x >= 0xD800 && x < 0xDC00) {
                    if (!lit("\\u") || !hex4(y) || y < 0xDC00 || y >= 0xE000) return false;
                    x = 0x10000 + (x - 0xD800) * 0x400 + (y - 0xDC00);
                }
                utf8(o, x);
                continue;
            }
            default: return false;
            }
            ++p;
        }
    }
    bool num(V& v) {
        size_t s = p;
        bool frac = false;
        if (c() == '-') ++p;
        if (c() == '0') ++p; else if (!digits()) return false;
        if (c() == '.') { ++p; frac = true; if (!digits()) return false; }
        if (c() == 'e' || c() == 'E') { ++p; frac = true; if (c() == '+' || c() == '-') ++p; if (!digits()) return false; }
        std::string x = t.substr(s, p - s);
        bool neg = x[0] == '-';
        v.t = V::DBL;
        if (!frac && x.size() - neg <= 25) {
            __int128 i = 0;
            for (size_t k = neg; k < x.size(); ++k) i = i * 10 + (x[k] - '0');
            if (neg) i = -i;
            if (i >= INT64_MIN && i <= (__int128) UINT64_MAX) { v.t = V::INT; v.i = i; v.negzero = neg && i == 0; }
        }
        if (v.t == V::DBL) { v.d = strtod(x.c_str(), 0); v.negzero = v.d == 0; }
        return true;
    }
    bool val(V& v, int depth) {
        maxdepth = std::max(maxdepth, depth);
        if (depth > 2500) return false;      // counts as deep: may be refused
        ws();
        switch (c()) {
        case 'n': v.t = V::NUL; return lit("null");
        case 't': v.t = V::BOOL; v.b = true; return lit("true");
        case 'f': v.t = V::BOOL; v.b = false; return lit("false");
        case '"': v.t = V::STR; return str(v.s);
        case '[':
            v.t = V::ARR; ++p; ws();
            maxdepth = std::max(maxdepth, depth + 1);
            if (c() == ']') { ++p; return true; }
            while (1) {
                v.a.emplace_back();
                if (!val(v.a.back(), depth + 1)) return false;
                ws();
                if (c() == ',') { ++p; continue; }
                if (c() == ']') { ++p; return true; }
                return false;
            }
        case '{':
            v.t = V::MAP; ++p; ws();
            maxdepth = std::max(maxdepth, depth + 1);
            if (c() == '}') { ++p; return true; }
            while (1) {
                ws();
                std::string k;
                if (!str(k)) return false;
                ws();
                if (c() != ':') return false;
                ++p;
                V x;
                if (!val(x, depth + 1)) return false;
                size_t i = 0;
                while (i < v.m.size() && v.m[i].first != k) ++i;
                if (i == v.m.size()) v.m.emplace_back(k, std::move(x)); else v.m[i].second = std::move(x);     // last one wins
                ws();
                if (c() == ',') { ++p; continue; }
                if (c() == '}') { ++p; return true; }
                return false;
            }
        default: return num(v);
        }
    }
    bool text(V& v) { if (!val(v, 0)) return false; ws(); return p == t.size(); }
};

//////////// generators
static __int128 genint(Src& s) {
    static const __int128 e[] = {0, 1, -1, 9, 10, -9, -10, 99, 100, INT32_MAX, INT32_MIN, INT64_MAX, (__int128) INT64_MAX + 1, INT64_MIN, (__int128) INT64_MIN + 1, UINT64_MAX, (__int128) UINT64_MAX - 1};
    switch (s.weighted({2, 2, 2})) {
    case 0: return (__int128) s.below(300) - 150;
    case 1: return e[s.below(sizeof(e) / sizeof(e[0]))];
    default: { uint64_t x = s.bits64() >> s.below(64); return s.coin() ? (__int128) x : (__int128) (int64_t) x; }
    }
}
static unsigned gencp(Src& s) {
    static const unsigned e[] = {0, 1, 8, 9, 10, 12, 13, 0x1F, '"', '\\', '/', 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2027, 0x2028, 0x2029, 0x4E2D, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xFEFF,
        0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF};
    unsigned x;
    switch (s.weighted({5, 4, 2, 1})) {
    case 0: return 32 + s.below(95);
    case 1: return e[s.below(sizeof(e) / sizeof(e[0]))];
    case 2: x = s.below(0x10000); break;
    default: x = s.below(0x110000);
    }
    return x >= 0xD800 && x < 0xE000 ? x - 0xD800 : x;
}
static std::string gentext(Src& s) {
    std::string r;
    int n = s.weighted({4, 1}) == 0 ? s.below(8) : s.below(60);
    while (n--) Ref::utf8(r, gencp(s));
    return r;
}
static double gendbl(Src& s) {
    double d;
    switch (s.below(5)) {
    case 0: return (double) (int) s.below(2000) / 8 - 100;
    case 1: { uint64_t b = s.bits64(); memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
    case 2: { static const double e[] = {0.0, -0.0, 0.1, 1e300, -1e300, 1e-300, 4.9e-324, 1.7976931348623157e308, 123456789012.0, 1e12, 999999999999.5, 1e15, 1e21, 0.0001, 0.00001}; return e[s.below(15)]; }
    case 3: return (double) (int64_t) s.bits64();
    default: return (double) s.below(1000000) / 1000;
    }
}
static V gen(Src& s, int depth, int& budget) {
    V v;
    --budget;
    int cc = depth < 7 && budget > 0 ? 3 : 0;
    switch (s.weighted({1, 1, 4, 2, 4, cc, cc})) {
    case 0: break;
    case 1: v.t = V::BOOL; v.b = s.coin(); break;
    case 2: v.t = V::INT; v.i = genint(s); break;
    case 3: v.t = V::DBL; v.d = gendbl(s); v.negzero = v.d == 0; break;
    case 4: v.t = V::STR; v.s = gentext(s); break;
    case 5: { v.t = V::ARR; int n = s.weighted({6, 1}) == 0 ? s.below(5) : s.below(20); while (n--) v.a.push_back(gen(s, depth + 1, budget)); break; }
    default: {
        v.t = V::MAP;
        int n = s.weighted({6, 1}) == 0 ? s.below(5) : s.below(20);
        while (n--) {
            std::string k = s.coin() ? std::string(1, (char) ('a' + s.below(8))) : gentext(s);
            V x = gen(s, depth + 1, budget);
            bool dup = false;
            for (auto& e : v.m) dup |= e.first == k;
            if (!dup) v.m.emplace_back(k, std::move(x));
        }
    }
    }
    return v;
}
// a random JSON text for v
static void put(std::string& o, const V& v, Src& s, bool wsp) {
    auto ws = [&]() { if (wsp) { int n = s.weighted({3, 1, 1}); while (n--) o += " \t\r\n"[s.below(4)]; } };
    auto str = [&](const std::string& x) {
        o += '"';
        Ref r(x);
        while (r.p < x.size()) {
            std::string one;
            if (!r.chr(one)) { o += x[r.p++]; continue; }
            unsigned cp = 0;
            u8 a = one[0];
            if (one.size() == 1) cp = a;
            else { cp = a & (0xFF >> (one.size() + 1)); for (size_t i = 1; i < one.size(); ++i) cp = cp << 6 | ((u8) one[i] & 63); }
            const char* sh = 0;
            switch (cp) { case 8: sh = "\\b"; break; case 9: sh = "\\t"; break; case 10: sh = "\\n"; break; case 12: sh = "\\f"; break; case 13: sh = "\\r"; break;
                          case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; }
            bool must = cp < 32 || cp == '"' || cp == '\\';
            int k = s.weighted({4, sh ? 2 : 0, 2});
            if (must && k == 0) k = sh ? 1 : 2;
            if (k == 0) o += one;
            else if (k == 1) o += sh;
            else {
                char b[16];
                const char* f = s.coin() ? "\\u%04x" : "\\u%04X";
                if (cp >= 0x10000) { snprintf(b, sizeof(b), f, 0xD800 + ((cp - 0x10000) >> 10)); o += b; cp = 0xDC00 + ((cp - 0x10000) & 0x3FF); }
                snprintf(b, sizeof(b), f, cp); o += b;
            }
        }
        o += '"';
    };
    char b[400];
    ws();
    switch (v.t) {
    case V::NUL: o += "null"; break;
    case V::BOOL: o += v.b ? "true" : "false"; break;
    case V::INT:
        if (s.chance(1, 8)) { o += i128(v.i); int n = s.below(30); while (n--) o += (char) ('0' + s.below(10)); }
        else o += i128(v.i);
        break;
    case V::DBL: snprintf(b, sizeof(b), s.coin() ? "%.17g" : s.coin() ? "%.5e" : "%.3E", v.d); o += b; break;
    case V::STR: str(v.s); break;
    case V::ARR: { o += '['; bool f = true; for (auto& x : v.a) { if (!f) o += ','; f = false; put(o, x, s, wsp); } ws(); o += ']'; break; }
    default: { o += '{'; bool f = true; for (auto& x : v.m) { if (!f) o += ','; f = false; ws(); str(x.first); ws(); o += ':'; put(o, x.second, s, wsp);
            if (s.chance(1, 20)) { o += ','; str(x.first); o += ':'; put(o, x.second, s, wsp); } } ws(); o += '}'; }
    }
    ws();
}
static std::vector<size_t> gencuts(Src& s, size_t len) {
    std::vector<size_t> c;
    int m = s.weighted({1, 2, 2, 1});
    if (m == 0) return c;
    size_t left = len, lim = m == 1 ? 1 : m == 2 ? 4 : std::max<size_t>(1, len / 3);
    while (left && c.size() < 4000) {
        size_t n = 1 + s.below(lim);
        if (s.chance(1, 20)) n = 0;
        c.push_back(n);
        left -= std::min(left, n);
        if (c.size() > 300 && lim < 64) lim = 64 + len / 50;
    }
    return c;
}

//////////// J01
// what parsing the printed text must give
static V printed(const V& v) {
    V r = v;
    if (v.t == V::DBL) {
        char b[64];
        snprintf(b, sizeof(b), "%.12g", v.d);
        std::string t = b;
        Ref p(t);
        r = V();
        p.num(r);
    } else if (v.t == V::ARR) for (auto& x : r.a) x = printed(x);
    else if (v.t == V::MAP) for (auto& x : r.m) x.second = printed(x.second);
    return r;
}
// v printed as text: every number within the documented precision
static void close_(const V& v, const V& t) {
    if (v.t == V::DBL) {
        double x = t.t == V::INT ? (double) t.i : t.d;
        PBT_CHECK((t.t == V::INT || t.t == V::DBL) && fabs(x - v.d) <= fabs(v.d) * 1e-11, "double %.17g is printed as %s", v.d, show(t).c_str());
    } else if (v.t == V::ARR) {
        PBT_CHECK(t.t == V::ARR && t.a.size() == v.a.size(), "array printed as %s", show(t).c_str());
        for (size_t i = 0; i < v.a.size(); ++i) close_(v.a[i], t.a[i]);
    } else if (v.t == V::MAP) {
        PBT_CHECK(t.t == V::MAP && t.m.size() == v.m.size(), "object printed as %s", show(t).c_str());
        for (size_t i = 0; i < v.m.size(); ++i) {
            size_t p = 0;
            while (p < t.m.size() && t.m[p].first != v.m[i].first) ++p;
            PBT_CHECK(p < t.m.size(), "member %s is missing from the text", pbt::hexs(v.m[i].first).c_str());
            close_(v.m[i].second, t.m[p].second);
        }
    } else
        PBT_CHECK(same(v, t), "%s is printed as %s", show(v).c_str(), show(t).c_str());
}
static void j01(Src& s) {
    int budget = 50;
    V v = gen(s, 0, budget);
    if (s.noting) s.note("value %s\n", show(v).c_str());
    Json j = tojson(v, &s);
    auto m = Json::indent_depth(s.coin() ? 0 : s.below(6)).tab_width(s.below(10)).newline_terminator(s.coin()).space_separator(s.coin());
    bool plain = s.coin();
    String out = plain ? j.unparse() : j.unparse(m);
    std::string text(out.data(), out.length());
    {
        StringAccum sa;
        sa << "xy";
        if (plain) j.unparse(sa); else j.unparse(sa, m);
        PBT_CHECK(sa.length() == out.length() + 2 && memcmp(sa.data() + 2, out.data(), out.length()) == 0, "unparse(StringAccum) differs from unparse()");
    }
    if (s.noting) s.note("text %s\n", pbt::hexs(text, 300).c_str());
    Ref r(text);
    V t;
    PBT_CHECK(r.text(t), "the printed text is not valid JSON (at byte %zu): %s", r.p, pbt::hexs(text, 200).c_str());
    close_(v, t);
    Json back = Json::parse(out);
    V g = fromjson(back);
    PBT_CHECK(same(g, t), "parsing the printed text gives %s, expected %s", show(g).c_str(), show(t).c_str());
    bool nz = false;
    std::function<void(const V&)> f = [&](const V& x) { if (x.negzero && x.t == V::DBL) nz = true; for (auto& y : x.a) f(y); for (auto& y : x.m) f(y.second); };
    f(v);
    if (!nz) {          // a negative zero is not required to keep its sign
        String again = plain ? back.unparse() : back.unparse(m);
        PBT_CHECK(again == out, "printing again gives %s, first %s", pbt::hexs(std::string(again.data(), again.length())).c_str(), pbt::hexs(text).c_str());
    }
    // the original is untouched
    V o = fromjson(j);
    PBT_CHECK(same(o, v), "printing changed the value");
    if (v.t == V::ARR || v.t == V::MAP) s.tag("compound");
    if (!plain) s.tag("indented or separated");
    s.nontrivial = text.size() > 6;
}

//////////// J02
static std::string mutate(Src& s, std::string b) {
    int k = s.below(4);
    static const char* frag[] = {"[", "]", "{", "}", ",", ":", "\"", "\\", "\\u", "\\ud83d", "\\udc00", "\\u0000", "-", ".", "e", "E+", "0", "00", "1", "null", "nul", "true", "false", " ", "\n",
        "\t\r\n ", "\xEF\xBB\xBF", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xC3\xA9", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xE0\x80\x80", "\xFF", "\x7f", "\x01", "/", "'", "+1", "1.", ".5", "Infinity", "NaN", "99999999999999999999",
        "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "1e400", "\"\"", "[]", "{}", "{\"a\":[1],\"a\":2}"};
    while (k--) {
        size_t p = s.below(b.size() + 1);
        switch (s.below(5)) {
        case 0: if (p < b.size()) b[p] = (char) s.below(256); break;
        case 1: b.erase(p, 1 + s.below(3)); break;
        case 2: case 3: b.insert(p, frag[s.below(sizeof(frag) / sizeof(frag[0]))]); break;
        default: b.resize(p);
        }
    }
    return b;
}
static void j02(Src& s) {
    Json::streaming_parser keep;
    int rounds = 1 + s.below(2);
    for (int r0 = 0; r0 < rounds; ++r0) {
        std::string b;
        switch (s.weighted({8, 2, 1, 1})) {
        case 0: { int budget = 20; V v = gen(s, 2, budget); put(b, v, s, s.coin()); break; }
        case 1: break;
        case 2: b = s.bytes((int) s.below(20)); break;
        default: { size_t n = s.below(60); if (s.chance(1, 10)) n = s.below(2500); if (s.chance(1, 20)) n = 40000; bool o = s.coin(); for (size_t i = 0; i < n; ++i) b += o ? "{\"a\":" : "["; b += "1"; for (size_t i = 0; i < n && n < 20000; ++i) b += o ? "}" : "]"; }
        }
        b = mutate(s, b);
        if (s.noting) s.note("text(%zu) %s\n", b.size(), pbt::hexs(b, 300).c_str());
        bool huge = b.size() > 30000;
        Ref ref(b);
        V want;
        bool ok = !huge && ref.text(want);
        bool deep = ref.maxdepth > 1000;
        // from the one-shot interfaces
        {
            String str(b.data(), (int) b.size());
            Json prev = Json(77), j = prev;
            bool r = j.assign_parse(str);
            std::unique_ptr<char[]> x(new char[b.size()]);
            memcpy(x.get(), b.data(), b.size());
            Json j2 = prev;
            bool r2 = j2.assign_parse(x.get(), x.get() + b.size());
            x.reset();
            PBT_CHECK(r == r2, "assign_parse(String) says %d, assign_parse(first, last) %d", r, r2);
            if (!(deep && !(r && ref.maxdepth <= 2500)))
                PBT_CHECK(r == ok, "the parser %s %s text", r ? "accepts" : "rejects", ok ? "this valid" : "this invalid");
            if (r && ok) {
                V g = fromjson(j), g2 = fromjson(j2);
                PBT_CHECK(same(g, want), "parsed %s, expected %s", show(g).c_str(), show(want).c_str());
                PBT_CHECK(same(g2, want), "parsed (from memory) %s, expected %s", show(g2).c_str(), show(want).c_str());
                V p = fromjson(Json::parse(str));
                PBT_CHECK(same(p, want), "parse() gives %s, expected %s", show(p).c_str(), show(want).c_str());
            } else if (!r) {
                PBT_CHECK(j.is_i() && j.as_i() == 77 && j2.is_i() && j2.as_i() == 77, "a rejected text changed the value to %s", show(fromjson(j)).c_str());
                PBT_CHECK(Json::parse(str).is_null(), "parse() of a rejected text is not null");
            }
            s.tag(r ? "accept" : "reject");
        }
        // incrementally
        for (int k = 0; k < 2; ++k) {
            Json::streaming_parser fresh;
            Json::streaming_parser& sp = k ? keep : fresh;
            sp.reset();
            std::vector<size_t> cuts = gencuts(s, b.size());
            int mode = s.below(2);
            size_t pos = 0, ci = 0;
            while (pos < b.size() && !sp.done()) {
                size_t n = b.size() - pos, used;
                if (ci < cuts.size()) n = std::min(n, cuts[ci]);
                ++ci;
                if (mode == 0) {
                    std::unique_ptr<char[]> x(new char[n]);
                    memcpy(x.get(), b.data() + pos, n);
                    used = sp.consume(x.get(), n);
                } else {
                    String x(b.data() + pos, (int) n);
                    used = sp.consume(x.data(), n, x);
                }
                PBT_CHECK(used <= n, "consume() of %zu bytes reports %zu consumed", n, used);
                if (!sp.done() && n) PBT_CHECK(used > 0, "consume() makes no progress");
                pos += used;
            }
            if (!sp.done()) sp.consume(b.data(), (size_t) 0, String(), true);
            bool acc = sp.success();
            if (acc) for (size_t i = pos; i < b.size(); ++i) acc &= b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r';
            if (!(deep && !(acc && ref.maxdepth <= 2500)))
                PBT_CHECK(acc == ok, "in chunks the parser %s %s text", acc ? "accepts" : "rejects", ok ? "this valid" : "this invalid");
            if (acc && ok) {
                V g = fromjson(sp.result());
                PBT_CHECK(same(g, want), "parsed in chunks: %s, expected %s", show(g).c_str(), show(want).c_str());
            }
        }
        if (b.size() > 4) s.nontrivial = true;
    }
}
static void one(Src& s) { if (PROP == "J01") j01(s); else j02(s); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    PROP = argv[1];
    return pbt::main_(argc - 1, argv + 1, one, PROP.c_str());
}
