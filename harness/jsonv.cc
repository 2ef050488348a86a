// J03: JSON values behave as independent mutable values.  Stateful test of
// several Json variables against a reference tree in which copies are deep.
#include "json.hh"
#include "pbt.hh"
#include <cmath>
#include <climits>
#include <memory>
#include <map>
using lcdf::Json;
using lcdf::String;
using lcdf::StringAccum;
using lcdf::Str;
using pbt::Src;

enum T { NUL, ARR, OBJ, INT, UNS, DBL, BOOL, STR };
struct V {
    T t = NUL;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    bool b = false;
    std::string s;
    std::vector<V> a;
    std::vector<std::pair<std::string, V>> o;   // in insertion order
    int find(const std::string& k) const {
        for (size_t x = 0; x < o.size(); ++x)
            if (o[x].first == k) return (int) x;
        return -1;
    }
    size_t nodes() const {
        size_t n = 1;
        for (auto& x : a) n += x.nodes();
        for (auto& x : o) n += x.second.nodes();
        return n;
    }
    int depth() const {
        int n = 0;
        for (auto& x : a) n = std::max(n, x.depth());
        for (auto& x : o) n = std::max(n, x.second.depth());
        return n + 1;
    }
    bool contains(const V* p) const {
        if (this == p) return true;
        for (auto& x : a) if (x.contains(p)) return true;
        for (auto& x : o) if (x.second.contains(p)) return true;
        return false;
    }
};
static std::string str(const String& s) { return std::string(s.data(), s.length()); }
static String S(const std::string& s) { return String(s.data(), (int) s.size()); }
static Str K(const std::string& s) { return Str(s.data(), (int) s.size()); }
// the simplest base-10 representation of an integer that can be an index
static bool intkey(const std::string& k, long& x) {
    if (k.empty() || k.size() > 10 || (k[0] == '0' && k.size() > 1)) return false;
    x = 0;
    for (char c : k) { if (c < '0' || c > '9') return false; x = 10 * x + (c - '0'); }
    return x < INT_MAX;
}
static void to_object(V& m) {
    if (m.t == OBJ) return;
    V n; n.t = OBJ;
    if (m.t == ARR)
        for (size_t x = 0; x < m.a.size(); ++x) n.o.emplace_back(std::to_string(x), m.a[x]);
    m = n;
}
static void to_array(V& m) {
    if (m.t == ARR) return;
    V n; n.t = ARR;
    if (m.t == OBJ)
        for (auto& kv : m.o) {
            long x;
            if (!intkey(kv.first, x)) continue;
            if (n.a.size() <= (size_t) x) n.a.resize(x + 1);
            n.a[x] = kv.second;
        }
    m = n;
}
static V& mslot(V& m, const std::string& k) {   // get_insert(key)
    to_object(m);
    int p = m.find(k);
    if (p < 0) { m.o.emplace_back(k, V()); p = (int) m.o.size() - 1; }
    return m.o[p].second;
}
static V& mslot(V& m, int x) {                  // get_insert(index)
    if (m.t == OBJ) return mslot(m, std::to_string(x));
    to_array(m);
    if ((size_t) x >= m.a.size()) m.a.resize(x + 1);
    return m.a[x];
}
static const V vnull;
static const V& mget(const V& m, const std::string& k) {
    if (m.t == OBJ) { int p = m.find(k); return p < 0 ? vnull : m.o[p].second; }
    long x;
    if (m.t == ARR && intkey(k, x) && (size_t) x < m.a.size()) return m.a[x];
    return vnull;
}
static const V& mget(const V& m, int x) {
    if (m.t == OBJ) return mget(m, std::to_string(x));
    if (m.t == ARR && x >= 0 && (size_t) x < m.a.size()) return m.a[x];
    return vnull;
}

//////////// comparing a Json with its model
static void cmp(const Json& j, const V& m, const char* what, int depth = 0) {
    T t = j.is_null() ? NUL : j.is_a() ? ARR : j.is_o() ? OBJ : j.is_signed() ? INT : j.is_unsigned() ? UNS
        : j.is_d() ? DBL : j.is_b() ? BOOL : j.is_s() ? STR : T(99);
    PBT_CHECK(t == m.t, "%s: type %d, model has type %d (depth %d)", what, int(t), int(m.t), depth);
    switch (m.t) {
    case NUL: PBT_CHECK(j.empty() && j.size() == 0, "%s: null with a size", what); break;
    case INT: PBT_CHECK(j.as_i() == m.i && j.is_int() && j.is_number(), "%s: integer %lld, model %lld", what, (long long) j.as_i(), (long long) m.i); break;
    case UNS: PBT_CHECK(j.as_u() == m.u && j.is_int() && j.is_number(), "%s: unsigned %llu, model %llu", what, (unsigned long long) j.as_u(), (unsigned long long) m.u); break;
    case DBL: { double d = j.as_d(); PBT_CHECK((d == m.d || (std::isnan(d) && std::isnan(m.d))) && j.is_number() && !j.is_int(), "%s: double %g, model %g", what, d, m.d); break; }
    case BOOL: PBT_CHECK(j.as_b() == m.b, "%s: bool %d", what, j.as_b()); break;
    case STR: PBT_CHECK(str(j.as_s()) == m.s, "%s: string %s, model %s", what, pbt::hexs(str(j.as_s())).c_str(), pbt::hexs(m.s).c_str()); break;
    case ARR: {
        PBT_CHECK(j.size() == (int) m.a.size() && j.empty() == m.a.empty(), "%s: array of %d elements, model %zu", what, j.size(), m.a.size());
        int x = 0;
        for (auto it = j.cabegin(); it != j.caend(); ++it, ++x) {
            PBT_CHECK(x < (int) m.a.size(), "%s: iterator runs past the end", what);
            cmp(*it, m.a[x], what, depth + 1);
        }
        PBT_CHECK(x == (int) m.a.size(), "%s: iterator stops early", what);
        break;
    }
    case OBJ: {
        PBT_CHECK(j.size() == (int) m.o.size() && j.empty() == m.o.empty(), "%s: object of %d members, model %zu", what, j.size(), m.o.size());
        size_t x = 0;
        for (auto it = j.cobegin(); it != j.coend(); ++it, ++x) {
            PBT_CHECK(x < m.o.size(), "%s: iterator runs past the end", what);
            PBT_CHECK(str(it.key()) == m.o[x].first, "%s: member %zu is %s, model %s", what, x, pbt::hexs(str(it.key())).c_str(), pbt::hexs(m.o[x].first).c_str());
            cmp(it.value(), m.o[x].second, what, depth + 1);
            PBT_CHECK(j.count(K(m.o[x].first)) == 1 && &j.get(K(m.o[x].first)) == &it.value(), "%s: lookup of %s does not find its member", what, pbt::hexs(m.o[x].first).c_str());
        }
        PBT_CHECK(x == m.o.size(), "%s: iterator stops early (%zu of %zu)", what, x, m.o.size());
        break;
    }
    }
}

//////////// generators
static std::string genkey(Src& s) {
    switch (s.weighted({8, 4, 2, 1})) {
    case 0: return "k" + std::to_string(s.below(24));
    case 1: return std::to_string(s.below(14));
    case 2: {
        static const char* const k[] = {"", "007", "00", "-1", "1x", "4294967296", "4294967297", "2147483648", "18446744073709551617",
                                        "2147483647", "4294967295", "+1", " 1", "41", "130"};
        return k[s.below(15)];
    }
    default: return s.coin() ? std::string("a\0b", 3) : std::string(1 + s.below(40), char('a' + s.below(3)));
    }
}
static int64_t genint(Src& s) {
    switch (s.weighted({3, 2, 1, 1, 1})) {
    case 0: return (int64_t) s.below(20) - 5;
    case 1: return (int64_t) s.below(200000) - 100000;
    case 2: return INT64_MIN + (int64_t) s.below(3);
    case 3: return INT64_MAX - (int64_t) s.below(3);
    default: return (int64_t) s.bits64() >> s.below(60);
    }
}
static double gendouble(Src& s) {
    switch (s.weighted({3, 2, 1, 1})) {
    case 0: return (double) s.below(20) - 5;
    case 1: return ((double) s.below(2000) - 1000) / 8;
    case 2: { static const double d[] = {1e10, -1e10, 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296.,
                                         9007199254740993., 1e300, -1e-300, 9223372036854774784., 0.5}; return d[s.below(13)]; }
    default: return std::ldexp((double) (int64_t) s.bits64(), -(int) s.below(70));
    }
}
static std::string genstr(Src& s) {
    switch (s.weighted({3, 3, 2})) {
    case 0: return s.coin() ? "" : "x";
    case 1: return s.bytes(s.below(12));
    default: { std::string r = s.bytes(1 + s.below(4)); std::string q; for (uint64_t n = s.below(20); n; --n) q += r; return q; }
    }
}
// a scalar, assigned or constructed in one of the possible ways
static Json genscalar(Src& s, V& m) {
    m = V();
    switch (s.weighted({1, 5, 3, 3, 2, 4})) {
    case 0: m.t = NUL; return s.coin() ? Json() : Json::make_null();
    case 1: {
        m.t = INT; m.i = genint(s);
        if (m.i == (int) m.i && s.coin()) return Json((int) m.i);
        return s.coin() ? Json((long) m.i) : Json((long long) m.i);
    }
    case 2: {
        m.t = UNS; m.u = (uint64_t) genint(s);
        if (m.u == (unsigned) m.u && s.coin()) return Json((unsigned) m.u);
        return s.coin() ? Json((unsigned long) m.u) : Json((unsigned long long) m.u);
    }
    case 3: m.t = DBL; m.d = gendouble(s); return Json(m.d);
    case 4: m.t = BOOL; m.b = s.coin(); return Json(m.b);
    default: {
        m.t = STR; m.s = genstr(s);
        switch (s.below(4)) {
        case 0: return Json(S(m.s));
        case 1: return Json(m.s);
        case 2: return Json(K(m.s));
        default: return m.s.find('\0') == std::string::npos ? Json(m.s.c_str()) : Json::make_string(m.s.data(), (int) m.s.size());
        }
    }
    }
}
static Json gentree(Src& s, V& m, int depth = 0) {
    int w = depth > 2 ? 0 : s.weighted({5, 2, 2});
    if (w == 0) return genscalar(s, m);
    m = V();
    int n = (int) s.below(depth ? 4 : 11);
    if (w == 1) {
        m.t = ARR;
        int how = (int) s.below(4);
        if (how == 0) {
            std::vector<Json> v;
            for (int x = 0; x < n; ++x) { V c; v.push_back(gentree(s, c, depth + 1)); m.a.push_back(c); }
            return s.coin() ? Json(v) : Json(v.begin(), v.end());
        }
        if (how == 1) {
            std::vector<int> v;
            for (int x = 0; x < n; ++x) { V c; c.t = INT; c.i = (int) s.below(100); v.push_back((int) c.i); m.a.push_back(c); }
            return s.coin() ? Json(v) : Json(v.begin(), v.end());
        }
        if (how == 2 && n >= 2) {
            V c, e; Json a = gentree(s, c, depth + 1), b = gentree(s, e, depth + 1);
            m.a = {c, e};
            return Json::array(a, b);
        }
        Json j = s.coin() ? Json::make_array() : Json::make_array_reserve((int) s.below(12));
        for (int x = 0; x < n; ++x) { V c; j.push_back(gentree(s, c, depth + 1)); m.a.push_back(c); }
        return j;
    }
    m.t = OBJ;
    if (s.chance(1, 3)) {
        std::map<String, Json> mm;
        std::vector<std::pair<std::string, V>> kv;
        for (int x = 0; x < n; ++x) {
            V c; std::string k = genkey(s); Json j = gentree(s, c, depth + 1);
            if (mm.insert(std::make_pair(S(k), j)).second) kv.emplace_back(k, c);
        }
        for (auto& p : mm) for (auto& q : kv) if (q.first == str(p.first)) m.o.push_back(q);
        return Json(mm.begin(), mm.end());
    }
    Json j = Json::make_object();
    for (int x = 0; x < n; ++x) { V c; std::string k = genkey(s); j.set(S(k), gentree(s, c, depth + 1)); mslot(m, k) = c; }
    return j;
}

//////////// the test
static const int NV = 4;
struct Loc { Json* j; V* m; };
struct CLoc { const Json* j; const V* m; };
struct World {
    Json j[NV];
    V m[NV];
    // mutable reference to a random place, reached in a random way
    Loc go(Src& s, int v, int maxd = 3) {
        Json* jj = &j[v]; V* mm = &m[v];
        for (int d = 0; d < maxd && (mm->t == ARR || mm->t == OBJ) && mm->a.size() + mm->o.size() && s.coin(); ++d) {
            if (mm->t == ARR) {
                int x = (int) s.below(mm->a.size());
                switch (s.below(7)) {
                case 0: jj = &jj->get_insert(x); break;
                case 1: jj = &jj->at_insert(x); break;
                case 2: jj = &jj->array_data()[x]; break;
                case 3: jj = &*(jj->abegin() + x); break;
                case 4: jj = &(*jj)[x].value(); break;
                case 5: { auto it = jj->begin(); for (int q = 0; q < x; ++q) ++it; jj = &it.value(); break; }
                default: { auto it = jj->aend(); it -= (int) mm->a.size() - x; jj = &it[0]; break; }
                }
                mm = &mm->a[x];
            } else {
                int x = (int) s.below(mm->o.size());
                const std::string& k = mm->o[x].first;
                switch (s.below(8)) {
                case 0: jj = &jj->get_insert(S(k)); break;
                case 1: jj = &jj->get_insert(K(k)); break;
                case 2: jj = &jj->at_insert(S(k)); break;
                case 3: jj = &(*jj)[S(k)].value(); break;
                case 4: jj = &(*jj)[K(k)].value(); break;
                case 5: { auto it = jj->obegin(); for (int q = 0; q < x; ++q) ++it; jj = &it.value(); break; }
                case 6: { auto it = jj->begin(); for (int q = 0; q < x; ++q) ++it; jj = &(*it).second; break; }
                default: jj = k.find('\0') == std::string::npos ? &jj->get_insert(k.c_str()) : &jj->at_insert(K(k)); break;
                }
                mm = &mm->o[x].second;
            }
        }
        return Loc{jj, mm};
    }
    CLoc cgo(Src& s, int v, int maxd = 3) const {
        const Json* jj = &j[v]; const V* mm = &m[v];
        for (int d = 0; d < maxd && (mm->t == ARR || mm->t == OBJ) && mm->a.size() + mm->o.size() && s.coin(); ++d) {
            if (mm->t == ARR) {
                int x = (int) s.below(mm->a.size());
                switch (s.below(5)) {
                case 0: jj = &jj->get(x); break;
                case 1: jj = &jj->at(x); break;
                case 2: jj = &jj->array_cdata()[x]; break;
                case 3: jj = &jj->get(K(std::to_string(x))); break;
                default: jj = &(*jj)[x]; break;
                }
                mm = &mm->a[x];
            } else {
                int x = (int) s.below(mm->o.size());
                const std::string& k = mm->o[x].first;
                long ik;
                switch (s.below(4)) {
                case 0: jj = &jj->get(K(k)); break;
                case 1: jj = &jj->at(K(k)); break;
                case 2: jj = intkey(k, ik) ? &jj->get((int) ik) : &jj->get(K(k)); break;
                default: jj = &(*jj)[K(k)]; break;
                }
                mm = &mm->o[x].second;
            }
        }
        return CLoc{jj, mm};
    }
    void check(const char* what) const {
        for (int v = 0; v < NV; ++v) cmp(j[v], m[v], what);
    }
};

static void reads(Src& s, const Json& j, const V& m, const World& w) {
    switch (m.t) {
    case INT: case UNS: {
        bool neg = m.t == INT && m.i < 0, big = m.t == UNS && m.u > (uint64_t) INT64_MAX;
        uint64_t u = m.t == INT ? (uint64_t) m.i : m.u;
        int64_t i = (int64_t) u;
        if (!big) PBT_CHECK(j.to_i() == i && j.as_i() == i && j.as_i(7) == i, "to_i()");
        if (!neg) PBT_CHECK(j.to_u() == u && j.as_u() == u && j.to_u64() == u && j.as_u(7) == u, "to_u()");
        double d = m.t == INT ? (double) m.i : (double) m.u, d2 = -1;
        PBT_CHECK(j.to_d() == d && j.as_d() == d && j.as_d(-1) == d && j.to_d(d2) && d2 == d, "to_d() of an integer gives %g, want %g", j.to_d(), d);
        int xi; unsigned xu; long xl; unsigned long xul;
        if (!big && i == (int) i) PBT_CHECK(j.to_i(xi) && xi == i, "to_i(int&)");
        if (!neg && u == (unsigned) u) PBT_CHECK(j.to_i(xu) && xu == u, "to_i(unsigned&)");
        if (!big) PBT_CHECK(j.to_i(xl) && xl == i, "to_i(long&)");
        if (!neg) PBT_CHECK(j.to_i(xul) && xul == u, "to_i(unsigned long&)");
        PBT_CHECK(j.to_b() == (u != 0) && j.truthy() == (u != 0) && j.is_nonnegint() == !neg, "to_b(), truthy() or is_nonnegint() of an integer");
        PBT_CHECK(str(j.to_s()) == (m.t == INT ? std::to_string(m.i) : std::to_string(m.u)), "to_s() of an integer is %s", str(j.to_s()).c_str());
        break;
    }
    case DBL: {
        double d2 = -1;
        PBT_CHECK(j.to_d() == m.d && j.to_d(d2) && d2 == m.d, "to_d()");
        if (std::fabs(m.d) < 9.2e18) PBT_CHECK(j.to_i() == (int64_t) m.d && j.as_i() == (int64_t) m.d, "to_i() of %g", m.d);
        if (m.d >= 0 && m.d < 1.8e19) PBT_CHECK(j.to_u() == (uint64_t) m.d, "to_u() of %g", m.d);
        int xi = 77; long xl = 77; unsigned xu = 77; unsigned long xul = 77;
        bool integral = m.d == std::floor(m.d);
        bool fi = integral && m.d >= -2147483648. && m.d <= 2147483647., fl = integral && m.d >= -9223372036854775808. && m.d < 9223372036854775808.;
        bool fu = integral && m.d >= 0 && m.d <= 4294967295., ful = integral && m.d >= 0 && m.d < 18446744073709551616.;
        PBT_CHECK(j.to_i(xi) == fi && xi == (fi ? (int) m.d : 77), "to_i(int&) of %.17g gives %d", m.d, xi);
        PBT_CHECK(j.to_i(xl) == fl && xl == (fl ? (long) m.d : 77), "to_i(long&) of %.17g gives %ld", m.d, xl);
        PBT_CHECK(j.to_i(xu) == fu && xu == (fu ? (unsigned) m.d : 77), "to_i(unsigned&) of %.17g gives %u", m.d, xu);
        PBT_CHECK(j.to_i(xul) == ful && xul == (ful ? (unsigned long) m.d : 77), "to_i(unsigned long&) of %.17g gives %lu", m.d, xul);
        PBT_CHECK(j.to_b() == (m.d != 0) && (j.truthy() == (m.d != 0) || std::signbit(m.d)), "to_b() or truthy() of %g", m.d);
        break;
    }
    case BOOL: {
        bool b = !m.b; int xi = 77;
        PBT_CHECK(j.to_i() == m.b && j.to_u() == m.b && j.to_d() == m.b && j.to_b() == m.b && j.truthy() == m.b && j.to_b(b) && b == m.b && j.as_b(!m.b) == m.b, "conversions of a bool");
        PBT_CHECK(!j.to_i(xi) && xi == 77 && str(j.to_s()) == (m.b ? "true" : "false") && j.as_i(3) == 3, "conversions of a bool");
        break;
    }
    case STR: {
        String x; Str y; int xi = 77; double d = 77; bool b;
        PBT_CHECK(str(j.to_s()) == m.s && j.to_s(x) && str(x) == m.s && j.to_s(y) && std::string(y.s, y.len) == m.s && str(j.as_s("def")) == m.s, "to_s() of a string");
        PBT_CHECK(!j.to_i(xi) && !j.to_d(d) && !j.to_b(b) && xi == 77 && d == 77, "number extracted from a string");
        PBT_CHECK(j.to_b() == !m.s.empty() && j.truthy() == !m.s.empty() && !j == m.s.empty(), "to_b() is %d and truthy() is %d for the string %s", j.to_b(), j.truthy(), pbt::hexs(m.s).c_str());
        PBT_CHECK(!j.empty(), "a string is empty()");
        break;
    }
    case NUL:
        PBT_CHECK(j.to_i() == 0 && j.to_u() == 0 && j.to_d() == 0 && !j.to_b() && !j.truthy() && j.to_s().empty() && j.as_i(5) == 5 && str(j.as_s("q")) == "q", "conversions of null");
        break;
    case ARR: case OBJ: {
        int n = (int) (m.a.size() + m.o.size());
        PBT_CHECK(j.to_i() == n && j.to_u() == (unsigned) n && j.to_d() == n && j.to_b() == (n != 0) && j.truthy() && str(j.to_s()) == (m.t == ARR ? "[Array]" : "[Object]"), "conversions of a container of size %d", n);
        break;
    }
    }
    // lookups of present and absent keys, in any type of value
    std::string k = genkey(s);
    cmp(j.get(K(k)), mget(m, k), "get(key)");
    int x = (int) s.below(20) - 2;
    if (x >= 0 || m.t != OBJ) cmp(j.get(x), mget(m, x), "get(index)");
    if (m.t == OBJ || m.t == NUL) PBT_CHECK(j.count(K(k)) == (m.t == OBJ && m.find(k) >= 0), "count(%s)", pbt::hexs(k).c_str());
    const V& g = mget(m, k);
    long xl = 77; Json xj(77);
    if (!(g.t == UNS && g.u > (uint64_t) INT64_MAX) && !(g.t == DBL)) {
        bool ok = j.get(K(k), xl).status();
        bool want = g.t == INT || g.t == UNS;
        PBT_CHECK(ok == want && xl == (want ? (g.t == INT ? (long) g.i : (long) g.u) : 77), "get(key, long&)");
    }
    bool has = j.get(K(k), xj).status(), want = m.t == OBJ && m.find(k) >= 0;
    PBT_CHECK(has == want, "get(key, Json&)");
    if (want) cmp(xj, g, "get(key, Json&)");
    if (g.t == STR) PBT_CHECK(str(j.get_s(K(k))) == g.s, "get_s(key)");
    // generic iteration
    if (m.t == ARR || m.t == OBJ || m.t == NUL) {
        size_t n = 0;
        for (auto it = j.begin(); it != j.end(); ++it, ++n) {
            PBT_CHECK(n < m.a.size() + m.o.size(), "begin()..end() runs past the end");
            PBT_CHECK(str(it.key()) == (m.t == ARR ? std::to_string(n) : m.o[n].first), "begin()..end(): key %zu", n);
            cmp(it.value(), m.t == ARR ? m.a[n] : m.o[n].second, "begin()..end()");
        }
        PBT_CHECK(n == m.a.size() + m.o.size(), "begin()..end() stops early");
    }
    // comparisons of scalars
    CLoc q = w.cgo(s, (int) s.below(NV));
    const V& o = *q.m;
    auto num = [](const V& v) { return v.t == INT || v.t == UNS; };
    bool eq = *q.j == j, eq2 = j == *q.j;
    PBT_CHECK(eq == eq2, "== is not symmetric");
    PBT_CHECK(Json(j) == j || (m.t == DBL && std::isnan(m.d)), "a copy differs from its source");
    if (m.t <= OBJ && o.t > OBJ) PBT_CHECK(!eq, "a container or null equals a scalar");
    if (num(m) && num(o)) {
        bool e = m.t == o.t ? (m.t == INT ? m.i == o.i : m.u == o.u)
            : m.t == INT ? m.i >= 0 && (uint64_t) m.i == o.u : o.i >= 0 && (uint64_t) o.i == m.u;
        PBT_CHECK(eq == e, "== of integers");
    } else if (m.t == o.t && m.t == STR) PBT_CHECK(eq == (m.s == o.s), "== of strings");
    else if (m.t == o.t && m.t == BOOL) PBT_CHECK(eq == (m.b == o.b), "== of bools");
    else if (m.t == o.t && m.t == DBL) PBT_CHECK(eq == (m.d == o.d), "== of doubles");
    else if (m.t == STR || o.t == STR) PBT_CHECK(!eq, "a string equals a non-string");
}

static void one(Src& s) {
    World w;
    int nops = 1 + (int) s.below(60);
    int mutations = 0;
    size_t maxsz = 0;
    for (int op = 0; op < nops && (op == 0 || s.more(40)); ++op) {
        int v = (int) s.below(NV), v2 = s.chance(1, 3) ? v : (int) s.below(NV);
        int what = s.weighted({5, 5, 3, 6, 6, 5, 4, 3, 6, 5, 5, 4, 4, 6, 2, 3, 3});
        if (s.noting) s.note("op %d: v%d v%d kind %d", op, v, v2, what);
        if (w.m[v].nodes() > 200 || w.m[v].depth() > 8) { w.j[v].clear(); T t = w.m[v].t; w.m[v] = V(); if (t == ARR || t == OBJ) w.m[v].t = t; continue; }
        if (w.m[v2].nodes() > 60) v2 = v;
        ++mutations;
        switch (what) {
        case 0: {       // a new value
            Loc d = w.go(s, v); V c; Json x = gentree(s, c);
            if (s.coin()) *d.j = x; else *d.j = std::move(x);
            *d.m = c;
            break;
        }
        case 1: {       // a new scalar by the typed assignments
            Loc d = w.go(s, v); V c;
            switch (s.below(7)) {
            case 0: c.t = INT; c.i = (int) genint(s); *d.j = (int) c.i; break;
            case 1: c.t = UNS; c.u = (unsigned) genint(s); *d.j = (unsigned) c.u; break;
            case 2: c.t = INT; c.i = genint(s); if (s.coin()) *d.j = (long) c.i; else *d.j = (long long) c.i; break;
            case 3: c.t = UNS; c.u = (uint64_t) genint(s); if (s.coin()) *d.j = (unsigned long) c.u; else *d.j = (unsigned long long) c.u; break;
            case 4: c.t = DBL; c.d = gendouble(s); *d.j = c.d; break;
            case 5: c.t = BOOL; c.b = s.coin(); *d.j = c.b; break;
            default: {
                c.t = STR;
                if (d.m->t == STR && s.coin()) { c.s = d.m->s; *d.j = d.j->as_s(); }
                else { c.s = genstr(s); *d.j = S(c.s); }
            }
            }
            *d.m = c;
            break;
        }
        case 2: {       // copy or move between places
            Loc d = w.go(s, v); CLoc q = w.cgo(s, v2);
            if (q.m != d.m && q.m->contains(d.m)) break;    // through a plain reference, a value cannot hold its own ancestor
            V c = *q.m;
            switch (s.below(4)) {
            case 0: *d.j = *q.j; break;
            case 1: { Json t(*q.j); *d.j = t; break; }
            case 2: { Json t(*q.j); d.j->swap(t); break; }
            default: { Json t; t = *q.j; *d.j = std::move(t); }
            }
            *d.m = c;
            break;
        }
        case 3: {       // store a member
            Loc d = w.go(s, v, 2); std::string k = genkey(s); V c; Json x = gentree(s, c, 1);
            switch (s.below(9)) {
            case 0: d.j->set(S(k), x); break;
            case 1: (*d.j)[S(k)] = x; break;
            case 2: (*d.j)[K(k)] = x; break;
            case 3: (*d.j)[k] = std::move(x); break;
            case 4: d.j->get_insert(S(k)) = x; break;
            case 5: d.j->get_insert(K(k)) = x; break;
            case 6: if (k.find('\0') == std::string::npos) (*d.j)[k.c_str()] = x; else d.j->get_insert(S(k)) = x; break;
            case 7: { std::string k2 = genkey(s); V c2; Json y = genscalar(s, c2); d.j->set_list(S(k), x, S(k2), y); mslot(*d.m, k) = c; k = k2; c = c2; break; }
            default: if (d.m->t == OBJ) d.j->at_insert(S(k)) = x; else d.j->set(S(k), std::move(x));
            }
            mslot(*d.m, k) = c;
            break;
        }
        case 4: {       // store an element
            Loc d = w.go(s, v, 2); int i = (int) s.below(s.chance(1, 6) ? 40 : 14); V c; Json x = gentree(s, c, 1);
            switch (s.below(3)) {
            case 0: (*d.j)[i] = x; break;
            case 1: d.j->get_insert(i) = x; break;
            default: if (d.m->t == ARR) d.j->at_insert(i) = std::move(x); else (*d.j)[i] = std::move(x); break;
            }
            mslot(*d.m, i) = c;
            break;
        }
        case 5: {       // nested stores through proxies, from any place of any variable
            std::string k = genkey(s), k2 = genkey(s), k3 = genkey(s); int i = (int) s.below(12);
            Json& a = w.j[v]; V& ma = w.m[v];
            const Json& b = w.j[v2]; Json& nb = w.j[v2];
            V mb = w.m[v2];
            if (s.noting) s.note("   keys %s %s %s i %d", pbt::hexs(k).c_str(), pbt::hexs(k2).c_str(), pbt::hexs(k3).c_str(), i);
            switch (s.below(14)) {
            case 0: a[S(k)] = b; mslot(ma, k) = mb; break;
            case 1: a[S(k)] = nb[S(k2)]; { V c = mget(mb, k2); mslot(ma, k) = c; } break;
            case 2: a[S(k)][S(k2)] = b; mslot(mslot(ma, k), k2) = mb; break;
            case 3: a[i] = b; mslot(ma, i) = mb; break;
            case 4: a[i] = nb[K(k)]; { V c = mget(mb, k); mslot(ma, i) = c; } break;
            case 5: a[K(k)][i] = b[K(k2)]; { V c = mget(mb, k2); mslot(mslot(ma, k), i) = c; } break;
            case 6: a[k][k2][k3] = 5; { V c; c.t = INT; c.i = 5; mslot(mslot(mslot(ma, k), k2), k3) = c; } break;
            case 7: a.set(S(k), nb[S(k2)]); { V c = mget(mb, k2); mslot(ma, k) = c; } break;
            case 8: a.set(S(k), nb[i]); { V c = mget(mb, i); mslot(ma, k) = c; } break;
            case 9: a.set(S(k), b); mslot(ma, k) = mb; break;
            case 10: a = nb[S(k)]; { V c = mget(mb, k); ma = c; } break;
            case 11: a = nb[i]; { V c = mget(mb, i); ma = c; } break;
            case 12: { const V& g = mget(ma, k); if (g.t != ARR && g.t != NUL) break;
                       a[S(k)].push_back(b); V& d = mslot(ma, k); to_array(d); d.a.push_back(mb); break; }
            default: { auto pr = a[S(k)]; V c = mget(ma, k); cmp(pr.cvalue(), c, "proxy"); PBT_CHECK(pr.truthy() == !pr.falsy(), "proxy"); a[S(k2)] = pr; mslot(ma, k2) = c; break; }
            }
            break;
        }
        case 6: {       // remove members
            Loc d = w.go(s, v, 2); std::string k = genkey(s);
            if (d.m->t == OBJ && d.m->o.size() && s.coin()) k = d.m->o[s.below(d.m->o.size())].first;
            int how = (int) s.below(3);
            if (d.m->t != OBJ && how) how = 0;
            int p = d.m->t == OBJ ? d.m->find(k) : -1;
            if (how == 0) d.j->unset(K(k));
            else if (how == 1) PBT_CHECK(d.j->erase(K(k)) == (p >= 0), "erase(key) returns the wrong count");
            else if (p >= 0) {
                auto it = d.j->obegin(); for (int q = 0; q < p; ++q) ++it;
                auto nx = d.j->erase(it);
                PBT_CHECK(nx.live() == (p + 1 < (int) d.m->o.size()), "erase(iterator) returns the wrong iterator");
                if (nx.live()) PBT_CHECK(str(nx.key()) == d.m->o[p + 1].first, "erase(iterator) returns the wrong iterator");
            } else break;
            if (p >= 0) d.m->o.erase(d.m->o.begin() + p);
            break;
        }
        case 7: {       // insert() of a pair
            Loc d = w.go(s, v, 2); if (d.m->t != OBJ) break;
            std::string k = genkey(s); V c; Json x = gentree(s, c, 1);
            bool fresh = d.m->find(k) < 0;
            auto r = d.j->insert(Json::object_value_type(S(k), x));
            PBT_CHECK(r.second == fresh && str(r.first.key()) == k, "insert(pair) reports the wrong result");
            if (fresh) mslot(*d.m, k) = c;
            cmp(r.first.value(), mget(*d.m, k), "insert(pair)");
            break;
        }
        case 8: {       // push, pop
            Loc d = w.go(s, v, 2); if (d.m->t != ARR && d.m->t != NUL) { if (s.coin()) break; *d.j = Json::make_array(); *d.m = V(); d.m->t = ARR; }
            V c;
            switch (s.below(6)) {
            case 0: d.j->push_back(gentree(s, c, 1)); to_array(*d.m); d.m->a.push_back(c); break;
            case 1: { V c2; Json x = genscalar(s, c), y = genscalar(s, c2); d.j->push_back_list(x, y); to_array(*d.m); d.m->a.push_back(c); d.m->a.push_back(c2); break; }
            case 2: { int i = (int) s.below(d.m->a.size() + 2); c = mget(*d.m, i); d.j->push_back((*d.j)[i]); to_array(*d.m); d.m->a.push_back(c); break; }
            case 3: { c = *d.m; d.j->push_back(*d.j); to_array(*d.m); d.m->a.push_back(c); break; }
            default: if (!d.m->a.empty()) { cmp(d.j->back(), d.m->a.back(), "back()"); d.j->pop_back(); d.m->a.pop_back(); } break;
            }
            break;
        }
        case 9: {       // insert into an array
            Loc d = w.go(s, v, 2); if (d.m->t != ARR && d.m->t != NUL) break;
            int pos = (int) s.below(d.m->a.size() + 1); V c;
            auto it = d.j->abegin() + pos;
            Json::array_iterator r;
            switch (s.below(3)) {
            case 0: { Json x = gentree(s, c, 1); r = d.j->insert(it, x); break; }
            case 1: { int i = (int) s.below(d.m->a.size() + 2); c = mget(*d.m, i); r = d.j->insert(it, (*d.j)[i]); break; }
            default: if (d.m->a.size()) { int i = (int) s.below(d.m->a.size()); c = d.m->a[i]; r = d.j->insert(it, d.j->get(i)); } else { r = d.j->insert(it, Json()); } break;
            }
            to_array(*d.m);
            d.m->a.insert(d.m->a.begin() + pos, c);
            PBT_CHECK(r - d.j->abegin() == pos, "insert(position) returns the wrong iterator");
            break;
        }
        case 10: {      // erase from, resize, reserve an array
            Loc d = w.go(s, v, 2); if (d.m->t != ARR && !(d.m->t == NUL && s.chance(1, 4))) break;
            size_t n = d.m->a.size();
            switch (s.below(4)) {
            case 0: { size_t a = s.below(n + 1), b = a + s.below(n - a + 1);
                      auto r = d.j->erase(d.j->abegin() + (int) a, d.j->abegin() + (int) b);
                      PBT_CHECK(r - d.j->abegin() == (int) a, "erase(range) returns the wrong iterator");
                      d.m->a.erase(d.m->a.begin() + a, d.m->a.begin() + b); break; }
            case 1: if (n) { size_t a = s.below(n); d.j->erase(d.j->abegin() + (int) a); d.m->a.erase(d.m->a.begin() + a); } break;
            case 2: { size_t a = s.below(20); d.j->resize((int) a); to_array(*d.m); d.m->a.resize(a); break; }
            default: d.j->reserve((int) s.below(50)); to_array(*d.m); break;
            }
            break;
        }
        case 11: {      // merge
            Loc d = w.go(s, v, 2); CLoc q = w.cgo(s, v2, 2);
            if ((d.m->t != OBJ && d.m->t != NUL) || (q.m->t != OBJ && q.m->t != NUL)) break;
            if (q.m != d.m && q.m->contains(d.m)) break;
            V c = *q.m;
            d.j->merge(*q.j);
            if (d.m->t == NUL && (c.t == NUL || (c.o.empty() && d.j->is_null()))) break;    // an empty object may be no object at all
            to_object(*d.m);
            for (auto& kv : c.o) mslot(*d.m, kv.first) = kv.second;
            break;
        }
        case 12: {      // mutate during iteration, while copies exist
            Loc d = w.go(s, v, 2); if ((d.m->t != ARR && d.m->t != OBJ)) break;
            Json keep(*d.j); V mkeep = *d.m;
            int how = (int) s.below(3); size_t n = 0;
            if (how == 0 && d.m->t == ARR) { for (auto it = d.j->abegin(); it != d.j->aend(); ++it, ++n) { if (s.coin()) { *it = (int) n; V c; c.t = INT; c.i = (int) n; d.m->a[n] = c; } } }
            else if (how == 0) { for (auto it = d.j->obegin(); it != d.j->oend(); ++it, ++n) { if (s.coin()) { it.value() = (int) n; V c; c.t = INT; c.i = (int) n; d.m->o[n].second = c; } } }
            else { for (auto it = d.j->begin(); it != d.j->end(); ++it, ++n) { if (s.coin()) { if (how == 1) it.value() = (int) n; else it->second = (int) n; V c; c.t = INT; c.i = (int) n; (d.m->t == ARR ? d.m->a[n] : d.m->o[n].second) = c; } } }
            PBT_CHECK(n == d.m->a.size() + d.m->o.size(), "iteration while changing values visits %zu elements", n);
            cmp(keep, mkeep, "copy kept while its source changes");
            break;
        }
        case 13: {      // arithmetic
            Loc d = w.go(s, v); V& m = *d.m;
            if (m.t != NUL && m.t != INT && m.t != UNS && m.t != DBL) break;
            int64_t n = (int64_t) s.below(2000) - 500;
            int how = (int) s.below(9);
            // results that the value's own type cannot hold are not defined
            __int128 cur = m.t == UNS ? (__int128) m.u : m.t == INT ? (__int128) m.i : 0, lo = m.t == UNS ? 0 : INT64_MIN, hi = m.t == UNS ? (__int128) UINT64_MAX : INT64_MAX;
            auto fits = [&](__int128 x) { return m.t == DBL || (cur + x >= lo && cur + x <= hi); };
            auto add = [&](int64_t x) { if (m.t == NUL) m.t = INT; if (m.t == DBL) m.d += x; else if (m.t == INT) m.i += x; else m.u += x; };
            switch (how) {
            case 0: if (fits(1)) { if (s.coin()) ++*d.j; else (*d.j)++; add(1); } break;
            case 1: if (fits(-1)) { if (s.coin()) --*d.j; else (*d.j)--; add(-1); } break;
            case 2: if (fits(n)) { if (s.coin()) *d.j += (int) n; else *d.j += (long) n; add(n); } break;
            case 3: if (fits(-n)) { if (s.coin()) *d.j -= (int) n; else *d.j -= (long long) n; add(-n); } break;
            case 4: { double x = (double) s.below(100) / 4; *d.j += x; m.d = m.t == DBL ? m.d : m.t == UNS ? (double) m.u : m.t == INT ? (double) m.i : 0; m.d += x; m.t = DBL; break; }
            case 5: { double x = (double) s.below(100) / 4; *d.j -= x; m.d = m.t == DBL ? m.d : m.t == UNS ? (double) m.u : m.t == INT ? (double) m.i : 0; m.d -= x; m.t = DBL; break; }
            case 6: if (fits(n)) { Json x = n >= 0 && s.coin() ? Json((unsigned long) n) : Json(n); *d.j += x; add(n); } break;
            case 7: if (fits(-n)) { Json x = n >= 0 && s.coin() ? Json((unsigned long) n) : Json(n); *d.j -= x; add(-n); } break;
            default: { Json x(d.j->is_null() ? Json() : *d.j);
                if (m.t == DBL) { PBT_CHECK((-x).to_d() == -m.d && (+x).to_d() == m.d, "unary operator on %g", m.d); }
                else if (m.t == INT && m.i != INT64_MIN) PBT_CHECK((-x).to_i() == -m.i && (+x).to_i() == m.i, "unary operator on %lld", (long long) m.i);
                else if (m.t == UNS) PBT_CHECK((+x).to_u() == m.u, "unary plus on %llu", (unsigned long long) m.u);
                { double dd = s.below(9) / 2.0; Json y(dd); Json z(*d.j); z += y; double base = m.t == DBL ? m.d : m.t == UNS ? (double) m.u : m.t == INT ? (double) m.i : 0;
                  PBT_CHECK(z.is_d() && z.to_d() == base + dd, "+= of a double Json gives %g, want %g", z.to_d(), base + dd); }
                break; }
            }
            break;
        }
        case 14: {      // swap
            if (s.coin()) { w.j[v].swap(w.j[v2]); std::swap(w.m[v], w.m[v2]); }
            else { Json t(std::move(w.j[v])); w.j[v] = Json(); if (v2 == v) { w.j[v] = t; break; } Loc d = w.go(s, v2); V md = *d.m, mt = w.m[v]; d.j->swap(t); *d.m = mt; w.m[v] = md; w.j[v] = t; }
            break;
        }
        case 15: {      // change a string in place
            Loc d = w.go(s, v); if (d.m->t != STR) break;
            std::string x = genstr(s);
            d.j->as_s().append(x.data(), (int) x.size()); d.m->s += x;
            break;
        }
        default: {      // many members at once; clear
            Loc d = w.go(s, v, 1);
            if (s.chance(1, 3)) { d.j->clear(); T t = d.m->t; *d.m = V(); if (t == ARR || t == OBJ) d.m->t = t; break; }
            if (d.m->nodes() > 80) break;
            int n = 1 + (int) s.below(40); bool rem = s.chance(1, 3) && d.m->t == OBJ;
            int base = (int) s.below(30);
            for (int x = 0; x < n; ++x) {
                std::string k = "m" + std::to_string(base + x);
                if (rem) { d.j->unset(K(k)); int p = d.m->find(k); if (p >= 0) d.m->o.erase(d.m->o.begin() + p); }
                else { d.j->get_insert(K(k)) = x; V c; c.t = INT; c.i = x; mslot(*d.m, k) = c; }
            }
        }
        }
        w.check("after an operation");
        { CLoc q = w.cgo(s, (int) s.below(NV)); reads(s, *q.j, *q.m, w); }
        for (int x = 0; x < NV; ++x) maxsz = std::max(maxsz, w.m[x].nodes());
    }
    s.tag("ops", mutations < 5 ? 4 : mutations < 20 ? 20 : 60);
    s.tag("largest value", maxsz < 5 ? 4 : maxsz < 30 ? 30 : 1000);
    if (mutations >= 3 && maxsz >= 3) s.nontrivial = true;
}

int main(int argc, char** argv) {
    pbt::Options o;
    o.hang_cpu_s = 20;
    return pbt::main_(argc - 1, argv + 1, one, "jsonv", o);
}
