// U01: strings and string accumulators against a plain byte-string model.
// U02: text helpers against reference definitions.
#include "string.hh"
#include "straccum.hh"
#include "str.hh"
#include "misc.hh"
#include "pbt.hh"
#include <algorithm>
#include <climits>
#include <cmath>
#include <memory>
#include <sstream>
using lcdf::String;
using lcdf::StringAccum;
using lcdf::Str;
using lcdf::String_generic;
using lcdf::String_base;
using pbt::Src;
typedef std::string B;

static B str(const String& s) { return B(s.data(), s.length()); }
static B str(const StringAccum& s) { return B(s.data(), s.length()); }
static B str(Str s) { return B(s.data() ? s.data() : "", s.length()); }

// memory of exactly the size of `b`, so that ASan sees any access outside
struct Exact {
    std::unique_ptr<char[]> p;
    int n;
    explicit Exact(const B& b, int shift = 0) : p(new char[b.size() + shift]), n((int) b.size()) { d = p.get() + shift; memcpy(d, b.data(), b.size()); }
    char* d;
    Str s() const { return Str(d, n); }
};

// ------------------------------------------------------------ generators
static B gentext(Src& s, int scale = 1) {
    static const char* const words[] = { "a", "ab", "aab", "b", "abc", "0", "10", "-1", "1.5", " ", "\n", "*", "?", "[", "]", "\\", "\"", "/",
        "\xC3\xA9", "\xE2\x80\xA8", "\xE2\x82\xAC", "\xF0\x9F\x92\xA3", "A", "Zz", "\x7f", "\x80", "\xff", "\x01", "00", "." };
    B b;
    switch (s.weighted({3, 6, 2, 1, 1})) {
    case 0: { int n = (int) s.below(20); for (int i = 0; i < n; ++i) b += (char) ('a' + s.below(2)); break; }
    case 1: { int n = (int) s.below(10); for (int i = 0; i < n; ++i) b += words[s.below(sizeof(words) / sizeof(words[0]))]; break; }
    case 2: { int n = (int) s.below(24); for (int i = 0; i < n; ++i) b += (char) s.below(256); break; }
    case 3: { int n = (int) s.below(40); for (int i = 0; i < n; ++i) b += s.chance(1, 3) ? '\0' : (char) ('a' + s.below(3)); break; }
    default: { static const int ns[] = { 3, 8, 15, 16, 17, 20, 21, 31, 32, 100, 127, 128, 500, 1000, 1012, 1024, 2030 }; int n = ns[s.below(17)] * scale; int q = (int) s.below(7) + 1;
               for (int i = 0; i < n; ++i) b += (char) ('a' + i % q); } }
    return b;
}
static B nonul(B b) { for (auto& c : b) if (!c) c = 'z'; return b; }

// ------------------------------------------------------------ U01
struct Stable { B keep; };
static const int NS = 5, NA = 2;
struct World {
    String s[NS]; B m[NS];
    StringAccum a[NA]; B am[NA];
    std::vector<std::unique_ptr<Stable>> stable;        // referenced by make_stable strings
    void check(const char* what) {
        for (int i = 0; i < NS; ++i)
            PBT_CHECK(str(s[i]) == m[i], "%s: string %d is %s, model %s", what, i, pbt::hexs(str(s[i])).c_str(), pbt::hexs(m[i]).c_str());
        for (int i = 0; i < NA; ++i)
            PBT_CHECK(str(a[i]) == am[i], "%s: accumulator %d is %s, model %s", what, i, pbt::hexs(str(a[i])).c_str(), pbt::hexs(am[i]).c_str());
    }
};
static B substr_model(const B& x, long pos, long len) {     // Perl's substr, clipped to the string
    long n = (long) x.size();
    if (pos < 0) pos += n;
    long end = len < 0 ? n + len : pos + len;
    pos = std::max(pos, 0L); end = std::min(end, n);
    return pos >= end ? B() : x.substr(pos, end - pos);
}
static int anyint(Src& s) {
    static const int xs[] = { 0, 1, -1, 9, 10, INT_MAX, INT_MIN, 12345, -99 };
    return s.chance(1, 3) ? xs[s.below(9)] : (int) s.below(60) - 25;
}
static B format(const char* f, ...) {
    char buf[4000]; va_list v; va_start(v, f); int n = vsnprintf(buf, sizeof buf, f, v); va_end(v); return B(buf, n);
}
static B lowerm(B b) { for (auto& c : b) if (c >= 'A' && c <= 'Z') c += 32; return b; }
static B upperm(B b) { for (auto& c : b) if (c >= 'a' && c <= 'z') c -= 32; return b; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static B ltrimm(B b) { size_t i = 0; while (i < b.size() && sp(b[i])) ++i; return b.substr(i); }
static B rtrimm(B b) { while (!b.empty() && sp(b.back())) b.pop_back(); return b; }
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static int cmpm(const B& a, const B& b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}

static void reads(Src& s, World& w) {
    int i = (int) s.below(NS), j = (int) s.below(NS);
    const String& x = w.s[i]; const String& y = w.s[j]; const B& mx = w.m[i]; const B& my = w.m[j];
    PBT_CHECK((x == y) == (mx == my) && (x != y) == (mx != my) && x.equals(y) == (mx == my), "strings %d and %d equal?", i, j);
    PBT_CHECK(sgn(x.compare(y)) == cmpm(mx, my) && (x < y) == (cmpm(mx, my) < 0) && (x <= y) == (cmpm(mx, my) <= 0)
              && (x > y) == (cmpm(mx, my) > 0) && (x >= y) == (cmpm(mx, my) >= 0), "strings %d and %d compare %d", i, j, x.compare(y));
    PBT_CHECK(x == mx && mx == x && B(x) == mx, "std::string comparison and conversion of string %d", i);
    PBT_CHECK((mx != my || x.hashcode() == y.hashcode()) && x.hashcode() == Str(mx).hashcode(), "hash codes of strings %d and %d", i, j);
    PBT_CHECK(x.empty() == mx.empty() && (x ? true : false) == !mx.empty() && !x == mx.empty() && x.end() - x.begin() == (long) mx.size(), "emptiness of string %d", i);
    PBT_CHECK(x.starts_with(y) == (mx.compare(0, my.size(), my) == 0 && mx.size() >= my.size()), "string %d starts with string %d", i, j);
    if (!mx.empty()) {
        int p = (int) s.below(mx.size());
        PBT_CHECK(x[p] == mx[p] && x.at(p) == mx[p] && x.front() == mx[0] && x.back() == mx.back(), "characters of string %d", i);
    }
    switch (s.below(4)) {
    case 0: {
        const char* c = x.c_str();
        PBT_CHECK(x.c_str() == c && B(c, mx.size() + 1) == mx + '\0', "c_str() of string %d is not its %zu bytes and a NUL", i, mx.size());
        break; }
    case 1: { int k = (int) s.below(NA); const char* c = w.a[k].c_str(); PBT_CHECK(B(c, w.am[k].size() + 1) == w.am[k] + '\0', "c_str() of accumulator %d", k); break; }
    case 2: {
        int k = (int) s.below(NA); StringAccum& a = w.a[k]; const B& m = w.am[k];
        PBT_CHECK(a.empty() == m.empty() && (a ? true : false) == !m.empty() && a.end() - a.begin() == (long) m.size() && a.capacity() >= a.length() && !a.out_of_memory(), "state of accumulator %d", k);
        if (!m.empty()) { int p = (int) s.below(m.size()); PBT_CHECK(a[p] == m[p] && a.front() == m[0] && a.back() == m.back(), "characters of accumulator %d", k); }
        break; }
    default: {
        std::ostringstream o; o << x; PBT_CHECK(o.str() == mx, "stream output of string %d", i);
        PBT_CHECK(std::hash<String>()(x) == x.hashcode(), "std::hash");
        break; }
    }
}

static void u01(Src& s) {
    World w;
    int nops = 1 + (int) s.below(60), changes = 0; size_t maxlen = 0;
    for (int op = 0; op < nops && (op == 0 || s.more(40)); ++op) {
        int i = (int) s.below(NS), j = s.chance(1, 4) ? i : (int) s.below(NS), k = (int) s.below(NA);
        String& x = w.s[i]; B& m = w.m[i]; String& y = w.s[j]; B& my = w.m[j]; StringAccum& a = w.a[k]; B& am = w.am[k];
        if (m.size() > 6000) { x = String(); m.clear(); }
        if (my.size() > 3000) { y = String(); my.clear(); }
        if (am.size() > 6000) { a.clear(); am.clear(); }
        int kind = s.weighted({8, 6, 8, 7, 8, 8, 6, 4, 4, 4, 4, 9, 5, 5, 3, 3, 6, 3});
        if (s.noting) s.note("op %d: kind %d, strings %d %d, accumulator %d", op, kind, i, j, k);
        ++changes;
        switch (kind) {
        case 0: {       // a new string from bytes
            B b = gentext(s);
            switch (s.below(11)) {
            case 0: x = String(b.data(), (int) b.size()); break;
            case 1: x = String((const unsigned char*) b.data(), (int) b.size()); break;
            case 2: x = String(b.data(), b.data() + b.size()); break;
            case 3: x = b; break;
            case 4: b = nonul(b); x = b.c_str(); break;
            case 5: x = Str(b); break;
            case 6: b = nonul(b); x = String(b.c_str(), -1); break;
            case 7: x.assign(b.data(), b.data() + b.size()); break;
            case 8: w.stable.emplace_back(new Stable{b}); x = String::make_stable(w.stable.back()->keep.data(), (int) b.size()); break;
            case 9: w.stable.emplace_back(new Stable{b}); x = String::make_stable(Str(w.stable.back()->keep)); break;
            default: { Exact e(b); x = String(e.d, e.n); }
            }
            m = b; break; }
        case 1: {       // from other values
            switch (s.below(11)) {
            case 0: { int v = anyint(s); x = String(v); m = format("%d", v); break; }
            case 1: { unsigned v = anyint(s); x = String(v); m = format("%u", v); break; }
            case 2: { long v = s.coin() ? anyint(s) : (long) s.bits64(); x = String(v); m = format("%ld", v); break; }
            case 3: { unsigned long v = s.coin() ? anyint(s) : s.bits64(); x = String(v); m = format("%lu", v); break; }
            case 4: { long long v = s.bits64(); x = String(v); m = format("%lld", v); break; }
            case 5: { double v = s.coin() ? anyint(s) / 8.0 : std::ldexp((double) anyint(s), anyint(s) % 300); x = String(v); m = format("%.12g", v); break; }
            case 6: { bool v = s.coin(); x = String(v); m = v ? "true" : "false"; break; }
            case 7: { char v = (char) s.below(256); if (s.coin()) x = String(v); else x = String((unsigned char) v); m = B(1, v); break; }
            case 8: { int n = (int) s.below(50); char c = (char) s.below(256); x = String::make_fill(c, n); m = B(n, c); break; }
            case 9: if (s.coin()) { x = String(); m = ""; } else { x = String::make_empty(); m = ""; } break;
            default: { static const char* const lit = "literal"; if (s.coin()) { x = "const literal"; m = "const literal"; } else { x = String("abcdef", 3); m = "abc"; } (void) lit; }
            }
            break; }
        case 2:         // copies and moves
            switch (s.below(7)) {
            case 0: x = y; m = my; break;
            case 1: { String t(y); x = std::move(t); m = my; break; }
            case 2: { B t = my; if (i != j) { x = std::move(y); y = String(); my = ""; } m = t; break; }
            case 3: x.assign(y); m = my; break;
            case 4: if (s.coin()) x.swap(y); else swap(x, y); std::swap(m, my); break;
            case 5: x = y.unique(); m = my; break;
            default: x.shrink_to_fit();
            }
            break;
        case 3: {       // substrings
            int pos = (int) s.below(my.size() + 12) - 6, len = (int) s.below(my.size() + 12) - 6;
            if (s.chance(1, 8)) len = s.coin() ? INT_MAX : INT_MIN + 40; if (s.chance(1, 12)) pos = s.coin() ? 1000000 : -1000000;
            switch (s.below(8)) {
            case 7: {   // iterators that may lie outside the string, or be in the wrong order
                long p = (long) s.below(my.size() + 7) - 3, q = (long) s.below(my.size() + 7) - 3;
                B t = p < q && p >= 0 && q <= (long) my.size() ? my.substr(p, q - p) : B();
                uintptr_t b = (uintptr_t) y.begin();
                if (s.coin()) x = y.substring((const char*) (b + p), (const char*) (b + q));
                else x = y.substring((const unsigned char*) (b + p), (const unsigned char*) (b + q));
                m = t;
                break; }
            case 0: m = substr_model(my, pos, len); x = y.substr(pos, len); break;
            case 1: m = pos <= -(long) my.size() ? my : substr_model(my, pos, my.size()); x = y.substr(pos); break;
            case 2: { int p = std::min(std::max(pos, 0), (int) my.size()), q = std::min(p + std::max(len, 0) % 10000, (int) my.size()); B t = my.substr(p, q - p); x = y.substring(y.begin() + p, y.begin() + q); m = t; break; }
            case 3: { int p = std::min(std::max(pos, 0), (int) my.size()), q = std::min(p + std::max(len, 0) % 10000, (int) my.size()); B t = my.substr(p, q - p); x = y.fast_substring(y.ubegin() + p, y.ubegin() + q); m = t; break; }
            case 4: m = ltrimm(my); x = y.ltrim(); break;
            case 5: m = rtrimm(my); x = y.rtrim(); break;
            default: m = ltrimm(rtrimm(my)); x = y.trim();
            }
            break; }
        case 4: {       // append
            B b = gentext(s);
            switch (s.below(12)) {
            case 0: x.append(y); m += B(my); break;
            case 1: x += y; m += B(my); break;
            case 2: if (b.empty() && s.coin()) x.append((const char*) nullptr, s.coin() ? -1 : 0); else x.append(b.data(), (int) b.size()); m += b; break;
            case 3: { Exact e(b); x.append(e.d, e.d + e.n); m += b; break; }
            case 4: b = nonul(b); if (s.coin()) x.append(b.c_str()); else x += b.c_str(); m += b; break;
            case 5: x += (char) 'c'; m += 'c'; break;
            case 6: x += Str(b); m += b; break;
            case 7: { int n = (int) s.below(60); char c = (char) s.below(256); x.append_fill(c, n); m += B(n, c); break; }
            case 8: { char* p = x.append_uninitialized((int) b.size()); PBT_CHECK(!p == b.empty(), "append_uninitialized(%zu) returned %p", b.size(), (void*) p); if (p) memcpy(p, b.data(), b.size()); m += b; break; }
            case 9: { int p = (int) s.below(m.size() + 1), q = p + (int) s.below(m.size() - p + 1); B t = m.substr(p, q - p); x.append(x.begin() + p, x.begin() + q); m += t; break; }   // part of itself
            case 10: { int p = (int) s.below(my.size() + 1); B t = my.substr(p); x.append((const unsigned char*) y.begin() + p, y.uend()); m += t; break; }
            default: x += "lit"; m += "lit";
            }
            break; }
        case 5: {       // concatenation
            B t;
            switch (s.below(5)) {
            case 0: t = my + m; x = y + x; break;
            case 1: t = my + "xyz"; x = y + "xyz"; break;
            case 2: t = "xyz" + my; x = "xyz" + y; break;
            case 3: t = my + 'q'; x = y + 'q'; break;
            default: t = m + my + m; x = x + y + x;
            }
            m = t; break; }
        case 6: {       // write through mutable data
            if (m.empty()) break;
            int p = (int) s.below(m.size()); char c = (char) s.below(256);
            switch (s.below(3)) {
            case 0: x.mutable_data()[p] = c; break;
            case 1: x.mutable_udata()[p] = (unsigned char) c; break;
            default: { char* d = x.mutable_c_str(); PBT_CHECK(d[m.size()] == 0, "mutable_c_str() is not terminated"); d[p] = c; }
            }
            m[p] = c; break; }
        case 7: { static const int al[] = { 1, 2, 4, 8, 16, 3 }; int n = al[s.below(6)]; x.align(n); PBT_CHECK((uintptr_t) x.data() % n == 0, "align(%d)", n); break; }
        case 8: m = lowerm(my); x = y.lower(); break;
        case 9: m = upperm(my); x = y.upper(); break;
        case 10: {      // assignment from its own bytes
            int p = (int) s.below(m.size() + 1), q = p + (int) s.below(m.size() - p + 1); B t = m.substr(p, q - p);
            switch (s.below(4)) {
            case 0: x = Str(x.begin() + p, q - p); break;
            case 1: x.assign(x.begin() + p, x.begin() + q); break;
            case 2: x = x.substring(x.begin() + p, x.begin() + q); break;
            default: if (m.find('\0') == B::npos && !m.empty()) { x = x.c_str() + p; t = m.substr(p); } else x = Str(x.begin() + p, q - p);
            }
            m = t; break; }
        case 11: {      // append to an accumulator
            B b = gentext(s);
            switch (s.below(14)) {
            case 0: a.append(b.data(), (int) b.size()); am += b; break;
            case 1: { Exact e(b); a.append(e.d, e.d + e.n); am += b; break; }
            case 2: a << y; am += my; break;
            case 3: { char c = (char) s.below(256); if (s.coin()) a << c; else a.append((unsigned char) c); am += c; break; }
            case 4: b = nonul(b); if (s.coin()) a << b.c_str(); else a.append(b.c_str()); am += b; break;
            case 5: a << b; am += b; break;
            case 6: { StringAccum& o = w.a[1 - k]; a << o; am += B(w.am[1 - k]); break; }
            case 7: a << a; am += B(am); break;
            case 8: { int n = (int) s.below(200); a.append_fill('f', n); am += B(n, 'f'); break; }
            case 9: { int p = (int) s.below(am.size() + 1), q = p + (int) s.below(am.size() - p + 1); B t = am.substr(p, q - p); if (s.coin()) a.append(a.begin() + p, a.begin() + q); else a.append(a.udata() + p, q - p); am += t; break; }
            case 10: { bool v = s.coin(); a << v << (short) -7 << (unsigned short) 65535; am += format("%s-765535", v ? "true" : "false"); break; }
            case 11: { int v = anyint(s); long l = s.bits64(); a << v << ' ' << (unsigned) v << ' ' << l << ' ' << (unsigned long) l << ' ' << (long long) l << ' ' << (unsigned long long) l;
                       am += format("%d %u %ld %lu %ld %lu", v, (unsigned) v, l, l, l, l); break; }
            case 12: { double v = std::ldexp((double) anyint(s), anyint(s) % 300); a << v; am += format("%.12g", v); break; }
            default: a << "lit" << Str(b); am += "lit" + b;
            }
            break; }
        case 12: {      // extend and reserve
            B b = gentext(s); int n = (int) b.size();
            switch (s.below(6)) {
            case 0: { char* p = a.extend(n); memcpy(p, b.data(), n); am += b; break; }
            case 1: { int r = (int) s.below(100); char* p = a.extend(n, r); memcpy(p, b.data(), n); memset(p + n, 'R', r); am += b; break; }
            case 2: { char* p = a.reserve(n); memcpy(p, b.data(), n); int u = (int) s.below(n + 1); a.adjust_length(u); am += b.substr(0, u); break; }
            case 3: { char* p = a.reserve(n); memcpy(p, b.data(), n); int u = (int) s.below(n + 1); if (a.capacity()) { if (s.coin()) a.set_end(p + u); else a.set_end((unsigned char*) p + u); am += b.substr(0, u); } break; }
            case 4: { int l = (int) s.below(am.size() + 1); if (s.coin()) a.set_length(l); else a.pop_back((int) am.size() - l); am.resize(l); break; }
            default: { int l = (int) s.below(am.size() + 40); a.resize(l); for (size_t q = am.size(); q < (size_t) l; ++q) a[(int) q] = 'n'; am.resize(l, 'n'); }
            }
            break; }
        case 13: {      // transfers between strings and accumulators
            switch (s.below(8)) {
            case 0: x = a.take_string(); m = am; am = ""; break;
            case 1: { B t = my; if (s.coin()) a = StringAccum::make_transfer(y); else a = StringAccum(std::move(y)); my = ""; am = t; y = String(); break; }
            case 2: a = StringAccum(y); am = my; break;
            case 3: { StringAccum t(a); t << "+"; PBT_CHECK(str(t) == am + "+", "copied accumulator"); if (s.coin()) a = t; else a = std::move(t); am += "+"; break; }
            case 4: w.a[0].swap(w.a[1]); std::swap(w.am[0], w.am[1]); break;
            case 5: { StringAccum t(std::move(a)); a = StringAccum((int) s.below(400)); am.swap(w.am[k]); B t2 = str(t); am = ""; a << t2 << '!'; am = t2 + "!"; break; }
            case 6: a = w.a[1 - k]; am = w.am[1 - k]; break;
            default: a.clear(); am = "";
            }
            break; }
        case 14: {      // joining
            std::vector<String> v; B t; B jm = my; int n = (int) s.below(4);
            for (int q = 0; q < n; ++q) { v.push_back(w.s[s.below(NS)]); if (q) t += jm; t += str(v.back()); }
            if (t.size() > 4000) break;
            if (s.coin()) a.append_join(y, v); else a.append_join(y, v.begin(), v.end());
            am += t; break; }
        case 15: {      // formatted append
            B b = nonul(gentext(s)); int n = (int) s.below(60); int v = anyint(s);
            B t = format("%d:%s", v, b.c_str()); if ((int) t.size() > n) t.resize(n);
            a.snprintf(n, "%d:%s", v, b.c_str()); am += t; break; }
        case 16: {      // characters of an accumulator
            if (am.empty()) break;
            int p = (int) s.below(am.size()); char c = (char) s.below(256);
            switch (s.below(4)) {
            case 0: a[p] = c; break;
            case 1: a.data()[p] = c; break;
            case 2: p = 0; a.front() = c; break;
            default: p = (int) am.size() - 1; a.back() = c; }
            am[p] = c; break; }
        default: {      // Unicode characters
            static const int us[] = { 0, -1, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff };
            int u = us[s.below(17)]; bool ok = u > 0 && u < 0x110000 && !(u >= 0xd800 && u < 0xe000);
            PBT_CHECK(a.append_utf8(u) == ok, "append_utf8(%x)", u);
            if (!ok) break;
            if (u < 0x80) am += (char) u;
            else if (u < 0x800) { am += (char) (0xc0 | u >> 6); am += (char) (0x80 | (u & 63)); }
            else if (u < 0x10000) { am += (char) (0xe0 | u >> 12); am += (char) (0x80 | (u >> 6 & 63)); am += (char) (0x80 | (u & 63)); }
            else { am += (char) (0xf0 | u >> 18); am += (char) (0x80 | (u >> 12 & 63)); am += (char) (0x80 | (u >> 6 & 63)); am += (char) (0x80 | (u & 63)); }
            break; }
        }
        w.check("after an operation");
        reads(s, w);
        w.check("after reading");
        for (auto& q : w.m) maxlen = std::max(maxlen, q.size());
        for (auto& q : w.am) maxlen = std::max(maxlen, q.size());
    }
    s.tag("ops", changes < 5 ? 4 : changes < 20 ? 20 : 60);
    s.tag("longest", maxlen < 16 ? 16 : maxlen < 200 ? 200 : 6000);
    if (changes >= 3 && maxlen >= 4) s.nontrivial = true;
}

// ------------------------------------------------------------ U02
// reference UTF-8 reader: length of the well-formed character at p (NUL excluded), or 0
static int uchar(const B& b, size_t p, int* cp = 0) {
    auto at = [&](size_t i) { return i < b.size() ? (unsigned char) b[i] : 0; };
    int c = at(p), n; unsigned v;
    if (c == 0) return 0;
    if (c < 0x80) { if (cp) *cp = c; return 1; }
    if (c >= 0xc0 && c < 0xe0) n = 2, v = c & 31;
    else if (c >= 0xe0 && c < 0xf0) n = 3, v = c & 15;
    else if (c >= 0xf0 && c < 0xf8) n = 4, v = c & 7;
    else return 0;
    for (int i = 1; i < n; ++i) { int d = at(p + i); if ((d & 0xc0) != 0x80) return 0; v = v << 6 | (d & 63); }
    static const unsigned least[] = { 0, 0, 0x80, 0x800, 0x10000 };
    if (v < least[n] || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return 0;
    if (cp) *cp = v;
    return n;
}
static void put(B& o, unsigned u) {
    if (u == 0 || u > 0x10ffff || (u >= 0xd800 && u < 0xe000)) return;
    if (u < 0x80) o += (char) u;
    else if (u < 0x800) { o += (char) (0xc0 | u >> 6); o += (char) (0x80 | (u & 63)); }
    else if (u < 0x10000) { o += (char) (0xe0 | u >> 12); o += (char) (0x80 | (u >> 6 & 63)); o += (char) (0x80 | (u & 63)); }
    else { o += (char) (0xf0 | u >> 18); o += (char) (0x80 | (u >> 12 & 63)); o += (char) (0x80 | (u >> 6 & 63)); o += (char) (0x80 | (u & 63)); }
}
static unsigned w1252(int c) {      // from the WHATWG/Microsoft tables
    static const unsigned t[32] = { 0x20AC, 0x81, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0x8D, 0x17D, 0x8F,
        0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0x9D, 0x17E, 0x178 };
    return c >= 128 && c < 160 ? t[c - 128] : c;
}
static int cesu(const B& b, size_t p, unsigned& u) {
    auto sur = [&](size_t q, unsigned& v) {
        if (q + 3 > b.size() || (unsigned char) b[q] != 0xed) return false;
        int x = (unsigned char) b[q + 1], y = (unsigned char) b[q + 2];
        if (x < 0xa0 || x > 0xbf || (y & 0xc0) != 0x80) return false;
        v = 0xd000 | (x & 63) << 6 | (y & 63); return true; };
    unsigned h, l;
    if (!sur(p, h) || h >= 0xdc00 || !sur(p + 3, l) || l < 0xdc00) return 0;
    u = 0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00);
    return 6;
}
static B utf8_ref(const B& b, int flags, bool with_cesu) {
    B o; size_t p = 0;
    if ((flags & String::utf_strip_bom) && b.compare(0, 3, "\xEF\xBB\xBF") == 0) p = 3;
    while (p < b.size()) {
        unsigned u;
        if (int n = uchar(b, p)) { o.append(b, p, n); p += n; }
        else if (with_cesu && cesu(b, p, u)) { put(o, u); p += 6; }
        else {
            if ((flags & String::utf_replacement) && b[p]) put(o, 0xfffd);
            for (++p; p < b.size() && ((unsigned char) b[p] & 0xc0) == 0x80; ++p) { }
        }
    }
    return o;
}
static B utf16_ref(const B& b, int flags, bool le) {
    std::vector<unsigned> u; B o;
    for (size_t i = 0; i + 1 < b.size(); i += 2) u.push_back(((unsigned char) b[i + le] << 8) | (unsigned char) b[i + !le]);
    size_t i = (flags & String::utf_strip_bom) && !u.empty() && u[0] == 0xfeff;
    for (; i < u.size(); ++i) {
        if (u[i] < 0xd800 || u[i] >= 0xe000) put(o, u[i]);
        else if (u[i] < 0xdc00 && i + 1 < u.size() && u[i + 1] >= 0xdc00 && u[i + 1] < 0xe000) { put(o, 0x10000 + ((u[i] - 0xd800) << 10) + (u[i + 1] - 0xdc00)); ++i; }
        else if (flags & String::utf_replacement) put(o, 0xfffd);
    }
    return o;
}
// pattern language of glob_match, by backtracking over a dynamic-programming table
static bool glob_ref(const B& t, const B& p) {
    std::vector<std::vector<signed char>> memo(t.size() + 1, std::vector<signed char>(p.size() + 1, -1));
    std::vector<std::vector<bool>> ok(t.size() + 1, std::vector<bool>(p.size() + 1, false));
    for (size_t j = p.size() + 1; j-- > 0; )
        for (size_t i = t.size() + 1; i-- > 0; ) {
            bool r = false;
            if (j == p.size()) r = i == t.size();
            else if (p[j] == '*') r = ok[i][j + 1] || (i < t.size() && ok[i + 1][j]);
            else if (i < t.size()) {
                size_t e = j + 1; bool neg = false, in = false;
                if (p[j] == '[') {
                    if (e < p.size() && p[e] == '^') { neg = true; ++e; }
                    size_t f = e;
                    if (e < p.size()) { ++e; while (e < p.size() && p[e] != ']') ++e; }    // a leading ] is an ordinary member
                    if (e < p.size()) { for (size_t q = f; q < e; ++q) in |= p[q] == t[i]; r = in != neg && ok[i + 1][e + 1]; goto done; }
                    r = t[i] == '[' && ok[i + 1][j + 1];
                } else if (p[j] == '?') r = ok[i + 1][j + 1];
                else if (p[j] == '\\' && j + 1 < p.size()) r = p[j + 1] == t[i] && ok[i + 1][j + 2];
                else r = p[j] == t[i] && ok[i + 1][j + 1];
            }
        done:
            ok[i][j] = r;
        }
    return ok[0][0];
}
static int findl(const B& a, const B& b, long start) {
    start = std::max(start, 0L);
    for (long i = start; i + (long) b.size() <= (long) a.size(); ++i) if (a.compare(i, b.size(), b) == 0) return (int) i;
    return -1;
}
static int findr(const B& a, const B& b, long start) {
    for (long i = std::min(start, (long) a.size() - (long) b.size()); i >= 0; --i) if (a.compare(i, b.size(), b) == 0) return (int) i;
    return -1;
}
static B genpattern(Src& s, const B& t) {
    if (s.chance(1, 4)) return gentext(s);
    B p;
    for (char c : t) {
        switch (s.below(10)) {
        case 0: p += '?'; break;
        case 1: p += '*'; break;
        case 2: p += '*'; p += c; break;
        case 3: p += '['; if (s.chance(1, 3)) p += '^'; { int n = 1 + (int) s.below(3), at = (int) s.below(n + 1); for (int i = 0; i < n; ++i) p += i == at ? c : "ab]c"[s.below(4)]; } p += ']'; break;
        case 4: p += '\\'; p += c; break;
        case 5: if (s.chance(1, 3)) p += "ab*?[]\\"[s.below(7)]; break;
        default: p += c;
        }
    }
    if (s.chance(1, 6)) p += "*?[\\"[s.below(4)];
    return p;
}
static B gennat(Src& s) {
    static const char* const w[] = { "0", "00", "1", "2", "9", "10", "007", "-", ".", ".5", "a", "A", "b", " ", "-1", "-10", "1.5", "1.05", "x", "_", "/", "~", "99999999999999999999" };
    B b; int n = (int) s.below(7);
    for (int i = 0; i < n; ++i) b += w[s.below(sizeof(w) / sizeof(w[0]))];
    return b;
}
static int natsgn(const B& a, const B& b) { Exact x(a), y(b); return sgn(x.s().natural_compare(y.s())); }
static B mutate(Src& s, B b) {
    int n = (int) s.below(3);
    for (int i = 0; i < n; ++i) {
        size_t p = s.below(b.size() + 1);
        switch (s.below(4)) {
        case 0: b.insert(p, 1, "0019aA.- "[s.below(9)]); break;
        case 1: if (p < b.size()) b.erase(p, 1); break;
        case 2: if (p < b.size()) b[p] = isalpha((unsigned char) b[p]) ? b[p] ^ 32 : "0123a.-"[s.below(7)]; break;
        default: b = b.substr(0, p); }
    }
    return b;
}
static B genbytes(Src& s) {       // bytes resembling encoded text
    static const char* const w[] = { "a", "~", "\x7f", "\xC3\xA9", "\xDF\xBF", "\xE0\xA0\x80", "\xE2\x82\xAC", "\xED\x9F\xBF", "\xEF\xBF\xBF", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF",
        "\xC1\xBF", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xED\xA0\xBD\xED\xB2\xA3", "\xED\xAF\xBF\xED\xBF\xBF", "\xED\xA0\x80\xED\xB0", "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\x80", "\x88", "\x98", "\xA0", "\xFF", "\xC3", "\xE2\x82", "\xF0\x9F\x92" };
    B b; int n = (int) s.below(8);
    for (int i = 0; i < n; ++i)
        if (s.chance(1, 6)) b += (char) s.below(256);
        else if (s.chance(1, 10)) b += '\0';
        else b += w[s.below(sizeof(w) / sizeof(w[0]))];
    return b;
}
static B genwide(Src& s) {
    static const unsigned us[] = { 'a', 0xfeff, 0xfffe, 0, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x80, 0x7ff, 0x800, 0x20ac, 0xd83d, 0xdca3 };
    B b; int n = (int) s.below(9); bool le = s.coin();
    for (int i = 0; i < n; ++i) { unsigned u = s.chance(1, 5) ? (unsigned) s.below(65536) : us[s.below(16)]; char h = (char) (u >> 8), l = (char) u; b += le ? l : h; b += le ? h : l; }
    if (s.chance(1, 5)) b += 'x';
    return b;
}
// exact-size storage wrapped in a String; the byte after it is readable, as make_stable demands, but poisoned with a digit
static String stab(B& keep) { keep += '7'; return String::make_stable(keep.data(), (int) keep.size() - 1); }
static Src* SRC;
static void eq(const String& got, const B& want, const char* what, const B& in) {
    if (SRC->noting) SRC->note(" %s(%s)", what, pbt::hexs(in).c_str());
    PBT_CHECK(str(got) == want, "%s of %s is %s, expected %s", what, pbt::hexs(in).c_str(), pbt::hexs(str(got)).c_str(), pbt::hexs(want).c_str());
}
static B jsondec(const B& e, bool& ok) {       // decode the body of a JSON string
    B o; ok = true; unsigned hi = 0;
    for (size_t i = 0; i < e.size(); ++i) {
        unsigned char c = e[i];
        if (c < 32 || c == '"') ok = false;
        if (c != '\\') { o += c; continue; }
        if (++i >= e.size()) { ok = false; break; }
        switch (e[i]) {
        case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case '"': case '\\': case '/': o += e[i]; break;
        case 'u': { if (i + 4 >= e.size()) { ok = false; return o; }
            unsigned u = 0; for (int k = 1; k <= 4; ++k) { char h = e[i + k]; if (!isxdigit((unsigned char) h)) ok = false; u = u * 16 + (isdigit((unsigned char) h) ? h - '0' : (h | 32) - 'a' + 10); }
            i += 4; (void) hi; if (u == 0) o += '\0'; else put(o, u); break; }
        default: ok = false;
        }
    }
    return o;
}
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static B b64enc(const B& b, bool pad) {
    B o; unsigned acc = 0; int bits = 0;
    for (unsigned char c : b) { acc = acc << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; o += B64[acc >> bits & 63]; } }
    if (bits) o += B64[acc << (6 - bits) & 63];
    while (pad && o.size() % 4) o += '=';
    return o;
}

static void u02(Src& s) {
    int kind = s.weighted({6, 5, 6, 5, 3, 4, 6, 5, 3, 3, 2, 2, 3});
    static const char* const names[] = { "natural order", "byte order", "search", "pattern", "number", "UTF-8", "UTF-16", "Windows-1252", "JSON", "Base 64", "URI/hex/printable", "decimal keys", "line breaking" };
    if (s.noting) s.note("%s", names[kind]);
    s.tag("kind", kind);
    s.nontrivial = true;
    switch (kind) {
    case 0: {       // natural order
        std::vector<B> v; v.push_back(s.chance(1, 5) ? gentext(s) : gennat(s));
        while (v.size() < 5) v.push_back(s.chance(1, 4) ? gennat(s) : mutate(s, v[s.below(v.size())]));
        int c[5][5];
        if (s.noting) for (auto& t : v) s.note(" %s", pbt::hexs(t).c_str());
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) {
            c[i][j] = natsgn(v[i], v[j]);
            PBT_CHECK((c[i][j] == 0) == (v[i] == v[j]), "natural_compare(%s, %s) is %d", pbt::hexs(v[i]).c_str(), pbt::hexs(v[j]).c_str(), c[i][j]);
        }
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) {
            PBT_CHECK(c[i][j] == -c[j][i], "natural_compare(%s, %s) is %d but reversed it is %d", pbt::hexs(v[i]).c_str(), pbt::hexs(v[j]).c_str(), c[i][j], c[j][i]);
            for (int k = 0; k < 5; ++k)
                PBT_CHECK(!(c[i][j] < 0 && c[j][k] < 0 && c[i][k] >= 0), "natural order: \"%s\" < \"%s\" < \"%s\" but the first does not precede the last", v[i].c_str(), v[j].c_str(), v[k].c_str());
        }
        // embedded unsigned numbers order by value
        unsigned long x = s.below(100000), y = s.below(s.coin() ? 100000 : 20); B pre = s.coin() ? "k" : "", post = s.coin() ? "z" : "";
        int want = x < y ? -1 : x > y;
        PBT_CHECK(natsgn(pre + std::to_string(x) + post, pre + std::to_string(y) + post) == want, "natural_compare of %s%lu%s and %s%lu%s", pre.c_str(), x, post.c_str(), pre.c_str(), y, post.c_str());
        if (v[0] != v[1]) { } else s.tag("equal", 1);
        break; }
    case 1: {       // byte order, prefixes, hashing
        B a = gentext(s), b = s.chance(1, 3) ? gentext(s) : s.coin() ? a.substr(0, s.below(a.size() + 1)) : mutate(s, a);
        Exact x(a, (int) s.below(4)), y(b, (int) s.below(4)), z(a, (int) s.below(8));
        PBT_CHECK(sgn(x.s().compare(y.s())) == cmpm(a, b) && (x.s() == y.s()) == (a == b) && (x.s() < y.s()) == (cmpm(a, b) < 0), "compare(%s, %s)", pbt::hexs(a).c_str(), pbt::hexs(b).c_str());
        PBT_CHECK(x.s().starts_with(y.s()) == (a.size() >= b.size() && a.compare(0, b.size(), b) == 0), "%s starts with %s", pbt::hexs(a).c_str(), pbt::hexs(b).c_str());
        PBT_CHECK(x.s().hashcode() == z.s().hashcode() && hashcode(x.s()) == z.s().hashcode() && String(a).hashcode() == x.s().hashcode() && hash_value(String(a)) == hash_value(x.s()), "hash codes of equal strings %s differ", pbt::hexs(a).c_str());
        int p = (int) s.below(12);
        PBT_CHECK(str(x.s().prefix(p)) == a.substr(0, p), "prefix(%d)", p);
        { long f = (long) s.below(a.size() + 5) - 2, l = (long) s.below(a.size() + 5) - 2; uintptr_t d = (uintptr_t) x.s().data();
          Str r = s.coin() ? x.s().substring((const char*) (d + f), (const char*) (d + l)) : x.s().substring((const unsigned char*) (d + f), (const unsigned char*) (d + l));
          PBT_CHECK(str(r) == (f <= l && f >= 0 && l <= (long) a.size() ? a.substr(f, l - f) : B()), "substring(begin + %ld, begin + %ld) of %zu bytes is %s", f, l, a.size(), pbt::hexs(str(r)).c_str()); }
        B an = nonul(a), bn = nonul(b);
        PBT_CHECK(Str(an).compare(bn.c_str()) == Str(an).compare(Str(bn)) && Str(an).equals(bn.c_str()) == (an == bn) && Str(an).starts_with(bn.c_str()) == Str(an).starts_with(Str(bn)) && (Str(an) == bn.c_str()) == (an == bn), "comparison with C strings");
        break; }
    case 2: {       // searching
        B a = gentext(s), b = s.chance(1, 4) ? gentext(s) : a.substr(s.below(a.size() + 1), s.below(5));
        if (s.coin()) { a = B(); int n = (int) s.below(16); for (int i = 0; i < n; ++i) a += (char) ('a' + s.below(2)); b = B(); n = (int) s.below(4); for (int i = 0; i < n; ++i) b += (char) ('a' + s.below(2)); }
        Exact x(a), y(b); int start = s.chance(1, 3) ? (s.coin() ? INT_MAX : 0) : (int) s.below(a.size() + 8) - 3;
        char c = a.empty() || s.coin() ? 'b' : a[s.below(a.size())];
        int fl = x.s().find_left(y.s(), start), fr = x.s().find_right(y.s(), start), cl = x.s().find_left(c, start), cr = x.s().find_right(c, start);
        PBT_CHECK(cl == findl(a, B(1, c), start), "find_left(%02x, %d) in %s is %d", (unsigned char) c, start, pbt::hexs(a).c_str(), cl);
        PBT_CHECK(cr == findr(a, B(1, c), start), "find_right(%02x, %d) in %s is %d", (unsigned char) c, start, pbt::hexs(a).c_str(), cr);
        PBT_CHECK(fl == (b.empty() ? (std::max(start, 0) <= (int) a.size() ? std::max(start, 0) : -1) : findl(a, b, start)), "find_left(%s, %d) in %s is %d", pbt::hexs(b).c_str(), start, pbt::hexs(a).c_str(), fl);
        PBT_CHECK(fr == findr(a, b, start), "find_right(%s, %d) in %s is %d, expected %d", pbt::hexs(b).c_str(), start, pbt::hexs(a).c_str(), fr, findr(a, b, start));
        s.tag("found", fl >= 0);
        break; }
    case 3: {       // patterns
        B t = gentext(s); if (t.size() > 60) t.resize(60);
        B p = genpattern(s, t); if (s.chance(1, 3)) t = mutate(s, t);
        Exact x(t), y(p); bool want = glob_ref(t, p);
        PBT_CHECK(x.s().glob_match(y.s()) == want, "glob_match(\"%s\", \"%s\") is %d", pbt::hexs(t).c_str(), pbt::hexs(p).c_str(), !want);
        s.tag("match", want);
        break; }
    case 4: {       // numbers
        B b; long v = s.coin() ? (long) s.below(100000) : (long) s.bits64() >> s.below(63);
        switch (s.below(5)) { case 0: b = std::to_string(v); break; case 1: b = (v < 0 ? "" : "+") + std::to_string(v); break; case 2: b = std::to_string(v) + gentext(s); break; case 3: b = gentext(s); break; default: b = "00" + std::to_string(std::labs(v)); }
        // reference: optional sign, digits; the rest is ignored
        size_t q = 0; bool neg = false; __int128 n = 0; if (q < b.size() && (b[q] == '-' || b[q] == '+')) neg = b[q++] == '-';
        size_t q0 = q; while (q < b.size() && isdigit((unsigned char) b[q]) && q - q0 < 30) n = n * 10 + (b[q++] - '0');
        if (neg) n = -n;
        B keep = b; String x = stab(keep);
        if (q - q0 < 30 && n >= LONG_MIN && n <= LONG_MAX)
            PBT_CHECK(x.to_i() == (long) n, "to_i(%s) is %ld", pbt::hexs(b).c_str(), x.to_i());
        if (b.size() <= 18) {
            Exact e(b); bool digits = !b.empty(); long w = 0;
            for (char c : b) { digits &= c >= '0' && c <= '9'; if (digits) w = w * 10 + (c - '0'); }
            PBT_CHECK(e.s().to_i() == (digits ? w : -1), "Str::to_i(%s) is %ld", pbt::hexs(b).c_str(), e.s().to_i());
        }
        break; }
    case 5: {       // UTF-8 and CESU-8
        B b = s.chance(1, 5) ? gentext(s) : genbytes(s), keep = b; String x = stab(keep); int flags = (int) s.below(4);
        eq(x.utf8_to_utf8(flags), utf8_ref(b, flags, false), "utf8_to_utf8", b);
        eq(x.cesu8_to_utf8(flags), utf8_ref(b, flags, true), "cesu8_to_utf8", b);
        Exact e(b);
        for (size_t q = 0; q < b.size(); ++q)
            PBT_CHECK(String::skip_utf8_char(e.d + q, e.d + e.n) - (e.d + q) == uchar(b, q), "skip_utf8_char at byte %zu of %s", q, pbt::hexs(b).c_str());
        PBT_CHECK(String::skip_utf8_bom(e.d, e.d + e.n) - e.d == (b.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0), "skip_utf8_bom(%s)", pbt::hexs(b).c_str());
        break; }
    case 6: {       // UTF-16
        B b = s.chance(1, 5) ? genbytes(s) : genwide(s), keep = b; String x = stab(keep); int flags = (int) s.below(8);
        eq(x.utf16be_to_utf8(flags), utf16_ref(b, flags, false), "utf16be_to_utf8", b);
        eq(x.utf16le_to_utf8(flags), utf16_ref(b, flags, true), "utf16le_to_utf8", b);
        B w;
        if (b.size() >= 2) {
            bool be = b[0] == '\xFE' && b[1] == '\xFF', le = b[0] == '\xFF' && b[1] == '\xFE';
            w = utf16_ref(b, flags, le || (!be && (flags & String::utf_prefer_le)));
        }
        eq(x.utf16_to_utf8(flags), w, "utf16_to_utf8", b);
        break; }
    case 7: {       // Windows-1252 and guessing
        B b = s.chance(1, 4) ? gentext(s) : genbytes(s), keep = b; String x = stab(keep); B o;
        for (unsigned char c : b) put(o, w1252(c));
        eq(x.windows1252_to_utf8(), o, "windows1252_to_utf8", b);
        int flags = (int) s.below(4);
        if (s.chance(1, 4)) { b = genwide(s); keep = b; x = stab(keep); }
        String g = x.to_utf8(flags); B gb = str(g);
        for (size_t q = 0; q < gb.size(); ) { int n = uchar(gb, q); PBT_CHECK(n > 0, "to_utf8(%s) is %s, not UTF-8 at byte %zu", pbt::hexs(b).c_str(), pbt::hexs(gb).c_str(), q); q += n; }
        auto at = [&](size_t q) { return q < b.size() ? (unsigned char) b[q] : 0x100; };
        bool wle = b.size() > 2 && ((at(0) == 0xff && at(1) == 0xfe) || (at(0) > 0 && at(0) < 0x80 && at(1) == 0));
        bool wbe = b.size() > 2 && ((at(0) == 0xfe && at(1) == 0xff) || (at(0) == 0 && at(1) > 0 && at(1) < 0x80));
        B nn; for (char c : b) if (c) nn += c;
        size_t good = 0; bool high = false;
        while (good < nn.size()) { int n = uchar(nn, good); if (!n) break; if (n > 1) high = true; good += n; }
        if (wle || wbe) eq(g, utf16_ref(b, flags, wle), "to_utf8", b);
        else if (good == nn.size() && nn == b && nn.compare(0, 3, "\xEF\xBB\xBF") != 0) eq(g, nn, "to_utf8", b);
        else if (good < nn.size() && !high && b.find("\xED") == B::npos && nn == b) { B t; for (unsigned char c : b) put(t, w1252(c)); eq(g, t, "to_utf8", b); }
        break; }
    case 8: {       // JSON
        B b; { int n = (int) s.below(8); for (int q = 0; q < n; ++q) switch (s.below(5)) { case 0: b += (char) s.below(32); break; case 1: b += "\"\\/~a\x7f"[s.below(6)]; break; case 2: put(b, 0x2026 + (unsigned) s.below(6)); break; case 3: { B t = genbytes(s); for (size_t z = 0; z < t.size(); ) { int m = uchar(t, z); if (m) b.append(t, z, m); z += m ? m : 1; } break; } default: b += "plain text"; } }
        B keep = b; String x = stab(keep); String e = x.encode_json(); bool ok; B back = jsondec(str(e), ok);
        PBT_CHECK(ok && back == b, "encode_json(%s) is %s", pbt::hexs(b).c_str(), pbt::hexs(str(e)).c_str());
        PBT_CHECK(str(e).find("\xE2\x80\xA8") == B::npos && str(e).find("\xE2\x80\xA9") == B::npos, "encode_json(%s) contains a line separator", pbt::hexs(b).c_str());
        StringAccum sa("pre"); Str(b).encode_json(sa); PBT_CHECK(str(sa) == "pre" + str(e), "encode_json into an accumulator");
        break; }
    case 9: {       // Base 64
        B b = gentext(s); bool pad = s.coin(); B keep = b; String x = stab(keep);
        B w = b64enc(b, pad);
        eq(x.encode_base64(pad), w, "encode_base64", b);
        Exact e(w); StringAccum sa("pre"); bool r = e.s().decode_base64(sa);
        PBT_CHECK(r && str(sa) == "pre" + b, "decode_base64(%s) is %s", w.c_str(), pbt::hexs(str(sa)).c_str());
        eq(String(w).decode_base64(), b, "decode_base64", w);
        if (!w.empty() && s.coin()) {
            B bad = w; size_t p = s.below(bad.size()); char c = s.coin() ? (char) s.below(256) : "!-_ \0=\x80,"[s.below(8)]; bad[p] = c;
            B core = bad; while (!core.empty() && core.back() == '=') core.pop_back();
            bool valid = core.size() % 4 != 1; for (char q : core) valid &= q && strchr(B64, q);
            Exact y(bad); StringAccum sb; bool got = y.s().decode_base64(sb);
            PBT_CHECK(got == valid, "decode_base64(%s) %s", pbt::hexs(bad).c_str(), got ? "succeeds" : "fails");
        }
        break; }
    case 10: {      // URI components, hex and printable forms
        B b = s.coin() ? gentext(s) : genbytes(s), keep = b, u, h; String x = stab(keep);
        for (unsigned char c : b) {
            if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("-_.~", c))) u += c; else u += format("%%%02X", c);
            h += format("%02X", c);
        }
        eq(x.encode_uri_component(), u, "encode_uri_component", b);
        eq(x.to_hex(), h, "to_hex", b);
        for (int type = 0; type < 3; ++type) {
            B g = str(x.printable(type)), o;
            for (unsigned char c : b) {
                if (type == 2 && (c == '"' || c == '\\')) { o += '\\'; o += c; }
                else if (c >= 32 && c < 127) o += c;
                else if (type == 0 && c < 32) { o += '^'; o += c + 64; }
                else if (type == 2 && c >= 9 && c <= 13) { o += '\\'; o += "tnvfr"[c - 9]; }
                else o += format("\\%03o", c);
            }
            PBT_CHECK(g == o, "printable(%d) of %s is %s, expected %s", type, pbt::hexs(b).c_str(), g.c_str(), o.c_str());
        }
        break; }
    case 11: {      // decimal key strings
        unsigned long v = s.coin() ? s.below(2000) : s.bits64(); int minlen = (int) s.below(24);
        quick_istr q(v, minlen); B w = format("%0*lu", minlen, v);
        PBT_CHECK(B(q.data(), q.length()) == w && B(q.c_str()) == w && q == Str(w) && !(q != Str(w)) && q != Str(w + "0"), "quick_istr(%lu, %d) is %s", v, minlen, q.c_str());
        if (v < ULONG_MAX) {
            B z = "0" + std::to_string(v); std::unique_ptr<char[]> e(new char[z.size()]); memcpy(e.get(), z.data(), z.size());
            quick_istr::increment_from_end(e.get() + z.size());
            B n = std::to_string(v + 1); while (n.size() < z.size()) n = "0" + n;
            PBT_CHECK(B(e.get(), z.size()) == n, "increment of %s is %s", z.c_str(), B(e.get(), z.size()).c_str());
            unsigned char be[8], be2[8]; for (int k = 0; k < 8; ++k) { be[k] = (unsigned char) (v >> (56 - 8 * k)); be2[k] = (unsigned char) ((v + 1) >> (56 - 8 * k)); }
            quick_istr::binary_increment_from_end((char*) be + 8);
            PBT_CHECK(memcmp(be, be2, 8) == 0, "binary increment of %lx", v);
        }
        break; }
    default: {      // breaking lines
        B b; int n = (int) s.below(12); for (int q = 0; q < n; ++q) { if (q) b += s.chance(1, 6) ? "  " : " "; b += B(1 + s.below(9), (char) ('a' + q)); }
        int len = 1 + (int) s.below(30); B margin = B(s.below(3), '>');
        StringAccum sa; B keep = b; sa.append_break_lines(stab(keep), len, String(margin));
        B o = str(sa), words, in; std::istringstream is(o); B line;
        while (std::getline(is, line)) {
            PBT_CHECK(line.compare(0, margin.size(), margin) == 0, "line \"%s\" lacks its margin", line.c_str());
            words += line.substr(margin.size()) + " ";
            B l = rtrimm(line);
            PBT_CHECK((int) l.size() <= len || l.find(' ') == B::npos, "line \"%s\" is longer than %d", l.c_str(), len);
        }
        auto squeeze = [](const B& t) { B r; std::istringstream z(t); B q; while (z >> q) r += q + " "; return r; };
        PBT_CHECK(squeeze(words) == squeeze(b), "append_break_lines(%s, %d) lost words: %s", b.c_str(), len, o.c_str());
        PBT_CHECK(o.empty() == b.empty() && (o.empty() || o.back() == '\n'), "append_break_lines output does not end with a newline");
        break; }
    }
}
static B PROP;
static void one(Src& s) { SRC = &s; if (PROP == "U01") u01(s); else u02(s); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    PROP = argv[1];
    return pbt::main_(argc - 1, argv + 1, one, PROP.c_str());
}
