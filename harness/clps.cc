// U05: command-line parsing against an independent model of the documented rules.
#include "config.h"
#include "clp.h"
#include "misc.hh"
#include "pbt.hh"
#include <memory>
#include <set>
using pbt::Src;
typedef std::string B;

enum { T_SUFFIX = 10, T_LIST = 11, T_LISTNUM = 12, T_LISTLONG = 13 };
struct Opt { B longn; bool haslong = false; int shortn = 0, id = 0, type = 0, flags = 0;
             B name; bool pos = true, neg = false, pref = false, optional = false; };
struct Item { B s; int v; };
struct Value { bool have = false; B s; int kind = 0; long l = 0; double d = 0; bool anyval = false; };
struct Got { int ret = 0; bool neg = false, anyopt = false; int opt = -1; bool isshort = false, byno = false; B chars; Value v; };

static B u8(int c) {
    if (c < 0x80) return B(1, (char) c);
    if (c < 0x800) return B{(char) (0xC0 | c >> 6), (char) (0x80 | (c & 63))};
    return B{(char) (0xE0 | c >> 12), (char) (0x80 | (c >> 6 & 63)), (char) (0x80 | (c & 63))};
}
// the first character and its length; -1 for text that is not UTF-8 (the generator only makes 1- to 3-byte characters)
static int first(const B& s, bool utf8, size_t& len) {
    unsigned char c = s.empty() ? 0 : s[0];
    len = 1;
    if (!utf8 || c < 0x80) return c;
    int n = c >= 0xE0 ? 3 : 2;
    if (c < 0xC2 || c >= 0xF0 || (int) s.size() < n || (s[1] & 0xC0) != 0x80 || (s[n - 1] & 0xC0) != 0x80) { len = 1; return -1; }
    int r = n == 3 ? (c & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63) : (c & 31) << 6 | (s[1] & 63);
    len = n;
    return r;
}
static size_t lcp(const B& a, const B& b) { size_t n = 0; while (n < a.size() && n < b.size() && a[n] == b[n]) ++n; return n; }

// A name is selected by a prefix of it that belongs to no other name, or by all of it. A preferred name is
// selected by any prefix that no name other than its own extensions shares.
struct Names {
    struct N { B name; int id; bool pos, neg, pref, on; int shortn; };
    std::vector<N> n;
    bool utf8 = false;
    size_t need(size_t i, bool negated, bool coulbeshort, size_t c1) const {
        size_t r = 1;
        for (auto& p : n)
            if (p.id != n[i].id && p.on && (negated ? p.neg : p.pos)) {
                size_t k = lcp(n[i].name, p.name);
                if (n[i].pref && k == n[i].name.size()) continue;
                r = std::max(r, std::min(k + 1, n[i].name.size()));
            }
        if (coulbeshort && !n[i].pref) {
            size_t l;
            int c = first(n[i].name, utf8, l);
            for (auto& p : n)
                if (p.id != n[i].id && p.shortn > 0 && p.shortn == c && (negated ? p.neg : p.pos) && c1 >= r) r = c1 + 1;
        }
        return r;
    }
    // -1: none, -2: ambiguous; `any`: several answers are defensible
    int find(const B& arg, bool negated, bool couldbeshort, bool& any) const {
        B t = arg.substr(0, arg.find('='));
        size_t c1 = 1;
        first(arg, utf8, c1);
        bool amb = false;
        for (size_t i = 0; i < n.size(); ++i)
            if (n[i].on && (negated ? n[i].neg : n[i].pos) && n[i].name.compare(0, t.size(), t) == 0 && t.size() <= n[i].name.size()) {
                if (t.size() >= need(i, negated, couldbeshort, c1)) return (int) i;
                amb = true;
            }
        if (amb) return -2;
        // dashes may be left out
        int hit = -1;
        for (size_t i = 0; i < n.size(); ++i)
            if (n[i].on && (negated ? n[i].neg : n[i].pos)) {
                const B& m = n[i].name;
                size_t a = 0, r = 0;
                while (a < t.size() && r < m.size()) {
                    if (t[a] == m[r]) ++a, ++r;
                    else if (m[r] == '-' && r + 1 < m.size() && m[r + 1] == t[a]) ++r;
                    else break;
                }
                if (a < t.size()) continue;
                if (r >= need(i, negated, couldbeshort, c1)) { if (hit < 0) hit = (int) i; else if (n[i].id != n[hit].id) any = true; }
                else if (hit < 0) amb = true;
            }
        if (hit >= 0) { if (amb) any = true; return hit; }
        return amb ? -2 : -1;
    }
};

static bool integer(const B& s, bool uns, bool isint, Value& v) {
    size_t k = 0;
    bool minus = false;
    if (k < s.size() && (s[k] == '+' || (s[k] == '-' && !uns))) minus = s[k++] == '-';
    if (k == s.size()) return false;
    int base = 10;
    if (s[k] == '0' && k + 2 < s.size() && (s[k + 1] == 'x' || s[k + 1] == 'X')) { base = 16; k += 2; }
    else if (s[k] == '0') base = 8;
    __int128 x = 0;
    for (; k < s.size(); ++k) {
        int d = s[k] >= '0' && s[k] <= '9' ? s[k] - '0' : s[k] >= 'a' && s[k] <= 'f' ? s[k] - 'a' + 10 : s[k] >= 'A' && s[k] <= 'F' ? s[k] - 'A' + 10 : 99;
        if (d >= base) return false;
        if (x < ((__int128) 1 << 100)) x = x * base + d;
    }
    if (minus) x = -x;
    __int128 lo = uns ? 0 : isint ? INT_MIN : LONG_MIN, hi = isint ? (uns ? (__int128) UINT_MAX : INT_MAX) : (uns ? (__int128) ULONG_MAX : LONG_MAX);
    v.anyval = x < lo || x > hi;            // what happens to a number that does not fit is not specified
    v.l = (long) x;
    v.kind = isint ? (uns ? 2 : 1) : (uns ? 4 : 3);
    return true;
}

struct Model {
    std::vector<Opt> opts;
    Names names;
    std::vector<std::vector<Item>> lists;       // by type - T_LIST
    bool utf8 = false;
    std::vector<std::pair<int, int>> oclass;
    // state
    std::vector<B> args;
    size_t at = 0;
    bool processing = true;
    B cluster;                  // characters of a set of short options not looked at yet
    bool incluster = false, clusterneg = false;
    B clusterchars;

    int charclass(int c) const {
        int r = 0;
        for (auto& p : oclass) if (p.first == 0) r = p.second;
        for (auto& p : oclass) if (p.first == c) r = p.second;
        return r;
    }
    // 0: not an option
    int classify(const B& a, size_t& skip) const {
        if (a.compare(0, 2, "--") == 0) { skip = 2; return Clp_Long | 0x100; }
        if (a.empty()) { skip = 0; int t = charclass(0); return t == Clp_LongImplicit ? t : 0; }
        int t = charclass(first(a, utf8, skip));
        if (t == Clp_LongImplicit) { skip = 0; return t; }
        if (t && a.size() == skip) return 0;
        return t;
    }
    bool parse(int type, const B& s, Value& v) {
        v.have = true; v.s = s; v.anyval = false;
        switch (type) {
        case Clp_ValString: case Clp_ValStringNotOption: v.kind = 6; return true;
        case Clp_ValBool: {
            B l;
            for (char c : s) l += (char) tolower((unsigned char) c);
            v.kind = 1;
            for (const char* w : {"yes", "true", "1"}) if (!l.empty() && B(w).compare(0, l.size(), l) == 0) { v.l = 1; return true; }
            for (const char* w : {"no", "false", "0"}) if (!l.empty() && B(w).compare(0, l.size(), l) == 0) { v.l = 0; return true; }
            return false;
        }
        case Clp_ValInt: return integer(s, false, true, v);
        case Clp_ValUnsigned: return integer(s, true, true, v);
        case Clp_ValLong: return integer(s, false, false, v);
        case Clp_ValUnsignedLong: return integer(s, true, false, v);
        case Clp_ValDouble: case T_SUFFIX: {
            if (s.empty() || isspace((unsigned char) s[0])) return false;
            char* e;
            v.kind = 5;
            v.d = strtod(s.c_str(), &e);
            if (e == s.c_str()) return false;
            if (type == T_SUFFIX && *e) {
                double f = 0;
                switch (tolower(*e)) { case 'k': f = 1e3; break; case 'm': f = 1e6; break; case 'b': case 'g': f = 1e9; break; }
                if (f) { v.d *= f; ++e; }
            }
            return !*e;
        }
        default: {
            Names n;
            for (auto& i : lists[type - T_LIST]) n.n.push_back({i.s, i.v, true, false, false, true, 0});
            bool any = false;
            int k = n.find(s, false, false, any);
            v.anyval = any;
            if (k >= 0) { v.l = n.n[k].id; v.kind = type == T_LISTLONG ? 3 : 1; return true; }
            if (type != T_LIST) return integer(s, false, type != T_LISTLONG, v);
            return false;
        }
        }
    }
    Got next() {
        Got g;
        B rest;             // of the argument, after the option's own text
        bool negated = false, couldbe = false, whole = false, islong = false;
        int found = -1;
        B arg;
        auto shortopt = [&]() {
            size_t l;
            int c = first(cluster, utf8, l);
            cluster.erase(0, l);
            incluster = !cluster.empty();
            negated = whole = clusterneg;
            g.chars = clusterchars;
            for (size_t i = 0; i < opts.size(); ++i)
                if (opts[i].shortn > 0 && opts[i].shortn == c && (!negated || opts[i].neg)) {
                    if (!opts[i].pos) negated = true;
                    return (int) i;
                }
            return -1;
        };
        if (incluster) found = shortopt();
        else {
            if (at == args.size()) { g.ret = Clp_Done; return g; }
            arg = args[at++];
            size_t skip = 0;
            int t = processing ? classify(arg, skip) : 0;
            if (!t) { g.ret = Clp_NotOption; g.v.have = true; g.v.s = arg; return g; }
            couldbe = (t & (Clp_Short | Clp_ShortNegated)) && (t & (Clp_Long | Clp_LongNegated));
            auto tocluster = [&]() {
                incluster = true;
                cluster = arg.substr(skip);
                clusterchars = arg.substr(0, skip);
                clusterneg = (t & Clp_ShortNegated) != 0;
                return shortopt();
            };
            if (t == Clp_Short || t == Clp_ShortNegated) found = tocluster();
            else {
                islong = true;
                whole = negated = (t & Clp_LongNegated) != 0;
                g.chars = arg.substr(0, skip);
                B text = arg.substr(skip);
                found = names.find(text, negated, couldbe, g.anyopt);
                while (found < 0 && text.compare(0, 3, "no-") == 0) {
                    text.erase(0, 3);
                    negated = !negated;
                    found = names.find(text, negated, couldbe, g.anyopt);
                }
                if (found >= 0) { size_t eq = text.find('='); if (eq != B::npos) { g.v.have = true; g.v.s = text.substr(eq + 1); } }
                else if (couldbe) { islong = false; found = tocluster(); }
            }
        }
        if (found < 0) {
            if (islong && arg == "--") { processing = false; return next(); }
            g.ret = Clp_BadOption;
            return g;
        }
        const Opt& o = opts[found];
        g.opt = found; g.neg = negated; g.isshort = !islong; g.byno = islong && negated && !whole;
        if (negated || o.type == 0) {
            g.ret = g.v.have ? Clp_BadOption : o.id;
            return g;
        }
        Value v = g.v;
        bool attached = v.have;
        if (!o.optional && !v.have) {
            if (!islong && incluster) { v.have = true; v.s = cluster[0] == '=' ? cluster.substr(1) : cluster; incluster = false; }
            else if (at < args.size()) {
                size_t sk;
                int t = classify(args[at], sk);
                if (o.type == Clp_ValStringNotOption && t && t != Clp_LongImplicit) { g.ret = Clp_BadOption; return g; }
                v.have = true; v.s = args[at++];
            } else { g.ret = Clp_BadOption; return g; }
        } else if (o.optional && !v.have && !islong && incluster) {
            v.s = cluster[0] == '=' ? cluster.substr(1) : cluster;
            Value w;
            if (parse(o.type, v.s, w)) { g.v = w; incluster = false; }
            g.ret = o.id;
            return g;
        }
        (void) attached;
        if (v.have && !parse(o.type, v.s, g.v)) { g.v = Value(); g.ret = Clp_BadOption; return g; }
        g.ret = o.id;
        return g;
    }
    B current(const Got& g) const {
        if (g.opt < 0) return "(no current option!)";
        const Opt& o = opts[g.opt];
        if (g.isshort) return g.chars + (utf8 ? u8(o.shortn) : B(1, (char) o.shortn));
        return g.chars + (g.byno ? "no-" : "") + o.name;
    }
};

static int errors;
static B lasterr;
static void onerror(Clp_Parser* clp, const char* m) {
    ++errors;
    lasterr = m;
    B p = Clp_ProgramName(clp) ? Clp_ProgramName(clp) : "";
    PBT_CHECK(lasterr.size() > 1 && lasterr.back() == '\n' && (p.empty() || lasterr.compare(0, p.size() + 2, p + ": ") == 0), "an error message is malformed: %s", m);
}
static int vsn(Clp_Parser* clp, char* b, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = Clp_vsnprintf(clp, b, n, f, v); va_end(v); return r; }

static void one(Src& s) {
    Model m;
    m.utf8 = s.chance(1, 4);
    const int E9 = 0xe9, L4 = 0x20ac;
    auto word = [&](int max) {
        B w;
        for (int n = 1 + (int) s.below(max); n > 0; --n) {
            int k = (int) s.below(12);
            w += k < 5 ? B(1, 'a') : k < 8 ? B(1, 'b') : k == 8 ? B(1, 'n') : k == 9 ? B(1, 'o') : k == 10 && !w.empty() && n > 1 ? B(1, '-') : m.utf8 ? u8(s.coin() ? E9 : L4) : B(1, 'c');
        }
        return w;
    };
    auto cut = [&](const B& w, size_t n) { while (n < w.size() && (w[n] & 0xC0) == 0x80) ++n; return w.substr(0, n); };
    // value lists
    for (int t = 0; t < 3; ++t) {
        std::vector<Item> l;
        std::set<B> seen;
        for (int n = 1 + (int) s.below(s.coin() ? 3 : 9); n > 0; --n) {
            B w = l.empty() || s.coin() ? word(4) : l[s.below(l.size())].s + word(2);
            if (seen.insert(w).second) l.push_back({w, (int) s.below(50) - 5});
        }
        m.lists.push_back(l);
    }
    // option characters
    bool charsfirst = s.coin();
    struct { int c; int t; } occ[12];
    int nocc = 0;
    m.oclass.push_back({'-', Clp_Short});
    static const int types[] = {Clp_NotOption, Clp_Short, Clp_Long, Clp_ShortNegated, Clp_LongNegated, Clp_LongImplicit, Clp_Short | Clp_Long, Clp_ShortNegated | Clp_LongNegated};
    if (s.chance(1, 2))
        for (int n = 1 + (int) s.below(4); n > 0; --n) {
            static const int cs[] = {'-', '+', '^', 'a', 'b', '=', 0, 0x20ac};
            int c = cs[s.weighted({4, 3, 3, 1, 1, 1, 1, m.utf8 ? 1 : 0})];
            // once the options are set, a table that is ambiguous for a moment is complained about
            bool again = false;
            for (int k = 0; k < nocc; ++k) again |= occ[k].c == c || c == 0;
            if (!charsfirst && again) continue;
            occ[nocc++] = {c, types[s.below(8)]};
        }
    // options
    bool conflict = false;
    for (int n = 1 + (int) s.below(10); n > 0; --n) {
        Opt o;
        int k = s.weighted({3, 2, 4});
        if (k != 1) { o.haslong = true; o.longn = (s.chance(1, 8) ? "no-" : "") + (m.opts.empty() || !m.opts.back().haslong || s.coin() ? word(5) : m.opts.back().longn.substr(0, 1 + s.below(m.opts.back().longn.size())) + word(3)); }
        if (m.utf8 && o.haslong) { size_t q = 0; while (q < o.longn.size()) { size_t l; if (first(o.longn.substr(q), true, l) < 0) break; q += l; } o.longn.resize(q); if (q == 0) o.haslong = false; }
        if (k != 0) { static const int sc[] = {'a', 'b', 'n', 'o', 'x', '1', '=', 0xe9, 0x20ac}; o.shortn = sc[s.weighted({3, 3, 1, 1, 2, 1, 0, 1, m.utf8 ? 1 : 0})]; }
        o.id = s.chance(1, 8) && !m.opts.empty() ? m.opts.back().id : 100 + (int) m.opts.size();
        o.type = s.chance(1, 3) ? 0 : s.coin() ? 1 + (int) s.below(8) : T_SUFFIX + (int) s.below(4);
        o.flags = (s.chance(1, 3) ? Clp_Optional : 0) | (s.chance(1, 3) ? Clp_Negate : 0) | (s.chance(1, 12) ? Clp_OnlyNegated : 0) | (s.chance(1, 8) ? Clp_PreferredMatch : 0) | (s.chance(1, 8) ? Clp_Mandatory : 0);
        if ((o.flags & Clp_Optional) && (o.flags & Clp_Mandatory)) o.flags &= ~Clp_Mandatory;
        o.name = o.longn;
        o.neg = o.flags & Clp_Negate; o.pref = o.flags & Clp_PreferredMatch; o.optional = o.type && (o.flags & Clp_Optional);
        if (o.haslong && o.longn.compare(0, 3, "no-") == 0) { o.name = o.longn.substr(3); o.pos = false; o.neg = true; }
        else if (o.flags & Clp_OnlyNegated) { o.pos = false; o.neg = true; }
        if (o.haslong && (o.name.empty() || o.name.compare(0, 3, "no-") == 0)) continue;
        if (!o.haslong && !o.shortn) continue;
        bool dup = false;
        for (auto& p : m.opts) dup |= (o.shortn && p.shortn == o.shortn) || (o.haslong && p.haslong && p.name == o.name);
        if (dup && !s.chance(1, 6)) continue;
        m.opts.push_back(o);
    }
    for (int k = 0; k < nocc; ++k) {
        if (occ[k].c == 0) m.oclass.clear();
        bool in = false;
        for (auto& p : m.oclass) if (p.first == occ[k].c) { p.second = occ[k].t; in = true; }
        if (!in) m.oclass.push_back({occ[k].c, occ[k].t});
    }
    bool l1pos = false, l1neg = false;
    for (auto& p : m.oclass) { if ((p.second & 3) == 3) l1pos = true; if ((p.second & 12) == 12) l1neg = true; }
    for (auto& a : m.opts)
        for (auto& b : m.opts)
            if (&a != &b && a.id != b.id && ((a.pos && b.pos) || (a.neg && b.neg))) {
                if (a.shortn && a.shortn == b.shortn) conflict = true;
                if (a.haslong && b.haslong && a.name == b.name) conflict = true;
                size_t l;
                if (a.haslong && ((a.pos && b.pos && l1pos) || (a.neg && b.neg && l1neg))) {
                    int c = first(a.name, m.utf8, l);
                    if (l == a.name.size()) {
                        if (b.shortn == c) conflict = true;
                        size_t l2;
                        if (b.haslong && first(b.name, m.utf8, l2) == c && l2 == b.name.size()) conflict = true;
                    }
                }
            }
    m.names.utf8 = m.utf8;
    for (auto& o : m.opts) m.names.n.push_back({o.name, o.id, o.pos, o.neg, o.pref, o.haslong, o.shortn});
    // arguments, each in memory of exactly its size
    std::vector<std::unique_ptr<char[]>> mem;
    auto hold = [&](const B& b) { mem.emplace_back(new char[b.size() + 1]); memcpy(mem.back().get(), b.c_str(), b.size() + 1); return (const char*) mem.back().get(); };
    int want = 0;               // the type of the option the value is for
    auto genval = [&]() -> B {
        int k = (int) s.below(12), y = want;
        if (y && s.chance(2, 3)) k = y == Clp_ValBool ? 0 : y == Clp_ValDouble || y == T_SUFFIX ? 1 + 2 * (int) s.below(2) : y >= T_LIST ? (s.coin() ? 5 : 1) : y >= Clp_ValInt && y <= Clp_ValUnsignedLong ? 1 + (int) s.below(2) : k;
        switch (k) {
        case 0: { static const char* w[] = {"yes", "no", "true", "FALSE", "0", "1", "t", "N", "yess", "fal", "tr", "01"}; return w[s.below(12)]; }
        case 1: return std::to_string((long) s.below(300) - 100);
        case 2: { static const char* w[] = {"0x1f", "017", "08", "0x", "+5", "-0", "+-5", " 3", "3 ", "2147483647", "2147483648", "-2147483648", "4294967295", "99999999999999999999", "9223372036854775807", "-0x10", "0X7F", "1e3", "00", "-"}; return w[s.below(20)]; }
        case 3: { static const char* w[] = {"1.5", "2k", "3.25M", "1e2", "inf", ".5", "5.", "k", "7G", "1b", "1kk", "-2K", "1e400"}; return w[s.below(13)]; }
        case 4: return "";
        case 5: case 6: { auto& l = m.lists[s.below(3)]; if (l.empty()) return "a"; B w = l[s.below(l.size())].s; return s.coin() ? w : cut(w, s.below(w.size() + 1)); }
        case 7: return "-" + word(2);
        case 8: return "--" + word(2);
        default: return word(4);
        }
    };
    auto genarg = [&]() -> B {
        const Opt* o = m.opts.empty() ? 0 : &m.opts[s.below(m.opts.size())];
        B pre;
        int k0 = want && s.chance(2, 3) ? 2 : s.weighted({5, 5, 2, 1, 1, 1});
        if (k0 != 2) want = o ? o->type : 0;
        switch (k0) {
        case 0: if (!o || !o->haslong) return word(3);
                pre = s.chance(4, 5) ? "--" : s.coin() ? "-" : s.coin() ? "+" : s.coin() ? "^" : "";
                for (int k = s.weighted({4, 2, 1}); k > 0; --k) pre += "no-";
                { B n = s.coin() ? o->name : o->longn;
                  if (s.coin()) { size_t cut = s.below(n.size() + 1); if (!m.utf8) n.resize(cut); else { size_t q = 0, l; while (q < cut) { if (first(n.substr(q), true, l) < 0) break; q += l; } n.resize(std::min(q, n.size())); } }
                  else if (s.chance(1, 6)) n += word(1);
                  if (s.chance(1, 6)) { B d; for (char c : n) if (c != '-' || s.coin()) d += c; n = d; }
                  pre += n; }
                if (s.chance(1, 3)) pre += "=" + genval();
                return pre;
        case 1: pre = s.chance(4, 5) ? "-" : s.coin() ? "+" : s.coin() ? "^" : m.utf8 ? u8(L4) : B("-");
                for (int k = 1 + (int) s.below(4); k > 0; --k) { const Opt& p = m.opts.empty() ? Opt() : m.opts[s.below(m.opts.size())]; want = p.type; pre += p.shortn && !s.chance(1, 10) ? (m.utf8 ? u8(p.shortn) : B(1, (char) p.shortn)) : s.coin() ? B(1, 'x') : B("="); }
                if (s.chance(1, 3)) pre += (s.coin() ? "=" : "") + genval();
                return pre;
        case 2: pre = genval(); want = 0; return pre;
        case 3: return s.coin() ? "--" : s.coin() ? "-" : "";
        case 4: return B(s.coin() ? "--" : s.coin() ? "-x" : "") + B(s.coin() ? s.below(600) : 200 + s.below(60), s.coin() ? 'a' : 'q');
        default: return word(3);
        }
    };
    auto genargs = [&]() {
        m.args.clear();
        for (int n = (int) s.below(8); n > 0; --n) { B a = genarg(); m.args.push_back(a.substr(0, a.find('\0'))); }
        m.at = 0; m.processing = true; m.incluster = false; m.cluster.clear();
    };
    genargs();
    B prog = s.coin() ? "prog" : s.coin() ? "/usr/bin/x-y" : "";
    std::vector<const char*> av{hold(prog)};
    for (auto& a : m.args) av.push_back(hold(a));
    if (s.noting) {
        for (auto& o : m.opts) s.note("option %d: \"%s\" short %d type %d flags %d\n", o.id, o.longn.c_str(), o.shortn, o.type, o.flags);
        for (auto& l : m.lists) { s.note("list:"); for (auto& i : l) s.note(" %s=%d", i.s.c_str(), i.v); s.note("\n"); }
        for (int k = 0; k < nocc; ++k) s.note("character %d: %d\n", occ[k].c, occ[k].t);
        s.note("utf8 %d, arguments:", (int) m.utf8);
        for (auto& a : m.args) s.note(" [%s]", a.c_str());
        s.note("\n");
    }
    std::vector<Clp_Option> tab;
    for (auto& o : m.opts) tab.push_back(Clp_Option{o.haslong ? hold(o.longn) : s.coin() ? 0 : hold(""), o.shortn, o.id, o.type, o.flags});
    std::unique_ptr<Clp_Option[]> otab(new Clp_Option[tab.size()]);
    std::copy(tab.begin(), tab.end(), otab.get());
    unsetenv("LANG");
    Clp_Parser* clp = Clp_NewParser((int) av.size(), av.data(), 0, 0);
    PBT_CHECK(clp, "no parser");
    struct Free { Clp_Parser* c; Clp_ParserState* st = 0; ~Free() { Clp_DeleteParser(c); if (st) Clp_DeleteParserState(st); } } fr{clp};
    errors = 0;
    Clp_SetErrorHandler(clp, onerror);
    Clp_SetUTF8(clp, m.utf8);
    std::vector<std::vector<const char*>> ls;
    for (size_t t = 0; t < 3; ++t) {
        std::vector<const char*> str;
        std::vector<int> val;
        for (auto& i : m.lists[t]) { str.push_back(hold(i.s)); val.push_back(i.v); }
        int flags = t == 0 ? 0 : t == 1 ? Clp_AllowNumbers : Clp_AllowNumbers | Clp_StringListLong;
        if (s.chance(1, 4)) Clp_AddStringListTypeVec(clp, T_LIST + (int) t, 0, 1, str.data(), val.data());      // replaced below
        if (t == 0 && str.size() == 3 && s.coin()) PBT_CHECK(Clp_AddStringListType(clp, T_LIST, 0, str[0], val[0], str[1], val[1], str[2], val[2], (const char*) 0) == 0, "string list");
        else PBT_CHECK(Clp_AddStringListTypeVec(clp, T_LIST + (int) t, flags, (int) str.size(), str.data(), val.data()) == 0, "string list");
    }
    PBT_CHECK(Clp_AddType(clp, T_SUFFIX, 0, clp_parse_suffixdouble, 0) == 0, "AddType");
    PBT_CHECK(Clp_AddType(clp, 0, 0, clp_parse_suffixdouble, 0) < 0, "AddType accepts type 0");
    auto chars = [&]() {
        for (int k = 0; k < nocc; ++k) PBT_CHECK(Clp_SetOptionChar(clp, occ[k].c, occ[k].t) >= 0, "SetOptionChar(%d, %d) fails", occ[k].c, occ[k].t);
        PBT_CHECK(Clp_SetOptionChar(clp, '-', 3 | 4) == -1 && Clp_SetOptionChar(clp, -1, 1) == -1, "SetOptionChar accepts nonsense");
        for (int c : {'-', '+', '^', 'a', 'q'}) PBT_CHECK(Clp_OptionChar(clp, c) == m.charclass(c), "OptionChar(%c) is %d", c, Clp_OptionChar(clp, c));
    };
    if (charsfirst) chars();
    PBT_CHECK(Clp_SetOptions(clp, (int) tab.size(), otab.get()) == 0, "SetOptions");
    if (!charsfirst) chars();
    PBT_CHECK((errors > 0) == conflict, "%d errors are reported for %s option table: %s", errors, conflict ? "an ambiguous" : "a proper", lasterr.c_str());
    if (conflict) { s.tag("ambiguous table"); s.nontrivial = true; return; }
    B base = prog.substr(prog.rfind('/') + 1);
    PBT_CHECK(B(Clp_ProgramName(clp)) == base, "the program name is %s", Clp_ProgramName(clp));
    int seen = 0, bad = 0, vals = 0;
    fr.st = Clp_NewParserState();
    Model saved;
    int left = -1;          // steps until the saved state is restored
    for (int step = 0; step < 80; ++step) {
        if (left < 0 && s.chance(1, 8)) { Clp_SaveParser(clp, fr.st); saved = m; left = (int) s.below(4); if (s.noting) s.note("save\n"); }
        if (!m.incluster && s.chance(1, 12)) {
            bool allow = s.coin();
            if (s.noting) s.note("shift %d\n", (int) allow);
            const char* r = Clp_Shift(clp, allow);
            size_t sk;
            if (m.at == m.args.size()) PBT_CHECK(!r, "Clp_Shift returns %s at the end", r);
            else {
                int t = m.classify(m.args[m.at], sk);
                if (allow || !t || t == Clp_LongImplicit) { PBT_CHECK(r && m.args[m.at] == r, "Clp_Shift returns %s, want %s", r ? r : "null", m.args[m.at].c_str()); ++m.at; }
                else PBT_CHECK(!r, "Clp_Shift returns the option %s", r);
            }
            continue;
        }
        if (!m.incluster && s.chance(1, 20)) { bool on = s.coin(); if (s.noting) s.note("option processing %d\n", (int) on); PBT_CHECK(Clp_SetOptionProcessing(clp, on) == (int) m.processing, "SetOptionProcessing"); m.processing = on; }
        errors = 0;
        Got g = m.next();
        int r = Clp_Next(clp);
        if (s.noting) s.note("next is %d%s%s\n", r, r > 0 && clp->negated ? ", negated" : "", clp->have_val && clp->vstr ? (", \"" + B(clp->vstr) + "\"").c_str() : "");
        if (g.anyopt) break;
        PBT_CHECK(r == g.ret, "Clp_Next returns %d, want %d", r, g.ret);
        PBT_CHECK((errors > 0) == (r == Clp_BadOption), "%d errors are reported for result %d", errors, r);
        if (r == Clp_Done) {
            if (left >= 0) { Clp_RestoreParser(clp, fr.st); m = saved; left = -1; if (s.noting) s.note("restore\n"); continue; }
            if (s.chance(2, 3)) break;
            // another argument list
            genargs();
            av.clear();
            for (auto& a : m.args) av.push_back(hold(a));
            std::unique_ptr<const char*[]> exact(new const char*[av.size() + 1]);
            if (s.noting) { s.note("arguments:"); for (auto& a : m.args) s.note(" [%s]", a.c_str()); s.note("\n"); }
            av.push_back(0);
            Clp_SetArguments(clp, (int) av.size() - 1, av.data());
            continue;
        }
        if (r == Clp_NotOption) PBT_CHECK(clp->vstr && g.v.s == clp->vstr && clp->val.s == clp->vstr && clp->have_val, "the argument is %s, want %s", clp->vstr, g.v.s.c_str());
        if (r > 0) {
            PBT_CHECK((bool) clp->negated == g.neg, "the option is %snegated", g.neg ? "not " : "");
            PBT_CHECK(clp->option == &otab[g.opt], "the option is number %d of the table, want %d", (int) (clp->option - otab.get()), g.opt);
            PBT_CHECK((bool) clp->have_val == g.v.have, "the option has %s value", g.v.have ? "no" : "a");
            PBT_CHECK(g.v.have ? clp->vstr && g.v.s == clp->vstr : !clp->vstr, "the value text is %s, want %s", clp->vstr ? clp->vstr : "null", g.v.have ? g.v.s.c_str() : "null");
            if (g.v.have && !g.v.anyval)
                switch (g.v.kind) {
                case 1: PBT_CHECK(clp->val.i == (int) g.v.l, "the value is %d, want %d", clp->val.i, (int) g.v.l); break;
                case 2: PBT_CHECK(clp->val.u == (unsigned) g.v.l, "the value is %u, want %u", clp->val.u, (unsigned) g.v.l); break;
                case 3: case 4: PBT_CHECK(clp->val.l == g.v.l, "the value is %ld, want %ld", clp->val.l, g.v.l); break;
                case 5: PBT_CHECK(clp->val.d == g.v.d || (g.v.d != g.v.d && clp->val.d != clp->val.d), "the value is %g, want %g", clp->val.d, g.v.d); break;
                default: PBT_CHECK(clp->val.s == clp->vstr, "the value is another string");
                }
            if (g.v.have) ++vals;
            const Opt& o = m.opts[g.opt];
            PBT_CHECK((bool) Clp_IsShort(clp, o.shortn) && !Clp_IsShort(clp, 'Z'), "Clp_IsShort");
            PBT_CHECK((bool) Clp_IsLong(clp, o.longn.c_str()) == o.haslong || !o.haslong, "Clp_IsLong");
            PBT_CHECK(!Clp_IsLong(clp, "zz"), "Clp_IsLong(zz)");
        }
        if (r > 0 || r == Clp_NotOption) {
            // the option's name
            B w = m.current(g);
            PBT_CHECK(w.substr(0, 255) == Clp_CurOptionName(clp) || (m.utf8 && w.size() > 250), "the current option is %s, want %s", Clp_CurOptionName(clp), w.c_str());
            int n = (int) s.below(w.size() + 3);
            std::unique_ptr<char[]> b(new char[n]);
            int k = Clp_CurOptionNameBuf(clp, b.get(), n);
            PBT_CHECK(k >= 0 && (n == 0 ? k == 0 : k < n && !b[k]), "Clp_CurOptionNameBuf with %d bytes returns %d", n, k);
            if (n) PBT_CHECK(w.compare(0, k, b.get()) == 0 && (m.utf8 || k == std::min(n - 1, (int) w.size())), "Clp_CurOptionNameBuf with %d bytes gives %s", n, b.get());
            // formatted messages
            B arg(s.below(40), 'y'), full = w + "|" + arg + "|" + std::to_string(step) + "|%";
            n = (int) s.below(full.size() + 3);
            std::unique_ptr<char[]> f(new char[n]);
            k = vsn(clp, f.get(), n, "%O|%s|%d|%%", arg.c_str(), step);
            PBT_CHECK(k == (int) full.size(), "Clp_vsnprintf returns %d, want %zu", k, full.size());
            if (n) PBT_CHECK(full.substr(0, n - 1) == f.get(), "Clp_vsnprintf writes %s, want %s", f.get(), full.c_str());
        }
        if (r == Clp_BadOption) ++bad;
        if (r > 0) ++seen;
        if (left == 0) { Clp_RestoreParser(clp, fr.st); m = saved; left = -1; if (s.noting) s.note("restore\n"); s.tag("restored"); }
        else if (left > 0) --left;
    }
    if (seen) s.nontrivial = true;
    if (bad) s.tag("bad option");
    if (vals) s.tag("value");
    if (m.utf8) s.tag("utf8");
}

int main(int argc, char** argv) { return argc < 2 ? 2 : pbt::main_(argc - 1, argv + 1, one, argv[1]); }
