// K01: node building blocks (permuter, suffix bag, key slices, search) against plain models.
// U03: the inline-storage vector against std::vector, with counted element lifetimes.
// U04: wrap-around counters and time conversions against wide arithmetic.
#include "kpermuter.hh"
#include "ksearch.hh"
#include "stringbag.hh"
#include "string_slice.hh"
#include "masstree_key.hh"
#include "small_vector.hh"
#include "circular_int.hh"
#include "timestamp.hh"
#include "misc.hh"
#include "pbt.hh"
#include <algorithm>
#include <memory>
#include <set>
#include <vector>
using pbt::Src;
using lcdf::Str;
using lcdf::String;
typedef std::string B;
typedef __int128 wide;

// memory of exactly the size of `b`, so that ASan sees any access outside
struct Exact {
    std::unique_ptr<char[]> p;
    char* d;
    int n;
    explicit Exact(const B& b) : p(new char[b.size()]), d(p.get()), n((int) b.size()) { memcpy(d, b.data(), b.size()); }
};
static B bytes(Src& s, int max) {
    B b;
    int n = (int) s.below(max + 1), m = s.weighted({2, 2, 1});
    for (int i = 0; i < n; ++i) b += m == 0 ? (char) ('a' + s.below(2)) : m == 1 ? (char) (s.coin() ? 0 : 255) : (char) s.below(256);
    return b;
}

// ------------------------------------------------------------ K01: permuter
template <int W> struct PermCase {
    typedef kpermuter<W> P;
    P p;
    std::vector<int> m;     // all W slots in order
    int n = 0;
    void check(const char* what) {
        PBT_CHECK(p.size() == n, "width %d, %s: size is %d, model %d", W, what, p.size(), n);
        PBT_CHECK(P::size(p.value()) == n, "width %d, %s: size(value) is wrong", W, what);
        B txt;
        for (int i = 0; i < W; ++i) {
            PBT_CHECK(p[i] == m[i], "width %d, %s: slot %d is %d, model %d (%s)", W, what, i, p[i], m[i], B(p.unparse().c_str()).c_str());
            if (i == n) txt += ':';
            txt += "0123456789abcdef"[m[i]];
        }
        if (n == W) txt += ':';
        PBT_CHECK(p.back() == m[W - 1], "width %d, %s: back() is %d", W, what, p.back());
        for (int i = 0; i < n; ++i) PBT_CHECK((int) (p.value_from(i) & 15) == m[i], "width %d, %s: value_from(%d)", W, what, i);
        PBT_CHECK(B(p.unparse().c_str()) == txt, "width %d, %s: unparse is %s, want %s", W, what, p.unparse().c_str(), txt.c_str());
    }
    void run(Src& s) {
        int k = (int) s.below(W + 1);
        if (s.coin()) { p = P(P::make_empty()); for (int i = 0; i < W; ++i) m.push_back(W - 1 - i); std::reverse(m.begin(), m.end()); k = 0; m.clear(); }
        else p = P(P::make_sorted(k));
        n = k;
        // elements are allocated in the order 0, 1, ...: the free slots are taken from the back
        for (int i = 0; i < k; ++i) m.push_back(i);
        for (int i = W - 1; i >= k; --i) m.push_back(i);
        if (s.noting) s.note("width %d: make %d\n", W, k);
        check("make");
        {
            P q = p;
            std::set<int> used;
            for (int i = 0; i < n; ++i) used.insert(p[i]);
            for (int v = k; v < W; ++v) {
                int got = q.insert_from_back(q.size());
                PBT_CHECK(got == v, "width %d: the free element %d is allocated before %d", W, got, v);
            }
        }
        for (int ops = (int) s.below(40); ops > 0; --ops) {
            P before = p;
            switch (s.below(8)) {
            case 0: case 1: if (n < W) {
                int i = (int) s.below(n + 1), v = p.insert_from_back(i);
                if (s.noting) s.note("insert_from_back %d\n", i);
                PBT_CHECK(v == m.back(), "width %d: insert_from_back(%d) returns %d, want %d", W, i, v, m.back());
                m.pop_back(); m.insert(m.begin() + i, v); ++n;
                check("insert_from_back");
                break; }
                // fall through
            case 2: if (n > 0) {
                int i = (int) s.below(n);
                if (s.noting) s.note("remove %d\n", i);
                p.remove(i);
                int v = m[i]; m.erase(m.begin() + i); --n; m.insert(m.begin() + n, v);
                check("remove");
                break; }
                // fall through
            case 3: if (n > 0) {
                int i = (int) s.below(n);
                if (s.noting) s.note("remove_to_back %d\n", i);
                p.remove_to_back(i);
                int v = m[i]; m.erase(m.begin() + i); --n; m.push_back(v);
                check("remove_to_back");
                break; }
                // fall through
            case 4: {
                int i = (int) s.below(W), j = (int) s.below(W);
                if (s.noting) s.note("exchange %d %d\n", i, j);
                p.exchange(i, j); std::swap(m[i], m[j]);
                check("exchange");
                break; }
            case 5: {
                int x = (int) s.below(W), y = (int) s.below(W);
                if (s.noting) s.note("exchange_values %d %d\n", x, y);
                p.exchange_values(x, y);
                std::swap(*std::find(m.begin(), m.end(), x), *std::find(m.begin(), m.end(), y));
                check("exchange_values");
                break; }
            case 6: if (n < W) {
                int si = n + (int) s.below(W - n), di = (int) s.below(n + 1);
                if (s.noting) s.note("insert_selected %d %d\n", di, si);
                p.insert_selected(di, si);
                int v = m[si]; m.erase(m.begin() + si); m.insert(m.begin() + di, v); ++n;
                check("insert_selected");
                break; }
                // fall through
            default:
                if (s.coin()) {
                    n = (int) s.below(n + 1);
                    if (s.noting) s.note("set_size %d\n", n);
                    p.set_size(n);
                    check("set_size");
                } else if (n == W) {
                    int i = (int) s.below(W), j = i + (int) s.below(W - i + 1);
                    if (s.noting) s.note("rotate %d %d\n", i, j);
                    p.rotate(i, j);
                    std::rotate(m.begin() + i, m.begin() + j, m.end());
                    check("rotate");
                }
            }
            PBT_CHECK((p == before) == !(p != before), "width %d: == and != disagree", W);
        }
    }
};

// ------------------------------------------------------------ K01: suffix bag
template <typename T> static void bagcase(Src& s) {
    typedef stringbag<T> SB;
    int W = s.coin() ? 15 : 1 + (int) s.below(15);
    size_t lo = std::max<size_t>(SB::overhead(W), 8), hi = std::min<size_t>(SB::max_size(), lo + (s.chance(1, 8) ? 70000 : s.coin() ? 200 : 40));
    if (lo > SB::max_size()) { W = 15; lo = SB::overhead(W); hi = SB::max_size(); }
    if (s.chance(1, 8) && SB::max_size() < 1000) lo = hi = SB::max_size();
    bool safe = s.chance(1, 3);
    std::vector<B> plan(W);
    size_t cap;
    if (safe) {
        unsigned total = 0;
        for (auto& b : plan) { b = bytes(s, s.coin() ? 3 : 12); total += b.size(); }
        cap = SB::safe_size(W, total);
        if (cap > SB::max_size()) return;
    } else
        cap = lo + s.below(hi - lo + 1);
    if (cap < 8) return;                    // too small for a bag's strings to be compared with equals_sloppy()
    if (s.noting) s.note("stringbag with %zu-byte offsets, width %d, capacity %zu%s\n", sizeof(T), W, cap, safe ? " = safe_size" : "");
    PBT_CHECK(SB::empty_size() <= SB::overhead(0) && SB::overhead(W) >= SB::empty_size(), "overhead(%d) is less than empty_size()", W);
    std::unique_ptr<char[]> mem(new char[cap]);
    memset(mem.get(), 0x55, cap);
    SB* bag = new((void*) mem.get()) SB(W, cap);
    std::vector<B> m(W);
    auto check = [&](const char* what) {
        PBT_CHECK(bag->capacity() == cap, "%s: capacity is %zu, not %zu", what, bag->capacity(), cap);
        PBT_CHECK(bag->used_capacity() <= cap, "%s: %zu bytes used of %zu", what, bag->used_capacity(), cap);
        for (int i = 0; i < W; ++i) {
            Str x = (*bag)[i], y = bag->get(i);
            PBT_CHECK(x.len == y.len && x.s == y.s, "%s: get(%d) and [%d] differ", what, i, i);
            PBT_CHECK(x.len >= 0 && (!x.len || (x.s >= mem.get() + SB::overhead(W) && x.s + x.len <= mem.get() + cap)), "%s: string %d lies outside the bag", what, i);
            PBT_CHECK(B(x.s, x.len) == m[i], "%s: string %d is %s, want %s", what, i, pbt::hexs(B(x.s, x.len)).c_str(), pbt::hexs(m[i]).c_str());
        }
    };
    check("construction");
    int ops = safe ? W : 1 + (int) s.below(40);
    for (int k = 0; k < ops; ++k) {
        int p = safe ? k : (int) s.below(W);
        B b = safe ? plan[k] : bytes(s, s.weighted({3, 3, 1}) == 0 ? 2 : s.chance(1, 6) ? 120 : 14);
        if (s.noting) s.note("assign %d: %s\n", p, pbt::hexs(b).c_str());
        Exact e(b);
        size_t used = bag->used_capacity();
        bool room = b.size() <= m[p].size() || used + std::max<size_t>(b.size(), sizeof(uintptr_t)) <= cap;
        bool ok = s.coin() ? bag->assign(p, e.d, e.n) : bag->assign(p, Str(e.d, e.n));
        PBT_CHECK(ok || !room, "assign of %zu bytes to string %d (%zu bytes) is refused with %zu of %zu bytes used", b.size(), p, m[p].size(), used, cap);
        PBT_CHECK(ok || !safe, "assign is refused in a bag of safe_size()");
        if (ok) m[p] = b;
        check(ok ? "assign" : "refused assign");
        if (!ok) s.tag("refused");
        // fast comparison
        int q = (int) s.below(W);
        B c = s.coin() ? m[q] : bytes(s, 10);
        if (c.size() == m[q].size()) {
            if (c.size() && s.coin()) c[s.below(c.size())] ^= (char) (1 << s.below(8));
            B padded = B(8, (char) s.below(256)) + c + B(8, (char) s.below(256));
            Exact f(padded);
            bool eq = string_slice<uintptr_t>::equals_sloppy(f.d + 8, bag->get(q).s, (int) c.size());
            PBT_CHECK(eq == (c == m[q]), "equals_sloppy(%s, %s) is %d", pbt::hexs(c).c_str(), pbt::hexs(m[q]).c_str(), eq);
        }
    }
    if (ops > 2) s.nontrivial = true;
}

// ------------------------------------------------------------ K01: slices
static int sgn(int x) { return (x > 0) - (x < 0); }
template <typename T> static void slicecase(Src& s) {
    typedef string_slice<T> S;
    const int Z = sizeof(T);
    B a = bytes(s, Z + 5), b = s.coin() ? bytes(s, Z + 5) : a.substr(0, s.below(a.size() + 1)) + bytes(s, 3);
    Exact ea(a), eb(b);
    T x = S::make_comparable(ea.d, ea.n), y = S::make_comparable(eb.d, eb.n);
    if (s.noting) s.note("%d-byte slices of %s and %s\n", Z, pbt::hexs(a).c_str(), pbt::hexs(b).c_str());
    B pa = a.substr(0, Z), pb = b.substr(0, Z);
    pa.resize(Z); pb.resize(Z);
    int c = sgn(memcmp(pa.data(), pb.data(), Z));
    PBT_CHECK((x > y) - (x < y) == c, "slices of %s and %s compare %d, want %d", pbt::hexs(a).c_str(), pbt::hexs(b).c_str(), (x > y) - (x < y), c);
    T raw = S::make(ea.d, ea.n);
    PBT_CHECK(memcmp(&raw, pa.data(), Z) == 0, "make(%s)", pbt::hexs(a).c_str());
    Exact pad(B(Z, (char) s.below(256)) + a + B(Z, (char) s.below(256)));
    PBT_CHECK(S::make_sloppy(pad.d + Z, ea.n) == raw && S::make_comparable_sloppy(pad.d + Z, ea.n) == x, "make_sloppy(%s) differs from make()", pbt::hexs(a).c_str());
    // back to bytes
    int bl = (int) s.below(Z + 3);
    std::unique_ptr<char[]> o(new char[bl]);
    int l = S::unparse_comparable(o.get(), bl, x);
    B t = pa;
    while (!t.empty() && !t.back()) t.pop_back();
    PBT_CHECK(B(o.get(), l) == t.substr(0, bl), "unparse_comparable(%s, buflen %d)", pbt::hexs(a).c_str(), bl);
    int len = (int) s.below(Z + 3);
    l = S::unparse_comparable(o.get(), bl, x, len);
    PBT_CHECK(B(o.get(), l) == pa.substr(0, std::min(len, bl)), "unparse_comparable(%s, buflen %d, len %d)", pbt::hexs(a).c_str(), bl, len);
    // equality
    int n = (int) std::min(a.size(), b.size());
    Exact pbad(B(Z, (char) s.below(256)) + b + B(Z, (char) s.below(256)));
    bool eq = S::equals_sloppy(pad.d + Z, pbad.d + Z, n);
    PBT_CHECK(eq == (a.compare(0, n, b, 0, n) == 0), "equals_sloppy(%s, %s, %d) is %d", pbt::hexs(a).c_str(), pbt::hexs(b).c_str(), n, eq);
    s.nontrivial = true;
}

// ------------------------------------------------------------ K01: keys
template <typename I> static void keycase(Src& s) {
    typedef Masstree::key<I> K;
    const int Z = sizeof(I);
    B a = bytes(s, s.coin() ? 12 : 40);
    Exact e(a);
    K k = s.coin() ? K(Str(e.d, e.n)) : K(e.d, e.n);
    if (s.noting) s.note("key %s\n", pbt::hexs(a).c_str());
    int pos = 0;
    auto check = [&](const K& k, const char* what) {
        B rest = a.substr(pos), pre = a.substr(0, pos), first = rest.substr(0, Z);
        PBT_CHECK(k.length() == (int) rest.size(), "%s: length is %d, want %zu", what, k.length(), rest.size());
        PBT_CHECK(k.ikey() == string_slice<I>::make_comparable(rest.data(), (int) rest.size()), "%s: ikey of %s", what, pbt::hexs(rest).c_str());
        PBT_CHECK(k.has_suffix() == (rest.size() > (size_t) Z), "%s: has_suffix", what);
        PBT_CHECK(k.empty() == rest.empty(), "%s: empty", what);
        if (k.has_suffix()) PBT_CHECK(B(k.suffix().s, k.suffix().len) == rest.substr(Z) && k.suffix_length() == (int) rest.size() - Z, "%s: suffix", what);
        PBT_CHECK(k.is_shifted() == (pos > 0) && k.prefix_length() == pos && B(k.prefix_string().s, k.prefix_string().len) == pre, "%s: prefix", what);
        PBT_CHECK(B(k.full_string().s, k.full_string().len) == a && B(Str(k).s, Str(k).len) == a, "%s: full_string", what);
        String u = k.unparse();
        PBT_CHECK(B(u.data(), u.length()) == rest, "%s: unparse is %s, want %s", what, pbt::hexs(B(u.data(), u.length())).c_str(), pbt::hexs(rest).c_str());
        int bl = (int) s.below(rest.size() + 4);
        std::unique_ptr<char[]> o(new char[bl]);
        int l = k.unparse(o.get(), bl);
        PBT_CHECK(B(o.get(), l) == rest.substr(0, bl), "%s: unparse into %d bytes", what, bl);
    };
    check(k, "construction");
    for (int n = (int) s.below(8); n > 0; --n) {
        if (k.has_suffix() && s.chance(3, 4)) { k.shift(); pos += Z; check(k, "shift"); }
        else { k.unshift_all(); pos = 0; check(k, "unshift_all"); }
    }
    // comparison of two keys within a layer
    B b = s.coin() ? bytes(s, 12) : a.substr(0, s.below(a.size() + 1)) + bytes(s, 2);
    if (s.noting) s.note("and %s\n", pbt::hexs(b).c_str());
    k.unshift_all(); pos = 0;
    Exact f(b);
    K j(f.d, f.n);
    int c = sgn(k.compare(j)), d = sgn(j.compare(k)), w = sgn(a.compare(b));
    if (a.compare(0, Z, b, 0, Z) == 0 && a.size() > (size_t) Z && b.size() > (size_t) Z) w = 0;     // both go down to the next layer
    PBT_CHECK(c == w, "compare(%s, %s) is %d, want %d", pbt::hexs(a).c_str(), pbt::hexs(b).c_str(), c, w);
    PBT_CHECK(d == -w, "compare(%s, %s) is %d, want %d", pbt::hexs(b).c_str(), pbt::hexs(a).c_str(), d, -w);
    PBT_CHECK(sgn(k.compare(j.ikey(), std::min(j.length(), Z + 1))) == w, "compare(%s, slice of %s)", pbt::hexs(a).c_str(), pbt::hexs(b).c_str());
    // other constructors
    B p8 = b.substr(0, Z), t = p8;
    while (!t.empty() && !t.back()) t.pop_back();
    K q(j.ikey());
    String u = q.unparse();
    PBT_CHECK(B(u.data(), u.length()) == t && q.length() == (int) t.size(), "a key made of the slice of %s is %s", pbt::hexs(b).c_str(), pbt::hexs(B(u.data(), u.length())).c_str());
    u = K::unparse_ikey(j.ikey());
    PBT_CHECK(B(u.data(), u.length()) == t, "unparse_ikey");
    int len = (int) s.below(Z + 4);
    K r(j.ikey(), len);
    u = r.unparse();
    B z = p8; z.resize(Z); z.resize(std::min(len, Z));
    PBT_CHECK(B(u.data(), u.length()) == z, "a key of %d bytes made of the slice of %s is %s", len, pbt::hexs(b).c_str(), pbt::hexs(B(u.data(), u.length())).c_str());
    if (b.size() >= (size_t) Z) {
        K v(j.ikey(), Str(f.d + Z, f.n - Z));
        u = v.unparse();
        PBT_CHECK(B(u.data(), u.length()) == b && v.length() == f.n, "a key made of slice and suffix of %s is %s", pbt::hexs(b).c_str(), pbt::hexs(B(u.data(), u.length())).c_str());
    }
    // building keys for a scan
    B buf(64, (char) s.below(256));
    Exact g(buf);
    B cur;
    K sk(g.d, 0);
    std::vector<B> layers;
    for (int n = (int) s.below(7); n > 0; --n) {
        switch (s.below(4)) {
        case 0: {                                   // an entry of this layer
            B x = bytes(s, Z + 6);
            I ik = string_slice<I>::make_comparable(x.data(), (int) x.size());
            sk.assign_store_ikey(ik);
            if (x.size() > (size_t) Z) sk.assign_store_length(sk.assign_store_suffix(Str(x.data() + Z, x.size() - Z)));
            else sk.assign_store_length((int) x.size());
            cur = x;
            B w; for (auto& l : layers) w += l; w += x;
            PBT_CHECK(B(sk.full_string().s, sk.full_string().len) == w, "a stored key is %s, want %s", pbt::hexs(B(sk.full_string().s, sk.full_string().len)).c_str(), pbt::hexs(w).c_str());
            PBT_CHECK(sk.ikey() == ik && sk.length() == (int) x.size(), "a stored key has the wrong slice");
            break; }
        case 1:                                     // down
            if (cur.size() >= (size_t) Z && layers.size() < 4) {
                layers.push_back(cur.substr(0, Z));
                bool rev = s.coin();
                if (rev) sk.shift_clear_reverse(); else sk.shift_clear();
                PBT_CHECK(rev ? sk.ikey() == (I) ~I(0) && sk.length() == Z + 1 : sk.empty(), "shift_clear");
                PBT_CHECK(sk.prefix_length() == (int) layers.size() * Z, "shift_clear: prefix_length");
                cur.clear();
            }
            break;
        case 2:                                     // up
            if (!layers.empty()) {
                sk.unshift();
                PBT_CHECK(sk.ikey() == string_slice<I>::make_comparable(layers.back().data(), Z) && sk.length() == Z + 1 && sk.has_suffix(), "unshift");
                cur = layers.back();
                layers.pop_back();
            }
            break;
        default: {                                  // the key after
            K x = sk;
            I before = x.ikey(); int bl = x.length();
            bool wrap = x.increment();
            if (bl > Z) PBT_CHECK(x.ikey() == (I) (before + 1) && x.length() == 1 && wrap == ((I) (before + 1) == 0), "increment past a suffix");
            else PBT_CHECK(x.ikey() == before && x.length() == bl + 1 && !wrap, "increment");
        }
        }
    }
    s.nontrivial = true;
}

// ------------------------------------------------------------ K01: search
struct Flat {                       // a node without a permutation
    std::vector<int> k;
    int size() const { return (int) k.size(); }
    int compare_key(int ka, int p) const { return ka < k[p] ? -1 : ka > k[p]; }
};
struct Permuted {
    typedef kpermuter<15> permuter_type;
    permuter_type perm;
    int k[15];
    permuter_type permutation() const { return perm; }
    int size() const { return perm.size(); }
    int compare_key(int ka, int p) const { return ka < k[p] ? -1 : ka > k[p]; }
};
template <typename N, typename F> static void searchin(Src& s, const N& n, const std::vector<int>& sorted, F slot) {
    int ka = (int) s.below(sorted.empty() ? 3 : sorted.back() + 3) - 1;
    if (s.noting) { s.note("search %d in", ka); for (int x : sorted) s.note(" %d", x); s.note("\n"); }
    int lb = (int) (std::lower_bound(sorted.begin(), sorted.end(), ka) - sorted.begin()), ub = (int) (std::upper_bound(sorted.begin(), sorted.end(), ka) - sorted.begin());
    bool there = lb != ub;
    auto up = [&](int got, const char* w) { PBT_CHECK(got == ub, "%s upper bound of %d is %d, want %d", w, ka, got, ub); };
    auto low = [&](key_indexed_position got, const char* w) {
        PBT_CHECK(got.i == lb && got.p == (there ? slot(lb) : -1), "%s lower bound of %d is (%d, %d), want (%d, %d)", w, ka, got.i, got.p, lb, there ? slot(lb) : -1);
    };
    auto by = [](int a, const N& x, int p) { return x.compare_key(a, p); };
    up(key_bound_binary::upper(ka, n), "binary"); up(key_bound_linear::upper(ka, n), "linear"); up(key_upper_bound(ka, n), "default");
    up(key_upper_bound_by(ka, n, by), "binary by"); up(key_find_upper_bound_by(ka, n, by), "linear by");
    up(key_bound<15>::type::upper(ka, n), "fast"); up(key_bound<17>::type::upper(ka, n), "fast");
    low(key_bound_binary::lower(ka, n), "binary"); low(key_bound_linear::lower(ka, n), "linear"); low(key_lower_bound(ka, n), "default");
    low(key_bound_binary::lower_by(ka, n, by), "binary by"); low(key_bound_linear::lower_by(ka, n, by), "linear by");
}
static void searchcase(Src& s) {
    std::vector<int> v;
    int x = 0;
    bool perm = s.coin();
    for (int n = (int) s.below(perm ? 16 : 40); n > 0; --n) v.push_back(x += 1 + (int) s.below(3));
    if (perm) {
        Permuted n;
        n.perm = Permuted::permuter_type(Permuted::permuter_type::make_empty());
        for (auto& k : n.k) k = (int) s.below(100);
        std::vector<int> order(v.size()), slot;
        for (size_t i = 0; i < v.size(); ++i) order[i] = (int) i;
        for (size_t i = v.size(); i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);
        std::vector<int> in;
        for (int o : order) {               // inserted in any order, as a node would
            size_t i = std::lower_bound(in.begin(), in.end(), v[o]) - in.begin();
            in.insert(in.begin() + i, v[o]);
            n.k[n.perm.insert_from_back((int) i)] = v[o];
        }
        searchin(s, n, v, [&](int i) { return n.perm[i]; });
    } else {
        Flat n;
        n.k = v;
        searchin(s, n, v, [](int i) { return i; });
    }
    s.nontrivial = true;
}

static void k01(Src& s) {
    switch (s.below(12)) {
    case 0: { PermCase<15> c; c.run(s); s.nontrivial = true; break; }
    case 1: switch (s.below(9)) {
        case 0: { PermCase<1> c; c.run(s); break; }
        case 1: { PermCase<2> c; c.run(s); break; }
        case 2: { PermCase<3> c; c.run(s); break; }
        case 3: { PermCase<4> c; c.run(s); break; }
        case 4: { PermCase<6> c; c.run(s); break; }
        case 5: { PermCase<7> c; c.run(s); break; }
        case 6: { PermCase<8> c; c.run(s); break; }
        case 7: { PermCase<10> c; c.run(s); break; }
        default: { PermCase<14> c; c.run(s); break; }
        }
        s.nontrivial = true;
        break;
    case 2: { PermCase<15> c; c.run(s); s.nontrivial = true; break; }
    case 3: bagcase<uint8_t>(s); break;
    case 4: case 5: bagcase<uint16_t>(s); break;
    case 6: slicecase<uint64_t>(s); break;
    case 7: if (s.coin()) slicecase<uint32_t>(s); else slicecase<uint16_t>(s); break;
    case 8: case 9: keycase<uint64_t>(s); break;
    case 10: keycase<uint32_t>(s); break;
    default: searchcase(s);
    }
}

// ------------------------------------------------------------ U03
static std::set<const void*> alive;
struct Elt {
    std::unique_ptr<int> v;             // leaks and double frees are seen by ASan
    bool moved = false;
    void born() { PBT_CHECK(alive.insert(this).second, "an element is constructed on top of another"); }
    Elt() : v(new int(-7)) { born(); }
    Elt(int x) : v(new int(x)) { born(); }
    Elt(int x, int y) : v(new int(x * 1000 + y)) { born(); }
    Elt(const Elt& o) { o.use(); v.reset(new int(*o.v)); born(); }
    Elt(Elt&& o) { o.use(); v = std::move(o.v); o.moved = true; born(); }
    Elt& operator=(const Elt& o) { live(); o.use(); int x = *o.v; v.reset(new int(x)); moved = false; return *this; }
    Elt& operator=(Elt&& o) { live(); o.use(); if (this != &o) { v = std::move(o.v); o.moved = true; moved = false; } return *this; }
    ~Elt() { PBT_CHECK(alive.erase(this) == 1, "an element is destroyed twice, or was never constructed"); }
    void live() const { PBT_CHECK(alive.count(this), "something that is not an element is used"); }
    void use() const { live(); PBT_CHECK(!moved, "a moved-from element is used"); }
    int get() const { use(); return *v; }
};
static int get(const Elt& e) { return e.get(); }
static int get(int e) { return e; }
static int get(const std::string& e) { return atoi(e.c_str()); }
template <typename T> struct Make { static T of(int x) { return T(x); } };
template <> struct Make<std::string> { static std::string of(int x) { std::string r = std::to_string(x); r.resize(r.size() + 20, ' '); return r; } };

static long blocks;                     // allocated through the counting allocator
template <typename T> struct CountingAlloc {
    typedef T value_type;
    CountingAlloc() {}
    template <typename U> CountingAlloc(const CountingAlloc<U>&) {}
    T* allocate(size_t n) { ++blocks; size_t* p = (size_t*) malloc(16 + n * sizeof(T)); *p = n; return (T*) ((char*) p + 16); }
    void deallocate(T* t, size_t n) {
        size_t* p = (size_t*) ((char*) t - 16);
        PBT_CHECK(*p == n, "a block for %zu elements is deallocated as one for %zu", *p, n);
        --blocks;
        free(p);
    }
};
template <typename T, unsigned N> static void vec_case(Src& s) {
    typedef small_vector<T, N, CountingAlloc<T>> V;
    typedef small_vector<T, (N > 2 ? 2 : 5), CountingAlloc<T>> V2;
    {
        std::vector<std::unique_ptr<V>> v;
        std::vector<std::vector<int>> m;
        for (int i = 0; i < 2; ++i) { v.emplace_back(new V); m.emplace_back(); }
        std::unique_ptr<V2> w(new V2);
        std::vector<int> mw;
        int serial = 0, ops = 3 + (int) s.below(50), grown = 0;
        auto same = [&](const char* what, const V& x, const std::vector<int>& y) {
            PBT_CHECK(x.size() == y.size() && x.empty() == y.empty() && !x == y.empty() && (x ? true : false) == !y.empty(), "%s: size is %u, model %zu", what, x.size(), y.size());
            PBT_CHECK(x.capacity() >= x.size() && x.capacity() >= N, "%s: capacity", what);
            size_t k = 0;
            for (auto& e : x) { PBT_CHECK(k < y.size() && get(e) == y[k], "%s: element %zu is %d, model %d", what, k, get(e), k < y.size() ? y[k] : -99); ++k; }
            PBT_CHECK(k == y.size() && x.end() - x.begin() == (long) k && x.cend() - x.cbegin() == (long) k, "%s: iteration", what);
            k = y.size();
            for (auto it = x.rbegin(); it != x.rend(); ++it) PBT_CHECK(get(*it) == y[--k], "%s: reverse iteration", what);
            if (k || !y.empty()) PBT_CHECK(get(x.front()) == y.front() && get(x.back()) == y.back(), "%s: front and back", what);
            for (size_t i = 0; i < y.size(); ++i) PBT_CHECK(get(x[i]) == y[i], "%s: [%zu]", what, i);
            V& u = const_cast<V&>(x);                     // the same through the non-const accessors
            k = 0;
            for (auto& e : u) { PBT_CHECK(k < y.size() && get(e) == y[k], "%s: element %zu is %d, model %d", what, k, get(e), k < y.size() ? y[k] : -99); ++k; }
            PBT_CHECK(k == y.size() && u.end() - u.begin() == (long) k && u.rend() - u.rbegin() == (long) k && x.crend() - x.crbegin() == (long) k, "%s: iteration", what);
            for (auto it = u.rbegin(); it != u.rend(); ++it) PBT_CHECK(get(*it) == y[--k], "%s: reverse iteration", what);
            k = y.size();
            for (auto it = x.crbegin(); it != x.crend(); ++it) PBT_CHECK(get(*it) == y[--k], "%s: reverse iteration", what);
            if (!y.empty()) PBT_CHECK(get(u.front()) == y.front() && get(u.back()) == y.back(), "%s: front and back", what);
            for (size_t i = 0; i < y.size(); ++i) PBT_CHECK(get(u[i]) == y[i], "%s: [%zu]", what, i);
        };
        for (int k = 0; k < ops; ++k) {
            int i = (int) s.below(2);
            V& x = *v[i];
            std::vector<int>& y = m[i];
            const char* what = "";
            int arg = ++serial;
            switch (s.below(16)) {
            case 0: { what = "push_back"; T e = Make<T>::of(arg); x.push_back(e); PBT_CHECK(get(e) == arg, "push_back changes its argument"); y.push_back(arg); break; }
            case 1: what = "push_back (move)"; x.push_back(Make<T>::of(arg)); y.push_back(arg); break;
            case 2: what = "emplace_back"; x.emplace_back(Make<T>::of(arg)); y.push_back(arg); break;
            case 3: if (!y.empty()) { what = "push_back of an element"; size_t j = s.below(y.size()); x.push_back(x[j]); y.push_back(y[j]); s.tag("own element"); } break;
            case 4: if (!y.empty()) { what = "emplace_back of an element"; size_t j = s.below(y.size()); x.emplace_back(x[j]); y.push_back(y[j]); s.tag("own element"); } break;
            case 5: if (!y.empty()) { what = "pop_back"; x.pop_back(); y.pop_back(); } break;
            case 6: what = "clear"; if (s.coin()) { x.clear(); y.clear(); } break;
            case 7: { what = "resize"; size_t n = s.below(s.coin() ? N + 3 : y.size() + 3); x.resize(n, Make<T>::of(arg)); y.resize(n, arg); arg = (int) n; break; }
            case 8: if (!y.empty()) { what = "resize with an element"; size_t n = s.below(2 * y.size() + 3), j = s.below(y.size()); int z = y[j]; x.resize(n, x[j]); y.resize(n, z); } break;
            case 9: if (!y.empty()) { what = "erase"; size_t j = s.below(y.size()); auto r = x.erase(x.begin() + j); y.erase(y.begin() + j); PBT_CHECK(r == x.begin() + j, "erase returns the wrong position"); arg = (int) j; } break;
            case 10: { what = "erase range"; size_t j = s.below(y.size() + 1), l = j + s.below(y.size() - j + 1); auto r = x.erase(x.begin() + j, x.begin() + l);
                       y.erase(y.begin() + j, y.begin() + l); PBT_CHECK(r == x.begin() + j, "erase returns the wrong position"); break; }
            case 11: what = "assignment"; *v[i] = *v[1 - i]; m[i] = m[1 - i]; break;
            case 12: what = "self-assignment"; x = *v[i]; break;
            case 13: what = "copy construction"; v[i].reset(new V(*v[1 - i])); m[i] = m[1 - i]; break;
            case 14: { what = "conversion";
                if (s.coin()) { *w = x; mw = y; } else { w.reset(new V2(x)); mw = y; }
                if (s.coin()) w->push_back(Make<T>::of(arg)), mw.push_back(arg);
                if (s.coin()) { x = *w; y = mw; } else { v[i].reset(new V(*w)); y = mw; }
                s.tag("other capacity");
                break; }
            default: if (!y.empty()) { what = "element assignment"; size_t j = s.below(y.size()); x[j] = Make<T>::of(arg); y[j] = arg; }
            }
            if (s.noting && *what) s.note("vector %d: %s %d\n", i, what, arg);
            for (int j = 0; j < 2; ++j) { same(what, *v[j], m[j]); if (m[j].size() > N) ++grown; }
            for (size_t j = 0; j < mw.size(); ++j) PBT_CHECK(w->size() == mw.size() && get((*w)[j]) == mw[j], "%s: the other vector changes", what);
            if (std::is_same<T, Elt>::value)
                PBT_CHECK(alive.size() == m[0].size() + m[1].size() + mw.size(), "%s: %zu elements are alive, the vectors hold %zu", what, alive.size(), m[0].size() + m[1].size() + mw.size());
        }
        if (grown) { s.nontrivial = true; s.tag("beyond the inline capacity"); }
    }
    PBT_CHECK(alive.empty(), "%zu elements are never destroyed", alive.size());
    PBT_CHECK(blocks == 0, "%ld blocks are never deallocated", blocks);
}
static void u03(Src& s) {
    alive.clear(); blocks = 0;
    switch (s.below(8)) {
    case 0: vec_case<Elt, 1>(s); break;
    case 1: vec_case<Elt, 2>(s); break;
    case 2: vec_case<Elt, 3>(s); break;
    case 3: vec_case<Elt, 8>(s); break;
    case 4: vec_case<int, 2>(s); break;
    case 5: vec_case<std::string, 2>(s); break;
    case 6: vec_case<std::string, 5>(s); break;
    default: vec_case<int, 7>(s);
    }
}

// ------------------------------------------------------------ U04
template <typename T> static void circ(Src& s) {
    typedef circular_int<T> C;
    typedef typename C::value_type U;
    typedef typename C::difference_type D;
    const int bits = sizeof(T) * 8;
    const wide mod = (wide) 1 << bits;
    auto val = [&]() -> U {
        switch (s.below(4)) {
        case 0: return (U) s.below(4);
        case 1: return (U) ((U) 0 - (U) s.below(4) - 1);
        case 2: return (U) (((U) 1 << (bits - 1)) + (U) s.below(5) - 2);
        default: return (U) s.bits64();
        }
    };
    U a = val(), b = s.coin() ? val() : (U) (a + (U) (s.below(9)) - 4);
    if (s.chance(1, 4)) b = (U) (a + ((U) 1 << (bits - 1)) + (U) s.below(3) - 1);
    C x((T) a), y((T) b);
    if (s.noting) s.note("%d bits: %llu and %llu\n", bits, (unsigned long long) a, (unsigned long long) b);
    wide d = ((wide) b - (wide) a) % mod;
    if (d < 0) d += mod;
    if (d >= mod / 2) d -= mod;             // y - x in [-2^(bits-1), 2^(bits-1))
    bool half = d == -(mod / 2);
    PBT_CHECK(x.value() == a, "value");
    PBT_CHECK((wide) (D) (y - x) == d, "difference of %llu and %llu is %lld", (unsigned long long) b, (unsigned long long) a, (long long) (y - x));
    PBT_CHECK((x == y) == (a == b) && (x != y) == (a != b), "equality of %llu and %llu", (unsigned long long) a, (unsigned long long) b);
    if (!half) {
        PBT_CHECK((x < y) == (d > 0) && (x <= y) == (d >= 0) && (x > y) == (d < 0) && (x >= y) == (d <= 0), "order of %llu and %llu (%d bits)", (unsigned long long) a, (unsigned long long) b, bits);
        PBT_CHECK(C::less(a, b) == (d > 0) && C::less_equal(a, b) == (d >= 0), "less(%llu, %llu)", (unsigned long long) a, (unsigned long long) b);
    }
    int i = (int) s.below(1000) - 500;
    if (s.chance(1, 8)) i = bits < 32 ? (int) (int16_t) s.bits64() : s.coin() ? INT_MAX : INT_MIN;
    unsigned u = (unsigned) s.below(1000);
    if (s.chance(1, 8)) u = UINT_MAX - (unsigned) s.below(3);
    auto wrap = [&](wide v) { v %= mod; if (v < 0) v += mod; return (U) v; };
    PBT_CHECK((x + i).value() == wrap((wide) a + i) && (x - i).value() == wrap((wide) a - i), "%llu plus or minus %d", (unsigned long long) a, i);
    PBT_CHECK((x + u).value() == wrap((wide) a + u) && (x - u).value() == wrap((wide) a - u), "%llu plus or minus %u", (unsigned long long) a, u);
    { C z = x; z += i; PBT_CHECK(z.value() == wrap((wide) a + i), "+= %d", i); z -= i; PBT_CHECK(z == x, "-= %d", i); }
    { C z = x; z += u; PBT_CHECK(z.value() == wrap((wide) a + u), "+= %u", u); z -= u; PBT_CHECK(z == x, "-= %u", u); }
    { C z = x; C o = z++; PBT_CHECK(o == x && z.value() == wrap((wide) a + 1), "++ of %llu", (unsigned long long) a); C o2 = z--; PBT_CHECK(o2.value() == wrap((wide) a + 1) && z == x, "--"); }
    { C z = x; PBT_CHECK((++z).value() == wrap((wide) a + 1) && z.value() == wrap((wide) a + 1), "++"); PBT_CHECK((--z) == x && z == x, "--"); }
    U nn = wrap((wide) a + 1);
    if (!nn) nn = 1;
    PBT_CHECK(x.next_nonzero().value() == nn && C::next_nonzero(a) == nn, "next_nonzero(%llu)", (unsigned long long) a);
    PBT_CHECK(!x == (a == 0) && (x ? true : false) == (a != 0), "truth of %llu", (unsigned long long) a);
    { C z = x; bool hit = s.coin(); C exp = hit ? x : y; C old = z.cmpxchg(exp, y + 1); PBT_CHECK(old == x && z == (exp == x ? y + 1 : x), "cmpxchg"); }
    C dflt;
    PBT_CHECK(dflt.value() == 0, "default value");
    s.nontrivial = true;
}
static void times(Src& s) {
    // stored timestamps: seconds and microseconds
    auto any = [&]() -> std::pair<uint64_t, uint64_t> {
        uint64_t sec = s.coin() ? s.below(5) + 1000 : s.below(1ull << 31);
        uint64_t us = s.weighted({2, 1, 1}) == 0 ? s.below(1000000) : s.coin() ? s.below(3) : 999999 - s.below(3);
        return {sec, us};
    };
    auto p = any(), q = any();
    if (q > p) std::swap(p, q);
    kvtimestamp_t a = p.first << 32 | p.second, b = q.first << 32 | q.second;
    uint64_t d = (p.first * 1000000 + p.second) - (q.first * 1000000 + q.second);
    if (s.noting) s.note("%lu.%06lu - %lu.%06lu\n", (long) p.first, (long) p.second, (long) q.first, (long) q.second);
    kvtimestamp_t r = timestamp_sub(a, b);
    PBT_CHECK(KVTS_HIGHPART(r) == d / 1000000 && KVTS_LOWPART(r) == d % 1000000, "timestamp_sub is %lu.%06lu, want %lu.%06lu", KVTS_HIGHPART(r), KVTS_LOWPART(r), (long) (d / 1000000), (long) (d % 1000000));
    PBT_CHECK((a < b) == (p < q) && (a == b) == (p == q), "stored timestamps are out of order");
    // seconds as a double
    double y = s.coin() ? (double) p.first + p.second / 1e6 : (double) s.below(1ull << 33) / (double) (1 + s.below(1000000));
    struct timespec ts;
    struct timespec& back = set_timespec(ts, y);
    PBT_CHECK(&back == &ts && ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000, "set_timespec(%.9f) gives %ld nanoseconds", y, (long) ts.tv_nsec);
    double e = fabs(((double) ts.tv_sec - floor(y)) + (ts.tv_nsec / 1e9 - (y - floor(y))));
    PBT_CHECK(e < 2e-9, "set_timespec(%.9f) is %ld.%09ld", y, (long) ts.tv_sec, (long) ts.tv_nsec);
    // the clock
    kvtimestamp_t t1 = timestamp();
    struct timeval tv;
    gettimeofday(&tv, 0);
    kvtimestamp_t t2 = timestamp();
    kvtimestamp_t tm = (kvtimestamp_t) tv.tv_sec << 32 | (uint32_t) tv.tv_usec;
    if (t2 >= t1 && KVTS_HIGHPART(t2) - KVTS_HIGHPART(t1) < 100) {     // unless the clock was set
        PBT_CHECK(KVTS_LOWPART(t1) < 1000000 && t1 <= tm && tm <= t2, "timestamp() is %lu.%06lu at %ld.%06ld", KVTS_HIGHPART(t1), KVTS_LOWPART(t1), (long) tv.tv_sec, (long) tv.tv_usec);
        double n = now();
        PBT_CHECK(n + 1e-3 > (double) tv.tv_sec + tv.tv_usec / 1e6 && n < tv.tv_sec + 100, "now() is %f at %ld.%06ld", n, (long) tv.tv_sec, (long) tv.tv_usec);
    }
    s.nontrivial = true;
}
static void decimal(Src& s) {
    unsigned long x = s.coin() ? (unsigned long) s.below(2000) : (unsigned long) (s.bits64() >> s.below(64));
    if (s.chance(1, 4)) { x = 1; for (int n = (int) s.below(18); n > 0; --n) x *= 10; x -= s.below(2); }
    int minlen = (int) s.below(25);
    if (s.noting) s.note("%lu with at least %d digits\n", x, minlen);
    auto ref = [&](unsigned long v) { B r = std::to_string(v); if ((int) r.size() < minlen) r.insert(0, minlen - r.size(), '0'); return r; };
    quick_istr q(7);
    bool ctor = s.coin();
    quick_istr p(x, minlen);
    q.set(x, minlen);
    quick_istr& r = ctor ? p : q;
    B want = ref(x);
    PBT_CHECK(B(r.data(), r.length()) == want && B(r.c_str()) == want && B(r.string().s, r.string().len) == want, "%lu with at least %d digits is %s", x, minlen, r.c_str());
    PBT_CHECK(r == Str(want.data(), (int) want.size()) && !(r != Str(want.data(), (int) want.size())) && !(r == Str((want + "0").data(), (int) want.size() + 1)), "equality with %s", want.c_str());
    quick_istr z;
    PBT_CHECK(B(z.c_str()) == "0", "the default is %s", z.c_str());
    // counting in place
    int n = (int) s.below(150);
    B digits = ref(x), bin((size_t) 9, 0);
    digits.insert(0, 4, '0');
    Exact d(digits), b(bin);
    uint64_t v = s.bits64() >> s.below(64);
    memcpy(b.d + 1, &v, 8);
    std::reverse(b.d + 1, b.d + 9);
    for (int k = 0; k < n; ++k) { quick_istr::increment_from_end(d.d + d.n); quick_istr::binary_increment_from_end(b.d + 9); }
    wide dv = 0;
    for (char c : digits) dv = dv * 10 + (c - '0');
    dv += n;
    B w(digits.size(), '0');
    for (size_t k = w.size(); k > 0; dv /= 10) w[--k] = (char) ('0' + (int) (dv % 10));
    PBT_CHECK(B(d.d, d.n) == w, "%s plus %d is %s", digits.c_str(), n, B(d.d, d.n).c_str());
    wide bv = (wide) v + n, got = 0;
    for (int k = 0; k < 9; ++k) got = got << 8 | (unsigned char) b.d[k];
    PBT_CHECK(got == bv, "binary %llu plus %d", (unsigned long long) v, n);
    s.nontrivial = true;
}
static void u04(Src& s) {
    switch (s.below(9)) {
    case 8: decimal(s); break;
    case 0: circ<uint64_t>(s); break;
    case 1: circ<int64_t>(s); break;
    case 2: circ<uint32_t>(s); break;
    case 3: circ<int32_t>(s); break;
    case 4: circ<uint16_t>(s); break;
    case 5: circ<uint8_t>(s); break;
    case 6: circ<int16_t>(s); break;
    default: times(s);
    }
}

static B PROP;
static void one(Src& s) { if (PROP == "K01") k01(s); else if (PROP == "U03") u03(s); else u04(s); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    PROP = argv[1];
    return pbt::main_(argc - 1, argv + 1, one, PROP.c_str());
}
