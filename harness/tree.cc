// T01, T02, T03: sequential histories on the tree against std::map.
// argv[1] selects the property (T01|T02|T03).
#include "treewalk.hh"
static int PROP = 1;

template <typename P> struct Ex {
    typedef Masstree::basic_table<P> table_t;
    typedef Masstree::tcursor<P> cursor_t;
    typedef Masstree::unlocked_tcursor<P> ucursor_t;
    table_t t;
    threadinfo& ti;
    Model m;
    pbt::Src& s;
    std::vector<std::string> pool;
    uint64_t nextval = 1000;
    int removals = 0, reins = 0, aborts = 0, newaborts = 0, scans = 0;
    bool may_abort = true;
    std::set<std::string> removed;
    size_t maxsize = 0;
    bool layered = false;

    // Narrow leaves support only as many keys per 8-byte slice (and layer) as fit
    // in a leaf: a slice has up to 10 entries (lengths 0-8 and "longer").
    std::map<std::pair<size_t, std::string>, std::set<int>> slices;
    bool admit(const std::string& k) {
        if (P::leaf_width > 10) return true;
        for (int pass = 0; pass < 2; ++pass)
            for (size_t off = 0; off <= k.size() && (off == 0 || off < k.size()); off += 8) {
                std::string id = k.substr(0, off);
                std::string sl = k.substr(off, 8);
                int cls = k.size() - off > 8 ? 9 : (int) (k.size() - off);
                sl.resize(8, 0);
                auto& st = slices[{off, id + sl}];
                if (pass == 1) st.insert(cls);
                else if (!st.count(cls) && (int) st.size() + 1 >= P::leaf_width) return false;
            }
        return true;
    }

    Ex(pbt::Src& src, threadinfo& ti_) : ti(ti_), s(src) { ti.rcu_start(); t.initialize(ti); }

    void get(const std::string& k, int how) {
        auto it = m.find(k);
        uint64_t v = 0;
        bool f;
        if (how == 0)
            f = t.get(Str(k.data(), (int) k.size()), v, ti);
        else if (how == 1) {
            ucursor_t c(t, Str(k.data(), (int) k.size()));
            f = c.find_unlocked(ti);
            if (f) v = c.value();
        } else {
            cursor_t c(t, Str(k.data(), (int) k.size()));
            f = c.find_locked(ti);
            if (f) v = c.value();
            c.finish(0, ti);
        }
        PBT_CHECK(f == (it != m.end()), "get(%s) %s, model says %s", pbt::hexs(k).c_str(), f ? "found" : "not found", it != m.end() ? "present" : "absent");
        PBT_CHECK(!f || v == it->second, "get(%s) = %lu, expected %lu", pbt::hexs(k).c_str(), v, it->second);
    }
    void put(const std::string& k, bool commit, int fin0) {
        auto it = m.find(k);
        cursor_t c(t, Str(k.data(), (int) k.size()));
        bool f = c.find_insert(ti);
        PBT_CHECK(f == (it != m.end()), "insert(%s) reports %s, model says %s", pbt::hexs(k).c_str(), f ? "existing" : "new", it != m.end() ? "present" : "absent");
        PBT_CHECK(!f || c.value() == it->second, "insert(%s) sees value %lu, expected %lu", pbt::hexs(k).c_str(), f ? (uint64_t) c.value() : 0, it->second);
        if (commit) {
            c.value() = ++nextval;
            c.finish(1, ti);
            m[k] = nextval;
            if (removed.count(k)) ++reins;
        } else {
            if (!f && s.coin()) c.value() = 777;    // a value set but not committed must not show
            c.finish(f ? 0 : fin0, ti);
            ++aborts;
            newaborts += !f;
        }
        maxsize = std::max(maxsize, m.size());
    }
    void remove(const std::string& k) {
        auto it = m.find(k);
        cursor_t c(t, Str(k.data(), (int) k.size()));
        bool f = c.find_locked(ti);
        PBT_CHECK(f == (it != m.end()), "remove(%s) reports %s, model says %s", pbt::hexs(k).c_str(), f ? "found" : "not found", it != m.end() ? "present" : "absent");
        PBT_CHECK(!f || c.value() == it->second, "remove(%s) sees value %lu, expected %lu", pbt::hexs(k).c_str(), f ? (uint64_t) c.value() : 0, it->second);
        c.finish(-1, ti);
        if (f) { m.erase(it); removed.insert(k); ++removals; }
    }
    struct Scanner {
        std::vector<std::pair<std::string, uint64_t>> out;
        size_t limit;
        int visits = 0;
        bool stopped = false;
        template <typename SS, typename K> void visit_leaf(const SS&, const K&, threadinfo&) {}
        bool visit_value(Str key, uint64_t v, threadinfo&) {
            PBT_CHECK(!stopped, "scan continued after the visitor asked to stop");
            ++visits;
            out.emplace_back(std::string(key.s, key.len), v);
            PBT_CHECK(out.size() < 100000, "scan does not end");
            if (out.size() >= limit) { stopped = true; return false; }
            return true;
        }
    };
    void scan(const std::string& k, bool emit, bool rev, size_t limit) {
        ++scans;
        Scanner sc;
        sc.limit = limit;
        int n = rev ? t.rscan(Str(k.data(), (int) k.size()), emit, sc, ti) : t.scan(Str(k.data(), (int) k.size()), emit, sc, ti);
        std::vector<std::pair<std::string, uint64_t>> exp;
        if (!rev) {
            for (auto it = emit ? m.lower_bound(k) : m.upper_bound(k); it != m.end() && exp.size() < limit; ++it) exp.push_back(*it);
        } else {
            auto it = emit ? m.upper_bound(k) : m.lower_bound(k);
            while (it != m.begin() && exp.size() < limit) { --it; exp.push_back(*it); }
        }
        if (exp.size() > 1) s.tag(rev ? "rscan_multi" : "scan_multi");
        PBT_CHECK(n == (int) sc.visits, "scan returned %d for %d visits", n, sc.visits);
        for (size_t i = 0; i < exp.size() || i < sc.out.size(); ++i) {
            if (i >= sc.out.size())
                pbt::fail("%s from %s (%s) stopped after %zu keys, missing %s", rev ? "rscan" : "scan", pbt::hexs(k).c_str(), emit ? "incl" : "excl", i, pbt::hexs(exp[i].first).c_str());
            if (i >= exp.size())
                pbt::fail("%s from %s (%s) emits extra key %s at %zu", rev ? "rscan" : "scan", pbt::hexs(k).c_str(), emit ? "incl" : "excl", pbt::hexs(sc.out[i].first).c_str(), i);
            PBT_CHECK(sc.out[i].first == exp[i].first, "%s from %s (%s): key %zu is %s, expected %s", rev ? "rscan" : "scan", pbt::hexs(k).c_str(), emit ? "incl" : "excl", i,
                      pbt::hexs(sc.out[i].first).c_str(), pbt::hexs(exp[i].first).c_str());
            PBT_CHECK(sc.out[i].second == exp[i].second, "%s: value of %s is %lu, expected %lu", rev ? "rscan" : "scan", pbt::hexs(exp[i].first).c_str(), sc.out[i].second, exp[i].second);
        }
    }
    std::string scan_start() {
        std::string k;
        int how = s.weighted({5, 3, 1, 1});
        if (how == 0) k = s.pick(pool);
        else if (how == 1) k = gen_key(s, pool, 1);
        else if (how == 2) k = s.coin() ? std::string() : std::string(s.below(256), '\xff');
        else k = gen_key(s, pool, (int) s.below(7));
        return k;
    }
    void verify_all() {
        for (auto& k : pool) get(k, (int) s.below(2));
    }
    void stats_check(const WalkStats& st) {
        lcdf::Json j = Masstree::json_stats(t, ti);
        PBT_CHECK(j.get("size").to_i() == (long) m.size(), "stats: size %ld, %zu keys stored", (long) j.get("size").to_i(), m.size());
        PBT_CHECK(j.get("l1_count").to_i() == st.layers - 1, "stats: %ld layers, expected %ld", (long) j.get("l1_count").to_i(), st.layers - 1);
        const lcdf::Json& kl = j.get("key_by_length");
        std::map<size_t, long> got;
        for (int i = 0; kl.is_a() && i < (int) kl.size(); ++i) if (kl.get(i).to_i()) got[i] = kl.get(i).to_i();
        PBT_CHECK(got == st.bylen, "stats: key_by_length wrong: %s", j.get("key_by_length").unparse().c_str());
        const lcdf::Json& ky = j.get("key_by_layer");
        std::map<int, long> gy;
        for (int i = 0; ky.is_a() && i < (int) ky.size(); ++i) if (ky.get(i).to_i()) gy[i] = ky.get(i).to_i();
        PBT_CHECK(gy == st.bylayer, "stats: key_by_layer wrong: %s", ky.unparse().c_str());
        for (int l = 0; l < 2; ++l) {
            const lcdf::Json& ls = j.get(l ? "l1_leaf_by_size" : "leaf_by_size");
            std::map<int, long> gl;
            for (int i = 0; ls.is_a() && i < (int) ls.size(); ++i) if (ls.get(i).to_i()) gl[i] = ls.get(i).to_i();
            PBT_CHECK(gl == st.leafsize[l], "stats: %sleaf_by_size wrong: %s", l ? "l1_" : "", ls.unparse().c_str());
        }
    }
    void walk(bool drain) {
        if (drain) { drain_rcu(ti); ti.rcu_start(); }
        // let the tree settle its lazily corrected root
        ucursor_t c(t, Str(""));
        WalkStats st = walk_check(t, m, drain, newaborts > 0);
        stats_check(st);
        if (st.layers > 1) layered = true;
        s.tag(drain ? "walk_drained" : "walk");
        if (st.internodes) s.tag("internodes");
        if (st.maxheight >= 3) s.tag("height>=3");
        if (st.emptyleaves) s.tag("emptyleaf");
    }
    void one(const std::string& k) {
        int op = PROP == 1 ? s.weighted({30, 10, 22, 5, 20, 2}) : s.weighted({12, 2, 14, 3, 2, 2});
        switch (op) {
        case 0: s.note("put %s\n", pbt::hexs(k).c_str()); put(k, true, 0); break;
        case 1: { if (!may_abort) break; int f = s.coin() ? 0 : -1; s.note("abort-put(%d) %s\n", f, pbt::hexs(k).c_str()); put(k, false, f); break; }
        case 2: s.note("remove %s\n", pbt::hexs(k).c_str()); remove(k); break;
        case 3: s.note("find_locked %s\n", pbt::hexs(k).c_str()); get(k, 2); break;
        case 4: s.note("get %s\n", pbt::hexs(k).c_str()); get(k, (int) s.below(2)); break;
        case 5: { int n = 1 + (int) s.below(3); s.note("quiesce x%d\n", n); for (int i = 0; i < n; ++i) { advance_epoch(); ti.rcu_quiesce(); } break; }
        }
    }
    void bulk() {
        int kind = (int) s.below(6);
        std::vector<std::string> p(pool);
        int order = (int) s.below(4);
        if (order <= 1) std::sort(p.begin(), p.end());
        if (order == 1) std::reverse(p.begin(), p.end());
        size_t a = s.below(p.size()), b = s.below(p.size());
        if (a > b) std::swap(a, b);
        if (s.chance(1, 3)) { a = 0; b = p.size() - 1; }
        s.note("bulk kind %d order %d [%zu,%zu]\n", kind, order, a, b);
        for (size_t i = a; i <= b; ++i) {
            if (kind <= 2) put(p[i], true, 0);
            else if (kind == 3) remove(p[i]);
            else if (kind == 4) { if (i % 2) remove(p[i]); }
            else one(p[i]);
        }
    }
    void run() {
        pool = gen_pool(s, PROP == 1 ? 300 : 200);
        {
            std::vector<std::string> q;
            for (auto& k : pool) if (admit(k)) q.push_back(k);
            if (q.empty()) q.push_back("k");
            pool.swap(q);
        }
        s.note("pool of %zu keys:", pool.size());
        for (auto& k : pool) s.note(" %s", pbt::hexs(k, 40).c_str());
        s.note("\n");
        may_abort = s.coin();
        int steps = 0;
        int avg = s.coin() ? 12 : 60;
        while (s.more(avg) && steps < 400) {
            ++steps;
            if (s.chance(1, 12)) bulk();
            else {
                std::string k = s.pick(pool);
                if (s.chance(1, 10)) { std::string k2 = gen_key(s, pool, 1); if (admit(k2)) k = k2; }
                one(k);
            }
            if (PROP == 2 && s.chance(1, 2)) {
                std::string k = scan_start();
                bool emit = s.coin(), rev = s.coin();
                size_t lim = s.chance(2, 3) ? (size_t) -1 : 1 + s.below(8);
                s.note("%s %s emit=%d limit=%zd\n", rev ? "rscan" : "scan", pbt::hexs(k).c_str(), emit, (ssize_t) lim);
                scan(k, emit, rev, lim);
            }
            if (PROP == 3 && s.chance(1, 10)) walk(false);
            if (PROP == 1 && s.chance(1, 20)) verify_all();
        }
        if (PROP == 1) verify_all();
        if (PROP == 2) {
            for (int i = 0; i < 2; ++i) {
                scan("", true, false, -1);
                scan(std::string(255, '\xff'), true, true, -1);
            }
            for (int i = 0; i < 12; ++i) { std::string k = scan_start(); bool e = s.coin(), r = s.coin(); s.note("%s %s emit=%d\n", r ? "rscan" : "scan", pbt::hexs(k).c_str(), e); scan(k, e, r, -1); }
        }
        if (PROP == 3) { walk(false); walk(true); }
        // empty the tree in a random direction, then check again
        if (s.chance(1, 3)) {
            std::vector<std::string> p;
            for (auto& kv : m) p.push_back(kv.first);
            int dir = (int) s.below(3);
            s.note("empty dir=%d\n", dir);
            if (dir == 1) std::reverse(p.begin(), p.end());
            if (dir == 2) for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[s.below(i)]);
            for (auto& k : p) remove(k);
            verify_all();
            if (PROP == 3) { walk(false); walk(true); }
            if (PROP == 2) { scan("", true, false, -1); scan(std::string(255, '\xff'), true, true, -1); }
            size_t half = pool.size() / 2;
            for (size_t i = 0; i < half; ++i) put(pool[i], true, 0);
            verify_all();
            if (PROP == 3) walk(true);
            s.tag("emptied");
        }
        if (removals) s.tag("removals");
        if (reins) s.tag("reinsert");
        if (aborts) s.tag("aborts");
        if (maxsize > (size_t) P::leaf_width) s.tag("split");
        s.nontrivial = maxsize >= 3 && (removals > 0 || maxsize > (size_t) P::leaf_width) && (PROP != 2 || scans > 2);
        t.destroy(ti);
        drain_rcu(ti);
    }
};

template <typename P> static void go(pbt::Src& s, const char* nm) {
    s.note("config %s\n", nm);
    Ex<P> e(s, *the_ti());
    e.run();
}
static void case_fn(pbt::Src& s) {
    switch (s.weighted({6, 5, 3, 2, 2, 2, 2, 1})) {
    case 0: return go<tparams<3, 3, true, bound_method_binary, true, true>>(s, "leaf 3 inner 3");
    case 1: return go<tparams<15, 15, true, bound_method_binary, true, true>>(s, "leaf 15 inner 15");
    case 2: return go<tparams<4, 5, true, bound_method_linear, true, false>>(s, "leaf 4 inner 5 linear");
    case 3: return go<tparams<5, 3, false, bound_method_binary, false, true>>(s, "leaf 5 inner 3 single-threaded");
    case 4: return go<tparams<7, 4, true, bound_method_fast, false, true>>(s, "leaf 7 inner 4 fast, no phantom epoch");
    case 5: return go<tparams<8, 15, false, bound_method_linear, true, true>>(s, "leaf 8 inner 15 single-threaded linear");
    case 6: return go<tparams<3, 4, false, bound_method_fast, true, false>>(s, "leaf 3 inner 4 single-threaded fast");
    default: return go<tparams<11, 6, true, bound_method_binary, true, false>>(s, "leaf 11 inner 6");
    }
}
int main(int argc, char** argv) {
    if (argc > 1) PROP = argv[1][2] - '0';
    pbt::Options o;
    o.worker_init = []() { the_ti() = threadinfo::make(threadinfo::TI_MAIN, -1); };
    return pbt::main_(argc - 1, argv + 1, case_fn, PROP == 1 ? "T01" : PROP == 2 ? "T02" : "T03", o);
}
