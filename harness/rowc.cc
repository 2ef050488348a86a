// V01, concurrent part: readers of the real row types through the real query layer while other
// threads put, replace and remove, under the deterministic scheduler and its shadow heap.
#include "treewalk.hh"
#include "vsched.hh"
#include "kvrow.hh"
#include "value_array.hh"
#include "value_versioned_array.hh"
#include "value_string.hh"
#include "value_bag.hh"

kvepoch_t global_log_epoch;
template <typename R> struct PC : public Masstree::nodeparams<15, 15> {
    typedef R* value_type;
    typedef Masstree::value_print<R*> value_print_type;
    typedef ::threadinfo threadinfo_type;
};
template <typename R> struct is_string { static constexpr bool value = false; };
template <> struct is_string<value_string> { static constexpr bool value = true; };
typedef std::vector<std::string> Cols;

template <typename R> struct RowC {
    typedef Masstree::basic_table<PC<R>> table_t;
    static constexpr bool S = is_string<R>::value;
    pbt::Src& s;
    table_t t;
    std::vector<threadinfo*> tis;
    std::vector<std::string> keys;
    int ncol;
    struct Op { int kind, key, id; std::vector<std::pair<unsigned, std::string>> ch; std::vector<unsigned> cols; };
    struct Thread { int id; std::vector<Op> ops; };
    struct Mod { int key, kind; std::vector<std::pair<unsigned, std::string>> ch; kvtimestamp_t ts; uint64_t inv, res; };
    struct Read { int th, key; bool found, all; std::vector<unsigned> cols; Cols got; uint64_t inv, res; };
    std::vector<Mod> mods;
    std::vector<Read> reads;
    uint64_t clock = 0;
    std::string err;
    RowC(pbt::Src& src) : s(src) {}
    Str str(int k) { return Str(keys[k].data(), (int) keys[k].size()); }
    void bad(const std::string& e) { if (!e.empty()) { notehist(); pbt::fail("%s", e.c_str()); } }
    static std::string show(const Cols& c) { std::string r = "["; for (size_t i = 0; i < c.size(); ++i) { if (i) r += " "; r += pbt::hexs(c[i]); } return r + "]"; }
    void notehist() {
        if (!s.noting) return;
        for (auto& m : mods) { s.note("  %lu-%lu key %d @%lu %s", (unsigned long) m.inv, (unsigned long) m.res, m.key, (unsigned long) m.ts, m.kind == 0 ? "put" : m.kind == 1 ? "replace" : "remove"); for (auto& x : m.ch) s.note(" %u=%s", x.first, pbt::hexs(x.second).c_str()); s.note("\n"); }
        for (auto& r : reads) s.note("  %lu-%lu key %d t%d read %s\n", (unsigned long) r.inv, (unsigned long) r.res, r.key, r.th, r.found ? show(r.got).c_str() : "absent");
    }
    std::string value(int id, int len) { return std::string(len, (char) ('A' + id % 58)); }
    Op gen_op(int id) {
        Op op{s.weighted({6, 1, 1, 6, 3, 1}), (int) s.below(keys.size()), id, {}, {}};
        static const int lens[] = {3, 3, 3, 0, 1, 8, 17, 40};
        if (op.kind == 0) {
            if (S) {
                int n = 1 + (int) s.below(2);
                for (int i = 0; i < n; ++i) { unsigned off = i * 4 + (unsigned) s.below(3); op.ch.push_back({off ? value_string::make_index(off, 3) : 0, value(id, lens[s.below(5)])}); }
            } else {
                std::map<unsigned, std::string> m;
                int n = 1 + (int) s.below(ncol), same = s.coin();
                int l0 = lens[s.below(8)];
                for (int i = 0; i < n; ++i) m[s.chance(2, 3) ? i : (unsigned) s.below(ncol + 1)] = value(id, same ? l0 : lens[s.below(8)]);
                for (auto& x : m) op.ch.push_back(x);
            }
        } else if (op.kind == 1) op.ch.push_back({0, value(id, lens[s.below(8)])});
        else if (op.kind == 3) {
            if (s.chance(2, 3)) { int n = 1 + (int) s.below(3); for (int i = 0; i < n; ++i) op.cols.push_back(S ? (s.coin() ? 0 : value_string::make_index((unsigned) s.below(6), 4)) : (unsigned) s.below(ncol + 1)); }
        } else if (op.kind == 4) op.cols.push_back(S ? 0 : (unsigned) s.below(ncol));
        return op;
    }
    static const char* kname(int k) { static const char* n[] = {"put", "replace", "remove", "get", "get1", "quiesce"}; return n[k]; }
    void note_op(const Op& op) {
        if (!s.noting) return;
        s.note(" %s %d", kname(op.kind), op.key);
        for (auto& x : op.ch) s.note(" %u=%s", x.first, pbt::hexs(x.second).c_str());
        for (auto& x : op.cols) s.note(" %u", x);
        s.note(";");
    }
    // what a thread holds of its reads until its next quiescent point
    struct Hold { std::vector<Str> v; Cols want; };
    void recheck(std::vector<Hold>& hs) {
        for (auto& h : hs)
            for (size_t i = 0; i < h.v.size(); ++i) {
                bool ok = (size_t) h.v[i].len == h.want[i].size();
                for (int j = 0; ok && j < h.v[i].len; ++j) { const volatile char* p = h.v[i].s + j; ok = *p == h.want[i][j]; }
                if (!ok) { vs::Off o; if (err.empty()) err = "a value read earlier changed while its reader held it"; }
            }
    }
    void exec(Thread& T, threadinfo& ti, query<R>& q, const Op& op, std::vector<Hold>& hs) {
        uint64_t inv;
        { vs::Off o; inv = ++clock; }
        switch (op.kind) {
        case 0: {
            lcdf::Json req[32];
            int n = 0;
            for (auto& x : op.ch) { req[n++] = lcdf::Json(x.first); req[n++] = lcdf::String::make_stable(x.second.data(), (int) x.second.size()); }
            q.run_put(t, str(op.key), req, req + n, ti);
            vs::Off o; mods.push_back(Mod{op.key, 0, op.ch, q.query_times().ts, inv, ++clock});
            break;
        }
        case 1: {
            q.run_replace(t, str(op.key), Str(op.ch[0].second.data(), (int) op.ch[0].second.size()), ti);
            vs::Off o; mods.push_back(Mod{op.key, 1, op.ch, q.query_times().ts, inv, ++clock});
            break;
        }
        case 2: {
            bool r = q.run_remove(t, str(op.key), ti);
            vs::Off o; if (r) mods.push_back(Mod{op.key, 2, {}, q.query_times().ts, inv, ++clock});
            break;
        }
        case 3: {
            lcdf::Json req = lcdf::Json::array(1, 2, lcdf::String::make_stable(keys[op.key].data(), (int) keys[op.key].size()));
            for (auto c : op.cols) req.push_back(c);
            q.run_get(t, req, ti);
            bool found = req.size() > 2;
            Read rd{T.id, op.key, found, op.cols.empty(), op.cols, {}, inv, 0};
            Hold h;
            if (found) for (int i = 2; i < req.size(); ++i) {
                Str v; if (req[i].is_s()) v = Str(req[i].as_s().data(), req[i].as_s().length());
                std::string c;
                for (int j = 0; j < v.len; ++j) { const volatile char* p = v.s + j; char ch = *p; vs::Off o; c.push_back(ch); }
                vs::Off o; h.v.push_back(v); h.want.push_back(c); rd.got.push_back(c);
            }
            vs::Off o; rd.res = ++clock; reads.push_back(rd); hs.push_back(h);
            break;
        }
        case 4: {
            Str v;
            bool found = q.run_get1(t, str(op.key), (int) op.cols[0], v, ti);
            Read rd{T.id, op.key, found, false, op.cols, {}, inv, 0};
            Hold h;
            if (found) {
                std::string c;
                for (int j = 0; j < v.len; ++j) { const volatile char* p = v.s + j; char ch = *p; vs::Off o; c.push_back(ch); }
                vs::Off o; h.v.push_back(v); h.want.push_back(c); rd.got.push_back(c);
            }
            vs::Off o; rd.res = ++clock; reads.push_back(rd); hs.push_back(h);
            break;
        }
        case 5: recheck(hs); { vs::Off o; hs.clear(); } ti.rcu_quiesce(); break;
        }
    }
    void apply(bool& here, Cols& c, const Mod& m) {
        if (m.kind == 2) { here = false; c.clear(); return; }
        if (m.kind == 1) { here = true; c.assign(1, m.ch[0].second); return; }
        if (!here) { c.clear(); here = true; if (S) c.push_back(""); }
        if (S) {
            std::string& v = c[0];
            for (auto& x : m.ch) if (x.first == 0 && v.size() > x.second.size()) v.resize(x.second.size());
            for (auto& x : m.ch) { unsigned off = value_string::index_offset(x.first); if (v.size() < off + x.second.size()) v.resize(off + x.second.size(), '\0'); memcpy(&v[0] + off, x.second.data(), x.second.size()); }
        } else for (auto& x : m.ch) { if (x.first >= c.size()) c.resize(x.first + 1); c[x.first] = x.second; }
    }
    std::string col(const Cols& c, unsigned idx) {
        if (S) { if (!idx) return c[0]; unsigned off = value_string::index_offset(idx); return off >= c[0].size() ? "" : c[0].substr(off, value_string::index_length(idx)); }
        return idx < c.size() ? c[idx] : std::string();
    }
    void check() {
        for (size_t k = 0; k < keys.size(); ++k) {
            std::vector<Mod> ms;
            for (auto& m : mods) if (m.key == (int) k) ms.push_back(m);
            std::sort(ms.begin(), ms.end(), [](const Mod& a, const Mod& b) { return a.ts < b.ts; });
            for (size_t i = 1; i < ms.size(); ++i) PBT_CHECK(ms[i - 1].ts < ms[i].ts, "two modifications of key %zu have timestamp %lu", k, (unsigned long) ms[i].ts);
            std::vector<std::pair<bool, Cols>> st(1);
            for (auto& m : ms) { st.push_back(st.back()); apply(st.back().first, st.back().second, m); }
            for (auto& r : reads) if (r.key == (int) k) {
                bool ok = false;
                for (size_t i = 0; i < st.size() && !ok; ++i) {
                    if (i > 0 && ms[i - 1].inv > r.res) continue;
                    if (i < ms.size() && ms[i].res < r.inv) continue;
                    if (st[i].first != r.found) continue;
                    if (!r.found) { ok = true; continue; }
                    Cols want;
                    if (r.all) want = st[i].second; else for (auto c : r.cols) want.push_back(col(st[i].second, c));
                    ok = want == r.got;
                }
                PBT_CHECK(ok, "read %lu-%lu of key %zu returned %s, which the row never was in that time", (unsigned long) r.inv, (unsigned long) r.res, k, r.found ? show(r.got).c_str() : "absent");
            }
        }
    }
    void ticker(int n, threadinfo* ti) {
        for (int i = 0; i < n; ++i) {
            globalepoch.store(globalepoch.load() + 2);
            active_epoch.store(threadinfo::min_active_epoch());
            ti->rcu_start(); ti->rcu_quiesce(); ti->rcu_stop();
        }
    }
    void run() {
        globalepoch.store(1);
        active_epoch.store(1);
        vs::reset();
        threadinfo::allthreads = nullptr;
        int nk = 1 + s.weighted({6, 2, 1});
        for (int i = 0; i < nk; ++i) keys.push_back(std::string("k") + (char) ('0' + i));
        ncol = 1 + (int) s.below(5);
        int nth = 2 + s.weighted({5, 2});
        std::string e = vs::run_alone([&]() {
            for (int i = 0; i <= nth; ++i) { threadinfo* ti = threadinfo::make(threadinfo::TI_PROCESS, i); vs::Off o; tis.push_back(ti); }
        });
        bad(e);
        s.note("%s rows, %d columns, %d keys\nprefill:", R::name(), ncol, nk);
        Thread T0{nth, {}};
        int id = 0;
        for (int k = 0; k < nk; ++k) if (s.chance(5, 6)) { Op op = gen_op(id++); if (op.kind < 2) { op.key = k; T0.ops.push_back(op); note_op(op); } }
        s.note("\n");
        query<R>* q0 = new query<R>;
        std::vector<Hold> h0;
        e = vs::run_alone([&]() {
            threadinfo& ti = *tis[nth];
            ti.rcu_start();
            t.initialize(ti);
            for (auto& op : T0.ops) exec(T0, ti, *q0, op, h0);
            ti.rcu_stop();
        });
        bad(e);
        std::vector<Thread> th(nth);
        int nw = 0, nr = 0;
        for (int i = 0; i < nth; ++i) {
            th[i].id = i;
            int n = 1 + (int) s.below(6);
            s.note("t%d:", i);
            for (int j = 0; j < n; ++j) { Op op = gen_op(id++); th[i].ops.push_back(op); note_op(op); if (op.kind < 3) ++nw; else if (op.kind < 5) ++nr; }
            s.note("\n");
        }
        int nticks = s.chance(2, 3) ? (int) s.below(6) : 0;
        std::vector<query<R>*> qs;
        std::vector<std::vector<Hold>> hs(nth);
        for (int i = 0; i < nth; ++i) qs.push_back(new query<R>);
        for (int i = 0; i < nth; ++i) {
            Thread* T = &th[i]; query<R>* q = qs[i]; auto* h = &hs[i];
            vs::spawn([this, T, q, h]() { threadinfo& ti = *tis[T->id]; ti.rcu_start(); for (auto& op : T->ops) { exec(*T, ti, *q, op, *h); recheck(*h); } recheck(*h); ti.rcu_stop(); });
        }
        if (nticks) vs::spawn([this, nticks, nth]() { ticker(nticks, tis[nth]); });
        static const int lens[] = {6, 20, 60, 200, 700};
        int prof = lens[s.below(5)];
        vs::next_run = [&]() -> long { int w = s.weighted({2, 7, 1}); return w == 0 ? 4000 : w == 1 ? 1 + (long) s.below(prof) : 1 + (long) s.below(12); };
        vs::next_fiber = [&](int n) -> int { return (int) s.below(n); };
        vs::tolerate = [&](const vs::Block&) { return false; };
        e = vs::run();
        uint64_t sw = vs::switches;
        for (auto q : qs) delete q;
        delete q0;
        if (vs::discarded()) { s.discarded = true; return; }
        bad(e);
        bad(err);
        try { check(); } catch (pbt::Failure&) { notehist(); throw; }
        s.tag("switches", sw);
        s.tag(R::name(), 1);
        s.nontrivial = nw >= 1 && nr >= 1 && sw >= (uint64_t) nth + 2;
    }
};
template class query<row_type>;

static void case_fn(pbt::Src& s) {
    switch (s.weighted({4, 3, 5, 2})) {
    case 0: { RowC<row_type> c(s); c.run(); return; }
    case 1: { RowC<value_array> c(s); c.run(); return; }
    case 2: { RowC<value_versioned_array> c(s); c.run(); return; }
    default: { RowC<value_string> c(s); c.run(); return; }
    }
}
int main(int argc, char** argv) {
    setenv("_", "valgrind", 1);
    return pbt::main_(argc - 1, argv + 1, case_fn, argv[1]);
}
