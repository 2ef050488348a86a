// V02: timestamps of concurrent puts, replaces and removes through the real query layer
// (kvrow.hh) on the real tree, under the deterministic scheduler.
#include "treewalk.hh"
#include "vsched.hh"
#include "kvrow.hh"

struct Ev { int key, kind, th; kvtimestamp_t ts; };    // kind: 0 insert, 1 update, 2 remove
struct Cur { int key, op, th; query<struct TRow>* q; };
static std::vector<Ev>* evs;
static Cur cur[16];
kvepoch_t global_log_epoch;

// a row that reports what happens to it; every call below happens under the leaf's lock
struct TRow {
    typedef short index_type;
    typedef lcdf::Json Json;
    kvtimestamp_t ts; uint64_t pad;
    kvtimestamp_t timestamp() const { return ts; }
    int ncol() const { return 1; }
    Str col(int) const { return Str(); }
    static TRow* make(kvtimestamp_t ts, threadinfo& ti) { TRow* r = (TRow*) ti.allocate(sizeof(TRow), memtag_value); r->ts = ts; r->pad = ~ts; return r; }
    static void ev(int kind, kvtimestamp_t ts) {
        vs::Off o;
        Cur& c = cur[vs::self() + 1];
        evs->push_back(Ev{c.key, kind, c.th, ts});
    }
    TRow* update(const Json*, const Json*, kvtimestamp_t t, threadinfo& ti) const { ev(1, t); return make(t, ti); }
    static TRow* create(const Json*, const Json*, kvtimestamp_t t, threadinfo& ti) { ev(0, t); return make(t, ti); }
    static TRow* create1(Str, kvtimestamp_t t, threadinfo& ti) { ev(1, t); return make(t, ti); }
    void deallocate(threadinfo& ti) { ti.deallocate(this, sizeof(TRow), memtag_value); }
    void deallocate_rcu(threadinfo& ti) {
        { vs::Off o; Cur& c = cur[vs::self() + 1]; if (c.op == 2 && c.q) ev(2, c.q->query_times().ts); }
        ti.deallocate_rcu(this, sizeof(TRow), memtag_value);
    }
    void deallocate_rcu_after_update(const Json*, const Json*, threadinfo& ti) { ti.deallocate_rcu(this, sizeof(TRow), memtag_value); }
    void print(FILE*, const char*, int, Str, kvtimestamp_t, const char* = "") {}
};

template <int LW, int IW> struct rparams : public Masstree::nodeparams<LW, IW> {
    typedef TRow* value_type;
    typedef Masstree::value_print<TRow*> value_print_type;
    typedef ::threadinfo threadinfo_type;
};

template <typename P> struct RowTs {
    typedef Masstree::basic_table<P> table_t;
    pbt::Src& s;
    table_t t;
    std::vector<threadinfo*> tis;
    std::vector<std::string> keys;
    std::vector<Ev> ev;
    std::vector<kvtimestamp_t> last;        // before the concurrent part
    std::vector<bool> present;
    struct Op { int kind, key; };
    struct Thread { int id; std::vector<Op> ops; };
    RowTs(pbt::Src& src) : s(src) {}
    Str str(int k) { return Str(keys[k].data(), (int) keys[k].size()); }
    static const char* kname(int k) { static const char* n[] = {"put", "replace", "remove", "quiesce", "get"}; return n[k]; }
    void bad(const std::string& e) { if (!e.empty()) { notehist(); pbt::fail("%s", e.c_str()); } }
    void notehist() {
        static const char* n[] = {"inserted", "modified", "removed"};
        if (s.noting) for (auto& x : ev) s.note("  t%d %s %d @%lu\n", x.th, n[x.kind], x.key, (unsigned long) x.ts);
    }

    void exec(Thread& T, threadinfo& ti, query<TRow>& q, const Op& op, bool* ret = nullptr) {
        { vs::Off o; cur[vs::self() + 1] = Cur{op.key, op.kind, T.id, &q}; }
        switch (op.kind) {
        case 0: q.run_put(t, str(op.key), nullptr, nullptr, ti); break;
        case 1: q.run_replace(t, str(op.key), Str("v", 1), ti); break;
        case 2: { bool r = q.run_remove(t, str(op.key), ti); if (ret) *ret = r; break; }
        case 3: ti.rcu_quiesce(); break;
        case 4: { Str v; q.run_get1(t, str(op.key), 0, v, ti); break; }
        }
    }
    void gen_keys() {
        std::set<std::string> ks;
        int w = P::leaf_width;
        auto be = [](unsigned v) { std::string r(8, '\0'); r[6] = (char) (v >> 8); r[7] = (char) v; return r; };
        switch (s.below(4)) {
        case 0: { int n = w + (int) s.below(4 * w); for (int i = 0; i < n; ++i) ks.insert(be(10 + 2 * i)); break; }
        case 1: { int n = 1 + (int) s.below(w); for (int i = 0; i < n; ++i) ks.insert("PPPPPPPP" + be(2 * i)); if (s.coin()) ks.insert("Q"); if (s.coin()) ks.insert("A"); break; }
        case 2: { int n = 1 + (int) s.below(3); std::string base(8 * (1 + s.below(3)), 'T'); for (int i = 0; i < n; ++i) { std::string k = base; k.push_back((char) ('a' + s.below(4))); if (s.coin()) k += "0123456789"; ks.insert(k); } break; }
        default: { int n = w + (int) s.below(2 * w + 2); for (int i = 0; i < n; ++i) ks.insert("PPPPPPPP" + be(2 * i)); for (int i = 0; i < 3; ++i) ks.insert("PPPPPPPQ" + be(i)); break; }
        }
        keys.assign(ks.begin(), ks.end());
        s.note("keys:");
        for (size_t i = 0; i < keys.size(); ++i) s.note(" %zu=%s", i, pbt::hexs(keys[i]).c_str());
        s.note("\n");
    }
    // the rules, over the modifications of each key in the order of its leaf's lock
    void check(bool prefill) {
        std::vector<kvtimestamp_t> l(keys.size(), 0);
        std::vector<bool> here(keys.size(), false);
        if (!prefill) { l = last; here = present; }
        for (auto& e : ev) {
            PBT_CHECK(e.ts > l[e.key], "timestamps: %s of key %s at %lu after it was modified at %lu", e.kind == 2 ? "removal" : "modification", pbt::hexs(keys[e.key]).c_str(), (unsigned long) e.ts, (unsigned long) l[e.key]);
            PBT_CHECK(!(e.ts & 1), "timestamps: a modification of key %s carries a marker timestamp", pbt::hexs(keys[e.key]).c_str());
            l[e.key] = e.ts;
            if (e.kind == 2) PBT_CHECK(here[e.key], "timestamps: absent key %s removed", pbt::hexs(keys[e.key]).c_str());
            here[e.key] = e.kind != 2;
        }
        last = l;
        present = here;
    }
    void final_state() {
        std::vector<kvtimestamp_t> got(keys.size(), 0);
        std::string e = vs::run_alone([&]() {
            threadinfo& ti = *tis[0];
            ti.rcu_start();
            for (size_t k = 0; k < keys.size(); ++k) {
                TRow* r = nullptr;
                if (t.get(str((int) k), r, ti) && !row_is_marker(r)) got[k] = r->timestamp();
            }
            ti.rcu_stop();
        });
        bad(e);
        for (size_t k = 0; k < keys.size(); ++k)
            PBT_CHECK(got[k] == (present[k] ? last[k] : 0), "timestamps: key %s holds a row of %lu, its last modification was at %lu%s", pbt::hexs(keys[k]).c_str(), (unsigned long) got[k], (unsigned long) last[k], present[k] ? "" : " (removal)");
    }
    void ticker(int n, threadinfo* ti) {
        for (int i = 0; i < n; ++i) {
            globalepoch.store(globalepoch.load() + 2);
            active_epoch.store(threadinfo::min_active_epoch());
            ti->rcu_start(); ti->rcu_quiesce(); ti->rcu_stop();
        }
    }
    void run() {
        globalepoch.store(1);
        active_epoch.store(1);
        vs::reset();
        threadinfo::allthreads = nullptr;
        evs = &ev;
        gen_keys();
        int nth = 1 + s.weighted({2, 6, 3});
        std::string e = vs::run_alone([&]() {
            for (int i = 0; i <= nth; ++i) { threadinfo* ti = threadinfo::make(threadinfo::TI_PROCESS, i); vs::Off o; tis.push_back(ti); }
        });
        bad(e);
        // clocks
        s.note("clocks");
        for (int i = 0; i <= nth; ++i)
            if (s.coin()) {
                kvtimestamp_t c = s.chance(1, 4) ? s.below(1000000) : s.below(60);
                tis[i]->update_timestamp(c);
                s.note(" %d:%lu", i, (unsigned long) c);
            }
        s.note("\n");
        std::vector<int> order, rem;
        for (size_t i = 0; i < keys.size(); ++i) if (!s.chance(1, 5)) order.push_back((int) i);
        for (int k : order) if (s.chance(1, 3)) rem.push_back(k);
        bool marks = s.chance(1, 4);
        std::vector<bool> mark(keys.size(), false);
        if (marks) for (int k : order) mark[k] = s.chance(1, 4);
        bool ticks = s.coin();
        s.note("leaf %d; prefill", P::leaf_width);
        for (int k : order) s.note(" %d%s", k, mark[k] ? "(remove marker)" : "");
        s.note("; then remove");
        for (int k : rem) s.note(" %d", k);
        s.note("\n");
        Thread T0{nth, {}};
        query<TRow> q0;
        std::vector<kvtimestamp_t> mts(keys.size(), 0);
        for (size_t i = 0; i < keys.size(); ++i) if (mark[i]) mts[i] = 2 * s.below(500) + 1;
        bool badret = false;
        e = vs::run_alone([&]() {
            threadinfo& ti = *tis[nth];
            ti.rcu_start();
            t.initialize(ti);
            for (int k : order)
                if (mark[k]) {      // as log replay leaves them
                    Masstree::tcursor<P> c(t, str(k));
                    c.find_insert(ti);
                    ti.observe_phantoms(c.node());
                    c.value() = TRow::make(mts[k], ti);
                    c.finish(1, ti);
                } else exec(T0, ti, q0, Op{s.coin(), k});
            for (int k : rem) {
                bool r = false;
                exec(T0, ti, q0, Op{2, k}, &r);
                if (r == mark[k]) badret = true;
                if (ticks) { ticker(1, &ti); ti.rcu_start(); }
            }
            ti.rcu_stop();
        });
        bad(e);
        PBT_CHECK(!badret, "timestamps: removing a key with a remove marker succeeded, or removing a key failed");
        try {
            std::vector<Ev> sv(ev);
            check(true);
            for (size_t k = 0; k < keys.size(); ++k) last[k] = std::max(last[k], mts[k]);
        } catch (pbt::Failure&) { notehist(); throw; }
        size_t nev0 = ev.size();
        s.note("prefill:\n"); notehist();
        ev.clear();
        std::vector<Thread> th(nth);
        int hotn = 1 + (int) s.below(4), hot0 = (int) s.below(keys.size());
        auto pickkey = [&]() { return s.chance(3, 4) ? (int) ((hot0 + s.below(hotn)) % keys.size()) : (int) s.below(keys.size()); };
        int total = 0;
        for (int i = 0; i < nth; ++i) {
            th[i].id = i;
            int n = 1 + (int) s.below(nth == 1 ? 30 : 8);
            s.note("t%d:", i);
            for (int j = 0; j < n; ++j) {
                Op op{s.weighted({5, 3, 6, 1, 1}), pickkey()};
                th[i].ops.push_back(op);
                s.note(" %s %d", kname(op.kind), op.key);
                ++total;
            }
            s.note("\n");
        }
        int nticks = s.chance(2, 3) ? (int) s.below(5) : 0;
        std::vector<query<TRow>> qs(nth);
        for (int i = 0; i < nth; ++i) {
            Thread* T = &th[i]; query<TRow>* q = &qs[i];
            vs::spawn([this, T, q]() { threadinfo& ti = *tis[T->id]; ti.rcu_start(); for (auto& op : T->ops) exec(*T, ti, *q, op); ti.rcu_stop(); });
        }
        if (nticks) vs::spawn([this, nticks, nth]() { { vs::Off o; cur[vs::self() + 1] = Cur{0, 3, nth, nullptr}; } ticker(nticks, tis[nth]); });
        static const int lens[] = {6, 20, 60, 200, 700};
        int prof = lens[s.below(5)];
        vs::next_run = [&]() -> long { int w = s.weighted({2, 7, 1}); return w == 0 ? 4000 : w == 1 ? 1 + (long) s.below(prof) : 1 + (long) s.below(12); };
        vs::next_fiber = [&](int n) -> int { return (int) s.below(n); };
        vs::tolerate = [&](const vs::Block&) { return false; };
        e = vs::run();
        uint64_t sw = vs::switches;
        if (vs::discarded()) { s.discarded = true; return; }
        bad(e);
        try { check(false); final_state(); } catch (pbt::Failure&) { notehist(); throw; }
        s.tag("switches", sw);
        s.tag("modifications", ev.size());
        (void) nev0;
        s.nontrivial = ev.size() >= 3 && (nth == 1 || sw >= (uint64_t) nth + 2);
    }
};
template class query<TRow>;

static void case_fn(pbt::Src& s) {
    switch (s.weighted({6, 3, 1})) {
    case 0: { RowTs<rparams<3, 3>> c(s); c.run(); return; }
    case 1: { RowTs<rparams<4, 3>> c(s); c.run(); return; }
    default: { RowTs<rparams<15, 15>> c(s); c.run(); return; }
    }
}
int main(int argc, char** argv) {
    setenv("_", "valgrind", 1);
    return pbt::main_(argc - 1, argv + 1, case_fn, argv[1]);
}
