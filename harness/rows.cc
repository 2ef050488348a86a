// V01/V02/L03 on the row types: the query layer of kvrow.hh on a real tree, each row type
// against a model of its columns.
#include "pbt.hh"
#include "compiler.hh"
#include "kvthread.hh"
#include "timestamp.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_tcursor.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include "kvrow.hh"
#include "value_array.hh"
#include "value_versioned_array.hh"
#include "value_string.hh"
#include "value_bag.hh"
#include "msgpack.hh"
#include <map>
using namespace lcdf;
// row memory comes from malloc (as do nodes, in cache lines, which pools keep): every block must go back
static std::map<void*, size_t>* live;
static bool nolive;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    if (live && !nolive && n % CACHE_LINE_SIZE != 0 && n != sizeof(limbo_group)) { nolive = true; (*live)[p] = n; nolive = false; }
    return p;
}
void __wrap_free(void* p) {
    if (live && !nolive) { nolive = true; live->erase(p); nolive = false; }
    __real_free(p);
}
}

kvepoch_t global_log_epoch;
static const char* PROP;
static threadinfo* ti;

template <typename R> struct P15 : public Masstree::nodeparams<15, 15> {
    typedef R* value_type;
    typedef Masstree::value_print<R*> value_print_type;
    typedef ::threadinfo threadinfo_type;
};
typedef std::vector<std::string> Cols;
template <typename R> struct is_string { static constexpr bool value = false; };
template <> struct is_string<value_string> { static constexpr bool value = true; };

template <typename R> void free_snapshot(query<R>&) {}
template <> void free_snapshot(query<value_versioned_array>& q) {      // query_helper has no destructor
    if (auto* r = q.helper_.snapshot_) ti->deallocate(r, value_versioned_array::shallow_size(r->ncol_cap_), memtag_value);
}

template <typename R> struct Rows {
    typedef Masstree::basic_table<P15<R>> table_t;
    static constexpr bool S = is_string<R>::value;
    typedef std::vector<std::pair<unsigned, std::string>> Change;
    pbt::Src& s;
    table_t t;
    query<R> q;
    struct M { bool here = false; Cols c; kvtimestamp_t ts = 0; };
    std::vector<std::string> keys;
    std::vector<M> m;
    struct Want { int idx; std::string want; bool missing; };
    struct Held { Json j; std::vector<Want> want; std::string what; };
    struct HeldStr { Str v; std::string want; std::string what; };
    std::vector<Held> held;
    std::vector<HeldStr> heldstr;
    int maxcol;
    bool big, wide;
    unsigned nmut = 0;

    Rows(pbt::Src& src) : s(src) {}
    // key comparison may read up to 7 bytes before and after a key (string_slice.hh equals_sloppy)
    static Str str(const std::string& k) {
        static char pool[64][512];
        static unsigned next;
        char* b = pool[next++ % 64] + 64;
        memcpy(b, k.data(), k.size());
        return Str(b, (int) k.size());
    }
    static std::string brief(const std::string& x) {
        if (x.size() <= 24) return pbt::hexs(x);
        char b[64]; snprintf(b, sizeof b, "...(%zu bytes, hash %lx)", x.size(), (unsigned long) (std::hash<std::string>()(x) & 0xFFFFFF));
        return pbt::hexs(x.substr(0, 8)) + b;
    }
    static std::string show(const Cols& c) { std::string r = "["; for (size_t i = 0; i < c.size() && i < 40; ++i) { if (i) r += " "; r += brief(c[i]); } if (c.size() > 40) r += " ..."; return r + "]"; }

    std::string value() {
        int w = s.weighted({4, 4, 3, 2, big ? 3 : 0});
        size_t n = w == 0 ? s.below(4) : w == 1 ? 4 + s.below(14) : w == 2 ? s.below(80) : w == 3 ? 100 + s.below(600) : (size_t) (10000 + s.below(60000));
        std::string r(n, '\0');
        uint64_t st = s.below(65536) * 0x9E3779B97F4A7C15ull + 1;
        for (size_t i = 0; i < n; ++i) { st = st * 6364136223846793005ull + 1442695040888963407ull; r[i] = (char) (st >> 40); }
        return r;
    }
    unsigned colno() {
        if (wide && s.chance(1, 4)) return (unsigned) s.below(3000);
        return (unsigned) s.below(maxcol);
    }
    Change gen_change(const M& mod) {
        Change ch;
        if constexpr (S) {
            // distinct non-overlapping or overlapping pieces in index order
            int n = 1 + s.weighted({5, 3, 1});
            for (int i = 0; i < n; ++i) {
                unsigned off = s.chance(1, 3) ? 0 : (unsigned) s.below(mod.here && s.coin() ? mod.c[0].size() + 12 : 40);
                std::string v = value();
                unsigned len = off && s.chance(1, 8) ? (unsigned) s.below(20) : off || s.coin() ? (unsigned) (v.size() & 0xFFFF) : 0;
                ch.push_back({value_string::make_index(off, len & 0x7FFF), v});
            }
            std::sort(ch.begin(), ch.end(), [](auto& a, auto& b) { return a.first < b.first; });
            ch.erase(std::unique(ch.begin(), ch.end(), [](auto& a, auto& b) { return a.first == b.first; }), ch.end());
        } else {
            int n = 1 + s.weighted({6, 4, 3, 2}) + (s.chance(1, 12) ? (int) s.below(12) : 0);
            std::map<unsigned, std::string> mm;
            for (int i = 0; i < n; ++i) {
                unsigned c = colno();
                std::string v = value();
                // sizes equal to the old ones take a different path
                if (mod.here && c < mod.c.size() && s.chance(1, 3)) { v.resize(mod.c[c].size(), 'x'); }
                mm[c] = v;
            }
            for (auto& x : mm) ch.push_back(x);
        }
        return ch;
    }
    void model_put(M& mod, const Change& ch) {
        if (!mod.here) { mod.c.clear(); mod.here = true; if (S) mod.c.push_back(""); }
        if (S) {
            std::string& v = mod.c[0];
            for (auto& x : ch) if (x.first == 0 && v.size() > x.second.size()) v.resize(x.second.size());
            for (auto& x : ch) {
                unsigned off = value_string::index_offset(x.first);
                if (v.size() < off + x.second.size()) v.resize(off + x.second.size(), '\0');
                memcpy(&v[0] + off, x.second.data(), x.second.size());
            }
        } else
            for (auto& x : ch) {
                if (x.first >= mod.c.size()) mod.c.resize(x.first + 1);
                mod.c[x.first] = x.second;
            }
    }
    std::string model_col(const M& mod, unsigned idx) {
        if (S) {
            if (idx == 0) return mod.c[0];
            unsigned off = value_string::index_offset(idx), len = value_string::index_length(idx);
            return off >= mod.c[0].size() ? std::string() : mod.c[0].substr(off, len);
        }
        return idx < mod.c.size() ? mod.c[idx] : std::string();
    }
    static bool missing(const M& mod, unsigned c) { return !S && c >= mod.c.size(); }
    std::vector<unsigned> gen_cols(bool can_be_empty) {
        std::vector<unsigned> r;
        if (can_be_empty && s.chance(1, 3)) return r;
        int n = 1 + s.weighted({5, 3, 2, 1});
        for (int i = 0; i < n; ++i)
            r.push_back(S ? (s.coin() ? 0 : value_string::make_index((unsigned) s.below(40), (unsigned) s.below(60))) : s.chance(1, 8) ? (unsigned) s.below(32768) : colno());
        return r;
    }
    // a request's value, compared after it was returned and again as long as it is held
    void cmp(const Json& j, const std::string& want, const char* what, bool missing = false) {
        if (missing && j.is_null()) return;     // a column that the row does not have reads as null or ""
        PBT_CHECK(j.is_s(), "%s: not a string", what);
        String got = j.to_s();
        PBT_CHECK((size_t) got.length() == want.size() && memcmp(got.data(), want.data(), want.size()) == 0, "%s: got %s, expected %s", what,
                  brief(std::string(got.data(), got.length())).c_str(), brief(want).c_str());
    }
    void check_held(const char* when) {
        char b[400];
        for (auto& h : held)
            for (auto& w : h.want) {
                snprintf(b, sizeof b, "%s, value obtained earlier (%s), %s", h.what.c_str(), when, "element");
                const Json& e = h.j[w.idx];
                cmp(e, w.want, b, w.missing);
            }
        for (auto& h : heldstr)
            PBT_CHECK((size_t) h.v.length() == h.want.size() && memcmp(h.v.data(), h.want.data(), h.want.size()) == 0, "%s, value obtained earlier (%s): now %s, was %s", h.what.c_str(), when, brief(std::string(h.v.data(), h.v.length())).c_str(), brief(h.want).c_str());
    }
    void rowcmp(const Json& j, const M& mod, const std::vector<unsigned>& cols, const char* what, Held* h) {
        // scan results: one value or an array of values
        size_t n = cols.empty() ? mod.c.size() : cols.size();
        if (n == 1) { unsigned c = cols.empty() ? 0 : cols[0]; cmp(j, model_col(mod, c), what, missing(mod, c)); return; }
        PBT_CHECK(j.is_a() && (size_t) j.size() == n, "%s: %d values, expected %zu", what, j.is_a() ? (int) j.size() : -1, n);
        for (size_t i = 0; i < n; ++i) { unsigned c = cols.empty() ? (unsigned) i : cols[i]; cmp(j[(int) i], model_col(mod, c), what, missing(mod, c)); }
    }
    void get(int k, int mode) {
        M& mod = m[k];
        std::string what = "get of key " + pbt::hexs(keys[k]);
        if (mode == 0) {
            std::vector<unsigned> cols = gen_cols(true);
            if (s.noting) { s.note("  get %d cols", k); for (auto c : cols) s.note(" %u", c); s.note("\n"); }
            Json req = Json::array(17, 2, String::make_stable(str(keys[k])));
            for (auto c : cols) req.push_back(c);
            q.run_get(t, req, *ti);
            if (!mod.here) {
                PBT_CHECK(req.size() == 2, "%s: absent, but the reply has fields", what.c_str());
                return;
            }
            size_t n = cols.empty() ? mod.c.size() : cols.size();
            PBT_CHECK(req.size() == 2 + (int) n, "%s: %d columns, expected %zu", what.c_str(), (int) req.size() - 2, n);
            Held h{req, {}, what};
            for (size_t i = 0; i < n; ++i) {
                unsigned c = cols.empty() ? (unsigned) i : cols[i];
                std::string w = model_col(mod, c);
                cmp(req[2 + (int) i], w, what.c_str(), missing(mod, c));
                h.want.push_back({2 + (int) i, w, missing(mod, c)});
            }
            if (held.size() < 6) held.push_back(h);
        } else {
            unsigned c = gen_cols(false)[0];
            if (s.noting) s.note("  get1 %d col %u\n", k, c);
            Str v;
            bool f = q.run_get1(t, str(keys[k]), (int) c, v, *ti);
            PBT_CHECK(f == mod.here, "%s: %s", what.c_str(), f ? "found" : "not found");
            if (f) {
                HeldStr h{v, model_col(mod, c), what};
                PBT_CHECK((size_t) v.length() == h.want.size() && memcmp(v.data(), h.want.data(), v.length()) == 0, "%s column %u: got %s, expected %s", what.c_str(), c, brief(std::string(v.data(), v.length())).c_str(), brief(h.want).c_str());
                // the versioned array changes its rows in place; column memory stays
                if (heldstr.size() < 6) heldstr.push_back(h);
            }
        }
    }
    void scan(bool rev) {
        std::vector<unsigned> cols = gen_cols(true);
        int k = (int) s.below(keys.size());
        std::string first = keys[k];
        if (s.chance(1, 4)) first += "x";
        int cnt = 1 + (int) s.below(keys.size() + 1);
        if (s.noting) { s.note("  %sscan %s count %d cols", rev ? "r" : "", pbt::hexs(first).c_str(), cnt); for (auto c : cols) s.note(" %u", c); s.note("\n"); }
        Json req = Json::array(18, 4, String::make_stable(str(first)), cnt);
        for (auto c : cols) req.push_back(c);
        if (rev) q.run_rscan(t, req, *ti); else q.run_scan(t, req, *ti);
        std::vector<int> ord;
        for (size_t i = 0; i < keys.size(); ++i) if (m[i].here && (rev ? keys[i] <= first : keys[i] >= first)) ord.push_back((int) i);
        std::sort(ord.begin(), ord.end(), [&](int a, int b) { return rev ? keys[a] > keys[b] : keys[a] < keys[b]; });
        if ((int) ord.size() > cnt) ord.resize(cnt);
        PBT_CHECK(req.size() == 2 + 2 * (int) ord.size(), "%sscan from %s: %d results, expected %zu", rev ? "r" : "", pbt::hexs(first).c_str(), ((int) req.size() - 2) / 2, ord.size());
        for (size_t i = 0; i < ord.size(); ++i) {
            std::string what = std::string(rev ? "rscan" : "scan") + " at key " + pbt::hexs(keys[ord[i]]);
            cmp(req[2 + 2 * (int) i], keys[ord[i]], what.c_str());
            rowcmp(req[3 + 2 * (int) i], m[ord[i]], cols, what.c_str(), nullptr);
        }
    }
    R* row(int k) {
        Masstree::unlocked_tcursor<P15<R>> lp(t, str(keys[k]));
        return lp.find_unlocked(*ti) ? lp.value() : nullptr;
    }
    void after_mutation(int k, kvtimestamp_t old) {
        ++nmut;
        if (PROP[1] == '0' && PROP[2] == '2') {
            kvtimestamp_t ts = q.query_times().ts;
            PBT_CHECK(ts > old, "timestamps: a modification of key %s at %lu follows one at %lu", pbt::hexs(keys[k]).c_str(), (unsigned long) ts, (unsigned long) old);
            if (m[k].here) {
                R* r = row(k);
                PBT_CHECK(r && r->timestamp() == ts, "timestamps: key %s holds a row of %lu, its last modification was at %lu", pbt::hexs(keys[k]).c_str(), r ? (unsigned long) r->timestamp() : 0, (unsigned long) ts);
            }
            m[k].ts = ts;
        }
    }
    void mutate(int k, int kind) {
        M& mod = m[k];
        bool was = mod.here;
        if (kind == 0) {
            Change ch = gen_change(mod);
            if (s.noting) { s.note("  put %d", k); for (auto& x : ch) s.note(" %u=%s", x.first, brief(x.second).c_str()); s.note("\n"); }
            std::vector<Json> req;
            std::vector<char*> bufs;
            for (auto& x : ch) {
                char* b = new char[x.second.size() + 1];     // exact memory behind every value
                memcpy(b, x.second.data(), x.second.size());
                bufs.push_back(b);
                req.push_back(Json(x.first));
                req.push_back(Json(String::make_stable(b, (int) x.second.size())));
            }
            result_t r = q.run_put(t, str(keys[k]), req.data(), req.data() + req.size(), *ti);
            req.clear();
            for (auto b : bufs) delete[] b;
            model_put(mod, ch);
            PBT_CHECK(r == (was ? Updated : Inserted), "put of key %s returned %d", pbt::hexs(keys[k]).c_str(), (int) r);
        } else if (kind == 1) {
            std::string v = value();
            if (s.noting) s.note("  replace %d %s\n", k, brief(v).c_str());
            char* b = new char[v.size() + 1];
            memcpy(b, v.data(), v.size());
            result_t r = q.run_replace(t, str(keys[k]), Str(b, (int) v.size()), *ti);
            delete[] b;
            mod.here = true;
            mod.c.assign(1, v);
            PBT_CHECK(r == (was ? Updated : Inserted), "replace of key %s returned %d", pbt::hexs(keys[k]).c_str(), (int) r);
        } else {
            s.note("  remove %d\n", k);
            bool r = q.run_remove(t, str(keys[k]), *ti);
            mod.here = false;
            PBT_CHECK(r == was, "remove of key %s returned %d", pbt::hexs(keys[k]).c_str(), (int) r);
            if (!r) return;
        }
        after_mutation(k, mod.ts);
    }
    // every row in full, read through its own accessors
    void check_all(const char* when) {
        for (size_t k = 0; k < keys.size(); ++k) {
            R* r = row((int) k);
            PBT_CHECK(!!r == m[k].here, "%s: key %s is %s", when, pbt::hexs(keys[k]).c_str(), r ? "present" : "absent");
            if (r) row_is(r, m[k], when, keys[k]);
        }
    }
    void row_is(const R* r, const M& mod, const char* when, const std::string& key) {
        PBT_CHECK(r->ncol() == (int) mod.c.size(), "%s: key %s has %d columns, expected %zu", when, pbt::hexs(key).c_str(), r->ncol(), mod.c.size());
        for (int i = 0; i < r->ncol(); ++i) {
            Str c = r->col(i);
            if (S && i) break;
            PBT_CHECK((size_t) c.length() == mod.c[i].size() && memcmp(c.data(), mod.c[i].data(), c.length()) == 0, "%s: key %s column %d is %s, expected %s", when, pbt::hexs(key).c_str(), i, brief(std::string(c.data(), c.length())).c_str(), brief(mod.c[i]).c_str());
        }
        if (!S) for (int i : {r->ncol(), r->ncol() + 1, 32767, -1}) PBT_CHECK(r->col(i).length() == 0, "%s: key %s column %d is not empty", when, pbt::hexs(key).c_str(), i);
    }
    // checkpoint encoding of every row, read back from exact-size memory
    void checkpoint() {
        for (size_t k = 0; k < keys.size(); ++k) {
            R* r = row((int) k);
            if (!r) continue;
            StringAccum sa;
            msgpack::unparser<StringAccum> up(sa);
            r->checkpoint_write(up);
            int tail = (int) s.below(3);
            char* b = new char[sa.length() + tail];
            memcpy(b, sa.data(), sa.length());
            memset(b + sa.length(), 0xC0, tail);
            msgpack::parser par(reinterpret_cast<unsigned char*>(b));
            R* r2 = R::checkpoint_read(par, r->timestamp(), *ti);
            PBT_CHECK((const char*) par.position() - b == sa.length(), "checkpoint of key %s: %d bytes written, %d read", pbt::hexs(keys[k]).c_str(), sa.length(), (int) ((const char*) par.position() - b));
            delete[] b;
            PBT_CHECK(r2->timestamp() == r->timestamp(), "checkpoint of key %s: timestamp %lu becomes %lu", pbt::hexs(keys[k]).c_str(), (unsigned long) r->timestamp(), (unsigned long) r2->timestamp());
            row_is(r2, m[k], "row read from a checkpoint", keys[k]);
            // it is an ordinary row: update it
            M mod = m[k];
            if (s.chance(1, 3)) {
                Change ch = gen_change(mod);
                std::vector<Json> req;
                for (auto& x : ch) { req.push_back(Json(x.first)); req.push_back(Json(String(x.second.data(), (int) x.second.size()))); }
                R* r3 = r2->update(req.data(), req.data() + req.size(), r2->timestamp() + 2, *ti);
                model_put(mod, ch);
                row_is(r3, mod, "row read from a checkpoint, then updated", keys[k]);
                if (r3 != r2) r2->deallocate_rcu_after_update(req.data(), req.data() + req.size(), *ti);
                r2 = r3;
            }
            r2->deallocate_rcu(*ti);
            ++nmut;
        }
    }
    void quiesce() {
        check_held("before a quiescent point");
        held.clear(); heldstr.clear();
        globalepoch.store(globalepoch.load() + 2);
        active_epoch.store(threadinfo::min_active_epoch());
        ti->rcu_quiesce();
    }
    void run() {
        maxcol = 1 + (int) s.below(s.chance(1, 4) ? 40 : 6);
        big = s.chance(1, 6);
        wide = !big && s.chance(1, 8);
        int nk = 1 + (int) s.below(s.chance(1, 5) ? 30 : 4);
        std::map<std::string, int> ks;
        for (int i = 0; i < nk; ++i) {
            std::string k = s.coin() ? std::string(1, (char) ('a' + s.below(26))) : s.coin() ? "AAAAAAAA" + s.bytes((int) s.below(4)) : s.bytes((int) s.below(20));
            if (s.chance(1, 12)) k = std::string(200 + s.below(56), 'L');
            ks[k] = 1;
        }
        for (auto& x : ks) keys.push_back(x.first);
        m.resize(keys.size());
        if (s.noting) { s.note("%s rows; keys", R::name()); for (auto& k : keys) s.note(" %s", pbt::hexs(k).c_str()); s.note("\n"); }
        ti->rcu_start();
        t.initialize(*ti);
        int n = 3 + (int) s.below(60);
        bool C = PROP[0] == 'L';
        for (int i = 0; i < n; ++i) {
            int k = (int) s.below(keys.size());
            switch (s.weighted({8, 3, 2, 4, 2, 2, 1, 2, C ? 3 : 0})) {
            case 0: mutate(k, 0); break;
            case 1: mutate(k, 1); break;
            case 2: mutate(k, 2); break;
            case 3: get(k, 0); break;
            case 4: get(k, 1); break;
            case 5: scan(false); break;
            case 6: scan(true); break;
            case 7: s.note("  quiesce\n"); quiesce(); break;
            default: s.note("  checkpoint\n"); checkpoint(); break;
            }
            check_held("after a later operation");
        }
        check_all("at the end");
        if (C) checkpoint();
        for (size_t k = 0; k < keys.size(); ++k) if (m[k].here) { bool r = q.run_remove(t, str(keys[k]), *ti); PBT_CHECK(r, "remove of key %s failed", pbt::hexs(keys[k]).c_str()); m[k].here = false; }
        check_held("after all removals");
        for (int i = 0; i < 8; ++i) quiesce();
        t.destroy(*ti);
        quiesce();
        for (int stable = 0, n = 0; stable < 6 && n < 4000; ++n) {
            size_t a = live->size();
            quiesce();
            stable = live->size() == a ? stable + 1 : 0;
        }
        ti->rcu_stop();
        s.nontrivial = nmut >= 3;
        s.tag("modifications", nmut);
        s.tag(R::name(), 1);
    }
};

template <typename R> static void one_case(pbt::Src& s) {
    live = new std::map<void*, size_t>;
    try {
        Rows<R> c(s);
        c.run();
        free_snapshot(c.q);
    } catch (...) { delete live; live = nullptr; throw; }
    size_t left = live->size(), sz = left ? live->begin()->second : 0;
    delete live;
    live = nullptr;
    PBT_CHECK(!left, "%zu blocks of row memory are never freed (the first has %zu bytes)", left, sz);
}
static void case_fn(pbt::Src& s) {
    if (!ti) { ti = threadinfo::make(threadinfo::TI_MAIN, -1); }
    switch (s.weighted({5, 3, 3, 3})) {
    case 0: one_case<row_type>(s); break;
    case 1: one_case<value_array>(s); break;
    case 2: one_case<value_versioned_array>(s); break;
    default: one_case<value_string>(s); break;
    }
}
int main(int argc, char** argv) {
    PROP = argv[1];
    setenv("_", "valgrind", 1);
    return pbt::main_(argc - 1, argv + 1, case_fn, PROP);
}
