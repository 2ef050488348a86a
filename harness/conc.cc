// C01 C02 C03 C04: small concurrent programs on the real tree under a deterministic
// scheduler with a switch possible at every memory access.
// argv[1]: C01|C02|C03|C04, argv[2] (optional): pool -- use the real block pools.
#include "treewalk.hh"
#include "vsched.hh"
#include <unordered_set>
static int PROP = 1;
static bool USEPOOL = false;

struct Val { uint64_t id, chk, pad; };
static const uint64_t MAGIC = 0x5bd1e9955bd1e995ULL;

enum OpKind { GET, PUT, REMOVE, ABORT, SCAN, RSCAN, QUIESCE, STOP, TXN };
struct Rec {            // one executed operation
    int th, kind, key;
    uint64_t start, end;
    uint64_t got;       // value id seen (0: absent)
    uint64_t wrote;     // value id written
};
struct ScanRec {
    int th; bool rev, emit; std::string start; size_t limit;
    uint64_t t0, t1;
    std::vector<std::pair<int, uint64_t>> out;      // key index, value id
    bool ended;                                     // not stopped by the visitor
};
struct VerRec {         // a recorded version, checked later
    int th, key;        // key index, or -1: range
    bool found;
    void* node; uint64_t v;
    uint64_t t1;        // when the recording operation ended
    ScanRec* scan;
};
struct Op { int kind, key, key2; bool emit; size_t limit; int pool; };

template <typename P> struct Conc {
    typedef Masstree::basic_table<P> table_t;
    typedef Masstree::tcursor<P> cursor_t;
    typedef Masstree::unlocked_tcursor<P> ucursor_t;
    typedef Masstree::leaf<P> leaf_t;
    pbt::Src& s;
    table_t t;
    std::vector<threadinfo*> tis;
    std::vector<std::string> keys;
    std::map<std::string, int> kidx;
    std::vector<Rec> hist;
    std::vector<ScanRec*> scans;
    std::vector<uint64_t> init;         // value id per key before the concurrent part
    uint64_t nextid = 0;
    bool poolval = false;
    std::vector<std::pair<uint64_t, uint64_t>> dummy;
    std::set<const void*> roots;        // nodes that have been the table's root
    bool newaborts = false;
    int nval = 0;

    Conc(pbt::Src& src) : s(src) {}
    ~Conc() { for (auto p : scans) delete p; }

    // ---- values
    Val* mkval(threadinfo& ti, uint64_t id) {
        Val* v = (Val*) (poolval ? ti.pool_allocate(sizeof(Val), memtag_value) : ti.allocate(sizeof(Val), memtag_value));
        v->id = id; v->chk = id ^ MAGIC; v->pad = ~id;
        return v;
    }
    void rmval(threadinfo& ti, Val* v) {
        if (poolval) ti.pool_deallocate_rcu(v, sizeof(Val), memtag_value);
        else ti.deallocate_rcu(v, sizeof(Val), memtag_value);
    }
    // read a value as an application thread would (checked accesses)
    uint64_t rdval(uint64_t p) {
        Val* v = (Val*) p;
        { vs::Off o; const vs::Block* b = vs::find(v); if (!b || b->p != (char*) v) vs::fail_fiber("linearizability: a read returned a pointer that was never stored"); }
        uint64_t a = v->id, b = v->chk, c = v->pad;
        vs::Off o;
        if (b != (a ^ MAGIC) || c != ~a) vs::fail_fiber("use after free: a value changed while a reader held it");
        return a;
    }
    Str str(int k) { return Str(keys[k].data(), (int) keys[k].size()); }

    // ---- operations (run inside fibers, vs::on)
    struct Held { uint64_t p, id; };
    struct Thread {
        int id; std::vector<Op> ops; std::vector<Held> held; std::vector<VerRec> recs;
    };
    void noteroot() { vs::Off o; roots.insert(t.root()); }
    Rec begin(int th, int kind, int key) { Rec r; r.th = th; r.kind = kind; r.key = key; r.start = vs::tick(); r.got = r.wrote = 0; return r; }
    void done(Rec& r) { r.end = vs::tick(); vs::Off o; hist.push_back(r); }

    void do_get(Thread& T, threadinfo& ti, int k, bool cursor) {
        Rec r = begin(T.id, GET, k);
        noteroot();
        uint64_t v = 0;
        bool f;
        if (!cursor) f = t.get(str(k), v, ti);
        else {
            ucursor_t c(const_cast<const table_t&>(t), str(k));
            f = c.find_unlocked(ti);
            if (f) v = c.value();
            if (PROP == 4) {
                vs::Off o;
                uint64_t now = vs::tick();
                T.recs.push_back(VerRec{T.id, k, f, c.node(), c.full_version_value(), now, nullptr});
            }
        }
        if (f) { r.got = rdval(v); vs::Off o; T.held.push_back(Held{v, r.got}); }
        done(r);
    }
    // also keeps recorded scan versions up to date like a transaction would
    void do_put(Thread& T, threadinfo& ti, int k, bool commit, std::map<void*, uint64_t>* track = nullptr, bool* broken = nullptr) {
        Rec r = begin(T.id, commit ? PUT : ABORT, k);
        uint64_t id;
        { vs::Off o; id = ++nextid; }
        Val* nv = commit ? mkval(ti, id) : nullptr;
        cursor_t c(t, str(k));
        noteroot();
        bool f = c.find_insert(ti);
        Val* old = nullptr;
        if (f) { old = (Val*) c.value(); r.got = rdval((uint64_t) old); }
        if (commit) {
            r.wrote = id;
            uint64_t pred = 0; void* pn = nullptr;
            if (PROP == 4 && !f) { pn = c.node(); pred = c.next_full_version_value(1); }
            fence();
            c.value() = (uint64_t) nv;
            c.finish(1, ti);
            vs::Off o;
            if (pn && pn == c.original_node() && pred != c.updated_version_value())
                vs::fail_fiber("version: predicted and reported versions of the node differ after an insertion");
            if (!f && track) {
                auto it = track->find(c.original_node());
                if (it != track->end()) {
                    if (it->second != c.original_version_value()) *broken = true;
                    it->second = c.updated_version_value();
                    for (auto& nn : c.new_nodes()) (*track)[nn.first] = nn.second;
                }
            }
            if (f && PROP == 4 && track) {}
        } else {
            if (!f) { vs::Off o; newaborts = true; }
            c.finish(0, ti);
        }
        if (commit && f) rmval(ti, old);
        done(r);
    }
    void do_remove(Thread& T, threadinfo& ti, int k) {
        Rec r = begin(T.id, REMOVE, k);
        cursor_t c(t, str(k));
        noteroot();
        bool f = c.find_locked(ti);
        Val* old = nullptr;
        if (f) { old = (Val*) c.value(); r.got = rdval((uint64_t) old); }
        c.finish(f ? -1 : 0, ti);
        if (f) rmval(ti, old);
        done(r);
    }
    struct Scanner {
        Conc& C; Thread& T; ScanRec* sr; std::map<void*, uint64_t>* track; bool* broken; bool stop = false;
        template <typename SS, typename K> void visit_leaf(const SS& ss, const K&, threadinfo&) {
            vs::Off o;
            if (track) {
                auto x = track->emplace(ss.node(), ss.full_version_value());
                if (!x.second && x.first->second != ss.full_version_value()) *broken = true;
            }
        }
        bool visit_value(Str key, uint64_t v, threadinfo&) {
            std::string k;
            { vs::Off o; k.assign(key.s, key.len); if (stop) vs::fail_fiber("scan: continued after the visitor asked to stop"); }
            uint64_t id = C.rdval(v);
            vs::Off o;
            auto it = C.kidx.find(k);
            if (it == C.kidx.end()) vs::fail_fiber("scan: visited key " + pbt::hexs(k) + " was never stored");
            sr->out.emplace_back(it->second, id);
            T.held.push_back(Held{v, id});
            if (sr->out.size() > 1000) vs::fail_fiber("scan: does not end");
            if (sr->out.size() >= sr->limit) { stop = true; return false; }
            return true;
        }
    };
    ScanRec* do_scan(Thread& T, threadinfo& ti, const std::string& start, bool emit, bool rev, size_t limit,
                     std::map<void*, uint64_t>* track = nullptr, bool* broken = nullptr) {
        ScanRec* sr;
        { vs::Off o; sr = new ScanRec; sr->th = T.id; sr->rev = rev; sr->emit = emit; sr->start = start; sr->limit = limit; scans.push_back(sr); }
        sr->t0 = vs::tick();
        noteroot();
        Scanner sc{*this, T, sr, track, broken};
        if (rev) t.rscan(Str(start.data(), (int) start.size()), emit, sc, ti);
        else t.scan(Str(start.data(), (int) start.size()), emit, sc, ti);
        sr->t1 = vs::tick();
        sr->ended = !sc.stop;
        return sr;
    }
    // a consistent reading: full_unlocked_version_value() reads version and size separately
    uint64_t curversion(leaf_t* n) {
        uint64_t v = n->full_unlocked_version_value();
        while (true) {
            uint64_t w = n->full_unlocked_version_value();
            if (v == w) return v;
            v = w;
        }
    }
    struct Valid { ScanRec* sr; uint64_t a, b; std::vector<int> own; };
    std::vector<Valid> valids;
    std::vector<std::pair<VerRec, std::pair<uint64_t, uint64_t>>> unchanged;    // record, check interval

    // scan, own insertions, validation of every recorded version
    void do_txn(Thread& T, threadinfo& ti, const Op& op) {
        std::map<void*, uint64_t> track;
        bool broken = false;
        ScanRec* sr = do_scan(T, ti, keys[op.key], op.emit, op.kind == TXN && (op.pool & 1), op.limit, &track, &broken);
        std::vector<int> own;
        if (op.pool & 2) {
            do_put(T, ti, op.key2, true, &track, &broken);
            vs::Off o;
            own.push_back(op.key2);
        }
        if (broken) return;
        uint64_t a = vs::tick();
        bool same = true;
        for (auto& x : track) {
            uint64_t v;
            { vs::On on; v = curversion((leaf_t*) x.first); }
            if (v != x.second) same = false;
        }
        uint64_t b = vs::tick();
        vs::Off o;
        if (same) valids.push_back(Valid{sr, a, b, own});
    }
    void recheck(Thread& T) {
        for (auto& h : T.held) {
            uint64_t id = rdval(h.p);
            if (id != h.id) vs::fail_fiber("use after free: a value changed while a reader held it");
        }
        T.held.clear();
        for (auto& r : T.recs) {
            uint64_t a = vs::tick();
            uint64_t v;
            v = curversion((leaf_t*) r.node);
            uint64_t b = vs::tick();
            vs::Off o;
            if (v == r.v) unchanged.emplace_back(r, std::make_pair(a, b));
        }
        T.recs.clear();
    }
    void thread_main(Thread& T) {
        threadinfo& ti = *tis[T.id];
        ti.rcu_start();
        for (auto& op : T.ops) {
            switch (op.kind) {
            case GET: do_get(T, ti, op.key, op.emit || PROP == 4); break;
            case PUT: do_put(T, ti, op.key, true); break;
            case ABORT: do_put(T, ti, op.key, false); break;
            case REMOVE: do_remove(T, ti, op.key); break;
            case SCAN: do_scan(T, ti, keys[op.key], op.emit, false, op.limit); break;
            case RSCAN: do_scan(T, ti, keys[op.key], op.emit, true, op.limit); break;
            case TXN: do_txn(T, ti, op); break;
            case QUIESCE: recheck(T); ti.rcu_quiesce(); break;
            case STOP: recheck(T); ti.rcu_stop(); ti.rcu_start(); break;
            }
        }
        recheck(T);
        ti.rcu_stop();
    }
    // epochs pass; the thread that built the initial tree reclaims and collects
    void ticker(int n, threadinfo* ti = nullptr) {
        for (int i = 0; i < n; ++i) {
            globalepoch.store(globalepoch.load() + 2);
            active_epoch.store(threadinfo::min_active_epoch());
            if (ti) { ti->rcu_start(); ti->rcu_quiesce(); ti->rcu_stop(); }
        }
    }

    // ---- generation
    std::map<std::pair<size_t, std::string>, std::set<int>> slices;
    bool admit(const std::string& k) {
        if (P::leaf_width > 10) return true;
        for (int pass = 0; pass < 2; ++pass)
            for (size_t off = 0; off <= k.size() && (off == 0 || off < k.size()); off += 8) {
                std::string id = k.substr(0, off), sl = k.substr(off, 8);
                int cls = k.size() - off > 8 ? 9 : (int) (k.size() - off);
                sl.resize(8, 0);
                auto& st = slices[{off, id + sl}];
                if (pass == 1) st.insert(cls);
                else if (!st.count(cls) && (int) st.size() + 1 >= P::leaf_width) return false;
            }
        return true;
    }
    static std::string be(unsigned v) { std::string r(8, '\0'); for (int i = 0; i < 8; ++i) r[7 - i] = (char) (i < 4 ? v >> (8 * i) : 0); return r; }
    void gen_keys() {
        std::set<std::string> ks;
        int fam = (int) s.below(7);
        int w = P::leaf_width;
        auto add = [&](const std::string& k) { if (!ks.count(k) && admit(k)) ks.insert(k); };
        switch (fam) {
        case 6: { // full leaves below a full root
            int n = w * (P::internode_width + 1) + (int) s.below(3); if (n > 40) n = 40; std::string pre = s.chance(1, 3) ? "PPPPPPPP" : ""; for (int i = 0; i < n; ++i) add(pre + be(10 + i)); break; }
        case 0: { int n = w + (int) s.below(4 * w); for (int i = 0; i < n; ++i) add(be(10 + 2 * i)); break; }
        case 1: { int n = 2 + (int) s.below(5); for (int i = 0; i < n; ++i) { std::string k = "AAAAAAAA"; int l = 1 + (int) s.below(10); for (int j = 0; j < l; ++j) k.push_back((char) ('a' + s.below(3))); add(k); }
                  if (s.coin()) add("AAAAAAAA"); if (s.coin()) add("AAAAAAA"); if (s.coin()) add("AAAAAAAB"); if (s.coin()) add("B"); break; }
        case 2: { int n = 3 + (int) s.below(8); for (int i = 0; i < n; ++i) { std::string k; int b = (int) s.below(3); for (int j = 0; j < b; ++j) k += s.chance(1, 4) ? "BBBBBBBB" : "AAAAAAAA"; int l = (int) s.below(9); for (int j = 0; j < l; ++j) k.push_back((char) ('a' + s.below(2))); add(k); } break; }
        case 3: { int n = w + (int) s.below(2 * w + 2); for (int i = 0; i < n; ++i) add("PPPPPPPP" + be(2 * i)); if (s.coin()) add("PPPPPPPP"); if (s.coin()) add("Q"); if (s.coin()) add("A"); break; }
        case 4: { int n = 2 + (int) s.below(w); for (int i = 0; i < n; ++i) { add("PPPPPPPP" + be(2 * i)); add("PPPPPPPQ" + be(2 * i) + "suffix"); } break; }
        default: { int n = 2 + (int) s.below(4); std::string base(8 * (1 + s.below(4)), 'T'); for (int i = 0; i < n; ++i) { std::string k = base; k.push_back((char) ('a' + s.below(4))); if (s.coin()) k += "0123456789"; add(k); } if (s.coin()) add(base); if (s.coin()) add("TTTTTTTTa"); if (s.coin()) add("TTTTTTTTTTTTTTTTb"); break; }
        }
        if (ks.empty()) ks.insert("k");
        keys.assign(ks.begin(), ks.end());
        for (size_t i = 0; i < keys.size(); ++i) kidx[keys[i]] = (int) i;
        s.note("keys:");
        for (size_t i = 0; i < keys.size(); ++i) s.note(" %zu=%s", i, pbt::hexs(keys[i]).c_str());
        s.note("\n");
    }
    static const char* kname(int k) { static const char* n[] = {"get", "put", "remove", "abort", "scan", "rscan", "quiesce", "stop", "txn"}; return n[k]; }
    void bad(const std::string& e) {
        if (!e.empty()) { notehist(); pbt::fail("%s", e.c_str()); }
    }
    void notehist() {
        if (!s.noting) return;
        std::vector<Rec> h(hist);
        std::sort(h.begin(), h.end(), [](const Rec& a, const Rec& b) { return a.start < b.start; });
        for (auto& r : h) s.note("  [%lu,%lu] t%d %s key %d saw %lu wrote %lu\n", r.start, r.end, r.th, kname(r.kind), r.key, r.got, r.wrote);
        for (auto* x : scans) {
            s.note("  [%lu,%lu] t%d %s from %s %s:", x->t0, x->t1, x->th, x->rev ? "rscan" : "scan", pbt::hexs(x->start).c_str(), x->emit ? "incl" : "excl");
            for (auto& o : x->out) s.note(" %d=%lu", o.first, o.second);
            s.note("\n");
        }
    }

    // ---- oracles
    // per-key linearizability (values are unique)
    void lin_key(int k, uint64_t fin) {
        std::vector<const Rec*> ops;
        for (auto& r : hist) if (r.key == k && r.kind <= ABORT) ops.push_back(&r);
        size_t n = ops.size();
        PBT_CHECK(n <= 62, "internal: too many operations on a key");
        std::unordered_set<std::string> seen;
        std::function<bool(uint64_t, uint64_t)> go = [&](uint64_t mask, uint64_t st) -> bool {
            if (mask == (n == 64 ? ~0ULL : (1ULL << n) - 1)) return st == fin;
            std::string key((const char*) &mask, 8);
            key.append((const char*) &st, 8);
            if (!seen.insert(key).second) return false;
            uint64_t minend = ~0ULL;
            for (size_t i = 0; i < n; ++i) if (!(mask >> i & 1)) minend = std::min(minend, ops[i]->end);
            for (size_t i = 0; i < n; ++i) {
                if (mask >> i & 1 || ops[i]->start > minend) continue;
                if (ops[i]->got != st) continue;
                uint64_t ns = ops[i]->kind == PUT ? ops[i]->wrote : ops[i]->kind == REMOVE ? 0 : st;
                if (go(mask | 1ULL << i, ns)) return true;
            }
            return false;
        };
        if (!go(0, init[k]))
            pbt::fail("linearizability: no order of the operations on key %s explains their results", pbt::hexs(keys[k]).c_str());
    }
    bool presence(const Rec& r) const { return (r.kind == PUT && r.got == 0) || (r.kind == REMOVE && r.got != 0); }
    // 1 present, 0 absent, -1 unknown, throughout [a,b]
    int definite(int k, uint64_t a, uint64_t b) const {
        int c = init[k] != 0;
        for (auto& r : hist) {
            if (r.key != k || !presence(r)) continue;
            if (r.end < a) c += r.kind == PUT ? 1 : -1;
            else if (r.start <= b) return -1;
        }
        return c;
    }
    bool in_range(const ScanRec& x, const std::string& k) const {
        int c = k.compare(x.start);
        return c == 0 ? x.emit : (c < 0) == x.rev;
    }
    void check_scan(const ScanRec& x) {
        const char* nm = x.rev ? "rscan" : "scan";
        for (size_t i = 0; i < x.out.size(); ++i) {
            int k = x.out[i].first;
            PBT_CHECK(in_range(x, keys[k]), "scan: %s from %s visited %s outside its range", nm, pbt::hexs(x.start).c_str(), pbt::hexs(keys[k]).c_str());
            if (i) PBT_CHECK(x.rev ? k < x.out[i - 1].first : k > x.out[i - 1].first, "scan: %s from %s visited %s after %s", nm, pbt::hexs(x.start).c_str(),
                             pbt::hexs(keys[k]).c_str(), pbt::hexs(keys[x.out[i - 1].first]).c_str());
            uint64_t id = x.out[i].second;
            bool known = init[k] == id;
            for (auto& r : hist) {
                if (r.key != k) continue;
                if (r.kind == PUT && r.wrote == id) {
                    known = true;
                    PBT_CHECK(r.start <= x.t1, "scan: %s visited a value of %s written later", nm, pbt::hexs(keys[k]).c_str());
                }
                if ((r.kind == PUT || r.kind == REMOVE) && r.got == id)
                    PBT_CHECK(r.end >= x.t0, "scan: %s visited a value of %s that was replaced before the scan began", nm, pbt::hexs(keys[k]).c_str());
            }
            PBT_CHECK(known, "scan: %s visited a value of %s that was never stored there", nm, pbt::hexs(keys[k]).c_str());
        }
        std::set<int> vis;
        for (auto& o : x.out) vis.insert(o.first);
        for (size_t k = 0; k < keys.size(); ++k) {
            if (!in_range(x, keys[k]) || vis.count((int) k)) continue;
            if (!x.ended && !x.out.empty() && (x.rev ? (int) k < x.out.back().first : (int) k > x.out.back().first)) continue;
            PBT_CHECK(definite((int) k, x.t0, x.t1) != 1, "scan: %s from %s missed key %s, which was present throughout", nm, pbt::hexs(x.start).c_str(), pbt::hexs(keys[k]).c_str());
        }
    }
    void check_versions() {
        for (auto& u : unchanged) {
            const VerRec& v = u.first;
            for (auto& r : hist)
                if (r.key == v.key && presence(r) && r.start > v.t1 && r.end < u.second.first)
                    pbt::fail("version: node version unchanged although key %s, which a reader had found %s there, was %s in between",
                              pbt::hexs(keys[v.key]).c_str(), v.found ? "present" : "absent", r.kind == PUT ? "inserted" : "removed");
        }
        for (auto& v : valids) {
            std::set<int> vis;
            for (auto& o : v.sr->out) vis.insert(o.first);
            for (size_t k = 0; k < keys.size(); ++k) {
                if (!in_range(*v.sr, keys[k])) continue;
                if (!v.sr->ended && !v.sr->out.empty() && (v.sr->rev ? (int) k < v.sr->out.back().first : (int) k > v.sr->out.back().first)) continue;
                if (std::find(v.own.begin(), v.own.end(), (int) k) != v.own.end()) continue;
                int d = definite((int) k, v.a, v.b);
                if (d < 0) continue;
                PBT_CHECK(d == (int) vis.count((int) k), "version: every version recorded by a %s from %s (%s) is unchanged, but key %s in its range was %s", v.sr->rev ? "reverse scan" : "scan",
                          pbt::hexs(v.sr->start).c_str(), v.sr->emit ? "incl" : "excl", pbt::hexs(keys[k]).c_str(), d ? "inserted" : "removed");
            }
        }
    }
    // every live block must be reachable from the tree (or belong to the thread contexts)
    void leak_check(size_t nbase, bool destroyed, const std::set<const void*>& reach) {
        auto& bs = vs::blocks();
        size_t n = 0;
        for (size_t i = nbase; i < bs.size(); ++i) {
            if (bs[i].st != vs::B_LIVE) continue;
            if (reach.count(bs[i].p)) { ++n; continue; }
            if (bs[i].sz >= 60000) continue;        // limbo group
            pbt::fail("leak: a block of %zu bytes is neither reachable %safter all threads quiesced", bs[i].sz, destroyed ? "(tree destroyed) " : "nor reclaimed ");
        }
        if (destroyed) PBT_CHECK(n == 0, "leak: reachable blocks of a destroyed tree");
        else PBT_CHECK(n == reach.size(), "leak: %zu reachable blocks are not live", reach.size() - n);
    }
    void collect(Masstree::node_base<P>* n, std::set<const void*>& r) {
        n = TreeWalk<P>::true_root(n);
        std::vector<Masstree::node_base<P>*> q{n};
        while (!q.empty()) {
            auto* x = q.back(); q.pop_back();
            r.insert(x);
            if (x->isleaf()) {
                leaf_t* l = (leaf_t*) x;
                if (l->ksuf_) r.insert(l->ksuf_);
                auto perm = l->permutation();
                for (int i = 0; i < perm.size(); ++i)
                    if (l->is_layer(perm[i])) q.push_back(TreeWalk<P>::true_root(l->lv_[perm[i]].layer()));
                    else r.insert((void*) l->lv_[perm[i]].value());
            } else {
                auto* in = (Masstree::internode<P>*) x;
                for (int i = 0; i <= in->size(); ++i) if (in->child_[i]) q.push_back(in->child_[i]);
            }
        }
    }
    std::map<void*, uint64_t> leaves() {
        std::set<const void*> r;
        std::map<void*, uint64_t> m;
        std::vector<Masstree::node_base<P>*> q{TreeWalk<P>::true_root(t.root())};
        while (!q.empty()) {
            auto* x = q.back(); q.pop_back();
            if (x->isleaf()) {
                leaf_t* l = (leaf_t*) x;
                m[l] = l->full_unlocked_version_value();
                auto perm = l->permutation();
                for (int i = 0; i < perm.size(); ++i)
                    if (l->is_layer(perm[i])) q.push_back(TreeWalk<P>::true_root(l->lv_[perm[i]].layer()));
            } else {
                auto* in = (Masstree::internode<P>*) x;
                for (int i = 0; i <= in->size(); ++i) if (in->child_[i]) q.push_back(in->child_[i]);
            }
        }
        return m;
    }
    // C04, one thread: the transitions a cursor reports are exactly those that happen
    void sequential(threadinfo& ti) {
        int n = 6 + (int) s.below(30);
        for (int i = 0; i < n; ++i) {
            int k = (int) s.below(keys.size()), kind = s.weighted({4, 2, 3, 1, 1, 1});
            auto before = leaves();
            void *on = nullptr; uint64_t ov = 0, uv = 0, pv = 0, nv1 = 0; void* tn = nullptr;
            std::map<void*, uint64_t> nn;
            bool f = false;
            const char* what = "";
            std::string e = vs::run_alone([&]() {
                ti.rcu_start();
                if (kind <= 1) {            // insert or overwrite, committed or aborted
                    what = kind ? "an aborted insertion" : "an insertion";
                    Val* v = kind ? nullptr : mkval(ti, ++nextid);
                    cursor_t c(t, str(k));
                    f = c.find_insert(ti);
                    Val* old = f ? (Val*) c.value() : nullptr;
                    tn = c.node();
                    pv = c.previous_full_version_value();
                    nv1 = c.next_full_version_value(kind ? 0 : 1);
                    if (!kind) c.value() = (uint64_t) v;
                    c.finish(kind ? 0 : 1, ti);
                    vs::Off o;
                    on = c.original_node(); ov = c.original_version_value(); uv = c.updated_version_value();
                    for (auto& x : c.new_nodes()) nn[x.first] = x.second;
                    if (f && !kind) rmval(ti, old);
                } else if (kind == 2) {
                    what = "a removal";
                    cursor_t c(t, str(k));
                    f = c.find_locked(ti);
                    Val* old = f ? (Val*) c.value() : nullptr;
                    tn = c.node();
                    c.finish(f ? -1 : 0, ti);
                    if (f) rmval(ti, old);
                } else if (kind == 3) {
                    what = "a lookup";
                    ucursor_t c(const_cast<const table_t&>(t), str(k));
                    c.find_unlocked(ti);
                    tn = c.node(); pv = c.full_version_value();
                } else {
                    what = "a scan";
                    Thread T{0, {}, {}, {}};
                    do_scan(T, ti, keys[k], s.coin(), kind == 5, (size_t) -1);
                }
                ti.rcu_stop();
            });
            bad(e);
            s.note("%s of %d%s\n", what, k, f ? " (present)" : "");
            auto after = leaves();
            std::string key = pbt::hexs(keys[k]);
            if (kind >= 3 || f == (kind != 2))       // nothing is inserted or removed
                PBT_CHECK(before == after, "version: %s of key %s changed node versions", what, key.c_str());
            if (kind == 3) PBT_CHECK(before.count(tn) && before[tn] == pv, "version: a lookup reports another version than its node has");
            if (kind == 2 && f) {
                PBT_CHECK(before.count(tn) && (!after.count(tn) || after[tn] != before[tn]), "version: removing key %s left the version of its node unchanged", key.c_str());
                for (auto& x : before) if (x.first != tn) PBT_CHECK(after.count(x.first) && after[x.first] == x.second, "version: removing key %s changed another node's version", key.c_str());
            }
            if (kind <= 1) {
                PBT_CHECK(before.count(on) && before[on] == ov, "version: %s of key %s reports an original node or version that was not the tree's", what, key.c_str());
                PBT_CHECK(after.count(on) && after[on] == uv, "version: %s of key %s reports another updated version than its node has", what, key.c_str());
                PBT_CHECK(after.count(tn) && after[tn] == nv1, "version: %s of key %s predicted another version than its node has", what, key.c_str());
                if (!f) {
                    if (!kind) PBT_CHECK(after != before, "version: inserting key %s changed no version", key.c_str());
                    for (auto& x : after) {
                        if (x.first == on) continue;
                        if (before.count(x.first)) PBT_CHECK(before[x.first] == x.second, "version: %s of key %s changed the version of a node it does not report", what, key.c_str());
                        else PBT_CHECK(nn.count(x.first) && nn[x.first] == x.second, "version: %s of key %s created a node it does not report, or reports with another version", what, key.c_str());
                    }
                    for (auto& x : nn) PBT_CHECK(after.count(x.first) && !before.count(x.first), "version: %s of key %s reports a new node that is not one", what, key.c_str());
                    for (auto& x : before) PBT_CHECK(after.count(x.first), "version: %s of key %s lost a node", what, key.c_str());
                    // every reader of the key's absence notices a committed insertion
                    if (!kind && nn.empty()) PBT_CHECK(uv != ov, "version: inserting key %s left its node's version unchanged", key.c_str());
                    s.tag(nn.empty() ? "plain insertions" : "insertions with new nodes");
                }
            }
        }
        s.tag("sequential");
        s.nontrivial = true;
    }
    void drain_all() {
        for (int r = 0; r < 40; ++r) {
            globalepoch.store(globalepoch.load() + 2);
            active_epoch.store(threadinfo::min_active_epoch());
            for (auto* ti : tis) { ti->rcu_start(); for (int i = 0; i < 6; ++i) ti->rcu_quiesce(); ti->rcu_stop(); }
        }
    }

    void run() {
        globalepoch.store(1);
        active_epoch.store(1);
        vs::reset();
        threadinfo::allthreads = nullptr;
        gen_keys();
        poolval = s.coin();
        int nth = 2 + s.weighted({5, 4, 1});
        std::string e = vs::run_alone([&]() {
            for (int i = 0; i <= nth; ++i) { threadinfo* ti = threadinfo::make(threadinfo::TI_PROCESS, i); vs::Off o; tis.push_back(ti); }
        });
        bad(e);
        size_t nbase = vs::blocks().size();
        // prefill
        std::vector<int> order, rem;
        int fill = (int) s.below(4);        // 0: half, 1: all, 2: few, 3: most
        for (size_t i = 0; i < keys.size(); ++i)
            if (fill == 1 || (fill == 0 && s.coin()) || (fill == 2 && s.chance(1, 4)) || (fill == 3 && !s.chance(1, 5))) order.push_back((int) i);
        int ord = (int) s.below(3);
        if (ord == 1) std::reverse(order.begin(), order.end());
        if (ord == 2) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);
        int rmode = (int) s.below(5);
        if (rmode) {
            size_t a = order.empty() ? 0 : s.below(order.size());
            for (size_t i = 0; i < order.size(); ++i)
                if (rmode == 1 ? s.chance(1, 3) : rmode == 2 ? i >= a : rmode == 3 ? i != a : (i + a) % P::leaf_width != 0) rem.push_back(order[i]);
        }
        bool ticks = s.coin();
        s.note("leaf %d inner %d; prefill", P::leaf_width, P::internode_width);
        for (int k : order) s.note(" %d", k);
        s.note("; then remove");
        for (int k : rem) s.note(" %d", k);
        s.note("%s; %s values\n", ticks ? " with epochs" : "", poolval ? "pool" : "malloc");
        Thread T0{nth, {}, {}, {}};
        e = vs::run_alone([&]() {
            threadinfo& ti = *tis[nth];
            ti.rcu_start();
            t.initialize(ti);
            for (int k : order) do_put(T0, ti, k, true);
            for (int k : rem) { do_remove(T0, ti, k); if (ticks) { ticker(1); ti.rcu_quiesce(); } }
            T0.held.clear();
            ti.rcu_stop();
        });
        bad(e);
        init.assign(keys.size(), 0);
        for (auto& r : hist) { if (r.kind == PUT) init[r.key] = r.wrote; else if (r.kind == REMOVE) init[r.key] = 0; }
        size_t prehist = hist.size();
        hist.clear();
        if (PROP == 4 && s.chance(1, 3)) { sequential(*tis[nth]); return; }
        // programs
        std::vector<Thread> th(nth);
        int hotn = 1 + (int) s.below(4);
        int hot0 = (int) s.below(keys.size());
        auto pickkey = [&]() { return s.chance(3, 4) ? (int) ((hot0 + s.below(hotn)) % keys.size()) : (int) s.below(keys.size()); };
        int total = 0, writes = 0, nscan = 0;
        for (int i = 0; i < nth; ++i) {
            th[i].id = i;
            int n = 1 + (int) s.below(nth > 3 ? 3 : 6);
            int role = (int) s.below(4);        // 0,1 mixed, 2 writer/remover, 3 reader
            s.note("t%d:", i);
            for (int j = 0; j < n; ++j) {
                Op op{};
                int k;
                if (PROP == 1) k = role == 3 ? s.weighted({8, 1, 1, 0, 1, 1, 1, 0}) : role == 2 ? s.weighted({1, 6, 6, 1, 0, 0, 1, 0}) : s.weighted({4, 5, 5, 1, 1, 1, 1, 0});
                else if (PROP == 2) k = role == 3 ? s.weighted({0, 1, 1, 0, 5, 5, 1, 0}) : s.weighted({0, 5, 5, 1, 2, 2, 1, 0});
                else if (PROP == 3) k = role == 3 ? s.weighted({5, 0, 1, 0, 2, 2, 2, 2}) : s.weighted({2, 4, 7, 1, 1, 1, 3, 2});
                else k = role == 3 ? s.weighted({8, 1, 0, 0, 0, 0, 1, 0, 8}) : s.weighted({2, 5, 5, 1, 0, 0, 1, 0, 3});
                op.kind = k;
                op.key = pickkey();
                op.key2 = pickkey();
                op.emit = s.coin();
                op.limit = s.chance(2, 3) ? (size_t) -1 : 1 + s.below(4);
                op.pool = (int) s.below(4);
                if ((k == SCAN || k == RSCAN || k == TXN) && s.coin()) op.key = k == SCAN || (k == TXN && !(op.pool & 1)) ? 0 : (int) keys.size() - 1;
                th[i].ops.push_back(op);
                s.note(" %s %d%s", kname(k), op.key, k >= SCAN ? (op.emit ? "(incl)" : "(excl)") : "");
                if (k == TXN && (op.pool & 2)) s.note("+put %d", op.key2);
                if (k >= SCAN && op.limit != (size_t) -1) s.note("/%zu", op.limit);
                ++total;
                writes += k == PUT || k == REMOVE;
                nscan += k == SCAN || k == RSCAN || k == TXN;
            }
            s.note("\n");
        }
        int nticks = PROP == 3 ? (int) s.below(7) : s.chance(1, 2) ? (int) s.below(5) : 0;
        for (int i = 0; i < nth; ++i) { Thread* T = &th[i]; vs::spawn([this, T]() { thread_main(*T); }); }
        if (nticks) vs::spawn([this, nticks, nth]() { ticker(nticks, tis[nth]); });
        // schedule
        static const int lens[] = {6, 20, 60, 200, 700};
        int prof = lens[s.below(5)];
        vs::next_run = [&]() -> long { int w = s.weighted({2, 7, 1}); return w == 0 ? 4000 : w == 1 ? 1 + (long) s.below(prof) : 1 + (long) s.below(12); };
        vs::next_fiber = [&](int n) -> int { return (int) s.below(n); };
        vs::tolerate = [&](const vs::Block& b) { return false; };
        e = vs::run();
        uint64_t sw = vs::switches;
        if (vs::discarded()) { s.discarded = true; return; }
        bad(e);
        s.tag("switches", sw);
        // final contents
        Model fin;
        std::vector<uint64_t> finid(keys.size(), 0);
        size_t cnt = 0;
        if (PROP == 1 || PROP == 3) {
            std::vector<Rec> keep;
            e = vs::run_alone([&]() {
                threadinfo& ti = *tis[nth];
                ti.rcu_start();
                for (size_t k = 0; k < keys.size(); ++k) {
                    uint64_t v = 0;
                    if (t.get(str((int) k), v, ti)) { uint64_t id = rdval(v); vs::Off o; fin[keys[k]] = v; finid[k] = id; ++cnt; }
                }
                ti.rcu_stop();
            });
            bad(e);
            for (size_t k = 0; k < keys.size(); ++k) {
                try { lin_key((int) k, finid[k]); } catch (pbt::Failure&) { notehist(); throw; }
            }
            // let the tree settle its lazily corrected root, then check the structure
            e = vs::run_alone([&]() { ucursor_t c(t, Str("")); });
            bad(e);
            try { walk_check(t, fin, false, newaborts); } catch (pbt::Failure&) { notehist(); throw; }
        }
        if (PROP == 2) for (auto* x : scans) try { check_scan(*x); } catch (pbt::Failure&) { notehist(); throw; }
        if (PROP == 4) try { check_versions(); } catch (pbt::Failure&) { notehist(); throw; }
        if (PROP == 4) { s.tag("unchanged", unchanged.size()); s.tag("validated scans", valids.size()); }
        if (PROP == 3) {
            e = vs::run_alone([&]() { drain_all(); });
            bad(e);
            std::set<const void*> reach;
            try {
                e = vs::run_alone([&]() { ucursor_t c(t, Str("")); });
                bad(e);
                walk_check(t, fin, true, newaborts);
                collect(t.root(), reach);
                leak_check(nbase, false, reach);
                // remove everything: only a constant amount may remain
                if (s.coin()) {
                    s.tag("emptied");
                    e = vs::run_alone([&]() { threadinfo& ti = *tis[0]; ti.rcu_start(); for (size_t k = 0; k < keys.size(); ++k) do_remove(th[0], ti, (int) k); th[0].held.clear(); ti.rcu_stop(); });
                    bad(e);
                    if (s.coin()) {
                        e = vs::run_alone([&]() { drain_all(); });
                        bad(e);
                        fin.clear();
                        WalkStats st = walk_check(t, fin, true, newaborts);
                        reach.clear();
                        collect(t.root(), reach);
                        leak_check(nbase, false, reach);
                        if (!newaborts) PBT_CHECK(reach.size() <= 4, "leak: an emptied tree still has %zu blocks", reach.size());
                    }
                }
                e = vs::run_alone([&]() {
                    threadinfo& ti = *tis[0];
                    ti.rcu_start();
                    // values are the application's
                    if (!fin.empty()) for (size_t k = 0; k < keys.size(); ++k) do_remove(th[0], ti, (int) k);
                    th[0].held.clear();
                    t.destroy(ti);
                    ti.rcu_stop();
                    drain_all();
                });
                bad(e);
                reach.clear();
                leak_check(nbase, true, reach);
            } catch (pbt::Failure&) { notehist(); throw; }
        }
        (void) prehist;
        s.nontrivial = writes >= 1 && total >= 3 && sw >= (uint64_t) nth + 2 && (PROP != 2 || nscan) && (PROP != 4 || !unchanged.empty() || !valids.empty());
        s.tag("threads", nth);
        if (writes >= 2) s.tag("2+ writes");
    }
};

static void case_fn(pbt::Src& s) {
    switch (s.weighted({6, 3, 3, 1})) {
    case 0: { Conc<tparams<3, 3, true, bound_method_binary, true, true>> c(s); c.run(); return; }
    case 1: { Conc<tparams<4, 3, true, bound_method_linear, true, false>> c(s); c.run(); return; }
    case 2: { Conc<tparams<5, 4, true, bound_method_binary, false, false>> c(s); c.run(); return; }
    default: { Conc<tparams<15, 15, true, bound_method_binary, true, true>> c(s); c.run(); return; }
    }
}
int main(int argc, char** argv) {
    PROP = argv[1][2] - '0';
    int skip = 1;
    if (argc > 2 && !strcmp(argv[2], "pool")) { USEPOOL = true; ++skip; }
    // threadinfo reads $_ once: under "valgrind" freed pool blocks go straight to free()
    setenv("_", USEPOOL ? "x" : "valgrind", 1);
    return pbt::main_(argc - skip, argv + skip, case_fn, argv[1]);
}
