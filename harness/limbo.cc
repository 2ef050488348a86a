// C03, reclamation in bulk: the epoch-based reclaimer of kvthread.{hh,cc} by itself, with many more
// retired objects than one limbo group or one collection takes, callbacks that retire and register
// more, block pools, and several threads' critical sections.  One OS thread; operations interleave
// whole.  Oracle: which critical sections were open when an object was retired.
#include "kvthread.hh"
#include "pbt.hh"
#include <map>
#include <memory>
#include <set>
#include <vector>
using pbt::Src;

extern relaxed_atomic<mrcu_epoch_type> globalepoch, active_epoch;
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
}
static bool tracking;
static std::set<void*>* mem;                 // what the code under test allocated
static size_t groups;                        // limbo groups it allocated
static void released(void* p, bool pool, size_t sz);
static std::map<size_t, std::vector<void*>> spare;
static std::vector<std::pair<void*, size_t>> pools;
struct Pause { bool was; Pause() : was(tracking) { tracking = false; } ~Pause() { tracking = was; } };
extern "C" void* __wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    if (tracking) { Pause x; mem->insert(p); if (n == sizeof(limbo_group)) ++groups; }
    return p;
}
extern "C" int __wrap_posix_memalign(void** p, size_t a, size_t n) {
    if (!tracking) return __real_posix_memalign(p, a, n);
    Pause x;
    auto& v = spare[n];                       // (fresh pages for every case would cost most of the time)
    int r = 0;
    if (v.empty()) r = __real_posix_memalign(p, a, n);
    else { *p = v.back(); v.pop_back(); }
    if (r == 0) pools.emplace_back(*p, n);
    return r;
}
extern "C" void __wrap_free(void* p) {
    if (tracking && p) { Pause x; released(p, false, 0); mem->erase(p); }
    __real_free(p);
}
extern "C" int __wrap_madvise(void*, size_t, int) { return 0; }
extern "C" void masstree_verif_pool_acquire(void*, size_t) {}
extern "C" void masstree_verif_pool_release(void* p, size_t sz) { if (tracking) { Pause x; released(p, true, sz); } }

struct Case;
static Case* C;
struct Obj {
    int id, kind;                            // 0 allocated, 1 pool block, 2 callback
    size_t sz = 0;
    bool retired = false;
    size_t slots = 0;
    int thr = -1;                            // retired by
    std::vector<std::pair<int, unsigned>> readers;
};
struct Cb : public mrcu_callback {
    int id, again, more;
    void operator()(threadinfo& ti) override;
};
struct Case {
    Src& s;
    std::vector<threadinfo*> ti;
    std::vector<unsigned> section;           // of each thread; 0: none
    std::map<char*, Obj> objs;
    std::vector<char*> live;                 // allocated, not retired
    std::vector<size_t> out, peak;           // limbo slots of what is retired and not released, by thread
    std::vector<uint64_t> last;              // epoch of each thread's last retirement
    std::map<int, std::unique_ptr<Cb>> cbs;
    unsigned serial = 0;
    int nid = 0, wide = 0;
    size_t nretired = 0, nreleased = 0, kept = 0;
    Case(Src& src) : s(src) {}

    static void fill(char* p, size_t sz, int id) { for (size_t i = 0; i < sz; ++i) p[i] = (char) (id * 37 + i); }
    static bool intact(const char* p, size_t sz, int id) { for (size_t i = 0; i < sz; ++i) if (p[i] != (char) (id * 37 + i)) return false; return true; }

    void alloc(int t, int kind) {
        size_t sz = kind ? 1 + (s.coin() ? 64 * wide : 0) + s.below(128) : 16 + s.below(200);
        char* p = (char*) (kind ? ti[t]->pool_allocate(sz, memtag_masstree_leaf) : ti[t]->allocate(sz, memtag_value));
        Pause x;
        auto it = objs.upper_bound(p);
        PBT_CHECK(it == objs.end() || p + sz <= it->first, "thread %d is given a block that overlaps block %d", t, it->second.id);
        if (it != objs.begin()) { --it; PBT_CHECK(it->first + it->second.sz <= p, "thread %d is given a block that overlaps block %d, which is still %s", t, it->second.id, it->second.retired ? "waiting for readers" : "in use"); }
        Obj& o = objs[p];
        o.id = nid++; o.kind = kind; o.sz = sz;
        fill(p, sz, o.id);
        live.push_back(p);
    }
    void mark(char* p, Obj& o, int t) {
        o.retired = true;
        o.thr = t;
        for (size_t i = 0; i < section.size(); ++i) if (section[i]) o.readers.emplace_back((int) i, section[i]);
        ++nretired;
        o.slots = 1 + (last[t] != globalepoch.load());
        last[t] = globalepoch.load();
        peak[t] = std::max(peak[t], out[t] += o.slots);
    }
    void retire(int t, size_t at) {
        char* p = live[at];
        Obj& o = objs[p];
        { Pause x; live[at] = live.back(); live.pop_back(); mark(p, o, t); }
        if (o.kind) ti[t]->pool_deallocate_rcu(p, o.sz, memtag_masstree_leaf);
        else ti[t]->deallocate_rcu(p, o.sz, memtag_value);
    }
    void callback(int t, int again, int more) {
        Cb* c;
        {
            Pause x;
            c = new Cb;
            c->id = nid; c->again = again; c->more = more;
            Obj& o = objs[(char*) c];
            o.id = nid++; o.kind = 2; o.sz = sizeof(Cb);
            mark((char*) c, o, t);
        }
        ti[t]->rcu_register(c);
    }
    Obj gone(char* p, const char* how) {
        auto it = objs.find(p);
        PBT_CHECK(it != objs.end(), "something that is not in use is %s (perhaps for the second time)", how);
        Obj o = it->second;
        PBT_CHECK(o.retired, "block %d is %s, but nothing retired it", o.id, how);
        for (auto& r : o.readers)
            PBT_CHECK(section[r.first] != r.second, "object %d, retired while thread %d was in its critical section, is %s before that thread left it", o.id, r.first, how);
        objs.erase(it);
        out[o.thr] -= o.slots;
        ++nreleased;
        return o;
    }
    void tick() { globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); }
    void check() {
        size_t lim = 0;
        for (size_t t = 0; t < peak.size(); ++t) lim += peak[t] / (limbo_group::capacity - 8) + 4;
        PBT_CHECK(groups <= lim, "%zu threads' retired objects take up %zu limbo groups; %zu are enough for as many as ever waited", ti.size(), groups, lim);
    }
    void thread() {
        ti.push_back(threadinfo::make(threadinfo::TI_PROCESS, (int) ti.size()));
        Pause x;
        section.push_back(0); last.push_back(0); out.push_back(0); peak.push_back(0);
    }
    void run() {
        uint64_t e0 = s.chance(1, 4) ? (uint64_t) 0 - 2 * s.below(20) - 1 : 1 + 2 * s.below(1000);
        globalepoch.store(e0);
        active_epoch.store(e0);
        int nt = 1 + (int) s.below(3);
        for (int i = 0; i < nt; ++i) thread();
        wide = (int) s.below(19);
        int kinds = (int) s.below(4), ops = 5 + (int) s.below(60);
        bool large = s.chance(1, 3);
        for (int k = 0; k < ops; ++k) {
            int t = (int) s.below(ti.size());
            switch (s.weighted({6, 3, 3, 3, 2, 1, 1, large ? 1 : 0})) {
            case 0: {                                     // retire some
                if (!section[t]) { start(t); }
                int n = (int) s.below(large ? (s.coin() ? 600 : 140) : 12), how = (int) s.below(3);
                if (s.noting) s.note("thread %d retires %d\n", t, n);
                for (int i = 0; i < n; ++i) {
                    if (kinds == 3 && how == 2 && i % 3 == 0) callback(t, (int) (i / 3 % 3), (int) (i % 2));
                    else { alloc(t, kinds == 0 ? 0 : kinds == 1 ? 1 : i & 1); retire(t, live.size() - 1); }
                    if (how == 1 && i % 4 == 3) tick();
                }
                break;
            }
            case 1: if (section[t]) stop(t); else start(t); break;
            case 2: if (section[t]) quiesce(t); break;
            case 3: if (s.noting) s.note("epoch\n"); tick(); break;
            case 4:                                       // allocate now, retire later, on any thread
                if (live.size() < 50 && s.coin()) alloc(t, kinds == 0 ? 0 : 1);
                else if (!live.empty()) { if (!section[t]) start(t); retire(t, s.below(live.size())); }
                break;
            case 5: {                                     // epochs and quiescent points
                int n = 1 + (int) s.below(8);
                if (s.noting) s.note("thread %d passes %d epochs\n", t, n);
                for (int i = 0; i < n; ++i) { tick(); if (section[t]) quiesce(t); else { start(t); stop(t); } }
                break;
            }
            case 7: {                                     // again and again as many
                int n = 80 + (int) s.below(250), m = 5 + (int) s.below(15), q = (int) s.below(6);
                if (s.noting) s.note("thread %d retires %d times %d and passes %d epochs\n", t, m, n, q);
                if (!section[t]) start(t);
                for (int j = 0; j < m; ++j) {
                    for (int i = 0; i < n; ++i) { alloc(t, kinds == 0 ? 0 : 1); retire(t, live.size() - 1); }
                    for (int i = 0; i < q; ++i) { tick(); quiesce(t); }
                }
                break;
            }
            case 6: if (ti.size() < 4) thread(); break;
            }
            check();
        }
        if (nreleased > 0 && nretired > 20) s.nontrivial = true;
        s.tag("retired", nretired);
        if (nretired > 126) s.tag("more than one limbo group holds");
        bool stay = s.chance(1, 3);
        for (size_t t = 0; t < ti.size(); ++t) if (!section[t] == stay) { if (stay) start((int) t); else stop((int) t); }
        // everything goes back once all threads pass quiescent points
        size_t most = 0;
        for (auto n : out) most = std::max(most, n);
        for (size_t r = 0; r < most / 128 + most / 16 + 20; ++r) {
            tick();
            for (size_t t = 0; t < ti.size(); ++t) { if (stay) quiesce((int) t); else { start((int) t); stop((int) t); } }
        }
        for (auto& x : objs) PBT_CHECK(!x.second.retired, "%zu retired objects (first: %d) are never released", nretired - nreleased, x.second.id);
        PBT_CHECK(nretired == nreleased, "%zu objects were retired, %zu released", nretired, nreleased);
        for (auto p : live) PBT_CHECK(intact(p, objs[p].sz, objs[p].id), "block %d changed while in use", objs[p].id);
        check();
    }
    void start(int t) { if (s.noting) s.note("thread %d starts\n", t); ti[t]->rcu_start(); section[t] = ++serial; }
    void stop(int t) { if (s.noting) s.note("thread %d stops\n", t); section[t] = 0; ti[t]->rcu_stop(); }
    void quiesce(int t) { if (s.noting) s.note("thread %d quiesces\n", t); section[t] = ++serial; ti[t]->rcu_quiesce(); }
};
static void released(void* p, bool pool, size_t sz) {
    if (!C) return;
    if (!pool && !mem->count(p)) pbt::fail("free of memory that was not allocated");
    Obj o = C->gone((char*) p, "released");
    PBT_CHECK(o.kind == pool, "block %d goes back to the wrong place", o.id);
    if (pool) PBT_CHECK(sz >= o.sz && sz < o.sz + 64, "block %d of %zu bytes goes to the pool for %zu", o.id, o.sz, sz);
    size_t from = pool ? sizeof(void*) : 0;               // (linked into the pool already)
    for (size_t i = from; i < o.sz; ++i) PBT_CHECK(((char*) p)[i] == (char) (o.id * 37 + i), "block %d changed before it was released", o.id);
}
void Cb::operator()(threadinfo& t) {
    int who = -1;
    {
        Pause x;
        for (size_t i = 0; i < C->ti.size(); ++i) if (C->ti[i] == &t) who = (int) i;
        Obj o = C->gone((char*) this, "called");
        PBT_CHECK(o.kind == 2 && o.thr == who, "callback %d is called on another thread", o.id);
    }
    int m = more, a = again;
    { Pause x; delete this; }
    if (m) { C->alloc(who, 1); C->retire(who, C->live.size() - 1); }
    if (a) C->callback(who, a - 1, m);
}

static void one(Src& s) {
    Case c(s);
    std::set<void*> m;
    mem = &m;
    groups = 0;
    threadinfo::allthreads = nullptr;
    C = &c;
    tracking = true;
    struct End { ~End() { tracking = false; C = nullptr; } } end;
    c.run();
    tracking = false;
    C = nullptr;
    for (auto p : m) __real_free(p);
    for (auto& p : pools) spare[p.second].push_back(p.first);
    pools.clear();
}
int main(int argc, char** argv) {
    return pbt::main_(argc - 1, argv + 1, one, "limbo");
}
