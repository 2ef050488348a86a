#ifndef VERIF_TREECOMMON_HH
#define VERIF_TREECOMMON_HH
#include "masstree.hh"
#include "kvthread.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_stats.hh"
#include "masstree_print.hh"
#include "json.hh"
#include "pbt.hh"
#include "keygen.hh"
#include <map>
using lcdf::Str;
typedef std::map<std::string, uint64_t> Model;

struct u64_print {
    static void print(uint64_t v, FILE* f, const char* prefix, int indent, Str key, kvtimestamp_t, char* suffix) {
        fprintf(f, "%s%*s%.*s = %llu%s\n", prefix, indent, "", key.len, key.s, (unsigned long long) v, suffix);
    }
};
template <int LW, int IW, bool CONC, int BM, bool PE, bool PF> struct tparams : public Masstree::nodeparams<LW, IW> {
    static constexpr bool concurrent = CONC;
    static constexpr bool prefetch = PF;
    static constexpr int bound_method = BM;
    static constexpr bool need_phantom_epoch = PE;
    typedef uint64_t value_type;
    typedef u64_print value_print_type;
    typedef ::threadinfo threadinfo_type;
};
// value_type uint64_t is no pointer: prefetching it must do nothing
inline threadinfo*& the_ti() { static threadinfo* ti; return ti; }
inline void advance_epoch() {
    globalepoch.store(globalepoch.load() + 2);
    active_epoch.store(threadinfo::min_active_epoch());
}
// Let every pending deferred free / callback of all threads run.
inline void drain_rcu(threadinfo& ti, int rounds = 72) {
    for (int r = 0; r < rounds; ++r) {
        advance_epoch();
        for (int i = 0; i < 10; ++i) ti.rcu_quiesce();
    }
    ti.rcu_stop();
}
#endif
