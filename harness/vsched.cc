#include "vsched.hh"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

namespace vs {
bool on = false;
uint64_t clock_, fair_after = 400000, limit = 4000000, switches;
uint64_t tick() { return ++clock_; }
bool set_on(bool x) { bool o = on; on = x; return o; }
std::function<long()> next_run;
std::function<int(int)> next_fiber;
std::function<bool(const Block&)> tolerate;

static const size_t STACK = 256 << 10;
struct Fiber { void* sp; char* stack; std::function<void()> fn; bool done; };
static std::vector<Fiber*> fibers;
static std::vector<char*> stackpool;
static Fiber* cur;
static int curid;
static uintptr_t stk_lo;            // current fiber's stack
static long quantum;
static bool failed_, discard_;
static std::string failure_;
static void* main_sp;

// ---- arena
static char* arena;
static const size_t ARENA = 96 << 20, REDZONE = 256;
static size_t used;
static uint32_t* shadow;            // block index + 1 per 16 bytes
static std::vector<Block> blks;
static bool full_, arena_on;
bool arena_full() { return full_; }
const std::vector<Block>& blocks() { return blks; }
const char* state_name(BlockState s) {
    return s == B_FREED ? "freed" : s == B_POOLFREE ? "returned to the pool" : s == B_LIVE ? "live" : "unallocated";
}
static inline bool in_arena(uintptr_t x) { return x - (uintptr_t) arena < used; }
static Block* findb(uintptr_t x) {
    if (!in_arena(x)) return nullptr;
    uint32_t id = shadow[(x - (uintptr_t) arena) >> 4];
    return id ? &blks[id - 1] : nullptr;
}
const Block* find(const void* p) { return findb((uintptr_t) p); }
static void setshadow(char* p, size_t sz, uint32_t v) {
    size_t a = (p - arena) >> 4, b = (p - arena + sz + 15) >> 4;
    for (size_t i = a; i < b; ++i) shadow[i] = v;
}
static char* alloc(size_t sz, size_t align, BlockState st) {
    size_t off = (used + align - 1) / align * align;
    size_t tot = (sz + 31) / 16 * 16;       // at least 16 bytes of slack belong to the block
    if (off + tot + REDZONE > ARENA) { full_ = true; return nullptr; }
    char* p = arena + off;
    used = off + tot + (sz <= 8192 ? REDZONE : 0);
    if (sz <= 8192) memset(p, 0xCD, sz);
    blks.push_back(Block{p, sz, st, false});
    setshadow(p, tot, (uint32_t) blks.size());
    return p;
}
void reset() {
    if (!arena) {
        arena = (char*) mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = (uint32_t*) mmap(0, ARENA / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    memset(shadow, 0, (used >> 4) * 4 + 4);
    used = 0;
    full_ = false;
    blks.clear();
    for (Fiber* f : fibers) { stackpool.push_back(f->stack); delete f; }
    fibers.clear();
    failed_ = discard_ = false;
    failure_.clear();
    clock_ = 0;
    switches = 0;
    arena_on = true;
    on = false;
}

// ---- fibers
extern "C" void vs_switch(void** save, void* to);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vs_switch,.-vs_switch
)");
static void to_main() {
    bool was = on;
    on = false;
    vs_switch(&cur->sp, main_sp);
    on = was;
}
static void entry() {
    Fiber* f = cur;
    on = true;
    try {
        f->fn();
    } catch (std::exception& e) {
        on = false;
        fail_fiber(std::string("uncaught exception: ") + e.what());
    }
    on = false;
    f->done = true;
    to_main();
    abort();
}
void spawn(std::function<void()> fn) {
    Fiber* f = new Fiber;
    if (stackpool.empty())
        stackpool.push_back((char*) mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    f->stack = stackpool.back();
    stackpool.pop_back();
    f->fn = fn;
    f->done = false;
    void** sp = (void**) (f->stack + STACK);
    *--sp = 0;
    *--sp = (void*) entry;      // return address; rsp is then 8 mod 16 as at a call
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
    fibers.push_back(f);
}
int self() { return curid; }
bool aborted() { return failed_; }
bool discarded() { return discard_; }
void fail_fiber(const std::string& s) {
    failed_ = true;
    failure_ = s;
    for (;;) to_main();
}
void discard_fiber() {
    discard_ = true;
    for (;;) to_main();
}
static void clear_fibers() {
    for (Fiber* f : fibers) { stackpool.push_back(f->stack); delete f; }
    fibers.clear();
}
std::string run() {
    int n = (int) fibers.size();
    int i = -1;
    int rr = 0;
    while (!failed_ && !discard_) {
        std::vector<int> r;
        for (int k = 0; k < n; ++k)
            if (!fibers[k]->done) r.push_back(k);
        if (r.empty()) break;
        if (clock_ > limit) { failed_ = true; failure_ = "progress: operations do not complete under a fair schedule"; break; }
        if (clock_ > fair_after) {
            i = r[rr++ % r.size()];
            quantum = 400;
        } else {
            std::vector<int> o;
            for (int k : r) if (k != i) o.push_back(k);
            if (o.empty()) i = r[0];
            else i = o[o.size() == 1 ? 0 : next_fiber((int) o.size())];
            quantum = r.size() == 1 ? 20000 : next_run();
        }
        cur = fibers[i];
        curid = i;
        stk_lo = (uintptr_t) cur->stack;
        ++switches;
        vs_switch(&main_sp, cur->sp);
        on = false;
    }
    cur = nullptr;
    clear_fibers();
    return failed_ ? failure_ : "";
}
std::string run_alone(std::function<void()> fn) {
    spawn(fn);
    auto a = next_run;
    next_run = []() -> long { return 1000000; };
    std::string r = run();
    next_run = a;
    return r;
}

static void __attribute__((noinline)) dead(Block* b, uintptr_t x, bool wr) {
    bool was = on;
    on = false;
    if (tolerate && tolerate(*b)) { discard_fiber(); }
    char buf[160];
    snprintf(buf, sizeof(buf), "use after free: %s at offset %ld of a %s block of %zu bytes", wr ? "write" : "read", (long) (x - (uintptr_t) b->p), state_name(b->st), b->sz);
    on = was;
    fail_fiber(buf);
}
static void __attribute__((noinline)) outside(uintptr_t x, bool wr) {
    on = false;
    Block* near = nullptr;
    for (auto& b : blks) if ((uintptr_t) b.p <= x && (!near || b.p > near->p)) near = &b;
    char buf[160];
    snprintf(buf, sizeof(buf), "out of bounds: %s at offset %ld of a %s block of %zu bytes", wr ? "write" : "read", near ? (long) (x - (uintptr_t) near->p) : 0,
             near ? state_name(near->st) : "?", near ? near->sz : 0);
    fail_fiber(buf);
}
static void __attribute__((noinline)) step(uintptr_t x, bool wr) {
    ++clock_;
    if (--quantum <= 0) to_main();
    if (in_arena(x)) {
        uint32_t id = shadow[(x - (uintptr_t) arena) >> 4];
        if (id) {
            Block* b = &blks[id - 1];
            if (b->st == B_FREED || b->st == B_POOLFREE) dead(b, x, wr);
        } else
            outside(x, wr);
    }
}
static inline void access(const volatile void* a, bool wr) {
    if (!on) return;
    uintptr_t x = (uintptr_t) a;
    if (x - stk_lo < STACK) return;
    step(x, wr);
}
} // namespace vs
using vs::access;

extern "C" {
#define RW(N) \
    void __tsan_read##N(void* a) { access(a, false); } \
    void __tsan_write##N(void* a) { access(a, true); } \
    void __tsan_unaligned_read##N(void* a) { access(a, false); } \
    void __tsan_unaligned_write##N(void* a) { access(a, true); } \
    void __tsan_volatile_read##N(void* a) { access(a, false); } \
    void __tsan_volatile_write##N(void* a) { access(a, true); } \
    void __tsan_unaligned_volatile_read##N(void* a) { access(a, false); } \
    void __tsan_unaligned_volatile_write##N(void* a) { access(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { for (size_t i = 0; i < n; i += 8) access((char*) a + i, false); }
void __tsan_write_range(void* a, size_t n) { for (size_t i = 0; i < n; i += 8) access((char*) a + i, true); }
void __tsan_vptr_update(void** a, void*) { access(a, true); }
void __tsan_vptr_read(void** a) { access(a, false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int) { access(a, false); return *a; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { access(a, true); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access(a, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access(a, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access(a, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access(a, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access(a, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access(a, true); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
        access(a, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
        access(a, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { \
        access(a, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- library calls of the code under test (linked with --wrap)
void* __real_malloc(size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) {
    if (!vs::arena_on || !vs::on) return __real_malloc(n);
    vs::Off off;
    void* p = vs::alloc(n, 16, vs::B_LIVE);
    if (!p) { vs::discard_fiber(); }
    return p;
}
void __wrap_free(void* p) {
    if (!p) return;
    vs::Block* b = vs::findb((uintptr_t) p);
    if (!b) {
        if (vs::arena && (uintptr_t) p - (uintptr_t) vs::arena < vs::ARENA) vs::fail_fiber("free of memory that was never allocated");
        return __real_free(p);
    }
    if (b->p != p) vs::fail_fiber("free of a pointer into the middle of a block");
    if (b->st != vs::B_LIVE && b->st != vs::B_REGION) vs::fail_fiber("double free");
    b->st = vs::B_FREED;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (!vs::arena_on || !vs::on) return __real_posix_memalign(out, al, n);
    vs::Off off;
    if (al > 4096) al = 4096;
    void* p = vs::alloc(n, al, vs::B_REGION);
    if (!p) { vs::discard_fiber(); }
    *out = p;
    return 0;
}
int __wrap_madvise(void*, size_t, int) { return 0; }
void masstree_verif_pool_acquire(void* p, size_t sz) {
    vs::Off off;
    vs::Block* b = vs::findb((uintptr_t) p);
    if (!b) return;
    if (b->p == p && b->st != vs::B_REGION) {
        if (b->pool && b->st == vs::B_LIVE) vs::fail_fiber("a pool block was handed out twice");
        b->st = vs::B_LIVE;
        b->pool = true;
    } else {
        vs::blks.push_back(vs::Block{(char*) p, sz, vs::B_LIVE, true});
        vs::setshadow((char*) p, sz, (uint32_t) vs::blks.size());
    }
}
void masstree_verif_pool_release(void* p, size_t sz) {
    vs::Off off;
    vs::Block* b = vs::findb((uintptr_t) p);
    if (!b) return;
    if (b->p != p) vs::fail_fiber("pool release of a pointer into the middle of a block");
    if (b->st != vs::B_LIVE) vs::fail_fiber("double free of a pool block");
    if (b->sz != sz) vs::fail_fiber("pool block released with another size class than it was allocated with");
    b->st = vs::B_POOLFREE;
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (!vs::on) return __real_memmove(d, s, n);
    char* dd = (char*) d;
    const char* ss = (const char*) s;
    if (dd <= ss || dd >= ss + n) {
        for (size_t i = 0; i < n; i += 8) {
            size_t k = n - i < 8 ? n - i : 8;
            access(ss + i, false);
            uint64_t t;
            __real_memcpy(&t, ss + i, k);
            access(dd + i, true);
            __real_memcpy(dd + i, &t, k);
        }
    } else {
        for (size_t i = n; i > 0;) {
            size_t k = i % 8 ? i % 8 : 8;
            i -= k;
            access(ss + i, false);
            uint64_t t;
            __real_memcpy(&t, ss + i, k);
            access(dd + i, true);
            __real_memcpy(dd + i, &t, k);
        }
    }
    return d;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (!vs::on) return __real_memcpy(d, s, n);
    return __wrap_memmove(d, s, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (vs::on)
        for (size_t i = 0; i < n; i += 8) { access((const char*) a + i, false); access((const char*) b + i, false); }
    return __real_memcmp(a, b, n);
}
}
