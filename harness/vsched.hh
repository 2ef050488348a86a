// vsched.hh -- deterministic scheduler for the concurrency harness.
//
// The code under test is compiled with -fsanitize=thread, but linked with the
// callbacks of vsched.cc instead of a sanitizer runtime: every memory access
// and atomic operation outside the running fiber's own stack is a scheduling
// point.  "Threads" are fibers of one OS thread; which one runs after which
// access is decided by the test case, so an interleaving is an input like any
// other.  Memory of the code under test comes from a per-case arena whose
// blocks are never reused by malloc; accesses to freed blocks are failures.
#ifndef VERIF_VSCHED_HH
#define VERIF_VSCHED_HH
#include <functional>
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
namespace vs {
enum BlockState : uint8_t { B_NONE, B_LIVE, B_FREED, B_POOLFREE, B_REGION };
struct Block { char* p; size_t sz; BlockState st; bool pool; };

extern bool on;                 // the running fiber executes code under test
extern uint64_t clock_;         // counts accesses (advance it only through tick())
uint64_t tick();
extern uint64_t fair_after, limit;
extern uint64_t switches;
// schedule source: length of the next run (accesses) and which of n runnable fibers follows
extern std::function<long()> next_run;
extern std::function<int(int)> next_fiber;
// called for an access to a dead block; true: known and tolerated
extern std::function<bool(const Block&)> tolerate;

void reset();                   // new case: empty arena, no fibers
void spawn(std::function<void()> fn);
// Run all spawned fibers to completion.  Returns "" or the failure text.
std::string run();
// Run one function alone (checked accesses, no preemption).
std::string run_alone(std::function<void()> fn);
bool aborted();                 // a failure was raised
[[noreturn]] void fail_fiber(const std::string&);   // end the run with a failure
[[noreturn]] void discard_fiber();                  // end the run without verdict
bool discarded();
int self();
const std::vector<Block>& blocks();
const Block* find(const void* p);
const char* state_name(BlockState);
bool arena_full();
bool set_on(bool);             // opaque, so that the compiler keeps every change of "on"
struct Off { bool was; Off() : was(set_on(false)) {} ~Off() { set_on(was); } };
struct On { bool was; On() : was(set_on(true)) {} ~On() { set_on(was); } };
}
#endif
