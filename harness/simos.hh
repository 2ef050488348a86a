// simos.hh -- a simulated operating system under the unmodified server: threads are fibers that
// switch only at blocking or file calls, time is virtual, sockets are queues the test driver fills
// and drains.  Files are real files in a scratch directory, with a record of what was synced.
// Everything goes through -Wl,--wrap (see specs.py), so the server's own main() runs as it is.
#ifndef VERIF_SIMOS_HH
#define VERIF_SIMOS_HH
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <stdint.h>

namespace sim {

struct Fiber;
struct VFd {
    enum { LISTEN, CONN, PIPE, UDP, EPOLL } kind;
    int fd = -1;
    int port = -1;
    // CONN: bytes for the server; PIPE: bytes
    std::string in;
    bool eof = false;            // peer has shut down its sending side
    bool reset = false;          // peer is gone: reads and writes fail
    bool closed = false;         // closed by the server
    std::string out;             // CONN: bytes the server wrote
    size_t outcap = (size_t) -1; // writes block while out holds this much
    uint64_t nread = 0;          // bytes the server has read
    std::shared_ptr<VFd> peer;   // PIPE: the read end
    std::deque<std::shared_ptr<VFd>> backlog;                       // LISTEN
    std::deque<std::pair<std::string, int>> dgrams;                 // UDP: payload, client
    std::vector<std::pair<std::string, int>> sent;                  // UDP
    std::vector<std::pair<int, void*>> watch;                       // EPOLL
    std::function<void(const std::string&)> onread;                 // CONN/UDP: the server got these bytes
};
typedef std::shared_ptr<VFd> VP;

struct Fiber {
    int id;
    const char* name;
    void* (*fn)(void*);
    void* arg;
    void* stack = 0;
    size_t stacksz = 0;
    bool done = false, started = false, cancelled = false;
    const char* why = "start";
    std::function<bool()> ready;     // blocked until this holds (empty: runnable)
    uint64_t deadline = 0;           // nonzero: also runnable from this time on
    bool timedout = false;
    void* ctx = 0;
    void* fake = 0;
    void* retval = 0;
    bool can_run() const;
};

extern std::vector<Fiber*> fibers;
extern Fiber* cur;                    // null: the driver
extern uint64_t now_us;               // virtual time
extern bool active;                   // calls are simulated
extern bool exited; extern int exitcode;
extern int nfileops, accept_errors;                  // file operations so far
extern std::function<void(const char*)> on_fileop;   // called before each file operation
extern std::function<bool(const char*)> want_yield;  // optional preemption at file operations and hooks
extern std::function<size_t(VP, size_t)> short_write;  // optional: how much of a socket write is taken
extern std::vector<VP> listeners, udps;
extern std::map<int, void (*)(int)> handlers;
extern std::string killed;            // the server received a fatal signal
extern std::string dirprefix;         // files below this are tracked

Fiber* spawn(const char* name, void* (*fn)(void*), void* arg);
void run(Fiber* f);                   // driver: run f until it blocks, yields or ends
std::vector<Fiber*> runnable();
uint64_t next_deadline();             // 0: none
void block(const char* why, std::function<bool()> ready, uint64_t deadline = 0);
void yield(const char* why);
void tick();                          // the server's periodic SIGALRM

// what has reached the disk: by inode, the synced length; files not listed were never written here
struct Sync { uint64_t ino; uint64_t synced; };
extern std::map<uint64_t, uint64_t> synced;
}
#endif
