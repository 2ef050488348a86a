// pbt.hh -- property-based testing core used by every C++ harness in /verif.
//
// A test case is a function of a stream of bounded choices (Src::below).  In
// generation mode choices come from a PRNG seeded with mix(seed, case index);
// every choice is recorded, so a failing case *is* its choice sequence: it can
// be replayed, and shrunk generically (delete chunks, zero chunks, lower
// values), whatever structure the harness builds on top.  Cases run in forked
// workers, so aborts, sanitizer reports, crashes and hangs are failures like
// any other and shrink the same way.
#ifndef VERIF_PBT_HH
#define VERIF_PBT_HH
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    throw Failure{buf};
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}

enum { MAXCHOICE = 1 << 20, MAXTAG = 96, SAMPLESZ = 1 << 15, MSGSZ = 1 << 14 };

struct Shared {
    volatile uint64_t cases, nontrivial, distinct, discarded, cur;
    volatile int failed, done;
    volatile uint64_t nchoice;
    char tagname[MAXTAG][40];
    uint64_t tagcount[MAXTAG];
    uint64_t tagtotal[MAXTAG];
    int ntag;
    int nsample, samplelen;
    char sample[SAMPLESZ];
    char msg[MSGSZ];
    uint64_t nhash;
    uint64_t choice[MAXCHOICE];
};

inline Shared*& shm() { static Shared* s; return s; }

class Src {
  public:
    explicit Src(uint64_t seed, uint64_t index)
        : replay_(false), st_(mix64(seed * 0x100000001B3ULL + mix64(index))), index_(index) { shm()->nchoice = 0; }
    explicit Src(const std::vector<uint64_t>& in)
        : replay_(true), in_(in), st_(0), index_(0) { shm()->nchoice = 0; }

    // uniform in [0, n)
    uint64_t below(uint64_t n) {
        if (n <= 1)
            return 0;
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            ++pos_;
            if (v >= n)
                v %= n;
        } else
            v = n > 0xFFFFFFFFULL ? next() % n : (uint64_t) (((unsigned __int128) next() * n) >> 64);
        record(v);
        return v;
    }
    uint64_t bits64() {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            ++pos_;
        } else
            v = next();
        record(v);
        return v;
    }
    int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }   // inclusive
    bool coin() { return below(2); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    // continue a loop whose expected length is avg; shrinks to "stop"
    bool more(unsigned avg) { return below(avg + 1) != 0; }
    // weighted choice; shrinks to alternative 0
    int weighted(std::initializer_list<int> w) {
        int t = 0;
        for (int x : w) t += x;
        int v = (int) below(t), i = 0;
        for (int x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return i - 1;
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    std::string bytes(int len) {
        std::string r;
        for (int i = 0; i < len; ++i) r.push_back((char) below(256));
        return r;
    }
    // trace (only kept when samples or replays are shown)
    bool noting = false;
    int notefd = -1;            // replays: written as it happens, survives an abort
    std::string trace;
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!noting)
            return;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        if (notefd >= 0) { if (syscall(SYS_write, notefd, buf, strlen(buf)) < 0) {} }   // (write() may be wrapped)
        else if (trace.size() < (1 << 18))
            trace += buf;
    }
    // coverage report
    bool nontrivial = false, discarded = false;
    void tag(const char* name, uint64_t n = 1) {
        Shared* s = shm();
        for (int i = 0; i < s->ntag; ++i)
            if (!strcmp(s->tagname[i], name)) {
                s->tagtotal[i] += n;
                tagged_ |= i < 64 ? 1ULL << i : 0;
                if (i >= 64) s->tagcount[i] += 1;
                return;
            }
        if (s->ntag < MAXTAG) {
            int i = s->ntag++;
            snprintf(s->tagname[i], sizeof(s->tagname[i]), "%s", name);
            s->tagtotal[i] += n;
            tagged_ |= i < 64 ? 1ULL << i : 0;
        }
    }
    void finish_tags() {
        for (int i = 0; i < 64; ++i)
            if (tagged_ >> i & 1) shm()->tagcount[i] += 1;
    }
    uint64_t index() const { return index_; }
    uint64_t hash() const { return hash_; }
    // Drawing in a forked child: it saves its position, the parent takes it over.
    struct State { size_t pos; uint64_t st, tagged, hash; bool nontrivial, discarded; };
    State save() const { return State{pos_, st_, tagged_, hash_, nontrivial, discarded}; }
    void restore(const State& x) { pos_ = x.pos; st_ = x.st; tagged_ = x.tagged; hash_ = x.hash; nontrivial = x.nontrivial; discarded = x.discarded; }
    bool exhausted() const { return replay_ && pos_ > in_.size() + 100000; }
  private:
    bool replay_;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    uint64_t st_;
    uint64_t index_;
    uint64_t tagged_ = 0;
    uint64_t hash_ = 0xcbf29ce484222325ULL;
    uint64_t next() { st_ += 0x9E3779B97F4A7C15ULL; return mix64(st_); }
    void record(uint64_t v) {
        Shared* s = shm();
        if (s->nchoice < MAXCHOICE)
            s->choice[s->nchoice] = v;
        s->nchoice = s->nchoice + 1;
        hash_ = (hash_ ^ v) * 0x100000001B3ULL;
        hash_ ^= hash_ >> 29;
    }
};

// Keep running a case for at most this much CPU time before calling it a hang.
struct Options {
    unsigned hang_cpu_s = 40;
    unsigned shrink_s = 60;
    unsigned shrink_attempts = 4000;
    bool fork_each = false;      // run every case in its own process
    std::function<void()> worker_init;
};

inline std::string hexs(const std::string& s, size_t max = 80) {
    std::string r = "\"";
    char b[8];
    size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= max) { r += "..."; break; }
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r.push_back((char) c);
        else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; }
    }
    r += "\"";
    return r;
}

inline void arm(unsigned s) {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, 0);
}

typedef void (*case_fn)(Src&);

// Run one case; on an oracle failure store the message and _exit(77).
inline void run_one(case_fn f, Src& s, const Options& o) {
    arm(o.hang_cpu_s);
    try {
        f(s);
    } catch (Failure& e) {
        snprintf(shm()->msg, MSGSZ, "%s", e.msg.c_str());
        shm()->failed = 1;
        _exit(77);
    } catch (std::exception& e) {
        snprintf(shm()->msg, MSGSZ, "uncaught exception: %s", e.what());
        shm()->failed = 1;
        _exit(77);
    }
    arm(0);
}

inline std::string status_text(int st) {
    char b[128];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
        return shm()->msg;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM))
        return "case did not terminate (CPU time limit)";
    if (WIFSIGNALED(st))
        snprintf(b, sizeof(b), "process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else
        snprintf(b, sizeof(b), "process exited with status %d (sanitizer report or abort)", WEXITSTATUS(st));
    return b;
}

// Fork and run a choice sequence.  Returns true if it failed.
inline bool attempt(case_fn f, const std::vector<uint64_t>& in, const Options& o, std::string* why,
                    std::vector<uint64_t>* used, bool verbose = false, std::string* trace = 0, unsigned hang = 0) {
    fflush(stdout); fflush(stderr);
    shm()->failed = 0;
    shm()->msg[0] = 0;
    int tp[2] = {-1, -1};
    if (verbose && pipe(tp) != 0) tp[0] = tp[1] = -1;
    pid_t p = fork();
    if (p == 0) {
        if (!verbose) {
            int nfd = open("/dev/null", O_WRONLY);
            dup2(nfd, 1); dup2(nfd, 2);
        }
        if (o.worker_init) o.worker_init();
        Options oo = o;
        if (hang) oo.hang_cpu_s = hang;
        Src s(in);
        s.noting = verbose;
        if (verbose) {
            arm(oo.hang_cpu_s);
            close(tp[0]);
            s.notefd = tp[1];
            try { f(s); }
            catch (Failure& e) { snprintf(shm()->msg, MSGSZ, "%s", e.msg.c_str()); _exit(77); }
            _exit(0);
        }
        run_one(f, s, oo);
        _exit(0);
    }
    if (verbose) {
        close(tp[1]);
        char b[4096];
        ssize_t r;
        while ((r = read(tp[0], b, sizeof(b))) > 0)
            if (trace) trace->append(b, r);
        close(tp[0]);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && why) *why = status_text(st);
    if (used) {
        size_t n = std::min((uint64_t) shm()->nchoice, (uint64_t) MAXCHOICE);
        used->assign(shm()->choice, shm()->choice + n);
    }
    return bad;
}

inline double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::vector<uint64_t> shrink(case_fn f, std::vector<uint64_t> cur, const Options& o, std::string& why) {
    double deadline = now() + o.shrink_s;
    unsigned n = 0;
    bool hang = why.find("did not terminate") != std::string::npos;
    unsigned hl = hang ? 4 : 0;
    auto cls = [](const std::string& w) {      // same kind of failure: text up to the first datum
        size_t n = 0;
        while (n < w.size() && n < 24 && w[n] != '"' && !isdigit((unsigned char) w[n]) && w[n] != '(') ++n;
        return w.substr(0, n);
    };
    std::string cls0 = cls(why);
    auto try_ = [&](std::vector<uint64_t>& c) -> bool {
        if (now() > deadline || n++ > o.shrink_attempts) return false;
        std::string w;
        std::vector<uint64_t> used;
        if (!attempt(f, c, o, &w, &used, false, 0, hl)) return false;
        if (cls(w) != cls0) return false;
        why = w;
        if (used.size() < c.size()) c.assign(used.begin(), used.end());
        return true;
    };
    bool progress = true;
    while (progress && now() < deadline && n < o.shrink_attempts) {
        progress = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= cur.size();) {
                std::vector<uint64_t> c(cur);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (try_(c)) { cur = c; progress = true; }
                else i += len;
                if (now() > deadline || n > o.shrink_attempts) goto out;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, cur.size() / 4); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= cur.size(); i += len) {
                bool nz = false;
                for (size_t k = i; k < i + len; ++k) nz |= cur[k] != 0;
                if (!nz) continue;
                std::vector<uint64_t> c(cur);
                std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (try_(c)) { cur = c; progress = true; }
                if (i >= cur.size() || now() > deadline || n > o.shrink_attempts) break;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < cur.size(); ++i)
            for (int k = 0; k < 8 && i < cur.size() && cur[i]; ++k) {
                std::vector<uint64_t> c(cur);
                c[i] = k < 4 ? c[i] / 2 : c[i] - 1;
                if (try_(c)) { cur = c; progress = true; }
                else if (k >= 4) break;
                else k = 3;
                if (now() > deadline || n > o.shrink_attempts) goto out;
            }
    }
out:
    return cur;
}

inline void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

inline int main_(int argc, char** argv, case_fn f, const char* name, Options o = Options()) {
    uint64_t seed = 1, start = 0, cases = 1000;
    double timecap = 1e9;
    const char *out = 0, *failfile = 0, *replay = 0, *hashfile = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*) ""; };
        if (a == "--seed") seed = strtoull(val(), 0, 0);
        else if (a == "--start") start = strtoull(val(), 0, 0);
        else if (a == "--cases") cases = strtoull(val(), 0, 0);
        else if (a == "--time") timecap = atof(val());
        else if (a == "--out") out = val();
        else if (a == "--fail") failfile = val();
        else if (a == "--hashes") hashfile = val();
        else if (a == "--replay") replay = val();
        else if (a == "--shrink-s") o.shrink_s = atoi(val());
    }
    shm() = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (replay) {
        FILE* rf = fopen(replay, "r");
        if (!rf) { perror(replay); return 2; }
        std::vector<uint64_t> in;
        char line[1 << 16];
        bool have = false, range = false;
        uint64_t rseed = 0, ra = 0, rb = 0;
        while (fgets(line, sizeof(line), rf)) {
            if (!strncmp(line, "choices:", 8)) {
                have = true;
                for (char* p = line + 8; *p && *p != '\n';) {
                    char* e;
                    uint64_t v = strtoull(p, &e, 10);
                    if (e == p) break;
                    in.push_back(v);
                    p = e;
                }
            } else if (sscanf(line, "range: seed=%lu from=%lu to=%lu", &rseed, &ra, &rb) == 3)
                range = true;
        }
        fclose(rf);
        if (range) {
            pid_t p = fork();
            if (p == 0) {
                if (o.worker_init) o.worker_init();
                for (uint64_t i = ra; i <= rb; ++i) { Src s(rseed, i); run_one(f, s, o); }
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            printf("%s: %s\n", bad ? "FAIL" : "PASS", bad ? status_text(st).c_str() : "");
            return bad;
        }
        if (!have) return 2;
        std::string why, trace;
        bool bad = attempt(f, in, o, &why, 0, true, &trace);
        fputs(trace.c_str(), stdout);
        printf("%s: %s\n", bad ? "FAIL" : "PASS", why.c_str());
        return bad ? 1 : 0;
    }

    Shared* s = shm();
    double t0 = now();
    int hfd = -1;
    if (hashfile) hfd = open(hashfile, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    fflush(stdout);
    std::unordered_set<uint64_t> seen;
    s->cur = start;
    pid_t p = fork();
    if (p == 0) {
        if (o.worker_init) o.worker_init();
        std::vector<uint64_t> hbuf;
        auto flushh = [&]() {
            if (hfd >= 0 && !hbuf.empty() && syscall(SYS_write, hfd, hbuf.data(), hbuf.size() * 8) < 0) {}
            hbuf.clear();
        };
        uint64_t samplestep = std::max<uint64_t>(1, cases / 3);
        for (uint64_t i = start; i < start + cases; ++i) {
            if (now() - t0 > timecap)
                break;
            s->cur = i;
            Src src(seed, i);
            bool want = s->nsample < 3 && (uint64_t) s->nsample * samplestep <= i - start;
            src.noting = want;
            if (o.fork_each) {
                fflush(stdout);
                pid_t q = fork();
                if (q == 0) {
                    run_one(f, src, o);
                    src.finish_tags();
                    s->nhash = src.hash();
                    s->done = src.nontrivial ? 2 : src.discarded ? 3 : 1;
                    if (want && src.nontrivial) {
                        int n = snprintf(s->sample + s->samplelen, SAMPLESZ / 3, "%s", src.trace.c_str());
                        s->samplelen += std::min(n, SAMPLESZ / 3 - 1) + 1;
                        s->nsample = s->nsample + 1;
                    }
                    _exit(0);
                }
                int st;
                while (waitpid(q, &st, 0) < 0 && errno == EINTR) {}
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
                    _exit(WEXITSTATUS(st));
                }
                s->cases = s->cases + 1;
                if (s->done == 3) s->discarded = s->discarded + 1;
                if (s->done == 2) {
                    s->nontrivial = s->nontrivial + 1;
                    if (seen.insert(s->nhash).second) { s->distinct = s->distinct + 1; hbuf.push_back(s->nhash); }
                }
            } else {
                run_one(f, src, o);
                src.finish_tags();
                s->cases = s->cases + 1;
                if (src.discarded) s->discarded = s->discarded + 1;
                if (src.nontrivial) {
                    s->nontrivial = s->nontrivial + 1;
                    if (seen.insert(src.hash()).second) { s->distinct = s->distinct + 1; hbuf.push_back(src.hash()); }
                    if (want) {
                        int n = snprintf(s->sample + s->samplelen, SAMPLESZ / 3, "%s", src.trace.c_str());
                        s->samplelen += std::min(n, SAMPLESZ / 3 - 1) + 1;
                        s->nsample = s->nsample + 1;
                    }
                }
            }
            if (hbuf.size() > 8192) flushh();
        }
        flushh();
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    int rc = 0;
    uint64_t badcase = s->cur;
    std::string why, kind;
    if (bad) {
        rc = 1;
        why = status_text(st);
        fprintf(stderr, "%s: case seed=%lu index=%lu failed: %s\n", name, seed, badcase, why.c_str());
        // fresh-process confirmation: regenerate the case alone
        std::vector<uint64_t> cs(s->choice, s->choice + std::min((uint64_t) s->nchoice, (uint64_t) MAXCHOICE));
        std::string w;
        bool again = attempt(f, cs, o, &w, 0);
        std::string trace;
        if (again) {
            why = w;
            cs = shrink(f, cs, o, why);
            int k = 0;
            for (int r = 0; r < 3; ++r)
                k += attempt(f, cs, o, &w, 0, r == 2, r == 2 ? &trace : 0);
            kind = k == 3 ? "choices" : "unstable";
            if (k == 3) why = w;
        } else {
            // depends on earlier cases of the same process: replay the range
            int k = 0;
            for (int r = 0; r < 3; ++r) {
                pid_t q = fork();
                if (q == 0) {
                    int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 1); dup2(nfd, 2);
                    if (o.worker_init) o.worker_init();
                    for (uint64_t i = start; i <= badcase; ++i) { Src src(seed, i); run_one(f, src, o); }
                    _exit(0);
                }
                int st2; waitpid(q, &st2, 0);
                k += !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0);
            }
            kind = k == 3 ? "range" : "unstable";
        }
        if (failfile) {
            FILE* ff = fopen(failfile, "w");
            if (ff) {
                fprintf(ff, "# %s: %s\n# found at seed=%lu case=%lu\n", name, why.c_str(), seed, badcase);
                if (kind == "range")
                    fprintf(ff, "range: seed=%lu from=%lu to=%lu\n", seed, start, badcase);
                else {
                    fprintf(ff, "choices:");
                    size_t col = 0;
                    for (uint64_t v : cs) {
                        if (col++ == 200) { fprintf(ff, "\nchoices:"); col = 1; }
                        fprintf(ff, " %lu", v);
                    }
                    fprintf(ff, "\n");
                }
                // human-readable trace of the minimal case
                size_t b = 0;
                while (b < trace.size()) {
                    size_t e = trace.find('\n', b);
                    if (e == std::string::npos) e = trace.size();
                    fprintf(ff, "# %.*s\n", (int) (e - b), trace.data() + b);
                    b = e + 1;
                }
                fclose(ff);
            }
        }
    }
    if (out) {
        FILE* of = fopen(out, "w");
        if (of) {
            fprintf(of, "{\"harness\":\"%s\",\"seed\":%lu,\"start\":%lu,\"cases\":%lu,\"nontrivial\":%lu,\"distinct\":%lu,\"discarded\":%lu,\"wall\":%.2f,\"failed\":%d,\"kind\":\"%s\",\"why\":",
                    name, seed, start, s->cases, s->nontrivial, s->distinct, s->discarded, now() - t0, rc, kind.c_str());
            json_str(of, why.c_str());
            fprintf(of, ",\"tags\":{");
            for (int i = 0; i < s->ntag; ++i)
                fprintf(of, "%s\"%s\":[%lu,%lu]", i ? "," : "", s->tagname[i], s->tagcount[i], s->tagtotal[i]);
            fprintf(of, "},\"samples\":[");
            const char* sp = s->sample;
            for (int i = 0; i < s->nsample; ++i) {
                if (i) fputc(',', of);
                json_str(of, sp);
                sp += strlen(sp) + 1;
            }
            fprintf(of, "]}\n");
            fclose(of);
        }
    }
    return rc;
}

} // namespace pbt
#endif
