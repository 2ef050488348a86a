// U06: whole-file reads and writes under injected faults, with the real kernel's files behind them.
// U07: output buffers, and the client connection against a scripted server.
// Linked with --wrap for the calls below; outside `inj` they go straight through.
#include "kvio.hh"
#include "json.hh"
using lcdf::Str;
using lcdf::Json;
using lcdf::String;
#include "file.hh"
#include "mtclient.hh"
#include "wire.hh"
#include "pbt.hh"
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <deque>
#include <functional>
#include <map>
using pbt::Src;
typedef std::string B;
using wire::V;

static Src* inj;                // faults are being injected
enum { FAKEFD = 900 };          // the simulated peer (below FD_SETSIZE)
struct Peer {
    virtual ssize_t write(const char* p, size_t n) = 0;
    virtual ssize_t read(char* p, size_t n) = 0;
    virtual bool readable() = 0;
    virtual void wait() {}
};
static Peer* peer;
static int hard, soft, worstcase;       // injected so far: failures; interruptions and short counts
static int faultrate;
static std::function<void(const char*)> probe;
static std::map<std::pair<dev_t, ino_t>, bool> unsynced;        // files with data not known to be on disk
static std::pair<dev_t, ino_t> inode(int fd) { struct stat st; if (fstat(fd, &st)) return {}; return {st.st_dev, st.st_ino}; }
static std::pair<dev_t, ino_t> inode(const char* f) { struct stat st; if (stat(f, &st)) return {}; return {st.st_dev, st.st_ino}; }
static bool fault(const char* what, int e) {
    if (!inj || !inj->chance(faultrate, 60)) return false;
    ++hard;
    if (inj->noting) inj->note("%s fails with %s\n", what, strerrorname_np(e));
    errno = e;
    return true;
}
static bool eintr(const char* what) {
    if (!inj || !inj->chance(1, 5)) return false;
    ++soft;
    if (inj->noting) inj->note("%s is interrupted\n", what);
    errno = EINTR;
    return true;
}
static size_t less(const char* what, size_t n) {
    if (!inj || n < 2 || !inj->chance(1, 3)) return n;
    size_t m = inj->coin() ? 1 + inj->below(n - 1) : inj->coin() ? 1 : n - 1;
    ++soft;
    if (inj->noting) inj->note("%s %zu of %zu bytes\n", what, m, n);
    return m;
}
// (what is found inside a call that cannot throw is reported after the operation)
static B found;
template <typename F> static void guarded(F f) { int e = errno; try { f(); } catch (pbt::Failure& x) { if (found.empty()) found = x.msg; } errno = e; }
#define PROBE(w) do { if (inj && probe) guarded([&] { probe(w); }); } while (0)
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_open(const char*, int, mode_t);
int __real_close(int);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_rename(const char*, const char*);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __real_usleep(unsigned);
ssize_t __wrap_read(int fd, void* p, size_t n) {
    if (fd == FAKEFD) return peer->read((char*) p, n);
    if (!inj) return __real_read(fd, p, n);
    if (eintr("read") || fault("read", EIO)) return -1;
    return __real_read(fd, p, less("read gets", n));
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (fd == FAKEFD) return peer->write((const char*) p, n);
    if (!inj) return __real_write(fd, p, n);
    if (eintr("write") || fault("write", inj->coin() ? ENOSPC : EIO)) return -1;
    ssize_t r = __real_write(fd, p, less("write puts", n));
    if (r > 0) unsynced[inode(fd)] = true;
    PROBE("write");
    return r;
}
int __wrap_open(const char* f, int fl, mode_t m) {
    if (inj && fault("open", inj->coin() ? EMFILE : EACCES)) return -1;
    int fd = __real_open(f, fl, m);
    if (fd >= 0 && inj && (fl & (O_TRUNC | O_CREAT))) unsynced[inode(fd)] = true;
    PROBE("open");
    return fd;
}
int __wrap_open64(const char* f, int fl, mode_t m) { return __wrap_open(f, fl, m); }
int __wrap_close(int fd) {
    if (fd == FAKEFD) return 0;
    int r = __real_close(fd);
    if (inj && fault("close", EIO)) return -1;
    PROBE("close");
    return r;
}
int __wrap_fsync(int fd) {
    if (inj && fault("fsync", EIO)) return -1;
    int r = inj ? 0 : __real_fsync(fd);
    if (inj && !r) unsynced[inode(fd)] = false;
    PROBE("fsync");
    return r;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_rename(const char* a, const char* b) {
    if (inj && fault("rename", EIO)) return -1;
    if (inj) {
        auto i = inode(a);
        if (unsynced[i]) guarded([&] { pbt::fail("%s replaces the file before its contents are on disk", strrchr(a, '/') + 1); });
    }
    int r = __real_rename(a, b);
    PROBE("rename");
    return r;
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
    if (n != FAKEFD + 1 || !r || !FD_ISSET(FAKEFD, r)) return __real_select(n, r, w, x, tv);
    if (peer->readable()) return 1;
    PBT_CHECK(tv, "select waits forever");
    FD_CLR(FAKEFD, r);
    return 0;
}
int __wrap_poll(struct pollfd*, unsigned long, int) { return peer && peer->readable(); }
int __wrap_usleep(unsigned n) { if (peer) { peer->wait(); return 0; } return __real_usleep(n); }
void __wrap_perror(const char*) {}
}

// ------------------------------------------------------------ U06
static B dir;
static B slurp(const B& f, bool& there) {
    Src* was = inj;
    inj = 0;
    B r;
    int fd = __real_open(f.c_str(), O_RDONLY, 0);
    there = fd >= 0;
    if (there) {
        char b[65536];
        ssize_t n;
        while ((n = __real_read(fd, b, sizeof(b))) > 0) r.append(b, n);
        __real_close(fd);
    }
    inj = was;
    return r;
}
static void put(const B& f, const B& c) {
    int fd = __real_open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    for (size_t k = 0; k < c.size(); ) { ssize_t n = __real_write(fd, c.data() + k, c.size() - k); if (n <= 0) break; k += n; }
    __real_close(fd);
}
static int openfds() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
static B contents(Src& s) {
    size_t n;
    switch (s.weighted({1, 4, 4, 2})) {
    case 0: n = 0; break;
    case 1: n = s.below(200); break;
    case 2: { static const int e[] = {4096, 8192, 4095, 4097, 8191, 8193, 1, 12288}; n = e[s.below(8)]; break; }
    default: n = s.below(40000);
    }
    B b(n, 0);
    uint64_t x = s.below(1000000);
    for (auto& c : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char) (x >> 33); }
    return b;
}
struct Armed {
    Armed(Src& s, int rate) { hard = soft = 0; found.clear(); faultrate = rate; inj = &s; }
    ~Armed() { inj = 0; probe = nullptr; }
};
static void files(Src& s) {
    B f = dir + "/f", tmp = f + ".tmp";
    int rate = s.coin() ? 0 : 1 + (int) s.below(12);
    B old = contents(s), neu = contents(s);
    bool had = s.chance(3, 4), left = s.chance(1, 3);
    ::unlink(f.c_str());
    ::unlink(tmp.c_str());
    if (had) put(f, old);
    if (left) put(tmp, contents(s));
    unsynced.clear();
    String str(neu.data(), (int) neu.size());
    int fds = openfds();
    mode_t mode = s.coin() ? 0666 : 0600;
    int which = (int) s.below(6);
    if (s.noting) s.note("file: %s, %zu bytes; leftover %d; new contents: %zu bytes; operation %d\n", had ? "exists" : "absent", had ? old.size() : 0, (int) left, neu.size(), which);
    int rounds = 1 + (int) s.below(2);
    for (int round = 0; round < rounds; ++round) {
        bool there;
        if (which < 3) {                                // replace the file
            auto whole = [&](const char* when) {
                bool t;
                B now = slurp(f, t);
                PBT_CHECK(t ? (had && now == old) || now == neu : !had, "after %s: the file has %zu bytes and is neither the old nor the new version", when, now.size());
            };
            int r;
            {
                Armed a(s, rate);
                probe = whole;
                r = atomic_write_file_contents(f.c_str(), str, mode);
            }
            whole("atomic_write_file_contents");
            B now = slurp(f, there);
            if (r == 0) {
                PBT_CHECK(there && now == neu, "atomic_write_file_contents succeeds but the file has other contents (%zu bytes, want %zu)", now.size(), neu.size());
                had = true; old = now;
                struct stat st;
                PBT_CHECK(!stat(f.c_str(), &st) && (left || (st.st_mode & 0777) == (mode & ~022)), "the file has mode %o", st.st_mode & 0777);
                PBT_CHECK(!unsynced[inode(f.c_str())], "atomic_write_file_contents succeeds with contents that are not on disk");
            } else
                PBT_CHECK(hard, "atomic_write_file_contents fails though no call failed");
            neu = contents(s);
            left = r != 0;
            str = String(neu.data(), (int) neu.size());
        } else if (which == 3) {                        // write in place
            int r;
            { Armed a(s, rate); r = sync_write_file_contents(f.c_str(), str, mode); }
            B now = slurp(f, there);
            if (r == 0) {
                PBT_CHECK(there && now == neu, "sync_write_file_contents succeeds but the file has other contents (%zu bytes, want %zu)", now.size(), neu.size());
                PBT_CHECK(!unsynced[inode(f.c_str())], "sync_write_file_contents succeeds with contents that are not on disk");
            } else {
                PBT_CHECK(hard, "sync_write_file_contents fails though no call failed");
                // a failed call leaves a prefix of the new contents, or the file untouched
                PBT_CHECK(!there || (had && now == old) || now == neu.substr(0, now.size()), "a failed sync_write_file_contents leaves foreign contents");
            }
        } else {                                        // read
            String got;
            errno = 0;
            int e;
            bool byfd = s.coin();
            int fd = byfd ? __real_open(f.c_str(), O_RDONLY, 0) : -1;
            if (byfd && fd < 0) return;
            size_t skip = 0;
            if (byfd && s.coin()) { skip = s.below(old.size() + 1); lseek(fd, skip, SEEK_SET); }
            {
                Armed a(s, rate);
                if (byfd) got = read_file_contents(fd);
                else { got = read_file_contents(f.c_str()); }
                e = errno;
            }
            if (byfd) __real_close(fd);
            if (hard || !had)
                // a failed close() loses nothing
                PBT_CHECK((!got.length() && e != 0) || (had && B(got.data(), got.length()) == old.substr(skip)), "a failed read_file_contents returns %d bytes, errno %d", got.length(), e);
            else {
                PBT_CHECK(B(got.data(), got.length()) == old.substr(skip), "read_file_contents returns %d bytes of %zu", got.length(), old.size() - skip);
                PBT_CHECK(e == 0, "a successful read_file_contents sets errno to %d", e);
            }
        }
        PBT_CHECK(found.empty(), "%s", found.c_str());
        if (hard) s.tag("failure");
        if (soft) s.tag("interruption or short count");
        if (hard || soft) s.nontrivial = true;
    }
    PBT_CHECK(openfds() == fds, "%d file descriptors are open, %d before", openfds(), fds);
}
static void transfers(Src& s) {
    B f = dir + "/t", data = contents(s);
    int rate = s.coin() ? 0 : 1 + (int) s.below(12);
    bool rd = s.coin();
    put(f, rd ? data : B());
    int fd = __real_open(f.c_str(), rd ? O_RDONLY : O_WRONLY, 0);
    size_t pos = 0;
    for (int k = 1 + (int) s.below(4); k > 0; --k) {
        size_t n = s.coin() ? s.below(100) : s.below(data.size() + 10);
        ssize_t r;
        int e;
        if (s.noting) s.note("%s %zu bytes at %zu of %zu\n", rd ? "safe_read" : "safe_write", n, pos, data.size());
        if (rd) {
            std::unique_ptr<char[]> b(new char[n]);
            { Armed a(s, rate); r = safe_read(fd, b.get(), n); e = errno; }
            size_t want = std::min(n, data.size() - pos);
            if (hard) {
                PBT_CHECK(r == -1 ? e == EIO : r >= 0 && (size_t) r <= want, "safe_read returns %zd (errno %d)", r, e);
                size_t at = lseek(fd, 0, SEEK_CUR);
                PBT_CHECK(at == pos + (r < 0 ? 0 : r), "safe_read takes %zu bytes from the file and returns %zd", at - pos, r);
            } else
                PBT_CHECK(r == (ssize_t) want, "safe_read returns %zd of %zu bytes", r, want);
            if (r > 0) { PBT_CHECK(!memcmp(b.get(), data.data() + pos, r), "safe_read returns other bytes"); pos += r; }
        } else {
            n = std::min(n, data.size() - pos);
            std::unique_ptr<char[]> b(new char[n]);
            memcpy(b.get(), data.data() + pos, n);
            { Armed a(s, rate); r = safe_write(fd, b.get(), n); e = errno; }
            if (hard) PBT_CHECK(r == -1 ? e == EIO || e == ENOSPC : r >= 0 && (size_t) r <= n, "safe_write returns %zd (errno %d)", r, e);
            else PBT_CHECK(r == (ssize_t) n, "safe_write returns %zd of %zu bytes", r, n);
            if (r > 0) pos += r;
            bool t;
            B now = slurp(f, t);
            PBT_CHECK(now == data.substr(0, pos), "the file has %zu bytes after safe_write returned %zd at %zu", now.size(), r, pos);
        }
        if (hard) s.tag("failure");
        if (soft) s.tag("interruption or short count");
        if (hard || soft) s.nontrivial = true;
    }
    __real_close(fd);
    ::unlink(f.c_str());
}
static void u06(Src& s) { if (s.chance(1, 3)) transfers(s); else files(s); }

// ------------------------------------------------------------ U07: output buffers
static V genval(Src& s, int depth, bool big) {
    switch (s.weighted({3, 2, 3, 1, depth > 0 ? 2 : 0, depth > 0 ? 1 : 0})) {
    case 0: { uint64_t x = s.bits64() >> s.below(64); if (x >> 63) x >>= 1; return s.coin() ? V((int64_t) x) : V(-(int64_t) (x >> 1)); }
    case 1: return s.coin() ? V(s.coin()) : V();
    case 2: { size_t n = s.coin() ? s.below(20) : s.coin() ? s.below(300) : big ? s.below(s.coin() ? 5000 : 150000) : s.below(1000);
              B b(n, 0); uint64_t x = s.below(1000) + n; for (auto& c : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char) (x >> 33); } return V(b); }
    case 3: return V((double) (int64_t) s.below(100000) / 8 + .0625);
    case 4: { V v = V::arr(); for (int n = (int) s.below(s.chance(1, 8) ? 40 : 5); n > 0; --n) v.a.push_back(genval(s, depth - 1, big)); return v; }
    default: { V v = V::map(); int n = (int) s.below(4); for (int k = 0; k < n; ++k) { v.a.push_back(V(B("k") + std::to_string(k) + B(s.below(40), 'x'))); v.a.push_back(genval(s, depth - 1, big)); } return v; }
    }
}
static Json tojson(const V& v) {
    switch (v.t) {
    case V::BOOL: return Json((bool) v.i);
    case V::INT: return Json(v.i);
    case V::DBL: return Json(v.d);
    case V::STR: return Json(String(v.s.data(), (int) v.s.size()));
    case V::ARR: { Json j = Json::make_array(); for (auto& x : v.a) j.push_back(tojson(x)); return j; }
    case V::MAP: { Json j = Json::make_object(); for (size_t k = 0; k + 1 < v.a.size(); k += 2) j.set(String(v.a[k].s.data(), (int) v.a[k].s.size()), tojson(v.a[k + 1])); return j; }
    default: return Json();
    }
}
static bool same(const Json& j, const V& v) {
    switch (v.t) {
    case V::BOOL: return j.is_b() && j.as_b() == (bool) v.i;
    case V::INT: return j.is_i() && j.as_i() == v.i;
    case V::DBL: return j.is_d() && j.as_d() == v.d;
    case V::STR: return j.is_s() && j.as_s().length() == (int) v.s.size() && !memcmp(j.as_s().data(), v.s.data(), v.s.size());
    case V::ARR: if (!j.is_a() || j.size() != (int) v.a.size()) return false; for (size_t k = 0; k < v.a.size(); ++k) if (!same(j[(int) k], v.a[k])) return false; return true;
    case V::MAP: if (!j.is_o() || j.size() != (int) v.a.size() / 2) return false; for (size_t k = 0; k + 1 < v.a.size(); k += 2) if (!same(j.get(lcdf::Str(v.a[k].s.data(), (int) v.a[k].s.size())), v.a[k + 1])) return false; return true;
    default: return j.is_null();
    }
}
struct Sink : Peer {
    Src& s;
    B got;
    int fails = 0, waits = 0, soft = 0;
    bool mayfail;
    Sink(Src& s, bool f) : s(s), mayfail(f) {}
    ssize_t write(const char* p, size_t n) override {
        switch (waits > 3 ? 0 : s.weighted({6, 3, 2, 1, mayfail ? 2 : 0})) {
        case 1: if (n > 1) { n = 1 + s.below(n - 1); ++soft; } break;
        case 2: ++waits; ++soft; errno = EAGAIN; return -1;
        case 3: ++waits; ++soft; errno = EINTR; return -1;
        case 4: ++fails; if (s.noting) s.note("write of %zu bytes fails\n", n); errno = s.coin() ? EPIPE : EIO; return -1;
        }
        waits = 0;
        if (s.noting) s.note("written: %zu bytes\n", n);
        got.append(p, n);
        return n;
    }
    ssize_t read(char*, size_t) override { errno = EIO; return -1; }
    bool readable() override { return false; }
};
static void outbuf(Src& s) {
    bool tofd = s.chance(2, 3);
    Sink sink(s, s.coin());
    peer = &sink;
    int cap = s.coin() ? 1 + (int) s.below(40) : 1 + (int) s.below(3000);
    if (s.noting) s.note(tofd ? "output to a descriptor, %d bytes\n" : "output to memory\n", cap);
    kvout* kv = tofd ? new_kvout(FAKEFD, cap) : new_bufkvout();
    B all;
    auto check = [&](const char* what) {
        PBT_CHECK(kv->n <= kv->capacity, "%s: the buffer holds %u bytes of %u", what, kv->n, kv->capacity);
        PBT_CHECK(sink.got == all.substr(0, sink.got.size()), "%s: the bytes written differ from the bytes appended near %zu", what, sink.got.size());
        PBT_CHECK(sink.got.size() + kv->n == all.size(), "%s: %zu bytes appended, %zu written and %u buffered", what, all.size(), sink.got.size(), kv->n);
        PBT_CHECK(!memcmp(kv->buf, all.data() + sink.got.size(), kv->n), "%s: the buffer holds other bytes", what);
    };
    check("new");
    auto gen = [&](size_t n) { B b(n, 0); for (auto& c : b) c = (char) s.below(256); return b; };
    int ops = 2 + (int) s.below(40);
    for (int k = 0; k < ops; ++k) {
        int f0 = sink.fails;
        switch (s.weighted({4, 4, 3, 1, 3, 2})) {
        case 0: { int n = 1 + (int) s.below(8); if (s.noting) s.note("append x %d\n", n); while (n--) { char c = (char) s.below(256); kv->append(c); all.push_back(c); check("append"); } break; }
        case 1: { B b = gen(s.coin() ? s.below(8) : s.below(700)); if (s.noting) s.note("kvwrite %zu\n", b.size());
                  std::unique_ptr<char[]> p(new char[b.size()]); memcpy(p.get(), b.data(), b.size());
                  int r = kvwrite(kv, p.get(), (unsigned) b.size()); PBT_CHECK(r == (int) b.size(), "kvwrite returns %d", r); all += b; check("kvwrite"); break; }
        case 2: { size_t n = s.coin() ? s.below(8) : s.below(700), use = s.below(n + 1); B b = gen(use); if (s.noting) s.note("reserve %zu, use %zu\n", n, use);
                  char* p = kv->reserve((int) n);
                  PBT_CHECK(p == kv->buf + kv->n && kv->n + n <= kv->capacity, "reserve(%zu) leaves %u of %u", n, kv->n, kv->capacity);
                  memcpy(p, b.data(), use); memset(p + use, 0xee, n - use);
                  if (s.coin()) kv->adjust_length((int) use); else kv->set_end(p + use);
                  all += b; check("reserve"); break; }
        case 3: if (!tofd) { kvout_reset(kv); all.clear(); check("reset"); } break;
        case 4: { V v = genval(s, 2, false); if (s.noting) s.note("unparse %s\n", wire::show(v).c_str());
                  B before = all;
                  msgpack::unparse(*kv, tojson(v));
                  B now = sink.got + B(kv->buf, kv->n);
                  PBT_CHECK(now.size() > before.size() && now.compare(0, before.size(), before) == 0, "unparse changes earlier output");
                  V back; bool bad = false;
                  const unsigned char* e = (const unsigned char*) now.data() + now.size();
                  const unsigned char* r = wire::dec((const unsigned char*) now.data() + before.size(), e, back, bad);
                  PBT_CHECK(r == e && !bad && back == v, "unparse of %s gives %s", wire::show(v).c_str(), wire::show(back).c_str());
                  all = now; break; }
        default: if (tofd) {
                  if (s.noting) s.note("flush\n");
                  kvflush(kv); check("flush");
                  PBT_CHECK(sink.fails > f0 || kv->n == 0, "flush leaves %u bytes", kv->n);
              }
        }
    }
    if (tofd) {
        sink.mayfail = false;
        kvflush(kv);
        PBT_CHECK(sink.got == all, "%zu of %zu bytes are written in the end", sink.got.size(), all.size());
        if (sink.soft && all.size() > (size_t) cap) s.nontrivial = true;
        if (sink.fails) s.tag("failed write");
    } else if (all.size() > 256) s.nontrivial = true;
    free_kvout(kv);
    peer = 0;
}

// ------------------------------------------------------------ U07: the client
struct Server : Peer {
    Src& s;
    B in, out;                          // bytes from the client not decoded yet; to the client not read yet
    std::deque<V> requests;
    std::function<void(const V&)> handle;
    int waits = 0, ended = 0;
    bool eof = false, blocking = false;
    size_t unread = 0;
    Server(Src& s) : s(s) {}
    ssize_t write(const char* p, size_t n) override {
        switch (waits > 3 ? 0 : s.weighted({8, 3, 1, 1})) {
        case 1: if (n > 1) n = 1 + s.below(n - 1); break;
        case 2: ++waits; errno = EAGAIN; return -1;
        case 3: ++waits; errno = EINTR; return -1;
        }
        waits = 0;
        in.append(p, n);
        size_t pos = 0;
        while (pos < in.size()) {
            V v;
            bool bad = false;
            const unsigned char* b = (const unsigned char*) in.data();
            const unsigned char* r = wire::dec(b + pos, b + in.size(), v, bad);
            PBT_CHECK(!bad, "the client sends something that is not MessagePack");
            if (!r) break;
            pos = r - b;
            handle(v);
        }
        in.erase(0, pos);
        return n;
    }
    ssize_t read(char* p, size_t n) override {
        if (!n) return 0;
        if (out.empty()) {
            if (eof) { PBT_CHECK(++ended < 1000, "the client keeps reading after the end of the stream"); return 0; }
            PBT_CHECK(blocking, "the client waits for a reply when there is none");
            return 0;
        }
        if (waits < 3 && s.chance(1, 10)) { ++waits; errno = EINTR; return -1; }
        waits = 0;
        size_t m = std::min(n, out.size());
        switch (s.weighted({3, 2, 1})) {
        case 1: m = 1 + s.below(m); break;
        case 2: m = std::min<size_t>(m, 1 + s.below(20)); break;
        }
        memcpy(p, out.data(), m);
        out.erase(0, m);
        return m;
    }
    bool readable() override { return (!out.empty() && !s.chance(1, 6)) || eof; }
};
static void client(Src& s) {
    Server sv(s);
    peer = &sv;
    std::deque<V> wantreq, wantrep;
    bool big = s.chance(1, 3), tcp = s.coin();
    int partition = (int) s.below(10);
    sv.handle = [&](const V& v) {
        PBT_CHECK(!wantreq.empty(), "the client sends %s, which nobody asked for", wire::show(v).c_str());
        PBT_CHECK(v == wantreq.front(), "the client sends %s, want %s", wire::show(v).c_str(), wire::show(wantreq.front()).c_str());
        wantreq.pop_front();
        // a reply: the request's sequence number, its command plus 1, and anything
        V r = V::arr({v.a[0], V(v.a[1].i + 1)});
        if (v.a[1].i == Cmd_Handshake) { r.a.push_back(V(true)); r.a.push_back(V(partition)); r.a.push_back(V("x")); }
        else for (int n = (int) s.below(s.chance(1, 10) ? 30 : 4); n > 0; --n) r.a.push_back(genval(s, 2, big));
        if (s.noting) s.note("reply %s\n", wire::show(r).c_str());
        sv.out += wire::enc(r, &s);
        if (v.a[1].i != Cmd_Handshake) wantrep.push_back(r);
    };
    if (tcp) wantreq.push_back(V::arr({V(0), V(Cmd_Handshake), V::map({V("core"), V(-1), V("maxkeylen"), V(MASSTREE_MAXKEYLEN)})}));
    {
        KVConn c(FAKEFD, tcp);
        PBT_CHECK(wantreq.empty() && sv.out.empty(), "no handshake takes place");
        unsigned seq = 0;
        int ops = 1 + (int) s.below(30), received = 0;
        size_t bytes = 0;
        auto str = [&](int max) { return B(s.below(max + 1), (char) s.below(256)) + std::to_string(s.below(100)); };
        auto receive = [&]() {
            const Json& j = c.receive();
            PBT_CHECK(!wantrep.empty() && same(j, wantrep.front()), "the client receives %s, want %s", j.unparse().substr(0, 500).c_str(), wire::show(wantrep.front()).c_str());
            bytes += wire::enc(wantrep.front()).size();
            wantrep.pop_front();
            ++received;
        };
        for (int k = 0; k < ops; ++k) {
            ++seq;
            if (s.chance(1, 20)) seq = 0xFFFFFF00u + (unsigned) s.below(250);
            B key = str(s.chance(1, 4) ? 200 : 20), val = str(s.chance(1, 4) ? 3000 : 30);
            lcdf::Str K(key.data(), (int) key.size()), W(val.data(), (int) val.size());
            std::vector<unsigned> cols;
            std::vector<V> vc;
            for (int n = (int) s.below(4); n > 0; --n) { cols.push_back((unsigned) s.below(70)); vc.push_back(V(cols.back())); }
            int col = (int) s.below(300), num = 1 + (int) s.below(1000);
            V r = V::arr({V(seq)});
            auto ex = [&](std::vector<V> x, std::vector<V> y = {}) { for (auto& v : x) r.a.push_back(v); for (auto& v : y) r.a.push_back(v); if (s.noting) s.note("send %s\n", wire::show(r).c_str()); wantreq.push_back(r); };
            switch (s.weighted({2, 2, 1, 2, 2, 1, 1, 1, 3, 8, 3})) {
            case 0: ex({V(Cmd_Get), V(key)}); c.sendgetwhole(K, seq); break;
            case 1: ex({V(Cmd_Get), V(key), V(col)}); c.sendgetcol(K, col, seq); break;
            case 2: ex({V(Cmd_Get), V(key)}, vc); c.sendget(K, cols, seq); break;
            case 3: ex({V(Cmd_Put), V(key), V(col), V(val)}); c.sendputcol(K, col, W, seq); break;
            case 4: ex({V(Cmd_Replace), V(key), V(val)}); c.sendputwhole(K, W, seq); break;
            case 5: ex({V(Cmd_Remove), V(key)}); c.sendremove(K, seq); break;
            case 6: ex({V(Cmd_Scan), V(key), V(num)}); c.sendscanwhole(K, num, seq); break;
            case 7: ex({V(Cmd_Scan), V(key), V(num)}, vc); c.sendscan(K, cols, num, seq); break;
            case 8: if (s.noting) s.note("flush\n"); c.flush(); PBT_CHECK(wantreq.empty(), "flush leaves %zu requests unsent", wantreq.size()); break;
            case 9: if (!wantrep.empty() || !wantreq.empty()) { if (s.noting) s.note("receive\n"); receive(); } break;
            default: { int hard = (int) s.below(2);
                int n = c.check(hard);
                if (s.noting) s.note("check(%d) is %d\n", hard, n);
                PBT_CHECK(n >= 0, "check is %d", n);
                if (n > 0) { PBT_CHECK(!wantrep.empty(), "check sees bytes that nobody sent"); receive(); } }
            }
        }
        while (!wantrep.empty() || !wantreq.empty()) receive();
        sv.eof = true;
        if (s.coin()) {                 // the server goes away in the middle of a reply
            V r = V::arr({V(seq), V(3), genval(s, 2, big), V("tail")});
            B e = wire::enc(r);
            sv.out = e.substr(0, s.below(e.size()));
            const Json& j = c.receive();
            PBT_CHECK(!j, "a truncated reply is received as %s", j.unparse().substr(0, 500).c_str());
        } else {
            const Json& j = c.receive();
            PBT_CHECK(!j, "a reply is received from a closed connection");
        }
        if (received > 2) s.nontrivial = true;
        if (bytes > 65536) s.tag("more than the input buffer");
    }
    peer = 0;
}
static void u07(Src& s) { peer = 0; if (s.coin()) outbuf(s); else client(s); }

static B PROP;
static void one(Src& s) { inj = 0; if (PROP == "U06") u06(s); else u07(s); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    PROP = argv[1];
    umask(022);
    const char* t = getenv("TMPDIR");
    B tmpl = B(t && *t ? t : "/tmp") + "/verif-io-XXXXXX";
    if (!mkdtemp(&tmpl[0])) { perror("mkdtemp"); return 2; }
    dir = tmpl;
    int r = pbt::main_(argc - 1, argv + 1, one, PROP.c_str());
    for (const char* f : {"/f", "/f.tmp", "/t"}) ::unlink((dir + f).c_str());
    ::rmdir(dir.c_str());
    return r;
}
