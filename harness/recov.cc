// L01-L04: the whole server on a simulated OS, run, crashed and restarted.  Every life of the server
// is its own process; a crash keeps what was synced and any part of what was not.  After each restart
// the table clients see must be the state after a prefix (in log epochs) of everything executed.
#include "pbt.hh"
#include "world.hh"
#include "keygen.hh"
#include "circular_int.hh"
#include "log.hh"

static const char* PROP;
static int LP;                  // 1..4
static std::string scratch;
extern "C" unsigned masstree_verif_log_size;
unsigned masstree_verif_log_size = 0;
extern "C" int __wrap_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

enum { SHSZ = 96 << 20 };
struct Shared2 {
    pbt::Src::State st;
    int how;                    // 0 not finished, 1 crashed while recovering, 2 crashed while serving
    uint64_t now_us;
    size_t nhist, low, len, tracelen, basen;
    bool ckp_seen;
    uint64_t startsize[16];     // logs when the server began serving
    char data[1];
};
static Shared2* sh;

struct Enc {
    std::string b;
    void u(uint64_t x) { b.append((char*) &x, 8); }
    void s(const std::string& x) { u(x.size()); b += x; }
};
struct Dec {
    const char* p;
    uint64_t u() { uint64_t x; memcpy(&x, p, 8); p += 8; return x; }
    std::string s() { size_t n = u(); std::string r(p, n); p += n; return r; }
};

struct LogImage {
    bool exists = false;
    size_t size = 0, good = 0;
    uint64_t first = 0, maxepoch = 0, last = 0;
    bool quiescent = false;
    std::vector<uint64_t> wakes;
    unsigned nrec = 0;
    std::string shape;          // record kinds
};

static std::string slurp(const std::string& p, bool* ok = 0) {
    FILE* f = fopen(p.c_str(), "r");
    if (ok) *ok = f;
    if (!f) return "";
    std::string r;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
static LogImage read_log(const std::string& path) {
    LogImage x;
    std::string b = slurp(path, &x.exists);
    x.size = b.size();
    size_t pos = 0;
    while (pos + 8 <= b.size()) {
        uint32_t cmd, sz;
        memcpy(&cmd, &b[pos], 4);
        memcpy(&sz, &b[pos + 4], 4);
        if (sz < 8 || pos + sz > b.size()) break;
        x.quiescent = cmd == logcmd_quiesce;
        if (cmd == logcmd_epoch && sz >= 16) {
            memcpy(&x.last, &b[pos + 8], 8);
            if (!x.first) x.first = x.last;
            x.maxepoch = std::max(x.maxepoch, x.last);
        } else if (cmd == logcmd_wake)
            x.wakes.push_back(x.last);
        if (x.shape.size() < 400)
            x.shape += cmd == logcmd_epoch ? " " + std::to_string(x.last) + ":" : cmd == logcmd_quiesce ? "q" : cmd == logcmd_wake ? "w" : cmd == logcmd_put ? "P" : cmd == logcmd_modify ? "M" : cmd == logcmd_replace ? "R" : cmd == logcmd_remove ? "D" : "?";
        ++x.nrec;
        pos += sz;
    }
    x.good = pos;
    return x;
}

struct Case {
    pbt::Src& s;
    int N = 1;
    bool twodirs = false;
    std::vector<std::string> keys;
    std::vector<Op> hist;        // surviving history and what the current life executed
    size_t low = 0;              // operations that must survive
    size_t basen = 0;            // length of hist when the current life began serving
    std::set<size_t> partial;    // prefixes that may end inside an epoch
    std::string dir;
    uint64_t t0 = 1700000000000000ull;
    unsigned logsize = 0;
    int maxcol = 3, serial = 0;
    bool bigvals = false, arbitrary = false;
    int life = 0, nlives = 2;
    int crash_in_recovery = -1;  // file operation
    bool ckp_seen = false;
    unsigned seqno = 1;
    Case(pbt::Src& src) : s(src) {}

    std::string logpath(int i) const { return dir + (twodirs && i % 2 ? "/d1" : "/d0") + "/kvd-log-" + std::to_string(i); }
    std::string ckdir() const { return dir + "/d0"; }

    std::string value() {
        int w = s.weighted({4, 3, 2, bigvals ? 2 : 0});
        size_t n = w == 0 ? s.below(5) : w == 1 ? s.below(30) : w == 2 ? s.below(300) : 60000 + s.below(200000);
        if (logsize) {
            if (n > logsize / 4) n = logsize / 4;
            if (s.chance(1, 6)) n = s.below(s.coin() ? logsize : 3 * logsize);
        }
        std::string r = std::to_string(++serial);
        if (n == 0) return s.coin() ? r : std::string();
        uint64_t st = serial * 77777 + n;
        while (r.size() < n) { st = st * 6364136223846793005ull + 1442695040888963407ull; r.push_back((char) (st >> 40)); }
        return r;
    }
    Op gen_op() {
        Op o;
        int w = LP == 1 ? s.weighted({12, 2, 3, 1, 1}) : s.weighted({8, 3, 4, 1, 1});
        o.kind = w == 0 ? Op::PUT : w == 1 ? Op::REPLACE : w == 2 ? Op::REMOVE : w == 3 ? Op::GET : Op::SCAN;
        o.key = s.pick(keys);
        if (o.kind == Op::REPLACE) o.ch.push_back({0, value()});
        if (o.kind == Op::PUT) {
            unsigned c = (unsigned) s.below(maxcol);
            if (s.chance(1, 40)) c += (unsigned) s.below(300);
            do {
                o.ch.push_back({c, value()});
                c += 1 + (unsigned) s.below(2);
            } while (s.chance(1, 4));
        }
        if (o.kind == Op::SCAN) o.count = 1 + (int) s.below(20);
        return o;
    }

    // ---------- one life, in its own process
    void finish(int how) {
        Enc e;
        e.u(hist.size());
        for (auto& o : hist) {
            e.u(o.kind); e.u(o.thr); e.u(o.epoch); e.s(o.key); e.u(o.ch.size());
            for (auto& c : o.ch) { e.u(c.first); e.s(c.second); }
        }
        e.u(sim::synced.size());
        for (auto& x : sim::synced) { e.u(x.first); e.u(x.second); }
        e.u(serial);
        if (e.b.size() > SHSZ - 4096) { s.discarded = true; e.b.clear(); }
        memcpy(sh->data, e.b.data(), e.b.size());
        sh->len = e.b.size();
        sh->tracelen = 0;
        if (s.noting && s.notefd < 0) {
            sh->tracelen = std::min(s.trace.size(), (size_t) 200000);
            memcpy(sh->data + e.b.size(), s.trace.data(), sh->tracelen);
        }
        sh->now_us = sim::now_us;
        sh->basen = basen;
        sh->low = low;
        sh->ckp_seen = ckp_seen;
        sh->st = s.save();
        sh->how = how;
        _exit(0);
    }

    void match(const Table& got) {
        // prefixes ending between different epochs, longest first; an epoch can also be cut where a log
        // woke up whose next records were lost (whatever came before its waking was in other logs)
        Table t;
        std::vector<Table> at;
        size_t best = (size_t) -1;
        for (size_t k = 0; k <= hist.size(); ++k) {
            bool boundary = k == 0 || k == basen || k == hist.size() || hist[k].epoch != hist[k - 1].epoch || partial.count(k);
            if (k >= low && boundary && t == got) best = k;
            if (k < hist.size()) apply(t, hist[k], 0);
        }
        if (best == (size_t) -1) {
            Table a, b;
            size_t any = (size_t) -1;
            for (size_t k = 0; k < hist.size(); ++k) {
                if (b == got) any = k;
                apply(b, hist[k], 0);
                if (k + 1 == low) a = b;
            }
            if (b == got) any = hist.size();
            std::string diff;
            for (auto& x : got) { auto it = b.find(x.first); if (it == b.end() || it->second != x.second) { diff = "; e.g. " + pbt::hexs(x.first, 24) + " is not as in the full history"; break; } }
            pbt::fail("recovered table is not the state after any prefix of whole epochs including the first %zu of %zu operations%s: recovered %s, full history gives %s%s",
                      low, hist.size(), any != (size_t) -1 ? (" (it is the state after the first " + std::to_string(any) + ")").c_str() : "",
                      show(got).c_str(), show(b).c_str(), diff.c_str());
        }
        if (s.noting) s.note("  recovered: first %zu of %zu operations (at least %zu)\n", best, hist.size(), low);
        if (best < hist.size()) s.tag("operations lost");
        hist.resize(best);
        low = basen = best;
    }

    void live() {
        World w(s);
        sim::now_us = t0;
        masstree_verif_log_size = logsize;
        w.args = {"mtd", "-j" + std::to_string(N), "--logdir=" + dir + "/d0" + (twodirs ? "," + dir + "/d1" : ""), "--ckdir=" + ckdir()};
        bool autockp = LP == 3 && s.chance(1, 3);
        if (autockp) w.args.push_back("-c2");
        int yieldy = s.chance(3, 4) ? 1 + (int) s.below(3) : 0;      // probability of preemption: yieldy/4
        if (s.chance(1, 3)) w.slow = 1 + (int) s.below(1 + 4 * N);
        bool serving = false;
        int pending_crash = serving ? -1 : crash_in_recovery;
        sim::want_yield = [&](const char* what) { return yieldy && s.below(4) < (unsigned) yieldy; };
        int nops = 0;
        bool torn = false;
        sim::on_fileop = [&](const char* what) {
            if (s.noting) s.note("    [%s]\n", what);
            if (pending_crash >= 0 && pending_crash-- == 0) {
                if (s.noting) s.note("  crash before %s\n", what);
                s.tag(serving ? "crash inside a file operation" : "crash while recovering");
                finish(serving ? 2 : 1);
            }
        };
        w.launch();
        for (int k = 0; !w.serving(); ++k) {
            PBT_CHECK(k < 200000, "the server does not finish recovering");
            if (!w.step(true)) pbt::fail("the server hangs while recovering");
        }
        serving = true;
        pending_crash = -1;
        for (int i = 0; i < N; ++i) {
            struct stat sb;
            sh->startsize[i] = stat(logpath(i).c_str(), &sb) == 0 ? sb.st_size : 0;
        }
        std::vector<Client*> cl;
        for (int i = 0; i < N; ++i) cl.push_back(w.connect(i));
        bool udp = s.chance(1, 3);
        for (int i = 0; udp && i < N; ++i) cl.push_back(w.udp(i, 5000 + i));
        int NC = (int) cl.size();
        // what did it recover?
        Table got;
        {
            Op sc; sc.kind = Op::SCAN; sc.count = 1 << 20;
            wire::V r = w.call(cl[0], request(sc, 7));
            PBT_CHECK(r.t == wire::V::ARR && r.a.size() >= 2 && r.a.size() % 2 == 0 && r.a[0].is(7) && r.a[1].is(5), "bad scan reply %s", wire::show(r).c_str());
            std::string prev;
            for (size_t i = 2; i < r.a.size(); i += 2) {
                PBT_CHECK(r.a[i].t == wire::V::STR && (i == 2 || prev < r.a[i].s), "scan keys out of order in %s", wire::show(r).c_str());
                prev = r.a[i].s;
                Row row;
                if (r.a[i + 1].t == wire::V::STR) row.push_back(r.a[i + 1].s);
                else for (auto& c : r.a[i + 1].a) row.push_back(c.s);
                got[prev] = row;
            }
        }
        match(got);
        Table model = got;
        for (auto& k : keys) {
            Op g; g.kind = Op::GET; g.key = k;
            wire::V r = w.call(cl[s.below(N)], request(g, 8)), want = apply(model, g, 8);
            PBT_CHECK(r == want, "after recovery, %s returns %s, want %s", show(g).c_str(), wire::show(r).c_str(), wire::show(want).c_str());
        }
        if (life + 1 == nlives && LP != 4) { finish(2); }
        // ---------- operations
        struct Out { bool busy = false; Op op; wire::V want; unsigned seq = 0; };
        std::vector<Out> out(NC);
        for (int i = 0; i < NC; ++i) {
            cl[i]->v->onread = [&, i](const std::string&) {
                Out& o = out[i];
                if (!o.busy || !cl[i]->outq.empty() || (!cl[i]->udp && !cl[i]->v->in.empty())) return;
                o.op.epoch = global_log_epoch.value();
                o.op.thr = i % N;
                o.want = apply(model, o.op, o.seq);
                if (cl[i]->udp && wire::enc(o.want).size() > 65507) o.busy = false;      // does not fit: no reply
                if (o.op.mutates()) { hist.push_back(o.op); ++nops; }
                if (s.noting) s.note("  %lu.%03lu thread %d%s epoch %lu: %s\n", (sim::now_us - t0) / 1000000, (sim::now_us - t0) / 1000 % 1000, i % N, i < N ? "" : " (udp)", o.op.epoch, show(o.op).c_str());
            };
        }
        auto check = [&] {
            for (int i = 0; i < NC; ++i) {
                PBT_CHECK(cl[i]->pump(), "malformed reply bytes");
                if (cl[i]->replies.empty()) { PBT_CHECK(!cl[i]->closed(), "the server closed a connection"); continue; }
                wire::V r = cl[i]->replies.front();
                cl[i]->replies.pop_front();
                PBT_CHECK(out[i].busy, "unsolicited reply %s", wire::show(r).c_str());
                PBT_CHECK(r == out[i].want, "%s returned %s, want %s", show(out[i].op).c_str(), wire::show(r).c_str(), wire::show(out[i].want).c_str());
                out[i].busy = false;
            }
        };
        int budget = LP == 1 ? 12 + (int) s.below(60) : LP == 3 ? (int) s.below(80) : (int) s.below(60);
        int ckw = LP == 3 ? 5 : LP == 2 ? 0 : s.chance(1, 4) ? 3 : 0;
        if (arbitrary) ckw = 0;
        int addw = s.pick(std::vector<int>{1, 4, 12});
        // for a while only one thread may have requests, and logs fall many epochs behind each other
        int focus = -1, focusleft = 0;
        bool lopsided = s.chance(LP == 4 ? 2 : 1, 4);
        // start with a populated table?
        if (life == 0 && LP == 3)
            for (auto& k : keys)
                if (s.chance(7, 8)) {
                    Op o; o.kind = Op::PUT; o.key = k; o.ch.push_back({(unsigned) s.below(2), value()});
                    int i = (int) s.below(NC);
                    std::string b = wire::enc(request(o, seqno));
                    if (i >= N && b.size() > 4000) i -= N;
                    out[i].op = o; out[i].seq = seqno++; out[i].busy = true;
                    cl[i]->outq = b;
                    cl[i]->deliver((size_t) -1);
                    for (int k = 0; out[i].busy && k < 1000; ++k) { w.step(true); check(); }
                    PBT_CHECK(!out[i].busy, "no reply");
                }
        bool inckp = false;
        while (budget-- > 0) {
            if (lopsided && focusleft-- <= 0) {
                focus = s.chance(2, 3) ? (int) s.below(N) : -1;
                focusleft = 2 + (int) s.below(8);
                if (s.coin()) w.settle(1000 * (1 + s.below(s.coin() ? 400 : 4000)));
                check();
            }
            switch (s.weighted({10, 5, addw, 2, 1, ckw, 1})) {
            case 0: {                                     // a request
                int i = focus < 0 ? (int) s.below(NC) : focus + N * (int) s.below(NC / N);
                if (out[i].busy) break;
                Op o = gen_op();
                std::string b = wire::enc(request(o, seqno), &s);
                if (i >= N && b.size() > 4000) i -= N;
                if (out[i].busy) break;
                out[i].op = o; out[i].seq = seqno++; out[i].busy = true;
                cl[i]->outq = b;
                if (i < N && s.chance(1, 8)) {
                    cl[i]->deliver(s.below(b.size()));
                    for (int k = (int) s.below(12); k > 0; --k) if (!w.step()) break;
                    check();
                }
                cl[i]->deliver((size_t) -1);
                if (s.chance(3, 4)) for (int k = 0; k < 40 && out[i].busy; ++k) { if (!w.step()) break; check(); }
                break;
            }
            case 1:
                for (int k = 1 + (int) s.below(6); k > 0; --k) if (!w.step()) break;
                break;
            case 2: {
                uint64_t d = sim::next_deadline();
                if (d && s.coin()) sim::now_us = std::max(d, sim::now_us);
                else sim::now_us += 1000 * (1 + s.below(400));
                for (int k = (int) s.below(12); k > 0; --k) if (!w.step()) break;
                break;
            }
            case 3: w.settle(1000 * (1 + s.below(1500))); break;
            case 4: sim::tick(); break;
            case 5: {
                int i = (int) s.below(N);
                if (out[i].busy) break;
                Op o; o.kind = Op::CKP;
                out[i].op = o; out[i].seq = seqno++; out[i].busy = true;
                cl[i]->outq = wire::enc(request(o, out[i].seq));
                cl[i]->deliver((size_t) -1);
                for (int k = 1 + (int) s.below(12); k > 0; --k) if (!w.step()) break;
                inckp = true;
                break;
            }
            case 6: w.drain(2000); break;
            }
            check();
        }
        // ---------- the end of this life
        int end = LP == 1 ? 0 : s.weighted({2, 3, 3});
        if (end == 0) {                                   // everything reaches the disk
            w.settle(2500000);
            check();
            for (int i = 0; i < NC; ++i) PBT_CHECK(!out[i].busy, "no reply to %s", show(out[i].op).c_str());
            if (s.noting) s.note("  all quiet\n");
        } else if (end == 2) {
            pending_crash = (int) s.below(8);
            for (int k = 0; k < 200; ++k) {
                if (!w.step(true)) break;
                if (s.chance(1, 6)) sim::now_us += 1000 * s.below(300);
            }
        }
        if (nops >= 3) s.nontrivial = true;
        if (inckp || autockp) s.tag("checkpoint requested");
        finish(2);
    }

    void run_life() {
        fflush(stdout); fflush(stderr);
        sh->how = 0;
        std::string err = dir + "/stderr";
        pid_t p = fork();
        if (p == 0) {
            int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
            int nul = ::open("/dev/null", O_WRONLY);
            dup2(s.noting && getenv("VERIF_SERVER_OUT") ? fd : nul, 1); dup2(fd, 2);
            sim::dirprefix = dir;
            pbt::arm(20);
            try { live(); }
            catch (pbt::Failure& f) {
                snprintf(pbt::shm()->msg, pbt::MSGSZ, "%s", f.msg.c_str());
                sh->st = s.save();
                _exit(77);
            }
            _exit(3);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (s.noting && getenv("VERIF_SERVER_OUT")) s.note("%s", slurp(err).c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
            std::string m = pbt::shm()->msg;
            pbt::fail("%s", m.c_str());
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !sh->how) {
            std::string e = slurp(err);
            size_t a = e.find("ERROR: AddressSanitizer");
            if (a == std::string::npos) a = e.find("runtime error");
            if (a == std::string::npos) a = e.find("Assertion");
            if (a == std::string::npos) a = e.size() > 400 ? e.size() - 400 : 0;
            else a = e.rfind('\n', a) == std::string::npos ? 0 : e.rfind('\n', a) + 1;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) pbt::fail("the server spins");
            pbt::fail("the server died (%s %d): %s", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), e.substr(a, 700).c_str());
        }
        s.restore(sh->st);
        if (sh->tracelen) { s.trace.assign(sh->data + sh->len, sh->tracelen); }
        Dec d{sh->data};
        hist.assign(d.u(), Op());
        for (auto& o : hist) {
            o.kind = (Op::K) d.u(); o.thr = (int) d.u(); o.epoch = d.u(); o.key = d.s(); o.ch.resize(d.u());
            for (auto& c : o.ch) { c.first = (unsigned) d.u(); c.second = d.s(); }
        }
        std::map<uint64_t, uint64_t> synced;
        for (size_t n = d.u(); n > 0; --n) { uint64_t i = d.u(); synced[i] = d.u(); }
        serial = (int) d.u();
        basen = sh->basen;
        low = sh->low;
        // ---------- what the crash leaves
        bool arbitrary = this->arbitrary && (LP == 2 || s.coin());
        bool ckp = access((ckdir() + "/kvd-ckp-gen").c_str(), F_OK) == 0;
        if (ckp) { ckp_seen = true; s.tag("checkpoint committed"); }
        for (int dd = 0; dd < 2; ++dd) {
            std::string dn = dir + (dd ? "/d1" : "/d0");
            std::vector<std::string> names;
            if (DIR* D = opendir(dn.c_str())) {
                while (struct dirent* e = readdir(D)) if (e->d_name[0] != '.') names.push_back(e->d_name);
                closedir(D);
            }
            std::sort(names.begin(), names.end());
            for (auto& n : names) {
                struct stat sb;
                std::string pth = dn + "/" + n;
                if (stat(pth.c_str(), &sb) || !S_ISREG(sb.st_mode)) continue;
                auto it = synced.find(sb.st_ino);
                size_t lo = it == synced.end() ? sb.st_size : std::min((uint64_t) sb.st_size, it->second);
                bool islog = n.compare(0, 8, "kvd-log-") == 0 && n.find(".tmp") == std::string::npos;
                if (arbitrary && islog && !ckp && sh->how == 2 && s.chance(1, 2)) lo = std::min(lo, (size_t) sh->startsize[atoi(n.c_str() + 8) & 15]);
                size_t to = sb.st_size;
                if ((off_t) lo < sb.st_size) {
                    int c = s.weighted({2, 1, 4});
                    to = c == 0 ? sb.st_size : c == 1 ? lo : lo + s.below(sb.st_size - lo + 1);
                }
                if ((off_t) to != sb.st_size) {
                    if (truncate(pth.c_str(), to)) {}
                    s.tag("file truncated");
                    if (s.noting) s.note("  %s: %ld -> %zu bytes (synced %zu)\n", n.c_str(), (long) sb.st_size, to, lo);
                }
            }
        }
        if (arbitrary && !ckp) low = 0;
        // ---------- what must survive
        std::vector<LogImage> im;
        for (int i = 0; i < N; ++i) {
            LogImage x = read_log(logpath(i));
            if (s.noting) s.note("  log %d: %zu bytes, %u records, last epoch %lu%s, %zu wakes:%s\n", i, x.size, x.nrec, x.last, x.quiescent ? ", quiescent" : "", x.wakes.size(), x.shape.c_str());
            im.push_back(x);
        }
        if (sh->how == 2) {
            size_t k = low;
            for (; k < hist.size(); ++k) {
                uint64_t e = hist[k].epoch;
                bool all = true;
                for (int i = 0; i < N && all; ++i) {
                    bool ok = im[i].maxepoch > e;
                    if (!ok && im[i].quiescent) {
                        ok = true;
                        for (auto& y : im) for (uint64_t x : y.wakes) if (im[i].maxepoch <= x && x <= e) ok = false;
                        for (auto& o : hist) if (o.thr == i && o.epoch >= im[i].maxepoch && o.epoch <= e) ok = false;
                    }
                    all = ok;
                }
                if (!all) break;
            }
            low = k;
            partial.clear();
            Table t;
            std::vector<char> logged;                     // not: removals of absent keys
            for (auto& o : hist) { logged.push_back(o.kind != Op::REMOVE || t.count(o.key)); apply(t, o, 0); }
            for (int i = 0; i < N; ++i)
                for (k = 0; im[i].quiescent && k < hist.size(); ++k)
                    if (hist[k].thr == i && im[i].maxepoch <= hist[k].epoch) { partial.insert(k); if (logged[k]) break; }
        }
        if (s.noting) s.note("  the first %zu of %zu operations must survive\n", low, hist.size());
        // the clock may go back
        t0 = sh->now_us + 1000 * s.below(3000000);
        if (s.chance(1, 5)) t0 -= 1000000ull * s.below(2000);
    }

    void run() {
        static int n;
        dir = scratch + "/" + std::to_string(n++);
        mkdir(dir.c_str(), 0777);
        mkdir((dir + "/d0").c_str(), 0777);
        mkdir((dir + "/d1").c_str(), 0777);
        N = 1 + s.weighted({2, 4, 2});
        twodirs = s.chance(1, 4);
        if (LP == 3) keys = gen_pool(s, s.coin() ? 60 : 12);
        else keys = gen_pool(s, LP == 1 ? 4 : 8);
        maxcol = 1 + (int) s.below(4);
        bigvals = s.chance(1, 30);
        if (s.chance(1, 4)) logsize = 600 + (unsigned) s.below(3000);
        if (logsize) bigvals = false;
        nlives = LP == 1 ? 2 : LP == 4 ? 3 + (int) s.below(3) : 2 + (int) s.below(2);
        arbitrary = LP == 2 || LP == 4 ? s.coin() : false;
        if (s.noting) s.note("%d threads and logs, %zu keys%s%s\n", N, keys.size(), logsize ? ", small log buffers" : "", arbitrary ? ", logs cut anywhere" : "");
        for (life = 0; life < nlives; ++life) {
            crash_in_recovery = LP == 4 && life > 0 && s.chance(1, 2) ? (int) s.below(3 * N + 2) : -1;
            if (life && N < 4 && !ckp_seen && s.chance(1, 8)) { ++N; s.tag("more logs than before"); if (s.noting) s.note("now %d threads and logs\n", N); }
            if (s.noting) s.note("life %d:%s\n", life, crash_in_recovery >= 0 ? " crashes while recovering" : "");
            run_life();
        }
        for (const char* d : {"/d0", "/d1", ""}) {
            std::string dn = dir + d;
            if (DIR* D = opendir(dn.c_str())) {
                while (struct dirent* e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dn + "/" + e->d_name).c_str());
                closedir(D);
            }
            rmdir(dn.c_str());
        }
    }
};

static void one_case(pbt::Src& s) {
    Case c(s);
    c.run();
}

static void rmtree(const std::string& d) {
    if (DIR* D = opendir(d.c_str())) {
        while (struct dirent* e = readdir(D))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
                std::string p = d + "/" + e->d_name;
                struct stat sb;
                if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rmtree(p);
                else unlink(p.c_str());
            }
        closedir(D);
    }
    rmdir(d.c_str());
}
static void prepare() {
    // one scratch directory per worker; those of dead workers are removed
    const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    if (DIR* D = opendir(base)) {
        std::vector<std::string> old;
        while (struct dirent* e = readdir(D))
            if (!strncmp(e->d_name, "verif-recov-", 12)) {
                int pid = atoi(e->d_name + 12);
                if (pid > 0 && kill(pid, 0) < 0 && errno == ESRCH) old.push_back(std::string(base) + "/" + e->d_name);
            }
        closedir(D);
        for (auto& o : old) rmtree(o);
    }
    scratch = std::string(base) + "/verif-recov-" + std::to_string(getpid());
    if (mkdir(scratch.c_str(), 0777) != 0 && errno != EEXIST) { perror(scratch.c_str()); _exit(2); }
    sh = (Shared2*) mmap(0, SHSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

int main(int argc, char** argv) {
    PROP = argv[1];
    LP = PROP[2] - '0';
    pbt::Options o;
    o.worker_init = prepare;
    return pbt::main_(argc - 1, argv + 1, one_case, "recov", o);
}
