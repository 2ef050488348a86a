// S01-S03: the whole server on a simulated OS, with TCP and UDP clients.
//  S01  pipelining clients with private key ranges and one-at-a-time clients on shared keys; bytes split
//       anywhere, short writes, pauses, half-closes, disconnects
//  S02  the same plus hostile connections and datagrams
//  S03  UDP clients
#include "pbt.hh"
#include "world.hh"
#include "keygen.hh"

static const char* PROP;
static int SP;
static std::string scratch;
extern "C" unsigned masstree_verif_log_size;
unsigned masstree_verif_log_size = 0;

struct Space {
    std::string prefix;
    std::vector<std::string> keys;
    Table t;
    std::vector<Table> after;            // states after each operation (only where a disconnect needs them)
    std::set<std::string> loose;         // keys with unknown contents
};
struct Expect {
    wire::V seq, want;
    Op op;
    bool known = true;                   // want is filled in
    bool reply = true;                   // UDP: false when it does not fit a datagram
};
struct Peer {
    Client* c = 0;
    int id = 0, thr = 0;
    Space* sp = 0;
    bool shared = false;
    std::deque<Expect> pend;
    std::deque<size_t> ends;             // stream positions where pending requests end
    uint64_t nsent = 0, nreplied = 0;
    bool paused = false, halfclosed = false, gone = false, done = false, evil = false;
    size_t inflight = 0;                 // evil: requests not answered yet
    std::function<void()> verdict;
};

struct Case {
    pbt::Src& s;
    World w;
    int N = 1, serial = 0, nextid = 0;
    std::string dir;
    std::list<Space> spaces;
    std::list<Peer> peers;
    Space* shared = 0;
    bool bigvals = false, logging = false;
    int nreq = 0, nreplies = 0;
    Case(pbt::Src& src) : s(src), w(src) {}

    std::string value() {
        int c = s.weighted({4, 3, 2, bigvals ? 2 : 0});
        size_t n = c == 0 ? s.below(5) : c == 1 ? s.below(30) : c == 2 ? s.below(400) : s.below(s.coin() ? 25000 : 120000);
        std::string r = std::to_string(++serial);
        if (n == 0) return s.coin() ? r : std::string();
        uint64_t st = serial * 77777 + n;
        while (r.size() < n) { st = st * 6364136223846793005ull + 1442695040888963407ull; r.push_back((char) (st >> 40)); }
        r.resize(n);
        return r;
    }
    wire::V seqno() {
        int id = ++nextid;
        switch (s.weighted({12, 1, 1, 1, 1, 1, 1})) {
        case 1: return wire::V((int64_t) -id);
        case 2: return wire::V((int64_t) id << 33);
        case 3: { wire::V v((int64_t) (INT64_MIN + id)); v.t = wire::V::UINT; return v; }
        case 4: return wire::V("s" + std::to_string(id));
        case 5: return wire::V(id + 0.5);
        case 6: return wire::V::arr({id, wire::V(), true});
        default: return wire::V(id);
        }
    }
    Space* new_space(bool evil = false) {
        spaces.emplace_back();
        Space& p = spaces.back();
        p.prefix = (evil ? "Evil-" + std::string(8, (char) ('A' + spaces.size())) : "sp" + std::to_string(10 + spaces.size())) + (char) s.below(256);
        p.keys = gen_pool(s, 1 + (int) s.below(10));
        for (auto& k : p.keys) { k = p.prefix + k; if (k.size() > 255) k.resize(255); }
        return &p;
    }
    Op gen_op(Space* p) {
        Op o;
        int c = s.weighted({6, 2, 3, 4, 3, 0});
        o.kind = c == 0 ? Op::PUT : c == 1 ? Op::REPLACE : c == 2 ? Op::REMOVE : c == 3 ? Op::GET : Op::SCAN;
        o.key = s.pick(p->keys);
        if (o.kind == Op::REPLACE) o.ch.push_back({0, value()});
        if (o.kind == Op::PUT) {
            unsigned col = (unsigned) s.below(4);
            if (s.chance(1, 40)) col += (unsigned) s.below(2000);
            do {
                o.ch.push_back({col, value()});
                col += 1 + (unsigned) s.below(2);
            } while (s.chance(1, 3));
        }
        if (o.kind == Op::GET || o.kind == Op::SCAN)
            if (s.chance(1, 3))
                for (int n = 1 + (int) s.below(3); n > 0; --n) o.cols.push_back((int) s.below(s.chance(1, 20) ? 32767 : 6));
        if (o.kind == Op::SCAN) o.count = 1 + (int) s.below(s.chance(1, 6) ? 2000000000 : 12);
        return o;
    }
    // the reply without the sequence number
    wire::V run(Space* p, const Op& o) {
        wire::V r = apply(p->t, o, 0);
        return r;
    }
    void judge(const wire::V& got, const Expect& e, Space* p) {
        wire::V want = e.want;
        want.a[0] = e.seq;
        bool ok = got.t == wire::V::ARR && got.a.size() >= 2 && got.a[0] == e.seq && got.a[1] == want.a[1];
        if (ok && e.op.kind == Op::SCAN) {
            // rows of other key ranges may follow
            size_t n = want.a.size();
            ok = got.a.size() >= n && got.a.size() % 2 == 0 && (int64_t) (got.a.size() - 2) / 2 <= e.op.count
                && std::equal(want.a.begin() + 2, want.a.end(), got.a.begin() + 2);
            std::string prev = n > 2 ? want.a[n - 2].s : e.op.key;
            for (size_t k = n; ok && k < got.a.size(); k += 2) {
                const wire::V& x = got.a[k];
                ok = x.t == wire::V::STR && x.s > prev && x.s.compare(0, p->prefix.size(), p->prefix) != 0
                    && (got.a[k + 1].t == wire::V::STR || got.a[k + 1].t == wire::V::ARR || (e.op.cols.size() == 1 && got.a[k + 1].t == wire::V::NIL));
                prev = x.s;
            }
        } else
            ok = ok && got == want;
        PBT_CHECK(ok, "%s%s returned %s, want %s%s", show(e.op).c_str(), e.op.cols.empty() ? "" : " (columns)", wire::show(got).c_str(), wire::show(want).c_str(),
                  e.op.kind == Op::SCAN ? " and rows of other clients" : "");
    }

    Peer* new_peer(bool isshared, bool hold_handshake = false) {
        peers.emplace_back();
        Peer& p = peers.back();
        p.id = (int) peers.size();
        p.shared = isshared;
        int core = (int) s.below(N);
        int how = s.weighted({8, 1, 1, 1});
        wire::V hs = World::handshake(core);
        hs.a[0] = seqno();
        if (how == 1) hs.a[2] = wire::V::map({"maxkeylen", 255});
        if (how == 2) { core = N + (int) s.below(5); hs.a[2] = wire::V::map({"core", core, "maxkeylen", (int) s.below(256)}); }
        if (how == 3) hs.a.resize(2);
        p.c = w.open(core);
        std::string b = wire::enc(hs, &s);
        if (s.chance(1, 3)) {
            size_t k = s.below(b.size());
            p.c->outq = b.substr(0, k);
            p.c->deliver((size_t) -1);
            b.erase(0, k);
            if (s.noting) s.note("peer %d sends %zu bytes of its handshake\n", p.id, k);
            if (hold_handshake) { p.paused = p.gone = true; s.tag("paused in the handshake"); return &p; }
            for (int n = (int) s.below(20); n > 0; --n) if (!w.step()) break;
        }
        p.c->outq = b;
        p.c->deliver((size_t) -1);
        poll_all();
        for (int k = 0; k < 20000 && p.c->replies.empty(); ++k) {
            PBT_CHECK(p.c->pump(), "malformed bytes from the server");
            PBT_CHECK(!p.c->closed() || !p.c->replies.empty(), "the server closed a connection after a valid handshake");
            if (p.c->replies.empty()) {
                PBT_CHECK(w.step(true), "no reply to the handshake");
                poll_all();
            }
        }
        PBT_CHECK(!p.c->replies.empty(), "no reply to the handshake");
        wire::V r = p.c->replies.front();
        p.c->replies.pop_front();
        PBT_CHECK(r.t == wire::V::ARR && r.a.size() >= 4 && r.a[0] == hs.a[0] && r.a[1].is(15) && r.a[2] == wire::V(true)
                  && r.a[3].t == wire::V::INT && r.a[3].i >= 0 && r.a[3].i < N && (how || r.a[3].is(core)), "bad handshake reply %s", wire::show(r).c_str());
        p.thr = (int) r.a[3].i;
        p.sp = isshared ? shared : new_space();
        if (s.noting) s.note("peer %d connects to thread %d%s\n", p.id, p.thr, isshared ? ", shared keys" : "");
        hook(p);
        return &p;
    }
    Peer* new_udp() {
        int thr = (int) s.below(N);
        peers.emplace_back();
        Peer& p = peers.back();
        p.id = (int) peers.size();
        p.thr = thr;
        p.c = w.udp(thr, 4000 + p.id);
        p.sp = new_space();
        if (s.noting) s.note("peer %d uses UDP thread %d\n", p.id, thr);
        return &p;
    }
    void hook(Peer& p) {
        if (!p.shared) return;
        Peer* q = &p;
        p.c->v->onread = [this, q](const std::string&) {
            if (q->pend.empty() || q->pend.back().known || !q->c->v->in.empty() || !q->c->outq.empty()) return;
            Expect& e = q->pend.back();
            e.want = run(q->sp, e.op);
            e.known = true;
        };
    }
    bool usable(Peer& p) { return !p.gone && !p.halfclosed && !p.paused && !p.done; }
    void send(Peer& p) {
        Expect e;
        e.op = gen_op(p.sp);
        e.seq = seqno();
        wire::V rq = request(e.op, 0);
        rq.a[0] = e.seq;
        std::string b = wire::enc(rq, &s);
        if (p.c->udp && b.size() > 4096) return;
        e.known = !p.shared;
        if (s.noting) s.note("peer %d asks %s: %s%s\n", p.id, wire::show(e.seq).c_str(), show(e.op).c_str(), e.op.cols.empty() ? "" : " (columns)");
        if (!p.shared) {
            e.want = run(p.sp, e.op);
            p.sp->after.push_back(p.sp->t);
            if (p.c->udp) {
                wire::V r = e.want;
                r.a[0] = e.seq;
                // rows of other clients may follow in a scan
                if (wire::enc(r).size() > 60000 || (e.op.kind == Op::SCAN && bigvals)) e.reply = false;
            }
        }
        p.c->outq += b;
        p.pend.push_back(std::move(e));
        ++p.nsent; ++nreq;
        if (p.c->udp) p.c->deliver((size_t) -1);
    }
    void poll(Peer& p) {
        if (!p.c || p.gone || p.evil) return;
        PBT_CHECK(p.c->pump(), "malformed bytes from the server: %s", pbt::hexs(p.c->rbuf).c_str());
        if (!p.sp) return;
        while (!p.c->replies.empty()) {
            wire::V r = p.c->replies.front();
            p.c->replies.pop_front();
            while (!p.pend.empty() && !p.pend.front().reply && (r.a.empty() || !(r.a[0] == p.pend.front().seq))) p.pend.pop_front();
            PBT_CHECK(!p.pend.empty(), "unsolicited reply %s", wire::show(r).c_str());
            PBT_CHECK(p.pend.front().known, "%s was answered before it was complete", show(p.pend.front().op).c_str());
            judge(r, p.pend.front(), p.sp);
            p.pend.pop_front();
            ++p.nreplied; ++nreplies;
        }
        if (!p.c->udp && p.c->closed()) {
            PBT_CHECK(p.halfclosed, "the server closed connection %d", p.id);
            PBT_CHECK(p.pend.empty() && p.c->rbuf.empty(), "the server closed a half-closed connection with %zu requests unanswered", p.pend.size());
            p.done = true;
        }
    }
    void poll_all() { for (auto& p : peers) poll(p); }
    bool step(bool adv = false) {
        bool r = w.step(adv);
        poll_all();
        return r;
    }

    // ---------- hostile input
    wire::V anyv(int depth = 0) {
        switch (s.weighted({3, 2, 2, 2, 2, 3, depth < 3 ? 2 : 0, depth < 3 ? 1 : 0})) {
        case 0: return wire::V((int64_t) s.below(20) - 3);
        case 1: { static const int64_t x[] = {-1, 255, 256, 32767, 32768, 65535, 65536, INT32_MAX, (int64_t) INT32_MAX + 1, (int64_t) UINT32_MAX, (int64_t) UINT32_MAX + 1, INT64_MAX, INT64_MIN, -32769, INT32_MIN};
                  return wire::V(x[s.below(sizeof x / sizeof *x)]); }
        case 2: { wire::V v((int64_t) (INT64_MIN + (int64_t) s.below(100))); v.t = wire::V::UINT; return v; }
        case 3: return wire::V();
        case 4: return s.coin() ? wire::V((bool) s.coin()) : wire::V(s.below(10) * 0.5);
        case 5: return wire::V(s.chance(1, 4) ? std::string(s.below(400), 'x') : s.bytes((int) s.below(5)));
        case 6: { wire::V v = wire::V::arr(); for (int n = (int) s.below(4); n > 0; --n) v.a.push_back(anyv(depth + 1)); return v; }
        default: { wire::V v = wire::V::map(); for (int n = (int) s.below(3); n > 0; --n) { v.a.push_back("k" + std::to_string(n)); v.a.push_back(anyv(depth + 1)); } return v; }
        }
    }
    static bool small(const wire::V& v, int64_t lo, int64_t hi) { return v.t == wire::V::INT && v.i >= lo && v.i <= hi; }
    // 1: valid, 0: invalid, -1: either reading is acceptable
    int validity(const wire::V& r, Op& o) {
        if (r.t != wire::V::ARR) return 0;
        if (r.a.size() < 2 || r.a[1].t != wire::V::INT) return r.a.size() >= 2 && r.a[1].t == wire::V::DBL ? -1 : 0;
        int64_t k = r.a[1].i;
        if (k == 12) { o.kind = Op::CKP; return 1; }
        if (k != 2 && k != 4 && k != 6 && k != 8 && k != 10) return 0;
        o.kind = (Op::K) k;
        if (r.a.size() < 3 || r.a[2].t != wire::V::STR) return 0;
        o.key = r.a[2].s;
        if (o.key.size() > 255) return 0;
        size_t n = r.a.size();
        int v = 1;
        if (k == 2 || k == 4) {
            size_t c = 3;
            if (k == 4) {
                if (n < 4 || r.a[3].t != wire::V::INT) return 0;
                if (r.a[3].i <= 0 || r.a[3].i > INT32_MAX) v = -1;
                else o.count = (int) r.a[3].i;
                c = 4;
            }
            for (; c < n; ++c) {
                if (r.a[c].t != wire::V::INT) return 0;
                if (r.a[c].i < 0 || r.a[c].i > 32766) v = -1;
                else o.cols.push_back((int) r.a[c].i);
            }
        } else if (k == 6) {
            if (n < 5 || n % 2 == 0) return 0;
            int64_t last = -1;
            for (size_t c = 3; c < n; c += 2) {
                if (r.a[c].t != wire::V::INT || r.a[c].i < 0 || r.a[c + 1].t != wire::V::STR) return 0;
                if (r.a[c].i <= last || r.a[c].i > 32766) v = -1;
                else o.ch.push_back({(unsigned) r.a[c].i, r.a[c + 1].s});
                last = r.a[c].i;
            }
        } else if (k == 8) {
            if (n < 4 || r.a[3].t != wire::V::STR) return 0;
            o.ch.push_back({0, r.a[3].s});
            if (n > 4) v = -1;
        } else if (n > 3)
            v = -1;
        return v;
    }
    wire::V hostile_request(Space* p) {
        Op o = gen_op(p);
        wire::V r = request(o, ++nextid);
        if (s.chance(1, 8)) r.a[0] = anyv();
        switch (s.weighted({3, 3, 2, 3, 2, 1, 2, 1})) {
        case 0: if (r.a.size() > 1) r.a[1 + s.below(r.a.size() - 1)] = anyv(); break;
        case 1: r.a.resize(s.below(r.a.size() + 1)); break;
        case 2: r.a[1] = anyv(); break;
        case 3: if (r.a.size() > 3) r.a[3 + s.below(r.a.size() - 3)] = anyv(); else r.a.push_back(anyv()); break;
        case 4: r.a[2].s.append(std::string(s.below(s.coin() ? 260 : 70000), 'k')); break;
        case 5: if (r.a.size() > 2) r.a.erase(r.a.begin() + 2); break;
        case 6: if (r.a.size() > 5) std::swap(r.a[3], r.a[5]); else if (r.a[1].is(6)) { r.a.push_back(r.a[3]); r.a.push_back(value()); } break;
        case 7: return anyv();
        }
        return r;
    }
    // a hostile connection; leaves its space's acceptable contents behind
    void hostile() {
        peers.emplace_back();
        Peer& p = peers.back();
        p.id = (int) peers.size();
        p.evil = true;
        bool udp = s.chance(1, 4);
        if (!udp) {
            p.c = w.open((int) s.below(N));
            wire::V hs = World::handshake((int) s.below(N));
            hs.a[0] = ++nextid;
            int how = s.weighted({8, 2, 1});
            if (how == 1) {
                switch (s.below(5)) {
                case 0: hs.a[s.below(3)] = anyv(); break;
                case 1: hs.a.resize(s.below(3)); break;
                case 2: hs.a[2] = wire::V::map({"core", anyv(), "maxkeylen", anyv()}); break;
                case 3: hs.a.push_back(anyv()); break;
                case 4: hs = anyv(); break;
                }
                s.tag("bad handshake");
            }
            std::string b = how == 2 ? s.bytes((int) s.below(30)) : wire::enc(hs, &s);
            if (s.noting) s.note("peer %d is hostile: handshake %s\n", p.id, pbt::hexs(b).c_str());
            p.c->outq = b;
            p.c->deliver((size_t) -1);
            for (int k = 0; k < (how ? 300 : 20000) && !p.c->closed() && p.c->v->out.empty(); ++k) if (!step(true)) break;
            if (how) {
                int end = s.weighted({2, 1, 1});
                if (end == 1) p.c->v->eof = true;
                if (end == 2) p.c->v->reset = true;
                if (end || s.coin()) { p.gone = true; return; }
            }
            PBT_CHECK(p.c->pump() || how, "malformed bytes from the server");
            if (p.c->closed() || p.c->replies.empty()) { PBT_CHECK(how, "no reply to a handshake"); p.gone = true; return; }
            p.c->replies.clear();
        } else {
            p.c = w.udp((int) s.below(N), 4000 + p.id);
            if (s.noting) s.note("peer %d is hostile, UDP\n", p.id);
        }
        Space* sp = new_space(true);    // no mutation leads from these keys to other clients' keys
        p.sp = sp;
        bool raw = s.chance(1, 3);
        if (raw) {
            // bytes; whatever they mean, nobody else may notice
            for (int n = 1 + (int) s.below(4); n > 0; --n) {
                std::string b;
                if (s.chance(1, 3)) b = s.bytes((int) s.below(60));
                else {
                    for (int m = 1 + (int) s.below(3); m > 0; --m) b += wire::enc(s.coin() ? request(gen_op(sp), ++nextid) : hostile_request(sp), &s);
                    for (int m = (int) s.below(4); m > 0 && !b.empty(); --m) {
                        size_t x = s.below(std::min(b.size(), (size_t) 40));
                        switch (s.below(4)) {
                        case 0: b[x] = (char) (b[x] ^ 1 << s.below(8)); break;
                        case 1: b[x] = (char) s.below(256); break;
                        case 2: b.resize(x); break;
                        case 3: b.insert(x, s.bytes(1 + (int) s.below(4))); break;
                        }
                    }
                }
                if (udp && b.size() > 4096) b.resize(4096);
                if (s.noting) s.note("peer %d sends %s\n", p.id, pbt::hexs(b).c_str());
                p.c->outq += b;
                p.c->deliver((size_t) -1);
                for (int k = (int) s.below(20); k > 0; --k) if (!step()) break;
                if (!udp && p.c->closed()) break;
            }
            for (auto& k : sp->keys) sp->loose.insert(k);
            sp->loose.insert("");                    // anything
            s.tag("hostile bytes");
        } else {
            int n = 1 + (int) s.below(4);
            for (; n > 0; --n) {
                wire::V r = s.chance(1, 4) ? request(gen_op(sp), ++nextid) : hostile_request(sp);
                std::string b = wire::enc(r, &s);
                if (udp && b.size() > 4096) continue;
                Op o;
                int ok = validity(r, o);
                bool mine = o.key.compare(0, sp->prefix.size(), sp->prefix) == 0;
                if (!mine && o.kind != Op::CKP && r.a.size() > 2)
                    for (auto& x : spaces) if (o.key.compare(0, x.prefix.size(), x.prefix) == 0) x.loose.insert(o.key);
                if (s.noting) s.note("peer %d sends %s (%s)\n", p.id, wire::show(r).c_str(), ok > 0 ? "valid" : ok ? "either" : "invalid");
                p.c->outq += b;
                p.c->deliver((size_t) -1);
                for (int k = 0; k < 4000 && p.c->replies.empty() && !p.c->closed(); ++k) {
                    PBT_CHECK(p.c->pump(), "malformed bytes from the server: %s", pbt::hexs(p.c->rbuf).c_str());
                    if (!p.c->replies.empty()) break;
                    if (!step(true)) break;
                }
                p.c->pump();
                bool err = p.c->replies.empty();
                if (!err) {
                    wire::V g = p.c->replies.front();
                    p.c->replies.pop_front();
                    err = g.t != wire::V::ARR || g.a.size() < 2 || g.a[1].t != wire::V::INT || g.a[1].i < 0 || !(r.t == wire::V::ARR && r.a.size() >= 2 && r.a[1].t == wire::V::INT && g.a[1].i == r.a[1].i + 1);
                    if (ok > 0 && (mine || o.kind == Op::CKP)) {
                        Expect e;
                        e.op = o; e.seq = r.a[0]; e.want = run(sp, o);
                        if (o.kind == Op::CKP) e.want = wire::V::arr({0, 13});
                        bool loose = sp->loose.count(o.key) || (o.kind == Op::SCAN && !sp->loose.empty());
                        if (loose) PBT_CHECK(!err, "the valid request %s was answered %s", wire::show(r).c_str(), wire::show(g).c_str());
                        else judge(g, e, sp);
                    } else if (ok == 0)
                        PBT_CHECK(err || o.kind == Op::GET || o.kind == Op::SCAN, "the invalid request %s was answered %s", wire::show(r).c_str(), wire::show(g).c_str());
                } else if (ok > 0 && !udp)
                    pbt::fail("no reply to the valid request %s", wire::show(r).c_str());
                else if (ok > 0 && mine)
                    run(sp, o);
                if (ok == 0) { s.tag("invalid request"); if (s.noting) s.note("  %s\n", p.c->udp ? "ignored" : p.c->closed() ? "closed" : "open"); }
                if (ok < 0) { sp->loose.insert(o.key); s.tag("questionable request"); }
                if (!udp && p.c->closed()) break;
            }
        }
        if (!udp && !p.c->closed()) {
            int end = s.weighted({1, 2, 2});
            if (end == 1) p.c->v->eof = true;
            if (end == 2) p.c->v->reset = true;
            for (int k = (int) s.below(20); k > 0; --k) if (!step()) break;
        }
        p.gone = true;
    }

    void garbage_datagram(Peer& p) {
        std::string b;
        switch (s.below(5)) {
        case 0: b = s.bytes((int) s.below(20)); for (auto& c : b) if ((unsigned char) c >= 0x90 && (unsigned char) c < 0xa0) c = (char) 0xc1; break;
        case 1: { Op o = gen_op(p.sp); b = wire::enc(request(o, ++nextid), &s); b.resize(b.size() > 1 ? s.below(b.size()) : 0); break; }
        case 2: b = wire::enc(wire::V::map({1, 2}), &s); break;
        case 3: { Op o = gen_op(p.sp); o.kind = Op::REPLACE; o.ch = {{0, std::string(4100 + s.below(60000), 'z')}}; b = wire::enc(request(o, ++nextid)); break; }
        case 4: break;
        }
        if (s.noting) s.note("peer %d sends a bad datagram %s(%zu)\n", p.id, pbt::hexs(b, 30).c_str(), b.size());
        s.tag("bad datagram");
        p.c->v->dgrams.push_back({b, 3999});
    }

    void run() {
        N = 1 + s.weighted({3, 3, 1});
        bigvals = s.chance(1, 4);
        logging = s.chance(1, 4);
        int yieldy = s.chance(2, 3) ? 1 + (int) s.below(3) : 0;
        bool shortw = s.chance(1, 3);
        size_t cap = s.chance(1, 4) ? (bigvals ? 2000 : 1) + s.below(3000) : (size_t) -1;
        w.args = {"mtd", "-j" + std::to_string(N)};
        static int nth;
        if (logging) {
            dir = scratch + "/" + std::to_string(getpid()) + "." + std::to_string(nth++);
            mkdir(dir.c_str(), 0777);
            sim::dirprefix = dir;
            w.args.push_back("--logdir=" + dir);
            w.args.push_back("--ckdir=" + dir);
            if (s.chance(1, 4)) masstree_verif_log_size = 600 + (unsigned) s.below(4000);
        } else
            w.args.push_back("-n");
        sim::now_us = 1700000000000000ull;
        if (s.noting) s.note("%d threads%s%s%s%s\n", N, logging ? ", logging" : "", masstree_verif_log_size ? ", small log buffers" : "", shortw ? ", short writes" : "", cap != (size_t) -1 ? ", small socket buffers" : "");
        sim::want_yield = [&](const char*) { return yieldy && s.below(4) < (unsigned) yieldy; };
        if (shortw) sim::short_write = [&](sim::VP, size_t n) { return s.coin() ? n : 1 + s.below(n); };
        w.launch();
        for (int k = 0; !w.serving(); ++k) {
            PBT_CHECK(k < 200000, "the server does not start");
            if (!w.step(true)) pbt::fail("the server hangs while starting");
        }
        shared = new_space();
        for (int n = 1 + (int) s.below(3); n > 0; --n) new_peer(s.chance(1, 3));
        for (int n = SP == 3 ? 1 + (int) s.below(3) : s.chance(1, 4) ? 1 : 0; n > 0; --n) new_udp();
        if (cap != (size_t) -1) for (auto& p : peers) if (!p.c->udp) p.c->v->outcap = cap;
        int budget = 15 + (int) s.below(SP == 1 ? 120 : 70);
        int nevil = 0;
        while (budget-- > 0) {
            switch (s.weighted({10, 8, 6, 3, 2, 1, 1, SP == 2 ? 4 : 0, SP == 3 ? 4 : 0, 1})) {
            case 0: {                                        // requests
                Peer& p = *std::next(peers.begin(), s.below(peers.size()));
                if (!usable(p) || p.evil) break;
                if (p.shared) { if (p.pend.empty() && p.c->outq.empty()) send(p); }
                else for (int n = s.chance(1, 4) ? 1 + (int) s.below(20) : 1 + (int) s.below(3); n > 0; --n) send(p);
                if (s.coin()) p.c->udp ? (void) 0 : p.c->deliver((size_t) -1);
                break;
            }
            case 1:                                          // bytes arrive
                for (auto& p : peers)
                    if (usable(p) && !p.evil && !p.c->udp && !p.c->outq.empty() && s.chance(2, 3))
                        p.c->deliver(s.coin() ? 1 + s.below(12) : s.coin() ? 1 + s.below(p.c->outq.size()) : (size_t) -1);
                // fall through
            case 2:
                for (int k = 1 + (int) s.below(12); k > 0; --k) if (!step()) break;
                break;
            case 3: for (int k = 1 + (int) s.below(3); k > 0; --k) sim::tick(); break;
            case 4: sim::now_us += 1000 * (1 + s.below(400)); for (int k = (int) s.below(8); k > 0; --k) if (!step()) break; break;
            case 5: if (peers.size() < 9) { Peer* p = new_peer(s.chance(1, 3), s.chance(1, 2)); p->c->v->outcap = cap; } break;
            case 6: {                                        // the end of a connection
                Peer& p = *std::next(peers.begin(), s.below(peers.size()));
                if (!usable(p) || p.evil || p.c->udp) break;
                int how = s.weighted({2, 2, 2});
                if (how == 0) {
                    p.c->deliver((size_t) -1);
                    p.c->v->eof = true;
                    p.halfclosed = true;
                    s.tag("half-closed");
                } else if (how == 1 && !p.shared) {
                    p.c->deliver(s.below(p.c->outq.size() + 1));
                    p.c->v->reset = true;
                    p.gone = true;
                    s.tag("disconnected");
                } else if (how == 2) {
                    if (p.shared && !p.pend.empty()) break;
                    Op o = gen_op(p.sp);
                    std::string b = wire::enc(request(o, ++nextid), &s);
                    p.c->outq += b.substr(0, s.below(b.size()));
                    p.c->deliver((size_t) -1);
                    p.paused = true;
                    s.tag("paused in a request");
                }
                if (s.noting) s.note("peer %d %s\n", p.id, p.halfclosed ? "half-closes" : p.gone ? "disconnects" : p.paused ? "pauses in the middle of a request" : "stays");
                break;
            }
            case 7:
                if (s.chance(1, 8)) { sim::accept_errors = 1 + (int) s.below(3); s.tag("failing accept"); if (s.noting) s.note("accept() is about to fail %d times\n", sim::accept_errors); break; }
                if (nevil < 4) { hostile(); ++nevil; } break;
            case 8: {
                std::vector<Peer*> u;
                for (auto& p : peers) if (p.c->udp) u.push_back(&p);
                if (!u.empty()) garbage_datagram(*s.pick(u));
                break;
            }
            case 9: {                                        // run for a while
                uint64_t end = sim::now_us + 1000 * s.below(600);
                for (int k = 0; k < 3000; ++k) {
                    if (step()) continue;
                    uint64_t d = sim::next_deadline();
                    if (!d || d > end) break;
                    sim::now_us = d;
                }
                break;
            }
            }
            poll_all();
        }
        // ---------- everything that was asked is answered
        for (auto& p : peers) if (usable(p) && !p.evil && !p.c->udp) p.c->deliver((size_t) -1);
        for (auto& p : peers) if (p.halfclosed) p.c->deliver((size_t) -1);
        uint64_t end = sim::now_us + 60000000;
        for (int k = 0; ; ++k) {
            PBT_CHECK(k < 400000, "the server does not come to rest");
            if (step()) continue;
            uint64_t d = sim::next_deadline();
            if (!d || d > end) break;
            sim::now_us = d;
        }
        poll_all();
        for (auto& p : peers) {
            if (p.gone || p.evil) continue;
            if (p.c->udp) for (auto& e : p.pend) PBT_CHECK(!e.reply, "no reply to the datagram %s", show(e.op).c_str());
            else PBT_CHECK(p.pend.empty(), "connection %d: no reply to %s", p.id, show(p.pend.front().op).c_str());
            if (p.halfclosed) PBT_CHECK(p.done, "the server keeps a half-closed connection open");
        }
        // ---------- and the table is as it should be
        Peer* f = new_peer(true);
        Op sc; sc.kind = Op::SCAN; sc.count = 1 << 20;
        wire::V r;
        {
            wire::V rq = request(sc, 1);
            f->c->v->onread = nullptr;
            f->c->outq = wire::enc(rq);
            f->c->deliver((size_t) -1);
            f->gone = true;
            for (int k = 0; k < 200000 && f->c->replies.empty(); ++k) {
                PBT_CHECK(f->c->pump(), "malformed bytes from the server");
                if (f->c->replies.empty() && !step(true)) break;
            }
            PBT_CHECK(!f->c->replies.empty(), "no reply to the final scan");
            r = f->c->replies.front();
        }
        PBT_CHECK(r.t == wire::V::ARR && r.a.size() >= 2 && r.a[0].is(1) && r.a[1].is(5), "bad scan reply");
        std::map<std::string, Table> got;
        for (size_t k = 2; k + 1 < r.a.size(); k += 2) {
            Row row;
            if (r.a[k + 1].t == wire::V::STR) row.push_back(r.a[k + 1].s);
            else for (auto& c : r.a[k + 1].a) row.push_back(c.s);
            for (auto& sp : spaces)
                if (r.a[k].s.compare(0, sp.prefix.size(), sp.prefix) == 0) got[sp.prefix][r.a[k].s] = row;
        }
        for (auto& sp : spaces) {
            if (sp.loose.count("")) continue;
            Table g = got[sp.prefix], t = sp.t;
            for (auto& k : sp.loose) { g.erase(k); t.erase(k); }
            bool ok = g == t;
            for (auto& p : peers)
                if (!ok && p.sp == &sp && p.gone && !p.evil) {
                    // disconnected: everything answered, perhaps more
                    if (p.nreplied == 0 && g.empty()) ok = true;
                    for (size_t k = p.nreplied ? p.nreplied - 1 : 0; !ok && k < sp.after.size(); ++k) ok = g == sp.after[k];
                }
            PBT_CHECK(ok, "in the end the rows of %s are %s, want %s", pbt::hexs(sp.prefix).c_str(), show(g).c_str(), show(t).c_str());
        }
        if (nreplies >= 5) s.nontrivial = true;
        if (logging) {
            if (DIR* D = opendir(dir.c_str())) {
                while (struct dirent* e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + "/" + e->d_name).c_str());
                closedir(D);
            }
            rmdir(dir.c_str());
        }
    }
};

static void one_case(pbt::Src& s) {
    // the server's chatter is not interesting
    if (!getenv("VERIF_SERVER_OUT")) {
        int nul = ::open("/dev/null", O_WRONLY);
        dup2(nul, 1);
    }
    Case* c = new Case(s);
    c->run();
}

static void rmtree(const std::string& d) {
    if (DIR* D = opendir(d.c_str())) {
        while (struct dirent* e = readdir(D))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
                std::string p = d + "/" + e->d_name;
                struct stat sb;
                if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rmtree(p);
                else unlink(p.c_str());
            }
        closedir(D);
    }
    rmdir(d.c_str());
}
static void prepare() {
    const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    if (DIR* D = opendir(base)) {
        std::vector<std::string> old;
        while (struct dirent* e = readdir(D))
            if (!strncmp(e->d_name, "verif-serv-", 11)) {
                int pid = atoi(e->d_name + 11);
                if (pid > 0 && kill(pid, 0) < 0 && errno == ESRCH) old.push_back(std::string(base) + "/" + e->d_name);
            }
        closedir(D);
        for (auto& o : old) rmtree(o);
    }
    scratch = std::string(base) + "/verif-serv-" + std::to_string(getpid());
    if (mkdir(scratch.c_str(), 0777) != 0 && errno != EEXIST) { perror(scratch.c_str()); _exit(2); }
}

int main(int argc, char** argv) {
    setenv("_", "valgrind", 1);     // no pools: memory errors are seen
    PROP = argv[1];
    SP = PROP[2] - '0';
    pbt::Options o;
    o.worker_init = prepare;
    o.fork_each = true;
    return pbt::main_(argc - 1, argv + 1, one_case, "serv", o);
}
