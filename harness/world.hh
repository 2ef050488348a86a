// world.hh -- the server's main() on the simulated OS, with clients driven by the test.
#ifndef VERIF_WORLD_HH
#define VERIF_WORLD_HH
#include <memory>
#include <list>
#include "simos.hh"
#include "wire.hh"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>

extern int mtd_main(int argc, char** argv);

struct World;
struct Client {
    sim::VP v;
    int core;
    bool udp = false;             // v is the server's UDP socket, shared by all its clients
    std::string outq;             // encoded, not yet delivered
    std::string rbuf;             // reply bytes not yet decoded
    size_t taken = 0;             // bytes taken from v->out
    std::deque<wire::V> replies;
    bool closed() const { return v->closed; }
    // move everything the server has written into replies; false on malformed bytes
    bool pump() {
        if (udp) {
            for (size_t k = 0; k < v->sent.size(); )
                if (v->sent[k].second == core) { rbuf += v->sent[k].first; v->sent.erase(v->sent.begin() + k); }
                else ++k;
        } else {
            rbuf += v->out;
            v->out.clear();
        }
        size_t pos = 0;
        while (pos < rbuf.size()) {
            wire::V r;
            bool bad = false;
            const unsigned char* b = (const unsigned char*) rbuf.data();
            const unsigned char* e = wire::dec(b + pos, b + rbuf.size(), r, bad);
            if (bad) return false;
            if (!e) break;
            replies.push_back(std::move(r));
            pos = e - b;
        }
        rbuf.erase(0, pos);
        return true;
    }
    void deliver(size_t n) {
        if (udp) {
            v->dgrams.push_back({outq, core});
            outq.clear();
            return;
        }
        n = std::min(n, outq.size());
        v->in.append(outq, 0, n);
        outq.erase(0, n);
    }
};

struct World {
    pbt::Src& s;
    std::vector<std::string> args;
    sim::Fiber* mainf = 0;
    int slow = -1;                // fiber the scheduler rarely picks
    std::vector<std::unique_ptr<Client>> clients;
    unsigned long steps = 0;
    World(pbt::Src& src) : s(src) {}

    static void* mainfn(void* x) {
        World* w = (World*) x;
        static std::vector<char*> av;
        static std::vector<std::string> keep;
        keep = w->args;
        for (auto& a : keep) av.push_back((char*) a.c_str());
        av.push_back(0);
        sim::exitcode = mtd_main((int) keep.size(), av.data());
        sim::exited = true;
        return 0;
    }
    void launch() {
        sim::active = true;
        mainf = sim::spawn("main", mainfn, this);
    }
    bool serving() const { return !mainf->done && mainf->ready && (!strcmp(mainf->why, "accept") || !strcmp(mainf->why, "poll")); }
    void dead_check() {
        PBT_CHECK(!sim::exited, "the server exited with status %d", sim::exitcode);
        PBT_CHECK(sim::killed.empty(), "the server was killed by %s", sim::killed.c_str());
    }
    // one scheduling step; false when nothing can run
    bool step(bool may_advance = false) {
        auto r = sim::runnable();
        if (r.empty()) {
            uint64_t d = may_advance ? sim::next_deadline() : 0;
            if (!d) return false;
            sim::now_us = d;
            r = sim::runnable();
        }
        size_t i = s.below(r.size());
        if (slow >= 0 && r.size() > 1 && r[i]->id == slow && !s.chance(1, 16)) i = (i + 1) % r.size();
        sim::run(r[i]);
        dead_check();
        ++steps;
        return true;
    }
    void drain(int max = 100000) { while (max-- && step()) {} }
    // run everything for so long in virtual time
    void settle(uint64_t us) {
        uint64_t end = sim::now_us + us;
        while (1) {
            int k = 0;
            while (step()) PBT_CHECK(++k < 300000, "the server does not come to rest");
            uint64_t d = sim::next_deadline();
            if (!d || d > end) break;
            sim::now_us = d;
        }
        sim::now_us = end;
    }
    Client* open(int core) {
        clients.emplace_back(new Client);
        Client* c = clients.back().get();
        c->v = std::make_shared<sim::VFd>();
        c->v->kind = sim::VFd::CONN;
        c->core = core;
        sim::listeners.at(0)->backlog.push_back(c->v);
        return c;
    }
    // a client of the UDP socket for server thread `thr`
    Client* udp(int thr, int id) {
        for (int k = 0; k < 1000; ++k) {
            for (auto& v : sim::udps)
                if (v->port == 2117 + thr) {
                    clients.emplace_back(new Client);
                    clients.back()->v = v;
                    clients.back()->core = id;
                    clients.back()->udp = true;
                    return clients.back().get();
                }
            if (!step(true)) break;
        }
        pbt::fail("the server does not open UDP port %d", 2117 + thr);
        return 0;
    }
    static wire::V handshake(int core) { return wire::V::arr({0, 14, wire::V::map({"core", core, "maxkeylen", 255})}); }
    bool wait_reply(Client* c, int max = 20000, bool advance = true) {
        while (max--) {
            PBT_CHECK(c->pump(), "malformed bytes from the server: %s", pbt::hexs(c->rbuf).c_str());
            if (!c->replies.empty()) return true;
            if (c->closed()) return false;
            if (!step(advance)) return false;
        }
        return false;
    }
    Client* connect(int core) {
        Client* c = open(core);
        c->outq = wire::enc(handshake(core));
        c->deliver(1000);
        PBT_CHECK(wait_reply(c), "no reply to the handshake");
        wire::V r = c->replies.front();
        c->replies.pop_front();
        PBT_CHECK(r.t == wire::V::ARR && r.a.size() >= 4 && r.a[1].is(15) && r.a[2] == wire::V(true) && r.a[3].is(core),
                  "bad handshake reply %s", wire::show(r).c_str());
        return c;
    }
    wire::V call(Client* c, const wire::V& req) {
        c->outq += wire::enc(req);
        c->deliver((size_t) -1);
        PBT_CHECK(wait_reply(c), "no reply to %s", wire::show(req).c_str());
        wire::V r = c->replies.front();
        c->replies.pop_front();
        return r;
    }
};

// ---- the table as clients see it
typedef std::vector<std::string> Row;
typedef std::map<std::string, Row> Table;
struct Op {
    enum K { PUT = 6, REPLACE = 8, REMOVE = 10, GET = 2, SCAN = 4, CKP = 12 } kind;
    int thr = 0;
    uint64_t epoch = 0;
    std::string key;
    std::vector<std::pair<unsigned, std::string>> ch;   // columns and values
    std::vector<int> cols;                              // GET, SCAN
    int count = 0;                                      // SCAN
    bool mutates() const { return kind == PUT || kind == REPLACE || kind == REMOVE; }
};
inline wire::V request(const Op& o, int64_t seq) {
    wire::V r = wire::V::arr({seq, (int) o.kind});
    if (o.kind == Op::CKP) return r;
    r.a.push_back(o.key);
    if (o.kind == Op::PUT) for (auto& c : o.ch) { r.a.push_back(c.first); r.a.push_back(c.second); }
    if (o.kind == Op::REPLACE) r.a.push_back(o.ch[0].second);
    if (o.kind == Op::SCAN) r.a.push_back(o.count);
    for (int c : o.cols) r.a.push_back(c);
    return r;
}
// apply to the table; returns the reply a client must see
inline wire::V apply(Table& t, const Op& o, int64_t seq) {
    wire::V r = wire::V::arr({seq, (int) o.kind + 1});
    auto it = t.find(o.key);
    auto col = [](const Row& w, int c) { wire::V v; if ((size_t) c < w.size()) v = wire::V(w[c]); else v.t = wire::V::ABSENT; return v; };
    switch (o.kind) {
    case Op::PUT: {
        r.a.push_back(it == t.end() ? 1 : 2);
        Row& w = t[o.key];
        for (auto& c : o.ch) {
            if (w.size() <= c.first) w.resize(c.first + 1);
            w[c.first] = c.second;
        }
        break;
    }
    case Op::REPLACE:
        r.a.push_back(it == t.end() ? 1 : 2);
        t[o.key] = Row(1, o.ch[0].second);
        break;
    case Op::REMOVE:
        r.a.push_back(it != t.end());
        if (it != t.end()) t.erase(it);
        break;
    case Op::GET:
        if (it != t.end()) {
            if (o.cols.empty()) for (auto& c : it->second) r.a.push_back(c);
            else for (int c : o.cols) r.a.push_back(col(it->second, c));
        }
        break;
    case Op::SCAN: {
        int n = o.count;
        for (it = t.lower_bound(o.key); it != t.end() && n > 0; ++it, --n) {
            r.a.push_back(it->first);
            const Row& w = it->second;
            if (o.cols.size() == 1) r.a.push_back(col(w, o.cols[0]));
            else if (o.cols.empty() && w.size() == 1) r.a.push_back(w[0]);
            else {
                wire::V x = wire::V::arr();
                if (o.cols.empty()) for (auto& c : w) x.a.push_back(c);
                else for (int c : o.cols) x.a.push_back(col(w, c));
                r.a.push_back(x);
            }
        }
        break;
    }
    default: break;
    }
    return r;
}
inline std::string show(const Op& o) {
    const char* n = o.kind == Op::PUT ? "put" : o.kind == Op::REPLACE ? "replace" : o.kind == Op::REMOVE ? "remove" : o.kind == Op::GET ? "get" : o.kind == Op::SCAN ? "scan" : "checkpoint";
    std::string r = n;
    r += " " + pbt::hexs(o.key, 24);
    for (auto& c : o.ch) r += " " + std::to_string(c.first) + ":" + pbt::hexs(c.second, 12) + (c.second.size() > 12 ? "(" + std::to_string(c.second.size()) + ")" : "");
    for (int c : o.cols) r += " " + std::to_string(c);
    if (o.kind == Op::SCAN) r += " x" + std::to_string(o.count);
    return r;
}
inline std::string show(const Table& t, int lim = 12) {
    std::string r = "{";
    int k = 0;
    for (auto& x : t) {
        if (k++ == lim) { r += " ..."; break; }
        r += " " + pbt::hexs(x.first, 24) + "=[";
        for (auto& c : x.second) r += pbt::hexs(c, 12) + ",";
        r += "]";
    }
    return r + " }";
}
#endif
