// Messages: topics with one queue (C20) and publish/subscribe (C21).
#include "h.h"
#include <thread>
#include <memory>
using namespace CGraph;
namespace {
struct Msg : public GMessageParam { int from = 0, n = 0; };
struct Big : public Msg { std::string s; };
using Mgr = GMessageManager<>;
using PS = GMessagePushStrategy;
struct Rec { int from, n; uint64_t begin, end; int topic; bool ok; PS how; };      // sent
struct Got { int from, n; uint64_t begin, end; };
struct MW { std::deque<Rec> sent; std::vector<std::vector<Got>> got; bool stop; int live_senders; };
MW* M;
std::shared_ptr<Msg> mk(int from, int n) { auto p = std::make_shared<Big>(); p->from = from; p->n = n; p->s = std::to_string(from) + "/" + std::to_string(n); return p; }
void chk(const std::shared_ptr<Msg>& v) { if (!v) sim_fail("msg-null", "a receive succeeded without a message"); auto b = std::static_pointer_cast<Big>(v); if (b->s != std::to_string(v->from) + "/" + std::to_string(v->n)) sim_fail("msg-damaged", "message %d of sender %d is damaged", v->n, v->from); }
const PS PSX[] = {PS::WAIT, PS::DROP, PS::REPLACE};
// every message at most once; each sender's messages in order at each receiver (a receiver never sees an older one after a newer one)
void check_order(const std::vector<Got>& g, const char* who) {
    std::map<int, int> last;
    for (const Got& x : g) { auto it = last.find(x.from); if (it != last.end() && it->second >= x.n) sim_fail(it->second == x.n ? "msg-duplicate" : "msg-order", "%s got message %d of sender %d after message %d", who, x.n, x.from, it->second); last[x.from] = x.n; }
}
void sender(Mgr* m, int from, int count, int topic, const std::vector<PS>& how) {
    for (int i = 0; i < count; i++) {
        PS h = how[sim_choose(how.size())]; auto v = mk(from, i); Rec* r; { SimNP np; M->sent.push_back({from, i, sim_seq(), 0, topic, false, h}); r = &M->sent.back(); }
        if (sim_choose(4) == 1) sim_sleep_us(1u << sim_choose(14));
        { SimNP np; r->begin = sim_seq(); }
        CStatus st = m->sendTopicValue<Msg>("t" + std::to_string(topic), v, h);
        SimNP np; r->end = sim_seq(); if (!st.isOK()) sim_fail("msg-status", "sending returned %d %s", st.getCode(), st.getInfo().c_str()); r->ok = true; sim_event(from * 100 + i); sim_log("sent %d/%d", from, i);
    }
}
// receives until `want` messages arrived, or (want < 0) until the senders are done and nothing is left
void receiver(Mgr* m, int idx, int topic, int want) {
    for (int k = 0; want < 0 || k < want;) {
        static const CMSec to[] = {CGRAPH_MAX_BLOCK_TTL, 1000, 50, 1, 0};
        CMSec t = want < 0 ? to[2 + sim_choose(2)] : to[sim_choose(5)]; std::shared_ptr<Msg> v;
        bool done; uint64_t b, t0 = sim_now_ns(), d0 = sim_delay_ns(); { SimNP np; done = M->live_senders == 0; b = sim_seq(); }
        if (sim_choose(4) == 1) sim_sleep_us(1u << sim_choose(14));
        t0 = sim_now_ns(); d0 = sim_delay_ns();
        CStatus st = m->recvTopicValue<Msg>("t" + std::to_string(topic), v, t);
        uint64_t took = sim_now_ns() - t0, inj = sim_delay_ns() - d0;
        SimNP np;
        if (st.isOK()) { chk(v); M->got[idx].push_back({v->from, v->n, b, sim_seq()}); sim_event(v->from * 100 + v->n + 50000 * (idx + 1)); sim_log("receiver %d got %d/%d", idx, v->from, v->n); k++; }
        else {
            sim_count(F_TIMEOUT);
            if (v) sim_fail("msg-status", "a receive returned an error and a message");
            if (took < (uint64_t)t * 1000000ull) sim_fail("msg-timeout-early", "a receive with a limit of %ld ms gave up after %llu us", (long)t, (unsigned long long)took / 1000);
            if (took > (uint64_t)t * 1000000ull + 100000000ull + inj) sim_fail("msg-timeout-late", "a receive with a limit of %ld ms returned after %llu ms", (long)t, (unsigned long long)took / 1000000);
            if (done && want < 0) return;
        }
    }
}
}
// all senders wait for room: nothing is lost, nothing duplicated
SCENARIO(C20, waiting) {
    MW w{}; M = &w; sim_limit_ms(2000000); sim_hang_class("msg-stuck");
    Mgr* m = GMessageManagerSingleton::get(); static const CUInt cap[] = {1, 2, 3, 4, 64}; CUInt c = cap[sim_choose(5)];
    H::must_ok(m->createTopic<Msg>("t0", c), "createTopic()");
    int ns = 1 + sim_choose(3), nr = 1 + sim_choose(3), total = 0; std::vector<int> cnt(ns);
    for (int i = 0; i < ns; i++) total += cnt[i] = 1 + sim_choose(6);
    if (ns + nr > 2) sim_count(F_CONTENTION);
    w.got.resize(nr); w.live_senders = ns; std::vector<std::thread> th; int left = total;
    for (int i = 0; i < nr; i++) { int want = i + 1 == nr ? left : (int)sim_choose(left + 1); left -= want; th.emplace_back([=] { receiver(m, i, 0, want); }); }
    for (int i = 0; i < ns; i++) { int n = cnt[i]; th.emplace_back([=] { sender(m, i, n, 0, {PS::WAIT}); }); }
    for (auto& t : th) t.join();
    std::map<std::pair<int, int>, int> seen;
    for (auto& g : w.got) { check_order(g, "a receiver"); for (Got& x : g) if (++seen[{x.from, x.n}] > 1) sim_fail("msg-duplicate", "message %d of sender %d was received twice", x.n, x.from); }
    if ((int)seen.size() != total) sim_fail("msg-lost", "%d of %d messages were received", (int)seen.size(), total);
    std::shared_ptr<Msg> v; if (m->recvTopicValue<Msg>("t0", v, 1).isOK()) sim_fail("msg-invented", "a message is left although all were received");
    H::must_ok(m->removeTopic("t0"), "removeTopic()"); m->clear();
}
// one thread: exact model of the three policies, errors of unknown topics
SCENARIO(C20, policies) {
    MW w{}; M = &w; sim_limit_ms(2000000); sim_hang_class("msg-stuck");
    Mgr* m = GMessageManagerSingleton::get(); int nt = 1 + sim_choose(2); std::vector<std::deque<int>> q(nt); std::vector<CUInt> cap(nt);
    for (int i = 0; i < nt; i++) { cap[i] = 1 + sim_choose(5); H::must_ok(m->createTopic<Msg>("t" + std::to_string(i), cap[i]), "createTopic()"); }
    std::vector<int> room(nt, -1);      // learned: how many messages fit (capacity, or one less)
    int ops = 5 + sim_choose(40), seq = 0; uint64_t obj0 = 0; (void)obj0;
    for (int k = 0; k < ops; k++) {
        int t = sim_choose(nt); std::string n = "t" + std::to_string(t); std::shared_ptr<Msg> v;
        switch (sim_choose(8)) {
            case 0: case 1: case 2: case 3: {
                PS h = PSX[1 + sim_choose(2)]; if (q[t].size() + 1 < std::max(cap[t], 2u) && sim_choose(2)) h = PS::WAIT;
                H::must_ok(m->sendTopicValue<Msg>(n, mk(0, seq), h), "send"); q[t].push_back(seq++);
                if (q[t].size() > cap[t]) { if (h == PS::DROP) q[t].pop_back(); else q[t].pop_front(); }
                break; }
            case 4: case 5: {
                CStatus st = m->recvTopicValue<Msg>(n, v, sim_choose(2));
                if (q[t].empty()) { if (st.isOK()) sim_fail("msg-invented", "a message was received from an empty topic"); }
                else { if (!st.isOK()) sim_fail("msg-lost", "%d messages should be waiting in a topic of capacity %u, none was received", (int)q[t].size(), cap[t]); chk(v);
                    if (v->n != q[t].front()) sim_fail("msg-policy", "received message %d, the policies leave %d in front (capacity %u)", v->n, q[t].front(), cap[t]); q[t].pop_front(); }
                break; }
            case 6: {
                std::string bad = "u" + std::to_string(sim_choose(3));
                if (m->sendTopicValue<Msg>(bad, mk(0, 0), PS::WAIT).isOK() || m->recvTopicValue<Msg>(bad, v, 1).isOK() || m->removeTopic(bad).isOK()) sim_fail("msg-status", "an operation on an unknown topic succeeded");
                break; }
            default: {
                if (sim_choose(2)) { if (!m->createTopic<Msg>(n, cap[t]).isOK()) sim_fail("msg-status", "creating the same topic again returned an error"); }
                else { if (m->createTopic<Msg>(n, cap[t] + 1).isOK()) sim_fail("msg-status", "creating a topic with another size succeeded"); }
                break; }
        }
        SimNP np; sim_event(k * 16 + q[t].size());
    }
    for (int t = 0; t < nt; t++) if (sim_choose(2)) { H::must_ok(m->removeTopic("t" + std::to_string(t)), "removeTopic()"); std::shared_ptr<Msg> v; if (m->recvTopicValue<Msg>("t" + std::to_string(t), v, 1).isOK()) sim_fail("msg-status", "a removed topic still works"); }
    m->clear();
}
// all policies mixed under concurrency; topics created and removed by others meanwhile
SCENARIO(C20, mixed) {
    MW w{}; M = &w; sim_limit_ms(2000000); sim_hang_class("msg-stuck");
    Mgr* m = GMessageManagerSingleton::get(); CUInt c = 1 + sim_choose(4); int nt = 1 + sim_choose(2);
    for (int i = 0; i < nt; i++) H::must_ok(m->createTopic<Msg>("t" + std::to_string(i), c), "createTopic()");
    int ns = 1 + sim_choose(3), nr = nt + sim_choose(3); w.got.resize(nr); w.live_senders = ns; sim_count(F_CONTENTION);
    std::vector<PS> how; for (PS h : PSX) if (sim_choose(2)) how.push_back(h); if (how.empty()) how.push_back(PS::DROP);
    std::vector<std::thread> rx, tx;
    for (int i = 0; i < nr; i++) rx.emplace_back([=] { receiver(m, i, i % nt, -1); });
    for (int i = 0; i < ns; i++) { int n = 1 + sim_choose(7), t = sim_choose(nt); tx.emplace_back([=] { sender(m, i, n, t, how); SimNP np; M->live_senders--; }); }
    bool other = sim_choose(2); std::thread ot;
    if (other) ot = std::thread([=] { for (int i = 0; i < 12; i++) { std::string n = "x" + std::to_string(i); H::must_ok(m->createTopic<Msg>(n, 2), "createTopic()"); H::must_ok(m->sendTopicValue<Msg>(n, mk(9, 1), PS::WAIT), "send"); std::shared_ptr<Msg> v; H::must_ok(m->recvTopicValue<Msg>(n, v, 10), "recv"); if (i & 1) H::must_ok(m->removeTopic(n), "removeTopic()"); } });
    for (auto& t : tx) t.join();
    for (auto& t : rx) t.join();
    if (other) ot.join();
    std::map<std::pair<int, int>, int> seen; std::map<std::pair<int, int>, Rec*> snt;
    for (Rec& r : w.sent) snt[{r.from, r.n}] = &r;
    for (int i = 0; i < nr; i++) { check_order(w.got[i], "a receiver"); for (Got& x : w.got[i]) { auto it = snt.find({x.from, x.n}); if (it == snt.end() || it->second->topic != i % nt) sim_fail("msg-invented", "message %d of sender %d was received from topic %d", x.n, x.from, i % nt); if (++seen[{x.from, x.n}] > 1) sim_fail("msg-duplicate", "message %d of sender %d was received twice", x.n, x.from); } }
    bool rep = false; for (PS h : how) if (h == PS::REPLACE) rep = true;
    for (Rec& r : w.sent) {      // a message sent with WAIT is lost only if somebody replaces; one sent with DROP may also be dropped
        if (seen.count({r.from, r.n})) continue;
        if (r.how == PS::WAIT && !rep) sim_fail("msg-lost", "message %d of sender %d was sent with the waiting policy and got lost", r.n, r.from);
        if (r.how == PS::DROP && !rep) {      // dropped: at that moment the buffer was full, so enough others were sent before it that were not received before it
            int in = 0, out = 0; for (Rec& o : w.sent) if (o.topic == r.topic && &o != &r && o.begin < r.end && (o.how == PS::WAIT || seen.count({o.from, o.n}))) in++;
            for (int i = 0; i < nr; i++) if (i % nt == r.topic) for (Got& x : w.got[i]) if (x.end < r.begin) out++;
            if (in - out < (int)c - 1 || in - out < 1) sim_fail("msg-lost", "message %d of sender %d was dropped although at most %d messages were waiting (capacity %u)", r.n, r.from, in - out, c);
        }
        if (r.how == PS::REPLACE && rep) { bool later = false; for (Rec& o : w.sent) if (o.topic == r.topic && o.how == PS::REPLACE && o.end > r.begin && &o != &r) later = true; if (!later) sim_fail("msg-lost", "message %d of sender %d was sent with the replacing policy and got lost, nothing replaced it", r.n, r.from); }
    }
    m->clear();
}
// ---------------------------------------------------------------------------------------------- publish/subscribe
namespace {
struct Conn { CIndex id; int topic, cap; std::vector<Got> got; uint64_t bind_b, bind_e, det_b, det_e; PS mode; };
struct PW { std::deque<Conn> cs; std::deque<Rec> pub; int live; };
PW* Q;
Conn* bind_one(Mgr* m, int topic, CUInt cap) {
    Conn* c; { SimNP np; Q->cs.push_back({0, topic, (int)cap, {}, sim_seq(), ~0ull, ~0ull, ~0ull, PS::WAIT}); c = &Q->cs.back(); }
    CIndex id = m->bindTopic<Msg>("p" + std::to_string(topic), cap);
    SimNP np; c->bind_e = sim_seq(); c->id = id; sim_log("conn %d bound to topic %d", (int)id, topic); return c;
}
void subscriber(Mgr* m, Conn* c, int stop_after) {
    for (int k = 0; stop_after < 0 || k < stop_after;) {
        std::shared_ptr<Msg> v; bool done; { SimNP np; done = Q->live == 0; } static const CMSec to[] = {100, 5, 1}; CMSec t = to[sim_choose(3)];
        if (sim_choose(4) == 1) sim_sleep_us(1u << sim_choose(13));
        uint64_t b = sim_seq(); CStatus st = m->subTopicValue<Msg>(c->id, v, t);
        SimNP np;
        if (st.isOK()) { chk(v); k++; c->got.push_back({v->from, v->n, b, sim_seq()}); sim_event(c->id * 1000 + v->from * 50 + v->n); sim_log("conn %d got %d/%d", (int)c->id, v->from, v->n); }
        else if (done) return;
    }
}
void publisher(Mgr* m, int from, int topic, int n, PS how) {
    for (int i = 0; i < n; i++) {
        auto v = mk(from, i); if (sim_choose(4) == 1) sim_sleep_us(1u << sim_choose(13));
        Rec* r; { SimNP np; Q->pub.push_back({from, i, sim_seq(), ~0ull, topic, false, how}); r = &Q->pub.back(); }
        CStatus st = m->pubTopicValue<Msg>("p" + std::to_string(topic), v, how);
        SimNP np; r->end = sim_seq(); r->ok = st.isOK(); sim_log("published %d/%d on %d: %d", from, i, topic, st.getCode());
    }
}
void check_pubsub(bool lossless) {
    std::map<std::pair<int, int>, Rec*> pub; for (Rec& r : Q->pub) pub[{r.from, r.n}] = &r;
    for (Conn& c : Q->cs) {
        check_order(c.got, "a subscriber"); std::map<std::pair<int, int>, int> seen;
        for (Got& x : c.got) {
            auto it = pub.find({x.from, x.n}); if (it == pub.end() || it->second->topic != c.topic) sim_fail("msg-invented", "connection %d on topic %d got message %d of publisher %d", (int)c.id, c.topic, x.n, x.from);
            if (++seen[{x.from, x.n}] > 1) sim_fail("msg-duplicate", "connection %d got message %d of publisher %d twice", (int)c.id, x.n, x.from);
            if (it->second->end < c.bind_b) sim_fail("msg-before-bind", "connection %d got a message published before it was bound", (int)c.id);
        }
        if (lossless && c.det_b == ~0ull) for (Rec& r : Q->pub) if (r.topic == c.topic && r.ok && r.begin > c.bind_e && !seen.count({r.from, r.n})) sim_fail("msg-lost", "connection %d on topic %d did not get message %d of publisher %d", (int)c.id, c.topic, r.n, r.from);
    }
    for (Rec& r : Q->pub) if (!r.ok) for (Conn& c : Q->cs) if (c.topic == r.topic && c.bind_e < r.begin && c.det_b == ~0ull) sim_fail("msg-status", "publishing to a topic with a subscriber returned an error");
}
}
SCENARIO(C21, fanout) {      // waiting publishers, subscribers that may also bind late
    PW w{}; Q = &w; sim_limit_ms(2000000); sim_hang_class("msg-stuck");
    Mgr* m = GMessageManagerSingleton::get(); int nt = 1 + sim_choose(2), nc = 1 + sim_choose(3), np = 1 + sim_choose(2), late = sim_choose(2);
    w.live = np + late; sim_count(F_CONTENTION); std::vector<Conn*> cs;
    for (int i = 0; i < nc; i++) cs.push_back(bind_one(m, sim_choose(nt), 1 + sim_choose(4)));
    std::vector<std::thread> th;
    for (int i = 0; i < np; i++) { int t = sim_choose(nt), n = 1 + sim_choose(6); th.emplace_back([=] { publisher(m, i, t, n, PS::WAIT); SimNP g; Q->live--; }); }
    for (Conn* c : cs) th.emplace_back([=] { subscriber(m, c, -1); });
    if (late) { int t = sim_choose(nt), cap = 1 + sim_choose(4); th.emplace_back([=] { if (sim_choose(2)) sim_sleep_us(1u << sim_choose(14)); Conn* c = bind_one(m, t, cap); { SimNP g; Q->live--; } subscriber(m, c, -1); }); }
    for (auto& t : th) t.join();
    check_pubsub(true);
    std::shared_ptr<Msg> v; if (m->pubTopicValue<Msg>("nobody", mk(0, 0), PS::WAIT).isOK() || m->subTopicValue<Msg>(9999, v, 1).isOK() || m->dropTopic("nobody").isOK() || m->detachConnId("nobody", 1).isOK()) sim_fail("msg-status", "an operation on an unknown topic or connection succeeded");
    m->clear();
}
SCENARIO(C21, detach) {      // connections are bound and detached while others publish without waiting
    PW w{}; Q = &w; sim_limit_ms(2000000); sim_hang_class("msg-stuck");
    Mgr* m = GMessageManagerSingleton::get(); int nt = 1 + sim_choose(2), nc = 1 + sim_choose(3), np = 1 + sim_choose(2), churn = 1 + sim_choose(2);
    w.live = np; sim_count(F_CONTENTION); std::vector<Conn*> cs;
    for (int i = 0; i < nc; i++) cs.push_back(bind_one(m, sim_choose(nt), 30));
    std::vector<std::thread> th;
    for (int i = 0; i < np; i++) { int t = sim_choose(nt), n = 1 + sim_choose(6); PS h = PSX[1 + sim_choose(2)]; th.emplace_back([=] { publisher(m, i, t, n, h); SimNP g; Q->live--; }); }
    for (Conn* c : cs) th.emplace_back([=] { subscriber(m, c, -1); });
    for (int i = 0; i < churn; i++) th.emplace_back([=] {
        int k = 1 + sim_choose(3);
        for (int j = 0; j < k; j++) {
            Conn* c = bind_one(m, sim_choose(nt), 1 + sim_choose(3)); subscriber(m, c, sim_choose(3));
            if (sim_choose(2)) sim_sleep_us(1u << sim_choose(12));
            { SimNP g; c->det_b = sim_seq(); }
            H::must_ok(m->detachConnId("p" + std::to_string(c->topic), c->id), "detachConnId()");
            { SimNP g; c->det_e = sim_seq(); }
            std::shared_ptr<Msg> v; if (m->subTopicValue<Msg>(c->id, v, 1).isOK()) sim_fail("msg-after-detach", "a detached connection received a message");
        } });
    for (auto& t : th) t.join();
    check_pubsub(true);
    m->clear();
}
SCENARIO(C21, sequence) {      // one thread: exact model
    PW w{}; Q = &w; sim_limit_ms(2000000); sim_hang_class("msg-stuck");
    Mgr* m = GMessageManagerSingleton::get(); struct C { CIndex id; int topic; CUInt cap; std::deque<int> q; }; std::map<CIndex, C> cs; std::map<int, bool> known; std::vector<CIndex> dead; int seq = 0, ops = 5 + sim_choose(40);
    for (int k = 0; k < ops; k++) {
        int t = sim_choose(3); std::string n = "p" + std::to_string(t); std::shared_ptr<Msg> v;
        switch (sim_choose(9)) {
            case 0: case 1: { CUInt cap = 1 + sim_choose(4); CIndex id = m->bindTopic<Msg>(n, cap); if (cs.count(id)) sim_fail("msg-conn", "bindTopic() returned the connection %d twice", (int)id); cs[id] = C{id, t, cap, {}}; known[t] = true; for (size_t i = 0; i < dead.size(); i++) if (dead[i] == id) dead.erase(dead.begin() + i--); break; }
            case 2: case 3: case 4: {
                bool room = true; for (auto& c : cs) if (c.second.topic == t && c.second.q.size() >= c.second.cap) room = false;
                PS h = PSX[room ? sim_choose(3) : 1 + sim_choose(2)]; CStatus st = m->pubTopicValue<Msg>(n, mk(0, seq), h);      // with room at every bound connection, no publisher has to wait
                if (st.isOK() != known.count(t)) sim_fail("msg-status", "publishing returned %d, the topic is %s", st.getCode(), known.count(t) ? "known" : "unknown");
                if (st.isOK()) for (auto& c : cs) if (c.second.topic == t) { auto& q = c.second.q; q.push_back(seq); if (q.size() > c.second.cap) { if (h == PS::DROP) q.pop_back(); else q.pop_front(); } }
                seq++; break; }
            case 5: case 6: {
                if (cs.empty()) break; auto it = cs.begin(); std::advance(it, sim_choose(cs.size())); auto& q = it->second.q; CStatus st = m->subTopicValue<Msg>(it->first, v, sim_choose(2));
                if (q.empty()) { if (st.isOK()) sim_fail("msg-invented", "a message was received on an empty connection"); break; }
                if (!st.isOK()) sim_fail("msg-lost", "%d messages should be waiting on a connection of capacity %u, none was received", (int)q.size(), it->second.cap);
                chk(v); if (v->n != q.front()) sim_fail("msg-policy", "received message %d, expected %d", v->n, q.front()); q.pop_front(); break; }
            case 7: {
                if (cs.empty()) break; auto it = cs.begin(); std::advance(it, sim_choose(cs.size()));
                H::must_ok(m->detachConnId("p" + std::to_string(it->second.topic), it->first), "detachConnId()"); dead.push_back(it->first); cs.erase(it); break; }
            default: {
                CStatus st = m->dropTopic(n); if (st.isOK() != known.count(t)) sim_fail("msg-status", "dropTopic() returned %d", st.getCode());
                known.erase(t); for (auto it = cs.begin(); it != cs.end();) if (it->second.topic == t) { dead.push_back(it->first); it = cs.erase(it); } else ++it; }
        }
        for (CIndex d : dead) if (m->subTopicValue<Msg>(d, v, 0).isOK()) sim_fail("msg-after-detach", "a connection that was detached or dropped received a message");
        SimNP np; sim_event(k * 64 + cs.size());
    }
    m->clear();
}
