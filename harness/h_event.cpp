// Events, stages, daemons (C17, C18, C19).
#include "graph.h"
using namespace H;
namespace {
// ------------------------------------------------------------------------------------------------ events
struct EvSt { int idx = 0; int triggered = 0, done = 0, running = 0, started = 0; int work = 0; int waited = 0;      // RUN_FINISH + sync
              int want_run = 0, want_destroy = 0, nowait = 0; };
struct EvWorld { std::vector<EvSt> ev; bool alive = true; bool in_destroy = false; int extra = 0; };
EvWorld* E;
struct EvParam : public GEventParam { int idx = 0; CVoid clone(GPassedParam* p) override { idx = static_cast<EvParam*>(p)->idx; } };
class TEvent : public GEvent {
protected:
    CVoid trigger(GEventParamPtr q) override {
        int idx = static_cast<EvParam*>(q)->idx;
        EvSt& e = E->ev[idx];
        { SimNP np; if (!E->alive) sim_fail("event-late", "event %d handled after the pipeline was destroyed", idx); e.started++; e.running++; if (e.started > e.triggered) sim_fail("event-extra", "event %d handled %d times after %d triggers", idx, e.started, e.triggered); }
        if (e.work) sim_sleep_us(e.work); else sim_point();
        SimNP np; e.running--; e.done++;
        W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
    }
};
template <class T> static void fire(T* n, bool daemon) {
    if (E->ev.empty()) return;
    int idx = sim_choose(E->ev.size()); EvSt& e = E->ev[idx];
    std::string key = "e" + std::to_string(idx);
    int how = sim_choose(6);
    switch (how) {
        case 0: {   // synchronous: handled before the call returns, exactly one more
            int d0; { SimNP np; e.triggered++; if (daemon) e.want_destroy++; else e.want_run++; d0 = e.done; }
            CStatus st = n->fire_notify(key, GEventType::SYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH);
            SimNP np;
            if (!st.isOK()) sim_fail("event-status", "synchronous notify returned %d", st.getCode());
            if (e.done < d0 + 1) sim_fail("event-sync", "synchronous notify of event %d returned before it was handled", idx);
            break; }
        case 1: { { SimNP np; e.triggered++; if (daemon) e.nowait++; else e.want_run++; } CStatus st = n->fire_notify(key, GEventType::ASYNC, daemon ? GEventAsyncStrategy::NO_WAIT : GEventAsyncStrategy::PIPELINE_RUN_FINISH); if (!st.isOK()) sim_fail("event-status", "notify returned %d", st.getCode()); break; }
        case 2: { { SimNP np; e.triggered++; e.want_destroy++; } CStatus st = n->fire_notify(key, GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_DESTROY); if (!st.isOK()) sim_fail("event-status", "notify returned %d", st.getCode()); break; }
        case 3: case 4: {
            static const GEventAsyncStrategy ss[] = {GEventAsyncStrategy::PIPELINE_RUN_FINISH, GEventAsyncStrategy::PIPELINE_DESTROY, GEventAsyncStrategy::NO_WAIT};
            int s = daemon ? 1 : sim_choose(3);
            { SimNP np; e.triggered++; if (s == 0) e.want_run++; else if (s == 1) e.want_destroy++; else e.nowait++; }
            auto f = n->fire_async(key, ss[s]);
            if (!f.valid()) sim_fail("event-status", "asyncNotify returned an invalid handle");
            if (!daemon && sim_choose(2)) {      // one task per event makes the handle precise when the event is fired once
                f.wait();
                SimNP np; e.waited++;
                if (e.done < 1 || (e.triggered == 1 && e.done != 1)) sim_fail("event-wait", "waiting for event %d returned before it was handled", idx);
            }
            break; }
        default: {
            CStatus st = n->fire_notify("missing", sim_choose(2) ? GEventType::SYNC : GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH);
            if (!st.isErr()) sim_fail("event-unknown", "notifying an unknown event succeeded");
            break; }
    }
}
class EvNode : public TNode { public: explicit EvNode(int i) : TNode(i) {}
    CStatus fire_notify(const std::string& k, GEventType t, GEventAsyncStrategy s) { return __notify_4py(k, t, s); }
    std::shared_future<CVoid> fire_async(const std::string& k, GEventAsyncStrategy s) { return __asyncNotify_4py(k, s); } };
class EvDaemon : public GDaemon { public:
    CStatus fire_notify(const std::string& k, GEventType t, GEventAsyncStrategy s) { return __notify_4py(k, t, s); }
    std::shared_future<CVoid> fire_async(const std::string& k, GEventAsyncStrategy s) { return __asyncNotify_4py(k, s); }
protected: CVoid daemonTask(GDaemonParamPtr) override { { SimNP np; if (!E->alive) sim_fail("daemon-late", "daemon task runs after destroy"); } if (E->extra-- > 0) fire(this, true); } };
class EvAspect : public GAspect { public:
    CStatus fire_notify(const std::string& k, GEventType t, GEventAsyncStrategy s) { return __notify_4py(k, t, s); }
    std::shared_future<CVoid> fire_async(const std::string& k, GEventAsyncStrategy s) { return __asyncNotify_4py(k, s); }
    CStatus beginRun() override { if (sim_choose(2)) fire(this, false); return CStatus(); }
    CVoid finishRun(const CStatus&) override { if (sim_choose(3) == 1) fire(this, false); } };

struct EvHooks {
    EvWorld w; bool daemon;
    explicit EvHooks(bool d) : daemon(d) { E = &w; }
    static void quiet(EvSt& e, const char* when, bool destroyed) {
        int must = e.want_run + (destroyed ? e.want_destroy : 0);
        if (e.done < must - 0 && destroyed) sim_fail("event-lost", "event %d: %d of %d awaited triggers were handled %s", e.idx, e.done, must, when);
    }
    void install(Opt& o) {
        o.on_build = [this](GPipelinePtr p) {
            int n = 1 + sim_choose(4);
            w.ev.resize(n);
            for (int i = 0; i < n; i++) { EvParam q; q.idx = i; w.ev[i].idx = i; w.ev[i].work = sim_choose(3) == 1 ? 1 << sim_choose(13) : 0; p->addGEvent<TEvent, EvParam>("e" + std::to_string(i), &q); }
            for (El& x : W->els) if (x.kind == LEAF) {
                x.body = [](El& x, size_t) -> CStatus { int m = sim_choose(3); for (int i = 0; i < m; i++) fire(static_cast<EvNode*>(x.ptr), false); return CStatus(); };
                if (sim_choose(4) == 1) x.ptr->addGAspect<EvAspect, GAspectDefaultParam>(nullptr);
            }
            if (daemon && sim_choose(2)) { w.extra = 1 + sim_choose(3); p->addGDaemon<EvDaemon, GDaemonDefaultParam>(1 + sim_choose(8), nullptr); }
        };
        o.after_run = [this](GPipelinePtr, const CStatus&) {
            for (EvSt& e : w.ev) {
                // everything triggered in the run with the default strategy (and synchronously) is over
                int open = e.triggered - e.done;
                if (open > e.want_destroy + e.nowait) sim_fail("event-await", "run() returned while %d handler executions of event %d are outstanding, only %d need not be awaited", open, e.idx, e.want_destroy + e.nowait);
            }
        };
    }
    void over() {
        w.alive = false;
        for (EvSt& e : w.ev) {
            if (e.done < e.want_run + e.want_destroy) sim_fail("event-lost", "event %d was handled %d times for %d awaited triggers until destroy() returned", e.idx, e.done, e.want_run + e.want_destroy);
            if (e.done > e.triggered) sim_fail("event-extra", "event %d was handled %d times for %d triggers", e.idx, e.done, e.triggered);
            if (e.running) sim_fail("event-late", "event %d is still being handled after destroy()", e.idx);
        }
    }
};
}
#define EV_RUN(DAEMON, ...) Opt o; EvHooks h(DAEMON); h.install(o); o.on_end = [&](GPipelinePtr) { h.over(); }; o.g.groups = 0; o.g.max_top = 5; __VA_ARGS__; graph_common(o)
SCENARIO(C17, unique) { EV_RUN(false, o.max_runs = 3; o.min_threads = 6); }
SCENARIO(C17, failing) { EV_RUN(false, o.max_runs = 2; o.modes = 3; o.min_threads = 6); }
SCENARIO(C17, serial) { EV_RUN(false, o.max_runs = 3; o.min_threads = 6; o.serial = true; o.process = true; o.modes = sim_choose(2) ? 3 : 0); }
SCENARIO(C17, daemon) { EV_RUN(true, o.max_runs = 3; o.min_threads = 6); }

// ------------------------------------------------------------------------------------------------ stages
namespace {
struct StWorld { int threshold[3], entered[3], left[3], launches[3], waiting[3], nst; int rounds; int members; bool over; int base[3]; };
StWorld* S;
struct StParam : public GStageParam { int idx = 0; CVoid clone(GPassedParam* p) override { idx = static_cast<StParam*>(p)->idx; } };
class TStage : public GStage {
protected: CVoid launch(GStageParamPtr q) override {
    int i = static_cast<StParam*>(q)->idx;
    sim_point(); SimNP np; S->launches[i]++;
    if (S->launches[i] * S->threshold[i] > S->entered[i]) sim_fail("stage-early", "stage launched %d times after only %d entries, threshold %d", S->launches[i], S->entered[i], S->threshold[i]);
} };
class StNode : public GNode {
public:
    explicit StNode(int i, int s) : id(i), stage(s) {}
    int id, stage;
    CStatus run() override {
        for (int r = 0; r < S->rounds; r++) {
            if (sim_choose(3) == 1) { sim_count(F_SLOW); sim_sleep_us(1u << sim_choose(12)); }
            int round;
            { SimNP np; S->entered[stage]++; round = r + S->base[stage]; }
            CStatus st = sim_choose(2) ? enterStage("s" + std::to_string(stage)) : enterStage("s" + std::to_string(stage));
            SimNP np;
            if (!st.isOK()) sim_fail("stage-status", "entering a stage returned %d", st.getCode());
            S->left[stage]++;
            // nobody leaves round r before threshold*(r+1) entries and its launch
            if (S->entered[stage] < S->threshold[stage] * (round + 1)) sim_fail("stage-early", "a thread left round %d of a stage after %d entries, threshold %d", round, S->entered[stage], S->threshold[stage]);
            if (S->launches[stage] < round + 1) sim_fail("stage-launch", "a thread left round %d of a stage after %d launches", round, S->launches[stage]);
            if (sim_choose(6) == 1) { st = enterStage("nope"); if (!st.isErr()) sim_fail("stage-unknown", "entering an unknown stage succeeded"); }
        }
        return CStatus();
    }
};
}
SCENARIO(C18, rounds) {
    Scope sc; StWorld s{}; S = &s;
    sim_limit_ms(120000); sim_hang_class("stage-deadlock");
    GPipelinePtr p = GPipelineFactory::create();
    s.nst = 1 + sim_choose(2); s.rounds = 1 + sim_choose(5);
    int members = 0;
    for (int i = 0; i < s.nst; i++) {
        s.threshold[i] = 1 + sim_choose(4);
        StParam q; q.idx = i;
        p->addGStage<TStage, StParam>("s" + std::to_string(i), s.threshold[i], &q);
        for (int k = 0; k < s.threshold[i]; k++) { reg<StNode>(p, {}, "n" + std::to_string(members), 1, members, i); members++; }
    }
    UThreadPoolConfig c = rnd_config(members); c.default_thread_size_ = members + sim_choose(2); c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_; c.batch_task_enable_ = false;
    p->setUniqueThreadPoolConfig(c);
    must_ok(p->init(), "init()");
    int runs = 1 + sim_choose(2);
    for (int r = 0; r < runs; r++) {
        must_ok(p->run(), "run()");
        for (int i = 0; i < s.nst; i++) {
            s.base[i] += s.rounds;
            if (s.launches[i] != s.base[i]) sim_fail("stage-launch", "launch ran %d times in %d rounds", s.launches[i], s.base[i]);
            if (s.left[i] != s.entered[i]) sim_fail("stage-lost", "%d threads entered and %d left", s.entered[i], s.left[i]);
        }
    }
    must_ok(p->destroy(), "destroy()");
    GPipelineFactory::remove(p);
}

// More members than the threshold: every threshold-th entry opens the stage for exactly that many members. The launch function may throw.
namespace {
struct Sg { int thr, members, entered, left, launches, threw; bool may_throw; };
Sg* G;
class GStageT : public GStage { protected: CVoid launch(GStageParamPtr) override {
    sim_point(); SimNP np; G->launches++;
    if (G->launches * G->thr > G->entered) sim_fail("stage-early", "stage launched %d times after only %d entries, threshold %d", G->launches, G->entered, G->thr);
    if (G->may_throw && sim_choose(2)) { G->threw++; sim_count(F_NODE_EXCEPTION); CGRAPH_THROW_EXCEPTION("E7 launch") }
} };
class SgNode : public GNode { public: explicit SgNode(int i) : id(i) {} int id;
    CStatus run() override {
        if (sim_choose(3) == 1) { sim_count(F_SLOW); sim_sleep_us(1u << sim_choose(12)); }
        { SimNP np; G->entered++; }
        struct L { ~L() { SimNP np; G->left++; if (G->left > G->launches * G->thr) sim_fail("stage-early", "%d members left after %d launches with threshold %d", G->left, G->launches, G->thr); } };
        { L l; CStatus st = enterStage("s"); if (!st.isOK()) sim_fail("stage-status", "entering a stage returned %d", st.getCode()); }
        return CStatus();
    } };
void stage_groups(bool may_throw) {
    Scope sc; Sg g{}; G = &g; g.may_throw = may_throw;
    sim_limit_ms(120000); sim_hang_class("stage-deadlock");
    GPipelinePtr p = GPipelineFactory::create();
    g.thr = 1 + sim_choose(4); g.members = may_throw ? g.thr : g.thr * (1 + sim_choose(3));
    p->addGStage<GStageT>("s", g.thr);
    for (int i = 0; i < g.members; i++) reg<SgNode>(p, {}, "n" + std::to_string(i), 1, i);
    UThreadPoolConfig c = rnd_config(g.members); c.default_thread_size_ = g.members + sim_choose(2); c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_; c.batch_task_enable_ = false;
    p->setUniqueThreadPoolConfig(c);
    must_ok(p->init(), "init()");
    int runs = 1 + sim_choose(2);
    for (int r = 0; r < runs; r++) {
        g.entered = g.left = g.launches = g.threw = 0;
        CStatus st = p->run();
        if (!g.threw) must_ok(st, "run()"); else if (!st.isErr()) sim_fail("status", "run() returned %d after a stage launch threw", st.getCode());
        if (g.left != g.entered) sim_fail("stage-lost", "%d threads entered and %d left", g.entered, g.left);
        if (!g.threw && (g.entered != g.members || g.launches * g.thr != g.members)) sim_fail("stage-launch", "%d launches for %d entries, threshold %d", g.launches, g.entered, g.thr);
    }
    must_ok(p->destroy(), "destroy()");
    GPipelineFactory::remove(p);
}
}
SCENARIO(C18, groups) { stage_groups(false); }
SCENARIO(C18, throwing) { stage_groups(true); }

// ------------------------------------------------------------------------------------------------ daemons
namespace {
struct DmSt { int interval, work, mod; bool running; int runs; uint64_t last_start, last_end, end_delay; int64_t next_min; int idx; };
struct DmWorld { std::vector<DmSt> d; bool up; uint64_t up_at; uint64_t up_delay; };
DmWorld* D;
struct DmParam : public GDaemonParam { int idx = 0; CVoid clone(GPassedParam* p) override { idx = static_cast<DmParam*>(p)->idx; } };
class TDaemon : public GDaemon {
protected:
    CVoid daemonTask(GDaemonParamPtr q) override {
        DmSt& d = D->d[static_cast<DmParam*>(q)->idx];
        {
            SimNP np; uint64_t now = sim_now_ns();
            if (!D->up) sim_fail("daemon-late", "daemon task started outside init..destroy");
            if (d.running) sim_fail("daemon-overlap", "two executions of one daemon overlap");
            d.running = true; d.runs++;
            if ((int64_t)now < d.next_min) sim_fail("daemon-early", "daemon (interval %d ms) ran %llu us too early", d.interval, (unsigned long long)((d.next_min - (int64_t)now) / 1000));
            // start to start, ms truncation; a stall between the timer's own start stamp and this callback does not count
            int64_t base = (int64_t)now - (int64_t)(sim_delay_ns() - d.end_delay);
            d.next_min = base + (int64_t)(d.interval > 1 ? d.interval - 1 : 0) * 1000000 - 100000;
            d.last_start = now;
        }
        if (d.work) { sim_count(F_SLOW); sim_sleep_us(d.work); } else sim_point();
        SimNP np; d.running = false; d.last_end = sim_now_ns(); d.end_delay = sim_delay_ns();
        // an execution longer than the interval is followed by a full interval
        if (d.last_end - d.last_start >= (uint64_t)(d.interval + 1) * 1000000) d.next_min = std::max<int64_t>(d.next_min, (int64_t)d.last_end + (int64_t)d.interval * 1000000 - 100000);
    }
    CMSec modify(GDaemonParamPtr q) override {
        DmSt& d = D->d[static_cast<DmParam*>(q)->idx];
        if (!d.mod || sim_choose(2)) return 0;
        SimNP np; d.next_min = sim_now_ns() + (uint64_t)d.mod * 1000000ull - 100000; return d.mod;
    }
};
}
SCENARIO(C19, life) {
    Scope sc; DmWorld w{}; D = &w;
    sim_limit_ms(4000000);
    GPipelinePtr p = GPipelineFactory::create();
    int n = 1 + sim_choose(3);
    w.d.resize(n);
    for (int i = 0; i < n; i++) {
        static const int iv[] = {5, 1, 50, 1000, 60000, 600000};
        DmSt& d = w.d[i]; d.idx = i; d.interval = iv[sim_choose(6)]; d.work = sim_choose(3) == 1 ? 1 << sim_choose(d.interval <= 50 ? 20 : 17) : 0; d.mod = sim_choose(4) == 1 ? 1 + sim_choose(20) : 0;
        DmParam q; q.idx = i; p->addGDaemon<TDaemon, DmParam>(d.interval, &q);
    }
    W->add(LEAF, -1); el(0).work_us = 1000u << sim_choose(8);
    build(p);
    p->setUniqueThreadPoolConfig(rnd_config(1));
    int cycles = 1 + sim_choose(3);
    for (int c = 0; c < cycles; c++) {
        uint64_t delay0 = sim_delay_ns(); (void)delay0;
        for (auto& d : w.d) { d.runs = 0; d.end_delay = sim_delay_ns(); d.next_min = sim_now_ns() + (uint64_t)d.interval * 1000000ull; }
        w.up = true;
        must_ok(p->init(), "init()");
        uint64_t t0 = sim_now_ns();
        int what = sim_choose(3);
        if (what == 0) must_ok(timed_run(p), "run()");
        else if (what == 1) sim_sleep_us(1000ull << sim_choose(12));
        uint64_t t1 = sim_now_ns(), dl1 = sim_delay_ns();
        // the daemon really runs periodically (generous: every execution may be late by the injected delays)
        for (auto& d : w.d) {
            uint64_t up = t1 - t0, per = (uint64_t)(d.interval > d.mod ? d.interval : d.mod) * 1000000ull + (uint64_t)d.work * 1000ull + 2000000ull;
            uint64_t late = dl1 - delay0;
            if (sim_faults_on()) continue;
            if (up > 3 * per + late && d.runs == 0) sim_fail("daemon-starved", "daemon (interval %d ms) did not run in %llu ms", d.interval, (unsigned long long)(up / 1000000));
        }
        uint64_t busy = 0; for (auto& d : w.d) busy += (uint64_t)d.work * 1000ull;
        must_ok(p->destroy(), "destroy()");
        uint64_t took = sim_now_ns() - t1, inj = sim_delay_ns() - dl1;
        if (took > busy + inj + 1500000000ull) sim_fail("daemon-stop", "destroy() took %llu ms to stop daemons whose tasks take %llu ms in total", (unsigned long long)(took / 1000000), (unsigned long long)(busy / 1000000));
        for (auto& d : w.d) if (d.running) sim_fail("daemon-late", "daemon task is running after destroy()");
        w.up = false;
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
        if (sim_choose(2)) sim_sleep_us(1000ull << sim_choose(10));
    }
    GPipelineFactory::remove(p);
}
