// Several pipelines: pipeline manager (C28), shared thread pool (C29), singleton nodes (C34).
#include "graph.h"
#include <thread>
#include <memory>
#include <set>
using namespace H;
namespace {
void jitter() { switch (sim_choose(4)) { case 0: break; case 1: { int n = sim_choose(60); for (int i = 0; i < n; i++) sim_point(); break; } case 2: sim_sleep_us(1u << sim_choose(14)); break; default: sim_sleep_us(sim_choose(40)); } }
void clear_world() { clear_records(); W->in_run = true; W->run_no++; W->run_start = sim_seq(); W->run_t0 = W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); }
void gen_world(World& w, int slot, const Gen& g0, GPipelinePtr p) { w.slot = slot; W.here(&w); Gen g = g0; gen_kids(g, -1, 0); build(p); W.here(nullptr); }

// ------------------------------------------------------------------------------------------------ C28
struct PL { GPipelinePtr p = nullptr; World w; bool busy = false, fail_setup = false; int runs = 0; };
struct MW { std::deque<PL> pl; GPipelineManager m; int out = 0; std::vector<int*> watchers; };
MW* M;
thread_local int tl_setups, tl_k, tl_code; thread_local bool tl_done; thread_local std::string tl_info;
void out(int d) { M->out += d; for (int* w : M->watchers) if (M->out > *w) *w = M->out; }
class RunParam : public GParam {
public: int k = -1;
    CStatus setup() override {
        SimNP np; PL& x = M->pl[k]; W.here(&x.w);
        if (x.busy) sim_fail("pipeline-shared", "pipeline %d is run by two callers at a time", k);
        x.busy = true; x.runs++; tl_setups++; tl_k = k; tl_done = false; clear_world(); clear_faults(); sim_event(100 + k); sim_log("pipeline %d: run begins", k);
        x.fail_setup = sim_choose(12) == 11;
        if (x.fail_setup) { sim_count(F_NODE_ERROR); x.busy = false; W->in_run = false; tl_done = true; tl_code = -33; W.here(nullptr); if (sim_choose(2)) { tl_code = internal::STATUS_CRASH; tl_info = "thrown"; throw CException("thrown by setup"); } return CStatus(-33, "setup"); }
        if (sim_choose(3) == 1) arm_faults(1, 1 | 2);
        return CStatus();
    }
    CVoid reset(const CStatus& st) override {
        SimNP np; PL& x = M->pl[k]; W.here(&x.w); W->in_run = false;
        if (!x.busy) sim_fail("pipeline-shared", "pipeline %d ends a run it did not begin", k);
        for (El& e : W->els) if (e.running) sim_fail("not-quiescent", "pipeline %d ends its run while %s is executing", k, e.name().c_str());
        check_status(st, "run()"); Oracle(W->errors_returned > 0).check_all();
        x.busy = false; tl_done = true; tl_code = st.getCode(); tl_info = st.getInfo(); W.here(nullptr); sim_log("pipeline %d: run ends %d", k, tl_code);
    }
};
void call_run(int P) {
    int seen = 0; { SimNP np; M->watchers.push_back(&seen); out(1); tl_setups = 0; tl_done = false; }
    CStatus st = M->m.run();
    SimNP np; out(-1); M->watchers.erase(std::find(M->watchers.begin(), M->watchers.end(), &seen));
    if (tl_setups > 1) sim_fail("pipeline-runs", "one call of run() executed %d pipelines", tl_setups);
    if (tl_setups == 0) {
        if (!st.isErr()) sim_fail("pipeline-runs", "run() executed no pipeline and returned %d", st.getCode());
        if (seen - 1 < P) sim_fail("pipeline-lost", "run() found no pipeline free although at most %d of %d were in use", seen - 1, P);
        sim_count(F_STARVED); return;
    }
    if (!tl_done) sim_fail("pipeline-runs", "run() returned before its pipeline had finished");
    if (st.getCode() != tl_code) sim_fail("pipeline-status", "run() returned %d, its pipeline ended with %d", st.getCode(), tl_code);
    if (tl_code != -33 && st.getInfo().find(tl_info) == std::string::npos) sim_fail("pipeline-status", "run() returned '%s', its pipeline ended with '%s'", st.getInfo().c_str(), tl_info.c_str());
    sim_probe(1);
}
void call_fetch(int P) {
    int seen = 0; { SimNP np; M->watchers.push_back(&seen); out(1); }
    GPipelinePtr p = M->m.fetch();
    { SimNP np; M->watchers.erase(std::find(M->watchers.begin(), M->watchers.end(), &seen));
      if (!p) { out(-1); if (seen - 1 < P) sim_fail("pipeline-lost", "fetch() found no pipeline free although at most %d of %d were in use", seen - 1, P); sim_count(F_STARVED); return; } }
    jitter();
    if (sim_choose(2)) { tl_setups = 0; CStatus st; try { st = p->run(); } catch (const CException& ex) { st = CStatus(internal::STATUS_CRASH, ex.what()); } SimNP np; if (tl_setups != 1 || M->pl[tl_k].p != p) sim_fail("pipeline-runs", "a fetched pipeline did not run"); if (st.getCode() != tl_code) sim_fail("pipeline-status", "run() returned %d, expected %d", st.getCode(), tl_code); }
    must_ok(M->m.release(p), "release()");
    SimNP np; out(-1);
}
void check_all_free(int P) {
    std::vector<GPipelinePtr> v; GPipelinePtr p;
    if ((int)M->m.getSize() != P) sim_fail("pipeline-lost", "the manager holds %d of %d pipelines", (int)M->m.getSize(), P);
    while ((p = M->m.fetch())) { if (std::find(v.begin(), v.end(), p) != v.end()) sim_fail("pipeline-shared", "one pipeline was fetched twice"); v.push_back(p); if ((int)v.size() > P) break; }
    if ((int)v.size() != P) sim_fail("pipeline-lost", "%d of %d pipelines are available", (int)v.size(), P);
    if (P) { must_err(M->m.destroy(), "destroy() while pipelines are in use"); tl_setups = 0; must_err(M->m.run(), "run() without a free pipeline"); if (tl_setups) sim_fail("pipeline-shared", "a pipeline in use was run"); }
    for (auto q : v) must_ok(M->m.release(q), "release()");
    if (P) must_err(M->m.release(v[0]), "release() of a free pipeline");
    if ((int)M->m.getSize() != P) sim_fail("pipeline-lost", "the manager holds %d of %d pipelines", (int)M->m.getSize(), P);
}
}
SCENARIO(C28, manager) {
    sim_limit_ms(400000); sim_hang_class("manager-stuck");
    auto mw = std::make_unique<MW>(); M = mw.get();
    int P = 1 + sim_choose(3); bool extra = sim_choose(3) == 1;
    Gen g; g.max_top = 3; g.max_kids = 2; g.max_depth = 1; g.groups = 4; g.max_block = 1; g.kinds = K_CR | K_CM;
    for (int k = 0; k < P + extra; k++) {
        M->pl.emplace_back(); PL& x = M->pl.back(); x.p = GPipelineFactory::create();
        gen_world(x.w, k, g, x.p);
        x.p->setGEngineType(eng(sim_choose(3)));
        x.p->setUniqueThreadPoolConfig(rnd_config(3)); x.p->makeSerial();
        must_ok(x.p->createGParam<RunParam>("run"), "createGParam"); x.p->getGParam<RunParam>("run")->k = k;
        must_ok(M->m.add(x.p), "add()");
    }
    must_err(M->m.run(), "run() before init()");
    if (extra) { must_ok(M->m.remove(M->pl[P].p), "remove()"); if (M->m.find(M->pl[P].p)) sim_fail("pipeline-lost", "a removed pipeline is found"); }
    if (M->m.find(nullptr)) sim_fail("pipeline-lost", "an unknown pipeline is found");
    for (int k = 0; k < P; k++) if (!M->m.find(M->pl[k].p)) sim_fail("pipeline-lost", "an added pipeline is not found before init()");
    int cycles = 1 + sim_choose(2);
    for (int c = 0; c < cycles; c++) {
        must_ok(M->m.init(), "init()");
        for (int k = 0; k < P; k++) { if (!M->m.find(M->pl[k].p)) sim_fail("pipeline-lost", "an added pipeline is not found"); W.here(&M->pl[k].w); check_inits(true); W.here(nullptr); }
        must_err(M->m.add(M->pl[0].p), "add() after init()"); must_err(M->m.remove(M->pl[0].p), "remove() after init()"); must_err(M->m.clear(), "clear() after init()");
        int nt = 1 + sim_choose(4); if (nt > 1) sim_count(F_CONTENTION);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([P] { int n = 1 + sim_choose(3); for (int i = 0; i < n; i++) { jitter(); switch (sim_choose(6)) { case 4: call_fetch(P); break; case 5: must_err(M->m.release(reinterpret_cast<GPipelinePtr>(&M)), "release() of an unknown pipeline"); break; default: call_run(P); } } });
        for (auto& t : th) t.join();
        check_all_free(P);
        if (extra && M->pl[P].runs) sim_fail("pipeline-shared", "a removed pipeline was run");
        must_ok(M->m.destroy(), "destroy()");
        for (int k = 0; k < P; k++) { W.here(&M->pl[k].w); check_inits(false); W.here(nullptr); }
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    }
    must_ok(M->m.clear(), "clear()"); if (M->m.getSize()) sim_fail("pipeline-lost", "the manager is not empty after clear()");
    for (PL& x : M->pl) must_ok(GPipelineFactory::remove(x.p), "remove()");
}
// one pipeline fails to initialise or to be destroyed: nothing half initialised stays behind, the manager can be used again
SCENARIO(C28, failing) {
    sim_limit_ms(400000); sim_hang_class("manager-stuck");
    auto mw = std::make_unique<MW>(); M = mw.get(); int P = 1 + sim_choose(4);
    Gen g; g.max_top = 3; g.max_kids = 2; g.max_depth = 1; g.groups = 4; g.max_block = 1; g.kinds = K_CR | K_CM;
    for (int k = 0; k < P; k++) {
        M->pl.emplace_back(); PL& x = M->pl.back(); x.p = GPipelineFactory::create(); gen_world(x.w, k, g, x.p);
        x.p->setGEngineType(eng(sim_choose(3))); x.p->setUniqueThreadPoolConfig(rnd_config(3));
        must_ok(x.p->createGParam<RunParam>("run"), "createGParam"); x.p->getGParam<RunParam>("run")->k = k; must_ok(M->m.add(x.p), "add()");
    }
    auto arm = [P](int fail, bool init) { for (int k = 0; k < P; k++) { W.here(&M->pl[k].w); std::vector<int> ls; for (El& x : W->els) { x.init_fail = x.destroy_fail = 0; if (init) x.inits = x.destroys = 0; if (x.kind == LEAF) ls.push_back(x.id & 4095); } if (k == fail && !ls.empty()) { El& x = W->els[ls[sim_choose(ls.size())]]; (init ? x.init_fail : x.destroy_fail) = 1 + sim_choose(2); } W.here(nullptr); } };
    auto check = [P](bool up) { for (int k = 0; k < P; k++) { W.here(&M->pl[k].w); for (El& x : W->els) { if (!up && x.up) sim_fail("lifecycle", "%s of pipeline %d is left initialised", x.name().c_str(), k); if (up && x.kind == LEAF && !x.up) sim_fail("lifecycle", "%s of pipeline %d is not initialised", x.name().c_str(), k); } W.here(nullptr); } };
    for (int c = 1 + sim_choose(3); c > 0; c--) {
        int how = sim_choose(3), k = sim_choose(P);
        if (how == 1) {
            arm(k, true); CStatus is; try { is = M->m.init(); } catch (const CException& ex) { is = CStatus(ex.what()); } must_err(is, "init() with a pipeline that fails to initialise"); check(false);
            if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after a failed init()", sim_live_threads());
            tl_setups = 0; must_err(M->m.run(), "run() after a failed init()"); if (tl_setups) sim_fail("pipeline-runs", "a pipeline was run after a failed init()"); must_err(M->m.destroy(), "destroy() after a failed init()");
        }
        arm(-1, true); must_ok(M->m.init(), "init()"); check(true);
        std::vector<std::thread> th; int nt = 1 + sim_choose(3); if (nt > 1) sim_count(F_CONTENTION);
        for (int t = 0; t < nt; t++) th.emplace_back([P] { for (int n = 1 + sim_choose(2); n > 0; n--) { jitter(); call_run(P); } });
        for (auto& t : th) t.join();
        check_all_free(P);
        if (how == 2) { arm(k, false); must_err(M->m.destroy(), "destroy() with an element that fails to be destroyed"); sim_count(F_INIT_FAIL); }
        else must_ok(M->m.destroy(), "destroy()");
        for (int i = 0; i < P; i++) { W.here(&M->pl[i].w); for (El& x : W->els) if (x.inits != x.destroys) sim_fail("lifecycle", "%s of pipeline %d: %d times initialised, %d times destroyed", x.name().c_str(), i, x.inits, x.destroys); else x.up = false; W.here(nullptr); }
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
        tl_setups = 0; must_err(M->m.run(), "run() after destroy()"); if (tl_setups) sim_fail("pipeline-runs", "a pipeline was run after destroy()");
    }
    must_ok(M->m.clear(), "clear()"); for (PL& x : M->pl) must_ok(GPipelineFactory::remove(x.p), "remove()");
}
// ------------------------------------------------------------------------------------------------ C29
namespace {
struct SP { World w; GPipelinePtr p = nullptr; int cancels = 0; bool cancelled = false, canceller = false; };
void one_pipeline(SP& s, UThreadPoolPtr tp, int cycles) {
    W.here(&s.w);
    for (int c = 0; c < cycles; c++) {
        for (El& x : W->els) x.inits = x.destroys = 0;
        must_ok(s.p->init(), "init()"); check_inits(true);
        int runs = 1 + sim_choose(3);
        for (int r = 0; r < runs; r++) {
            jitter(); clear_faults(); if (sim_choose(3) == 1) arm_faults(1 + sim_choose(2), 1 | 2 | 8 | 16);
            { SimNP np; s.cancels = s.cancelled; }       // one may still be on its way
            CStatus st = timed_run(s.p);
            bool cut; { SimNP np; cut = s.cancels > 0; }
            check_status(st, "run()");
            Oracle(W->errors_returned > 0 || cut, cut).check_all();
        }
        jitter();
        { SimNP np; s.canceller = true; }          // no cancel from now on
        while (true) { { SimNP np; if (!s.cancelled) break; } sim_sleep_us(50); }
        must_ok(s.p->destroy(), "destroy()"); check_inits(false);
        if (!tp->isInit()) sim_fail("pool-lost", "the shared pool is gone after one pipeline was destroyed");
        { SimNP np; s.canceller = false; }
    }
    { SimNP np; s.canceller = true; }
    while (true) { { SimNP np; if (!s.cancelled) break; } sim_sleep_us(50); }
    if (sim_choose(2)) { GPipelinePtr p = s.p; s.p = nullptr; must_ok(GPipelineFactory::remove(p), "remove()"); }
    W.here(nullptr);
}
}
SCENARIO(C29, shared) {
    sim_limit_ms(400000); sim_hang_class("hang");
    int P = 2 + sim_choose(2); auto sp = std::make_unique<std::deque<SP>>(P);
    UThreadPoolConfig cfg = rnd_config(P + 3, true); cfg.max_task_steal_range_ = 12;
    UThreadPool tp(false); tp.setConfig(cfg); must_ok(tp.init(), "pool init");
    Gen g; g.max_top = 4; g.max_kids = 3; g.max_depth = 2; g.groups = 4; g.max_block = 1;
    for (int k = 0; k < P; k++) { SP& s = (*sp)[k]; s.p = GPipelineFactory::create(); gen_world(s.w, k, g, s.p); s.p->setGEngineType(eng(sim_choose(3))); s.p->setSharedThreadPool(&tp); }
    bool stop = false; int ncancel = sim_choose(3) == 1 ? 1 + sim_choose(3) : 0;
    std::vector<std::thread> th;
    for (int k = 0; k < P; k++) th.emplace_back([&, k] { one_pipeline((*sp)[k], &tp, 1 + sim_choose(2)); });
    std::thread canceller([&] { for (int i = 0; i < ncancel; i++) { jitter(); sim_sleep_us(1u << sim_choose(15)); SP& s = (*sp)[0];
        { SimNP np; if (stop || s.canceller || !s.p || !s.w.in_run) continue; s.cancelled = true; s.cancels++; sim_count(F_CANCEL); }
        CStatus st = s.p->cancel(); SimNP np; s.cancelled = false; if (!st.isOK()) sim_fail("control-status", "cancel() returned %d", st.getCode()); } });
    for (auto& t : th) t.join();
    { SimNP np; stop = true; }
    canceller.join();
    auto f = tp.commit([] { return 17; });
    if (f.get() != 17) sim_fail("pool-lost", "the shared pool no longer executes tasks");
    for (SP& s : *sp) if (s.p) must_ok(GPipelineFactory::remove(s.p), "remove()");
    must_ok(tp.destroy(), "pool destroy"); if (sim_live_threads()) sim_fail("thread-leak", "%d threads left", sim_live_threads());
}
namespace {
struct TOut { bool alive = true; int started = 0, ended = 0; };
std::deque<TOut>* TO;
class LongNode : public GNode { public: explicit LongNode(int k, uint32_t us) : k(k), us(us) {} int k; uint32_t us;
    CStatus run() override { { SimNP np; if (!(*TO)[k].alive) sim_fail("use-after-remove", "work of a removed pipeline starts"); (*TO)[k].started++; } sim_sleep_us(us); SimNP np; if (!(*TO)[k].alive) sim_fail("use-after-remove", "work of a removed pipeline is still executing"); (*TO)[k].ended++; return CStatus(); } };
}
SCENARIO(C29, timeouts) {      // elements whose work is still going on when their pipeline ends
    sim_limit_ms(400000); sim_hang_class("hang");
    int P = 1 + sim_choose(3); std::deque<TOut> to(P); TO = &to;
    UThreadPoolConfig cfg; cfg.default_thread_size_ = 2 * P + sim_choose(2); cfg.secondary_thread_size_ = sim_choose(2); cfg.max_thread_size_ = cfg.default_thread_size_ + cfg.secondary_thread_size_; cfg.max_task_steal_range_ = 12;
    UThreadPool tp(false); tp.setConfig(cfg); must_ok(tp.init(), "pool init");
    std::vector<std::thread> th; if (P > 1) sim_count(F_CONTENTION);
    for (int k = 0; k < P; k++) th.emplace_back([&, k] {
        GPipelinePtr p = GPipelineFactory::create(); p->setSharedThreadPool(&tp); p->setGEngineType(eng(sim_choose(3)));
        uint32_t us = 1000 + sim_choose(30000); bool hold = sim_choose(2); int ms = 1 + sim_choose(20);
        auto* n = reg<LongNode>(p, {}, "long", 1, k, us); n->setTimeout(ms, hold ? GElementTimeoutStrategy::HOLD_BY_PIPELINE : GElementTimeoutStrategy::AS_ERROR);
        must_ok(p->init(), "init()"); int runs = 1 + sim_choose(2), errs = 0;
        for (int r = 0; r < runs; r++) { CStatus st = p->run(); if (st.isErr()) { errs++; sim_count(F_TIMEOUT); if (hold) sim_fail("unexpected-error", "run() returned %d: %s", st.getCode(), st.getInfo().c_str()); } }
        jitter();
        must_ok(p->destroy(), "destroy()");
        must_ok(GPipelineFactory::remove(p), "remove()");
        SimNP np; to[k].alive = false; if (to[k].started != to[k].ended) sim_fail("use-after-remove", "work of a removed pipeline is still executing");
    });
    for (auto& t : th) t.join();
    auto f = tp.commit([] { return 17; }); if (f.get() != 17) sim_fail("pool-lost", "the shared pool no longer executes tasks");
    must_ok(tp.destroy(), "pool destroy"); if (sim_live_threads()) sim_fail("thread-leak", "%d threads left", sim_live_threads());
}
// ------------------------------------------------------------------------------------------------ C34
namespace {
struct SG { bool up = false; int inits = 0, destroys = 0, runs = 0, running = 0, live_pipes = 0; uint32_t us = 0; const void* self = nullptr; bool initing = false; int fail_init = 0; };
SG* sg[2];
template <int N> class Shared : public GNode { public:
    CStatus init() override { { SimNP np; SG& s = *sg[N]; if (s.up || s.initing) sim_fail("singleton-init", "the shared node is initialised twice"); s.initing = true; s.inits++; if (s.self && s.self != this) sim_fail("singleton-instance", "two instances"); s.self = this; } sim_sleep_us(sim_choose(100)); SimNP np; sg[N]->initing = false; if (sg[N]->fail_init) { sg[N]->fail_init--; sim_count(F_INIT_FAIL); return CStatus("shared init"); } sg[N]->up = true; return CStatus(); }
    CStatus run() override { SG& s = *sg[N]; { SimNP np; if (!s.up) sim_fail("singleton-run", "the shared node runs while it is not initialised"); if (s.self != this) sim_fail("singleton-instance", "two instances"); s.running++; s.runs++; sim_event(N); } if (s.us) sim_sleep_us(s.us); sim_point(); SimNP np; if (!s.up) sim_fail("singleton-run", "the shared node was destroyed while it is running"); s.running--; return CStatus(); }
    CStatus destroy() override { SimNP np; SG& s = *sg[N]; if (!s.up) sim_fail("singleton-destroy", "the shared node is destroyed although not initialised"); if (s.running) sim_fail("singleton-destroy", "the shared node is destroyed while it is running"); s.up = false; s.destroys++; return CStatus(); } };
class Plain : public GNode { public: CStatus run() override { sim_point(); return CStatus(); } };
}
SCENARIO(C34, shared) {
    sim_limit_ms(400000); sim_hang_class("hang"); SG a, b; sg[0] = &a; sg[1] = &b; a.us = sim_choose(2) ? 1u << sim_choose(10) : 0;
    int P = 1 + sim_choose(3); std::vector<GPipelinePtr> ps; std::vector<int> uses0(P), uses1(P); int want0 = 0, want1 = 0;
    std::vector<std::thread> th; if (P > 1) sim_count(F_CONTENTION);
    for (int k = 0; k < P; k++) { auto p = GPipelineFactory::create(); ps.push_back(p); GElementPtr prev = nullptr; int n = 1 + sim_choose(3); p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(2, false));
        for (int i = 0; i < n; i++) { GElementPtr e = nullptr; GElementPtrSet d; if (prev && sim_choose(2)) d.insert(prev); int loop = 1 + (sim_choose(4) == 1); CStatus st;
            switch (sim_choose(4)) { case 0: case 1: st = p->registerGElement<GSingleton<Shared<0>>>(&e, d, "s0", loop); uses0[k] += loop; break; case 2: st = p->registerGElement<GSingleton<Shared<1>>>(&e, d, "s1", loop); uses1[k] += loop; break; default: st = p->registerGElement<Plain>(&e, d, "plain", loop); }
            must_ok(st, "register"); prev = e; } }
    std::vector<int> runs(P), cycles(P); for (int k = 0; k < P; k++) { runs[k] = 1 + sim_choose(2); cycles[k] = 1 + sim_choose(2); want0 += uses0[k] * runs[k] * cycles[k]; want1 += uses1[k] * runs[k] * cycles[k]; }
    for (int k = 0; k < P; k++) th.emplace_back([&, k] { for (int c = 0; c < cycles[k]; c++) { jitter(); must_ok(ps[k]->init(), "init()");
        { SimNP np; if ((uses0[k] && !a.up) || (uses1[k] && !b.up)) sim_fail("singleton-init", "init() returned and the shared node is not initialised"); }
        for (int r = 0; r < runs[k]; r++) { jitter(); must_ok(ps[k]->run(), "run()"); } jitter(); must_ok(ps[k]->destroy(), "destroy()"); } });
    for (auto& t : th) t.join();
    for (SG* s : sg) if (s->up || s->inits != s->destroys) sim_fail("singleton-destroy", "after the last pipeline was destroyed the shared node has %d inits and %d destroys", s->inits, s->destroys);
    if (a.runs != want0 || b.runs != want1) sim_fail("singleton-run", "the shared nodes ran %d/%d times, expected %d/%d", a.runs, b.runs, want0, want1);
    if (P == 1 && a.inits > cycles[0]) sim_fail("singleton-init", "initialised %d times in %d cycles", a.inits, cycles[0]);
    for (auto p : ps) GPipelineFactory::remove(p);
}
// ------------------------------------------------------------------------------------------------ C41
namespace {
// counts the live objects of a pipeline; its destructor shows that the pipeline is deleted exactly once
struct Census { int born = 0, died = 0; };
std::deque<Census>* CE;
class CensusParam : public GParam { public: CensusParam() = default; ~CensusParam() override { if (k < 0) return; SimNP np; if (++(*CE)[k].died > (*CE)[k].born) sim_fail("pipeline-deleted", "pipeline %d is deleted twice", k); } int k = -1; };
struct Own { World w; GPipelinePtr p = nullptr; int k = 0; bool up = false; };
void make_own(Own& o) {
    { SimNP np; o.k = CE->size(); CE->emplace_back(); }
    o.p = GPipelineFactory::create(); if (!o.p) sim_fail("factory", "create() returned nothing");
    Gen g; g.max_top = 4; g.max_kids = 3; g.max_depth = 1; g.groups = 4; g.max_block = 1; gen_world(o.w, o.k, g, o.p);
    W.here(&o.w); must_ok(o.p->createGParam<CensusParam>("census"), "createGParam"); { SimNP np; auto* q = o.p->getGParam<CensusParam>("census"); q->k = o.k; (*CE)[o.k].born++; }
    o.p->setGEngineType(eng(sim_choose(3))); o.p->setUniqueThreadPoolConfig(rnd_config(3)); if (sim_choose(4) == 1) o.p->makeSerial();
}
void use_own(Own& o) {
    W.here(&o.w); for (El& x : W->els) x.inits = x.destroys = 0;
    must_ok(o.p->init(), "init()"); check_inits(true); o.up = true;
    for (int r = 1 + sim_choose(2); r > 0; r--) {
        jitter(); clear_faults(); if (sim_choose(3) == 1) arm_faults(1, 1 | 2);
        CStatus st = timed_run(o.p); check_status(st, "run()"); Oracle(W->errors_returned > 0).check_all();
    }
    if (sim_choose(4)) { must_ok(o.p->destroy(), "destroy()"); check_inits(false); o.up = false; }
}
}
SCENARIO(C41, factory) {
    sim_limit_ms(400000); sim_hang_class("hang"); std::deque<Census> ce; CE = &ce;
    for (int round = 1 + sim_choose(2); round > 0; round--) {
        std::deque<Own> own; int nt = 2 + sim_choose(3); std::vector<std::thread> th; sim_count(F_CONTENTION);
        for (int t = 0; t < nt; t++) th.emplace_back([&] {
            for (int n = 1 + sim_choose(2); n > 0; n--) {
                Own* o; { SimNP np; own.emplace_back(); o = &own.back(); }
                make_own(*o); jitter(); use_own(*o); jitter();
                if (!o->up && sim_choose(2)) { must_ok(GPipelineFactory::remove(o->p), "remove()"); SimNP np; o->p = nullptr; if (ce[o->k].died != 1) sim_fail("pipeline-leak", "a removed pipeline was not deleted"); }
            } });
        for (auto& t : th) t.join();
        for (Own& o : own) { W.here(&o.w); if (o.p && ce[o.k].died) sim_fail("pipeline-deleted", "pipeline %d was deleted, another one was removed", o.k);
            if (o.p && !o.up && sim_choose(2)) use_own(o); if (o.up) { must_ok(o.p->destroy(), "destroy()"); o.up = false; } W.here(nullptr); }
        must_err(GPipelineFactory::remove(nullptr), "remove() of nothing");
        must_ok(GPipelineFactory::clear(), "clear()");
        for (size_t k = 0; k < ce.size(); k++) if (ce[k].died != ce[k].born) sim_fail("pipeline-leak", "pipeline %zu: %d created, %d deleted after clear()", k, ce[k].born, ce[k].died);
        must_ok(GPipelineFactory::clear(), "clear() without pipelines");
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after clear()", sim_live_threads());
    }
}

// clear() while other threads create pipelines: every pipeline is deleted exactly once, by one of the clear() calls
class SlowParam : public GParam { public: SlowParam() = default; ~SlowParam() override { { SimNP np; if (k >= 0 && ++(*CE)[k].died > (*CE)[k].born) sim_fail("pipeline-deleted", "pipeline %d is deleted twice", k); } if (us) sim_sleep_us(us); } int k = -1, us = 0; };
SCENARIO(C41, clear) {
    sim_limit_ms(400000); sim_hang_class("hang"); std::deque<Census> ce; CE = &ce; size_t base = 0;
    auto round = [&](bool real) {
        { SimNP np; ce.clear(); }
        int pre = real ? sim_choose(4) : 1, nt = real ? 2 + sim_choose(3) : 1;
        for (int i = 0; i < pre; i++) { auto* p = GPipelineFactory::create(); if (!p) sim_fail("factory", "create() returned nothing"); must_ok(p->createGParam<SlowParam>("slow"), "createGParam"); auto* q = p->getGParam<SlowParam>("slow"); SimNP np; q->k = i; q->us = sim_choose(2) ? 1 << sim_choose(12) : 0; ce.push_back({1, 0}); }
        std::vector<std::thread> th; sim_count(F_CONTENTION);
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] { for (int n = 1 + sim_choose(3); n > 0; n--) { jitter(); if (t == 0 || sim_choose(4) == 1) must_ok(GPipelineFactory::clear(), "clear()"); else if (!GPipelineFactory::create()) sim_fail("factory", "create() returned nothing"); } });
        for (auto& t : th) t.join();
        must_ok(GPipelineFactory::clear(), "clear()");
        SimNP np; for (size_t k = 0; k < ce.size(); k++) if (ce[k].died != 1) sim_fail("pipeline-leak", "pipeline %zu was deleted %d times", k, ce[k].died);
    };
    round(false); { SimNP np; ce.clear(); base = sim_live_objects(); }
    for (int r = 1 + sim_choose(2); r > 0; r--) {
        round(true);
        SimNP np; ce.clear(); size_t now = sim_live_objects();
        if (now > base) sim_fail("pipeline-leak", "%zu objects more than before are alive after clear()", now - base);
    }
}
