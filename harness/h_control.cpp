// Cancel, suspend / resume (C10, C11): control calls from other threads and from elements at arbitrary points of a run.
#include "graph.h"
#include <thread>
using namespace H;
namespace {
struct Win { uint64_t from, to; };                        // the control state is in force in (from, to)
struct Ctl { GPipelinePtr p = nullptr; std::vector<Win> win; bool any = false; int in_el = -1, in_k = 0; bool stop = false; };
Ctl* C;
bool started() { for (El& x : W->els) if (!x.ex.empty()) return true; return false; }
void jitter() { switch (sim_choose(4)) { case 0: break; case 1: { int n = sim_choose(120); for (int i = 0; i < n; i++) sim_point(); break; } case 2: sim_sleep_us(1u << sim_choose(14)); break; default: sim_sleep_us(sim_choose(40)); } }
void do_cancel() {
    bool eff; { SimNP np; eff = W->in_run && started(); C->any = true; sim_count(F_CANCEL); sim_log("cancel() called%s", eff ? "" : " (no element has started)"); }
    CStatus st = C->p->cancel();
    SimNP np;
    if (!st.isOK()) sim_fail("control-status", "cancel() returned %d", st.getCode());
    sim_log("cancel() returned");
    if (eff) C->win.push_back({sim_seq(), ~0ull});
    if (W->last_end < sim_now_ns()) { W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); }
}
void suspend_resume(bool cancel_inside) {
    bool eff; int run; { SimNP np; eff = W->in_run && started(); run = W->run_no; sim_count(F_SUSPEND); sim_log("suspend() called"); }
    CStatus st = C->p->suspend(); Win w{0, 0};
    { SimNP np; if (!st.isOK()) sim_fail("control-status", "suspend() returned %d", st.getCode()); w.from = sim_seq(); sim_log("suspend() returned"); }
    jitter(); if (sim_choose(3) == 1) sim_sleep_us(1000u << sim_choose(12));
    if (cancel_inside) { do_cancel(); return; }
    { SimNP np; w.to = sim_seq(); if (eff && W->in_run && run == W->run_no) C->win.push_back(w); sim_log("resume() called"); }
    st = C->p->resume();
    SimNP np;
    if (!st.isOK()) sim_fail("control-status", "resume() returned %d", st.getCode());
    if (W->last_end < sim_now_ns()) { W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); }
}
// while a control state is in force each thread begins at most the one execution it had already decided on
void check_windows(const char* cls, bool loops) {
    for (Win& w : C->win) {
        std::vector<int> tids;
        for (El& x : W->els) for (size_t k = 0; k < x.ex.size(); k++) {
            Exec& e = x.ex[k];
            if (e.s <= w.from || e.s >= w.to) continue;
            if (!loops && x.hold && k % (1 + x.hold)) continue;           // a held element repeats within one started execution
            if (std::find(tids.begin(), tids.end(), e.tid) != tids.end()) sim_fail(cls, "%s began execution %zu on thread T%d, which had already begun another one after the control call returned", x.name().c_str(), k, e.tid);
            tids.push_back(e.tid);
        }
    }
    C->win.clear();
}
CStatus crun(GPipelinePtr p) {
    if (sim_choose(3) != 1) return timed_run(p);
    { SimNP np; clear_records(); W->in_run = true; W->run_no++; W->run_start = sim_seq(); W->run_t0 = W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); }
    auto f = p->asyncRun(sim_choose(2) ? std::launch::async : std::launch::deferred);
    CStatus st = f.get();
    SimNP np; W->in_run = false; W->ret_t = sim_now_ns(); W->ret_delay = sim_delay_ns();
    for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "run() returned (code %d) while %s is still executing", st.getCode(), x.name().c_str());
    return st;
}
void arm_inner(Ctl& c, bool cancel, bool both) {
    c.in_el = -1;
    for (El& x : W->els) x.body = nullptr;
    std::vector<int> ls = leaves();
    El& x = el(ls[sim_choose(ls.size())]); int k = sim_choose(x.loop * (1 + x.hold));
    x.body = [k, cancel, both](El& x, size_t i) -> CStatus { if ((int)i % (x.loop * (1 + x.hold)) == k) { if (cancel) do_cancel(); else suspend_resume(both); } return CStatus(); };
}
struct CG { Gen g; int modes = 0; bool nested = true; };
void setup(Ctl& c, Gen g) {
    C = &c; sim_limit_ms(600000); sim_hang_class("hang");
    c.p = GPipelineFactory::create();
    gen_kids(g, -1, 0); build(c.p);
    c.p->setGEngineType(eng(sim_choose(3)));
    c.p->setUniqueThreadPoolConfig(rnd_config(4));
}
void finish(Ctl& c) {
    must_ok(c.p->destroy(), "destroy()"); check_inits(false);
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    GPipelineFactory::remove(c.p);
}
void cancel_run(Gen g, int modes) {
    Scope sc; Ctl c; setup(c, g);
    must_ok(c.p->init(), "init()");
    int runs = 1 + sim_choose(3);
    for (int r = 0; r < runs; r++) {
        clear_faults(); c.any = false; c.win.clear();
        for (El& x : W->els) x.body = nullptr;
        if (modes && sim_choose(2)) arm_faults(1, modes);
        int how = sim_choose(4);
        std::thread t;
        if (how == 1) arm_inner(c, true, false);
        if (how >= 2) t = std::thread([&] { int n = 1 + sim_choose(2); for (int i = 0; i < n; i++) { jitter(); if (how == 3 && sim_choose(2)) suspend_resume(true); else do_cancel(); } });
        CStatus st = crun(c.p);
        if (t.joinable()) t.join();
        check_windows("cancel-ignored", false);
        if (W->errors_returned) { if (!c.any) check_status(st, "run()"); else must_err(st, "run()"); } else if (st.isErr()) sim_fail("unexpected-error", "run() returned %d (%s) although nothing failed", st.getCode(), st.getInfo().c_str());
        Oracle(W->errors_returned || c.any, c.any).check_all();
        check_latency(2000 + 1000 * W->els.size(), "run()");
        if (how == 0 && sim_choose(3) == 1) must_ok(c.p->cancel(), "cancel()");        // an idle pipeline: no effect on the next run
        // the next run is complete again
        clear_faults(); for (El& x : W->els) x.body = nullptr;
        st = timed_run(c.p);
        must_ok(st, "the run after a cancelled run");
        Oracle(false).check_all();
        check_latency(2000 + 1000 * W->els.size(), "run()");
    }
    finish(c);
}
}
SCENARIO(C10, flat) { Gen g; g.groups = 0; g.max_top = 7; cancel_run(g, 0); }
SCENARIO(C10, nested) { Gen g; g.groups = 3; g.max_depth = 3; cancel_run(g, 0); }
SCENARIO(C10, failing) { Gen g; g.groups = 4; cancel_run(g, 3); }
SCENARIO(C10, process) {
    Scope sc; Ctl c; Gen g; g.groups = 5; g.loops = false; setup(c, g);
    int n = 1 + sim_choose(5);
    // the canceller waits until some element has started, so the pipeline is initialised; from then on no round may go on past the cancel
    std::thread t([&] {
        for (;;) { { SimNP np; if (c.stop) return; if (started()) break; } sim_sleep_us(3); }
        jitter();
        { SimNP np; sim_count(F_CANCEL); }
        CStatus st = c.p->cancel();
        SimNP np; if (st.isOK() && !c.stop) c.win.push_back({sim_seq(), ~0ull}); });
    { SimNP np; clear_records(); W->in_run = true; W->last_end = sim_now_ns(); }
    CStatus st = c.p->process(n);
    { SimNP np; W->in_run = false; c.stop = true; }
    t.join();
    if (st.isErr()) sim_fail("unexpected-error", "process() returned %d (%s)", st.getCode(), st.getInfo().c_str());
    check_windows("cancel-ignored", false);
    for (El& x : W->els) if (x.kind == LEAF && x.up) sim_fail("lifecycle", "%s still initialised after process()", x.name().c_str());
    // and once more, complete
    W->in_run = false; for (El& x : W->els) x.inits = x.destroys = 0;
    must_ok(c.p->init(), "init()");
    must_ok(timed_run(c.p), "run()");
    Oracle(false).check_all();
    finish(c);
}
namespace {
void suspend_run(Gen g) {
    Scope sc; Ctl c; setup(c, g);
    must_ok(c.p->init(), "init()");
    int runs = 1 + sim_choose(3);
    int who = sim_choose(3);
    std::thread t;
    bool go = false;
    if (who != 1) t = std::thread([&] { int n = 1 + sim_choose(4); for (int i = 0; i < n; i++) { jitter(); suspend_resume(false); } SimNP np; go = true; });
    for (int r = 0; r < runs; r++) {
        for (El& x : W->els) x.body = nullptr;
        if (who == 1 && sim_choose(2)) arm_inner(c, false, false);        // never together with the other thread, whose resume() would end this suspension
        CStatus st = crun(c.p);
        must_ok(st, "run()");
        check_windows("suspend-ignored", true);
        Oracle(false).check_all();
        check_latency(2000 + 1000 * W->els.size(), "run()");
    }
    if (t.joinable()) t.join();
    CStatus st = timed_run(c.p);
    must_ok(st, "run()"); Oracle(false).check_all();
    finish(c);
}
}
namespace {
void suspend_cancel(Gen g) {      // a suspended run is ended by cancel(), without being resumed
    Scope sc; Ctl c; setup(c, g);
    must_ok(c.p->init(), "init()");
    int runs = 1 + sim_choose(3);
    for (int r = 0; r < runs; r++) {
        for (El& x : W->els) x.body = nullptr;
        c.any = false; c.win.clear(); std::thread t; bool inner = sim_choose(3) == 1;
        if (inner) arm_inner(c, false, true); else t = std::thread([&] { jitter(); suspend_resume(true); });
        CStatus st = crun(c.p);
        if (t.joinable()) t.join();
        check_windows("cancel-ignored", false);
        must_ok(st, "run()");
        Oracle(c.any, c.any).check_all();
        check_latency(2000 + 1000 * W->els.size(), "run()");
        for (El& x : W->els) x.body = nullptr;
        must_ok(timed_run(c.p), "the run after a cancelled run");
        Oracle(false).check_all();
    }
    finish(c);
}
}
SCENARIO(C11, cancelled) { Gen g; g.groups = 5; g.max_top = 5; suspend_cancel(g); }
SCENARIO(C11, flat) { Gen g; g.groups = 0; g.max_top = 7; suspend_run(g); }
SCENARIO(C11, nested) { Gen g; g.groups = 3; g.max_depth = 3; suspend_run(g); }
