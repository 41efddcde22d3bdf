// The standard workflow driver: build a random graph, run it several times (with failures), judge every run.
#pragma once
#include "h.h"
namespace H {
struct Opt {
    Gen g; int engine = -1, min_threads = 1, max_runs = 2;
    int modes = 0, max_faults = 2;      // failures injected by the elements
    uint64_t latency_ms = 2000;
    std::function<void(GPipelinePtr)> on_build, before_run, on_reinit; std::function<void(GPipelinePtr, const CStatus&)> after_run; std::function<void(GPipelinePtr)> on_end;

    bool process = false, functions = false, serial = false, bind = false, secondary = true, reinit = true;
};
static inline void graph_common(const Opt& o) {
    Scope sc;
    sim_limit_ms(240000);
    sim_hang_class("hang");
    GPipelinePtr p = GPipelineFactory::create();
    Gen g = o.g;
    gen_kids(g, -1, 0);
    if (o.bind) for (El& x : W->els) if (x.kind == LEAF && x.parent < 0 && sim_choose(3) == 1) { static const int b[] = {0, 1, 2, 5, 100, -2}; x.binding = b[sim_choose(6)]; }
    if (o.functions) for (int r : W->roots) { El& x = el(r); if (x.kind == LEAF && sim_choose(2)) { x.function = true; x.hold = 0; } }
    build(p);
    int e = o.engine >= 0 ? o.engine : sim_choose(3);
    p->setGEngineType(eng(e));
    p->setUniqueThreadPoolConfig(rnd_config(o.min_threads, o.secondary));
    if (o.on_build) o.on_build(p);
    bool serial = o.serial && sim_choose(2) && p->makeSerial().isOK();
    (void)serial;
    if (o.process && sim_choose(3) == 1) {
        { SimNP np; clear_records(); }
        int n = 1 + sim_choose(3);
        W->in_run = true;
        must_ok(p->process(n), "process()");
        W->in_run = false;
        for (El& x : W->els) if (x.kind == LEAF && (x.inits != x.destroys)) sim_fail("lifecycle", "%s initialised %d times, destroyed %d times", x.name().c_str(), x.inits, x.destroys);
        if (W->els.size() == 1 && el(0).kind == LEAF && !el(0).hidden && el(0).total != n * el(0).loop * (1 + el(0).hold)) sim_fail("extra-execution", "process(%d) executed the element %d times", n, el(0).total);
        for (El& x : W->els) { x.inits = x.destroys = 0; if (x.up) sim_fail("lifecycle", "%s still initialised after process()", x.name().c_str()); }
    }
    must_ok(p->init(), "init()");
    check_inits(true);
    int runs = 1 + sim_choose(o.max_runs);
    for (int r = 0; r < runs; r++) {
        int armed = 0;
        if (r && o.reinit && sim_choose(3) == 1) {      // brought down and up again in between, possibly with another engine
            must_ok(p->destroy(), "destroy()"); check_inits(false); for (El& x : W->els) x.inits = x.destroys = 0;
            if (o.engine < 0 && !serial && sim_choose(2)) p->setGEngineType(eng(sim_choose(3)));
            if (o.on_reinit) o.on_reinit(p);
            must_ok(p->init(), "init()"); check_inits(true);
        }
        clear_faults();
        if (o.modes && (runs == 1 || sim_choose(3) != 2)) armed = arm_faults(1 + sim_choose(o.max_faults), o.modes);
        if (o.before_run) o.before_run(p);
        CStatus st = timed_run(p);
        if (o.after_run) o.after_run(p, st);
        check_status(st, "run()");
        if (armed && W->errors_returned) sim_probe(0);
        Oracle(W->errors_returned > 0).check_all();
        check_latency(o.latency_ms + 1000 * W->els.size(), "run()");
    }
    W->final_run = true;
    if (o.modes) {      // and once more without failures: no residue
        clear_faults();
        if (o.before_run) o.before_run(p);
        CStatus st = timed_run(p);
        if (o.after_run) o.after_run(p, st);
        if (!st.isOK()) sim_fail("residue", "a run without failures returned %d (%s)", st.getCode(), st.getInfo().c_str());
        Oracle(false).check_all();
    }
    must_ok(p->destroy(), "destroy()");
    check_inits(false);
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    if (o.on_end) o.on_end(p);
    GPipelineFactory::remove(p);
}
static const uint32_t K_CR = 1u << CLUSTER | 1u << REGION, K_CM = 1u << COND | 1u << MULTI_S | 1u << MULTI_P, K_MU = 1u << MUT;
}
