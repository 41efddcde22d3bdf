// Asynchronous elements: timeouts (C12), fences (C13), quorum groups (C08).
#include "graph.h"
#include <set>
#include <thread>
using namespace H;
namespace {
struct ToParam : public GAspectParam { int id = -1; CVoid clone(GPassedParam* p) override { id = static_cast<ToParam*>(p)->id; } };
class ToAspect : public GAspect { CVoid enterTimeout() override {
    SimNP np; int id = getAParam<ToParam>()->id; El& x = el(id);
    if (++x.hooks > 1) sim_fail("timeout-twice", "%s was reported as timed out %d times in one run", x.name().c_str(), x.hooks);
    x.hook_t = sim_now_ns(); sim_count(F_TIMEOUT); sim_log("%s timed out", x.name().c_str()); W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); } };
class FenceAspect : public GAspect { CVoid finishRun(const CStatus& st) override {
    SimNP np; El& f = el(getAParam<ToParam>()->id); sim_log("%s ends", f.name().c_str());
    for (int a : f.await) { El& x = el(a); if (x.running || (!x.ex.empty() && !x.ex.back().e) || (x.ex.empty() && st.isOK())) sim_fail("fence-order", "the fence %s ended before %s had finished", f.name().c_str(), x.name().c_str()); } } };
void watch(El& x) { ToParam q; q.id = x.id; x.ptr->addGAspect<ToAspect, ToParam>(&q); }

struct ADag { GPipelinePtr p = nullptr; uint64_t d0 = 0; };
int iv_ms; bool batch;
uint64_t U(uint64_t ms) { return ms * 1000000ull; }
// start / release times that the semantics allow at the earliest, from the recorded execution
struct Low { std::vector<uint64_t> rel; std::vector<std::set<int>> strict; };
void check_order(bool partial) {
    size_t n = W->els.size(); Low l; l.rel.assign(n, 0); l.strict.resize(n);
    for (size_t i = 0; i < n; i++) {
        El& x = el(i); uint64_t start = W->run_t0; std::set<int> st;
        for (int d : x.deps) { if (l.rel[d] > start) start = l.rel[d]; st.insert(l.strict[d].begin(), l.strict[d].end()); }
        if (x.fence) {
            for (int a : x.await) { st.insert(a); if (!el(a).ex.empty() && el(a).ex[0].t1 > start) start = el(a).ex[0].t1; }
            l.rel[i] = start; l.strict[i] = st; continue;
        }
        if (x.ex.size() > 1) sim_fail("extra-execution", "%s was started %zu times in one run", x.name().c_str(), x.ex.size());
        if (x.ex.empty()) { if (!partial && !(x.hooks && x.may_outlive)) sim_fail("missing-execution", "%s was not started in this run", x.name().c_str()); l.rel[i] = x.hooks ? start + U(x.timeout) : ~0ull; continue; }
        Exec& e = x.ex[0];
        if (!e.e && !x.may_outlive) sim_fail("not-quiescent", "%s had not finished when run() returned", x.name().c_str());
        for (int s : st) { if (el(s).ex.empty() || !el(s).ex[0].e || el(s).ex[0].e > e.s) sim_fail(el(s).timeout ? "fence-order" : "dependency-order", "%s started before %s had finished", x.name().c_str(), el(s).name().c_str()); }
        if (e.t0 < start) sim_fail("timeout-early", "%s started %llu us before what it depends on was finished or timed out", x.name().c_str(), (unsigned long long)((start - e.t0) / 1000));
        if (!x.timeout) { l.rel[i] = e.t1; l.strict[i].insert(i); continue; }
        uint64_t lim = start + U(x.timeout);
        if (x.hooks && x.hook_t < lim) sim_fail("timeout-early", "%s was reported as timed out %llu us before its timeout of %d ms had passed", x.name().c_str(), (unsigned long long)((lim - x.hook_t) / 1000), x.timeout);
        l.rel[i] = e.e && e.t1 < lim ? e.t1 : lim;
    }
}
void check_timed_status(const CStatus& st) {
    bool must = false, may = false;
    for (El& x : W->els) {
        if (x.fence) continue;
        bool late = x.hooks > 0;
        if (late && x.strat == GElementTimeoutStrategy::AS_ERROR) { must = true; continue; }
        for (Exec& e : x.ex) if (e.e && !e.ok) { if (late && x.strat == GElementTimeoutStrategy::NO_HOLD) may = true; else must = true; }
    }
    if (must && !st.isErr()) sim_fail("error-lost", "run() returned %d although an element failed or timed out as an error", st.getCode());
    if (!must && !may && !st.isOK()) sim_fail("unexpected-error", "run() returned %d (%s) although nothing failed and nothing timed out as an error", st.getCode(), st.getInfo().c_str());
}
void check_timed_latency() {
    uint64_t sum = 0;
    for (El& x : W->els) if (!x.fence) {
        uint64_t w = (uint64_t)x.work_us * 1000;
        bool held = x.timeout == 0 || x.strat == GElementTimeoutStrategy::HOLD_BY_PIPELINE;
        for (El& f : W->els) for (int a : f.await) if (a == x.id) held = true;
        sum += held || batch || w < U(x.timeout) ? w : U(x.timeout);
    }
    uint64_t took = W->ret_t - W->run_t0, inj = W->ret_delay;
    if (took > sum + inj + U(500 + iv_ms * (W->els.size() + 1))) sim_fail("slow-return", "run() took %llu ms, the elements need %llu ms", (unsigned long long)(took / 1000000), (unsigned long long)(sum / 1000000));
}
// work that overran its timeout by more than every injected delay must have been reported
void check_reported(uint64_t inj_total) {
    for (El& x : W->els) if (!x.fence && x.timeout && x.ex.size() == 1 && x.ex[0].e) {
        uint64_t took = x.ex[0].t1 - x.ex[0].t0;
        if (took > U(x.timeout) + inj_total + U(20) && !x.hooks) sim_fail("timeout-missed", "%s worked %llu ms, its timeout of %d ms was not reported", x.name().c_str(), (unsigned long long)(took / 1000000), x.timeout);
    }
}
// nothing in the run takes long and nothing was delayed: no timeout may be reported
void check_spurious(uint64_t inj) {
    uint64_t sum = inj; for (El& x : W->els) sum += (uint64_t)x.work_us * 1000;
    for (El& x : W->els) if (x.timeout && x.hooks && sum < U(x.timeout) / 2) sim_fail("spurious-timeout", "%s was reported as timed out after %d ms although all work together takes %llu us", x.name().c_str(), x.timeout, (unsigned long long)(sum / 1000));
}
bool idle() { for (El& x : W->els) { if (x.running) return false; if (x.hooks && x.ex.empty() && !x.fence) return false; } return true; }
void settle() { for (int i = 0; i < 400; i++) { { SimNP np; if (idle()) return; } sim_sleep_us(1000ull << (i < 14 ? i : 14)); } sim_fail("lost-work", "the work of a timed-out element never started or never ended"); }

// the whole workflow is paused a few times while limits pass; returns how long
uint64_t pauses(GPipelinePtr p, int n) {
    uint64_t sum = 0;
    while (n--) {
        sim_sleep_us(1u << sim_choose(18)); uint64_t t = sim_now_ns(); { SimNP np; sim_count(F_SUSPEND); sim_log("suspend() called"); }
        must_ok(p->suspend(), "suspend()"); sim_sleep_us(1u << sim_choose(20)); { SimNP np; sim_log("resume() called"); } must_ok(p->resume(), "resume()"); sum += sim_now_ns() - t;
    }
    return sum;
}
// runs right after each other, while the work of an earlier one may still be going on behind its limit
void burst(GPipelinePtr p) {
    size_t n = 1 + sim_choose(3); bool ok = true; for (El& x : W->els) x.ex.clear();
    for (size_t i = 0; i < n; i++) {
        { SimNP np; for (El& x : W->els) x.hooks = 0; W->in_run = true; } CStatus st = p->run(); SimNP np; W->in_run = false; ok = ok && st.isOK();
        for (El& x : W->els) if (x.running && !x.may_outlive) sim_fail("not-quiescent", "run() returned (code %d) while %s is still executing", st.getCode(), x.name().c_str());
    }
    auto all = [&] { SimNP np; for (El& x : W->els) if (!x.fence && (x.running || (ok && x.ex.size() < n))) return false; return true; };
    for (int i = 0; i < 400 && !all(); i++) sim_sleep_us(1000ull << (i < 14 ? i : 14));
    SimNP np; for (El& x : W->els) if (!x.fence && (x.ex.size() > n || (ok && x.ex.size() < n))) sim_fail(x.ex.size() > n ? "extra-execution" : "lost-work", "%s was executed %zu times in %zu runs right after each other", x.name().c_str(), x.ex.size(), n);
}
void async_dag(bool fences, int strats, int modes, int ctl = 0) {      // ctl: 1 the run is suspended and resumed, 2 cancelled meanwhile
    Scope sc; sim_limit_ms(4000000);
    GPipelinePtr p = GPipelineFactory::create();
    int n = 1 + sim_choose(fences ? 7 : 6), timed = 0;
    for (int i = 0; i < n; i++) {
        El& x = W->add(LEAF, -1);
        if (sim_choose(3)) x.work_us = sim_choose(5) == 1 ? 4000000 : 1u << sim_choose(19); else x.spin = sim_choose(4);
        if (timed < 4 && sim_choose(2)) {
            static const int T[] = {50, 1, 5, 200, 1000};
            x.timeout = T[sim_choose(5)]; timed++;
            static const GElementTimeoutStrategy ss[] = {GElementTimeoutStrategy::HOLD_BY_PIPELINE, GElementTimeoutStrategy::AS_ERROR, GElementTimeoutStrategy::NO_HOLD};
            std::vector<int> ok; for (int k = 0; k < 3; k++) if ((strats >> k) & 1) ok.push_back(k);
            x.strat = ss[ok[sim_choose(ok.size())]];
            x.may_outlive = x.strat != GElementTimeoutStrategy::HOLD_BY_PIPELINE;
        }
    }
    gen_edges(W->roots);
    if (fences) for (int i = 1; i < n; i++) {
        El& x = el(i); if (x.timeout) { continue; }
        if (sim_choose(2)) continue;
        // awaited: asynchronous elements that must have been started when the fence runs
        std::set<int> anc; std::vector<int> todo = x.deps; while (!todo.empty()) { int d = todo.back(); todo.pop_back(); if (anc.insert(d).second) for (int k : el(d).deps) todo.push_back(k); }
        std::vector<int> cand; for (int a : anc) if (el(a).timeout) cand.push_back(a);
        if (cand.empty()) continue;
        for (int a : cand) if (x.await.empty() || sim_choose(2)) x.await.push_back(a);
        x.fence = true; x.work_us = 0;
    }
    for (int i = 0; i < n; i++) {
        El& x = el(i); GElementPtrSet deps; for (int d : x.deps) deps.insert(el(d).ptr);
        if (x.fence) {
            GFencePtr f = nullptr; must_ok(p->registerGElement<GFence>(&f, deps, "fence" + std::to_string(i)), "register"); x.ptr = f;
        } else {
            x.ptr = reg<TNode>(p, deps, x.name(), 1, i);
            if (x.timeout) { x.ptr->setTimeout(x.timeout, x.strat); watch(x); }
        }
    }
    for (El& x : W->els) if (x.fence) { ToParam q; q.id = x.id; x.ptr->addGAspect<FenceAspect, ToParam>(&q); std::set<GElementPtr> s; for (int a : x.await) s.insert(el(a).ptr); static_cast<GFencePtr>(x.ptr)->waitGElements(s); x.up = true; }
    ask_timeouts(); p->setGEngineType(eng(sim_choose(3)));
    UThreadPoolConfig c = rnd_config(n + timed + 1); iv_ms = c.primary_thread_empty_interval_ = sim_choose(2) ? 1000 : 200;
    batch = c.batch_task_enable_;
    p->setUniqueThreadPoolConfig(c);
    if (sim_choose(5) == 4) (void)p->makeSerial();      // refused if something can time out; time limits hold in any case
    must_ok(p->init(), "init()");
    int runs = 1 + sim_choose(3);
    for (int r = 0; r < runs; r++) {
        clear_faults();
        if (modes && sim_choose(2)) { El& x = el(sim_choose(n)); if (!x.fence) { x.err_code = -77; if (sim_choose(2)) x.err_at = 0; else x.thr_at = 0; } }
        uint64_t d0 = sim_delay_ns(), rest = 0; std::thread t; bool stopped = false; uint64_t stop_t = ~0ull / 2;
        if (ctl && sim_choose(4)) t = std::thread([&] {
            if (ctl == 1) { rest = pauses(p, 1 + sim_choose(3)); return; }
            sim_sleep_us(1u << sim_choose(19)); bool eff = false; { SimNP np; stopped = true; if (W->in_run) for (El& x : W->els) if (!x.ex.empty()) eff = true; sim_count(F_CANCEL); sim_log("cancel() called"); } must_ok(p->cancel(), "cancel()"); if (eff) stop_t = sim_now_ns(); });
        CStatus st = timed_run(p);
        if (t.joinable()) { t.join(); if (W->last_end < sim_now_ns()) W->last_end = sim_now_ns(); }
        uint64_t inj = sim_delay_ns() - d0 + rest;
        { SimNP np; if (!batch) check_spurious(inj); check_timed_status(st); check_order(!st.isOK() || stopped); }
        if (!batch) for (El& x : W->els) for (Exec& e : x.ex) if (e.t0 > stop_t + inj + U(100 + 2 * iv_ms)) sim_fail("cancel-ignored", "%s started %llu ms after cancel() had returned", x.name().c_str(), (unsigned long long)((e.t0 - stop_t) / 1000000));
        W->ret_delay += rest;
        { uint64_t keep = W->ret_delay; W->ret_delay -= d0; check_timed_latency(); W->ret_delay = keep - rest; }
        settle();
        check_reported(sim_delay_ns() - d0); check_views();
        for (El& x : W->els) if (x.ex.size() > 1) sim_fail("extra-execution", "%s was started %zu times in one run", x.name().c_str(), x.ex.size());
    }
    clear_faults(); if (!modes && sim_choose(3) == 1) burst(p);
    must_ok(p->destroy(), "destroy()");
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    GPipelineFactory::remove(p);
}
}
SCENARIO(C12, hold) { async_dag(false, 1, 0); }
SCENARIO(C12, error) { async_dag(false, 3, 0); }
SCENARIO(C12, any_failing) { async_dag(false, 7, 1); }
SCENARIO(C10, limits) { async_dag(false, 1, 0, 2); }
SCENARIO(C11, limits) { async_dag(false, 1, 0, 1); }
SCENARIO(C13, fences) { async_dag(true, 1, 0); }
SCENARIO(C13, any_failing) { async_dag(true, 5, 1); }
// ---------------------------------------------------------------------------------- groups with a timeout, and leaves with one inside groups
namespace {
struct Span { bool any = false, all = true; uint64_t s = ~0ull, e = 0; int nodes = 0; };
void span(const El& x, Span& r) {
    if (x.kind == LEAF) { r.nodes++; if ((int)x.ex.size() < x.loop) r.all = false; for (const Exec& e : x.ex) { r.any = true; r.s = std::min(r.s, e.t0); if (!e.e) r.all = false; else r.e = std::max(r.e, e.t1); } return; }
    for (int k : x.kids) span(el(k), r);
}
bool inside_hook(const El& x) { for (int k : x.kids) if (el(k).hooks || inside_hook(el(k))) return true; return false; }      // part of its work may go on behind a timeout
void check_unit(El& x, bool cut, uint64_t cut_t, uint64_t slack, bool partial) {      // cut: a group around it timed out (at cut_t)
    if (x.hooks && !cut && x.kind != LEAF) { cut = true; cut_t = x.strat == GElementTimeoutStrategy::HOLD_BY_PIPELINE ? x.hook_t : ~0ull - slack; }      // an error does not stop what the group had started
    if (x.kind == LEAF) {
        if ((int)x.ex.size() > x.loop) sim_fail("extra-execution", "%s was started %zu times in one run", x.name().c_str(), x.ex.size());
        if ((int)x.ex.size() < x.loop && !cut && !partial) sim_fail("missing-execution", "%s was executed %zu times, no group around it timed out", x.name().c_str(), x.ex.size());
        for (Exec& e : x.ex) { if (!e.e && !x.may_outlive) sim_fail("not-quiescent", "%s had not finished when run() returned", x.name().c_str());
            if (cut && e.t0 > cut_t + slack) sim_fail("timeout-ignored", "%s started %llu ms after its group had timed out", x.name().c_str(), (unsigned long long)((e.t0 - cut_t) / 1000000)); }
    }
    for (size_t i = 0; i < x.kids.size(); i++) {
        El& c = el(x.kids[i]); check_unit(c, cut, cut_t, slack, partial);
        std::vector<int> pre = c.deps; if (x.kind == CLUSTER && i) pre.push_back(x.kids[i - 1]);
        for (int d : pre) { Span a, b; span(el(d), a); span(c, b); if (!b.any) continue;
            if (el(d).hooks) { if (b.s < el(d).hook_t) sim_fail("dependency-order", "%s started before %s had finished or timed out", c.name().c_str(), el(d).name().c_str()); }
            else if (a.nodes && !inside_hook(el(d)) && (!a.all || a.e > b.s)) sim_fail("dependency-order", "%s started before %s had finished", c.name().c_str(), el(d).name().c_str()); }
    }
}
void timed_groups(bool paused) {
    Scope sc; sim_limit_ms(8000000); GPipelinePtr p = GPipelineFactory::create(); std::vector<int> timed;
    Gen g; g.max_top = 3; g.max_kids = 3; g.max_depth = 2; g.groups = 2; g.kinds = K_CR; g.holds = g.macros = false; g.max_block = 2; gen_kids(g, -1, 0);
    bool err = !paused && sim_choose(4) == 3;
    for (El& x : W->els) {
        if (x.kind != LEAF) x.loop = 1; else if (sim_choose(2)) x.work_us = 1u << sim_choose(20);
        if (timed.size() < 3 && sim_choose(x.kind == LEAF ? 5 : 2) == 1) { static const int T[] = {50, 1, 5, 200, 1000}; x.timeout = T[sim_choose(5)]; x.loop = 1; timed.push_back(x.id); x.strat = err ? GElementTimeoutStrategy::AS_ERROR : GElementTimeoutStrategy::HOLD_BY_PIPELINE; }
    }
    std::vector<int> lw; std::function<void(El&, bool)> mark = [&](El& x, bool out) { x.may_outlive = out || (err && x.timeout); for (int k : x.kids) mark(el(k), x.may_outlive); }; for (int r : W->roots) mark(el(r), false);
    for (El& x : W->els) lw.push_back(x.work_us);
    build(p); for (El& x : W->els) if (x.timeout) { x.ptr->setTimeout(x.timeout, x.strat); watch(x); }
    ask_timeouts(); p->setGEngineType(eng(sim_choose(3))); UThreadPoolConfig c = rnd_config(6 + 2 * (int)timed.size()); c.batch_task_enable_ = false; c.max_task_steal_range_ = 20; p->setUniqueThreadPoolConfig(c);
    must_ok(p->init(), "init()"); int runs = err ? 1 : 1 + sim_choose(3);
    for (int r = 0; r < runs; r++) {
        clear_faults(); bool quick = sim_choose(3) == 1; for (size_t i = 0; i < W->els.size(); i++) el(i).work_us = quick ? 0 : lw[i];
        uint64_t d0 = sim_delay_ns(), rest = 0; std::thread t; if (paused) t = std::thread([&] { rest = pauses(p, 1 + sim_choose(3)); });
        CStatus st = timed_run(p); uint64_t inj = sim_delay_ns() - d0; if (paused) { t.join(); } SimNP np;
        bool late = false; for (int k : timed) if (el(k).hooks) late = true;
        if (err && late) must_err(st, "run() with an element that timed out as an error"); else must_ok(st, "run()");
        if (!err) check_views();
        uint64_t sum = inj + rest; for (El& x : W->els) sum += x.kind == REGION ? U(100000) : (uint64_t)x.work_us * 1000 * x.loop * 8;      // a region's work may wait until an idle thread looks for it
        for (int k : timed) { El& x = el(k); if (x.hooks && sum < U(x.timeout) / 2) sim_fail("spurious-timeout", "%s was reported as timed out after %d ms although all work takes %llu us", x.name().c_str(), x.timeout, (unsigned long long)(sum / 1000));
            Span a; span(x, a); if (x.hooks && a.any && x.hook_t < a.s + U(x.timeout) && x.hook_t < W->run_t0 + U(x.timeout)) sim_fail("timeout-early", "%s was reported as timed out before its timeout of %d ms had passed", x.name().c_str(), x.timeout); }
        for (int t : W->roots) { El& x = el(t); check_unit(x, false, 0, inj + U(50), st.isErr());
            for (int d : x.deps) { Span a, b; span(el(d), a); span(x, b); if (!b.any) continue;
                if (el(d).hooks) { if (b.s < el(d).hook_t) sim_fail("dependency-order", "%s started before %s had finished or timed out", x.name().c_str(), el(d).name().c_str()); }
                else if (a.nodes && !inside_hook(el(d)) && (!a.all || a.e > b.s)) sim_fail("dependency-order", "%s started before %s had finished", x.name().c_str(), el(d).name().c_str()); } }
    }
    must_ok(p->destroy(), "destroy()");
    for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "%s is executing after destroy()", x.name().c_str());
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads()); GPipelineFactory::remove(p);
}
}
SCENARIO(C12, groups) { timed_groups(false); }
SCENARIO(C12, paused) { timed_groups(true); }
// a quorum group behind the limit of the group around it: what goes on after run() is neither started twice nor left behind
SCENARIO(C12, behind) {
    Scope sc; sim_limit_ms(8000000); GPipelinePtr p = GPipelineFactory::create();
    El& out = W->add(sim_choose(2) ? REGION : CLUSTER, -1); int o = out.id; out.engine = sim_choose(3);
    int before = sim_choose(2); for (int i = 0; i < before; i++) { El& x = W->add(LEAF, o); x.work_us = 1u << sim_choose(18); }
    El& some = W->add(SOME, o); int s = some.id; some.trigger = 1; if (before && sim_choose(2)) some.deps.push_back(o + 1);
    int n = 2 + sim_choose(2); for (int i = 0; i < n; i++) { El& x = W->add(LEAF, s); x.work_us = 1u << sim_choose(21); }
    if (sim_choose(2)) { El& x = W->add(LEAF, o); x.work_us = 1u << sim_choose(18); }
    static const int T[] = {5, 1, 50, 200}; El& y = el(o); y.timeout = T[sim_choose(4)]; y.strat = sim_choose(2) ? GElementTimeoutStrategy::AS_ERROR : GElementTimeoutStrategy::NO_HOLD;
    for (El& x : W->els) x.may_outlive = true;
    build(p); y.ptr->setTimeout(y.timeout, y.strat);
    p->setGEngineType(eng(sim_choose(3))); UThreadPoolConfig c = rnd_config(10); c.batch_task_enable_ = false; c.max_task_steal_range_ = 20; p->setUniqueThreadPoolConfig(c);
    must_ok(p->init(), "init()"); size_t runs = 1 + sim_choose(3);
    for (size_t r = 0; r < runs; r++) {
        { SimNP np; W->in_run = true; } CStatus st = p->run(); { SimNP np; W->in_run = false; }
        if (y.strat == GElementTimeoutStrategy::NO_HOLD) must_ok(st, "run()");
        if (sim_choose(3) == 1) sim_sleep_us(1u << sim_choose(20));
    }
    must_ok(p->destroy(), "destroy()");
    for (El& x : W->els) if (x.kind == LEAF) {
        if (x.running) sim_fail("not-quiescent", "%s is executing after destroy()", x.name().c_str());
        if (x.ex.size() > runs) sim_fail("extra-execution", "%s was started %zu times in %zu runs", x.name().c_str(), x.ex.size(), runs);
        if (x.ex.size() < runs && x.parent != s && y.strat == GElementTimeoutStrategy::AS_ERROR) sim_fail("lost-work", "%s was executed %zu times in %zu runs", x.name().c_str(), x.ex.size(), runs);
    }
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads()); GPipelineFactory::remove(p);
}
