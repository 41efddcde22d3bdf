// What the pipeline says about its structure (C37), asynchronous runs (C38), adapters (C39), lazy singletons (C40).
#include "graph.h"
#include <set>
#include <thread>
#include <future>
#include <memory>
using namespace H;
namespace {
// the true relation of two elements: is one of them reachable from the other?
bool reach(int a, int b) { if (a == b) return true; for (int d : el(b).deps) if (reach(a, d)) return true; return false; }
bool ordered(int a, int b) { return reach(a, b) || reach(b, a); }
std::vector<int> path_of(int a) { std::vector<int> v; for (; a >= 0; a = el(a).parent) v.insert(v.begin(), a); return v; }
bool truth(int a, int b) {
    auto p = path_of(a), q = path_of(b); size_t i = 0; while (i < p.size() && i < q.size() && p[i] == q[i]) i++;
    if (i == p.size() || i == q.size()) return true;
    if (i == 0) return ordered(p[0], q[0]);
    switch (el(p[i - 1]).kind) { case CLUSTER: case COND: case MULTI_S: return true; case REGION: return ordered(p[i], q[i]); default: return false; }
}
size_t width(const std::vector<int>& ids) {       // largest set of pairwise unordered elements
    size_t n = ids.size(), best = 0; std::vector<uint32_t> con(n, 0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && ordered(ids[i], ids[j])) con[i] |= 1u << j;
    for (uint32_t m = 0; m < (1u << n); m++) { bool ok = true; for (size_t i = 0; i < n && ok; i++) if ((m >> i & 1) && (con[i] & m)) ok = false; if (ok) best = std::max<size_t>(best, __builtin_popcount(m)); }
    return best;
}
std::set<int> preds(int a) { std::set<int> s; for (GElement* e : el(a).ptr->getRelation().predecessors_) for (El& x : W->els) if (x.ptr == e) s.insert(x.id); return s; }
bool near(int a) { for (int p = el(a).parent; p >= 0; p = el(p).parent) if (el(p).kind != REGION) return false; return true; }
void check_relations(GPipelinePtr p) {
    for (El& x : W->els) {
        auto r = x.ptr->getRelation(); auto f = [](const std::vector<GElement*>& v, GElement* e) { return std::find(v.begin(), v.end(), e) != v.end(); };
        for (GElement* s : r.successors_) if (!f(s->getRelation().predecessors_, x.ptr)) sim_fail("relation", "%s lists a successor that does not depend on it", x.name().c_str());
        for (GElement* s : r.predecessors_) if (!f(s->getRelation().successors_, x.ptr)) sim_fail("relation", "%s depends on an element that does not list it", x.name().c_str());
        if (r.belong_ != (x.parent < 0 ? nullptr : el(x.parent).ptr)) sim_fail("relation", "%s belongs to a wrong group", x.name().c_str());
        if (r.children_.size() != x.kids.size()) sim_fail("relation", "%s lists %zu children", x.name().c_str(), r.children_.size());
        for (size_t i = 0; i < x.kids.size(); i++) if (r.children_[i] != el(x.kids[i]).ptr) sim_fail("relation", "child %zu of %s is another element", i, x.name().c_str());
        for (El& y : W->els) if (x.id != y.id) { bool t = truth(x.id, y.id); if (p->checkSeparate(x.ptr, y.ptr) != t) sim_fail("separate", "%s and %s are reported as %s", x.name().c_str(), y.name().c_str(), t ? "possibly concurrent, they are ordered" : "ordered, they may run concurrently"); }
    }
}
void structure(Gen g) {
    Opt o; o.g = g; o.min_threads = 4; o.max_runs = 3; static int par, now; static bool flat; par = now = 0; flat = g.groups == 0; static size_t most; most = 0;
    o.on_build = [](GPipelinePtr p) {
        std::vector<std::set<int>> before; size_t n0 = 0, n1 = 0; for (El& x : W->els) { before.push_back(preds(x.id)); n0 += before.back().size(); if (before.back() != std::set<int>(x.deps.begin(), x.deps.end())) sim_fail("relation", "the predecessors of %s are not those given", x.name().c_str()); }
        if (sim_choose(2)) check_relations(p);
        if (flat) { most = width(W->roots); size_t w = p->getMaxPara(); if (w != most) sim_fail("max-para", "the maximum parallelism is reported as %zu, it is %zu", w, most); }
        if (sim_choose(3) == 0) return;
        size_t cut = p->trim();
        for (El& x : W->els) {
            auto a = preds(x.id); n1 += a.size();
            for (int d : a) if (!before[x.id & 4095].count(d)) sim_fail("trim", "trimming added a dependency of %s", x.name().c_str());
            for (int d : before[x.id & 4095]) {
                bool kept = a.count(d), via = false; for (int e : before[x.id & 4095]) if (e != d && reach(d, e)) via = true;
                if (!kept && !via) sim_fail("trim", "trimming removed the dependency of %s on %s, which nothing else implies", x.name().c_str(), el(d).name().c_str());
                if (kept && via && near(x.id)) sim_fail("trim", "the redundant dependency of %s on %s was not removed", x.name().c_str(), el(d).name().c_str());
            }
        }
        if (cut != n0 - n1) sim_fail("trim", "trim() reports %zu removed dependencies, %zu were removed", cut, n0 - n1);
        if (p->trim()) sim_fail("trim", "a second trim() removed something");
        if (sim_choose(2)) check_relations(p);
        if (flat && p->getMaxPara() != most) sim_fail("max-para", "trimming changed the maximum parallelism");
    };
    // no execution may contradict what was reported
    o.before_run = [](GPipelinePtr p) {
        now = par = 0;
        for (El& x : W->els) if (x.kind == LEAF) {
            x.pre = [p](El& y) { now++; par = std::max(par, now); for (El& z : W->els) if (z.id != y.id && z.running && p->checkSeparate(y.ptr, z.ptr)) sim_fail("separate", "%s and %s execute at once although they are reported as ordered", y.name().c_str(), z.name().c_str()); };
            x.post = [](El&, int) { now--; }; }
        if (flat) sim_event(par); };
    o.after_run = [](GPipelinePtr, const CStatus&) { if (flat && par > (int)most) sim_fail("max-para", "%d elements executed at once, the maximum parallelism is %zu", par, most); };
    graph_common(o);
}
// dependencies in a circle are refused, nothing is executed, and without them the pipeline works
void circle() {
    Scope sc; sim_limit_ms(120000); sim_hang_class("hang"); GPipelinePtr p = GPipelineFactory::create(); Gen g; g.groups = 5; g.max_top = 6; gen_kids(g, -1, 0); build(p);
    p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(4));
    std::vector<std::vector<int>*> sets; sets.push_back(&W->roots); for (El& x : W->els) if (x.kind == REGION) sets.push_back(&x.kids);
    std::vector<int>& ids = *sets[sim_choose(sets.size())]; int n = (int)ids.size();
    int m = std::min(n, 2 + (int)sim_choose(3)), at = sim_choose(n - m + 1); std::vector<std::pair<int, int>> added;
    if (m >= 2) { for (int i = 0; i < m; i++) { int a = ids[at + i], b = ids[at + (i + 1) % m]; if (!preds(b).count(a)) { must_ok(el(b).ptr->addDependGElements({el(a).ptr}), "addDependGElements()"); added.push_back({a, b}); } }
        { SimNP np; W->in_run = false; } CStatus st = p->init();
        if (st.isOK()) { st = p->run(); if (p->destroy().isErr()) sim_fail("cycle", "destroy() failed"); }
        if (!st.isErr()) sim_fail("cycle", "a circle of %d dependencies was accepted", m);
        check_inits(false); for (El& x : W->els) if (x.total) sim_fail("cycle", "%s was executed although the dependencies are circular", x.name().c_str());
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left", sim_live_threads());
        for (auto& e : added) must_ok(el(e.second).ptr->removeDepend(el(e.first).ptr), "removeDepend()"); }
    must_ok(p->init(), "init()"); check_inits(true);
    for (int r = 0; r < 2; r++) { must_ok(timed_run(p), "run()"); Oracle(false).check_all(); check_latency(2000 + 1000 * W->els.size(), "run()"); }
    must_ok(p->destroy(), "destroy()"); check_inits(false); GPipelineFactory::remove(p);
}
}
SCENARIO(C37, flat) { Gen g; g.groups = 0; g.max_top = 9; g.macros = false; structure(g); }
SCENARIO(C37, nested) { Gen g; g.max_top = 5; g.groups = 2; g.kinds = K_CR | K_CM; structure(g); }
SCENARIO(C37, circle) { circle(); }

// ------------------------------------------------------------------------------------------- asynchronous runs
namespace {
struct Watch { bool live = false, deferred = false; };
void async_runs(Gen g, int modes) {
    Scope sc; sim_limit_ms(240000); sim_hang_class("hang");
    GPipelinePtr p = GPipelineFactory::create(); gen_kids(g, -1, 0); build(p);
    p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(4));
    auto refused = [&](bool proc) { bool thrown = false; try { if (proc) p->asyncProcess(); else p->asyncRun(); } catch (const CException&) { thrown = true; } if (!thrown) sim_fail("async-state", "an asynchronous call in the wrong state was accepted"); };
    if (sim_choose(3) == 1) refused(false);
    int rounds = 1 + sim_choose(3); bool up = false;
    for (int r = 0; r < rounds; r++) {
        clear_faults(); bool armed = modes && sim_choose(2) && arm_faults(1, modes); (void)armed;
        std::launch pol = sim_choose(3) == 1 ? std::launch::deferred : std::launch::async; bool proc = !up && sim_choose(2); int n = proc ? 1 + sim_choose(3) : 1;
        if (!proc && !up) { must_ok(p->init(), "init()"); up = true; }
        if (up && sim_choose(4) == 1) refused(true);
        { SimNP np; clear_records(); W->in_run = true; W->run_no++; W->run_start = sim_seq(); W->run_t0 = W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); for (El& x : W->els) x.total = x.inits = x.destroys = 0; }
        std::future<CStatus> f = proc ? p->asyncProcess(n, pol) : p->asyncRun(pol);
        if (!f.valid()) sim_fail("async-status", "the returned future is not valid");
        if (sim_choose(2)) sim_sleep_us(1u << sim_choose(16));
        if (pol == std::launch::deferred) { SimNP np; for (El& x : W->els) if (x.total) sim_fail("async-early", "%s was executed before the deferred run was asked for", x.name().c_str()); }
        else for (int k = 0; sim_choose(3) == 1 && k < 20; k++) { if (f.wait_for(std::chrono::microseconds(1 << k)) == std::future_status::ready) { SimNP np; for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "the future is ready while %s is executing", x.name().c_str()); break; } }
        CStatus st = f.get();
        { SimNP np; W->in_run = false; W->ret_t = sim_now_ns(); W->ret_delay = sim_delay_ns(); for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "the asynchronous run ended (code %d) while %s is still executing", st.getCode(), x.name().c_str()); }
        check_status(st, proc ? "asyncProcess()" : "asyncRun()"); check_latency(2000 + 1000 * W->els.size(), "the asynchronous run");
        if (proc) { if (!W->errors_returned && W->els.size() == 1 && el(0).kind == LEAF && el(0).total != n * el(0).loop * (1 + el(0).hold)) sim_fail("extra-execution", "asyncProcess(%d) executed the element %d times", n, el(0).total);
            for (El& x : W->els) if (x.kind == LEAF && (x.up || x.inits != 1 || x.destroys != 1)) sim_fail("lifecycle", "%s was initialised %d times and destroyed %d times by asyncProcess()", x.name().c_str(), x.inits, x.destroys);
            if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after asyncProcess()", sim_live_threads()); }
        else Oracle(W->errors_returned > 0).check_all();
        if (up && sim_choose(3) == 1) { clear_faults(); for (El& x : W->els) x.inits = x.destroys = 0; must_ok(p->destroy(), "destroy()"); up = false; }
    }
    clear_faults(); if (!up) must_ok(p->init(), "init()");
    must_ok(timed_run(p), "run()"); Oracle(false).check_all();
    must_ok(p->destroy(), "destroy()"); check_inits(false);
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    GPipelineFactory::remove(p);
}
}
SCENARIO(C38, clean) { Gen g; g.groups = 4; g.max_top = 5; async_runs(g, 0); }
SCENARIO(C38, failing) { Gen g; g.groups = 4; g.max_top = 5; async_runs(g, 3); }

// ------------------------------------------------------------------------------------------- adapters
namespace {
void adapters(int modes) { Opt o; o.g.groups = 5; o.g.max_top = 6; o.min_threads = 4; o.max_runs = 3; o.modes = modes; o.functions = true; o.serial = true; o.process = !modes; graph_common(o); }
struct CoAspect : public GAspect { CStatus beginRun() override { SimNP np; El& x = el(id()); x.ex.push_back({sim_seq(), 0, true, sim_tid(), sim_now_ns(), 0}); x.running++; return CStatus(); }
    CVoid finishRun(const CStatus& st) override { SimNP np; El& x = el(id()); x.running--; x.ex.back().e = sim_seq(); x.ex.back().t1 = W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); if (st.isErr()) { x.ex.back().ok = false; W->errors_returned++; } sim_log("coordinator %d: %d", id(), st.getCode()); }
    struct Id : public GAspectParam { int v = 0; CVoid clone(GPassedParam* p) override { v = static_cast<Id*>(p)->v; } };
    int id() { return getAParam<Id>()->v; } };
template <int N> GElementPtr coord(GPipelinePtr p, const GElementPtrSet& d, const std::string& n) { GElementPtr e = nullptr; must_ok(p->registerGElement<GCoordinator<N>>(&e, d, n, 1), "register"); return e; }
void coordinated() {
    Scope sc; sim_limit_ms(240000); sim_hang_class("hang"); GPipelinePtr p = GPipelineFactory::create(); Gen g; g.groups = 0; g.max_top = 7; gen_kids(g, -1, 0);
    static const int sizes[] = {1, 2, -1, -2, 0}; std::vector<int> co; for (int r : W->roots) if (sim_choose(3) == 1) { co.push_back(r); El& x = el(r); x.hold = 0; x.loop = 1; x.macro = sim_choose(4) == 1; x.work_us = 0; }
    for (int r : W->roots) { El& x = el(r); if (std::find(co.begin(), co.end(), r) == co.end()) { build_el(p, x); continue; }
        GElementPtrSet d; for (int k : x.deps) d.insert(el(k).ptr); int s = sizes[sim_choose(5)]; x.trigger = s; x.up = true;
        x.ptr = s == 1 ? coord<1>(p, d, x.name()) : s == 2 ? coord<2>(p, d, x.name()) : s == -1 ? coord<-1>(p, d, x.name()) : s == -2 ? coord<-2>(p, d, x.name()) : coord<0>(p, d, x.name());
        if (x.macro) x.ptr->setMacro(true); CoAspect::Id q; q.v = r; x.ptr->addGAspect<CoAspect, CoAspect::Id>(&q); }
    UThreadPoolConfig c = rnd_config(1); c.secondary_thread_size_ = sim_choose(3); c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_ + sim_choose(5); c.monitor_enable_ = false; c.queue_emtpy_interval_ = 50;
    p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(c);
    must_ok(p->init(), "init()"); int runs = 1 + sim_choose(4), base = sim_live_threads();
    if (base != c.default_thread_size_ + c.secondary_thread_size_) sim_fail("thread-count", "%d pool threads after init()", base);
    int have = c.secondary_thread_size_, maxs = c.max_thread_size_ - c.default_thread_size_;
    for (int r = 0; r < runs; r++) {
        CStatus st = timed_run(p); bool bad = W->errors_returned > 0;
        if (bad) must_err(st, "run()"); else must_ok(st, "run()");
        Oracle(bad).check_all(); check_latency(2000 + 1000 * W->els.size(), "run()");
        if (sim_live_threads() > c.max_thread_size_) sim_fail("thread-count", "%d pool threads, the maximum is %d", sim_live_threads(), c.max_thread_size_);
        int inc = 0, dec = 0; for (int k : co) for (Exec& e : el(k).ex) if (e.ok) (el(k).trigger > 0 ? inc : dec) += el(k).trigger;
        for (int k : co) for (Exec& e : el(k).ex) if (!e.ok) { int t = el(k).trigger;      // refused: could there have been no room, or no thread to release?
            if (t >= 0) sim_fail("coordinator", "creating up to %d threads was refused", t);
            if (t < 0 && have + dec + t >= 0) sim_fail("coordinator", "releasing %d threads was refused, at least %d auxiliary threads existed", -t, have + dec); }
        // creating is limited to the room there is (a released thread takes room until it has ended); a release is exact
        int hi = std::min(maxs, have + inc + dec), lo = std::max(0, std::min(have + inc, maxs) + dec);
        int now = 0; for (int i = 0; i < 20; i++) { sim_sleep_us(3000000); now = sim_live_threads() - c.default_thread_size_; if (now >= lo && now <= hi && i) break; }
        if (now < lo || now > hi) sim_fail("thread-count", "%d auxiliary threads, the coordinators leave %d to %d", now, lo, hi);
        have = now;
    }
    must_ok(p->destroy(), "destroy()"); if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads()); GPipelineFactory::remove(p);
}
}
SCENARIO(C39, functions) { adapters(0); }
SCENARIO(C39, failing) { adapters(3); }
SCENARIO(C39, coordinator) { coordinated(); }

// ------------------------------------------------------------------------------------------- lazy singleton
namespace {
int made, gone; struct Thing : public CObject { int magic; CStatus init() override { return CStatus(); } CStatus run() override { return CStatus(); } CStatus destroy() override { return CStatus(); } Thing() { sim_point(); { SimNP np; made++; } if (sim_choose(2)) sim_sleep_us(50); magic = 4711; } ~Thing() override { SimNP np; gone++; magic = 0; } };
}
SCENARIO(C40, lazy) {
    sim_limit_ms(60000); made = gone = 0; int rounds = 1 + sim_choose(3);
    for (int r = 0; r < rounds; r++) {
        { USingleton<Thing, USingletonType::LAZY> s; int n = 2 + sim_choose(5); Thing* got[8] = {}; std::vector<std::thread> th; sim_count(F_CONTENTION);
          for (int i = 0; i < n; i++) th.emplace_back([&, i] { int k = 1 + sim_choose(3); for (int j = 0; j < k; j++) { if (sim_choose(3) == 1) sim_sleep_us(1u << sim_choose(7)); Thing* t = s.get(); if (!t || t->magic != 4711) sim_fail("singleton", "thread %d got an object that is not completely constructed", i); SimNP np; if (got[i] && got[i] != t) sim_fail("singleton", "thread %d got two objects", i); got[i] = t; sim_event(i); } });
          for (auto& t : th) t.join();
          for (int i = 1; i < n; i++) if (got[i] != got[0]) sim_fail("singleton", "two threads got different objects");
          if (made != r + 1) sim_fail("singleton", "%d objects were constructed", made); }
        if (gone != r + 1) sim_fail("singleton", "%d objects were destroyed", gone);
    }
}
