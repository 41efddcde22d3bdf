// Lifecycle (C30) and profiling (C35).
#include "graph.h"
#include <thread>
#include <memory>
#include <sstream>
using namespace H;
namespace {
// ------------------------------------------------------------------------------------------------ C35
struct Hook { int begun = 0, finished = 0; };
std::deque<Hook>* HK;
struct HParam : public GAspectParam { int id = 0; CVoid clone(GPassedParam* p) override { id = static_cast<HParam*>(p)->id; } };
class HAsp : public GAspect { public:
    CStatus beginRun() override { SimNP np; (*HK)[getAParam<HParam>()->id].begun++; return CStatus(); }
    CVoid finishRun(const CStatus&) override { SimNP np; (*HK)[getAParam<HParam>()->id].finished++; } };
std::string dump(GPipelinePtr p) { std::ostringstream o; must_ok(p->dump(o), "dump()"); return o.str(); }
struct Rec { bool any = false; double start = 0, finish = 0, per = 0, total = 0; bool has_total = false; };
Rec find_rec(const std::string& s, const El& x) {
    Rec r; std::string key = "label=\"" + x.name(); size_t a = std::string::npos, from = 0;
    while ((from = s.find(key, from)) != std::string::npos) { char c = s[from + key.size()]; if (c < '0' || c > '9') { a = from; break; } from++; }
    if (a == std::string::npos) sim_fail("profile-format", "%s does not appear in the profile", x.name().c_str());
    size_t e = s.find("\"", a + 7), b = s.find("[start ", a);
    if (b == std::string::npos || b > e) return r;
    r.any = true; char buf[256]; snprintf(buf, sizeof buf, "%s", s.substr(b, e - b).c_str());
    if (sscanf(buf, "[start %lfms, finish %lfms,\nper_cost %lfms, total_cost %lf", &r.start, &r.finish, &r.per, &r.total) == 4) r.has_total = true;
    else if (sscanf(buf, "[start %lfms, finish %lfms,\nper_cost %lf", &r.start, &r.finish, &r.per) != 3) sim_fail("profile-format", "unreadable record of %s: %s", x.name().c_str(), buf);
    return r;
}
void check_profile(const std::string& s, uint64_t t0) {
    double lo = 0, hi = 1e18; std::string lo_by = "its beginning", hi_by;    // when the profiled run began, as far as each element tells (after t0)
    for (El& x : W->els) {
        if (x.parent >= 0 && el(x.parent).kind == MUT) continue;
        Rec r = find_rec(s, x);
        if (x.kind != LEAF) { if (r.any && r.finish + 0.011 < r.start) sim_fail("profile", "%s starts at %.2f and finishes at %.2f", x.name().c_str(), r.start, r.finish); continue; }
        if (r.any != !x.ex.empty()) sim_fail("profile", "%s ran %zu times and has %s record", x.name().c_str(), x.ex.size(), r.any ? "a" : "no");
        if (!r.any) continue;
        double first = (x.ex[0].t0 - t0) / 1e6, last = (x.ex.back().t1 - t0) / 1e6, sum = 0; for (Exec& e : x.ex) sum += (e.t1 - e.t0) / 1e6;
        size_t loops = x.ex.size() / (1 + x.hold); if (!r.has_total) r.total = r.per * loops;
        double eps = 0.011 * (loops + 1);
        if (r.finish - r.start + eps < last - first) sim_fail("profile", "%s executed from %.3f to %.3f ms, the profile says %.2f to %.2f", x.name().c_str(), first, last, r.start, r.finish);
        if (last - r.finish - eps > lo) lo = last - r.finish - eps, lo_by = x.name();
        if (first - r.start + eps < hi) hi = first - r.start + eps, hi_by = x.name();
        if (r.start + eps < 0) sim_fail("profile", "%s is said to start at %.2f", x.name().c_str(), r.start);
        if (r.total + eps < sum) sim_fail("profile", "%s worked %.3f ms, the profile says %.2f", x.name().c_str(), sum, r.total);
        if (r.total > r.finish - r.start + eps) sim_fail("profile", "%s: total cost %.2f exceeds the time from %.2f to %.2f", x.name().c_str(), r.total, r.start, r.finish);
    }
    if (lo > hi) sim_fail("profile", "the times of %s and of %s do not belong to one clock: the run began %.3f ms or more, and at most %.3f ms after the call", lo_by.c_str(), hi_by.c_str(), lo, hi);
}
}
SCENARIO(C35, profile) {
    Scope sc; sim_limit_ms(240000); sim_hang_class("hang");
    GPipelinePtr p = GPipelineFactory::create();
    Gen g; g.max_top = 5; g.max_kids = 3; g.kinds = K_CR | K_CM; gen_kids(g, -1, 0); build(p);
    std::deque<Hook> hk(W->els.size()); HK = &hk; bool hooks = sim_choose(2);
    if (hooks) for (El& x : W->els) { HParam hp; hp.id = x.id; x.ptr->addGAspect<HAsp>(&hp); }
    p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(4));
    if (sim_choose(4) == 1) (void)p->makeSerial();
    std::string before = dump(p); int n = 1 + sim_choose(3); uint64_t objects = 0;
    for (int i = 0; i < n; i++) {
        bool prof = i == 0 || sim_choose(3) != 1; clear_faults();
        if (sim_choose(3) == 1) arm_faults(1, 1 | 2 | 8 | 16);
        for (El& x : W->els) x.inits = x.destroys = 0;
        for (Hook& h : hk) h = Hook();
        std::ostringstream o; uint64_t t0;
        { SimNP np; clear_records(); W->in_run = true; W->run_no++; W->run_start = sim_seq(); t0 = W->run_t0 = W->last_end = sim_now_ns(); }
        CStatus st = prof ? p->perf(o) : p->process(1);
        { SimNP np; W->in_run = false; for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "perf() returned while %s is executing", x.name().c_str()); }
        check_status(st, prof ? "perf()" : "process()");
        Oracle(W->errors_returned > 0).check_all();
        for (El& x : W->els) if (x.kind == LEAF && (x.inits != 1 || x.destroys != 1)) sim_fail("lifecycle", "%s initialised %d times, destroyed %d times", x.name().c_str(), x.inits, x.destroys);
        if (hooks) for (El& x : W->els) if (x.kind == LEAF) { int want = 0; (void)want; if (hk[x.id].begun * (1 + x.hold) < (int)x.ex.size() || (!W->errors_returned && hk[x.id].begun * (1 + x.hold) != (int)x.ex.size())) sim_fail("aspect-lost", "%s ran %zu times, its own begin hook was called %d times", x.name().c_str(), x.ex.size(), hk[x.id].begun); if (hk[x.id].finished > hk[x.id].begun) sim_fail("aspect-lost", "finish hooks of %s", x.name().c_str()); }
        if (prof && st.isOK()) { check_profile(o.str(), t0); sim_probe(2); }
        if (dump(p) != before) sim_fail("profile-residue", "the pipeline looks different after perf() (status %d)", st.getCode());
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left", sim_live_threads());
        SimNP np; clear_records(); (void)objects;
    }
    GPipelineFactory::remove(p);
}
// ------------------------------------------------------------------------------------------------ C30
namespace {
struct Life { bool up = false, active = false; int rounds = 0, begun = 0; uint64_t ticks = 0; bool bad_round = false; CStatus last; std::vector<int> prep; };
Life* L;
class LParam : public GParam { public:
    CStatus setup() override {
        SimNP np; if (!L->active) sim_fail("run-down", "a round begins while the pipeline is not running");
        if (L->begun != L->rounds) sim_fail("round-overlap", "a round begins before the previous one ended");
        L->begun++; clear_records(); W->in_run = true; W->run_no++; W->run_start = sim_seq(); W->run_t0 = W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
        if (L->bad_round) sim_fail("round-after-error", "process() goes on after a failed round");
        if (sim_choose(4) == 1) arm_faults(1, 1 | 2 | 8); else clear_faults();
        return CStatus(); }
    CVoid reset(const CStatus& st) override {
        SimNP np; W->in_run = false; L->rounds++;
        for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "a round ends while %s is executing", x.name().c_str());
        check_status(st, "a round"); Oracle(W->errors_returned > 0).check_all();
        for (El& x : W->els) if (x.kind == LEAF && !x.ex.empty() && x.prepares != 1) sim_fail("prepare", "%s was prepared %d times since it was initialised", x.name().c_str(), x.prepares);
        L->last = CStatus(); L->last = st; L->bad_round = st.isErr(); }
};
class LDaemon : public GDaemon { protected: CVoid daemonTask(GDaemonParamPtr) override {
    SimNP np; L->ticks++;
    if (!L->up) sim_fail("daemon-late", "a daemon is active while the pipeline is not initialised");
    for (El& x : W->els) if (x.kind == LEAF && !x.up && !hid(x)) sim_fail("daemon-order", "a daemon is active while %s is not initialised", x.name().c_str()); } };
class SpareEvent : public GEvent { public: CVoid trigger(GEventParamPtr) override { sim_fail("spare", "an event that was never added is triggered"); } };
class Spare : public GNode { public: CStatus init() override { sim_fail("spare", "an element that was never registered is initialised"); } CStatus run() override { sim_fail("spare", "an element that was never registered runs"); } };
struct Out { CStatus st; bool thrown = false; bool err() const { return thrown || st.isErr(); } std::string info() const { return st.getInfo(); } };
template <class F> Out call(F f) { Out o; try { o.st = f(); } catch (const CException& e) { o.thrown = true; o.st = CStatus(-996, e.what()); } catch (const std::system_error& e) { o.thrown = true; o.st = CStatus(-1, e.what()); } return o; }
struct InitFaults { int n = 0, bad = -1, mode = 0; uint64_t c0 = 0; };
void all_down(const char* when) {
    for (El& x : W->els) if (x.kind == LEAF) { if (x.up) sim_fail("lifecycle", "%s is initialised after %s", x.name().c_str(), when); }
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after %s", sim_live_threads(), when);
}
void begin_cycle() { SimNP np; for (El& x : W->els) { x.inits = x.destroys = x.prepares = 0; x.init_fail = x.destroy_fail = 0; } L->rounds = L->begun = 0; L->bad_round = false; clear_faults(); }
std::vector<int> shown() { std::vector<int> v; for (int i : leaves()) if (!hid(el(i))) v.push_back(i); return v; }
InitFaults arm_init() {
    InitFaults f; std::vector<int> ls = shown();
    switch (sim_choose(6)) {
        case 4: if (!ls.empty()) { El& x = el(ls[sim_choose(ls.size())]); x.init_fail = 1 + sim_choose(2); f.bad = x.id; break; }
        case 5: f.mode = 1; sim_create_faults(2 + sim_choose(6)); break; }
    f.c0 = sim_fault_count(F_THREAD_CREATE); return f;
}
// a failed initialisation: reported, and nothing of it is left
bool judge_init(const InitFaults& f, const Out& o, const char* what) {
    bool failed = f.bad >= 0 || sim_fault_count(F_THREAD_CREATE) != f.c0;
    sim_create_faults(0);
    if (!failed) return false;
    if (!o.err()) sim_fail("error-lost", "%s returned %d although the initialisation failed", what, o.st.getCode());
    if (f.bad >= 0 && sim_fault_count(F_THREAD_CREATE) == f.c0 && o.info().find("init of " + el(f.bad).name()) == std::string::npos) sim_fail("foreign-error", "%s failed with '%s'", what, o.info().c_str());
    { SimNP np; L->up = false; }
    for (El& x : W->els) if (x.kind == LEAF && x.id != f.bad && x.inits != x.destroys) sim_fail("lifecycle", "%s was initialised %d times and destroyed %d times by a failed %s", x.name().c_str(), x.inits, x.destroys, what);
    if (L->begun) sim_fail("run-down", "a round was executed although the initialisation failed");
    all_down("a failed init()"); sim_probe(1);
    return true;
}
void arm_destroy() { std::vector<int> ls = shown(); if (ls.empty() || sim_choose(5) != 1) return; int n = 1 + sim_choose(2); while (n--) el(ls[sim_choose(ls.size())]).destroy_fail = 1 + sim_choose(2); }
void judge_destroy(const Out& o, const char* what, bool run_err) {
    std::vector<std::string> names; for (El& x : W->els) if (x.destroy_fail) names.push_back("destroy of " + x.name());
    if (!names.empty()) {
        if (!o.err()) sim_fail("error-lost", "%s returned %d although destroying an element failed", what, o.st.getCode());
        bool hit = run_err; for (auto& s : names) hit = hit || o.info().find(s) != std::string::npos;
        if (!hit) sim_fail("foreign-error", "%s failed with '%s'", what, o.info().c_str()); sim_probe(2);
    } else if (!run_err && o.err()) sim_fail("unexpected-error", "%s returned %d (%s)", what, o.st.getCode(), o.info().c_str());
    { SimNP np; L->up = false; }
    for (El& x : W->els) if (x.kind == LEAF && (x.inits != !hid(x) || x.destroys != !hid(x))) sim_fail("lifecycle", "%s was initialised %d times and destroyed %d times", x.name().c_str(), x.inits, x.destroys);
    all_down(what);
}
template <class F> void must_throw(F f, const char* what) { bool t = false; try { f(); } catch (const CException&) { t = true; } if (!t) sim_fail("error-lost", "%s was accepted in the wrong state", what); }
void wrong_up(GPipelinePtr p, GElementPtr spare) {
    El& x = el(W->roots[sim_choose(W->roots.size())]); GElementPtr e = x.ptr; bool shown = !x.hidden;      // an invisible element is not initialised
    switch (sim_choose(shown ? 27 : 18)) {
        case 0: must_err(p->init(), "a second init()"); break;
        case 1: must_err(p->process(1), "process() of an initialised pipeline"); break;
        case 2: must_throw([&] { p->asyncProcess(1); }, "asyncProcess() of an initialised pipeline"); break;
        case 3: must_throw([&] { p->setGEngineType(eng(sim_choose(3))); }, "setGEngineType()"); break;
        case 4: must_throw([&] { p->setUniqueThreadPoolConfig(UThreadPoolConfig()); }, "setUniqueThreadPoolConfig()"); break;
        case 5: must_throw([&] { p->setSharedThreadPool(nullptr); }, "setSharedThreadPool()"); break;
        case 6: must_err(p->makeSerial(), "makeSerial()"); break;
        case 7: must_err(p->registerGNode(&spare, {}, "spare", 1), "registerGNode()"); break;
        case 8: { std::ostringstream o; must_throw([&] { p->perf(o); }, "perf() of an initialised pipeline"); break; }
        case 9: must_throw([&] { p->createGNode<Spare>(GElementPtrSet(), "more", (CSize)1); }, "createGNode()"); break;
        case 10: must_throw([&] { p->createGNode<Spare>(GNodeInfo("more")); }, "createGNode(info)"); break;
        case 11: must_throw([&] { p->createGGroup<TCluster>({spare}, {}, "more", 1); }, "createGGroup()"); break;
        case 12: { GElementPtr q = nullptr; must_err(p->registerGElement<Spare>(&q, {}, "more", 1), "registerGElement()"); break; }
        case 13: must_throw([&] { p->trim(); }, "trim()"); break;
        case 14: must_throw([&] { p->getMaxPara(); }, "getMaxPara()"); break;
        case 15: must_throw([&] { p->addGDaemon<LDaemon, GDaemonDefaultParam>(1, nullptr); }, "addGDaemon()"); break;
        case 16: must_throw([&] { p->addGEvent<SpareEvent>("more"); }, "addGEvent()"); break;
        case 17: must_throw([&] { p->addGStage<GStage>("more", 2); }, "addGStage()"); break;
        case 18: must_throw([&] { e->setName("other"); }, "setName()"); break;
        case 19: must_throw([&] { e->setLoop(7); }, "setLoop()"); break;
        case 20: must_throw([&] { e->setVisible(false); }, "setVisible()"); break;
        case 21: must_throw([&] { e->setLevel(-9); }, "setLevel()"); break;
        case 22: must_throw([&] { e->setBindingIndex(0); }, "setBindingIndex()"); break;
        case 23: must_throw([&] { e->setTimeout(1); }, "setTimeout()"); break;
        case 24: must_throw([&] { e->setMacro(!x.macro); }, "setMacro()"); break;
        case 25: must_err(e->addDependGElements({spare}), "addDependGElements()"); break;
        default: if (x.deps.empty()) { (*e) * 5; (*e)--; break; } must_err(e->removeDepend(el(x.deps[0]).ptr), "removeDepend()"); break;
    }
    if (e->getName() != x.name() || e->getLoop() != (CSize)x.loop) sim_fail("state-changed", "%s is called %s and has %d loops after a refused call", x.name().c_str(), e->getName().c_str(), (int)e->getLoop());
    check_inits(true);
}
void wrong_down(GPipelinePtr p) {
    switch (sim_choose(6)) {
        case 0: must_err(p->run(), "run() of a pipeline that is not initialised"); break;
        case 1: must_err(p->destroy(), "destroy() of a pipeline that is not initialised"); break;
        case 2: must_err(p->cancel(), "cancel() of a pipeline that is not initialised"); break;
        case 3: must_err(p->suspend(), "suspend() of a pipeline that is not initialised"); break;
        case 4: must_err(p->resume(), "resume() of a pipeline that is not initialised"); break;
        default: must_throw([&] { p->asyncRun(); }, "asyncRun() of a pipeline that is not initialised"); break;
    }
    all_down("a rejected call");
}
}
SCENARIO(C30, ops) {
    Scope sc; sim_limit_ms(400000); sim_hang_class("hang"); Life life; L = &life;
    GPipelinePtr p = GPipelineFactory::create();
    Gen g; g.max_top = 4; g.max_kids = 3; g.max_depth = 2; g.groups = 4; g.max_block = 2; g.kinds = K_CR | K_CM | K_MU; g.hidden = sim_choose(3) == 1; gen_kids(g, -1, 0);
    if (sim_choose(2)) for (El& x : W->els) if (sim_choose(3) == 1) x.level = (int)sim_choose(5) - 2;
    build(p);
    GElementPtr spare = p->createGNode<Spare>(GElementPtrSet(), "spare", (CSize)1);
    must_ok(p->createGParam<LParam>("life"), "createGParam()");
    int daemons = sim_choose(3) == 1 ? 1 + sim_choose(2) : 0; for (int i = 0; i < daemons; i++) p->addGDaemon<LDaemon, GDaemonDefaultParam>(1 + sim_choose(20), nullptr);
    p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(4));
    bool up = false; int n = 2 + sim_choose(8);
    for (int i = 0; i < n; i++) {
        if (!up) switch (sim_choose(6)) {
            case 0: case 1: {
                begin_cycle(); InitFaults f = arm_init(); { SimNP np; L->up = true; }
                Out o = call([&] { return p->init(); });
                if (judge_init(f, o, "init()")) { if (sim_choose(2)) sim_sleep_us(30000); break; }
                if (o.err()) sim_fail("unexpected-error", "init() returned %d (%s)", o.st.getCode(), o.info().c_str());
                check_inits(true); check_levels(); up = true; break; }
            case 2: case 3: {
                begin_cycle(); InitFaults f = arm_init(); arm_destroy(); int times = sim_choose(4); bool async = sim_choose(2);
                { SimNP np; L->up = L->active = true; }
                Out o = call([&] { if (!async) return p->process(times); auto fu = p->asyncProcess(times); return fu.get(); });
                { SimNP np; L->active = false; }
                if (judge_init(f, o, "process()")) break;
                if (L->rounds != L->begun) sim_fail("round-open", "%d of %d rounds ended", L->rounds, L->begun);
                if (!L->bad_round && L->rounds != times) sim_fail("rounds", "process(%d) executed %d rounds", times, L->rounds);
                if (L->rounds > times) sim_fail("rounds", "process(%d) executed %d rounds", times, L->rounds);
                if (L->bad_round && (!o.err() || o.info().find(L->last.getInfo()) == std::string::npos)) sim_fail("error-lost", "process() returned %d (%s), its last round ended with %d (%s)", o.st.getCode(), o.info().c_str(), L->last.getCode(), L->last.getInfo().c_str());
                judge_destroy(o, "process()", L->bad_round); break; }
            case 4: p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(4)); break;
            default: wrong_down(p); if (daemons && sim_choose(2)) sim_sleep_us(30000); break;
        } else switch (sim_choose(6)) {
            case 0: case 1: {
                bool async = sim_choose(3) == 1; int r0 = L->rounds; { SimNP np; L->active = true; L->bad_round = false; }
                Out o = call([&] { if (!async) return p->run(); auto fu = p->asyncRun(); return fu.get(); });
                { SimNP np; L->active = false; }
                if (L->rounds != r0 + 1 || L->begun != L->rounds) sim_fail("rounds", "run() executed %d rounds", L->rounds - r0);
                if (o.thrown || o.st.getCode() != L->last.getCode() || o.info().find(L->last.getInfo()) == std::string::npos) sim_fail("foreign-error", "run() returned %d (%s), the round ended with %d (%s)", o.st.getCode(), o.info().c_str(), L->last.getCode(), L->last.getInfo().c_str());
                break; }
            case 2: case 3: {
                arm_destroy(); Out o = call([&] { return p->destroy(); }); judge_destroy(o, "destroy()", false); up = false; break; }
            case 4: wrong_up(p, spare); break;
            default: if (daemons) { uint64_t t0 = life.ticks; sim_sleep_us(200000); SimNP np; if (sim_delay_ns() == 0 && life.ticks == t0) sim_fail("daemon-dead", "no daemon activity in 200 ms"); } break;
        }
    }
    if (up && sim_choose(2)) { Out o = call([&] { return p->destroy(); }); judge_destroy(o, "destroy()", false); up = false; }
    GPipelineFactory::remove(p);
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pipeline was removed", sim_live_threads());
}
