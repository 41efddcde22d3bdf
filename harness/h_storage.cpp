// Saving and loading pipelines (C31): round trip, disk faults, damaged files.
#include "graph.h"
#include <thread>
#include <memory>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
using namespace H;
namespace {
struct Feat { std::vector<int> asps, eps; int par = -1, ev = -1, stage = -1; };
struct Store {
    std::map<int, Feat> feat; std::vector<std::pair<int, bool>> pars; std::vector<int> evs; std::vector<std::pair<int, int>> stages; int dae[2] = {0, 0};
    // observations of one session
    std::map<int, std::vector<int>> seqs; int ev_got[2], ev_want[2], launches[2], ticks[2]; bool up = false;
    void clear() { seqs.clear(); for (int i = 0; i < 2; i++) ev_got[i] = ev_want[i] = launches[i] = ticks[i] = 0; }
};
Store* S;
int parse(const std::string& n) { size_t a = n.find('#'); return a == std::string::npos ? -1 : atoi(n.c_str() + a + 1); }
template <int I> struct SPar : public GParam { int touched = 0; CVoid reset(const CStatus&) override { touched = 0; } };
template <int I> struct SEp : public GElementParam { int v = 7; CVoid clone(GPassedParam* p) override { v = static_cast<SEp*>(p)->v; } };
template <int I> class SAsp : public GAspect { public: CStatus beginRun() override { SimNP np; S->seqs[parse(getName())].push_back(I); return CStatus(); } };
template <int I> class SEv : public GEvent { protected: CVoid trigger(GEventParamPtr) override { SimNP np; S->ev_got[I]++; } };
template <int I> class SDae : public GDaemon { protected: CVoid daemonTask(GDaemonParamPtr) override { SimNP np; if (!S->up) sim_fail("daemon-late", "a daemon is active outside init() and destroy()"); S->ticks[I]++; } };
template <int I> class SSta : public GStage { protected: CVoid launch(GStageParamPtr) override { SimNP np; S->launches[I]++; } };
class SNode : public TNode { public:
    SNode() : TNode(-1) {}
    explicit SNode(int i) : TNode(i) {}
    CStatus init() override {
        { SimNP np; id = parse(getName()); if (id < 0 || id >= (int)W->els.size() || el(id).kind != LEAF) sim_fail("storage-name", "an element called '%s' was initialised", getName().c_str());
          El& x = el(id); bool own = x.parent >= 0 && el(x.parent).kind == MUT;    // the loop count of a mutable group's child belongs to reshape()
          if ((!own && (int)getLoop() != x.loop) || getBindingIndex() != x.binding) sim_fail("storage-field", "%s: loop %zu/%d binding %d/%d", x.name().c_str(), (size_t)getLoop(), x.loop, (int)getBindingIndex(), x.binding);
          Feat& f = S->feat[id]; for (int k : f.eps) if (k ? !getEParam<SEp<1>>("k1") : !getEParam<SEp<0>>("k0")) sim_fail("storage-param", "%s lost its element parameter %d", x.name().c_str(), k); }
        return TNode::init(); }
    CBool isMatch() override { { SimNP np; id = parse(getName()); } return TNode::isMatch(); }
    CStatus run() override {
        Feat& f = S->feat[id]; sim_log("run %d: parameter %d event %d stage %d", id, f.par, f.ev, f.stage);
        if (f.par >= 0) {
            std::string k = "p" + std::to_string(f.par); int t = S->pars[f.par].first; GParam* q; if (t) { auto* a = getGParam<SPar<1>>(k); q = a; } else { auto* a = getGParam<SPar<0>>(k); q = a; }
            if (!q) sim_fail("storage-param", "%s does not find parameter %s", el(id).name().c_str(), k.c_str());
            bool bt = true; std::vector<std::string> tr; try { tr = q->getBacktrace(); } catch (const CException&) { bt = false; }
            if (bt != S->pars[f.par].second) sim_fail("storage-param", "parameter %s has its backtrace %s", k.c_str(), bt ? "on" : "off");
            if (bt && std::find(tr.begin(), tr.end(), el(id).name()) == tr.end()) sim_fail("storage-param", "the backtrace of %s lacks %s", k.c_str(), el(id).name().c_str());
        }
        if (f.ev >= 0) { { SimNP np; S->ev_want[S->evs[f.ev]]++; } CStatus st = __notify_4py("e" + std::to_string(f.ev), GEventType::SYNC, GEventAsyncStrategy::NO_WAIT); if (!st.isOK()) sim_fail("storage-event", "event e%d: %s", f.ev, st.getInfo().c_str()); }
        if (f.stage >= 0) { CStatus st = __enterStage_4py("s" + std::to_string(f.stage)); if (!st.isOK()) sim_fail("storage-stage", "stage s%d: %s", f.stage, st.getInfo().c_str()); }
        return TNode::run(); }
};
template <class B, int K> class SG : public B {
    void fix() { SimNP np; int i = parse(this->getName()); if (i < 0 || i >= (int)W->els.size() || el(i).kind != K) sim_fail("storage-name", "a %s called '%s' runs", kind_names[K], this->getName().c_str()); this->id = i; if ((el(i).parent < 0 || el(el(i).parent).kind != MUT) && (int)this->getLoop() != el(i).loop) sim_fail("storage-field", "%s: loop %zu instead of %d", el(i).name().c_str(), (size_t)this->getLoop(), el(i).loop); }
    CBool isMatch() override { fix(); return B::isMatch(); }
    CStatus prepareRun() override { fix(); return CStatus(); }
};
using SCluster = SG<TCluster, CLUSTER>; using SRegion = SG<TRegion, REGION>; using SCond = SG<TCond, COND>; using SMultiS = SG<TMultiS, MULTI_S>; using SMultiP = SG<TMultiP, MULTI_P>; using SMut = SG<TMut, MUT>; using SSome = SG<TSome, SOME>;
class Plain : public GNode { public: CStatus run() override { return CStatus(); } };
void registry() {
    static bool done = false; if (done) return; done = true;
    CGRAPH_REGISTER_META_TYPE(SNode); CGRAPH_REGISTER_META_TYPE(SCluster); CGRAPH_REGISTER_META_TYPE(SRegion); CGRAPH_REGISTER_META_TYPE(SCond); CGRAPH_REGISTER_META_TYPE(SMultiS); CGRAPH_REGISTER_META_TYPE(SMultiP); CGRAPH_REGISTER_META_TYPE(SMut);
    CGRAPH_REGISTER_META_TYPE(SPar<0>); CGRAPH_REGISTER_META_TYPE(SPar<1>); CGRAPH_REGISTER_META_TYPE(SEp<0>); CGRAPH_REGISTER_META_TYPE(SEp<1>);
    CGRAPH_REGISTER_META_TYPE(SAsp<0>); CGRAPH_REGISTER_META_TYPE(SAsp<1>); CGRAPH_REGISTER_META_TYPE(SEv<0>); CGRAPH_REGISTER_META_TYPE(SEv<1>);
    CGRAPH_REGISTER_META_TYPE(SDae<0>); CGRAPH_REGISTER_META_TYPE(SDae<1>); CGRAPH_REGISTER_META_TYPE(SSta<0>); CGRAPH_REGISTER_META_TYPE(SSta<1>);
}
GElementPtr sbuild(GPipelinePtr p, El& x) {
    GElementPtrSet deps; for (int d : x.deps) deps.insert(el(d).ptr);
    const GElementPtrSet d = x.parent < 0 ? GElementPtrSet() : deps;
    GElementPtrArr ks; for (int k : x.kids) ks.push_back(sbuild(p, el(k)));
    switch (x.kind) {
        case LEAF: x.ptr = p->createGNode<SNode>(d, x.name(), (CSize)x.loop, x.id); if (x.binding != -1) x.ptr->setBindingIndex(x.binding); if (x.macro) x.ptr->setMacro(true); if (x.timeout) x.ptr->setTimeout(x.timeout, x.strat); break;
        case CLUSTER: x.ptr = mk_group<SCluster>(p, x, ks, d); break;
        case REGION: x.ptr = mk_group<SRegion>(p, x, ks, d); static_cast<SRegion*>(x.ptr)->setGEngineType((GEngineType)x.engine); break;
        case COND: x.ptr = mk_group<SCond>(p, x, ks, d); break;
        case MULTI_S: x.ptr = mk_group<SMultiS>(p, x, ks, d); break;
        case MULTI_P: x.ptr = mk_group<SMultiP>(p, x, ks, d); break;
        default: x.ptr = mk_group<SMut>(p, x, ks, d); break;
    }
    if (x.hidden) x.ptr->setVisible(false);
    if (x.level) x.ptr->setLevel(x.level);
    if (x.parent < 0) must_ok(x.kind == LEAF ? p->registerGNode(&x.ptr, deps, x.name(), x.loop) : p->registerGGroup(&x.ptr, deps, x.name(), x.loop), "register");
    Feat& f = S->feat[x.id];
    for (int a : f.asps) { if (a) x.ptr->addGAspect<SAsp<1>>(); else x.ptr->addGAspect<SAsp<0>>(); }
    for (int k : f.eps) { if (k) { SEp<1> e; x.ptr->addEParam("k1", &e); } else { SEp<0> e; x.ptr->addEParam("k0", &e); } }
    return x.ptr;
}
GPipelinePtr make(int threads, bool pair) {
    GPipelinePtr p = GPipelineFactory::create();
    for (int r : W->roots) sbuild(p, el(r));
    for (size_t i = 0; i < S->pars.size(); i++) { std::string k = "p" + std::to_string(i); must_ok(S->pars[i].first ? p->createGParam<SPar<1>>(k, S->pars[i].second) : p->createGParam<SPar<0>>(k, S->pars[i].second), "createGParam()"); }
    for (size_t i = 0; i < S->evs.size(); i++) { std::string k = "e" + std::to_string(i); if (S->evs[i]) p->addGEvent<SEv<1>>(k); else p->addGEvent<SEv<0>>(k); }
    for (size_t i = 0; i < S->stages.size(); i++) { std::string k = "s" + std::to_string(i); if (S->stages[i].first) p->addGStage<SSta<1>>(k, S->stages[i].second); else p->addGStage<SSta<0>>(k, S->stages[i].second); }
    if (S->dae[0]) p->addGDaemon<SDae<0>, GDaemonDefaultParam>(S->dae[0], nullptr);
    if (S->dae[1]) p->addGDaemon<SDae<1>, GDaemonDefaultParam>(S->dae[1], nullptr);
    p->setGEngineType(eng(pair ? 0 : sim_choose(3))); { UThreadPoolConfig c = rnd_config(threads); if (pair) c.batch_task_enable_ = false; p->setUniqueThreadPoolConfig(c); }    // tasks of one batch run one after the other
    return p;
}
void features(bool pair) {
    for (int i = 0, n = sim_choose(3); i < n; i++) S->pars.push_back({(int)sim_choose(2), sim_choose(2) == 1});
    for (int i = 0, n = sim_choose(3); i < n; i++) S->evs.push_back(sim_choose(2));
    if (sim_choose(3) == 1) S->stages.push_back({0, 1});
    for (int i = 0; i < 2; i++) if (sim_choose(4) == 1) S->dae[i] = 2 + sim_choose(15);
    for (El& x : W->els) {
        Feat& f = S->feat[x.id];
        for (int i = 0, n = sim_choose(4) == 1 ? 1 + sim_choose(3) : 0; i < n; i++) f.asps.push_back(sim_choose(2));
        if (x.kind != LEAF) continue;
        for (int k = 0; k < 2; k++) if (sim_choose(4) == 1) f.eps.push_back(k);
        if (!S->pars.empty() && sim_choose(2)) f.par = sim_choose(S->pars.size());
        if (!S->evs.empty() && sim_choose(3) == 1) f.ev = sim_choose(S->evs.size());
        if (!S->stages.empty() && sim_choose(3) == 1) f.stage = 0;
    }
    if (pair) { int a = W->add(LEAF, -1).id, b = W->add(LEAF, -1).id; S->stages.push_back({1, 2}); S->feat[a].stage = S->feat[b].stage = (int)S->stages.size() - 1; el(a).macro = el(b).macro = false; }
}
// one session of a pipeline: init, runs, destroy. Returns the number of threads after init() (-1: not comparable)
int session(GPipelinePtr p, const char* who, bool pair) {
    { SimNP np; S->clear(); S->up = true; for (El& x : W->els) x.inits = x.destroys = x.prepares = 0; }
    uint64_t d0 = sim_delay_ns();
    CStatus st = p->init(); if (!st.isOK()) sim_fail("storage-init", "init() of the %s pipeline returned %d (%s)", who, st.getCode(), st.getInfo().c_str());
    int threads = sim_delay_ns() == d0 ? sim_live_threads() : -1;
    check_inits(true); check_levels();
    for (int i = 0; i < 2; i++) if (S->dae[i] && sim_choose(2)) {
        int t0 = S->ticks[i]; uint64_t q0 = sim_now_ns(), dd = sim_delay_ns(); sim_sleep_us(S->dae[i] * 20000); SimNP np; int got = S->ticks[i] - t0; uint64_t el_ms = (sim_now_ns() - q0) / 1000000;
        if (got > (int)(el_ms / S->dae[i]) + 1 || (sim_delay_ns() == dd && got < 10)) sim_fail("storage-daemon", "a daemon of the %s pipeline with interval %d was active %d times in %llu ms", who, S->dae[i], got, (unsigned long long)el_ms);
    }
    int runs = 1 + sim_choose(2);
    for (int r = 0; r < runs; r++) {
        { SimNP np; S->seqs.clear(); for (int i = 0; i < 2; i++) S->launches[i] = 0; }
        must_ok(timed_run(p), who); Oracle(false).check_all();
        SimNP np; size_t s0 = 0;
        for (El& x : W->els) {
            Feat& f = S->feat[x.id]; std::vector<int>& q = S->seqs[x.id];
            if (f.asps.empty() ? !q.empty() : q.size() % f.asps.size() != 0) sim_fail("storage-aspect", "%s has %zu aspects, %zu calls", x.name().c_str(), f.asps.size(), q.size());
            for (size_t i = 0; i < q.size(); i++) if (q[i] != f.asps[i % f.asps.size()]) sim_fail("storage-aspect", "the aspects of %s are out of order", x.name().c_str());
            if (x.kind == LEAF && q.size() * (1 + x.hold) != x.ex.size() * f.asps.size()) sim_fail("storage-aspect", "%s: %zu executions, %zu aspect calls", x.name().c_str(), x.ex.size(), q.size());
            if (x.kind == LEAF && f.stage >= 0 && S->stages[f.stage].second == 1) s0 += x.ex.size();
        }
        if (S->launches[0] != (int)s0 || (pair && S->launches[1] != 1)) sim_fail("storage-stage", "stages launched %d and %d times", S->launches[0], S->launches[1]);
        for (int i = 0; i < 2; i++) if (S->ev_got[i] != S->ev_want[i]) sim_fail("storage-event", "%d events triggered, %d handled", S->ev_want[i], S->ev_got[i]);
    }
    must_ok(p->destroy(), "destroy()"); { SimNP np; S->up = false; }
    check_inits(false); if (sim_live_threads()) sim_fail("thread-leak", "%d threads left", sim_live_threads());
    auto keys = std::set<std::string>(); for (auto& k : p->getGParamKeys()) keys.insert(k);
    if (keys.size() != S->pars.size()) sim_fail("storage-param", "the %s pipeline has %zu parameters instead of %zu", who, keys.size(), S->pars.size());
    return threads;
}
struct Dir { std::string d; std::vector<std::string> fs;
    Dir() { const char* base = getenv("DST_SCRATCH"); char b[512]; snprintf(b, sizeof b, "%s/c31_XXXXXX", base ? base : "/tmp"); if (!mkdtemp(b)) sim_fail("harness", "no scratch directory"); d = b; sim_disk_enable(b); }
    std::string file(const char* n) { std::string f = d + "/" + n; fs.push_back(f); return f; }
    ~Dir() { sim_disk_clear(); for (auto& f : fs) unlink(f.c_str()); rmdir(d.c_str()); } };
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), s.size()); }
Gen sgen() { Gen g; g.max_top = 5; g.max_kids = 3; g.max_depth = 3; g.kinds = K_CR | K_CM | K_MU; g.hidden = true; return g; }
void levels() { for (El& x : W->els) if (sim_choose(4) == 1) x.level = (int)sim_choose(5) - 2; for (El& x : W->els) { static const int b[] = {0, 1, 5, 100, -2}; if (x.kind == LEAF && sim_choose(4) == 1) x.binding = b[sim_choose(5)]; } }
}
SCENARIO(C31, roundtrip) {
    Scope sc; registry(); sim_limit_ms(600000); sim_hang_class("hang"); Dir dir; Store store; S = &store; store.clear();
    Gen g = sgen(); gen_kids(g, -1, 0); levels(); bool pair = sim_choose(3) == 1; features(pair);
    GPipelinePtr p = make(6, pair);
    int t1 = -1; bool before = sim_choose(2); if (before) { t1 = session(p, "original", pair); if (sim_choose(3) == 1) { { SimNP np; S->up = true; } must_ok(p->init(), "init()"); must_err(p->save(dir.file("x")), "save() of an initialised pipeline"); must_ok(p->destroy(), "destroy()"); { SimNP np; S->up = false; } for (El& x : W->els) x.inits = x.destroys = 0; } }
    std::string f1 = dir.file("a");
    if (sim_faults_on() && sim_choose(3) == 1) sim_disk_fault(sim_choose(2) ? F_DISK_SHORT_WRITE : F_DISK_READ_ERR, sim_choose(64) << 2 | 1);
    CStatus st = p->save(f1); if (!st.isOK()) sim_fail("save", "save() returned %d (%s)", st.getCode(), st.getInfo().c_str());
    if (!before) t1 = session(p, "original", pair);
    GPipelineFactory::remove(p);
    int gens = 1 + (sim_choose(3) == 1); int t2 = -1;
    for (int i = 0; i < gens; i++) {
        p = GPipelineFactory::create(); st = p->load(f1);
        if (!st.isOK()) sim_fail("load", "load() returned %d (%s)", st.getCode(), st.getInfo().c_str());
        if (i + 1 < gens) { if (sim_choose(2)) session(p, "loaded", pair); f1 = dir.file("b"); must_ok(p->save(f1), "save() of a loaded pipeline"); }
        else { t2 = session(p, "loaded", pair); if (sim_choose(3) == 1) session(p, "loaded", pair); }
        GPipelineFactory::remove(p);
    }
    if (t1 >= 0 && t2 >= 0 && t1 != t2) sim_fail("storage-config", "%d threads after init() of the original, %d of the loaded pipeline", t1, t2);
}
SCENARIO(C31, timed) {
    Scope sc; registry(); sim_limit_ms(600000); sim_hang_class("hang"); Dir dir; Store store; S = &store; store.clear();
    static const GElementTimeoutStrategy ss[] = {GElementTimeoutStrategy::AS_ERROR, GElementTimeoutStrategy::HOLD_BY_PIPELINE, GElementTimeoutStrategy::NO_HOLD};
    int k = sim_choose(3); { El& x = W->add(LEAF, -1); x.timeout = 20 + sim_choose(100); x.strat = ss[k]; x.may_outlive = k != 1; x.work_us = 2000000; }
    GPipelinePtr p = make(4, true); std::string f = dir.file("a"); must_ok(p->save(f), "save()"); GPipelineFactory::remove(p);
    p = GPipelineFactory::create(); must_ok(p->load(f), "load()"); must_ok(p->init(), "init()");
    uint64_t d0 = sim_delay_ns(); CStatus st = timed_run(p); uint64_t took = W->ret_t - W->run_t0; bool quick = took < 1500000000ull;
    if (sim_delay_ns() - d0 < 200000000ull) {
        if (st.isErr() != (k == 0)) sim_fail("storage-timeout", "a timed-out element with strategy %d: run() returned %d", k, st.getCode());
        if (k == 1 ? quick : !quick) sim_fail("storage-timeout", "a timed-out element with strategy %d: run() took %llu ms", k, (unsigned long long)(took / 1000000));
        if (took < (uint64_t)el(0).timeout * 1000000) sim_fail("storage-timeout", "the element timed out after %llu ms instead of %d", (unsigned long long)(took / 1000000), el(0).timeout);
        if (k != 1 && took > (uint64_t)el(0).timeout * 1000000 + 300000000ull) sim_fail("storage-timeout", "the element timed out after %llu ms instead of %d", (unsigned long long)(took / 1000000), el(0).timeout);
        sim_count(F_TIMEOUT);
    }
    (void)p->destroy(); GPipelineFactory::remove(p);
}
// an element that cannot be stored (an adapter) makes save() fail without touching the file; the pipeline stays usable
SCENARIO(C31, adapter) {
    Scope sc; registry(); sim_limit_ms(600000); sim_hang_class("hang"); Dir dir; Store store; S = &store; store.clear();
    Gen g = sgen(); g.max_top = 3; gen_kids(g, -1, 0); features(false);
    GPipelinePtr p = make(4, false); std::string f = dir.file("a"), old; int kept = sim_choose(2);
    if (kept) { must_ok(p->save(f), "save()"); old = slurp(f); }
    GElementPtr a = nullptr; GElementPtrSet none; int kind = sim_choose(4); std::string n = "adapter";
    CStatus st;
    switch (kind) {
        case 0: { GFunctionPtr q = nullptr; st = p->registerGElement<GFunction>(&q, none, n); if (q) q->setFunction(CFunctionType::RUN, [] { return CStatus(); }); a = q; break; }
        case 1: st = p->registerGElement<GCoordinator<2>>(&a, none, n); break;
        case 2: { GFencePtr q = nullptr; st = p->registerGElement<GFence>(&q, none, n); a = q; break; }
        default: st = p->registerGElement<GSingleton<Plain>>(&a, none, n);
    }
    must_ok(st, "register");
    st = p->save(f); if (!st.isErr()) sim_fail("save", "save() of a pipeline with an adapter of kind %d succeeded", kind);
    std::ifstream i(f); if (kept ? slurp(f) != old : i.good()) sim_fail("storage-damaged", "a refused save() changed the file");
    { SimNP np; S->up = true; } must_ok(p->init(), "init()"); must_ok(timed_run(p), "run()"); Oracle(false).check_all(); must_ok(p->destroy(), "destroy()"); { SimNP np; S->up = false; }
    GPipelineFactory::remove(p);
}
// faults of the disk while saving and loading; damaged files
SCENARIO_F(C31, damage, SF_NOPLAIN) {
    Scope sc; registry(); sim_limit_ms(600000); sim_hang_class("hang"); Dir dir; Store store; S = &store; store.clear();
    Gen g = sgen(); g.max_top = 3; gen_kids(g, -1, 0); levels(); bool pair = sim_choose(4) == 1; features(pair);
    GPipelinePtr p = make(6, pair); std::string f = dir.file("a"); must_ok(p->save(f), "save()"); std::string good = slurp(f); size_t n = good.size();
    int rounds = 1 + sim_choose(6);
    for (int i = 0; i < rounds; i++) {
        std::string h = dir.file("h"); spit(h, ""); unlink(h.c_str());
        switch (sim_choose(8)) {
            case 0: {       // saving fails
                int c0 = sim_disk_fired(); SimFault k = sim_choose(3) == 0 ? F_DISK_OPEN : F_DISK_WRITE_ERR; sim_disk_fault(k, k == F_DISK_OPEN ? 28 : (uint64_t)sim_choose(n + 1) << 8 | sim_choose(2));
                CStatus st = p->save(h); bool fired = sim_disk_fired() != c0; sim_disk_clear();
                if (fired && !st.isErr()) sim_fail("save-lost", "save() returned %d although the disk failed", st.getCode());
                if (!fired) { if (!st.isOK()) sim_fail("save", "save() returned %d (%s)", st.getCode(), st.getInfo().c_str()); if (slurp(h) != good) sim_fail("save", "the file differs"); }
                if (fired) { GPipelinePtr q = GPipelineFactory::create(); CStatus s2 = q->load(h); if (!s2.isErr()) sim_fail("load-damaged", "a partly written file was loaded"); GPipelineFactory::remove(q); must_ok(p->save(h), "save() after a failed save()"); if (slurp(h) != good) sim_fail("save", "the file differs after a failed save()"); }
                break; }
            case 1: {       // loading fails
                int c0 = sim_disk_fired(); int k = sim_choose(4); if (k == 3) sim_disk_fault(F_DISK_OPEN, 0); else sim_disk_fault(F_DISK_READ_ERR, k == 1 ? 2 : k == 2 ? 1 | sim_choose(64) << 2 : 0);
                GPipelinePtr q = GPipelineFactory::create(); CStatus st = q->load(f); bool fired = sim_disk_fired() != c0; sim_disk_clear();
                bool harmless = k == 2;     // short reads only
                if (fired && !harmless && !st.isErr()) sim_fail("load-lost", "load() returned %d although the disk failed (%d)", st.getCode(), k);
                if ((!fired || harmless) && !st.isOK()) sim_fail("load", "load() returned %d (%s)", st.getCode(), st.getInfo().c_str());
                if (st.isOK() && sim_choose(2)) session(q, "loaded", pair);
                GPipelineFactory::remove(q); break; }
            case 2: {       // the file ends early (crash while it was written)
                size_t m = sim_choose(2) ? sim_choose(n) : n - 1 - sim_choose(std::min<size_t>(n, 40)); spit(h, good.substr(0, m)); sim_count(F_DISK_TORN);
                GPipelinePtr q = GPipelineFactory::create(); CStatus st = q->load(h);
                if (!st.isErr()) sim_fail("load-damaged", "%zu of %zu bytes were accepted", m, n);
                GPipelineFactory::remove(q); break; }
            case 3: {       // lost sectors: zeros
                std::string b = good; size_t a = sim_choose(n), e = std::min(n, a + 1 + sim_choose(64)); for (size_t j = a; j < e; j++) b[j] = 0; spit(h, b); sim_count(F_DISK_TORN);
                GPipelinePtr q = GPipelineFactory::create(); (void)q->load(h); GPipelineFactory::remove(q); break; }
            case 4: case 5: {       // damaged bytes: an error or a different pipeline, never a crash
                std::string b = good; int m = 1 + sim_choose(3); for (int j = 0; j < m; j++) { size_t a = sim_choose(n); if (sim_choose(2)) b[a] ^= 1 << sim_choose(8); else b[a] = (char)sim_choose(256); } spit(h, b); sim_count(F_DISK_FLIP);
                GPipelinePtr q = GPipelineFactory::create(); (void)q->load(h); GPipelineFactory::remove(q); break; }
            case 6: { GPipelinePtr q = GPipelineFactory::create(); CStatus st = q->load(h); if (!st.isErr()) sim_fail("load-lost", "a missing file was loaded"); st = q->load(dir.d); if (!st.isErr()) sim_fail("load-lost", "a directory was loaded"); GPipelineFactory::remove(q); break; }
            default: {      // memory runs out
                sim_alloc_faults(2); CStatus st = sim_choose(2) ? p->save(h) : CStatus(); bool saved = slurp(h).size() == n;
                GPipelinePtr q = nullptr; CStatus s2; if (st.isOK()) { sim_alloc_faults(0); q = GPipelineFactory::create(); sim_alloc_faults(2); s2 = q->load(f); } sim_alloc_faults(0);
                (void)saved; if (q) { if (s2.isOK() && sim_choose(2)) session(q, "loaded", pair); GPipelineFactory::remove(q); }
                break; }
        }
    }
    session(p, "original", pair);
    GPipelineFactory::remove(p);
}
