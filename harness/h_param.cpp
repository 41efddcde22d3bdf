#include "graph.h"
using namespace H;

namespace {
struct PState { int setups = 0, resets = 0; bool is_up = false; int code = 0; uint64_t reset_seq = 0; };
struct PWorld { PState st[4]; int n = 0; bool strict = true; };
PWorld* P;
static bool anything_running() { for (El& x : W->els) if (x.running) return true; return false; }
static bool anything_started() { for (El& x : W->els) if (!x.ex.empty()) return true; return false; }
class RunParam : public GParam {
public:
    int idx = -1;
    int slot[64] = {0};
    CStatus setup() override {
        SimNP np;
        if (idx < 0) return CStatus();
        PState& s = P->st[idx];
        s.setups++;
        if (anything_started()) sim_fail("param-setup", "parameter k%d set up after an element had started", idx);
        if (s.is_up) sim_fail("param-setup", "parameter k%d set up twice without a reset", idx);
        s.is_up = true;
        for (int& v : slot) v = 0;
        return CStatus();
    }
    CVoid reset(const CStatus& cs) override {
        SimNP np;
        if (idx < 0) return;
        PState& s = P->st[idx];
        s.resets++;
        if (anything_running()) sim_fail("param-reset", "parameter k%d reset while an element is executing", idx);
        if (!s.is_up) sim_fail("param-reset", "parameter k%d reset without having been set up", idx);
        s.is_up = false; s.code = cs.getCode(); s.reset_seq = sim_seq();
        for (int& v : slot) v = -1;
    }
};
class PNode : public TNode {
public:
    explicit PNode(int i) : TNode(i) {}
};
struct ParamHooks {
    PWorld pw; GPipelinePtr pipe = nullptr;
    ParamHooks() { P = &pw; }
    void install(Opt& o, bool values) {
        o.on_build = [this, values](GPipelinePtr p) {
            pw.n = 1 + sim_choose(3); pipe = p;
            for (int i = 0; i < pw.n; i++) {
                std::string k = "k" + std::to_string(i);
                must_ok(p->createGParam<RunParam>(k, sim_choose(2)), "createGParam()");
                p->getGParam<RunParam>(k)->idx = i;
            }
            for (El& x : W->els) if (x.kind == LEAF) x.body = [values](El& x, size_t k) -> CStatus {
                auto* n = static_cast<TNode*>(x.ptr);
                auto* q = n->param(std::string("k") + std::to_string(x.id % P->n));
                auto* q0 = n->param("k0");
                SimNP np;
                if (!q || !q0) sim_fail("param-lost", "%s finds no parameter", x.name().c_str());
                if (!P->st[0].is_up || !P->st[x.id % P->n].is_up) sim_fail("param-setup", "%s runs while its parameter is not set up", x.name().c_str());
                RunParam* r0 = static_cast<RunParam*>(q0);
                if (values) for (int d : x.deps) if (el(d).kind == LEAF && !el(d).ex.empty() && (int)el(d).id < 64) {
                    int want = (int)el(d).ex.size();
                    if (r0->slot[d] != want) sim_fail("param-value", "%s sees value %d written by %s, expected %d", x.name().c_str(), r0->slot[d], el(d).name().c_str(), want);
                }
                if (x.id < 64) r0->slot[x.id] = (int)k + 1;
                return CStatus();
            };
        };
        o.before_run = [this](GPipelinePtr) { for (auto& s : pw.st) { s.setups = s.resets = 0; } };
        o.after_run = [this](GPipelinePtr, const CStatus& st) {
            for (int i = 0; i < pw.n; i++) {
                PState& s = pw.st[i];
                if (s.setups != 1) sim_fail("param-setup", "parameter k%d set up %d times in one run", i, s.setups);
                if (s.resets != 1) sim_fail("param-reset", "parameter k%d reset %d times in one run", i, s.resets);
                if (s.code != st.getCode()) sim_fail("param-status", "parameter k%d was reset with status %d but the run returned %d", i, s.code, st.getCode());
            }
        };
    }
};
}
SCENARIO(C14, clean) { Opt o; ParamHooks h; h.install(o, true); o.g.groups = 0; o.g.max_top = 6; o.max_runs = 4; graph_common(o); }
SCENARIO(C14, nested) { Opt o; ParamHooks h; h.install(o, true); o.g.max_top = 4; o.min_threads = 4; o.max_runs = 2; graph_common(o); }
SCENARIO(C14, failing) { Opt o; ParamHooks h; h.install(o, false); o.g.groups = 0; o.g.max_top = 6; o.max_runs = 3; o.modes = 3 | 8 | 16; graph_common(o); }
SCENARIO(C14, nested_failing) { Opt o; ParamHooks h; h.install(o, false); o.g.max_top = 4; o.min_threads = 4; o.max_runs = 2; o.modes = 3 | 8; graph_common(o); }

// elements with a timeout that the pipeline has to hold, and asynchronous events: both are part of the run
namespace {
int busy_events; bool want_events;
struct PEvent : public GEvent { CVoid trigger(GEventParamPtr) override {
    { SimNP np; busy_events++; if (!P->st[0].is_up) sim_fail("param-setup", "an event of the run is handled while the parameter is not set up"); }
    if (!getGParam<RunParam>("k0")) sim_fail("param-lost", "an event finds no parameter");
    if (sim_choose(2)) sim_sleep_us(1u << sim_choose(20)); else sim_point();
    SimNP np; busy_events--; W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); } };
class PTimed : public TNode { public: explicit PTimed(int i) : TNode(i) {}
    CStatus fire() { return __notify_4py("ev", GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH); } };
void timed_params() {
    Scope sc; sim_limit_ms(4000000); ParamHooks h; Opt o; h.install(o, false);
    GPipelinePtr p = GPipelineFactory::create(); int n = 1 + sim_choose(6), timed = 0; busy_events = 0; want_events = sim_choose(2);
    for (int i = 0; i < n; i++) { El& x = W->add(LEAF, -1); x.work_us = sim_choose(3) ? 1u << sim_choose(20) : 0; if (sim_choose(2)) { static const int T[] = {20, 1, 5, 100, 400}; x.timeout = T[sim_choose(5)]; timed++; } }
    gen_edges(W->roots);
    for (int i = 0; i < n; i++) { El& x = el(i); GElementPtrSet deps; for (int d : x.deps) deps.insert(el(d).ptr); x.ptr = reg<PTimed>(p, deps, x.name(), 1, i); if (x.timeout) x.ptr->setTimeout(x.timeout, GElementTimeoutStrategy::HOLD_BY_PIPELINE); }
    if (want_events) p->addGEvent<PEvent>("ev");
    p->setGEngineType(eng(sim_choose(3))); p->setUniqueThreadPoolConfig(rnd_config(n + timed + 1)); o.on_build(p);
    if (want_events) for (El& x : W->els) { auto f = x.body; x.body = [f](El& x, size_t k) -> CStatus { if (sim_choose(2)) must_ok(static_cast<PTimed*>(x.ptr)->fire(), "notify()"); return f(x, k); }; }
    must_ok(p->init(), "init()"); int runs = 1 + sim_choose(3);
    for (int r = 0; r < runs; r++) {
        clear_faults(); bool bad = false; if (sim_choose(3) == 1) { bad = true; El& x = el(sim_choose(n)); x.err_code = -77; if (sim_choose(2)) x.err_at = 0; else x.thr_at = 0; }
        o.before_run(p); CStatus st = timed_run(p); o.after_run(p, st);
        if (st.isErr() && !bad) sim_fail("unexpected-error", "run() returned %d although nothing failed", st.getCode());
        SimNP np; for (El& x : W->els) if (x.running) sim_fail("not-quiescent", "%s is executing after run()", x.name().c_str());
        if (busy_events) sim_fail("not-quiescent", "%d events are being handled after run()", busy_events);
        if (!bad) for (El& x : W->els) if (x.ex.size() != 1) sim_fail("missing-execution", "%s was executed %zu times", x.name().c_str(), x.ex.size());
    }
    must_ok(p->destroy(), "destroy()"); if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads()); GPipelineFactory::remove(p);
}
}
SCENARIO(C14, timed) { timed_params(); }

// ------------------------------------------------------------------------------------------- creation and locking
namespace {
class AParam : public GParam { public: int made = 0; AParam() { SimNP np; created++; serial = created; } ~AParam() override { SimNP np; died++; } int serial; long value = 0; static int created, died; };
int AParam::created = 0, AParam::died = 0;
class BParam : public GParam { public: BParam() { SimNP np; AParam::created++; } ~BParam() override { SimNP np; AParam::died++; } };
struct CState { int n; int keys; int pre; AParam* same[16]; AParam* own[16][16]; AParam* preptr[16]; std::string first; bool bt; int ok[16]; int won[4]; std::set<std::string> saw; };
CState* CS;
class CreateNode : public GNode {
public:
    explicit CreateNode(int i) : id(i) {}
    int id;
    CStatus init() override { return CStatus(); }
    // two types compete for one key: exactly one of them exists, and only its creators succeed
    template <class T, class U> void race(int i, int type) {
        std::string key = "race_" + std::to_string(i); CStatus st = createGParam<T>(key); bool mine = getGParam<T>(key), other = getGParam<U>(key);
        SimNP np; if (st.isOK() != mine || mine == other) sim_fail("create", "creating %s returned %d, but looking it up finds%s%s", key.c_str(), st.getCode(), mine ? " this type" : "", other ? " another type" : "");
        if (st.isErr()) return;
        if (CS->won[i] && CS->won[i] != type) sim_fail("create", "%s was created with two types", key.c_str());
        CS->won[i] = type; }
    CStatus run() override {
        for (int k = 0; k < CS->keys; k++) {
            int what = sim_choose(7);
            if (what == 5) {        // remove one of our own: it is gone at once and for all
                int j = -1; { SimNP np; for (int q = 0; q < k; q++) if (CS->own[id][q]) j = q; } if (j < 0) continue;
                std::string key = "own_" + std::to_string(id) + "_" + std::to_string(j); { SimNP np; CS->own[id][j] = nullptr; }
                CStatus st = removeGParam(key); if (st.isErr()) sim_fail("remove", "removing %s failed: %s", key.c_str(), st.getInfo().c_str());
                if (getGParam<AParam>(key)) sim_fail("remove", "%s is found after it was removed", key.c_str());
                if (!removeGParam(key).isErr()) sim_fail("remove", "%s was removed twice", key.c_str());
            } else if (what == 6) {        // the list of keys
                auto ks = getGParamKeys(); SimNP np; std::set<std::string> in(ks.begin(), ks.end());
                if (in.size() != ks.size()) sim_fail("keys", "a key is listed twice");
                for (int q = 0; q < CS->pre; q++) if (!in.count("pre_" + std::to_string(q))) sim_fail("keys", "an existing key is not listed");
                for (int q = 0; q < CS->keys; q++) if (in.count("own_" + std::to_string(id) + "_" + std::to_string(q)) != (CS->own[id][q] ? 1u : 0u)) sim_fail("keys", "a key that %s is %s", CS->own[id][q] ? "exists" : "does not exist", CS->own[id][q] ? "not listed" : "listed");
            } else if (what == 4) { int i = sim_choose(4); sim_choose(2) ? race<AParam, BParam>(i, 1) : race<BParam, AParam>(i, 2); }
            else if (what == 0) {
                CStatus st = createGParam<AParam>("same", CS->bt);
                if (st.isErr()) sim_fail("create", "createGParam of an existing parameter of the same type failed: %s", st.getInfo().c_str());
                AParam* a = getGParam<AParam>("same");
                SimNP np; if (!a) sim_fail("create", "a parameter created before cannot be found");
                if (CS->same[0] && CS->same[0] != a) sim_fail("create", "two objects for one parameter key");
                CS->same[0] = a; CS->saw.insert("n" + std::to_string(id));
            } else if (what == 1) {
                std::string key = "own_" + std::to_string(id) + "_" + std::to_string(k);
                CStatus st = createGParam<AParam>(key);
                if (st.isErr()) sim_fail("create", "createGParam failed: %s", st.getInfo().c_str());
                AParam* a = getGParamWithNoEmpty<AParam>(key);
                SimNP np; CS->own[id][k] = a;
                if (a->getKey() != key) sim_fail("lookup", "lookup of %s returned parameter %s", key.c_str(), a->getKey().c_str());
            } else if (what == 2) {
                int i = sim_choose(CS->pre); std::string key = "pre_" + std::to_string(i);
                AParam* a = getGParam<AParam>(key);
                if (a != CS->preptr[i]) sim_fail("lookup", "lookup of %s during concurrent creation returned %s", key.c_str(), a ? "another object" : "nothing");
            } else {
                CStatus st = createGParam<BParam>("pre_0");
                if (!st.isErr()) sim_fail("create", "creating an existing key with another type succeeded");
                if (getGParam<BParam>("pre_0")) sim_fail("lookup", "lookup with a wrong type succeeded");
                if (getGParam<AParam>("none")) sim_fail("lookup", "lookup of an unknown key succeeded");
            }
        }
        return CStatus();
    }
};
}
SCENARIO(C15, create) {
    Scope sc; CState cs{}; CS = &cs; AParam::created = AParam::died = 0;
    sim_limit_ms(60000);
    GPipelinePtr p = GPipelineFactory::create();
    cs.n = 2 + sim_choose(5); cs.keys = 1 + sim_choose(12); cs.pre = 1 + sim_choose(14); cs.bt = sim_choose(2);
    for (int i = 0; i < cs.pre; i++) {
        std::string key = "pre_" + std::to_string(i);
        must_ok(p->createGParam<AParam>(key), "createGParam()"); cs.preptr[i] = p->getGParam<AParam>(key);
    }
    for (int i = 0; i < cs.n; i++) { reg<CreateNode>(p, {}, "n" + std::to_string(i), 1, i); }
    p->setUniqueThreadPoolConfig(rnd_config(2));
    must_ok(p->init(), "init()");
    if (sim_choose(2)) { sim_count(F_CONTENTION); }
    must_ok(p->run(), "run()");
    for (int i = 0; i < cs.n; i++) for (int k = 0; k < cs.keys; k++) if (cs.own[i][k]) {
        std::string key = "own_" + std::to_string(i) + "_" + std::to_string(k);
        if (p->getGParam<AParam>(key) != cs.own[i][k]) sim_fail("lookup", "parameter %s is lost or replaced", key.c_str());
    }
    for (int i = 0; i < cs.pre; i++) if (p->getGParam<AParam>("pre_" + std::to_string(i)) != cs.preptr[i]) sim_fail("lookup", "a parameter created before the run is lost or replaced");
    if (cs.same[0] && p->getGParam<AParam>("same") != cs.same[0]) sim_fail("lookup", "the shared parameter is lost or replaced");
    if (cs.same[0] && cs.bt) {
        auto bt = cs.same[0]->getBacktrace();
        for (size_t i = 0; i < bt.size(); i++) for (size_t j = i + 1; j < bt.size(); j++) if (bt[i] == bt[j]) sim_fail("backtrace", "an element is recorded twice in a backtrace");
        for (auto& w : cs.saw) if (std::find(bt.begin(), bt.end(), w) == bt.end()) sim_fail("backtrace", "%s used the parameter but is not recorded", w.c_str());
        for (auto& b : bt) if (b[0] == 'n' && b.size() <= 3 && !cs.saw.count(b)) sim_fail("backtrace", "%s did not use the parameter but is recorded", b.c_str());
    }
    must_ok(p->destroy(), "destroy()");
    GPipelineFactory::remove(p);
    if (AParam::created != AParam::died) sim_fail("create", "%d parameter objects were constructed and %d destroyed with the pipeline", AParam::created, AParam::died);
}
namespace {
int lk_in, lk_total, lk_tries, lk_style, lk_rounds; long lk_value;
class LockNode : public GNode {
public:
    explicit LockNode(int i) : id(i) {}
    int id;
    CStatus run() override {
        AParam* a = getGParamWithNoEmpty<AParam>("a");
        for (int r = 0; r < lk_rounds; r++) {
            int how = sim_choose(4);
            auto crit = [&] {
                { SimNP np; if (++lk_in > 1) sim_fail("lock", "two elements hold the parameter lock at once"); }
                long v = a->value; sim_point(); a->value = v + 1;
                { SimNP np; lk_in--; lk_total++; }
            };
            if (how == 0) { a->lock(); crit(); a->unlock(); }
            else if (how == 1) { if (a->tryLock()) { crit(); a->unlock(); } else { SimNP np; lk_tries++; sim_count(F_CONTENTION); } }
            else if (how == 2) { CGRAPH_PARAM_WRITE_CODE_BLOCK(a); crit(); }
            else { CGRAPH_PARAM_READ_CODE_BLOCK(a); (void)a->value; }
        }
        return CStatus();
    }
};
}
SCENARIO(C15, lock) {
    Scope sc; lk_in = lk_total = lk_tries = 0; AParam::created = 0;
    sim_limit_ms(60000);
    GPipelinePtr p = GPipelineFactory::create();
    must_ok(p->createGParam<AParam>("a"), "createGParam()");
    int n = 2 + sim_choose(5); lk_rounds = 1 + sim_choose(6);
    for (int i = 0; i < n; i++) { reg<LockNode>(p, {}, "n" + std::to_string(i), 1, i); }
    p->setUniqueThreadPoolConfig(rnd_config(2));
    must_ok(p->init(), "init()");
    int runs = 1 + sim_choose(2);
    for (int r = 0; r < runs; r++) must_ok(p->run(), "run()");
    AParam* a = p->getGParam<AParam>("a");
    if (a->value != lk_total) sim_fail("lost-update", "%d locked updates but the value is %ld", lk_total, a->value);
    if (!a->tryLock()) sim_fail("lock", "the parameter lock is not free after every element released it");
    a->unlock();
    must_ok(p->destroy(), "destroy()");
    GPipelineFactory::remove(p);
}

// one event handled by several threads at once looks parameters up; the keys an element or event used are reported, also after one was removed
namespace {
struct KState { int keys; int looked; std::set<std::string> used; };
KState* KS;
class KEvent : public GEvent { public:
    CVoid trigger(GEventParamPtr) override { int n = 1 + sim_choose(KS->keys); for (int i = 0; i < n; i++) { std::string key = "k" + std::to_string(sim_choose(KS->keys)); AParam* a = getGParam<AParam>(key);
        SimNP np; if (!a || a->getKey() != key) sim_fail("lookup", "an event looking %s up found %s", key.c_str(), a ? a->getKey().c_str() : "nothing"); KS->used.insert(key); KS->looked++; } }
    std::vector<std::string> concerned() const { return getConcernedGParamKeys(); } };
class KNode : public GNode { public:
    std::set<std::string> mine; int fires = 0;
    CStatus run() override {
        int n = sim_choose(4);
        for (int i = 0; i < n; i++) { std::string key = "k" + std::to_string(sim_choose(KS->keys)); AParam* a = getGParam<AParam>(key); SimNP np; if (a) { if (a->getKey() != key) sim_fail("lookup", "lookup of %s returned %s", key.c_str(), a->getKey().c_str()); mine.insert(key); } }
        for (int i = 0; i < fires; i++) { CStatus st = sim_choose(3) ? __notify_4py("ev", GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH) : __notify_4py("ev", GEventType::SYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH); must_ok(st, "notify()"); }
        return CStatus(); }
    std::vector<std::string> concerned() const { return getConcernedGParamKeys(); } };
void same_keys(std::vector<std::string> got, const std::set<std::string>& want, const char* who) {
    SimNP np; std::sort(got.begin(), got.end());
    if (got != std::vector<std::string>(want.begin(), want.end())) sim_fail("concerned", "%s used %zu parameters, %zu are reported", who, want.size(), got.size()); }
}
SCENARIO(C15, events) {
    Scope sc; KState ks{}; KS = &ks; AParam::created = AParam::died = 0; sim_limit_ms(400000);
    GPipelinePtr p = GPipelineFactory::create(); ks.keys = 1 + sim_choose(8); int n = 1 + sim_choose(4);
    for (int i = 0; i < ks.keys; i++) must_ok(p->createGParam<AParam>("k" + std::to_string(i), sim_choose(2)), "createGParam()");
    must_ok(p->addGEvent<KEvent>("ev") ? CStatus() : CStatus("no"), "addGEvent()");
    std::vector<KNode*> ns; for (int i = 0; i < n; i++) { GElementPtr e = reg<KNode>(p, {}, "n" + std::to_string(i), 1); ns.push_back(static_cast<KNode*>(e)); ns[i]->fires = 1 + sim_choose(3); }
    p->setUniqueThreadPoolConfig(rnd_config(2)); must_ok(p->init(), "init()");
    int runs = 1 + sim_choose(3); std::string gone;
    for (int r = 0; r < runs; r++) {
        must_ok(timed_run(p), "run()"); sim_count(F_CONTENTION);
        for (auto* x : ns) same_keys(x->concerned(), x->mine, "an element");
    }
    must_ok(p->destroy(), "destroy()");
    if (sim_choose(2)) {      // a parameter is removed: the reported keys of earlier runs stay usable
        gone = "k" + std::to_string(sim_choose(ks.keys)); must_ok(p->removeGParam(gone), "removeGParam()");
        for (auto* x : ns) { for (auto& k : x->concerned()) { SimNP np; if (!x->mine.count(k)) sim_fail("concerned", "an element is reported to have used a parameter that it did not use"); } }
        if (sim_choose(2)) { must_ok(p->createGParam<AParam>(gone), "createGParam()"); for (auto* x : ns) { SimNP np; x->mine.clear(); }
            must_ok(p->process(1), "process()"); for (auto* x : ns) same_keys(x->concerned(), x->mine, "an element"); }
    }
    GPipelineFactory::remove(p);
    if (AParam::created != AParam::died) sim_fail("create", "%d parameter objects were constructed and %d destroyed with the pipeline", AParam::created, AParam::died);
}
