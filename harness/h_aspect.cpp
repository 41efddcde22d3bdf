#include "graph.h"
using namespace H;
namespace {
struct ASt {
    int n = 0;                                        // aspects of the element
    int begun = 0, finished = 0, crashed = 0, code = 0; bool worked = false, begin_failed = false, threw = false;
    int begin_fail_at = -1, begin_fail_mode = 0, begin_calls = 0;
    std::vector<int> life;                            // init / destroy bracket: 10+i begin, 1 work, 20+i finish
    int life_fail = -1;
    int timeouts = 0;
    void reset() { begun = finished = crashed = code = 0; worked = begin_failed = threw = false; }
};
std::vector<ASt>* A;
struct AspParam : public GAspectParam { int el_id = 0, idx = 0; CVoid clone(GPassedParam* p) override { auto* q = static_cast<AspParam*>(p); el_id = q->el_id; idx = q->idx; } };
class TAsp : public GAspect {
    AspParam* ap() { return getAParam<AspParam>(); }
public:
    CStatus beginRun() override {
        AspParam* p = ap(); ASt& a = (*A)[p->el_id]; sim_point(); SimNP np; El& x = el(p->el_id);
        W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
        if (x.running) sim_fail("aspect", "begin hook of %s called while it is executing", x.name().c_str());
        if (a.worked && a.finished < a.n && !a.threw) sim_fail("aspect", "begin hook of %s called before the finish hooks of the previous execution", x.name().c_str());
        if (p->idx == 0) a.reset();
        if (a.begun != p->idx) sim_fail("aspect", "begin hook %d of %s called after %d others", p->idx, x.name().c_str(), a.begun);
        if (a.begin_failed) sim_fail("aspect", "begin hook of %s called after an earlier one failed", x.name().c_str());
        a.begun++;
        if (a.begin_fail_at == p->idx && a.begin_calls++ == 0) {
            a.begin_failed = true;
            if (a.begin_fail_mode) { a.threw = true; err_throw(p->el_id); }
            x.err_code = -1;
            return err_status(p->el_id);
        }
        return CStatus();
    }
    CVoid finishRun(const CStatus& st) override {
        AspParam* p = ap(); ASt& a = (*A)[p->el_id]; sim_point(); SimNP np; El& x = el(p->el_id);
        W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
        if (!a.worked) sim_fail("aspect", "finish hook of %s called without an execution", x.name().c_str());
        if (x.running) sim_fail("aspect", "finish hook of %s called while it is executing", x.name().c_str());
        if (a.finished != p->idx) sim_fail("aspect", "finish hook %d of %s called after %d others", p->idx, x.name().c_str(), a.finished);
        if (a.threw) sim_fail("aspect", "finish hook of %s called although the work crashed", x.name().c_str());
        if (st.getCode() != a.code) sim_fail("aspect-status", "finish hook of %s got status %d, the work produced %d", x.name().c_str(), st.getCode(), a.code);
        a.finished++;
    }
    CVoid enterCrashed() override {
        AspParam* p = ap(); ASt& a = (*A)[p->el_id]; SimNP np; El& x = el(p->el_id);
        W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
        bool chk = x.chk_mode && x.checks > 0;
        if (!a.threw && !chk && !x.prep_mode) sim_fail("aspect", "crash hook of %s called without a crash", x.name().c_str());
        if (a.crashed != p->idx) sim_fail("aspect", "crash hook %d of %s called after %d others", p->idx, x.name().c_str(), a.crashed);
        a.crashed++;
    }
    CVoid enterTimeout() override { AspParam* p = ap(); SimNP np; (*A)[p->el_id].timeouts++; }
    CStatus life(int code) {
        AspParam* p = ap(); SimNP np; ASt& a = (*A)[p->el_id];
        a.life.push_back(code + p->idx);
        if (a.life_fail == code + p->idx) { a.life_fail = -2; return CStatus("life hook"); }
        return CStatus();
    }
    CStatus beginInit() override { return life(10); }
    CVoid finishInit(const CStatus& st) override { AspParam* p = ap(); if (st.isErr() != (el(p->el_id).init_fail != 0)) sim_fail("aspect-status", "finishInit got status %d", st.getCode()); life(20); }
    CStatus beginDestroy() override { return life(10); }
    CVoid finishDestroy(const CStatus& st) override { if (st.isErr()) sim_fail("aspect-status", "finishDestroy got status %d", st.getCode()); life(20); }
};
struct AspHooks {
    std::vector<ASt> st; bool fresh = true;
    AspHooks() { A = &st; }
    static void life_check(const char* what) {
        for (El& x : W->els) { if (x.kind != LEAF) continue;
            ASt& a = (*A)[x.id]; std::vector<int> want;
            for (int i = 0; i < a.n; i++) want.push_back(10 + i);
            for (int i = 0; i < a.n; i++) want.push_back(20 + i);
            if (a.life != want) sim_fail("aspect", "%s hooks of %s were not called once each in registration order", what, x.name().c_str());
            a.life.clear();
        }
    }
    void install(Opt& o, int begin_fail) {
        o.on_build = [this](GPipelinePtr p) {
            st.resize(W->els.size());
            for (El& x : W->els) {
                int n = sim_choose(4);
                if (x.kind != LEAF) continue;
                for (int i = 0; i < n; i++) { AspParam ap; ap.el_id = x.id; ap.idx = i; x.ptr->addGAspect<TAsp, AspParam>(&ap); }
                st[x.id].n = n;
                x.pre = [](El& x) { ASt& a = (*A)[x.id];
                    if (a.begin_failed) sim_fail("aspect", "%s executes although its begin hook failed", x.name().c_str());
                    if (a.begun != a.n) sim_fail("aspect", "%s executes after %d of its %d begin hooks", x.name().c_str(), a.begun, a.n);
                    if (a.finished) { if (a.n) sim_fail("aspect", "%s executes again without begin hooks", x.name().c_str()); } };
                x.post = [](El& x, int code) { ASt& a = (*A)[x.id]; a.worked = true; if (code == -996) a.threw = true; a.code = code > 0 ? 0 : code; };
            }
            (void)p;
        };
        o.before_run = [this, begin_fail](GPipelinePtr) {
            for (size_t i = 0; i < st.size(); i++) { ASt& a = st[i]; a.reset(); a.begin_fail_at = -1; a.begin_calls = 0; a.timeouts = 0; }
            if (fresh) { life_check("init"); fresh = false; }
            if (begin_fail && !W->final_run && sim_choose(2)) { std::vector<int> c; for (size_t i = 0; i < st.size(); i++) if (st[i].n) c.push_back(i);
                if (!c.empty()) { ASt& a = st[c[sim_choose(c.size())]]; a.begin_fail_at = sim_choose(a.n); a.begin_fail_mode = sim_choose(2); } }
        };
        o.after_run = [this](GPipelinePtr, const CStatus&) {
            for (El& x : W->els) { if (x.kind != LEAF) continue; ASt& a = st[x.id]; if (!a.n) continue;
                if (a.worked && !a.threw && a.finished != a.n) sim_fail("aspect", "%d of %d finish hooks of %s were called", a.finished, a.n, x.name().c_str());
                if (a.threw && a.crashed != a.n) sim_fail("aspect", "%d of %d crash hooks of %s were called", a.crashed, a.n, x.name().c_str());
                if (!a.worked && a.finished) sim_fail("aspect", "finish hooks of %s without execution", x.name().c_str());
                if (a.begun && !a.begin_failed && !a.worked) sim_fail("aspect", "%s did not execute after its begin hooks", x.name().c_str());
                if (!x.ex.empty() && a.n && !a.begun) sim_fail("aspect", "%s executed without begin hooks", x.name().c_str());
                a.reset();
            }
        };
        o.on_end = [](GPipelinePtr) { life_check("destroy"); }; o.on_reinit = [this](GPipelinePtr) { life_check("destroy"); fresh = true; };
    }
};
}
SCENARIO(C16, clean) { Opt o; AspHooks h; h.install(o, 0); o.g.groups = 0; o.g.max_top = 6; o.max_runs = 3; graph_common(o); }
SCENARIO(C16, nested) { Opt o; AspHooks h; h.install(o, 0); o.g.max_top = 4; o.min_threads = 4; graph_common(o); }
SCENARIO(C16, failing) { Opt o; AspHooks h; h.install(o, 1); o.g.groups = 0; o.g.max_top = 6; o.max_runs = 3; o.modes = 3 | 4 | 8 | 16; graph_common(o); }
