// Harness core: random workflow graphs over the public API, execution recorder and the reference oracle.
#pragma once
#include "CGraph.h"
#include "sim.h"
#include <deque>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>

namespace H {
using namespace CGraph;

struct Exec { uint64_t s, e; bool ok; int tid; uint64_t t0, t1; };
enum Kind { LEAF, CLUSTER, REGION, COND, MULTI_S, MULTI_P, MUT, SOME };
static const char* const kind_names[] = {"node", "cluster", "region", "condition", "multi-serial", "multi-parallel", "mutable", "some"};
struct Plan { uint64_t seq = 0; bool bad = false; std::vector<int> vis, loops; std::vector<std::pair<int, int>> edges; };
struct Pick { uint64_t seq; long v; };
struct El {
    int id = 0, kind = LEAF, loop = 1, parent = -1, hold = 0;
    int engine = 0;                                // region
    std::vector<int> deps, kids;
    GElementPtr ptr = nullptr;
    // behaviour of a leaf
    uint32_t work_us = 0; int spin = 0;
    int err_at = -1, thr_at = -1, pos_at = -1;     // index (within one pipeline run) of the execution that fails / throws / returns a positive status
    int err_code = -1;
    int chk_at = -1, chk_mode = 0, prep_mode = 0;  // checkRunResult fails at this call of a run / prepareRun fails (1 error status, 2 exception)
    int init_fail = 0, destroy_fail = 0;           // 1 error status, 2 exception
    bool match_throws = false; int cycle_at = -1; int trigger = 0, round = 0;   // quorum group: trigger number
    bool may_outlive = false;                      // its asynchronous work may go on after run() returned
    std::vector<int> await; bool fence = false;    // fence: elements it waits for
    int hooks = 0; uint64_t hook_t = 0;            // enterTimeout notifications of this run
    int binding = -1; bool macro = false, hidden = false, function = false;   // hidden: setVisible(false)
    int level = 0; uint64_t init_seq = 0;
    int timeout = 0; GElementTimeoutStrategy strat = GElementTimeoutStrategy::AS_ERROR;
    std::function<CStatus(El&, size_t)> body;      // optional user body
    std::function<void(El&)> pre; std::function<void(El&, int)> post;   // hooks around every execution
    // record
    std::vector<Exec> ex; std::vector<Pick> choices; std::vector<Pick> matches; std::vector<Plan> plans;
    int running = 0, inits = 0, destroys = 0, prepares = 0, checks = 0, total = 0;
    bool up = false;
    size_t hold_left = 0;
    // checker cursors
    size_t cx = 0, cc = 0, cm = 0, cp = 0;
    std::string name() const { return std::string(kind_names[kind]) + "#" + std::to_string(id); }
};

struct World {
    std::deque<El> els;
    std::vector<int> roots;
    bool in_run = false; int run_no = 0; bool allow_overlap = false;
    uint64_t run_start = 0, last_end = 0, last_delay = 0, run_t0 = 0, ret_t = 0, ret_delay = 0;
    bool final_run = false;
    int errors_returned = 0;
    std::vector<std::string> err_infos;
    int slot = 0, style = 0;
    El& add(int kind, int parent);
};
// one World per pipeline; an element's id tells its world. A thread that drives one of several pipelines selects its world with W.here().
inline World* worlds[16]; inline World* world0 = nullptr; inline thread_local World* world_here = nullptr;
struct WRef { World* get() const { return world_here ? world_here : world0; } World* operator->() const { return get(); } World& operator*() const { return *get(); }
              void operator=(World* w) { world0 = w; worlds[w->slot] = w; } void here(World* w) { world_here = w; if (w) worlds[w->slot] = w; } };
inline WRef W;
static inline World* wof(int id) { return worlds[id >> 12]; }
static inline El& el(int id) { return wof(id)->els[id & 4095]; }
inline El& World::add(int kind, int parent) { els.emplace_back(); El& x = els.back(); x.id = slot << 12 | ((int)els.size() - 1); x.kind = kind; x.parent = parent; (parent < 0 ? roots : els[parent & 4095].kids).push_back(x.id); return x; }

static inline CStatus err_status(int id) { World* W = wof(id); sim_count(F_NODE_ERROR); W->errors_returned++; std::string m = "E!" + std::to_string(id) + "."; W->err_infos.push_back(m); return CStatus(el(id).err_code, m); }
[[noreturn]] static inline void err_throw(int id) { World* W = wof(id); sim_count(F_NODE_EXCEPTION); W->errors_returned++; std::string m = "X!" + std::to_string(id) + "."; W->err_infos.push_back(m); throw CException(m); }
static inline CStatus do_prepare(int id) {
    World* W = wof(id); SimNP np; El& x = el(id); x.prepares++;
    W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
    if (x.prep_mode == 1) return err_status(id);
    if (x.prep_mode == 2) err_throw(id);
    return CStatus();
}
static inline CStatus do_check(int id) {
    World* W = wof(id); SimNP np; El& x = el(id); int k = x.checks++;
    W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
    if (x.chk_mode && k == x.chk_at) {
        if (!x.ex.empty()) x.ex.back().ok = false;
        if (x.chk_mode == 1) return err_status(id);
        err_throw(id);
    }
    return CStatus();
}
static inline CStatus leaf_run(int id) {
    World* W = wof(id); size_t k;
    El& x = el(id);
    {
        SimNP np;
        if (!x.up) sim_fail("run-uninitialised", "%s runs while it is not initialised", x.name().c_str());
        if (!W->in_run && !x.may_outlive) sim_fail("run-outside", "%s started although no run() is in progress", x.name().c_str());
        if (++x.running > 1 && !W->allow_overlap) sim_fail("overlap", "two executions of %s overlap", x.name().c_str());
        k = x.ex.size();
        x.total++;
        x.ex.push_back({sim_seq(), 0, true, sim_tid(), sim_now_ns(), 0});
        sim_event(id * 4 + 1);
        sim_log("start %s execution %zu", x.name().c_str(), k);
        if (x.pre) x.pre(x);
    }
    CStatus st;
    if (x.work_us) { sim_count(F_SLOW); sim_sleep_us(x.work_us); }
    for (int i = 0; i < x.spin; i++) sim_point();
    if (x.body) st = x.body(x, k);
    SimNP np;
    W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns();
    bool bad = (int)k == x.err_at, thr = (int)k == x.thr_at, pos = (int)k == x.pos_at;
    x.running--;
    x.ex[k].e = sim_seq(); x.ex[k].ok = !(bad || thr || st.isErr()); x.ex[k].t1 = sim_now_ns();
    sim_event(id * 4 + 2);
    sim_log("end   %s execution %zu%s", x.name().c_str(), k, bad ? " (error)" : thr ? " (throws)" : "");
    if (x.post) x.post(x, bad ? x.err_code : thr ? -996 : st.getCode());
    if (bad) return err_status(id);
    if (thr) err_throw(id);
    if (pos) { sim_count(F_NODE_POSITIVE); return CStatus(1, "warn"); }
    return st;
}
static inline CStatus do_init(int id) {
    SimNP np; El& x = el(id); x.inits++;
    if (x.up) sim_fail("init-twice", "%s initialised twice", x.name().c_str());
    if (x.init_fail) { sim_count(F_INIT_FAIL); if (x.init_fail == 2) throw CException("init of " + x.name()); return CStatus("init of " + x.name()); }
    x.up = true; x.init_seq = sim_seq();
    return CStatus();
}
static inline CStatus do_destroy(int id) {
    SimNP np; El& x = el(id); x.destroys++;
    if (!x.up) sim_fail("destroy-uninitialised", "%s destroyed although not initialised", x.name().c_str());
    if (x.running) sim_fail("destroy-running", "%s destroyed while it is running", x.name().c_str());
    x.up = false;
    if (x.destroy_fail) { sim_count(F_INIT_FAIL); if (x.destroy_fail == 2) throw CException("destroy of " + x.name()); return CStatus("destroy of " + x.name()); }
    return CStatus();
}
static inline bool do_match(int id) { World* W = wof(id); El& x = el(id); if (x.match_throws) { SimNP np; W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); err_throw(id); } bool m = sim_choose(3) != 2; SimNP np; x.matches.push_back({sim_seq(), m}); return m; }

class TNode : public GNode {
public:
    explicit TNode(int i) : id(i) {}
    int id;
    CStatus init() override { return do_init(id); }
    CStatus run() override { return leaf_run(id); }
    CStatus destroy() override { return do_destroy(id); }
    CStatus prepareRun() override { return do_prepare(id); }
    CStatus checkRunResult() override { return do_check(id); }
    CBool isHold() override { El& x = el(id); if (!x.hold) return false; SimNP np; if (x.hold_left == 0) { x.hold_left = x.hold; } else { x.hold_left--; } return x.hold_left > 0; }
    CBool isMatch() override { return do_match(id); }
    bool timed_out() const { return isTimeout(); }
    CStatus spawn_tasks(const UTaskGroup& g, CMSec ttl) { return spawn(g, ttl); }
    GParamPtr param(const std::string& k) { return __getGParam_4py(k); }
};
class TCluster : public GCluster { public: int id = -1; CBool isMatch() override { return do_match(id); } };
class TRegion : public GRegion { public: int id = -1; CBool isMatch() override { return do_match(id); } };
class TCond : public GCondition { public: int id = -1; CBool isMatch() override { return do_match(id); }
protected: CIndex choose() override { El& x = el(id); int n = (int)x.kids.size(); int v = (int)sim_choose(n + 2) - (n == 0 ? 0 : 1); if (v == n) v = n + 3; SimNP np; x.choices.push_back({sim_seq(), v}); return v; } };
class TMultiS : public GMultiCondition<GMultiConditionType::SERIAL> { public: int id = -1; CBool isMatch() override { return do_match(id); } };
class TMultiP : public GMultiCondition<GMultiConditionType::PARALLEL> { public: int id = -1; CBool isMatch() override { return do_match(id); } };
class TMut : public GMutable { public: int id = -1; CBool isMatch() override { return do_match(id); }
protected: CStatus reshape(GElementPtrArr& es) override {
        World* W = wof(id); El& x = el(id); Plan p; int n = (int)es.size();
        for (int i = 0; i < n; i++) if (sim_choose(4) != 3) p.vis.push_back(i);
        for (size_t a = 0; a < p.vis.size(); a++) for (size_t b = a + 1; b < p.vis.size(); b++) if (sim_choose(3) == 1) p.edges.push_back({p.vis[a], p.vis[b]});
        if (x.cycle_at >= 0 && (int)x.plans.size() == x.cycle_at && n > 1) { SimNP np; W->errors_returned++; W->err_infos.push_back("cycle"); (*es[0]) > es[1]; (*es[1]) > es[0]; p.seq = sim_seq(); p.vis.clear(); p.edges.clear(); p.bad = true; x.plans.push_back(p); return CStatus(); }
        for (int v : p.vis) (*es[v])--;
        p.loops.assign(n, 1); for (int v : p.vis) if (sim_choose(6) == 5) (*es[v]) * (CSize)(p.loops[v] = 2 + sim_choose(2));
        for (auto& e : p.edges) (*es[e.first]) > es[e.second];
        SimNP np; p.seq = sim_seq(); x.plans.push_back(p); return CStatus(); } };
class TSome : public GSome { public: int id = -1; CBool isMatch() override { return do_match(id); }
protected: CSize getWaitNum() override { SimNP np; El& x = el(id); x.round++; return (CSize)x.trigger; } };

// what an element is told about its own time limit, asked at the end of its work
struct View { int id, round; size_t k; uint64_t before, after; bool to; };
inline std::vector<View> views;
static inline CStatus see_timeout(El& x, size_t k) { uint64_t b; { SimNP np; b = sim_seq(); } bool t = static_cast<TNode*>(x.ptr)->timed_out(); SimNP np; views.push_back({x.id, 0, k, b, sim_seq(), t}); if (t) sim_log("%s is told that it timed out", x.name().c_str()); return CStatus(); }
static inline void ask_timeouts() { views.clear(); for (El& x : W->els) if (x.kind == LEAF && !x.function && !x.fence && !x.body) x.body = see_timeout; }
static inline void check_views() {        // with limits that do not fail the run: told so iff the limit of the element or of a group around it passed
    SimNP np;
    for (View& v : views) {
        El& x = el(v.id); bool hook = false;
        for (int q = x.id; q >= 0; q = el(q).parent) {
            El& y = el(q); if (y.hooks) hook = true;
            if (!y.hooks || v.to || y.strat != GElementTimeoutStrategy::HOLD_BY_PIPELINE) continue;
            for (El& z : W->els) if (z.parent == y.parent && !z.ex.empty() && z.ex[0].s < v.before && std::find(z.deps.begin(), z.deps.end(), y.id) != z.deps.end())
                sim_fail("timeout-unseen", "%s was not told that it timed out, though %s had started without waiting for it", x.name().c_str(), z.name().c_str());
        }
        if (v.to && !hook) sim_fail("timeout-early", "%s was told that it timed out, but no limit had passed", x.name().c_str());
    }
}
// ---------------------------------------------------------------------------------------------- building
static inline void must_ok(const CStatus& st, const char* what);
// the ways a workflow can be put together: dependencies, loops and names given at registration or afterwards
enum { ST_ADD = 1, ST_OP = 2, ST_LOOP = 4, ST_NAME = 8, ST_DECOY = 16, ST_INFO = 32 };
static inline CSize reg_loop(const El& x) { return W->style & ST_LOOP ? 1 : x.loop; }
static inline std::string reg_name(const El& x) { return W->style & ST_NAME ? "" : x.name(); }
static inline void late_build(El& x, bool edges) {
    int s = W->style;
    if (edges && s & ST_ADD) for (int d : x.deps) must_ok(x.ptr->addDependGElements({el(d).ptr}), "addDependGElements()");
    if (edges && s & ST_OP) { std::set<int> op; for (int d : x.deps) { if (sim_choose(2)) *el(d).ptr > x.ptr; else *el(d).ptr & x.ptr; op.insert(d); }
        for (int d : op) if (el(d).hidden) el(d).ptr->setVisible(false); if (x.hidden) x.ptr->setVisible(false); }
    if (s & ST_LOOP && x.loop != 1) { if (sim_choose(2)) x.ptr->setLoop(x.loop); else (*x.ptr) * x.loop; }
    if (s & ST_NAME) x.ptr->setName(x.name());
    if (edges && s & ST_DECOY) for (int k = sim_choose(3); k > 0; k--) {
        const std::vector<int>& sib = x.parent < 0 ? W->roots : el(x.parent).kids; int d = sib[sim_choose(sib.size())];
        if (d == x.id || std::find(x.deps.begin(), x.deps.end(), d) != x.deps.end() || !el(d).ptr) continue;
        must_ok(x.ptr->addDependGElements({el(d).ptr}), "addDependGElements()"); must_ok(x.ptr->removeDepend(el(d).ptr), "removeDepend()"); }
}
template <class G> static GElementPtr mk_group(GPipelinePtr p, El& x, const GElementPtrArr& ks, const GElementPtrSet& deps) {
    G* g = p->createGGroup<G>(ks, deps, reg_name(x), reg_loop(x)); g->id = x.id; return g;
}
static inline GElementPtr build_el(GPipelinePtr p, El& x) {
    GElementPtrSet deps; if (!(W->style & (ST_ADD | ST_OP))) for (int d : x.deps) deps.insert(el(d).ptr);
    if (x.function) {       // an adapter around functions, made by the pipeline itself
        GFunctionPtr f = nullptr; GElementPtr e = nullptr; CStatus st = p->registerGElement<GFunction>(&e, deps, reg_name(x), reg_loop(x)); int id = x.id;
        if (st.isErr()) sim_fail("harness", "register failed: %s", st.getInfo().c_str());
        f = static_cast<GFunctionPtr>(e); f->setFunction(CFunctionType::INIT, [id] { return do_init(id); })->setFunction(CFunctionType::RUN, [id] { return leaf_run(id); })->setFunction(CFunctionType::DESTROY, [id] { return do_destroy(id); });
        x.ptr = e; if (x.binding != -1) e->setBindingIndex(x.binding); if (x.macro) e->setMacro(true); if (x.level) e->setLevel(x.level); late_build(x, true);
        return e;
    }
    if (x.kind == LEAF) {
        const GElementPtrSet d = x.parent < 0 ? GElementPtrSet() : deps;
        if (W->style & ST_INFO) x.ptr = p->createGNode<TNode>(GNodeInfo(d, reg_name(x), reg_loop(x)), x.id); else x.ptr = p->createGNode<TNode>(d, reg_name(x), reg_loop(x), x.id);
        if (x.binding != -1) x.ptr->setBindingIndex(x.binding);
        if (x.macro) x.ptr->setMacro(true);
        if (x.timeout) x.ptr->setTimeout(x.timeout, x.strat);
    } else {
        GElementPtrArr ks; for (int k : x.kids) ks.push_back(build_el(p, el(k)));
        const GElementPtrSet d = x.parent < 0 ? GElementPtrSet() : deps;
        switch (x.kind) {
            case CLUSTER: x.ptr = mk_group<TCluster>(p, x, ks, d); break;
            case REGION: x.ptr = mk_group<TRegion>(p, x, ks, d); static_cast<TRegion*>(x.ptr)->setGEngineType((GEngineType)x.engine); break;
            case COND: x.ptr = mk_group<TCond>(p, x, ks, d); break;
            case MULTI_S: x.ptr = mk_group<TMultiS>(p, x, ks, d); break;
            case MULTI_P: x.ptr = mk_group<TMultiP>(p, x, ks, d); break;
            case MUT: x.ptr = mk_group<TMut>(p, x, ks, d); break;
            case SOME: x.ptr = mk_group<TSome>(p, x, ks, d); break;
            default: break;
        }
        for (int k : x.kids) { int s = W->style; W->style &= ~(ST_LOOP | ST_NAME); late_build(el(k), true); W->style = s; }
    }
    if (x.hidden) x.ptr->setVisible(false);
    bool late = x.level && sim_choose(2); if (x.level && !late) x.ptr->setLevel(x.level);
    if (x.parent < 0) {
        CStatus st = x.kind == LEAF ? p->registerGNode(&x.ptr, deps, reg_name(x), reg_loop(x)) : p->registerGGroup(&x.ptr, deps, reg_name(x), reg_loop(x));
        if (st.isErr()) sim_fail("harness", "register failed: %s", st.getInfo().c_str());
        late_build(x, true);
    } else late_build(x, false);
    if (late) x.ptr->setLevel(x.level);
    return x.ptr;
}
static inline void build(GPipelinePtr p) { W->style = sim_choose(3) == 1 ? sim_choose(64) : 0; for (El& x : W->els) x.ptr = nullptr; for (int r : W->roots) build_el(p, el(r)); }

// random structure --------------------------------------------------------------------------------
struct Gen {
    int max_top = 6, max_kids = 4, max_depth = 2, groups = 3;     // groups: 1/groups of the elements are groups (0: none)
    bool blocking = true, loops = true, holds = true, work = true, binding = true, macros = true, edges = true, hidden = false;
    uint32_t kinds = ~0u; int top_engine = 0;
    int nblock = 0, max_block = 2;
};
static inline void gen_kids(Gen& g, int parent, int depth);
static inline void gen_el(Gen& g, int parent, int depth) {
    int kind = LEAF;
    if (g.groups && depth < g.max_depth && sim_choose(g.groups) == 1) {
        int all[] = {CLUSTER, REGION, COND, MULTI_S, MULTI_P, MUT}; std::vector<int> ok;
        for (int k : all) if ((g.kinds >> k) & 1) { if ((k == REGION || k == MULTI_P || k == MUT) && (!g.blocking || g.nblock >= g.max_block)) continue; ok.push_back(k); }
        if (!ok.empty()) kind = ok[sim_choose(ok.size())];
    }
    if (kind == REGION || kind == MULTI_P || kind == MUT) g.nblock++;
    El& x = W->add(kind, parent); int id = x.id;
    bool in_mut = parent >= 0 && el(parent).kind == MUT;
    if (g.loops && !in_mut) x.loop = sim_choose(4) == 1 ? 1 + sim_choose(3) : 1;
    if (g.hidden && !in_mut && sim_choose(8) == 1) x.hidden = true;
    if (kind == LEAF) {
        if (g.holds && sim_choose(6) == 1) x.hold = 1 + sim_choose(2);
        if (g.work && sim_choose(3) == 1) x.work_us = 1u << sim_choose(14);
        if (sim_choose(2)) x.spin = sim_choose(3);
        if (g.macros && sim_choose(5) == 1) x.macro = true;
    } else {
        x.engine = kind == REGION ? sim_choose(3) : 0;
        gen_kids(g, id, depth + 1);
    }
}
static inline void gen_edges(std::vector<int>& ids) {
    int shape = sim_choose(6); uint32_t n = ids.size();
    for (uint32_t j = 1; j < n; j++)
        for (uint32_t i = 0; i < j; i++) {
            bool e = false;
            switch (shape) {
                case 0: e = i + 1 == j; break;                                   // chain
                case 1: e = false; break;                                        // parallel
                case 2: e = sim_choose(3) == 1; break;                           // sparse
                case 3: e = sim_choose(2) == 1; break;                           // dense
                case 4: e = i == 0 || j == n - 1; break;                         // fan out / fan in
                default: e = i == (j - 1) / 2; break;                            // tree
            }
            if (e) el(ids[j]).deps.push_back(ids[i]);
        }
}
static inline void gen_kids(Gen& g, int parent, int depth) {
    int n = parent < 0 ? 1 + sim_choose(g.max_top) : 1 + sim_choose(g.max_kids);
    for (int i = 0; i < n; i++) gen_el(g, parent, depth);
    std::vector<int>& ids = parent < 0 ? W->roots : el(parent).kids;
    if (g.edges && (parent < 0 || el(parent).kind == REGION)) gen_edges(ids);
}

static inline UThreadPoolConfig rnd_config(int min_threads, bool secondary = true) {
    UThreadPoolConfig c;
    c.default_thread_size_ = min_threads + sim_choose(3);
    c.secondary_thread_size_ = secondary && sim_choose(4) == 1 ? 1 + sim_choose(2) : 0;
    c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_ + (sim_choose(4) == 1 ? sim_choose(3) : 0);
    c.max_task_steal_range_ = 7;
    c.batch_task_enable_ = sim_choose(3) == 1;
    c.max_local_batch_size_ = 1 + sim_choose(3); c.max_pool_batch_size_ = 1 + sim_choose(3); c.max_steal_batch_size_ = 1 + sim_choose(3);
    c.primary_thread_busy_epoch_ = sim_choose(4);
    c.pipeline_wait_busy_epoch_ = sim_choose(3) == 1 ? sim_choose(6) : 0;
    static const int iv[] = {1000, 10, 100}; c.primary_thread_empty_interval_ = iv[sim_choose(3)];
    c.deliver_running_primary_thread_enable_ = sim_choose(3) != 1;
    return c;
}

// ---------------------------------------------------------------------------------------------- oracle
struct Iv { bool any = false, complete = true; uint64_t s = ~0ull, e = 0;
    void in(uint64_t a, uint64_t b) { any = true; if (a < s) s = a; if (b > e) e = b; }
    Iv known() const { Iv r = *this; r.complete = true; return r; }
    void merge(const Iv& o) { if (o.any) in(o.s, o.e); if (!o.complete) complete = false; } };
struct Oracle {
    bool partial;           // an error / cancel happened: a prefix is allowed
    bool cancelled;         // an element may have been skipped without an error: a later match may still be evaluated (nothing runs)
    explicit Oracle(bool p, bool c = false) : partial(p), cancelled(c) {}
    [[noreturn]] static void bad(const char* cls, const El& x, const char* what, uint64_t a = 0, uint64_t b = 0) {
        sim_fail(cls, "%s: %s (%llu, %llu)", x.name().c_str(), what, (unsigned long long)a, (unsigned long long)b);
    }
    void follow(const El& x, const Iv& before, const Iv& it, const char* cls, const char* what) {
        if (!it.any) return;
        if (!before.complete) bad(cls, x, "ran although what it must wait for did not complete successfully", it.s, before.e);
        if (before.any && it.s < before.e) bad(cls, x, what, it.s, before.e);
    }
    Iv pass(El& x) {
        Iv r;
        if (x.hidden) return r;
        if (x.kind == LEAF) {
            size_t n = (size_t)x.loop * (1 + x.hold);
            for (size_t i = 0; i < n; i++) {
                if (x.cx >= x.ex.size()) { r.complete = false; if (!partial) bad("missing-execution", x, "executed fewer times than its loop count requires", i, n); break; }
                Exec& e = x.ex[x.cx++];
                if (!e.e) bad("unfinished", x, "execution still in progress after run() returned", e.s);
                if (!r.complete) bad("after-failure", x, "executed again after a failed execution", e.s);
                if (r.any && e.s < r.e) bad("overlap", x, "executions of one element overlap", e.s, r.e);
                r.in(e.s, e.e);
                if (!e.ok) r.complete = false;
            }
            return r;
        }
        Iv prev;
        for (int l = 0; l < x.loop; l++) {
            Iv it = once(x);
            if (l) follow(x, prev, it, "loop-order", "next loop iteration of a group began before the previous one ended");
            prev = it; r.merge(it);
        }
        return r;
    }
    Iv dag(El* owner, std::vector<int>& ids, const std::vector<std::pair<int, int>>* edges, const std::vector<int>* vis) {
        Iv r; std::vector<Iv> iv(ids.size());
        for (size_t j = 0; j < ids.size(); j++) {
            El& x = el(ids[j]);
            if (vis && std::find(vis->begin(), vis->end(), (int)j) == vis->end()) continue;
            Iv it = pass(x);
            Iv need;
            for (size_t i = 0; i < j; i++) {
                bool dep = edges ? std::find(edges->begin(), edges->end(), std::make_pair((int)i, (int)j)) != edges->end()
                                 : std::find(x.deps.begin(), x.deps.end(), ids[i]) != x.deps.end();
                if (dep) need.merge(iv[i]);
            }
            follow(x, need, it, "dependency-order", "started before an element it depends on had finished");
            r.merge(it);
            if (!it.any && need.any) it.in(it.s < need.s ? it.s : need.s, need.e);
            if (!need.complete) it.complete = false;
            iv[j] = it;
        }
        return r;
    }
    Iv once(El& x) {
        Iv r;
        switch (x.kind) {
            case CLUSTER:
                for (int k : x.kids) { Iv it = pass(el(k)); follow(el(k), r, it, "cluster-order", "started before the previous element of its cluster had finished"); r.merge(it); }
                break;
            case REGION: r = dag(&x, x.kids, nullptr, nullptr); break;
            case COND: {
                if (x.cc >= x.choices.size()) { r.complete = false; if (!partial) bad("missing-choice", x, "condition was not evaluated"); break; }
                Pick& p = x.choices[x.cc++]; r.in(p.seq, p.seq);
                int k = p.v == -1 ? (int)x.kids.size() - 1 : p.v < (long)x.kids.size() ? (int)p.v : -1;
                if (k >= 0) { Iv it = pass(el(x.kids[k])); follow(el(x.kids[k]), r, it, "condition-order", "ran before the condition was evaluated"); r.merge(it); }
                break; }
            case MULTI_S: case MULTI_P: {
                Iv done;
                for (int k : x.kids) {
                    El& c = el(k);
                    if (c.cm >= c.matches.size()) { r.complete = false; if (!partial) bad("missing-match", c, "match condition was not evaluated"); continue; }
                    Pick& p = c.matches[c.cm++];
                    Iv m; m.in(p.seq, p.seq);
                    if (x.kind == MULTI_S) follow(c, cancelled ? done.known() : done, m, "multi-order", "match evaluated before the previous element finished");
                    if (p.v) { Iv it = pass(c); if (x.kind == MULTI_S) follow(c, done, it, "multi-order", "ran before the previous element finished"); follow(c, m, it, "multi-order", "ran before its match was evaluated"); m.merge(it); }
                    if (x.kind == MULTI_S) done.merge(m);
                    r.merge(m);
                }
                break; }
            case MUT: {
                if (x.cp >= x.plans.size()) { r.complete = false; if (!partial) bad("missing-reshape", x, "structure was not rebuilt for this execution"); break; }
                Plan p = x.plans[x.cp++]; Iv q; q.in(p.seq, p.seq);
                for (size_t i = 0; i < x.kids.size(); i++) el(x.kids[i]).loop = p.bad ? 1 : p.loops[i];
                Iv it = dag(&x, x.kids, &p.edges, &p.vis); for (int k : x.kids) el(k).loop = 1; if (p.bad) q.complete = false; follow(x, q, it, "mutable-order", "element ran before the structure was rebuilt");
                r.merge(q); r.merge(it);
                break; }
            default: break;
        }
        return r;
    }
    void check_all() {
        for (El& x : W->els) { x.cx = x.cc = x.cm = x.cp = 0; if (x.running) bad("not-quiescent", x, "still executing after run() returned"); }
        dag(nullptr, W->roots, nullptr, nullptr);
        for (El& x : W->els) {
            if (x.cx < x.ex.size()) bad("extra-execution", x, "executed more often than its place in the workflow allows", x.ex.size(), x.cx);
            if (x.cc < x.choices.size()) bad("extra-choice", x, "condition evaluated more often than it should", x.choices.size(), x.cc);
            if (x.cm < x.matches.size()) bad("extra-match", x, "match evaluated more often than it should", x.matches.size(), x.cm);
            if (x.cp < x.plans.size()) bad("extra-reshape", x, "structure rebuilt more often than it should", x.plans.size(), x.cp);
        }
    }
};
static inline void clear_records() { for (El& x : W->els) { x.ex.clear(); x.choices.clear(); x.matches.clear(); x.plans.clear(); x.hold_left = 0; x.checks = 0; x.hooks = 0; x.hook_t = 0; } views.clear(); W->err_infos.clear(); W->errors_returned = 0; }

static inline CStatus timed_run(GPipelinePtr p) {
    { SimNP np; clear_records(); W->in_run = true; W->run_no++; W->run_start = sim_seq(); W->run_t0 = W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); }
    CStatus st = p->run();
    { SimNP np; W->in_run = false; W->ret_t = sim_now_ns(); W->ret_delay = sim_delay_ns(); sim_log("run() returned %d %s", st.getCode(), st.getInfo().c_str());
      for (El& x : W->els) if (x.running && !x.may_outlive) sim_fail("not-quiescent", "run() returned (code %d) while %s is still executing", st.getCode(), x.name().c_str()); }
    return st;
}
static inline void must_ok(const CStatus& st, const char* what) { if (!st.isOK()) sim_fail("unexpected-error", "%s returned %d: %s", what, st.getCode(), st.getInfo().c_str()); }
static inline void must_err(const CStatus& st, const char* what) { if (!st.isErr()) sim_fail("error-lost", "%s returned %d although an error occurred", what, st.getCode()); }
// the status of a run against what user code really reported during that run
static inline void check_status(const CStatus& st, const char* what) {
    if (!W->errors_returned) { if (!st.isOK()) sim_fail("unexpected-error", "%s returned %d (%s) although nothing failed", what, st.getCode(), st.getInfo().c_str()); return; }
    must_err(st, what);
    bool found = false;
    for (auto& m : W->err_infos) if (m == "cycle") found = found || st.getCode() == -1; else if (st.getInfo().find(m) != std::string::npos) {
        int id = std::stoi(m.substr(2)); 
        if (st.getCode() == (m[0] == 'X' ? -996 : el(id).err_code) || (el(id).chk_mode && st.getCode() == -996)) found = true;
    }
    if (!found) sim_fail("foreign-error", "%s returned %d (%s), which no element reported in this run", what, st.getCode(), st.getInfo().c_str());
}
// run() comes back soon after the last user callback ended
static inline void check_latency(uint64_t ms, const char* what) {
    uint64_t took = W->ret_t - W->last_end, inj = W->ret_delay - W->last_delay;
    if (W->last_end < W->ret_t && took > ms * 1000000ull + inj) sim_fail("slow-return", "%s returned %llu ms after the last user callback ended (injected delay %llu ms)", what, (unsigned long long)(took / 1000000), (unsigned long long)(inj / 1000000));
}
static inline std::vector<int> leaves() { std::vector<int> v; for (El& x : W->els) if (x.kind == LEAF) v.push_back(x.id); return v; }
static inline void clear_faults() { for (El& x : W->els) { x.err_at = x.thr_at = x.pos_at = x.chk_at = -1; x.chk_mode = x.prep_mode = 0; x.match_throws = false; x.cycle_at = -1; } }
// arm up to n failures for the next run; modes bit 0 error status, 1 exception, 2 positive status, 3 checkRunResult, 4 prepareRun, 5 match throws
static inline int arm_faults(int n, int modes) {
    clear_faults(); std::vector<int> ls = leaves(); std::vector<int> ms; int armed = 0;
    for (int b = 0; b < 7; b++) if ((modes >> b) & 1) ms.push_back(b);
    for (int i = 0; i < n; i++) {
        El& x = el(ls[sim_choose(ls.size())]); int at = sim_choose(3) == 1 ? sim_choose(x.loop * (1 + x.hold)) : 0;
        static const int codes[] = {-1, -2, -77, -4096}; x.err_code = codes[sim_choose(4)];
        int m = ms[sim_choose(ms.size())];
        switch (m) {
            case 0: x.err_at = at; break;
            case 1: x.thr_at = at; break;
            case 2: x.pos_at = at; break;
            case 3: x.chk_mode = 1 + sim_choose(2); x.chk_at = 0; break;
            case 4: x.prep_mode = 1 + sim_choose(2); break;
            case 5: { std::vector<int> c; for (El& y : W->els) if (y.parent >= 0 && (el(y.parent).kind == MULTI_S || el(y.parent).kind == MULTI_P)) c.push_back(y.id);
                      if (!c.empty()) el(c[sim_choose(c.size())]).match_throws = true; break; }
            case 6: { std::vector<int> c; for (El& y : W->els) if (y.kind == MUT && y.kids.size() > 1) c.push_back(y.id);
                      if (!c.empty()) el(c[sim_choose(c.size())]).cycle_at = sim_choose(2); break; }
        }
        armed++;
    }
    return armed;
}
template <class T, class... A> static T* reg(GPipelinePtr p, const GElementPtrSet& deps, const std::string& name, CSize loop, A... a) {
    GElementPtr e = p->createGNode<T>(GElementPtrSet(), name, (CSize)loop, a...);
    CStatus st = p->registerGNode(&e, deps, name, loop);
    if (st.isErr()) sim_fail("harness", "register failed: %s", st.getInfo().c_str());
    return static_cast<T*>(e);
}
static inline GEngineType eng(int i) { static const GEngineType t[] = {GEngineType::DYNAMIC, GEngineType::TOPO, GEngineType::STATIC}; return t[i % 3]; }
static inline bool hid(const El& x) { for (const El* a = &x; ; a = &el(a->parent)) { if (a->hidden) return true; if (a->parent < 0) return false; } }
static inline void check_inits(bool up) {
    for (El& x : W->els) if (x.kind == LEAF) {
        if (x.up != (up && !hid(x))) sim_fail("lifecycle", "%s is %sinitialised", x.name().c_str(), x.up ? "" : "not ");
    }
}
// elements of one level are initialised before those of a higher level
static inline void span_init(const El& x, uint64_t& lo, uint64_t& hi) { if (x.hidden) return; if (x.kind == LEAF) { lo = std::min(lo, x.init_seq); hi = std::max(hi, x.init_seq); } for (int k : x.kids) span_init(el(k), lo, hi); }
static inline void check_levels(const std::vector<int>& ids) {
    for (int a : ids) for (int b : ids) if (el(a).level < el(b).level) {
        uint64_t al = ~0ull, ah = 0, bl = ~0ull, bh = 0; span_init(el(a), al, ah); span_init(el(b), bl, bh);
        if (ah > bl) sim_fail("level-order", "%s (level %d) initialised after %s (level %d)", el(a).name().c_str(), el(a).level, el(b).name().c_str(), el(b).level);
    }
}
static inline void check_levels() { check_levels(W->roots); for (El& x : W->els) if (x.kind == REGION && !x.hidden) check_levels(x.kids); }
struct Scope { World w; Scope() { W = &w; } };
}   // namespace H
