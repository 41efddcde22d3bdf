// Quorum groups (C08).
#include "graph.h"
#include <set>
using namespace H;
namespace {
struct ToParam : public GAspectParam { int id = -1; CVoid clone(GPassedParam* p) override { id = static_cast<ToParam*>(p)->id; } };
class ToAspect : public GAspect { CVoid enterTimeout() override {
    SimNP np; El& x = el(getAParam<ToParam>()->id);
    x.hooks++; x.hook_t = sim_seq(); sim_count(F_TIMEOUT); sim_log("%s timed out", x.name().c_str()); W->last_end = sim_now_ns(); W->last_delay = sim_delay_ns(); } };

struct Rec { int round; uint64_t s, e, t1; bool ok; };          // one execution of a child (a leaf, or all leaves of a cluster)
struct Done { uint64_t seq, t; bool ok; int round; };
std::map<int, std::vector<int>>* rounds;                          // leaf -> round of each execution

int add_some(int parent, int loop_max, bool timed) {
    (void)loop_max;
    El& g = W->add(SOME, parent); int id = g.id;
    int n = 1 + sim_choose(6);
    for (int i = 0; i < n; i++) {
        if (sim_choose(5) == 1) {
            int c = W->add(CLUSTER, id).id; int m = 1 + sim_choose(2);
            for (int k = 0; k < m; k++) { El& y = W->add(LEAF, c); if (sim_choose(2)) y.work_us = 1u << sim_choose(20); else y.spin = sim_choose(3); }
        } else {
            El& y = W->add(LEAF, id);
            if (sim_choose(3)) y.work_us = sim_choose(4) == 1 ? 4000000 : 1u << sim_choose(20); else y.spin = sim_choose(4);
            if (timed && sim_choose(2)) {
                static const int T[] = {50, 5, 200, 1000}; static const GElementTimeoutStrategy ss[] = {GElementTimeoutStrategy::HOLD_BY_PIPELINE, GElementTimeoutStrategy::NO_HOLD, GElementTimeoutStrategy::AS_ERROR};
                y.timeout = T[sim_choose(4)]; y.strat = ss[sim_choose(3)]; y.may_outlive = y.strat != GElementTimeoutStrategy::HOLD_BY_PIPELINE;
            }
        }
    }
    el(id).trigger = sim_choose(6) == 5 ? n : 1 + sim_choose(n);
    if (sim_choose(12) == 1) el(id).trigger = 0;
    return id;
}
void leaves_of(int id, std::vector<int>& v) { if (el(id).kind == LEAF) v.push_back(id); for (int k : el(id).kids) leaves_of(k, v); }
// when each child of g counted as finished in round r, in order
std::vector<Done> finished(El& g, int r) {
    std::vector<Done> out;
    for (int k : g.kids) {
        std::vector<int> ls; leaves_of(k, ls); Done d{0, 0, true, r}; bool done = true; int seen = 0;
        for (int l : ls) {
            bool have = false;
            for (size_t i = 0; i < el(l).ex.size(); i++) if ((*rounds)[l][i] == r) { Exec& e = el(l).ex[i]; have = true; seen++; if (!e.e) { done = false; continue; } if (e.e > d.seq) { d.seq = e.e; d.t = e.t1; } if (!e.ok) { d.ok = false; } }
            if (!have && d.ok) done = false;
            if (!d.ok) break;
        }
        El& c = el(k);
        if (c.hooks && c.kind == LEAF) { d.seq = c.hook_t; d.t = 0; d.ok = c.strat != GElementTimeoutStrategy::AS_ERROR; done = true; seen++; }
        if (done && seen) out.push_back(d);
    }
    std::sort(out.begin(), out.end(), [](const Done& a, const Done& b) { return a.seq < b.seq; });
    return out;
}
// `start` is when something that waits for round r of group g began
void check_trigger(El& g, int r, uint64_t start, El& who) {
    int n = 0; for (Done& d : finished(g, r)) if (d.ok && d.seq < start) n++;
    if (n < g.trigger) sim_fail("trigger-early", "%s started when only %d of the %d required elements of %s had finished", who.name().c_str(), n, g.trigger, g.name().c_str());
}
void settle() { for (int i = 0; i < 400; i++) { { SimNP np; bool ok = true; for (El& x : W->els) if (x.running || (x.hooks && x.ex.empty())) ok = false; if (ok) return; } sim_sleep_us(1000ull << (i < 14 ? i : 14)); } sim_fail("lost-work", "the work of a timed-out element never ended"); }

void some_dag(bool looped, bool timed, int modes) {
    Scope sc; sim_limit_ms(4000000); std::map<int, std::vector<int>> rnd; rounds = &rnd;
    GPipelinePtr p = GPipelineFactory::create();
    struct Unit { int g, post, cluster; }; std::vector<Unit> us;
    int pre = sim_choose(2) ? W->add(LEAF, -1).id : -1;
    int nu = 1 + (sim_choose(3) == 1);
    for (int i = 0; i < nu; i++) {
        Unit u{-1, -1, -1};
        if (looped) { int c = W->add(CLUSTER, -1).id; el(c).loop = 1 + sim_choose(3); u.cluster = c; }
        u.g = add_some(u.cluster, 1, timed && !looped);
        if (looped || sim_choose(4)) u.post = W->add(LEAF, u.cluster).id;
        int top = looped ? u.cluster : u.g;
        if (pre >= 0 && sim_choose(2)) el(top).deps.push_back(pre);
        if (i && sim_choose(2)) { if (us[0].post >= 0) el(top).deps.push_back(looped ? us[0].cluster : us[0].post); }
        if (!looped && u.post >= 0) el(u.post).deps.push_back(u.g);
        us.push_back(u);
    }
    for (El& x : W->els) if (x.kind == LEAF && !x.function) x.body = [&rnd](El& y, size_t k) { CStatus st = see_timeout(y, k); SimNP np; views.back().round = rnd[y.id][k]; return st; };
    for (El& x : W->els) x.pre = [&rnd](El& y) { int q = y.parent; while (q >= 0 && el(q).kind != SOME) q = el(q).parent; rnd[y.id].push_back(q >= 0 ? el(q).round : 0); };
    build(p);
    for (El& x : W->els) if (x.kind == LEAF && x.timeout) { ToParam q; q.id = x.id; x.ptr->addGAspect<ToAspect, ToParam>(&q); }
    int engine = sim_choose(3); p->setGEngineType(eng(engine));
    int leaf_n = (int)leaves().size(), tn = 0; for (El& x : W->els) if (x.timeout) tn++;
    bool wide = sim_choose(2);
    UThreadPoolConfig c = rnd_config(wide || tn ? leaf_n + tn + nu + 1 : nu + 1 + sim_choose(3)); c.primary_thread_empty_interval_ = sim_choose(2) ? 1000 : 200;
    c.max_task_steal_range_ = c.default_thread_size_ - 1;
    p->setUniqueThreadPoolConfig(c);
    must_ok(p->init(), "init()");
    int runs = 1 + sim_choose(3);
    for (int r = 0; r < runs; r++) {
        clear_faults();
        if (modes && sim_choose(3)) arm_faults(1 + sim_choose(2), modes);
        { SimNP np; rnd.clear(); for (El& x : W->els) x.round = 0; }
        uint64_t d0 = sim_delay_ns();
        CStatus st = timed_run(p);
        uint64_t inj = sim_delay_ns() - d0;
        {
            SimNP np; bool must = false, may = false, partial = false;
            for (Unit& u : us) {
                El& g = el(u.g); std::vector<int> ls; leaves_of(u.g, ls);
                int want = looped ? el(u.cluster).loop : 1;
                if (g.round > want) sim_fail("extra-execution", "%s was executed %d times", g.name().c_str(), g.round);
                if (g.round < want) partial = true;
                for (int l : ls) {
                    El& x = el(l); std::set<int> seen;
                    for (size_t i = 0; i < x.ex.size(); i++) {
                        if (!seen.insert(rnd[l][i]).second) sim_fail("extra-execution", "%s was started twice for one execution of its group", x.name().c_str());
                        if (rnd[l][i] < 1) sim_fail("extra-execution", "%s ran before its group", x.name().c_str());
                        if (!x.ex[i].e && !x.may_outlive) sim_fail("not-quiescent", "%s had not finished when run() returned", x.name().c_str());
                        if (x.ex[i].e && !x.ex[i].ok) { if (x.may_outlive) may = true; else must = true; }
                    }
                    if (x.hooks > 1) sim_fail("timeout-twice", "%s was reported as timed out %d times in one run", x.name().c_str(), x.hooks);
                    if (x.hooks && x.strat == GElementTimeoutStrategy::AS_ERROR) may = true;
                }
                for (int i = 1; i <= g.round; i++) {
                    auto f = finished(g, i); int okn = 0; for (Done& d : f) if (d.ok) okn++;
                    bool last = i == g.round;
                    if (okn < g.trigger) { if (!last) sim_fail("trigger-early", "%s went on to its next execution with %d of %d required elements", g.name().c_str(), okn, g.trigger);
                        if (!st.isErr()) sim_fail("trigger-early", "run() reported success although only %d of the %d required elements of %s had finished", okn, g.trigger, g.name().c_str()); }
                }
                if (u.post >= 0) {
                    El& po = el(u.post);
                    if ((int)po.ex.size() < want) partial = true;
                    if ((int)po.ex.size() > want) sim_fail("extra-execution", "%s was executed %zu times", po.name().c_str(), po.ex.size());
                    for (size_t i = 0; i < po.ex.size(); i++) {
                        check_trigger(g, (int)i + 1, po.ex[i].s, po);
                        if (!po.ex[i].ok) must = true;
                        // the successor does not wait for the rest
                        auto f = finished(g, (int)i + 1); uint64_t q = 0; int n = 0;
                        for (Done& d : f) if (d.ok && n < g.trigger) { n++; q = d.t; if (!d.t) n = 1000; }
                        // the other engines work level by level: a group of the same level comes first
                        if (engine) for (Unit& v : us) if (v.g != u.g) for (int j = 1; j <= el(v.g).round; j++) { int m = 0; uint64_t t = 0; for (Done& d : finished(el(v.g), j)) if (d.ok && m < el(v.g).trigger) { m++; t = d.t; } if (t > q) q = t; if (v.post >= 0) for (Exec& e : el(v.post).ex) if (e.t1 > q) q = e.t1; }
                        // a group of a loop first waits for what its previous execution left behind
                        for (Unit& v : us) if (looped) { std::vector<int> vl; leaves_of(v.g, vl); for (int l : vl) for (Exec& e : el(l).ex) if (e.s < po.ex[i].s && (v.g != u.g || rnd[l][&e - &el(l).ex[0]] <= (int)i) && e.t1 > q && (v.g == u.g || engine)) q = e.t1; }
                        if (wide && !c.batch_task_enable_ && n == g.trigger && q && !tn && po.ex[i].t0 > q + inj + 2500000000ull) sim_fail("trigger-late", "%s started %llu ms after %d elements of %s had finished", po.name().c_str(), (unsigned long long)((po.ex[i].t0 - q) / 1000000), g.trigger, g.name().c_str());
                    }
                }
                for (int d : el(looped ? u.cluster : u.g).deps) for (int l : ls) if (!el(l).ex.empty()) {
                    std::vector<int> dl; leaves_of(d, dl);
                    for (int q : dl) if (el(d).kind == LEAF && (el(q).ex.empty() || !el(q).ex[0].e || el(q).ex[0].e > el(l).ex[0].s)) sim_fail("dependency-order", "%s started before %s had finished", el(l).name().c_str(), el(q).name().c_str());
                }
            }
            // a child that is still at work when its group is complete is told so, and no other one
            if (!looped) for (View& v : views) {
                El& x = el(v.id); int q = x.parent; while (q >= 0 && el(q).kind != SOME) q = el(q).parent; if (q < 0) { if (v.to) sim_fail("timeout-early", "%s was told that it timed out", x.name().c_str()); continue; }
                El& g = el(q); int n = 0; bool bad = false; for (Done& d : finished(g, v.round)) if (d.seq < v.after) { n++; if (!d.ok) bad = true; }
                if (v.to && n < g.trigger && !bad && !x.hooks) sim_fail("timeout-early", "%s was told that it timed out after %d of the %d required elements of %s had finished", x.name().c_str(), n, g.trigger, g.name().c_str());
                if (!v.to && !x.may_outlive) for (Unit& u : us) if (u.g == q && u.post >= 0 && !el(u.post).ex.empty() && el(u.post).ex[0].s < v.before) sim_fail("timeout-unseen", "%s was not told that %s went on without it", x.name().c_str(), g.name().c_str());
            }
            if (pre >= 0) { if (el(pre).ex.size() != 1) partial = true; else if (!el(pre).ex[0].ok) must = true; }
            for (El& x : W->els) if (x.chk_mode && x.checks > x.chk_at) may = true;
            if (must && !st.isErr()) sim_fail("error-lost", "run() returned %d although an element failed", st.getCode());
            if (partial && !st.isErr()) sim_fail("missing-execution", "run() reported success although an element after a group was not executed");
            if (!must && !may && !st.isOK()) sim_fail("unexpected-error", "run() returned %d (%s) although nothing failed", st.getCode(), st.getInfo().c_str());
        }
        settle();
    }
    must_ok(p->destroy(), "destroy()");
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    GPipelineFactory::remove(p);
}
// a quorum group in a loop whose children have limits of their own: work that goes on behind a limit is never started a second time
void some_again() {
    Scope sc; sim_limit_ms(4000000); std::map<int, std::vector<int>> rnd; rounds = &rnd; GPipelinePtr p = GPipelineFactory::create();
    int c = W->add(CLUSTER, -1).id; el(c).loop = 2 + sim_choose(2); int g = W->add(SOME, c).id, n = 1 + sim_choose(4);
    for (int i = 0; i < n; i++) { El& y = W->add(LEAF, g); y.work_us = sim_choose(4) == 1 ? 4000000 : 1u << sim_choose(20);
        if (sim_choose(3)) { static const int T[] = {5, 1, 50, 200}; y.timeout = T[sim_choose(4)]; y.strat = sim_choose(2) ? GElementTimeoutStrategy::NO_HOLD : GElementTimeoutStrategy::HOLD_BY_PIPELINE; y.may_outlive = y.strat == GElementTimeoutStrategy::NO_HOLD; } }
    el(g).trigger = 1 + sim_choose(n); int post = W->add(LEAF, c).id; el(post).spin = sim_choose(3);
    for (El& x : W->els) x.pre = [&rnd, g](El& y) { rnd[y.id].push_back(el(g).round); };
    build(p); for (El& x : W->els) if (x.kind == LEAF && x.timeout) { ToParam q; q.id = x.id; x.ptr->addGAspect<ToAspect, ToParam>(&q); }
    p->setGEngineType(eng(sim_choose(3))); UThreadPoolConfig cf = rnd_config(2 * n + 3); cf.max_task_steal_range_ = cf.default_thread_size_ - 1; p->setUniqueThreadPoolConfig(cf); must_ok(p->init(), "init()");
    for (int runs = 1 + sim_choose(2); runs > 0; runs--) {
        { SimNP np; rnd.clear(); for (El& x : W->els) x.round = 0; }
        must_ok(timed_run(p), "run()"); SimNP np;
        if (el(g).round != el(c).loop || (int)el(post).ex.size() != el(c).loop) sim_fail("missing-execution", "%s was executed %d times, the element behind it %zu times, not %d", el(g).name().c_str(), el(g).round, el(post).ex.size(), el(c).loop);
        for (int k : el(g).kids) { El& x = el(k); int behind = 0; if (x.hooks > 1 || (int)x.ex.size() > el(c).loop) sim_fail("extra-execution", "%s was started %zu times in %d executions of its group and timed out %d times", x.name().c_str(), x.ex.size(), el(c).loop, x.hooks);
            for (size_t i = 0; i < x.ex.size(); i++) { if (x.hooks && (!x.ex[i].e || x.ex[i].e > x.hook_t) && ++behind > 1) sim_fail("extra-execution", "%s was started again after its work had gone on behind its limit", x.name().c_str());
                if (!x.ex[i].e && !x.may_outlive) sim_fail("not-quiescent", "%s had not finished when run() returned", x.name().c_str()); } }
        settle();
        for (int i = 0; i < 60; i++) { bool ok = true; { SimNP np; for (El& x : W->els) if (x.hooks) { bool e = false; for (Exec& q : x.ex) if (q.e > x.hook_t) e = true; if (!e) ok = false; } } if (ok) break; sim_sleep_us(500000); }      // what went on behind a limit has been started
    }
    must_ok(p->destroy(), "destroy()"); if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads()); GPipelineFactory::remove(p);
}
}
SCENARIO(C08, again) { some_again(); }
SCENARIO(C08, flat) { some_dag(false, false, 0); }
SCENARIO(C08, looped) { some_dag(true, false, 0); }
SCENARIO(C08, timed) { some_dag(false, true, 0); }
SCENARIO(C08, failing) { some_dag(false, false, 3); }
SCENARIO(C08, any_failing) { some_dag(sim_choose(2), sim_choose(2), 3); }
