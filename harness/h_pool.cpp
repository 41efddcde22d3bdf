// The thread pool used directly: exactly-once (C22), progress (C23), shutdown (C24), groups (C25), priorities (C26), thread limits (C27).
#include "h.h"
#include <future>
#include <thread>
#include <memory>
using namespace CGraph;
namespace {
enum How { COMMIT, COMMIT_POOL, COMMIT_ALL, COMMIT_IDX, TID_BATCH, PRIO, LONGT, EXEC, EXEC_POOL, GROUP, NHOW };
struct Task { int id, how, runs = 0, tid = -1; uint32_t work_us = 0; int spin = 0; bool thr = false; int kids = 0, depth = 0; bool has_fut = false, taken = false;
    uint64_t sub_t = 0, sub_seq = 0, start_seq = 0, start_t = 0, end_t = 0, sub_delay = 0, start_delay = 0; int running = 0; std::future<int> fut; std::vector<int> mine; };
struct PoolWorld {
    UThreadPool* tp = nullptr; std::deque<Task> ts; bool closed = false;      // closed: destroy() returned
    bool stopping = false; int nsub = 0; UThreadPoolConfig c; uint32_t kinds = 0; int max_depth = 1; bool works = true; int max_live = 0; bool inside_ok = true;
};
PoolWorld* P;
Task& T(int i) { SimNP np; return P->ts[i]; }
int count() { SimNP np; return (int)P->ts.size(); }
uint64_t total_work() { SimNP np; uint64_t s = 0; for (Task& t : P->ts) s += t.work_us / 1000 + 1; return s; }
int pick_how() { std::vector<int> v; for (int i = 0; i < NHOW; i++) if ((P->kinds >> i) & 1) v.push_back(i); return v[sim_choose(v.size())]; }
void submit_some(int n, int depth);
int body(int id) {
    Task& t = T(id);
    {
        SimNP np;
        if (P->closed) sim_fail("ran-after-destroy", "task %d started after the pool was destroyed", id);
        if (++t.runs > 1) sim_fail("ran-twice", "task %d was executed %d times", id, t.runs);
        t.running = 1; t.tid = sim_tid(); t.start_seq = sim_seq(); t.start_t = sim_now_ns(); t.start_delay = sim_delay_ns(); sim_event(id * 2 + 1); sim_log("task %d starts", id);
        if (t.tid == 0 || t.tid < 0) sim_fail("wrong-thread", "task %d runs on a thread that does not belong to the pool", id);
    }
    if (t.work_us) { sim_count(F_SLOW); sim_sleep_us(t.work_us); }
    for (int i = 0; i < t.spin; i++) sim_point();
    if (t.kids && (P->inside_ok || !P->stopping)) submit_some(t.kids, t.depth + 1);
    SimNP np; t.running = 0; t.end_t = sim_now_ns(); sim_event(id * 2 + 2); sim_log("task %d ends", id);
    if (t.thr) { sim_count(F_NODE_EXCEPTION); throw std::runtime_error("t" + std::to_string(id)); }
    return id * 7 + 3;
}
Task& new_task(int how, int depth) {
    SimNP np; P->ts.emplace_back(); Task& t = P->ts.back(); t.id = (int)P->ts.size() - 1; t.how = how; t.depth = depth;
    return t;
}
void shape(Task& t) {
    if (P->works && sim_choose(3) == 1) t.work_us = 1u << sim_choose(17); else t.spin = sim_choose(3);
    if (t.depth < P->max_depth && sim_choose(4) == 1) t.kids = 1 + sim_choose(2);
}
void mark(Task& t) { SimNP np; t.sub_t = sim_now_ns(); t.sub_delay = sim_delay_ns(); t.sub_seq = sim_seq(); }
void submit_one(int how, int depth) {
    if (how == TID_BATCH) {       // a locked batch handed to one thread
        int n = 2 + sim_choose(3), tid = sim_choose(P->c.default_thread_size_); std::vector<int> ids;
        for (int i = 0; i < n; i++) { Task& t = new_task(how, depth); shape(t); ids.push_back(t.id); }
        bool fut = sim_choose(2);
        for (int i = 0; i < n; i++) {
            int id = ids[i]; Task& t = T(id); mark(t); bool en = i == 0 || i == n - 1, lk = i == 0;
            if (fut) { t.thr = sim_choose(5) == 1; auto f = P->tp->commitWithTid([id] { return body(id); }, tid, en, lk); SimNP np; t.fut = std::move(f); t.has_fut = true; }
            else P->tp->executeWithTid([id] { body(id); }, tid, en, lk);
        }
        return;
    }
    Task& t = new_task(how, depth); int id = t.id; shape(t); auto f = [id] { return body(id); };
    std::future<int> r; bool fut = how != EXEC && how != EXEC_POOL && how != GROUP;
    if (fut) t.thr = sim_choose(5) == 1;
    mark(t);
    switch (how) {
        case COMMIT: r = P->tp->commit(f); break;
        case COMMIT_POOL: r = P->tp->commit(f, CGRAPH_POOL_TASK_STRATEGY); break;
        case COMMIT_ALL: r = P->tp->commit(f, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY); break;
        case COMMIT_IDX: { static const int ix[] = {0, 1, 2, 7, 100, -3, -50}; r = P->tp->commit(f, ix[sim_choose(7)]); break; }
        case PRIO: r = P->tp->commitWithPriority(f, (int)sim_choose(7) - 3); break;
        case LONGT: r = P->tp->commit(f, CGRAPH_LONG_TIME_TASK_STRATEGY); break;
        case EXEC: P->tp->execute([id] { body(id); }); break;
        case EXEC_POOL: P->tp->execute([id] { body(id); }, CGRAPH_POOL_TASK_STRATEGY); break;
        case GROUP: {
            UTaskGroup g; int n = sim_choose(3); g.addTask([id] { body(id); });
            for (int i = 0; i < n; i++) { Task& u = new_task(how, depth); int k = u.id; shape(u); mark(u); g.addTask([k] { body(k); }); T(id).mine.push_back(k); }
            CStatus st = P->tp->submit(g);
            SimNP np;
            if (st.isErr()) sim_fail("unexpected-error", "submit() without a time limit returned %d %s", st.getCode(), st.getInfo().c_str());
            std::vector<int> all = T(id).mine; all.push_back(id);
            for (int k : all) if (P->ts[k].runs != 1 || P->ts[k].running) sim_fail("group-early", "submit() returned success but task %d has not been executed", k);
            break; }
        default: break;
    }
    if (fut) { SimNP np; t.fut = std::move(r); t.has_fut = true; }
}
void submit_some(int n, int depth) { for (int i = 0; i < n; i++) { int h = pick_how(); if (h == GROUP && depth) h = COMMIT; submit_one(h, depth); } }

// every accepted task has been executed exactly once, with its own result
void wait_all(uint64_t limit_ms) {
    uint64_t end = sim_now_ms() + limit_ms;
    for (int i = 0; i < count(); i++) {
        Task& t = T(i);
        for (int k = 0; !t.runs || t.running; k++) { uint64_t extra = sim_delay_ns() / 1000000; if (sim_now_ms() > end + extra) sim_fail("lost-task", "task %d (interface %d) was accepted but not executed", t.id, t.how); sim_sleep_us(500ull << (k < 11 ? k : 11)); }
    }
    for (int i = 0; i < count(); i++) {
        Task& t = T(i); if (!t.has_fut) continue;
        if (t.fut.wait_for(std::chrono::seconds(100)) != std::future_status::ready) sim_fail("future-lost", "task %d was executed, its future is not ready", t.id);
        try { int v = t.fut.get(); if (t.thr) sim_fail("wrong-result", "the exception of task %d was lost", t.id); if (v != t.id * 7 + 3) sim_fail("wrong-result", "task %d: result %d", t.id, v); }
        catch (const std::future_error&) { sim_fail("future-broken", "the future of task %d was broken", t.id); }
        catch (const std::runtime_error& e) { if (!t.thr || ("t" + std::to_string(t.id)) != e.what()) sim_fail("wrong-result", "task %d: foreign exception %s", t.id, e.what()); }
    }
    SimNP np;
    for (Task& t : P->ts) if (t.runs != 1) sim_fail("ran-twice", "task %d executed %d times", t.id, t.runs);
}
UThreadPoolConfig pcfg(int min_threads, bool secondary) {
    UThreadPoolConfig c = H::rnd_config(min_threads, false);
    if (secondary) { c.secondary_thread_size_ = sim_choose(3); c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_ + sim_choose(3); }
    static const int q[] = {1000, 50, 5}; c.queue_emtpy_interval_ = q[sim_choose(3)];
    return c;
}
struct PScope { PoolWorld w; PScope() { P = &w; } ~PScope() {} };
// -------------------------------------------------------------------------------------------- C22
void exactly_once(uint32_t kinds, bool secondary, int depth, int min_threads) {
    PScope sc; sim_limit_ms(2000000); P->kinds = kinds; P->max_depth = depth;
    P->c = pcfg(min_threads, secondary);
    if (sim_choose(3) == 1) P->c.max_task_steal_range_ = sim_choose(8);
    P->c.monitor_enable_ = secondary && sim_choose(3) == 1; P->c.monitor_span_ = 1 + sim_choose(2); P->c.secondary_thread_ttl_ = sim_choose(3);
    { UThreadPool tp(sim_choose(2), P->c); P->tp = &tp;
      H::must_ok(tp.init(), "init()");
      int rounds = 1 + sim_choose(3);
      for (int r = 0; r < rounds; r++) {
          { SimNP np; P->ts.clear(); }
          int ext = sim_choose(3); std::vector<std::thread> th;
          for (int i = 0; i < ext; i++) th.emplace_back([] { submit_some(1 + sim_choose(4), 0); });
          if (ext) sim_count(F_CONTENTION);
          submit_some(1 + sim_choose(8), 0);
          for (auto& t : th) t.join();
          uint64_t sum = total_work();
          wait_all(sum + 1100 * (count() + 8) + 10000);
          if (sim_choose(2)) sim_sleep_us(1000u << sim_choose(12));
      }
      if (sim_choose(2)) { H::must_ok(tp.destroy(), "destroy()"); P->closed = true; }
    }
    P->closed = true; sim_sleep_us(5000000);
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads());
}
// -------------------------------------------------------------------------------------------- C23
void progress(uint32_t kinds, bool blockers, bool batch) {
    PScope sc; sim_limit_ms(2000000); P->kinds = kinds; P->max_depth = 0; P->works = false;
    P->c = pcfg(1, false); if (!batch) P->c.batch_task_enable_ = false; P->c.max_task_steal_range_ = 16;
    { UThreadPool tp(true, P->c); P->tp = &tp;
      int rounds = 1 + sim_choose(4), n = P->c.default_thread_size_;
      for (int r = 0; r < rounds; r++) {
          { SimNP np; P->ts.clear(); }
          if (sim_choose(3)) sim_sleep_us(sim_choose(2) ? 1000u << sim_choose(12) : (uint64_t)P->c.primary_thread_empty_interval_ * 1000 + sim_choose(5) * 10 - 20);
          int nb = blockers && n > 1 ? (int)sim_choose(n) : 0; std::vector<std::future<void>> bs; int started = 0; bool go = false;
          for (int i = 0; i < nb; i++) bs.push_back(tp.commit([&] { { SimNP np; started++; } while (true) { { SimNP np; if (go) return; } sim_sleep_us(20000); } }));
          for (int k = 0; nb; k++) { { SimNP np; if (started == nb) break; } if (k > 4000) sim_fail("starved", "only %d of %d tasks started although %d threads exist", started, nb, n); sim_sleep_us(20000); }
          if (nb) sim_count(F_STARVED);
          int m = 1 + sim_choose(6);
          for (int i = 0; i < m; i++) { submit_one(pick_how(), 0); if (sim_choose(4) == 1) sim_sleep_us(100u << sim_choose(14)); }
          wait_all(10 * 1100 + 4000);
          for (Task& t : P->ts) {
              uint64_t took = t.start_t - t.sub_t, inj = t.start_delay - t.sub_delay;
              uint64_t lim = (uint64_t)P->c.primary_thread_empty_interval_ * 1000000ull * (nb ? 2 : 1) + 60000000ull;
              if (took > lim + inj) sim_fail("late-start", "task %d (interface %d) started %llu ms after it was submitted (injected delay %llu ms), %d of %d threads were free", t.id, t.how, (unsigned long long)(took / 1000000), (unsigned long long)(inj / 1000000), n - nb, n);
          }
          { SimNP np; go = true; }
          for (auto& b : bs) b.get();
      }
    }
    P->closed = true;
}
// no thread is busy: nothing has to wait for a timer
void progress_idle() {
    PScope sc; sim_limit_ms(2000000); P->kinds = 1u << COMMIT | 1u << COMMIT_POOL | 1u << COMMIT_IDX | 1u << EXEC | 1u << EXEC_POOL | 1u << COMMIT_ALL; P->max_depth = 0; P->works = false;
    P->c = pcfg(1, false); P->c.primary_thread_empty_interval_ = 1000; P->c.max_task_steal_range_ = 16;
    { UThreadPool tp(true, P->c); P->tp = &tp;
      int rounds = 1 + sim_choose(6);
      for (int r = 0; r < rounds; r++) {
          { SimNP np; P->ts.clear(); }
          sim_sleep_us(sim_choose(4) == 1 ? 1000000 - 20 + sim_choose(8) * 5 : sim_choose(2) ? 1u << sim_choose(18) : sim_choose(60));
          submit_one(pick_how(), 0);
          wait_all(10000);
          for (Task& t : P->ts) { uint64_t took = t.start_t - t.sub_t, inj = t.start_delay - t.sub_delay;
              if (took > 200000000ull + inj) sim_fail("late-start", "task %d (interface %d) started %llu ms after it was submitted to an idle pool (injected delay %llu ms)", t.id, t.how, (unsigned long long)(took / 1000000), (unsigned long long)(inj / 1000000)); }
      }
    }
    P->closed = true;
}
// -------------------------------------------------------------------------------------------- C24
void shutdown(uint32_t kinds, bool secondary, bool monitor, int depth) {
    PScope sc; sim_limit_ms(2000000);
    P->c = pcfg(1, secondary); P->kinds = kinds; P->max_depth = depth;
    P->c.monitor_enable_ = monitor; P->c.monitor_span_ = 1 + sim_choose(2); P->c.secondary_thread_ttl_ = sim_choose(3);
    auto* tp = new UThreadPool(false, P->c); P->tp = tp;
    int cycles = 1 + sim_choose(3);
    for (int k = 0; k < cycles; k++) {
        if (sim_choose(4) == 1) {       // the system refuses a thread: reported, nothing is left, and a later attempt works
            uint64_t c0 = sim_fault_count(F_THREAD_CREATE); sim_create_faults(1 + sim_choose(6));
            CStatus st = tp->init(); sim_create_faults(0);
            if (sim_fault_count(F_THREAD_CREATE) == c0) { H::must_ok(st, "init()"); }
            else { H::must_err(st, "init()"); sim_probe(1); if (tp->isInit()) sim_fail("not-init", "isInit() is true after a failed init()");
                   if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after a failed init()", sim_live_threads());
                   if (sim_choose(2)) H::must_ok(tp->destroy(), "destroy() after a failed init()"); }
        }
        H::must_ok(tp->init(), "init()");
        if (!tp->isInit()) sim_fail("not-init", "isInit() is false after init()");
        { SimNP np; P->ts.clear(); P->closed = false; P->stopping = false; }
        submit_some(sim_choose(10), 0);
        if (sim_choose(2)) sim_sleep_us(1u << sim_choose(18));
        bool last = k + 1 == cycles; bool dtor = last && sim_choose(2);
        { SimNP np; P->stopping = true; int q = 0; for (Task& t : P->ts) if (!t.runs) q++; if (q) sim_count(F_SHUTDOWN); }
        uint64_t t0 = sim_now_ns(), d0 = sim_delay_ns();
        if (!dtor) { H::must_ok(tp->destroy(), "destroy()"); if (tp->isInit()) sim_fail("not-init", "isInit() is true after destroy()"); }
        else delete tp;
        uint64_t took = sim_now_ns() - t0, inj = sim_delay_ns() - d0, work = 0;
        { SimNP np; P->closed = true; int n = 0;
          for (Task& t : P->ts) { if (t.runs) work += (uint64_t)t.work_us * 1000; if (t.running) sim_fail("running-after-destroy", "task %d is still running after the pool was destroyed", t.id); n += t.runs; }
          if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads()); }
        if (took > work + inj + 3500000000ull) sim_fail("slow-destroy", "destroying the pool took %llu ms", (unsigned long long)(took / 1000000));
        for (int i = 0; i < count(); i++) {
            Task& t = T(i); if (!t.has_fut) continue;
            if (!t.fut.valid() || t.fut.wait_for(std::chrono::milliseconds(0)) != std::future_status::ready) sim_fail("future-blocks", "task %d was %sexecuted, its future blocks after the pool was destroyed", t.id, t.runs ? "" : "not ");
            try { int v = t.fut.get(); if (!t.runs || v != t.id * 7 + 3) sim_fail("wrong-result", "task %d: result %d", t.id, v); }
            catch (const std::future_error&) { if (t.runs) sim_fail("future-broken", "task %d was executed, its future is broken", t.id); }
            catch (const std::runtime_error& e) { if (!t.thr || !t.runs) sim_fail("wrong-result", "task %d: foreign exception", t.id); }
        }
        if (dtor) tp = nullptr;
        sim_sleep_us(sim_choose(2) ? 3000000 : 10);
        if (tp && sim_choose(2)) { H::must_ok(tp->destroy(), "second destroy()"); }
        if (tp && sim_choose(2)) {      // a pool that is started again works like a new one
            H::must_ok(tp->init(), "init()"); { SimNP np; P->ts.clear(); P->closed = false; P->stopping = false; }
            int d = P->max_depth; P->max_depth = 0; submit_some(1 + sim_choose(4), 0); P->max_depth = d;
            uint64_t sum = total_work();
            wait_all(sum + 1100 * (count() + 8) + 10000);
            H::must_ok(tp->destroy(), "destroy()"); P->closed = true;
            if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads());
        }
    }
    delete tp;
    sim_sleep_us(3000000);
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads());
}
// destroy() does not wait for the sleeping threads' time limits to pass
void shutdown_prompt() {
    PScope sc; sim_limit_ms(20000000); P->kinds = 1u << COMMIT | 1u << COMMIT_POOL | 1u << EXEC | 1u << COMMIT_ALL; P->max_depth = 0;
    P->c = pcfg(1, false); P->c.primary_thread_empty_interval_ = 600000; P->c.max_task_steal_range_ = 16;
    int cycles = 1 + sim_choose(2);
    UThreadPool tp(false, P->c); P->tp = &tp;
    for (int k = 0; k < cycles; k++) {
        { SimNP np; P->ts.clear(); }
        H::must_ok(tp.init(), "init()");
        int n = sim_choose(3); if (n) submit_some(n, 0);
        int w = sim_choose(4); if (w == 1) sim_sleep_us(sim_choose(40)); else if (w == 2) sim_sleep_us(1u << sim_choose(18)); else if (w == 3) wait_all(total_work() + 10000);
        uint64_t t0 = sim_now_ns(), d0 = sim_delay_ns(), work = total_work();
        H::must_ok(tp.destroy(), "destroy()");
        uint64_t took = sim_now_ns() - t0, inj = sim_delay_ns() - d0;
        if (took > 2000000000ull + work * 1000000 + 2 * inj) sim_fail("late-destroy", "destroy() took %llu ms (injected delay %llu ms, work %llu ms)", (unsigned long long)(took / 1000000), (unsigned long long)(inj / 1000000), (unsigned long long)work);
        if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after destroy()", sim_live_threads());
    }
    P->closed = true;
}
// -------------------------------------------------------------------------------------------- C25
typedef std::function<CStatus(const UTaskGroup&, CMSec)> Submit;
void one_group(const Submit& submit = nullptr) {
    UTaskGroup g; int n = sim_choose(7); std::vector<int> ids; uint64_t work = 0;
    for (int i = 0; i < n; i++) { Task& t = new_task(GROUP, 1); int id = t.id; if (sim_choose(3)) t.work_us = 1u << sim_choose(21); else t.spin = sim_choose(3); t.thr = sim_choose(8) == 1; work += (uint64_t)t.work_us * 1000; ids.push_back(id); g.addTask([id] { body(id); }); }
    static const CMSec T[] = {CGRAPH_MAX_BLOCK_TTL, 1000, 100, 10, 5000}; CMSec a = T[sim_choose(5)], b = T[sim_choose(5)], ttl = std::min(a, b);
    if (a != CGRAPH_MAX_BLOCK_TTL || sim_choose(2)) g.setTtl(a);
    int calls = 0; CStatus seen; bool cb = sim_choose(2);
    if (cb) g.setOnFinished([&](const CStatus& st) { SimNP np; calls++; seen = CStatus(st.getCode(), st.getInfo()); });
    int times = 1 + (sim_choose(4) == 1 && n == 0);
    (void)times;
    uint64_t t0 = sim_now_ns(), d0 = sim_delay_ns();
    CStatus st = submit ? submit(g, b) : P->tp->submit(g, b);
    uint64_t t1 = sim_now_ns(), inj = sim_delay_ns() - d0;
    SimNP np;
    bool all = true; for (int i : ids) if (!P->ts[i].runs || P->ts[i].running) all = false;
    if (st.isOK() && !all) sim_fail("group-early", "submit() returned success before every task of the group was executed");
    if (!st.isOK()) {
        sim_count(F_TIMEOUT);
        if (t1 - t0 < (uint64_t)ttl * 1000000ull) sim_fail("group-timeout-early", "submit() returned an error after %llu us, the limit is %ld ms", (unsigned long long)((t1 - t0) / 1000), (long)ttl);
    }
    uint64_t lim = std::min<uint64_t>((uint64_t)ttl * 1000000ull, work + 1100ull * 1000000 * 30) + inj + 300000000ull;
    if (t1 - t0 > lim) sim_fail("group-late", "submit() took %llu ms, the limit is %ld ms", (unsigned long long)((t1 - t0) / 1000000), (long)ttl);
    if (cb && calls != 1) sim_fail("group-callback", "the finish callback was called %d times", calls);
    if (cb && (seen.getCode() != st.getCode() || seen.getInfo() != st.getInfo())) sim_fail("group-callback", "the finish callback got %d, submit() returned %d", seen.getCode(), st.getCode());
    for (int i : ids) if (P->ts[i].runs == 1 && !P->ts[i].running) sim_event(i);
}
void group(int threads) {
    PScope sc; sim_limit_ms(2000000); P->c = pcfg(threads, false);
    { UThreadPool tp(true, P->c); P->tp = &tp;
      int rounds = 1 + sim_choose(3);
      for (int r = 0; r < rounds; r++) {
          std::vector<std::thread> th; int ext = sim_choose(3); if (ext) sim_count(F_CONTENTION);
          for (int i = 0; i < ext; i++) th.emplace_back([] { one_group(); });
          one_group();
          for (auto& t : th) t.join();
      }
      uint64_t sum = total_work();
      wait_all(sum + 1100 * (count() + 8) + 10000);
      if (sim_choose(3) == 1) {       // single task interface
          Task& t = new_task(GROUP, 1); int id = t.id; t.work_us = sim_choose(2) ? 2000 : 0; int calls = 0;
          CStatus st = tp.submit([id] { body(id); }, CGRAPH_MAX_BLOCK_TTL, [&](const CStatus&) { calls++; });
          if (!st.isOK() || t.runs != 1) sim_fail("group-early", "submit() of one task returned %d, executed %d times", st.getCode(), t.runs);
          if (calls != 1) sim_fail("group-callback", "the finish callback was called %d times", calls);
      }
    }
    P->closed = true;
}
void spawned() {        // the groups are submitted by the nodes of a workflow
    PScope sc; H::Scope hs; sim_limit_ms(4000000); GPipelinePtr p = GPipelineFactory::create();
    H::Gen g; g.max_top = 3; g.max_kids = 2; g.groups = 2; g.kinds = 1u << H::CLUSTER | 1u << H::REGION | 1u << H::COND | 1u << H::MULTI_S | 1u << H::MULTI_P; g.holds = g.work = false; H::gen_kids(g, -1, 0);
    int n = 0; for (H::El& x : H::W->els) if (x.kind == H::LEAF) { n++; x.loop = 1; if (sim_choose(3)) x.body = [](H::El& x, size_t) { one_group([&x](const UTaskGroup& g, CMSec ttl) { return static_cast<H::TNode*>(x.ptr)->spawn_tasks(g, ttl); }); return CStatus(); }; } else x.loop = 1;
    H::build(p); p->setGEngineType(H::eng(sim_choose(3))); UThreadPoolConfig c = H::rnd_config(n + 5); c.batch_task_enable_ = false; c.max_task_steal_range_ = 40; p->setUniqueThreadPoolConfig(c);
    H::must_ok(p->init(), "init()"); int runs = 1 + sim_choose(2);
    for (int r = 0; r < runs; r++) H::must_ok(H::timed_run(p), "run()");
    wait_all(total_work() + 1100 * (count() + 8) + 10000);
    H::must_ok(p->destroy(), "destroy()"); P->closed = true; GPipelineFactory::remove(p);
}
// -------------------------------------------------------------------------------------------- C26
void priorities() {
    PScope sc; sim_limit_ms(2000000);
    P->c = pcfg(1 + sim_choose(2), false); P->c.secondary_thread_size_ = sim_choose(2); P->c.max_thread_size_ = P->c.default_thread_size_ + 1;
    struct R { int prio; uint64_t seq, start, end; int tid; };
    { UThreadPool tp(true, P->c);
      int rounds = 1 + sim_choose(3);
      for (int r = 0; r < rounds; r++) {
          bool started = false, go = false; uint64_t opened = 0; int opener = -1; std::deque<R> rs; std::vector<std::future<void>> fs;
          fs.push_back(tp.commitWithPriority([&] { { SimNP np; started = true; opener = sim_tid(); } while (true) { { SimNP np; if (go) { opened = sim_seq(); return; } } sim_sleep_us(1000); } }, (int)sim_choose(201) - 100));
          for (int k = 0;; k++) { { SimNP np; if (started) break; } if (k > 40000) sim_fail("lost-task", "a priority task does not start"); sim_sleep_us(1000); }
          int n = 2 + sim_choose(8), ext = sim_choose(3); std::vector<std::thread> th;
          auto prio = [&] { return sim_choose(3) ? (int)sim_choose(201) - 100 : (int)sim_choose(3) - 1; };
          std::function<void(int, bool, int)> put = [&](int m, bool longt, int more) { for (int i = 0; i < m; i++) {
              int pr = longt && sim_choose(4) == 1 ? -101 : prio(), kids = more > 0 && sim_choose(4) == 1 ? 1 + sim_choose(2) : 0; R* x; { SimNP np; rs.push_back({pr, 0, 0, 0, 0}); x = &rs.back(); }
              auto f = [x, kids, more, &put] { { SimNP np; x->start = sim_seq(); x->tid = sim_tid(); sim_event(x->prio + 1000); sim_log("priority %d", x->prio); } if (kids) put(kids, true, more - 1); SimNP np; x->end = sim_seq(); };
              auto fu = pr == -101 ? tp.commit(f, CGRAPH_LONG_TIME_TASK_STRATEGY) : tp.commitWithPriority(f, pr); SimNP np; x->seq = sim_seq(); fs.push_back(std::move(fu)); } };
          for (int i = 0; i < ext; i++) th.emplace_back([&] { put(1 + sim_choose(4), true, 2); });
          put(n, true, 2);
          for (auto& t : th) t.join();
          { SimNP np; go = true; }
          put(sim_choose(3), false, 0);      // and some more while the queue is being worked off
          for (size_t i = 0;; i++) { std::future<void> f; { SimNP np; if (i >= fs.size()) break; f = std::move(fs[i]); } if (f.wait_for(std::chrono::seconds(400)) != std::future_status::ready) sim_fail("lost-task", "a priority task was not executed"); }
          // the one worker looks for its next task after it finished the one before: what was waiting by then and is more urgent goes first
          std::vector<R*> by; bool one = true; for (R& a : rs) { by.push_back(&a); if (a.tid != opener) one = false; }
          if (!one) continue;
          std::sort(by.begin(), by.end(), [](R* a, R* b) { return a->start < b->start; });
          for (size_t i = 0; i < by.size(); i++) { uint64_t looked = i ? by[i - 1]->end : opened; for (R& b : rs) if (b.prio > by[i]->prio && b.start > by[i]->start && b.seq && b.seq < looked)
              sim_fail("priority-order", "a task of priority %d was started while one of priority %d was waiting", by[i]->prio, b.prio); }
      }
    }
}
// -------------------------------------------------------------------------------------------- C27
int others;      // live threads that belong to the test
void check_live(const char* when) { SimNP np; int n = sim_live_threads() - others - (P->c.monitor_enable_ ? 1 : 0); if (n > P->max_live) P->max_live = n; if (n > P->c.max_thread_size_) sim_fail("too-many-threads", "%s: %d threads are alive, at most %d are allowed", when, n, P->c.max_thread_size_); }
void limits(bool monitor) {
    PScope sc; sim_limit_ms(20000000); others = 0; P->kinds = 1u << COMMIT | 1u << PRIO | 1u << LONGT | 1u << EXEC | 1u << COMMIT_ALL | 1u << COMMIT_POOL; P->max_depth = 1;
    P->c = pcfg(1, true); P->c.monitor_enable_ = monitor; P->c.monitor_span_ = 1 + sim_choose(2); P->c.secondary_thread_ttl_ = sim_choose(3);
    { UThreadPool tp(true, P->c); P->tp = &tp; check_live("after init()");
      auto ops = [&] { int n = 1 + sim_choose(5); for (int i = 0; i < n; i++) {
          switch (sim_choose(4)) {
              case 0: submit_some(1 + sim_choose(2), 0); break;
              case 1: (void)tp.createSecondaryThread(1 + sim_choose(3)); break;
              case 2: (void)tp.releaseSecondaryThread(1 + sim_choose(2)); break;
              default: sim_sleep_us(1u << sim_choose(22)); }
          check_live("while working"); } };
      int rounds = 1 + sim_choose(2);
      for (int r = 0; r < rounds; r++) {
          std::vector<std::thread> th; int ext = sim_choose(3);
          for (int i = 0; i < ext; i++) { { SimNP np; others++; } th.emplace_back(ops); }
          if (ext) sim_count(F_CONTENTION);
          if (sim_choose(4) == 1) sim_create_faults(1 + sim_choose(4));      // the system refuses some of the extra threads
          ops();
          for (auto& t : th) { t.join(); SimNP np; others--; }
          sim_create_faults(0);
          uint64_t sum = total_work();
          wait_all(sum + 6000 * (count() + 8) + 20000);
          check_live("after working");
          { SimNP np; P->ts.clear(); }
      }
      if (monitor) {      // idle long enough: only the core threads are left at some moment (the monitor samples the threads, so it may meet a thread that is just awake)
          bool shrunk = false; int n = 0; uint64_t d0 = sim_delay_ns();
          for (int i = 0; i < 400 && !shrunk; i++) {
              sim_sleep_us(1000000ull * (P->c.monitor_span_ + (i > 20 ? i : 0)));
              SimNP np; n = sim_live_threads() - 1; shrunk = n <= P->c.default_thread_size_;
          }
          uint64_t inj = sim_delay_ns() - d0; (void)inj;
          if (!shrunk) sim_fail("not-shrunk", "%d threads are still alive after a long idle time, the pool has %d core threads", n, P->c.default_thread_size_);
      }
    }
    P->closed = true;
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads());
}
// an extra thread that was busy for a long time is still released soon after its work: its remaining life is bounded by the configured one, not by how long it worked
void limits_busy() {
    PScope sc; sim_limit_ms(20000000); others = 0;
    P->c = pcfg(1, true); P->c.monitor_enable_ = true; P->c.monitor_span_ = 1 + sim_choose(2); P->c.secondary_thread_ttl_ = 1 + sim_choose(3);
    if (P->c.max_thread_size_ <= P->c.default_thread_size_) P->c.max_thread_size_ = P->c.default_thread_size_ + 1;
    { UThreadPool tp(true, P->c); P->tp = &tp;
      int n = 1 + sim_choose(3), prim = sim_choose(2); std::vector<std::future<void>> fs; uint64_t longest = 0, sum = 0;
      for (int i = 0; i < n; i++) {
          uint64_t us = 1000000ull * P->c.monitor_span_ * (10 + sim_choose(40)); longest = std::max(longest, us); sum += us;
          fs.emplace_back(prim ? tp.commit([us] { sim_sleep_us(us); }) : tp.commitWithPriority([us] { sim_sleep_us(us); }, sim_choose(3)));
      }
      check_live("while working");
      for (auto& f : fs) { if (f.wait_for(std::chrono::microseconds(sum * 2 + 60000000) + std::chrono::nanoseconds(sim_delay_ns())) != std::future_status::ready) sim_fail("lost-progress", "a long task was not finished"); check_live("after a task"); }
      uint64_t t0 = sim_now_ms(), d0 = sim_delay_ns(); bool shrunk = false; int left = 0;
      const uint64_t bound = 1000ull * P->c.monitor_span_ * (P->c.secondary_thread_ttl_ + 8);
      while (!shrunk && sim_now_ms() - t0 <= bound + (sim_delay_ns() - d0) / 1000000) {
          sim_sleep_us(250000ull * P->c.monitor_span_);
          SimNP np; left = sim_live_threads() - 1; shrunk = left <= P->c.default_thread_size_;
      }
      if (!shrunk) sim_fail("not-shrunk", "%d threads are still alive %llu ms after the last task, the pool has %d core threads, an idle extra thread has %d monitor rounds of %d s to live", left, (unsigned long long)(sim_now_ms() - t0), P->c.default_thread_size_, (int)P->c.secondary_thread_ttl_, (int)P->c.monitor_span_);
    }
    P->closed = true;
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads());
}
// when every core thread is busy for long, the monitor adds a thread (if the maximum allows it), so that a task of the shared queue is executed meanwhile
void limits_grow() {
    PScope sc; sim_limit_ms(20000000); others = 0;
    P->c = pcfg(1, true); P->c.monitor_enable_ = true; P->c.monitor_span_ = 1 + sim_choose(2); P->c.secondary_thread_ttl_ = 1 + sim_choose(3);
    P->c.batch_task_enable_ = false;      // a batch may put both tasks on one thread
    P->c.secondary_thread_size_ = 0; P->c.max_thread_size_ = P->c.default_thread_size_ + sim_choose(3);
    const bool room = P->c.max_thread_size_ > P->c.default_thread_size_;
    { UThreadPool tp(true, P->c); P->tp = &tp; const uint64_t span = 1000000ull * P->c.monitor_span_;
      int n = P->c.default_thread_size_; std::vector<std::future<void>> fs; std::atomic<int> started{0}; std::atomic<uint64_t> at{0};
      for (int i = 0; i < n; i++) fs.emplace_back(tp.commit([&] { started++; sim_sleep_us(span * 40); }, CGRAPH_POOL_TASK_STRATEGY));
      for (int i = 0; i < 20000 && started < n; i++) sim_sleep_us(1000);
      if (started < n) sim_fail("lost-progress", "%d of %d tasks were started by an idle pool with %d threads", started.load(), n, n);
      sim_sleep_us(sim_choose(2) ? 0 : sim_choose(3) * span);
      uint64_t t0 = sim_now_ns(), d0 = sim_delay_ns(); uint64_t inj = 0;
      fs.emplace_back(tp.commit([&] { SimNP np; at = sim_now_ns(); inj = sim_delay_ns() - d0; }, CGRAPH_POOL_TASK_STRATEGY));
      for (auto& f : fs) { if (f.wait_for(std::chrono::seconds(2000) + std::chrono::nanoseconds(sim_delay_ns())) != std::future_status::ready) sim_fail("lost-progress", "a task was not finished"); check_live("while working"); }
      if (room && at - t0 > span * 1000 * 5 + 2 * inj) sim_fail("not-grown", "every core thread was busy and %d more threads are allowed, but a task waited %llu ms (monitor round %d s)", P->c.max_thread_size_ - P->c.default_thread_size_, (unsigned long long)((at - t0) / 1000000), (int)P->c.monitor_span_);
      sim_count(F_CONTENTION);
    }
    P->closed = true;
    if (sim_live_threads()) sim_fail("thread-leak", "%d threads left after the pool was destroyed", sim_live_threads());
}
const uint32_t GENERAL = 1u << COMMIT | 1u << COMMIT_POOL | 1u << COMMIT_ALL | 1u << COMMIT_IDX | 1u << TID_BATCH | 1u << EXEC | 1u << EXEC_POOL;
}
SCENARIO(C22, general) { exactly_once(GENERAL, false, 1, 1); }
SCENARIO(C22, nested) { exactly_once(GENERAL | 1u << GROUP, false, 3, 2); }
SCENARIO(C22, priority) { exactly_once(1u << PRIO | 1u << LONGT | 1u << COMMIT | 1u << COMMIT_ALL, true, 1, 1); }
SCENARIO(C22, everything) { exactly_once(GENERAL | 1u << PRIO | 1u << LONGT | 1u << GROUP, sim_choose(2), 2, 2); }
SCENARIO(C23, busy) { progress(GENERAL, true, false); }
SCENARIO(C23, free) { progress(GENERAL, false, true); }
SCENARIO(C23, idle) { progress_idle(); }
SCENARIO(C24, general) { shutdown(GENERAL, false, false, 0); }
SCENARIO(C24, nested) { shutdown(GENERAL, false, false, 2); }
SCENARIO(C24, secondary) { shutdown(GENERAL | 1u << PRIO | 1u << LONGT, true, false, 2); }
SCENARIO(C24, monitor) { shutdown(GENERAL | 1u << PRIO | 1u << LONGT, true, true, 1); }
SCENARIO(C24, prompt) { shutdown_prompt(); }
SCENARIO(C25, one) { group(1); }
SCENARIO(C25, more) { group(3); }
SCENARIO(C25, spawn) { spawned(); }
SCENARIO(C26, order) { priorities(); }
SCENARIO(C27, manual) { limits(false); }
SCENARIO(C27, monitor) { limits(true); }
SCENARIO_F(C27, grow, SF_NOSTALL) { limits_grow(); }
SCENARIO_F(C27, busy, SF_NOSTALL) { limits_busy(); }
