// Queues (C32), spin lock (C33) and semaphore (C36) used directly.
#include "h.h"
#include <thread>
#include <memory>
#include <set>
using namespace CGraph;
namespace {
struct Val { int from = -1, n = -1, sum = 0; Val() = default; Val(int f, int k) : from(f), n(k), sum(f * 31 + k * 7) {} Val(Val&& o) noexcept { *this = std::move(o); } Val& operator=(Val&& o) noexcept { from = o.from; n = o.n; sum = o.sum; o.from = -2; return *this; } Val(const Val&) = default; Val& operator=(const Val&) = default; };
struct QW { std::vector<std::vector<Val>> got; int producing, pushed, popped, maxed; };
QW* Q;
void take(int idx, const Val& v) { SimNP np; if (v.from < 0 || v.sum != v.from * 31 + v.n * 7) sim_fail("queue-damaged", "a popped value was never pushed (%d/%d)", v.from, v.n); Q->got[idx].push_back(v); Q->popped++; sim_event(idx * 100000 + v.from * 1000 + v.n); sim_log("consumer %d takes %d/%d", idx, v.from, v.n); }
void judge(int np_, const std::vector<int>& cnt, bool ordered) {
    std::set<std::pair<int, int>> seen; int total = 0; for (int c : cnt) total += c;
    for (size_t i = 0; i < Q->got.size(); i++) { std::map<int, int> last; for (Val& v : Q->got[i]) {
        if (v.from >= np_ || v.n < 0 || v.n >= cnt[v.from]) sim_fail("queue-damaged", "value %d/%d was never pushed", v.from, v.n);
        if (!seen.insert({v.from, v.n}).second) sim_fail("queue-duplicate", "value %d of producer %d was popped twice", v.n, v.from);
        if (ordered) { auto it = last.find(v.from); if (it != last.end() && it->second > v.n) sim_fail("queue-order", "consumer %d got value %d of producer %d after value %d", (int)i, v.n, v.from, it->second); last[v.from] = v.n; } } }
    if ((int)seen.size() != total) sim_fail("queue-lost", "%d of %d values came out", (int)seen.size(), total);
}
std::vector<int> counts(int n, int most) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(1 + sim_choose(most)); return v; }
void pause() { if (sim_choose(4) == 1) sim_sleep_us(1u << sim_choose(13)); }
int sum(const std::vector<int>& v) { int s = 0; for (int x : v) s += x; return s; }
std::vector<int> split(int total, int n) { std::vector<int> v; for (int i = 0; i < n; i++) { int k = i + 1 == n ? total : (int)sim_choose(total + 1); total -= k; v.push_back(k); } return v; }
template<int CAP> void lockfree() {
    QW w{}; Q = &w; sim_limit_ms(1000000); sim_hang_class("queue-stuck"); w.got.resize(1);
    { ULockFreeRingBufferQueue<Val, CAP> q; std::vector<int> cnt = {1 + (int)sim_choose(14)};
      std::thread p([&] { for (int i = 0; i < cnt[0]; i++) { pause(); { SimNP np; if (Q->pushed - Q->popped > CAP + 1) sim_fail("queue-overfull", "%d values are stored, capacity %d", Q->pushed - Q->popped, CAP); } q.push(Val(0, i)); SimNP np; Q->pushed++; } });
      std::thread c([&] { for (int i = 0; i < cnt[0];) { pause(); Val v; if (q.tryPop(v)) { take(0, v); i++; } else if (sim_choose(2)) sim_sleep_us(10); else std::this_thread::yield(); } });
      p.join(); c.join(); Val v; if (q.tryPop(v)) sim_fail("queue-duplicate", "a value is left in an empty queue"); judge(1, cnt, true); }
}
}
SCENARIO(C32, lockfree) { switch (sim_choose(4)) { case 0: lockfree<1>(); break; case 1: lockfree<2>(); break; case 2: lockfree<3>(); break; default: lockfree<7>(); } }
SCENARIO(C32, ring) {
    QW w{}; Q = &w; sim_limit_ms(1000000); sim_hang_class("queue-stuck");
    { UAtomicRingBufferQueue<Val> q; CUInt cap = 1 + sim_choose(5); q.setCapacity(cap); if (q.getCapacity() != cap) sim_fail("queue-capacity", "capacity %u after setting %u", q.getCapacity(), cap);
      if (sim_choose(4) == 1) { q.push(std::make_shared<Val>(9, 9), URingBufferPushStrategy::DROP); q.clear(); std::shared_ptr<Val> v; if (q.waitPopWithTimeout(v, 0).isOK()) sim_fail("queue-clear", "a value is left after clear()"); }
      int np = 1 + sim_choose(3), nc = 1 + sim_choose(3); auto cnt = counts(np, 6); auto want = split(sum(cnt), nc); w.got.resize(nc); std::vector<std::thread> th; if (np + nc > 2) sim_count(F_CONTENTION);
      for (int i = 0; i < np; i++) th.emplace_back([&, i] { for (int k = 0; k < cnt[i]; k++) { pause(); q.push(std::make_shared<Val>(i, k), URingBufferPushStrategy::WAIT); SimNP g; Q->pushed++; if (Q->pushed - Q->popped > (int)cap + nc) sim_fail("queue-overfull", "%d values are stored, capacity %u", Q->pushed - Q->popped, cap); } });
      for (int i = 0; i < nc; i++) th.emplace_back([&, i] { for (int k = 0; k < want[i];) { pause(); std::shared_ptr<Val> v; CMSec t = sim_choose(2) ? CGRAPH_MAX_BLOCK_TTL : 20; if (q.waitPopWithTimeout(v, t).isOK()) { if (!v) sim_fail("queue-damaged", "a pop succeeded without a value"); take(i, *v); k++; } else if (t != 20) sim_fail("queue-status", "a pop without limit timed out"); } });
      for (auto& t : th) t.join(); std::shared_ptr<Val> v; if (q.waitPopWithTimeout(v, 0).isOK()) sim_fail("queue-duplicate", "a value is left in an empty queue");
      judge(np, cnt, true); }
}
SCENARIO(C32, blocking) {      // UAtomicQueue: the pool's shared queue
    QW w{}; Q = &w; sim_limit_ms(1000000); sim_hang_class("queue-stuck");
    { UAtomicQueue<Val> q; int np = 1 + sim_choose(3), nc = 1 + sim_choose(3); auto cnt = counts(np, 7); auto want = split(sum(cnt), nc); w.got.resize(nc); std::vector<std::thread> th; if (np + nc > 2) sim_count(F_CONTENTION);
      for (int i = 0; i < np; i++) th.emplace_back([&, i] { for (int k = 0; k < cnt[i]; k++) { pause(); q.push(Val(i, k)); } });
      for (int i = 0; i < nc; i++) th.emplace_back([&, i] { for (int k = 0; k < want[i];) { pause();
          switch (sim_choose(5)) {
              case 0: { Val v; q.waitPop(v); take(i, v); k++; break; }
              case 1: { auto v = q.popWithTimeout(sim_choose(2) ? 20 : 100000000); if (v) { take(i, *v); k++; } break; }
              case 2: { Val v; if (q.tryPop(v)) { take(i, v); k++; } else std::this_thread::yield(); break; }
              case 3: { std::vector<Val> v; if (q.tryPop(v, std::min(3, want[i] - k))) { if (v.empty()) sim_fail("queue-status", "a batch pop succeeded without a value"); for (Val& x : v) { take(i, x); k++; } } else std::this_thread::yield(); break; }
              default: { auto v = q.tryPop(); if (v) { take(i, *v); k++; } else std::this_thread::yield(); } } } });
      for (auto& t : th) t.join(); if (!q.empty()) sim_fail("queue-duplicate", "a value is left in an empty queue");
      judge(np, cnt, true); }
}
SCENARIO(C32, stealing) {      // UWorkStealingQueue: the owner pops from the front, thieves steal from the back
    QW w{}; Q = &w; sim_limit_ms(1000000); sim_hang_class("queue-stuck");
    { UWorkStealingQueue<Val> q; int np = 1 + sim_choose(2), nt = sim_choose(3); auto cnt = counts(np, 9); int total = sum(cnt); w.got.resize(1 + nt); std::vector<std::thread> th; sim_count(F_CONTENTION); bool solo = nt == 0;
      auto all = [&] { SimNP g; return Q->popped >= total; };
      for (int i = 0; i < np; i++) th.emplace_back([&, i] { for (int k = 0; k < cnt[i];) { pause();
          int m = sim_choose(4);
          if (m == 0) { Val v(i, k); if (q.tryPush(std::move(v))) k++; else std::this_thread::yield(); }
          else if (m == 1) { std::vector<Val> vs; int n = std::min(cnt[i] - k, 1 + (int)sim_choose(3)); for (int j = 0; j < n; j++) vs.emplace_back(i, k + j); q.push(vs); k += n; }
          else if (m == 2 && cnt[i] - k >= 2) { int n = std::min(cnt[i] - k, 2 + (int)sim_choose(2)); for (int j = 0; j < n; j++) q.push(Val(i, k + j), j == 0 || j == n - 1, j == 0); k += n; }
          else { q.push(Val(i, k)); k++; } } });
      th.emplace_back([&] { while (!all()) { pause(); if (sim_choose(2)) { Val v; if (q.tryPop(v)) take(0, v); else std::this_thread::yield(); } else { std::vector<Val> v; int m = 1 + sim_choose(3); if (q.tryPop(v, m)) { if (v.empty() || (int)v.size() > m) sim_fail("queue-status", "a batch pop of at most %d returned %d values", m, (int)v.size()); for (Val& x : v) take(0, x); } else std::this_thread::yield(); } } });
      for (int i = 1; i <= nt; i++) th.emplace_back([&, i] { while (!all()) { pause(); if (sim_choose(2)) { Val v; if (q.trySteal(v)) take(i, v); else std::this_thread::yield(); } else { std::vector<Val> v; int m = 1 + sim_choose(3); if (q.trySteal(v, m)) { if (v.empty() || (int)v.size() > m) sim_fail("queue-status", "a batch steal of at most %d returned %d values", m, (int)v.size()); for (Val& x : v) take(i, x); } else std::this_thread::yield(); } } });
      for (auto& t : th) t.join(); if (!q.isEmpty()) sim_fail("queue-duplicate", "a value is left in an empty queue");
      judge(np, cnt, false); if (solo) judge(np, cnt, true); }
}
SCENARIO(C33, exclusion) {
    sim_limit_ms(1000000); sim_hang_class("lock-stuck");
    USpinLock l; int n = 2 + sim_choose(3), rounds = 1 + sim_choose(5); struct S { int holder, in, tries, max_wait; uint64_t t; } s{-1, 0, 0, 0, 0}; std::vector<std::thread> th; int plain = 0, expect = 0; sim_count(F_CONTENTION);
    bool slow = sim_choose(2);
    for (int i = 0; i < n; i++) th.emplace_back([&, i] { for (int k = 0; k < rounds; k++) {
        if (sim_choose(4) == 1) sim_sleep_us(1u << sim_choose(10));
        bool got = true; uint64_t b, free_b; { SimNP np; b = sim_seq(); free_b = s.holder < 0; } (void)b; (void)free_b;
        if (sim_choose(3) == 1) { got = l.tryLock(); } else l.lock();
        if (!got) { sim_probe(1); continue; }
        { SimNP np; if (s.holder >= 0) sim_fail("lock-exclusion", "thread %d entered while thread %d holds the lock", i, s.holder); s.holder = i; s.in++; sim_event(i); sim_log("%d enters", i); }
        plain++;                        // unprotected if the lock does not exclude
        if (slow && sim_choose(3) == 1) sim_sleep_us(1u << sim_choose(10)); else if (sim_choose(2)) sim_point();
        if (l.tryLock()) sim_fail("lock-truth", "try-lock succeeded although the lock is held");
        { SimNP np; s.holder = -1; expect++; sim_log("%d leaves", i); }
        l.unlock(); } });
    for (auto& t : th) t.join();
    if (plain != expect) sim_fail("lock-exclusion", "%d increments under the lock, %d counted", expect, plain);
    if (!l.tryLock()) sim_fail("lock-truth", "try-lock failed although nobody holds the lock");
    l.unlock(); l.lock(); l.unlock();
}
SCENARIO_F(C33, patient, SF_NOPLAIN | SF_SPIN | SF_NOSTALL) {      // a critical section that lasts very long: waiters keep waiting
    sim_limit_ms(1000); sim_hang_class("lock-stuck");
    USpinLock l; int n = 1 + sim_choose(2), holder = -1; std::vector<std::thread> th; bool in = false; sim_count(F_CONTENTION);
    auto enter = [&](int i) { SimNP np; if (holder >= 0) sim_fail("lock-exclusion", "thread %d entered while thread %d holds the lock", i, holder); holder = i; in = true; };
    auto leave = [&] { { SimNP np; holder = -1; } l.unlock(); };
    l.lock(); enter(0);
    for (int i = 1; i <= n; i++) th.emplace_back([&, i] { if (sim_choose(3) == 1) while (!l.tryLock()) sim_sleep_us(1000); else l.lock(); enter(i); leave(); });
    sim_sleep_us(sim_choose(4) == 1 ? 500000 : 10000 << sim_choose(5)); sim_count(F_SLOW); leave();
    for (auto& t : th) t.join();
    if (!l.tryLock()) sim_fail("lock-truth", "try-lock failed although nobody holds the lock");
    l.unlock();
}
SCENARIO(C36, counting) {
    sim_limit_ms(1000000); sim_hang_class("semaphore-stuck");
    USemaphore sm; int ns = 1 + sim_choose(3), nw = 1 + sim_choose(3); std::vector<int> sg = counts(ns, 5); int total = sum(sg); std::vector<int> wt = split(total, nw); struct { int began, left; } s{0, 0}; std::vector<std::thread> th; sim_count(F_CONTENTION);
    for (int i = 0; i < nw; i++) th.emplace_back([&, i] { for (int k = 0; k < wt[i]; k++) { pause(); sm.wait(); SimNP np; s.left++; sim_event(i); if (s.left > s.began) sim_fail("semaphore-early", "%d waits returned after %d signals", s.left, s.began); } });
    for (int i = 0; i < ns; i++) th.emplace_back([&, i] { for (int k = 0; k < sg[i]; k++) { pause(); { SimNP np; s.began++; } sm.signal(); } });
    for (auto& t : th) t.join();
    bool back = false; std::thread extra([&] { sm.wait(); SimNP np; back = true; }); sim_sleep_us(3000000);      // nothing is left to take
    { SimNP np; if (back) sim_fail("semaphore-early", "a wait returned without a signal"); } sm.signal(); extra.join();
}
