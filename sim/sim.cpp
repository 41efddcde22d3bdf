// Deterministic simulator runtime. Compiled WITHOUT instrumentation and without STL containers (no inline code is
// shared with the code under test). It provides
//   * the __tsan_* entry points that the compiler's thread instrumentation calls (no libtsan is linked): every
//     atomic operation is a scheduling point, every plain access a possible preemption point and a heap check,
//   * pthread / futex / clock / sleep / random_device / operator new interposition,
//   * a seeded scheduler over real OS threads passing a baton (exactly one runs), simulated time, fault injection,
//   * recording and replay of every non-default decision, and a fork-per-run server.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>

extern "C" char __libc_single_threaded;

const char* const sim_fault_names[F_NKINDS] = {
    "spurious_wakeup", "thread_stall", "late_timer", "alloc_failure", "thread_create_failure", "callback_error",
    "callback_positive_status", "callback_exception", "slow_callback", "cancel", "suspend_resume",
    "timeout_in_flight", "shutdown_in_flight", "disk_open_error", "disk_write_error", "disk_short_write",
    "disk_torn_file", "disk_read_error", "disk_flip", "init_or_destroy_failure", "starved", "caller_contention",
    "clock_jump", "field_damage"};

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

// ------------------------------------------------------------------ raw syscalls (libc's syscall() is interposed)
static inline long rawsys6(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static inline void fwait(int* p, int v) { rawsys6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static inline void fwake(int* p) { rawsys6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ------------------------------------------------------------------ PRNG
static inline u64 sm64(u64& s) { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Rng { u64 s; u64 next() { return sm64(s); } u32 below(u32 n) { return n <= 1 ? 0 : (u32)(((next() >> 32) * n) >> 32); } };

// ------------------------------------------------------------------ shared result block
enum { FAIR = 20000, MAXW = 65536, MAXR = 400000, MAXT = 640 };
struct Rec { u32 tid; u32 type; u64 key; u64 param; };        // type: 1 switch, 2 signal pick, 16+k fault kind k
struct Shared {
    volatile int status; u64 cfg;        // 0 not finished, 1 ok, 2 violation, 3 infrastructure error
    char cls[96]; char msg[2048];
    u64 now, steps, points, switches, hash, behav, objs;
    u64 faults[F_NKINDS]; u64 probes[64];
    u32 nthreads;
    int npcs; void* pcs[40];
    int nblk; int blk_tid[MAXT]; int blk_npcs[MAXT]; void* blk_pcs[MAXT][24];
    u32 nw, nr, trunc; u32 w[MAXW]; Rec r[MAXR];
};
static Shared* sh;

// ------------------------------------------------------------------ threads
enum St { T_NONE, T_RUN, T_MUTEX, T_COND, T_FUTEX, T_SLEEP, T_JOIN, T_RD, T_WR, T_ONCE, T_DONE };
static const char* const st_names[] = {"none", "run", "mutex", "cond", "futex", "sleep", "join", "rdlock", "wrlock", "once", "done"};
struct Thr {
    int id; St st; int fut; const void* obj; u64 deadline; u64 stall; bool timed_out, detached, joined;
    u64 wseq; void* (*fn)(void*); void* arg; void* ret; pthread_t real;
    u64 points, next_ev; int np; int prio; u64 since; u32 rcur;         // rcur: replay cursor in this thread's record list
    u32 rbeg, rend; const void* spin_obj; u32 spin_n;
    int nblk; void* blk[24];
};
static const u64 NEVER = ~0ull;
struct Sim {
    bool active, replay, record, verbose;
    u64 seed; Rng rs, rw, rf; Thr t[MAXT]; int nt; Thr* cur;
    u64 now, steps, last_jump, switches, hash, behav, seq, wseq, limit, step_limit, points_done;
    int mode; u32 sw_den, plain_den, stall_den, spur_den, late_den, burst, alloc_den, create_den, alloc_seq; u64 burst_left; u64 inj; u32 lone; int pct_n; u64 pct_at[16];
    int addr_mode; u64 addr_seed; bool faults; const char* hang; u32 iw; int live; int flags;
    u32 rd_ctr; u64 wall_jump; bool in_fail; u32 streak; u64 delay; u32 npend; struct { u64 b, e; } pend[128];
};
static Sim S;
static Rec* RP; static u32 RPn; static u32* RWp; static u32 RWn;   // replay input
static SimScenario* scen_head; static SimScenario* scen_tab[512]; static int nscen;
void sim_register(SimScenario* s) { s->next = scen_head; scen_head = s; }

static u64 STEP_NS = 200;
static pthread_key_t tkey;
static __thread Thr* tself;

// real functions
#define REAL(ret, name, ...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t r_##name
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
REAL(int, pthread_join, pthread_t, void**);
REAL(int, pthread_detach, pthread_t);
REAL(pthread_t, pthread_self, void);
REAL(int, clock_gettime, clockid_t, struct timespec*);
REAL(ssize_t, write, int, const void*, size_t);
REAL(ssize_t, writev, int, const struct iovec*, int);
REAL(ssize_t, read, int, void*, size_t);
REAL(FILE*, fopen, const char*, const char*);
REAL(FILE*, fopen64, const char*, const char*);
REAL(int, fclose, FILE*);
static void resolve() {
    static bool done; if (done) return; done = true;
#define RS(n) r_##n = (n##_t)dlsym(RTLD_NEXT, #n)
    RS(pthread_create); RS(pthread_join); RS(pthread_detach); RS(pthread_self); RS(clock_gettime);
    RS(write); RS(writev); RS(read); RS(fopen); RS(fopen64); RS(fclose);
}

// ------------------------------------------------------------------ failure
static void finish(int st) { sh->now = S.now; sh->steps = S.steps; u64 p = 0; for (int i = 0; i < S.nt; i++) p += S.t[i].points; sh->points = p; sh->switches = S.switches; sh->hash = S.hash; sh->behav = S.behav; sh->nthreads = S.nt; sh->status = st; }
[[noreturn]] static void die(int st) { finish(st); _exit(0); }
[[noreturn]] static void vfail(int st, const char* cls, const char* fmt, va_list ap) {
    if (S.in_fail) _exit(0);
    S.in_fail = true; S.active = false;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    if (S.verbose) {
        sh->npcs = backtrace(sh->pcs, 40);
        for (int i = 0; i < S.nt && sh->nblk < MAXT; i++) if (&S.t[i] != S.cur && S.t[i].st != T_DONE && S.t[i].nblk) {
            int k = sh->nblk++; sh->blk_tid[k] = i; sh->blk_npcs[k] = S.t[i].nblk; memcpy(sh->blk_pcs[k], S.t[i].blk, sizeof S.t[i].blk);
        }
    }
    die(st);
}
[[noreturn]] void sim_fail(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(2, cls, fmt, ap); }
[[noreturn]] static void infra(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(3, cls, fmt, ap); }
static void slog(const char* fmt, ...) { if (!S.verbose) return; va_list ap; va_start(ap, fmt); char b[512]; int n = snprintf(b, sizeof b, "[%12.6f ms #%llu T%d] ", S.now / 1e6, (unsigned long long)S.steps, S.cur ? S.cur->id : -1); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); if (n > (int)sizeof b - 2) n = sizeof b - 2; b[n++] = '\n'; if (r_write) r_write(2, b, n); va_end(ap); }
void sim_log(const char* fmt, ...) { if (!S.verbose) return; va_list ap; va_start(ap, fmt); char b[400]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); slog("%s", b); }
static void describe_threads(char* b, size_t n) { size_t o = 0; b[0] = 0; for (int i = 0; i < S.nt && o < n; i++) o += snprintf(b + o, n - o, " T%d:%s%s", i, st_names[S.t[i].st], S.t[i].deadline != NEVER && S.t[i].st != T_RUN && S.t[i].st != T_DONE ? "(timed)" : ""); }
[[noreturn]] static void hang(const char* why) { char b[1200]; describe_threads(b, sizeof b); char cls[96]; snprintf(cls, sizeof cls, "hang:%s", S.hang ? S.hang : "run"); sim_fail(cls, "%s after %llu ms simulated, %llu steps;%s", why, (unsigned long long)(S.now / 1000000), (unsigned long long)S.steps, b); }

// ------------------------------------------------------------------ arena heap
static u8* const ARENA = (u8*)0x100000000000ull; static const u64 ARENA_SZ = 8ull << 30;
static u8* const SHADOW = (u8*)0x200000000000ull;
static const int NSUB = 16; static const u64 SUB = ARENA_SZ / NSUB;
static u64 abump[NSUB]; static bool arena_up; static u64 live_objs, live_bytes, alloc_ctr;
struct Hdr { u64 size; u32 magic; u32 id; };
static void arena_init() {
    if (arena_up) return; arena_up = true;
    void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(SHADOW, ARENA_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != ARENA || b != SHADOW) { static const char m[] = "sim: cannot map arena\n"; rawsys6(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); _exit(97); }
}
static inline bool in_arena(const void* p) { return (u64)((u8*)p - ARENA) < ARENA_SZ; }
bool sim_freed(const void* p) { return in_arena(p) && SHADOW[((u8*)p - ARENA) >> 4] == 2; }
u64 sim_live_bytes() { return live_bytes; }
u64 sim_live_objects() { return live_objs; }
[[noreturn]] static void bad_access(const void* p, size_t n, const char* what) {
    u8 s = SHADOW[((u8*)p - ARENA) >> 4];
    const char* k = s == 2 ? "use-after-free" : "heap-out-of-bounds";
    sim_fail(k, "%s: %s of %zu bytes at %p", k, what, n, p);
}
static inline void chk(const void* p, size_t n, const char* what) {
    if (unlikely(in_arena(p)) && S.active && unlikely(SHADOW[((u8*)p - ARENA) >> 4] != 1)) bad_access(p, n, what);
}
static inline void chk_range(const void* p, size_t n, const char* what) {
    if (!n || !in_arena(p) || !S.active) return;
    u64 a = ((u8*)p - ARENA) >> 4, b = ((u8*)p + n - 1 - ARENA) >> 4;
    for (u64 i = a; i <= b; i++) if (SHADOW[i] != 1) bad_access(ARENA + (i << 4), n, what);
}
static void* arena_alloc(size_t n, size_t align) {
    arena_init();
    int sub = 0;
    if (S.active && S.addr_mode == 2 && n >= 128) sub = (int)((alloc_ctr * 7 + S.addr_seed) % NSUB);
    else if (S.active && S.addr_mode == 3) { u64 z = S.addr_seed ^ (alloc_ctr * 0x9E3779B97F4A7C15ull); sub = (int)(sm64(z) % NSUB); }
    alloc_ctr++;
    if (align < 16) align = 16;
    u64 sz = (n + 15) & ~15ull; if (!sz) sz = 16;
    u64 need = 16 + sz + 16 + (align > 16 ? align : 0);           // header, payload, redzone
    bool down = S.active && S.addr_mode == 1;
    u8* base;
    static u64 topbump;
    if (down) { topbump += need; if (topbump > SUB / 2) infra("arena", "arena exhausted"); base = ARENA + ARENA_SZ - topbump; base = (u8*)((u64)base & ~15ull); }
    else { base = ARENA + sub * SUB + abump[sub]; abump[sub] += need; if (abump[sub] > SUB / 2) infra("arena", "arena exhausted"); }
    u8* p = (u8*)(((u64)base + 16 + align - 1) & ~(u64)(align - 1));
    Hdr* h = (Hdr*)(p - 16); h->size = n; h->magic = 0xA110C8ED; h->id = (u32)alloc_ctr;
    u64 g = (p - ARENA) >> 4; memset(SHADOW + g, 1, sz >> 4);
    live_objs++; live_bytes += n;
    if (S.active) memset(p, 0xCD, n);
    return p;
}
static void arena_free(void* p) {
    if (!p) return;
    if (!in_arena(p)) { if (S.active) sim_fail("bad-free", "free of %p which is not a heap object", p); return; }
    Hdr* h = (Hdr*)((u8*)p - 16); u64 g = ((u8*)p - ARENA) >> 4;
    if (SHADOW[g] == 2) { if (S.active) sim_fail("double-free", "object freed twice: %p", p); return; }
    if (h->magic != 0xA110C8ED || SHADOW[g] != 1) { if (S.active) sim_fail("bad-free", "free of invalid pointer or overwritten header: %p", p); return; }
    u64 sz = (h->size + 15) & ~15ull; if (!sz) sz = 16;
    memset(SHADOW + g, 2, sz >> 4);
    if (S.active) memset(p, 0xDB, h->size);
    live_objs--; live_bytes -= h->size; h->magic = 0xDEADF4EE;
}
static bool alloc_fault();
void* operator new(size_t n) { return arena_alloc(n, 16); }
void* operator new[](size_t n) { return arena_alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (n > (1ull << 29)) return nullptr; if (unlikely(S.alloc_den) && alloc_fault()) return nullptr; return arena_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (n > (1ull << 29)) return nullptr; if (unlikely(S.alloc_den) && alloc_fault()) return nullptr; return arena_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return arena_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return arena_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { arena_free(p); }
void operator delete[](void* p) noexcept { arena_free(p); }
void operator delete(void* p, size_t) noexcept { arena_free(p); }
void operator delete[](void* p, size_t) noexcept { arena_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arena_free(p); }

// ------------------------------------------------------------------ record / replay of decisions
static void rec(Thr* t, u32 type, u64 key, u64 param) {
    if (!S.record) return;
    if (sh->nr >= MAXR) { sh->trunc = 1; return; }
    Rec& r = sh->r[sh->nr++]; r.tid = t->id; r.type = type; r.key = key; r.param = param;
}
static bool rep(Thr* t, u32 type, u64* param) {           // replay: a recorded decision for t at its current point?
    for (u32 i = t->rcur; i < t->rend && RP[i].key <= t->points; i++) {
        if (RP[i].key < t->points) { t->rcur = i + 1; continue; }
        if (RP[i].type == type) { *param = RP[i].param; return true; }
    }
    return false;
}
static void rep_sync(Thr* t) { while (t->rcur < t->rend && RP[t->rcur].key < t->points) t->rcur++; t->next_ev = t->rcur < t->rend ? RP[t->rcur].key : NEVER; }
static void count_fault(int k) { sh->faults[k]++; }
static bool env_fault(Thr* t, SimFault k, u32 den, u64 value_if, u64* value) {   // environment fault at this point?
    if (S.replay) { u64 v; if (rep(t, 16 + k, &v)) { *value = v; count_fault(k); return true; } return false; }
    if (!den || !S.faults) return false;
    if (S.rf.below(den) != 0) return false;
    *value = value_if; rec(t, 16 + k, t->points, value_if); count_fault(k); return true;
}
static u64 stall_len() { u32 e = S.rf.below(8); static const u64 base[8] = {2000, 20000, 200000, 2000000, 20000000, 200000000, 700000000, 1500000000}; return base[e] + S.rf.next() % base[e]; }

// Injected delays stop before they alone can use up the time a run is given: the faults end, then progress is demanded.
static bool afford(u64 d) { if (S.inj + d > S.limit / 8) return false; S.inj += d; return true; }

// ------------------------------------------------------------------ scheduler
static inline int mtx_owner(const void* m) { return ((pthread_mutex_t*)m)->__data.__owner; }
struct RW { u32 magic; int readers; int writer; };
static bool eligible(Thr* t) {
    switch (t->st) {
        case T_RUN: return t->stall <= S.now;
        case T_MUTEX: if (t->stall > S.now) return false; return sim_freed(t->obj) || mtx_owner(t->obj) == 0 || t->deadline <= S.now;
        case T_COND: case T_FUTEX: case T_SLEEP: return t->deadline <= S.now;
        case T_JOIN: return S.t[(long)t->obj].st == T_DONE;
        case T_RD: return sim_freed(t->obj) || ((RW*)t->obj)->writer == 0 || t->deadline <= S.now;
        case T_WR: return sim_freed(t->obj) || (((RW*)t->obj)->writer == 0 && ((RW*)t->obj)->readers == 0) || t->deadline <= S.now;
        case T_ONCE: return *(volatile int*)t->obj != 1;
        default: return false;
    }
}
static u64 next_wakeup() {
    u64 m = NEVER;
    for (int i = 0; i < S.nt; i++) {
        Thr* t = &S.t[i];
        if (t->st == T_DONE || t->st == T_NONE) continue;
        if ((t->st == T_RUN || t->st == T_MUTEX) && t->stall > S.now && t->stall < m) m = t->stall;
        if (t->st != T_RUN && t->deadline != NEVER && t->deadline > S.now && t->deadline < m) m = t->deadline;
    }
    return m;
}
static u64 next_worker() {        // the next thread that goes on with its own work: one that was stalled or sleeps, not one that waits for a signal
    u64 m = NEVER;
    for (int i = 0; i < S.nt; i++) {
        Thr* t = &S.t[i];
        if ((t->st == T_RUN || t->st == T_MUTEX) && t->stall > S.now && t->stall < m) m = t->stall;
        if (t->st == T_SLEEP && t->deadline != NEVER && t->deadline > S.now && t->deadline < m) m = t->deadline;
    }
    return m == NEVER ? next_wakeup() : m;
}
static void set_next_ev(Thr* t) {
    if (S.replay) { rep_sync(t); return; }
    t->next_ev = NEVER;
    if (S.plain_den) { u64 g = 1 + S.rs.next() % (2ull * S.plain_den); t->next_ev = t->points + g; }
}
static void hand_to(Thr* me, Thr* nx, bool exiting) {
    if (nx == me) return;
    S.switches++; S.lone = 0;
    if (S.verbose) slog("-> T%d", nx->id);
    S.cur = nx; nx->spin_n = 0; nx->since = 0; S.streak = 0;
    __atomic_store_n(&nx->fut, 1, __ATOMIC_SEQ_CST); fwake(&nx->fut);
    if (exiting) return;
    while (__atomic_load_n(&me->fut, __ATOMIC_SEQ_CST) == 0) fwait(&me->fut, 0);
    __atomic_store_n(&me->fut, 0, __ATOMIC_SEQ_CST);
}
static inline void mix(u64 v) { S.hash = (S.hash ^ v) * 0x100000001b3ull; S.hash ^= S.hash >> 29; }
// choose the next thread. me may or may not be eligible. yield: prefer somebody else by default.
static Thr* pick(Thr* me, bool yield, bool force_rand) {
    Thr* el[MAXT]; int n = 0; bool me_ok = false;
    for (;;) {
        n = 0; me_ok = false;
        for (int i = 0; i < S.nt; i++) if (eligible(&S.t[i])) { el[n++] = &S.t[i]; if (&S.t[i] == me) me_ok = true; else if (!S.t[i].since) S.t[i].since = S.steps + 1; } else S.t[i].since = 0;
        if (n > 1 || (n == 1 && !(yield && me_ok))) break;
        u64 w = next_wakeup();
        if (n == 0) {
            if (w == NEVER) hang("deadlock: no thread can run");
            if (w > S.limit) { S.now = S.limit; hang("no progress within the simulated-time budget"); }
            S.now = w;
        } else {                           // spinning alone: let time pass to the next event, if any
            u64 d = 1000ull << (S.lone < 34 ? S.lone : 34); S.lone++;      // the longer it spins, the longer the steps
            S.now = w == NEVER || w - S.now > d ? S.now + d : w;
            if (S.now > S.limit) hang("no progress within the simulated-time budget (spinning)");
            yield = false;
        }
    }
    Thr* def = nullptr;
    if (me_ok && !yield) def = me;
    else { for (int k = 1; k <= S.nt && !def; k++) { Thr* c = &S.t[(me->id + k) % S.nt]; for (int i = 0; i < n; i++) if (el[i] == c) def = c; } }
    if (n == 1) return el[0];
    Thr* ch = def;
    if (S.replay) { u64 p; if (rep(me, 1, &p)) for (int i = 0; i < n; i++) if (el[i]->id == (int)p) ch = el[i]; return ch; }
    switch (S.mode) {
        case 0:                            // random walk
            if (yield || !me_ok || force_rand || S.rs.below(S.sw_den) == 0) { ch = el[S.rs.below(n)]; if (yield && ch == me) ch = def; }
            break;
        case 1: {                          // priorities with change points
            if (yield) me->prio = --S.pct_n;
            for (int i = 0; i < 16; i++) if (S.pct_at[i] && S.steps >= S.pct_at[i]) { S.pct_at[i] = 0; me->prio = --S.pct_n; }
            Thr* best = nullptr;
            for (int i = 0; i < n; i++) { if (yield && el[i] == me && n > 1) continue; if (!best || el[i]->prio > best->prio) best = el[i]; }
            ch = best;
            if (force_rand) { ch = el[S.rs.below(n)]; me->prio = --S.pct_n; }
            break; }
        default:                           // long bursts
            if (yield || !me_ok || force_rand) { ch = el[S.rs.below(n)]; if (yield && ch == me) ch = def; }
            else if (S.burst_left == 0) { S.burst_left = 1 + S.rs.next() % (2ull * S.burst); ch = el[S.rs.below(n)]; }
            else S.burst_left--;
            break;
    }
    // The scheduler is fair: a thread that could run is not passed over for ever, whatever the mode.
    Thr* old = nullptr;
    for (int i = 0; i < n; i++) if (el[i] != me && S.steps > el[i]->since + FAIR && (!old || el[i]->since < old->since)) old = el[i];
    if (old) { ch = old; if (S.mode == 1 && me_ok) me->prio = --S.pct_n; }
    if (ch != def) rec(me, 1, me->points, ch->id);
    return ch;
}
enum Kind { K_LOCK = 1, K_UNLOCK, K_TRY, K_CWAIT, K_SIGNAL, K_BCAST, K_CREATE, K_JOIN, K_YIELD, K_SLEEP, K_ATOMIC, K_FUTEX, K_ONCE, K_EXIT, K_PLAIN, K_USER, K_RW, K_BLOCK, K_CLOCK };
static inline void budget() {
    if (unlikely(S.steps > S.step_limit)) hang("step budget exhausted");
    if (unlikely(S.now > S.limit)) hang("no progress within the simulated-time budget");
}
// Injected delay that has already elapsed (an interval still open counts up to now), so that the difference of two
// readings covers every injected delay between them wherever it started.
static void add_delay(u64 from, u64 len) {
    if (!len) return;
    if (S.npend == 128) { u32 k = 0; for (u32 i = 0; i < S.npend; i++) if (S.pend[i].e <= S.now) S.delay += S.pend[i].e - S.pend[i].b; else S.pend[k++] = S.pend[i]; S.npend = k; if (k == 128) { S.delay += S.pend[0].e - S.pend[0].b; S.pend[0] = S.pend[--S.npend]; } }
    S.pend[S.npend].b = from; S.pend[S.npend++].e = from + len < from ? NEVER : from + len;
}
static void maybe_stall(Thr* me) {
    u64 d;
    if (S.replay) { if (rep(me, 16 + F_STALL, &d)) { count_fault(F_STALL); me->stall = S.now + d; add_delay(S.now, d); } return; }
    if (S.stall_den && S.faults && S.nt > 1 && S.rf.below(S.stall_den) == 0) { d = stall_len(); if (!afford(d)) return; rec(me, 16 + F_STALL, me->points, d); count_fault(F_STALL); me->stall = S.now + d; add_delay(S.now, d); }
}
static void point(int kind, const void* obj, bool yield = false) {
    if (!S.active) return;
    Thr* me = S.cur;
    me->points++; S.steps++; S.now += STEP_NS; mix((u64)me->id * 64 + kind);
    budget();
    if (unlikely(S.steps - S.last_jump > 50000) && !(S.flags & SF_SPIN)) {      // threads that spin while others sleep or stall: let the time pass that this takes
        S.last_jump = S.steps; u64 w = next_worker();
        if (w != NEVER && w > S.now && w <= S.limit) { add_delay(S.now, w - S.now); S.now = w; }
    }
    if (me->np) return;
    if (S.replay) rep_sync(me);
    if (kind == K_ATOMIC || kind == K_TRY || kind == K_CLOCK) { if (obj == me->spin_obj) { if (++me->spin_n > 40) { yield = true; me->spin_n = 0; } } else { me->spin_obj = obj; me->spin_n = 0; } }
    if (S.nt < 2) return;
    if (unlikely(++S.streak > 2000)) { yield = true; S.streak = 0; }       // time-slice end: the scheduler is fair
    maybe_stall(me);
    Thr* nx = pick(me, yield, false);
    hand_to(me, nx, false);
}
static void __attribute__((noinline)) plain_slow() {
    Thr* me = S.cur;
    if (S.replay) {
        if (me->np || S.nt < 2) { rep_sync(me); return; }
        rep_sync(me);
        if (me->rcur < me->rend && RP[me->rcur].key == me->points) {
            S.steps++; mix((u64)me->id * 64 + K_PLAIN);
            budget(); maybe_stall(me);
            Thr* nx = pick(me, false, false);
            while (me->rcur < me->rend && RP[me->rcur].key <= me->points) me->rcur++;
            me->next_ev = me->rcur < me->rend ? RP[me->rcur].key : NEVER;
            hand_to(me, nx, false);
        }
        return;
    }
    set_next_ev(me);
    if (me->np || S.nt < 2) return;
    // a plain-access preemption: record even when the pick is "me" so that replay performs the same steps
    S.steps++; mix((u64)me->id * 64 + K_PLAIN);
    budget();
    rec(me, 3, me->points, 0);
    maybe_stall(me);
    Thr* nx = pick(me, false, true);
    hand_to(me, nx, false);
}
static inline void plain(const void* p, size_t n, const char* what) {
    if (likely(S.active)) {
        Thr* me = S.cur;
        if (unlikely(++me->points >= me->next_ev)) plain_slow();
        chk(p, n, what);
    }
}
static void block(Thr* me, St st, const void* obj, u64 deadline) {    // returns when scheduled again
    me->points++; S.steps++; S.now += STEP_NS; mix((u64)me->id * 64 + K_BLOCK + 32 * (int)st);
    budget();
    S.lone = 0; me->st = st; me->obj = obj; me->deadline = deadline; me->timed_out = false; me->wseq = ++S.wseq;
    if (S.replay) rep_sync(me);
    if (S.verbose) { S.active = false; me->nblk = backtrace(me->blk, 24); S.active = true; slog("blocks: %s %p%s", st_names[st], obj, deadline != NEVER ? " (timed)" : ""); }
    Thr* nx = pick(me, false, true);
    hand_to(me, nx, false);
    // scheduled: either condition satisfied or deadline passed
    if (me->st == T_COND || me->st == T_FUTEX || me->st == T_SLEEP) me->timed_out = true;
    me->st = T_RUN; me->deadline = NEVER; me->obj = nullptr;
}
static Thr* self() { return S.cur; }

// ------------------------------------------------------------------ public helpers
u64 sim_now_ns() { return S.now; }
u64 sim_seq() { return ++S.seq; }
int sim_tid() { return S.cur ? S.cur->id : 0; }
int sim_live_threads() { return S.live; }
void sim_limit_ms(u64 ms) { S.limit = S.now + ms * 1000000ull; }
void sim_hang_class(const char* w) { S.hang = w; }
void sim_event(u64 h) { S.behav = (S.behav ^ h) * 0x100000001b3ull; S.behav ^= S.behav >> 31; }
void sim_probe(int id) { if (id >= 0 && id < 64) sh->probes[id]++; }
bool sim_faults_on() { return S.faults; }
void sim_nopreempt(int d) { if (S.active) S.cur->np += d; }
void sim_point() { point(K_USER, nullptr); }
void sim_count(SimFault k) { count_fault(k); }
u32 sim_choose(u32 n) {
    u32 v;
    if (S.replay && RWp) { v = S.iw < RWn ? RWp[S.iw] : 0; if (n && v >= n) v = n - 1; if (!n) v = 0; }
    else v = S.rw.below(n);
    S.iw++;
    if (S.record) { if (sh->nw < MAXW) sh->w[sh->nw++] = v; else sh->trunc = 1; }
    return v;
}
u32 sim_rand(u32 n) { return sim_choose(n); }
static u64 late0(Thr* me) { u64 v = 0; if (S.replay) { if (!rep(me, 16 + F_LATE_TIMER, &v)) return 0; count_fault(F_LATE_TIMER); return v; } if (S.late_den && S.faults && S.rf.below(S.late_den) == 0) { v = stall_len() / 4; if (!afford(v)) return 0; rec(me, 16 + F_LATE_TIMER, me->points, v); count_fault(F_LATE_TIMER); return v; } return 0; }
static u64 late(Thr* me, u64 base) { u64 v = late0(me); add_delay(base, v); return v; }
u64 sim_delay_ns() { u64 d = S.delay; for (u32 i = 0; i < S.npend; i++) if (S.pend[i].b < S.now) d += (S.pend[i].e < S.now ? S.pend[i].e : S.now) - S.pend[i].b; return d; }
static void sim_sleep_ns(u64 ns) {
    if (!S.active) return;
    Thr* me = self();
    me->points++; if (S.replay) rep_sync(me);
    u64 d = S.now + ns; if (d < S.now) d = NEVER; else { d += late(me, d); if (d < S.now) d = NEVER; }
    block(me, T_SLEEP, nullptr, d);
}
void sim_sleep_us(u64 us) { if (us) sim_sleep_ns(us * 1000); else point(K_USER, nullptr); }
static bool alloc_fault() {
    if (!S.active) return false;
    Thr* me = self(); me->points++; if (S.replay) rep_sync(me);      // several allocations may follow one another without a scheduling point
    u64 v; if (S.alloc_seq >= 2) { S.alloc_seq = 0; return false; }            // memory pressure is transient: CAllocator tries three times
    if (!env_fault(me, F_ALLOC, S.alloc_den, 1, &v)) { S.alloc_seq = 0; return false; }
    S.alloc_seq++; return true;
}
void sim_alloc_faults(u32 den) { S.alloc_den = den; }
u64 sim_fault_count(SimFault k) { return sh->faults[k]; }
void sim_create_faults(u32 den) { S.create_den = den; }
void sim_wall_jump_ms(long long ms) { S.wall_jump += (u64)(ms * 1000000ll); count_fault(F_CLOCK_JUMP); }

// ------------------------------------------------------------------ pthread interposition
extern "C" {

pthread_t pthread_self(void) {
    resolve();
    if (S.active && tself) return (pthread_t)(0x7000 + tself->id * 0x100);
    return r_pthread_self ? r_pthread_self() : 0;
}
static void thread_done(void* p) {        // TLS destructor: last thing a thread does
    Thr* me = (Thr*)p;
    if (!S.active) return;
    me->points++; S.steps++; mix((u64)me->id * 64 + K_EXIT);
    me->st = T_DONE; S.live--;
    if (S.replay) rep_sync(me);
    Thr* nx = pick(me, false, true);
    hand_to(me, nx, true);
}
static void* trampoline(void* p) {
    Thr* me = (Thr*)p;
    tself = me;
    while (__atomic_load_n(&me->fut, __ATOMIC_SEQ_CST) == 0) fwait(&me->fut, 0);
    __atomic_store_n(&me->fut, 0, __ATOMIC_SEQ_CST);
    pthread_setspecific(tkey, me);
    me->ret = me->fn(me->arg);
    return me->ret;
}
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    resolve();
    if (!S.active) return r_pthread_create(out, attr, fn, arg);
    Thr* me = self();
    u64 v; me->points++; if (S.replay) rep_sync(me);
    if ((S.create_den || S.replay) && env_fault(me, F_THREAD_CREATE, S.create_den, 1, &v)) return EAGAIN;
    if (S.nt >= MAXT) infra("threads", "too many threads");
    Thr* t = &S.t[S.nt]; memset(t, 0, sizeof *t);
    t->id = S.nt; t->fn = fn; t->arg = arg; t->deadline = NEVER; t->next_ev = NEVER;
    t->prio = 1000 + (int)S.rs.below(1000);
    if (S.replay) { t->rbeg = 0; while (t->rbeg < RPn && RP[t->rbeg].tid < (u32)t->id) t->rbeg++; t->rend = t->rbeg; while (t->rend < RPn && RP[t->rend].tid == (u32)t->id) t->rend++; t->rcur = t->rbeg; }
    set_next_ev(t);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    int r = r_pthread_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (r) infra("threads", "real pthread_create failed: %d", r);
    t->st = T_RUN; S.nt++; S.live++;
    if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
    *out = (pthread_t)(0x7000 + t->id * 0x100);
    if (S.verbose) slog("creates T%d", t->id);
    point(K_CREATE, nullptr);
    return 0;
}
static int id_of(pthread_t p) { long v = (long)p; if (v < 0x7000 || ((v - 0x7000) & 0xff)) return -1; int i = (int)((v - 0x7000) >> 8); return i < S.nt ? i : -1; }
int pthread_join(pthread_t p, void** ret) {
    resolve();
    if (!S.active) return r_pthread_join(p, ret);
    int i = id_of(p); if (i < 0 || S.t[i].joined || S.t[i].detached) return EINVAL;
    if (&S.t[i] == S.cur) return EDEADLK;
    point(K_JOIN, nullptr);
    if (S.t[i].st != T_DONE) block(self(), T_JOIN, (const void*)(long)i, NEVER);
    S.t[i].joined = true;
    if (ret) *ret = S.t[i].ret;
    r_pthread_join(S.t[i].real, nullptr);
    return 0;
}
int pthread_detach(pthread_t p) {
    resolve();
    if (!S.active) return r_pthread_detach(p);
    int i = id_of(p); if (i < 0) return EINVAL;
    S.t[i].detached = true; return r_pthread_detach(S.t[i].real);
}
int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

static void chk_sync(const void* p, const char* what) { chk(p, 8, what); }
static int lock_common(pthread_mutex_t* m, u64 deadline) {
    Thr* me = self(); int id = me->id + 1;
    for (;;) {
        chk_sync(m, "mutex lock");
        if (m->__data.__owner == 0) { m->__data.__owner = id; m->__data.__count = 1; me->spin_obj = nullptr; return 0; }
        if (m->__data.__owner == id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        if (deadline <= S.now) return ETIMEDOUT;
        block(me, T_MUTEX, m, deadline);
    }
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); m->__data.__kind = t; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!S.active) { m->__data.__owner = 1; m->__data.__count++; return 0; }
    point(K_LOCK, m);
    return lock_common(m, NEVER);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts);
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!S.active) { if (m->__data.__owner) return EBUSY; m->__data.__owner = 1; m->__data.__count = 1; return 0; }
    point(K_TRY, m);
    chk_sync(m, "mutex trylock");
    Thr* me = self(); int id = me->id + 1;
    if (m->__data.__owner == 0) { m->__data.__owner = id; m->__data.__count = 1; me->spin_obj = nullptr; return 0; }
    if (m->__data.__owner == id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!S.active) { m->__data.__owner = 0; m->__data.__count = 0; return 0; }
    chk_sync(m, "mutex unlock");
    point(K_UNLOCK, m);
    chk_sync(m, "mutex unlock");
    Thr* me = self(); int id = me->id + 1;
    if (m->__data.__owner != id) sim_fail("mutex-misuse", "thread T%d unlocks a mutex it does not hold (owner T%d)", me->id, m->__data.__owner - 1);
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && --m->__data.__count > 0) return 0;
    m->__data.__owner = 0; m->__data.__count = 0;
    point(K_UNLOCK, m);
    return 0;
}
static u64 abs_to_sim(clockid_t c, const struct timespec* ts);
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!S.active) return pthread_mutex_lock(m); point(K_LOCK, m); return lock_common(m, abs_to_sim(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!S.active) return pthread_mutex_lock(m); point(K_LOCK, m); return lock_common(m, abs_to_sim(c, ts)); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    Thr* me = self();
    chk_sync(c, "condition wait"); chk_sync(m, "condition wait");
    if (m->__data.__owner != me->id + 1) sim_fail("mutex-misuse", "condition wait without holding the mutex");
    point(K_CWAIT, c);                                                     // between the test of the condition and the wait
    me->points++; if (S.replay) rep_sync(me);
    if (deadline != NEVER) { u64 l = late(me, deadline); if (deadline + l > deadline) deadline += l; }
    u32 cnt = m->__data.__count;
    u64 v; bool spur = env_fault(me, F_SPURIOUS, S.spur_den, 1, &v);
    m->__data.__owner = 0; m->__data.__count = 0;
    int r = 0;
    if (spur) { point(K_CWAIT, c); }
    else { mix(K_CWAIT); block(me, T_COND, c, deadline); if (me->timed_out) r = ETIMEDOUT; }
    lock_common(m, NEVER); m->__data.__count = cnt;
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!S.active) infra("cond", "cond wait outside a run"); return cwait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cwait(c, m, abs_to_sim(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cwait(c, m, abs_to_sim(k, ts)); }
static int waiters(const void* o, St st, Thr** out) {
    int n = 0;
    for (int i = 0; i < S.nt; i++) if (S.t[i].st == st && S.t[i].obj == o) { int j = n++; while (j > 0 && out[j - 1]->wseq > S.t[i].wseq) { out[j] = out[j - 1]; j--; } out[j] = &S.t[i]; }
    return n;
}
static void wake(Thr* t) { t->st = T_RUN; t->deadline = NEVER; }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!S.active) return 0;
    chk_sync(c, "condition notify");
    point(K_SIGNAL, c);
    chk_sync(c, "condition notify");
    Thr* w[MAXT]; int n = waiters(c, T_COND, w);
    if (n) {
        int k = 0; Thr* me = self();
        if (n > 1) { if (S.replay) { u64 p; if (rep(me, 2, &p)) for (int i = 0; i < n; i++) if (w[i]->id == (int)p) k = i; } else { k = S.rs.below(2) ? (int)S.rs.below(n) : 0; if (k) rec(me, 2, me->points, w[k]->id); } }
        wake(w[k]);
        if (S.verbose) slog("notifies T%d", w[k]->id);
        point(K_SIGNAL, nullptr);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!S.active) return 0;
    chk_sync(c, "condition notify");
    point(K_BCAST, c);
    chk_sync(c, "condition notify");
    Thr* w[MAXT]; int n = waiters(c, T_COND, w);
    for (int i = 0; i < n; i++) { wake(w[i]); if (S.verbose) slog("notifies T%d", w[i]->id); }
    if (n) point(K_BCAST, nullptr);
    return 0;
}
// reader/writer locks: our own layout inside the object (all-zero = free)
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rd_common(pthread_rwlock_t* l, u64 dl, bool tr) {
    if (!S.active) { ((RW*)l)->readers++; return 0; }
    point(K_RW, l); RW* r = (RW*)l;
    for (;;) { chk_sync(l, "rwlock"); if (!r->writer) { r->readers++; return 0; } if (tr) return EBUSY; if (dl <= S.now) return ETIMEDOUT; block(self(), T_RD, l, dl); }
}
static int wr_common(pthread_rwlock_t* l, u64 dl, bool tr) {
    if (!S.active) { ((RW*)l)->writer = 1; return 0; }
    point(K_RW, l); RW* r = (RW*)l;
    for (;;) { chk_sync(l, "rwlock"); if (!r->writer && !r->readers) { r->writer = self()->id + 1; return 0; } if (tr) return EBUSY; if (dl <= S.now) return ETIMEDOUT; block(self(), T_WR, l, dl); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rd_common(l, NEVER, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wr_common(l, NEVER, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rd_common(l, NEVER, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return wr_common(l, NEVER, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { return rd_common(l, abs_to_sim(CLOCK_REALTIME, ts), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { return wr_common(l, abs_to_sim(CLOCK_REALTIME, ts), false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { return rd_common(l, abs_to_sim(c, ts), false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { return wr_common(l, abs_to_sim(c, ts), false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    RW* r = (RW*)l;
    if (!S.active) { if (r->writer) r->writer = 0; else if (r->readers) r->readers--; return 0; }
    chk_sync(l, "rwlock unlock");
    if (r->writer) { if (r->writer != self()->id + 1) sim_fail("mutex-misuse", "write lock released by another thread"); r->writer = 0; }
    else if (r->readers > 0) r->readers--;
    else sim_fail("mutex-misuse", "unlock of a free reader/writer lock");
    point(K_RW, l);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    volatile int* p = (volatile int*)o;
    if (!S.active) { if (*p != 2) { *p = 1; fn(); *p = 2; } return 0; }
    point(K_ONCE, o);
    while (*p == 1) block(self(), T_ONCE, o, NEVER);
    if (*p == 2) return 0;
    *p = 1;
    try { fn(); } catch (...) { *p = 0; throw; }
    *p = 2;
    point(K_ONCE, o);
    return 0;
}
int sched_yield(void) { if (!S.active) return 0; point(K_YIELD, nullptr, true); return 0; }

// ------------------------------------------------------------------ clocks and sleeping
static const u64 MONO0 = 5000ull * 1000000000ull, REAL0 = 1767225600ull * 1000000000ull;
static u64 clk(clockid_t c) { return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL0 + S.now + S.wall_jump : MONO0 + S.now; }
static u64 abs_to_sim(clockid_t c, const struct timespec* ts) {
    __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (__int128)(clk(c) - S.now);
    if (v < 0) return 0;
    if (v > (__int128)1 << 62) return 1ull << 62;
    return (u64)v;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    resolve();
    if (!S.active) return r_clock_gettime ? r_clock_gettime(c, ts) : -1;
    S.now += 100;
    u64 v = clk(c); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
    point(K_CLOCK, (void*)1);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec* r, struct timespec*) { sim_sleep_ns((u64)r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*) {
    if (flags & TIMER_ABSTIME) { u64 d = abs_to_sim(c, r); if (d > S.now) sim_sleep_ns(d - S.now); else point(K_SLEEP, nullptr); }
    else sim_sleep_ns((u64)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
int usleep(useconds_t us) { sim_sleep_ns((u64)us * 1000); return 0; }
unsigned sleep(unsigned s) { sim_sleep_ns((u64)s * 1000000000ull); return 0; }

// futex as used by libstdc++ (std::future, static-local guards)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && S.active) {
        int op = (int)a[1] & FUTEX_CMD_MASK; int* p = (int*)a[0]; const struct timespec* ts = (const struct timespec*)a[3];
        Thr* me = self();
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(K_FUTEX, p); chk_sync(p, "futex wait");
            if (*(volatile int*)p != (int)a[2]) { errno = EAGAIN; return -1; }
            u64 dl = NEVER;
            if (ts) { if (op == FUTEX_WAIT) dl = S.now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; else dl = abs_to_sim(((int)a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); u64 l = late(me, dl); if (dl + l > dl) dl += l; }
            block(me, T_FUTEX, p, dl);
            if (me->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(K_FUTEX, p);
            Thr* w[MAXT]; int k = waiters(p, T_FUTEX, w); int m = 0;
            for (int i = 0; i < k && m < (int)a[2]; i++, m++) wake(w[i]);
            if (m) point(K_FUTEX, nullptr);
            return m;
        }
        infra("futex", "unsupported futex op %d", op);
    }
    if (n == SYS_clock_gettime && S.active) return clock_gettime((clockid_t)a[0], (struct timespec*)a[1]);
    long r = rawsys6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
// std::random_device: a fixed deterministic stream (sessions and names only)
unsigned _ZNSt13random_device9_M_getvalEv(void*) { u64 z = 0x1234567ull + S.rd_ctr++; return (unsigned)sm64(z); }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
void _ZNSt13random_device7_M_finiEv(void*) {}

// ------------------------------------------------------------------ simulated disk (fault layer over scratch files)
static char disk_prefix[256]; static SimFault disk_kind; static u64 disk_arg; static bool disk_armed; static int disk_nfired;
static int disk_fd[16]; static int disk_nfd; static u64 disk_written; static bool disk_dead;
static bool on_disk(const char* p) { return disk_prefix[0] && !strncmp(p, disk_prefix, strlen(disk_prefix)); }
static bool is_fd(int fd) { for (int i = 0; i < disk_nfd; i++) if (disk_fd[i] == fd) return true; return false; }
static FILE* open_common(const char* p, const char* m, fopen_t f) {
    if (!on_disk(p)) return f(p, m);
    if (S.active) point(K_USER, nullptr);
    if (disk_armed && disk_kind == F_DISK_OPEN) { disk_armed = false; disk_nfired++; count_fault(F_DISK_OPEN); errno = disk_arg ? (int)disk_arg : EACCES; return nullptr; }
    FILE* r = f(p, m); if (r && disk_nfd < 16) { disk_fd[disk_nfd++] = fileno(r); disk_written = 0; disk_dead = false; }
    return r;
}
FILE* fopen(const char* p, const char* m) { resolve(); return open_common(p, m, r_fopen); }
FILE* fopen64(const char* p, const char* m) { resolve(); return open_common(p, m, r_fopen64 ? r_fopen64 : r_fopen); }
int fclose(FILE* f) { resolve(); int fd = fileno(f); for (int i = 0; i < disk_nfd; i++) if (disk_fd[i] == fd) { disk_fd[i] = disk_fd[--disk_nfd]; break; } return r_fclose(f); }
ssize_t write(int fd, const void* b, size_t n) {
    resolve();
    if (!disk_nfd || !is_fd(fd)) return r_write(fd, b, n);
    if (S.active) point(K_USER, nullptr);
    if (disk_dead) { errno = EIO; return -1; }
    if (disk_armed) {
        if (disk_kind == F_DISK_WRITE_ERR && disk_written + n > (disk_arg >> 8)) {   // fails once the given offset is reached
            u64 room = (disk_arg >> 8) > disk_written ? (disk_arg >> 8) - disk_written : 0;
            if (room && room < n) { ssize_t r = r_write(fd, b, room); if (r > 0) disk_written += r; return r; }
            disk_armed = false; disk_dead = true; disk_nfired++; count_fault(F_DISK_WRITE_ERR); errno = (disk_arg & 255) ? ENOSPC : EIO; return -1;
        }
        if (disk_kind == F_DISK_SHORT_WRITE && n > 1) { disk_nfired++; count_fault(F_DISK_SHORT_WRITE); size_t k = 1 + disk_arg % (n - 1); ssize_t r = r_write(fd, b, k); if (r > 0) disk_written += r; return r; }
    }
    ssize_t r = r_write(fd, b, n); if (r > 0) disk_written += r; return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    resolve();
    if (!disk_nfd || !is_fd(fd)) return r_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) return tot; }
    return tot;
}
ssize_t read(int fd, void* b, size_t n) {
    resolve();
    if (!disk_nfd || !is_fd(fd)) return r_read(fd, b, n);
    if (S.active) point(K_USER, nullptr);
    if (disk_armed && disk_kind == F_DISK_READ_ERR && n > 0) {
        if ((disk_arg & 3) == 0) { disk_armed = false; disk_nfired++; count_fault(F_DISK_READ_ERR); errno = EIO; return -1; }
        if ((disk_arg & 3) == 1) { disk_nfired++; count_fault(F_DISK_READ_ERR); size_t k = n > 1 ? 1 + (disk_arg >> 2) % (n - 1) : n; return r_read(fd, b, k); }
        if ((disk_arg & 3) == 2) { disk_nfired++; count_fault(F_DISK_READ_ERR); return 0; }     // premature end of file
        disk_armed = false; disk_nfired++; count_fault(F_DISK_READ_ERR); errno = EINTR; return -1;
    }
    return r_read(fd, b, n);
}

// ------------------------------------------------------------------ thread-instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RD(N) void __tsan_read##N(void* p) { plain(p, N, "read"); } void __tsan_write##N(void* p) { plain(p, N, "write"); } \
    void __tsan_unaligned_read##N(void* p) { plain(p, N, "read"); } void __tsan_unaligned_write##N(void* p) { plain(p, N, "write"); } \
    void __tsan_read##N##_pc(void* p, void*) { plain(p, N, "read"); } void __tsan_write##N##_pc(void* p, void*) { plain(p, N, "write"); } \
    void __tsan_volatile_read##N(void* p) { plain(p, N, "read"); } void __tsan_volatile_write##N(void* p) { plain(p, N, "write"); } \
    void __tsan_read_write##N(void* p) { plain(p, N, "write"); } void __tsan_unaligned_read_write##N(void* p) { plain(p, N, "write"); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, "read"); chk_range(p, n, "read"); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, "write"); chk_range(p, n, "write"); }
void __tsan_vptr_update(void** p, void*) { plain(p, 8, "vptr write"); }
void __tsan_vptr_read(void** p) { plain(p, 8, "vptr read"); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { chk_range(d, n, "write"); chk_range(s, n, "read"); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { chk_range(d, n, "write"); chk_range(s, n, "read"); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { chk_range(d, n, "write"); return memset(d, c, n); }
static inline void apoint(const void* p, size_t n) { if (S.active) { point(K_ATOMIC, p); chk(p, n, "atomic access"); } }
#define AT(B, T)                                                                                                     \
    T __tsan_atomic##B##_load(const volatile T* p, int) { apoint((const void*)p, sizeof(T)); return *p; }             \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); *p = v; }             \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { apoint((const void*)p, sizeof(T)); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { apoint((const void*)p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { apoint((const void*)p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { apoint((const void*)p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
__extension__ typedef unsigned __int128 u128;
AT(128, u128)
void __tsan_atomic_thread_fence(int) { apoint(&S, 1); }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

void sim_disk_enable(const char* p) { snprintf(disk_prefix, sizeof disk_prefix, "%s", p); }
void sim_disk_fault(SimFault k, u64 arg) { disk_kind = k; disk_arg = arg; disk_armed = true; disk_written = 0; disk_dead = false; }
void sim_disk_clear() { disk_armed = false; disk_dead = false; }
int sim_disk_fired() { return disk_nfired; }

// ------------------------------------------------------------------ run one simulation in this (forked) process
static void on_signal(int sig) {
    if (S.in_fail) _exit(0);
    char c[64]; snprintf(c, sizeof c, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL");
    sim_fail(c, "process crashed with signal %d in T%d", sig, S.cur ? S.cur->id : -1);
}
static void on_terminate() {
    const char* n = "unknown"; const char* w = "";
    if (std::type_info* ti = abi::__cxa_current_exception_type()) { n = ti->name(); try { throw; } catch (std::exception& e) { w = e.what(); } catch (...) {} }
    sim_fail("terminate", "std::terminate called in T%d (exception %s: %s)", S.cur ? S.cur->id : -1, n, w);
}
static u32 pickv(Rng& r, const u32* v, int n) { return v[r.below(n)]; }
static void run_one(SimScenario* sc, u64 seed, bool record, bool verbose, bool replay) {
    memset((void*)&S, 0, sizeof S);
    S.seed = seed; S.record = record; S.verbose = verbose; S.replay = replay; S.flags = sc->flags;
    u64 s = seed; S.rs.s = sm64(s); S.rw.s = sm64(s); S.rf.s = sm64(s); Rng k; k.s = sm64(s);
    // swarm: per-run knobs
    static const u32 sw[] = {1, 2, 3, 6, 12, 40}, pl[] = {0, 0, 40, 150, 600, 3000, 12000}, st[] = {0, 0, 60, 300, 1500}, sp[] = {0, 0, 4, 12}, lt[] = {0, 0, 6};
    u32 m = k.below(10); S.mode = m < 5 ? 0 : m < 8 ? 1 : 2;
    S.sw_den = pickv(k, sw, 6); S.plain_den = pickv(k, pl, 7); S.stall_den = pickv(k, st, 5); S.spur_den = pickv(k, sp, 4); S.late_den = pickv(k, lt, 3);
    S.burst = 5 + k.below(200); S.faults = k.below(4) != 0;
    S.addr_mode = k.below(4); S.pct_n = 0; int d = 1 + k.below(6); u32 span = 200u << k.below(6);
    for (int i = 0; i < d; i++) S.pct_at[i] = 1 + k.below(span);
    if (sc->flags & SF_NOSTALL) S.stall_den = 0;
    if (sc->flags & SF_NOPLAIN) S.plain_den = 0;
    u64 cfg = replay ? seed : (k.next() & ~7ull) | (u64)S.addr_mode | (S.faults ? 4 : 0);      // replay files store this word
    S.addr_mode = (int)(cfg & 3); S.faults = (cfg >> 2) & 1; S.addr_seed = cfg >> 3; sh->cfg = cfg;
    S.limit = 600ull * 1000000000ull; S.step_limit = 4000000; S.hash = 0xcbf29ce484222325ull; S.behav = S.hash;
    Thr* t = &S.t[0]; t->id = 0; t->st = T_RUN; t->deadline = NEVER; t->prio = 1000 + (int)S.rs.below(1000); t->real = r_pthread_self();
    S.nt = 1; S.cur = t; tself = t;
    if (replay) { t->rbeg = 0; t->rend = 0; while (t->rend < RPn && RP[t->rend].tid == 0) t->rend++; }
    set_next_ev(t);
    __libc_single_threaded = 0;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER;
    int sg[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}; for (int x : sg) sigaction(x, &sa, nullptr);
    std::set_terminate(on_terminate);
    S.active = true;
    sc->fn();
    S.active = false;
    die(1);
}
static double wall() { struct timespec ts; r_clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static int child_run(SimScenario* sc, u64 seed, bool rec_, bool verbose, bool replay, int wall_s) {
    memset((void*)sh, 0, offsetof(Shared, nw)); sh->nw = sh->nr = sh->trunc = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(wall_s);
        int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); if (!verbose) dup2(fd, 2);
        run_one(sc, seed, rec_, verbose, replay);
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == 0) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { sh->status = 3; snprintf(sh->cls, sizeof sh->cls, "walltimeout"); snprintf(sh->msg, sizeof sh->msg, "run exceeded %d s of real time", wall_s); }
        else { sh->status = 3; snprintf(sh->cls, sizeof sh->cls, "lost"); snprintf(sh->msg, sizeof sh->msg, "run ended without a result (wait status %x)", st); }
    }
    return sh->status;
}
static void esc(FILE* o, const char* s) { for (; *s; s++) fputc((*s == '\n' || *s == '\t' || *s == '\r') ? ' ' : *s, o); }
static u64 seed_for(u64 base, int scen, u64 i) { u64 h = 0; for (const char* p = scen_tab[scen]->prop; *p; p++) h = h * 131 + *p; for (const char* p = scen_tab[scen]->name; *p; p++) h = h * 131 + *p; u64 s = base * 0x9E3779B97F4A7C15ull ^ h; sm64(s); s ^= i * 0xD1342543DE82EF95ull; return sm64(s); }
static void print_full(bool with_trace) {
    printf("RESULT\t%d\t", sh->status); esc(stdout, sh->cls[0] ? sh->cls : "-"); printf("\t"); esc(stdout, sh->msg[0] ? sh->msg : "-");
    printf("\t%016llx\t%016llx\t%llu\t%llu\t%llu\t%u\t%u\t%u\t%llu\n", (unsigned long long)sh->hash, (unsigned long long)sh->behav, (unsigned long long)sh->steps, (unsigned long long)sh->now, (unsigned long long)sh->switches, sh->nw, sh->nr, sh->trunc, (unsigned long long)sh->cfg);
    if (with_trace) {
        printf("W"); for (u32 i = 0; i < sh->nw; i++) printf(" %u", sh->w[i]); printf("\n");
        printf("R"); for (u32 i = 0; i < sh->nr; i++) printf(" %u:%u:%llu:%llu", sh->r[i].tid, sh->r[i].type, (unsigned long long)sh->r[i].key, (unsigned long long)sh->r[i].param); printf("\n");
        printf("PCS"); for (int i = 0; i < sh->npcs; i++) printf(" %p", sh->pcs[i]); printf("\n");
        for (int k = 0; k < sh->nblk; k++) { printf("BLK %d", sh->blk_tid[k]); for (int i = 0; i < sh->blk_npcs[k]; i++) printf(" %p", sh->blk_pcs[k][i]); printf("\n"); }
        printf("FAULTS"); for (int i = 0; i < F_NKINDS; i++) if (sh->faults[i]) printf(" %s=%llu", sim_fault_names[i], (unsigned long long)sh->faults[i]); printf("\n");
    }
    printf("DONE\n"); fflush(stdout);
}
static int cmp_rec(const void* a, const void* b) { const Rec* x = (const Rec*)a; const Rec* y = (const Rec*)b; if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1; if (x->key != y->key) return x->key < y->key ? -1 : 1; return x->type < y->type ? -1 : x->type > y->type; }
int main(int argc, char** argv) {
    resolve(); arena_init(); pthread_key_create(&tkey, thread_done);
    { void* b[4]; backtrace(b, 4); }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    RP = (Rec*)mmap(nullptr, sizeof(Rec) * MAXR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static u32 rwbuf[MAXW];
    for (SimScenario* s = scen_head; s; s = s->next) scen_tab[nscen++] = s;
    for (int i = 1; i < nscen; i++) for (int j = i; j > 0; j--) { int c = strcmp(scen_tab[j - 1]->prop, scen_tab[j]->prop); if (!c) c = strcmp(scen_tab[j - 1]->name, scen_tab[j]->name); if (c <= 0) break; SimScenario* x = scen_tab[j]; scen_tab[j] = scen_tab[j - 1]; scen_tab[j - 1] = x; }
    if (argc > 1 && !strcmp(argv[1], "--list")) { for (int i = 0; i < nscen; i++) printf("%d %s %s\n", i, scen_tab[i]->prop, scen_tab[i]->name); return 0; }
    char* line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        char cmd[16]; int sc; if (sscanf(line, "%15s %d", cmd, &sc) < 1) continue;
        if (!strcmp(cmd, "quit")) break;
        if (!strcmp(cmd, "batch")) {          // batch scen base start count stride hashfile maxfail wallbudget
            unsigned long long base, start, count, stride; char hf[512]; int maxfail; double budget_s;
            sscanf(line, "%*s %*d %llu %llu %llu %llu %511s %d %lf", &base, &start, &count, &stride, hf, &maxfail, &budget_s);
            FILE* f = r_fopen(hf, "ab"); double t0 = wall(); u64 n = 0, steps = 0, sw = 0, simns = 0, thr = 0; u64 faults[F_NKINDS] = {0}, fruns[F_NKINDS] = {0}, probes[64] = {0}; int nf = 0;
            for (u64 i = 0; i < count; i++) {
                u64 seed = seed_for(base, sc, start + i * stride);
                int st = child_run(scen_tab[sc], seed, false, false, false, 60);
                n++; steps += sh->steps; sw += sh->switches; simns += sh->now; thr += sh->nthreads;
                for (int q = 0; q < F_NKINDS; q++) { faults[q] += sh->faults[q]; fruns[q] += sh->faults[q] != 0; }
                for (int q = 0; q < 64; q++) probes[q] += sh->probes[q] != 0;
                if (f) { u64 hb[2] = {sh->hash, sh->behav}; fwrite(hb, 8, 2, f); }
                if (st != 1) { printf("FAIL\t%d\t%llu\t%d\t", sc, (unsigned long long)seed, st); esc(stdout, sh->cls); printf("\t"); esc(stdout, sh->msg); printf("\t%016llx\n", (unsigned long long)sh->hash); if (++nf >= maxfail) break; }
                if (wall() - t0 > budget_s) break;
            }
            if (f) r_fclose(f);
            printf("BATCH\t%d\t%llu\t%llu\t%llu\t%llu\t%llu\t", sc, (unsigned long long)n, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)simns, (unsigned long long)thr);
            for (int q = 0; q < F_NKINDS; q++) printf("%llu/%llu ", (unsigned long long)faults[q], (unsigned long long)fruns[q]); printf("\t");
            for (int q = 0; q < 64; q++) printf("%llu ", (unsigned long long)probes[q]); printf("\nDONE\n"); fflush(stdout);
        } else if (!strcmp(cmd, "run")) {     // run scen seed record verbose
            unsigned long long seed; int r = 0, v = 0; sscanf(line, "%*s %*d %llu %d %d", &seed, &r, &v);
            child_run(scen_tab[sc], seed, r, v, false, 120);
            print_full(r);
        } else if (!strcmp(cmd, "trace")) {   // trace scen addrmode verbose record nw w... nr tid:type:key:param...
            RPn = RWn = 0; unsigned long long am = 0; int v = 0, r = 0; int off = 0; sscanf(line, "%*s %*d %llu %d %d%n", &am, &v, &r, &off);
            char* p = line + off; u32 nw = (u32)strtoul(p, &p, 10); for (u32 i = 0; i < nw && i < MAXW; i++) rwbuf[RWn++] = (u32)strtoul(p, &p, 10);
            u32 nr = (u32)strtoul(p, &p, 10);
            for (u32 i = 0; i < nr && i < MAXR; i++) { Rec& x = RP[RPn]; x.tid = (u32)strtoul(p, &p, 10); p++; x.type = (u32)strtoul(p, &p, 10); p++; x.key = strtoull(p, &p, 10); p++; x.param = strtoull(p, &p, 10); RPn++; }
            qsort(RP, RPn, sizeof(Rec), cmp_rec);
            RWp = rwbuf;
            child_run(scen_tab[sc], (u64)am, r, v, true, 120);
            print_full(r);
        }
    }
    return 0;
}
