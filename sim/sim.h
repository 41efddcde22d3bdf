// Deterministic simulator: public interface for the harness.
// One OS process = one simulated run. Exactly one thread runs at a time; every choice comes from one seed.
#pragma once
#include <cstdint>
#include <cstddef>

enum SimFault {          // fault kinds, counted when they actually fire
    F_SPURIOUS = 0,      // spurious condition-variable wake-up
    F_STALL,             // a runnable thread is descheduled for a while
    F_LATE_TIMER,        // a timed wait / sleep ends late
    F_ALLOC,             // operator new(nothrow) returns null
    F_THREAD_CREATE,     // pthread_create fails with EAGAIN
    F_NODE_ERROR,        // a user callback returns an error status
    F_NODE_POSITIVE,     // a user callback returns a non-zero, non-error status
    F_NODE_EXCEPTION,    // a user callback throws
    F_SLOW,              // a user callback takes (simulated) time
    F_CANCEL,            // cancel / stop request at an arbitrary point
    F_SUSPEND,           // suspend / resume at an arbitrary point
    F_TIMEOUT,           // a timeout expired while its work was still in flight
    F_SHUTDOWN,          // pool / pipeline shut down while work was queued
    F_DISK_OPEN,         // open fails
    F_DISK_WRITE_ERR,    // write fails (EIO / ENOSPC)
    F_DISK_SHORT_WRITE,  // short write
    F_DISK_TORN,         // crash: only a prefix of the file survives
    F_DISK_READ_ERR,     // read fails / short read
    F_DISK_FLIP,         // stored byte flipped
    F_INIT_FAIL,         // a user init()/destroy() fails
    F_STARVED,           // more work than threads / no free resource
    F_CONTENTION,        // caller threads collide on one API object
    F_CLOCK_JUMP,        // wall clock jumps (monotonic clock is unaffected)
    F_FIELD_DAMAGE,      // one field of a saved, well-formed record damaged
    F_NKINDS
};
extern const char* const sim_fault_names[F_NKINDS];

typedef void (*SimScenarioFn)();
struct SimScenario { const char* prop; const char* name; SimScenarioFn fn; SimScenario* next; int flags; };
enum { SF_NOSTALL = 1, SF_NOPLAIN = 2, SF_SPIN = 4 };
void sim_register(SimScenario* s);
#define SCENARIO_F(PROP, NAME, FLAGS)                                              \
    static void scen_##PROP##_##NAME();                                            \
    static SimScenario scen_reg_##PROP##_##NAME = {#PROP, #NAME, scen_##PROP##_##NAME, nullptr, FLAGS}; \
    __attribute__((constructor)) static void scen_ctor_##PROP##_##NAME() { sim_register(&scen_reg_##PROP##_##NAME); } \
    static void scen_##PROP##_##NAME()
#define SCENARIO(PROP, NAME) SCENARIO_F(PROP, NAME, 0)

uint64_t sim_now_ns();
static inline uint64_t sim_now_ms() { return sim_now_ns() / 1000000ull; }
uint64_t sim_seq();                                   // global order of recorded events
uint32_t sim_choose(uint32_t n);                      // workload choice in [0,n); 0 is the simplest
static inline uint32_t sim_range(uint32_t lo, uint32_t hi) { return lo + sim_choose(hi - lo + 1); }
static inline bool sim_chance(uint32_t num, uint32_t den) { return sim_choose(den) >= den - num; }
void sim_count(SimFault k);                           // a workload-level fault really happened
void sim_point();                                     // scheduling point
void sim_sleep_us(uint64_t us);                       // user work taking simulated time
[[noreturn]] void sim_fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void sim_nopreempt(int delta);
int  sim_tid();
int  sim_live_threads();                              // threads created through pthread_create and not finished
void sim_limit_ms(uint64_t ms);                       // simulated-time budget for the whole run (hang if exceeded)
void sim_hang_class(const char* what);                // name used when the budget is exceeded / deadlock
void sim_event(uint64_t h);                           // fold into behaviour hash
void sim_probe(int id);                               // reach probe (0..63)
uint64_t sim_delay_ns();                              // total delay injected so far (stalls, late timers)
bool sim_faults_on();                                 // false: this run injects no environment faults
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // only printed in verbose replay
bool sim_freed(const void* p);                        // arena object already freed?
uint64_t sim_live_bytes();
uint64_t sim_live_objects();
uint32_t sim_rand(uint32_t n);                        // raw PRNG draw recorded as workload choice (alias of sim_choose)

// simulated disk (only paths below the prefix given)
void sim_disk_enable(const char* path_prefix);
void sim_disk_fault(SimFault kind, uint64_t arg);     // arm one fault
int  sim_disk_fired();                                // how many armed disk faults fired

void sim_disk_clear();                               // disarm
void sim_alloc_faults(uint32_t den);                  // nothrow allocations fail with probability 1/den (0: never)
uint64_t sim_fault_count(SimFault k);                    // how often fault k was injected so far
void sim_create_faults(uint32_t den);                 // thread creation fails with probability 1/den
void sim_wall_jump_ms(long long ms);                  // step the wall clock

struct SimNP { SimNP() { sim_nopreempt(1); } ~SimNP() { sim_nopreempt(-1); } };
