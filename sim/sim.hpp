// Deterministic simulator for OpenMP + mmap based code.
//
// The code under test is compiled with gcc -fsanitize=thread -fopenmp but is
// linked with neither libtsan nor libgomp: every memory access, atomic and
// OpenMP construct is a call into this runtime, which runs all threads as
// fibers on one OS thread and decides every interleaving from one seed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    // log-uniform integer in [lo,hi], lo>=1
    uint64_t loguni(uint64_t lo, uint64_t hi);
};

// ---------------------------------------------------------------- config
struct Fault {
    std::string fn;   // intercepted call, or "alloc"
    uint32_t nth;     // 1-based index of the call to fail
    int err;          // errno to report
};

struct Switch {       // after `step` local steps of `fiber`, run `to`
    uint32_t fiber;
    uint64_t step;
    uint32_t to;
};

enum Policy { P_RANDOM = 0, P_PCT, P_RTB, P_STALL, P_RR, P_SYNC, P_HOT, P_EXPLICIT, P_NUM };
extern const char* policy_name[];

struct Sched {
    int policy = P_RTB;
    uint64_t seed = 1;
    uint64_t q = 100;       // mean steps between preemptions / quantum
    int depth = 3;          // PCT change points
    uint64_t klen = 10000;  // PCT horizon
    std::vector<Switch> sw; // explicit
};

enum CrashKind { CRASH_NONE = 0, CRASH_KILL = 1, CRASH_POWER = 2 };

struct Config {
    int team = 4;            // default number of threads in a parallel region
    bool dyn = false;        // initial dyn-var: regions may get fewer threads
    int max_levels = 1;      // max active parallel levels
    int chunk = 0;           // if >0: replaces dynamic-schedule chunk sizes above it
    bool reuse_maps = true;  // unmapped address ranges are handed out again
    uint64_t disk_pages = 0; // capacity in pages; 0 = unlimited
    uint64_t step_budget = 200000000ull;
    bool race = false;
    bool exact_tail = false;  // no access behind the last byte of a mapped file, even within its last page
    std::vector<Fault> faults;
    CrashKind crash = CRASH_NONE;
    uint64_t crash_at = 0;   // crash at this point (1-based): stores to file mappings + fs calls
    uint64_t fill_seed = 7;  // garbage in fresh memory
    uint64_t heap_limit = 200ull << 20;
    Sched sched;
};

enum Outcome { O_OK = 0, O_CRASHED = 1, O_VIOLATION = 2 };

struct PhaseResult {
    Outcome outcome = O_OK;
    std::string cls;     // violation class
    std::string detail;
    uint64_t steps = 0, switches = 0, regions = 0, fibers = 0, preempts = 0;
    uint64_t crash_points = 0;
    uint64_t hash = 0;
    std::vector<Switch> trace;             // recorded switches
    std::map<std::string, uint64_t> calls; // intercepted calls made by the target
    std::map<std::string, uint64_t> fired; // faults fired, by kind
    uint64_t bad_munmap = 0;               // munmap of something not mapped
    uint64_t open_fds = 0, live_maps = 0, live_allocs = 0; // at the end
    uint64_t max_team = 0;
};

// Run `root` as one simulated process life.
PhaseResult run_phase(const Config& c, const std::function<void()>& root);
void init(); // once per process

// ---- inside a phase, harness side (uninstrumented)
int spawn(std::function<void()> fn);  // a new caller thread
void join(int id);
void yield_point();
uint64_t now_steps();
[[noreturn]] void fail(const std::string& cls, const std::string& detail);
// arm/disarm fault injection and crash points (faults count calls only while armed)
void arm(bool on);
uint64_t count_open_fds();
uint64_t count_live_maps();
uint64_t count_live_allocs(size_t above = 0); // blocks of more than that many bytes, or all
uint64_t bad_munmaps();
// memory of the simulated process that the harness owns (never fails, not counted)
void* obj_alloc(size_t n);
void obj_free(void* p);
bool range_ok(const void* p, size_t n); // n bytes at p may be read by the target
uint64_t calls_of(const std::string& fn);
bool any_fault_fired();
std::string stack_text();

// ---- file system, harness side
void fs_reset();
void fs_put(const std::string& name, const std::string& content);
void fs_renew(const std::string& name, const std::string& content);
bool fs_exists(const std::string& name);
std::string fs_get(const std::string& name);
void fs_put_sparse(const std::string& name, uint64_t hole, const std::string& tail); // a hole of whole pages, then tail; fs_get gives tail
size_t fs_capacity(); // the largest size a file can have
std::vector<std::string> fs_list();
void fs_deny(const std::string& name, int err); // opening this path fails
void fs_mark_durable();

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---- used by the instrumented adapters
struct Target {  // code in this scope is simulated
    Target();
    ~Target();
    bool prev;
};
struct Exempt {  // code in this scope is harness code
    Exempt();
    ~Exempt();
    bool prev;
};

} // namespace sim
