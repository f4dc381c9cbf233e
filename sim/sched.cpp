// Fibers, scheduler, run control.
#include "internal.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>
#include <algorithm>
#include <errno.h>
#include <exception>

extern "C" char __libc_single_threaded;

namespace sim {

const char* policy_name[] = {"random", "pct", "run-to-block", "stalled-thread", "round-robin", "sync-points", "conflict", "explicit"};

int g_on = 0;
int64_t g_left = 0, g_quota = 0;
unsigned g_flags = 0;
Fiber* cur = nullptr;
Config cfg;
PhaseResult* res = nullptr;
bool g_active = false, g_armed = true;
uint64_t g_hash = 0, g_cp = 0;

static std::vector<Fiber*> fibers; // by id; reused between phases
static uint32_t nfibers = 0;
static void* main_sp = nullptr;
static Fiber main_fiber;
static Rng srng(1);
static std::vector<uint64_t> change_points;
static uint64_t low_prio;
static uint64_t g_steps = 0; // accounted steps
static uint64_t since_switch = 0;
static std::map<std::string, std::vector<std::pair<uint32_t,int>>> fault_plan;
static std::map<const void*, VC> sync_vc;
static void* altstack;

uint64_t Rng::loguni(uint64_t lo, uint64_t hi) {
    double l = log((double)lo), h = log((double)hi + 0.999999);
    uint64_t v = (uint64_t)exp(l + unit() * (h - l));
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return v;
}

uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

// ------------------------------------------------------------ target module
static char* tgt_lo = nullptr; static char* tgt_hi = nullptr; // writable data
static std::vector<char> tgt_image;
static char* tgt_tls = nullptr; static size_t tgt_tls_size = 0;
static std::vector<char> tgt_tls_image;
struct Range { uintptr_t lo, hi; bool w; };
static std::vector<Range> mod_ranges;
uintptr_t tgt_base = 0;
static std::string tgt_path;

static int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
    bool tgt = info->dlpi_name && strstr(info->dlpi_name, "libtarget");
    uintptr_t relro_lo = 0, relro_hi = 0;
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            relro_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            relro_hi = (relro_lo + info->dlpi_phdr[i].p_memsz) & ~(PAGE - 1);
        }
    if (tgt) { tgt_base = info->dlpi_addr; tgt_path = info->dlpi_name; }
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        const ElfW(Phdr)& p = info->dlpi_phdr[i];
        if (p.p_type == PT_LOAD) {
            uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
            bool w = p.p_flags & PF_W;
            mod_ranges.push_back({lo, hi, tgt && w});
            if (tgt && w) {
                if (relro_hi > lo && relro_lo <= lo) lo = relro_hi;
                if (lo < hi) { tgt_lo = (char*)lo; tgt_hi = (char*)hi; }
            }
        } else if (tgt && p.p_type == PT_TLS) {
            tgt_tls = (char*)info->dlpi_tls_data;
            tgt_tls_size = p.p_memsz;
        }
    }
    return 0;
}

std::string where(void* pc) {
    char b[512];
    Dl_info di;
    uintptr_t a = (uintptr_t)pc;
    if (pc && dladdr(pc, &di) && di.dli_sname) {
        int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        std::string s = d ? d : di.dli_sname;
        ::free(d);
        // keep it short: drop template arguments
        std::string o; int depth = 0;
        for (size_t i = 0; i < s.size(); ++i) {
            char c = s[i];
            if (c == '<' && !(i >= 8 && s.compare(i - 8, 8, "operator") == 0)) { ++depth; continue; }
            if (c == '>' && depth > 0) { --depth; continue; }
            if (depth == 0) o += c;
        }
        size_t par = o.find('(');
        if (par != std::string::npos && par > 0) o = o.substr(0, par);
        snprintf(b, sizeof b, "%.300s", o.c_str());
    } else
        snprintf(b, sizeof b, "target+0x%lx", (unsigned long)(a - tgt_base));
    return b;
}

std::string stack_text() {
    std::string s;
    if (!cur) return s;
    int n = 0;
    for (size_t i = cur->npcs < 128 ? cur->npcs : 128; i-- > 0 && n < 6; ++n) {
        if (!s.empty()) s += " < ";
        s += where(cur->pcs[i]);
    }
    return s;
}

bool mod_ok(uintptr_t a, size_t n, bool w) {
    static size_t last = 0;
    if (last < mod_ranges.size()) {
        const Range& r = mod_ranges[last];
        if (a >= r.lo && a + n <= r.hi && (!w || r.w)) return true;
    }
    for (size_t i = 0; i < mod_ranges.size(); ++i) {
        const Range& r = mod_ranges[i];
        if (a >= r.lo && a + n <= r.hi && (!w || r.w)) { last = i; return true; }
    }
    return false;
}

// exception objects live in the real heap
static std::vector<std::pair<uintptr_t, size_t>> exc_ranges;
void note_exception(void* p, size_t n) {
    Off off;
    exc_ranges.push_back({(uintptr_t)p, n});
    if (exc_ranges.size() > 256) exc_ranges.erase(exc_ranges.begin(), exc_ranges.begin() + 128);
}
bool exc_ok(uintptr_t a, size_t n) {
    for (size_t i = exc_ranges.size(); i-- > 0;)
        if (a >= exc_ranges[i].first && a + n <= exc_ranges[i].first + exc_ranges[i].second) return true;
    uintptr_t fs = (uintptr_t)&errno; // thread-local area of the process
    return a + 65536 > fs && a < fs + 65536;
}

// ------------------------------------------------------------ run control
static void switch_to_main() {
    void* dummy;
    g_on = 0;
    cur = nullptr;
    sim_ctx_switch(&dummy, main_sp);
    __builtin_unreachable();
}

static inline void account() {
    uint64_t used = (uint64_t)(g_quota - g_left);
    cur->local += used;
    g_steps += used;
    since_switch += used;
    g_quota = g_left = 0;
}

[[noreturn]] void abort_run(Outcome o, const std::string& cls, const std::string& detail) {
    g_on = 0;
    if (!g_active) {
        fprintf(stderr, "sim: abort outside a run: %s %s\n", cls.c_str(), detail.c_str());
        ::abort();
    }
    account();
    res->outcome = o;
    res->cls = cls;
    res->detail = detail;
    if (o == O_VIOLATION) {
        std::string st = stack_text();
        if (!st.empty()) res->detail += " [thread " + std::to_string(cur->id) + ": " + st + "]";
    }
    switch_to_main();
    __builtin_unreachable();
}

void fail(const std::string& cls, const std::string& detail) {
    g_on = 0; abort_run(O_VIOLATION, cls, detail); }

// ------------------------------------------------------------ scheduling
static Fiber* get_fiber(uint32_t id) { return fibers[id]; }

static int64_t quota_for(Fiber* f) {
    const int64_t FAIR = 200000;
    int64_t q = FAIR;
    switch (cfg.sched.policy) {
    case P_RANDOM: case P_STALL: {
        double u = srng.unit();
        if (u >= 1.0) u = 0.999999;
        double g = -log(1.0 - u) * (double)cfg.sched.q;
        q = (int64_t)g;
        break;
    }
    case P_RR: q = (int64_t)cfg.sched.q; break;
    case P_PCT:
        if (!change_points.empty()) {
            uint64_t nxt = change_points.back();
            q = nxt > g_steps ? (int64_t)(nxt - g_steps) - 1 : 0;
        }
        break;
    case P_EXPLICIT:
        while (!f->plan.empty() && f->plan.front().step <= f->local) f->plan.pop_front();
        if (!f->plan.empty()) q = (int64_t)(f->plan.front().step - f->local) - 1;
        else q = FAIR * 1000;
        break;
    default: break;
    }
    if (cfg.sched.policy != P_EXPLICIT && q > FAIR) q = FAIR;
    uint64_t left = cfg.step_budget > g_steps ? cfg.step_budget - g_steps : 0;
    if ((uint64_t)q > left) q = (int64_t)left;
    if (q < 0) q = 0;
    return q;
}

static void set_quota() { g_quota = g_left = quota_for(cur); }

static void enter(Fiber* f) {
    // f becomes current; state of the OS thread that belongs to a fiber is swapped
    Fiber* old = cur ? cur : &main_fiber;
    if (old != &main_fiber) {
        old->err = errno;
        struct G { void* c; unsigned u; }* g = (G*)abi::__cxa_get_globals();
        old->caught = g->c; old->uncaught = g->u;
        g->c = f->caught; g->u = f->uncaught;
        if (tgt_tls_size) {
            memcpy(old->tls.data(), tgt_tls, tgt_tls_size);
            memcpy(tgt_tls, f->tls.data(), tgt_tls_size);
        }
        errno = f->err;
    } else {
        struct G { void* c; unsigned u; }* g = (G*)abi::__cxa_get_globals();
        main_fiber.caught = g->c; main_fiber.uncaught = g->u;
        g->c = f->caught; g->u = f->uncaught;
        if (tgt_tls_size) memcpy(tgt_tls, f->tls.data(), tgt_tls_size);
        errno = f->err;
    }
    cur = f;
    since_switch = 0;
    g_on = 0; // restored by the Off scope the fiber was left in
    set_quota();
    void** save = old == &main_fiber ? &main_sp : &old->sp;
    sim_ctx_switch(save, f->sp);
    // resumed: whoever switched here has set cur
}

static void runnable_list(std::vector<Fiber*>& v, Fiber* except) {
    v.clear();
    for (uint32_t i = 0; i < nfibers; ++i)
        if (fibers[i]->st == F_RUN && fibers[i] != except) v.push_back(fibers[i]);
}

static std::vector<Fiber*> rl;

static Fiber* pick(bool blocking);
// choose another runnable fiber; nullptr if none
static Fiber* choose(bool blocking, bool* is_default) {
    *is_default = false;
    runnable_list(rl, cur);
    if (rl.empty()) return nullptr;
    Fiber* f = pick(blocking);
    // when the current thread cannot go on, the lowest runnable thread is the
    // default of an explicit schedule and needs no entry in the trace
    if (f && blocking && f == rl[0]) *is_default = true;
    return f;
}

static Fiber* pick(bool blocking) {
    switch (cfg.sched.policy) {
    case P_EXPLICIT: {
        while (!cur->plan.empty() && cur->plan.front().step < cur->local) cur->plan.pop_front();
        if (!cur->plan.empty() && cur->plan.front().step == cur->local) {
            uint32_t to = cur->plan.front().to;
            cur->plan.pop_front();
            for (Fiber* f : rl) if (f->id == to) return f;
            if (!blocking) return nullptr;
        }
        if (!blocking) return nullptr;
        return rl[0];
    }
    case P_PCT: {
        Fiber* b = rl[0];
        for (Fiber* f : rl) if (f->prio > b->prio) b = f;
        return b;
    }
    case P_RR: {
        for (Fiber* f : rl) if (f->id > cur->id) return f;
        return rl[0];
    }
    case P_STALL: {
        std::vector<Fiber*> a;
        for (Fiber* f : rl) if (!f->stalled) a.push_back(f);
        if (a.empty()) {
            if (!blocking && !cur->stalled) return nullptr;
            return rl[srng.below(rl.size())];
        }
        return a[srng.below(a.size())];
    }
    default:
        return rl[srng.below(rl.size())];
    }
}

static void do_switch(Fiber* f, bool is_default) {
    if (!is_default) res->trace.push_back({cur->id, cur->local, f->id});
    ++res->switches;
    mix(((uint64_t)cur->id << 48) ^ (cur->local << 8) ^ f->id);
    enter(f);
}

// A preemption opportunity of the current fiber (which stays runnable).
static void preempt(bool forced) {
    if (cfg.sched.policy == P_PCT) {
        bool change = false;
        while (!change_points.empty() && change_points.back() <= g_steps) {
            change_points.pop_back();
            change = true;
        }
        if (change || forced) cur->prio = low_prio--;
        runnable_list(rl, cur);
        Fiber* b = cur;
        for (Fiber* f : rl) if (f->prio > b->prio) b = f;
        if (b != cur) { ++res->preempts; do_switch(b, false); } else set_quota();
        return;
    }
    bool def;
    Fiber* f = choose(false, &def);
    if (f) { ++res->preempts; do_switch(f, def); }
    else set_quota();
}

void slow_point() {
    Off off;
    account();
    if (g_steps >= cfg.step_budget)
        abort_run(O_VIOLATION, "HANG", "no completion within " + std::to_string(cfg.step_budget) + " steps");
    bool forced = since_switch >= 200000;
    preempt(forced);
}

void sync_point(uint64_t tag) {
    if (!cur) return;
    Off off;
    --g_left;
    account();
    if (g_steps >= cfg.step_budget)
        abort_run(O_VIOLATION, "HANG", "no completion within " + std::to_string(cfg.step_budget) + " steps");
    mix(tag ^ ((uint64_t)cur->id << 32));
    bool p = false;
    switch (cfg.sched.policy) {
    case P_SYNC: case P_HOT: p = srng.chance(0.5); break;
    case P_RANDOM: p = srng.chance(0.1); break;
    case P_EXPLICIT: p = !cur->plan.empty() && cur->plan.front().step <= cur->local; break;
    case P_PCT: p = true; break;
    default: break;
    }
    if (p) preempt(false);
    else set_quota();
}

static void block_switch(const char* why) {
    bool def;
    Fiber* f = choose(true, &def);
    if (!f) {
        std::string s;
        for (uint32_t i = 0; i < nfibers; ++i)
            if (fibers[i]->st == F_BLOCK) {
                Fiber* save = cur; cur = fibers[i];
                s += " thread " + std::to_string(i) + " waits in {" + stack_text() + "}";
                cur = save;
            }
        abort_run(O_VIOLATION, "DEADLOCK", std::string("no runnable thread (") + why + "):" + s);
    }
    do_switch(f, def);
}

void block_on(const void* obj) {
    Off off;
    --g_left;
    account();
    cur->st = F_BLOCK;
    cur->wait_obj = obj;
    block_switch("blocked");
}

void wake(const void* obj) {
    for (uint32_t i = 0; i < nfibers; ++i)
        if (fibers[i]->st == F_BLOCK && fibers[i]->wait_obj == obj) fibers[i]->st = F_RUN;
}

// ------------------------------------------------------------ fibers
static void fiber_main() {
    for (;;) {
        Fiber* f = cur;
        try {
            f->entry();
        } catch (...) {
            g_on = 0;
            std::string what = "exception escaped a thread";
            try { throw; } catch (std::exception& e) { what += std::string(": ") + e.what(); } catch (...) {}
            abort_run(O_VIOLATION, "TERMINATE", what);
        }
        f = cur;
        if (f->id == 0) {
            g_on = 0;
            account();
            res->outcome = O_OK;
            switch_to_main();
        }
        // f->st was set to F_IDLE or F_DONE by the entry's epilogue
        --g_left;
        account();
        block_switch("finished");
    }
}

static void prep_stack(Fiber* f) {
    char* top = (char*)(STACK_BASE + STACK_SZ * (f->id + 1));
    void** p = (void**)top;
    *--p = nullptr; // at entry the stack pointer is 8 modulo 16
    *--p = (void*)&fiber_main;
    for (int i = 0; i < 6; ++i) *--p = nullptr;
    --p;
    uint32_t mx = 0x1f80; uint16_t cw = 0x037f;
    memcpy((char*)p, &mx, 4);
    memset((char*)p + 4, 0, 4);
    memcpy((char*)p + 4, &cw, 2);
    f->sp = p;
}

static Fiber* new_fiber(std::function<void()> entry, bool on) {
    if (nfibers >= STACK_N) abort_run(O_VIOLATION, "SIMLIMIT", "too many threads");
    uint32_t id = nfibers++;
    if (id >= fibers.size()) fibers.push_back(new Fiber());
    Fiber* f = fibers[id];
    *f = Fiber();
    f->id = id;
    f->entry = std::move(entry);
    f->on = on;
    f->st = F_RUN;
    f->tls = tgt_tls_image;
    f->icv.nthreads = cfg.team;
    f->icv.dyn = cfg.dyn;
    f->icv.max_levels = cfg.max_levels;
    f->vc.assign(id + 1, 0);
    f->vc[id] = 1;
    f->prio = 1000000 + srng.below(1000000);
    f->stalled = cfg.sched.policy == P_STALL && srng.chance(0.3);
    if (cfg.sched.policy == P_EXPLICIT)
        for (auto& s : cfg.sched.sw) if (s.fiber == id) f->plan.push_back(s);
    prep_stack(f);
    return f;
}

Fiber* make_fiber(std::function<void()> entry, bool on) { return new_fiber(std::move(entry), on); }
Fiber* fiber_by_id(uint32_t id) { return get_fiber(id); }
void restart_fiber(Fiber* f, std::function<void()> entry) {
    // an idle pooled worker gets new work; its stack is parked inside fiber_main's loop
    f->entry = std::move(entry);
    f->st = F_RUN;
}
uint64_t rnd_below(uint64_t n) { return srng.below(n); }
uint32_t fiber_count() { return nfibers; }

int spawn(std::function<void()> fn) {
    bool on = cur->on;
    (void)on;
    Fiber* f = new_fiber(nullptr, false);
    f->entry = [fn, f]() {
        fn();
        g_on = 0;
        f->on = false;
        f->st = F_DONE;
        release(f);
        wake(f);
    };
    vc_join(f->vc, cur->vc); // fork edge
    vc_tick(cur);
    sync_point(0x51);
    return (int)f->id;
}

void join(int id) {
    Fiber* f = fibers[id];
    while (f->st != F_DONE) block_on(f);
    acquire(f);
}

void yield_point() { sync_point(0x77); }
uint64_t now_steps() { return g_steps + (uint64_t)(g_quota - g_left); }

Target::Target() : prev(false) {
    if (!cur) return;
    prev = cur->on;
    cur->on = true; g_on = 1;
}
Target::~Target() {
    if (!cur) return;
    cur->on = prev; g_on = prev;
}
Exempt::Exempt() : prev(false) {
    if (!cur) return;
    prev = cur->on;
    cur->on = false; g_on = 0;
}
Exempt::~Exempt() {
    if (!cur) return;
    cur->on = prev; g_on = prev;
}

// ------------------------------------------------------------ vector clocks
void vc_join(VC& a, const VC& b) {
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i];
}
void vc_tick(Fiber* f) {
    if (f->vc.size() <= f->id) f->vc.resize(f->id + 1, 0);
    ++f->vc[f->id];
}
void acquire(const void* obj) {
    if (!(g_flags & 1)) return;
    Off off;
    auto it = sync_vc.find(obj);
    if (it != sync_vc.end()) vc_join(cur->vc, it->second);
}
void release(const void* obj) {
    if (!(g_flags & 1)) return;
    Off off;
    vc_join(sync_vc[obj], cur->vc);
    vc_tick(cur);
}

// ------------------------------------------------------------ faults, crashes
bool any_fault_fired() { return res && !res->fired.empty(); }
void arm(bool on) { g_armed = on; }

void count_call(const char* fn) { if (g_armed) ++res->calls[fn]; }

bool fault_hit(const char* fn, int* err) {
    if (!g_armed) return false;
    Off off;
    uint64_t n = ++res->calls[fn];
    if (fault_plan.empty()) return false;
    auto it = fault_plan.find(fn);
    if (it == fault_plan.end()) return false;
    for (auto& p : it->second)
        if (p.first == n) {
            ++res->fired[std::string(fn)];
            *err = p.second;
            mix(0xFA ^ n);
            return true;
        }
    return false;
}

void crash_point() {
    if (!g_armed) return;
    ++g_cp;
    if (cfg.crash != CRASH_NONE && g_cp == cfg.crash_at) {
        Off off;
        ++res->fired[cfg.crash == CRASH_KILL ? "crash-kill" : "crash-power"];
        abort_run(O_CRASHED, "crash", "");
    }
}

uint64_t calls_of(const std::string& fn) {
    auto it = res->calls.find(fn);
    return it == res->calls.end() ? 0 : it->second;
}

// ------------------------------------------------------------ signals
static void on_signal(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc;
    void* pc = (void*)u->uc_mcontext.gregs[REG_RIP];
    if (!g_active || !cur) {
        fprintf(stderr, "sim: signal %d outside a run, address %p pc %p\n", sig, si->si_addr, pc);
        signal(sig, SIG_DFL);
        raise(sig);
        return;
    }
    uintptr_t a = (uintptr_t)si->si_addr;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
    std::string loc;
    if (a - MAPS_BASE < MAPS_SIZE) loc = "outside every file mapping";
    else if (a - STACK_BASE < STACK_TOTAL) loc = "stack overflow or wild stack address";
    else if (a - HEAP_BASE < HEAP_SIZE) loc = "heap region";
    else loc = "wild address";
    bool tgt = g_on;
    g_on = 0;
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig);
    sigprocmask(SIG_UNBLOCK, &s, nullptr);
    abort_run(O_VIOLATION, tgt ? "CRASH" : "CRASH-HARNESS", std::string(n) + " at " + loc + " in " + where(pc));
}

static void on_terminate() {
    if (g_active && cur) {
        g_on = 0;
        std::string what = "std::terminate called";
        if (std::exception_ptr e = std::current_exception()) {
            try { std::rethrow_exception(e); }
            catch (std::exception& x) { what += std::string(", exception: ") + x.what(); }
            catch (...) { what += ", unknown exception"; }
        }
        abort_run(O_VIOLATION, "TERMINATE", what);
    }
    ::abort();
}

void mem_init();
void fs_init();

void init() {
    static bool done = false;
    if (done) return;
    done = true;
    __libc_single_threaded = 0;
    void* p = mmap((void*)STACK_BASE, STACK_TOTAL, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)STACK_BASE) { perror("stack map"); exit(3); }
    for (uintptr_t i = 0; i < STACK_N; ++i) // guard page at the low end of each stack
        mprotect((void*)(STACK_BASE + i * STACK_SZ), PAGE, PROT_NONE);
    mem_init();
    fs_init();
    dl_iterate_phdr(phdr_cb, nullptr);
    if (tgt_lo) tgt_image.assign(tgt_lo, tgt_hi);
    if (tgt_tls && tgt_tls_size) tgt_tls_image.assign(tgt_tls, tgt_tls + tgt_tls_size);
    else tgt_tls_size = 0;
    altstack = malloc(1 << 16);
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack; ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
}

void gomp_reset();

PhaseResult run_phase(const Config& c, const std::function<void()>& root) {
    init();
    PhaseResult r;
    cfg = c;
    res = &r;
    srng = Rng(c.sched.seed ^ 0x5EED);
    g_steps = 0; since_switch = 0; g_cp = 0; g_hash = 0x1234;
    g_flags = (c.race ? 1 : 0) | (c.sched.policy == P_HOT ? 2 : 0);
    low_prio = 900000;
    change_points.clear();
    if (c.sched.policy == P_PCT) {
        for (int i = 0; i < c.sched.depth; ++i) change_points.push_back(1 + srng.below(c.sched.klen));
        std::sort(change_points.begin(), change_points.end(), std::greater<uint64_t>());
    }
    fault_plan.clear();
    for (auto& f : c.faults) fault_plan[f.fn].push_back({f.nth, f.err});
    sync_vc.clear();
    exc_ranges.clear();
    if (c.race) race_reset();
    nfibers = 0;
    heap_reset();
    fs_phase_begin();
    gomp_reset();
    if (tgt_lo) memcpy(tgt_lo, tgt_image.data(), tgt_image.size());
    if (tgt_tls_size) memcpy(tgt_tls, tgt_tls_image.data(), tgt_tls_size);
    g_armed = true;
    g_active = true;
    Fiber* f = new_fiber(root, false);
    cur = nullptr;
    enter(f);
    // back on the OS stack
    g_active = false;
    cur = nullptr;
    g_on = 0;
    {
        struct G { void* c; unsigned u; }* g = (G*)abi::__cxa_get_globals();
        g->c = main_fiber.caught; g->u = main_fiber.uncaught;
    }
    r.steps = g_steps;
    r.fibers = nfibers;
    r.crash_points = g_cp;
    r.open_fds = count_open_fds();
    r.live_maps = count_live_maps();
    r.live_allocs = heap_live();
    r.bad_munmap = bad_munmaps();
    fs_phase_end(r.outcome);
    mix(r.outcome);
    mix(fnvs(r.cls));
    mix(fs_hash());
    r.hash = g_hash;
    for (uint32_t i = 0; i < nfibers; ++i) fibers[i]->entry = nullptr;
    res = nullptr;
    return r;
}

} // namespace sim
