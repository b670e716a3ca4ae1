// Deterministic simulator runtime: fibers, seeded scheduler, C++20 weak-memory
// model, data-race / use-after-free detector, allocator, decision log.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
constexpr int MAXF = 40; // fibers per run (id 0 is the kernel)
constexpr int KERNEL = 0;

using Ep = std::uint32_t;

struct VC
{
    Ep e[MAXF];
    void clear() { std::memset(e, 0, sizeof(e)); }
    void join(const VC& o)
    {
        for (int i = 0; i < MAXF; ++i)
            if (o.e[i] > e[i])
                e[i] = o.e[i];
    }
};

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint32_t below(std::uint32_t n) { return n ? std::uint32_t((next() >> 32) * n >> 32) : 0; }
    int range(int lo, int hi) { return lo + int(below(std::uint32_t(hi - lo + 1))); }
    bool p(double x) { return double(next() >> 11) * 0x1p-53 < x; }
};

// Fault / choice sites. A site is a place where the simulator may inject
// something; each has its own rate in a run (swarm).
#define SIM_SITES(X) \
    X(none) X(cas_spurious) X(cond_spurious) X(thread_create_fail) \
    X(write_short) X(write_eintr) X(write_eio) X(write_enospc) \
    X(open_fail) X(open_eintr) X(dup_fail) X(fsync_fail) X(close_fail) X(mmap_fail) X(mremap_fail) \
    X(uring_setup_fail) X(uring_enosys) X(uring_register_fail) X(uring_short) X(uring_eagain) X(uring_eio) \
    X(uring_submit_fail) X(uring_submit_partial) X(uring_wait_eintr) X(uring_pick) X(uring_delay) X(uring_cancel_split) \
    X(sock_fail) X(bind_fail) X(listen_fail) X(accept_fail) X(recv_eintr) X(recv_fail) X(send_eintr) X(send_fail) X(send_eagain) X(poll_eintr) X(connect_fail) \
    X(clock_jump) X(clock_back) X(sleep_overrun) X(sleep_eintr) X(stderr_fail) \
    X(storage_throw_alloc) X(storage_throw_submit) X(storage_throw_flush) X(storage_reopen_fail) \
    X(crash) X(crash_keep) X(stall) X(time_skip) X(harness)

enum Site : int
{
#define X(n) S_##n,
    SIM_SITES(X)
#undef X
    NSITES
};
extern const char* const site_names[NSITES];

struct Dec
{
    std::uint64_t key;
    std::uint32_t val;
};

struct Knobs
{
    int strategy = 0;        // 0 uniform, 1 PCT, 2 bursts
    double p_switch = 0.1;
    double p_stale = 0.0;
    int stale_window = 200;
    double p_stall = 0.0;
    int stall_max = 1000;
    int pct_depth = 3;
    int pct_len = 3000;
    std::uint64_t horizon = 10000;
    double kernel_w = 1.0;
    double rate[NSITES] = {};
    std::uint64_t victim_mask = 0; // fibers preferred for stalls (0: any)
};

struct Proc
{
    int id = 0;
    bool dead = false;
    bool exited = false;
    int status = 0; // exit status, 134 for abort
    int sockerr = 0; // failed socket calls other than EINTR
    std::string out, err;
};

struct Fiber
{
    int id = 0;
    int parent = 0;
    Proc* proc = nullptr;
    enum St { unused, runnable, blocked, finished, killed } st = unused;
    void* sp = nullptr;
    char* stack = nullptr;
    std::string name;
    VC vc{};
    VC rel_fence{};
    VC acq_fence{};
    bool has_rel_fence = false;
    Ep& epoch() { return vc.e[id]; }
    std::uint32_t ndec = 0;
    std::uint32_t nstale = 0;
    std::uint64_t npoints = 0;
    std::uint32_t noprogress = 0;
    std::uint32_t consec = 0;
    std::uint64_t stalled_until = 0;
    std::int64_t prio = 0;
    int sut = 0;
    int err = 0;
    void* cxa[2] = {};
    std::vector<char> tls;
    const void* key = nullptr;
    std::uint64_t deadline = 0; // 0: none
    bool timed_out = false;
    std::function<void()> fn;
    void* (*pfn)(void*) = nullptr;
    void* parg = nullptr;
    void* ret = nullptr;
    bool detached = false;
    bool joined = false;
    std::vector<std::pair<void (*)(void*), void*>> atexit;
    std::uint32_t site_n[NSITES] = {};
    // activity counters, read by oracles
    std::uint64_t nalloc = 0, nsys = 0, nlock = 0, npause = 0, nclock = 0;
    std::uint64_t stores = 0;
};

extern Fiber* cur; // null outside the simulation
extern Fiber fibers[MAXF];
extern int nfibers;
extern std::uint64_t steps;
extern std::uint64_t now_ns;
extern std::uint64_t dt_ns;
extern Knobs knobs;
extern bool search_mode;
extern std::uint64_t fault_count[NSITES];
extern std::uint64_t n_switches, n_stale, n_points, n_forced;
extern std::uint64_t trace_hash;
extern std::uint64_t hang_budget, hang_cap, last_useful;
extern bool verbose;
extern bool faults_off;
extern std::uint64_t progress_count;

inline bool in_sut() { return cur && cur->sut > 0; }
inline bool past_horizon() { return steps >= knobs.horizon; }

struct Sut // entering code under test
{
    Sut() { ++cur->sut; }
    ~Sut() { --cur->sut; }
};
struct Host // back in harness code
{
    int saved;
    Fiber* f;
    Host() : saved(0), f(cur) { if (f) { saved = f->sut; f->sut = 0; } }
    ~Host() { if (f) f->sut = saved; }
};

void init_memory();                    // once per process, before any run
void begin_run(std::uint64_t seed, const Knobs& k, bool search, const std::vector<Dec>* plan);
void run_all(std::function<void()> controller); // runs the controller fiber to completion
const std::vector<Dec>& decisions();

Proc* new_proc();
Fiber* spawn(const char* name, Proc* p, std::function<void()> fn);
void join(Fiber* f);
void kill_proc(Proc* p, int status);
[[noreturn]] void finish_fiber();

void point(int kind, std::uint64_t v = 0); // scheduling point
void progress();                           // current fiber did something visible
bool block(const void* key, std::uint64_t deadline = 0); // false: timed out
void wake(const void* key);
bool anyone_waiting(const void* key);
void yield_now(int kind);                  // like point, but prefers others

void acquire_from(VC& v);
void release_to(VC& v);

std::uint32_t fault(Site s, std::uint32_t nvals = 1);
std::uint32_t choose(Site s, std::uint32_t n);
Rng& host_rng(); // only for search-time generation, never for replayable decisions

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern void (*on_violation)(const char* cls, const char* msg); // must not return
extern void (*on_proc_dead)(Proc*);
extern bool (*kernel_pending)();
extern void (*kernel_step)();

void mem_access(std::uintptr_t a, std::size_t n, bool w, bool atomic, std::uint32_t pc);
bool tracked(std::uintptr_t a);
void* arena_alloc(std::size_t n, std::size_t align = 16);
void arena_free(void* p);
bool in_arena(const void* p);
std::uint64_t live_allocs(); // arena blocks not yet freed
extern std::uintptr_t map_base, map_size;
void map_alias(std::uintptr_t page, std::uintptr_t canon);
void map_reset(std::uintptr_t a, std::size_t n);
void shadow_clear(std::uintptr_t a, std::size_t n);
void save_globals();
void restore_globals();

extern int trace_fd; // debugging: every mixed value
void mix(std::uint64_t v);
std::uint64_t real_ns();
}
