#include "rt.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <elf.h>
#include <link.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim
{
const char* const site_names[NSITES] = {
#define X(n) #n,
    SIM_SITES(X)
#undef X
};

Fiber* cur;
Fiber fibers[MAXF];
int nfibers;
std::uint64_t steps, now_ns, dt_ns = 1000;
Knobs knobs;
bool search_mode;
bool faults_off;
std::uint64_t fault_count[NSITES];
std::uint64_t n_switches, n_stale, n_points, n_forced;
std::uint64_t trace_hash;
std::uint64_t hang_budget = 600000, hang_cap = 8000000;
std::uint64_t last_useful;
bool verbose;
std::uint64_t progress_count;
void (*on_violation)(const char*, const char*);
void (*on_proc_dead)(Proc*);
bool (*kernel_pending)();
void (*kernel_step)();

static std::uint64_t last_progress_step;
static std::uint64_t accesses;
static Rng rng_sched, rng_fault, rng_host;
static std::vector<Dec> rec;
static std::unordered_map<std::uint64_t, std::uint32_t> plan;
static std::vector<Proc*> procs;
static void* main_sp;
static std::uint64_t min_deadline;

const std::vector<Dec>& decisions() { return rec; }
Rng& host_rng() { return rng_host; }

int trace_fd = -1;
void mix(std::uint64_t v)
{
    if (trace_fd >= 0) [[unlikely]]
    {
        char b[96];
        const int n = std::snprintf(b, sizeof(b), "%lu f%d %lx\n", (unsigned long)steps, cur ? cur->id : -1, (unsigned long)v);
        ::syscall(SYS_write, trace_fd, b, n);
    }
    trace_hash = (trace_hash ^ v) * 0x100000001b3ull;
    trace_hash ^= trace_hash >> 29;
}

std::uint64_t real_ns()
{
    struct timespec ts;
    ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return std::uint64_t(ts.tv_sec) * 1000000000ull + std::uint64_t(ts.tv_nsec);
}

[[noreturn]] void violation(const char* cls, const char* fmt, ...)
{
    static char buf[16384];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (cur)
        cur->sut = 0;
    on_violation(cls, buf);
    ::_exit(99);
}

// ---------------------------------------------------------------- memory

constexpr std::uintptr_t HEAP_BASE = 0x100000000000ull;
constexpr std::size_t HEAP_SZ = 2048ull << 20;
constexpr std::uintptr_t STACK_BASE = HEAP_BASE + HEAP_SZ;
constexpr std::size_t STACK_SZ = 512 << 10;
constexpr std::size_t STACKS_SZ = 64ull << 20;
constexpr std::uintptr_t MAP_BASE = STACK_BASE + STACKS_SZ;
constexpr std::size_t MAP_SZ = 512ull << 20;
constexpr std::uintptr_t ARENA_END = MAP_BASE + MAP_SZ;
constexpr std::uintptr_t SHADOW_BASE = 0x200000000000ull;

std::uintptr_t map_base = MAP_BASE, map_size = MAP_SZ;

extern "C" char sut_data_begin[], sut_data_end[], sut_bss_begin[], sut_bss_end[];

struct Cell
{
    std::uint32_t ep;
    std::uint32_t pc;
    std::uint8_t fid; // 0 empty, 0xFE freed, 0xFD red zone
    std::uint8_t mask;
    std::uint8_t flags; // 1 write, 2 atomic
    std::uint8_t pad;
};
struct Gran
{
    Cell c[3];
    std::uint32_t loc;
};
static_assert(sizeof(Gran) == 40);

static Gran* const shadow = reinterpret_cast<Gran*>(SHADOW_BASE);
static Gran* gshadow; // for globals
static std::uintptr_t glo, ghi;
static std::uint32_t page_alias[MAP_SZ >> 12]; // canonical page number + 1
static std::uintptr_t heap_cur, map_hi;
static std::uint64_t live_blocks;
static std::vector<char> globals_copy_data, globals_copy_bss;
static std::size_t tls_size, tls_init_size;
static const void* tls_init;
static char* tls_addr;

static int phdr_cb(struct dl_phdr_info* info, std::size_t, void*)
{
    // first entry is the executable
    for (int i = 0; i < info->dlpi_phnum; ++i)
    {
        const ElfW(Phdr)& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_TLS)
        {
            tls_size = ph.p_memsz;
            tls_init_size = ph.p_filesz;
            tls_init = reinterpret_cast<const void*>(info->dlpi_addr + ph.p_vaddr);
            std::uintptr_t tp;
            asm("mov %%fs:0, %0" : "=r"(tp));
            const std::size_t al = ph.p_align ? ph.p_align : 1;
            std::uintptr_t a = tp - ph.p_memsz;
            a &= ~(std::uintptr_t(al) - 1);
            tls_addr = reinterpret_cast<char*>(a);
        }
    }
    return 1;
}

static void* xmap(std::uintptr_t at, std::size_t n)
{
    void* p = ::mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(at))
    {
        std::perror("xsim: arena mmap");
        ::_exit(3);
    }
    return p;
}

void init_memory()
{
    xmap(HEAP_BASE, ARENA_END - HEAP_BASE);
    ::madvise(reinterpret_cast<void*>(HEAP_BASE), ARENA_END - HEAP_BASE, MADV_NOHUGEPAGE);
    xmap(SHADOW_BASE, (ARENA_END - HEAP_BASE) / 8 * sizeof(Gran));
    ::madvise(reinterpret_cast<void*>(SHADOW_BASE), (ARENA_END - HEAP_BASE) / 8 * sizeof(Gran), MADV_NOHUGEPAGE);
    ::mprotect(reinterpret_cast<void*>(MAP_BASE), MAP_SZ, PROT_NONE);
    auto lo = [](char* a, char* b) { return reinterpret_cast<std::uintptr_t>(a < b ? a : b); };
    auto hi = [](char* a, char* b) { return reinterpret_cast<std::uintptr_t>(a > b ? a : b); };
    glo = lo(sut_data_begin, sut_bss_begin) & ~7ull;
    ghi = hi(sut_data_end, sut_bss_end);
    gshadow = static_cast<Gran*>(::mmap(nullptr, ((ghi - glo) / 8 + 2) * sizeof(Gran), PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    heap_cur = HEAP_BASE + 4096;
    dl_iterate_phdr(phdr_cb, nullptr);
    save_globals();
}

void save_globals()
{
    globals_copy_data.assign(sut_data_begin, sut_data_end);
    globals_copy_bss.assign(sut_bss_begin, sut_bss_end);
}

static bool is_global(std::uintptr_t a)
{
    return (a >= reinterpret_cast<std::uintptr_t>(sut_data_begin) && a < reinterpret_cast<std::uintptr_t>(sut_data_end)) ||
        (a >= reinterpret_cast<std::uintptr_t>(sut_bss_begin) && a < reinterpret_cast<std::uintptr_t>(sut_bss_end));
}

static inline Gran* gran_of(std::uintptr_t a)
{
    if (a - HEAP_BASE < ARENA_END - HEAP_BASE) [[likely]]
    {
        if (a >= MAP_BASE)
        {
            const std::uint32_t c = page_alias[(a - MAP_BASE) >> 12];
            if (c)
                a = MAP_BASE + (std::uintptr_t(c - 1) << 12) + (a & 4095);
        }
        return shadow + ((a - HEAP_BASE) >> 3);
    }
    if (a - glo < ghi - glo && is_global(a))
        return gshadow + ((a - glo) >> 3);
    return nullptr;
}

bool tracked(std::uintptr_t a) { return gran_of(a) != nullptr; }
bool in_arena(const void* p)
{
    return reinterpret_cast<std::uintptr_t>(p) - HEAP_BASE < ARENA_END - HEAP_BASE;
}
std::uint64_t live_allocs() { return live_blocks; }

void map_alias(std::uintptr_t page, std::uintptr_t canon)
{
    std::uint32_t c = std::uint32_t((canon - MAP_BASE) >> 12);
    if (page_alias[c])
        c = page_alias[c] - 1;
    page_alias[(page - MAP_BASE) >> 12] = c + 1;
}

void map_reset(std::uintptr_t a, std::size_t n)
{
    for (std::size_t i = 0; i < n; i += 4096)
        page_alias[(a + i - MAP_BASE) >> 12] = 0;
}

static void loc_forget(Gran* g);

void shadow_clear(std::uintptr_t a, std::size_t n)
{
    for (std::uintptr_t x = a & ~7ull; x < a + n; x += 8)
    {
        Gran* g = gran_of(x);
        if (!g)
            continue;
        if (g->loc)
            loc_forget(g);
        std::memset(g, 0, sizeof(*g));
    }
}

static void shadow_mark(std::uintptr_t a, std::size_t n, std::uint8_t fid, std::uint32_t pc)
{
    for (std::uintptr_t x = a & ~7ull; x < a + n; x += 8)
    {
        Gran* g = gran_of(x);
        if (g->loc)
            loc_forget(g);
        g->c[0].fid = fid;
        g->c[0].pc = pc;
        g->c[0].ep = cur ? std::uint32_t(cur->id) : 0;
    }
}

// Bump allocation: addresses are never reused within a run, so every late
// access is seen. Layout: [16 header+redzone][user][8+ redzone]
void* arena_alloc(std::size_t n, std::size_t align)
{
    if (align < 16)
        align = 16;
    std::uintptr_t a = (heap_cur + 16 + align - 1) & ~(align - 1);
    const std::size_t un = (n + 7) & ~std::size_t(7);
    if (a + un + 64 > HEAP_BASE + HEAP_SZ)
        throw std::bad_alloc();
    std::uint64_t* hdr = reinterpret_cast<std::uint64_t*>(a) - 2;
    hdr[0] = n;
    hdr[1] = 0xA110C8EDull;
    shadow_mark(a - 8, 8, 0xFD, 0);
    shadow_mark(a + un, 8, 0xFD, 0);
    heap_cur = a + un + 8;
    ++live_blocks;
    if (trace_fd >= 0)
        mix(n);
    // poison, so that use of uninitialised memory is deterministic and visible
    if (n <= 65536)
        std::memset(reinterpret_cast<void*>(a), 0xCD, n);
    return reinterpret_cast<void*>(a);
}

void arena_free(void* p)
{
    if (!p)
        return;
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    std::uint64_t* hdr = reinterpret_cast<std::uint64_t*>(a) - 2;
    if (a >= HEAP_BASE + HEAP_SZ || (a & 15) || (hdr[1] != 0xA110C8EDull))
    {
        if (hdr[1] == 0xDEADF4EEull)
            violation("double-free", "double free of heap block at +0x%lx", (unsigned long)(a - HEAP_BASE));
        violation("bad-free", "free of a pointer that was not allocated");
    }
    const std::size_t n = hdr[0];
    hdr[1] = 0xDEADF4EEull;
    --live_blocks;
    if (cur && n <= (1u << 18))
    {
        // a free races with any unsynchronised access
        mem_access(a, n ? n : 1, true, false, std::uint32_t(reinterpret_cast<std::uintptr_t>(__builtin_return_address(0))));
    }
    if (n <= (1u << 18))
    {
        shadow_mark(a, n ? n : 1, 0xFE, std::uint32_t(reinterpret_cast<std::uintptr_t>(__builtin_return_address(0))));
        std::memset(p, 0xDD, n);
    }
    else
    {
        const std::uintptr_t lo = (a + 4095) & ~4095ull, hi = (a + n) & ~4095ull;
        if (hi > lo)
            ::mprotect(reinterpret_cast<void*>(lo), hi - lo, PROT_NONE);
    }
}

// ---------------------------------------------------------------- atomics: locations with store histories

struct StoreRec
{
    std::uint64_t val;
    VC rel{};
    bool has_rel;
    std::uint8_t w;
    Ep ep;
    std::uint64_t step;
};
struct ReadRec
{
    std::uint8_t f;
    Ep ep;
    std::uint32_t idx;
};
constexpr int HIST = 8;
struct Loc
{
    std::uintptr_t addr;
    int size;
    std::uint32_t next;  // chain within the granule
    std::uint32_t first; // modification-order index of h[0]
    int n;
    StoreRec h[HIST];
    std::vector<ReadRec> reads;
};
static std::vector<Loc*> locs(1, nullptr);

static void loc_forget(Gran* g)
{
    for (std::uint32_t i = g->loc; i; i = locs[i]->next)
    {
        locs[i]->n = 0;
        locs[i]->reads.clear();
    }
}

static void loc_plain_write(Gran* g, std::uintptr_t a, std::size_t n)
{
    for (std::uint32_t i = g->loc; i; i = locs[i]->next)
    {
        Loc* l = locs[i];
        // compare within the granule so that mirrored addresses agree
        const std::uintptr_t la = l->addr & 7, pa = a & 7;
        if (la < pa + n && pa < la + std::uintptr_t(l->size))
        {
            l->n = 0;
            l->reads.clear();
        }
    }
}

static Loc* get_loc(std::uintptr_t a, int size, std::uint64_t memval)
{
    Gran* g = gran_of(a);
    if (!g)
        return nullptr;
    Loc* l = nullptr;
    for (std::uint32_t i = g->loc; i; i = locs[i]->next)
    {
        if ((locs[i]->addr & 7) == (a & 7) && locs[i]->size == size)
            l = locs[i];
        else if (locs[i]->n)
        {
            // overlapping access of another size: start afresh
            const std::uintptr_t la = locs[i]->addr & 7, pa = a & 7;
            if (la < pa + std::uintptr_t(size) && pa < la + std::uintptr_t(locs[i]->size))
                locs[i]->n = 0;
        }
    }
    if (!l)
    {
        l = new Loc;
        l->addr = a;
        l->size = size;
        l->next = g->loc;
        l->n = 0;
        l->first = 0;
        locs.push_back(l);
        g->loc = std::uint32_t(locs.size() - 1);
    }
    if (l->n == 0)
    {
        l->first += HIST;
        l->n = 1;
        StoreRec& s = l->h[0];
        s.val = memval;
        s.has_rel = false;
        s.w = 0;
        s.ep = 0;
        s.step = steps;
    }
    return l;
}

static void push_store(Loc* l, std::uint64_t val, bool release, const StoreRec* seq_from)
{
    StoreRec s;
    s.val = val;
    s.w = std::uint8_t(cur->id);
    s.ep = cur->epoch();
    s.step = steps;
    s.has_rel = false;
    if (release)
    {
        s.rel = cur->vc;
        s.has_rel = true;
    }
    else if (cur->has_rel_fence)
    {
        s.rel = cur->rel_fence;
        s.has_rel = true;
    }
    if (seq_from && seq_from->has_rel)
    {
        if (s.has_rel)
            s.rel.join(seq_from->rel);
        else
        {
            s.rel = seq_from->rel;
            s.has_rel = true;
        }
    }
    if (l->n == HIST)
    {
        for (int i = 1; i < HIST; ++i)
            l->h[i - 1] = l->h[i];
        --l->n;
        ++l->first;
    }
    l->h[l->n++] = s;
    if (release)
        ++cur->epoch();
}

static void note_read(Loc* l, int i)
{
    const std::uint32_t idx = l->first + std::uint32_t(i);
    // keep the list short: drop entries this one supersedes for the same fiber
    for (auto it = l->reads.rbegin(); it != l->reads.rend(); ++it)
        if (it->f == cur->id)
        {
            if (it->idx == idx)
                return;
            break;
        }
    if (l->reads.size() > 64)
    {
        std::vector<ReadRec> keep;
        for (auto& r : l->reads)
            if (r.idx >= l->first)
                keep.push_back(r);
        l->reads.swap(keep);
        if (l->reads.size() > 64)
            l->reads.erase(l->reads.begin(), l->reads.begin() + 32);
    }
    l->reads.push_back({std::uint8_t(cur->id), cur->epoch(), idx});
}

static void apply_acquire(const StoreRec& s, bool acq)
{
    if (!s.has_rel)
        return;
    if (acq)
        cur->vc.join(s.rel);
    else
        cur->acq_fence.join(s.rel);
}

static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static std::uint32_t decide(int kind, int fiber, std::uint32_t sub, std::uint32_t n, std::uint32_t def, std::uint32_t searched)
{
    // kind 1 switch, 2 stale, 3 fault/choice
    const std::uint64_t key = (std::uint64_t(kind) << 60) | (std::uint64_t(fiber) << 52) | (std::uint64_t(sub) << 40) | n;
    if (search_mode)
    {
        if (searched != def)
            rec.push_back({key, searched});
        return searched;
    }
    auto it = plan.find(key);
    return it == plan.end() ? def : it->second;
}

static int pick_store(Loc* l, int mo)
{
    const int latest = l->n - 1;
    if (l->n == 1 || mo == __ATOMIC_SEQ_CST)
        return latest;
    // coherence: lower bound on the store this fiber may still read
    int lo = 0;
    for (int i = latest; i > 0; --i)
        if (l->h[i].w == 0 || l->h[i].w == cur->id || l->h[i].ep <= cur->vc.e[l->h[i].w])
        {
            lo = i;
            break;
        }
    for (const ReadRec& r : l->reads)
        if (r.f == cur->id || r.ep <= cur->vc.e[r.f])
        {
            const int i = int(r.idx) - int(l->first);
            if (i > lo)
                lo = i;
        }
    // bounded staleness: a store overwritten long ago has become invisible
    while (lo < latest && l->h[lo + 1].step + std::uint64_t(knobs.stale_window) < steps)
        ++lo;
    if (lo >= latest)
        return latest;
    const std::uint32_t n = cur->nstale++;
    std::uint32_t back = 0;
    if (search_mode && !past_horizon() && knobs.p_stale > 0 && rng_sched.p(knobs.p_stale))
        back = 1 + rng_sched.below(std::uint32_t(latest - lo));
    back = decide(2, cur->id, 0, n, 0, back);
    if (back > std::uint32_t(latest - lo))
        back = std::uint32_t(latest - lo);
    if (back)
        ++n_stale;
    return latest - int(back);
}

// ---------------------------------------------------------------- race detector

static std::string pcstr(std::uint32_t pc)
{
    char b[32];
    std::snprintf(b, sizeof(b), "<pc:%x>", pc);
    return b;
}

[[noreturn]] static void report_bad_access(std::uintptr_t a, std::size_t n, bool w, bool at, std::uint32_t pc, const Cell& c)
{
    const char* kind = w ? "write" : "read";
    const char* where = a >= MAP_BASE && a < ARENA_END ? "queue memory" : a >= STACK_BASE && a < ARENA_END ? "stack" : a >= HEAP_BASE && a < ARENA_END ? "heap" : "global";
    if (c.fid == 0xFE)
        violation("use-after-free", "%s of %zu bytes by %s at %s: memory was freed at %s by fiber %u",
            kind, n, cur->name.c_str(), pcstr(pc).c_str(), pcstr(c.pc).c_str(), c.ep);
    if (c.fid == 0xFD)
        violation("out-of-bounds", "%s of %zu bytes by %s at %s outside its heap block", kind, n, cur->name.c_str(), pcstr(pc).c_str());
    violation("data-race", "%s%s of %zu bytes (%s) by %s at %s races with %s%s by %s at %s",
        at ? "atomic " : "", kind, n, where, cur->name.c_str(), pcstr(pc).c_str(),
        (c.flags & 2) ? "atomic " : "", (c.flags & 1) ? "write" : "read", fibers[c.fid].name.c_str(), pcstr(c.pc).c_str());
}

static inline void access_gran(Gran* g, std::uintptr_t a, std::size_t n, bool w, bool at, std::uint32_t pc)
{
    const std::uint8_t mask = std::uint8_t(((1u << n) - 1) << (a & 7));
    const std::uint8_t flags = std::uint8_t((w ? 1 : 0) | (at ? 2 : 0));
    const std::uint8_t me = std::uint8_t(cur->id);
    const Ep myep = cur->epoch();
    if (w && !at && g->loc) [[unlikely]]
        loc_plain_write(g, a, n);
    int slot = -1;
    for (int i = 0; i < 3; ++i)
    {
        Cell& c = g->c[i];
        if (c.fid == 0)
        {
            if (slot < 0)
                slot = i;
            break;
        }
        if (c.fid >= 0xFD) [[unlikely]]
            report_bad_access(a, n, w, at, pc, c);
        if (c.fid == me)
        {
            if (c.mask == mask && c.flags == flags)
            {
                if (c.ep == myep)
                    return;
                slot = i; // replace: newer epoch of the same access
            }
            else if ((c.mask & mask) == c.mask && (flags & 1) && !at)
                slot = i; // superseded by a stronger access
            continue;
        }
        if (!(c.mask & mask))
            continue;
        if (!((c.flags | flags) & 1))
            continue;
        if ((c.flags & 2) && at)
            continue;
        if (c.ep > cur->vc.e[c.fid])
            report_bad_access(a, n, w, at, pc, c);
    }
    if (slot < 0)
    {
        // prefer evicting entries ordered before us
        for (int i = 0; i < 3 && slot < 0; ++i)
            if (g->c[i].ep <= cur->vc.e[g->c[i].fid] && g->c[i].fid != me && (g->c[i].mask & mask) == g->c[i].mask && (w || !(g->c[i].flags & 1)))
                slot = i;
        if (slot < 0)
            slot = int((a >> 3) + myep) % 3;
    }
    g->c[slot] = Cell{myep, pc, me, mask, flags, 0};
}

void mem_access(std::uintptr_t a, std::size_t n, bool w, bool atomic, std::uint32_t pc)
{
    while (n)
    {
        std::size_t k = 8 - (a & 7);
        if (k > n)
            k = n;
        if (Gran* g = gran_of(a))
            access_gran(g, a, k, w, atomic, pc);
        a += k;
        n -= k;
    }
}

static void budget_exceeded()
{
    violation("hang", "no termination within the access budget (step %lu, fiber %s)", (unsigned long)steps, cur->name.c_str());
}

static inline void plain(const void* p, std::size_t n, bool w, void* ra)
{
    if (!cur)
        return;
    if (++accesses > 400000000ull) [[unlikely]]
        budget_exceeded();
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    const std::uint32_t pc = std::uint32_t(reinterpret_cast<std::uintptr_t>(ra));
    if ((a & 7) + n <= 8) [[likely]]
    {
        if (Gran* g = gran_of(a))
            access_gran(g, a, n, w, false, pc);
        return;
    }
    mem_access(a, n, w, false, pc);
}

// ---------------------------------------------------------------- scheduler

static std::vector<int> runnable_list;
static std::uint64_t next_pct_change;
static std::vector<std::uint64_t> pct_points;
static std::int64_t pct_low;
static std::uint64_t burst_until;
static int burst_target;
static std::int64_t kernel_prio;

void progress()
{
    ++progress_count;
    last_progress_step = steps;
    if (cur)
        cur->noprogress = 0;
}

static bool is_runnable(int i)
{
    if (i == KERNEL)
        return kernel_pending && kernel_pending();
    return fibers[i].st == Fiber::runnable;
}

static int default_choice(bool cur_ok)
{
    if (cur_ok && cur->noprogress < 40 && cur->consec < 2000)
        return cur->id;
    for (int k = 1; k <= nfibers; ++k)
    {
        const int i = (cur->id + k) % nfibers;
        if (i == cur->id)
            return cur_ok ? i : -1;
        if (is_runnable(i))
            return i;
    }
    return cur_ok ? cur->id : -1;
}

static int search_pick(int def, bool cur_ok)
{
    if (past_horizon())
        return def;
    const std::uint64_t quiet = steps - last_progress_step;
    // occasionally stall a fiber
    if (knobs.p_stall > 0 && rng_sched.p(knobs.p_stall))
    {
        const int v = 1 + int(rng_sched.below(std::uint32_t(nfibers - 1)));
        fibers[v].stalled_until = steps + 1 + rng_sched.below(std::uint32_t(knobs.stall_max));
        ++fault_count[S_stall];
    }
    const bool lift = quiet > 150;
    runnable_list.clear();
    for (int i = 0; i < nfibers; ++i)
        if (is_runnable(i) && (lift || i == KERNEL || fibers[i].stalled_until <= steps))
            runnable_list.push_back(i);
    if (runnable_list.empty())
        return def;
    if (lift)
        for (int i = 0; i < nfibers; ++i)
            fibers[i].stalled_until = 0;
    bool def_ok = false;
    for (int i : runnable_list)
        def_ok |= i == def;
    if (runnable_list.size() == 1)
        return runnable_list[0];

    switch (knobs.strategy)
    {
    case 1: // PCT: strict priorities with a few change points
    {
        if (cur_ok && (cur->noprogress >= 30 || cur->consec >= 1500))
        {
            cur->prio = --pct_low;
            if (runnable_list[0] == KERNEL)
                kernel_prio = std::int64_t(rng_sched.below(1000));
        }
        while (!pct_points.empty() && pct_points.back() <= steps)
        {
            pct_points.pop_back();
            cur->prio = --pct_low;
        }
        if (rng_sched.below(64) == 0)
            kernel_prio = std::int64_t(rng_sched.below(1000)) - (rng_sched.p(0.5) ? 2000 : 0);
        int best = -1;
        std::int64_t bp = 0;
        for (int i : runnable_list)
        {
            const std::int64_t pr = i == KERNEL ? kernel_prio : fibers[i].prio;
            if (best < 0 || pr > bp)
                best = i, bp = pr;
        }
        return best;
    }
    case 2: // bursts
        if (steps >= burst_until || (cur_ok && cur->noprogress >= 30))
        {
            burst_target = runnable_list[rng_sched.below(std::uint32_t(runnable_list.size()))];
            burst_until = steps + 1 + rng_sched.below(std::uint32_t(4.0 / (knobs.p_switch + 0.001)));
            return burst_target;
        }
        for (int i : runnable_list)
            if (i == burst_target && i != KERNEL)
                return i;
        return runnable_list[rng_sched.below(std::uint32_t(runnable_list.size()))];
    default:
        if (!def_ok || rng_sched.p(knobs.p_switch))
        {
            if (runnable_list[0] == KERNEL && runnable_list.size() > 1 && !rng_sched.p(knobs.kernel_w / (knobs.kernel_w + double(runnable_list.size() - 1))))
                return runnable_list[1 + rng_sched.below(std::uint32_t(runnable_list.size() - 1))];
            if (runnable_list[0] == KERNEL)
                return runnable_list.size() > 1 && rng_sched.p(0.5) ? runnable_list[1 + rng_sched.below(std::uint32_t(runnable_list.size() - 1))] : KERNEL;
            return runnable_list[rng_sched.below(std::uint32_t(runnable_list.size()))];
        }
        return def;
    }
}

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    push %rbp
    push %rbx
    push %r12
    push %r13
    push %r14
    push %r15
    mov %rsp, (%rdi)
    mov %rsi, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbx
    pop %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
    .cfi_startproc
    .cfi_undefined rip
    xor %ebp, %ebp
    call sim_fiber_main
    ud2
    .cfi_endproc
.size sim_fiber_entry,.-sim_fiber_entry
)");
extern "C" void sim_fiber_entry();

static void leave_ctx(Fiber* f)
{
    f->err = errno;
    void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
    f->cxa[0] = g[0];
    f->cxa[1] = g[1];
    if (tls_size)
        std::memcpy(f->tls.data(), tls_addr, tls_size);
}
static void enter_ctx(Fiber* f)
{
    void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
    g[0] = f->cxa[0];
    g[1] = f->cxa[1];
    if (tls_size)
        std::memcpy(tls_addr, f->tls.data(), tls_size);
    errno = f->err;
}

static void switch_to(int id)
{
    Fiber* from = cur;
    Fiber* to = &fibers[id];
    ++n_switches;
    leave_ctx(from);
    cur = to;
    to->noprogress = 0;
    to->consec = 0;
    enter_ctx(to);
    sim_switch(&from->sp, to->sp);
}

static void check_timers()
{
    if (!min_deadline || now_ns < min_deadline)
        return;
    min_deadline = 0;
    for (int i = 1; i < nfibers; ++i)
    {
        Fiber& f = fibers[i];
        if (f.st == Fiber::blocked && f.deadline)
        {
            if (f.deadline <= now_ns)
            {
                f.st = Fiber::runnable;
                f.timed_out = true;
                f.key = nullptr;
                f.deadline = 0;
                last_progress_step = steps;
            }
            else if (!min_deadline || f.deadline < min_deadline)
                min_deadline = f.deadline;
        }
    }
}

static std::string blocked_list()
{
    std::string s;
    for (int i = 1; i < nfibers; ++i)
        if (fibers[i].st == Fiber::blocked || fibers[i].st == Fiber::runnable)
            s += " " + fibers[i].name + (fibers[i].st == Fiber::blocked ? "(blocked)" : "(running)");
    return s;
}

static void reschedule(bool cur_ok)
{
    for (;;)
    {
        check_timers();
        if (cur->st == Fiber::runnable)
            cur_ok = true;
        const int def = default_choice(cur_ok);
        if (def < 0)
        {
            if (min_deadline)
            {
                if (now_ns < min_deadline)
                    now_ns = min_deadline;
                continue;
            }
            violation("deadlock", "no thread can run:%s", blocked_list().c_str());
        }
        const std::uint32_t n = cur->ndec++;
        int tgt = search_mode ? search_pick(def, cur_ok) : def;
        tgt = int(decide(1, cur->id, 0, n, std::uint32_t(def), std::uint32_t(tgt)));
        if (tgt != def && (tgt >= nfibers || !is_runnable(tgt)))
            tgt = def; // plan entry no longer applicable
        if (tgt == KERNEL)
        {
            ++steps;
            mix(0x6b65726eull);
            kernel_step();
            last_progress_step = steps;
            if (cur->st == Fiber::runnable)
                cur_ok = true;
            cur->noprogress = 0;
            continue;
        }
        if (tgt == cur->id)
        {
            if (cur->noprogress >= 40)
                cur->noprogress = 0;
            if (cur->consec >= 2000)
                cur->consec = 0;
            return;
        }
        mix(0x5357ull + std::uint64_t(tgt));
        switch_to(tgt);
        return;
    }
}

static void check_hang()
{
    // slow is not hung: what counts is the time since an operation of the
    // workload began or a file grew
    if (steps > last_useful + hang_budget)
        violation("hang", "no progress for %lu steps after the last fault:%s", (unsigned long)hang_budget, blocked_list().c_str());
    if (steps > knobs.horizon + hang_cap)
        violation("hang", "not finished %lu steps after the last fault:%s", (unsigned long)hang_cap, blocked_list().c_str());
}

void point(int kind, std::uint64_t v)
{
    if (!cur)
        return;
    ++steps;
    ++n_points;
    now_ns += dt_ns;
    ++cur->npoints;
    ++cur->noprogress;
    ++cur->consec;
    mix((std::uint64_t(cur->id) << 56) ^ (std::uint64_t(kind) << 48) ^ v);
    if (steps > knobs.horizon + hang_budget) [[unlikely]]
        check_hang();
    reschedule(true);
}

void yield_now(int kind)
{
    if (!cur)
        return;
    cur->noprogress = 1000;
    point(kind);
}

bool block(const void* key, std::uint64_t deadline)
{
    cur->st = Fiber::blocked;
    cur->key = key;
    cur->deadline = deadline;
    cur->timed_out = false;
    if (deadline && (!min_deadline || deadline < min_deadline))
        min_deadline = deadline;
    ++steps;
    ++cur->npoints;
    if (steps > knobs.horizon + hang_budget) [[unlikely]]
        check_hang();
    mix((std::uint64_t(cur->id) << 56) ^ 0xb10cull);
    reschedule(false);
    return !cur->timed_out;
}

void wake(const void* key)
{
    for (int i = 1; i < nfibers; ++i)
        if (fibers[i].st == Fiber::blocked && fibers[i].key == key)
        {
            fibers[i].st = Fiber::runnable;
            fibers[i].key = nullptr;
            fibers[i].deadline = 0;
        }
    progress();
}

bool anyone_waiting(const void* key)
{
    for (int i = 1; i < nfibers; ++i)
        if (fibers[i].st == Fiber::blocked && fibers[i].key == key)
            return true;
    return false;
}

void acquire_from(VC& v) { cur->vc.join(v); }
void release_to(VC& v)
{
    v.join(cur->vc);
    ++cur->epoch();
}

std::uint32_t fault(Site s, std::uint32_t nvals)
{
    if (!cur)
        return 0;
    const std::uint32_t n = cur->site_n[s]++;
    std::uint32_t v = 0;
    if (search_mode && !faults_off && !past_horizon() && knobs.rate[s] > 0 && rng_fault.p(knobs.rate[s]))
        v = 1 + rng_fault.below(nvals);
    v = decide(3, cur->id, std::uint32_t(s), n, 0, v);
    if (v > nvals)
        v = nvals;
    if (v)
    {
        ++fault_count[s];
        mix(0xfa0000ull + std::uint64_t(s) * 256 + v);
    }
    return v;
}

std::uint32_t choose(Site s, std::uint32_t nn)
{
    if (!cur || nn <= 1)
        return 0;
    const std::uint32_t n = cur->site_n[s]++;
    std::uint32_t v = 0;
    if (search_mode && !past_horizon())
        v = rng_fault.below(nn);
    v = decide(3, cur->id, std::uint32_t(s), n, 0, v);
    return v >= nn ? nn - 1 : v;
}

// ---------------------------------------------------------------- fibers

Proc* new_proc()
{
    Proc* p = new Proc;
    p->id = int(procs.size());
    procs.push_back(p);
    return p;
}

static Fiber* make_fiber(const char* name, Proc* p)
{
    if (nfibers >= MAXF)
        violation("harness-fibers", "too many threads");
    const int id = nfibers++;
    Fiber& f = fibers[id];
    f.id = id;
    f.parent = cur ? cur->id : 0;
    f.proc = p;
    f.name = std::string(name) + "#" + std::to_string(id);
    f.stack = reinterpret_cast<char*>(STACK_BASE + std::size_t(id) * STACK_SZ);
    f.vc.clear();
    f.rel_fence.clear();
    f.acq_fence.clear();
    if (cur)
    {
        f.vc = cur->vc;
        ++cur->epoch();
    }
    f.vc.e[id] = 1;
    if (tls_size)
    {
        f.tls.assign(tls_size, 0);
        std::memcpy(f.tls.data(), tls_init, tls_init_size);
    }
    f.prio = std::int64_t(rng_sched.below(1000));
    std::uintptr_t top = reinterpret_cast<std::uintptr_t>(f.stack) + STACK_SZ - 64;
    // what was never written is not zero on a real stack either
    std::memset(reinterpret_cast<void*>(top - 16384), 0x5a, 16384);
    void** sp = reinterpret_cast<void**>(top & ~15ull);
    *--sp = reinterpret_cast<void*>(&sim_fiber_entry);
    for (int i = 0; i < 6; ++i)
        *--sp = nullptr;
    f.sp = sp;
    f.st = Fiber::runnable;
    return &f;
}

extern "C" void sim_fiber_main()
{
    Fiber* f = cur;
    if (f->pfn)
    {
        f->sut = 1;
        f->ret = f->pfn(f->parg);
        f->sut = 0;
    }
    else
        f->fn();
    finish_fiber();
}

static Fiber* controller_fiber;

void finish_fiber()
{
    Fiber* f = cur;
    while (!f->atexit.empty())
    {
        auto h = f->atexit.back();
        f->atexit.pop_back();
        f->sut = 1;
        h.first(h.second);
        f->sut = 0;
    }
    f->st = Fiber::finished;
    ++f->epoch();
    progress();
    wake(f);
    if (f == controller_fiber)
    {
        Fiber* from = cur;
        cur = nullptr;
        sim_switch(&from->sp, main_sp);
    }
    for (;;)
        reschedule(false);
}

Fiber* spawn(const char* name, Proc* p, std::function<void()> fn)
{
    Fiber* f = make_fiber(name, p);
    f->fn = std::move(fn);
    progress();
    return f;
}

void join(Fiber* f)
{
    while (f->st != Fiber::finished && f->st != Fiber::killed)
        block(f);
    cur->vc.join(f->vc);
    f->joined = true;
}

void kill_proc(Proc* p, int status)
{
    p->dead = true;
    p->status = status;
    for (int i = 1; i < nfibers; ++i)
        if (fibers[i].proc == p && fibers[i].st != Fiber::finished)
        {
            fibers[i].st = Fiber::killed;
            wake(&fibers[i]);
        }
    if (on_proc_dead)
        on_proc_dead(p);
    wake(p);
    if (cur->proc == p)
        for (;;)
            reschedule(false);
}

void begin_run(std::uint64_t seed, const Knobs& k, bool search, const std::vector<Dec>* pl)
{
    knobs = k;
    search_mode = search;
    rng_sched = Rng(seed * 3 + 1);
    rng_fault = Rng(seed * 3 + 2);
    rng_host = Rng(seed * 3 + 3);
    plan.clear();
    if (pl)
        for (const Dec& d : *pl)
            plan[d.key] = d.val;
    rec.clear();
    rec.reserve(4096);
    steps = 0;
    last_useful = 0;
    nfibers = 1; // kernel
    trace_hash = 0xcbf29ce484222325ull;
    pct_points.clear();
    for (int i = 0; i < k.pct_depth; ++i)
        pct_points.push_back(rng_sched.below(std::uint32_t(k.pct_len > 0 ? k.pct_len : 1)));
    for (std::size_t i = 0; i < pct_points.size(); ++i)
        for (std::size_t j = i + 1; j < pct_points.size(); ++j)
            if (pct_points[j] > pct_points[i])
                std::swap(pct_points[i], pct_points[j]);
}

void run_all(std::function<void()> controller)
{
    Proc* p0 = new_proc();
    Fiber* f = make_fiber("controller", p0);
    f->fn = std::move(controller);
    controller_fiber = f;
    cur = f;
    enter_ctx(f);
    sim_switch(&main_sp, f->sp);
}

void restore_globals()
{
    std::memcpy(sut_data_begin, globals_copy_data.data(), globals_copy_data.size());
    std::memcpy(sut_bss_begin, globals_copy_bss.data(), globals_copy_bss.size());
    for (std::uintptr_t a = glo; a < ghi; a += 8)
        if (Gran* g = gran_of(a))
        {
            if (g->loc)
                loc_forget(g);
            std::memset(g->c, 0, sizeof(g->c));
        }
}
} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- TSan ABI

#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, RA); }
void __tsan_read_range(void* p, unsigned long n) { plain(p, n, false, RA); }
void __tsan_write_range(void* p, unsigned long n) { plain(p, n, true, RA); }
#define RW(N) \
    void __tsan_read##N(void* p) { plain(p, N, false, RA); } \
    void __tsan_write##N(void* p) { plain(p, N, true, RA); } \
    void __tsan_read##N##_pc(void* p, void* pc) { plain(p, N, false, pc); } \
    void __tsan_write##N##_pc(void* p, void* pc) { plain(p, N, true, pc); } \
    void __tsan_unaligned_read##N(void* p) { plain(p, N, false, RA); } \
    void __tsan_unaligned_write##N(void* p) { plain(p, N, true, RA); } \
    void __tsan_volatile_read##N(void* p) { plain(p, N, false, RA); } \
    void __tsan_volatile_write##N(void* p) { plain(p, N, true, RA); } \
    void __tsan_unaligned_volatile_read##N(void* p) { plain(p, N, false, RA); } \
    void __tsan_unaligned_volatile_write##N(void* p) { plain(p, N, true, RA); } \
    void __tsan_read_write##N(void* p) { plain(p, N, true, RA); } \
    void __tsan_unaligned_read_write##N(void* p) { plain(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
}

namespace
{
enum { K_LOAD = 1, K_STORE, K_RMW, K_CAS, K_FENCE, K_LOCK, K_UNLOCK, K_COND, K_THREAD, K_GUARD, K_PAUSE, K_YIELD };

std::uint64_t canon(const volatile void* p)
{
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    return tracked(a) ? a & 0xffffffull : 0;
}

template<typename T>
T a_load(const volatile T* p, int mo, void* ra)
{
    if (!cur)
        return *p;
    Host h;
    point(K_LOAD, canon(p));
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    if (!tracked(a))
        return *p;
    mem_access(a, sizeof(T), false, true, std::uint32_t(reinterpret_cast<std::uintptr_t>(ra)));
    Loc* l = get_loc(a, sizeof(T), std::uint64_t(*p));
    const int i = pick_store(l, mo);
    note_read(l, i);
    const StoreRec& s = l->h[i];
    apply_acquire(s, is_acq(mo));
    mix(s.val);
    return T(s.val);
}

template<typename T>
void a_store(volatile T* p, T v, int mo, void* ra)
{
    if (!cur)
    {
        *p = v;
        return;
    }
    Host h;
    point(K_STORE, canon(p));
    progress();
    ++cur->stores;
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    if (tracked(a))
    {
        mem_access(a, sizeof(T), true, true, std::uint32_t(reinterpret_cast<std::uintptr_t>(ra)));
        Loc* l = get_loc(a, sizeof(T), std::uint64_t(*p));
        push_store(l, std::uint64_t(v), is_rel(mo), nullptr);
    }
    mix(std::uint64_t(v));
    *p = v;
}

template<typename T, typename F>
T a_rmw(volatile T* p, int mo, void* ra, F f)
{
    if (!cur)
    {
        const T o = *p;
        *p = f(o);
        return o;
    }
    Host h;
    point(K_RMW, canon(p));
    progress();
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    const T old = *p;
    const T nv = f(old);
    if (tracked(a))
    {
        mem_access(a, sizeof(T), true, true, std::uint32_t(reinterpret_cast<std::uintptr_t>(ra)));
        Loc* l = get_loc(a, sizeof(T), std::uint64_t(old));
        const StoreRec prev = l->h[l->n - 1];
        apply_acquire(prev, is_acq(mo));
        push_store(l, std::uint64_t(nv), is_rel(mo), &prev);
    }
    mix(std::uint64_t(old) * 31 + std::uint64_t(nv));
    *p = nv;
    return old;
}

template<typename T>
bool a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, void* ra)
{
    if (!cur)
    {
        if (*p == *exp)
        {
            *p = des;
            return true;
        }
        *exp = *p;
        return false;
    }
    Host h;
    point(K_CAS, canon(p));
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    const T old = *p;
    const bool ok = old == *exp && !(weak && fault(S_cas_spurious));
    if (tracked(a))
    {
        mem_access(a, sizeof(T), ok, true, std::uint32_t(reinterpret_cast<std::uintptr_t>(ra)));
        Loc* l = get_loc(a, sizeof(T), std::uint64_t(old));
        const StoreRec prev = l->h[l->n - 1];
        apply_acquire(prev, is_acq(ok ? mo : fmo));
        if (ok)
            push_store(l, std::uint64_t(des), is_rel(mo), &prev);
        else
            note_read(l, l->n - 1);
    }
    if (ok)
    {
        *p = des;
        progress();
    }
    else
        *exp = old;
    return ok;
}
}

using sim_u8 = unsigned char;
using sim_u16 = unsigned short;
using sim_u32 = unsigned int;
using sim_u64 = unsigned long;
extern "C" {
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, RA); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, RA); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T) { return v; }); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T o) { return T(o + v); }); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T o) { return T(o - v); }); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T o) { return T(o & v); }); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T o) { return T(o | v); }); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T o) { return T(o ^ v); }); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, RA, [&](T o) { return T(~(o & v)); }); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, false, RA); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, true, RA); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, false, RA); return e; }
ATOM(8, sim_u8)
ATOM(16, sim_u16)
ATOM(32, sim_u32)
ATOM(64, sim_u64)
void __tsan_atomic_thread_fence(int mo)
{
    if (!cur)
        return;
    Host h;
    point(K_FENCE);
    if (is_acq(mo))
        cur->vc.join(cur->acq_fence);
    if (is_rel(mo))
    {
        cur->rel_fence = cur->vc;
        cur->has_rel_fence = true;
        ++cur->epoch();
    }
}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- mutexes, condition variables, threads

namespace
{
struct Mtx
{
    int owner = 0;
    int count = 0;
    int readers = 0;
    VC vc{};
};
struct Cnd
{
    std::vector<int> q;
    VC vc{};
};
std::unordered_map<const void*, Mtx*> mtxs;
std::unordered_map<const void*, Cnd*> cnds;

Mtx& mtx(const void* p)
{
    Mtx*& m = mtxs[p];
    if (!m)
        m = new Mtx;
    return *m;
}
Cnd& cnd(const void* p)
{
    Cnd*& c = cnds[p];
    if (!c)
        c = new Cnd;
    return *c;
}
bool simulated(const void* p) { return cur && tracked(reinterpret_cast<std::uintptr_t>(p)); }
void touch(const void* p, void* ra)
{
    mem_access(reinterpret_cast<std::uintptr_t>(p), 4, true, true, std::uint32_t(reinterpret_cast<std::uintptr_t>(ra)));
}

void lock_slow(const void* p, Mtx& m, bool recursive)
{
    if (m.owner == cur->id && recursive)
    {
        ++m.count;
        return;
    }
    if (m.owner == cur->id)
        violation("deadlock", "thread %s locks a mutex it already holds", cur->name.c_str());
    while ((m.owner && fibers[m.owner].st != Fiber::killed) || m.readers)
        block(p);
    m.owner = cur->id;
    m.count = 1;
    cur->vc.join(m.vc);
    progress();
}
bool is_recursive(const pthread_mutex_t* p) { return (p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

int do_lock(pthread_mutex_t* p, void* ra)
{
    if (!simulated(p))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_LOCK, canon(p));
    touch(p, ra);
    lock_slow(p, mtx(p), is_recursive(p));
    return 0;
}
int do_unlock(pthread_mutex_t* p, void* ra)
{
    if (!simulated(p))
        return 0;
    Host h;
    point(K_UNLOCK, canon(p));
    touch(p, ra);
    Mtx& m = mtx(p);
    if (m.owner != cur->id)
        violation("bad-unlock", "thread %s unlocks a mutex it does not hold", cur->name.c_str());
    if (--m.count)
        return 0;
    m.vc = cur->vc;
    ++cur->epoch();
    m.owner = 0;
    wake(p);
    return 0;
}
std::uint64_t abs_deadline(clockid_t clk, const struct timespec* ts);
}
extern "C" std::int64_t sim_wall_offset_ns(); // vk.cpp: wall = now + offset
namespace
{
std::uint64_t abs_deadline(clockid_t clk, const struct timespec* ts)
{
    std::int64_t t = std::int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
    if (clk == CLOCK_REALTIME)
        t -= sim_wall_offset_ns();
    return t <= 0 ? 1 : std::uint64_t(t);
}
int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, std::uint64_t deadline, void* ra)
{
    if (!simulated(c))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_COND, canon(c));
    touch(c, ra);
    Mtx& mm = mtx(m);
    if (mm.owner != cur->id)
        violation("bad-unlock", "condition wait without holding the mutex");
    Cnd& cc = cnd(c);
    mm.vc = cur->vc;
    ++cur->epoch();
    const int saved = mm.count;
    mm.owner = 0;
    mm.count = 0;
    wake(m);
    int ret = 0;
    if (!fault(S_cond_spurious))
    {
        const int me = cur->id;
        cc.q.push_back(me);
        auto in_q = [&] { for (int x : cc.q) if (x == me) return true; return false; };
        while (in_q())
        {
            // each waiter blocks on its own key
            if (!block(&fibers[me].joined, deadline))
            {
                ret = ETIMEDOUT;
                break;
            }
        }
        for (std::size_t i = 0; i < cc.q.size(); ++i)
            if (cc.q[i] == me)
            {
                cc.q.erase(cc.q.begin() + long(i));
                break;
            }
    }
    touch(m, ra);
    lock_slow(m, mm, false);
    mm.count = saved;
    return ret;
}
}

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    std::memset(m, 0, sizeof(*m));
    int k = 0;
    if (a)
        pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (simulated(m))
    {
        Host h;
        if (mtx(m).owner)
            violation("bad-unlock", "mutex destroyed while locked");
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return do_lock(m, RA); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!simulated(m))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_LOCK, canon(m));
    touch(m, RA);
    Mtx& mm = mtx(m);
    if (mm.owner || mm.readers)
        return EBUSY;
    mm.owner = cur->id;
    mm.count = 1;
    cur->vc.join(mm.vc);
    progress();
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return do_lock(m, RA); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return do_lock(m, RA); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return do_unlock(m, RA); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    std::memset(c, 0, sizeof(*c));
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return do_cond_wait(c, m, 0, RA); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    return do_cond_wait(c, m, abs_deadline(CLOCK_REALTIME, ts), RA);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    return do_cond_wait(c, m, abs_deadline(clk, ts), RA);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!simulated(c))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_COND, canon(c));
    touch(c, RA);
    Cnd& cc = cnd(c);
    if (!cc.q.empty())
    {
        const int w = cc.q.front();
        cc.q.erase(cc.q.begin());
        wake(&fibers[w].joined);
    }
    progress();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!simulated(c))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_COND, canon(c));
    touch(c, RA);
    Cnd& cc = cnd(c);
    while (!cc.q.empty())
    {
        const int w = cc.q.front();
        cc.q.erase(cc.q.begin());
        wake(&fibers[w].joined);
    }
    progress();
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { std::memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!simulated(l))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_LOCK, canon(l));
    touch(l, RA);
    lock_slow(l, mtx(l), false);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!simulated(l))
        return 0;
    Host h;
    ++cur->nlock;
    point(K_LOCK, canon(l));
    touch(l, RA);
    Mtx& m = mtx(l);
    while (m.owner)
        block(l);
    ++m.readers;
    cur->vc.join(m.vc);
    progress();
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!simulated(l))
        return 0;
    Host h;
    point(K_UNLOCK, canon(l));
    touch(l, RA);
    Mtx& m = mtx(l);
    m.vc.join(cur->vc);
    ++cur->epoch();
    if (m.owner == cur->id)
        m.owner = 0, m.count = 0;
    else if (m.readers)
        --m.readers;
    wake(l);
    return 0;
}
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { return pthread_rwlock_wrlock(reinterpret_cast<pthread_rwlock_t*>(const_cast<int*>(l))); }
int pthread_spin_unlock(pthread_spinlock_t* l) { return pthread_rwlock_unlock(reinterpret_cast<pthread_rwlock_t*>(const_cast<int*>(l))); }

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!cur)
        return EAGAIN;
    Host h;
    point(K_THREAD);
    if (fault(S_thread_create_fail))
        return EAGAIN;
    Fiber* f = make_fiber("consumer", cur->proc);
    f->pfn = fn;
    f->parg = arg;
    *t = pthread_t(f->id);
    progress();
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    if (!cur || t == 0 || int(t) >= nfibers)
        return ESRCH;
    Host h;
    point(K_THREAD);
    if (fibers[t].joined || fibers[t].detached || int(t) == cur->id)
        violation("bad-join", "thread joined twice or not joinable");
    join(&fibers[t]);
    if (ret)
        *ret = fibers[t].ret;
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (!cur || t == 0 || int(t) >= nfibers)
        return ESRCH;
    fibers[t].detached = true;
    return 0;
}
pthread_t pthread_self() { return cur ? pthread_t(cur->id) : 1; }
int sched_yield()
{
    if (cur)
    {
        ++cur->nsys;
        Host h;
        yield_now(K_YIELD);
    }
    return 0;
}

// function-local statics of the code under test
int sim_guard_acquire(std::uint8_t* g)
{
    if (!cur)
        return *g ? 0 : (g[1] = 1, 1);
    Host h;
    point(K_GUARD, canon(g));
    for (;;)
    {
        if (a_rmw<unsigned char>(g, __ATOMIC_ACQUIRE, RA, [](unsigned char o) { return o; }))
            return 0;
        if (!g[1])
        {
            g[1] = 1;
            progress();
            return 1;
        }
        block(g);
    }
}
void sim_guard_release(std::uint8_t* g)
{
    if (!cur)
    {
        *g = 1;
        g[1] = 0;
        return;
    }
    Host h;
    a_store<unsigned char>(g, 1, __ATOMIC_RELEASE, RA);
    g[1] = 0;
    wake(g);
}
void sim_guard_abort(std::uint8_t* g)
{
    g[1] = 0;
    if (cur)
        wake(g);
}
int sim_thread_atexit(void (*fn)(void*), void* obj, void*)
{
    Host h;
    if (cur)
        cur->atexit.emplace_back(fn, obj);
    return 0;
}
void sim_pause()
{
    if (!cur)
        return;
    ++cur->npause;
    Host h;
    cur->noprogress += 10;
    point(K_PAUSE);
}

// futex-based waiting (std::atomic::wait, semaphores)
long sim_futex(unsigned* addr, int op, unsigned val, const struct timespec* to)
{
    Host h;
    ++cur->nsys;
    point(K_COND, canon(addr));
    const int cmd = op & 0x7f;
    if (cmd == 0 || cmd == 9) // WAIT, WAIT_BITSET
    {
        if (*addr != val)
        {
            errno = EAGAIN;
            return -1;
        }
        std::uint64_t dl = 0;
        if (to)
        {
            dl = std::uint64_t(to->tv_sec) * 1000000000ull + std::uint64_t(to->tv_nsec);
            if (cmd == 0)
                dl += now_ns;
            else if (op & 256)
                dl = abs_deadline(CLOCK_REALTIME, to);
        }
        if (!block(addr, dl))
        {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == 1 || cmd == 10)
    {
        wake(addr);
        return 1;
    }
    errno = ENOSYS;
    return -1;
}
}

// ---------------------------------------------------------------- allocation

static void* sim_new(std::size_t n, std::size_t align, bool nothrow)
{
    if (in_sut())
    {
        ++cur->nalloc;
        return arena_alloc(n, align);
    }
    void* p = align > 16 ? ::memalign(align, n ? n : 1) : std::malloc(n ? n : 1);
    if (!p && !nothrow)
        throw std::bad_alloc();
    return p;
}
static void sim_delete(void* p)
{
    if (!p)
        return;
    if (in_arena(p))
        arena_free(p);
    else
        std::free(p);
}
void* operator new(std::size_t n) { return sim_new(n, 16, false); }
void* operator new[](std::size_t n) { return sim_new(n, 16, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16, true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim_new(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim_new(n, std::size_t(a), false); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, std::size_t(a), true); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, std::size_t(a), true); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim_delete(p); }

extern "C" {
void* sim_malloc(std::size_t n)
{
    if (in_sut())
    {
        ++cur->nalloc;
        return arena_alloc(n);
    }
    return std::malloc(n);
}
void sim_free(void* p) { sim_delete(p); }
void* sim_calloc(std::size_t a, std::size_t b)
{
    void* p = sim_malloc(a * b);
    if (p)
        std::memset(p, 0, a * b);
    return p;
}
void* sim_realloc(void* p, std::size_t n)
{
    if (!p)
        return sim_malloc(n);
    if (!in_arena(p))
        return std::realloc(p, n);
    const std::size_t old = (static_cast<std::uint64_t*>(p) - 2)[0];
    void* q = sim_malloc(n);
    std::memcpy(q, p, old < n ? old : n);
    sim_free(p);
    return q;
}

// memory functions called by instrumented code
static inline void rd(const void* p, std::size_t n, void* ra) { if (n) plain(p, n, false, ra); }
static inline void wr(void* p, std::size_t n, void* ra) { if (n) plain(p, n, true, ra); }
void* sim_memcpy(void* d, const void* s, std::size_t n) { rd(s, n, RA); wr(d, n, RA); return std::memmove(d, s, n); }
void* sim_memmove(void* d, const void* s, std::size_t n) { rd(s, n, RA); wr(d, n, RA); return std::memmove(d, s, n); }
void* sim_memset(void* d, int c, std::size_t n) { wr(d, n, RA); return std::memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, std::size_t n) { rd(a, n, RA); rd(b, n, RA); return std::memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, std::size_t n)
{
    void* r = const_cast<void*>(std::memchr(a, c, n));
    rd(a, r ? std::size_t(static_cast<char*>(r) - static_cast<const char*>(a)) + 1 : n, RA);
    return r;
}
std::size_t sim_strlen(const char* s) { const std::size_t n = std::strlen(s); rd(s, n + 1, RA); return n; }
int sim_strcmp(const char* a, const char* b) { rd(a, std::strlen(a) + 1, RA); rd(b, std::strlen(b) + 1, RA); return std::strcmp(a, b); }
char* sim_strcpy(char* d, const char* s) { const std::size_t n = std::strlen(s) + 1; rd(s, n, RA); wr(d, n, RA); return std::strcpy(d, s); }
char* sim_strncpy(char* d, const char* s, std::size_t n) { wr(d, n, RA); return std::strncpy(d, s, n); }
}

// rdtsc / cpuid / pause: the assembler output of instrumented code is
// rewritten to call these, which preserve every register but the results.
extern "C" std::uint64_t sim_rdtsc();
extern "C" void sim_cpuid(std::uint32_t* regs);
asm(R"(
.text
.macro SIM_SAVE
    pushfq
    push %rbp
    mov %rsp, %rbp
    push %rcx
    push %rsi
    push %rdi
    push %r8
    push %r9
    push %r10
    push %r11
    push %rbx
    sub $528, %rsp
    and $-16, %rsp
    fxsave64 (%rsp)
.endm
.macro SIM_RESTORE
    fxrstor64 (%rsp)
    lea -64(%rbp), %rsp
    pop %rbx
    pop %r11
    pop %r10
    pop %r9
    pop %r8
    pop %rdi
    pop %rsi
    pop %rcx
    pop %rbp
    popfq
.endm
.globl sim_rdtsc_thunk
.type sim_rdtsc_thunk,@function
sim_rdtsc_thunk:
    .cfi_startproc
    SIM_SAVE
    call sim_rdtsc
    mov %rax, %rdx
    shr $32, %rdx
    mov %eax, %eax
    SIM_RESTORE
    ret
    .cfi_endproc
.globl sim_pause_thunk
.type sim_pause_thunk,@function
sim_pause_thunk:
    .cfi_startproc
    push %rax
    push %rdx
    SIM_SAVE
    call sim_pause
    SIM_RESTORE
    pop %rdx
    pop %rax
    ret
    .cfi_endproc
.globl sim_cpuid_thunk
.type sim_cpuid_thunk,@function
sim_cpuid_thunk:
    .cfi_startproc
    SIM_SAVE
    sub $16, %rsp
    mov %eax, 0(%rsp)
    mov %ecx, 4(%rsp)
    mov %rsp, %rdi
    call sim_cpuid
    mov 0(%rsp), %eax
    mov 12(%rsp), %edx
    mov 4(%rsp), %ecx
    mov %rcx, -64(%rbp)
    mov 8(%rsp), %ecx
    mov %rcx, -8(%rbp)
    add $16, %rsp
    SIM_RESTORE
    ret
    .cfi_endproc
)");
