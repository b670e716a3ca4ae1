// Driver: seeded search over simulated runs, minimisation and exact replay.
// Every run is a process forked from one set-up image, so runs cannot
// influence each other and a crash of the code under test is an observation.
#include "harness.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
using namespace hx;
extern char __libc_single_threaded;
extern "C" int opterr;

namespace
{
constexpr std::size_t MAXDEC = 1u << 20;
struct Shared
{
    int status; // 0 died, 1 ok, 2 violation
    char cls[64];
    char msg[9000];
    u64 hash, steps, sim_ns, switches, stale, points, forced;
    u64 faults[NSITES];
    Stats st;
    std::size_t ndec;
    Dec dec[MAXDEC];
};
Shared* sh;
bool in_child;

void publish(int status, const char* cls, const char* msg)
{
    std::snprintf(sh->cls, sizeof(sh->cls), "%s", cls);
    std::snprintf(sh->msg, sizeof(sh->msg), "%s", msg);
    sh->hash = trace_hash;
    sh->steps = steps;
    sh->sim_ns = now_ns;
    sh->switches = n_switches;
    sh->stale = n_stale;
    sh->points = n_points;
    sh->forced = n_forced;
    std::memcpy(sh->faults, fault_count, sizeof(sh->faults));
    sh->st = stats;
    const auto& d = decisions();
    sh->ndec = std::min(d.size(), MAXDEC);
    if (sh->ndec)
        std::memcpy(static_cast<void*>(sh->dec), d.data(), sh->ndec * sizeof(Dec));
    sh->status = status;
}
[[noreturn]] void quit()
{
    ::syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void violated(const char* cls, const char* msg)
{
    publish(2, cls, msg);
    quit();
}
void on_signal(int sig, siginfo_t* si, void* uc)
{
    char b[400];
    const ucontext_t* u = static_cast<const ucontext_t*>(uc);
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "CPU time limit";
    std::snprintf(b, sizeof(b), "%s in thread %s at <pc:%llx>, address %p", n, cur ? cur->name.c_str() : "?", (unsigned long long)u->uc_mcontext.gregs[REG_RIP],
        sig == SIGSEGV || sig == SIGBUS ? si->si_addr : nullptr);
    publish(2, sig == SIGVTALRM ? "hang" : sig == SIGABRT ? "abort" : "crash", b);
    quit();
}
void signals()
{
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof(alt);
    ::sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM})
        ::sigaction(s, &sa, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = 30;
    ::setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

Knobs knobs_of(const Plan& p)
{
    Knobs k;
    k.strategy = int(p.get("k.strategy", 0));
    k.p_switch = double(p.get("k.p_switch", 100000)) / 1e6;
    k.p_stale = double(p.get("k.p_stale", 0)) / 1e6;
    k.stale_window = int(p.get("k.stale_window", 100));
    k.p_stall = double(p.get("k.p_stall", 0)) / 1e6;
    k.stall_max = int(p.get("k.stall_max", 500));
    k.pct_depth = int(p.get("k.pct_depth", 3));
    k.pct_len = int(p.get("k.pct_len", 3000));
    k.horizon = u64(p.get("k.horizon", 10000));
    k.kernel_w = double(p.get("k.kernel_w", 1000000)) / 1e6;
    for (int i = 0; i < NSITES; ++i)
        k.rate[i] = double(p.get(std::string("r.") + site_names[i], 0)) / 1e6;
    return k;
}

// run a plan in a child; result in *sh
void run(const Plan& p, u64 sched_seed)
{
    sh->status = 0;
    sh->ndec = 0;
    std::fflush(stdout);
    const pid_t c = long(::syscall(SYS_fork));
    if (c == 0)
    {
        in_child = true;
        signals();
        if (const char* t = std::getenv("XSIM_TRACE_SEED"))
            if (std::strtoull(t, nullptr, 0) != p.seed)
                trace_fd = -1;
        begin_run(sched_seed, knobs_of(p), !p.has_dec, p.has_dec ? &p.dec : nullptr);
        execute(p);
        publish(1, "", "");
        quit();
    }
    int st = 0;
    while (::waitpid(c, &st, 0) < 0 && errno == EINTR)
        ;
    if (sh->status == 0)
    {
        std::snprintf(sh->cls, sizeof(sh->cls), "crash");
        std::snprintf(sh->msg, sizeof(sh->msg), "the simulated process died (wait status 0x%x)", st);
        sh->status = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? 3 : 2;
    }
}

// ---- replay files

bool save(const Plan& p, const std::string& path, const char* variant, const std::string& cls, const std::string& msg, u64 hash)
{
    FILE* f = std::fopen((path + ".tmp").c_str(), "w");
    if (!f)
        return false;
    std::string m = msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    std::fprintf(f, "xsim-replay 1\nprop %d\nvariant %s\nseed %lu\nclass %s\nmessage %s\nhash %016lx\n", p.prop, variant, (unsigned long)p.seed, cls.c_str(), m.c_str(), (unsigned long)hash);
    for (auto& c : p.cfg)
        std::fprintf(f, "cfg %s %ld\n", c.first.c_str(), c.second);
    for (auto& o : p.ops)
        std::fprintf(f, "op %d %s %ld %ld %ld %ld %ld\n", o.t, op_names[o.code], o.a, o.b, o.c, o.d, o.e);
    if (!p.has_dec)
        std::fprintf(f, "mode seed\n"); // every decision is drawn from the seed again
    for (auto& d : p.dec)
        std::fprintf(f, "dec %016lx %u\n", (unsigned long)d.key, d.val);
    std::fprintf(f, "end\n");
    std::fclose(f);
    return ::rename((path + ".tmp").c_str(), path.c_str()) == 0;
}
bool load(Plan& p, const char* path, std::string& cls, std::string& variant, u64& hash)
{
    FILE* f = std::fopen(path, "r");
    if (!f)
        return false;
    static char b[20000];
    bool end = false;
    p.has_dec = true;
    while (std::fgets(b, sizeof(b), f))
    {
        char w[64], x[64];
        unsigned long u;
        unsigned v;
        long n;
        Op o;
        if (std::sscanf(b, "prop %d", &p.prop) == 1)
            continue;
        if (std::sscanf(b, "variant %63s", w) == 1)
            variant = w;
        else if (std::sscanf(b, "seed %lu", &u) == 1)
            p.seed = u;
        else if (std::sscanf(b, "class %63s", w) == 1)
            cls = w;
        else if (!std::strcmp(b, "mode seed\n"))
            p.has_dec = false;
        else if (std::sscanf(b, "hash %lx", &u) == 1)
            hash = u;
        else if (std::sscanf(b, "cfg %63s %ld", w, &n) == 2)
            p.cfg[w] = n;
        else if (std::sscanf(b, "op %d %63s %ld %ld %ld %ld %ld", &o.t, x, &o.a, &o.b, &o.c, &o.d, &o.e) == 7)
        {
            for (int i = 0; i < NOPS; ++i)
                if (!std::strcmp(op_names[i], x))
                    o.code = i;
            p.ops.push_back(o);
        }
        else if (std::sscanf(b, "dec %lx %u", &u, &v) == 2)
            p.dec.push_back({u, v});
        else if (!std::strcmp(b, "end\n"))
            end = true;
    }
    std::fclose(f);
    return end;
}

// ---- minimisation

void adopt(Plan& p)
{
    p.dec.assign(sh->dec, sh->dec + sh->ndec);
    p.has_dec = true;
}
struct Minimiser
{
    Plan best;
    std::string cls;
    u64 deadline;
    u64 tried = 0;
    bool same() { return sh->status == 2 && cls == sh->cls; }
    bool late() { return real_ns() > deadline; }
    // does the plan (with new operations) still show the violation? keeps the decisions that do
    bool attempt(Plan& q, int searches)
    {
        ++tried;
        q.has_dec = true;
        run(q, q.seed);
        if (same())
        {
            adopt(q);
            return true;
        }
        for (int i = 0; i < searches && !late(); ++i)
        {
            Plan z = q;
            z.has_dec = false;
            ++tried;
            run(z, q.seed + u64(i) * 7777);
            if (same())
            {
                adopt(q);
                return true;
            }
        }
        return false;
    }
    void ops()
    {
        for (std::size_t chunk = std::max<std::size_t>(1, best.ops.size() / 2); chunk && !late(); chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
            for (std::size_t i = 0; i < best.ops.size() && !late();)
            {
                Plan q = best;
                q.ops.erase(q.ops.begin() + long(i), q.ops.begin() + long(std::min(i + chunk, q.ops.size())));
                if (attempt(q, 4))
                    best = q;
                else
                    i += chunk;
            }
        // shrink repeats and lengths
        for (std::size_t i = 0; i < best.ops.size() && !late(); ++i)
        {
            if (best.ops[i].code != OP_LOG && best.ops[i].code != OP_ST_PUT)
                continue;
            long& rep0 = best.ops[i].code == OP_LOG ? best.ops[i].c : best.ops[i].b;
            while (rep0 > 1 && !late())
            {
                Plan q = best;
                long& rep = q.ops[i].code == OP_LOG ? q.ops[i].c : q.ops[i].b;
                rep /= 2;
                if (!attempt(q, 2))
                    break;
                best = q;
            }
        }
    }
    void decs()
    {
        // drop decisions that are not needed; missing decisions mean "default"
        for (std::size_t chunk = std::max<std::size_t>(1, best.dec.size() / 2); chunk && !late(); chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
            for (std::size_t i = 0; i < best.dec.size() && !late();)
            {
                Plan q = best;
                q.dec.erase(q.dec.begin() + long(i), q.dec.begin() + long(std::min(i + chunk, q.dec.size())));
                ++tried;
                run(q, q.seed);
                if (same())
                {
                    if (sh->ndec <= q.dec.size())
                        adopt(q);
                    best = q;
                }
                else
                    i += chunk;
            }
    }
};

void json_str(FILE* f, const char* s)
{
    std::fputc('"', f);
    for (; *s; ++s)
    {
        const unsigned char c = static_cast<unsigned char>(*s);
        if (c == '"' || c == '\\')
            std::fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126)
            std::fprintf(f, "\\u%04x", c);
        else
            std::fputc(c, f);
    }
    std::fputc('"', f);
}

const char* arg(int argc, char** argv, const char* n, const char* def)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (!std::strcmp(argv[i], n))
            return argv[i + 1];
    return def;
}

int search(int argc, char** argv)
{
    const int prop = std::atoi(arg(argc, argv, "--prop", "1"));
    const u64 seed0 = std::strtoull(arg(argc, argv, "--seed0", "1"), nullptr, 0);
    const u64 stride = std::strtoull(arg(argc, argv, "--stride", "1"), nullptr, 0);
    const u64 count = std::strtoull(arg(argc, argv, "--count", "1000000000"), nullptr, 0);
    const double secs = std::atof(arg(argc, argv, "--time", "1e9"));
    const double minsecs = std::atof(arg(argc, argv, "--mintime", "20"));
    const char* variant = arg(argc, argv, "--variant", "v0");
    const char* out = arg(argc, argv, "--out", "/tmp");
    const char* res = arg(argc, argv, "--result", nullptr);
    const char* skip = arg(argc, argv, "--skip", ""); // comma separated classes not to stop at
    const u64 det_every = std::strtoull(arg(argc, argv, "--det", "97"), nullptr, 0);
    const bool keep_going = arg(argc, argv, "--keep-going", nullptr);
    const u64 t0 = real_ns();
    u64 runs = 0, steps_sum = 0, ns_sum = 0, sw = 0, stale = 0, viol = 0, det = 0, det_fail = 0, unrepeatable = 0, skipped = 0, max_steps = 0, nontrivial = 0;
    std::string samples;
    u64 faults[NSITES] = {};
    u64 fault_runs[NSITES] = {};
    Stats sum;
    std::unordered_set<u64> hashes;
    std::map<std::string, u64> classes;
    std::string vcls, vmsg, vpath;
    u64 vseed = 0;
    bool error = false;
    std::string etext;
    for (u64 i = 0; i < count; ++i)
    {
        if (double(real_ns() - t0) * 1e-9 > secs)
            break;
        Plan p;
        p.prop = prop;
        p.seed = seed0 + i * stride;
        generate(p);
        run(p, p.seed);
        if (sh->status == 3)
        {
            error = true;
            etext = "run killed (out of memory?)";
            break;
        }
        ++runs;
        steps_sum += sh->steps;
        max_steps = std::max(max_steps, sh->steps);
        ns_sum += sh->sim_ns;
        sw += sh->switches;
        stale += sh->stale;
        for (int k = 0; k < NSITES; ++k)
        {
            faults[k] += sh->faults[k];
            fault_runs[k] += sh->faults[k] > 0;
        }
        auto* a = reinterpret_cast<u64*>(&sum);
        auto* b = reinterpret_cast<const u64*>(&sh->st);
        for (std::size_t k = 0; k < sizeof(Stats) / 8; ++k)
            a[k] += b[k];
        u64 nf = 0;
        for (int k = 1; k < NSITES; ++k)
            nf += sh->faults[k];
        if (hashes.insert(sh->hash).second && sh->st.checks && (sh->switches >= 3 || nf))
            ++nontrivial;
        if (runs <= 2)
        {
            char b[300];
            std::snprintf(b, sizeof(b), "%s{\"seed\": %lu, \"operations\": %zu, \"steps\": %lu, \"switches\": %lu, \"faults\": %lu, \"trace_hash\": \"%016lx\"}", samples.empty() ? "" : ", ",
                (unsigned long)p.seed, p.ops.size(), (unsigned long)sh->steps, (unsigned long)sh->switches, (unsigned long)nf, (unsigned long)sh->hash);
            samples += b;
        }
        const u64 h = sh->hash;
        if (sh->status == 2)
        {
            ++viol;
            ++classes[sh->cls];
            std::string hay = "," + std::string(skip) + ",", nd = "," + std::string(sh->cls) + ",";
            if (hay.find(nd) != std::string::npos)
            {
                ++skipped;
                continue;
            }
            if (keep_going)
            {
                if (classes[sh->cls] <= 3)
                    std::printf("seed %lu class %s: %s\n", (unsigned long)p.seed, sh->cls, sh->msg);
                continue;
            }
            vcls = sh->cls;
            vmsg = sh->msg;
            vseed = p.seed;
            Minimiser m;
            m.cls = vcls;
            m.deadline = real_ns() + u64(minsecs * 1e9);
            m.best = p;
            adopt(m.best);
            run(m.best, p.seed);
            const std::size_t n0 = m.best.ops.size(), d0 = m.best.dec.size();
            bool good = m.same() && sh->hash == h;
            if (good)
            {
                m.ops();
                m.decs();
                run(m.best, m.best.seed);
                const u64 h1 = sh->hash;
                good = m.same();
                run(m.best, m.best.seed);
                good &= m.same() && sh->hash == h1;
            }
            if (!good)
            {
                // fall back on the seed itself, not minimised
                m.best = p;
                m.best.has_dec = false;
                run(m.best, m.best.seed);
                good = m.same() && sh->hash == h;
            }
            if (!good)
            {
                ++unrepeatable;
                if (etext.empty())
                    etext = "seed " + std::to_string(p.seed) + ": a violation of class " + vcls + " could not be repeated: " + vmsg;
                vcls.clear();
                vmsg.clear();
                vseed = 0;
                if (unrepeatable < 5)
                    continue;
                error = true;
                break;
            }
            vmsg = sh->msg;
            char name[200];
            std::snprintf(name, sizeof(name), "%s/C%02d-%s-%lu-%s.replay", out, prop, variant, (unsigned long)vseed, vcls.c_str());
            vpath = name;
            char note[200];
            std::snprintf(note, sizeof(note), " [minimised from %zu operations and %zu decisions to %zu and %zu in %lu runs]", n0, d0, m.best.ops.size(), m.best.dec.size(), (unsigned long)m.tried);
            save(m.best, vpath, variant, vcls, vmsg + note, sh->hash);
            break;
        }
        if (runs % det_every == 1 % det_every)
        {
            // determinism gate: same seed, same execution; recorded decisions, same execution
            Plan q = p;
            adopt(q);
            run(q, p.seed);
            const bool ok2 = sh->status == 1 && sh->hash == h;
            run(p, p.seed);
            if (sh->status != 1 || sh->hash != h || !ok2)
            {
                ++det_fail;
                if (etext.empty())
                    etext = "seed " + std::to_string(p.seed) + " is not deterministic (" + (ok2 ? "second search run" : "replay of decisions") + " differs: " + sh->cls + ")";
            }
            ++det;
        }
    }
    FILE* f = res ? std::fopen(res, "w") : stdout;
    if (!f)
        return 2;
    std::fprintf(f, "{\"prop\": %d, \"variant\": \"%s\", \"runs\": %lu, \"distinct\": %zu, \"steps\": %lu, \"max_steps\": %lu, \"sim_ns\": %lu, \"switches\": %lu, \"stale_reads\": %lu, \"violations\": %lu, \"skipped\": %lu, \"determinism_checks\": %lu, \"determinism_failures\": %lu, \"unrepeatable\": %lu, \"nontrivial\": %lu, \"samples\": [%s], \"seconds\": %.3f,\n",
        prop, variant, (unsigned long)runs, hashes.size(), (unsigned long)steps_sum, (unsigned long)max_steps, (unsigned long)ns_sum, (unsigned long)sw, (unsigned long)stale, (unsigned long)viol, (unsigned long)skipped,
        (unsigned long)det, (unsigned long)det_fail, (unsigned long)unrepeatable, (unsigned long)nontrivial, samples.c_str(), double(real_ns() - t0) * 1e-9);
    std::fprintf(f, "\"ops\": %lu, \"stmts\": %lu, \"lines\": %lu, \"dropped\": %lu, \"truncated\": %lu, \"commands\": %lu, \"syncs\": %lu, \"crashes\": %lu, \"checks\": %lu, \"reopens\": %lu,\n", (unsigned long)sum.ops,
        (unsigned long)sum.stmts, (unsigned long)sum.lines, (unsigned long)sum.dropped, (unsigned long)sum.trunc, (unsigned long)sum.cmds, (unsigned long)sum.syncs, (unsigned long)sum.crashes, (unsigned long)sum.checks,
        (unsigned long)sum.reopens);
    std::fprintf(f, "\"faults\": {");
    bool first = true;
    for (int k = 1; k < NSITES; ++k)
        if (faults[k])
        {
            std::fprintf(f, "%s\"%s\": [%lu, %lu]", first ? "" : ", ", site_names[k], (unsigned long)faults[k], (unsigned long)fault_runs[k]);
            first = false;
        }
    std::fprintf(f, "},\n\"classes\": {");
    first = true;
    for (auto& c : classes)
    {
        std::fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", c.first.c_str(), (unsigned long)c.second);
        first = false;
    }
    std::fprintf(f, "},\n\"error\": ");
    json_str(f, etext.c_str());
    std::fprintf(f, ", \"class\": ");
    json_str(f, vcls.c_str());
    std::fprintf(f, ", \"seed\": %lu, \"message\": ", (unsigned long)vseed);
    json_str(f, vmsg.c_str());
    std::fprintf(f, ", \"replay\": ");
    json_str(f, vpath.c_str());
    std::fprintf(f, "}\n");
    if (res)
        std::fclose(f);
    return error ? 2 : vpath.empty() ? 0 : 1;
}
} // namespace

int main(int argc, char** argv)
{
    if (!(::personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !std::getenv("XSIM_NOASLR"))
    {
        ::personality(ADDR_NO_RANDOMIZE);
        ::setenv("XSIM_NOASLR", "1", 1);
        ::execv("/proc/self/exe", argv);
    }
    __libc_single_threaded = 0;
    opterr = 0;
    sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (const char* t = std::getenv("XSIM_TRACE"))
        trace_fd = int(::syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644));
    init_memory();
    on_violation = violated;
    sut_capacity = int(g_build_capacity());
    uring_poll_build = g_build_uring_poll();
    const std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "search")
        return search(argc, argv);
    if (cmd == "replay" && argc > 2)
    {
        Plan p;
        std::string cls, variant;
        u64 hash = 0;
        if (!load(p, argv[2], cls, variant, hash))
        {
            std::fprintf(stderr, "cannot read %s\n", argv[2]);
            return 2;
        }
        verbose = argc > 3;
        run(p, p.seed);
        if (sh->status == 1)
        {
            std::printf("no violation (expected %s)\n", cls.c_str());
            return 0;
        }
        std::printf("%s: %s\nhash %016lx %s, class %s\n", sh->cls, sh->msg, (unsigned long)sh->hash, sh->hash == hash ? "identical" : "DIFFERENT", cls == sh->cls ? "identical" : "DIFFERENT");
        return cls == sh->cls && sh->hash == hash ? 1 : 3;
    }
    if (cmd == "variant" && argc > 2)
    {
        Plan p;
        std::string cls, variant;
        u64 hash = 0;
        load(p, argv[2], cls, variant, hash);
        std::printf("%s %d\n", variant.c_str(), p.prop);
        return 0;
    }
    if (cmd == "one")
    {
        Plan p;
        p.prop = std::atoi(arg(argc, argv, "--prop", "1"));
        p.seed = std::strtoull(arg(argc, argv, "--seed", "1"), nullptr, 0);
        verbose = arg(argc, argv, "-v", nullptr);
        generate(p);
        run(p, p.seed);
        std::printf("status %d class %s: %s\nsteps %lu hash %016lx decisions %zu\n", sh->status, sh->cls, sh->msg, (unsigned long)sh->steps, (unsigned long)sh->hash, sh->ndec);
        if (arg(argc, argv, "--dump", nullptr))
        {
            adopt(p);
            save(p, arg(argc, argv, "--dump", nullptr), "v?", sh->cls, sh->msg, sh->hash);
        }
        return sh->status == 2;
    }
    std::fprintf(stderr, "usage: xsim search|replay|one ...\n");
    return 2;
}
