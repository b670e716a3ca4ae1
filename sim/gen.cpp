// Seeded generation of workloads: one profile per property. Everything is
// random (swarm testing: each run enables a random subset of features and
// faults at random rates), and everything is derived from the seed.
#include "harness.h"

#include <algorithm>

using sim::Rng;
using namespace sim;

namespace hx
{
namespace
{
constexpr int CLIENT0 = 50;

struct Gen
{
    Plan& p;
    Rng r;
    int nthr = 2;
    std::vector<int> blk, nonblk, lev, levnb, tsf, tsfnb, thr_shapes;
    explicit Gen(Plan& q) : p(q), r(q.seed * 1000003ull + u64(q.prop) * 7919ull) {}

    bool P(double x) { return r.p(x); }
    long R(long a, long b) { return r.range(int(a), int(b)); }
    template<typename T> T pick(std::initializer_list<T> l) { return l.begin()[r.below(std::uint32_t(l.size()))]; }
    void set(const std::string& k, long v) { p.cfg[k] = v; }
    void rate(Site s, double x) { p.cfg[std::string("r.") + site_names[s]] = long(x * 1e6); }
    void maybe_rate(Site s, double prob, double hi)
    {
        if (P(prob))
            rate(s, hi * pick({0.03, 0.1, 0.3, 1.0}));
    }

    void knobs(double stale = 0.5, double stall = 0.5)
    {
        const int st = int(pick({0, 0, 1, 1, 2}));
        set("k.strategy", st);
        set("k.p_switch", pick({5000l, 20000l, 60000l, 150000l, 400000l}));
        set("k.p_stale", P(stale) ? pick({20000l, 100000l, 300000l, 600000l}) : 0);
        set("k.stale_window", pick({5l, 30l, 100l, 400l}));
        if (P(stall))
        {
            set("k.p_stall", pick({200l, 1000l, 4000l, 12000l}));
            set("k.stall_max", pick({30l, 150l, 600l, 3000l}));
        }
        set("k.pct_depth", R(1, 5));
        set("k.pct_len", pick({300l, 1000l, 3000l, 8000l}));
        set("k.horizon", pick({2000l, 6000l, 12000l, 25000l}));
        set("k.kernel_w", pick({20000l, 100000l, 500000l}));
        maybe_rate(S_cas_spurious, 0.5, 0.3);
        maybe_rate(S_cond_spurious, 0.5, 0.3);
    }
    void shapes(bool throwing = false)
    {
        for (int i = 0; i < nstmts(); ++i)
        {
            const GStmt& g = stmt(i);
            if (g.level == 1)
                continue;
            const bool th = g.shape == SH_FTHROW || g.shape == SH_CTHROW || g.shape == SH_FTHROW0 || g.shape == SH_TRSTR;
            if (g.family == F_LOG)
            {
                if (th)
                    thr_shapes.push_back(i);
                if (!th || throwing)
                    (g.nonblocking ? nonblk : blk).push_back(i);
            }
            else if (g.family == F_LOGL)
                (g.nonblocking ? levnb : lev).push_back(i);
            else
                (g.nonblocking ? tsfnb : tsf).push_back(i);
        }
    }
    int any(const std::vector<int>& v) { return v[r.below(std::uint32_t(v.size()))]; }
    long length()
    {
        switch (r.below(10))
        {
        case 0: return 0;
        case 1:
        case 2:
        case 3: return R(1, 12);
        case 4:
        case 5: return R(10, 100);
        case 6: return R(100, 700);
        case 7: return R(500, sut_capacity / 2);
        case 8: return R(sut_capacity / 3, sut_capacity);
        default: return R(0, 8) + (P(0.5) ? sut_capacity - R(0, 260) : 24 * R(1, 40));
        }
    }
    long lens(long& l1, bool throws = false)
    {
        l1 = length();
        long l2 = P(0.7) ? R(0, 30) : length();
        if (sut_capacity > 8192)
        {
            if (l1 > 8000 && !P(0.1))
                l1 %= 3000;
            if (l2 > 8000 && !P(0.1))
                l2 %= 3000;
        }
        if (l2 > 0xfff0)
            l2 = 0xfff0;
        return l2 | (P(0.3) ? 1l << 16 : 0) | (throws ? 1l << 24 : 0);
    }
    struct Mix { double nb = 0, lvl = 0, ts = 0, thr = 0; };
    void log(int t, long slot, const Mix& m, long reps = 1)
    {
        const bool nb = P(m.nb);
        int s;
        bool th = false;
        const double x = double(r.below(1000)) / 1000;
        if (x < m.lvl)
            s = any(nb ? levnb : lev);
        else if (x < m.lvl + m.ts)
            s = any(nb ? tsfnb : tsf);
        else if (x < m.lvl + m.ts + m.thr)
        {
            do
                s = any(thr_shapes);
            while (bool(stmt(s).nonblocking) != nb);
            th = P(0.6);
        }
        else
            s = any(nb ? nonblk : blk);
        long l1, e = lens(l1, th);
        p.add(t, OP_LOG, slot, s, reps, l1, e);
    }
    // logger set-up
    void logger(int k, std::initializer_list<int> kinds, int thread = 0, bool op = true)
    {
        const std::string l = "l" + std::to_string(k) + ".";
        const int kind = kinds.begin()[r.below(std::uint32_t(kinds.size()))];
        set(l + "kind", kind);
        set(l + "append", kind == 4 ? P(0.5) : P(0.7));
        set(l + "pre", P(0.3) ? R(1, 200) : 0);
        if (kind == 3 || kind == 4 || kind == 5)
        {
            // with a big sink there is much to write: tiny buffers take too long
            set(l + "bufcap", sut_capacity > 8192 ? pick({200l, 256l, 1000l, 4096l}) : pick({1l, 7l, 32l, 64l, 100l, 256l, 1000l, 4096l}));
            if (kind != 3 && kind != 5)
            {
                const long q = pick({1l, 2l, 3l, 4l, 8l, 16l});
                set(l + "queue", q);
                set(l + "batch", pick({1l, 1l, 2l, 3l, 4l, q, q + 1}));
            }
        }
        set(l + "clock", P(0.2));
        set(l + "style", pick({0l, 0l, 1l, 2l}));
        set(l + "reopen", P(0.8));
        if (op)
            p.add(thread, OP_NEW_LOGGER, k);
    }
    void posix_benign()
    {
        maybe_rate(S_write_short, 0.5, 0.5);
        maybe_rate(S_write_eintr, 0.4, 0.4);
    }
    void uring_benign()
    {
        maybe_rate(S_uring_short, 0.6, 0.5);
        maybe_rate(S_uring_eagain, 0.5, 0.4);
        maybe_rate(S_uring_submit_partial, 0.3, 0.3);
        maybe_rate(S_uring_wait_eintr, 0.4, 0.3);
        maybe_rate(S_uring_delay, 0.6, 0.6);
    }
    // error reports cannot be written (stderr on a full disk, closed pipe)
    void broken_stderr(double pr)
    {
        if (!P(pr))
            return;
        set("stderr.broken", 1);
        set(std::string("r.") + site_names[S_stderr_fail], pick({100000l, 500000l, 1000000l}));
    }
    void sleep_noise()
    {
        maybe_rate(S_sleep_overrun, 0.3, 0.3);
        maybe_rate(S_sleep_eintr, 0.3, 0.3);
    }
    long name() { return P(0.75) ? -1 : R(0, 7); }
    // sinks for the workers; returns slots per thread
    std::vector<std::vector<long>> sinks(int nl, int maxper = 3)
    {
        std::vector<std::vector<long>> v(std::size_t(nthr) + 1);
        long slot = 0;
        for (int t = 1; t <= nthr; ++t)
            for (long k = R(1, maxper); k > 0 && slot < 12; --k, ++slot)
            {
                v[std::size_t(t)].push_back(slot);
                const long lg = R(0, nl - 1);
                if (P(0.6))
                    p.add(t, OP_GET_SINK, lg, slot, name());
                else
                {
                    p.add(t, OP_NEW_SINK, slot, P(0.5) ? -1 : R(2, 5));
                    p.add(t, OP_REG, lg, slot, name());
                }
            }
        return v;
    }
    long any_slot(const std::vector<long>& v) { return v[r.below(std::uint32_t(v.size()))]; }

    void c01();
    void c02();
    void c03();
    void c04();
    void c05();
    void c06();
    void c07();
    void c08();
    void c09();
    void c10();
    void c11();
    void c12();
    void c13();
    void c14();
    void c15();
    void c16();
    void c17();
    void c18();
    void c19();
    void c20();
    void client_op(int t, int nl, double reopen);
};

void Gen::c01()
{
    knobs();
    shapes();
    nthr = int(R(1, 4));
    const int nl = P(0.25) ? 2 : 1;
    for (int k = 0; k < nl; ++k)
        logger(k, {0, 1, 2, 3, 3, 4, 4, 5, 5, 6});
    posix_benign();
    uring_benign();
    sleep_noise();
    const auto sl = sinks(nl);
    Mix m;
    m.lvl = P(0.3) ? 0.3 : 0;
    m.ts = P(0.3) ? 0.2 : 0;
    m.nb = P(0.2) ? 0.2 : 0;
    const long total = pick({10l, 25l, 60l, 120l});
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(1, total / nthr + 1); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.05))
                p.add(t, OP_SYNC, s);
            else if (P(0.04))
                p.add(t, OP_NAME, s, name());
            else if (P(0.02))
                p.add(t, OP_CLOSE, s);
            else if (P(0.02))
                p.add(t, OP_SLEEP, R(1, 300));
            else if (P(0.02))
                p.add(t, OP_STYLE, R(0, nl - 1), R(0, 2));
            else
                log(t, s, m, P(0.1) ? R(2, 12) : 1);
        }
}

void Gen::c02()
{
    knobs();
    shapes();
    nthr = int(R(1, 3));
    logger(0, {1, 3, 5, 5, 5, 4});
    posix_benign();
    uring_benign();
    const auto sl = sinks(1, 2);
    Mix m;
    m.nb = pick({0.5, 0.8, 0.95, 1.0});
    m.lvl = P(0.3) ? 0.2 : 0;
    m.ts = P(0.2) ? 0.2 : 0;
    m.thr = P(0.15) ? 0.1 : 0;
    const long total = pick({15l, 40l, 120l});
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(1, total / nthr + 1); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.06))
                p.add(t, OP_SYNC, s);
            else if (P(0.03))
                p.add(t, OP_CLOSE, s), p.add(t, OP_REG, 0, s, name());
            else if (P(0.03))
                p.add(t, OP_SLEEP, R(1, 400));
            else if (P(0.02))
                p.add(t, OP_NAME, s, -1);
            else
                log(t, s, m, P(0.25) ? R(2, 40) : 1);
        }
}

void Gen::c03()
{
    knobs();
    shapes();
    nthr = int(R(1, 3));
    logger(0, {0, 1, 2, 3, 4, 4, 6});
    set("chk.durable", 1);
    posix_benign();
    uring_benign();
    const auto sl = sinks(1, 2);
    Mix m;
    m.lvl = P(0.3) ? 0.2 : 0;
    const bool machine = P(0.6);
    set("crash.machine", machine);
    set("last.phase", 1);
    const long total = pick({6l, 15l, 40l});
    for (int t = 1; t <= nthr; ++t)
    {
        for (long i = R(1, total); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.25))
                p.add(t, OP_SYNC, s);
            else if (P(0.03))
                p.add(t, OP_CLOSE, s), p.add(t, OP_REG, 0, s, name());
            else
                log(t, s, m, P(0.1) ? R(2, 8) : 1);
        }
        if (P(0.5))
            p.add(t, OP_FATAL, any_slot(sl[std::size_t(t)]), R(0, 4));
    }
    if (P(0.6)) // something outside kills the process or the machine
    {
        p.add(CLIENT0, OP_SLEEP, pick({R(1, 400), R(100, 3000), R(1000, 12000)}));
        p.add(CLIENT0, OP_CRASH, machine);
    }
    // restarted process
    p.add(100, OP_NEW_LOGGER, 0);
    p.add(101, OP_GET_SINK, 0, 0, -1);
    for (long i = R(1, 6); i > 0; --i)
        if (P(0.3))
            p.add(101, OP_SYNC, 0);
        else
            log(101, 0, m);
}

void Gen::c04()
{
    knobs();
    shapes();
    nthr = int(R(1, 4));
    const int nl = int(R(1, 3));
    for (int k = 0; k < nl; ++k)
        logger(k, {1, 3, 4, 5, 5});
    posix_benign();
    uring_benign();
    sleep_noise();
    const auto sl = sinks(nl, 2);
    Mix m;
    m.lvl = P(0.3) ? 0.2 : 0;
    m.nb = P(0.3) ? 0.2 : 0;
    m.thr = P(0.1) ? 0.1 : 0;
    const long total = pick({8l, 20l, 50l});
    auto any_s = [&] { return R(0, 13); };
    for (int t = 1; t <= nthr; ++t)
    {
        for (long i = R(3, total); i > 0; --i)
        {
            const long own = any_slot(sl[std::size_t(t)]);
            switch (r.below(14))
            {
            case 0: p.add(t, OP_COPY, own, any_s()); break;
            case 1: p.add(t, OP_COPY, any_s(), any_s()); break;
            case 2: p.add(t, OP_ASSIGN, any_s(), own); break;
            case 3: p.add(t, OP_ASSIGN, own, any_s()); break;
            case 4: p.add(t, OP_CLOSE, own); break;
            case 5: p.add(t, OP_DEL, any_s()); break;
            case 6: p.add(t, OP_REG, R(0, nl - 1), P(0.5) ? own : any_s(), name()); break;
            case 7: p.add(t, OP_GET_SINK, R(0, nl - 1), any_s(), name()); break;
            case 8: p.add(t, OP_GIVE, any_s(), R(1, nthr)); break;
            case 9: p.add(t, P(0.5) ? OP_SYNC : OP_NAME, own, -1); break;
            case 10: p.add(t, OP_NEW_SINK, any_s(), R(-1, 5)); break;
            default: log(t, P(0.7) ? own : any_s(), m, P(0.2) ? R(2, 10) : 1); break;
            }
        }
        if (P(0.2))
            p.add(t, OP_DEL_LOGGER, R(0, nl - 1));
        for (long i = R(0, 5); i > 0; --i)
            log(t, any_s(), m);
    }
}

void Gen::c05()
{
    knobs(0.6);
    shapes();
    nthr = int(R(2, 4));
    logger(0, {1, 3, 5});
    set("l0.cmd", P(0.6) ? 2 : 1);
    posix_benign();
    Mix m;
    const auto sl = sinks(1, 2);
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 14); i > 0; --i)
            switch (r.below(10))
            {
            case 0:
            case 1: p.add(t, OP_GET_SINK, 0, R(0, 15), name()); break;
            case 2: p.add(t, OP_CLOSE, any_slot(sl[std::size_t(t)])); p.add(t, OP_REG, 0, any_slot(sl[std::size_t(t)]), name()); break;
            case 3: p.add(t, OP_STYLE, 0, R(0, 2)); break;
            case 4: p.add(t, OP_DEFLEVEL, 0, R(0, 5)); break;
            case 5: p.add(t, OP_CMDPATH, 0, 0); break;
            case 6: p.add(t, OP_DEL, R(0, 15)); break;
            default: log(t, any_slot(sl[std::size_t(t)]), m); break;
            }
    if (P(0.4))
        for (long i = R(1, 3); i > 0; --i)
            client_op(CLIENT0, 1, 0.1);
}

void Gen::c06()
{
    knobs(0.9, 0.3);
    set("mode", 1);
    const long kind = pick({0l, 0l, 2l, 2l, 1l});
    set("ring.kind", kind);
    const long rc = pick({1l, 100l, 4096l, 5000l, 8192l, 16384l});
    set("ring.cap", rc);
    const long cap = kind == 0 ? 4096 : kind == 1 ? 65536 : rc <= 4096 ? 4096 : rc <= 8192 ? 8192 : 16384;
    auto len = [&]() -> long
    {
        switch (r.below(7))
        {
        case 0: return R(1, 16);
        case 1: return R(8, 200);
        case 2: return R(cap / 8, cap / 2);
        case 3: return R(cap / 2, cap);
        case 4: return cap - R(0, 3);
        case 5: return 8 * R(1, 40);
        default: return R(1, cap);
        }
    };
    const long n = pick({5l, 12l, 30l});
    for (long i = 0; i < n; ++i)
    {
        const long l = len();
        const long mode = pick({0l, 0l, 1l, 2l, 3l});
        const long min = mode >= 2 ? R(0, l) : P(0.8) ? l : R(1, l);
        p.add(1, OP_RB_WRITE, P(0.8) ? l : R(0, l), std::max(1l, min), mode);
    }
    for (long i = R(0, 2 * n); i > 0; --i)
        p.add(2, OP_RB_READ, P(0.3) ? 1 << 20 : len());
}

void Gen::client_op(int t, int nl, double reopen)
{
    const long lg = R(0, nl - 1);
    const long pat = R(0, 3) | R(0, 1) << 2 | R(0, 20) << 3;
    const long how = (P(0.6) ? 0 : R(0, 4)) | R(1, 300) << 4;
    if (P(0.15))
        p.add(t, OP_SLEEP, R(1, 500));
    if (P(reopen))
        p.add(t, OP_CL_REOPEN, lg, P(0.7), 0, 0, how);
    else if (P(0.35))
        p.add(t, OP_CL_STATUS, lg, 0, pat, 0, how);
    else if (P(0.5))
        p.add(t, OP_CL_LEVEL, lg, P(0.9) ? R(0, 5) : pick({-1l, 6l, 77l, -2000000000l}), pat, 0, how);
    else if (P(0.6))
        p.add(t, OP_CL_JUNK, lg, R(0, 7), 0, R(0, 100000), how);
    else
        p.add(t, OP_CL_IDLE, lg, P(0.5) ? R(1, 500) : -1);
}

void Gen::c07()
{
    knobs(0.2);
    shapes();
    nthr = int(R(1, 3));
    logger(0, {0, 0, 2, 3, 4, 4, 6, 1});
    set("l0.cmd", 2);
    set("l0.reopen", P(0.9));
    if (p.get("l0.kind") == 0 && P(0.4))
        set("vk.uring", 0);
    posix_benign();
    uring_benign();
    maybe_rate(S_open_fail, 0.3, 0.5);
    maybe_rate(S_open_eintr, 0.2, 0.3);
    maybe_rate(S_close_fail, 0.1, 0.3);
    if (p.cfg.count("r.open_fail"))
        set("l0.kind", p.get("vk.uring", 1) ? pick({2l, 3l, 4l}) : pick({2l, 3l}));
    const auto sl = sinks(1, 2);
    Mix m;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(4, 30); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.06))
                p.add(t, OP_SYNC, s);
            else if (P(0.15))
                p.add(t, OP_SLEEP, R(1, 200));
            else
                log(t, s, m, P(0.15) ? R(2, 8) : 1);
        }
    const int nc = P(0.2) ? 2 : 1;
    if (nc > 1)
        set("multi.rotate", 1);
    for (int c = 0; c < nc; ++c)
        for (long i = R(1, 4); i > 0; --i)
        {
            if (P(0.6))
                p.add(CLIENT0 + c, OP_SLEEP, R(1, 400));
            p.add(CLIENT0 + c, OP_CL_REOPEN, 0, P(0.85), 0, 0, (P(0.8) ? 0 : R(0, 4)) | R(1, 200) << 4);
        }
}

void Gen::c08()
{
    knobs(0.2);
    shapes();
    nthr = int(R(1, 3));
    logger(0, {0, 1, 2, 3, 3, 3, 6});
    set("vk.uring", 0);
    posix_benign();
    const bool hard = P(0.6);
    if (hard)
    {
        set("err.mode", 1);
        maybe_rate(S_write_eio, 0.6, 0.3);
        maybe_rate(S_write_enospc, 0.4, 0.3);
    }
    maybe_rate(S_fsync_fail, 0.2, 0.5);
    if (hard)
        broken_stderr(0.2);
    const auto sl = sinks(1, 2);
    Mix m;
    m.nb = P(0.2) ? 0.2 : 0;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 40); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.06))
                p.add(t, OP_SYNC, s);
            else if (P(0.08))
                p.add(t, OP_SLEEP, R(1, 200));
            else if (hard && P(0.05))
                p.add(t, OP_DISK, 0, P(0.5));
            else
                log(t, s, m, P(0.15) ? R(2, 8) : 1);
        }
    set("keep.full", 1);
}

void Gen::c09()
{
    knobs(0.2);
    uring_benign();
    const bool known = p.prop == 109; // known finding: append mode without the kernel's help
    if (known)
        set("vk.append_any", 1);
    const bool hard = !known && P(0.25);
    if (hard)
    {
        set("uring.hard", 1);
        maybe_rate(S_uring_eio, 0.9, 0.2);
    }
    maybe_rate(S_fsync_fail, 0.05, 0.3);
    if (!known && P(0.55))
    {
        set("mode", 2);
        set("st.kind", 4);
        set("st.append", P(0.3));
        set("st.pre", P(0.4) ? R(1, 300) : 0);
        set("st.bufcap", pick({1l, 8l, 33l, 64l, 500l}));
        const long q = pick({1l, 2l, 3l, 4l, 8l, 16l, 32l});
        set("st.queue", q);
        set("st.batch", pick({1l, 2l, 3l, 4l, q, q + 1, 2 * q}));
        p.add(1, OP_ST_NEW);
        for (long i = R(2, 40); i > 0; --i)
            switch (r.below(12))
            {
            case 0: p.add(1, OP_ST_FLUSH); break;
            case 1: p.add(1, OP_ST_SYNC); break;
            case 2:
                if (P(0.5) && !hard)
                    p.add(1, OP_ST_REOPEN);
                break;
            default: p.add(1, OP_ST_PUT, P(0.5) ? R(1, 600) : R(1, 20), P(0.4) ? R(2, 20) : 1); break;
            }
        if (P(0.5))
            p.add(1, OP_ST_DEL);
        return;
    }
    shapes();
    nthr = int(R(1, 3));
    if (known)
        logger(0, {0});
    else
        logger(0, {4, 4, 4, 6, 0});
    if (hard)
        set("mode", 3); // lost bytes tear lines: only termination and memory safety are judged
    const auto sl = sinks(1, 2);
    Mix m;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 40); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.08))
                p.add(t, OP_SYNC, s);
            else if (P(0.08))
                p.add(t, OP_SLEEP, R(1, 200));
            else
                log(t, s, m, P(0.15) ? R(2, 8) : 1);
        }
}

void Gen::c10()
{
    knobs(0.2);
    shapes();
    nthr = int(R(1, 3));
    logger(0, {5});
    set("l0.cmd", P(0.5) ? 2 : 1);
    if (P(0.5))
    {
        set("err.mode", 1);
        maybe_rate(S_storage_throw_alloc, 0.6, 0.3);
        maybe_rate(S_storage_throw_submit, 0.6, 0.3);
        maybe_rate(S_storage_throw_flush, 0.5, 0.4);
    }
    maybe_rate(S_storage_reopen_fail, 0.2, 0.5);
    broken_stderr(0.15);
    const auto sl = sinks(1, 2);
    Mix m;
    m.nb = P(0.3) ? 0.3 : 0;
    m.thr = P(0.2) ? 0.1 : 0;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 40); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.1))
                p.add(t, OP_SYNC, s);
            else if (P(0.05))
                p.add(t, OP_CLOSE, s), p.add(t, OP_REG, 0, s, name());
            else if (P(0.08))
                p.add(t, OP_SLEEP, R(1, 200));
            else
                log(t, s, m, P(0.15) ? R(2, 8) : 1);
        }
    if (p.get("l0.cmd") == 2)
        for (long i = R(1, 3); i > 0; --i)
        {
            p.add(CLIENT0, OP_SLEEP, R(1, 500));
            p.add(CLIENT0, OP_CL_REOPEN, 0, 0, 0, 0, 0);
        }
}

void Gen::c11()
{
    knobs(0.2);
    shapes();
    nthr = int(R(1, 3));
    const int nl = P(0.2) ? 2 : 1;
    for (int k = 0; k < nl; ++k)
    {
        logger(k, {0, 1, 3, 5});
        set("l" + std::to_string(k) + ".cmd", P(0.8) ? 2 : 0);
    }
    set("vk.sock_cap", pick({1l, 2l, 8l}));
    posix_benign();
    maybe_rate(S_poll_eintr, 0.3, 0.3);
    maybe_rate(S_recv_eintr, 0.3, 0.3);
    maybe_rate(S_send_eintr, 0.3, 0.3);
    maybe_rate(S_accept_fail, 0.15, 0.3);
    maybe_rate(S_recv_fail, 0.1, 0.3);
    maybe_rate(S_send_fail, 0.1, 0.3);
    const auto sl = sinks(nl, 2);
    Mix m;
    m.lvl = 0.4;
    const bool churn = P(0.4);
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 25); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.1))
                p.add(t, OP_SYNC, s);
            else if (P(0.25))
                p.add(t, OP_SLEEP, R(1, 300));
            else if (churn && P(0.2))
                p.add(t, OP_CLOSE, s), p.add(t, OP_REG, R(0, nl - 1), s, name());
            else if (churn && P(0.1))
                p.add(t, OP_NAME, s, name());
            else
                log(t, s, m);
        }
    const int nc = int(R(1, 4));
    for (int c = 0; c < nc; ++c)
        for (long i = R(1, 6); i > 0; --i)
            client_op(CLIENT0 + c, nl, 0.12);
}

void Gen::c12()
{
    knobs(0.5);
    shapes();
    nthr = int(R(1, 3));
    logger(0, {3, 5});
    set("l0.cmd", P(0.6) ? 2 : 1);
    const auto sl = sinks(1, 2);
    Mix m;
    m.lvl = 0.75;
    m.ts = 0.1;
    m.nb = P(0.5) ? 0.4 : 0;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(4, 40); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            switch (r.below(12))
            {
            case 0: p.add(t, OP_SETLEVEL, s, R(0, 5)); break;
            case 1: p.add(t, OP_SETLEVEL, R(0, 11), R(0, 5)); break;
            case 2: p.add(t, OP_GETLEVEL, P(0.5) ? s : R(0, 11)); break;
            case 3:
                if (P(0.3))
                    p.add(t, OP_DEFLEVEL, 0, R(0, 5));
                else
                    p.add(t, OP_SYNC, s);
                break;
            case 4:
                if (P(0.4))
                    p.add(t, OP_COPY, s, R(0, 13));
                else if (P(0.3))
                    p.add(t, OP_ASSIGN, R(0, 13), s);
                else if (P(0.4))
                {
                    // from a sink that is closed, which is registered later
                    const long d = R(0, 13);
                    p.add(t, OP_CLOSE, s);
                    if (P(0.6))
                        p.add(t, OP_SETLEVEL, s, R(0, 5));
                    if (P(0.5))
                        p.add(t, OP_DEL, d), p.add(t, OP_COPY, s, d);
                    else
                        p.add(t, OP_ASSIGN, d, s);
                    p.add(t, OP_GETLEVEL, d);
                    p.add(t, OP_REG, 0, s, name());
                    p.add(t, OP_REG, 0, d, name());
                    p.add(t, OP_GETLEVEL, s);
                }
                else
                    p.add(t, OP_GET_SINK, 0, R(0, 13), name());
                break;
            case 5: p.add(t, OP_SLEEP, R(1, 200)); break;
            default: log(t, P(0.8) ? s : R(0, 13), m); break;
            }
        }
    if (p.get("l0.cmd") == 2)
        for (int c = 0; c < int(R(1, 2)); ++c)
            for (long i = R(1, 5); i > 0; --i)
            {
                if (P(0.5))
                    p.add(CLIENT0 + c, OP_SLEEP, R(1, 400));
                p.add(CLIENT0 + c, P(0.8) ? OP_CL_LEVEL : OP_CL_STATUS, 0, R(0, 5), R(0, 3) | R(0, 1) << 2 | R(0, 20) << 3, 0, P(0.8) ? 0 : R(0, 4) | R(1, 100) << 4);
            }
}

void Gen::c13()
{
    knobs(0.2);
    shapes();
    nthr = int(R(1, 3));
    const int nl = P(0.2) ? 2 : 1;
    for (int k = 0; k < nl; ++k)
    {
        logger(k, {3, 5});
        set("l" + std::to_string(k) + ".clock", P(0.5));
    }
    set("clk.mode", R(0, 3));
    set("k.dt", pick({100l, 1000l, 10000l, 1000000l, 20000000l}));
    set("vk.wall0", pick({0l, 1l, 999999998l, 1700000000l, 4102444795l, 951782398l, 68169600l - 1, 1735689599l, 2147483646l, 4107542399l}));
    set("vk.wall0ns", pick({0l, 0l, 1l, 999999l, 500000000l, 999990000l, 999999999l, R(0, 999999999)}));
    set("vk.mono0", R(0, 3) * 1000000000l + pick({0l, 999999999l, 950000000l, 999999999l - R(0, 5000000), 999999999l - R(0, 300000), R(0, 999999999)}));
    set("vk.cpuid", R(0, 2));
    if (p.get("vk.cpuid") == 1) // frequency unknown, must be estimated
    {
        set("vk.tsc_hz", pick({1000000000l, 2400000000l, 3187654321l, 24000000l}));
        set("k.dt", 10000);
    }
    else // a multiple of half the crystal's frequency
        set("vk.tsc_hz", pick({1200000000l, 2400000000l, 3192000000l, 24000000l}));
    set("vk.tsc0", pick({0l, 1000l, 1000000000l, 1000000000000l, 90000000000000l}));
    set("tsc.tol", 5000000);
    if (P(0.4))
    {
        maybe_rate(S_clock_jump, 0.7, 0.1);
        maybe_rate(S_clock_back, 0.5, 0.1);
        if (p.get("vk.cpuid") != 1)
            maybe_rate(S_time_skip, 0.5, 0.1);
    }
    sleep_noise();
    const auto sl = sinks(nl, 2);
    Mix m;
    m.ts = 0.6;
    m.lvl = 0.1;
    m.nb = P(0.4) ? 0.4 : 0;
    const bool bigskip = P(0.3);
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 30); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.08))
                p.add(t, OP_SYNC, s);
            else if (P(0.12))
                p.add(t, OP_SLEEP, bigskip && P(0.3) ? R(1000, 90000) : R(1, 500));
            else
                log(t, s, m, P(0.1) ? R(2, 6) : 1);
        }
}

void Gen::c14()
{
    knobs(0.4);
    shapes();
    nthr = int(R(1, 3));
    const int nl = p.prop != 114 && P(0.2) ? 2 : 1;
    for (int k = 0; k < nl; ++k)
    {
        logger(k, {0, 1, 3, 4, 5, 5, 5, 6});
        set("l" + std::to_string(k) + ".cmd", P(0.3) ? 2 : 1);
    }
    posix_benign();
    // a write that io_uring completes short is only resumed at the next sync
    // or full queue, so completions are delayed but whole here
    maybe_rate(S_uring_delay, 0.4, 0.3);
    maybe_rate(S_uring_submit_partial, 0.3, 0.3);
    maybe_rate(S_uring_wait_eintr, 0.3, 0.3);
    if (p.prop == 114) // known finding
    {
        logger(0, {4});
        set("l0.append", 0);
        maybe_rate(S_uring_short, 1, 0.5);
    }
    set("keep.open", P(0.7));
    set("idle.check", 1);
    const auto sl = sinks(nl, 2);
    Mix m;
    m.nb = P(0.3) ? 0.5 : 0;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(1, 12); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.1))
                p.add(t, OP_SYNC, s);
            else if (P(0.15))
                p.add(t, OP_CLOSE, s);
            else if (P(0.1))
                p.add(t, OP_SLEEP, R(1, 400));
            else if (P(0.05))
                p.add(t, OP_DEL, s);
            else if (P(0.05))
                p.add(t, OP_GET_SINK, R(0, nl - 1), R(0, 13), name());
            else if (P(0.05))
                p.add(t, OP_STYLE, R(0, nl - 1), R(0, 2));
            else
                log(t, s, m, P(0.2) ? R(2, 10) : 1);
        }
    if (p.get("l0.cmd") == 2)
        for (long i = R(1, 2); i > 0; --i)
            client_op(CLIENT0, nl, 0.2);
}

void Gen::c15()
{
    knobs(0.2);
    shapes();
    nthr = int(R(1, 3));
    logger(0, {3, 5});
    const auto sl = sinks(1, 2);
    Mix m;
    m.lvl = 0.2;
    m.ts = 0.2;
    m.nb = pick({0.0, 0.4, 0.9});
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 40); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.04))
                p.add(t, OP_SYNC, s);
            else if (P(0.05))
                p.add(t, OP_SLEEP, R(1, 200));
            else
                log(t, s, m, P(0.2) ? R(2, 12) : 1);
        }
}

void Gen::c16()
{
    knobs(0.3);
    shapes();
    nthr = int(R(1, 3));
    logger(0, {3, 4, 5, 5});
    posix_benign();
    uring_benign();
    const auto sl = sinks(1, 2);
    Mix m;
    m.thr = pick({0.3, 0.6, 0.9});
    broken_stderr(0.15);
    m.nb = P(0.4) ? 0.4 : 0;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 40); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.05))
                p.add(t, OP_SYNC, s);
            else if (P(0.05))
                p.add(t, OP_CLOSE, s), p.add(t, OP_REG, 0, s, name());
            else
                log(t, s, m, P(0.1) ? R(2, 6) : 1);
        }
}

void Gen::c17()
{
    knobs(0.1);
    shapes();
    nthr = int(R(1, 3));
    const int nl = int(R(1, 3));
    set("ctor.mayfail", 1);
    set("sock.faults", 1);
    set("cmd.conflict", 1);
    set("teardown.faults", 1);
    for (Site s : {S_thread_create_fail, S_open_fail, S_dup_fail, S_mmap_fail, S_mremap_fail, S_uring_setup_fail, S_uring_enosys, S_uring_register_fail, S_sock_fail, S_bind_fail, S_listen_fail, S_close_fail})
        maybe_rate(s, 0.25, 0.8);
    maybe_rate(S_accept_fail, 0.1, 0.5);
    posix_benign();
    uring_benign();
    for (int k = 0; k < nl; ++k)
    {
        logger(k, {0, 0, 1, 2, 3, 4, 6, 6, 5}, 0, false);
        set("l" + std::to_string(k) + ".cmd", R(0, 2));
        p.add(P(0.6) ? 0 : int(R(1, nthr)), OP_NEW_LOGGER, k);
    }
    const auto sl = sinks(nl, 2);
    Mix m;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(1, 12); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            switch (r.below(9))
            {
            case 0: p.add(t, OP_GET_SINK, R(0, nl - 1), R(0, 13), name()); break;
            case 1: p.add(t, OP_COPY, s, R(0, 13)); break;
            case 2: p.add(t, OP_CLOSE, s); break;
            case 3: p.add(t, OP_CMDPATH, R(0, nl - 1), pick({0l, 1l, 2l, 3l, 4l, 5l})); break;
            case 4: p.add(t, OP_DEL_LOGGER, R(0, nl - 1)); break;
            case 5: p.add(t, OP_NEW_LOGGER, R(0, nl - 1)); break;
            default: log(t, s, m); break;
            }
        }
    if (P(0.4))
        for (long i = R(1, 3); i > 0; --i)
            client_op(CLIENT0, nl, 0.4);
}

void Gen::c18()
{
    if (sut_capacity <= 8192 && P(0.12))
    {
        // sustained load: the storage is slower than the producers, so some
        // or all sinks are never found empty
        knobs(0, 0);
        shapes();
        set("k.strategy", pick({0l, 0l, 1l}));
        nthr = int(R(2, 4));
        logger(0, {5});
        set("l0.bufcap", pick({64l, 200l}));
        set("l0.cmd", 2);
        set("cu.slow", pick({30000l, 100000l, 300000l}));
        set("fair.check", 1);
        const auto sl = sinks(1, 1);
        const int big = find_stmt(F_LOG, 4, SH_BIG, P(0.3));
        const bool quiet = P(0.4);
        for (int t = 1; t <= nthr; ++t)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (t == 1 && quiet)
                for (long i = R(1, 2); i > 0; --i)
                {
                    p.add(t, OP_SLEEP, R(1, 1500));
                    log(t, s, Mix{});
                    p.add(t, P(0.7) ? OP_SYNC : OP_CLOSE, s);
                }
            else
                p.add(t, OP_LOG, s, big, R(150, 250));
        }
        for (long i = R(1, 2); i > 0; --i)
        {
            p.add(CLIENT0, OP_SLEEP, R(1, 2000));
            p.add(CLIENT0, P(0.5) ? OP_CL_STATUS : OP_CL_LEVEL, 0, R(3, 5), 0, 0, 0);
        }
        return;
    }
    knobs(P(0.5) ? 0.0 : 0.4);
    shapes();
    nthr = int(R(2, 4));
    const int nl = P(0.2) ? 2 : 1;
    for (int k = 0; k < nl; ++k)
    {
        logger(k, {1, 3, 4, 5, 5});
        set("l" + std::to_string(k) + ".cmd", P(0.4) ? 2 : 1);
        if (p.get("l" + std::to_string(k) + ".bufcap") > 0)
            set("l" + std::to_string(k) + ".bufcap", pick({64l, 1000l, 4096l}));
    }
    posix_benign();
    uring_benign();
    sleep_noise();
    const bool fair = P(0.6);
    if (fair)
    {
        set("fair.check", 1);
        set("k.p_stale", 0);
        set("k.p_stall", 0);
        set("k.strategy", pick({0l, 1l, 1l}));
    }
    const auto sl = sinks(nl, 2);
    const int big = find_stmt(F_LOG, 4, SH_BIG, 0);
    for (int t = 1; t <= nthr; ++t)
    {
        if (t < nthr || !fair)
        {
            Mix m;
            for (long i = R(1, 4); i > 0; --i)
            {
                const long s = any_slot(sl[std::size_t(t)]);
                if (P(0.6))
                    p.add(t, OP_LOG, s, big, R(10, sut_capacity > 8192 ? 150 : 60));
                else
                    log(t, s, m, R(5, 30));
                if (P(0.2))
                    p.add(t, OP_SYNC, s);
            }
        }
        else
        {
            Mix m;
            for (long i = R(1, 5); i > 0; --i)
            {
                const long s = any_slot(sl[std::size_t(t)]);
                if (P(0.5))
                    p.add(t, OP_SLEEP, R(1, 500));
                log(t, s, m);
                p.add(t, P(0.8) ? OP_SYNC : OP_CLOSE, s);
                if (P(0.3))
                    p.add(t, OP_GET_SINK, R(0, nl - 1), R(10, 15), name());
            }
        }
    }
    if (P(0.3))
        for (long i = R(1, 3); i > 0; --i)
            client_op(CLIENT0, nl, 0.1);
    if (P(0.25))
        p.add(CLIENT0 + 1, OP_SLEEP, R(1, 300)), p.add(CLIENT0 + 1, OP_CL_IDLE, R(0, nl - 1), -1);
    if (fair && P(0.5))
        for (long i = R(1, 2); i > 0; --i)
        {
            p.add(CLIENT0 + 2, OP_SLEEP, R(1, 1500));
            p.add(CLIENT0 + 2, P(0.5) ? OP_CL_STATUS : OP_CL_LEVEL, R(0, nl - 1), R(3, 5), 0, 0, 0);
        }
}

void Gen::c19()
{
    knobs(0.1);
    shapes();
    nthr = int(R(1, 3));
    const int nl = int(R(1, 4));
    set("cmd.conflict", 1);
    set("vk.rundir", P(0.6));
    if (P(0.4))
    {
        set("sock.faults", 1);
        maybe_rate(S_sock_fail, 0.5, 0.5);
        maybe_rate(S_bind_fail, 0.5, 0.5);
        maybe_rate(S_listen_fail, 0.5, 0.5);
    }
    for (int k = 0; k < nl; ++k)
    {
        logger(k, {3, 5}, 0, false);
        set("l" + std::to_string(k) + ".cmd", pick({0l, 0l, 2l, 1l}));
        p.add(P(0.5) ? 0 : int(R(1, nthr)), OP_NEW_LOGGER, k);
    }
    Mix m;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 12); i > 0; --i)
        {
            switch (r.below(8))
            {
            case 0:
            case 1:
            case 2: p.add(t, OP_CMDPATH, R(0, nl - 1), pick({0l, 0l, 0l, 1l, 2l, 3l, 4l, 5l})); break;
            case 3: p.add(t, OP_DEL_LOGGER, R(0, nl - 1)); break;
            case 4: p.add(t, OP_NEW_LOGGER, R(0, nl - 1)); break;
            case 5: p.add(t, OP_SLEEP, R(1, 300)); break;
            case 6: p.add(t, OP_GET_SINK, R(0, nl - 1), R(0, 13), name()); break;
            default: log(t, R(0, 13), m); break;
            }
        }
    for (int c = 0; c < int(R(0, 2)); ++c)
        for (long i = R(1, 5); i > 0; --i)
            client_op(CLIENT0 + c, nl, 0.05);
}

void Gen::c20()
{
    knobs(0.1);
    shapes();
    nthr = int(R(1, 2));
    logger(0, {0, 1, 3, 5});
    set("l0.cmd", P(0.9) ? 2 : 1);
    set("vk.sock_cap", pick({1l, 2l, 8l}));
    maybe_rate(S_poll_eintr, 0.2, 0.3);
    maybe_rate(S_recv_eintr, 0.2, 0.3);
    maybe_rate(S_send_eintr, 0.2, 0.3);
    maybe_rate(S_accept_fail, 0.15, 0.3);
    maybe_rate(S_recv_fail, 0.1, 0.3);
    maybe_rate(S_send_fail, 0.1, 0.3);
    maybe_rate(S_connect_fail, 0.1, 0.3);
    maybe_rate(S_sock_fail, 0.1, 0.1);
    maybe_rate(S_storage_reopen_fail, 0.2, 0.5);
    if (p.cfg.count("r.sock_fail"))
        set("sock.faults", 1);
    const auto sl = sinks(1, 3);
    Mix m;
    m.lvl = 0.5;
    for (int t = 1; t <= nthr; ++t)
        for (long i = R(2, 20); i > 0; --i)
        {
            const long s = any_slot(sl[std::size_t(t)]);
            if (P(0.2))
                p.add(t, OP_SYNC, s);
            else if (P(0.3))
                p.add(t, OP_SLEEP, R(50, 900));
            else if (P(0.1))
                p.add(t, OP_NAME, s, name());
            else if (P(0.1))
                p.add(t, OP_SETLEVEL, s, R(0, 5));
            else if (P(0.08))
                p.add(t, OP_CLOSE, s), p.add(t, OP_REG, 0, s, name());
            else
                log(t, s, m);
        }
    for (long i = R(1, 5); i > 0; --i)
    {
        if (P(0.4))
            p.add(CLIENT0, OP_SLEEP, R(1, 500));
        p.add(CLIENT0, OP_XTRCTL, P(0.93) ? 0 : 3, P(0.75) ? R(0, 2) : R(3, 11), R(0, 3) | R(0, 20) << 3, R(0, 63));
    }
    if (P(0.3))
        for (long i = R(1, 3); i > 0; --i)
            client_op(CLIENT0 + 1, 1, 0.05);
    if (P(0.15)) // the logger goes away, or moves its socket, meanwhile
    {
        const int t = int(R(1, nthr));
        p.add(t, OP_SLEEP, R(1, 700));
        if (P(0.4))
            p.add(t, OP_CMDPATH, 0, R(0, 3));
        else
            p.add(t, OP_DEL_LOGGER, 0);
    }
}
} // namespace

void generate(Plan& p)
{
    Gen g(p);
    switch (p.prop)
    {
    case 1: g.c01(); break;
    case 2: g.c02(); break;
    case 3: g.c03(); break;
    case 4: g.c04(); break;
    case 5: g.c05(); break;
    case 6: g.c06(); break;
    case 7: g.c07(); break;
    case 8: g.c08(); break;
    case 9:
    case 109: g.c09(); break;
    case 10: g.c10(); break;
    case 11: g.c11(); break;
    case 12: g.c12(); break;
    case 13: g.c13(); break;
    case 14:
    case 114: g.c14(); break;
    case 15: g.c15(); break;
    case 16: g.c16(); break;
    case 17: g.c17(); break;
    case 18: g.c18(); break;
    case 19: g.c19(); break;
    default: g.c20(); break;
    }
}
} // namespace hx
