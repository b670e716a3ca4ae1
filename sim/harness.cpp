// Executor: runs a plan of operations against the real code inside the
// simulation, keeps the reference model, and checks the oracles.
#include "harness.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fcntl.h>
#include <fnmatch.h>
#include <getopt.h>
#include <regex.h>
#include <time.h>

using namespace sim;

extern "C" void hx_mark_throw(int sid, int seq);

namespace hx
{
const char* const op_names[NOPS] = {
#define X(n) #n,
    HX_OPS(X)
#undef X
};
int sut_capacity = 4096;
bool uring_poll_build;
Stats stats;

// ---------------------------------------------------------------- statements

static std::vector<GStmt> all_stmts()
{
    std::vector<GStmt> v;
    v.insert(v.end(), g_stmts_a(), g_stmts_a() + g_nstmts_a());
    v.insert(v.end(), g_stmts_b(), g_stmts_b() + g_nstmts_b());
    v.insert(v.end(), g_stmts_c(), g_stmts_c() + g_nstmts_c());
    return v;
}
static const std::vector<GStmt>& table()
{
    static std::vector<GStmt> v = all_stmts();
    return v;
}
const GStmt& stmt(int i) { return table()[std::size_t(i) % table().size()]; }
int nstmts() { return int(table().size()); }
int find_stmt(int fam, int lev, int shape, int nb)
{
    for (int i = 0; i < nstmts(); ++i)
        if (stmt(i).family == fam && (lev < 0 || stmt(i).level == lev) && stmt(i).shape == shape && stmt(i).nonblocking == nb)
            return i;
    return -1;
}

// ---------------------------------------------------------------- model

static const Plan* plan;
static bool P(int prop) { return plan->prop == prop; }
static long C(const char* k, long d = 0) { return plan->get(k, d); }

struct Item
{
    std::string head;                // "name file:line: "
    std::vector<std::string> parts;  // body text around the strings
    std::vector<std::string> strs;   // sanitised string arguments
    bool may_trunc = false;
    bool none = false;               // no token in the text
    bool required = false, absent = true, nb = false, fails = false, maybe = false, fatal = false;
    int level = 4, family = 0;
    u64 t_start = 0, t_end = INF, deadline = INF;
    u64 sync_lo = 0;                 // start of an earlier sync: lower bound for the consumer's clock
    u64 ns_start = 0, ns_end = 0;
    std::int64_t ts_us = 0;          // user-supplied timestamp
    int fiber = 0;
    int seen = 0;
    bool is_trunc = false;
    std::size_t where = 0;           // index of the file it was found in
    u64 rec_ub = 0;
    bool known_fit = false;
    std::string text(unsigned mask) const
    {
        std::string s = parts[0];
        for (std::size_t i = 0; i < strs.size(); ++i)
            s += (mask >> i & 1 ? std::string("<truncated>") : strs[i]) + parts[i + 1];
        return s;
    }
};
struct NameAt { std::string name; u64 start, sure; };
struct Stream
{
    int id = 0, out = 0, logger = -1; // logger: instance number
    std::vector<Item> items;
    std::vector<NameAt> names;
    u64 reg_start = 0, reg_sure = INF, close_start = INF, close_end = INF;
    std::size_t synced = 0;
    std::vector<u64> syncs; // start of completed syncs
    u64 since1 = 0, since2 = 0; // record bytes (upper bound) since the last and the last but one sync
    bool crashed = false;
    bool has_none = false;
    u64 pushed = 0; // record bytes (lower bound) of completed statements
    long obj = 0;
};
struct LevelWrite { unsigned mask; u64 start, end; int fiber; bool definite; };
struct SinkObj
{
    bool deleting = false;
    long id = 0;
    void* p = nullptr;
    int owner = -1;
    bool open = false;
    Stream* st = nullptr;
    std::vector<Stream*> streams;
    std::vector<LevelWrite> lev;
    VC born{};
    VC foreign{};
    int users = 0;
    bool busy = false;
};
struct Cmd
{
    int kind = 0;          // 0 status, 1 level, 2 reopen
    int level = 0, ptype = 0, icase = 0;
    std::string pat;
    u64 start = 0, end = INF;
    int result = -1;       // -1 unknown, 0 success, 1 error, 2 no effect for certain
    bool valid = true;
};
struct Reopen { u64 s, e; std::size_t lo; bool ok; };
struct LoggerM
{
    int inst = -1;
    int out = -1;
    void* p = nullptr;
    bool alive = false, deleting = false, creating = false;
    int users = 0;
    int consumer = -1;
    VC born{}, used{};
    std::string cmd;       // path of the command socket; empty: none for certain
    u64 cmd_since = 0, cmd_until = INF;
    std::vector<LevelWrite> style, deflev;
    std::vector<Cmd> cmds;
    u64 t_dead = INF;
    bool crashed = false;
};
struct Custom
{
    int consumer = -1, depth = 0;
    char* buf = nullptr;
    std::size_t cap = 0;
    std::string data;
    bool flushed = true, flush_threw = false, dead = false;
    u64 flushes = 0, submits = 0, syncs = 0, reopens = 0, throws = 0;
    u64 created = 0;
};
struct Out
{
    int kind = 0;
    std::string path;
    bool custom = false;
    Custom cu;
    std::vector<vk::Inode*> inodes; // extra, not created under path
    std::size_t pre = 0;
    u64 rotations = 0;              // renames by clients
    std::vector<Reopen> reopens;
    struct Zone { vk::Inode* ino; std::size_t from, to; };
    std::vector<Zone> lenient;      // bytes that a crash may have left torn
};

constexpr int NL = 4, NS = 20;
static LoggerM* L[NL];
static std::vector<LoggerM*> loggers;
static Out outs[NL];
static SinkObj S[NS];
static std::vector<Stream*> streams;
static std::map<std::string, int> name_uses; // name -> stream id, -1 several
static Proc* app;
static std::vector<Proc*> app_procs;
static int uniq;
static long obj_ids;
static u64 stale_w;
static int phase;
static bool crashed_run;

struct Thr
{
    int id;
    Fiber* f = nullptr;
    bool done = false, waiting = false;
    bool client = false;
    std::vector<Op> ops;
};
static std::map<int, Thr> thr;

static void dump_outputs();
static void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
static void fail(const char* cls, const char* fmt, ...)
{
    static char b[8192];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    if (verbose)
        dump_outputs();
    violation(cls, "%s", b);
}

// ---------------------------------------------------------------- text

static const char* style_text(int style, int level)
{
    static const char* const t[3][6] = {
        {"", "F ", "E ", "W ", "I ", "D "},
        {"", "<0>", "<3>", "<4>", "<6>", "<7>"},
        {"?", "[fatal] ", "[error] ", "[warning] ", "", "[dbg] "}};
    return t[style][level];
}
static std::string san(const std::string& s)
{
    std::string o;
    for (const char ch : s)
    {
        const unsigned char c = static_cast<unsigned char>(ch);
        if (c >= 0x20 && c < 0x7f && c != '\\')
            o += ch;
        else
        {
            char b[8];
            std::snprintf(b, sizeof(b), "\\x%02X", c);
            o += b;
        }
    }
    return o;
}
static std::string make_text(int sid, int seq, int which, long len, long charset)
{
    std::string s;
    s.reserve(std::size_t(len));
    unsigned x = unsigned(sid * 7919 + seq * 104729 + which * 31 + 17);
    for (long i = 0; i < len; ++i)
    {
        x = x * 1664525u + 1013904223u;
        const unsigned r = x >> 16;
        if (charset == 1 && r % 5 == 0)
        {
            static const unsigned char odd[] = {'\n', '\t', 27, '\\', '{', '}', '%', 0x80, 0xff, 0x7f, 1, '"', '#', ':'};
            s += char(odd[(r / 5) % sizeof(odd)]);
        }
        else
            s += char('a' + r % 26);
    }
    return s;
}
static std::string fmt_us(std::int64_t us)
{
    std::int64_t s = us / 1000000, u = us % 1000000;
    if (u < 0)
        u += 1000000, --s;
    const time_t t = time_t(s);
    struct tm tm;
    ::gmtime_r(&t, &tm);
    char b[80];
    std::snprintf(b, sizeof(b), "%04d-%02d-%02d %02d:%02d:%02d.%06d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, int(u));
    return b;
}
static std::int64_t us_of(std::int64_t ns)
{
    std::int64_t u = ns / 1000;
    if (ns % 1000 < 0)
        --u;
    return u;
}
// length of a timestamp at s[i], 0 if malformed
static std::size_t ts_len(const std::string& s, std::size_t i)
{
    std::size_t k = i;
    auto digits = [&](std::size_t lo, std::size_t hi)
    {
        std::size_t n = 0;
        while (k < s.size() && s[k] >= '0' && s[k] <= '9' && n < hi)
            ++k, ++n;
        return n >= lo;
    };
    auto lit = [&](char c) { return k < s.size() && s[k] == c ? (++k, true) : false; };
    if (k < s.size() && s[k] == '-')
        ++k;
    if (!(digits(4, 6) && lit('-') && digits(2, 2) && lit('-') && digits(2, 2) && lit(' ') && digits(2, 2) && lit(':') && digits(2, 2) && lit(':') && digits(2, 2) && lit('.') && digits(6, 6)))
        return 0;
    return k - i;
}
static std::string clip(const std::string& s, std::size_t n = 160)
{
    std::string o;
    for (char c : s.substr(0, n))
    {
        if (c >= ' ' && c <= '~')
            o += c;
        else
        {
            char b[8];
            std::snprintf(b, sizeof(b), "\\x%02x", static_cast<unsigned char>(c));
            o += b;
        }
    }
    if (s.size() > n)
        o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}

// ---------------------------------------------------------------- registers with concurrent writers

static unsigned possible(const std::vector<LevelWrite>& ws, u64 s, u64 e, int fiber, u64 stale)
{
    unsigned m = 0;
    for (const LevelWrite& w : ws)
    {
        if (w.start > e)
            continue;
        bool gone = false;
        for (const LevelWrite& v : ws)
        {
            if (&v == &w || !v.definite || v.end == INF)
                continue;
            const u64 lag = v.fiber == fiber ? 0 : stale;
            if (v.start > w.end && v.end + lag < s)
                gone = true;
            // one thread's own writes are ordered even if they share a step
            if (v.fiber == w.fiber && v.fiber >= 0 && &v > &w && v.end + lag < s && v.start >= w.end)
                gone = true;
        }
        if (!gone)
            m |= w.mask;
    }
    return m;
}

static bool pat_valid(const Cmd& c)
{
    if (c.ptype != 1 && c.ptype != 2)
        return true;
    regex_t r;
    const int e = ::regcomp(&r, c.pat.c_str(), REG_NOSUB | (c.icase ? REG_ICASE : 0) | (c.ptype == 1 ? REG_EXTENDED : 0));
    if (!e)
        ::regfree(&r);
    return e == 0;
}
static bool pat_match(const Cmd& c, const std::string& name)
{
    switch (c.ptype)
    {
    case 0:
        return true;
    case 1:
    case 2:
    {
        regex_t r;
        if (::regcomp(&r, c.pat.c_str(), REG_NOSUB | (c.icase ? REG_ICASE : 0) | (c.ptype == 1 ? REG_EXTENDED : 0)))
            return false;
        const bool m = ::regexec(&r, name.c_str(), 0, nullptr, 0) == 0;
        ::regfree(&r);
        return m;
    }
    default:
        return ::fnmatch(c.pat.c_str(), name.c_str(), c.icase ? FNM_CASEFOLD : 0) == 0;
    }
}
static std::vector<std::string> may_names(const Stream& st, u64 s, u64 e)
{
    std::vector<std::string> v;
    for (std::size_t i = 0; i < st.names.size(); ++i)
    {
        if (st.names[i].start > e)
            break;
        if (i + 1 < st.names.size() && st.names[i + 1].sure < s)
            continue;
        v.push_back(st.names[i].name);
    }
    return v;
}
static bool may_present(const Stream& st, u64 s, u64 e) { return st.reg_start <= e && st.close_end >= s && !st.crashed; }
static bool must_present(const Stream& st, u64 s, u64 e) { return st.reg_sure < s && st.close_start > e && !st.crashed; }

static unsigned level_mask(const SinkObj& o, u64 s, u64 e, int fiber)
{
    std::vector<LevelWrite> ws = o.lev;
    for (const Stream* st : o.streams)
        for (const Cmd& c : loggers[std::size_t(st->logger)]->cmds)
        {
            if (c.kind != 1 || c.result == 1 || c.result == 2 || c.level < 0 || c.level > 5)
                continue;
            const u64 ce = std::min(c.end, steps);
            if (!may_present(*st, c.start, ce))
                continue;
            bool any = false, all = true;
            for (const std::string& n : may_names(*st, c.start, ce))
                (pat_match(c, n) ? any : all) = pat_match(c, n) ? true : false;
            if (!any)
                continue;
            ws.push_back({1u << c.level, c.start, c.end, -2, c.result == 0 && all && must_present(*st, c.start, ce)});
        }
    return possible(ws, s, e, fiber, stale_w);
}

// ---------------------------------------------------------------- reading outputs

static std::vector<vk::Inode*> files_of(const Out& o)
{
    std::vector<vk::Inode*> v = o.inodes;
    if (!o.path.empty())
        for (vk::Inode* i : vk::all_inodes())
            if (i->path == o.path && i->type == vk::Inode::reg && std::find(v.begin(), v.end(), i) == v.end())
                v.push_back(i);
    return v;
}

struct Checker
{
    int oi;
    bool final;
    std::map<int, std::size_t> cursor;        // stream -> items consumed
    std::map<std::string, u64> warned;        // name -> messages reported dropped
    // statements without arguments: their lines are indistinguishable, so where
    // some of them need not appear (or several sinks share the name) only the
    // number of lines is meaningful
    struct Group
    {
        std::deque<std::pair<int, std::size_t>> q;
        std::vector<std::pair<int, std::size_t>> all;
        bool multi = false, vague = false;
        u64 found = 0;
    };
    std::map<std::string, Group> none;
    std::map<int, u64> slack; // stream -> ambiguity of the drop count
    u64 bad = 0;
    std::size_t file = 0;
    std::vector<std::vector<char>> seen;      // by stream

    void go(const std::vector<std::pair<vk::Inode*, std::string>>& data)
    {
        seen.resize(streams.size());
        for (Stream* st : streams)
            if (st->out == oi)
            {
                seen[std::size_t(st->id)].assign(st->items.size(), 0);
                for (std::size_t k = 0; k < st->items.size(); ++k)
                    if (st->items[k].none && !st->items[k].absent)
                    {
                        Group& g = none[st->items[k].head + st->items[k].parts[0]];
                        g.multi |= !g.all.empty() && g.all.back().first != st->id;
                        g.vague |= !st->items[k].required || C("err.mode") != 0 || st->crashed;
                        g.q.push_back({st->id, k});
                        g.all.push_back({st->id, k});
                    }
            }
        for (file = 0; file < data.size(); ++file)
        {
            const std::string& d = data[file].second;
            std::size_t pos = file == 0 ? outs[oi].pre : 0;
            while (pos < d.size())
            {
                std::size_t nl = d.find('\n', pos);
                bool lenient = false;
                for (const Out::Zone& z : outs[oi].lenient)
                    if (z.ino == data[file].first && pos < z.to && (nl == std::string::npos ? d.size() : nl + 1) > z.from)
                    {
                        lenient = true;
                        // a torn tail may be glued to the first line of the restarted process
                        if (pos < z.to && (nl == std::string::npos || nl >= z.to))
                        {
                            if (pos < z.from)
                                line(d.substr(pos, z.to - pos), true);
                            pos = z.to;
                            nl = std::string::npos - 1;
                        }
                        break;
                    }
                if (nl == std::string::npos - 1)
                    continue;
                if (nl == std::string::npos)
                {
                    if (final && !lenient)
                        fail("torn", "output ends in an incomplete line \"%s\"", clip(d.substr(pos)).c_str());
                    break;
                }
                line(d.substr(pos, nl - pos), lenient || !final);
                pos = nl + 1;
            }
        }
        for (auto& n : none)
        {
            Group& g = n.second;
            if (!g.multi && !g.vague)
                continue;
            u64 left = g.found;
            for (int pass = 0; pass < 3; ++pass)
                for (auto& x : g.all)
                {
                    const Item& it = streams[std::size_t(x.first)]->items[x.second];
                    if ((it.required || it.known_fit ? 0 : it.nb && !it.maybe ? 1 : 2) != pass)
                        continue;
                    if (!left)
                        continue;
                    --left;
                    seen[std::size_t(x.first)][x.second] = 1;
                    slack[x.first] += pass == 2 || g.multi;
                }
        }
    }

    void line(const std::string& ln, bool lenient)
    {
        ++stats.lines;
        // prefix: any style, then a timestamp
        std::size_t t = 0, tl = 0;
        int levels[3] = {-1, -1, -1};
        bool any = false;
        for (int s = 0; s < 3; ++s)
            for (int l = 1; l < 6; ++l)
            {
                const std::string pre = style_text(s, l);
                if (ln.compare(0, pre.size(), pre) == 0 && ts_len(ln, pre.size()))
                {
                    if (pre.size() >= t)
                    {
                        t = pre.size();
                        tl = ts_len(ln, t);
                    }
                    levels[s] = l;
                    any = true;
                }
            }
        if (!any || t + tl >= ln.size() || ln[t + tl] != ' ')
        {
            if (!lenient)
                fail("garbage", "output contains something that was not logged: \"%s\"", clip(ln).c_str());
            ++bad;
            return;
        }
        const std::string prefix = ln.substr(0, t), ts = ln.substr(t, tl), rest = ln.substr(t + tl + 1);
        const std::size_t h = rest.find(": #");
        Stream* st = nullptr;
        std::size_t idx = 0;
        if (h != std::string::npos)
        {
            int sid = -1, seq = -1, n = 0;
            if (std::sscanf(rest.c_str() + h + 2, "#%d.%d %n", &sid, &seq, &n) >= 2 && n > 0 && sid >= 0 && std::size_t(sid) < streams.size() && streams[std::size_t(sid)]->out == oi &&
                seq >= 0 && std::size_t(seq) < streams[std::size_t(sid)]->items.size())
            {
                st = streams[std::size_t(sid)];
                idx = std::size_t(seq);
                Item& it = st->items[idx];
                bool ok = false;
                unsigned mask = 0;
                if (rest.compare(0, it.head.size(), it.head) == 0)
                    for (; mask < (1u << it.strs.size()); ++mask)
                        if (rest.compare(it.head.size(), std::string::npos, it.text(mask)) == 0)
                        {
                            ok = true;
                            break;
                        }
                if (!ok)
                {
                    if (lenient)
                    {
                        ++bad;
                        return;
                    }
                    fail("altered", "line was altered: expected \"%s\", found \"%s\"", clip(it.head + it.text(0), 700).c_str(), clip(rest, 700).c_str());
                }
                if (mask)
                {
                    it.is_trunc = true;
                    ++stats.trunc;
                    if (!it.nb && !it.may_trunc)
                        fail("truncated", "string argument of a blocking statement truncated although it fits an empty sink (record at most %lu bytes, capacity %d): \"%s\"",
                            (unsigned long)it.rec_ub, sut_capacity, clip(rest).c_str());
                    if (it.nb && it.known_fit)
                        fail("truncated", "string argument of a non-blocking statement truncated although space was known to be free: \"%s\"", clip(rest).c_str());
                }
            }
        }
        else if (const std::size_t w = rest.rfind(" messages dropped"); w != std::string::npos && w + 17 == rest.size())
        {
            const std::size_t c = rest.rfind(": ", w);
            if (c != std::string::npos)
            {
                const std::string name = rest.substr(0, c);
                u64 n = 0;
                bool num = w > c + 2;
                for (std::size_t k = c + 2; k < w; ++k)
                    if (rest[k] >= '0' && rest[k] <= '9')
                        n = n * 10 + u64(rest[k] - '0');
                    else
                        num = false;
                if (num && name_uses.count(name))
                {
                    if (n == 0 && !lenient)
                        fail("drop-count", "a warning reports zero dropped messages");
                    warned[name] += n;
                    bool wl = false;
                    for (int s = 0; s < 3; ++s)
                        wl |= levels[s] == 3 && prefix == style_text(s, 3);
                    if (!wl && !lenient)
                        fail("prefix", "drop warning has the wrong level prefix: \"%s\"", clip(ln).c_str());
                    return;
                }
            }
        }
        else if (auto i = none.find(rest); i != none.end())
        {
            Group& g = i->second;
            auto& q = g.q;
            if (++g.found <= g.all.size() && g.multi)
                return;
            while (!g.multi && !q.empty() && q.front().second < cursor[q.front().first])
                q.pop_front();
            if (!q.empty() && !g.multi)
            {
                st = streams[std::size_t(q.front().first)];
                idx = q.front().second;
                if (g.vague)
                {
                    cursor[st->id] = idx + 1;
                    return;
                }
            }
        }
        if (!st)
        {
            if (!lenient)
                fail("garbage", "output contains a line that was not logged (or appears too often or out of order): \"%s\"", clip(ln).c_str());
            ++bad;
            return;
        }
        Item& it = st->items[idx];
        if (seen[std::size_t(st->id)][idx])
            fail("duplicate", "line appears twice: \"%s\"", clip(ln).c_str());
        if (it.absent)
            fail("unexpected", "a statement that failed or was filtered appears in the output: \"%s\"", clip(ln).c_str());
        if (idx < cursor[st->id])
            fail("order", "lines of one sink out of order: \"%s\" appears after a later line", clip(ln).c_str());
        cursor[st->id] = idx + 1;
        seen[std::size_t(st->id)][idx] = 1;
        it.seen = 1;
        it.where = file;
        if (final && !lenient) // a crash may have cut off part of the line
            check_line(*st, it, prefix, ts, ln);
    }

    void check_line(Stream& st, Item& it, const std::string& prefix, const std::string& ts, const std::string& ln)
    {
        const LoggerM& lg = *loggers[std::size_t(st.logger)];
        const u64 dl = it.deadline;
        const unsigned styles = possible(lg.style, it.t_start, dl, -1, 0);
        bool ok = false;
        for (int s = 0; s < 3; ++s)
            if (styles >> s & 1)
                ok |= prefix == style_text(s, it.level);
        if (!ok)
            fail("prefix", "wrong level prefix (level %d, styles in effect 0x%x): \"%s\"", it.level, styles, clip(ln).c_str());
        check_ts(lg, st, it, ts, ln);
    }

    void check_ts(const LoggerM& lg, Stream&, Item& it, const std::string& ts, const std::string& ln)
    {
        switch (it.family)
        {
        case F_LOG:
        case F_LOGL:
        {
            if (!C("chk.ts", 1))
                return;
            ok_read = nullptr;
            for (std::size_t i = vk::clock_reads.size(); i-- > 0;)
            {
                const vk::ClockRead& r = vk::clock_reads[i];
                if (r.step > it.deadline || r.fiber != lg.consumer || r.clock == vk::CLK_TSC)
                    continue;
                if (r.step < it.sync_lo)
                    break;
                if (fmt_us(us_of(r.value)) == ts)
                    return;
            }
            fail("timestamp", "timestamp %s of \"%s\" is not a value the logger's clock returned while the line was pending (call at step %lu..%lu, written by %ld, earliest round %lu)",
                ts.c_str(), clip(ln, 100).c_str(), (unsigned long)it.t_start, (unsigned long)it.t_end, long(it.deadline), (unsigned long)it.sync_lo);
        }
        case F_TS:
        case F_LTS:
            if (fmt_us(it.ts_us) != ts)
                fail("timestamp", "line has timestamp %s instead of the one passed, %s: \"%s\"", ts.c_str(), fmt_us(it.ts_us).c_str(), clip(ln, 100).c_str());
            return;
        case F_RTC:
        case F_LRTC:
            for (const vk::ClockRead& r : vk::clock_reads)
                if (r.fiber == it.fiber && r.clock != vk::CLK_TSC && r.step >= it.t_start && r.step <= it.t_end && (fmt_us(us_of(r.value)) == ts))
                    return;
            fail("timestamp", "timestamp %s of \"%s\" is not the real-time clock's value during the call", ts.c_str(), clip(ln, 100).c_str());
        case F_TSC:
        case F_LTSC:
        {
            // wall-clock time of the call, for any clock offset in effect
            // from one resynchronisation period before the call on
            const std::int64_t tol = C("tsc.tol", 5000000);
            const std::int64_t period = 61000000000ll;
            for (std::size_t i = 0; i < vk::clock_hist.size(); ++i)
            {
                const bool last = i + 1 == vk::clock_hist.size();
                if (!last && std::int64_t(vk::clock_hist[i + 1].t) < std::int64_t(it.ns_start) - period - C("tsc.lag", 0))
                    continue;
                const std::int64_t lo = std::int64_t(it.ns_start) + vk::clock_hist[i].off - tol, hi = std::int64_t(it.ns_end) + vk::clock_hist[i].off + tol;
                if (fmt_us(us_of(lo)) <= ts && ts <= fmt_us(us_of(hi)))
                    return;
            }
            // the two clocks are read one after the other, with any delay in
            // between; an estimated frequency is a little off
            for (std::size_t i = 0; i < vk::clock_reads.size(); ++i)
            {
                const vk::ClockRead& w = vk::clock_reads[i];
                if (w.clock == vk::CLK_TSC || w.step > it.deadline)
                    continue;
                for (int dir : {-1, 1})
                {
                    std::size_t j = i + std::size_t(dir);
                    while (j < vk::clock_reads.size() && !(vk::clock_reads[j].fiber == w.fiber && vk::clock_reads[j].clock == vk::CLK_TSC))
                        j += std::size_t(dir);
                    if (j >= vk::clock_reads.size())
                        continue;
                    const vk::ClockRead& c = vk::clock_reads[j];
                    const std::int64_t age = std::int64_t(it.ns_start) - std::int64_t(c.t);
                    if (age > period)
                        continue;
                    const std::int64_t off = w.value - std::int64_t(c.t);
                    const std::int64_t t2 = tol + (C("vk.cpuid") == 1 ? std::abs(age) / 20 : 0);
                    if (fmt_us(us_of(std::int64_t(it.ns_start) + off - t2)) <= ts && ts <= fmt_us(us_of(std::int64_t(it.ns_end) + off + t2)))
                        return;
                }
            }
            if (verbose)
                for (const vk::ClockRead& r : vk::clock_reads)
                    std::fprintf(stderr, "clock read fiber %d step %lu clock %d value %ld t %lu\n", r.fiber, (unsigned long)r.step, r.clock, long(r.value), (unsigned long)r.t);
            if (verbose)
                std::fprintf(stderr, "call by fiber %d steps %lu..%lu ns %lu..%lu deadline %lu\n", it.fiber, (unsigned long)it.t_start, (unsigned long)it.t_end, (unsigned long)it.ns_start, (unsigned long)it.ns_end, (unsigned long)it.deadline);
            fail("timestamp", "TSC timestamp %s of \"%s\" is not the wall-clock time of the call, %s", ts.c_str(), clip(ln, 100).c_str(),
                fmt_us(us_of(std::int64_t(it.ns_start) + vk::clock_hist.back().off)).c_str());
        }
        }
    }
    const void* ok_read = nullptr;
};

static std::vector<std::pair<vk::Inode*, std::string>> contents(const Out& o, bool durable)
{
    std::vector<std::pair<vk::Inode*, std::string>> v;
    if (o.custom)
        v.push_back({nullptr, o.cu.data});
    else
        for (vk::Inode* i : files_of(o))
            v.push_back({i, durable ? i->durable : i->data});
    return v;
}
static void dump_outputs()
{
    for (auto& o : outs)
        for (auto& c : contents(o, false))
            { std::string t = c.second.substr(0, 20000); for (char& ch : t) if (!ch) ch = 1; std::fprintf(stderr, "---- output %s (%zu bytes)\n%s\n----\n", o.path.c_str(), c.second.size(), t.c_str()); for (auto& z : o.lenient) if (z.ino == c.first) std::fprintf(stderr, "zone %zu..%zu\n", z.from, z.to); }
    for (Proc* p : app_procs)
        std::fprintf(stderr, "---- stderr\n%s----\n", p->err.c_str());
}

static std::size_t count_in(const std::string& s, const char* what)
{
    std::size_t n = 0, p = 0;
    while ((p = s.find(what, p)) != std::string::npos)
        ++n, ++p;
    return n;
}
static std::string all_err()
{
    std::string s;
    for (Proc* p : app_procs)
        s += p->err;
    return s;
}

// everything required of one stream must be in the output (durably)
static void check_stream(Stream* st, std::size_t upto, bool durable, const char* when)
{
    ++stats.checks;
    Checker c{};
    c.oi = st->out;
    c.final = false;
    c.go(contents(outs[st->out], durable));
    for (std::size_t i = 0; i < upto; ++i)
    {
        const Item& it = st->items[i];
        if (it.required && !c.seen[std::size_t(st->id)][i])
            fail(durable ? "not-durable" : "not-written", "%s, but a statement made before is not %s: \"%s%s\"", when,
                durable ? "durable in the log file" : "in the output", clip(it.head).c_str(), clip(it.text(0)).c_str());
    }
}

static void final_check()
{
    const std::string err = all_err();
    const bool errs = C("err.mode") != 0;
    u64 missing_total = 0, torn_total = 0;
    for (int oi = 0; oi < NL; ++oi)
    {
        bool used = false;
        for (Stream* st : streams)
            used |= st->out == oi;
        if (!used)
            continue;
        Checker c{};
        c.oi = oi;
        c.final = true;
        c.go(contents(outs[oi], false));
        ++stats.checks;
        // names whose streams overlap are accounted together
        std::map<std::string, std::string> rep;
        auto find = [&](std::string n)
        {
            while (rep[n] != n)
                n = rep[n];
            return n;
        };
        std::map<std::string, std::pair<u64, u64>> drops; // definite, ambiguous
        bool crashed = false;
        for (Stream* st : streams)
        {
            if (st->out != oi)
                continue;
            for (const NameAt& n : st->names)
                if (!rep.count(n.name))
                    rep[n.name] = n.name;
            for (std::size_t i = 1; i < st->names.size(); ++i)
                rep[find(st->names[i].name)] = find(st->names[0].name);
        }
        for (Stream* st : streams)
        {
            if (st->out != oi)
                continue;
            crashed |= st->crashed;
            auto& d = drops[find(st->names[0].name)];
            d.second += c.slack[st->id];
            for (std::size_t i = 0; i < st->items.size(); ++i)
            {
                Item& it = st->items[i];
                const bool seen = c.seen[std::size_t(st->id)][i];
                if (it.fails)
                {
                    if (it.nb)
                        ++d.second;
                    continue;
                }
                if (it.absent || seen)
                    continue;
                if (it.required && (!st->crashed || i < st->synced))
                {
                    if (errs)
                        ++missing_total;
                    else
                        fail("lost", "statement never appeared in the output: \"%s%s\" (sink session %d, statement %zu of %zu)", clip(it.head).c_str(), clip(it.text(0)).c_str(), st->id, i,
                            st->items.size());
                }
                else if (it.nb && it.t_end != INF && !it.maybe)
                {
                    ++d.first;
                    ++stats.dropped;
                    if (it.known_fit && !errs)
                        fail("dropped-with-space", "a non-blocking statement was dropped although space was known to be free: \"%s%s\"", clip(it.head).c_str(), clip(it.text(0)).c_str());
                }
                else if (it.maybe && it.nb)
                    ++d.second;
            }
        }
        if (!crashed && !errs)
        {
            std::map<std::string, u64> warned;
            for (auto& w : c.warned)
                if (rep.count(w.first))
                    warned[find(w.first)] += w.second;
            for (auto& d : drops)
            {
                const u64 w = warned[d.first];
                if (w < d.second.first || w > d.second.first + d.second.second)
                    fail("drop-count", "%lu messages of sink \"%s\" were dropped but the warnings in the log report %lu", (unsigned long)d.second.first, d.first.c_str(), (unsigned long)w);
            }
        }
        // rotation: statements made after a successful reopen are in the new file
        for (const Reopen& r : outs[oi].reopens)
            if (r.ok)
                for (Stream* st : streams)
                    if (st->out == oi)
                        for (Item& it : st->items)
                            if (it.seen && it.t_start > r.e && it.where < r.lo)
                                fail("old-file", "a statement made after the reopen command had succeeded was written to the old file: \"%s%s\"", clip(it.head).c_str(), clip(it.text(0)).c_str());
        torn_total += c.bad;
    }
    if (errs && missing_total)
    {
        const std::size_t n = count_in(err, "Error writing log");
        if (!vk::stderr_broken && !C("stderr.broken") && missing_total > n)
            fail("lost", "%lu statements are missing from the output but only %zu write errors were reported", (unsigned long)missing_total, n);
    }
    // failed formatting is reported once per statement
    if (!crashed_run && !errs && !C("stderr.broken"))
    {
        u64 f = 0, amb = 0;
        for (Stream* st : streams)
            for (Item& it : st->items)
                if (it.fails && it.t_end != INF)
                    ++(it.nb ? amb : f);
        const std::size_t n = count_in(err, "Error writing log: ");
        if (n < f || n > f + amb)
            fail("error-report", "%lu statements failed to format but %zu errors were reported on stderr", (unsigned long)f, n);
    }
}

// ---------------------------------------------------------------- argument objects

struct Live { int id; int proc; };
static std::map<const void*, Live> live;

static void close_check_args(Stream* st)
{
    for (auto& l : live)
        if (l.second.id >> 16 == st->id)
            fail("arg-lifetime", "an argument of statement %d.%d still exists after its sink was closed", l.second.id >> 16, l.second.id & 0xffff);
}

// ---------------------------------------------------------------- executor

static std::string fresh_name(long spec)
{
    if (spec < 0)
        return "u" + std::to_string(uniq++);
    static const char* const shared[] = {"alpha", "beta", "alpha.x", "Gamma", "a b", "net/io", "x[1]", "ALPHA"};
    return shared[spec % 8];
}
static void use_name(Stream* st, const std::string& n)
{
    auto i = name_uses.find(n);
    if (i == name_uses.end())
        name_uses[n] = st->id;
    else if (i->second != st->id)
        i->second = -1;
}
static Stream* new_stream(int inst, const std::string& name)
{
    Stream* st = new Stream;
    st->id = int(streams.size());
    st->logger = inst;
    st->out = loggers[std::size_t(inst)]->out;
    st->reg_start = steps;
    st->names.push_back({name, 0, 0});
    streams.push_back(st);
    use_name(st, name);
    return st;
}
static bool own(int t, long s)
{
    if (s < 0 || s >= NS || !S[s].p || S[s].owner != t || S[s].busy)
        return false;
    acquire_from(S[s].born); // a sink handed over while this thread was inside another operation
    return true;
}
static LoggerM* usable(long l)
{
    if (l < 0 || l >= NL || !L[l] || !L[l]->alive || L[l]->deleting)
        return nullptr;
    return L[l];
}
struct UseLogger
{
    LoggerM* l;
    explicit UseLogger(LoggerM* x) : l(x)
    {
        ++l->users;
        acquire_from(l->born);
    }
    ~UseLogger()
    {
        release_to(l->used);
        --l->users;
    }
};
static void obj_init(SinkObj& o, void* p, int t)
{
    o = SinkObj{};
    o.id = ++obj_ids;
    o.p = p;
    o.owner = t;
    release_to(o.born);
}

static void do_new_logger(int t, long k)
{
    if (k < 0 || k >= NL || (L[k] && (L[k]->alive || L[k]->creating || !L[k]->crashed)))
        if (!(k >= 0 && k < NL && L[k] && !L[k]->alive && !L[k]->creating))
            if (!(k >= 0 && k < NL && !L[k]))
                return;
    LoggerM* lg = new LoggerM;
    lg->inst = int(loggers.size());
    lg->out = int(k);
    lg->creating = true;
    loggers.push_back(lg);
    L[k] = lg;
    auto key = [&](const char* f) { return "l" + std::to_string(k) + "." + f; };
    auto cf = [&](const char* f, long d = 0) { return plan->get(key(f), d); };
    Out& o = outs[k];
    o.kind = int(cf("kind"));
    o.custom = o.kind == 5;
    GLogger g{};
    g.kind = o.kind;
    const bool has_reopen = cf("reopen", 1);
    static const char no_path[] = "";
    if (!o.custom)
        o.path = "/log/L" + std::to_string(k) + ".log";
    g.path = o.path.c_str();
    const char* nullp = nullptr;
    (void)nullp;
    if (!o.custom && o.kind != 0)
    {
        vk::Inode* ino = vk::lookup(o.path);
        if (!ino)
        {
            const long pre = o.inodes.empty() && files_of(o).empty() ? cf("pre", 0) : 0;
            ino = vk::create_file(o.path, pre ? std::string(std::size_t(pre - 1), 'p') + "\n" : "");
            if (pre)
                o.pre = std::size_t(pre);
        }
        const bool app = cf("append", 1) || L[k]->inst > 0 || phase > 0;
        g.fd = vk::open_fd(app_procs.back(), ino, O_WRONLY | (app ? O_APPEND : 0));
        if (!app)
        {
            vk::table(app_procs.back()).fd[std::size_t(g.fd)]->pos = ino->data.size();
        }
        if (o.kind == 1 || o.kind == 2)
            g.file = vk::stream_for(g.fd);
        if (!has_reopen && o.kind != 2)
            g.path = no_path;
    }
    else if (o.kind == 0 && !vk::lookup(o.path) && cf("pre", 0) && o.inodes.empty() && files_of(o).empty())
    {
        vk::create_file(o.path, std::string(std::size_t(cf("pre", 0) - 1), 'p') + "\n");
        o.pre = std::size_t(cf("pre", 0));
    }
    g.bufcap = std::size_t(cf("bufcap"));
    g.queue = std::size_t(cf("queue", 4));
    g.batch = std::size_t(cf("batch", 1));
    g.storage_id = int(k);
    g.clock = int(cf("clock"));
    g.clock_id = int(k);
    g.style = int(cf("style"));
    g.cmd = int(cf("cmd", 1));
    const std::string cp = "/tmp/cmd" + std::to_string(k);
    g.cmd_path = cp.c_str();
    g.cmd_len = cp.size();
    if (o.custom)
    {
        o.cu.consumer = -1;
        o.cu.dead = false;
        o.cu.buf = nullptr;
        o.cu.flushed = true;
        o.cu.cap = std::size_t(cf("bufcap", 256));
        if (!o.cu.cap)
            o.cu.cap = 256;
    }
    lg->style.push_back({1u << g.style, 0, 0, -1, true});
    lg->deflev.push_back({1u << 4, 0, 0, -1, true});
    const int nf = nfibers;
    const std::size_t nb = vk::bind_log.size();
    static char err[512];
    err[0] = 0;
    void* p;
    {
        Sut s;
        p = g_logger_new(&g, err, sizeof(err));
    }
    lg->creating = false;
    progress();
    if (!p)
    {
        if (C("ctor.mayfail"))
        {
            L[k] = nullptr;
            return;
        }
        fail("ctor-failed", "creating a logger failed without a fault: %s", err);
    }
    for (int i = nf; i < nfibers; ++i)
        if (fibers[i].parent == cur->id && fibers[i].pfn)
            lg->consumer = i;
    for (std::size_t i = nb; i < vk::bind_log.size(); ++i)
        if (vk::bind_log[i].fiber == cur->id && vk::bind_log[i].ok)
        {
            vk::Inode* in = vk::lookup(vk::bind_log[i].path);
            if (in && in->listener && in->listener->listening && !in->listener->closed)
                lg->cmd = vk::bind_log[i].path;
        }
    if (g.cmd == 1 && nb != vk::bind_log.size() && vk::bind_log.back().fiber == cur->id)
        fail("cmd-path", "a command socket was created for a logger without a command path");
    if (g.cmd == 2 && lg->cmd.empty() && !C("sock.faults") && !C("cmd.conflict"))
        fail("cmd-path", "a logger did not open its command socket");
    if (g.cmd != 1 && lg->cmd.empty() && !C("stderr.broken") && app->err.find("ommand") == std::string::npos)
        fail("cmd-report", "a command socket could not be opened and nothing was reported");
    lg->cmd_since = steps;
    lg->p = p;
    lg->alive = true;
    release_to(lg->born);
}

// fairness: while one call waits for the consumer, no other sink of the same
// logger may be served without bound
static bool app_over; // the application has destroyed everything
struct Fair
{
    int inst;
    std::vector<u64> p0;
    explicit Fair(int i) : inst(i)
    {
        for (Stream* st : streams)
            p0.push_back(st->pushed);
    }
    void check(const char* what, u64 n = 7)
    {
        if (!C("fair.check") || inst < 0)
            return;
        for (std::size_t i = 0; i < p0.size(); ++i)
        {
            if (verbose)
                std::fprintf(stderr, "fair: %s stream %zu pushed %lu\n", what, i, (unsigned long)(streams[i]->pushed - p0[i]));
            if (streams[i]->logger == inst && streams[i]->pushed - p0[i] > n * u64(sut_capacity))
                fail("starved", "%s waited while another sink passed %lu bytes (%lu times its capacity) through the logger", what, (unsigned long)(streams[i]->pushed - p0[i]),
                    (unsigned long)((streams[i]->pushed - p0[i]) / u64(sut_capacity)));
        }
    }
};

static void set_closed(SinkObj& o)
{
    o.open = false;
    o.st->close_end = steps;
    for (Item& it : o.st->items)
        if (it.deadline == INF)
            it.deadline = steps;
    if (!o.st->crashed)
        close_check_args(o.st);
}
static void pre_close(SinkObj& o)
{
    if (o.open)
        o.st->close_start = steps;
}
static void do_close(SinkObj& o)
{
    acquire_from(o.born);
    pre_close(o);
    o.busy = true;
    int r;
    Fair fair(o.open ? o.st->logger : -1);
    {
        Sut s;
        r = g_sink_close(o.p);
    }
    fair.check("close()");
    o.busy = false;
    if (r)
        fail("exception", "sink::close threw");
    if (o.open)
        set_closed(o);
    {
        Sut s;
        if (g_sink_is_open(o.p))
            fail("is-open", "a sink reports to be open after close()");
    }
    progress();
}
static void do_del(SinkObj& o)
{
    o.deleting = true;
    pre_close(o);
    o.busy = true;
    acquire_from(o.born);
    acquire_from(o.foreign);
    {
        Sut s;
        g_sink_delete(o.p);
    }
    if (o.open)
        set_closed(o);
    o = SinkObj{};
    progress();
}
static void close_all_of(int t)
{
    for (SinkObj& o : S)
        if (o.p && o.owner == t)
        {
            if (o.users)
                do_close(o);
            else
                do_del(o);
        }
}
static void do_del_logger(int t, long k)
{
    LoggerM* lg = usable(k);
    if (!lg || lg->users)
        return;
    lg->deleting = true;
    if (t >= 0 && thr.count(t))
        thr[t].waiting = true;
    close_all_of(t);
    acquire_from(lg->born);
    acquire_from(lg->used);
    {
        Sut s;
        g_logger_delete(lg->p);
    }
    if (t >= 0 && thr.count(t))
        thr[t].waiting = false;
    progress();
    lg->alive = lg->deleting = false;
    lg->t_dead = steps;
    for (Stream* st : streams)
        if (st->logger == lg->inst && st->close_start == INF && !st->crashed)
            fail("logger-gone", "a logger's destructor returned while a sink was still connected");
    if (lg->consumer >= 0 && fibers[lg->consumer].st != Fiber::finished)
        fail("thread-left", "a logger's destructor returned but its thread is still running");
    if (!lg->cmd.empty() && vk::lookup(lg->cmd))
    {
        vk::Inode* i = vk::lookup(lg->cmd);
        if (i->type == vk::Inode::sock && (!i->listener || i->listener->closed))
            fail("cmd-path", "the command socket path %s still exists after its logger was destroyed", lg->cmd.c_str());
    }
    Out& o = outs[lg->out];
    if (o.custom && !o.cu.dead)
        fail("storage-leak", "the storage back-end was not destroyed with its logger");
    if (!C("err.mode") && !C("uring.hard"))
        for (Stream* st : streams)
            if (st->logger == lg->inst && !st->crashed)
                check_stream(st, st->items.size(), false, "the logger was destroyed");
    L[k] = nullptr;
}

static u64 record_ub(int shape, u64 strbytes)
{
    u64 b = 0;
    switch (shape)
    {
    case SH_NONE: return 8;
    case SH_INT: b = 16 + 16; break;
    case SH_NUM: b = 16 + 48; break;
    case SH_BIG: b = 16 + 640; break;
    case SH_HUGE: b = 16 + 3040; break;
    case SH_ALIGN: b = 96 + 16; break;
    case SH_MIX: b = 16 + 256; break;
    case SH_ALSTR: b = 96 + 64; break;
    default: b = 16 + 96; break;
    }
    return b + strbytes + 32;
}
static bool allocates(int shape)
{
    return shape == SH_RSTR || shape == SH_VEC || shape == SH_FTHROW0 || shape == SH_CTHROW || shape == SH_TRSTR || shape == SH_TRACK || shape == SH_MOVE || shape == SH_MIX || shape == SH_ALSTR;
}

static void log_one(int t, SinkObj& o, int si, long len1, long len2, long charset, int throws)
{
    Stream* st = o.st;
    const GStmt* g = &stmt(si);
    const std::string& name = st->names.back().name;
    if (g->shape == SH_NONE && name_uses[name] != st->id)
    {
        const int alt = find_stmt(g->family, g->level, SH_INT, g->nonblocking);
        if (alt < 0)
            return;
        g = &stmt(alt);
    }
    const int lim = sut_capacity - 200;
    if (g->shape == SH_HUGE && lim < 3200)
        return;
    if (st->items.size() > 60000)
        return;
    ++stats.stmts;
    const int sid = st->id, seq = int(st->items.size());
    const std::string raw1 = make_text(sid, seq, 1, len1, g->shape == SH_RSTR && !C("rstr.any", 1) ? 0 : charset), raw2 = make_text(sid, seq, 2, len2, charset);
    GArgs a{};
    a.sid = sid;
    a.seq = seq;
    a.i = (sid * 31 + seq * 7) % 1000;
    a.d = a.i / 8.0;
    a.l1 = raw1.size();
    a.l2 = raw2.size();
    a.ts_sec = 1600000000 + (seq * 77777 % 100000000);
    a.ts_nsec = (seq * 1234567l) % 1000000000;
    Item it;
    it.level = g->level;
    it.family = g->family;
    it.nb = g->nonblocking;
    it.fatal = g->level == 1;
    it.fiber = cur->id;
    it.ts_us = a.ts_sec * 1000000l + a.ts_nsec / 1000;
    const char* base = std::strrchr(g->file, '/');
    it.head = name + " " + (base ? base + 1 : g->file) + ":" + std::to_string(g->line) + ": ";
    const std::string tok = "#" + std::to_string(sid) + "." + std::to_string(seq) + " ";
    const std::string s1 = san(raw1), s2 = san(raw2);
    char num[200];
    u64 strbytes = 0;
    switch (g->shape)
    {
    case SH_NONE:
        it.parts = {"plain"};
        it.none = true;
        break;
    case SH_INT:
        it.parts = {tok + "i"};
        break;
    case SH_NUM:
        std::snprintf(num, sizeof(num), "%d %.3f %s %c", a.i, a.d, a.i & 1 ? "true" : "false", 'a' + (a.i & 15));
        it.parts = {tok + num};
        break;
    case SH_CSTR:
    case SH_SV:
    case SH_STR:
        it.parts = {tok + "[", "]"};
        it.strs = {s1};
        strbytes = raw1.size();
        break;
    case SH_RSTR:
        it.parts = {tok + "[" + s1 + "]"};
        break;
    case SH_TWO:
        it.parts = {tok + "[", "][", "]"};
        it.strs = {s1, s2};
        strbytes = raw1.size() + raw2.size();
        break;
    case SH_THREE:
        it.parts = {tok + "[", "]" + std::to_string(a.i) + "[", "][", "]"};
        it.strs = {s1, s2, s2};
        strbytes = raw1.size() + 2 * raw2.size();
        break;
    case SH_NOCOPY:
        it.parts = {tok + "[" + s2 + "]"};
        break;
    case SH_TRACK:
        it.parts = {tok + "T" + std::to_string(sid * 65536 + seq) + " [", "]"};
        it.strs = {s1};
        strbytes = raw1.size();
        break;
    case SH_ALIGN:
        it.parts = {tok + "A" + std::to_string(a.i + 1)};
        break;
    case SH_BIG:
    case SH_HUGE:
    {
        unsigned h = 0;
        for (int k = 0; k < (g->shape == SH_BIG ? 600 : 3000); ++k)
            h = h * 31 + static_cast<unsigned char>(a.i * 7 + k);
        std::snprintf(num, sizeof(num), "B%d.%x", a.i, h);
        it.parts = {tok + num};
        break;
    }
    case SH_FTHROW:
        it.parts = {tok + "F" + std::to_string(seq) + " [", "]"};
        it.strs = {s1};
        strbytes = raw1.size();
        break;
    case SH_CTHROW:
    case SH_TRSTR:
        it.parts = {tok + "T" + std::to_string(sid * 65536 + seq) + " C" + std::to_string(seq) + " [", "]"};
        it.strs = {s1};
        strbytes = raw1.size();
        break;
    case SH_MOVE:
        it.parts = {tok + "M" + std::to_string(sid * 65536 + seq)};
        break;
    case SH_LIT:
        it.parts = {tok + "[", "]"};
        it.strs = {"literal\\x09text"};
        strbytes = 12;
        break;
    case SH_VEC:
        std::snprintf(num, sizeof(num), "[%d, 2, 3]", a.i);
        it.parts = {tok + num};
        break;
    case SH_MIX:
    {
        unsigned h = 0;
        for (int k = 0; k < 64; ++k)
            h = h * 31 + static_cast<unsigned char>(a.i * 7 + k);
        std::snprintf(num, sizeof(num), "] T%d B%d.%x [", sid * 65536 + seq, a.i, h);
        it.parts = {tok + "[", num + s2 + "] [" + std::to_string(a.i) + ", 2, 3] [", "]"};
        it.strs = {s1, s2};
        strbytes = raw1.size() + raw2.size();
        break;
    }
    case SH_ARR:
    {
        const std::string cut = std::string(raw1.c_str()).substr(0, 47);
        it.parts = {tok + "[", "]"};
        it.strs = {san(cut)};
        strbytes = cut.size();
        break;
    }
    case SH_ALSTR:
        it.parts = {tok + "A" + std::to_string(a.i + 1) + " [", "] T" + std::to_string(sid * 65536 + seq)};
        it.strs = {s1};
        strbytes = raw1.size();
        break;
    case SH_SIX:
        it.parts = {tok + "[", "][", "][", "][", "][", "][", "]"};
        it.strs = {s1, s2, s1, s2, s1, s2};
        strbytes = 3 * (raw1.size() + raw2.size());
        break;
    case SH_FTHROW0:
        it.parts = {tok + "T" + std::to_string(sid * 65536 + seq) + " F" + std::to_string(seq)};
        break;
    }
    it.rec_ub = record_ub(g->shape, strbytes);
    it.may_trunc = it.rec_ub > u64(sut_capacity);
    const u64 outstanding = st->syncs.size() >= 2 ? st->since2 : st->since2;
    it.known_fit = it.nb && it.rec_ub + outstanding <= u64(sut_capacity);
    if (it.none)
        st->has_none = true;
    // two syncs bracket a whole loop of the consumer over its sinks, in which it
    // reads its clock again; a sink that comes or goes meanwhile changes the loop
    it.sync_lo = 0;
    for (std::size_t k = 3; k <= st->syncs.size() && !it.sync_lo; ++k)
    {
        const u64 s = st->syncs[st->syncs.size() - k];
        std::size_t moves = 0;
        for (const Stream* x : streams)
            if (x->logger == st->logger && x != st)
                moves += (x->reg_start <= steps && x->reg_sure >= s) + (x->close_start <= steps && x->close_end >= s);
        if (k >= 3 + moves)
            it.sync_lo = s;
    }
    const bool fthrow = throws && (g->shape == SH_FTHROW || g->shape == SH_FTHROW0);
    const bool cthrow = throws && (g->shape == SH_CTHROW || g->shape == SH_TRSTR);
    it.absent = false;
    it.maybe = true;
    it.t_start = steps;
    it.ns_start = now_ns;
    st->items.push_back(it);
    const std::size_t idx = st->items.size() - 1;
    st->since1 += it.rec_ub;
    st->since2 += it.rec_ub;

    // arguments: strings are overwritten after the call
    char* c1 = static_cast<char*>(arena_alloc(raw1.size() + 1));
    char* c2;
    std::memcpy(c1, raw1.c_str(), raw1.size() + 1);
    static std::deque<std::string> keep;
    if (g->shape == SH_NOCOPY)
    {
        keep.push_back(raw2);
        c2 = const_cast<char*>(keep.back().c_str());
    }
    else
    {
        c2 = static_cast<char*>(arena_alloc(raw2.size() + 1));
        std::memcpy(c2, raw2.c_str(), raw2.size() + 1);
    }
    a.c1 = c1;
    a.c2 = c2;
    void *o1, *o2;
    {
        Sut s;
        o1 = g_str_new(c1, a.l1);
        o2 = g_str_new(c2, a.l2);
    }
    a.s1 = o1;
    a.s2 = o2;
    const u64 al = cur->nalloc, sy = cur->nsys, lk = cur->nlock, pt = cur->npoints, pa = cur->npause;
    (void)pa;
    const u64 s0 = steps;
    if (fthrow || cthrow)
        hx_mark_throw(sid, seq);
    o.busy = true;
    {
        Sut s;
        g->fn(o.p, &a);
    }
    o.busy = false;
    const u64 s1t = steps;
    progress();
    if (it.fatal && a.evaluated)
        fail("fatal-returned", "a fatal statement returned to its caller");
    Item& r = st->items[idx];
    r.t_end = steps;
    r.ns_end = now_ns;
    if (P(15) && !allocates(g->shape))
    {
        if (cur->nalloc != al)
            fail("allocation", "a log statement (shape %d%s, string lengths %ld/%ld) allocated memory on the calling thread", g->shape, g->nonblocking ? ", non-blocking" : "", len1, len2);
        if (cur->nsys != sy)
            fail("syscall", "a log statement (shape %d%s, string lengths %ld/%ld) made a system call on the calling thread", g->shape, g->nonblocking ? ", non-blocking" : "", len1, len2);
        if (cur->nlock != lk)
            fail("lock", "a log statement (shape %d%s, string lengths %ld/%ld) took a lock on the calling thread", g->shape, g->nonblocking ? ", non-blocking" : "", len1, len2);
    }
    if (g->nonblocking && cur->npoints - pt > 80 + 2 * (strbytes / 8 + 1) && !P(4))
        fail("try-blocked", "a non-blocking statement took %lu steps of its thread: it waited", (unsigned long)(cur->npoints - pt));
    // scribble over the sources
    {
        Sut s;
        g_str_scribble(o1);
        g_str_scribble(o2);
        g_str_delete(o1);
        g_str_delete(o2);
    }
    std::memset(c1, '~', raw1.size());
    arena_free(c1);
    if (g->shape != SH_NOCOPY)
    {
        std::memset(c2, '~', raw2.size());
        arena_free(c2);
    }
    // level
    const bool levelled = g->family == F_LOGL || g->family == F_LTS || g->family == F_LRTC || g->family == F_LTSC;
    r.maybe = false;
    if (levelled)
    {
        const unsigned m = level_mask(o, s0, s1t, cur->id);
        bool can_log = false, can_filter = false;
        for (int l = 0; l < 6; ++l)
            if (m >> l & 1)
                (g->level <= l ? can_log : can_filter) = true;
        if (g->shape == SH_NONE)
        {
            if (!can_log)
                r.absent = true;
            else if (can_filter)
                r.maybe = true;
            if (r.absent || r.maybe)
            {
                r.known_fit = false;
                return;
            }
        }
        else if (a.evaluated)
        {
            if (!can_log)
                fail("level", "a statement of level %d was logged although the sink's level (possible values 0x%x) does not admit it", g->level, m);
        }
        else
        {
            if (!can_filter)
                fail("level", "a statement of level %d was filtered although the sink's level (possible values 0x%x) admits it", g->level, m);
            r.absent = true;
            return;
        }
    }
    if (g->shape != SH_NONE && a.evaluated != 1)
        fail("evaluated", "the arguments of a logged statement were evaluated %d times", a.evaluated);
    if (cthrow)
    {
        if (!a.failed && !r.nb)
            fail("exception", "an exception thrown while copying an argument did not reach the caller");
        if (a.failed)
        {
            r.absent = true;
            return;
        }
        return; // non-blocking and dropped before the copy: counted as a drop
    }
    if (a.failed)
        fail("exception", "a log statement threw without reason");
    if (fthrow)
    {
        r.absent = true;
        r.fails = true;
        return;
    }
    r.required = !r.nb;
    if (!r.nb)
        st->pushed += g->shape == SH_BIG ? 600 : g->shape == SH_HUGE ? 3000 : 8;
}


// ---- command channel clients

struct Exchange
{
    int conn = 0; // 0 ok, else -errno
    long sent = 0;
    std::vector<GReply> replies;
    bool eof = false;
    int err = 0;
    bool complete = false; // read to the end
};
// behave: 0 normal, 1 close without reading, 2 read one then close, 3 slow reader, 4 wait before sending
static Exchange exchange(const std::string& path, const std::string& msg, int behave, u64 delay)
{
    Exchange x;
    static int key;
    const int fd = vk::k_socket_connect(path, path.size(), false);
    progress();
    if (fd < 0)
    {
        x.conn = fd;
        return x;
    }
    if (behave == 4)
        block(&key, now_ns + 1 + delay * dt_ns);
    x.sent = vk::k_send(fd, msg.data(), msg.size(), false);
    if (x.sent < 0)
    {
        vk::k_close(fd);
        return x;
    }
    if (behave == 1)
    {
        vk::k_close(fd);
        return x;
    }
    for (;;)
    {
        if (behave == 3)
            block(&key, now_ns + 1 + delay * dt_ns);
        static char buf[4096];
        const long n = vk::k_recv(fd, buf, sizeof(buf), false);
        if (n == 0)
        {
            x.eof = true;
            break;
        }
        if (n < 0)
        {
            x.err = int(n);
            break;
        }
        GReply r;
        {
            Sut s;
            g_parse_reply(buf, std::size_t(n), &r);
        }
        x.replies.push_back(r);
        if (behave == 2)
            break;
        progress();
    }
    x.complete = x.eof;
    vk::k_close(fd);
    progress();
    return x;
}

static const char* const patterns[] = {"", "alpha", "^u", "a", "[", "*", "u?", "ALPHA", "^$", ".*", "\\(", "x[[]1[]]", "beta|Gamma", "nomatch", "a b", "\\(u\\)", "net/*", "(", "u1*", "[a-b]*"};
constexpr int NPAT = int(sizeof(patterns) / sizeof(patterns[0]));
// One in so many requests has a pattern that fills the whole field of the
// frame, without a terminator: the logger has to cut it off
constexpr int NPAT_RAW = NPAT + 1;
static std::string raw_pattern(int type)
{
    std::string s;
    while (s.size() < 256)
        s += type == 3 ? "**" : ".*";
    return s;
}

static u64 chan_faults()
{
    return fault_count[S_recv_fail] + fault_count[S_send_fail] + fault_count[S_accept_fail];
}

static void verify_status(LoggerM* lg, const Cmd& c, const Exchange& x)
{
    std::vector<Stream*> cand;
    for (Stream* st : streams)
        if (st->logger == lg->inst)
            cand.push_back(st);
    std::map<std::string, int> entries;
    for (const GReply& r : x.replies)
    {
        if (r.kind != 1)
            fail("cmd-reply", "status request answered with an unexpected frame (kind %d %s)", r.kind, r.text);
        if (!pat_match(c, r.text))
            fail("cmd-reply", "status for pattern \"%s\" returned sink \"%s\" which does not match", c.pat.c_str(), r.text);
        if (r.capacity != std::size_t(sut_capacity) || r.nbytes > r.capacity)
            fail("cmd-reply", "status returned capacity %zu and fill %zu for a sink of %d bytes", r.capacity, r.nbytes, sut_capacity);
        int may = 0;
        bool lvl = false;
        for (Stream* st : cand)
            if (may_present(*st, c.start, c.end))
                for (const std::string& n : may_names(*st, c.start, c.end))
                    if (n == r.text)
                    {
                        ++may;
                        for (SinkObj& o : S)
                            if (o.p && o.id == st->obj)
                                lvl |= level_mask(o, c.start, c.end, -1) >> r.level & 1;
                        bool have = false;
                        for (SinkObj& o : S)
                            have |= o.p && o.id == st->obj;
                        if (!have)
                            lvl = true; // the sink object is gone: level unknown
                        u64 dr = 0;
                        for (Item& it : st->items)
                            dr += it.nb;
                        (void)dr;
                    }
        if (++entries[r.text] > may)
            fail("cmd-reply", "status returned %d entries for \"%s\" but at most %d such sinks were connected", entries[r.text], r.text, may);
        if (!lvl)
            fail("cmd-reply", "status returned level %d for \"%s\", which it did not have", r.level, r.text);
    }
    std::map<std::string, int> must;
    for (Stream* st : cand)
        if (must_present(*st, c.start, c.end))
        {
            const auto names = may_names(*st, c.start, c.end);
            if (names.size() == 1 && pat_match(c, names[0]))
                ++must[names[0]];
        }
    for (auto& m : must)
        if (entries[m.first] < m.second)
            fail("cmd-reply", "status returned %d entries for \"%s\" but %d such sinks were connected", entries[m.first], m.first.c_str(), m.second);
}

static bool chan_must(LoggerM* lg, u64 s)
{
    // the channel was open from s until now
    return lg->alive && !lg->deleting && !lg->cmd.empty() && lg->cmd_since < s && lg->cmd_until == INF && !lg->crashed;
}

static void do_client(const Op& op)
{
    LoggerM* lg = op.a >= 0 && op.a < NL ? L[op.a] : nullptr;
    if (!lg || lg->cmd.empty() || lg->creating)
        return;
    const std::string path = lg->cmd;
    ++stats.cmds;
    const int behave = int(op.e & 15);
    const u64 delay = u64(op.e >> 4) & 0xfff;
    static char frame[4096];
    Cmd c;
    c.ptype = int(op.c & 3);
    c.icase = int(op.c >> 2 & 1);
    const int pi = int((op.c >> 3) % NPAT_RAW);
    const std::string raw = pi < NPAT ? patterns[pi] : raw_pattern(c.ptype);
    c.pat = raw.substr(0, 255);
    c.start = steps;
    std::string msg;
    const u64 cf0 = chan_faults();
    if (op.code == OP_CL_STATUS || op.code == OP_CL_LEVEL || op.code == OP_CL_REOPEN)
    {
        std::size_t n;
        Sut s;
        if (op.code == OP_CL_STATUS)
            n = g_frame_status(frame, c.ptype, c.icase, raw.c_str(), raw.size());
        else if (op.code == OP_CL_LEVEL)
            n = g_frame_set_level(frame, int(op.b), c.ptype, c.icase, raw.c_str(), raw.size());
        else
            n = g_frame_reopen(frame);
        Host h;
        msg.assign(frame, n);
    }
    Out& o = outs[lg->out];
    Fair fair(lg->inst);
    if (op.code == OP_CL_STATUS)
    {
        c.kind = 0;
        const bool valid = pat_valid(c);
        const Exchange x = exchange(path, msg, behave, delay);
        c.end = steps;
        if (behave == 0)
            fair.check("a status command", 21);
        if (x.conn || x.sent < 0)
        {
            if (chan_must(lg, c.start) && !fault_count[S_connect_fail] && chan_faults() == cf0)
                fail("cmd-connect", "connecting to the command socket of a live logger failed (%d)", x.conn ? -x.conn : int(-x.sent));
            return;
        }
        if (!x.complete)
            return;
        if (chan_faults() != cf0 || !chan_must(lg, c.start))
            return;
        if (!valid)
        {
            if (x.replies.size() != 1 || x.replies[0].kind != 3 || !x.replies[0].text[0])
                fail("cmd-reply", "a request with the invalid pattern \"%s\" was not answered with an error", c.pat.c_str());
            return;
        }
        verify_status(lg, c, x);
    }
    else if (op.code == OP_CL_LEVEL)
    {
        c.kind = 1;
        c.level = int(op.b);
        const bool valid = pat_valid(c) && c.level >= 0 && c.level <= 5;
        c.result = valid ? -1 : 2;
        lg->cmds.push_back(c);
        const std::size_t ci = lg->cmds.size() - 1;
        const Exchange x = exchange(path, msg, behave, delay);
        if (behave == 0)
            fair.check("a level command", 21);
        Cmd& q = lg->cmds[ci];
        if (x.conn || x.sent < 0)
        {
            q.result = 2;
            if (chan_must(lg, c.start) && !fault_count[S_connect_fail] && chan_faults() == cf0)
                fail("cmd-connect", "connecting to the command socket of a live logger failed (%d)", x.conn ? -x.conn : int(-x.sent));
            return;
        }
        if (!x.complete)
            return;
        if (x.replies.size() == 1 && x.replies[0].kind == 2)
        {
            if (!valid)
                fail("cmd-reply", "an invalid set-level request (level %d, pattern \"%s\") succeeded", c.level, c.pat.c_str());
            q.result = 0;
            q.end = steps;
            return;
        }
        if (x.replies.size() == 1 && x.replies[0].kind == 3 && !valid)
        {
            if (!x.replies[0].text[0])
                fail("cmd-reply", "error reply without a reason");
            return;
        }
        if (chan_faults() != cf0 || !chan_must(lg, c.start))
            return;
        fail("cmd-reply", "a set-level request (level %d, pattern \"%s\") was answered with %zu frames, first kind %d", c.level, c.pat.c_str(), x.replies.size(),
            x.replies.empty() ? -1 : x.replies[0].kind);
    }
    else if (op.code == OP_CL_REOPEN)
    {
        c.kind = 2;
        // b: rename the file first
        std::size_t at = INF;
        if (!o.custom && op.b)
        {
            static int rot;
            vk::rename_path(o.path, o.path + "." + std::to_string(rot++));
            ++o.rotations;
        }
        const u64 rot0 = o.rotations;
        if (!o.custom)
        {
            const auto fs = files_of(o);
            vk::Inode* cur_ino = vk::lookup(o.path);
            at = fs.size();
            for (std::size_t i = 0; i < fs.size(); ++i)
                if (fs[i] == cur_ino)
                    at = i;
        }
        const u64 of0 = fault_count[S_open_fail], ro0 = o.cu.reopens;
        const bool can = o.custom || o.kind == 0 || o.kind == 2 || o.kind != 1 && plan->get("l" + std::to_string(op.a) + ".reopen", 1);
        const Exchange x = exchange(path, msg, behave, delay);
        ++stats.reopens;
        if (x.conn || x.sent < 0 || !x.complete)
            return;
        const bool must = chan_must(lg, c.start) && chan_faults() == cf0;
        if (x.replies.size() == 1 && x.replies[0].kind == 2)
        {
            if (!can)
                fail("cmd-reply", "reopen succeeded on a log that has no path");
            if (o.custom)
            {
                if (o.cu.reopens == ro0)
                    fail("cmd-reply", "reopen reported success but the back-end was not asked to reopen");
            }
            else
            {
                if (!vk::lookup(o.path) && op.b && o.rotations == rot0)
                    fail("reopen", "reopen reported success but %s does not exist", o.path.c_str());
                o.reopens.push_back({c.start, steps, at, true});
            }
            return;
        }
        if (x.replies.size() == 1 && x.replies[0].kind == 3)
        {
            if (!x.replies[0].text[0])
                fail("cmd-reply", "error reply without a reason");
            if (can && fault_count[S_open_fail] == of0 && !fault_count[S_storage_reopen_fail] && must)
                fail("cmd-reply", "reopen failed without a reason: %s", x.replies[0].text);
            return;
        }
        if (must)
            fail("cmd-reply", "a reopen request was answered with %zu frames", x.replies.size());
    }
    else if (op.code == OP_CL_JUNK)
    {
        const u64 r = u64(op.d);
        std::size_t n = 0;
        {
            Sut s;
            switch (op.b)
            {
            case 0: n = 0; break;                                  // empty packet
            case 1: n = 1 + r % 7; std::memset(frame, int(r >> 8), n); break; // shorter than a header
            case 2:                                                // unknown frame id
            {
                n = 8 + r % 600;
                std::memset(frame, 0xEE, n);
                break;
            }
            case 3: n = g_frame_status(frame, 0, 0, "", 0); n = n > 9 ? n - 1 - r % (n - 9) : n; break;   // truncated
            case 4: n = g_frame_status(frame, 0, 0, "", 0); std::memset(frame + n, 0, 64); n += 1 + r % 64; break; // too long
            case 5: n = g_frame_set_level(frame, 5, 0, 0, "", 0); n = n > 9 ? n - 1 - r % (n - 9) : n; break;
            case 6: n = g_frame_set_level(frame, 0, 0, 0, "", 0); std::memset(frame + n, 0, 64); n += 1 + r % 64; break;
            default: n = g_frame_reopen(frame); std::memset(frame + n, 0, 300); n += 1 + r % 300; break;
            }
        }
        msg.assign(frame, n);
        const Exchange x = exchange(path, msg, behave, delay);
        if (x.conn || x.sent < 0 || !x.complete || n == 0)
            return;
        if (!chan_must(lg, c.start) || chan_faults() != cf0)
            return;
        if (x.replies.size() != 1 || x.replies[0].kind != 3 || !x.replies[0].text[0])
            fail("cmd-reply", "a malformed request (kind %ld, %zu bytes) was not answered with an error (%zu frames, first kind %d)", op.b, n, x.replies.size(), x.replies.empty() ? -1 : x.replies[0].kind);
    }
    else if (op.code == OP_CL_IDLE)
    {
        // connect and say nothing
        static int key;
        const int fd = vk::k_socket_connect(path, path.size(), false);
        progress();
        if (fd < 0)
            return;
        if (op.b >= 0)
            block(&key, now_ns + 1 + u64(op.b) * dt_ns);
        else // says nothing for as long as the application lives
            for (u64 d = 100; !app_over && !app->dead; d = d < 1000000 ? d * 2 : d)
                block(&key, now_ns + 1 + d * dt_ns);
        vk::k_close(fd);
    }
}

// ---- xtrctl as a process of its own

static const char* level_name(int l)
{
    static const char* const n[] = {"none", "fatal", "error", "warning", "info", "debug"};
    return n[l];
}
static void std_fds(Proc* p);

// a logger, b command kind, c pattern bits, d level / variant
static void do_xtrctl(const Op& op)
{
    LoggerM* lg = op.a >= 0 && op.a < NL ? L[op.a] : nullptr;
    if (lg && (lg->creating || lg->cmd.empty()))
        lg = nullptr;
    std::vector<std::string> av{"xtrctl"};
    Cmd c;
    int expect = 0; // 0 status, 1 level, 2 reopen, 3 usage error, 4 help
    const std::string path = lg ? lg->cmd : "/tmp/none";
    c.ptype = int(op.c & 3);
    c.pat = patterns[(op.c >> 3) % NPAT];
    const bool nopat = c.ptype == 0;
    auto pat_args = [&]
    {
        if (nopat)
            return;
        static const char* const sh[] = {"", "-E", "-G", "-W"};
        static const char* const lo[] = {"", "--extended-regexp", "--basic-regexp", "--wildcard"};
        if (!(c.ptype == 2 && (op.d >> 4 & 1)))
            av.push_back((op.d >> 5 & 1) ? lo[c.ptype] : sh[c.ptype]);
        av.push_back(c.pat);
    };
    const int lev = int(op.d & 7) % 6;
    c.level = lev;
    switch (op.b)
    {
    case 0:
        av.push_back("status");
        pat_args();
        av.push_back(path);
        expect = 0;
        break;
    case 1:
        av.push_back("level");
        av.push_back(level_name(lev));
        pat_args();
        av.push_back(path);
        expect = 1;
        break;
    case 2:
        av.push_back("reopen");
        av.push_back(path);
        expect = 2;
        break;
    case 3:
        av.push_back("level");
        av.push_back("loud");
        av.push_back(path);
        expect = 3;
        break;
    case 4:
        av.push_back("status");
        av.push_back("a");
        av.push_back("b");
        av.push_back(path);
        expect = 3;
        break;
    case 5:
        av.push_back("frobnicate");
        av.push_back(path);
        expect = 3;
        break;
    case 6:
        av.push_back("status");
        av.push_back("-W");
        av.push_back(path);
        expect = 3;
        break;
    case 7:
        av.push_back("--help");
        expect = 4;
        break;
    case 8:
        expect = 3;
        break;
    case 9:
        av.push_back("reopen");
        av.push_back("x");
        av.push_back(path);
        expect = 3;
        break;
    case 10:
        av.push_back("status");
        av.push_back("--bogus");
        av.push_back(path);
        expect = 3;
        break;
    default:
        av.push_back("level");
        expect = 3;
        break;
    }
    if (c.pat.empty() && !nopat && expect < 2)
        return; // an empty argument is legal but its meaning is not documented
    ++stats.cmds;
    c.kind = expect == 1 ? 1 : 0;
    c.start = steps;
    const bool valid = nopat || pat_valid(c);
    c.result = expect == 1 && !valid ? 2 : -1;
    std::size_t ci = 0;
    if (lg && expect == 1)
    {
        lg->cmds.push_back(c);
        ci = lg->cmds.size() - 1;
    }
    const u64 cf0 = chan_faults() + fault_count[S_connect_fail] + fault_count[S_sock_fail];
    const u64 of0 = fault_count[S_open_fail];
    Proc* p = new_proc();
    std_fds(p);
    static std::vector<char*> argv; // one xtrctl at a time
    static std::vector<std::vector<char>> store;
    store.clear();
    argv.clear();
    for (const std::string& s : av)
        store.push_back(std::vector<char>(s.c_str(), s.c_str() + s.size() + 1));
    for (auto& s : store)
        argv.push_back(s.data());
    argv.push_back(nullptr);
    // every xtrctl is a new process: reset getopt's hidden state
    optind = 0;
    char dummy[] = "x";
    char* none[] = {dummy, nullptr};
    ::getopt(1, none, "");
    opterr = 0;
    int status = -1;
    const int argc = int(av.size());
    Fiber* f = spawn("xtrctl", p, [&]
    {
        int r;
        {
            Sut s;
            r = g_xtrctl(argc, argv.data());
        }
        status = r;
        p->exited = true;
        kill_proc(p, r);
    });
    join(f);
    progress();
    status = p->status;
    c.end = steps;
    if (!p->exited)
        return; // killed by something else
    const bool must = lg && chan_must(lg, c.start) && chan_faults() + fault_count[S_connect_fail] + fault_count[S_sock_fail] == cf0;
    const std::string& out = p->out;
    if (status != 0 && p->err.empty() && out.empty())
        fail("xtrctl", "xtrctl failed with status %d but printed no reason", status);
    if (status == 0 && p->sockerr && out.find("Success") == std::string::npos)
        fail("xtrctl", "xtrctl exited with status 0 although its connection failed");
    if (expect == 3)
    {
        if (status == 0)
            fail("xtrctl", "xtrctl accepted an invalid command line (%s)", av.size() > 1 ? av[1].c_str() : "");
        return;
    }
    if (expect == 4)
    {
        if (status != 0 || out.find("Usage") == std::string::npos)
            fail("xtrctl", "xtrctl --help failed");
        return;
    }
    if (expect == 1 && lev == 0)
    {
        // "none" may be rejected as an unknown level
        if (lg)
        {
            Cmd& q = lg->cmds[ci];
            if (status != 0)
                q.result = 2;
            else
                q.result = 0, q.end = steps;
        }
        return;
    }
    if (!lg)
    {
        if (status == 0)
            fail("xtrctl", "xtrctl succeeded although nothing listens at the path");
        return;
    }
    if (expect == 1)
    {
        Cmd& q = lg->cmds[ci];
        if (status == 0)
        {
            if (out != "Success\n")
                fail("xtrctl", "xtrctl level exited with status 0 but printed \"%s\"", clip(out).c_str());
            if (!valid)
                fail("xtrctl", "xtrctl level succeeded with the invalid pattern \"%s\"", c.pat.c_str());
            q.result = 0;
            q.end = steps;
        }
        else if (must && valid)
            fail("xtrctl", "xtrctl level %s failed: %s", level_name(lev), clip(p->err + out).c_str());
    }
    else if (expect == 2)
    {
        Out& o = outs[lg->out];
        const bool can = o.custom || o.kind == 0 || o.kind == 2 || o.kind != 1 && plan->get("l" + std::to_string(op.a) + ".reopen", 1);
        if (status == 0)
        {
            if (out != "Success\n")
                fail("xtrctl", "xtrctl reopen exited with status 0 but printed \"%s\"", clip(out).c_str());
            if (!can)
                fail("xtrctl", "xtrctl reopen succeeded on a log that has no path");
        }
        else if (must && can && fault_count[S_open_fail] == of0 && !fault_count[S_storage_reopen_fail])
            fail("xtrctl", "xtrctl reopen failed: %s", clip(p->err + out).c_str());
    }
    else
    {
        if (status == 0)
        {
            // a connection lost before the reply cannot be told from an empty reply
            if (!valid && (must || !out.empty()))
                fail("xtrctl", "xtrctl status succeeded with the invalid pattern \"%s\"", c.pat.c_str());
            Exchange x;
            std::size_t pos = 0;
            std::string prev;
            while (pos < out.size())
            {
                std::size_t nl = out.find('\n', pos);
                if (nl == std::string::npos)
                    fail("xtrctl", "incomplete output line");
                const std::string ln = out.substr(pos, nl - pos);
                pos = nl + 1;
                const std::size_t q = ln.rfind(" (");
                char lv[32] = "";
                unsigned long cap = 0, used = 0, dr = 0;
                int n = 0;
                if (q == std::string::npos || std::sscanf(ln.c_str() + q, " (%31[a-z]) %luK capacity, %luK used, %lu dropped%n", lv, &cap, &used, &dr, &n) != 4 || q + std::size_t(n) != ln.size())
                    fail("xtrctl", "malformed status line \"%s\"", clip(ln).c_str());
                GReply r{};
                r.kind = 1;
                r.level = -1;
                for (int l = 0; l < 6; ++l)
                    if (!std::strcmp(lv, level_name(l)))
                        r.level = l;
                if (r.level < 0)
                    fail("xtrctl", "malformed status line \"%s\"", clip(ln).c_str());
                r.capacity = cap * 1024;
                r.nbytes = used * 1024;
                std::snprintf(r.text, sizeof(r.text), "%s", ln.substr(0, q).c_str());
                if (!x.replies.empty() && std::string(r.text) < prev)
                    fail("xtrctl", "status lines are not sorted by name");
                prev = r.text;
                x.replies.push_back(r);
            }
            Cmd c2 = c;
            if (nopat)
                c2.ptype = 0;
            if (must)
                verify_status(lg, c2, x);
        }
        else if (must && valid)
            fail("xtrctl", "xtrctl status failed: %s", clip(p->err + out).c_str());
    }
}

// ---- direct storage (C09)

static void* stg;
static std::string stg_expect;   // bytes submitted since the last reopen
static std::vector<std::pair<std::size_t, std::size_t>> stg_ranges;
static u64 stg_n;
static std::size_t stg_start;
static vk::Inode* stg_file;
static u64 stg_hard0;

static u64 hard_uring() { return fault_count[S_uring_eio] + fault_count[S_uring_submit_fail]; }

static bool stg_append;
static void stg_check(const char* when)
{
    if (!stg_file)
        return;
    ++stats.checks;
    const std::string want = stg_expect;
    const std::string& d = stg_file->data;
    if (d.size() < stg_start)
        fail("storage", "%s: bytes present before logging began are gone", when);
    if (hard_uring() == stg_hard0)
    {
        if (verbose)
            std::fprintf(stderr, "FILE [%s]\nWANT [%s]\n", d.c_str(), want.c_str());
        if (d.size() != stg_start + want.size())
            fail("storage", "%s: the file has %zu bytes, expected %zu (%zu buffers submitted)", when, d.size() - stg_start, want.size(), stg_ranges.size());
        if (d.compare(stg_start, std::string::npos, want) != 0)
        {
            std::size_t i = 0;
            while (d[stg_start + i] == want[i])
                ++i;
            fail("storage", "%s: the file differs from what was submitted at byte %zu of %zu", when, i, want.size());
        }
        return;
    }
    const u64 hard = hard_uring() - stg_hard0;
    if (stg_append)
    {
        // appended: the file is the concatenation of the buffers whose
        // writes did not fail
        std::map<std::size_t, u64> at{{stg_start, 0}}; // position -> least number left out
        for (auto& r : stg_ranges)
        {
            std::map<std::size_t, u64> nx;
            auto put = [&](std::size_t pos, u64 n)
            {
                if (n > hard)
                    return;
                auto it = nx.emplace(pos, n).first;
                it->second = std::min(it->second, n);
            };
            for (auto& a : at)
            {
                put(a.first, a.second + 1);
                if (d.compare(a.first, r.second, want, r.first, r.second) == 0)
                    put(a.first + r.second, a.second);
            }
            at.swap(nx);
        }
        if (!at.count(d.size()))
            fail("storage", "%s: the file is not made up of the buffers submitted (%lu writes failed)", when, (unsigned long)hard);
        const u64 lost = at[d.size()];
        if (lost && count_in(app->err, "failed") < lost)
            fail("error-report", "%lu buffers were lost but only %zu failures were reported", (unsigned long)lost, count_in(app->err, "failed"));
        return;
    }
    // each failed write costs only its own bytes: every buffer is wholly
    // right, or (if its write failed) absent, zero or a prefix
    u64 badbuf = 0;
    for (auto& r : stg_ranges)
    {
        bool ok = d.size() >= stg_start + r.first + r.second && d.compare(stg_start + r.first, r.second, want, r.first, r.second) == 0;
        if (!ok)
        {
            ++badbuf;
            bool part = true;
            bool tail = false;
            for (std::size_t i = 0; i < r.second && stg_start + r.first + i < d.size(); ++i)
            {
                const char ch = d[stg_start + r.first + i];
                if (ch == want[r.first + i] && !tail)
                    continue;
                if (ch == '\0')
                {
                    tail = true;
                    continue;
                }
                part = false;
            }
            if (!part)
                fail("storage", "%s: a failed write corrupted other bytes", when);
        }
    }
    if (d.size() > stg_start + want.size())
        fail("storage", "%s: the file is longer than what was submitted", when);
    if (badbuf > hard)
        fail("storage", "%s: %lu buffers are wrong but only %lu writes failed", when, (unsigned long)badbuf, (unsigned long)hard);
    if (badbuf && count_in(app->err, "failed") < badbuf)
        fail("error-report", "%lu buffers were lost but only %zu failures were reported", (unsigned long)badbuf, count_in(app->err, "failed"));
}

static void do_storage(const Op& op)
{
    static char err[512];
    switch (op.code)
    {
    case OP_ST_NEW:
    {
        if (stg)
            return;
        GLogger g{};
        g.kind = int(C("st.kind", 4));
        const std::string path = "/log/S.log";
        vk::Inode* ino = vk::lookup(path);
        if (!ino)
            ino = vk::create_file(path, std::string(std::size_t(C("st.pre")), 'p'));
        g.path = "/log/S.log";
        g.fd = vk::open_fd(app, ino, O_WRONLY | (C("st.append") ? O_APPEND : 0));
        stg_start = ino->data.size();
        vk::table(app).fd[std::size_t(g.fd)]->pos = stg_start;
        g.bufcap = std::size_t(C("st.bufcap", 64));
        g.queue = std::size_t(C("st.queue", 4));
        g.batch = std::size_t(C("st.batch", 2));
        stg_file = ino;
        stg_append = C("st.append");
        stg_expect.clear();
        stg_ranges.clear();
        stg_hard0 = hard_uring();
        {
            Sut s;
            stg = g_storage_new(&g, err, sizeof(err));
        }
        if (!stg)
        {
            stg_file = nullptr;
            if (!C("ctor.mayfail"))
                fail("ctor-failed", "creating the storage failed without a fault: %s", err);
        }
        break;
    }
    case OP_ST_PUT:
    {
        if (!stg)
            return;
        for (long k = 0; k < op.b; ++k)
        {
            const std::string d = make_text(int(stg_n), 0, 3, op.a, 0);
            std::size_t taken = 0;
            int r;
            char* c = static_cast<char*>(arena_alloc(d.size() + 1));
            std::memcpy(c, d.data(), d.size());
            {
                Sut s;
                r = g_storage_put(stg, c, d.size(), &taken);
            }
            arena_free(c);
            progress();
            ++stg_n;
            if (taken == 0 || taken > d.size())
                fail("storage", "allocate_buffer returned an empty buffer");
            if (r)
            {
                if (C("st.kind", 4) == 4)
                    fail("exception", "submit_buffer threw");
                continue;
            }
            stg_ranges.push_back({stg_expect.size(), taken});
            stg_expect += d.substr(0, taken);
        }
        break;
    }
    case OP_ST_FLUSH:
        if (stg)
        {
            Sut s;
            g_storage_flush(stg);
        }
        break;
    case OP_ST_SYNC:
        if (stg)
        {
            {
                Sut s;
                g_storage_flush(stg);
                g_storage_sync(stg);
            }
            progress();
            stg_check("after sync");
            if (!fault_count[S_fsync_fail] && hard_uring() == stg_hard0 && stg_file->durable != stg_file->data)
                fail("not-durable", "after sync the file's contents are not durable");
        }
        break;
    case OP_ST_REOPEN:
        if (stg)
        {
            vk::rename_path("/log/S.log", "/log/S.log." + std::to_string(stg_n) + "." + std::to_string(steps));
            const u64 of0 = fault_count[S_open_fail];
            int r;
            {
                Sut s;
                g_storage_flush(stg);
                r = g_storage_reopen(stg);
            }
            progress();
            if (r)
            {
                if (fault_count[S_open_fail] == of0)
                    fail("storage", "reopen failed with %d without a fault", r);
                return;
            }
            // the old file must be complete once the next sync has finished
            vk::Inode* old = stg_file;
            const std::string want = stg_expect;
            const std::size_t start = stg_start;
            const u64 h0 = stg_hard0;
            const auto ranges = stg_ranges;
            {
                Sut s;
                g_storage_sync(stg);
            }
            {
                const auto nf = stg_file;
                stg_file = old;
                stg_check("after reopen and sync");
                stg_file = nf;
            }
            (void)want; (void)start; (void)h0; (void)ranges;
            stg_file = vk::lookup("/log/S.log");
            if (!stg_file)
                fail("storage", "reopen succeeded but the path does not exist");
            stg_start = 0;
            stg_append = true;
            stg_expect.clear();
            stg_ranges.clear();
            stg_hard0 = hard_uring();
        }
        break;
    case OP_ST_DEL:
        if (stg)
        {
            {
                Sut s;
                g_storage_delete(stg);
            }
            stg = nullptr;
            progress();
            stg_check("after destruction");
        }
        break;
    }
}

// ---- direct ring (C06)

static void* ring;
static int ring_kind;
static u64 ring_w, ring_r;      // bytes written / read so far (model)
static std::size_t reading;     // bytes a read in progress may release
static std::size_t ring_cap;
static u64 ring_tries, ring_drops;
static bool ring_done;
static unsigned char pattern(u64 i) { return static_cast<unsigned char>((i * 2654435761u) >> 13 ^ i); }

static void ring_write(const Op& op)
{
    static unsigned char buf[70000];
    const std::size_t n = std::min<std::size_t>(std::size_t(op.a), ring_cap);
    const std::size_t min = std::min<std::size_t>(std::size_t(op.b), ring_cap);
    const int mode = int(op.c);
    for (std::size_t i = 0; i < n; ++i)
        buf[i] = pattern(ring_w + i);
    std::size_t span = 0, off = 0;
    int w;
    const u64 r0 = ring_r;
    const u64 pt = cur->npoints;
    {
        Sut s;
        w = g_ring_write(ring_kind, ring, mode, min, buf, n, &span, &off);
    }
    progress();
    ++ring_tries;
    const bool nb = mode & 1;
    if (nb && cur->npoints - pt > 40)
        fail("try-blocked", "a non-blocking write waited (%lu steps)", (unsigned long)(cur->npoints - pt));
    if (span == 0)
    {
        if (nb && min)
            ++ring_drops;
        if (!nb && min)
            fail("ring", "a blocking write returned an empty span");
        (void)r0;
        return;
    }
    if (span < min)
        fail("ring", "write span of %zu bytes is smaller than the %zu required", span, min);
    // free space never exceeds what the reader has released
    const u64 gone = std::min<u64>(ring_r + reading, ring_w);
    if (span > ring_cap - (ring_w - gone))
        fail("ring", "write span of %zu bytes but only %lu are free", span, (unsigned long)(ring_cap - (ring_w - gone)));
    if (off != ring_w % ring_cap)
        fail("ring", "write span begins at offset %zu instead of %lu", off, (unsigned long)(ring_w % ring_cap));
    ring_w += u64(w);
}
static void run_ring(const Plan& p)
{
    ring_kind = int(C("ring.kind"));
    static char err[256];
    {
        Sut s;
        ring = g_ring_new(ring_kind, std::size_t(C("ring.cap", 4096)), err, sizeof(err));
        if (ring)
            ring_cap = g_ring_capacity(ring_kind, ring);
    }
    if (!ring)
        fail("ctor-failed", "creating a ring buffer failed: %s", err);
    if (ring_cap < std::size_t(ring_kind == 0 ? 4096 : ring_kind == 1 ? 65536 : C("ring.cap", 4096)) || (ring_cap & (ring_cap - 1)))
        fail("ring", "unexpected capacity %zu", ring_cap);
    std::vector<Op> w, r;
    for (const Op& o : p.ops)
        (o.code == OP_RB_WRITE ? w : r).push_back(o);
    ring_done = false;
    Fiber* fw = nullptr;
    Fiber* fr = spawn("reader", app, [&]
    {
        std::size_t i = 0;
        for (;;)
        {
            const bool fin = ring_done;
            if (fin)
                join(fw); // what the writer did now happens before the read
            Op o;
            if (i < r.size())
                o = r[i++];
            else
                o.a = 1 << 20;
            // bytes are released inside the call: until it returns the model
            // allows the writer the most this call can release
            static unsigned char out[140000];
            const std::size_t want = std::min<std::size_t>(std::size_t(o.a), sizeof(out));
            std::size_t span = 0, off = 0, n;
            const u64 r0 = ring_r;
            reading = want;
            {
                Sut s;
                n = g_ring_read(ring_kind, ring, out, want, &span, &off);
            }
            reading = 0;
            ring_r = r0 + n;
            if (n)
                progress();
            if (span > ring_cap)
                fail("ring", "read span of %zu bytes exceeds the capacity", span);
            if (n && off != r0 % ring_cap)
                fail("ring", "read span begins at offset %zu instead of %lu", off, (unsigned long)(r0 % ring_cap));
            if (r0 + n > ring_w && ring_done)
                fail("ring", "more bytes were read (%lu) than written (%lu)", (unsigned long)(r0 + n), (unsigned long)ring_w);
            for (std::size_t k = 0; k < n; ++k)
                if (out[k] != pattern(r0 + k))
                    fail("ring", "byte %lu read as %02x instead of %02x", (unsigned long)(r0 + k), out[k], pattern(r0 + k));
            if (fin && n == 0)
            {
                if (ring_r != ring_w)
                    fail("ring", "%lu bytes were written but %lu were read", (unsigned long)ring_w, (unsigned long)ring_r);
                break;
            }
            if (!n)
                yield_now(60);
        }
    });
    fw = spawn("writer", app, [&]
    {
        for (const Op& o : w)
        {
            ++stats.ops;
            ring_write(o);
        }
        ring_done = true;
    });
    join(fw);
    join(fr);
    u64 dropped;
    {
        Sut s;
        dropped = g_ring_dropped(ring_kind, ring);
    }
    if (dropped != ring_drops)
        fail("drop-count", "%lu writes were refused but %lu counted as dropped", (unsigned long)ring_drops, (unsigned long)dropped);
    {
        Sut s;
        g_ring_clear(ring_kind, ring);
        std::size_t span = 0, off = 0;
        static unsigned char b[8];
        g_ring_read(ring_kind, ring, b, 8, &span, &off);
        if (span)
            fail("ring", "a cleared ring is not empty");
        g_ring_write(ring_kind, ring, 1, 0, b, 0, &span, &off);
        if (span != ring_cap || off != 0)
            fail("ring", "a cleared ring does not offer its whole capacity");
        g_ring_delete(ring_kind, ring);
    }
}

// ---- one operation

static void do_op(int t, const Op& op)
{
    ++stats.ops;
    last_useful = steps;
    static char err[512];
    if (verbose)
        std::fprintf(stderr, "[%lu] %s: %s %ld %ld %ld %ld %ld\n", (unsigned long)steps, cur->name.c_str(), op_names[op.code], op.a, op.b, op.c, op.d, op.e);
    switch (op.code)
    {
    case OP_NEW_LOGGER:
        do_new_logger(t, op.a);
        break;
    case OP_DEL_LOGGER:
        do_del_logger(t, op.a);
        break;
    case OP_GET_SINK: // a logger, b slot, c name
    {
        LoggerM* lg = usable(op.a);
        if (!lg || op.b < 0 || op.b >= NS || S[op.b].p || S[op.b].busy)
            return;
        UseLogger u(lg);
        SinkObj& o = S[op.b];
        o.busy = true;
        const std::string name = fresh_name(op.c);
        Stream* st = new_stream(lg->inst, name);
        void* p;
        const u64 s0 = steps;
        Fair fair(lg->inst);
        {
            Sut s;
            p = g_logger_get_sink(lg->p, name.c_str(), err, sizeof(err));
        }
        fair.check("get_sink()");
        progress();
        if (!p)
        {
            o.busy = false;
            st->close_start = st->close_end = steps;
            if (!C("ctor.mayfail"))
                fail("exception", "get_sink threw: %s", err);
            return;
        }
        const unsigned m = possible(lg->deflev, s0, steps, cur->id, 0);
        obj_init(o, p, t);
        o.open = true;
        o.st = st;
        st->obj = o.id;
        o.streams.push_back(st);
        o.lev.push_back({m, s0, steps, cur->id, true});
        break;
    }
    case OP_NEW_SINK: // a slot, b level (-1 default)
    {
        if (op.a < 0 || op.a >= NS || S[op.a].p || S[op.a].busy)
            return;
        S[op.a].busy = true;
        void* p;
        {
            Sut s;
            p = g_sink_new(int(op.b), op.b < 0, err, sizeof(err));
        }
        S[op.a].busy = false;
        if (!p)
        {
            if (!C("ctor.mayfail"))
                fail("exception", "creating a sink threw: %s", err);
            return;
        }
        obj_init(S[op.a], p, t);
        S[op.a].lev.push_back({1u << (op.b < 0 ? 4 : op.b), 0, steps, cur->id, true});
        break;
    }
    case OP_REG: // a logger, b slot, c name
    {
        LoggerM* lg = usable(op.a);
        if (!lg || !own(t, op.b) || S[op.b].open)
            return;
        UseLogger u(lg);
        SinkObj& o = S[op.b];
        const std::string name = fresh_name(op.c);
        Stream* st = new_stream(lg->inst, name);
        st->obj = o.id;
        o.busy = true;
        o.streams.push_back(st);
        o.st = st;
        o.open = true;
        int r;
        {
            Sut s;
            r = g_logger_register(lg->p, o.p, name.c_str());
        }
        o.busy = false;
        progress();
        if (r)
            fail("exception", "register_sink threw");
        break;
    }
    case OP_COPY: // a source, b destination
    {
        if (!own(t, op.a) || op.b < 0 || op.b >= NS || S[op.b].p || S[op.b].busy)
            return;
        SinkObj& src = S[op.a];
        SinkObj& o = S[op.b];
        o.busy = src.busy = true;
        Stream* st = src.open ? new_stream(src.st->logger, src.st->names.back().name) : nullptr;
        if (st)
            src.st->since1 += 128, src.st->since2 += 128;
        const u64 s0 = steps;
        void* p;
        {
            Sut s;
            p = g_sink_copy(src.p, err, sizeof(err));
        }
        src.busy = o.busy = false;
        progress();
        if (!p)
        {
            if (st)
                st->close_start = st->close_end = steps;
            if (!C("ctor.mayfail"))
                fail("exception", "copying a sink threw: %s", err);
            return;
        }
        const unsigned m = level_mask(src, s0, steps, cur->id);
        obj_init(o, p, t);
        o.open = st != nullptr;
        o.st = st;
        if (st)
        {
            st->obj = o.id;
            o.streams.push_back(st);
        }
        o.lev.push_back({m, s0, steps, cur->id, true});
        bool open;
        {
            Sut s;
            open = g_sink_is_open(p);
        }
        if (open != (st != nullptr))
            fail("is-open", "a copy of %s sink reports is_open()=%d", st ? "an open" : "a closed", open);
        break;
    }
    case OP_ASSIGN: // a destination, b source
    {
        if (!own(t, op.a) || !own(t, op.b))
            return;
        SinkObj &o = S[op.a], &src = S[op.b];
        if (&o == &src)
        {
            Sut s;
            g_sink_assign(o.p, o.p);
            return;
        }
        pre_close(o);
        o.busy = src.busy = true;
        Stream* st = src.open ? new_stream(src.st->logger, src.st->names.back().name) : nullptr;
        if (st)
            src.st->since1 += 128, src.st->since2 += 128, st->obj = o.id;
        Stream* old = o.st;
        const bool was = o.open;
        if (st)
            o.streams.push_back(st);
        const u64 s0 = steps;
        // the level changes at some moment during the call
        o.lev.push_back({level_mask(src, s0, s0, cur->id), s0, INF, cur->id, true});
        const std::size_t li = o.lev.size() - 1;
        int r;
        {
            Sut s;
            r = g_sink_assign(o.p, src.p);
        }
        o.busy = src.busy = false;
        progress();
        if (r)
            fail("exception", "assigning a sink threw");
        if (was)
        {
            o.st = old;
            set_closed(o);
        }
        o.lev[li].mask = level_mask(src, s0, steps, cur->id);
        o.lev[li].end = steps;
        o.open = st != nullptr;
        o.st = st;
        break;
    }
    case OP_CLOSE:
        if (own(t, op.a))
            do_close(S[op.a]);
        break;
    case OP_DEL:
        if (own(t, op.a) && !S[op.a].users)
            do_del(S[op.a]);
        break;
    case OP_SYNC:
    {
        if (!own(t, op.a) || !S[op.a].open)
            return;
        SinkObj& o = S[op.a];
        Stream* st = o.st;
        const u64 s0 = steps;
        const std::size_t n = st->items.size();
        st->since1 += 128;
        st->since2 += 128;
        o.busy = true;
        int r;
        Fair fair(st->logger);
        {
            Sut s;
            r = g_sink_sync(o.p);
        }
        fair.check("sync()");
        o.busy = false;
        progress();
        ++stats.syncs;
        if (r)
            fail("exception", "sync threw");
        st->since2 = st->since1;
        st->since1 = 0;
        st->syncs.push_back(s0);
        st->synced = n;
        if (st->reg_sure == INF)
            st->reg_sure = steps;
        for (NameAt& na : st->names)
            if (na.sure == INF)
                na.sure = steps;
        for (std::size_t i = 0; i < n; ++i)
            if (st->items[i].deadline == INF)
                st->items[i].deadline = steps;
        if (C("chk.sync", 1) && !C("err.mode") && !C("uring.hard"))
        {
            check_stream(st, n, false, "sync() returned");
            if (C("chk.durable") && !outs[st->out].custom)
                check_stream(st, n, true, "sync() returned");
        }
        break;
    }
    case OP_NAME: // a slot, b name
    {
        if (!own(t, op.a) || !S[op.a].open)
            return;
        SinkObj& o = S[op.a];
        const std::string n = fresh_name(op.b);
        o.st->names.push_back({n, steps, INF});
        use_name(o.st, n);
        o.st->since1 += 160;
        o.st->since2 += 160;
        o.busy = true;
        int r;
        {
            Sut s;
            r = g_sink_set_name(o.p, n.c_str());
        }
        o.busy = false;
        progress();
        if (r)
            fail("exception", "set_name threw");
        break;
    }
    case OP_SETLEVEL: // a slot, b level; any thread
    case OP_GETLEVEL:
    {
        if (op.a < 0 || op.a >= NS || !S[op.a].p)
            return;
        SinkObj& o = S[op.a];
        if (o.deleting || (o.busy && o.owner == -1))
            return;
        if (op.code == OP_SETLEVEL && o.lev.size() > 200)
            return;
        ++o.users;
        acquire_from(o.born);
        const u64 s0 = steps;
        if (op.code == OP_SETLEVEL)
        {
            o.lev.push_back({1u << op.b, s0, INF, cur->id, true});
            const std::size_t i = o.lev.size() - 1;
            {
                Sut s;
                g_sink_set_level(o.p, int(op.b));
            }
            o.lev[i].end = steps;
        }
        else
        {
            int l;
            {
                Sut s;
                l = g_sink_level(o.p);
            }
            const unsigned m = level_mask(o, s0, steps, cur->id);
            if (!(m >> l & 1))
                fail("level", "level() returned %d but the possible values are 0x%x", l, m);
        }
        release_to(o.foreign);
        --o.users;
        break;
    }
    case OP_LOG: // a slot, b statement, c repeat, d length 1, e: length 2 | charset << 16 | throw << 24
    {
        for (long i = 0; i < op.c; ++i)
        {
            if (!own(t, op.a) || !S[op.a].open)
                return;
            log_one(t, S[op.a], int(op.b), op.d, op.e & 0xffff, op.e >> 16 & 0xff, int(op.e >> 24 & 1));
        }
        break;
    }
    case OP_FATAL: // a slot, b which
    {
        if (!own(t, op.a) || !S[op.a].open)
            return;
        int k = 0;
        for (int i = 0; i < nstmts(); ++i)
            if (stmt(i).level == 1 && k++ == op.b % 5)
                log_one(t, S[op.a], i, 10, 10, 0, 0);
        break;
    }
    case OP_GIVE: // a slot, b thread
        if (own(t, op.a) && thr.count(int(op.b)) && !thr[int(op.b)].done && !thr[int(op.b)].waiting && !thr[int(op.b)].client && op.b < 100 * (phase + 1))
        {
            SinkObj& o = S[op.a];
            release_to(o.born);
            o.owner = int(op.b);
            // the receiver synchronises when it first uses the sink
        }
        break;
    case OP_STYLE: // a logger, b style
    {
        LoggerM* lg = usable(op.a);
        if (!lg)
            return;
        UseLogger u(lg);
        lg->style.push_back({1u << (op.b % 3), steps, INF, cur->id, true});
        const std::size_t i = lg->style.size() - 1;
        int r;
        {
            Sut s;
            r = g_logger_set_style(lg->p, int(op.b % 3));
        }
        lg->style[i].end = steps;
        progress();
        if (r)
            fail("exception", "set_log_level_style threw");
        break;
    }
    case OP_DEFLEVEL:
    {
        LoggerM* lg = usable(op.a);
        if (!lg)
            return;
        UseLogger u(lg);
        lg->deflev.push_back({1u << (op.b % 6), steps, INF, cur->id, true});
        const std::size_t i = lg->deflev.size() - 1;
        {
            Sut s;
            g_logger_set_default_level(lg->p, int(op.b % 6));
        }
        lg->deflev[i].end = steps;
        break;
    }
    case OP_CMDPATH: // a logger, b kind: 0 fresh, 1 used by a file, 2 used by another logger, 3 too long, 4 missing directory, 5 none
    {
        LoggerM* lg = usable(op.a);
        if (!lg)
            return;
        UseLogger u(lg);
        static int n;
        std::string path;
        LoggerM* owner = nullptr;
        switch (op.b)
        {
        case 1:
            path = "/tmp/occupied" + std::to_string(n++);
            vk::create_file(path, "x");
            break;
        case 2:
            // the path may become free meanwhile and then be lg's: clients
            // would not know which logger they talk to
            for (const Op& x : plan->ops)
                if ((x.code >= OP_CL_STATUS && x.code <= OP_CL_IDLE) || x.code == OP_XTRCTL)
                    return;
            for (LoggerM* o : loggers)
                if (o != lg && o->alive && !o->cmd.empty())
                    path = o->cmd, owner = o;
            break;
        case 3:
            path = "/tmp/" + std::string(120, 'x');
            break;
        case 4:
            path = "/nodir/sock";
            break;
        case 5:
        {
            const char* p;
            Sut s;
            const std::size_t k = g_null_path(&p);
            Host h;
            path.assign(p, k);
            break;
        }
        default:
            path = "/tmp/sock" + std::to_string(n++);
        }
        if (path.empty() && op.b == 2)
            return;
        const std::string old = lg->cmd;
        vk::Inode* own_old = old.empty() ? nullptr : vk::lookup(old);
        vk::Inode* victim = vk::lookup(path);
        lg->cmd_until = steps;
        const int only = lg->users; // 1: nobody else is calling the logger
        const bool steady = owner && owner->users == 0 && !owner->deleting;
        const std::size_t err0 = app->err.size();
        const std::size_t nb = vk::bind_log.size();
        int r;
        {
            Sut s;
            r = g_logger_set_command_path(lg->p, path.data(), path.size());
        }
        progress();
        if (r)
            fail("exception", "set_command_path threw");
        if (only == 1 && lg->users == 1)
        {
            vk::Inode* now = vk::lookup(path);
            bool bound = false; // and not by another logger
            for (std::size_t i = nb; i < vk::bind_log.size(); ++i)
                bound |= vk::bind_log[i].ok && vk::bind_log[i].path == path &&
                         (vk::bind_log[i].fiber == lg->consumer || vk::bind_log[i].fiber == cur->id);
            const bool ok = bound && now && now->type == vk::Inode::sock && now != victim && now->listener && now->listener->listening;
            if (op.b == 5)
            {
                lg->cmd_since = steps;
                lg->cmd_until = INF;
                break;
            }
            if (!own_old || vk::lookup(old) == own_old)
            {
                if (own_old && path != old)
                    fail("cmd-path", "after changing the command path the old socket path %s still exists", old.c_str());
            }
            if (op.b == 0 && !ok && !C("sock.faults"))
                fail("cmd-path", "changing the command path to %s did not open a socket there", path.c_str());
            if (op.b != 0 && op.b != 5 && !ok && !C("stderr.broken") && app->err.find("ommand", err0) == std::string::npos)
                fail("cmd-report", "an unusable command path was not reported on stderr");
            if ((op.b == 1 || op.b == 2) && victim && (vk::lookup(path) != victim || (victim->listener && victim->listener->closed)))
                if (op.b == 1 || (steady && owner->alive && !owner->deleting && owner->users == 0 && owner->cmd == path))
                    fail("cmd-path", "a command path in use by something else was taken over or removed");
            lg->cmd = ok ? path : "";
            lg->cmd_since = steps;
            lg->cmd_until = INF;
        }
        else
        {
            lg->cmd.clear();
            lg->cmd_since = steps;
        }
        break;
    }
    case OP_SLEEP:
    {
        static int key;
        block(&key, now_ns + 1 + u64(op.a) * dt_ns);
        break;
    }
    case OP_CL_STATUS:
    case OP_CL_LEVEL:
    case OP_CL_REOPEN:
    case OP_CL_JUNK:
    case OP_CL_IDLE:
        do_client(op);
        break;
    case OP_XTRCTL:
        do_xtrctl(op);
        break;
    case OP_DISK: // a logger, b full?
        for (vk::Inode* i : files_of(outs[op.a % NL]))
            i->full = op.b;
        break;
    case OP_STDERR:
        vk::stderr_broken = op.a;
        break;
    case OP_CRASH: // a: 0 process dies, 1 machine dies
    {
        if (phase > 0 || app->dead)
            return;
        ++stats.crashes;
        ++fault_count[S_crash];
        crashed_run = true;
        kill_proc(app, 137);
        if (op.a)
            vk::kill_rings();
        break;
    }
    case OP_ST_NEW:
    case OP_ST_PUT:
    case OP_ST_FLUSH:
    case OP_ST_SYNC:
    case OP_ST_REOPEN:
    case OP_ST_DEL:
        do_storage(op);
        break;
    default:
        break;
    }
}

static void std_fds(Proc* p)
{
    static vk::Inode* nul;
    if (!nul)
    {
        nul = vk::create_file("");
        nul->type = vk::Inode::null_dev;
    }
    for (int i = 0; i < 3; ++i)
        vk::open_fd(p, nul, i ? O_WRONLY : O_RDONLY);
}

static void run_thread(Thr& th)
{
    const int t = th.id;
    for (const Op& op : th.ops)
    {
        // receive sinks handed over by other threads
        for (SinkObj& o : S)
            if (o.p && o.owner == t)
                acquire_from(o.born);
        do_op(t, op);
    }
    if (!th.client && t % 100 != 0)
    {
        th.waiting = true; // receives no more sinks
        for (SinkObj& o : S)
            if (o.p && o.owner == t)
                acquire_from(o.born);
        if (!C("keep.open"))
            close_all_of(t);
        else
            for (SinkObj& o : S) // hand back to the main thread
                if (o.p && o.owner == t)
                {
                    release_to(o.born);
                    o.owner = phase * 100;
                }
    }
    th.done = true;
}

static std::vector<int> consumer_ids()
{
    std::vector<int> v;
    for (LoggerM* l : loggers)
        if (l->alive && l->consumer >= 0 && !l->crashed)
            v.push_back(l->consumer);
    return v;
}
// let every consumer run for n of its own steps after the last output and the
// last fault (and the kernel finish)
static void settle(u64 n)
{
    std::map<int, u64> goal;
    u64 seen = ~0ull;
    while (!past_horizon() && !consumer_ids().empty())
        yield_now(61);
    for (;;)
    {
        u64 bytes = 0;
        for (const Out& o : outs)
            for (auto& c : contents(o, false))
                bytes += c.second.size();
        if (bytes != seen)
        {
            seen = bytes;
            for (int c : consumer_ids())
                goal[c] = fibers[c].npoints + n;
        }
        bool all = !vk::kernel_busy();
        for (auto& g : goal)
            if (fibers[g.first].npoints < g.second && fibers[g.first].st != Fiber::finished && fibers[g.first].st != Fiber::killed)
                all = false;
        if (all)
            return;
        yield_now(61);
    }
}

static void idle_check()
{
    int nopen = 0;
    for (Stream* st : streams)
        nopen += st->close_end == INF;
    settle(200 + 60 * u64(nopen + 2));
    for (LoggerM* lg : loggers)
    {
        if (!lg->alive)
            continue;
        Out& o = outs[lg->out];
        if (o.custom && (!o.cu.flushed))
            fail("not-flushed", "the logger is idle but the data it submitted last was never flushed");
        for (Stream* st : streams)
            if (st->logger == lg->inst && !st->crashed)
                check_stream(st, st->items.size(), false, "the logger has been idle for a long time");
    }
    // no endless flushing while idle
    std::vector<u64> f0;
    for (Out& o : outs)
        f0.push_back(o.cu.flushes);
    const u64 s0 = steps;
    settle(400 + 60 * u64(nopen + 2));
    (void)s0;
    for (int i = 0; i < NL; ++i)
        if (outs[i].custom && outs[i].cu.flushes > f0[std::size_t(i)] + 2)
            fail("flush-storm", "the idle logger flushed its back-end %lu times", (unsigned long)(outs[i].cu.flushes - f0[std::size_t(i)]));
}

// the application process of one phase
static void app_main()
{
    const int base = phase * 100;
    Thr& m = thr[base];
    m.id = base;
    m.f = cur;
    app_over = false;
    run_thread(m);
    m.done = false;
    std::vector<Fiber*> fs;
    // leftovers go to the workers
    std::vector<int> ws;
    for (auto& t : thr)
        if (t.first > base && t.first < base + 50)
            ws.push_back(t.first);
    std::size_t rr = 0;
    if (!C("keep.main"))
        for (SinkObj& o : S)
            if (o.p && o.owner == base && !ws.empty())
            {
                release_to(o.born);
                o.owner = ws[rr++ % ws.size()];
            }
    for (int w : ws)
    {
        Thr& th = thr[w];
        th.f = spawn("worker", app, [&th] { run_thread(th); });
        fs.push_back(th.f);
    }
    for (Fiber* f : fs)
        join(f);
    for (SinkObj& o : S)
        if (o.p && o.owner == base)
        {
            acquire_from(o.born);
            acquire_from(o.foreign);
        }
    if (C("idle.check") && phase == C("last.phase"))
        idle_check();
    if (C("teardown.faults", 0) == 0)
        faults_off = true;
    if (C("keep.full"))
        for (vk::Inode* i : vk::all_inodes())
            i->full = false;
    for (SinkObj& o : S)
        if (o.p)
        {
            while (o.users)
                yield_now(62);
            do_del(o);
        }
    for (int k = 0; k < NL; ++k)
        if (L[k] && L[k]->alive)
        {
            while (L[k]->users)
                yield_now(62);
            do_del_logger(base, k);
        }
    if (stg)
    {
        Op o;
        o.code = OP_ST_DEL;
        do_storage(o);
    }
    m.done = true;
    app_over = true;
}

static void resource_check()
{
    if (vk::bad_close)
        fail("bad-close", "%s", vk::bad_detail.c_str());
    if (vk::bad_unmap)
        fail("bad-unmap", "%s", vk::bad_detail.c_str());
    if (!P(17))
        return;
    if (const int n = vk::count_open(app, 1))
        fail("fd-leak", "%d file descriptors created by the library are still open:%s", n, vk::describe_fds(app).c_str());
    if (const int fd = vk::lost_fd(app); fd >= 0)
        fail("fd-closed", "the descriptor %d of the application was closed by the library", fd);
    if (vk::mapped_pages())
        fail("map-leak", "%zu pages mapped by the library are still mapped", vk::mapped_pages());
    for (int i = 1; i < nfibers; ++i)
        if (fibers[i].proc == app && fibers[i].pfn && fibers[i].st != Fiber::finished)
            fail("thread-left", "a thread created by the library is still running");
    for (vk::Inode* i : vk::all_inodes())
        if (i->type == vk::Inode::sock && vk::lookup(i->path) == i)
            fail("cmd-path", "the socket path %s still exists", i->path.c_str());
    if (vk::n_uring_rings)
        fail("ring-leak", "%lu io_uring instances are still open", (unsigned long)vk::n_uring_rings);
    if (live_allocs() && C("chk.leak", 1))
        fail("mem-leak", "%lu heap blocks allocated by the library were never freed", (unsigned long)live_allocs());
}

static Fiber* abort_fiber;
static std::vector<Stream*> fatal_streams;

static void on_abort()
{
    // only a fatal statement in progress on this thread may end the process
    for (Stream* st : streams)
        if (!st->items.empty())
        {
            Item& it = st->items.back();
            if (it.fatal && it.fiber == cur->id && it.t_end == INF && !st->crashed)
            {
                // the fatal statement and everything before it must be durable
                if (!it.nb || it.known_fit)
                    it.required = true;
                it.maybe = false;
                st->synced = st->items.size();
                if (!C("err.mode") && !C("uring.hard"))
                    check_stream(st, st->items.size(), !outs[st->out].custom, "a fatal statement terminated the process");
                abort_fiber = cur;
                crashed_run = true;
                ++stats.crashes;
                return;
            }
        }
    fail("abort", "the process called abort()");
}

static void process_died()
{
    // mark the model: everything un-synced may be lost
    const bool machine = C("crash.machine") && !abort_fiber;
    for (LoggerM* l : loggers)
        if (l->alive || l->creating || l->deleting)
        {
            l->crashed = true;
            l->alive = l->creating = l->deleting = false;
            l->t_dead = steps;
        }
    for (Stream* st : streams)
        if (st->close_end == INF)
        {
            st->crashed = true;
            st->close_end = steps;
        }
        else if (machine || st->logger >= 0 && loggers[std::size_t(st->logger)]->crashed)
            st->crashed = true;
    for (int k = 0; k < NL; ++k)
        L[k] = nullptr;
    for (SinkObj& o : S)
        o = SinkObj{};
    live.clear();
    // the kernel finishes or drops what it holds
    while (vk::kernel_busy())
        yield_now(63);
    std::map<vk::Inode*, std::size_t> durable;
    for (vk::Inode* i : vk::all_inodes())
        durable[i] = i->durable.size();
    if (machine)
        vk::crash_disk();
    for (int k = 0; k < NL; ++k)
    {
        bool lost = false;
        for (LoggerM* l : loggers)
            lost |= l->out == k && (l->crashed || machine);
        if (!lost || outs[k].custom)
            continue;
        for (vk::Inode* i : files_of(outs[k]))
        {
            const std::size_t from = std::min(durable[i], i->data.size());
            outs[k].lenient.push_back({i, from, i->data.size()});
        }
    }
    // sockets of the dead process stay behind as stale paths
}

static void controller()
{
    app = new_proc();
    app_procs.push_back(app);
    std_fds(app);
    if (C("mode") == 1)
    {
        run_ring(*plan);
        resource_check();
        return;
    }
    std::vector<Fiber*> clients;
    Fiber* m = spawn("main", app, app_main);
    for (auto& t : thr)
        if (t.second.client)
        {
            Thr& th = t.second;
            Proc* p = new_proc();
            std_fds(p);
            th.f = spawn("client", p, [&th] { run_thread(th); });
            clients.push_back(th.f);
        }
    join(m);
    if (app->dead)
    {
        faults_off = true;
        process_died();
        if (C("last.phase") > 0)
        {
            faults_off = false;
            abort_fiber = nullptr;
            restore_globals();
            phase = 1;
            app = new_proc();
            app_procs.push_back(app);
            std_fds(app);
            for (vk::Inode* i : vk::all_inodes())
                if (i->type == vk::Inode::sock && vk::lookup(i->path) == i)
                    vk::unlink_path(i->path); // stale socket files are removed by whoever restarts the service
            m = spawn("main", app, app_main);
            join(m);
        }
    }
    for (Fiber* f : clients)
        join(f);
    faults_off = true;
    while (vk::kernel_busy())
        yield_now(63);
    if (!app->dead)
    {
        if (!live.empty())
            fail("arg-lifetime", "%zu argument objects were never destroyed", live.size());
        resource_check();
    }
    if (C("mode") == 0)
        final_check();
}

extern "C" void (*sim_on_abort)();

void execute(const Plan& p)
{
    plan = &p;
    stale_w = knobs.p_stale > 0 ? u64(knobs.stale_window) + 2 : 0;
    for (const Op& o : p.ops)
    {
        Thr& t = thr[o.t];
        t.id = o.t;
        t.client = o.t % 100 >= 50;
        t.ops.push_back(o);
    }
    vk::cfg.wall0 = C("vk.wall0", 1700000000l) * 1000000000l + C("vk.wall0ns", 0);
    vk::cfg.mono0 = C("vk.mono0", 1000000000l);
    vk::cfg.tsc0 = u64(C("vk.tsc0", 1000000000l));
    vk::cfg.tsc_hz = u64(C("vk.tsc_hz", 2400000000l));
    vk::cfg.cpuid_mode = int(C("vk.cpuid"));
    vk::cfg.sock_cap = std::size_t(C("vk.sock_cap", 8));
    vk::cfg.rundir = C("vk.rundir", 1);
    vk::cfg.uring_ok = C("vk.uring", 1);
    vk::cfg.append_inorder = !C("vk.append_any");
    dt_ns = u64(C("k.dt", 1000));
    vk::init();
    sim_on_abort = on_abort;
    run_all(controller);
}
} // namespace hx

// ---------------------------------------------------------------- callbacks from instrumented code

using namespace hx;
extern "C" {
void h_track(int what, int id, const void* self)
{
    Host h;
    auto i = live.find(self);
    switch (what)
    {
    case 0:
    case 1:
    case 2:
        if (i != live.end())
            violation("arg-lifetime", "argument of statement %d.%d constructed where argument of statement %d.%d still lives", id >> 16, id & 0xffff, i->second.id >> 16, i->second.id & 0xffff);
        live[self] = {id, cur->proc->id};
        break;
    case 3:
        if (i == live.end() || i->second.id != id)
            violation("arg-lifetime", "argument of statement %d.%d destroyed but it does not exist there (destroyed twice, or overwritten)", id >> 16, id & 0xffff);
        live.erase(i);
        break;
    case 4:
        if (i == live.end() || i->second.id != id)
            violation("arg-lifetime", "argument of statement %d.%d formatted after it was destroyed", id >> 16, id & 0xffff);
        break;
    default:
        violation("arg-lifetime", "argument of statement %d.%d is corrupt", id >> 16, id & 0xffff);
    }
}
static std::map<std::pair<int, int>, int> throw_map;
int h_should_throw(int where, int sid, int seq)
{
    Host h;
    if (std::size_t(sid) >= streams.size() || std::size_t(seq) >= streams[std::size_t(sid)]->items.size())
        return 0;
    (void)where;
    auto i = throw_map.find({sid, seq});
    return i == throw_map.end() ? 0 : i->second;
}
void hx_mark_throw(int sid, int seq) { throw_map[{sid, seq}] = 1; }
std::int64_t h_clock(int id)
{
    Host h;
    point(59);
    std::int64_t v;
    switch (plan->get("clk.mode"))
    {
    case 1: // around 1970
        v = std::int64_t(now_ns) - 2000000000ll + std::int64_t(choose(S_harness, 3)) * 1000000ll;
        break;
    case 2: // far future, crossing into five-digit years
        v = 9223372036ll * 1000000000ll - 1000000000ll + std::int64_t(now_ns % 900000000);
        break;
    case 3: // steps back and forth
        v = 1500000000000000000ll + std::int64_t(now_ns) + (std::int64_t(choose(S_harness, 5)) - 2) * 3600000000000ll;
        break;
    default:
        v = vk::wall_now();
    }
    vk::clock_reads.push_back({cur->id, steps, 100 + id, v, now_ns});
    return v;
}

static Custom& cu(int id) { return outs[id].cu; }
struct CallGuard
{
    Custom& c;
    CallGuard(int id, const char* what) : c(cu(id))
    {
        if (c.dead)
            violation("storage-protocol", "%s called on a destroyed back-end", what);
        if (c.depth)
            violation("storage-protocol", "%s called while another call on the back-end is in progress", what);
        if (c.consumer < 0)
            c.consumer = cur->id;
        const bool flush_at_end = fibers[c.consumer].st == Fiber::finished;
        if (c.consumer != cur->id && !flush_at_end)
            violation("storage-protocol", "%s called from a thread other than the logger's", what);
        ++c.depth;
        point(58);
    }
    ~CallGuard() { --c.depth; }
};
int h_st_alloc(int id, char** p, std::size_t* n)
{
    Host h;
    CallGuard g(id, "allocate_buffer");
    Custom& c = g.c;
    if (c.buf)
        violation("storage-protocol", "a buffer was allocated before the previous one had been submitted");
    if (const std::uint32_t k = fault(S_storage_throw_alloc, 3))
    {
        ++c.throws;
        return int(k);
    }
    c.buf = static_cast<char*>(arena_alloc(c.cap));
    *p = c.buf;
    *n = c.cap;
    return 0;
}
int h_st_submit(int id, char* p, std::size_t n)
{
    Host h;
    CallGuard g(id, "submit_buffer");
    Custom& c = g.c;
    if (!c.buf || p != c.buf)
        violation("storage-protocol", "submit_buffer was passed a buffer that is not outstanding");
    if (n == 0 || n > c.cap)
        violation("storage-protocol", "submit_buffer was passed %zu bytes for a buffer of %zu", n, c.cap);
    if (const std::uint32_t k = fault(S_storage_throw_submit, 3))
    {
        ++c.throws;
        return int(k);
    }
    if (const long slow = C("cu.slow")) // a slow device
    {
        static int key;
        block(&key, now_ns + u64(slow));
    }
    c.data.append(p, n);
    if (n)
        last_useful = steps;
    arena_free(c.buf); // any later access is a use after free
    c.buf = nullptr;
    c.flushed = false;
    c.flush_threw = false;
    ++c.submits;
    progress();
    return 0;
}
int h_st_flush(int id)
{
    Host h;
    CallGuard g(id, "flush");
    ++g.c.flushes;
    if (const std::uint32_t k = fault(S_storage_throw_flush, 3))
    {
        ++g.c.throws;
        g.c.flush_threw = true;
        return int(k);
    }
    g.c.flushed = true;
    return 0;
}
static bool storage_faults() { return fault_count[S_storage_throw_alloc] + fault_count[S_storage_throw_submit] + fault_count[S_storage_throw_flush] > 0; }
void h_st_sync(int id)
{
    Host h;
    CallGuard g(id, "sync");
    ++g.c.syncs;
    if (!storage_faults() && !g.c.flushed)
        violation("storage-protocol", "sync called before the submitted data was flushed");
    if (!storage_faults() && g.c.buf)
        violation("storage-protocol", "sync called while a buffer with data has not been submitted");
}
int h_st_reopen(int id)
{
    Host h;
    CallGuard g(id, "reopen");
    if (!storage_faults() && !g.c.flushed)
        violation("storage-protocol", "reopen called before the submitted data was flushed");
    if (!storage_faults() && g.c.buf)
        violation("storage-protocol", "reopen called while a buffer with data has not been submitted");
    if (fault(S_storage_reopen_fail))
        return 5;
    ++g.c.reopens;
    return 0;
}
void h_st_destroy(int id)
{
    Host h;
    Custom& c = cu(id);
    if (c.dead)
        violation("storage-protocol", "the back-end was destroyed twice");
    if (c.depth)
        violation("storage-protocol", "the back-end was destroyed during a call");
    if (c.buf)
        arena_free(c.buf);
    if (c.buf && !storage_faults())
        violation("storage-protocol", "the back-end was destroyed while a buffer with data had not been submitted");
    c.buf = nullptr;
    c.dead = true;
}
}
