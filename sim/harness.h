// Workload model: operations, run configuration, reference model and oracles.
#pragma once
#include "glue.h"
#include "rt.h"
#include "vk.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace hx
{
using u64 = std::uint64_t;
constexpr u64 INF = ~u64(0);

#define HX_OPS(X) \
    X(NONE) X(NEW_LOGGER) X(DEL_LOGGER) X(GET_SINK) X(NEW_SINK) X(REG) X(COPY) X(ASSIGN) X(CLOSE) X(DEL) \
    X(SYNC) X(NAME) X(SETLEVEL) X(GETLEVEL) X(LOG) X(GIVE) X(STYLE) X(CMDPATH) X(DEFLEVEL) X(SLEEP) X(FATAL) X(IDLE) \
    X(CL_STATUS) X(CL_LEVEL) X(CL_REOPEN) X(CL_JUNK) X(CL_IDLE) X(XTRCTL) X(CRASH) X(RENAME) X(DISK) X(FLOOD) \
    X(ST_NEW) X(ST_PUT) X(ST_FLUSH) X(ST_SYNC) X(ST_REOPEN) X(ST_DEL) \
    X(RB_WRITE) X(RB_READ) X(RB_CLEAR) X(NEWFAIL) X(PROBE) X(STDERR)
enum Code : int
{
#define X(n) OP_##n,
    HX_OPS(X)
#undef X
    NOPS
};
extern const char* const op_names[NOPS];

struct Op
{
    int t = 0;   // thread
    int code = 0;
    long a = 0, b = 0, c = 0, d = 0, e = 0;
};

struct Plan
{
    int prop = 1;
    u64 seed = 1;
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    std::vector<sim::Dec> dec;
    bool has_dec = false;
    long get(const std::string& k, long def = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? def : it->second;
    }
    void add(int t, int code, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) { ops.push_back(Op{t, code, a, b, c, d, e}); }
};

// statement table
const GStmt& stmt(int i);
int nstmts();
int find_stmt(int family, int level, int shape, int nb); // -1: none

void generate(Plan& p);         // fill cfg and ops from p.prop and p.seed
void execute(const Plan& p);    // run inside the simulation; reports violations
extern int sut_capacity;        // sink capacity of this build
extern bool uring_poll_build;

struct Stats
{
    u64 ops = 0, stmts = 0, lines = 0, dropped = 0, trunc = 0, cmds = 0, syncs = 0, crashes = 0, checks = 0, reopens = 0;
};
extern Stats stats;
} // namespace hx
