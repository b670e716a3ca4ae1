// Virtual kernel: files, descriptors, sockets, clocks, memory mappings, io_uring.
#pragma once
#include "rt.h"
#include <cstdio>
#include <deque>
#include <map>
#include <string>
#include <set>
#include <vector>

namespace vk
{
struct Sock;
struct URing;

struct Pending { std::uint64_t off; std::string data; };
struct Inode
{
    enum Type { reg, sock, null_dev } type = reg;
    std::string path;        // path at creation, for messages
    std::string data;        // what a reader sees
    std::string durable;     // what survives a crash for certain
    std::vector<Pending> dirty; // writes since the last successful fsync
    int links = 0;
    bool full = false;       // writes fail with ENOSPC
    Sock* listener = nullptr;
    std::uint64_t nwrites = 0, nfsync = 0;
    std::uint64_t nopen = 0;  // opens by the code under test
    std::uint64_t created = 0; // step
};

struct OpenFile
{
    enum Type { file, socket, uring, mem } type = file;
    Inode* ino = nullptr;
    std::uint64_t pos = 0;
    int flags = 0;
    Sock* so = nullptr;
    URing* ur = nullptr;
    int memfd = -1;
    int refs = 0;
    int creator = 0; // 0 harness, 1 code under test
};

struct Sock
{
    bool nonblock = false;
    bool listening = false;
    bool bound = false;
    std::string path;
    int backlog = 0;
    std::deque<Sock*> pending;
    Sock* peer = nullptr;
    bool peer_closed = false;
    bool closed = false;
    int err = 0;
    std::deque<std::string> rx;
    std::size_t cap = 8; // packets
};

struct Config
{
    std::int64_t wall0 = 1700000000ll * 1000000000ll;
    std::int64_t mono0 = 1000000000ll; // CLOCK_MONOTONIC at the start
    std::uint64_t tsc0 = 1000000000ull;
    std::uint64_t tsc_hz = 2400000000ull;
    int cpuid_mode = 0;
    std::size_t sock_cap = 8;
    bool rundir = true;
    bool append_inorder = true;
    bool uring_ok = true;
};
extern Config cfg;

struct FdTable { std::vector<OpenFile*> fd; std::set<int> dups; /* duplicated by the code under test */ };

struct ClockEvent { std::uint64_t t; std::int64_t off; };
extern std::vector<ClockEvent> clock_hist; // wall = t + off from time t on
extern std::int64_t wall_off;
struct ClockRead { int fiber; std::uint64_t step; int clock; std::int64_t value; std::uint64_t t; };
constexpr int CLK_TSC = 50;
extern std::vector<ClockRead> clock_reads; // every clock read by the code under test
struct BindLog { int fiber; std::string path; bool ok; };
extern std::vector<BindLog> bind_log;
const std::vector<Inode*>& all_inodes(); // in creation order
void kill_rings();
bool kernel_busy();
std::int64_t wall_now();
std::uint64_t tsc_now();

void init();                       // per run
FdTable& table(sim::Proc* p);
Inode* lookup(const std::string& path);
Inode* create_file(const std::string& path, const std::string& content = "");
bool path_exists(const std::string& path);
void rename_path(const std::string& a, const std::string& b);
void unlink_path(const std::string& a);
void add_dir(const std::string& d);
int open_fd(sim::Proc* p, Inode* ino, int flags); // harness opens a descriptor for a process
int count_open(sim::Proc* p, int creator);
int lost_fd(sim::Proc* p); // a descriptor of the application that was closed or replaced, or -1
std::string describe_fds(sim::Proc* p);
std::size_t mapped_pages();
std::string crash_image(Inode* ino);       // durable contents plus an arbitrary part of the rest
void crash_disk();                         // every file becomes its crash image
FILE* stream_for(int fd);                  // a FILE* whose fileno() is the virtual fd

extern std::uint64_t bad_close, bad_unmap, sigpipe;
extern std::uint64_t uring_inflight_total, uring_max_inflight, n_uring_rings;
extern std::uint64_t n_writes, n_short, n_fsync;
extern bool stderr_broken;
extern std::string bad_detail;

// harness-side socket client (runs on its own fiber and process)
int k_socket_connect(const std::string& path, std::size_t len, bool nonblock); // fd or -errno
long k_send(int fd, const void* p, std::size_t n, bool dontwait);
long k_recv(int fd, void* p, std::size_t n, bool dontwait); // -errno on error
void k_close(int fd);
}
