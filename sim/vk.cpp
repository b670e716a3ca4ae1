#include "vk.h"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <liburing.h>
#include <poll.h>
#include <set>
#include <streambuf>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace vk
{
Config cfg;
std::vector<ClockEvent> clock_hist;
std::vector<ClockRead> clock_reads;
std::vector<BindLog> bind_log;
std::int64_t wall_off;
std::uint64_t bad_close, bad_unmap, sigpipe;
std::uint64_t uring_inflight_total, uring_max_inflight, n_uring_rings;
std::uint64_t n_writes, n_short, n_fsync;
bool stderr_broken;
std::string bad_detail;

static std::map<int, FdTable> tables;
static std::map<std::string, Inode*> names;
static std::vector<Inode*> inodes;
static std::set<std::string> dirs;
static std::vector<URing*> rings;
static int poll_key;
static std::map<FILE*, int> streams;
static std::vector<std::uint8_t> page_state;
static std::uintptr_t map_cur;
static std::size_t npages;

enum { K_SYS = 32 };

struct Sys // one system call by the current thread
{
    Host h;
    explicit Sys(int k, std::uint64_t v = 0)
    {
        ++cur->nsys;
        point(K_SYS + k, v);
    }
};

FdTable& table(Proc* p) { return tables[p->id]; }
static FdTable& my() { return tables[cur->proc->id]; }

static OpenFile* get(int fd)
{
    FdTable& t = my();
    if (fd < 0 || std::size_t(fd) >= t.fd.size())
        return nullptr;
    return t.fd[std::size_t(fd)];
}

static int install(FdTable& t, OpenFile* of)
{
    ++of->refs;
    for (std::size_t i = 0; i < t.fd.size(); ++i)
        if (!t.fd[i])
        {
            t.fd[i] = of;
            return int(i);
        }
    t.fd.push_back(of);
    return int(t.fd.size() - 1);
}

static void notify() { wake(&poll_key); }

static void close_sock(Sock* s)
{
    if (s->closed)
        return;
    s->closed = true;
    if (s->listening)
    {
        for (Sock* c : s->pending) // connections never accepted
        {
            c->closed = true;
            if (c->peer)
            {
                c->peer->peer_closed = true;
                c->peer->err = ECONNRESET;
            }
        }
        s->pending.clear();
        if (Inode* i = lookup(s->path))
            if (i->listener == s)
                i->listener = nullptr;
        for (Inode* i : inodes)
            if (i->listener == s)
                i->listener = nullptr;
    }
    if (s->peer)
    {
        s->peer->peer_closed = true;
        if (!s->rx.empty())
            s->peer->err = ECONNRESET;
    }
    notify();
}

static void unref(OpenFile* of)
{
    if (--of->refs)
        return;
    if (of->type == OpenFile::socket)
        close_sock(of->so);
    if (of->type == OpenFile::mem && of->memfd >= 0)
        ::syscall(SYS_close, of->memfd);
}

static int do_close(FdTable& t, int fd)
{
    if (fd < 0 || std::size_t(fd) >= t.fd.size() || !t.fd[std::size_t(fd)])
        return -EBADF;
    OpenFile* of = t.fd[std::size_t(fd)];
    t.fd[std::size_t(fd)] = nullptr;
    t.dups.erase(fd);
    unref(of);
    return 0;
}

Inode* lookup(const std::string& p)
{
    auto i = names.find(p);
    return i == names.end() ? nullptr : i->second;
}
bool path_exists(const std::string& p) { return names.count(p) || dirs.count(p); }
static std::string parent(const std::string& p)
{
    const auto i = p.rfind('/');
    return i == std::string::npos ? "." : i == 0 ? "/" : p.substr(0, i);
}
Inode* create_file(const std::string& p, const std::string& content)
{
    Inode* i = new Inode;
    i->path = p;
    i->data = i->durable = content;
    i->links = 1;
    i->created = steps;
    inodes.push_back(i);
    if (!p.empty())
        names[p] = i;
    return i;
}
void rename_path(const std::string& a, const std::string& b)
{
    auto i = names.find(a);
    if (i == names.end())
        return;
    names[b] = i->second;
    names.erase(a);
}
void unlink_path(const std::string& a) { names.erase(a); }
void add_dir(const std::string& d) { dirs.insert(d); }

struct AppFd { Proc* p; int fd; OpenFile* of; };
static std::vector<AppFd> app_fds;

int open_fd(Proc* p, Inode* ino, int flags)
{
    OpenFile* of = new OpenFile;
    of->ino = ino;
    of->flags = flags;
    const int fd = install(table(p), of);
    app_fds.push_back({p, fd, of});
    return fd;
}

int lost_fd(Proc* p)
{
    for (const AppFd& a : app_fds)
        if (a.p == p && (table(p).fd.size() <= std::size_t(a.fd) || table(p).fd[std::size_t(a.fd)] != a.of))
            return a.fd;
    return -1;
}

int count_open(Proc* p, int creator)
{
    int n = 0;
    const FdTable& t = table(p);
    for (std::size_t i = 0; i < t.fd.size(); ++i)
        if (t.fd[i] && (t.fd[i]->creator == creator || creator == 1 && t.dups.count(int(i))))
            ++n;
    return n;
}

std::string describe_fds(Proc* p)
{
    std::string s;
    FdTable& t = table(p);
    for (std::size_t i = 0; i < t.fd.size(); ++i)
        if (t.fd[i])
        {
            const OpenFile* of = t.fd[i];
            s += " " + std::to_string(i) + ":" +
                (of->type == OpenFile::socket ? "socket" : of->type == OpenFile::uring ? "io_uring" : of->type == OpenFile::mem ? "memfd" : of->ino->path);
        }
    return s;
}

std::size_t mapped_pages() { return npages; }
const std::vector<Inode*>& all_inodes() { return inodes; }

std::string crash_image(Inode* ino)
{
    std::string img = ino->durable;
    for (const Pending& w : ino->dirty)
    {
        const std::uint32_t how = choose(S_crash_keep, 4);
        std::size_t n = w.data.size();
        if (how == 0)
            continue;
        if (how == 2)
            n = n / 2;
        if (how == 3)
            n = n ? n - 1 : 0;
        if (!n)
            continue;
        if (img.size() < w.off + n)
            img.resize(w.off + n, '\0');
        img.replace(w.off, n, w.data, 0, n);
    }
    return img;
}

void crash_disk()
{
    for (Inode* i : inodes)
        if (i->type == Inode::reg)
        {
            i->data = crash_image(i);
            i->durable = i->data;
            i->dirty.clear();
        }
}

std::int64_t wall_now() { return std::int64_t(now_ns) + wall_off; }
std::uint64_t tsc_now()
{
    return cfg.tsc0 + std::uint64_t((unsigned __int128)now_ns * cfg.tsc_hz / 1000000000ull);
}

static ssize_t cookie_write_err(void*, const char* b, std::size_t n)
{
    Host h;
    if (cur && (stderr_broken || fault(S_stderr_fail)))
    {
        errno = EIO;
        return 0;
    }
    if (cur)
        cur->proc->err.append(b, n);
    return ssize_t(n);
}
static ssize_t cookie_write_out(void*, const char* b, std::size_t n)
{
    Host h;
    if (cur)
        cur->proc->out.append(b, n);
    return ssize_t(n);
}

struct Buf : std::streambuf
{
    bool err;
    explicit Buf(bool e) : err(e) {}
    int_type overflow(int_type c) override
    {
        Host h;
        if (c != traits_type::eof() && cur)
            (err ? cur->proc->err : cur->proc->out).push_back(char(c));
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        Host h;
        if (cur)
            (err ? cur->proc->err : cur->proc->out).append(s, std::size_t(n));
        return n;
    }
};
}

using namespace vk;

static Buf buf_err(true), buf_out(false);
std::ostream sim_cerr_obj asm("sim_cerr")(&buf_err);
std::ostream sim_clog_obj asm("sim_clog")(&buf_err);
std::ostream sim_cout_obj asm("sim_cout")(&buf_out);
extern "C" {
FILE* sim_stderr;
FILE* sim_stdout;
std::int64_t sim_wall_offset_ns() { return wall_off; }
}

namespace vk
{
FILE* stream_for(int fd)
{
    cookie_io_functions_t io{};
    io.write = cookie_write_out;
    FILE* f = ::fopencookie(nullptr, "w", io);
    streams[f] = fd;
    return f;
}

static bool k_pending();
static void k_step();
static void proc_rings_dead(Proc* p);

void init()
{
    names.clear();
    dirs = {"/", "/tmp", "/log", "/run/user/0"};
    cookie_io_functions_t io{};
    io.write = cookie_write_err;
    sim_stderr = ::fopencookie(nullptr, "w", io);
    ::setvbuf(sim_stderr, nullptr, _IONBF, 0);
    io.write = cookie_write_out;
    sim_stdout = ::fopencookie(nullptr, "w", io);
    ::setvbuf(sim_stdout, nullptr, _IONBF, 0);
    streams[sim_stderr] = 2;
    streams[sim_stdout] = 1;
    wall_off = cfg.wall0;
    clock_hist.clear();
    clock_hist.push_back({0, wall_off});
    page_state.assign(map_size >> 12, 0);
    map_cur = map_base;
    kernel_pending = k_pending;
    kernel_step = k_step;
    on_proc_dead = [](Proc* p)
    {
        FdTable& t = table(p);
        for (std::size_t i = 0; i < t.fd.size(); ++i)
            if (t.fd[i])
                do_close(t, int(i));
        proc_rings_dead(p);
    };
}

// ---------------------------------------------------------------- files

static void apply_write(OpenFile* of, const char* p, std::size_t n, std::int64_t off)
{
    Inode* i = of->ino;
    std::uint64_t at;
    if (of->flags & O_APPEND)
        at = i->data.size();
    else if (off >= 0)
        at = std::uint64_t(off);
    else
        at = of->pos;
    if (i->data.size() < at + n)
    {
        i->data.resize(at + n, '\0');
        last_useful = steps;
    }
    i->data.replace(at, n, p, n);
    i->dirty.push_back({at, std::string(p, n)});
    ++i->nwrites;
    ++n_writes;
    if (off < 0)
        of->pos = at + n;
    progress();
}

static long file_write(OpenFile* of, const char* p, std::size_t n, std::int64_t off)
{
    if (of->type != OpenFile::file)
        return -EINVAL;
    if ((of->flags & O_ACCMODE) == O_RDONLY)
        return -EBADF;
    if (fault(S_write_eintr))
        return -EINTR;
    if (fault(S_write_eio))
        return -EIO;
    if (of->ino->full || fault(S_write_enospc))
        return -ENOSPC;
    std::size_t m = n;
    if (n > 1)
        if (const std::uint32_t k = fault(S_write_short, 3))
        {
            m = k == 1 ? 1 : k == 2 ? n / 2 : n - 1;
            ++n_short;
        }
    apply_write(of, p, m, off);
    return long(m);
}

static int file_fsync(OpenFile* of)
{
    if (of->type != OpenFile::file)
        return -EINVAL;
    if (fault(S_fsync_fail))
        return -EIO;
    of->ino->durable = of->ino->data;
    of->ino->dirty.clear();
    ++of->ino->nfsync;
    ++n_fsync;
    progress();
    return 0;
}

template<typename T>
static T ret(T r)
{
    if (r < 0)
    {
        errno = int(-r);
        return -1;
    }
    return r;
}

static void touch_user(const void* p, std::size_t n, bool w)
{
    if (n && tracked(reinterpret_cast<std::uintptr_t>(p)))
        mem_access(reinterpret_cast<std::uintptr_t>(p), n, w, false, 0x999);
}

static int do_open(const std::string& path, int flags)
{
    if (fault(S_open_eintr))
        return -EINTR;
    if (const std::uint32_t k = fault(S_open_fail, 3))
        return k == 1 ? -EACCES : k == 2 ? -EMFILE : -ENOSPC;
    Inode* i = lookup(path);
    if (!i)
    {
        if (dirs.count(path))
            return -EISDIR;
        if (!(flags & O_CREAT) || !dirs.count(parent(path)))
            return -ENOENT;
        i = create_file(path);
        progress();
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL))
        return -EEXIST;
    if (i->type == Inode::sock)
        return -ENXIO;
    if ((flags & O_TRUNC) && i->type == Inode::reg)
    {
        i->data.clear();
        i->dirty.push_back({0, ""});
    }
    ++i->nopen;
    OpenFile* of = new OpenFile;
    of->ino = i;
    of->flags = flags;
    of->creator = 1;
    return install(my(), of);
}
}

extern "C" {
long sim_write(int fd, const void* p, std::size_t n)
{
    Sys s(1, n);
    OpenFile* of = get(fd);
    if (!of)
        return ret<long>(-EBADF);
    touch_user(p, n, false);
    return ret(file_write(of, static_cast<const char*>(p), n, -1));
}
long sim_pwrite(int fd, const void* p, std::size_t n, off_t off)
{
    Sys s(1, n);
    OpenFile* of = get(fd);
    if (!of)
        return ret<long>(-EBADF);
    touch_user(p, n, false);
    return ret(file_write(of, static_cast<const char*>(p), n, off));
}
static long do_writev(int fd, const struct iovec* iov, int n, std::int64_t off)
{
    OpenFile* of = get(fd);
    if (!of)
        return -EBADF;
    std::string b;
    for (int i = 0; i < n; ++i)
    {
        touch_user(iov[i].iov_base, iov[i].iov_len, false);
        b.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
    }
    return file_write(of, b.data(), b.size(), off);
}
long sim_writev(int fd, const struct iovec* iov, int n) { Sys s(1); return ret(do_writev(fd, iov, n, -1)); }
long sim_pwritev(int fd, const struct iovec* iov, int n, off_t off) { Sys s(1); return ret(do_writev(fd, iov, n, off)); }
long sim_read(int fd, void* p, std::size_t n)
{
    Sys s(2);
    OpenFile* of = get(fd);
    if (!of || of->type != OpenFile::file)
        return ret<long>(-EBADF);
    if (of->pos >= of->ino->data.size())
        return 0;
    const std::size_t m = std::min(n, of->ino->data.size() - std::size_t(of->pos));
    std::memcpy(p, of->ino->data.data() + of->pos, m);
    of->pos += m;
    return long(m);
}
int sim_open(const char* path, int flags, ...) { Sys s(3); return ret(do_open(path, flags)); }
int sim_openat(int, const char* path, int flags, ...) { Sys s(3); return ret(do_open(path, flags)); }
int sim_creat(const char* path, mode_t) { Sys s(3); return ret(do_open(path, O_CREAT | O_WRONLY | O_TRUNC)); }
int sim_close(int fd)
{
    Sys s(4, std::uint64_t(fd));
    const int r = do_close(my(), fd);
    if (r < 0)
    {
        ++bad_close;
        bad_detail = "close of descriptor " + std::to_string(fd) + " which is not open";
    }
    else
        progress();
    if (r == 0 && fault(S_close_fail))
        return ret(-EINTR);
    return ret(r);
}
static int do_dup(int fd, int minfd)
{
    OpenFile* of = get(fd);
    if (!of)
        return -EBADF;
    if (fault(S_dup_fail))
        return -EMFILE;
    FdTable& t = my();
    if (t.fd.size() < std::size_t(minfd))
        t.fd.resize(std::size_t(minfd), nullptr);
    OpenFile* keep = of;
    ++keep->refs;
    for (std::size_t i = std::size_t(minfd);; ++i)
    {
        if (i == t.fd.size())
            t.fd.push_back(nullptr);
        if (!t.fd[i])
        {
            t.fd[i] = keep;
            t.dups.insert(int(i));
            progress();
            return int(i);
        }
    }
}
int sim_dup(int fd) { Sys s(5); return ret(do_dup(fd, 0)); }
int sim_dup2(int fd, int to)
{
    Sys s(5);
    OpenFile* of = get(fd);
    if (!of)
        return ret(-EBADF);
    if (fd == to)
        return to;
    FdTable& t = my();
    if (t.fd.size() <= std::size_t(to))
        t.fd.resize(std::size_t(to) + 1, nullptr);
    if (t.fd[std::size_t(to)])
        do_close(t, to);
    ++of->refs;
    t.fd[std::size_t(to)] = of;
    t.dups.insert(to);
    progress();
    return to;
}
int sim_dup3(int fd, int to, int) { return sim_dup2(fd, to); }
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    const long arg = va_arg(ap, long);
    va_end(ap);
    Sys s(6);
    OpenFile* of = get(fd);
    if (!of)
        return ret(-EBADF);
    switch (cmd)
    {
    case F_DUPFD:
    case F_DUPFD_CLOEXEC:
        return ret(do_dup(fd, int(arg)));
    case F_GETFL:
        return of->type == OpenFile::socket ? O_RDWR | (of->so->nonblock ? O_NONBLOCK : 0) : of->flags;
    case F_SETFL:
        if (of->type == OpenFile::socket)
            of->so->nonblock = arg & O_NONBLOCK;
        else
            of->flags = (of->flags & ~(O_APPEND | O_NONBLOCK)) | int(arg & (O_APPEND | O_NONBLOCK));
        return 0;
    default:
        return 0;
    }
}
int sim_fsync(int fd)
{
    Sys s(7);
    OpenFile* of = get(fd);
    if (!of)
        return ret(-EBADF);
    return ret(file_fsync(of));
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_syncfs(int fd) { return sim_fsync(fd); }
off_t sim_lseek(int fd, off_t off, int wh)
{
    Sys s(8);
    OpenFile* of = get(fd);
    if (!of)
        return ret<off_t>(-EBADF);
    if (of->type != OpenFile::file || of->ino->type == Inode::null_dev)
        return ret<off_t>(-ESPIPE);
    const off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? off_t(of->pos) : off_t(of->ino->data.size());
    if (base + off < 0)
        return ret<off_t>(-EINVAL);
    of->pos = std::uint64_t(base + off);
    return base + off;
}
int sim_ftruncate(int fd, off_t n)
{
    Sys s(9);
    OpenFile* of = get(fd);
    if (!of)
        return ret(-EBADF);
    if (of->type == OpenFile::mem)
        return int(::syscall(SYS_ftruncate, of->memfd, n));
    of->ino->data.resize(std::size_t(n));
    return 0;
}
static void fill_stat(Inode* i, struct stat* st)
{
    std::memset(st, 0, sizeof(*st));
    st->st_mode = (i->type == Inode::sock ? S_IFSOCK : i->type == Inode::null_dev ? S_IFCHR : S_IFREG) | 0644;
    st->st_size = off_t(i->data.size());
    st->st_nlink = 1;
    for (std::size_t k = 0; k < inodes.size(); ++k)
        if (inodes[k] == i)
            st->st_ino = k + 100;
}
int sim_fstat(int fd, struct stat* st)
{
    Sys s(10);
    OpenFile* of = get(fd);
    if (!of)
        return ret(-EBADF);
    if (of->type == OpenFile::file)
        fill_stat(of->ino, st);
    else
        std::memset(st, 0, sizeof(*st));
    return 0;
}
int sim_stat(const char* p, struct stat* st)
{
    Sys s(10);
    if (Inode* i = lookup(p))
    {
        fill_stat(i, st);
        return 0;
    }
    if (dirs.count(p))
    {
        std::memset(st, 0, sizeof(*st));
        st->st_mode = S_IFDIR | 0755;
        return 0;
    }
    return ret(-ENOENT);
}
int sim_lstat(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_unlink(const char* p)
{
    Sys s(11);
    if (!names.count(p))
        return ret(-ENOENT);
    names.erase(p);
    progress();
    return 0;
}
int sim_remove(const char* p) { return sim_unlink(p); }
int sim_rename(const char* a, const char* b)
{
    Sys s(11);
    if (!names.count(a))
        return ret(-ENOENT);
    rename_path(a, b);
    progress();
    return 0;
}
int sim_access(const char* p, int)
{
    Sys s(12);
    if (path_exists(p))
        return 0;
    return ret(-ENOENT);
}
int sim_fileno(FILE* f)
{
    auto i = streams.find(f);
    return i == streams.end() ? ::fileno(f) : i->second;
}
int sim_isatty(int) { errno = ENOTTY; return 0; }
pid_t sim_getpid() { return 4242 + (cur ? cur->proc->id : 0); }
pid_t sim_gettid() { return 5000 + (cur ? cur->id : 0); }
uid_t sim_geteuid() { return 0; }
char* sim_getenv(const char* n)
{
    static char d1[] = "/run/user/0";
    if (!std::strcmp(n, "XDG_RUNTIME_DIR"))
        return cfg.rundir ? d1 : nullptr;
    return nullptr;
}

// ---------------------------------------------------------------- memory mappings

void* sim_mmap(void* addr, std::size_t len, int prot, int flags, int fd, off_t off)
{
    Sys s(13, len);
    if (fault(S_mmap_fail))
    {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (len == 0)
    {
        errno = EINVAL;
        return MAP_FAILED;
    }
    const std::size_t n = (len + 4095) & ~std::size_t(4095);
    std::uintptr_t a;
    if (flags & (MAP_FIXED | MAP_FIXED_NOREPLACE))
    {
        a = reinterpret_cast<std::uintptr_t>(addr);
        if (a < map_base || a + n > map_base + map_size || (a & 4095))
        {
            errno = EINVAL;
            return MAP_FAILED;
        }
    }
    else
    {
        a = map_cur;
        map_cur += n + 4096; // guard page
        if (map_cur > map_base + map_size)
        {
            errno = ENOMEM;
            return MAP_FAILED;
        }
    }
    int rfd = -1;
    if (!(flags & MAP_ANONYMOUS))
    {
        OpenFile* of = get(fd);
        if (!of || of->type != OpenFile::mem)
        {
            errno = EBADF;
            return MAP_FAILED;
        }
        rfd = of->memfd;
    }
    const int f = (flags & ~(MAP_POPULATE | MAP_FIXED_NOREPLACE)) | MAP_FIXED;
    void* r = reinterpret_cast<void*>(::syscall(SYS_mmap, a, n, prot, f, rfd, off));
    if (r == MAP_FAILED)
        return r;
    for (std::size_t i = 0; i < n >> 12; ++i)
    {
        std::uint8_t& st = page_state[((a - map_base) >> 12) + i];
        if (!st)
            ++npages;
        st = 1;
    }
    map_reset(a, n);
    shadow_clear(a, n);
    if (rfd >= 0)
    {
        // pages of the same file alias each other
        static std::map<std::pair<int, off_t>, std::uintptr_t> canon;
        for (std::size_t i = 0; i < n; i += 4096)
        {
            auto ins = canon.insert({{rfd, off + off_t(i)}, a + i});
            if (!ins.second && ins.first->second != a + i)
                map_alias(a + i, ins.first->second);
        }
    }
    progress();
    return r;
}

int sim_munmap(void* addr, std::size_t len)
{
    Sys s(14, len);
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(addr);
    const std::size_t n = (len + 4095) & ~std::size_t(4095);
    if ((a & 4095) || n == 0 || a < map_base || a + n > map_base + map_size)
    {
        ++bad_unmap;
        bad_detail = "munmap of an address range that was never mapped";
        return ret(-EINVAL);
    }
    for (std::size_t i = 0; i < n >> 12; ++i)
    {
        std::uint8_t& st = page_state[((a - map_base) >> 12) + i];
        if (!st)
        {
            ++bad_unmap;
            bad_detail = "munmap of pages that are not mapped (unmapped twice)";
        }
        else
            --npages;
        st = 0;
    }
    ::syscall(SYS_mmap, a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    progress();
    return 0;
}

void* sim_mremap(void* old, std::size_t olen, std::size_t nlen, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    void* to = (flags & MREMAP_FIXED) ? va_arg(ap, void*) : nullptr;
    va_end(ap);
    Sys s(15, nlen);
    if (fault(S_mremap_fail))
    {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    const std::uintptr_t o = reinterpret_cast<std::uintptr_t>(old);
    const std::size_t n = (nlen + 4095) & ~std::size_t(4095);
    std::uintptr_t a;
    if (to)
        a = reinterpret_cast<std::uintptr_t>(to);
    else
    {
        a = map_cur;
        map_cur += n + 4096;
    }
    void* r = reinterpret_cast<void*>(::syscall(SYS_mremap, o, olen, nlen, MREMAP_FIXED | MREMAP_MAYMOVE, a));
    if (r == MAP_FAILED)
        return r;
    for (std::size_t i = 0; i < n >> 12; ++i)
    {
        std::uint8_t& st = page_state[((a - map_base) >> 12) + i];
        if (!st)
            ++npages;
        st = 1;
    }
    map_reset(a, n);
    shadow_clear(a, n);
    if (olen == 0)
        for (std::size_t i = 0; i < n; i += 4096)
            map_alias(a + i, o + i);
    else
    {
        const std::size_t on = (olen + 4095) & ~std::size_t(4095);
        for (std::size_t i = 0; i < on >> 12; ++i)
        {
            std::uint8_t& st = page_state[((o - map_base) >> 12) + i];
            if (st)
                --npages;
            st = 0;
        }
    }
    progress();
    return r;
}
int sim_mprotect(void* a, std::size_t n, int prot) { Sys s(16); return int(::syscall(SYS_mprotect, a, n, prot)); }
int sim_madvise(void*, std::size_t, int) { Sys s(16); return 0; }
int sim_mlock(const void*, std::size_t) { Sys s(16); return 0; }
int sim_memfd_create(const char*, unsigned)
{
    Sys s(17);
    if (fault(S_open_fail))
        return ret(-EMFILE);
    OpenFile* of = new OpenFile;
    of->type = OpenFile::mem;
    of->memfd = int(::syscall(SYS_memfd_create, "sim", 0));
    of->creator = 1;
    return install(my(), of);
}
int sim_shm_open(const char*, int, mode_t) { return sim_memfd_create("", 0); }
int sim_shm_unlink(const char*) { return 0; }

// ---------------------------------------------------------------- clocks

static void maybe_jump()
{
    std::int64_t d = 0;
    static const std::int64_t sizes[] = {1000000ll, 1000000000ll, 60000000000ll, 3600000000000ll, 86400000000000ll};
    if (const std::uint32_t k = fault(S_clock_jump, 5))
        d = sizes[k - 1];
    else if (const std::uint32_t k2 = fault(S_clock_back, 5))
        d = -sizes[k2 - 1];
    if (d && wall_now() + d > 86400ll * 10 * 1000000000ll)
    {
        wall_off += d;
        clock_hist.push_back({now_ns, wall_off});
    }
    if (const std::uint32_t k = fault(S_time_skip, 4))
    {
        static const std::uint64_t skip[] = {1000000ull, 1000000000ull, 45000000000ull, 180000000000ull};
        now_ns += skip[k - 1];
    }
}
static std::int64_t read_clock(clockid_t c)
{
    switch (c)
    {
    case CLOCK_REALTIME:
        return wall_now();
    case CLOCK_REALTIME_COARSE:
    {
        const std::int64_t w = wall_now();
        std::int64_t q = w / 4000000 * 4000000;
        if (q > w)
            q -= 4000000;
        return q;
    }
    default:
        return std::int64_t(now_ns) + cfg.mono0;
    }
}
static void to_ts(std::int64_t t, struct timespec* ts)
{
    std::int64_t s = t / 1000000000ll, n = t % 1000000000ll;
    if (n < 0)
    {
        n += 1000000000ll;
        --s;
    }
    ts->tv_sec = s;
    ts->tv_nsec = n;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!in_sut())
        return int(::syscall(SYS_clock_gettime, c, ts));
    Host h;
    ++cur->nclock;
    maybe_jump();
    point(K_SYS + 18);
    const std::int64_t val = read_clock(c);
    clock_reads.push_back({cur->id, steps, int(c), val, now_ns});
    to_ts(val, ts);
    mix(std::uint64_t(ts->tv_nsec));
    return 0;
}
int gettimeofday(struct timeval* tv, void*) __THROW;
int gettimeofday(struct timeval* tv, void*) __THROW
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) __THROW
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
static int do_sleep(std::uint64_t until)
{
    Host h;
    ++cur->nsys;
    maybe_jump();
    if (const std::uint32_t k = fault(S_sleep_overrun, 4))
        until += 1000000ull * (k * k * 10);
    static int key;
    block(&key, until ? until : 1);
    last_useful = steps;
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* rq, struct timespec*)
{
    if (!in_sut())
        return 0;
    std::int64_t t = std::int64_t(rq->tv_sec) * 1000000000ll + rq->tv_nsec;
    if (flags & TIMER_ABSTIME)
        t -= c == CLOCK_REALTIME ? wall_off : cfg.mono0;
    else
        t += std::int64_t(now_ns);
    return do_sleep(t <= 0 ? 1 : std::uint64_t(t));
}
int nanosleep(const struct timespec* rq, struct timespec*)
{
    if (!in_sut())
        return 0;
    return do_sleep(now_ns + std::uint64_t(rq->tv_sec) * 1000000000ull + std::uint64_t(rq->tv_nsec));
}
int usleep(useconds_t us)
{
    struct timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
std::uint64_t sim_rdtsc()
{
    if (!cur)
        return 0;
    const bool rec = in_sut();
    Host h;
    maybe_jump();
    point(K_SYS + 19);
    const std::uint64_t v = tsc_now();
    if (rec)
        clock_reads.push_back({cur->id, steps, CLK_TSC, std::int64_t(v), now_ns});
    return v;
}
void sim_cpuid(std::uint32_t* r)
{
    // in: r[0] leaf; out: eax ebx ecx edx
    const std::uint32_t leaf = r[0];
    r[0] = r[1] = r[2] = r[3] = 0;
    // crystal 24 MHz, ratio hz/24e6 = num/2
    switch (leaf)
    {
    case 0:
        r[0] = cfg.cpuid_mode == 1 ? 0x0d : 0x16;
        break;
    case 1:
        // family 6 model: skylake (0x5E) in mode 2, unknown otherwise
        r[0] = cfg.cpuid_mode == 2 ? 0x000506E3 : 0x000206A7;
        break;
    case 0x15:
        r[0] = 2;
        r[1] = std::uint32_t(cfg.tsc_hz / 12000000ull);
        r[2] = cfg.cpuid_mode == 0 ? 24000000 : 0;
        break;
    default:
        break;
    }
}

// ---------------------------------------------------------------- sockets

static std::string sun_path(const struct sockaddr* a, socklen_t len)
{
    const struct sockaddr_un* u = reinterpret_cast<const struct sockaddr_un*>(a);
    const std::size_t max = len > offsetof(struct sockaddr_un, sun_path) ? len - offsetof(struct sockaddr_un, sun_path) : 0;
    if (max && u->sun_path[0] == '\0')
        return std::string(u->sun_path, max);
    return std::string(u->sun_path, ::strnlen(u->sun_path, max));
}
static OpenFile* sock_of(int fd, int& e)
{
    OpenFile* of = get(fd);
    if (!of)
    {
        e = -EBADF;
        return nullptr;
    }
    if (of->type != OpenFile::socket)
    {
        e = -ENOTSOCK;
        return nullptr;
    }
    return of;
}
int sim_socket(int, int type, int)
{
    Sys s(20);
    if (fault(S_sock_fail))
        return ret(-EMFILE);
    OpenFile* of = new OpenFile;
    of->type = OpenFile::socket;
    of->so = new Sock;
    of->so->nonblock = type & SOCK_NONBLOCK;
    of->so->cap = cfg.sock_cap;
    of->creator = 1;
    progress();
    return install(my(), of);
}
int sim_bind(int fd, const struct sockaddr* a, socklen_t len)
{
    Sys s(21);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret(e);
    const std::string p = sun_path(a, len);
    bind_log.push_back({cur->id, p, false});
    if (fault(S_bind_fail))
        return ret(-EACCES);
    if (path_exists(p))
        return ret(-EADDRINUSE);
    if (p.empty() || (p[0] != '\0' && !dirs.count(parent(p))))
        return ret(-ENOENT);
    bind_log.back().ok = true;
    Inode* i = create_file(p);
    i->type = Inode::sock;
    i->listener = of->so;
    of->so->bound = true;
    of->so->path = p;
    progress();
    return 0;
}
int sim_listen(int fd, int n)
{
    Sys s(22);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret(e);
    if (fault(S_listen_fail))
        return ret(-ENOBUFS);
    of->so->listening = true;
    of->so->backlog = n;
    progress();
    return 0;
}
static int do_accept(int fd, bool nonblock)
{
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return e;
    if (!of->so->listening)
        return -EINVAL;
    while (of->so->pending.empty())
    {
        if (of->so->nonblock)
            return -EAGAIN;
        block(&poll_key);
    }
    if (const std::uint32_t k = fault(S_accept_fail, 3))
    {
        if (k == 2)
        {
            // connection gone before it was accepted
            Sock* c = of->so->pending.front();
            of->so->pending.pop_front();
            close_sock(c);
            return -ECONNABORTED;
        }
        return k == 1 ? -EMFILE : -EINTR;
    }
    Sock* c = of->so->pending.front();
    of->so->pending.pop_front();
    c->nonblock = nonblock;
    OpenFile* nf = new OpenFile;
    nf->type = OpenFile::socket;
    nf->so = c;
    nf->creator = 1;
    notify();
    return install(my(), nf);
}
int sim_accept4(int fd, struct sockaddr*, socklen_t*, int flags) { Sys s(23); return ret(do_accept(fd, flags & SOCK_NONBLOCK)); }
int sim_accept(int fd, struct sockaddr*, socklen_t*) { Sys s(23); return ret(do_accept(fd, false)); }

static int do_connect(Sock* so, const std::string& p)
{
    if (fault(S_connect_fail))
        return -ECONNREFUSED;
    for (;;)
    {
        Inode* i = lookup(p);
        if (!i)
            return -ENOENT;
        if (i->type != Inode::sock || !i->listener || !i->listener->listening || i->listener->closed)
            return -ECONNREFUSED;
        Sock* l = i->listener;
        if (int(l->pending.size()) <= l->backlog)
        {
            Sock* c = new Sock;
            c->cap = cfg.sock_cap;
            c->peer = so;
            so->peer = c;
            l->pending.push_back(c);
            notify();
            return 0;
        }
        if (so->nonblock)
            return -EAGAIN;
        block(&poll_key);
    }
}
static long sock_result(long r)
{
    if (r < 0 && r != -EINTR && cur && cur->proc)
        ++cur->proc->sockerr;
    return r;
}
int sim_connect(int fd, const struct sockaddr* a, socklen_t len)
{
    Sys s(24);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret(e);
    return ret(int(sock_result(do_connect(of->so, sun_path(a, len)))));
}
static long do_send(Sock* so, const std::string& msg, int flags, bool sut)
{
    if (sut && fault(S_send_eintr))
        return -EINTR;
    if (sut)
        if (const std::uint32_t k = fault(S_send_fail, 2))
            return k == 1 ? -ENOBUFS : -ECONNRESET;
    if (!so->peer)
        return -ENOTCONN;
    if (so->err)
    {
        const int e = so->err;
        so->err = 0;
        return -e;
    }
    for (;;)
    {
        if (so->peer_closed || so->peer->closed)
        {
            if (!(flags & MSG_NOSIGNAL) && sut)
                violation("sigpipe", "process killed by SIGPIPE writing to a disconnected client");
            return -EPIPE;
        }
        if (so->peer->rx.size() < so->peer->cap && !(sut && fault(S_send_eagain) && (so->nonblock || (flags & MSG_DONTWAIT))))
            break;
        if (so->nonblock || (flags & MSG_DONTWAIT))
            return -EAGAIN;
        block(&poll_key);
    }
    so->peer->rx.push_back(msg);
    notify();
    return long(msg.size());
}
static long do_recv(Sock* so, char* p, std::size_t n, int flags, bool sut, int* oflags)
{
    if (sut && fault(S_recv_eintr))
        return -EINTR;
    if (sut && fault(S_recv_fail))
        return -ECONNRESET;
    for (;;)
    {
        if (so->err)
        {
            const int e = so->err;
            so->err = 0;
            return -e;
        }
        if (!so->rx.empty())
            break;
        if (!so->peer)
            return -ENOTCONN;
        if (so->peer_closed)
            return 0;
        if (so->nonblock || (flags & MSG_DONTWAIT))
            return -EAGAIN;
        block(&poll_key);
    }
    std::string m = so->rx.front();
    if (!(flags & MSG_PEEK))
        so->rx.pop_front();
    const std::size_t k = std::min(n, m.size());
    std::memcpy(p, m.data(), k);
    if (oflags && m.size() > n)
        *oflags |= MSG_TRUNC;
    notify();
    return long((flags & MSG_TRUNC) ? m.size() : k);
}
ssize_t sim_sendmsg(int fd, const struct msghdr* m, int flags)
{
    Sys s(25);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret<long>(e);
    std::string b;
    for (std::size_t i = 0; i < m->msg_iovlen; ++i)
        b.append(static_cast<const char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
    return ret(sock_result(do_send(of->so, b, flags, true)));
}
ssize_t sim_send(int fd, const void* p, std::size_t n, int flags)
{
    Sys s(25);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret<long>(e);
    return ret(sock_result(do_send(of->so, std::string(static_cast<const char*>(p), n), flags, true)));
}
ssize_t sim_recvmsg(int fd, struct msghdr* m, int flags)
{
    Sys s(26);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret<long>(e);
    m->msg_flags = 0;
    return ret(sock_result(do_recv(of->so, static_cast<char*>(m->msg_iov[0].iov_base), m->msg_iov[0].iov_len, flags, true, &m->msg_flags)));
}
ssize_t sim_recv(int fd, void* p, std::size_t n, int flags)
{
    Sys s(26);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret<long>(e);
    return ret(sock_result(do_recv(of->so, static_cast<char*>(p), n, flags, true, nullptr)));
}
int sim_shutdown(int fd, int)
{
    Sys s(27);
    int e = 0;
    OpenFile* of = sock_of(fd, e);
    if (!of)
        return ret(e);
    if (of->so->peer)
        of->so->peer->peer_closed = true;
    notify();
    return 0;
}
int sim_setsockopt(int, int, int, const void*, socklen_t) { Sys s(28); return 0; }
int sim_getsockopt(int, int, int, void*, socklen_t*) { Sys s(28); return 0; }

static short poll_bits(int fd, short ev)
{
    OpenFile* of = get(fd);
    if (!of)
        return POLLNVAL;
    if (of->type != OpenFile::socket)
        return short(ev & (POLLIN | POLLOUT));
    Sock* so = of->so;
    short r = 0;
    if (so->listening)
        return so->pending.empty() ? 0 : short(ev & POLLIN);
    if (!so->rx.empty() || so->peer_closed)
        r |= short(ev & (POLLIN | POLLRDNORM));
    if (so->peer_closed)
        r |= short(POLLHUP | (ev & POLLRDHUP));
    if (so->err)
        r |= POLLERR;
    if (so->peer_closed || (so->peer && so->peer->rx.size() < so->peer->cap))
        r |= short(ev & (POLLOUT | POLLWRNORM));
    return r;
}
static int do_poll(struct pollfd* p, nfds_t n, std::int64_t timeout_ns)
{
    if (fault(S_poll_eintr))
    {
        for (nfds_t i = 0; i < n; ++i)
            p[i].revents = 0;
        return -EINTR;
    }
    const std::uint64_t dl = timeout_ns < 0 ? 0 : now_ns + std::uint64_t(timeout_ns);
    for (;;)
    {
        int c = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = p[i].fd < 0 ? short(0) : poll_bits(p[i].fd, p[i].events);
            c += p[i].revents != 0;
        }
        if (c || timeout_ns == 0)
            return c;
        if (dl && now_ns >= dl)
            return 0;
        block(&poll_key, dl);
    }
}
int sim_poll(struct pollfd* p, nfds_t n, int timeout)
{
    Sys s(29);
    return ret(do_poll(p, n, timeout < 0 ? -1 : std::int64_t(timeout) * 1000000ll));
}
int sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*)
{
    Sys s(29);
    return ret(do_poll(p, n, ts ? std::int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec : -1));
}
}

namespace vk
{
int k_socket_connect(const std::string& path, std::size_t, bool nonblock)
{
    OpenFile* of = new OpenFile;
    of->type = OpenFile::socket;
    of->so = new Sock;
    of->so->nonblock = nonblock;
    of->so->cap = cfg.sock_cap;
    point(K_SYS + 24);
    const int r = do_connect(of->so, path);
    if (r < 0)
        return r;
    return install(my(), of);
}
long k_send(int fd, const void* p, std::size_t n, bool dontwait)
{
    point(K_SYS + 25);
    OpenFile* of = get(fd);
    return do_send(of->so, std::string(static_cast<const char*>(p), n), MSG_NOSIGNAL | (dontwait ? MSG_DONTWAIT : 0), false);
}
long k_recv(int fd, void* p, std::size_t n, bool dontwait)
{
    point(K_SYS + 26);
    OpenFile* of = get(fd);
    return do_recv(of->so, static_cast<char*>(p), n, dontwait ? MSG_DONTWAIT : 0, false, nullptr);
}
void k_close(int fd)
{
    point(K_SYS + 4);
    do_close(my(), fd);
    notify();
}
}

// ---------------------------------------------------------------- io_uring

namespace vk
{
struct UOp
{
    struct io_uring_sqe sqe;
    OpenFile* of = nullptr; // reference taken at submission
    bool drain = false;
    std::uint64_t seq = 0;
};
struct URing
{
    struct io_uring* r = nullptr;
    Proc* proc = nullptr;
    bool sqpoll = false;
    bool dead = false;
    unsigned sq_head = 0, sq_tail = 0, sq_flags = 0, sq_dropped = 0;
    unsigned cq_head = 0, cq_tail = 0, cq_flags = 0, cq_overflow = 0;
    unsigned sq_mask = 0, cq_mask = 0, sq_n = 0, cq_n = 0;
    std::vector<unsigned> array;
    std::vector<struct io_uring_sqe> sqes;
    std::vector<struct io_uring_cqe> cqes;
    std::deque<struct io_uring_cqe> overflow;
    std::vector<struct iovec> bufs;
    std::vector<UOp> ops; // submitted, not completed
    std::uint64_t seq = 0;
    int fd = -1;
};

static void consume_sq(URing* u, unsigned max)
{
    while (max-- && u->sq_head != u->sq_tail)
    {
        UOp op;
        op.sqe = u->sqes[u->array[u->sq_head & u->sq_mask] & u->sq_mask];
        op.seq = u->seq++;
        op.drain = op.sqe.flags & IOSQE_IO_DRAIN;
        ++u->sq_head;
        FdTable& t = table(u->proc);
        bool draining = op.drain;
        for (const UOp& o : u->ops)
            draining |= o.drain;
        if (!draining && op.sqe.opcode != IORING_OP_CLOSE && op.sqe.opcode != IORING_OP_NOP)
        {
            const std::size_t fd = std::size_t(op.sqe.fd);
            op.of = fd < t.fd.size() ? t.fd[fd] : nullptr;
            if (op.of)
                ++op.of->refs;
        }
        u->ops.push_back(op);
        uring_inflight_total++;
        uring_max_inflight = std::max(uring_max_inflight, std::uint64_t(u->ops.size()));
    }
    progress();
}

static void post_cqe(URing* u, std::uint64_t data, int res)
{
    struct io_uring_cqe c{};
    c.user_data = data;
    c.res = res;
    if (u->cq_tail - u->cq_head >= u->cq_n)
    {
        u->overflow.push_back(c);
        u->sq_flags |= IORING_SQ_CQ_OVERFLOW;
    }
    else
    {
        u->cqes[u->cq_tail & u->cq_mask] = c;
        ++u->cq_tail;
    }
    wake(u);
}

static void flush_overflow(URing* u)
{
    while (!u->overflow.empty() && u->cq_tail - u->cq_head < u->cq_n)
    {
        u->cqes[u->cq_tail & u->cq_mask] = u->overflow.front();
        u->overflow.pop_front();
        ++u->cq_tail;
    }
    if (u->overflow.empty())
        u->sq_flags &= ~unsigned(IORING_SQ_CQ_OVERFLOW);
}

static OpenFile* target(URing* u, const UOp& op)
{
    if (op.of)
        return op.of;
    if (op.sqe.opcode == IORING_OP_CLOSE || op.sqe.opcode == IORING_OP_NOP)
        return nullptr;
    FdTable& t = table(u->proc);
    const std::size_t fd = std::size_t(op.sqe.fd);
    return fd < t.fd.size() ? t.fd[fd] : nullptr;
}

static bool op_ready(URing* u, std::size_t i)
{
    const UOp& op = u->ops[i];
    OpenFile* of = target(u, op);
    for (std::size_t j = 0; j < i; ++j)
    {
        if (op.drain || u->ops[j].drain)
            return false; // a drain waits for everything before; everything after waits for it
        // writes to one append-mode file are carried out in submission order
        if (cfg.append_inorder && of && of == target(u, u->ops[j]) && (of->flags & O_APPEND))
            return false;
        if ((u->ops[j].sqe.flags & IOSQE_IO_LINK) && j + 1 == i)
            return false;
    }
    return true;
}

static bool k_pending()
{
    for (URing* u : rings)
    {
        if (u->dead)
            continue;
        if (!u->ops.empty())
            return true;
        if (u->sqpoll && u->sq_head != u->sq_tail)
            return true;
    }
    return false;
}

static long exec_write(URing* u, UOp& op, const char* p, std::size_t n)
{
    OpenFile* of = op.of;
    if (!of)
    {
        FdTable& t = table(u->proc);
        const std::size_t fd = std::size_t(op.sqe.fd);
        of = fd < t.fd.size() ? t.fd[fd] : nullptr;
        if (of)
        {
            ++of->refs;
            op.of = of;
        }
    }
    if (!of || of->type != OpenFile::file)
        return -EBADF;
    if ((of->flags & O_ACCMODE) == O_RDONLY)
        return -EBADF;
    if (fault(S_uring_eio))
        return -EIO;
    if (of->ino->full)
        return -ENOSPC;
    const bool app = (of->flags & O_APPEND) && cfg.append_inorder;
    if (!app && fault(S_uring_eagain))
        return -EAGAIN;
    std::size_t m = n;
    if (!app && n > 1)
        if (const std::uint32_t k = fault(S_uring_short, 4))
        {
            m = k == 1 ? 1 : k == 2 ? n / 2 : k == 3 ? n - 1 : 0;
            ++n_short;
        }
    if (m)
        apply_write(of, p, m, op.sqe.off == ~0ull ? -1 : std::int64_t(op.sqe.off));
    return long(m);
}

static void complete(URing* u, std::size_t i)
{
    UOp op = u->ops[i];
    u->ops.erase(u->ops.begin() + long(i));
    long res = 0;
    const char* p = reinterpret_cast<const char*>(op.sqe.addr);
    switch (op.sqe.opcode)
    {
    case IORING_OP_WRITE_FIXED:
    {
        const std::size_t bi = op.sqe.buf_index;
        if (bi >= u->bufs.size())
            res = -EFAULT;
        else
        {
            const char* b = static_cast<const char*>(u->bufs[bi].iov_base);
            if (p < b || p + op.sqe.len > b + u->bufs[bi].iov_len)
                res = -EFAULT;
            else
                res = exec_write(u, op, p, op.sqe.len);
        }
        break;
    }
    case IORING_OP_WRITE:
        res = exec_write(u, op, p, op.sqe.len);
        break;
    case IORING_OP_WRITEV:
    {
        std::string b;
        const struct iovec* v = reinterpret_cast<const struct iovec*>(p);
        for (unsigned k = 0; k < op.sqe.len; ++k)
            b.append(static_cast<const char*>(v[k].iov_base), v[k].iov_len);
        res = exec_write(u, op, b.data(), b.size());
        break;
    }
    case IORING_OP_FSYNC:
        if (!op.of)
        {
            FdTable& t = table(u->proc);
            const std::size_t fd = std::size_t(op.sqe.fd);
            op.of = fd < t.fd.size() ? t.fd[fd] : nullptr;
            if (op.of)
                ++op.of->refs;
        }
        res = op.of ? file_fsync(op.of) : -EBADF;
        break;
    case IORING_OP_CLOSE:
        res = do_close(table(u->proc), op.sqe.fd);
        if (res < 0)
        {
            ++bad_close;
            bad_detail = "asynchronous close of descriptor " + std::to_string(op.sqe.fd) + " which is not open";
        }
        else if (fault(S_close_fail))
            res = -EIO;
        break;
    case IORING_OP_NOP:
        break;
    default:
        res = -EINVAL;
    }
    if (op.of)
        unref(op.of);
    mix(std::uint64_t(res) * 77 + op.seq);
    post_cqe(u, op.sqe.user_data, int(res));
}

static void k_step()
{
    // one kernel action: take entries from a polled submission queue, or
    // carry out one ready operation
    struct Act { URing* u; long i; };
    static std::vector<Act> acts;
    acts.clear();
    for (URing* u : rings)
    {
        if (u->dead)
            continue;
        if (u->sqpoll && u->sq_head != u->sq_tail)
            acts.push_back({u, -1});
        for (std::size_t i = 0; i < u->ops.size() && acts.size() < 64; ++i)
            if (op_ready(u, i))
                acts.push_back({u, long(i)});
    }
    if (acts.empty())
        return;
    const Act a = acts[choose(S_uring_pick, std::uint32_t(acts.size()))];
    if (a.i < 0)
        consume_sq(a.u, 1 + choose(S_uring_pick, 4));
    else
        complete(a.u, std::size_t(a.i));
}

bool kernel_busy() { return k_pending(); }
// A process died: requests the kernel has not started may be cancelled or
// may still be carried out.
static void proc_rings_dead(Proc* p)
{
    for (URing* u : rings)
    {
        if (u->dead || u->proc != p)
            continue;
        u->sq_tail = u->sq_head;
        for (std::size_t i = 0; i < u->ops.size();)
            if (!u->ops[i].of || choose(S_uring_cancel_split, 2))
            {
                if (u->ops[i].of)
                    unref(u->ops[i].of);
                u->ops.erase(u->ops.begin() + long(i));
            }
            else
                ++i;
    }
}
void kill_rings()
{
    for (URing* u : rings)
        u->dead = true;
}

static URing* ring_of(struct io_uring* r)
{
    for (URing* u : rings)
        if (u->r == r && !u->dead)
            return u;
    violation("uring-misuse", "operation on an io_uring that is not initialised");
}
}

extern "C" {
int sim_io_uring_queue_init_params(unsigned entries, struct io_uring* r, struct io_uring_params* p)
{
    Sys s(40);
    const std::uint32_t k = fault(S_uring_setup_fail, 4);
    if (k)
        return k == 1 ? -ENOMEM : k == 2 ? -EPERM : k == 3 ? -ENOSYS : -EMFILE;
    if (!cfg.uring_ok)
        return -ENOSYS;
    if (entries == 0 || entries > 32768)
        return -EINVAL;
    unsigned n = 1;
    while (n < entries)
        n <<= 1;
    URing* u = new URing;
    u->r = r;
    u->proc = cur->proc;
    u->sqpoll = p->flags & IORING_SETUP_SQPOLL;
    u->sq_n = n;
    u->cq_n = (p->flags & IORING_SETUP_CQSIZE) ? p->cq_entries : 2 * n;
    u->sq_mask = n - 1;
    u->cq_mask = u->cq_n - 1;
    u->array.resize(n);
    for (unsigned i = 0; i < n; ++i)
        u->array[i] = i;
    u->sqes.resize(n);
    u->cqes.resize(u->cq_n);
    std::memset(r, 0, sizeof(*r));
    r->sq.khead = &u->sq_head;
    r->sq.ktail = &u->sq_tail;
    r->sq.kflags = &u->sq_flags;
    r->sq.kdropped = &u->sq_dropped;
    r->sq.kring_mask = &u->sq_mask;
    r->sq.kring_entries = &u->sq_n;
    r->sq.array = u->array.data();
    r->sq.sqes = u->sqes.data();
    r->sq.ring_mask = u->sq_mask;
    r->sq.ring_entries = n;
    r->cq.khead = &u->cq_head;
    r->cq.ktail = &u->cq_tail;
    r->cq.kflags = &u->cq_flags;
    r->cq.koverflow = &u->cq_overflow;
    r->cq.kring_mask = &u->cq_mask;
    r->cq.kring_entries = &u->cq_n;
    r->cq.cqes = u->cqes.data();
    r->cq.ring_mask = u->cq_mask;
    r->cq.ring_entries = u->cq_n;
    r->flags = p->flags;
    r->features = p->features = IORING_FEAT_NODROP | IORING_FEAT_SINGLE_MMAP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_RW_CUR_POS;
    OpenFile* of = new OpenFile;
    of->type = OpenFile::uring;
    of->ur = u;
    of->creator = 1;
    u->fd = install(my(), of);
    r->ring_fd = r->enter_ring_fd = u->fd;
    rings.push_back(u);
    ++n_uring_rings;
    progress();
    return 0;
}
int sim_io_uring_queue_init(unsigned entries, struct io_uring* r, unsigned flags)
{
    struct io_uring_params p{};
    p.flags = flags;
    return sim_io_uring_queue_init_params(entries, r, &p);
}
void sim_io_uring_queue_exit(struct io_uring* r)
{
    Sys s(41);
    URing* u = ring_of(r);
    // the kernel waits for / cancels what is still in flight; writes that
    // were submitted complete, entries never submitted are lost
    while (!u->ops.empty())
    {
        std::size_t i = 0;
        while (i < u->ops.size() && !op_ready(u, i))
            ++i;
        complete(u, i);
    }
    u->dead = true;
    --n_uring_rings;
    do_close(my(), u->fd);
    progress();
}
static int do_submit(URing* u)
{
    struct io_uring* r = u->r;
    u->sq_tail = r->sq.sqe_tail;
    r->sq.sqe_head = r->sq.sqe_tail;
    const unsigned n = u->sq_tail - u->sq_head;
    if (!n)
        return 0;
    if (u->sqpoll)
    {
        progress();
        return int(n);
    }
    if (const std::uint32_t k = fault(S_uring_submit_fail, 3))
        return k == 1 ? -EAGAIN : k == 2 ? -EINTR : -EBUSY;
    unsigned m = n;
    if (n > 1 && fault(S_uring_submit_partial))
        m = n - 1;
    consume_sq(u, m);
    return int(m);
}
int sim_io_uring_submit(struct io_uring* r)
{
    Sys s(42);
    return do_submit(ring_of(r));
}
static int do_get_cqe(URing* u, struct io_uring_cqe** out, unsigned wait_nr, std::uint64_t deadline)
{
    bool first = true;
    for (;;)
    {
        flush_overflow(u);
        if (u->cq_tail != u->cq_head)
        {
            *out = &u->cqes[u->cq_head & u->cq_mask];
            progress();
            return 0;
        }
        *out = nullptr;
        if (!wait_nr)
            return -EAGAIN;
        if (first && fault(S_uring_wait_eintr))
            return -EINTR;
        first = false;
        if (!block(u, deadline))
            return -ETIME;
    }
}
int sim___io_uring_get_cqe(struct io_uring* r, struct io_uring_cqe** out, unsigned submit, unsigned wait_nr, sigset_t*)
{
    Sys s(43);
    URing* u = ring_of(r);
    if (submit)
        do_submit(u);
    return do_get_cqe(u, out, wait_nr, 0);
}
int sim_io_uring_submit_and_wait(struct io_uring* r, unsigned wait_nr)
{
    Sys s(42);
    URing* u = ring_of(r);
    const int n = do_submit(u);
    if (n < 0)
        return n;
    while (wait_nr && u->cq_tail - u->cq_head < wait_nr)
        block(u);
    return n;
}
int sim_io_uring_wait_cqes(struct io_uring* r, struct io_uring_cqe** out, unsigned nr, struct __kernel_timespec* ts, sigset_t*)
{
    Sys s(43);
    return do_get_cqe(ring_of(r), out, nr ? nr : 1, ts ? now_ns + std::uint64_t(ts->tv_sec) * 1000000000ull + std::uint64_t(ts->tv_nsec) : 0);
}
int sim_io_uring_wait_cqe_timeout(struct io_uring* r, struct io_uring_cqe** out, struct __kernel_timespec* ts)
{
    return sim_io_uring_wait_cqes(r, out, 1, ts, nullptr);
}
int sim_io_uring_get_events(struct io_uring* r)
{
    Sys s(43);
    flush_overflow(ring_of(r));
    return 0;
}
unsigned sim_io_uring_peek_batch_cqe(struct io_uring* r, struct io_uring_cqe** out, unsigned n)
{
    Sys s(43);
    URing* u = ring_of(r);
    flush_overflow(u);
    unsigned k = 0;
    for (; k < n && u->cq_head + k != u->cq_tail; ++k)
        out[k] = &u->cqes[(u->cq_head + k) & u->cq_mask];
    return k;
}
int sim_io_uring_register_buffers(struct io_uring* r, const struct iovec* v, unsigned n)
{
    Sys s(44);
    URing* u = ring_of(r);
    if (fault(S_uring_register_fail))
        return -ENOMEM;
    u->bufs.assign(v, v + n);
    progress();
    return 0;
}
int sim_io_uring_unregister_buffers(struct io_uring* r)
{
    Sys s(44);
    ring_of(r)->bufs.clear();
    return 0;
}
int sim___io_uring_sqring_wait(struct io_uring* r)
{
    Sys s(45);
    URing* u = ring_of(r);
    while (u->sq_tail - u->sq_head >= u->sq_n)
    {
        if (!u->sqpoll)
            return -EINVAL;
        yield_now(K_SYS + 45);
    }
    return 0;
}

long sim_futex(unsigned*, int, unsigned, const struct timespec*);
long sim_syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    switch (nr)
    {
    case SYS_futex:
        return sim_futex(reinterpret_cast<unsigned*>(a[0]), int(a[1]), unsigned(a[2]), reinterpret_cast<const struct timespec*>(a[3]));
    case SYS_io_uring_setup:
    {
        Sys s(40);
        if (!cfg.uring_ok || fault(S_uring_enosys))
            errno = ENOSYS;
        else
            errno = a[1] ? EINVAL : EFAULT;
        return -1;
    }
    case SYS_gettid:
        return sim_gettid();
    case SYS_sched_yield:
        return ::sched_yield();
    default:
    {
        Sys s(46);
        errno = ENOSYS;
        return -1;
    }
    }
}

[[noreturn]] void sim_exit(int code)
{
    Host h;
    cur->proc->exited = true;
    kill_proc(cur->proc, code);
    for (;;)
        ::abort();
}
[[noreturn]] void sim__exit(int code) { sim_exit(code); }
extern void (*sim_on_abort)();
void (*sim_on_abort)();
[[noreturn]] void sim_abort()
{
    Host h;
    if (sim_on_abort)
        sim_on_abort();
    kill_proc(cur->proc, 134);
    for (;;)
        ::abort();
}
}
