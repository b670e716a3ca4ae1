#include "glue.h"
#include "xtr/logger.hpp"
#include "xtr/command_path.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#include "xtr/io/io_uring_fd_storage.hpp"
#include "xtr/io/fd_storage.hpp"
#include "xtr/detail/commands/frame.hpp"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
#include "xtr/detail/strzcpy.hpp"
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <system_error>

namespace
{
struct SimClock
{
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<std::chrono::system_clock, duration>;
    static constexpr bool is_steady = false;
    int id = 0;
    time_point now() const { return time_point(duration(h_clock(id))); }
};

[[noreturn]] void do_throw(int k, const char* what)
{
    switch (k)
    {
    case 2:
        throw std::bad_alloc();
    case 3:
        throw std::system_error(EIO, std::generic_category(), what);
    default:
        throw std::runtime_error(what);
    }
}

struct HostStorage final : xtr::storage_interface
{
    int id;
    explicit HostStorage(int i) : id(i) {}
    std::span<char> allocate_buffer() override
    {
        char* p = nullptr;
        std::size_t n = 0;
        if (const int k = h_st_alloc(id, &p, &n))
            do_throw(k, "simulated allocate failure");
        return {p, n};
    }
    void submit_buffer(char* p, std::size_t n) override
    {
        if (const int k = h_st_submit(id, p, n))
            do_throw(k, "simulated submit failure");
    }
    void flush() override
    {
        if (const int k = h_st_flush(id))
            do_throw(k, "simulated flush failure");
    }
    void sync() noexcept override { h_st_sync(id); }
    int reopen() noexcept override { return h_st_reopen(id); }
    ~HostStorage() override { h_st_destroy(id); }
};

const char* custom_style(xtr::log_level_t l)
{
    switch (l)
    {
    case xtr::log_level_t::fatal: return "[fatal] ";
    case xtr::log_level_t::error: return "[error] ";
    case xtr::log_level_t::warning: return "[warning] ";
    case xtr::log_level_t::info: return "";
    case xtr::log_level_t::debug: return "[dbg] ";
    default: return "?";
    }
}
xtr::log_level_style_t style_of(int k)
{
    return k == 0 ? xtr::default_log_level_style : k == 1 ? xtr::systemd_log_level_style : custom_style;
}

xtr::storage_interface_ptr make_storage(const GLogger* s)
{
    switch (s->kind)
    {
    case 3:
        if (s->bufcap)
            return std::make_unique<xtr::posix_fd_storage>(s->fd, s->path, s->bufcap);
        return std::make_unique<xtr::posix_fd_storage>(s->fd, s->path);
    case 4:
        if (s->bufcap)
            return std::make_unique<xtr::io_uring_fd_storage>(s->fd, s->path, s->bufcap, s->queue, s->batch);
        return std::make_unique<xtr::io_uring_fd_storage>(s->fd, s->path);
    case 6:
        return xtr::make_fd_storage(s->fd, s->path);
    default:
        return std::make_unique<HostStorage>(s->storage_id);
    }
}

template<typename... A>
xtr::logger* make(const GLogger* s, A&&... first)
{
    const std::string cmd = s->cmd == 0 ? xtr::default_command_path() : s->cmd == 1 ? std::string(xtr::null_command_path) : std::string(s->cmd_path, s->cmd_len);
    if (s->clock)
        return new xtr::logger(std::forward<A>(first)..., SimClock{s->clock_id}, cmd, style_of(s->style));
    if (s->cmd == 0 && s->style == 0)
        return new xtr::logger(std::forward<A>(first)...);
    return new xtr::logger(std::forward<A>(first)..., std::chrono::system_clock(), cmd, style_of(s->style));
}

void put_err(char* err, std::size_t n, const char* w)
{
    std::snprintf(err, n, "%s", w);
}
}

#define L(x) (static_cast<xtr::logger*>(x))
#define S(x) (static_cast<xtr::sink*>(x))
#define TRYI(...) try { __VA_ARGS__; return 0; } catch (const std::exception&) { return 1; }
#define TRYP(...) try { __VA_ARGS__; } catch (const std::exception& e) { put_err(err, nerr, e.what()); return nullptr; }

extern "C" {
void* g_str_new(const char* p, std::size_t n) { return new std::string(p, n); }
void g_str_scribble(void* s) { for (char& c : *static_cast<std::string*>(s)) c = '~'; }
void g_str_delete(void* s) { delete static_cast<std::string*>(s); }
void* g_logger_new(const GLogger* s, char* err, std::size_t nerr)
{
    TRYP(
        switch (s->kind)
        {
        case 0: return make(s, s->path);
        case 1: return make(s, static_cast<FILE*>(s->file));
        case 2: return make(s, std::string(s->path), static_cast<FILE*>(s->file));
        default: return make(s, make_storage(s));
        })
}
void g_logger_delete(void* l) { delete L(l); }
int g_logger_set_command_path(void* l, const char* p, std::size_t n) { TRYI(L(l)->set_command_path(std::string(p, n))) }
int g_logger_set_style(void* l, int k) { TRYI(L(l)->set_log_level_style(style_of(k))) }
int g_logger_set_default_level(void* l, int lv) { TRYI(L(l)->set_default_log_level(xtr::log_level_t(lv))) }
void* g_logger_get_sink(void* l, const char* name, char* err, std::size_t nerr) { TRYP(return new xtr::sink(L(l)->get_sink(name))) }
int g_logger_register(void* l, void* s, const char* name) { TRYI(L(l)->register_sink(*S(s), name)) }

void* g_sink_new(int lv, int def, char* err, std::size_t nerr)
{
    TRYP(if (def) return new xtr::sink(); return new xtr::sink(xtr::log_level_t(lv)))
}
void* g_sink_copy(void* s, char* err, std::size_t nerr) { TRYP(return new xtr::sink(*S(s))) }
int g_sink_assign(void* a, void* b) { TRYI(*S(a) = *S(b)) }
int g_sink_close(void* s) { TRYI(S(s)->close()) }
void g_sink_delete(void* s) { delete S(s); }
int g_sink_sync(void* s) { TRYI(S(s)->sync()) }
int g_sink_set_name(void* s, const char* n) { TRYI(S(s)->set_name(n)) }
void g_sink_set_level(void* s, int lv) { S(s)->set_level(xtr::log_level_t(lv)); }
int g_sink_level(void* s) { return int(S(s)->level()); }
int g_sink_is_open(void* s) { return S(s)->is_open(); }
std::size_t g_sink_capacity(void* s) { return S(s)->capacity(); }

int xtrctl_main(int argc, char** argv);
}
extern int xtrctl_main_cpp(int, char**) asm("_Z11xtrctl_mainiPPc");
extern "C" {
int g_xtrctl(int argc, char** argv) { return xtrctl_main_cpp(argc, argv); }

namespace xd = xtr::detail;
std::size_t g_frame_status(void* out, int type, int icase, const char* text, std::size_t n)
{
    xd::frame<xd::status> f;
    f->pattern.type = xd::pattern_type_t(type);
    f->pattern.ignore_case = icase;
    std::memset(f->pattern.text, 0, sizeof(f->pattern.text));
    std::memcpy(f->pattern.text, text, n < sizeof(f->pattern.text) ? n : sizeof(f->pattern.text));
    std::memcpy(out, &f, sizeof(f));
    return sizeof(f);
}
std::size_t g_frame_set_level(void* out, int level, int type, int icase, const char* text, std::size_t n)
{
    xd::frame<xd::set_level> f;
    f->level = xtr::log_level_t(level);
    f->pattern.type = xd::pattern_type_t(type);
    f->pattern.ignore_case = icase;
    std::memset(f->pattern.text, 0, sizeof(f->pattern.text));
    std::memcpy(f->pattern.text, text, n < sizeof(f->pattern.text) ? n : sizeof(f->pattern.text));
    std::memcpy(out, &f, sizeof(f));
    return sizeof(f);
}
std::size_t g_frame_reopen(void* out)
{
    xd::frame<xd::reopen> f;
    std::memcpy(out, &f, sizeof(f));
    return sizeof(f);
}
void g_parse_reply(const void* p, std::size_t n, GReply* r)
{
    std::memset(r, 0, sizeof(*r));
    xd::frame_header h;
    if (n < sizeof(h))
        return;
    std::memcpy(&h, p, sizeof(h));
    if (h.frame_id == xd::sink_info::frame_id && n == sizeof(xd::frame<xd::sink_info>))
    {
        xd::frame<xd::sink_info> f;
        std::memcpy(static_cast<void*>(&f), p, n);
        r->kind = 1;
        r->level = int(f->level);
        r->capacity = f->buf_capacity;
        r->nbytes = f->buf_nbytes;
        r->dropped = f->dropped_count;
        std::snprintf(r->text, sizeof(r->text), "%.*s", int(sizeof(f->name)), f->name);
        if (std::memchr(f->name, 0, sizeof(f->name)) == nullptr)
            r->kind = 0;
    }
    else if (h.frame_id == xd::success::frame_id && n == sizeof(xd::frame<xd::success>))
        r->kind = 2;
    else if (h.frame_id == xd::error::frame_id && n == sizeof(xd::frame<xd::error>))
    {
        xd::frame<xd::error> f;
        std::memcpy(static_cast<void*>(&f), p, n);
        r->kind = 3;
        std::snprintf(r->text, sizeof(r->text), "%.*s", int(sizeof(f->reason)), f->reason);
    }
}
std::size_t g_null_path(const char** p)
{
    const std::string_view v(xtr::null_command_path);
    *p = v.data();
    return v.size();
}

void* g_storage_new(const GLogger* s, char* err, std::size_t nerr) { TRYP(return make_storage(s).release()) }
void g_storage_delete(void* s) { delete static_cast<xtr::storage_interface*>(s); }
int g_storage_put(void* s, const char* p, std::size_t n, std::size_t* taken)
{
    *taken = 0;
    TRYI(
        auto* st = static_cast<xtr::storage_interface*>(s);
        const auto b = st->allocate_buffer();
        if (n > b.size()) n = b.size();
        std::memcpy(b.data(), p, n);
        *taken = n;
        st->submit_buffer(b.data(), n))
}
int g_storage_flush(void* s) { TRYI(static_cast<xtr::storage_interface*>(s)->flush()) }
void g_storage_sync(void* s) { static_cast<xtr::storage_interface*>(s)->sync(); }
int g_storage_reopen(void* s) { return static_cast<xtr::storage_interface*>(s)->reopen(); }

std::size_t g_build_capacity() { return XTR_SINK_CAPACITY; }
int g_build_uring_poll()
{
#if XTR_IO_URING_POLL
    return 1;
#else
    return 0;
#endif
}
std::uint64_t g_tsc_hz() { return xtr::detail::get_tsc_hz(); }
}
