#include "glue.h"
#include "xtr/detail/synchronized_ring_buffer.hpp"
#include "xtr/tags.hpp"
#include <cstdio>
#include <cstring>
#include <exception>

using namespace xtr::detail;
using R0 = synchronized_ring_buffer<4096>;
using R1 = synchronized_ring_buffer<65536>;
using R2 = synchronized_ring_buffer<>;

namespace
{
template<typename R>
int write(R& r, int mode, std::size_t min, const unsigned char* d, std::size_t n, std::size_t* span, std::size_t* off)
{
    typename R::span s;
    switch (mode)
    {
    case 0: s = r.write_span(min); break;
    case 1: s = r.template write_span<void(xtr::non_blocking_tag)>(min); break;
    case 2: s = r.write_span_spec(min); break;
    default: s = r.template write_span_spec<void(xtr::non_blocking_tag)>(min); break;
    }
    *span = s.size();
    if (s.empty())
        return 0;
    *off = std::size_t(s.begin() - r.begin());
    if (n > s.size())
        n = s.size();
    unsigned char* p = reinterpret_cast<unsigned char*>(s.begin());
    for (std::size_t i = 0; i < n; ++i)
        p[i] = d[i];
    r.reduce_writable(n);
    return int(n);
}
template<typename R>
std::size_t read(R& r, unsigned char* out, std::size_t max, std::size_t* span, std::size_t* off)
{
    const auto s = r.read_span();
    *span = s.size();
    if (s.empty())
        return 0;
    *off = std::size_t(s.begin() - r.begin());
    std::size_t n = s.size() < max ? s.size() : max;
    const unsigned char* p = reinterpret_cast<const unsigned char*>(s.begin());
    for (std::size_t i = 0; i < n; ++i)
        out[i] = p[i];
    r.reduce_readable(n);
    return n;
}
}
#define DISPATCH(EXPR) switch (kind) { case 0: { auto& r = *static_cast<R0*>(v); EXPR; } break; case 1: { auto& r = *static_cast<R1*>(v); EXPR; } break; default: { auto& r = *static_cast<R2*>(v); EXPR; } break; }

extern "C" {
void* g_ring_new(int kind, std::size_t cap, char* err, std::size_t nerr)
{
    try
    {
        return kind == 0 ? static_cast<void*>(new R0) : kind == 1 ? static_cast<void*>(new R1) : static_cast<void*>(new R2(cap));
    }
    catch (const std::exception& e)
    {
        std::snprintf(err, nerr, "%s", e.what());
        return nullptr;
    }
}
void g_ring_delete(int kind, void* v) { DISPATCH(delete &r) }
std::size_t g_ring_capacity(int kind, void* v) { DISPATCH(return r.capacity()) }
int g_ring_write(int kind, void* v, int mode, std::size_t min, const unsigned char* d, std::size_t n, std::size_t* span, std::size_t* off)
{
    DISPATCH(return write(r, mode, min, d, n, span, off))
}
std::size_t g_ring_read(int kind, void* v, unsigned char* out, std::size_t max, std::size_t* span, std::size_t* off)
{
    DISPATCH(return read(r, out, max, span, off))
}
std::size_t g_ring_dropped(int kind, void* v) { DISPATCH(return r.dropped_count()) }
void g_ring_clear(int kind, void* v) { DISPATCH(r.clear()) }
}
