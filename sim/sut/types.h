// argument types used by the log statements
#pragma once
#include "glue.h"
#include "xtr/logger.hpp"
#include "xtr/formatters.hpp"
#include <stdexcept>
#include <vector>

struct Tracked
{
    int id;
    unsigned magic = 0x7ac4ed01;
    explicit Tracked(int i) : id(i) { h_track(0, id, this); }
    Tracked(const Tracked& o) : id(o.id) { o.check(); h_track(1, id, this); }
    Tracked(Tracked&& o) noexcept : id(o.id) { o.check(); h_track(2, id, this); }
    Tracked& operator=(const Tracked&) = delete;
    ~Tracked() { check(); magic = 0xdeadbeef; h_track(3, id, this); }
    void check() const { if (magic != 0x7ac4ed01) h_track(5, id, this); }
};
struct ThrowCopy
{
    int sid, seq;
    unsigned magic = 0x7ac4ed02;
    ThrowCopy(int a, int b) : sid(a), seq(b) { h_track(0, sid * 65536 + seq, this); }
    ThrowCopy(const ThrowCopy& o) : sid(o.sid), seq(o.seq)
    {
        if (h_should_throw(1, sid, seq))
            throw std::runtime_error("copy failed");
        h_track(1, sid * 65536 + seq, this);
    }
    ThrowCopy(ThrowCopy&& o) noexcept : sid(o.sid), seq(o.seq) { h_track(2, sid * 65536 + seq, this); }
    ~ThrowCopy() { if (magic != 0x7ac4ed02) h_track(5, sid * 65536 + seq, this); magic = 0xdeadbeef; h_track(3, sid * 65536 + seq, this); }
};
struct Oops : std::exception { const char* what() const noexcept override { return "oops"; } };
struct ThrowFmt
{
    int sid, seq, after; // after: throw after producing some output
};
struct MoveOnly
{
    int id;
    int* p;
    explicit MoveOnly(int i) : id(i), p(&id) { h_track(0, id, this); }
    MoveOnly(MoveOnly&& o) noexcept : id(o.id), p(&id) { h_track(2, id, this); }
    ~MoveOnly() { if (p != &id) h_track(5, id, this); p = nullptr; h_track(3, id, this); }
};
struct alignas(32) Aligned { int a; int b; };
template<int N> struct Big { int v; unsigned char pad[N]; };

template<> struct fmt::formatter<Tracked>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const Tracked& t, C& c) const
    {
        t.check();
        h_track(4, t.id, &t);
        return fmt::format_to(c.out(), "T{}", t.id);
    }
};
template<> struct fmt::formatter<ThrowCopy>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const ThrowCopy& t, C& c) const { return fmt::format_to(c.out(), "C{}", t.seq); }
};
template<> struct fmt::formatter<ThrowFmt>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const ThrowFmt& t, C& c) const
    {
        const int w = h_should_throw(2, t.sid, t.seq);
        if (w && !t.after)
            switch (t.seq & 3)
            {
            case 0: throw std::runtime_error("format failed");
            case 1: throw std::invalid_argument("format failed");
            case 2: throw std::bad_alloc();
            default: throw Oops();
            }
        auto o = fmt::format_to(c.out(), "F{}", t.seq);
        if (w)
            throw fmt::format_error("format failed late");
        return o;
    }
};
template<> struct fmt::formatter<MoveOnly>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const MoveOnly& t, C& c) const
    {
        if (t.p != &t.id)
            h_track(5, t.id, &t);
        return fmt::format_to(c.out(), "M{}", *t.p);
    }
};
template<> struct fmt::formatter<Aligned>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const Aligned& t, C& c) const
    {
        return fmt::format_to(c.out(), "A{}{}", t.a + t.b, reinterpret_cast<std::uintptr_t>(&t) % 32 ? "!" : "");
    }
};
template<int N> struct fmt::formatter<Big<N>>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const Big<N>& t, C& c) const
    {
        unsigned s = 0;
        for (int i = 0; i < N; ++i)
            s = s * 31 + t.pad[i];
        return fmt::format_to(c.out(), "B{}.{:x}", t.v, s);
    }
};
template<int N> inline Big<N> make_big(int v)
{
    Big<N> b;
    b.v = v;
    for (int i = 0; i < N; ++i)
        b.pad[i] = static_cast<unsigned char>(v * 7 + i);
    return b;
}

inline int tok(GArgs* a) { ++a->evaluated; return a->seq; }
inline std::timespec ats(GArgs* a) { std::timespec t; t.tv_sec = a->ts_sec; t.tv_nsec = a->ts_nsec; return t; }

#define LV(x) int(xtr::log_level_t::x)
// every statement sits on a line of its own; the table records that line
#define ST(FAM, LEV, SHAPE, NB, ...) GStmt{FAM, LV(LEV), SHAPE, NB, __LINE__, __FILE__, [](void* vs, GArgs* a) { \
    auto& s = *static_cast<xtr::sink*>(vs); (void)s; (void)a; try { __VA_ARGS__; } catch (const std::exception&) { a->failed = 1; } }}
#define T2 a->sid, tok(a)
