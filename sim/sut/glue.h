// C interface between the harness (host code) and the code under test.
// Everything behind g_*() is compiled with the simulator's instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {

// argument pack for one log statement
struct GArgs
{
    int sid, seq;      // token
    const char* c1;    // NUL terminated
    std::size_t l1;
    const char* c2;
    std::size_t l2;
    int i;
    double d;
    long ts_sec, ts_nsec;
    const void *s1, *s2; // std::string objects holding c1 and c2
    int evaluated;     // out: how often the token argument was evaluated
    int failed;        // out: an exception reached the caller
};

enum GFamily { F_LOG, F_LOGL, F_TS, F_LTS, F_RTC, F_LRTC, F_TSC, F_LTSC };
enum GShape
{
    SH_NONE, SH_INT, SH_NUM, SH_CSTR, SH_SV, SH_STR, SH_RSTR, SH_TWO, SH_THREE, SH_NOCOPY,
    SH_TRACK, SH_ALIGN, SH_BIG, SH_FTHROW, SH_CTHROW, SH_MOVE, SH_LIT, SH_HUGE, SH_VEC, SH_FTHROW0, SH_TRSTR,
    SH_MIX, SH_ARR, SH_ALSTR, SH_SIX, NSHAPES
};
struct GStmt
{
    int family, level, shape, nonblocking, line;
    const char* file;
    void (*fn)(void* sink, GArgs* a);
};
void* g_str_new(const char* p, std::size_t n);
void g_str_scribble(void* s);
void g_str_delete(void* s);

std::size_t g_nstmts_a();
const GStmt* g_stmts_a();
std::size_t g_nstmts_b();
const GStmt* g_stmts_b();
std::size_t g_nstmts_c();
const GStmt* g_stmts_c();

struct GLogger
{
    int kind;            // 0 path, 1 FILE*, 2 reopen path + FILE*, 3 posix storage, 4 io_uring storage, 5 custom
    const char* path;    // log path / reopen path
    void* file;          // FILE*
    int fd;
    std::size_t bufcap, queue, batch;
    int storage_id;      // custom
    int clock;           // 0 system_clock, 1 custom clock
    int clock_id;
    int style;
    int cmd;             // 0 default command path, 1 none, 2 given
    const char* cmd_path;
    std::size_t cmd_len;
};

void* g_logger_new(const GLogger* s, char* err, std::size_t nerr);
void g_logger_delete(void* l);
int g_logger_set_command_path(void* l, const char* p, std::size_t n);
int g_logger_set_style(void* l, int style);
int g_logger_set_default_level(void* l, int level);
void* g_logger_get_sink(void* l, const char* name, char* err, std::size_t nerr);
int g_logger_register(void* l, void* s, const char* name);

void* g_sink_new(int level, int use_default, char* err, std::size_t nerr);
void* g_sink_copy(void* s, char* err, std::size_t nerr);
int g_sink_assign(void* a, void* b);
int g_sink_close(void* s);
void g_sink_delete(void* s);
int g_sink_sync(void* s);
int g_sink_set_name(void* s, const char* n);
void g_sink_set_level(void* s, int lv);
int g_sink_level(void* s);
int g_sink_is_open(void* s);
std::size_t g_sink_capacity(void* s);

int g_xtrctl(int argc, char** argv);

// command frames
std::size_t g_frame_status(void* out, int type, int icase, const char* text, std::size_t n);
std::size_t g_frame_set_level(void* out, int level, int type, int icase, const char* text, std::size_t n);
std::size_t g_frame_reopen(void* out);
struct GReply
{
    int kind; // 0 malformed, 1 sink_info, 2 success, 3 error
    int level;
    std::size_t capacity, nbytes, dropped;
    char text[300];
};
void g_parse_reply(const void* p, std::size_t n, GReply* r);
std::size_t g_null_path(const char** p);

// storage objects driven directly (io_uring / posix)
void* g_storage_new(const GLogger* s, char* err, std::size_t nerr);
void g_storage_delete(void* s);
int g_storage_put(void* s, const char* p, std::size_t n, std::size_t* taken); // allocate, fill, submit
int g_storage_flush(void* s);
void g_storage_sync(void* s);
int g_storage_reopen(void* s);

// ring buffer driven directly
void* g_ring_new(int kind, std::size_t cap, char* err, std::size_t nerr); // kind 0: fixed 4096, 1: fixed 65536, 2: dynamic
void g_ring_delete(int kind, void* r);
std::size_t g_ring_capacity(int kind, void* r);
// mode 0 blocking, 1 non-blocking, 2 speculative blocking, 3 speculative non-blocking
int g_ring_write(int kind, void* r, int mode, std::size_t min, const unsigned char* data, std::size_t n, std::size_t* span, std::size_t* begin_off);
std::size_t g_ring_read(int kind, void* r, unsigned char* out, std::size_t max, std::size_t* span, std::size_t* begin_off); // reads up to max bytes, releases them
std::size_t g_ring_dropped(int kind, void* r);
void g_ring_clear(int kind, void* r);

std::uint64_t g_tsc_hz();
std::size_t g_build_capacity();
int g_build_uring_poll();

// ---- provided by the harness
void h_track(int what, int id, const void* self); // 0 construct, 1 copy, 2 move, 3 destroy, 4 format, 5 bad object
int h_should_throw(int where, int sid, int seq);
std::int64_t h_clock(int id);
int h_st_alloc(int id, char** p, std::size_t* n);      // non-zero: throw
int h_st_submit(int id, char* p, std::size_t n);
int h_st_flush(int id);
void h_st_sync(int id);
int h_st_reopen(int id);
void h_st_destroy(int id);
}
