// generated: one log statement per line
#include "types.h"
using namespace std::literals;
static const GStmt tab[] = {
    ST(F_LOGL, error, SH_NONE, 0, XTR_LOGL(error, s, "plain")),
    ST(F_LOGL, error, SH_INT, 0, XTR_LOGL(error, s, "#{}.{} i", T2)),
    ST(F_LOGL, error, SH_TWO, 0, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_LOGL(error, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOGL, warning, SH_NONE, 0, XTR_LOGL(warning, s, "plain")),
    ST(F_LOGL, warning, SH_INT, 0, XTR_LOGL(warning, s, "#{}.{} i", T2)),
    ST(F_LOGL, warning, SH_TWO, 0, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_LOGL(warning, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOGL, info, SH_NONE, 0, XTR_LOGL(info, s, "plain")),
    ST(F_LOGL, info, SH_INT, 0, XTR_LOGL(info, s, "#{}.{} i", T2)),
    ST(F_LOGL, info, SH_TWO, 0, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_LOGL(info, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOGL, debug, SH_NONE, 0, XTR_LOGL(debug, s, "plain")),
    ST(F_LOGL, debug, SH_INT, 0, XTR_LOGL(debug, s, "#{}.{} i", T2)),
    ST(F_LOGL, debug, SH_TWO, 0, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_LOGL(debug, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LTS, error, SH_INT, 0, XTR_LOGL_TS(error, s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_LRTC, warning, SH_INT, 0, XTR_LOGL_RTC(warning, s, "#{}.{} i", T2)),
    ST(F_LTSC, debug, SH_INT, 0, XTR_LOGL_TSC(debug, s, "#{}.{} i", T2)),
    ST(F_LRTC, error, SH_INT, 0, XTR_LOGL_RTC(error, s, "#{}.{} i", T2)),
    ST(F_LTS, debug, SH_INT, 0, XTR_LOGL_TS(debug, s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_LTSC, info, SH_INT, 0, XTR_LOGL_TSC(info, s, "#{}.{} i", T2)),
    ST(F_LOGL, error, SH_NONE, 1, XTR_TRY_LOGL(error, s, "plain")),
    ST(F_LOGL, error, SH_INT, 1, XTR_TRY_LOGL(error, s, "#{}.{} i", T2)),
    ST(F_LOGL, error, SH_TWO, 1, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOGL(error, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOGL, warning, SH_NONE, 1, XTR_TRY_LOGL(warning, s, "plain")),
    ST(F_LOGL, warning, SH_INT, 1, XTR_TRY_LOGL(warning, s, "#{}.{} i", T2)),
    ST(F_LOGL, warning, SH_TWO, 1, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOGL(warning, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOGL, info, SH_NONE, 1, XTR_TRY_LOGL(info, s, "plain")),
    ST(F_LOGL, info, SH_INT, 1, XTR_TRY_LOGL(info, s, "#{}.{} i", T2)),
    ST(F_LOGL, info, SH_TWO, 1, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOGL(info, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOGL, debug, SH_NONE, 1, XTR_TRY_LOGL(debug, s, "plain")),
    ST(F_LOGL, debug, SH_INT, 1, XTR_TRY_LOGL(debug, s, "#{}.{} i", T2)),
    ST(F_LOGL, debug, SH_TWO, 1, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOGL(debug, s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_TS, info, SH_INT, 1, XTR_TRY_LOG_TS(s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_TS, info, SH_CSTR, 1, XTR_TRY_LOG_TS(s, xtr::timespec(ats(a)), "#{}.{} [{}]", T2, a->c1)),
    ST(F_RTC, info, SH_INT, 1, XTR_TRY_LOG_RTC(s, "#{}.{} i", T2)),
    ST(F_RTC, info, SH_CSTR, 1, XTR_TRY_LOG_RTC(s, "#{}.{} [{}]", T2, a->c1)),
    ST(F_TSC, info, SH_INT, 1, XTR_TRY_LOG_TSC(s, "#{}.{} i", T2)),
    ST(F_TSC, info, SH_CSTR, 1, XTR_TRY_LOG_TSC(s, "#{}.{} [{}]", T2, a->c1)),
    ST(F_LTS, error, SH_INT, 1, XTR_TRY_LOGL_TS(error, s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_LRTC, warning, SH_INT, 1, XTR_TRY_LOGL_RTC(warning, s, "#{}.{} i", T2)),
    ST(F_LTSC, debug, SH_INT, 1, XTR_TRY_LOGL_TSC(debug, s, "#{}.{} i", T2)),
    ST(F_LRTC, error, SH_INT, 1, XTR_TRY_LOGL_RTC(error, s, "#{}.{} i", T2)),
    ST(F_LTS, debug, SH_INT, 1, XTR_TRY_LOGL_TS(debug, s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_LTSC, info, SH_INT, 1, XTR_TRY_LOGL_TSC(info, s, "#{}.{} i", T2)),
    ST(F_LOGL, fatal, SH_INT, 0, XTR_LOGL(fatal, s, "#{}.{} i", T2)),
    ST(F_LOGL, fatal, SH_CSTR, 0, XTR_LOGL(fatal, s, "#{}.{} [{}]", T2, a->c1)),
    ST(F_LTS, fatal, SH_INT, 0, XTR_LOGL_TS(fatal, s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_LOGL, fatal, SH_INT, 1, XTR_TRY_LOGL(fatal, s, "#{}.{} i", T2)),
    ST(F_LRTC, fatal, SH_INT, 0, XTR_LOGL_RTC(fatal, s, "#{}.{} i", T2)),
};
std::size_t g_nstmts_c() { return sizeof(tab) / sizeof(tab[0]); }
const GStmt* g_stmts_c() { return tab; }
