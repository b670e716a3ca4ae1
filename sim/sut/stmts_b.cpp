// generated: one log statement per line
#include "types.h"
using namespace std::literals;
static const GStmt tab[] = {
    ST(F_LOG, info, SH_NONE, 1, XTR_TRY_LOG(s, "plain")),
    ST(F_LOG, info, SH_INT, 1, XTR_TRY_LOG(s, "#{}.{} i", T2)),
    ST(F_LOG, info, SH_NUM, 1, XTR_TRY_LOG(s, "#{}.{} {} {:.3f} {} {}", T2, a->i, a->d, (a->i & 1) != 0, char('a' + (a->i & 15)))),
    ST(F_LOG, info, SH_CSTR, 1, XTR_TRY_LOG(s, "#{}.{} [{}]", T2, a->c1)),
    ST(F_LOG, info, SH_SV, 1, XTR_TRY_LOG(s, "#{}.{} [{}]", T2, std::string_view(a->c1, a->l1))),
    ST(F_LOG, info, SH_STR, 1, const std::string& str = *static_cast<const std::string*>(a->s1); XTR_TRY_LOG(s, "#{}.{} [{}]", T2, str)),
    ST(F_LOG, info, SH_RSTR, 1, std::string str(a->c1, a->l1); XTR_TRY_LOG(s, "#{}.{} [{}]", T2, std::move(str))),
    ST(F_LOG, info, SH_TWO, 1, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOG(s, "#{}.{} [{}][{}]", T2, a->c1, str2)),
    ST(F_LOG, info, SH_THREE, 1, const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOG(s, "#{}.{} [{}]{}[{}][{}]", T2, std::string_view(a->c1, a->l1), a->i, a->c2, str2)),
    ST(F_LOG, info, SH_NOCOPY, 1, XTR_TRY_LOG(s, "#{}.{} [{}]", T2, nocopy(a->c2))),
    ST(F_LOG, info, SH_TRACK, 1, XTR_TRY_LOG(s, "#{}.{} {} [{}]", T2, Tracked(a->sid * 65536 + a->seq), a->c1)),
    ST(F_LOG, info, SH_ALIGN, 1, XTR_TRY_LOG(s, "#{}.{} {}", T2, Aligned{a->i, 1})),
    ST(F_LOG, info, SH_BIG, 1, XTR_TRY_LOG(s, "#{}.{} {}", T2, make_big<600>(a->i))),
    ST(F_LOG, info, SH_FTHROW, 1, XTR_TRY_LOG(s, "#{}.{} {} [{}]", T2, ThrowFmt{a->sid, a->seq, a->i & 1}, a->c1)),
    ST(F_LOG, info, SH_CTHROW, 1, const ThrowCopy tc(a->sid, a->seq); XTR_TRY_LOG(s, "#{}.{} {} {} [{}]", T2, Tracked(a->sid * 65536 + a->seq), tc, a->c1)),
    ST(F_LOG, info, SH_MOVE, 1, XTR_TRY_LOG(s, "#{}.{} {}", T2, MoveOnly(a->sid * 65536 + a->seq))),
    ST(F_LOG, info, SH_LIT, 1, XTR_TRY_LOG(s, "#{}.{} [{}]", T2, "literal\ttext")),
    ST(F_LOG, info, SH_HUGE, 1, XTR_TRY_LOG(s, "#{}.{} {}", T2, make_big<3000>(a->i))),
    ST(F_LOG, info, SH_VEC, 1, XTR_TRY_LOG(s, "#{}.{} {}", T2, std::vector<int>{a->i, 2, 3})),
    ST(F_LOG, info, SH_FTHROW0, 1, XTR_TRY_LOG(s, "#{}.{} {} {}", T2, Tracked(a->sid * 65536 + a->seq), ThrowFmt{a->sid, a->seq, 1})),
    ST(F_LOG, info, SH_TRSTR, 1, const ThrowCopy tc(a->sid, a->seq); XTR_TRY_LOG(s, "#{}.{} {} {} [{}]", T2, Tracked(a->sid * 65536 + a->seq), tc, std::string_view(a->c1, a->l1))),
    ST(F_TS, info, SH_INT, 0, XTR_LOG_TS(s, xtr::timespec(ats(a)), "#{}.{} i", T2)),
    ST(F_TS, info, SH_CSTR, 0, XTR_LOG_TS(s, xtr::timespec(ats(a)), "#{}.{} [{}]", T2, a->c1)),
    ST(F_RTC, info, SH_INT, 0, XTR_LOG_RTC(s, "#{}.{} i", T2)),
    ST(F_RTC, info, SH_CSTR, 0, XTR_LOG_RTC(s, "#{}.{} [{}]", T2, a->c1)),
    ST(F_TSC, info, SH_INT, 0, XTR_LOG_TSC(s, "#{}.{} i", T2)),
    ST(F_TSC, info, SH_CSTR, 0, XTR_LOG_TSC(s, "#{}.{} [{}]", T2, a->c1)),
    ST(F_LOG, info, SH_MIX, 1, std::string mv(a->c2, a->l2); const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOG(s, "#{}.{} [{}] {} {} [{}] {} [{}]", T2, a->c1, Tracked(a->sid * 65536 + a->seq), make_big<64>(a->i), std::move(mv), std::vector<int>{a->i, 2, 3}, str2)),
    ST(F_LOG, info, SH_ARR, 1, char arr[48]; std::snprintf(arr, sizeof(arr), "%s", a->c1); XTR_TRY_LOG(s, "#{}.{} [{}]", T2, arr)),
    ST(F_LOG, info, SH_ALSTR, 1, XTR_TRY_LOG(s, "#{}.{} {} [{}] {}", T2, Aligned{a->i, 1}, a->c1, Tracked(a->sid * 65536 + a->seq))),
    ST(F_LOG, info, SH_SIX, 1, const std::string& str1 = *static_cast<const std::string*>(a->s1); const std::string& str2 = *static_cast<const std::string*>(a->s2); XTR_TRY_LOG(s, "#{}.{} [{}][{}][{}][{}][{}][{}]", T2, a->c1, std::string_view(a->c2, a->l2), str1, a->c2, std::string_view(a->c1, a->l1), str2)),
};
std::size_t g_nstmts_b() { return sizeof(tab) / sizeof(tab[0]); }
const GStmt* g_stmts_b() { return tab; }
