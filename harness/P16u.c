/* P16: UTC calendar arithmetic by contracts. The day number of the first of January of a year is a ghost: D(y+1) - D(y) is
 * 365, or 366 in a leap year (the lemma unit proves that of the closed form); the loops that walk the years keep it. */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include "vf.h"
typedef long long ll;
static ll g_y, g_D, g_T, g_S; static ll g_m;
static const int OFF[2][14] = { { -31, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 }, { -31, 0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366 } };
static const int OF[14] = { -31, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 };
#define LP(y) (((y) % 400 == 0) || (((y) % 100 != 0) && ((y) % 4 == 0)))
#define LEN(y) (365 + LP(y))
#ifndef MAXY
#define MAXY (1LL << 20)
#endif
#define LOK (g_L >= 0 && g_L <= 1 && g_Lp >= 0 && g_Lp <= 1 && g_Lm >= 0 && g_Lm <= 1)
#ifndef MAXD
#define MAXD (1LL << 40)
#endif
#define YOK(y) ((y) >= -MAXY && (y) <= MAXY)
#if (defined(NORM) || defined(FROM)) && defined(VF_CBMC)
/* whether a year is a leap year is any function of the year; the leap unit proves which */
static int g_L, g_Lp, g_Lm;
int __CPROVER_uninterpreted_leap(M_int64 y);
static int IS_LEAPYEAR(M_int64 y) { int r = __CPROVER_uninterpreted_leap(y); vf_assume(r == 0 || r == 1); return r; }
/*@VF_TRUST IS_LEAPYEAR in the norm and from units by its contract (some function of the year), proved by the leap unit @*/
static void about(void) { vf_assume(g_L == IS_LEAPYEAR(g_y) && g_Lp == IS_LEAPYEAR(g_y + 1) && g_Lm == IS_LEAPYEAR(g_y - 1)); }
#ifdef FROM
#define YS 31536000LL
#define LS 86400LL
#else
#define YS 365LL
#define LS 1LL
#endif
/* the ghost year follows the year; what is known of the ghost year is only ever set here */
static void step(M_int64 y)
{
	about(); if (y == g_y + 1) { g_D += YS + g_L * LS; g_y = y; } else if (y == g_y - 1) { g_D -= YS + g_Lm * LS; g_y = y; } else vf_assert(y == g_y, "a year at a time");
	g_L = IS_LEAPYEAR(g_y); g_Lp = IS_LEAPYEAR(g_y + 1); g_Lm = IS_LEAPYEAR(g_y - 1);
}
#endif
#if defined(NORM) && defined(VF_CBMC)
static unsigned g_calls; static M_time_gmtm_t *g_tm;
#define MO (g_tm->month)
#define TOT(l, D) ((D) + OF[MO + 1] + (MO > 1) * (l) + g_tm->day)
/* the contract proved by the range units: the carried value keeps overflow * (max + 1) + num and brings num into 0..max */
static void normalize_range(M_int64 *overflow, M_int64 *num, int min, int max);
#endif
#if defined(CAL) && defined(VF_CBMC)
static unsigned g_norm; static M_time_gmtm_t g_in, g_out;
void M_time_normalize_tm(struct M_time_tm *tm) { g_norm++; g_in = *tm; g_out.wday = tm->wday; g_out.yday = tm->yday; g_out.isdst = tm->isdst; g_out.gmtoff = tm->gmtoff; *tm = g_out; }
void vf_real_M_time_normalize_tm(struct M_time_tm *tm);
/*@VF_TRUST M_time_normalize_tm in the units of its callers by its contract, proved by the norm units @*/
#endif
#ifdef FROM
static ll g_tt; static unsigned g_tg;
void M_time_togm(M_time_t t, M_time_gmtm_t *tm) { g_tt = t; g_tg++; }
void vf_real_M_time_togm(M_time_t t, M_time_gmtm_t *tm);
#endif
/*@VF_RENAME base/time/m_time_gm.c normalize_range if NORM @*/
/*@VF_RENAME base/time/m_time_gm.c IS_LEAPYEAR if NORM @*/
/*@VF_RENAME base/time/m_time_gm.c IS_LEAPYEAR if FROM @*/
/*@VF_RENAME base/time/m_time_gm.c M_time_normalize_tm if CAL @*/
/*@VF_RENAME base/time/m_time_gm.c M_time_togm if FROM @*/
#include "base/time/m_time_gm.c"
#if defined(VF_CBMC) && defined(TO)
void *M_mem_set(void *d, int c, size_t n) { static const M_time_gmtm_t z; vf_assert(c == 0 && n == sizeof(z), "the fields are cleared"); *(M_time_gmtm_t *)d = z; return d; }
/*@VF_TRUST M_mem_set clears the structure (memset) @*/
#endif
#ifdef RANGE
#ifndef MAXN
#define MAXN (1LL << 40)
#endif
/* the carry, for each of the sizes used */
void range(void)
{
	M_int64 o = (ll)vf_u64(), n = (ll)vf_u64(), o0 = o, n0 = n; vf_assume(n > -MAXN && n < MAXN && o > -(1LL << 61) && o < (1LL << 61));
	normalize_range(&o, &n, 0, RANGE);
	vf_assert(n >= 0 && n <= RANGE, "the value is in its range");
	{ ll k = o - o0; vf_assert(k >= -(1LL << 60) && k <= (1LL << 60) && k * (RANGE + 1) == n0 - n, "what was carried is what was taken away"); } vf_reach("range");
}
#endif
#ifdef DAYS
void days(void)
{
	ll y = (ll)vf_u64(), m = (ll)vf_u64(), d = (ll)vf_u64(); int n, e = 0; vf_assume(YOK(y)); n = M_time_days_in_month(y, m);
	if (m >= 1 && m <= 12) e = OFF[LP(y)][m + 1] - OFF[LP(y)][m];
	vf_assert(n == e, "days in a month"); vf_assert((M_time_is_valid_day(y, m, d) == M_TRUE) == (d >= 1 && d <= e), "days there are"); vf_reach("days");
}
void vf_leap(void) { M_int64 y = (M_int64)vf_u64(); int l; vf_assume(YOK(y)); l = IS_LEAPYEAR(y); vf_assert(l == ((y % 4 == 0) - (y % 100 == 0) + (y % 400 == 0)), "every fourth year but for centuries not divisible by 400"); vf_reach("leap"); }
/* the lemma: the closed form steps by the length of the year; y = 400 q + r */
static int fl(int a, int b) { return a / b; }
void lemma(void)
{
	int r; M_int64 y;
	for (r = 0; r < 400; r++) { /* D(r) = 365 r + ceil(r/4) - ceil(r/100) + ceil(r/400), and 146097 days in 400 years */
		int n = r + 1, a = 365 * r + fl(r + 3, 4) - fl(r + 99, 100) + fl(r + 399, 400), b = 365 * n + fl(n + 3, 4) - fl(n + 99, 100) + fl(n + 399, 400);
		vf_assert(b - a == LEN(r), "a year has 365 days, or 366");
	}
	y = (M_int64)vf_u64(); vf_assume(YOK(y)); { int l = LP(y); y += 400; vf_assert(l == LP(y), "leap years repeat after 400 years"); } vf_reach("lemma");
}
#endif
#if defined(NORM) && defined(VF_CBMC)
static void normalize_range(M_int64 *overflow, M_int64 *num, int min, int max)
{
	vf_assert(min == 0, "from zero");
	if (num == &g_tm->sec) { vf_assert(overflow == &g_tm->min && max == 59 && g_calls == 0, "seconds to minutes"); g_calls = 1; g_tm->sec = (ll)vf_range(0, 59); g_tm->min = (ll)vf_u64(); vf_assume(g_tm->min > -(1LL << 40) && g_tm->min < (1LL << 40)); g_S = g_tm->min; }
	else if (num == &g_tm->min) { vf_assert(overflow == &g_tm->hour && max == 59 && g_calls == 1 && g_tm->min == g_S, "minutes to hours"); g_calls = 2; g_tm->min = (ll)vf_range(0, 59); g_tm->hour = (ll)vf_u64(); vf_assume(g_tm->hour > -(1LL << 40) && g_tm->hour < (1LL << 40)); g_S = g_tm->hour; }
	else if (num == &g_tm->hour) { vf_assert(overflow == &g_tm->day && max == 23 && g_calls == 2 && g_tm->hour == g_S, "hours to days"); g_calls = 3; g_tm->hour = (ll)vf_range(0, 23); g_tm->day = (ll)vf_u64(); vf_assume(g_tm->day > -MAXD && g_tm->day < MAXD); g_S = g_tm->day; }
	else {
		vf_assert(num == &g_tm->month && overflow == &g_tm->year && max == 11, "months to years");
		if (g_calls == 3) { g_calls = 4; g_tm->month = (ll)vf_range(0, 11); g_tm->year = g_y; g_T = g_D + OFF[g_L][g_tm->month + 1] + g_tm->day; }
		else { vf_assert(g_calls == 4 && g_tm->month >= -1 && g_tm->month <= 12, "a month at a time"); if (g_tm->month < 0) { g_tm->month = 11; g_tm->year--; step(g_tm->year); } else if (g_tm->month > 11) { g_tm->month = 0; g_tm->year++; step(g_tm->year); } }
	}
}
/*@VF_TRUST normalize_range in the norm unit by its contract (floor division), proved by the range units @*/
/*@VF_LOOP base/time/m_time_gm.c M_time_normalize_tm 1/2 if NORM
__CPROVER_assigns(tm->day, tm->year, is_leapyear, num_year_days, g_y, g_D, g_L, g_Lp, g_Lm)
__CPROVER_loop_invariant(LOK && YOK(g_y) && MO >= 0 && MO <= 11 && g_calls == 4 && g_tm->day > -2 * MAXD && g_tm->day < 2 * MAXD && g_D > -(1LL << 45) && g_D < (1LL << 45) && ((tm->year == g_y && TOT(g_L, g_D) == g_T) || (tm->year == g_y + 1 && TOT(g_Lp, g_D + 365 + g_L) == g_T) || (tm->year == g_y - 1 && TOT(g_Lm, g_D - 365 - g_Lm) == g_T)))
@*/
/*@VF_GHOST base/time/m_time_gm.c M_time_normalize_tm 1/2 if NORM step(tm->year); vf_assume(YOK(g_y) && g_D > -(1LL << 44) && g_D < (1LL << 44)); @*/
/*@VF_LOOP base/time/m_time_gm.c M_time_normalize_tm 2/2 if NORM
__CPROVER_assigns(tm->day, tm->month, tm->year, is_leapyear, num_month_days, g_y, g_D, g_L, g_Lp, g_Lm)
__CPROVER_loop_invariant(LOK && YOK(g_y) && MO >= -1 && MO <= 12 && g_calls == 4 && g_tm->day > -2 * MAXD && g_tm->day < 2 * MAXD && g_D > -(1LL << 45) && g_D < (1LL << 45) && tm->year == g_y && TOT(g_L, g_D) == g_T)
@*/
/*@VF_GHOST base/time/m_time_gm.c M_time_normalize_tm 2/2 if NORM about(); vf_assume(YOK(g_y + 1) && YOK(g_y - 1) && g_D > -(1LL << 44) && g_D < (1LL << 44)); @*/
void norm(void)
{
	M_time_gmtm_t a; ll m0;
	a.year = (ll)vf_u64(); a.month = (ll)vf_u64(); a.day = (ll)vf_u64(); a.hour = (ll)vf_u64(); a.min = (ll)vf_u64(); a.sec = (ll)vf_u64(); g_tm = &a;
	vf_assume(a.month > -(1LL << 40) && a.month < (1LL << 40) && a.day > -MAXD && a.day < MAXD); m0 = a.month;
	g_y = (ll)vf_u64(); g_D = (ll)vf_u64(); vf_assume(YOK(g_y) && g_D > -(1LL << 42) && g_D < (1LL << 42)); g_L = IS_LEAPYEAR(g_y); g_Lp = IS_LEAPYEAR(g_y + 1); g_Lm = IS_LEAPYEAR(g_y - 1);
	M_time_normalize_tm(&a);
	vf_assert(g_calls == 4 && a.year == g_y, "carried through"); vf_assert(a.month >= 1 && a.month <= 12 && a.day >= 1 && a.day <= OFF[g_L][a.month + 1] - OFF[g_L][a.month], "a day of the calendar");
	vf_assert(g_D + OFF[g_L][a.month] + a.day - 1 == g_T, "the same day"); vf_assert(a.sec >= 0 && a.sec < 60 && a.min >= 0 && a.min < 60 && a.hour >= 0 && a.hour < 24, "a time of day"); vf_assert(a.year2 == a.year % 100, "two digits"); vf_reach("norm");
}
#endif
#if defined(CAL) && defined(VF_CBMC)
#ifdef FROM
#define ILP(y) IS_LEAPYEAR(y)
#else
#define ILP(y) LP(y)
#endif
static void normal(void)
{
	g_out.year = (ll)vf_u64(); vf_assume(YOK(g_out.year)); g_out.month = (ll)vf_range(1, 12); g_out.day = (ll)vf_range(1, 31); vf_assume(g_out.day <= 28 + (g_out.month != 2) * 2 + (g_out.month == 1 || g_out.month == 3 || g_out.month == 5 || g_out.month == 7 || g_out.month == 8 || g_out.month == 10 || g_out.month == 12) || (g_out.month == 2 && g_out.day == 29 && ILP(g_out.year)));
	g_out.hour = (ll)vf_range(0, 23); g_out.min = (ll)vf_range(0, 59); g_out.sec = (ll)vf_range(0, 59); g_out.year2 = g_out.year % 100;
}
#ifdef TO
void togm(void)
{
	M_time_gmtm_t a; ll t = (ll)vf_u64(), dn, w; normal(); M_time_togm(t, &a);
	vf_assert(g_norm == 1 && g_in.year == 1970 && g_in.month == 1 && g_in.day == 1 && g_in.hour == 0 && g_in.min == 0 && g_in.sec == t, "so many seconds after the epoch");
	vf_assert(a.year == g_out.year && a.month == g_out.month && a.day == g_out.day && a.hour == g_out.hour && a.min == g_out.min && a.sec == g_out.sec && a.year2 == g_out.year2, "as normalized");
	vf_assert(a.yday == OFF[LP(a.year)][a.month] + a.day - 1, "the day of the year"); vf_reach("togm");
}
#ifndef MAXQ
#define MAXQ (1LL << 36)
#endif
void wday(void)
{
	M_time_gmtm_t a; M_int64 t = (M_int64)vf_u64(), q = (M_int64)vf_u64(), r = (M_int64)vf_range(0, 6), dn = t / 86400; vf_assume(q > -MAXQ && q < MAXQ);
	if (t < 0 && t % 86400 != 0) dn--; vf_assume(dn == 7 * q + r); normal(); M_time_togm(t, &a);
	vf_assert(a.wday == (r < 3 ? r + 4 : r - 3), "the day of the week"); vf_reach("wday");
}
#endif
#ifdef FROM
/*@VF_LOOP base/time/m_time_gm.c M_time_fromgm 2/2 if FROM
__CPROVER_assigns(tm->sec, tm->year, g_y, g_D, g_L, g_Lp, g_Lm)
__CPROVER_loop_invariant(LOK && YOK(g_y) && g_D > -(1LL << 61) && g_D < (1LL << 61) && tm->sec > -(1LL << 61) && tm->sec < (1LL << 61) && ((tm->year == g_y && g_D + tm->sec == g_T) || (tm->year == g_y + 1 && g_D + YS + g_L * LS + tm->sec == g_T) || (tm->year == g_y - 1 && g_D - YS - g_Lm * LS + tm->sec == g_T)))
@*/
/*@VF_GHOST base/time/m_time_gm.c M_time_fromgm 2/2 if FROM step(tm->year); vf_assume(YOK(g_y) && g_D > -(1LL << 60) && g_D < (1LL << 60) && tm->sec > -(1LL << 60) && tm->sec < (1LL << 60)); @*/
/* in two parts: a year with everything before it in seconds already (the loop over the years), and 1970, leap or not (the rest) */
void from(void)
{
	M_time_gmtm_t a; ll t;
#ifdef MON
	normal(); g_out.year = 1970; vf_assume(g_out.day <= 28 + (g_out.month != 2) * 2 + (g_out.month != 2 && g_out.month != 4 && g_out.month != 6 && g_out.month != 9 && g_out.month != 11) || (g_out.month == 2 && g_out.day == 29 && IS_LEAPYEAR(1970)));
	g_D = 0; g_y = 1970; g_L = IS_LEAPYEAR(1970);
#else
	g_out.year = (ll)vf_u64(); vf_assume(YOK(g_out.year)); g_out.month = 1; g_out.day = 1; g_out.hour = 0; g_out.min = 0; g_out.sec = (ll)vf_u64(); vf_assume(g_out.sec > -(1LL << 58) && g_out.sec < (1LL << 58));
	g_y = g_out.year; g_D = (ll)vf_u64(); vf_assume(g_D > -(1LL << 59) && g_D < (1LL << 59)); g_L = IS_LEAPYEAR(g_y); g_Lp = IS_LEAPYEAR(g_y + 1); g_Lm = IS_LEAPYEAR(g_y - 1);
#endif
	g_T = g_D + 86400 * (OF[g_out.month] + (g_out.month > 2) * g_L + g_out.day - 1) + 3600 * g_out.hour + 60 * g_out.min + g_out.sec;
	t = M_time_fromgm(&a);
#ifndef MON
	step(1970); /* the year the loop ends with */
#endif
	vf_assert(g_norm == 1 && g_tg == 1 && g_tt == t, "the fields are normalized, the structure refilled from the result"); vf_assert(g_y == 1970 && t == g_T - g_D, "seconds since the first of January 1970"); vf_reach("from");
}
#endif
#endif
