/* P16 native: UTC calendar arithmetic against a day count computed independently */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vf.h"
typedef long long ll;
static ll fdiv(ll a, ll b) { return a / b - (a % b != 0 && (a % b < 0) != (b < 0)); }
/* days since 1970-01-01 of a proleptic Gregorian date; m 1..12 */
static ll days(ll y, ll m, ll d) { ll era, yoe, doy; y -= m <= 2; era = fdiv(y, 400); yoe = y - era * 400; doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
static ll num(unsigned k) { ll r = (ll)(int32_t)vf_u32(); switch (k % 6) { case 0: return r % 60; case 1: return r % 400; case 2: return r % 1200; case 3: return r % 100000; case 4: return r % 4000000; default: return r % 32; } }
static int leap(ll y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(ll y, ll m) { static const int D[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m < 1 || m > 12 ? 0 : D[m - 1] + (m == 2 && leap(y)); }
static void same(const M_time_gmtm_t *a, ll t, int full)
{
	ll dn = fdiv(t, 86400), s = t - dn * 86400;
	vf_assert(a->month >= 1 && a->month <= 12 && a->day >= 1 && a->day <= mdays(a->year, a->month) && a->hour >= 0 && a->hour < 24 && a->min >= 0 && a->min < 60 && a->sec >= 0 && a->sec < 60, "a date and time of the calendar");
	vf_assert(days(a->year, a->month, a->day) == dn, "the date"); vf_assert(a->hour * 3600 + a->min * 60 + a->sec == s, "the time of day"); vf_assert(a->year2 == a->year % 100, "two digits of the year");
	if (full) { vf_assert(a->wday == ((dn + 4) % 7 + 7) % 7, "the day of the week"); vf_assert(a->yday == dn - days(a->year, 1, 1), "the day of the year"); }
}
void gm(void)
{
	M_time_gmtm_t a; ll t, y, m; int o = vf_u8() % 4; memset(&a, 0, sizeof(a));
	if (o == 0) { t = (ll)(int64_t)vf_u64(); t = vf_bool() ? t % 400000000000LL : t % 4102444800LL; M_time_togm(t, &a); same(&a, t, 1); vf_assert(M_time_fromgm(&a) == t, "there and back"); same(&a, t, 1); return; }
	if (o == 1) { y = num(vf_u8()); m = num(vf_u8()) % 20; { ll d = num(vf_u8()) % 40; vf_assert(M_time_days_in_month(y, m) == mdays(y, m), "days in a month"); vf_assert(!M_time_is_valid_day(y, m, d) == !(d >= 1 && d <= mdays(y, m)), "days there are"); } return; }
	a.year = vf_bool() ? 1970 + num(vf_u8()) % 300 : num(vf_u8()) % 20000; a.month = num(vf_u8()); a.day = num(vf_u8()); a.hour = num(vf_u8()); a.min = num(vf_u8()); a.sec = num(vf_u8());
	y = a.year + fdiv(a.month - 1, 12); m = a.month - 1 - 12 * fdiv(a.month - 1, 12) + 1; t = (days(y, m, 1) + a.day - 1) * 86400 + a.hour * 3600 + a.min * 60 + a.sec;
	if (o == 2) { M_time_normalize_tm(&a); same(&a, t, 0); } else { vf_assert(M_time_fromgm(&a) == t, "seconds since the epoch"); same(&a, t, 1); }
}
/* one rule of a POSIX time zone string, and what the C library makes of it */
/* here (as documented) an offset is east of Greenwich only with a '+'; POSIX has it the other way */
static void both(char *s, char *p, const char *f, int v) { sprintf(s + strlen(s), f, v); sprintf(p + strlen(p), f, v); }
static void zoff(char *s, char *p, int e) { sprintf(s + strlen(s), e > 0 ? "+%d" : "%d", e > 0 ? e : vf_bool() ? e : -e); sprintf(p + strlen(p), "%d", -e); }
static void rule(char *s, char *p, int north, int dst) { int m = north == dst ? 2 + vf_u8() % 4 : 9 + vf_u8() % 3; both(s, p, ",M%d", m); both(s, p, ".%d", 1 + vf_u8() % 5); both(s, p, ".%d", vf_u8() % 7); if (vf_bool()) both(s, p, "/%d", vf_u8() % 4); }
void zone(void)
{
	char s[64] = "EST", p[64] = "EST"; int off = (int)(vf_u8() % 24) - 12, k, dst = vf_bool(), north = vf_bool(); M_time_tzs_t *z; const M_time_tz_t *tz;
	zoff(s, p, off); if (dst) { strcat(s, "EDT"); strcat(p, "EDT"); if (vf_u8() % 4 == 0) zoff(s, p, off + 1); rule(s, p, north, 1); rule(s, p, north, 0); }
	z = M_time_tzs_create(); if (M_time_tzs_add_posix_str(z, s) != M_TIME_RESULT_SUCCESS) { vf_assert(0, "a valid zone is accepted"); }
	{ M_list_str_t *l = M_time_tzs_get_loaded_zones(z); vf_assert(M_list_str_len(l) == 1, "one zone"); tz = M_time_tzs_get_tz(z, M_list_str_at(l, 0)); M_list_str_destroy(l); } vf_assert(tz != NULL, "the zone is there");
	setenv("TZ", p, 1); tzset();
	for (k = 0; k < 24; k++) {
		time_t t = (time_t)(946684800 + (ll)(vf_u32() % 1600000000u)), u; struct tm g; M_time_localtm_t a; if (k % 2) { /* near a change */ time_t lo = t; int i; localtime_r(&t, &g); int d0 = g.tm_isdst; for (i = 0; i < 200; i++) { t += 86400; localtime_r(&t, &g); if (g.tm_isdst != d0) break; } if (i == 200) continue; lo = t - 86400; while (t - lo > 1) { time_t h = lo + (t - lo) / 2; localtime_r(&h, &g); if (g.tm_isdst != d0) t = h; else lo = h; } t += (time_t)(vf_u16() % 7200) - 3600; if (vf_bool()) t = lo + vf_u8() % 2; }
		localtime_r(&t, &g); M_time_tolocal(t, &a, tz);
		if (getenv("DBG")) fprintf(stderr, "%s %s t %lld: %d-%d-%d %d:%d:%d dst %d | %lld-%lld-%lld %lld:%lld:%lld dst %lld off %lld [%s|%s]\n", s, p, (ll)t, g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec, g.tm_isdst, (ll)a.year, (ll)a.month, (ll)a.day, (ll)a.hour, (ll)a.min, (ll)a.sec, (ll)a.isdst, (ll)a.gmtoff, g.tm_zone, a.abbr);
		vf_assert(a.isdst == g.tm_isdst && a.gmtoff == g.tm_gmtoff, "offset and daylight saving"); vf_assert(a.year == g.tm_year + 1900 && a.month == g.tm_mon + 1 && a.day == g.tm_mday && a.hour == g.tm_hour && a.min == g.tm_min && a.sec == g.tm_sec && a.wday == g.tm_wday && a.yday == g.tm_yday, "local time"); vf_assert(!strcmp(a.abbr, g.tm_zone), "abbreviation");
		u = M_time_fromlocal(&a, tz); vf_assert(u == t, "there and back");
	}
	M_time_tzs_destroy(z);
}
void fmt(void)
{
	static const char *F[] = { "%Y-%m-%d %H:%M:%S", "%y/%m/%d", "%H:%M", "%I:%M %p", "%T", "%a %b %d %%", "%m%d%Y%H%M%S", "%I %P x", "%Y%m%d%H%M%S%z" }; unsigned f = vf_u8() % 9; ll t = (ll)(vf_u32() % 4000000000u); M_time_gmtm_t a, b; char x[64], *s; struct tm g; time_t tt = (time_t)t; const char *e;
	memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b)); M_time_togm(t, &a); gmtime_r(&tt, &g);
	s = M_time_to_str(F[f], &a); vf_assert(s != NULL, "formatted"); { char ff[64]; size_t i; strcpy(ff, F[f]); for (i = 0; ff[i]; i++) if (ff[i] == '%' && ff[i+1] == '%') i++; else if (ff[i] == '%' && ff[i+1] == 'P') ff[i+1] = 'p'; else if (ff[i] == '%' && ff[i+1] == 'p') ff[i+1] = 'P'; strftime(x, sizeof(x), ff, &g); }
	if (getenv("DBG")) fprintf(stderr, "%s: %s | %s\n", F[f], s, x);
	vf_assert(!strcasecmp(s, x), "as the fields say");
	if (f == 0 || f == 6 || f == 8) { e = M_time_parsefmt(s, F[f], &b); vf_assert(e != NULL && *e == 0, "what was formatted is parsed"); vf_assert(b.year == a.year && b.month == a.month && b.day == a.day && b.hour == a.hour && b.min == a.min && b.sec == a.sec, "the same fields"); }
	M_free(s);
}
