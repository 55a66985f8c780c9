// MODE: seq
// MODS: base
// WRAP: time
#include "hx.h"
#include <time.h>
#include "timefmt.h"
/* C37: calendar conversion, formatting and parsing. */
const char *mc_name = "h_time";
typedef long long L;
static L now_; time_t __wrap_time(time_t *t); time_t __wrap_time(time_t *t) { if (t) *t = (time_t)now_; return (time_t)now_; }
static L fdiv(L a, L b) { L q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
static L dfc(L y, L m, L d) { L era, yoe, doy, doe; y -= m <= 2; era = fdiv(y, 400); yoe = y - era * 400; doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static void cfd(L z, L *y, L *m, L *d) { L era, doe, yoe, doy, mp; z += 719468; era = fdiv(z, 146097); doe = z - era * 146097; yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; doy = doe - (365 * yoe + yoe / 4 - yoe / 100); mp = (5 * doy + 2) / 153; *d = doy - (153 * mp + 2) / 5 + 1; *m = mp < 10 ? mp + 3 : mp - 9; *y = yoe + era * 400 + (*m <= 2); }
static void chk_tm(const char *what, L t, const M_time_gmtm_t *g)
{
	L day = fdiv(t, 86400), s = t - day * 86400, y, m, d; cfd(day, &y, &m, &d);
	mc_check(g->year == y && g->month == m && g->day == d && g->hour == s / 3600 && g->min == s / 60 % 60 && g->sec == s % 60, "%s %lld: %lld-%lld-%lld %lld:%lld:%lld, expected %lld-%lld-%lld %lld:%lld:%lld", what, t, (L)g->year, (L)g->month, (L)g->day, (L)g->hour, (L)g->min, (L)g->sec, y, m, d, s / 3600, s / 60 % 60, s % 60);
	mc_check(g->wday == ((day + 4) % 7 + 7) % 7, "%s %lld: weekday %lld, expected %lld", what, t, (L)g->wday, ((day + 4) % 7 + 7) % 7); mc_check(g->yday == day - dfc(y, 1, 1), "%s %lld: day of year %lld, expected %lld", what, t, (L)g->yday, day - dfc(y, 1, 1)); if (y >= 0) mc_check(g->year2 == y % 100, "%s %lld: 2 digit year %lld", what, t, (L)g->year2); mc_check(g->isdst == 0 && g->gmtoff == 0, "%s %lld: dst %lld offset %lld", what, t, (L)g->isdst, (L)g->gmtoff);
}
static void run_days(void)
{
	L y0 = mc_param("y0", 1600, -1000), y1 = mc_param("y1", 2420, 4000), d0 = dfc(y0, 1, 1), n = (dfc(y1, 1, 1) - d0) / 64, b = mc_choose((int)n), i; static const L sec[] = { 0, 86399, 45296 };
	for (i = 0; i < 64; i++) { L t = (d0 + b * 64 + i) * 86400 + sec[(b + i) % 3], q; M_time_gmtm_t g; int k; for (k = 0; k < 2; k++) { if (k) t = (d0 + b * 64 + i) * 86400 + sec[(b + i + 1) % 3]; M_mem_set(&g, 0x55, sizeof(g)); M_time_togm(t, &g); mc_case(); chk_tm("time", t, &g); q = M_time_fromgm(&g); mc_check(q == t, "time %lld reads back as %lld", t, q); chk_tm("normalised", t, &g); } }
}
static void run_overflow(void)
{
	static const int base[][3] = { { 1970, 1, 1 }, { 2000, 2, 29 }, { 2020, 3, 1 }, { 2019, 3, 1 }, { 2019, 12, 31 }, { 1900, 2, 28 }, { 2001, 7, 15 }, { 2024, 1, 31 }, { 1968, 2, 29 }, { 1969, 12, 31 }, { 2023, 6, 30 } };
	static const int del[] = { 0, 1, -1, 2, 11, 12, 13, -11, -12, -13, 23, 24, 25, -24, 28, 29, 30, 31, 32, -28, -29, -30, -31, -32, 59, 60, 61, -59, -60, -61, 119, 120, 364, 365, 366, 367, -364, -365, -366, -367, 730, 731, -730, -731, 1460, 1461, 1462, -1461, -1462, 3652, 36524, -36525, 146097, -146097, 86399, 86400, -86400, 1000000, -1000000 };
	int b = mc_choose((int)HX_N(base)), f1 = mc_choose(6), f2 = mc_choose(6), i1 = mc_choose((int)HX_N(del)), i2 = f1 == f2 ? 0 : mc_choose((int)mc_param("d2", 35, (long)HX_N(del))), k; L v[6], t, q; M_time_gmtm_t g, n; static const int tod[][3] = { { 0, 0, 0 }, { 23, 59, 59 }, { 12, 30, 15 } }; k = (b + i1 + i2) % 3;
	v[0] = base[b][0]; v[1] = base[b][1]; v[2] = base[b][2]; v[3] = tod[k][0]; v[4] = tod[k][1]; v[5] = tod[k][2]; if (f1 > f2) mc_prune(); v[f1] += del[i1]; v[f2] += f1 == f2 ? 0 : del[i2]; if (v[0] < -20000 || v[0] > 40000) mc_prune(); if (f1 == 0 && (L)del[i1] * del[i1] > 200000000LL) mc_prune();
	{ L y = v[0] + fdiv(v[1] - 1, 12), m = v[1] - 1 - fdiv(v[1] - 1, 12) * 12 + 1; t = (dfc(y, m, 1) + v[2] - 1) * 86400 + v[3] * 3600 + v[4] * 60 + v[5]; }
	M_mem_set(&g, 0, sizeof(g)); g.year = v[0]; g.month = v[1]; g.day = v[2]; g.hour = v[3]; g.min = v[4]; g.sec = v[5]; g.isdst = -1; n = g; mc_case(); q = M_time_fromgm(&g); mc_check(q == t, "%lld-%lld-%lld %lld:%lld:%lld is %lld, expected %lld", v[0], v[1], v[2], v[3], v[4], v[5], q, t); chk_tm("overflowed", t, &g);
	M_time_normalize_tm(&n); mc_check(n.year == g.year && n.month == g.month && n.day == g.day && n.hour == g.hour && n.min == g.min && n.sec == g.sec, "normalising %lld-%lld-%lld %lld:%lld:%lld gives %lld-%lld-%lld %lld:%lld:%lld", v[0], v[1], v[2], v[3], v[4], v[5], (L)n.year, (L)n.month, (L)n.day, (L)n.hour, (L)n.min, (L)n.sec);
}
static void run_month(void) { int y = 1580 + mc_choose(850), m; for (m = -1; m <= 14; m++) { int d, len = m < 1 || m > 12 ? 0 : (int)(dfc(m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1) - dfc(y, m, 1)); mc_case(); mc_check(M_time_days_in_month(y, m) == len, "%d-%d has %d days", y, m, M_time_days_in_month(y, m)); for (d = -1; d <= 33; d++) mc_check(M_time_is_valid_day(y, m, d) == (d >= 1 && d <= len ? M_TRUE : M_FALSE), "%d-%d-%d valid: %d", y, m, d, M_time_is_valid_day(y, m, d)); } }
static L a_time(void) { static const L d[] = { 0, 951782400 / 86400, 11016 + 60, -1, 15706, 16070, 20000, -25567, 25567 * 2, 3 }; static const L s[] = { 0, 59, 3600, 43199, 43200, 46799, 46800, 86399, 82800, 39600 + 125 }; return d[mc_choose(10)] * 86400 + s[mc_choose(10)]; }
/* formatting against the platform */
static void run_fmt(void)
{
	static const struct { const char *m, *c; } f[] = { { "%a", "%a" }, { "%b", "%b" }, { "%m", "%m" }, { "%d", "%d" }, { "%y", "%y" }, { "%Y", "%Y" }, { "%H", "%H" }, { "%I", "%I" }, { "%M", "%M" }, { "%S", "%S" }, { "%T", "%T" }, { "%P", "%p" }, { "%p", "%P" }, { "%%", "%%" }, { "x", "x" }, { " ", " " }, { "%z", "%z" }, { "%Z", "%Z" } };
	L t = a_time(); time_t tt; struct tm st; M_time_gmtm_t g; char mf[40] = "", cf[40] = "", w[200], *z, *r; int n = 1 + mc_choose(2), i, off[] = { 0, 3600, -3600, -18000, 19800, -12600, 45900, -1800, 50400, 60 }; tt = (time_t)t; gmtime_r(&tt, &st); M_time_togm(t, &g); i = mc_choose(10); st.tm_gmtoff = off[i]; g.gmtoff = off[i]; strcpy(g.abbr, i % 2 ? "ABC" : "EDTX"); st.tm_zone = g.abbr;
	for (i = 0; i < n; i++) { int k = mc_choose((int)HX_N(f)); strcat(mf, f[k].m); strcat(cf, f[k].c); } mc_case(); strftime(w, sizeof(w), cf, &st); z = hx_dupz(mf); r = M_time_to_str(z, &g); mc_check(r && !strcmp(r, w), "time %lld as '%s': '%s', expected '%s'", t, mf, r ? r : "NULL", w); M_free(r); free(z);
}
/* every documented format read back */
static void run_doc(void)
{
	const char *f = docfmt[mc_choose((int)HX_N(docfmt))]; L t = a_time(), want, q; M_time_gmtm_t g; char *s, *z; int eod = mc_choose(2), off = 0, k; M_bool h, m, sec; L day, rem; k = mc_choose(4); if (k && !strstr(f, "%z")) mc_prune(); if (strstr(f, "%I") && !strstr(f, "%p") && !strstr(f, "%P")) return;
	now_ = 1800000000; if (strstr(f, "%y") && (t < -600000000LL || t > 2300000000LL)) mc_prune(); off = k == 0 ? 0 : k == 1 ? -18000 : k == 2 ? 19800 : -12600; M_time_togm(t + off, &g); g.gmtoff = off; s = M_time_to_str(f, &g); mc_check(s != NULL, "format %s", f); h = strstr(f, "%H") || strstr(f, "%I"); m = strstr(f, "%M") != NULL; sec = strstr(f, "%S") != NULL; day = fdiv(t + off, 86400); rem = t + off - day * 86400;
	want = day * 86400 - off + (h ? rem / 3600 * 3600 : eod ? 23 * 3600 : 0) + (m ? rem / 60 % 60 * 60 : eod ? 59 * 60 : 0) + (sec ? rem % 60 : eod ? 59 : 0); z = hx_dupz(s); mc_case(); if (want == -1) mc_prune(); q = M_time_from_str(z, NULL, eod ? M_TRUE : M_FALSE); mc_check(q == want, "'%s' (%s) is %lld, expected %lld", s, f, q, want); M_free(s); free(z);
}
/* format, then parse with the same format */
static void run_rt(void)
{
	static const char *const f[] = { "%Y-%m-%d %H:%M:%S", "%m/%d/%Y %I:%M:%S %p", "%Y%m%d%H%M%S", "%d.%m.%Y %H:%M:%S%z", "%Y %% %m %d  T%I%M%S%P", "%S:%M:%H %d-%m-%Y", "%z%Y/%m/%d %H%M%S", "%m/%d/%y %H:%M:%S %z" };
	const char *ff = f[mc_choose(8)]; L t = a_time(), q; M_time_gmtm_t g, h; char *s, *z, *e, *fz = hx_dupz(ff); int off[] = { 0, -18000, 20700, -34200 }, k = mc_choose(4); now_ = 1800000000; if (strstr(ff, "%y") && (t < -600000000LL || t > 2300000000LL)) { free(fz); return; } if (!strstr(ff, "%z")) k = 0; M_time_togm(t + off[k], &g); g.gmtoff = off[k]; s = M_time_to_str(fz, &g); z = hx_dupz(s); M_mem_set(&h, 0, sizeof(h)); e = M_time_parsefmt(z, fz, &h); mc_case(); mc_check(e == z + strlen(z), "'%s' does not parse as '%s'", s, ff); mc_check(h.gmtoff == off[k], "'%s' as '%s': offset %lld", s, ff, (L)h.gmtoff); q = M_time_fromgm(&h) - off[k]; mc_check(q == t, "'%s' as '%s' is %lld, expected %lld", s, ff, q, t); M_free(s); free(z); free(fz);
}
static void run_zone(void)
{
	static const struct { const char *s; int off; } zn[] = { { "UTC", 0 }, { "GMT", 0 }, { "UT", 0 }, { "Z", 0 }, { "EST", -5 * 3600 }, { "EDT", -4 * 3600 }, { "CST", -6 * 3600 }, { "CDT", -5 * 3600 }, { "MST", -7 * 3600 }, { "MDT", -6 * 3600 }, { "PST", -8 * 3600 }, { "PDT", -7 * 3600 }, { "A", -3600 }, { "B", -7200 }, { "C", -3 * 3600 }, { "D", -4 * 3600 }, { "E", -5 * 3600 }, { "F", -6 * 3600 }, { "G", -7 * 3600 }, { "H", -8 * 3600 }, { "I", -9 * 3600 }, { "K", -10 * 3600 }, { "L", -11 * 3600 }, { "M", -12 * 3600 }, { "N", 3600 }, { "O", 7200 }, { "P", 3 * 3600 }, { "Q", 4 * 3600 }, { "R", 5 * 3600 }, { "S", 6 * 3600 }, { "T", 7 * 3600 }, { "U", 8 * 3600 }, { "V", 9 * 3600 }, { "W", 10 * 3600 }, { "X", 11 * 3600 }, { "Y", 12 * 3600 }, { "J", 1 }, { "+", 1 }, { "-", 1 }, { "-x", 1 }, { "+:30", 1 }, { "?", 1 }, { "+05", 18000 }, { "-05", -18000 }, { "+0530", 19800 }, { "-05:30", -19800 }, { "+00:00", 0 }, { "0300", 10800 }, { "+14:00", 50400 } };
	int i = mc_choose((int)HX_N(zn)); M_time_gmtm_t h; char b[40], *z, *e; L want = 12 * 3600 + 34 * 60 + 56; static const char *const fm[] = { "%H:%M:%S %z", "%H:%M:%S%z", "%z" }; int k = mc_choose(3); if (k == 1 && zn[i].s[0] == '0') mc_prune(); snprintf(b, sizeof(b), "%s%s", k == 2 ? "" : k ? "12:34:56" : "12:34:56 ", zn[i].s); z = hx_dupz(b); M_mem_set(&h, 0, sizeof(h)); mc_case(); e = M_time_parsefmt(z, fm[k], &h); (void)want;
	if (zn[i].off == 1) mc_check(e == NULL, "zone '%s' accepted with offset %lld", zn[i].s, (L)h.gmtoff); else { mc_check(e == z + strlen(z), "zone '%s' not read", zn[i].s); mc_check(h.gmtoff == zn[i].off, "zone '%s': offset %lld, expected %d", zn[i].s, (L)h.gmtoff, zn[i].off); } free(z);
}
static void run_ampm(void)
{
	static const char *const ap[] = { "AM", "PM", "am", "pm", "A.M.", "P.M.", "a.m.", "p.m.", "Pm" }; int a = mc_choose(9), hh = 1 + mc_choose(12), pm = ap[a][0] == 'P' || ap[a][0] == 'p', sp = mc_choose(2), u = mc_choose(2), w; char b[40], *z, *e; M_time_gmtm_t h; snprintf(b, sizeof(b), "%02d:05%s%s", hh, sp ? " " : "", ap[a]); z = hx_dupz(b); M_mem_set(&h, 0, sizeof(h)); mc_case(); e = M_time_parsefmt(z, u ? "%I:%M %p" : "%I:%M%P", &h); if (!u && sp) { free(z); return; }
	w = hh % 12 + (pm ? 12 : 0); mc_check(e == z + strlen(z) && h.hour == w && h.min == 5, "'%s': %s, hour %lld, expected %d", b, e ? e : "NULL", (L)h.hour, w); free(z);
}
static void run_y2(void) { static const int cur[] = { 1970, 1999, 2000, 2013, 2026, 2050, 2080, 2081, 2099, 2100 }; int c = cur[mc_choose(10)], y = mc_choose(100); char b[16], *z; M_time_gmtm_t h; now_ = dfc(c, 1 + mc_choose(12), 15) * 86400; snprintf(b, sizeof(b), "%02d", y); z = hx_dupz(b); M_mem_set(&h, 0, sizeof(h)); mc_case(); mc_check(M_time_parsefmt(z, "%y", &h) == z + 2 && h.year % 100 == y && h.year > c - 80 && h.year <= c + 20 && h.year2 == y, "in %d, year %02d is %lld", c, y, (L)h.year); free(z); }
static void run_num(void)
{
	static const struct { char c; int lo, hi; } d[] = { { 'm', 1, 12 }, { 'd', 1, 31 }, { 'H', 0, 23 }, { 'I', 1, 12 }, { 'M', 0, 59 }, { 'S', 0, 60 } }; int k = mc_choose(6), v = mc_choose(112); char b[16], f[8], *z, *e; M_time_gmtm_t h; L got; M_bool bad; snprintf(b, sizeof(b), v < 100 ? "%02d;" : "%d;", v < 100 ? v : v - 100); snprintf(f, sizeof(f), "%%%c;", d[k].c); if (v >= 110) strcpy(b, v == 110 ? "-1;" : "x;"); z = hx_dupz(b); M_mem_set(&h, 0, sizeof(h)); mc_case(); e = M_time_parsefmt(z, f, &h); if (v >= 100) v -= 100; bad = v < d[k].lo || v > d[k].hi || b[0] == 'x' || b[0] == '-'; got = k == 0 ? h.month : k == 1 ? h.day : k < 4 ? h.hour : k == 4 ? h.min : h.sec; mc_check(bad ? e == NULL : e == z + strlen(z) && got == v, "'%s' as '%s': %s, value %lld", b, f, e ? "accepted" : "rejected", got); free(z);
}
/* any text, any format: stays within both, what it accepts is in range */
static void run_any(void)
{
	static const char al[] = { '0', '1', '3', '9', ':', ' ', 'p', '+', 'E', '%', 'U' }; static const char *const f[] = { "%m/%d/%Y", "%H:%M%p", "%I%p", "%z", "%y%m%d", "%H:%M:%S%z", "%", "%p%", "%%%H", "%Y", " %H ", "%Q", "%P" }; char s[12], *z, *fz, *e; const char *ff = f[mc_choose(13)]; size_t n = hx_str(s, (size_t)mc_param("any", 5, 6), al, sizeof(al)); M_time_gmtm_t h; fz = hx_dupz(ff); z = hx_dupz(s); M_mem_set(&h, 0, sizeof(h)); mc_case(); e = M_time_parsefmt(z, fz, &h); if (e) mc_check(e >= z && e <= z + n && h.month >= 0 && h.month <= 12 && h.day >= 0 && h.day <= 31 && h.hour >= 0 && h.hour <= 23 && h.min >= 0 && h.min <= 59 && h.sec >= 0 && h.sec <= 60, "'%s' as '%s': stopped at %d", s, ff, (int)(e - z)); free(z); free(fz);
}
static void run_rel(void)
{
	static const char *const un[] = { "year", "years", "month", "months", "week", "weeks", "day", "days", "hour", "minutes", "min", "sec", "seconds" }; static const int am[] = { 1, 2, 12, 13, 24, 30, 59, 60, 365, 366, 367, 400, 1000, 1461 }; static const L base[] = { 951782400 + 3661, 1583020800, 1704067199, 1330473600 + 5, 0 }; int u = mc_choose(13), a = am[mc_choose(14)], sg = mc_choose(2), k = mc_choose(5); char b[40], *z; L y, m, d, day, s, want, q; now_ = base[k]; snprintf(b, sizeof(b), "%c%d %s", sg ? '-' : '+', a, un[u]); if (sg) a = -a; day = fdiv(now_, 86400); s = now_ - day * 86400; cfd(day, &y, &m, &d);
	switch (un[u][0]) { case 'y': y += a; break; case 'w': d += 7 * a; break; case 'd': d += a; break; case 'h': s += 3600LL * a; break; case 's': s += a; break; default: if (un[u][1] == 'o') m += a; else s += 60LL * a; } y += fdiv(m - 1, 12); m = (m - 1) - fdiv(m - 1, 12) * 12 + 1; want = (dfc(y, m, 1) + d - 1) * 86400 + s; if (want == -1) mc_prune(); z = hx_dupz(b); mc_case(); q = M_time_from_str(z, NULL, M_FALSE); mc_check(q == want, "'%s' at %lld is %lld, expected %lld", b, now_, q, want); free(z);
}
void mc_init(void) { mc_leakcheck = 1; setenv("TZ", "UTC0", 1); tzset(); }
void mc_run(void) { now_ = 1800000000; switch (mc_choose(12)) { case 0: run_days(); break; case 1: run_overflow(); break; case 2: run_month(); break; case 3: run_fmt(); break; case 4: run_doc(); break; case 5: run_rt(); break; case 6: run_zone(); break; case 7: run_ampm(); break; case 8: run_y2(); break; case 9: run_num(); break; case 10: run_any(); break; case 11: run_rel(); break; } }
