// MODE: seq
// MODS: base formats
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
#include <time.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
/* C38: time zone conversion. */
const char *mc_name = "h_tz";
typedef long long L;
static L fdiv(L a, L b) { L q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
static L dfc(L y, L m, L d) { L era, yoe, doy, doe; y -= m <= 2; era = fdiv(y, 400); yoe = y - era * 400; doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static L yearof(L t) { L d = fdiv(t, 86400), y = 1970 + fdiv(d, 365); while (dfc(y, 1, 1) > d) y--; while (dfc(y + 1, 1, 1) <= d) y++; return y; }
/* reference rules: month, week (1..5 with 5 the last, or -1.. from the end), weekday, seconds into the day */
typedef struct { int m, w, d, s; } chg; typedef struct { int year; L off, dst; chg a, b; } rule; typedef struct { L off; int n; rule r[3]; const char *std, *dsta; } zone;
static L chg_t(const chg *c, L y) { L f = dfc(y, c->m, 1), n = c->m == 12 ? dfc(y + 1, 1, 1) : dfc(y, c->m + 1, 1), d; if (c->w > 0) { d = f + (((c->d - (f + 4)) % 7) + 7) % 7 + 7 * (c->w - 1); if (d >= n) d -= 7; } else { L l = n - 1; d = l - ((((l + 4) - c->d) % 7) + 7) % 7 + 7 * (c->w + 1); } return d * 86400 + c->s; }
static const rule *rule_of(const zone *z, L y) { const rule *r = NULL; int i; for (i = 0; i < z->n; i++) if (z->r[i].year <= y && (!r || z->r[i].year > r->year)) r = &z->r[i]; if (!r) for (i = 0; i < z->n; i++) if (!r || z->r[i].year < r->year) r = &z->r[i]; return r; }
static L ref(const zone *z, L t, int *dst) { const rule *r; L y, a, b; *dst = 0; if (!z->n) return z->off; y = yearof(t + z->off); r = rule_of(z, y); a = chg_t(&r->a, y) - r->off; b = chg_t(&r->b, y) - r->dst; if (a < b ? t >= a && t < b : t >= a || t < b) { *dst = 1; return r->dst; } return r->off; }
static void chk_local(const char *what, const M_time_tz_t *tz, L t, L off, int dst, const char *abbr)
{
	M_time_localtm_t l; L w = t + off, day = fdiv(w, 86400), s = w - day * 86400; M_mem_set(&l, 0x55, sizeof(l)); M_time_tolocal(t, &l, tz); mc_case();
	mc_check(l.gmtoff == off && l.isdst == dst, "%s: at %lld the offset is %lld dst %lld, expected %lld dst %d", what, t, (L)l.gmtoff, (L)l.isdst, off, dst); mc_check(!strcmp(l.abbr, abbr), "%s: at %lld the abbreviation is '%s', expected '%s'", what, t, l.abbr, abbr);
	mc_check(dfc(l.year, l.month, l.day) == day && l.hour == s / 3600 && l.min == s / 60 % 60 && l.sec == s % 60, "%s: at %lld local time is %lld-%lld-%lld %lld:%lld:%lld", what, t, (L)l.year, (L)l.month, (L)l.day, (L)l.hour, (L)l.min, (L)l.sec);
}
static void set_local(M_time_localtm_t *l, L w, int isdst) { M_time_gmtm_t g; M_time_togm(w, &g); M_mem_set(l, 0, sizeof(*l)); l->year = g.year; l->month = g.month; l->day = g.day; l->hour = g.hour; l->min = g.min; l->sec = g.sec; l->isdst = isdst; }
/* the instants a wall clock reading stands for */
static void chk_wall(const char *what, const zone *z, const M_time_tz_t *tz, L w)
{
	L c[4], ok[2], offs[3]; int dst, d[2], n = 0, i, k, no = 0; const rule *r = rule_of(z, yearof(w)); offs[no++] = r ? r->off : z->off; if (r) offs[no++] = r->dst;
	for (i = 0; i < no; i++) { c[i] = w - offs[i]; if (ref(z, c[i], &dst) == offs[i]) { ok[n] = c[i]; d[n++] = dst; } }
	for (k = -1; k <= 1 && n; k++) { M_time_localtm_t l; L q; set_local(&l, w, k); q = M_time_fromlocal(&l, tz); mc_case(); if (n == 1) mc_check(q == ok[0], "%s: wall clock %lld (isdst %d) is %lld, expected %lld", what, w, k, q, ok[0]); else if (k >= 0 && d[0] != d[1]) { L e = d[0] == k ? ok[0] : ok[1]; mc_check(q == e, "%s: wall clock %lld occurs twice, isdst %d gives %lld, expected %lld", what, w, k, q, e); } else mc_check(q == ok[0] || q == ok[1], "%s: wall clock %lld is %lld", what, w, q); }
}
static void chk_zone(const char *what, const zone *z, const M_time_tz_t *tz, L y)
{
	static const L near[] = { -7201, -7200, -5400, -3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 5400, 7200, -90000, 90000, 86400 * 45LL, -86400 * 45LL }; size_t i, k; L at[2]; const rule *r = rule_of(z, y);
	if (r) { at[0] = chg_t(&r->a, y); at[1] = chg_t(&r->b, y); } else at[0] = at[1] = dfc(y, 6, 6) * 86400;
	for (k = 0; k < 2; k++) for (i = 0; i < HX_N(near); i++) { int dst; L t = at[k] - (r ? k ? r->dst : r->off : 0) + near[i], off = ref(z, t, &dst); chk_local(what, tz, t, off, dst, dst ? z->dsta : z->std); chk_wall(what, z, tz, at[k] + near[i]); }
	{ L j[] = { dfc(y, 1, 1) * 86400, dfc(y, 12, 31) * 86400 + 86399, dfc(y, 7, 1) * 86400 }; for (i = 0; i < 3; i++) { int dst; L off = ref(z, j[i], &dst); chk_local(what, tz, j[i], off, dst, dst ? z->dsta : z->std); chk_wall(what, z, tz, j[i]); } }
}
/* the same rules given to the platform */
static void plat(const char *what, const char *tzs, const zone *z, L y)
{
	int k; L i; const rule *r = rule_of(z, y); setenv("TZ", tzs, 1); tzset(); for (k = 0; k < 2; k++) for (i = -2; i <= 2; i++) { L t = (r ? k ? chg_t(&r->b, y) - r->dst : chg_t(&r->a, y) - r->off : 0) + i; struct tm g; time_t tt = (time_t)t; int dst; L off = ref(z, t, &dst); localtime_r(&tt, &g); mc_check(g.tm_gmtoff == off && !!g.tm_isdst == dst, "%s: the platform says %ld at %lld, the reference %lld", what, g.tm_gmtoff, t, off); }
}
static const struct { const char *s; L o; } offs[] = { { "5", -18000 }, { "0", 0 }, { "+10", 36000 }, { "3:30", -12600 }, { "+12:45", 45900 }, { "+1", 3600 }, { "+5:30:15", 19815 }, { "11", -39600 } };
static const struct { const char *s; int v; } tms[] = { { "", 7200 }, { "/02:00:00", 7200 }, { "/0", 0 }, { "/1:30", 5400 }, { "/3", 10800 }, { "/24", 86400 }, { "/23:59:59", 86399 } };
static char *put(char *p, const chg *c, int t) { return p + sprintf(p, "M%d.%d.%d%s", c->m, c->w, c->d, tms[t].s); }
static void run_posix(void)
{
	static const int mon[] = { 3, 10, 4, 9, 6, 2, 11 }, wk[] = { 1, 5, -1, 2, 4, 3, -2, -4 }; zone z; char s[200], g[200], nm[60], *p, *zs; M_time_tzs_t *tzs = M_time_tzs_create(); const M_time_tz_t *tz; int o = mc_choose((int)HX_N(offs)), dd = mc_choose(4), ta, tb, y, neg, ysel; L dv; M_time_result_t rr;
	M_mem_set(&z, 0, sizeof(z)); z.off = offs[o].o; z.std = "AAA"; z.dsta = "BBBB"; p = s + sprintf(s, "AAA%s", offs[o].s);
	if (dd < 3) { static const char *const ds[] = { "", NULL, NULL }; dv = dd == 0 ? 3600 : dd == 1 ? 1800 : 7200; p += sprintf(p, "BBBB"); if (ds[dd] == NULL) { L v = z.off + dv, a = v < 0 ? -v : v; p += sprintf(p, "%s%lld:%02lld:%02lld", v > 0 ? "+" : "", a / 3600, a / 60 % 60, a % 60); } z.n = 1; z.r[0].off = z.off; z.r[0].dst = z.off + dv; z.r[0].a.m = mon[mc_choose((int)mc_param("m", 4, 7))]; z.r[0].b.m = mon[mc_choose((int)mc_param("m", 4, 7))]; if (abs(z.r[0].a.m - z.r[0].b.m) < 2) mc_prune(); z.r[0].a.w = wk[mc_choose((int)mc_param("w", 4, 6))]; z.r[0].b.w = wk[mc_choose((int)mc_param("w", 4, 6))]; z.r[0].a.d = mc_choose(mc_param("wd", 0, 1) ? 3 : 2); z.r[0].b.d = z.r[0].a.d; ta = mc_choose((int)mc_param("t", 2, 3)); tb = (ta * 3 + 5) % 7; z.r[0].a.s = tms[ta].v; z.r[0].b.s = tms[tb].v; } else ta = tb = 0;
	snprintf(nm, sizeof(nm), "%s", s); if (z.n) { *p++ = ','; p = put(p, &z.r[0].a, ta); *p++ = ','; p = put(p, &z.r[0].b, tb); } *p = 0; zs = hx_dupz(s); rr = M_time_tzs_add_posix_str(tzs, zs); free(zs); mc_check(rr == M_TIME_RESULT_SUCCESS, "'%s' is not accepted: %d", s, rr); tz = M_time_tzs_get_tz(tzs, nm); mc_check(tz != NULL, "'%s': no zone '%s'", s, nm); neg = z.n && (z.r[0].a.w < 0 || z.r[0].b.w < 0); ysel = mc_choose((int)mc_param("ys", 3, 4));
	for (y = 2018 + ysel; y < 2050; y += 14) chk_zone(s, &z, tz, y); chk_zone(s, &z, tz, 1950 + ysel);
	if (!neg) { p = g; p += sprintf(p, "AAA%+lld:%02lld:%02lld", -z.off / 3600, llabs(z.off) / 60 % 60, llabs(z.off) % 60); if (z.off < 0) memmove(g + 3, g + 4, strlen(g + 3)), p--; if (z.off > 0 && z.off < 3600) return; if (z.n) { L v = z.r[0].dst, a = llabs(v); p += sprintf(p, "BBBB%s%lld:%02lld:%02lld,", v > 0 ? "-" : "", a / 3600, a / 60 % 60, a % 60); p = put(p, &z.r[0].a, ta); *p++ = ','; p = put(p, &z.r[0].b, tb); } *p = 0; plat(s, g, &z, 2018 + ysel); }
	M_time_tzs_destroy(tzs);
}
/* a minus sign means east of Greenwich */
static void run_sign(void) { M_time_tzs_t *tzs = M_time_tzs_create(); const M_time_tz_t *tz; M_time_localtm_t l; static const struct { const char *s, *n; L o; } k[] = { { "CET-1", "CET-1", 3600 }, { "AEST-10", "AEST-10", 36000 }, { "EST+5", "EST+5", -18000 } }; int i = mc_choose(3); M_time_tzs_add_posix_str(tzs, k[i].s); tz = M_time_tzs_get_tz(tzs, k[i].n); mc_check(tz != NULL, "no zone"); M_time_tolocal(1000000, &l, tz); mc_case(); if (l.gmtoff == -k[i].o && mc_known("posix-sign")) { M_time_tzs_destroy(tzs); return; } mc_check(l.gmtoff == k[i].o, "'%s' is offset %lld, expected %lld", k[i].s, (L)l.gmtoff, k[i].o); M_time_tzs_destroy(tzs); }
/* strings of any shape do not crash and never become a zone with a missing number */
static void run_junk(void) { static const char *const tk[] = { "EST", "5", "EDT", ",", "M3.2.0", "/", "2:00", "M", ".", "-", "+", ":", "M3..0", "<", "M13.1.0", "J60", "99999999999", "M10.-1.0", " " }; char b[200], *z; M_time_tzs_t *tzs = M_time_tzs_create(); M_time_result_t r; hx_toks(b, sizeof(b), (int)mc_param("junk", 4, 5), tk, (int)HX_N(tk)); z = hx_dupz(b); r = M_time_tzs_add_posix_str(tzs, z); mc_case(); free(z); if (r == M_TIME_RESULT_SUCCESS) { mc_check(strstr(b, ",,") || b[strlen(b) - 1] == ',' || b[0] == ',' || !strstr(b, ",M3..0") && !strstr(b, ",M13") && !strstr(b, ",J60"), "'%s' is accepted", b); z = strdup(b); if (strchr(z, ',')) *strchr(z, ',') = 0; { const M_time_tz_t *tz = M_time_tzs_get_tz(tzs, z); M_time_localtm_t l; mc_check(tz != NULL, "'%s' has no zone", b); M_time_tolocal(1700000000, &l, tz); M_time_fromlocal(&l, tz); } free(z); } M_time_tzs_destroy(tzs); }
/* rules by year */
static void run_mtz(void)
{
	zone z; char s[800], *p; static const chg ch[] = { { 3, 2, 0, 7200 }, { 11, 1, 0, 7200 }, { 4, 1, 0, 7200 }, { 10, -1, 0, 7200 }, { 10, 1, 6, 3600 }, { 3, -1, 0, 5400 } }; int n = 1 + mc_choose(3), i, perm, hem, o = mc_choose(3), e, y; static const L ov[][2] = { { -18000, -14400 }, { 36000, 37800 }, { 0, 3600 } }; M_time_tzs_t *tzs = M_time_tzs_create(); size_t el; char *es = NULL, *ed = NULL; const M_time_tz_t *tz; M_time_result_t rr;
	M_mem_set(&z, 0, sizeof(z)); z.off = ov[o][0]; z.std = "STD"; z.dsta = "DST"; z.n = n; p = s + sprintf(s, "[Zone/A]\nalias=Other\noffset=%s\noffset_dst=%s\nabbr=STD\nabbr_dst=DST\n", o == 0 ? "5" : o == 1 ? "+10" : "0", o == 0 ? "4" : o == 1 ? "+10:30" : "+1:00:00"); perm = mc_choose(n); hem = mc_choose(2);
	for (i = 0; i < n; i++) { int yi = (i + perm) % n, a = hem ? (int[]){ 1, 3, 4 }[mc_choose(3)] : (int[]){ 0, 2, 5 }[mc_choose(3)]; static const int ys[] = { 2007, 1987, 1976 }; z.r[yi].year = ys[yi]; z.r[yi].off = ov[o][0]; z.r[yi].dst = ov[o][1]; z.r[yi].a = ch[a]; z.r[yi].b = ch[a < 2 ? 1 - a : a < 4 ? 5 - a : 9 - a]; p += sprintf(p, "dst=%d;M%d.%d.%d/%d:%02d:00,M%d.%d.%d/%d:%02d\n", ys[yi], z.r[yi].a.m, z.r[yi].a.w, z.r[yi].a.d, z.r[yi].a.s / 3600, z.r[yi].a.s / 60 % 60, z.r[yi].b.m, z.r[yi].b.w, z.r[yi].b.d, z.r[yi].b.s / 3600, z.r[yi].b.s / 60 % 60); }
	rr = M_mtzfile_tzs_add_str(tzs, s, &el, &es, &ed); mc_check(rr == M_TIME_RESULT_SUCCESS, "mtzfile: %d\n%s", rr, s); tz = M_time_tzs_get_tz(tzs, mc_choose(2) ? "Other" : "zone/a"); mc_check(tz != NULL, "no zone"); e = mc_choose(4); { static const int yy[][4] = { { 2006, 2007, 2008, 2026 }, { 1986, 1987, 1988, 2005 }, { 1975, 1976, 1977, 1985 }, { 1950, 1996, 2000, 2040 } }; for (y = 0; y < 4; y++) chk_zone(s, &z, tz, yy[e][y]); } M_free(es); M_free(ed); M_time_tzs_destroy(tzs);
}
/* zone files built here */
static unsigned char fb[4000]; static size_t fl; static void p4(L v) { int i; for (i = 3; i >= 0; i--) fb[fl++] = (unsigned char)((unsigned long long)v >> (8 * i)); } static void p8(L v) { p4((L)((unsigned long long)v >> 32)); p4(v); }
static const char *path_(void) { static char p[200]; if (!*p) { snprintf(p, sizeof(p), "%s/hx_tz.%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid()); } return p; }
static void put_file(size_t n) { FILE *f = fopen(path_(), "wb"); if (n) fwrite(fb, 1, n, f); fclose(f); }
typedef struct { L off; int dst, ab; } typ;
static void block(int ver, int wide, int nt, const L *at, const int *ty, int ntyp, const typ *t, const char *ab, int nab, int ind) { int i; memcpy(fb + fl, "TZif", 4); fl += 4; fb[fl++] = ver ? (unsigned char)('0' + ver) : 0; memset(fb + fl, 0, 15); fl += 15; p4(ind & 1 ? ntyp : 0); p4(ind & 2 ? ntyp : 0); p4(0); p4(nt); p4(ntyp); p4(nab); for (i = 0; i < nt; i++) if (wide) p8(at[i]); else p4(at[i]); for (i = 0; i < nt; i++) fb[fl++] = (unsigned char)ty[i]; for (i = 0; i < ntyp; i++) { p4(t[i].off); fb[fl++] = (unsigned char)t[i].dst; fb[fl++] = (unsigned char)t[i].ab; } memcpy(fb + fl, ab, (size_t)nab); fl += (size_t)nab; for (i = 0; i < ntyp * ((ind & 1) + (ind >> 1)); i++) fb[fl++] = 0; }
static void run_tzif(void)
{
	static const char abb[] = "LMT\0EDT\0EST\0ABC"; static const typ ty[4] = { { -17762, 0, 0 }, { -14400, 1, 4 }, { -18000, 0, 8 }, { 3600, 0, 12 } }; L at[3] = { -2000000000LL, 500000000, 600000000 }, w[3]; int n = mc_choose(4), idx[3], i, ver = mc_choose(4), ind = mc_choose(4), big = mc_choose(2); M_time_tzs_t *tzs; const M_time_tz_t *tz; M_time_result_t rr; size_t k; if (ver) ver++; if (big && ver) at[0] = -50000000000LL; for (i = 0; i < n; i++) { idx[i] = mc_choose(4); w[i] = at[i] < -2147483648LL ? -2147483648LL : at[i]; }
	fl = 0; block(ver, 0, big ? 0 : n, w, idx, 4, ty, abb, (int)sizeof(abb), ind); if (ver) { block(ver, 1, n, at, idx, 4, ty, abb, (int)sizeof(abb), ind); memcpy(fb + fl, "\nEST5\n", 6); fl += 6; } else if (big) n = 0; put_file(fl);
	tzs = M_time_tzs_create(); rr = M_time_tzs_add_tzfile(tzs, path_(), "Z"); mc_check(rr == M_TIME_RESULT_SUCCESS, "zone file version %d with %d transitions, indicators %d does not load: %d", ver, n, ind, rr); tz = M_time_tzs_get_tz(tzs, "Z"); mc_check(tz != NULL, "no zone");
	for (i = -1; i < n; i++) { static const L near[] = { 0, 1, 1800, 3599, 3600, 18000, 43200, 90000, 8000000, -1, -3600, -43200 }; L b = i < 0 ? (n ? at[0] - 100000 : 0) : at[i]; for (k = 0; k < HX_N(near); k++) { L t = b + near[k], wl, ok[8]; int j, q, c = 0, cd[8]; const typ *ct; for (j = n - 1; j >= 0 && t < at[j]; j--); ct = j < 0 ? &ty[0] : &ty[idx[j]]; chk_local("zone file", tz, t, ct->off, ct->dst, abb + ct->ab); wl = t + ct->off; for (q = -1; q < n; q++) { const typ *qt = q < 0 ? &ty[0] : &ty[idx[q]]; L u = wl - qt->off; if ((q < 0 || u >= at[q]) && (q + 1 >= n || u < at[q + 1])) { ok[c] = u; cd[c++] = qt->dst; } } for (j = -1; j <= 1; j++) { M_time_localtm_t l; L r; int hit = 0; set_local(&l, wl, j); r = M_time_fromlocal(&l, tz); mc_case(); for (q = 0; q < c; q++) hit |= ok[q] == r; mc_check(hit, "zone file: wall clock %lld (isdst %d) is %lld, expected %lld", wl, j, r, ok[0]); if (c == 2 && cd[0] != cd[1] && j >= 0) mc_check(r == (cd[0] == j ? ok[0] : ok[1]), "zone file: wall clock %lld occurs twice, isdst %d gives %lld", wl, j, r); } } }
	M_time_tzs_destroy(tzs); unlink(path_());
}
/* damaged files */
static void run_tzbad(void)
{
	static const char abb[] = "LMT\0EDT"; static const typ ty[2] = { { -3600, 0, 0 }, { 3600, 1, 4 } }; static const L at[2] = { 100, 200 }; static const int idx[2] = { 1, 0 }; int wide = mc_choose(2), how = mc_choose(2), pos, val; M_time_tzs_t *tzs; const M_time_tz_t *tz; static const int vals[] = { 0, 1, 2, 3, 7, 8, 9, 0x7f, 255 }; size_t n; fl = 0; block(wide ? 2 : 0, 0, 2, at, idx, 2, ty, abb, (int)sizeof(abb), 3); if (wide) block(2, 1, 2, at, idx, 2, ty, abb, (int)sizeof(abb), 3); n = fl; pos = mc_choose((int)fl);
	if (how) n = (size_t)pos; else { int p = pos % 1000; val = vals[mc_choose(9)]; { size_t h = (size_t)p; size_t o = wide && h >= fl - 0 ? 0 : 0; (void)o; } if ((pos >= 20 && pos < 43 && pos % 4 != 3) || (wide && pos >= 44 + 10 + 12 + 8 + 4 + 20 && pos < 44 + 10 + 12 + 8 + 4 + 43 && (pos - 34 - 44) % 4 != 3)) if (val) mc_prune(); /* gigabyte tables */ fb[pos] = (unsigned char)val; }
	put_file(n); tzs = M_time_tzs_create(); if (M_time_tzs_add_tzfile(tzs, path_(), "Z") == M_TIME_RESULT_SUCCESS && (tz = M_time_tzs_get_tz(tzs, "Z")) != NULL) { M_time_localtm_t l; L t; for (t = 0; t <= 300; t += 50) { M_time_tolocal(t, &l, tz); mc_check(strlen(l.abbr) < sizeof(l.abbr), "abbreviation"); M_time_fromlocal(&l, tz); } } mc_case(); M_time_tzs_destroy(tzs); unlink(path_());
}
/* the system's zone files against the system's code */
static char **zf; static int nzf;
static void scan(const char *d, int depth) { DIR *D = opendir(d); struct dirent *e; if (!D) return; while ((e = readdir(D))) { char p[600]; struct stat st; if (e->d_name[0] == '.') continue; snprintf(p, sizeof(p), "%s/%s", d, e->d_name); if (lstat(p, &st)) continue; if (S_ISDIR(st.st_mode)) { if (depth < 3 && strcmp(e->d_name, "right") && strcmp(e->d_name, "posix")) scan(p, depth + 1); } else if (S_ISREG(st.st_mode) && st.st_size > 44) { FILE *f = fopen(p, "rb"); char m[5] = { 0 }; if (f && fread(m, 1, 4, f) == 4 && !strcmp(m, "TZif")) { zf = realloc(zf, sizeof(*zf) * (size_t)(nzf + 1)); zf[nzf++] = strdup(p); } if (f) fclose(f); } } closedir(D); }
static int cmps(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static void run_sys(void)
{
	char tzv[600]; M_time_tzs_t *tzs; const M_time_tz_t *tz; M_time_result_t rr; FILE *f; unsigned char b[64], *d; size_t n, i, o; L cnt[6]; int k, z, part; if (!nzf) { mc_outcome(0); return; } z = mc_choose(nzf); part = mc_choose((int)mc_param("sys", 1, 1)); (void)part;
	f = fopen(zf[z], "rb"); d = malloc(200000); n = fread(d, 1, 200000, f); fclose(f); (void)b; (void)n;
	o = 20; for (k = 0; k < 6; k++) cnt[k] = ((L)d[o + 4 * (size_t)k] << 24) | (d[o + 4 * (size_t)k + 1] << 16) | (d[o + 4 * (size_t)k + 2] << 8) | d[o + 4 * (size_t)k + 3]; o = 44 + (size_t)(cnt[3] * 5 + cnt[4] * 6 + cnt[5] + cnt[2] * 8 + cnt[1] + cnt[0]) + 20; if (!d[4]) { free(d); return; }
	for (k = 0; k < 6; k++) cnt[k] = ((L)d[o + 4 * (size_t)k] << 24) | (d[o + 4 * (size_t)k + 1] << 16) | (d[o + 4 * (size_t)k + 2] << 8) | d[o + 4 * (size_t)k + 3]; o += 24;
	snprintf(tzv, sizeof(tzv), ":%s", zf[z]); setenv("TZ", tzv, 1); tzset(); tzs = M_time_tzs_create(); rr = M_time_tzs_add_tzfile(tzs, zf[z], "Z"); mc_check(rr == M_TIME_RESULT_SUCCESS, "%s does not load: %d", zf[z], rr); tz = M_time_tzs_get_tz(tzs, "Z"); mc_check(tz != NULL, "no zone");
	{ L prev = 0; for (i = 0; i <= (size_t)cnt[3]; i++) { L at = 0; static const L near[] = { -1, 0, 1, 3599, 3600, 43200, -3600 }; if (i < (size_t)cnt[3]) { for (k = 0; k < 8; k++) at = (L)(((unsigned long long)at << 8) | d[o + i * 8 + (size_t)k]); } else if (cnt[3]) break; if (at < -60000000000LL || at > 4000000000LL) continue; for (k = 0; k < (int)HX_N(near); k++) { L t = at + near[k], r; time_t tt = (time_t)t; struct tm g, u; M_time_localtm_t l; if (i + 1 >= (size_t)cnt[3] && cnt[3] && near[k] > 0) continue; localtime_r(&tt, &g); chk_local(zf[z], tz, t, g.tm_gmtoff, g.tm_isdst, g.tm_zone); /* unambiguous readings invert */
		{ L wl = t + g.tm_gmtoff, j; int others = 0; for (j = -5; j <= 5; j++) { (void)j; } { L c[] = { t - 3600, t + 3600, t - 1800, t + 1800, t - 7200, t + 7200 }; size_t q; for (q = 0; q < HX_N(c); q++) { tt = (time_t)c[q]; localtime_r(&tt, &u); if (c[q] + u.tm_gmtoff == wl) others++; } } { L c; for (c = -86400; c <= 86400; c += 21600) { tt = (time_t)(t + c); localtime_r(&tt, &u); if (u.tm_gmtoff != g.tm_gmtoff) { L x = wl - u.tm_gmtoff; struct tm v; tt = (time_t)x; localtime_r(&tt, &v); if (v.tm_gmtoff == u.tm_gmtoff) others++; } } } if (!others && (prev == 0 || at - prev > 4 * 86400)) { int ds; for (ds = -1; ds <= 1; ds++) { set_local(&l, wl, ds); r = M_time_fromlocal(&l, tz); mc_check(r == t, "%s: wall clock of %lld (isdst %d) is %lld", zf[z], t, ds, r); } } } } prev = at; } }
	if (getenv("TZ") && d[n - 2] != '0') {} free(d); M_time_tzs_destroy(tzs);
}
/* beyond the last transition of a file the rule at its end applies */
static void run_after(void) { static const char *const n[] = { "/usr/share/zoneinfo/America/New_York", "/usr/share/zoneinfo/Europe/Berlin", "/usr/share/zoneinfo/Australia/Sydney" }; const char *p = n[mc_choose(3)]; M_time_tzs_t *tzs; const M_time_tz_t *tz; struct tm g; time_t tt = 2540000000LL + mc_choose(4) * 7889400LL; M_time_localtm_t l; char e[100]; if (access(p, R_OK)) return; tzs = M_time_tzs_create(); if (M_time_tzs_add_tzfile(tzs, p, "Z") != M_TIME_RESULT_SUCCESS) mc_fail("%s does not load", p); tz = M_time_tzs_get_tz(tzs, "Z"); snprintf(e, sizeof(e), ":%s", p); setenv("TZ", e, 1); tzset(); localtime_r(&tt, &g); M_time_tolocal(tt, &l, tz); mc_case(); if (l.gmtoff != g.tm_gmtoff && mc_known("after-last-transition")) { M_time_tzs_destroy(tzs); return; } mc_check(l.gmtoff == g.tm_gmtoff, "%s: at %lld the offset is %lld, expected %ld", p, (L)tt, (L)l.gmtoff, g.tm_gmtoff); M_time_tzs_destroy(tzs); }
void mc_init(void) { mc_leakcheck = 1; scan("/usr/share/zoneinfo", 0); if (nzf) qsort(zf, (size_t)nzf, sizeof(*zf), cmps); }
void mc_run(void)
{
	int only = (int)mc_param("only", -1, -1), m = only >= 0 ? only : mc_choose(8); switch (m) { case 0: run_posix(); break; case 1: run_sign(); break; case 2: run_junk(); break; case 3: run_mtz(); break; case 4: run_tzif(); break; case 5: run_tzbad(); break; case 6: run_sys(); break; case 7: run_after(); break; }
}
