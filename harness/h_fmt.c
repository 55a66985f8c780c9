// MODE: seq
// MODS: base
/* C32: M_*printf against the platform's printf. */
#include "hx.h"
#include <mstdlib/base/m_fs.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#undef vsnprintf
#undef snprintf
const char *mc_name = "h_fmt";
static char want[6000], want2[6000], want3[6000]; static size_t wlen; static int dests, alts; static char *got; static size_t gotn;
static int isok(const char *g, size_t n) { return (n == strlen(want) && !memcmp(g, want, n)) || (alts && ((n == strlen(want2) && !memcmp(g, want2, n)) || (n == strlen(want3) && !memcmp(g, want3, n)))); }
static void all(const char *fmt, ...)
{
	va_list ap; size_t r, sz; char *a = NULL; mc_case(); (void)wlen;
	va_start(ap, fmt); r = M_vasprintf(&a, fmt, ap); va_end(ap);
	mc_check(a != NULL && strlen(a) == r, "format '%s': asprintf returned %zu for '%s'", fmt, r, a ? a : "NULL"); mc_check(isok(a, r), "format '%s': '%s', expected '%s'", fmt, a, want);
	gotn = r; got = a; mc_outcome(mc_hbytes(1, a, r));
	for (sz = 0; sz <= r + 2; sz++) { char *d; size_t q, k; if (r > 40 && sz > 3 && sz + 3 < r) continue; d = malloc(sz ? sz : 1); memset(d, 'Q', sz ? sz : 1); va_start(ap, fmt); q = M_vsnprintf(d, sz, fmt, ap); va_end(ap); mc_check(q == r, "format '%s' into %zu bytes returned %zu, expected %zu", fmt, sz, q, r); if (sz) { k = r < sz - 1 ? r : sz - 1; mc_check(!memcmp(d, a, k) && d[k] == 0, "format '%s' into %zu bytes: '%s'", fmt, sz, mc_esc(d, sz)); } free(d); }
	va_start(ap, fmt); mc_check(M_vsnprintf(NULL, 0, fmt, ap) == r, "format '%s' into nothing", fmt); va_end(ap); va_start(ap, fmt); mc_check(M_vasprintf(NULL, fmt, ap) == r, "asprintf '%s' into nothing", fmt); va_end(ap);
	if (dests) {
		M_buf_t *b = M_buf_create(); int p[2]; static char rb[70000]; ssize_t q; FILE *f; char *ms = NULL; size_t msn = 0, n = 0; M_fs_file_t *mf = NULL;
		M_buf_add_str(b, "pre"); va_start(ap, fmt); mc_check(M_vbprintf(b, fmt, ap) == r, "bprintf '%s' length", fmt); va_end(ap); mc_check(M_buf_len(b) == r + 3 && !memcmp(M_buf_peek(b) + 3, a, r), "bprintf '%s' differs", fmt); M_buf_cancel(b);
		f = open_memstream(&ms, &msn); va_start(ap, fmt); mc_check(M_vfprintf(f, fmt, ap) == (ssize_t)r, "fprintf '%s' length", fmt); va_end(ap); fclose(f); mc_check(msn == r && !memcmp(ms, a, r), "fprintf '%s' differs", fmt); free(ms);
		if (pipe(p)) abort(); va_start(ap, fmt); mc_check(M_vdprintf(p[1], fmt, ap) == (ssize_t)r, "dprintf '%s' length", fmt); va_end(ap); close(p[1]); while ((q = read(p[0], rb + n, sizeof(rb) - n)) > 0) n += (size_t)q; close(p[0]); mc_check(n == r && !memcmp(rb, a, r), "dprintf '%s': %zu bytes, '%s'", fmt, n, mc_esc(rb, n));
		(void)mf; 
	}
	M_free(a);
}
static void ref(const char *cfmt, ...) { va_list ap; va_start(ap, cfmt); wlen = (size_t)vsnprintf(want, sizeof(want), cfmt, ap); va_end(ap); alts = 0; }
static const char *flags(void)
{
	static const char *const f[] = { "", "-", "0", "+", " ", "#", "-0", "0-", "+ ", " +", "+0", " 0", "#0", "0#", "#-", "+-", " -", "+#0", "--", "00", "-+0 #" }; return f[mc_choose((int)HX_N(f))];
}
static void run_int(void)
{
	static const struct { const char *m, *c; int sz; } mods[] = { { "", "", 4 }, { "hh", "hh", 1 }, { "h", "h", 2 }, { "l", "l", 8 }, { "ll", "ll", 8 }, { "z", "z", 8 }, { "I", "z", 8 }, { "I64", "ll", 8 }, { "I32", "", 4 } };
	static const char convs[] = "diuoxXOpP"; static const M_uint64 vals[] = { 0, 1, 7, 8, 42, 127, 128, 255, 256, 32767, 32768, 65535, 2147483647ULL, 2147483648ULL, 4294967295ULL, 4294967296ULL, 1234567890123ULL, M_INT64_MAX, (M_uint64)M_INT64_MAX + 1, M_UINT64_MAX, (M_uint64)-42, (M_uint64)-128, (M_uint64)-129 };
	static const char *const wid[] = { "", "1", "2", "5", "12", "25", "*" }; const char *fl = flags(); int m = mc_choose(9), w = mc_choose(7), star = 0, ci; char c, f[64], cf[64], mf[64]; M_uint64 v = vals[mc_choose((int)HX_N(vals))];
	static const int sw[] = { 0, 6, -6, 1, -25 }; if (w == 6) star = sw[mc_choose(5)];
	ci = mc_choose(9); c = convs[ci]; if (ci >= 7 && m) mc_prune(); { char lit = w == 6 ? 1 : 0; const char *cc; char fl2[16]; size_t i, j = 0; (void)lit;
		/* '#' has no meaning for d, i, u; sign flags none for unsigned: drop what C leaves undefined */
		for (i = 0; fl[i]; i++) { if (fl[i] == '#' && (c == 'd' || c == 'i' || c == 'u' || c == 'p' || c == 'P')) continue; if ((fl[i] == '+' || fl[i] == ' ') && c != 'd' && c != 'i') continue; fl2[j++] = fl[i]; } fl2[j] = 0;
		cc = c == 'O' ? "o" : c == 'p' ? "llx" : c == 'P' ? "llX" : NULL; snprintf(mf, sizeof(mf), "<%%%s%s%s%c>%%d", fl2, wid[w], mods[m].m, c); if (cc && c != 'O') snprintf(cf, sizeof(cf), "<%%%s%s%s%s>%%d", fl2, v ? "#" : "", wid[w], cc); else snprintf(cf, sizeof(cf), "<%%%s%s%s%c>%%d", fl2, wid[w], mods[m].c, cc ? *cc : c); }
	strcpy(f, mf);
	if ((c == 'p' || c == 'P') && v == 0) { mc_prune(); }
	if (c == 'p' || c == 'P') { if (w == 6) { ref(cf, star, (unsigned long long)v, 7777); all(f, star, (void *)(M_uintptr)v, 7777); } else { ref(cf, (unsigned long long)v, 7777); all(f, (void *)(M_uintptr)v, 7777); } return; }
#define CALL(T) do { if (w == 6) { ref(cf, star, (T)v, 7777); all(f, star, (T)v, 7777); } else { ref(cf, (T)v, 7777); all(f, (T)v, 7777); } } while (0)
	if (mods[m].sz < 8) CALL(int); else if (mods[m].m[0] == 'l' && !mods[m].m[1]) CALL(long); else if (mods[m].c[0] == 'z') CALL(size_t); else CALL(long long);
}
static void run_str(void)
{
	static const char *const vals[] = { "", "a", "abc", "abcdefghij", "%d", "\xE9\n" }, *const wid[] = { "", "1", "5", "14", "*" }, *const pr[] = { "", ".", ".0", ".2", ".5", ".20", ".*" }; static const int sw[] = { 0, 6, -6, 3, -1 }; static const char *const fl[] = { "", "-" }; int w = mc_choose(5), p = mc_choose(7), a = 0, b = 0; char f[64]; const char *v = vals[mc_choose(6)]; int pre = mc_choose(2);
	if (w == 4) a = sw[mc_choose(5)]; if (p == 6) b = sw[mc_choose(5)]; snprintf(f, sizeof(f), "%s%%%s%s%ss>%%d", pre ? "%%<" : "", fl[mc_choose(2)], wid[w], pr[p]);
	{ char *z; const char *zz; size_t n = strlen(v); int lim = p == 0 ? -1 : p == 6 ? b : atoi(pr[p] + 1); if (lim >= 0 && (size_t)lim <= n) z = hx_dup(v, (size_t)lim); else z = hx_dup(v, n + 1); dests = mc_choose(2);
#define SC(F) do { if (w == 4 && p == 6) F(f, a, b, zz, 7777); else if (w == 4) F(f, a, zz, 7777); else if (p == 6) F(f, b, zz, 7777); else F(f, zz, 7777); } while (0)
	zz = v; SC(ref); zz = z; SC(all); dests = 0; free(z); }
}
static void run_chr(void) { static const char *const fl[] = { "", "-", "5", "-5", "1", "*" }; int k = mc_choose(6), c = 1 + mc_choose(255), a = k == 5 ? mc_choose(2) ? -3 : 3 : 0; char f[32]; snprintf(f, sizeof(f), "a%%%sc%%d", fl[k]); if (k == 5) { ref(f, a, c, 7777); all(f, a, c, 7777); } else { ref(f, c, 7777); all(f, c, 7777); } }
static void run_dbl(void)
{
	static const char *const wid[] = { "", "1", "8", "30", "*" }, *const pr[] = { "", ".", ".0", ".1", ".2", ".6", ".9", ".14", ".*" }; static const char convs[] = "fFeEgG"; const char *fl = flags(); int w = mc_choose(5), p = mc_choose(9), a = 0, b = 0, vi, ci; double v; char f[64], cf[64], fl2[16]; size_t i, j = 0;
	static const double vals[] = { 0.0, 1.0, 9.0, 10.0, 42.0, 43.0, 57.0, 99.0, 100.0, 0.5, 1.5, 2.5, 0.05, 0.15, 0.95, 0.99, 0.995, 0.999, 0.9999999, 9.5, 9.99, 99.995, 1.005, 3.14159265358979, 0.001, 0.000123, 1e-7, 1e-10, 123456.789, 4294967295.0, 4294967296.5, 12345678901237.0, 9007199254740991.0, 9007199254740993.0, 18446744073709551615.0, 18446744073709551616.0, 1e20, 1e22, 1.7976931348623157e308, 2.2250738585072014e-308, 1e100, 999999999.0, 1000000000.0, 1000000001.0, 999999999999999999.0, 1e18, 1e27 };
	vi = mc_choose((int)HX_N(vals) * 2 + 3); if (vi < (int)HX_N(vals)) v = vals[vi]; else if (vi < (int)HX_N(vals) * 2) v = -vals[vi - (int)HX_N(vals)]; else v = vi - (int)HX_N(vals) * 2 == 0 ? INFINITY : vi - (int)HX_N(vals) * 2 == 1 ? -INFINITY : NAN;
	if (v == 0 && signbit(v)) mc_prune(); if (w == 4) a = mc_choose(2) ? -9 : 9; if (p == 8) b = mc_choose(2) ? -1 : 3; ci = mc_choose(6); if (ci && vi % 5) mc_prune(); if (isfinite(v) && (fabs(v) >= 18446744073709551616.0 || (p == 7 && fmod(fabs(v), 1) * 1e14 > 4294967294.0))) mc_prune(); /* see run_big */
	for (i = 0; fl[i]; i++) if (fl[i] != '#') fl2[j++] = fl[i]; fl2[j] = 0; snprintf(f, sizeof(f), "<%%%s%s%s%c>%%d", fl2, wid[w], pr[p], convs[ci]); snprintf(cf, sizeof(cf), "<%%%s%s%sf>%%d", fl2, wid[w], pr[p]); 
#define DC(F, x, V) do { if (w == 4 && p == 8) F(x, a, b, V, 7777); else if (w == 4) F(x, a, V, 7777); else if (p == 8) F(x, b, V, 7777); else F(x, V, 7777); } while (0)
	DC(ref, cf, nextafter(v, INFINITY)); strcpy(want2, want); DC(ref, cf, nextafter(v, -INFINITY)); strcpy(want3, want); DC(ref, cf, v); alts = 1;
	if (fabs(v) == 2.2250738585072014e-308 || isinf(v) || v == 0 || fabs(v) >= 4503599627370496.0) alts = 0; DC(all, f, v); alts = 0;
}
/* whole parts of 2^64 and more, more than 9 places: the digits the repository's own tests (check_snprintf) insist on are known to be wrong */
static void run_big(void)
{
	static const struct { const char *f; double v; const char *bad; } t[] = {
		{ "%.0f", 18446744073709551616.0, "18446744073709557000" }, { "%.0f", 1e20, NULL }, { "%.0f", 1e22, NULL }, { "%.0f", 36893488147419103232.0, "36893488147419115000" }, { "%.2f", 1e23, "100000000000000000000000.00" }, { "%.13f", 32.234567890123, "32.2345578801230" }, { "%.12f", 0.123456789012, NULL }, { "%.14f", 3.14159265358979, NULL }, { "%.13f", 123456.789, NULL }, { "%.10f", 0.5, NULL }, { "%.14f", 0.25, NULL }, { "%.11f", 1.75, NULL }, { "%.13f", 1.7976931348623157e308, "179769313486234550000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.0000000000000" } };
	int i = mc_choose((int)HX_N(t)); char got[500]; size_t r = M_snprintf(got, sizeof(got), t[i].f, t[i].v); mc_case();
	snprintf(want, sizeof(want), t[i].f, t[i].v); mc_check(r == strlen(got), "%s returned %zu for '%s'", t[i].f, r, got); if (getenv("SHOWBIG")) fprintf(stderr, "%d %s %s\n", i, got, want);
	if (!strcmp(got, want)) return;
	mc_check(t[i].bad && !strcmp(got, t[i].bad), "format '%s': '%s', expected '%s'", t[i].f, got, want); mc_check(mc_known("double-many-digits"), "format %s: %s, expected %s", t[i].f, got, want);
}
/* consecutive whole numbers, exact */
static void run_whole(void) { static const double base[] = { 0, 990, 99990, 999950, 4294967290.0, 12345678901200.0, 999999999999900.0, 4503599627370490.0 }; double v; int q = mc_choose(8), k = mc_choose(400); v = base[q] + k; if (mc_choose(2)) v = -v; if (v == 0) v = 0; ref("%.0f|%.2f%d", v, v, 7777); all("%.0f|%.2f%d", v, v, 7777); }
/* cents */
static void run_cents(void) { int c = mc_choose(10000); double v = c / 100.0; if (mc_choose(2)) v += 100000; ref("%.2f%d", v, 7777); all("%.2f%d", v, 7777); }
/* long outputs through every destination: the descriptor variant has a 512 byte buffer */
static void run_long(void)
{
	static const int l1[] = { 0, 1, 500, 510, 511, 512, 513, 1023, 1024, 1025, 1536 }, l2[] = { 0, 1, 2, 11, 12, 13, 511, 512, 513, 514, 1030 }; int a = l1[mc_choose(11)], b = l2[mc_choose(11)], k = mc_choose(3); char *x = malloc((size_t)a + 1), *y = malloc((size_t)b + 1); int i; for (i = 0; i < a; i++) x[i] = (char)('a' + i % 26); x[a] = 0; for (i = 0; i < b; i++) y[i] = (char)('A' + i % 26); y[b] = 0; dests = 1;
	if (k == 0) { ref("%s%s", x, y); all("%s%s", x, y); } else if (k == 1) { ref("%s-%*s%d", x, b, "q", 5); all("%s-%*s%d", x, b, "q", 5); } else { ref("%s%s%s", y, x, y); all("%s%s%s", y, x, y); } dests = 0; free(x); free(y);
}
/* any text as a format: stays within the format, length is the length of the text, literal text is copied */
static void run_garbage(void)
{
	static const char al[] = { '%', 'a', 'd', '5', '.', 'l', 'I', '-', '0', 'h', '\\', '6' }; char s[12]; size_t n = hx_str(s, (size_t)mc_param("glen", 5, 6), al, sizeof(al)), i; int pct = 0; char *z = hx_dup(s, n + 1), *a = NULL; size_t r; mc_case(); for (i = 0; i < n; i++) pct |= s[i] == '%';
	r = M_asprintf(&a, z, 1, 2, 3, 4, 5, 6); mc_check(a && strlen(a) == r, "format '%s' returned %zu for '%s'", s, r, a ? a : "NULL"); if (!pct) mc_check(!strcmp(a, s), "literal '%s' printed as '%s'", s, a); M_free(a); free(z);
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void) { dests = 0; alts = 0; switch (mc_choose(9)) { case 8: run_big(); break; case 0: run_int(); break; case 1: run_str(); break; case 2: run_chr(); break; case 3: run_dbl(); break; case 4: run_whole(); break; case 5: run_cents(); break; case 6: run_long(); break; case 7: run_garbage(); break; } }
