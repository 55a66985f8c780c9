// MODE: seq
// MODS: base
/* Decimals (C33): every operation on every pair of boundary decimals, and parsing of every short text, against 128 bit arithmetic. */
#include "hx.h"
const char *mc_name = "h_dec";
#include "hx.h"
typedef __int128 B; typedef enum M_DECIMAL_RETVAL RV;
static const M_int64 nums[] = { 0, 1, 2, 3, 5, 7, 10, 15, 25, 35, 49, 50, 51, 99, 250, 251, 3037000500LL, 9999123456LL, 3333333333333333LL, 999999999999999999LL, 922337203685477580LL, 922337203685477581LL, 1500000000000000000LL, 4611686018427387904LL, 5000000000000000001LL, 8999999999999999995LL, 9223372036854775806LL, M_INT64_MAX };
static const int decs[] = { 0, 1, 2, 5, 9, 10, 17, 18 };
static M_bool fits(B v) { return v >= (B)M_INT64_MIN && v <= (B)M_INT64_MAX; }
static B p10(int n) { B r = 1; while (n-- > 0) r *= 10; return r; }
static B babs(B v) { return v < 0 ? -v : v; }
static B rdiv(B n, B d, int mode) { B q = n / d, r = babs(n % d), h = babs(d), s = ((n < 0) == (d < 0)) ? 1 : -1; if (mode == M_DECIMAL_ROUND_NONE) return q; if (2 * r > h || (2 * r == h && (mode == M_DECIMAL_ROUND_TRADITIONAL || q % 2 != 0))) q += s; return q; }
static const char *ds(const M_decimal_t *d) { static char b[6][64]; static int i; i = (i + 1) % 6; snprintf(b[i], 64, "%lld/10^%d", (long long)d->num, d->num_dec); return b[i]; }
/* signed value n at nd decimal places equals d, which must be in lowest terms */
static void eq(const char *op, const M_decimal_t *a, const M_decimal_t *b, const M_decimal_t *d, B n, int nd, RV got, RV want)
{
	while (nd > 0 && n % 10 == 0) { n /= 10; nd--; }
	mc_check(got == want, "%s of %s and %s reported %d, expected %d", op, ds(a), b ? ds(b) : "-", (int)got, (int)want); if (want != M_DECIMAL_SUCCESS && want != M_DECIMAL_TRUNCATION) return;
	mc_check((B)d->num == n && d->num_dec == nd, "%s of %s and %s is %s, expected %lld/10^%d", op, ds(a), b ? ds(b) : "-", ds(d), (long long)n, nd);
}
static void red(B *n, int *d) { while (*d > 0 && *n % 10 == 0) { *n /= 10; (*d)--; } }
static M_bool prep(const M_decimal_t *a, const M_decimal_t *b, M_bool reduce, B *x, B *y, int *nd)
{
	B n1 = a->num, n2 = b->num; int d1 = a->num_dec, d2 = b->num_dec, w; if (reduce) { red(&n1, &d1); red(&n2, &d2); } w = M_MAX(d1, d2);
	for (*nd = w; ; (*nd)--) { *x = *nd >= d1 ? n1 * p10(*nd - d1) : rdiv(n1, p10(d1 - *nd), M_DECIMAL_ROUND_TRADITIONAL); *y = *nd >= d2 ? n2 * p10(*nd - d2) : rdiv(n2, p10(d2 - *nd), M_DECIMAL_ROUND_TRADITIONAL); if (fits(*x) && fits(*y)) break; }
	return *nd != w;
}
static M_decimal_t pick(void) { M_decimal_t d; int i = mc_choose((int)HX_N(nums) * 2); M_decimal_create(&d); d.num = i < (int)HX_N(nums) ? nums[i] : i == (int)HX_N(nums) ? M_INT64_MIN : -nums[i - (int)HX_N(nums)]; d.num_dec = (M_uint8)decs[mc_choose((int)HX_N(decs))]; return d; }
static void run_pair(void)
{
	M_decimal_t a = pick(), b = pick(), r, s; B x, y, v; int nd, w, m, k; M_bool tr; RV g, e; const M_decimal_t ca = a, cb = b; int alias = mc_choose(3);
#define OP(F, ...) (alias == 0 ? (g = F(&r, &a, &b, ##__VA_ARGS__)) : alias == 1 ? (s = a, g = F(&s, &s, &b, ##__VA_ARGS__), r = s, g) : (s = b, g = F(&s, &a, &s, ##__VA_ARGS__), r = s, g))
	mc_case(); tr = prep(&a, &b, M_TRUE, &x, &y, &nd); e = tr ? M_DECIMAL_TRUNCATION : M_DECIMAL_SUCCESS;
	v = x + y; OP(M_decimal_add); eq("sum", &ca, &cb, &r, v, nd, g, fits(v) ? e : M_DECIMAL_OVERFLOW);
	v = x - y; OP(M_decimal_subtract); eq("difference", &ca, &cb, &r, v, nd, g, fits(v) ? e : M_DECIMAL_OVERFLOW);
	{ B n1 = a.num, n2 = b.num; int d1 = a.num_dec, d2 = b.num_dec; red(&n1, &d1); red(&n2, &d2); e = M_DECIMAL_SUCCESS; while (!fits(n1 * n2) && (d1 || d2)) { e = M_DECIMAL_TRUNCATION; if (d1) { n1 = rdiv(n1, 10, M_DECIMAL_ROUND_TRADITIONAL); d1--; } if (d2) { n2 = rdiv(n2, 10, M_DECIMAL_ROUND_TRADITIONAL); d2--; } }
	  OP(M_decimal_multiply); eq("product", &ca, &cb, &r, n1 * n2, d1 + d2, g, fits(n1 * n2) ? e : M_DECIMAL_OVERFLOW); }
	tr = prep(&a, &b, M_FALSE, &x, &y, &nd);
	for (m = 0; m < 3; m++) {
		B q, rem; OP(M_decimal_divide, (M_decimal_round_t)m); if (y == 0) { mc_check(g == (cb.num ? M_DECIMAL_OVERFLOW : M_DECIMAL_INVALID), "quotient of %s and %s reported %d", ds(&ca), ds(&cb), (int)g); continue; }
		if (x == (B)M_INT64_MIN && y == -1) { mc_check(g == M_DECIMAL_OVERFLOW, "quotient of %s and %s reported %d", ds(&ca), ds(&cb), (int)g); continue; }
		q = x / y; rem = x % y; for (k = 18; k > 0; k--) if (fits(rem * p10(k)) && fits(q * p10(k)) && fits(rdiv(x * p10(k), y, m))) break;
		e = tr || (rem * p10(k)) % y != 0 ? M_DECIMAL_TRUNCATION : M_DECIMAL_SUCCESS; eq(m == 0 ? "quotient (cut)" : m == 1 ? "quotient (half up)" : "quotient (half even)", &ca, &cb, &r, rdiv(x * p10(k), y, m), k, g, e);
	}
	w = M_MAX(a.num_dec, b.num_dec); x = (B)a.num * p10(w - a.num_dec); y = (B)b.num * p10(w - b.num_dec); m = M_decimal_cmp(&a, &b); mc_check(m == (x > y) - (x < y), "compare of %s and %s is %d", ds(&a), ds(&b), m);
	mc_check(a.num == ca.num && a.num_dec == ca.num_dec && b.num == cb.num && b.num_dec == cb.num_dec, "an operand changed");
}
static void fmt(char *o, const M_decimal_t *d) { char t[400]; unsigned long long u = d->num < 0 ? 0ULL - (unsigned long long)d->num : (unsigned long long)d->num; int n; snprintf(t, sizeof(t), "%0*llu", d->num_dec + 1, u); n = (int)strlen(t) - d->num_dec; if (d->num < 0) *o++ = '-'; memcpy(o, t, (size_t)n); o += n; if (d->num_dec) { *o++ = '.'; strcpy(o, t + n); } else *o = 0; }
static void run_one(void)
{
	static const int hd[] = { 0, 1, 2, 5, 9, 10, 17, 18, 19, 20, 21, 37, 38, 64, 65, 127, 128, 254, 255 }; M_decimal_t a = pick(), b, c; int i, j, m; char want[400], *z; size_t n, sz; mc_case(); a.num_dec = (M_uint8)hd[mc_choose((int)HX_N(hd))]; if (mc_choose(2)) { a.num /= 7; }
	fmt(want, &a); n = strlen(want); for (sz = 0; sz <= n + 2; sz++) { RV r; if (sz > 3 && sz + 3 < n) continue; z = malloc(sz ? sz : 1); memset(z, 'Q', sz ? sz : 1); r = M_decimal_to_str(&a, z, sz); if (sz > n) mc_check(r == M_DECIMAL_SUCCESS && !strcmp(z, want), "%s printed as '%s'", ds(&a), z); else mc_check(r == M_DECIMAL_INVALID, "%s printed into %zu bytes", ds(&a), sz); free(z); }
	/* printed text reads back */
	{ const char *e = NULL; RV r; z = hx_dup(want, n); r = M_decimal_from_str(z, n, &b, &e); c = a; M_decimal_reduce(&c); if (r == M_DECIMAL_SUCCESS) mc_check(b.num == c.num && b.num_dec == c.num_dec && e == z + n, "'%s' read as %s", want, ds(&b)); else { M_int64 lim = a.num_dec > 18 || c.num == M_INT64_MIN ? 0 : 1; mc_check(!lim || r == M_DECIMAL_TRUNCATION, "'%s' reported %d", want, (int)r); mc_check(c.num == M_INT64_MIN && a.num_dec >= 19, "'%s' reported %d", want, (int)r); } free(z); }
	mc_check(M_decimal_num_decimals(&a) == a.num_dec, "number of places"); M_decimal_from_int(&b, a.num, a.num_dec); c = a; M_decimal_reduce(&c); mc_check(b.num == c.num && b.num_dec == c.num_dec && (c.num_dec == 0 || c.num % 10), "from_int of %s is %s", ds(&a), ds(&b)); M_decimal_duplicate(&b, &a); mc_check(b.num == a.num && b.num_dec == a.num_dec, "duplicate"); mc_check(M_decimal_cmp(&a, &c) == 0 && M_decimal_cmp(&c, &a) == 0, "%s differs from its reduced form", ds(&a));
	for (i = 0; i < (int)HX_N(hd); i++) for (m = 0; m < 3; m++) {
		int to = hd[i]; B v; RV e = M_DECIMAL_SUCCESS, r; b = a; r = M_decimal_transform(&b, (M_uint8)to, (M_decimal_round_t)m);
		if (to >= a.num_dec) { if (a.num == 0) v = 0; else if (to - a.num_dec > 19) v = (B)M_INT64_MAX + 1; else v = (B)a.num * p10(to - a.num_dec); if (!fits(v)) e = M_DECIMAL_OVERFLOW; }
		else { int d = a.num_dec - to; if (d > 20) d = 20; v = rdiv(a.num, p10(d), m); if (a.num % p10(d)) e = M_DECIMAL_TRUNCATION; }
		mc_check(r == e, "%s to %d places (%d) reported %d, expected %d", ds(&a), to, m, (int)r, (int)e); if (e != M_DECIMAL_OVERFLOW) mc_check((B)b.num == v && b.num_dec == to, "%s to %d places (%d) is %s", ds(&a), to, m, ds(&b));
		if (m == M_DECIMAL_ROUND_TRADITIONAL) mc_check(M_decimal_to_int(&a, (M_uint8)to) == (e == M_DECIMAL_OVERFLOW ? 0 : (M_int64)v), "%s to an integer with %d places", ds(&a), to);
	}
	/* compare against values with very different numbers of places */
	for (i = 0; i < (int)HX_N(nums); i++) for (j = 0; j < 2 * (int)HX_N(hd); j++) { B x = a.num, y; int d, w; b.num = j % 2 ? -nums[i] : nums[i]; b.num_dec = (M_uint8)hd[j / 2]; y = b.num; d = a.num_dec - b.num_dec; if (d > 0) y *= p10(d > 19 ? 19 : d); else x *= p10(-d > 19 ? 19 : -d); w = M_decimal_cmp(&a, &b); mc_check(w == (x > y) - (x < y), "compare of %s and %s is %d", ds(&a), ds(&b), w); }
}
/* reference reader */
static void reader(const char *s, size_t n)
{
	size_t i = 0, d0, nf, k, j; M_bool neg = M_FALSE, ov = M_FALSE; B N = 0, F = 0; RV want = M_DECIMAL_SUCCESS, r; const char *f; M_decimal_t d; const char *e = NULL; char *z = hx_dup(s, n); size_t wend; B val = 0; int nd = 0; M_bool nodig;
	d.num = 77; d.num_dec = 7; r = M_decimal_from_str(z, n, &d, &e); mc_case();
	if (n == 0) { want = M_DECIMAL_INVALID; goto done; }
	if (s[0] != '.') { while (i < n && M_chr_isspace(s[i])) i++; if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; } }
	d0 = i; while (i < n && s[i] >= '0' && s[i] <= '9') { if (!ov) N = N * 10 + (s[i] - '0'); if (N > (B)M_INT64_MAX + (neg ? 1 : 0)) ov = M_TRUE; i++; } nodig = i == d0;
	if (nodig && s[0] != '.') { want = M_DECIMAL_INVALID; goto done; } if (ov) { want = M_DECIMAL_OVERFLOW; goto done; } if (neg) N = -N; f = NULL; nf = 0;
	if (i < n && s[i] == '.') { i++; f = s + i; while (i < n && s[i] >= '0' && s[i] <= '9') { nf++; i++; } if (!nf) { want = M_DECIMAL_INVALID; goto done; } }
	wend = i; while (nf && f[nf - 1] == '0') nf--;
	for (k = nf; ; k--) { B lim = (B)M_INT64_MAX; M_bool ok = M_TRUE; F = 0; for (j = 0; j < k && ok; j++) { F = F * 10 + (f[j] - '0'); if (F > lim) ok = M_FALSE; } if (ok && k > 255) ok = M_FALSE; if (ok && N != 0) { if (k > 18) ok = M_FALSE; else { B t = N * p10((int)k); if (!fits(t) || !fits(t + (neg ? -F : F))) ok = M_FALSE; else val = t + (neg ? -F : F); } } else if (ok) val = neg ? -F : F; if (ok) break; }
	if (k != nf) want = M_DECIMAL_TRUNCATION; nd = (int)k; red(&val, &nd);
	if (i < n && (s[i] == 'e' || s[i] == 'E')) { M_bool en = M_FALSE; long x = 0; i++; if (i < n && (s[i] == '-' || s[i] == '+')) { en = s[i] == '-'; i++; } d0 = i; while (i < n && s[i] >= '0' && s[i] <= '9') { if (x < 1000000) x = x * 10 + (s[i] - '0'); i++; } if (i == d0) { want = M_DECIMAL_INVALID; goto done; } wend = i;
		if (val != 0 && x > 255) { want = M_DECIMAL_OVERFLOW; goto done; } if (val == 0 && x >= 1000000) { free(z); return; } if (val == 0) x = 0; if (en) { nd += (int)x; while (nd > 255) { if (val % 10) want = M_DECIMAL_TRUNCATION; val /= 10; nd--; } } else while (x--) { if (nd) nd--; else { val *= 10; if (!fits(val)) { want = M_DECIMAL_OVERFLOW; goto done; } } }
		red(&val, &nd); }
done:
	mc_check(r == want, "'%s' reported %d, expected %d", mc_esc(s, n), (int)r, (int)want);
	if (want == M_DECIMAL_SUCCESS || want == M_DECIMAL_TRUNCATION) { mc_check((B)d.num == val && d.num_dec == nd, "'%s' read as %s, expected %lld/10^%d", mc_esc(s, n), ds(&d), (long long)val, nd); mc_check(e == z + wend, "'%s' ended at %td, expected %zu", mc_esc(s, n), e ? e - z : -1, wend); }
	free(z);
}
static void run_text(void) { static const char al[] = { '1', '.', '0', '-', 'e', '5', ' ', '+', 'E', '9', 'x', '\0' }; char s[16]; size_t n = hx_str(s, (size_t)mc_param("len", 5, 7), al, sizeof(al)); reader(s, n); }
static void run_long(void)
{
	static const char *const ip[] = { "", "0", "-0", " -0", "1", "-1", "+7", "123", "922337203685477580", "-922337203685477580", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "000000000000000000000001", "99999999999999999999999" };
	static const int zr[] = { 0, 1, 2, 17, 18, 19, 20, 63, 64, 65, 127, 236, 237, 254, 255, 256, 257, 300 }; static const char *const fr[] = { "", "5", "7", "8", "07", "9223372036854775807", "9223372036854775808", "999999999999999999999999", "50000000000000000000000", "123456789012345678901" };
	static const char *const ex[] = { "", "e0", "e1", "E-1", "e+2", "e-2", "e17", "e-17", "e18", "e19", "e-19", "e-200", "e200", "e255", "e-255", "e256", "e-256", "e999999999999999999999", "e-999999999999999999999", "e", "e-", "ex", "e 5", "e5.1", "f5" }; char s[700]; int i = mc_choose((int)HX_N(ip)), dot = mc_choose(2), z, e; size_t n;
	n = (size_t)snprintf(s, sizeof(s), "%s", ip[i]); if (dot) { z = zr[mc_choose((int)HX_N(zr))]; s[n++] = '.'; memset(s + n, '0', (size_t)z); n += (size_t)z; n += (size_t)snprintf(s + n, 100, "%s", fr[mc_choose((int)HX_N(fr))]); } e = mc_choose((int)HX_N(ex)); n += (size_t)snprintf(s + n, 60, "%s", ex[e]); reader(s, n);
	/* a shorter length than the text */
	if (n > 1) reader(s, n - 1);
}
static void run_round(void)
{
	static const M_uint64 v[] = { 0, 1, 4, 5, 9, 10, 14, 15, 44, 45, 50, 99, 149, 150, 995, 999, 4999, 5000, 9995, 12345678901234567ULL, 4999999999999999999ULL, 5000000000000000000ULL, 9223372036854775807ULL, 9999999999999999999ULL, 10000000000000000000ULL, 14999999999999999999ULL, 15000000000000000000ULL, M_UINT64_MAX - 1, M_UINT64_MAX }; static const int d[] = { -3, 0, 1, 2, 3, 5, 10, 18, 19, 20, 21, 40, 63, 64, 65, 100 };
	M_uint64 x = v[mc_choose((int)HX_N(v))], r; int c = d[mc_choose((int)HX_N(d))], w = d[mc_choose((int)HX_N(d))]; size_t i; unsigned __int128 q; r = M_uint64_prec_round(x, c, w); if (w >= c) mc_check(r == x, "%llu rounded from %d to %d places", (unsigned long long)x, c, w); else { unsigned __int128 t = 1; int k; for (k = 0; k < c - w && k < 21; k++) t *= 10; q = x / t; if (2 * (x % t) >= t) q++; mc_check(r == (M_uint64)q, "%llu rounded from %d to %d places is %llu", (unsigned long long)x, c, w, (unsigned long long)r); }
	for (i = 0; i < HX_N(v); i++) { M_uint64 m = v[i]; if (x == 0) continue; q = m ? ((unsigned __int128)x + m - 1) / m * m : 0; if (q > M_UINT64_MAX) continue; r = M_uint64_round_up_to_nearest_multiple(x, m); mc_check(r == (M_uint64)q, "%llu rounded up to a multiple of %llu is %llu", (unsigned long long)x, (unsigned long long)m, (unsigned long long)r); }
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void) { switch (mc_choose(5)) { case 0: run_pair(); break; case 1: run_one(); break; case 2: run_text(); break; case 3: run_long(); break; case 4: run_round(); break; } }
