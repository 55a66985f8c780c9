// MODE: seq
// MODS: base
/* C30: text to integer conversions against 128-bit arithmetic. */
#include "hx.h"
const char *mc_name = "h_strnum";
typedef unsigned __int128 u128;
static int dv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
struct ref { int st; int neg; u128 mag; size_t end; };	/* st 0 ok, 2 invalid; magnitude saturates above 2^64 */
static struct ref refparse(const char *s, size_t len, int base)
{
	struct ref r = { 0, 0, 0, 0 }; size_t i = 0, st;
	while (i < len && strchr(" \t\r\n\v\f", s[i]) && s[i]) i++;
	if (i < len && (s[i] == '-' || s[i] == '+')) { r.neg = s[i] == '-'; i++; }
	if (base == 0) base = i + 1 < len && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') ? 16 : i < len && s[i] == '0' ? 8 : 10;
	if (base == 16 && i + 1 < len && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) i += 2;
	if (base < 2 || base > 36) { r.st = 2; return r; }
	for (st = i; i < len && dv(s[i]) < base; i++) { r.mag = r.mag * (unsigned)base + (unsigned)dv(s[i]); if (r.mag >> 64) r.mag = (u128)1 << 64; }
	r.end = i; if (i == st) r.st = 2; return r;
}
static void judge(const char *txt, size_t n, size_t len, int base)
{
	char *s = hx_dup(txt, n); struct ref r = refparse(s, len, base); M_uint64 u = 7, eu; M_int64 i = 7, ei; M_uint32 u3 = 7, eu3; M_int32 i3 = 7, ei3; const char *e; M_str_int_retval_t rv; int ov; const char *w = mc_esc(txt, n); u128 lim;
	mc_case(); mc_note("'%s' length %zu base %d", w, len, base);
#define ST(over) (len == 0 ? M_STR_INT_INVALID : r.st ? M_STR_INT_INVALID : (over) ? M_STR_INT_OVERFLOW : M_STR_INT_SUCCESS)
#define CHK(fn, got, want, over) mc_check(rv == ST(over), "%s('%s', %zu, %d): status %d, expected %d", fn, w, len, base, rv, ST(over)); if (len) { mc_check(got == want, "%s('%s', %zu, %d): value %lld, expected %lld", fn, w, len, base, (long long)got, (long long)want); if (!r.st) mc_check(e == s + r.end, "%s('%s', %zu, %d): end at %ld, expected %zu", fn, w, len, base, (long)(e - s), r.end); }
	e = NULL; rv = M_str_to_uint64_ex(s, len, (unsigned char)base, &u, &e); ov = (r.mag >> 64) != 0; eu = ov ? M_UINT64_MAX : r.neg ? 0 - (M_uint64)r.mag : (M_uint64)r.mag; CHK("uint64", u, eu, ov)
	e = NULL; rv = M_str_to_uint32_ex(s, len, (unsigned char)base, &u3, &e); if (eu > M_UINT32_MAX) { ov = 1; eu3 = M_UINT32_MAX; } else eu3 = (M_uint32)eu; CHK("uint32", u3, eu3, ov)
	lim = ((u128)1 << 63) - (r.neg ? 0 : 1); e = NULL; rv = M_str_to_int64_ex(s, len, (unsigned char)base, &i, &e); ov = r.mag > lim; ei = ov ? (r.neg ? M_INT64_MIN : M_INT64_MAX) : r.neg ? (M_int64)(0 - (M_uint64)r.mag) : (M_int64)(M_uint64)r.mag; CHK("int64", i, ei, ov)
	e = NULL; rv = M_str_to_int32_ex(s, len, (unsigned char)base, &i3, &e); if (ei > M_INT32_MAX) { ov = 1; ei3 = M_INT32_MAX; } else if (ei < M_INT32_MIN) { ov = 1; ei3 = M_INT32_MIN; } else ei3 = (M_int32)ei; CHK("int32", i3, ei3, ov)
	if (base == 10 && len == n && memchr(txt, 0, n) == NULL) { char *z = hx_dup(txt, n + 1); z[n] = 0; mc_check(M_str_to_uint64(z) == (r.st || !n ? 0 : eu) && M_str_to_int64(z) == (r.st || !n ? 0 : ei) && M_str_to_int32(z) == (r.st || !n ? 0 : ei3) && M_str_to_uint32(z) == (r.st || !n ? 0 : eu3), "plain conversion of '%s'", w); free(z); }
	mc_outcome(mc_h64((uint64_t)rv, (uint64_t)i)); free(s);
}
static void run_short(void)
{
	static const char al[] = { '0', '1', '9', '-', '+', ' ', 'x', 'X', 'f', 'G', 'z', 0 }; static const int bases[] = { 0, 2, 8, 10, 16, 17, 36, 1, 37, 255 }; char t[16]; size_t n = hx_str(t, (size_t)mc_param("len", 5, 6), al, sizeof(al)), len; int base = bases[mc_choose(10)];
	if (memchr(t, 0, n)) { char *z = memchr(t, 0, n); if (z - t + 2 < (long)n) mc_prune(); }
	len = n <= 4 ? (size_t)mc_choose((int)n + 1) : n; judge(t, n, len, base);
}
static void run_limit(void)
{
	static const char *const pre[] = { "", "-", "+", " -", "0", "-00000000000000000000000000000000000000000000000000000000000000000000", "\t0x" }, *const post[] = { "", " ", "!", "x" }; char t[320], dig[160]; int base = 2 + mc_choose(35), bnd = mc_choose(14), off = mc_choose(9) - 4, mul = mc_choose(6), n = 0, i; u128 v; size_t len;
	static const int sh[] = { 7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 66, 67, 70 };
	v = ((u128)1 << sh[bnd]); if (mul == 1) v *= 2; else if (mul == 2) v *= 3; else if (mul == 3) v = v * (unsigned)base; else if (mul == 4) v = v / (unsigned)base * (unsigned)base; else if (mul == 5) { v = v * (unsigned)base * (unsigned)base + 7; }
	v += (u128)(__int128)off; for (i = 0; v; v /= (unsigned)base) { int d = (int)(v % (unsigned)base); dig[n++] = (char)(d < 10 ? '0' + d : ((n & 1) ? 'a' : 'A') + d - 10); }
	strcpy(t, pre[mc_choose(7)]); len = strlen(t); for (i = n; i-- > 0; ) t[len++] = dig[i]; t[len] = 0; strcat(t, post[mc_choose(4)]); judge(t, strlen(t), strlen(t), base);
}
/* the longest numerals: k copies of the largest digit */
static void run_rep(void) { char t[100]; int base = 2 + mc_choose(35), k = 1 + mc_choose(70), neg = mc_choose(2), d = base - 1; if (neg) t[0] = '-'; memset(t + neg, d < 10 ? '0' + d : 'a' + d - 10, (size_t)k); if (mc_choose(2)) t[neg] = '1'; judge(t, (size_t)(k + neg), (size_t)(k + neg), base); }
static void run_format(void)
{
	static const int sh[] = { 0, 1, 7, 8, 31, 32, 33, 53, 62, 63 }; M_uint64 v = (M_uint64)1 << sh[mc_choose(10)]; M_int64 sv, back = 1; M_uint64 ub = 1; char t[64]; v += (M_uint64)(M_int64)(mc_choose(7) - 3); sv = (M_int64)v; if (mc_choose(2)) sv = (M_int64)(0 - v); mc_case();
	M_snprintf(t, sizeof(t), "%lld", sv); mc_check(M_str_to_int64_ex(t, strlen(t), 10, &back, NULL) == M_STR_INT_SUCCESS && back == sv, "format and parse %lld gives %lld", (long long)sv, (long long)back);
	M_snprintf(t, sizeof(t), "%llu", v); mc_check(M_str_to_uint64_ex(t, strlen(t), 10, &ub, NULL) == M_STR_INT_SUCCESS && ub == v, "format and parse %llu", (unsigned long long)v);
	M_snprintf(t, sizeof(t), "0x%llX", v); mc_check(M_str_to_uint64_ex(t, strlen(t), 0, &ub, NULL) == M_STR_INT_SUCCESS && ub == v, "format and parse hex %llu", (unsigned long long)v);
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void) { switch (mc_choose(4)) { case 0: run_short(); break; case 1: run_limit(); break; case 2: run_rep(); break; case 3: run_format(); break; } }
