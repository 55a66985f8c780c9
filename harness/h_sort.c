// MODE: seq
// MODS: base
/* C27: sorting and binary search, exhaustively over small arrays and systematically over patterned large ones. */
#include "hx.h"
const char *mc_name = "h_sort";
static size_t maxn, nkeys, maxbs; static int big;
static const size_t esizes[] = { 2, 8, 13 };
static int ncmp; static void *want_thunk;
static int cmp(const void *a, const void *b, void *thunk)
{
	int x = *(const unsigned char *)a, y = *(const unsigned char *)b;
	mc_check(thunk == want_thunk, "comparator got the wrong thunk");
	ncmp++;
	return x - y;
}
static int cmpdesc(const void *a, const void *b, void *thunk) { return cmp(b, a, thunk); }

static void fill(unsigned char *arr, size_t es, size_t i, int key)
{
	size_t k; arr[i * es] = (unsigned char)key; arr[i * es + 1] = (unsigned char)i; for (k = 2; k < es; k++) arr[i * es + k] = (unsigned char)(key * 31 + i * 7 + k);
}
static void check_sorted(const unsigned char *o, const unsigned char *s, size_t n, size_t es, int desc, int stable, const char *what)
{
	size_t i, j; unsigned char seen[2048];
	memset(seen, 0, n);
	for (i = 0; i < n; i++) {
		if (i) {
			int d = (int)s[(i - 1) * es] - (int)s[i * es]; if (desc) d = -d;
			mc_check(d <= 0, "%s of %zu elements (size %zu) of %s is not ordered at %zu", what, n, es, mc_esc(o, n * es), i);
			if (stable && d == 0 && n < 256) mc_check(s[(i - 1) * es + 1] < s[i * es + 1], "%s of %zu elements is not stable at %zu: %s", what, n, i, mc_esc(o, n * es));
		}
		if (n < 256) {
			j = s[i * es + 1];
			mc_check(j < n && !seen[j] && memcmp(s + i * es, o + j * es, es) == 0, "%s of %zu elements (size %zu) of %s is not a permutation (element %zu)", what, n, es, mc_esc(o, n * es), i);
			seen[j] = 1;
		}
	}
}
static void sort_both(const unsigned char *o, size_t n, size_t es, int desc)
{
	unsigned char *a = (unsigned char *)hx_dup(o, n * es);
	M_sort_mergesort(a, n, es, desc ? cmpdesc : cmp, want_thunk); mc_step();
	check_sorted(o, a, n, es, desc, 1, "mergesort");
	memcpy(a, o, n * es);
	M_sort_qsort(a, n, es, desc ? cmpdesc : cmp, want_thunk); mc_step();
	check_sorted(o, a, n, es, desc, 0, "qsort");
	free(a);
}

static void run_sort(void)
{
	size_t n, i, e; unsigned char keys[16]; unsigned char o[16 * 16]; uint64_t h = 1;
	n = (size_t)mc_choose((int)maxn + 1);
	for (i = 0; i < n; i++) { keys[i] = (unsigned char)mc_choose((int)nkeys); h = mc_h64(h, keys[i]); }
	mc_state(mc_h64(h, n));
	for (e = 0; e < HX_N(esizes); e++) {
		for (i = 0; i < n; i++) fill(o, esizes[e], i, keys[i]);
		sort_both(o, n, esizes[e], (int)(n + e) & 1);
	}
	mc_note("sort n=%zu keys=%s", n, mc_esc(keys, n));
}

static void run_big(void)
{
	static const size_t ns[] = { 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 200, 255 };
	size_t n = ns[mc_choose((int)HX_N(ns))], i, e = (size_t)mc_choose(3), es = esizes[e];
	int pat = mc_choose(6), m = 1 + mc_choose(big), k = mc_choose(big); unsigned char *o = malloc(n * es);
	for (i = 0; i < n; i++) {
		size_t v;
		switch (pat) {
			case 0: v = i * (size_t)(k + 1) % (size_t)m; break;
			case 1: v = (i * i * (size_t)(k + 1) + i) % (size_t)m; break;
			case 2: v = i < n / 2 ? i / (size_t)m : (n - i) / (size_t)m; v += (size_t)k * (i % 7 == 3); break;
			case 3: v = (n - i) / (size_t)m + (i % (size_t)(k + 1)); break;
			case 4: v = (i == (size_t)k * n / (size_t)big) ? 0 : i / (size_t)m + 1; break;
			default: v = ((i * 2654435761u) >> (k % 16)) % (size_t)(m * 3); break;
		}
		fill(o, es, i, (int)(v % 251));
	}
	mc_state(mc_hbytes(3, o, n * es));
	sort_both(o, n, es, (int)(i + e) & 1);
	mc_note("big n=%zu es=%zu pat=%d m=%d k=%d", n, es, pat, m, k);
	free(o);
}

/* sorted arrays given by the multiplicity of every key; keys are odd so that even probes are absent */
static void run_search(void)
{
	size_t n = 0, i, es, q, lo, hi; unsigned char *a; int k, mult[4], e = mc_choose(2), found; int stable, desc = mc_choose(2); uint64_t h = 5;
	int kinds = 3;
	es = e ? 8 : 1;
	for (k = 0; k < kinds; k++) { mult[k] = mc_choose((int)maxbs + 1); n += (size_t)mult[k]; h = mc_h64(h, (uint64_t)mult[k]); }
	a = malloc(n * es + 1);
	for (k = 0, i = 0; k < kinds; k++) { int j; int kk = desc ? kinds - 1 - k : k; for (j = 0; j < mult[k]; j++, i++) { memset(a + i * es, (int)i, es); a[i * es] = (unsigned char)(kk * 2 + 1); } }
	mc_state(mc_h64(h, (uint64_t)desc));
	a = realloc(a, n * es ? n * es : 1);
	for (q = 0; q <= (size_t)kinds * 2; q++) {
		unsigned char key[8] = { (unsigned char)q, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee };
		for (lo = 0; lo < n && (desc ? a[lo * es] > q : a[lo * es] < q); lo++) ;
		for (hi = lo; hi < n && a[hi * es] == q; hi++) ;
		for (stable = 0; stable < 2; stable++) {
			size_t idx = 77777, ins;
			found = M_sort_binary_search(a, n, es, key, stable ? M_TRUE : M_FALSE, desc ? cmpdesc : cmp, want_thunk, &idx); mc_step();
			mc_check(found == (hi > lo), "binary search (stable=%d) for %zu in %s (n=%zu): found=%d", stable, q, mc_esc(a, n * es), n, found);
			if (found) mc_check(stable ? idx == lo : idx >= lo && idx < hi, "binary search (stable=%d) for %zu in %s (n=%zu): index %zu, equal range is %zu..%zu", stable, q, mc_esc(a, n * es), n, idx, lo, hi);
			mc_check(M_sort_binary_search(a, n, es, key, stable ? M_TRUE : M_FALSE, desc ? cmpdesc : cmp, want_thunk, NULL) == (hi > lo), "binary search without index result");
			ins = M_sort_binary_insert_idx(a, n, es, key, stable ? M_TRUE : M_FALSE, desc ? cmpdesc : cmp, want_thunk); mc_step();
			mc_check(stable ? ins == hi : ins >= lo && ins <= hi, "insert index (stable=%d) for %zu in %s (n=%zu, element size %zu): %zu, order-preserving positions are %zu..%zu%s", stable, q, mc_esc(a, n * es), n, es, ins, lo, hi, stable ? " and a stable insert goes after the last equal element" : "");
			mc_case();
		}
	}
	mc_note("search n=%zu mult=%d,%d,%d", n, mult[0], mult[1], mult[2]);
	free(a);
}

static int sgn(int x) { return (x > 0) - (x < 0); }
static void run_cmp(void)
{
	static const char *const s[] = { NULL, "", "a", "A", "b", "ab", "aB", "AB", "abc", "\x80", "\xff", "~", "1", "10", "2" };
	static const M_uint64 u[] = { 0, 1, 2, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL };
	int i = mc_choose(15), j = mc_choose(15); const char *a = s[i], *b = s[j]; const M_uint64 *ua = &u[i % 10], *ub = &u[j % 10]; int w;
	char *va = (char *)1000 + i, *vb = (char *)1000 + j;
	w = strcmp(a ? a : "", b ? b : "");
	if (a && b) {
		mc_check(sgn(M_sort_compar_str(&a, &b, NULL)) == sgn(w), "compar_str(%s,%s)", mc_escs(a), mc_escs(b));
		mc_check(sgn(M_sort_compar_str_desc(&a, &b, NULL)) == -sgn(w), "compar_str_desc(%s,%s)", mc_escs(a), mc_escs(b));
		mc_check(sgn(M_sort_compar_str_casecmp_desc(&a, &b, NULL)) == -sgn(M_sort_compar_str_casecmp(&a, &b, NULL)), "casecmp_desc");
	} else mc_check(sgn(M_sort_compar_str(&a, &b, NULL)) == -sgn(M_sort_compar_str(&b, &a, NULL)), "compar_str antisymmetry with NULL");
	w = *ua < *ub ? -1 : *ua > *ub;
	mc_check(sgn(M_sort_compar_u64(&ua, &ub, NULL)) == w && sgn(M_sort_compar_u64_desc(&ua, &ub, NULL)) == -w, "compar_u64(%llu,%llu)", (unsigned long long)*ua, (unsigned long long)*ub);
	w = va < vb ? -1 : va > vb;
	mc_check(sgn(M_sort_compar_vp(&va, &vb, NULL)) == w && sgn(M_sort_compar_vp_desc(&va, &vb, NULL)) == -w, "compar_vp");
	mc_steps(5);
}

void mc_init(void) { maxn = (size_t)mc_param("maxn", 8, 10); nkeys = (size_t)mc_param("nkeys", 3, 4); maxbs = (size_t)mc_param("mult", 9, 17); big = (int)mc_param("big", 12, 24); mc_leakcheck = 1; want_thunk = &maxn; }
void mc_run(void)
{
	switch (mc_choose(4)) { case 0: run_sort(); break; case 1: run_search(); break; case 2: run_big(); break; default: run_cmp(); }
}
