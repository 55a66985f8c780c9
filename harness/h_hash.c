// MODE: seq
// MODS: base
/* C20: every hash table type against a reference multi-map, all operation sequences up to a depth with pruning of already explored states. */
#include "hx.h"
#include <ctype.h>
const char *mc_name = "h_hash";
/* ---- domains ---- */
static const char *const kstr[] = { "a", "A", "b", "cc" };
static const M_uint64 knum[] = { 0, 0xFFFFFFFFFFFFFFFFULL, 7, 8 };
static const char *const vstr[] = { "x", "X", "y", "" };
static const M_uint64 vnum[] = { 3, 0xFFFFFFFFFFFFFFFEULL, 0, 9 };
static const struct { const char *p; size_t n; } vbin[] = { { "x\0y", 3 }, { "x\0z", 3 }, { "z", 1 }, { "q\xff", 2 } };
static char vpcell[4]; static int vp_destroyed[4];
static void vp_free(void *p) { char *c = p; if (c == NULL) return; mc_check(c >= vpcell && c < vpcell + 4, "value destructor called with a pointer that was never stored"); vp_destroyed[c - vpcell]++; }
enum { NV = 4, VNULL = 4 };
static int unk_s(const char *s) { int i; for (i = 0; i < 4; i++) if (s && !strcmp(s, kstr[i])) return i; if (s && !strcmp(s, "B")) return 12; if (s && !strcmp(s, "CC")) return 13; return -1; }
static int unk_n(M_uint64 v) { int i; for (i = 0; i < 4; i++) if (v == knum[i]) return i; return -1; }
static int unv_s(const char *s) { int i; if (s == NULL) return VNULL; for (i = 0; i < 4; i++) if (!strcmp(s, vstr[i])) return i; return -1; }
static int unv_n(M_uint64 v) { int i; for (i = 0; i < 4; i++) if (v == vnum[i]) return i; return -1; }
static int unv_b(const M_uint8 *p, size_t n) { int i; for (i = 0; i < 4; i++) if (n == vbin[i].n && p && !memcmp(p, vbin[i].p, n)) return i; return -1; }
static int unv_p(void *p) { if (p == NULL) return VNULL; return (char *)p >= vpcell && (char *)p < vpcell + 4 ? (int)((char *)p - vpcell) : -1; }
/* ---- adapters ---- */
typedef struct { const char *name; int strkey, strval, hasnull, isvp, casev; M_uint32 casecmp, upper, lower, ordered, sortasc, sortdesc, multi, msortasc, msortdesc, getlast, mcase, seed;
	void *(*create)(size_t, M_uint8, M_uint32); void (*destroy)(void *, M_bool); M_bool (*insert)(void *, int, int); M_bool (*remove)(void *, int, M_bool);
	M_bool (*get)(void *, int, int *); M_bool (*mlen)(void *, int, size_t *); M_bool (*mget)(void *, int, size_t, int *); M_bool (*mremove)(void *, int, size_t, M_bool);
	size_t (*nkeys)(void *); M_uint32 (*size)(void *); size_t (*nexp)(void *); size_t (*enumerate)(void *, int (*)[2], size_t, size_t *); void (*merge)(void **, void *); void *(*dup)(void *); M_bool (*ismulti)(void *);
} adp_t;
#define COMMON(T, K, UK, KT, RMX, DSTX) \
static void T##_destroy(void *h, M_bool d) { M_hash_##T##_destroy DSTX; } \
static M_bool T##_remove(void *h, int k, M_bool d) { return M_hash_##T##_remove RMX; } \
static M_bool T##_mlen(void *h, int k, size_t *l) { return M_hash_##T##_multi_len(h, K[k], l); } \
static size_t T##_nkeys(void *h) { return M_hash_##T##_num_keys(h); } static M_uint32 T##_size(void *h) { return M_hash_##T##_size(h); } static size_t T##_nexp(void *h) { return M_hash_##T##_num_expansions(h); } \
static void T##_merge(void **d, void *s) { M_hash_##T##_t *dd = *d; M_hash_##T##_merge(&dd, s); *d = dd; } \
static M_bool T##_ismulti(void *h) { return M_hash_##T##_is_multi(h); }
#define SIMPLE(T, K, UK, KT, V, UV, VT, MRX) \
static M_bool T##_insert(void *h, int k, int v) { return M_hash_##T##_insert(h, K[k], V); } \
static M_bool T##_get(void *h, int k, int *v) { VT x = (VT)0; M_bool r = M_hash_##T##_get(h, K[k], &x); *v = r ? UV(x) : -9; \
	mc_check(M_hash_##T##_get_direct(h, K[k]) == x || !r, #T ": get_direct and get disagree"); mc_check(r || M_hash_##T##_get_direct(h, K[k]) == (VT)0, #T ": get_direct of a missing key is not empty"); mc_check(M_hash_##T##_get(h, K[k], NULL) == r, #T ": get without output differs"); return r; } \
static M_bool T##_mget(void *h, int k, size_t i, int *v) { VT x = (VT)0; M_bool r = M_hash_##T##_multi_get(h, K[k], i, &x); *v = r ? UV(x) : -9; mc_check(!r || M_hash_##T##_multi_get_direct(h, K[k], i) == x, #T ": multi_get_direct and multi_get disagree"); return r; } \
static M_bool T##_mremove(void *h, int k, size_t i, M_bool d) { return M_hash_##T##_multi_remove MRX; } \
static size_t T##_enumerate(void *h, int (*o)[2], size_t max, size_t *n) { M_hash_##T##_enum_t *e = NULL; KT k; VT v; size_t r = M_hash_##T##_enumerate(h, &e); *n = 0; if (e) while (*n < max && M_hash_##T##_enumerate_next(h, e, &k, &v)) { o[*n][0] = UK(k); o[*n][1] = UV(v); (*n)++; } M_hash_##T##_enumerate_free(e); return r; }
#define BIN(T, K, UK, KT) \
static M_bool T##_insert(void *h, int k, int v) { char *t = v == VNULL ? NULL : hx_dup(vbin[v].p, vbin[v].n); M_bool r = M_hash_##T##_insert(h, K[k], (M_uint8 *)t, t ? vbin[v].n : 0); free(t); return r; } \
static M_bool T##_get(void *h, int k, int *v) { const M_uint8 *x = NULL, *y; size_t n = 0, m = 0; M_bool r = M_hash_##T##_get(h, K[k], &x, &n); *v = r ? unv_b(x, n) : -9; y = M_hash_##T##_get_direct(h, K[k], &m); mc_check(!r || (y == x && m == n), #T ": get_direct and get disagree"); return r; } \
static M_bool T##_mget(void *h, int k, size_t i, int *v) { const M_uint8 *x = NULL, *y; size_t n = 0, m = 0; M_bool r = M_hash_##T##_multi_get(h, K[k], i, &x, &n); *v = r ? unv_b(x, n) : -9; y = M_hash_##T##_multi_get_direct(h, K[k], i, &m); mc_check(!r || (y == x && m == n), #T ": multi_get_direct disagrees"); return r; } \
static M_bool T##_mremove(void *h, int k, size_t i, M_bool d) { return M_hash_##T##_multi_remove(h, K[k], i); } \
static size_t T##_enumerate(void *h, int (*o)[2], size_t max, size_t *n) { M_hash_##T##_enum_t *e = NULL; KT k; const M_uint8 *v; size_t l; size_t r = M_hash_##T##_enumerate(h, &e); *n = 0; if (e) while (*n < max && M_hash_##T##_enumerate_next(h, e, &k, &v, &l)) { o[*n][0] = UK(k); o[*n][1] = unv_b(v, l); (*n)++; } M_hash_##T##_enumerate_free(e); return r; }
#define CR(T) static void *T##_create(size_t s, M_uint8 f, M_uint32 fl) { return M_hash_##T##_create(s, f, fl); }
#define CRV(T) static void *T##_create(size_t s, M_uint8 f, M_uint32 fl) { return M_hash_##T##_create(s, f, fl, vp_free); }
#define DUP(T) static void *T##_dup(void *h) { return M_hash_##T##_duplicate(h); }
DUP(dict) DUP(u64u64) DUP(u64str) DUP(stridx) DUP(stru64) DUP(strbin) DUP(u64bin)
#define strvp_dup NULL
#define u64vp_dup NULL
typedef const char *cstr; typedef void *vptr;
static const char *sv(int v) { return v == VNULL ? NULL : vstr[v]; }
#define VPV (v == VNULL ? NULL : (void *)&vpcell[v])
COMMON(dict, kstr, unk_s, cstr, (h, kstr[k]), (h)) SIMPLE(dict, kstr, unk_s, cstr, sv(v), unv_s, cstr, (h, kstr[k], i)) CR(dict)
COMMON(strvp, kstr, unk_s, cstr, (h, kstr[k], d), (h, d)) SIMPLE(strvp, kstr, unk_s, cstr, VPV, unv_p, vptr, (h, kstr[k], i, d)) CRV(strvp)
COMMON(u64vp, knum, unk_n, M_uint64, (h, knum[k], d), (h, d)) SIMPLE(u64vp, knum, unk_n, M_uint64, VPV, unv_p, vptr, (h, knum[k], i, d)) CRV(u64vp)
COMMON(u64u64, knum, unk_n, M_uint64, (h, knum[k]), (h)) SIMPLE(u64u64, knum, unk_n, M_uint64, vnum[v], unv_n, M_uint64, (h, knum[k], i)) CR(u64u64)
COMMON(u64str, knum, unk_n, M_uint64, (h, knum[k]), (h)) SIMPLE(u64str, knum, unk_n, M_uint64, sv(v), unv_s, cstr, (h, knum[k], i)) CR(u64str)
COMMON(stridx, kstr, unk_s, cstr, (h, kstr[k]), (h)) SIMPLE(stridx, kstr, unk_s, cstr, (size_t)vnum[v], unv_n, size_t, (h, kstr[k], i)) CR(stridx)
COMMON(stru64, kstr, unk_s, cstr, (h, kstr[k]), (h)) SIMPLE(stru64, kstr, unk_s, cstr, vnum[v], unv_n, M_uint64, (h, kstr[k], i)) CR(stru64)
COMMON(strbin, kstr, unk_s, cstr, (h, kstr[k]), (h)) BIN(strbin, kstr, unk_s, cstr) CR(strbin)
COMMON(u64bin, knum, unk_n, M_uint64, (h, knum[k]), (h)) BIN(u64bin, knum, unk_n, M_uint64) CR(u64bin)
#define FN(T) T##_create, T##_destroy, T##_insert, T##_remove, T##_get, T##_mlen, T##_mget, T##_mremove, T##_nkeys, T##_size, T##_nexp, T##_enumerate, T##_merge, T##_dup, T##_ismulti
#define SF(P) M_HASH_##P##_CASECMP, M_HASH_##P##_KEYS_UPPER, M_HASH_##P##_KEYS_LOWER, M_HASH_##P##_KEYS_ORDERED, M_HASH_##P##_KEYS_SORTASC, M_HASH_##P##_KEYS_SORTDESC, M_HASH_##P##_MULTI_VALUE
#define NF(P) 0, 0, 0, M_HASH_##P##_KEYS_ORDERED, M_HASH_##P##_KEYS_SORTASC, M_HASH_##P##_KEYS_SORTDESC, M_HASH_##P##_MULTI_VALUE
#define MS(P) M_HASH_##P##_MULTI_SORTASC, M_HASH_##P##_MULTI_SORTDESC, M_HASH_##P##_MULTI_GETLAST
static const adp_t adps[] = {
	{ "dict",   1, 1, 1, 0, 1, SF(DICT), MS(DICT), M_HASH_DICT_MULTI_CASECMP, M_HASH_DICT_STATIC_SEED, FN(dict) },
	{ "strvp",  1, 0, 1, 1, 0, SF(STRVP), 0, 0, M_HASH_STRVP_MULTI_GETLAST, 0, M_HASH_STRVP_STATIC_SEED, FN(strvp) },
	{ "u64vp",  0, 0, 1, 1, 0, NF(U64VP), 0, 0, M_HASH_U64VP_MULTI_GETLAST, 0, M_HASH_U64VP_STATIC_SEED, FN(u64vp) },
	{ "u64u64", 0, 0, 0, 0, 0, NF(U64U64), MS(U64U64), 0, M_HASH_U64U64_STATIC_SEED, FN(u64u64) },
	{ "u64str", 0, 1, 1, 0, 1, NF(U64STR), MS(U64STR), M_HASH_U64STR_MULTI_CASECMP, M_HASH_U64STR_STATIC_SEED, FN(u64str) },
	{ "stridx", 1, 0, 0, 0, 0, SF(STRIDX), 0, 0, M_HASH_STRIDX_MULTI_GETLAST, 0, M_HASH_STRIDX_STATIC_SEED, FN(stridx) },
	{ "stru64", 1, 0, 0, 0, 0, SF(STRU64), 0, 0, M_HASH_STRU64_MULTI_GETLAST, 0, M_HASH_STRU64_STATIC_SEED, FN(stru64) },
	{ "strbin", 1, 0, 0, 0, 0, SF(STRBIN), 0, 0, M_HASH_STRBIN_MULTI_GETLAST, 0, M_HASH_STRBIN_STATIC_SEED, FN(strbin) },
	{ "u64bin", 0, 0, 0, 0, 0, NF(U64BIN), 0, 0, M_HASH_U64BIN_MULTI_GETLAST, 0, M_HASH_U64BIN_STATIC_SEED, FN(u64bin) },
};
/* ---- reference ---- */
enum { CASEK = 1, UPK = 2, LOWK = 4, ORD = 8, ASC = 16, DESC = 32, MUL = 64, MASC = 128, MDESC = 256, LAST = 512, MCASE = 1024 };
#define MAXE 4
#define MAXV 24
typedef struct { int n; int fl; struct { int key, form, nv, v[MAXV]; } e[MAXE]; } model_t;
static const adp_t *A;
static int keyid(int fl, int k) { return A->strkey && (fl & CASEK) && k == 1 ? 0 : k; }
static int keyform(int fl, int k) { if (!A->strkey) return k; if (fl & UPK) return k == 0 ? 1 : k == 1 ? 1 : k == 2 ? 12 : 13; if (fl & LOWK) return k == 1 ? 0 : k; return k; }
/* order of keys: "A" < "a" < "b" < "cc" by strcmp; numerically 0 < 7 < 8 < max */
static int krank(int fl, int k) { if (A->strkey) { static const int r[] = { 1, 0, 2, 3 }; return (fl & CASEK) && k < 2 ? 0 : r[k]; } else { static const int r[] = { 0, 3, 1, 2 }; return r[k]; } }
static int vrank(int fl, int v) { if (A->strval) { static const int r[] = { 3, 2, 4, 1, 0 }; if ((fl & MCASE) && v < 2) return 2; return r[v]; } else { static const int r[] = { 1, 3, 0, 2, 0 }; return r[v]; } }
static int m_find(const model_t *m, int k) { int i; k = keyid(m->fl, k); for (i = 0; i < m->n; i++) if (m->e[i].key == k) return i; return -1; }
static void m_rmkey(model_t *m, int i) { memmove(&m->e[i], &m->e[i + 1], sizeof(m->e[0]) * (size_t)(m->n - i - 1)); m->n--; }
static int exp_destroy[5];
static void m_insert(model_t *m, int k, int form, int v)
{
	int i = m_find(m, k), p, r;
	if (i < 0) {
		p = m->n;
		if (m->fl & (ASC | DESC)) { r = krank(m->fl, k); for (p = 0; p < m->n; p++) { int q = krank(m->fl, m->e[p].key); if ((m->fl & DESC) ? q < r : q > r) break; } }
		memmove(&m->e[p + 1], &m->e[p], sizeof(m->e[0]) * (size_t)(m->n - p)); m->n++; i = p;
		m->e[i].key = keyid(m->fl, k); m->e[i].form = form; m->e[i].nv = 0;
	} else if (!(m->fl & MUL)) {
		if (A->isvp && m->e[i].v[0] == v) return;
		exp_destroy[m->e[i].v[0]]++; m->e[i].nv = 0;
	}
	p = m->e[i].nv;
	if (m->fl & (MASC | MDESC)) { r = vrank(m->fl, v); for (p = 0; p < m->e[i].nv; p++) { int q = vrank(m->fl, m->e[i].v[p]); if ((m->fl & MDESC) ? q < r : q > r) break; } }
	memmove(&m->e[i].v[p + 1], &m->e[i].v[p], sizeof(int) * (size_t)(m->e[i].nv - p)); m->e[i].v[p] = v; m->e[i].nv++;
}
static uint64_t m_hash(const model_t *m, uint64_t h) { int i, j; h = mc_h64(h, (uint64_t)m->n); for (i = 0; i < m->n; i++) { h = mc_h64(h, (uint64_t)(m->e[i].form * 64 + m->e[i].nv)); for (j = 0; j < m->e[i].nv; j++) h = mc_h64(h, (uint64_t)m->e[i].v[j]); } return h; }
static M_uint32 realflags(int fl) { M_uint32 r = A->seed; if (fl & CASEK) r |= A->casecmp; if (fl & UPK) r |= A->upper; if (fl & LOWK) r |= A->lower; if (fl & ORD) r |= A->ordered; if (fl & ASC) r |= A->sortasc; if (fl & DESC) r |= A->sortdesc; if (fl & MUL) r |= A->multi; if (fl & MASC) r |= A->msortasc; if (fl & MDESC) r |= A->msortdesc; if (fl & LAST) r |= A->getlast; if (fl & MCASE) r |= A->mcase; return r; }
/* values that compare equal may come in either order */
#define SAMEV(a, b) ((a) == (b) || ((m->fl & MCASE) && (a) >= 0 && vrank(m->fl, a) == vrank(m->fl, b)))
/* everything observable agrees with the model; returns a hash of the physical order */
static uint64_t check_all(void *h, const model_t *m, const char *when)
{
	int k, i, v; size_t n, tot = 0, r, j; int out[MAXE * MAXV][2]; uint64_t ph; static int seen[MAXE];
	mc_check(A->nkeys(h) == (size_t)m->n, "%s: %s: num_keys is %zu, expected %d", A->name, when, A->nkeys(h), m->n);
	mc_check(A->ismulti(h) == ((m->fl & MUL) ? M_TRUE : M_FALSE), "%s: is_multi wrong", A->name);
	for (k = 0; k < 4; k++) {
		M_bool g = A->get(h, k, &v); size_t l = 99, idx; M_bool ml = A->mlen(h, k, &l);
		i = m_find(m, k);
		mc_check(g == (i >= 0), "%s: %s: key %d is %spresent", A->name, when, k, g ? "" : "not ");
		if (i >= 0) { int want = (m->fl & LAST) ? m->e[i].v[m->e[i].nv - 1] : m->e[i].v[0]; mc_check(SAMEV(v, want), "%s: %s: get of key %d gives value %d, expected %d", A->name, when, k, v, want); tot += (size_t)m->e[i].nv; if (keyid(m->fl, k) != k) tot -= (size_t)m->e[i].nv; }
		if (!(m->fl & MUL)) { mc_check(!ml && l == 0, "%s: multi_len answers on a single-value table", A->name); continue; }
		mc_check(ml == (i >= 0) && l == (i >= 0 ? (size_t)m->e[i].nv : 0), "%s: %s: multi_len of key %d is %zu", A->name, when, k, l);
		for (idx = 0; idx <= l; idx++) { M_bool mg = A->mget(h, k, idx, &v); mc_check(mg == (idx < l), "%s: %s: multi_get of key %d index %zu of %zu", A->name, when, k, idx, l); if (mg) mc_check(SAMEV(v, m->e[i].v[idx]), "%s: %s: value %zu of key %d is %d, expected %d", A->name, when, idx, k, v, m->e[i].v[idx]); }
	}
	r = A->enumerate(h, out, HX_N(out), &n);
	mc_check(r == tot, "%s: %s: enumerate announces %zu items, %zu exist", A->name, when, r, tot);
	mc_check(n == tot, "%s: %s: enumeration yields %zu items, %zu exist", A->name, when, n, tot);
	ph = mc_h64(A->size(h), 5); memset(seen, 0, sizeof(seen));
	for (j = 0, i = -1, k = 0; j < n; j++) {
		if (j == 0 || k >= m->e[i].nv) {
			if (m->fl & ORD) i++; else { for (i = 0; i < m->n; i++) if (m->e[i].form == out[j][0]) break; mc_check(i < m->n && !seen[i], "%s: %s: enumeration yields key %d wrongly", A->name, when, out[j][0]); seen[i] = 1; }
			k = 0; ph = mc_h64(ph, (uint64_t)out[j][0]);
		}
		mc_check(out[j][0] == m->e[i].form, "%s: %s: item %zu of the enumeration has key %d, expected %d", A->name, when, j, out[j][0], m->e[i].form);
		mc_check(SAMEV(out[j][1], m->e[i].v[k]), "%s: %s: item %zu of the enumeration has value %d, expected %d", A->name, when, j, out[j][1], m->e[i].v[k]);
		k++;
	}
	if (A->isvp) for (i = 0; i < 4; i++) mc_check(vp_destroyed[i] == exp_destroy[i], "%s: %s: value %d was destroyed %d times, expected %d", A->name, when, i, vp_destroyed[i], exp_destroy[i]);
	return ph;
}
/* ---- configurations ---- */
static const struct { int fl; size_t size; M_uint8 fill; } dcfg[] = {
	{ 0, 1, 0 }, { 0, 1, 75 }, { CASEK, 2, 50 }, { CASEK | UPK | ORD, 1, 75 }, { CASEK | LOWK | ORD | ASC, 2, 75 }, { ORD, 1, 99 }, { ORD | ASC, 1, 0 }, { ORD | DESC, 2, 50 },
	{ MUL, 1, 50 }, { MUL | ORD, 2, 75 }, { MUL | MASC, 1, 75 }, { MUL | MDESC | ORD | DESC, 2, 50 }, { MUL | LAST | CASEK | ORD, 1, 0 }, { MUL | MASC | MCASE, 2, 0 }, { MUL | MDESC | MCASE | LAST, 1, 50 },
};
static const struct { int fl; size_t size; M_uint8 fill; } wcfg[] = { { 0, 1, 75 }, { CASEK | LOWK | ORD | ASC, 1, 50 }, { MUL | ORD | DESC, 2, 0 }, { MUL | LAST, 1, 50 }, { MUL | MASC | ORD, 1, 75 }, { ORD, 1, 0 }, { MUL | MDESC | ORD | DESC, 1, 75 } };
static int depth;
static void run_table(int a)
{
	int fl, step, i, j; size_t size; M_uint8 fill; void *h; model_t m; uint64_t ph; char when[64]; int nk = 4, nv = 3, ops;
	A = &adps[a];
	if (a == 0) { int c = mc_choose(HX_N(dcfg)); fl = dcfg[c].fl; size = dcfg[c].size; fill = dcfg[c].fill; }
	else { int c = mc_choose(HX_N(wcfg)); fl = wcfg[c].fl; size = wcfg[c].size; fill = wcfg[c].fill; if (!A->casecmp) fl &= ~(CASEK | LOWK | UPK); if (!A->msortasc && (fl & (MASC | MDESC))) mc_prune(); }
	memset(&m, 0, sizeof(m)); m.fl = fl; memset(vp_destroyed, 0, sizeof(vp_destroyed)); memset(exp_destroy, 0, sizeof(exp_destroy));
	h = A->create(size, fill, realflags(fl)); mc_check(h != NULL, "%s: create failed", A->name);
	ph = check_all(h, &m, "after create");
	if (A->hasnull) nv = 4;
	for (step = 0; step < depth; step++) {
		int nins = nk * nv, op;
		uint64_t sh = mc_h64(m_hash(&m, ph), (uint64_t)(a * 131 + fl)); sh = mc_h64(sh, (uint64_t)(size * 100 + fill));
		mc_state(sh);
		if (!mc_visit(sh, depth - step)) break;
		/* insert | remove key (destroying or not for vp) | remove value | duplicate | merge single | merge multi | insert twice (macro) | insert all (macro) */
		ops = nins + nk * (A->isvp ? 2 : 1) + ((fl & MUL) ? 2 * 3 : 0) + 1 + 6 + 1;
		op = mc_choose(ops);
		if (op < nins) {
			int k = op / nv, v = op % nv; if (v == 3) v = VNULL;
			snprintf(when, sizeof(when), "after insert(%d,%d)", k, v);
			mc_check(A->insert(h, k, v), "%s: insert failed", A->name); m_insert(&m, k, keyform(fl, k), v); mc_step(); goto done;
		}
		op -= nins;
		if (op < nk * (A->isvp ? 2 : 1)) {
			int k = op % nk; M_bool d = op < nk, want; i = m_find(&m, k); want = i >= 0;
			snprintf(when, sizeof(when), "after remove(%d)", k);
			mc_check(A->remove(h, k, d) == want, "%s: remove of key %d returned the wrong status", A->name, k); mc_step();
			if (i >= 0) { if (d) for (j = 0; j < m.e[i].nv; j++) exp_destroy[m.e[i].v[j]]++; m_rmkey(&m, i); }
			goto done;
		}
		op -= nk * (A->isvp ? 2 : 1);
		if (fl & MUL) {
			if (op < 6) {
				int k = op / 3 ? 2 : 0; size_t idx = (size_t)(op % 3); M_bool want; i = m_find(&m, k); want = i >= 0 && idx < (size_t)m.e[i].nv;
				snprintf(when, sizeof(when), "after multi_remove(%d,%zu)", k, idx);
				mc_check(A->mremove(h, k, idx, M_TRUE) == want, "%s: multi_remove(%d,%zu) returned the wrong status", A->name, k, idx); mc_step();
				if (want) { exp_destroy[m.e[i].v[idx]]++; memmove(&m.e[i].v[idx], &m.e[i].v[idx + 1], sizeof(int) * ((size_t)m.e[i].nv - idx - 1)); if (--m.e[i].nv == 0) m_rmkey(&m, i); }
				goto done;
			}
			op -= 6;
		}
		if (op == 0) {
			void *d; if (A->dup == NULL) mc_prune(); d = A->dup(h); snprintf(when, sizeof(when), "after duplicate"); mc_step();
			mc_check(d != NULL, "%s: duplicate failed", A->name);
			/* NOTE: the copy must be equal and independent: the original is destroyed and the copy used from here on */
			check_all(d, &m, "in the duplicate"); A->destroy(h, M_FALSE); h = d; goto done;
		}
		if (op <= 6) { /* merge with a second table: contents x (same flags | single/multi toggled) */
			int sfl = fl, what = (op - 1) % 3; void *s; model_t sm; int pre;
			if (op > 3) { if (fl & MUL) sfl &= ~(MUL | MASC | MDESC | LAST | MCASE); else sfl |= MUL; }
			sfl |= ORD; memset(&sm, 0, sizeof(sm)); sm.fl = sfl; pre = 0;
			s = A->create(1, 75, realflags(sfl));
			if (what >= 0) { A->insert(s, 1, 2); m_insert(&sm, 1, keyform(sfl, 1), 2); }
			if (what >= 1) { A->insert(s, 3, 0); m_insert(&sm, 3, keyform(sfl, 3), 0); A->insert(s, 2, 1); m_insert(&sm, 2, keyform(sfl, 2), 1); }
			if (what >= 2) { A->insert(s, 2, 0); m_insert(&sm, 2, keyform(sfl, 2), 0); A->insert(s, 0, 2); m_insert(&sm, 0, keyform(sfl, 0), 2); A->insert(s, 0, 1); m_insert(&sm, 0, keyform(sfl, 0), 1); }
			check_all(s, &sm, "in the merge source");
			(void)pre;
			A->merge(&h, s); mc_step();
			for (i = 0; i < sm.n; i++) for (j = 0; j < sm.e[i].nv; j++) m_insert(&m, sm.e[i].key, sm.e[i].form, sm.e[i].v[j]);
			snprintf(when, sizeof(when), "after merge %d", op); goto done;
		}
		{ void *d = NULL; A->merge(&d, h); mc_check(d == h, "%s: merging into nothing does not yield the source", A->name); snprintf(when, sizeof(when), "after merge into NULL"); for (i = 0; i < 4; i++) { mc_check(A->insert(h, i, 0), "%s: insert failed", A->name); m_insert(&m, i, keyform(fl, i), 0); } mc_step(); }
done:
		for (i = 0; i < m.n; i++) if (m.e[i].nv > MAXV - 10) break;
		mc_note("%s", when);
		ph = check_all(h, &m, when);
		if (i < m.n) break;
	}
	for (i = 0; i < m.n; i++) for (j = 0; j < m.e[i].nv; j++) exp_destroy[m.e[i].v[j]]++;
	A->destroy(h, M_TRUE);
	if (A->isvp) for (i = 0; i < 4; i++) mc_check(vp_destroyed[i] == exp_destroy[i], "%s: after destroy value %d was destroyed %d times, expected %d", A->name, i, vp_destroyed[i], exp_destroy[i]);
	mc_outcome(mc_h64(m_hash(&m, 3), (uint64_t)a));
}
/* ---- multi-type table ---- */
static int mt_freed[2]; static char mt_cell[2];
static void mt_free(void *p) { mt_freed[(char *)p - mt_cell]++; }
enum { TN, TB, TI, TS, TBIN, TVP };
static void run_multi(void)
{
	M_hash_multi_t *h; struct { int t, v, fr; } m[4]; int step, k, i, exp[2] = { 0, 0 }; uint64_t sh; int cc = mc_choose(2);
	static const char *const ks[] = { "k", "K" }; static const M_uint64 kn[] = { 5, 0 };
	memset(m, 0, sizeof(m)); mt_freed[0] = mt_freed[1] = 0;
	h = M_hash_multi_create(cc ? M_HASH_MULTI_STR_CASECMP : 0);
	for (step = 0; step < depth; step++) {
		int op, val, kk; M_bool r = M_TRUE;
		sh = mc_h64(777, (uint64_t)cc); for (k = 0; k < 4; k++) sh = mc_h64(sh, (uint64_t)(m[k].t * 100 + m[k].v * 10 + m[k].fr));
		mc_state(sh); if (!mc_visit(sh, depth - step)) break;
		k = mc_choose(4); op = mc_choose(8); val = op < 6 ? mc_choose(2) : 0; kk = cc && k == 3 ? 2 : k;
		/* the previous value goes away */
#define GONE(d) do { if (m[kk].t == TVP && m[kk].fr && (d)) exp[m[kk].v]++; m[kk].t = TN; m[kk].fr = 0; } while (0)
#define INS(X, V) (k < 2 ? M_hash_multi_u64_insert_##X(h, kn[k], V) : M_hash_multi_str_insert_##X(h, ks[k - 2], V))
		switch (op) {
			case 0: r = INS(bool, val ? M_TRUE : M_FALSE); GONE(1); m[kk].t = TB; break;
			case 1: r = INS(int, val ? -1 : 44); GONE(1); m[kk].t = TI; break;
			case 2: r = INS(uint, val ? 0xFFFFFFFFFFFFFFFFULL : 44); GONE(1); m[kk].t = TI; break;
			case 3: r = INS(str, val ? "text" : NULL); GONE(1); m[kk].t = TS; break;
			case 4: { char *t = hx_dup("a\0b", 3); r = k < 2 ? M_hash_multi_u64_insert_bin(h, kn[k], (unsigned char *)t, val ? 3 : 0) : M_hash_multi_str_insert_bin(h, ks[k - 2], (unsigned char *)t, val ? 3 : 0); free(t); GONE(1); m[kk].t = TBIN; break; }
			case 5: { int fr = mc_choose(2); r = k < 2 ? M_hash_multi_u64_insert_vp(h, kn[k], &mt_cell[val], fr ? mt_free : NULL) : M_hash_multi_str_insert_vp(h, ks[k - 2], &mt_cell[val], fr ? mt_free : NULL); GONE(1); m[kk].t = TVP; m[kk].fr = fr; break; }
			case 6: case 7: r = k < 2 ? M_hash_multi_u64_remove(h, kn[k], op == 6) : M_hash_multi_str_remove(h, ks[k - 2], op == 6); mc_check(r == (m[kk].t != TN), "multi: remove status"); r = M_TRUE; GONE(op == 6); break;
		}
		if (op < 6) m[kk].v = val;
		mc_step(); mc_note("multi key %d op %d val %d", k, op, val);
		mc_check(r, "multi: insert failed");
		for (k = 0; k < 4; k++) {
			M_bool b = 9; M_int64 n = 9; M_uint64 u = 9; const char *s = NULL; const unsigned char *p = NULL; size_t l = 9; void *v = NULL; M_bool r0, r1, r2, r3, r4, r5; int t;
#define GET(X, ...) (k < 2 ? M_hash_multi_u64_get_##X(h, kn[k], __VA_ARGS__) : M_hash_multi_str_get_##X(h, ks[k - 2], __VA_ARGS__))
			static const M_hash_multi_val_type_t tt[] = { M_HASH_MULTI_VAL_TYPE_UNKNOWN, M_HASH_MULTI_VAL_TYPE_BOOL, M_HASH_MULTI_VAL_TYPE_INT, M_HASH_MULTI_VAL_TYPE_STR, M_HASH_MULTI_VAL_TYPE_BIN, M_HASH_MULTI_VAL_TYPE_VP };
			i = cc && k == 3 ? 2 : k; t = m[i].t;
			r0 = GET(bool, &b); r1 = GET(int, &n); r2 = GET(uint, &u); r3 = GET(str, &s); r4 = GET(bin, &p, &l); r5 = GET(vp, &v);
			mc_check(r0 == (t == TB) && r1 == (t == TI) && r2 == (t == TI) && r3 == (t == TS) && r4 == (t == TBIN) && r5 == (t == TVP), "multi: key %d of type %d answers as %d%d%d%d%d%d", k, t, r0, r1, r2, r3, r4, r5);
			mc_check((k < 2 ? M_hash_multi_u64_type(h, kn[k]) : M_hash_multi_str_type(h, ks[k - 2])) == tt[t], "multi: wrong type for key %d", k);
			if (t == TB) mc_check(b == (m[i].v ? M_TRUE : M_FALSE), "multi: bool value");
			if (t == TI) mc_check(n == (m[i].v ? -1 : 44) && u == (M_uint64)n, "multi: int value");
			if (t == TS) mc_check(hx_streq(s, m[i].v ? "text" : ""), "multi: string value");
			if (t == TBIN) mc_check(l == (m[i].v ? 3u : 0u) && (l ? p && !memcmp(p, "a\0b", 3) : p == NULL), "multi: binary value");
			if (t == TVP) mc_check(v == &mt_cell[m[i].v], "multi: pointer value");
		}
		mc_check(mt_freed[0] == exp[0] && mt_freed[1] == exp[1], "multi: pointer values destroyed %d,%d times, expected %d,%d", mt_freed[0], mt_freed[1], exp[0], exp[1]);
	}
	for (k = 0; k < 4; k++) if (m[k].t == TVP && m[k].fr) exp[m[k].v]++;
	M_hash_multi_destroy(h);
	mc_check(mt_freed[0] == exp[0] && mt_freed[1] == exp[1], "multi: after destroy pointer values destroyed %d,%d times, expected %d,%d", mt_freed[0], mt_freed[1], exp[0], exp[1]);
}
/* ---- serialisation ---- */
static void run_ser(void)
{
	static const char al[] = { 'v', ' ', ';', '=', '"', '\\', '\n', '\t', (char)0xe9 };
	static const struct { char d, k, q, e; M_uint32 sf, df; } cf[] = { { ';', '=', '"', '\\', 0, 0 }, { ';', '=', '"', '"', 0, 0 }, { '\n', '=', '"', '\\', M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE, 0 }, { '\n', '=', '"', '"', M_HASH_DICT_SER_FLAG_LF_TO_CRLF, M_HASH_DICT_DESER_TRIM_WHITESPACE }, { ';', '=', '"', '\\', M_HASH_DICT_SER_FLAG_QUOTE_NON_ANS, M_HASH_DICT_DESER_TRIM_WHITESPACE } };
	char v1[8], v2[8]; size_t c = (size_t)mc_choose(HX_N(cf)); int null1; M_hash_dict_t *d, *r; char *s; const char *x, *y; size_t maxl = mc_thorough ? 5 : 4;
	M_bool hex = M_FALSE; M_buf_t *b;
	hx_str(v1, maxl, al, HX_N(al)); null1 = v1[0] == 0 ? mc_choose(2) : 0; if (v1[0] && v1[1] && v1[2]) strcpy(v2, "w"); else hx_str(v2, 1, al, HX_N(al));
	d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED); M_hash_dict_insert(d, "k1", null1 ? NULL : v1); M_hash_dict_insert(d, "k2", v2);
	s = M_hash_dict_serialize(d, cf[c].d, cf[c].k, cf[c].q, cf[c].e, cf[c].sf); mc_step(); mc_case();
	mc_check(s != NULL, "serialize failed");
	mc_note("%s", mc_escs(s)); mc_outcome(mc_hstr(c, s));
	{ char *t = hx_dup(s, strlen(s)); r = M_hash_dict_deserialize(t, strlen(s), cf[c].d, cf[c].k, cf[c].q, cf[c].e, cf[c].df); free(t); }
	mc_check(r != NULL, "what serialize wrote is rejected by deserialize: %s", mc_escs(s));
	mc_check(M_hash_dict_num_keys(r) == 2 && M_hash_dict_get(r, "k1", &x) && M_hash_dict_get(r, "k2", &y), "keys lost over serialisation: %s", mc_escs(s));
	if (!(cf[c].sf & M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE) || !null1) {
		if (null1 || v1[0]) mc_check(hx_streq(x, null1 ? NULL : v1), "value %s became %s over %s", null1 ? "NULL" : mc_escs(v1), mc_escs(x), mc_escs(s));
		else mc_check(x != NULL && *x == 0, "an empty value became NULL over %s", mc_escs(s));
	}
	mc_check(v2[0] ? hx_streq(y, v2) : y != NULL && *y == 0, "value %s became %s over %s", mc_escs(v2), mc_escs(y), mc_escs(s));
	(void)hex;
	b = M_buf_create(); M_buf_add_str(b, "pre"); mc_check(M_hash_dict_serialize_buf(d, b, cf[c].d, cf[c].k, cf[c].q, cf[c].e, cf[c].sf), "serialize_buf failed");
	mc_check(M_buf_len(b) == strlen(s) + 3 && !memcmp(M_buf_peek(b), "pre", 3) && !memcmp(M_buf_peek(b) + 3, s, strlen(s)), "serialize_buf differs from serialize");
	M_buf_cancel(b); M_free(s);
	/* hex encoding: every unprintable byte appears as [XX] */
	s = M_hash_dict_serialize(d, ';', '=', '"', '\\', M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT);
	{ char want[200]; size_t o = 0, q; const char *vv[2]; vv[0] = null1 ? NULL : v1; vv[1] = v2;
	  for (q = 0; q < 2; q++) { const char *p = vv[q]; int quote = 0, esc = 0; size_t i; o += (size_t)sprintf(want + o, "k%zu=", q + 1);
		if (p != NULL) { if (!*p || isspace((unsigned char)p[0]) || isspace((unsigned char)p[strlen(p) - 1])) quote = 1; for (i = 0; p[i]; i++) { if (p[i] == ';' || p[i] == '=') quote = 1; if (p[i] == '"' || p[i] == '\\' || !M_chr_isprint(p[i])) quote = esc = 1; } }
		if (quote) want[o++] = '"';
		for (i = 0; p && p[i]; i++) { if (p[i] == '"' || p[i] == '\\') want[o++] = '\\'; if (!M_chr_isprint(p[i])) o += (size_t)sprintf(want + o, "[%02X]", (unsigned char)p[i]); else want[o++] = p[i]; }
		if (quote) want[o++] = '"';
		want[o++] = ';'; }
	  want[o] = 0; mc_check(!strcmp(want, s), "hex-encoding serialisation gives %s, expected %s", mc_escs(s), mc_escs(want)); }
	M_free(s); M_hash_dict_destroy(d); M_hash_dict_destroy(r);
}
/* short texts through the deserialiser: no crash, and what it accepts survives serialise/deserialise */
static void run_deser(void)
{
	static const char al[] = { 'a', '=', ';', '"', ' ', '\n' }; char t[10], *s, *x; M_hash_dict_t *d, *e; M_hash_dict_enum_t *he; const char *k, *v, *w; size_t n; M_uint32 fl = mc_choose(2) ? M_HASH_DICT_DESER_TRIM_WHITESPACE : 0; char esc = mc_choose(2) ? '"' : '\\';
	n = hx_str(t, mc_thorough ? 7 : 6, al, HX_N(al));
	x = hx_dup(t, n + 1); d = M_hash_dict_deserialize(x, n, ';', '=', '"', esc, fl); free(x); mc_step(); mc_case();
	mc_outcome(d ? M_hash_dict_num_keys(d) : 99);
	if (d != NULL && M_hash_dict_num_keys(d) == 1) {
		M_hash_dict_enumerate(d, &he); M_hash_dict_enumerate_next(d, he, &k, &v); M_hash_dict_enumerate_free(he);
		if (!strpbrk(k, ";=\" \n")) {
			s = M_hash_dict_serialize(d, ';', '=', '"', esc, 0); e = M_hash_dict_deserialize(s, strlen(s), ';', '=', '"', esc, fl);
			mc_check(e != NULL && M_hash_dict_num_keys(e) == 1 && M_hash_dict_get(e, k, &w) && hx_streq(v, w), "%s -> %s=%s -> %s -> not the same", mc_escs(t), mc_escs(k), mc_escs(v), mc_escs(s));
			M_free(s); M_hash_dict_destroy(e);
		}
	}
	M_hash_dict_destroy(d);
}
static int which;
void mc_init(void) { mc_leakcheck = 1; depth = (int)mc_param("depth", 3, 4); which = (int)mc_param("which", -1, -1); M_hash_dict_destroy(M_hash_dict_create(1, 0, 0)); }
void mc_run(void)
{
	int s = which >= 0 ? which : mc_choose((int)HX_N(adps) + 3);
	if (s < (int)HX_N(adps)) run_table(s); else if (s == (int)HX_N(adps)) run_multi(); else if (s == (int)HX_N(adps) + 1) run_ser(); else run_deser();
}
