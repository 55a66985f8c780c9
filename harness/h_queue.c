// MODE: seq
// MODS: base
/* C22: pointer queue and LRU cache against ordered-array models. */
#include "hx.h"
const char *mc_name = "h_queue";
static int depth, which;
#define NV 64
static int vals[NV], nv, vfreed[NV], vdup[NV]; /* a value is the address of vals[i]; a duplicate of it is an allocated int holding i */
static int kfreed, kdup;
static void *k_dup(const void *k) { kdup++; return M_strdup(k); }
static void k_free(void *k) { kfreed++; M_free(k); }
static void *v_dup(const void *v) { int *p = M_malloc(sizeof(*p)); mc_check((const int *)v >= vals && (const int *)v < vals + NV, "value duplicator called with something that is no value"); *p = (int)((const int *)v - vals); vdup[*p]++; return p; }
static void v_free_dup(void *v) { if (v == NULL) return; vfreed[*(int *)v]++; M_free(v); }
static void v_free(void *v) { if (v == NULL) return; mc_check((int *)v >= vals && (int *)v < vals + NV, "value destroyed that is none"); vfreed[(int *)v - vals]++; }
static const char *const keys[] = { "a", "A", "b", "c", "d" };
static int ceq(int a, int b, int cc) { return a == b || (cc && a + b == 1); }
static void run_cache(void)
{
	int kind = mc_choose(3), cc = kind == 1, mk[8], mv[8], n = 0, max = mc_choose(4), step, i, k, v; M_cache_t *c; M_bool r; void *out; uint64_t h; int xfree[NV] = { 0 }; char when[60]; struct M_cache_callbacks cb = { k_dup, k_free, v_dup, v_free_dup };
	nv = 0; kfreed = kdup = 0; memset(vfreed, 0, sizeof(vfreed)); memset(vdup, 0, sizeof(vdup));
	c = kind == 2 ? M_cache_create((size_t)max, M_hash_func_hash_str, M_sort_compar_str, 0, &cb) : (M_cache_t *)M_cache_strvp_create((size_t)max, cc ? M_CACHE_STRVP_CASECMP : 0, v_free);
	for (step = 0; step < depth; step++) {
		h = mc_h64((uint64_t)kind, (uint64_t)(max * 16 + n)); for (i = 0; i < n; i++) h = mc_h64(h, (uint64_t)mk[i] * 2 + (mv[i] < 0)); mc_state(h); if (!mc_visit(h, depth - step)) break;
		mc_step();
		switch (mc_choose(6)) {
			case 0: case 1: k = mc_choose(5); v = mc_choose(2) ? -1 : nv++; snprintf(when, sizeof(when), "insert(%s,%d)", keys[k], v); r = M_cache_insert(c, keys[k], v < 0 ? NULL : &vals[v]);
				mc_check(r == (max > 0), "%s: status %d with maximum %d", when, r, max); if (!r) break;
				for (i = 0; i < n && !ceq(mk[i], k, cc); i++) ;
				if (i < n) { int kk = mk[i]; if (mv[i] >= 0) xfree[mv[i]]++; memmove(mk + 1, mk, sizeof(int) * (size_t)i); memmove(mv + 1, mv, sizeof(int) * (size_t)i); mk[0] = kk; mv[0] = v; }
				else { if (n == max) { n--; if (mv[n] >= 0) xfree[mv[n]]++; } memmove(mk + 1, mk, sizeof(int) * (size_t)n); memmove(mv + 1, mv, sizeof(int) * (size_t)n); mk[0] = k; mv[0] = v; n++; } break;
			case 2: k = mc_choose(5); snprintf(when, sizeof(when), "remove(%s)", keys[k]); r = M_cache_remove(c, keys[k]); for (i = 0; i < n && !ceq(mk[i], k, cc); i++) ; mc_check(r == (i < n), "%s: status %d", when, r); if (i < n) { if (mv[i] >= 0) xfree[mv[i]]++; n--; memmove(mk + i, mk + i + 1, sizeof(int) * (size_t)(n - i)); memmove(mv + i, mv + i + 1, sizeof(int) * (size_t)(n - i)); } break;
			case 3: case 4: { int direct = mc_choose(3); k = mc_choose(5); snprintf(when, sizeof(when), "get(%s)", keys[k]); out = (void *)keys; r = direct == 0 ? M_cache_get(c, keys[k], &out) : direct == 1 ? M_cache_get(c, keys[k], NULL) : kind == 2 ? M_cache_get(c, keys[k], &out) : ((out = M_cache_strvp_get_direct((M_cache_strvp_t *)c, keys[k])), 2);
				for (i = 0; i < n && !ceq(mk[i], k, cc); i++) ; if (r != 2) mc_check(r == (i < n), "%s: status %d", when, r); else if (i >= n) mc_check(out == NULL, "%s: direct get found something", when);
				if (i < n) { int kk = mk[i], vv = mv[i]; if (direct != 1) { if (vv < 0) mc_check(out == NULL, "%s: value is not the NULL stored", when); else if (kind == 2) mc_check(out != NULL && *(int *)out == vv, "%s: wrong value", when); else mc_check(out == &vals[vv], "%s: wrong value", when); }
					memmove(mk + 1, mk, sizeof(int) * (size_t)i); memmove(mv + 1, mv, sizeof(int) * (size_t)i); mk[0] = kk; mv[0] = vv; } break; }
			case 5: max = mc_choose(5); snprintf(when, sizeof(when), "set_max_size(%d)", max); mc_check(M_cache_set_max_size(c, (size_t)max), "%s failed", when); while (n > max) { n--; if (mv[n] >= 0) xfree[mv[n]]++; } break;
		}
		mc_note("cache %d: %s", kind, when);
		mc_check(M_cache_size(c) == (size_t)n, "cache %d: after %s: size %zu, expected %d", kind, when, M_cache_size(c), n);
		mc_check(M_cache_max_size(c) == (size_t)max, "max size");
		for (i = 0; i < nv; i++) mc_check(vfreed[i] == xfree[i], "cache %d: after %s: value %d was destroyed %d times, expected %d", kind, when, i, vfreed[i], xfree[i]);
	}
	M_cache_destroy(c);
	for (i = 0; i < n; i++) if (mv[i] >= 0) xfree[mv[i]]++;
	for (i = 0; i < nv; i++) mc_check(vfreed[i] == xfree[i], "cache %d: destroy: value %d was destroyed %d times, expected %d", kind, i, vfreed[i], xfree[i]);
	mc_check(kfreed == kdup, "keys duplicated %d times, freed %d times", kdup, kfreed);
	mc_outcome(mc_h64((uint64_t)n, (uint64_t)max));
}
static struct { int key; } cell[6] = { { 2 }, { 1 }, { 1 }, { 0 }, { 3 }, { 2 } }; static int cf[6], xf[6];
static int ccmp(const void *a, const void *b, void *t) { int x = *(*(const int * const *)a), y = *(*(const int * const *)b); (void)t; return x < y ? -1 : x > y; }
static void cfree(void *p) { cf[((char *)p - (char *)cell) / (int)sizeof(cell[0])]++; }
static void run_queue(void)
{
	int sorted = mc_choose(2), fr = mc_choose(2), e[8], n = 0, step, i, c, at; M_queue_t *q = M_queue_create(sorted ? ccmp : NULL, fr ? cfree : NULL); uint64_t h; char when[60]; M_bool r; void *p; M_queue_foreach_t *it; memset(cf, 0, sizeof(cf)); memset(xf, 0, sizeof(xf));
	mc_check(!M_queue_insert(q, NULL) && !M_queue_remove(q, NULL) && !M_queue_exists(q, NULL), "NULL member accepted");
	for (step = 0; step < depth; step++) {
		h = mc_h64((uint64_t)(sorted * 2 + fr + 100), (uint64_t)n); for (i = 0; i < n; i++) h = mc_h64(h, (uint64_t)e[i]); mc_state(h); if (!mc_visit(h, depth - step)) break;
		mc_step();
		switch (mc_choose(4)) {
			case 0: c = mc_choose(6); snprintf(when, sizeof(when), "insert(%d)", c); r = M_queue_insert(q, &cell[c]); for (i = 0; i < n && e[i] != c; i++) ; mc_check(r == (i == n), "%s: status %d", when, r); if (i < n) break; at = n; if (sorted) for (at = 0; at < n && cell[e[at]].key <= cell[c].key; at++) ; memmove(e + at + 1, e + at, sizeof(int) * (size_t)(n - at)); e[at] = c; n++; break;
			case 1: case 2: { int take = mc_choose(2); c = mc_choose(6); snprintf(when, sizeof(when), "%s(%d)", take ? "take" : "remove", c); r = take ? M_queue_take(q, &cell[c]) : M_queue_remove(q, &cell[c]); for (i = 0; i < n && e[i] != c; i++) ; mc_check(r == (i < n), "%s: status %d", when, r); if (i < n) { if (!take && fr) xf[c]++; n--; memmove(e + i, e + i + 1, sizeof(int) * (size_t)(n - i)); } break; }
			case 3: snprintf(when, sizeof(when), "take_first"); p = M_queue_take_first(q); mc_check(p == (n ? &cell[e[0]] : NULL), "%s: wrong member", when); if (n) { n--; memmove(e, e + 1, sizeof(int) * (size_t)n); } break;
		}
		mc_note("queue: %s", when);
		mc_check(M_queue_len(q) == (size_t)n, "after %s: length %zu, expected %d", when, M_queue_len(q), n);
		mc_check(M_queue_first(q) == (n ? &cell[e[0]] : NULL) && M_queue_last(q) == (n ? &cell[e[n - 1]] : NULL), "after %s: first/last", when);
		for (c = 0; c < 6; c++) { for (i = 0; i < n && e[i] != c; i++) ; mc_check(M_queue_exists(q, &cell[c]) == (i < n), "after %s: exists(%d)", when, c); mc_check(cf[c] == xf[c], "after %s: member %d freed %d times, expected %d", when, c, cf[c], xf[c]); }
		it = NULL; i = 0; while (M_queue_foreach(q, &it, &p)) { mc_check(i < n && p == &cell[e[i]], "after %s: enumeration differs at %d", when, i); i++; } mc_check(i == n && it == NULL, "after %s: enumeration ends after %d of %d", when, i, n);
		it = NULL; if (M_queue_foreach(q, &it, &p)) M_queue_foreach_free(it);
	}
	M_queue_destroy(q); for (i = 0; i < n; i++) if (fr) xf[e[i]]++; for (c = 0; c < 6; c++) mc_check(cf[c] == xf[c], "destroy: member %d freed %d times, expected %d", c, cf[c], xf[c]);
	mc_outcome(mc_h64((uint64_t)n, 77));
}
void mc_init(void) { mc_leakcheck = 1; depth = (int)mc_param("depth", 8, 14); which = (int)mc_param("which", -1, -1); M_queue_destroy(M_queue_create(NULL, NULL)); }
void mc_run(void) { int s = which >= 0 ? which : mc_choose(2); if (s == 0) run_cache(); else run_queue(); }
