// MODE: seq
// MODS: base
// WRAP: M_rand
/* C21 (linked lists): M_llist sorted, unsorted and circular, with every choice of skip-list level, against an array model. */
#include "hx.h"
const char *mc_name = "h_llist";
M_uint64 __wrap_M_rand(M_rand_t *s);
static int lvl_free; /* 1: the levels of new nodes are a choice */
static unsigned lvl_n;
M_uint64 __wrap_M_rand(M_rand_t *s) { static const M_uint64 v[] = { 1, 2, 8, 4, 1, 1, 2 }; (void)s; if (lvl_free) return v[mc_choose(3)]; return v[lvl_n++ % HX_N(v)]; }
#define NC 4
static struct { int key; } cell[NC] = { { 0 }, { 0 }, { 1 }, { 2 } };
static int freed[NC], xf[NC];
static void cell_free(void *p) { int i = (int)((char *)p - (char *)cell) / (int)sizeof(cell[0]); mc_check(p != NULL, "value_free called with NULL"); mc_check(p >= (void *)cell && i >= 0 && i < NC, "value_free called with a wrong pointer"); freed[i]++; }
static int dir; static int dirs[2] = { 1, -1 }; static int usethunk;
static int cmp(const void *a, const void *b, void *thunk) { int x = *(*(const int * const *)a), y = *(*(const int * const *)b); int d = 1; if (usethunk) { mc_check(thunk == &dirs[dir < 0], "comparator called without the list's thunk"); d = *(int *)thunk; } return x < y ? -d : x > y ? d : 0; }
#define MAXN 40
static int e[MAXN], n; static M_uint32 fl; static M_llist_node_t *nd[MAXN];
#define K(c) cell[c].key
#define SORTED (fl & M_LLIST_SORTED)
#define CIRC (fl & M_LLIST_CIRCULAR)
static int match(int a, int b, M_uint32 type) { return (type & M_LLIST_MATCH_PTR) ? a == b : K(a) == K(b); }
static void ins_at(int c, int at) { memmove(e + at + 1, e + at, sizeof(int) * (size_t)(n - at)); e[at] = c; n++; }
static void rm_at(int at) { memmove(e + at, e + at + 1, sizeof(int) * (size_t)(n - at - 1)); n--; }
static void ins(int c) { int at; if (SORTED) { for (at = 0; at < n && (K(e[at]) - K(c)) * dir <= 0; at++) ; } else at = n; ins_at(c, at); }
static int idof(const void *p) { return p == NULL ? -1 : (int)(((const char *)p - (const char *)cell) / (int)sizeof(cell[0])); }
static void rot(int k) { int t[MAXN], i; for (i = 0; i < n; i++) t[i] = e[(i + k) % n]; memcpy(e, t, sizeof(int) * (size_t)n); }
static void check_all(M_llist_t *d, const char *when)
{
	int i, c; M_llist_node_t *x;
	mc_check(M_llist_len(d) == (size_t)n, "%s: length %zu, expected %d", when, M_llist_len(d), n);
	x = M_llist_first(d); mc_check((x == NULL) == (n == 0), "%s: first", when); mc_check((M_llist_last(d) == NULL) == (n == 0), "%s: last", when);
	for (i = 0; i < n; i++) { mc_check(x != NULL, "%s: walk ends after %d of %d", when, i, n); nd[i] = x; mc_check(idof(M_llist_node_val(x)) == e[i], "%s: element %d of %d is %d, expected %d", when, i, n, idof(M_llist_node_val(x)), e[i]); x = M_llist_node_next(x); }
	if (n) { mc_check(x == (CIRC ? nd[0] : NULL), "%s: end of the walk", when); mc_check(M_llist_last(d) == nd[n - 1], "%s: last is not the last node", when); }
	x = n ? M_llist_last(d) : NULL; for (i = n - 1; i >= 0; i--) { mc_check(x == nd[i], "%s: backward walk differs at %d", when, i); x = M_llist_node_prev(x); } if (n) mc_check(x == (CIRC ? nd[n - 1] : NULL), "%s: end of the backward walk", when);
	for (c = 0; c < NC; c++) {
		int v = 0, p = 0, fv = -1, fp = -1;
		for (i = n - 1; i >= 0; i--) { if (K(e[i]) == K(c)) { v++; fv = i; } if (e[i] == c) { p++; fp = i; } }
		mc_check(freed[c] == xf[c], "%s: element %d was freed %d times, expected %d", when, c, freed[c], xf[c]);
		mc_check(M_llist_count(d, &cell[c], M_LLIST_MATCH_VAL) == (size_t)v, "%s: count by value of %d is %zu, expected %d", when, c, M_llist_count(d, &cell[c], M_LLIST_MATCH_VAL), v);
		mc_check(M_llist_count(d, &cell[c], M_LLIST_MATCH_PTR) == (size_t)p, "%s: count by pointer of %d", when, c);
		mc_check(M_llist_find(d, &cell[c], M_LLIST_MATCH_VAL) == (v ? nd[fv] : NULL), "%s: find by value of %d is not the first match", when, c);
		mc_check(M_llist_find(d, &cell[c], M_LLIST_MATCH_PTR) == (p ? nd[fp] : NULL), "%s: find by pointer of %d is not the first match", when, c);
	}
}
static int depth, which;
static void run_generic(void)
{
	int step, i, j, c, w; M_llist_t *d; struct M_llist_callbacks cb = { cmp, NULL, NULL, cell_free }; char when[80]; uint64_t h, levels = 0; int kind = mc_choose(5); int pre; size_t cnt; M_llist_node_t *x; M_bool r;
	lvl_free = 0; lvl_n = 0; fl = kind < 2 ? 0 : kind == 2 ? M_LLIST_CIRCULAR : M_LLIST_SORTED; if (kind == 1) mc_prune(); n = 0; dir = 1; usethunk = 0; memset(freed, 0, sizeof(freed)); memset(xf, 0, sizeof(xf));
	d = M_llist_create(&cb, fl); mc_check(d != NULL, "create failed");
	if (kind == 4) { usethunk = 1; dir = -1; mc_check(M_llist_change_sorting(d, NULL, &dirs[1]), "change_sorting failed"); }
	else if (!SORTED) mc_check(!M_llist_change_sorting(d, cmp, NULL), "change_sorting of an unsorted list");
	pre = mc_choose(3); pre = pre == 0 ? 0 : pre == 1 ? 3 : SORTED ? 17 : 5;
	for (i = 0; i < pre; i++) { c = (i * 3 + 2) % NC; ins(c); x = M_llist_insert(d, &cell[c]); mc_check(x != NULL, "insert failed"); }
	lvl_free = 1; strcpy(when, "at start"); check_all(d, when);
	for (step = 0; step < depth - (SORTED ? 1 : 0); step++) {
		h = mc_h64((uint64_t)kind, (uint64_t)(n * 32 + pre) + 7919 * lvl_n); for (i = 0; i < n; i++) h = mc_h64(h, (uint64_t)e[i]); h = mc_h64(h, levels);
		mc_state(h); if (!SORTED && !mc_visit(h, depth - step)) break;
		if (n > MAXN - 6) break;
		mc_step();
		switch (mc_choose(12)) {
			case 0: c = mc_choose(NC); snprintf(when, sizeof(when), "insert(%d)", c); x = M_llist_insert(d, &cell[c]); mc_check(x != NULL && idof(M_llist_node_val(x)) == c, "%s: wrong node", when); ins(c); break;
			case 1: c = 3 * mc_choose(2); snprintf(when, sizeof(when), "insert_first(%d)", c); x = M_llist_insert_first(d, &cell[c]); if (SORTED) mc_check(x == NULL, "%s: succeeded on a sorted list", when); else { ins_at(c, 0); mc_check(x != NULL, "%s: failed", when); } break;
			case 2: case 3: { int after = mc_choose(2); c = 1; if (n == 0) mc_prune(); i = mc_choose(3); i = i == 0 ? 0 : i == 1 ? n / 2 : n - 1; snprintf(when, sizeof(when), "insert_%s(node %d of %d)", after ? "after" : "before", i, n); x = after ? M_llist_insert_after(nd[i], &cell[c]) : M_llist_insert_before(nd[i], &cell[c]);
				if (SORTED) mc_check(x == NULL, "%s: succeeded on a sorted list", when); else { mc_check(x != NULL, "%s: failed", when); ins_at(c, i + after); mc_check(after ? M_llist_node_next(nd[i]) == x : M_llist_node_prev(nd[i]) == x, "%s: not adjacent", when);
					if (CIRC && M_llist_first(d) != (after || i ? nd[0] : x)) { if (i == 0 && !after && M_llist_first(d) == nd[0]) rot(1); } } break; }
			case 4: { int before = mc_choose(2), tmp; if (n < 2) mc_prune(); i = mc_choose(n < 4 ? n : 4); j = mc_choose(n < 4 ? n : 4); if (i == 3) i = n - 1; if (j == 3) j = n - 1; snprintf(when, sizeof(when), "move node %d %s %d of %d", i, before ? "before" : "after", j, n); r = before ? M_llist_move_before(nd[i], nd[j]) : M_llist_move_after(nd[i], nd[j]);
				if (SORTED || i == j) { mc_check(!r, "%s: succeeded", when); break; } mc_check(r, "%s: failed", when);
				mc_check(before ? M_llist_node_next(nd[i]) == nd[j] : M_llist_node_prev(nd[i]) == nd[j], "%s: nodes not adjacent", when);
				if (CIRC) { /* the cyclic order is the contract; where the list starts is adopted */ M_llist_node_t *f; M_llist_node_t *on[MAXN]; int oe[MAXN]; memcpy(on, nd, sizeof(on)); memcpy(oe, e, sizeof(oe)); tmp = e[i]; { M_llist_node_t *xn = nd[i], *xj = nd[j]; int k; rm_at(i); memmove(on + i, on + i + 1, sizeof(on[0]) * (size_t)(n - i)); for (k = 0; on[k] != xj; k++) ; if (!before) k++; memmove(on + k + 1, on + k, sizeof(on[0]) * (size_t)(n - k)); on[k] = xn; ins_at(tmp, k); } f = M_llist_first(d); for (tmp = 0; tmp < n && on[tmp] != f; tmp++) ; mc_check(tmp < n, "%s: first is no node", when); rot(tmp); }
				else { tmp = e[i]; rm_at(i); if (j > i) j--; ins_at(tmp, before ? j : j + 1); } break; }
			case 5: if (n == 0) mc_prune(); i = mc_choose(3); i = i == 0 ? 0 : i == 1 ? n / 2 : n - 1; snprintf(when, sizeof(when), "set_first(%d of %d)", i, n); M_llist_set_first(nd[i]); if (!SORTED) { if (CIRC) rot(i); else { w = e[i]; rm_at(i); ins_at(w, 0); } } break;
			case 6: if (n == 0) mc_prune(); i = mc_choose(3); i = i == 0 ? 0 : i == 1 ? n / 2 : n - 1; snprintf(when, sizeof(when), "set_last(%d of %d)", i, n); M_llist_set_last(nd[i]); if (!SORTED) { if (CIRC) rot((i + 1) % n); else { w = e[i]; rm_at(i); ins_at(w, n); } } break;
			case 7: { int take = mc_choose(2); if (n == 0) mc_prune(); i = mc_choose(3); i = i == 0 ? 0 : i == 1 ? n / 2 : n - 1; snprintf(when, sizeof(when), "%s node %d of %d", take ? "take" : "remove", i, n); if (take) mc_check(idof(M_llist_take_node(nd[i])) == e[i], "%s: wrong value", when); else { mc_check(M_llist_remove_node(nd[i]), "%s: failed", when); xf[e[i]]++; } rm_at(i); break; }
			case 8: { M_uint32 t = (M_uint32)mc_choose(4); int m = 0; c = mc_choose(NC); snprintf(when, sizeof(when), "remove_val(%d, type %u) of %d", c, t, n); cnt = M_llist_remove_val(d, &cell[c], t);
				for (i = 0; i < n; ) if (match(e[i], c, t) && (!m || (t & M_LLIST_MATCH_ALL))) { xf[e[i]]++; rm_at(i); m++; } else i++; mc_check(cnt == (size_t)m, "%s: %zu removed, expected %d", when, cnt, m); break; }
			case 9: { M_uint32 t = (M_uint32)mc_choose(2); snprintf(when, sizeof(when), "remove_duplicates(type %u) of %d", t, n); M_llist_remove_duplicates(d, t); for (i = 0; i < n; i++) for (j = i + 1; j < n; ) if (match(e[i], e[j], t)) { xf[e[j]]++; rm_at(j); } else j++; break; }
			case 10: { M_llist_t *q; snprintf(when, sizeof(when), "duplicate"); lvl_free = 0; q = M_llist_duplicate(d); lvl_free = 1; check_all(d, "source of duplicate"); check_all(q, when); M_llist_destroy(d, M_FALSE); d = q; break; }
			case 11: { static const int mm[][4] = { { 0, -1 }, { 1, 2, 0, -1 }, { 3, 3, 1, -1 }, { -1 } }; M_llist_t *s; int inc = mc_choose(2); M_uint32 t = (M_uint32)mc_choose(2); int src[4], sn = 0; i = mc_choose(4); snprintf(when, sizeof(when), "merge(%d, include %d, type %u)", i, inc, t); lvl_free = 0;
				s = M_llist_create(&cb, fl); if (usethunk) M_llist_change_sorting(s, NULL, &dirs[1]); for (j = 0; mm[i][j] >= 0; j++) M_llist_insert(s, &cell[mm[i][j]]); for (x = M_llist_first(s); x != NULL; ) { src[sn++] = idof(M_llist_node_val(x)); x = M_llist_node_next(x); if (x == M_llist_first(s)) break; }
				M_llist_merge(&d, s, inc ? M_TRUE : M_FALSE, t); for (j = 0; j < sn; j++) { int k, dup = 0; for (k = 0; k < n; k++) dup |= match(e[k], src[j], t); if (dup && !inc) xf[src[j]]++; else ins(src[j]); } lvl_free = 1; break; }
		}
		mc_note("kind %d: %s", kind, when);
		check_all(d, when);
	}
	for (i = 0; i < n; i++) xf[e[i]]++;
	M_llist_destroy(d, M_TRUE);
	for (i = 0; i < NC; i++) mc_check(freed[i] == xf[i], "destroy freed element %d %d times, expected %d", i, freed[i], xf[i]);
	mc_outcome(mc_h64((uint64_t)n, (uint64_t)kind));
}
void mc_init(void) { mc_leakcheck = 1; depth = (int)mc_param("depth", 4, 5); which = (int)mc_param("which", -1, -1); M_llist_destroy(M_llist_create(NULL, 0), M_FALSE); }
/* wrappers */
static const char *const sdom[] = { "b", "B", "c", "a" }; static const M_uint64 udom[] = { 2, 0xFFFFFFFFFFFFFFFFULL, 0, 0x100000000ULL };
static const struct { const char *p; size_t n; } bdom[] = { { "a\0b", 3 }, { "a\0c", 3 }, { "a", 1 }, { "zzzzzzzzzzzzzzzzzzz", 19 } };
#define B(v) (const M_uint8 *)bdom[v].p, bdom[v].n
static int wk, cc, wsort;
static int rank_(int v) { static const int rs[] = { 2, 0, 3, 1 }, ru[] = { 1, 3, 0, 2 }; int r = wk == 0 ? (cc && v == 1 ? 2 : rs[v]) : ru[v]; return wsort == 2 ? -r : r; }
static int weq(int a, int b) { return wk == 0 && cc ? rank_(a) == rank_(b) : a == b; }
static void *l;
static int us(const char *s) { int i; if (s == NULL) return -1; for (i = 0; i < 4; i++) if (!strcmp(s, sdom[i])) return i; return -2; }
static int uu(M_uint64 v) { int i; for (i = 0; i < 4; i++) if (v == udom[i]) return i; return -2; }
static int ub(const M_uint8 *p, size_t m) { int i; if (p == NULL) return -1; for (i = 0; i < 4; i++) if (m == bdom[i].n && !memcmp(p, bdom[i].p, m)) return i; return -2; }
#define SEL(s, u, b) (wk == 0 ? (void *)(s) : wk == 1 ? (void *)(u) : (void *)(b))
#define SELN(s, u, b) (wk == 0 ? (s) : wk == 1 ? (u) : (b))
static void wcheck(const char *when)
{
	int i, c, first; void *x; size_t m = 0;
	mc_check(SELN(M_llist_str_len(l), M_llist_u64_len(l), M_llist_bin_len(l)) == (size_t)n, "wrapper %d: %s: length, expected %d", wk, when, n);
	x = SEL(M_llist_str_first(l), M_llist_u64_first(l), M_llist_bin_first(l));
	for (i = 0; i < n; i++) { int g; mc_check(x != NULL, "wrapper %d: %s: list ends at %d of %d", wk, when, i, n); nd[i] = x; if (wk == 0) g = us(M_llist_str_node_val(x)); else if (wk == 1) g = uu(M_llist_u64_node_val(x)); else { const M_uint8 *p = M_llist_bin_node_val(x, &m); g = ub(p, m); } mc_check(g == e[i], "wrapper %d: %s: element %d is %d, expected %d", wk, when, i, g, e[i]); x = SEL(M_llist_str_node_next(x), M_llist_u64_node_next(x), M_llist_bin_node_next(x)); }
	for (c = 0; c < 4; c++) { int k = 0; first = -1; for (i = n - 1; i >= 0; i--) if (weq(e[i], c)) { k++; first = i; } m = SELN(M_llist_str_count(l, sdom[c], M_LLIST_STR_MATCH_VAL), M_llist_u64_count(l, udom[c]), M_llist_bin_count(l, B(c))); mc_check(m == (size_t)k, "wrapper %d: %s: count of %d is %zu, expected %d", wk, when, c, m, k); x = SEL(M_llist_str_find(l, sdom[c], M_LLIST_STR_MATCH_VAL), M_llist_u64_find(l, udom[c]), M_llist_bin_find(l, B(c))); mc_check(x == (k ? (void *)nd[first] : NULL), "wrapper %d: %s: find of %d", wk, when, c); }
}
static void wins(int c) { int at; if (wsort) { for (at = 0; at < n && rank_(e[at]) <= rank_(c); at++) ; } else at = n; ins_at(c, at); }
static void run_wrapper(void)
{
	int step, i, c; char when[60]; size_t cnt; uint64_t h; void *x; M_uint32 f;
	lvl_free = 0; lvl_n = 0; wk = mc_choose(3); wsort = wk == 2 ? 0 : mc_choose(3); cc = wk == 0 ? mc_choose(2) : 0; n = 0; fl = 0;
	f = wk == 0 ? (M_uint32)((wsort == 1 ? M_LLIST_STR_SORTASC : wsort == 2 ? M_LLIST_STR_SORTDESC : 0) | (cc ? M_LLIST_STR_CASECMP : 0)) : wk == 1 ? (M_uint32)(wsort == 1 ? M_LLIST_U64_SORTASC : wsort == 2 ? M_LLIST_U64_SORTDESC : 0) : 0;
	l = SEL(M_llist_str_create(f), M_llist_u64_create(f), M_llist_bin_create(f));
	for (step = 0; step < depth + 1; step++) {
		h = mc_h64((uint64_t)(wk * 100 + wsort * 10 + cc), (uint64_t)n); for (i = 0; i < n; i++) h = mc_h64(h, (uint64_t)e[i]); h = mc_h64(h, 815); mc_state(h); if (!mc_visit(h, depth + 1 - step)) break;
		if (n > MAXN - 6) break;
		mc_step();
		switch (mc_choose(8)) {
			case 0: c = mc_choose(4); snprintf(when, sizeof(when), "insert(%d)", c); x = SEL(M_llist_str_insert(l, sdom[c]), M_llist_u64_insert(l, udom[c]), M_llist_bin_insert(l, B(c))); mc_check(x != NULL, "wrapper %d: %s failed", wk, when); wins(c); break;
			case 1: c = mc_choose(4); snprintf(when, sizeof(when), "insert_first(%d)", c); x = SEL(M_llist_str_insert_first(l, sdom[c]), M_llist_u64_insert_first(l, udom[c]), M_llist_bin_insert_first(l, B(c))); mc_check((x == NULL) == (wsort != 0), "wrapper %d: %s status", wk, when); if (x != NULL) ins_at(c, 0); break;
			case 2: { int after = mc_choose(2); c = 2; if (n == 0) mc_prune(); i = mc_choose(2) ? n - 1 : 0; snprintf(when, sizeof(when), "insert %s %d", after ? "after" : "before", i); x = after ? SEL(M_llist_str_insert_after((void *)nd[i], sdom[c]), M_llist_u64_insert_after((void *)nd[i], udom[c]), M_llist_bin_insert_after((void *)nd[i], B(c))) : SEL(M_llist_str_insert_before((void *)nd[i], sdom[c]), M_llist_u64_insert_before((void *)nd[i], udom[c]), M_llist_bin_insert_before((void *)nd[i], B(c))); mc_check((x == NULL) == (wsort != 0), "wrapper %d: %s status", wk, when); if (x != NULL) ins_at(c, i + after); break; }
			case 3: if (n == 0) mc_prune(); i = mc_choose(2) ? n - 1 : 0; snprintf(when, sizeof(when), "take %d", i); { int g; if (wk == 0) { char *s = M_llist_str_take_node((void *)nd[i]); g = us(s); M_free(s); } else if (wk == 1) g = uu(M_llist_u64_take_node((void *)nd[i])); else { size_t m = 0; M_uint8 *s = M_llist_bin_take_node((void *)nd[i], &m); g = ub(s, m); M_free(s); } mc_check(g == e[i], "wrapper %d: took %d, expected %d", wk, g, e[i]); rm_at(i); } break;
			case 4: { int all = mc_choose(2), m = 0; c = mc_choose(4); snprintf(when, sizeof(when), "remove_val(%d, all %d)", c, all); cnt = SELN(M_llist_str_remove_val(l, sdom[c], all ? M_LLIST_STR_MATCH_ALL : 0), M_llist_u64_remove_val(l, udom[c], all ? M_LLIST_U64_MATCH_ALL : 0), M_llist_bin_remove_val(l, B(c), all ? M_LLIST_BIN_MATCH_ALL : 0)); for (i = 0; i < n; ) if (weq(e[i], c) && (all || !m)) { rm_at(i); m++; } else i++; mc_check(cnt == (size_t)m, "wrapper %d: %s: %zu removed, expected %d", wk, when, cnt, m); break; }
			case 5: { int j; snprintf(when, sizeof(when), "remove_duplicates"); if (wk == 0) M_llist_str_remove_duplicates(l); else if (wk == 1) M_llist_u64_remove_duplicates(l); else M_llist_bin_remove_duplicates(l); for (i = 0; i < n; i++) for (j = i + 1; j < n; ) if (weq(e[i], e[j])) rm_at(j); else j++; break; }
			case 6: { void *q = SEL(M_llist_str_duplicate(l), M_llist_u64_duplicate(l), M_llist_bin_duplicate(l)); snprintf(when, sizeof(when), "duplicate+destroy"); if (wk == 0) M_llist_str_destroy(l); else if (wk == 1) M_llist_u64_destroy(l); else M_llist_bin_destroy(l); l = q; break; }
			case 7: { int inc = mc_choose(2), j; void *s = SEL(M_llist_str_create(f), M_llist_u64_create(f), M_llist_bin_create(f)); int src[4] = { 1, 2 }; snprintf(when, sizeof(when), "merge inc %d", inc); if (wsort && rank_(1) > rank_(2)) { src[0] = 2; src[1] = 1; }
				for (j = 0; j < 2; j++) { if (wk == 0) M_llist_str_insert(s, sdom[src[j]]); else if (wk == 1) M_llist_u64_insert(s, udom[src[j]]); else M_llist_bin_insert(s, B(src[j])); }
				if (wk == 0) { M_llist_str_t *y = l; M_llist_str_merge(&y, s, inc ? M_TRUE : M_FALSE); l = y; } else if (wk == 1) { M_llist_u64_t *y = l; M_llist_u64_merge(&y, s, inc ? M_TRUE : M_FALSE); l = y; } else { M_llist_bin_t *y = l; M_llist_bin_merge(&y, s, inc ? M_TRUE : M_FALSE); l = y; }
				for (j = 0; j < 2; j++) { int dup = 0, k; if (!inc) for (k = 0; k < n; k++) dup |= weq(e[k], src[j]); if (!dup) wins(src[j]); } break; }
		}
		mc_note("%d: %s", wk, when);
		wcheck(when);
	}
	if (wk == 0) M_llist_str_destroy(l); else if (wk == 1) M_llist_u64_destroy(l); else M_llist_bin_destroy(l);
	mc_outcome(mc_h64((uint64_t)n, (uint64_t)wk));
}
void mc_run(void) { int s = which >= 0 ? which : mc_choose(2); if (s == 0) run_generic(); else run_wrapper(); }
