// MODE: seq
// MODS: base
/* C21 (arrays): M_list with every flag combination, and its typed wrappers, against a plain array model. */
#include "hx.h"
const char *mc_name = "h_list";
#define NC 4
static struct { int key; } cell[NC] = { { 0 }, { 0 }, { 1 }, { 2 } };
static int freed[NC];
static void cell_free(void *p) { int i = (int)((char *)p - (char *)cell) / (int)sizeof(cell[0]); mc_check(p >= (void *)cell && i >= 0 && i < NC, "value_free called with a wrong pointer"); freed[i]++; }
static int dirs[2] = { 1, -1 };
static int cmp(const void *a, const void *b, void *thunk) { int x = *(*(const int * const *)a), y = *(*(const int * const *)b), d = thunk ? *(int *)thunk : 1; mc_check(thunk == NULL || thunk == &dirs[0] || thunk == &dirs[1], "wrong thunk"); return x < y ? -d : x > y ? d : 0; }
static int needthunk; /* once a thunk was set the comparator must get it */
static int cmpt(const void *a, const void *b, void *thunk) { mc_check(thunk == &dirs[needthunk], "comparator called without the list's thunk"); return cmp(a, b, thunk); }
static const struct { M_uint32 f; } cfgs[] = { { 0 }, { M_LIST_SORTED }, { M_LIST_SORTED | M_LIST_STABLE }, { M_LIST_STACK }, { M_LIST_SET_VAL }, { M_LIST_SET_PTR }, { M_LIST_SORTED | M_LIST_SET_VAL }, { M_LIST_SORTED | M_LIST_STABLE | M_LIST_SET_PTR }, { M_LIST_STACK | M_LIST_SET_VAL }, { M_LIST_STACK | M_LIST_SET_PTR | M_LIST_NEVERSHRINK }, { M_LIST_NEVERSHRINK } };
#define MAXN 24
static int e[MAXN], n; static M_uint32 fl; static int dir; static int xf[NC];
#define K(c) cell[c].key
#define SORTED (fl & M_LIST_SORTED)
#define STABLE (fl & M_LIST_STABLE)
#define STACK (fl & M_LIST_STACK)
#define SET (fl & (M_LIST_SET_VAL | M_LIST_SET_PTR))
static int match(int a, int b, M_uint32 type) { return (type & M_LIST_MATCH_PTR) ? a == b : K(a) == K(b); }
static int setdup(int c) { int i; if (!SET) return 0; for (i = 0; i < n; i++) if ((fl & M_LIST_SET_PTR) ? e[i] == c : K(e[i]) == K(c)) return 1; return 0; }
static void ins_at(int c, int at) { if (at > n) at = n; memmove(e + at + 1, e + at, sizeof(int) * (size_t)(n - at)); e[at] = c; n++; }
static void rm_at(int at) { memmove(e + at, e + at + 1, sizeof(int) * (size_t)(n - at - 1)); n--; }
static int ins(int c, int loose) { int at; if (setdup(c)) return 0; if (SORTED && !loose) { for (at = 0; at < n && (K(e[at]) - K(c)) * dir <= 0; at++) ; } else at = STACK ? 0 : n; ins_at(c, at); return 1; }
static void stable_sort(void) { int i, j; for (i = 1; i < n; i++) { int v = e[i]; for (j = i; j > 0 && (K(e[j - 1]) - K(v)) * dir > 0; j--) e[j] = e[j - 1]; e[j] = v; } }
static int idof(const void *p) { return p == NULL ? -1 : (int)(((const char *)p - (const char *)cell) / (int)sizeof(cell[0])); }
/* model and list must agree; in an unstable sorted list equal elements may come in any order, which is adopted. lax: also which of several equal ones is left */
static void check_all(M_list_t *d, const char *when, int lax)
{
	int i, c, act[MAXN], cnt[NC] = { 0 }, kc[3] = { 0 }; size_t x;
	mc_check(M_list_len(d) == (size_t)n, "%s: length %zu, expected %d", when, M_list_len(d), n);
	for (i = 0; i < n; i++) { act[i] = idof(M_list_at(d, (size_t)i)); mc_check(act[i] >= 0 && act[i] < NC, "%s: element %d is not one that was stored", when, i); }
	mc_check(M_list_at(d, (size_t)n) == NULL, "%s: element past the end", when);
	mc_check(idof(M_list_first(d)) == (n ? act[0] : -1) && idof(M_list_last(d)) == (n ? act[n - 1] : -1), "%s: first/last differ from at", when);
	if ((SORTED && !STABLE) || lax) {
		for (i = 0; i < n; i++) { cnt[act[i]]++; cnt[e[i]]--; kc[K(act[i])]++; kc[K(e[i])]--; if (SORTED && i) mc_check((K(act[i]) - K(act[i - 1])) * dir >= 0, "%s: not sorted at %d", when, i); }
		for (i = 0; i < 3; i++) mc_check(kc[i] == 0, "%s: wrong elements (value %d)", when, i);
		if (!lax) for (i = 0; i < NC; i++) mc_check(cnt[i] == 0, "%s: wrong elements", when);
		else for (i = 0; i < NC; i++) { xf[i] -= cnt[i]; }
		memcpy(e, act, sizeof(int) * (size_t)n);
	}
	else for (i = 0; i < n; i++) mc_check(act[i] == e[i], "%s: element %d of %d is %d, expected %d", when, i, n, act[i], e[i]);
	for (c = 0; c < NC; c++) {
		int v = 0, p = 0; M_bool r;
		for (i = 0; i < n; i++) { v += K(e[i]) == K(c); p += e[i] == c; }
		mc_check(freed[c] == xf[c], "%s: element %d was freed %d times, expected %d", when, c, freed[c], xf[c]);
		mc_check(M_list_count(d, &cell[c], M_LIST_MATCH_VAL) == (size_t)v, "%s: count by value of %d is %zu, expected %d", when, c, M_list_count(d, &cell[c], M_LIST_MATCH_VAL), v);
		mc_check(M_list_count(d, &cell[c], M_LIST_MATCH_PTR) == (size_t)p, "%s: count by pointer of %d is %zu, expected %d", when, c, M_list_count(d, &cell[c], M_LIST_MATCH_PTR), p);
		x = 999; r = M_list_index_of(d, &cell[c], M_LIST_MATCH_VAL, &x); mc_check(r == (v > 0) && (!r || (x < (size_t)n && K(e[x]) == K(c))), "%s: index_of by value of %d: %d at %zu", when, c, r, x);
		if (r && STABLE) { for (i = 0; K(e[i]) != K(c); i++) ; mc_check(x == (size_t)i, "%s: stable index_of gives %zu, first is %d", when, x, i); }
		x = 999; r = M_list_index_of(d, &cell[c], M_LIST_MATCH_PTR, &x); mc_check(r == (p > 0) && (!r || (x < (size_t)n && e[x] == c)), "%s: index_of by pointer of %d: %d at %zu", when, c, r, x);
		x = M_list_insert_idx(d, &cell[c]);
		if (SORTED) { mc_check(x <= (size_t)n && (x == 0 || (K(e[x - 1]) - K(c)) * dir <= 0) && (x == (size_t)n || (K(c) - K(e[x])) * dir <= 0), "%s: insert_idx of %d is %zu", when, c, x); }
		else mc_check(x == (STACK ? 0u : (size_t)n), "%s: insert_idx is %zu", when, x);
	}
}
static int depth;
static int thunked;
static void run_generic(void)
{
	int step, op, i, c, w, lax; M_list_t *d; struct M_list_callbacks cb = { cmp, NULL, NULL, cell_free }; char when[80]; uint64_t h; int maxlen = 0, popped = 0; int cf = mc_choose(HX_N(cfgs)); M_bool r; size_t cnt; const void *p;
	fl = cfgs[cf].f; n = 0; dir = 1; thunked = 0; memset(freed, 0, sizeof(freed)); memset(xf, 0, sizeof(xf));
	d = M_list_create(&cb, fl); mc_check(d != NULL, "create failed");
	if (!SET) { int pre = mc_choose(3) * 3; for (i = 0; i < pre; i++) { c = (i * 3 + 2) % NC; ins(c, 0); M_list_insert(d, &cell[c]); } }
	snprintf(when, sizeof(when), "at start");
	check_all(d, when, 0);
	for (step = 0; step < depth; step++) {
		lax = 0;
		if (n > maxlen) maxlen = n;
		h = mc_h64((uint64_t)cf, (uint64_t)(n * 64 + maxlen + 1000 * (popped % 5))); for (i = 0; i < n; i++) h = mc_h64(h, (uint64_t)e[i]); h = mc_h64(h, (uint64_t)(fl * 4 + thunked * 2 + (dir > 0)));
		mc_state(h); if (!mc_visit(h, depth - step)) break;
		if (n > MAXN - 9) break;
		op = mc_choose(19); mc_step();
		switch (op) {
			case 0: c = mc_choose(NC); r = M_list_insert(d, &cell[c]); snprintf(when, sizeof(when), "insert(%d)", c); mc_check(r == ins(c, 0), "%s: status %d", when, r); break;
			case 1: c = mc_choose(2) * 3; i = mc_choose(5); i = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? n - 1 : i == 3 ? n : n + 5; if (i < 0) i = 0; snprintf(when, sizeof(when), "insert_at(%d,%d) into %d", c, i, n);
				r = M_list_insert_at(d, &cell[c], (size_t)i); if (SORTED || setdup(c)) mc_check(!r, "%s: succeeded", when); else { mc_check(r, "%s: failed", when); ins_at(c, i); } break;
			case 2: c = mc_choose(NC); w = mc_choose(NC); snprintf(when, sizeof(when), "grouped insert of %d,%d", c, w); M_list_insert_begin(d); r = M_list_insert(d, &cell[c]); mc_check(r == ins(c, 1), "%s: status", when); r = M_list_insert(d, &cell[w]); mc_check(r == ins(w, 1), "%s: status", when);
				mc_check(M_list_len(d) == (size_t)n && M_list_index_of(d, &cell[w], M_LIST_MATCH_VAL, NULL), "%s: element not found before insert_end", when); M_list_insert_end(d); if (SORTED) stable_sort(); break;
			case 3: i = mc_choose(3); snprintf(when, sizeof(when), "take %d", i); w = i == 0 ? 0 : i == 1 ? n - 1 : 1; p = i == 0 ? M_list_take_first(d) : i == 1 ? M_list_take_last(d) : M_list_take_at(d, 1); if (w < 0 || w >= n) mc_check(p == NULL, "%s: took something", when); else { mc_check(idof(p) == e[w], "%s: took %d, expected %d", when, idof(p), e[w]); rm_at(w); popped++; } break;
			case 4: i = mc_choose(4); snprintf(when, sizeof(when), "remove %d", i); w = i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? 1 : n; r = i == 0 ? M_list_remove_first(d) : i == 1 ? M_list_remove_last(d) : M_list_remove_at(d, (size_t)w); if (w < 0 || w >= n) mc_check(!r, "%s: removed something", when); else { mc_check(r, "%s: failed", when); xf[e[w]]++; rm_at(w); popped++; } break;
			case 5: case 6: case 7: case 8: { /* remove_val */
				M_uint32 t = (M_uint32)(op - 5); int m = 0; c = mc_choose(NC); snprintf(when, sizeof(when), "remove_val(%d,type %u)", c, t); for (i = 0; i < n; i++) m += match(e[i], c, t);
				cnt = M_list_remove_val(d, &cell[c], t);
				if (m && !(t & M_LIST_MATCH_ALL)) { /* any one of the matching elements */
					int one = -1; m = 1;
					for (i = 0; i < n && one < 0; i++) if (match(e[i], c, t)) { int j, ok = 1; for (j = 0; j < n - 1 && ok; j++) ok = idof(M_list_at(d, (size_t)j)) == e[j < i ? j : j + 1]; if (ok && freed[e[i]] == xf[e[i]] + 1) one = i; }
					if (SORTED && !STABLE) { for (i = 0; i < n; i++) if (match(e[i], c, t)) { one = i; break; } lax = !(t & M_LIST_MATCH_PTR); }
					mc_check(one >= 0, "%s: the list is not the old one without one matching element", when); if (!lax) xf[e[one]]++; else { xf[e[one]]++; } rm_at(one);
				} else for (i = 0; i < n; ) if (match(e[i], c, t)) { xf[e[i]]++; rm_at(i); } else i++;
				mc_check(cnt == (size_t)m, "%s: %zu removed, expected %d", when, cnt, m); break; }
			case 9: { static const int rg[][2] = { { 0, 0 }, { 0, 1 }, { 1, 2 }, { 0, 99 }, { 1, 99 }, { 2, 1 }, { 1, 1 } }; int s, t; i = mc_choose(HX_N(rg)); s = rg[i][0]; t = rg[i][1]; snprintf(when, sizeof(when), "remove_range(%d,%d) of %d", s, t, n);
				r = M_list_remove_range(d, (size_t)s, (size_t)t); if (s > t || s >= n) mc_check(!r, "%s: succeeded", when); else { mc_check(r, "%s: failed", when); if (t >= n) t = n - 1; for (; t >= s; t--) { xf[e[t]]++; rm_at(t); } popped += 2; } break; }
			case 10: { M_uint32 t = (M_uint32)mc_choose(2); int j; snprintf(when, sizeof(when), "remove_duplicates(type %u)", t); M_list_remove_duplicates(d, t); if (SORTED && !STABLE && !t) lax = 1; if (!t && STACK) lax = 1;
				for (i = 0; i < n; i++) for (j = i + 1; j < n; ) if (match(e[i], e[j], t)) { xf[e[j]]++; rm_at(j); } else j++;
				if (STACK && t) lax = 1; break; }
			case 11: case 12: { M_uint32 t = (M_uint32)mc_choose(2) | (op == 12 ? M_LIST_MATCH_ALL : 0); int m = 0, torm; c = mc_choose(NC); w = mc_choose(NC); snprintf(when, sizeof(when), "replace_val(%d,%d,type %u)", c, w, t);
				for (i = 0; i < n; i++) m += match(e[i], c, t); if (match(c, w, t)) m = 0; if (m && op == 11) m = 1; torm = setdup(w);
				if (op == 11 && m) { int k = 0, j = 0; for (i = 0; i < n; i++) if (match(e[i], c, t)) { k++; j = i; } if (k > 1) mc_prune(); (void)j; } /* which of several: not specified */
				if (SET && op == 12 && m > 1) mc_prune(); /* several elements replaced by one value in a pointer set: not specified */
				cnt = M_list_replace_val(d, &cell[c], &cell[w], t); mc_check(cnt == (size_t)m, "%s: %zu replaced, expected %d", when, cnt, m);
				if (m) { if (SORTED || torm) { for (i = 0; i < n; ) if (match(e[i], c, t)) { xf[e[i]]++; rm_at(i); } else i++; if (!torm) for (i = 0; i < m; i++) ins(w, 0); } else for (i = 0; i < n; i++) if (match(e[i], c, t)) { xf[e[i]]++; e[i] = w; } }
				break; }
			case 13: c = mc_choose(NC); i = mc_choose(3); w = i == 0 ? 0 : i == 1 ? n - 1 : 1; snprintf(when, sizeof(when), "replace_at(%d,%d) of %d", c, w, n); { int dup = 0, j; for (j = 0; j < n; j++) if (j != w && SET && ((fl & M_LIST_SET_PTR) ? e[j] == c : K(e[j]) == K(c))) dup = 1;
				r = M_list_replace_at(d, &cell[c], (size_t)w); if (SORTED || w < 0 || w >= n || dup) mc_check(!r, "%s: succeeded", when); else { mc_check(r, "%s: failed", when); xf[e[w]]++; e[w] = c; } } break;
			case 14: { static const int sw[][2] = { { 0, 1 }, { 0, -1 }, { 1, -1 }, { 0, 0 }, { 0, -2 }, { 1, -3 } }; int s, t; i = mc_choose(HX_N(sw)); s = sw[i][0]; t = sw[i][1] == -1 ? n - 1 : sw[i][1] == -2 ? n : sw[i][1] == -3 ? n + 1 : sw[i][1]; if (t < 0) break; snprintf(when, sizeof(when), "swap(%d,%d) of %d", s, t, n);
				r = M_list_swap(d, (size_t)s, (size_t)t); if (SORTED || s == t || s >= n || t >= n) mc_check(!r, "%s: succeeded", when); else { int v = e[s]; mc_check(r, "%s: failed", when); e[s] = e[t]; e[t] = v; } break; }
			case 15: { M_list_t *q = M_list_duplicate(d); snprintf(when, sizeof(when), "duplicate"); mc_check(q != NULL, "duplicate failed"); check_all(q, when, 0); M_list_destroy(d, M_FALSE); d = q; maxlen = n; popped = 0; break; }
			case 16: { /* merge */
				static const int mc_[][4] = { { 0, -1 }, { 1, 2, 0, -1 }, { 3, 3, 1, -1 }, { -1 } }; M_list_t *s; int inc = mc_choose(2); M_uint32 t = (M_uint32)mc_choose(2); int before = n, old[MAXN], srcset = fl; int src[4], sn = 0, j; if (thunked) mc_prune();
				i = mc_choose(HX_N(mc_)); snprintf(when, sizeof(when), "merge(%d, include %d, type %u)", i, inc, t); s = M_list_create(&cb, fl); (void)srcset;
				for (j = 0; mc_[i][j] >= 0; j++) M_list_insert(s, &cell[mc_[i][j]]); sn = (int)M_list_len(s); for (j = 0; j < sn; j++) src[j] = idof(M_list_at(s, (size_t)j));
				memcpy(old, e, sizeof(old)); M_list_merge(&d, s, inc ? M_TRUE : M_FALSE, t);
				if (SET) { inc = 0; t = (fl & M_LIST_SET_PTR) ? M_LIST_MATCH_PTR : M_LIST_MATCH_VAL; }
				/* source elements are appended in their storage order (bottom first for a stack); only duplicates of what dest held are dropped */
				for (j = 0; j < sn; j++) { int sc = src[STACK ? sn - 1 - j : j], k, dup = 0; if (!inc && before) { for (k = 0; k < before; k++) dup |= match(old[k], sc, t); if (!SORTED) for (k = 0; k < n; k++) dup |= match(e[k], sc, t); } if (dup) xf[sc]++; else { if (SORTED) ins_at(sc, n); else ins_at(sc, STACK ? 0 : n); } }
				if (SORTED) { stable_sort(); } maxlen = n; break; }
			case 17: { int k = mc_choose(3); if (STACK) { M_list_change_sorting(d, cmp, M_LIST_SORTED, NULL); snprintf(when, sizeof(when), "change_sorting of a stack"); break; } if (SET) break;
				snprintf(when, sizeof(when), "change_sorting(%d)", k); if (k == 0) { fl &= ~(M_uint32)(M_LIST_SORTED | M_LIST_STABLE); dir = 1; thunked = 0; M_list_change_sorting(d, cmp, 0, NULL); } else { fl |= M_LIST_SORTED | M_LIST_STABLE; dir = k == 1 ? 1 : -1; thunked = 1; needthunk = k - 1; M_list_change_sorting(d, cmpt, M_LIST_SORTED | M_LIST_STABLE, &dirs[k - 1]); stable_sort(); } break; }
			case 18: c = mc_choose(NC); snprintf(when, sizeof(when), "drain and refill with %d", c); while (n > 0) { p = M_list_take_first(d); mc_check(idof(p) == e[0], "%s: took %d, expected %d", when, idof(p), e[0]); rm_at(0); } mc_check(M_list_take_first(d) == NULL && !M_list_remove_last(d), "%s: took from an empty list", when); check_all(d, when, 0); for (i = 0; i < 5; i++) { r = M_list_insert(d, &cell[(c + i) % NC]); mc_check(r == ins((c + i) % NC, 0), "%s: status", when); } break;
		}
		mc_note("%s", when);
		check_all(d, when, lax);
	}
	for (i = 0; i < n; i++) xf[e[i]]++;
	M_list_destroy(d, M_TRUE);
	for (i = 0; i < NC; i++) mc_check(freed[i] == xf[i], "destroy freed element %d %d times, expected %d", i, freed[i], xf[i]);
	mc_outcome(mc_h64((uint64_t)n, fl));
}
/* ---- typed wrappers: same meaning with copies ---- */
#define W(T, ARG, CAST, UN) \
static void *T##_c(M_uint32 f) { return M_list_##T##_create(f); } static void T##_d(void *l) { M_list_##T##_destroy(l); }
static const char *const sdom[] = { "a", "A", "b", "" }; static const M_uint64 udom[] = { 2, 0xFFFFFFFFFFFFFFFFULL, 0, 0x100000000ULL };
static const struct { const char *p; size_t n; } bdom[] = { { "a\0b", 3 }, { "a\0c", 3 }, { "a", 1 }, { "zzzzzzzzzzzzzzzzzzz", 19 } };
static int srank(int v, int cc) { static const int r[] = { 2, 1, 3, 0 }; if (cc && v == 1) return 2; return r[v]; } static int urank(int v) { static const int r[] = { 1, 3, 0, 2 }; return r[v]; }
static int kind, cc, wset, wstack, wsort; /* wsort: 0 none 1 asc 2 desc */
static int weq(int a, int b) { return kind == 0 ? srank(a, cc) == srank(b, cc) : a == b; }
static int wrank(int a) { int r = kind == 0 ? srank(a, cc) : urank(a); return wsort == 2 ? -r : r; }
static void *l;
static M_uint32 wflags(void) { M_uint32 f = 0; if (kind == 0) { f = (wsort == 1 ? M_LIST_STR_SORTASC : wsort == 2 ? M_LIST_STR_SORTDESC : 0) | (wsort ? M_LIST_STR_STABLE : 0) | (cc ? M_LIST_STR_CASECMP : 0) | (wset ? M_LIST_STR_SET : 0) | (wstack ? M_LIST_STR_STACK : 0); } else if (kind == 1) f = (wsort == 1 ? M_LIST_U64_SORTASC : wsort == 2 ? M_LIST_U64_SORTDESC : 0) | (wsort ? M_LIST_U64_STABLE : 0) | (wset ? M_LIST_U64_SET : 0) | (wstack ? M_LIST_U64_STACK : 0); else f = (wset ? M_LIST_BIN_SET : 0) | (wstack ? M_LIST_BIN_STACK : 0); return f; }
static int us(const char *s) { int i; if (s == NULL) return -1; for (i = 0; i < 4; i++) if (!strcmp(s, sdom[i])) return i; return -2; }
static int uu(M_uint64 v) { int i; for (i = 0; i < 4; i++) if (v == udom[i]) return i; return -2; }
static int ub(const M_uint8 *p, size_t m) { int i; if (p == NULL) return -1; for (i = 0; i < 4; i++) if (m == bdom[i].n && !memcmp(p, bdom[i].p, m)) return i; return -2; }
#define B(v) (const M_uint8 *)bdom[v].p, bdom[v].n
static int wat(size_t i) { size_t m = 0; const M_uint8 *p; switch (kind) { case 0: return us(M_list_str_at(l, i)); case 1: return i < M_list_u64_len(l) ? uu(M_list_u64_at(l, i)) : -1; default: p = M_list_bin_at(l, i, &m); return ub(p, m); } }
#define SEL(s, u, b) (kind == 0 ? (s) : kind == 1 ? (u) : (b))
static void wcheck(const char *when)
{
	int i, c; size_t x; M_bool r; size_t len = SEL(M_list_str_len(l), M_list_u64_len(l), M_list_bin_len(l));
	mc_check(len == (size_t)n, "wrapper %d: %s: length %zu, expected %d", kind, when, len, n);
	for (i = 0; i < n; i++) mc_check(wat((size_t)i) == e[i], "wrapper %d: %s: element %d is %d, expected %d", kind, when, i, wat((size_t)i), e[i]);
	if (n) { size_t m1 = 0, m2 = 0; const M_uint8 *b1, *b2; int f, g; if (kind == 2) { b1 = M_list_bin_first(l, &m1); b2 = M_list_bin_last(l, &m2); f = ub(b1, m1); g = ub(b2, m2); } else { f = kind ? uu(M_list_u64_first(l)) : us(M_list_str_first(l)); g = kind ? uu(M_list_u64_last(l)) : us(M_list_str_last(l)); } mc_check(f == e[0] && g == e[n - 1], "wrapper %d: %s: first/last", kind, when); }
	for (c = 0; c < 4; c++) {
		int k = 0; for (i = 0; i < n; i++) k += weq(e[i], c);
		x = SEL(M_list_str_count(l, sdom[c], M_LIST_STR_MATCH_VAL), M_list_u64_count(l, udom[c]), M_list_bin_count(l, B(c))); mc_check(x == (size_t)k, "wrapper %d: %s: count of %d is %zu, expected %d", kind, when, c, x, k);
		x = 99; r = SEL(M_list_str_index_of(l, sdom[c], M_LIST_STR_MATCH_VAL, &x), M_list_u64_index_of(l, udom[c], &x), M_list_bin_index_of(l, B(c), &x)); mc_check(r == (k > 0) && (!r || (x < (size_t)n && weq(e[x], c))), "wrapper %d: %s: index_of %d gives %d at %zu", kind, when, c, r, x);
		{ M_uint64 uv = udom[c]; x = SEL(M_list_str_insert_idx(l, sdom[c]), M_list_u64_insert_idx(l, &uv), M_list_bin_insert_idx(l, B(c))); }
		if (wsort) mc_check(x <= (size_t)n && (x == 0 || wrank(e[x - 1]) <= wrank(c)) && (x == (size_t)n || wrank(c) <= wrank(e[x])), "wrapper %d: %s: insert_idx of %d is %zu", kind, when, c, x); else mc_check(x == (wstack ? 0 : (size_t)n), "wrapper %d: %s: insert_idx is %zu", kind, when, x);
	}
	if (kind == 0) { static const char *const js[] = { "", "a|b", "zz" }; char want[400], *j; (void)js; want[0] = 0; for (i = 0; i < n; i++) { strcat(want, sdom[e[i]]); if (i < n - 1) strcat(want, "|"); } j = M_list_str_join(l, '|'); mc_check(n ? hx_streq(j, want) || (want[0] == 0 && (j == NULL || !*j)) : j == NULL, "wrapper: %s: join gives %s, expected %s", when, mc_escs(j), want); M_free(j); j = M_list_str_join_str(l, "|"); mc_check(n ? hx_streq(j, want) || (want[0] == 0 && (j == NULL || !*j)) : j == NULL, "wrapper: %s: join_str gives %s, expected %s", when, mc_escs(j), want);
		M_free(j); if (n > 1) { want[0] = 0; for (i = 1; i < n; i++) { strcat(want, sdom[e[i]]); if (i < n - 1) strcat(want, "<>"); } j = M_list_str_join_range_str(l, "<>", 1, 99); mc_check(hx_streq(j, want) || (want[0] == 0 && j == NULL), "wrapper: %s: join_range_str gives %s, expected %s", when, mc_escs(j), want); M_free(j); } }
}
static int wins(int c) { int at, i; if (wset) for (i = 0; i < n; i++) if (weq(e[i], c)) return 0; if (wsort) { for (at = 0; at < n && wrank(e[at]) <= wrank(c); at++) ; } else at = wstack ? 0 : n; ins_at(c, at); return 1; }
static void wsortnow(void) { int i, j; for (i = 1; i < n; i++) { int v = e[i]; for (j = i; j > 0 && wrank(e[j - 1]) > wrank(v); j--) e[j] = e[j - 1]; e[j] = v; } }
static void run_wrapper(void)
{
	int step, i, c, w; char when[60]; M_bool r; size_t cnt; uint64_t h;
	kind = mc_choose(3); n = 0; { static const int md[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 1, 0 }, { 0, 1, 1 } }; int m = mc_choose(HX_N(md)); wsort = md[m][0]; wset = md[m][1]; wstack = md[m][2]; } cc = kind == 0 ? mc_choose(2) : 0; if (kind == 2 && wsort) mc_prune();
	l = SEL((void *)M_list_str_create(wflags()), (void *)M_list_u64_create(wflags()), (void *)M_list_bin_create(wflags()));
	for (step = 0; step < depth + 1; step++) {
		h = mc_h64((uint64_t)(kind * 1000 + wsort * 100 + wset * 10 + wstack * 5 + cc), (uint64_t)n); for (i = 0; i < n; i++) h = mc_h64(h, (uint64_t)e[i]); h = mc_h64(h, 4711); mc_state(h); if (!mc_visit(h, depth + 1 - step)) break;
		if (n > MAXN - 6) break;
		mc_step();
		switch (mc_choose(11)) {
			case 0: c = mc_choose(4); snprintf(when, sizeof(when), "insert(%d)", c); r = SEL(M_list_str_insert(l, sdom[c]), M_list_u64_insert(l, udom[c]), M_list_bin_insert(l, B(c))); mc_check(r == wins(c), "wrapper %d: %s status %d", kind, when, r); break;
			case 1: c = mc_choose(4); i = mc_choose(3); snprintf(when, sizeof(when), "insert_at(%d,%d)", c, i); { int dup = 0, j; if (wset) for (j = 0; j < n; j++) dup |= weq(e[j], c); r = SEL(M_list_str_insert_at(l, sdom[c], (size_t)i), M_list_u64_insert_at(l, udom[c], (size_t)i), M_list_bin_insert_at(l, B(c), (size_t)i)); mc_check(r == (!wsort && !dup), "wrapper %d: %s status %d", kind, when, r); if (r) ins_at(c, i); } break;
			case 2: i = mc_choose(3); w = i == 0 ? 0 : i == 1 ? n - 1 : 1; if (w < 0 || w >= n) break; snprintf(when, sizeof(when), "take %d", w); { int g; if (kind == 0) { char *s = i == 0 ? M_list_str_take_first(l) : i == 1 ? M_list_str_take_last(l) : M_list_str_take_at(l, 1); g = us(s); M_free(s); } else if (kind == 1) g = uu(i == 0 ? M_list_u64_take_first(l) : i == 1 ? M_list_u64_take_last(l) : M_list_u64_take_at(l, 1)); else { size_t m = 0; M_uint8 *s = i == 0 ? M_list_bin_take_first(l, &m) : i == 1 ? M_list_bin_take_last(l, &m) : M_list_bin_take_at(l, 1, &m); g = ub(s, m); M_free(s); } mc_check(g == e[w], "wrapper %d: took %d, expected %d", kind, g, e[w]); rm_at(w); } break;
			case 3: i = mc_choose(3); w = i == 0 ? 0 : i == 1 ? n - 1 : 1; snprintf(when, sizeof(when), "remove %d", w); r = i == 0 ? SEL(M_list_str_remove_first(l), M_list_u64_remove_first(l), M_list_bin_remove_first(l)) : i == 1 ? SEL(M_list_str_remove_last(l), M_list_u64_remove_last(l), M_list_bin_remove_last(l)) : SEL(M_list_str_remove_at(l, 1), M_list_u64_remove_at(l, 1), M_list_bin_remove_at(l, 1)); mc_check(r == (w >= 0 && w < n), "wrapper %d: %s status", kind, when); if (r) rm_at(w); break;
			case 4: c = mc_choose(4); { int m = 0; for (i = 0; i < n; ) if (weq(e[i], c)) { rm_at(i); m++; } else i++; snprintf(when, sizeof(when), "remove_val all(%d)", c); cnt = SEL(M_list_str_remove_val(l, sdom[c], M_LIST_STR_MATCH_ALL), M_list_u64_remove_val(l, udom[c], M_LIST_U64_MATCH_ALL), M_list_bin_remove_val(l, B(c), M_LIST_BIN_MATCH_ALL)); mc_check(cnt == (size_t)m, "wrapper %d: %s removed %zu, expected %d", kind, when, cnt, m); } break;
			case 5: snprintf(when, sizeof(when), "remove_range(1,2)"); r = SEL(M_list_str_remove_range(l, 1, 2), M_list_u64_remove_range(l, 1, 2), M_list_bin_remove_range(l, 1, 2)); mc_check(r == (n > 1), "wrapper %d: %s status", kind, when); if (n > 2) rm_at(2); if (n > 1) rm_at(1); break;
			case 6: { int j; if (wstack || cc) break; snprintf(when, sizeof(when), "remove_duplicates"); if (kind == 0) M_list_str_remove_duplicates(l); else if (kind == 1) M_list_u64_remove_duplicates(l); else M_list_bin_remove_duplicates(l); for (i = 0; i < n; i++) for (j = i + 1; j < n; ) if (weq(e[i], e[j])) rm_at(j); else j++; break; }
			case 7: c = mc_choose(4); w = mc_choose(4); if (cc) break; { int m = 0, has = 0; for (i = 0; i < n; i++) { m += weq(e[i], c); has |= weq(e[i], w); } if (weq(c, w)) m = 0; snprintf(when, sizeof(when), "replace_val all(%d,%d)", c, w);
				cnt = SEL(M_list_str_replace_val(l, sdom[c], sdom[w], M_LIST_STR_MATCH_ALL), M_list_u64_replace_val(l, udom[c], udom[w], M_LIST_U64_MATCH_ALL), M_list_bin_replace_val(l, B(c), B(w), M_LIST_BIN_MATCH_ALL)); mc_check(cnt == (size_t)m, "wrapper %d: %s replaced %zu, expected %d", kind, when, cnt, m);
				if (m) { if (wset && has) { for (i = 0; i < n; ) if (weq(e[i], c)) rm_at(i); else i++; } else { for (i = 0; i < n; i++) if (weq(e[i], c)) e[i] = w; if (wsort) wsortnow(); } } } break;
			case 8: c = mc_choose(4); i = 1; if (wset && n > 1) { int j, dup = 0; for (j = 0; j < n; j++) dup |= j != 1 && weq(e[j], c); if (dup) break; } snprintf(when, sizeof(when), "replace_at(%d,1)", c); r = SEL(M_list_str_replace_at(l, sdom[c], 1), M_list_u64_replace_at(l, udom[c], 1), M_list_bin_replace_at(l, B(c), 1)); mc_check(r == (!wsort && n > 1), "wrapper %d: %s status", kind, when); if (r) e[1] = c; r = SEL(M_list_str_swap(l, 0, 1), M_list_u64_swap(l, 0, 1), M_list_bin_swap(l, 0, 1)); mc_check(r == (!wsort && n > 1), "wrapper %d: swap status", kind); if (r) { w = e[0]; e[0] = e[1]; e[1] = w; } break;
			case 9: { void *q = SEL((void *)M_list_str_duplicate(l), (void *)M_list_u64_duplicate(l), (void *)M_list_bin_duplicate(l)); snprintf(when, sizeof(when), "duplicate+destroy"); if (kind == 0) M_list_str_destroy(l); else if (kind == 1) M_list_u64_destroy(l); else M_list_bin_destroy(l); l = q; break; }
			case 10: { int inc = mc_choose(2), j, before = n; void *s = SEL((void *)M_list_str_create(wflags()), (void *)M_list_u64_create(wflags()), (void *)M_list_bin_create(wflags())); static const int v[] = { 1, 2 }; snprintf(when, sizeof(when), "merge inc %d", inc);
				for (j = 0; j < 2; j++) { if (kind == 0) M_list_str_insert(s, sdom[v[j]]); else if (kind == 1) M_list_u64_insert(s, udom[v[j]]); else M_list_bin_insert(s, B(v[j])); }
				if (kind == 0) { M_list_str_t *x = l; M_list_str_merge(&x, s, inc); l = x; } else if (kind == 1) { M_list_u64_t *x = l; M_list_u64_merge(&x, s, inc); l = x; } else { M_list_bin_t *x = l; M_list_bin_merge(&x, s, inc); l = x; }
				for (j = 0; j < 2; j++) { int dup = 0, k; if (before && (!inc || wset)) for (k = 0; k < n; k++) dup |= weq(e[k], v[j]); if (!dup) ins_at(v[j], wstack ? 0 : n); } if (wsort) wsortnow(); break; }
		}
		mc_note("%d: %s", kind, when);
		wcheck(when);
	}
	if (kind == 0) M_list_str_destroy(l); else if (kind == 1) M_list_u64_destroy(l); else M_list_bin_destroy(l);
	mc_outcome(mc_h64((uint64_t)n, (uint64_t)kind));
}
static int which;
void mc_init(void) { mc_leakcheck = 1; depth = (int)mc_param("depth", 3, 4); which = (int)mc_param("which", -1, -1); M_list_destroy(M_list_create(NULL, 0), M_FALSE); }
void mc_run(void) { int s = which >= 0 ? which : mc_choose(2); if (s == 0) run_generic(); else run_wrapper(); }
