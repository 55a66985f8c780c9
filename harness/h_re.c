// MODE: seq
// MODS: base text
// C45: regular expressions against a reference matcher that enumerates every derivation.
//   sub 0  every pattern up to a number of nodes over a small grammar against every subject up to a length: existence and
//          leftmost start, longest end where the pattern is greedy, groups that some derivation gives; equality, find-all,
//          matches and substitution agree with it
//   sub 1  bracket expressions and classes against every character
//   sub 2  every short text as a pattern: compiled or rejected, ends; what is plainly malformed is rejected
//   sub 3  substitution references
//   sub 4  escapes, hex, UTF-8, case
#include "hx.h"
#include <mstdlib/mstdlib_text.h>

const char *mc_name = "h_re";

/* ---- patterns --------------------------------------------------------------------------------------------------- */
enum { LIT, ANY, SET, NSET, BOL, EOL, CAT, ALT, GRP, QUA };
typedef struct nd { int t, c, lo, hi, mini, g; struct nd *l, *r; int g0, g1; } nd_t;
static nd_t NP[64]; static int nN, nG, has_min, has_alt, has_qgrp, has_anch, nq, has_rep, has_opta, has_ganch;
static char PAT[128]; static int uself;
static nd_t *mk(int t) { nd_t *n = &NP[nN++]; memset(n, 0, sizeof *n); n->t = t; return n; }
static const struct { int lo, hi, mini; const char *s; } Q[] = {{0, -1, 0, "*"}, {1, -1, 0, "+"}, {0, 1, 0, "?"}, {2, 2, 0, "{2}"}, {0, -1, 1, "*?"}, {0, 1, 1, "??"}, {1, 2, 0, "{1,2}"}, {2, -1, 0, "{2,}"}, {1, -1, 1, "+?"}, {0, 0, 0, "{0}"}, {0, 2, 1, "{0,2}?"}};
/* where: 0 anywhere, 1 left of a concatenation, 2 left of an alternation */
static nd_t *gen(int size, int where, int nquant, int nleaf)
{
	nd_t *n;
	if (size == 1) {
		switch (mc_choose(nleaf)) {
			case 0: n = mk(LIT); n->c = 'a'; return n;
			case 1: n = mk(LIT); n->c = 'b'; return n;
			case 2: return mk(BOL);
			case 3: return mk(ANY);
			case 4: return mk(EOL);
			case 5: return mk(NSET);
			default: return mk(SET);
		}
	}
	int nop = size >= 3 ? 2 + (where != 1) + (where != 2) : 2, op = mc_choose(nop);
	if (op == 0) { int q = mc_choose(nquant); n = mk(QUA); n->lo = Q[q].lo; n->hi = Q[q].hi; n->mini = Q[q].mini; n->c = q; n->l = gen(size - 1, 0, nquant, nleaf); return n; }
	if (op == 1) { n = mk(GRP); n->l = gen(size - 1, 0, nquant, nleaf); return n; }
	int cat = where == 1 ? 0 : where == 2 ? 1 : op == 2;
	int ls = 1 + mc_choose(size - 2);
	n = mk(cat ? CAT : ALT); n->l = gen(ls, cat ? 1 : 2, nquant, nleaf); n->r = gen(size - 1 - ls, 0, nquant, nleaf);
	return n;
}
static nd_t *wrap(nd_t *n) { nd_t *g = mk(GRP); g->l = n; return g; }
static int nul(nd_t *n) { switch (n->t) { case LIT: case ANY: case SET: case NSET: return 0; case CAT: return nul(n->l) && nul(n->r); case ALT: return nul(n->l) || nul(n->r); case GRP: return nul(n->l); case QUA: return n->lo == 0 || nul(n->l); default: return 1; } }
static int anch(nd_t *n) { return n->t == BOL || n->t == EOL || (n->l && anch(n->l)) || (n->r && anch(n->r)); }
/* insert the groups the notation needs, number groups in order of their opening */
static void fix(nd_t *n)
{
	if (n->t == QUA && (n->l->t == CAT || n->l->t == ALT || n->l->t == QUA || n->l->t == BOL || n->l->t == EOL)) n->l = wrap(n->l);
	if (n->t == CAT) { if (n->l->t == ALT) n->l = wrap(n->l); if (n->r->t == ALT) n->r = wrap(n->r); }
	if (n->t == GRP) n->g = ++nG;
	n->g0 = nG + (n->t == GRP ? 0 : 1);
	if (n->l) fix(n->l);
	if (n->r) fix(n->r);
	n->g1 = nG;
	if (n->t == QUA) { if (n->mini) has_min = 1; nq++; if (n->l->t == GRP) has_qgrp = 1; if (n->c == 3 || n->c >= 6) has_rep = 1; }
	if (n->t == ALT) has_alt = 1;
	if (n->t == GRP && nul(n->l) && anch(n->l)) has_ganch = 1;
	/* empty in more than one way, under different conditions */
	if (((n->t == ALT && nul(n->l) && nul(n->r)) || (n->t == QUA && n->lo != n->hi && (n->lo != 1 || n->hi >= 0) && nul(n->l))) && anch(n)) has_opta = 1;
	if (n->t == BOL || n->t == EOL) has_anch = 1;
}
static void print(nd_t *n, char **o)
{
	switch (n->t) {
		case LIT: *(*o)++ = (char)n->c; break;
		case ANY: *(*o)++ = '.'; break;
		case SET: strcpy(*o, "[b-c]"); *o += 5; break;
		case NSET: strcpy(*o, "[^a]"); *o += 4; break;
		case BOL: *(*o)++ = '^'; break;
		case EOL: *(*o)++ = '$'; break;
		case GRP: *(*o)++ = '('; print(n->l, o); *(*o)++ = ')'; break;
		case CAT: print(n->l, o); print(n->r, o); break;
		case ALT: print(n->l, o); *(*o)++ = '|'; print(n->r, o); break;
		default: print(n->l, o); strcpy(*o, Q[n->c].s); *o += strlen(Q[n->c].s);
	}
	**o = 0;
}
/* ---- reference: all derivations --------------------------------------------------------------------------------- */
#define NGRP 6
typedef struct { signed char pos, so[NGRP], eo[NGRP]; } st_t;
#define NST 600
typedef struct { st_t s[NST]; int n; } set_t;
static const char *S; static int SN; static M_uint32 FL; static int overflow;
static void add(set_t *a, const st_t *x)
{
	for (int i = 0; i < a->n; i++) if (!memcmp(&a->s[i], x, sizeof *x)) return;
	if (a->n >= NST) { overflow = 1; return; }
	a->s[a->n++] = *x;
}
static set_t POOL[160]; static int nPool;
static set_t *newset(void) { if (nPool >= 160) { fprintf(stderr, "pool\n"); _exit(3); } set_t *s = &POOL[nPool++]; s->n = 0; return s; }
static void m(nd_t *n, const set_t *in, set_t *out)
{
	int mark = nPool;
	switch (n->t) {
		case LIT: case ANY: case SET: case NSET:
			for (int i = 0; i < in->n; i++) {
				st_t x = in->s[i]; if (x.pos >= SN) continue;
				int c = S[(int)x.pos], lc = (FL & M_RE_CASECMP) && c >= 'A' && c <= 'Z' ? c + 32 : c;
				int ok = n->t == LIT ? lc == n->c : n->t == ANY ? c != '\n' || (FL & M_RE_DOTALL) : n->t == SET ? lc == 'b' || lc == 'c' : lc != 'a';
				if (ok) { x.pos++; add(out, &x); }
			}
			break;
		case BOL: for (int i = 0; i < in->n; i++) if (in->s[i].pos == 0 || ((FL & M_RE_MULTILINE) && S[in->s[i].pos - 1] == '\n')) add(out, &in->s[i]); break;
		case EOL: for (int i = 0; i < in->n; i++) if (in->s[i].pos == SN || ((FL & M_RE_MULTILINE) && S[(int)in->s[i].pos] == '\n')) add(out, &in->s[i]); break;
		case CAT: { set_t *t = newset(); m(n->l, in, t); m(n->r, t, out); break; }
		case ALT: m(n->l, in, out); m(n->r, in, out); break;
		case GRP:
			/* one state at a time: the start belongs to it */
			for (int i = 0; i < in->n; i++) {
				int mk2 = nPool; set_t *a = newset(), *b = newset(); a->s[0] = in->s[i]; a->n = 1; m(n->l, a, b);
				for (int j = 0; j < b->n; j++) { st_t x = b->s[j]; if (n->g <= NGRP) { x.so[n->g - 1] = in->s[i].pos; x.eo[n->g - 1] = x.pos; } add(out, &x); }
				nPool = mk2;
			}
			break;
		default: {
			set_t *cur = newset(), *nx = newset(), *st = newset(), *all = newset(); *cur = *in;
			if (n->lo == 0) for (int i = 0; i < in->n; i++) add(all, &in->s[i]);
			for (int k = 1; n->hi < 0 || k <= n->hi; k++) {
				/* the groups within may be kept from the iteration before or be unset */
				st->n = 0;
				for (int i = 0; i < cur->n; i++) { add(st, &cur->s[i]); st_t x = cur->s[i]; for (int g = n->g0; g <= n->g1 && g <= NGRP; g++) x.so[g - 1] = x.eo[g - 1] = -1; if (n->g0 <= n->g1) add(st, &x); }
				nx->n = 0; m(n->l, st, nx);
				if (k >= n->lo) { int before = all->n; for (int i = 0; i < nx->n; i++) add(all, &nx->s[i]); if (n->hi < 0 && all->n == before && k > n->lo) break; }
				if (!nx->n) break;
				*cur = *nx;
				if (k > 30) break;
			}
			for (int i = 0; i < all->n; i++) add(out, &all->s[i]);
		}
	}
	nPool = mark;
}
static set_t RES[8];
static void reference(nd_t *root, const char *s, int n)
{
	S = s; SN = n; overflow = 0;
	for (int i = 0; i <= n; i++) { set_t *a; nPool = 0; a = newset(); memset(&a->s[0], -1, sizeof(st_t)); a->s[0].pos = (signed char)i; a->n = 1; RES[i].n = 0; m(root, a, &RES[i]); }
}
static int longest(int i) { int e = -1; for (int k = 0; k < RES[i].n; k++) if (RES[i].s[k].pos > e) e = RES[i].s[k].pos; return e; }
static int shortest(int i) { int e = 99; for (int k = 0; k < RES[i].n; k++) if (RES[i].s[k].pos < e) e = RES[i].s[k].pos; return e; }
static int endok(int i, int e) { for (int k = 0; k < RES[i].n; k++) if (RES[i].s[k].pos == e) return 1; return 0; }

static void judge(nd_t *root, M_re_t *re, const char *s, int n)
{
	char *c = hx_dup(s, (size_t)n + 1);
	int start = -1, greedy = !uself && !has_min, exact1;
	reference(root, s, n);
	for (int i = n; i >= 0; i--) if (RES[i].n) start = i;
	M_re_match_t *mo = NULL;
	mc_check(M_re_search(re, c, NULL) == (start >= 0), "%s on %s: search gives %d", mc_escs(PAT), mc_escs(s), start < 0);
	M_bool f = M_re_search(re, c, &mo);
	mc_check(f == (start >= 0), "%s on %s: search with captures gives %d", mc_escs(PAT), mc_escs(s), (int)f);
	size_t o = 77, l = 77; int end = -1;
	if (f) {
		mc_check(M_re_match_idx(mo, 0, &o, &l), "%s on %s: no span", mc_escs(PAT), mc_escs(s));
		end = (int)(o + l);
		mc_check((int)o == start && endok(start, end), "%s on %s: span %zu+%zu, leftmost match at %d up to %d", mc_escs(PAT), mc_escs(s), o, l, start, longest(start));
		if (greedy || (uself && has_min == 2)) mc_check(end == longest(start), "%s on %s: end %d, longest %d", mc_escs(PAT), mc_escs(s), end, longest(start));
		/* a single repetition that is minimal, no alternatives: shortest */
		exact1 = nq == 1 && !has_alt && (uself ? !has_min : has_min);
		if (exact1) mc_check(end == shortest(start) || (nG > 0 && mc_known("minimal-repetition-and-group")), "%s on %s: end %d, shortest %d", mc_escs(PAT), mc_escs(s), end, shortest(start));
		/* groups: some derivation of this span */
		st_t g; memset(&g, -1, sizeof g); g.pos = (signed char)end;
		for (int k = 1; k <= nG && k <= NGRP; k++) if (M_re_match_idx(mo, (size_t)k, &o, &l)) { g.so[k - 1] = (signed char)o; g.eo[k - 1] = (signed char)(o + l); }
		int ok = overflow, cnt = 0;
		for (int k = 0; k < RES[start].n; k++) if (RES[start].s[k].pos == end) { cnt++; if (!memcmp(&RES[start].s[k], &g, sizeof g)) ok = 1; }
		mc_check(ok || (has_rep && mc_known("groups-of-counted-repetitions")) || (has_ganch && has_alt && mc_known("groups-of-anchors-in-alternatives")), "%s on %s: group 1 %d-%d group 2 %d-%d group 3 %d-%d of span %d-%d come from no derivation", mc_escs(PAT), mc_escs(s), g.so[0], g.eo[0], g.so[1], g.eo[1], g.so[2], g.eo[2], start, end);
		M_list_u64_t *ix = M_re_match_idxs(mo); size_t ni = 1; for (int k = 0; k < nG && k < NGRP; k++) if (g.so[k] >= 0) ni++;
		mc_check(M_list_u64_len(ix) == ni || nG > NGRP, "%s on %s: %zu indexes, expected %zu", mc_escs(PAT), mc_escs(s), M_list_u64_len(ix), ni); M_list_u64_destroy(ix);
		M_re_match_destroy(mo);
	}
	mc_check(M_re_eq_start(re, c) == (RES[0].n > 0), "%s on %s: eq_start %d", mc_escs(PAT), mc_escs(s), RES[0].n == 0);
	mc_check(M_re_eq(re, c) == endok(0, n), "%s on %s: eq %d", mc_escs(PAT), mc_escs(s), !endok(0, n));
	/* all matches: one after the other; after an empty one the search goes on a character later */
	M_list_t *ml = M_re_matches(re, c); M_list_str_t *fa = M_re_find_all(re, c); char *sub = M_re_sub(re, "<\\0>", c);
	size_t k = 0, nm = M_list_len(ml); int pos = 0, last = -1; char xs[80]; size_t xl = 0; int from = 0;
	while (n > 0 && pos <= n) {
		int i = pos; while (i <= n && !RES[i].n) i++;
		if (i > n) break;
		const M_re_match_t *q = k < nm ? M_list_at(ml, k) : NULL;
		o = l = 0;
		M_bool have = q && M_re_match_idx(q, 0, &o, &l);
		/* an empty match where the one before ended may be left out */
		if (i == last && endok(i, i) && longest(i) == i && !(have && (int)o == i && l == 0)) { pos = i + 1; continue; }
		mc_check(have, "%s on %s: %zu matches, none for offset %d", mc_escs(PAT), mc_escs(s), nm, i);
		int e = (int)(o + l);
		mc_check((int)o == i && endok(i, e) && (!greedy || e == longest(i)), "%s on %s: match %zu is %zu+%zu, expected offset %d", mc_escs(PAT), mc_escs(s), k, o, l, i);
		const char *t = M_list_str_at(fa, k);
		mc_check(t && strlen(t) == l && !memcmp(t, c + o, l), "%s on %s: text %zu is %s", mc_escs(PAT), mc_escs(s), k, mc_escs(t));
		xl += (size_t)snprintf(xs + xl, sizeof xs - xl, "%.*s<%.*s>", i - from, c + from, (int)l, c + o);
		from = last = e; k++;
		pos = e > i ? e : i + 1;
	}
	snprintf(xs + xl, sizeof xs - xl, "%s", c + from);
	mc_check(nm == k, "%s on %s: %zu matches, expected %zu", mc_escs(PAT), mc_escs(s), nm, k);
	mc_check(M_list_str_len(fa) == k, "%s on %s: %zu texts, expected %zu", mc_escs(PAT), mc_escs(s), M_list_str_len(fa), k);
	mc_check(hx_streq(sub, xs), "%s on %s: substituted %s, expected %s", mc_escs(PAT), mc_escs(s), mc_escs(sub), mc_escs(xs));
	M_list_destroy(ml, M_TRUE); M_list_str_destroy(fa); M_free(sub); free(c);
}
static void subjects(nd_t *root, M_re_t *re, const char *al, int max)
{
	int k = (int)strlen(al);
	for (int n = 0; n <= max; n++) {
		int idx[8] = {0}; char s[9];
		for (;;) {
			for (int i = 0; i < n; i++) s[i] = al[idx[i]];
			s[n] = 0; judge(root, re, s, n);
			int p = n - 1; while (p >= 0 && ++idx[p] == k) idx[p--] = 0;
			if (p < 0) break;
		}
	}
}
static void run_patterns(void)
{
	nN = nG = has_min = has_alt = has_qgrp = has_anch = nq = has_rep = has_opta = has_ganch = 0; uself = 0;
	int size = 1 + mc_choose(mc_param("size", 5, 6)), fl = 0;
	if (size <= mc_param("flagsize", 3, 4)) fl = mc_choose(5);
	/* the larger the pattern, the fewer kinds of leaves and repetitions */
	nd_t *root = gen(size, 0, size <= 3 ? (int)HX_N(Q) : size == 4 ? 8 : 5, size <= 3 ? 7 : size == 4 ? 5 : 3);
	fix(root); char *o = PAT; print(root, &o);
	static const M_uint32 F[] = {0, M_RE_MULTILINE, M_RE_DOTALL, M_RE_UNGREEDY, M_RE_CASECMP};
	FL = F[fl]; uself = FL == M_RE_UNGREEDY;
	int inl = fl && mc_choose(2); char tmp[140];
	if (inl) { static const char *I[] = {"", "(?m)", "(?s)", "(?U)", "(?-ms-U)"}; if (fl == 4) { FL = 0; } snprintf(tmp, sizeof tmp, "%s%s", I[fl], PAT); strcpy(PAT, tmp); }
	char *c = hx_dupz(PAT); M_re_t *re = M_re_compile(c, inl ? (fl == 4 ? M_RE_DOTALL : 0) : FL); free(c);
	mc_note("%s flags %d", PAT, (int)FL);
	mc_check(re != NULL, "%s rejected", PAT);
	if (has_opta && mc_known("optional-anchors")) { M_re_destroy(re); mc_case(); return; }
	if (inl && fl == 4) FL = 0;
	subjects(root, re, "ab", size <= 4 ? mc_param("len", 4, 5) : 4);
	if (fl == 1 || fl == 2 || inl) subjects(root, re, "a\n", 3);
	if (fl == 4) subjects(root, re, "aAB", 3);
	M_re_destroy(re); mc_case();
}

/* ---- sub 1: brackets ---------------------------------------------------------------------------------------------- */
static int cls(const char *n, int c)
{
	int al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), di = c >= '0' && c <= '9';
	if (!strcmp(n, "alpha")) return al; if (!strcmp(n, "alnum")) return al || di; if (!strcmp(n, "word")) return al || di || c == '_';
	if (!strcmp(n, "space")) return c == ' ' || (c >= 9 && c <= 13); if (!strcmp(n, "digit")) return di; if (!strcmp(n, "cntrl")) return c < 32 || c == 127;
	if (!strcmp(n, "print")) return c >= 32 && c < 127; if (!strcmp(n, "xdigit")) return di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
	if (!strcmp(n, "lower")) return c >= 'a' && c <= 'z'; if (!strcmp(n, "upper")) return c >= 'A' && c <= 'Z'; if (!strcmp(n, "blank")) return c == ' ' || c == '\t';
	if (!strcmp(n, "graph")) return c > 32 && c < 127; return c > 32 && c < 127 && !al && !di;
}
static void run_brackets(void)
{
	static const char *CL[] = {"alpha", "alnum", "word", "space", "digit", "cntrl", "print", "xdigit", "lower", "upper", "blank", "graph", "punct"};
	static const char *IT[] = {"a", "b-y", "B-Y", "0-8", "-", "^", "!-/", "\\", ".", "[", "*-a", "\xc3\xa9", "\xc3\xa0-\xc3\xb0", ":", "$", "|", "A-z"};
	char p[80] = "["; int neg = mc_choose(2), first = mc_choose(3), n = mc_choose(4), it[4];
	/* ] can only be first, - is literal first or last */
	if (neg) strcat(p, "^");
	if (first == 1) strcat(p, "]"); else if (first == 2) strcat(p, "-");
	if (first == 0 && n == 0) mc_prune();
	for (int i = 0; i < n; i++) {
		it[i] = mc_choose(13 + (int)HX_N(IT));
		if (it[i] >= 13 && !strcmp(IT[it[i] - 13], "-") && i + 1 < n) mc_prune();
		if (it[i] >= 13 && !strcmp(IT[it[i] - 13], "^") && !neg && first == 0 && i == 0) mc_prune();
		if (it[i] >= 13 && !strcmp(IT[it[i] - 13], "*-a") && first == 2 && i == 0) mc_prune();
		if (it[i] >= 13 && i && it[i - 1] >= 13 && !strcmp(IT[it[i - 1] - 13], "[") && strchr(":.=", IT[it[i] - 13][0])) mc_prune();
		if (i == 2 && (it[0] < 13 || it[1] < 13) && !mc_param("full", 0, 1)) mc_prune();
		if (it[i] < 13) sprintf(p + strlen(p), "[:%s:]", CL[it[i]]); else strcat(p, IT[it[i] - 13]);
	}
	strcat(p, "]");
	int icase = n <= 2 ? mc_choose(2) : 0;
	char *c = hx_dupz(p); M_re_t *re = M_re_compile(c, icase ? M_RE_CASECMP : 0); free(c);
	mc_note("%s", p); mc_check(re != NULL, "%s rejected", p);
	for (int ch = 1; ch < 0x180; ch++) {
		int in = 0;
		for (int v = 0; v < (icase ? 3 : 1) && !in; v++) {
			int x = ch;
			if (v) { if (x >= 'a' && x <= 'z') x -= 32; else if (x >= 'A' && x <= 'Z') x += 32; else if (x >= 0xe0 && x <= 0xfe && x != 0xf7) x -= 32; else if (x >= 0xc0 && x <= 0xde && x != 0xd7) x += 32; else continue; }
			if (first == 1 && x == ']') in = 1;
			if (first == 2 && x == '-') in = 1;
			for (int i = 0; i < n; i++) {
				if (it[i] < 13) { if (x < 128 && cls(CL[it[i]], x)) in = 1; continue; }
				const char *t = IT[it[i] - 13];
				if (!strcmp(t, "\xc3\xa9")) in |= x == 0xe9;
				else if (!strcmp(t, "\xc3\xa0-\xc3\xb0")) in |= x >= 0xe0 && x <= 0xf0;
				else if (t[1] == '-') in |= x >= t[0] && x <= t[2];
				else in |= x == t[0];
			}
		}
		char s[8]; if (ch < 0x80) { s[0] = (char)ch; s[1] = 0; } else { s[0] = (char)(0xc0 | ch >> 6); s[1] = (char)(0x80 | (ch & 63)); s[2] = 0; }
		if (icase && (ch == 0x131 || ch == 0x130 || ch == 0x17f || ch == 0x178 || ch == 0xff || ch == 0xb5 || ch == 0xdf || ch == 0x12a || ch >= 0x100)) continue;
		mc_check(M_re_eq(re, s) == (in != neg), "%s%s: %s %s", p, icase ? " (any case)" : "", mc_escs(s), in != neg ? "does not match" : "matches");
	}
	M_re_destroy(re); mc_case();
}

/* ---- sub 2: any text ------------------------------------------------------------------------------------------------ */
static void run_texts(void)
{
	static const char *TK[] = {"a", "(", ")", "[", "]", "{", "}", "*", "?", "|", "\\", "^", "$", "1", ",", "-", ".", "(?", "i", ":", "[:alpha:]", "x", "\xc3", "999"};
	char p[80]; int n = hx_toks(p, sizeof p, mc_param("texts", 4, 5), TK, (int)HX_N(TK)); (void)n;
	char *c = hx_dupz(p); mc_note("%s", p);
	M_re_t *re = M_re_compile(c, 0); free(c);
	/* plainly malformed */
	int depth = 0, bad = 0; size_t i = 0, L = strlen(p); int atom = 0;
	for (i = 0; i < L && !bad; i++) {
		if (p[i] == '\\') { if (i + 1 >= L) bad = 1; i++; if (p[i] == 'x') break; atom = 1; continue; }
		if (p[i] == '[') {
			size_t j = i + 1; if (p[j] == '^') j++; if (p[j] == ']') j++;
			while (j < L && p[j] != ']') { if (p[j] == '[' && p[j + 1] == ':') { char *q = strstr(p + j + 2, ":]"); if (q) j = (size_t)(q - p) + 1; } j++; }
			if (j >= L) bad = 1;
			i = j; atom = 1; continue;
		}
		if (p[i] == '(') { depth++; atom = 0; continue; }
		if (p[i] == ')') { if (!depth) { if (!mc_param("paren", 0, 0)) break; } else depth--; atom = 1; continue; }
		if (p[i] == '|') { atom = 0; continue; }
		if (p[i] == '*' && !atom) bad = 1;
		if (p[i] == '{') break;
		if (p[i] != '*' && p[i] != '?') atom = 1;
	}
	if (i >= L && depth) bad = 1;
	if (strstr(p, "-[:")) bad = 0; /* a class as the end of a range: undefined */
	if (strstr(p, "\xc3")) bad = 1;
	if (bad) mc_check(re == NULL, "%s accepted", mc_escs(p));
	if (re) {
		static const char *SU[] = {"", "a", "aa", "1", "a1,-", "(a)", "ab:alph"};
		for (int k = 0; k < 7; k++) {
			char *s = hx_dupz(SU[k]); M_re_match_t *mo = NULL; size_t o = 99, l = 99;
			M_bool f = M_re_search(re, s, &mo);
			mc_check(f == M_re_search(re, s, NULL), "%s on %s: result depends on captures", mc_escs(p), s);
			if (f) { mc_check(M_re_match_idx(mo, 0, &o, &l) && o + l <= strlen(s), "%s on %s: span", mc_escs(p), s); M_re_match_destroy(mo); }
			mc_check(!M_re_eq(re, s) || M_re_eq_start(re, s), "%s on %s: equal but not at the start", mc_escs(p), s);
			char *r = M_re_sub(re, "\\0", s); mc_check(hx_streq(r, s), "%s on %s: replaced by itself gives %s", mc_escs(p), s, mc_escs(r)); M_free(r);
			free(s);
		}
	}
	mc_outcome(re != NULL);
	M_re_destroy(re); mc_case();
}
/* ---- sub 3: replacement ---------------------------------------------------------------------------------------------- */
static void run_repl(void)
{
	static const char *TK[] = {"\\", "1", "0", "2", "g", "<", ">", "x", "3"};
	char r[40]; hx_toks(r, sizeof r, mc_param("repl", 5, 7), TK, (int)HX_N(TK));
	M_re_t *re = M_re_compile("(a)(b)?", 0); char *c = hx_dupz(r);
	static const char *SU[] = {"zab!", "a", "aab"};
	for (int k = 0; k < 3; k++) {
		char *got = M_re_sub(re, c, SU[k]), x[200]; size_t xl = 0;
		for (const char *s = SU[k]; *s;) {
			if (*s != 'a') { x[xl++] = *s++; continue; }
			int b = s[1] == 'b';
			for (const char *q = r; *q;) {
				int ref = -1; const char *e = q;
				if (*q == '\\') {
					if (q[1] >= '0' && q[1] <= '9') { ref = q[1] - '0'; e = q + 2; if (*e >= '0' && *e <= '9') ref = ref * 10 + *e++ - '0'; }
					else if (q[1] == 'g' && q[2] == '<' && q[3] >= '0' && q[3] <= '9') { ref = q[3] - '0'; e = q + 4; if (*e >= '0' && *e <= '9') ref = ref * 10 + *e++ - '0'; if (*e != '>') ref = -1; else e++; }
				}
				if (ref < 0) { x[xl++] = *q++; continue; }
				if (ref == 0) { x[xl++] = 'a'; if (b) x[xl++] = 'b'; } else if (ref == 1) x[xl++] = 'a'; else if (ref == 2 && b) x[xl++] = 'b';
				q = e;
			}
			s += 1 + b;
		}
		x[xl] = 0;
		mc_check(hx_streq(got, x), "%s by %s: %s, expected %s", SU[k], mc_escs(r), mc_escs(got), mc_escs(x)); M_free(got);
	}
	free(c); M_re_destroy(re); mc_case();
}
/* ---- sub 4: escapes --------------------------------------------------------------------------------------------------- */
static void run_escapes(void)
{
	int kind = mc_choose(4); char p[40]; M_re_t *re;
	if (kind == 0) {
		/* \xHH and what follows */
		static const char D[] = "0149afAF@`gG/:"; int a = mc_choose(14), b = mc_choose(15), brace = mc_choose(2);
		if (brace) snprintf(p, sizeof p, "\\x{%c%c}", D[a], b < 14 ? D[b] : 'a'); else if (b < 14) snprintf(p, sizeof p, "\\x%c%c", D[a], D[b]); else snprintf(p, sizeof p, "\\x%c", D[a]);
		int h1 = isxdigit((unsigned char)D[a]), h2 = b < 14 ? isxdigit((unsigned char)D[b]) : brace; long v = strtol((char[]){D[a], b < 14 ? D[b] : 'a', 0}, NULL, 16);
		re = M_re_compile(p, 0); mc_note("%s", p);
		if (brace && !(h1 && h2)) { mc_check(re == NULL, "%s accepted", p); mc_case(); return; }
		char x[10]; int l = 0;
		if (!h1) { M_re_destroy(re); mc_case(); return; }
		if (!h2) { v = strtol((char[]){D[a], 0}, NULL, 16); }
		if (v == 0) { M_re_destroy(re); mc_case(); return; }
		if (v < 0x80) x[l++] = (char)v; else { x[l++] = (char)(0xc0 | v >> 6); x[l++] = (char)(0x80 | (v & 63)); }
		if (!h2 && b < 14) x[l++] = D[b];
		x[l] = 0;
		mc_check(re != NULL, "%s rejected", p);
		mc_check(M_re_eq(re, x), "%s does not match %s", p, mc_escs(x));
		for (int ch = 1; ch < 128; ch++) { char s[2] = {(char)ch, 0}; if (strcmp(s, x)) mc_check(!M_re_eq(re, s), "%s matches %s", p, mc_escs(s)); }
	} else if (kind == 1) {
		static const char *E[] = {"s", "S", "d", "D", "w", "W", "n", "t", "r", "f", "e", "a", ".", "\\", "(", "[", "*", "{", "|", "^", "$", "?", "+", ")", "]", "}"};
		int e = mc_choose((int)HX_N(E)); snprintf(p, sizeof p, "\\%s", E[e]); re = M_re_compile(p, 0); mc_note("%s", p); mc_check(re != NULL, "%s rejected", p);
		for (int ch = 1; ch < 128; ch++) {
			char s[2] = {(char)ch, 0}; int in;
			switch (E[e][0]) { case 's': in = cls("space", ch); break; case 'S': in = !cls("space", ch); break; case 'd': in = cls("digit", ch); break; case 'D': in = !cls("digit", ch); break; case 'w': in = cls("word", ch); break; case 'W': in = !cls("word", ch); break; case 'n': in = ch == '\n'; break; case 't': in = ch == '\t'; break; case 'r': in = ch == '\r'; break; case 'f': in = ch == '\f'; break; case 'e': in = ch == 27; break; case 'a': in = ch == 7; break; default: in = ch == E[e][0]; }
			mc_check(M_re_eq(re, s) == in, "%s on %s", p, mc_escs(s));
		}
	} else if (kind == 2) {
		/* words */
		static const char *W[] = {"\\<a", "a\\>", "\\<a\\>", "\\<", "\\>"}; int w = mc_choose(5); char s[8]; hx_str(s, 5, "a _", 3);
		re = M_re_compile(W[w], 0); mc_note("%s on %s", W[w], s); mc_check(re != NULL, "rejected");
		int n = (int)strlen(s), x = -1, nx = 0;
		for (int i = 0; i <= n; i++) {
			int pw = i && s[i - 1] != ' ', nw = i < n && s[i] != ' ', bow = !pw && nw, eow = pw && !nw, eow1 = i < n && nw && !(i + 1 < n && s[i + 1] != ' '), ok;
			ok = w == 0 ? bow && s[i] == 'a' : w == 1 ? i < n && s[i] == 'a' && eow1 : w == 2 ? bow && s[i] == 'a' && eow1 : w == 3 ? bow : eow;
			if (ok) { if (x < 0) x = i; nx++; }
		}
		size_t o = 0, l = 0; M_re_match_t *mo = NULL; M_bool f = M_re_search(re, s, &mo);
		mc_check(f == (x >= 0), "%s on %s: %d", W[w], mc_escs(s), (int)f);
		if (f) { M_re_match_idx(mo, 0, &o, &l); mc_check((int)o == x, "%s on %s: offset %zu", W[w], mc_escs(s), o); M_re_match_destroy(mo); }
		M_list_t *ml = M_re_matches(re, s); mc_check((int)M_list_len(ml) == nx, "%s on %s: %zu matches, expected %d", W[w], mc_escs(s), M_list_len(ml), nx); M_list_destroy(ml, M_TRUE);
	} else {
		/* UTF-8 subjects: offsets and lengths in bytes */
		static const char *C[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}, *P[] = {"a", "\xc3\xa9+", "[^a]+", ".", ".{2}", "[\xe2\x82\xac-\xf0\x9f\x98\x80]", "(.)a", "$"};
		int pi = mc_choose(8), n = mc_choose(4), ix[3]; char s[20] = ""; int off[4] = {0};
		for (int i = 0; i < n; i++) { ix[i] = mc_choose(4); strcat(s, C[ix[i]]); off[i + 1] = (int)strlen(s); }
		re = M_re_compile(P[pi], 0); mc_note("%s on %s", P[pi], s); mc_check(re != NULL, "rejected");
		int xs = -1, xe = 0;
		for (int i = 0; i <= n && xs < 0; i++) {
			int j = i;
			switch (pi) { case 0: if (i < n && ix[i] == 0) { xs = i; xe = i + 1; } break; case 1: while (j < n && ix[j] == 1) j++; if (j > i) { xs = i; xe = j; } break; case 2: while (j < n && ix[j]) j++; if (j > i) { xs = i; xe = j; } break; case 3: if (i < n) { xs = i; xe = i + 1; } break; case 4: if (i + 1 < n) { xs = i; xe = i + 2; } break; case 5: if (i < n && ix[i] >= 2) { xs = i; xe = i + 1; } break; case 6: if (i + 1 < n && ix[i + 1] == 0) { xs = i; xe = i + 2; } break; default: if (i == n) xs = xe = i; }
		}
		size_t o = 0, l = 0; M_re_match_t *mo = NULL; M_bool f = M_re_search(re, s, &mo); mc_check(f == (xs >= 0), "%s on %s: %d", P[pi], mc_escs(s), (int)f);
		if (f) { M_re_match_idx(mo, 0, &o, &l); mc_check((int)o == off[xs] && (int)(o + l) == off[xe], "%s on %s: span %zu+%zu", P[pi], mc_escs(s), o, l); if (pi == 6) { M_re_match_idx(mo, 1, &o, &l); mc_check((int)o == off[xs] && (int)(o + l) == off[xs + 1], "group"); } M_re_match_destroy(mo); }
		char *r = M_re_sub(re, "\\0", s); mc_check(hx_streq(r, s), "substitution"); M_free(r);
	}
	M_re_destroy(re); mc_case();
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void)
{
	int only = mc_param("only", -1, -1);
	switch (only >= 0 ? only : mc_choose(5)) { case 0: run_patterns(); break; case 1: run_brackets(); break; case 2: run_texts(); break; case 3: run_repl(); break; default: run_escapes(); }
}
