// MODE: seq
// MODS: base formats
// INI files: reading, editing, writing and merging against a model of the text.
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_ini";

static int only = -1, P_lines, P_ops, P_vlen;
#define RUN(n) (only < 0 || only == (n))

/* ---- model ---------------------------------------------------------------------------------- */
typedef struct { char name[40], pretty[40]; char sect[40]; char val[6][40]; int null[6]; int nv; int touched; int alt, altnull; char altval[40], altwr[40]; } key_t_;
typedef struct { int type; /*0 blank 1 comment 3 kv*/ char sect[40]; char key[40]; char val[40]; int null; char comment[40]; int hasc; int dead; } el_t;
typedef struct { char name[40], pretty[40], comment[40]; int hasc; } sec_t;
static key_t_ K[24]; static int nK; static el_t E[24]; static int nE; static sec_t S[12]; static int nS;
static int order[40], nO; /* keys (>=0) and sections (<0: -1-idx) in order of appearance */
static int IGN;

static void norm(char *o, const char *s)
{
	for (; *s; s++) {
		if (IGN && strchr(" _-\t", *s)) continue;
		*o++ = (char)(*s >= 'A' && *s <= 'Z' ? *s + 32 : *s);
	}
	*o = 0;
}
static int find_key(const char *full) { for (int i = 0; i < nK; i++) { char t[90]; snprintf(t, sizeof t, "%s%s%s", K[i].sect, *K[i].sect ? "/" : "", K[i].name); if (!strcmp(t, full)) return i; } return -1; }
static int find_sec(const char *n) { for (int i = 0; i < nS; i++) if (!strcmp(S[i].name, n)) return i; return -1; }

/* ---- lines for reading ------------------------------------------------------------------------ */
typedef struct { const char *text; int type; const char *name; const char *val; const char *comment; const char *wr; } line_t;
static const line_t L[] = {
	{"", 0, 0, 0, 0, 0},
	{"#c 1", 1, 0, 0, "c 1", 0},
	{"k=v", 3, "k", "v", 0, "v"},
	{"K = x", 3, "K", "x", 0, "x"},
	{"[s]", 2, "s", 0, 0, 0},
	{"k_1=y", 3, "k_1", "y", 0, "y"},
	{"k 1 = \"q # r\"", 3, "k 1", "q # r", 0, "\"q # r\""},
	{"m", 3, "m", 0, 0, 0},
	{"  m=", 3, "m", "", 0, ""},
	{"k = v # note", 3, "k", "v", "note", "v"},
	{"[S 1] # sc", 2, "S 1", 0, "sc", 0},
	{"[s_1]", 2, "s_1", 0, 0, 0},
	{"a__b=z", 3, "a__b", "z", 0, "z"},
	{"q=\"l1\nl2\"", 3, "q", "l1\nl2", 0, "\"l1\nl2\""},
	{"[bad", 9, 0, 0, 0, 0},
	{"ab=say \"\"hi\"\"", 3, "ab", 0, 0, 0},   /* placeholder, replaced below */
	{"a=\"x\"\"y\"", 3, "a", "x\"y", 0, "\"x\"\"y\""},
	{"m #=d", 3, "m", 0, "=d", 0},
};
#define NL HX_N(L)

static M_ini_settings_t *mk_info(int dup, int multi)
{
	M_ini_settings_t *i = M_ini_settings_create();
	M_ini_settings_set_quote_char(i, '"');
	M_ini_settings_set_escape_char(i, '"');
	M_ini_settings_reader_set_dupkvs_handling(i, (M_ini_dupkvs_t)dup);
	M_ini_settings_writer_set_multivals_handling(i, (M_ini_multivals_t)multi);
	return i;
}

static void norm_comment(char *s) { char *o = s; for (; *s; s++) if (!strchr(" _-\t", *s)) *o++ = *s; *o = 0; }

/* comment lines are compared without blanks, as keys turned into comments are written in their plain form */
static void norm_text(const char *s, char *o)
{
	int col = 1, com = 0, q = 0;
	for (; *s; s++) {
		if (*s == '\r') continue;
		if (*s == '"' && !com) q = !q;
		if (*s == '#' && col) com = 1;
		if (*s == '\n' && !q) { com = 0; col = 1; *o++ = '\n'; continue; }
		if (*s == '\n') { com = 0; *o++ = '\n'; continue; }
		if (com && strchr(" _-\t", *s)) continue;
		col = 0;
		*o++ = com && *s >= 'A' && *s <= 'Z' ? (char)(*s + 32) : *s;
	}
	*o = 0;
}

static void cmp_vals(M_ini_t *ini, const key_t_ *k, const char *pretty, const char *text, const char *what)
{
	size_t n = M_ini_kv_len(ini, pretty);
	mc_check((int)n == k->nv, "%s of '%s': key '%s' has %d values, expected %d", what, mc_escs(text), pretty, (int)n, k->nv);
	for (int i = 0; i < k->nv; i++) {
		const char *v = (const char *)-1;
		M_bool ok = M_ini_kv_get(ini, pretty, (size_t)i, &v);
		mc_check(ok && (k->null[i] ? v == NULL : hx_streq(v, k->val[i])), "%s of '%s': key '%s' value %d is %s, expected %s", what, mc_escs(text), pretty, i, ok ? (v ? mc_escs(v) : "(none)") : "missing", k->null[i] ? "(none)" : mc_escs(k->val[i]));
	}
	mc_check(M_ini_kv_has_key(ini, pretty), "%s of '%s': key '%s' is not there", what, mc_escs(text), pretty);
	M_list_str_t *vl = M_ini_kv_get_vals(ini, pretty);
	mc_check((int)M_list_str_len(vl) == k->nv, "%s of '%s': value list of '%s' has %d entries", what, mc_escs(text), pretty, (int)M_list_str_len(vl));
	M_list_str_destroy(vl);
}
static void pretty_of(const key_t_ *k, char *o) { int s = *k->sect ? find_sec(k->sect) : -1; snprintf(o, 90, "%s%s%s", s >= 0 ? S[s].pretty : "", s >= 0 ? "/" : "", k->pretty); }

static void cmp_model(M_ini_t *ini, const char *text, const char *what, int ordered)
{
	char p[90];
	M_list_str_t *ks = M_ini_kv_keys(ini), *ss = M_ini_kv_sections(ini);
	mc_check((int)M_list_str_len(ks) == nK, "%s of '%s': %d keys, expected %d", what, mc_escs(text), (int)M_list_str_len(ks), nK);
	int n = 0;
	for (int i = 0; i < nO; i++) {
		if (order[i] < 0) continue;
		pretty_of(&K[order[i]], p);
		int found = 0;
		for (size_t j = 0; j < M_list_str_len(ks); j++) if (hx_streq(M_list_str_at(ks, j), p) && (!ordered || (int)j == n)) found = 1;
		mc_check(found, "%s of '%s': key '%s' is not listed%s", what, mc_escs(text), p, ordered ? " at its place" : "");
		n++;
		cmp_vals(ini, &K[order[i]], p, text, what);
	}
	if (ordered) {
		n = 0;
		mc_check((int)M_list_str_len(ss) == nS, "%s of '%s': %d sections, expected %d", what, mc_escs(text), (int)M_list_str_len(ss), nS);
		for (int i = 0; i < nO; i++) if (order[i] < 0) {
			mc_check(hx_streq(M_list_str_at(ss, (size_t)n), S[-1 - order[i]].pretty), "%s of '%s': section %d is '%s'", what, mc_escs(text), n, mc_escs(M_list_str_at(ss, (size_t)n)));
			n++;
		}
	} else for (int i = 0; i < nK; i++) if (*K[i].sect) {
		int s = find_sec(K[i].sect), f = 0;
		for (size_t j = 0; j < M_list_str_len(ss); j++) if (hx_streq(M_list_str_at(ss, j), S[s].pretty)) f = 1;
		mc_check(f, "%s of '%s': section '%s' is not listed", what, mc_escs(text), S[s].pretty);
	}
	M_list_str_destroy(ks); M_list_str_destroy(ss);
}

static void m_read_line(const line_t *l, int dup, char *cur)
{
	char nm[40], full[90];
	switch (l->type) {
		case 0: case 1: {
			el_t *e = &E[nE++]; memset(e, 0, sizeof *e);
			e->type = l->type; strcpy(e->sect, cur); if (l->comment) { strcpy(e->comment, l->comment); e->hasc = 1; }
			break; }
		case 2:
			norm(nm, l->name); strcpy(cur, nm);
			if (find_sec(nm) < 0) {
				sec_t *s = &S[nS]; memset(s, 0, sizeof *s); strcpy(s->name, nm); strcpy(s->pretty, l->name);
				if (l->comment) { strcpy(s->comment, l->comment); s->hasc = 1; }
				order[nO++] = -1 - nS; nS++;
			}
			break;
		case 3: {
			norm(nm, l->name);
			snprintf(full, sizeof full, "%s%s%s", cur, *cur ? "/" : "", nm);
			int k = find_key(full), isdup = k >= 0;
			if (k < 0) {
				k = nK++; memset(&K[k], 0, sizeof K[k]); strcpy(K[k].name, nm); strcpy(K[k].pretty, l->name); strcpy(K[k].sect, cur);
				order[nO++] = k;
			}
			int drop = 0, comment = 0;
			if (isdup && (dup == M_INI_DUPKVS_COMMENT_PREV || dup == M_INI_DUPKVS_REMOVE_PREV)) {
				for (int i = 0; i < nE; i++) if (E[i].type == 3 && !E[i].dead && !strcmp(E[i].sect, cur) && !strcmp(E[i].key, nm)) { if (dup == M_INI_DUPKVS_REMOVE_PREV) E[i].dead = 1; else E[i].type = 4; }
			} else if (isdup && dup == M_INI_DUPKVS_REMOVE) drop = 1;
			else if (isdup && dup == M_INI_DUPKVS_COMMENT) comment = 1;
			if (!drop) {
				el_t *e = &E[nE++]; memset(e, 0, sizeof *e); e->type = comment ? 4 : 3; strcpy(e->sect, cur); strcpy(e->key, nm);
				e->null = !l->val; if (l->val) strcpy(e->val, l->wr); if (l->comment) { e->hasc = 1; strcpy(e->comment, l->comment); }
			}
			if (!isdup || dup != M_INI_DUPKVS_COMMENT && dup != M_INI_DUPKVS_REMOVE) {
				if (dup != M_INI_DUPKVS_COLLECT) K[k].nv = 0;
				K[k].null[K[k].nv] = !l->val; strcpy(K[k].val[K[k].nv], l->val ? l->val : ""); K[k].nv++;
			} else { K[k].alt = 1; K[k].altnull = !l->val; strcpy(K[k].altval, l->val ? l->val : ""); strcpy(K[k].altwr, l->val ? l->wr : ""); }
			break; }
	}
}

static void m_text_el(const el_t *e, char **o)
{
	char full[90], kv[160];
	if (e->dead) return;
	if (e->type == 0) { *o += sprintf(*o, "\n"); return; }
	if (e->type == 1) { *o += sprintf(*o, "#%s\n", e->comment); return; }
	snprintf(full, sizeof full, "%s%s%s", e->sect, *e->sect ? "/" : "", e->key);
	int k = find_key(full);
	snprintf(kv, sizeof kv, "%s%s%s%s%s", e->type == 4 ? e->key : K[k].pretty, e->null ? "" : "=", e->val, e->hasc ? "#" : "", e->comment);
	if (e->type == 3) { *o += sprintf(*o, "%s\n", kv); return; }
	*o += sprintf(*o, "#");
	for (char *p = kv; *p; p++) { *(*o)++ = *p; if (*p == '\n') *(*o)++ = '#'; }
	*(*o)++ = '\n';
	**o = 0;
}

/* Known finding: with "first wins" the last value is used (and test/formats/check_ini.c relies on it). */
static void last_value(M_ini_t *ini)
{
	char p[90];
	for (int k = 0; k < nK; k++) {
		if (!K[k].alt) continue;
		pretty_of(&K[k], p);
		const char *v = M_ini_kv_get_direct(ini, p, 0);
		if (hx_streq(v, K[k].null[0] ? NULL : K[k].val[0]) || !hx_streq(v, K[k].altnull ? NULL : K[k].altval) || !mc_known("dup-first-wins")) continue;
		K[k].null[0] = K[k].altnull; strcpy(K[k].val[0], K[k].altval);
		for (int i = 0; i < nE; i++) if (E[i].type == 3 && !strcmp(E[i].sect, K[k].sect) && !strcmp(E[i].key, K[k].name)) { E[i].null = K[k].altnull; strcpy(E[i].val, K[k].altwr); break; }
	}
}

static void run_read(void)
{
	IGN = mc_choose(2);
	int dup = mc_choose(5), le = mc_choose(2), n = 1 + mc_choose(P_lines);
	char text[400], *t = text, cur[40] = "", want[1200], *w = want, nw[1200], ng[1200];
	int errline = 0, lines = 0;
	nK = nE = nS = nO = 0; *t = 0;
	for (int i = 0; i < n; i++) {
		int l = mc_choose((int)NL); mc_step();
		if (l == 15) continue;
		t += sprintf(t, "%s\n", L[l].text);
		lines += 1 + (strchr(L[l].text, '\n') != NULL);
		if (L[l].type == 9) { if (!errline) errline = lines; continue; }
		if (!errline) m_read_line(&L[l], dup, cur);
	}
	if (!*text) return;
	mc_case();
	M_ini_settings_t *info = mk_info(dup, dup == M_INI_DUPKVS_COLLECT ? M_INI_MULTIVALS_KEEP_EXISTING : M_INI_MULTIVALS_USE_LAST);
	if (le) M_ini_settings_writer_set_line_ending(info, "\r\n");
	size_t el = 0; char *tt = hx_dupz(text);
	mc_note("dup %d, ignore whitespace %d, line ending %d: %s", dup, IGN, le, mc_escs(text));
	M_ini_t *ini = M_ini_read(tt, info, IGN ? M_TRUE : M_FALSE, &el);
	if (errline) {
		mc_check(ini == NULL && (int)el == errline, "text '%s' was %s, error line %d, expected %d", mc_escs(text), ini ? "accepted" : "rejected", (int)el, errline);
	} else {
		mc_check(ini != NULL, "text '%s' was rejected at line %d", mc_escs(text), (int)el);
		if (dup == M_INI_DUPKVS_COMMENT || dup == M_INI_DUPKVS_REMOVE) last_value(ini);
		cmp_model(ini, text, "reading", 1);
		for (int i = 0; i < nE; i++) if (!*E[i].sect) m_text_el(&E[i], &w);
		for (int i = 0; i < nO; i++) if (order[i] < 0) {
			sec_t *s = &S[-1 - order[i]];
			w += sprintf(w, "[%s]%s%s\n", s->pretty, s->hasc ? "#" : "", s->comment);
			for (int j = 0; j < nE; j++) if (!strcmp(E[j].sect, s->name)) m_text_el(&E[j], &w);
		}
		*w = 0;
		for (int r = 0; r < 2; r++) {
			char *out = M_ini_write(ini, info);
			mc_check(out != NULL, "'%s' could not be written", mc_escs(text));
			norm_text(want, nw); norm_text(out, ng);
			mc_check(!strcmp(nw, ng), "'%s' is written%s as '%s', expected '%s'", mc_escs(text), r ? " again" : "", mc_escs(out), mc_escs(want));
			if (le) { size_t nn = 0; for (char *p = out; *p; p++) if (*p == '\r') { nn++; mc_check(p[1] == '\n', "'%s' is written with broken line endings: '%s'", mc_escs(text), mc_escs(out)); } (void)nn; }
			if (*out) {
				M_ini_t *i2 = M_ini_read(out, info, IGN ? M_TRUE : M_FALSE, NULL);
				mc_check(i2 != NULL, "'%s' written as '%s' cannot be read", mc_escs(text), mc_escs(out));
				cmp_model(i2, out, "reading back", 0);
				M_ini_destroy(i2);
			}
			M_free(out);
		}
		M_ini_t *d = M_ini_duplicate(ini);
		M_ini_destroy(ini);
		cmp_model(d, text, "duplicate", 1);
		M_ini_destroy(d);
	}
	free(tt);
	M_ini_settings_destroy(info);
}

/* ---- editing ---------------------------------------------------------------------------------- */
static const char *BASE[] = {
	"k=v\n# c1\nj=w # jc\n\n[s]\n# c2\nk=1\n# c3\n",
	"# top\n[s]\na_b=1\na_b=2\n# mid\nz=3\n\n[T t]\n# tc\nk=9\n",
	"[e]\n# only a comment\n\n[s]\nk=1\nq\n",
	"",
};
static const char *KEYS[] = {"k", "j", "s/k", "S/K", "s/a_b", "s/ab", "t_t/k", "n", "n n/x", "n_n/y", "s/q", "e/x", "s/k/2"};
#define NKEYS HX_N(KEYS)
static struct { const char *a, *b; } REN[] = {{"k", "j"}, {"k", "k2"}, {"s/k", "k"}, {"k", "s/m"}, {"s/", "u/"}, {"s/k", "S/K"}, {"s/k", "n n/x"}, {"s/", "T t/"}, {"s/", "S"}, {"s/a_b", "s/a b"}, {"T t/", "long name/"}, {"s/", "S/"}, {"nokey", "k9"}, {"s/k", "longer/"}, {"e/", "f/"}};

static int m_split(const char *full, char *sec, char *key, char *psec, char *pkey)
{
	const char *s = strchr(full, '/');
	*sec = *psec = 0;
	if (s) { snprintf(psec, 40, "%.*s", (int)(s - full), full); norm(sec, psec); }
	snprintf(pkey, 40, "%s", s ? s + 1 : full); norm(key, pkey);
	return s != NULL;
}
static int m_find(const char *full) { char a[40], b[40], c[40], d[40], f[90]; m_split(full, a, b, c, d); snprintf(f, sizeof f, "%s%s%s", a, *a ? "/" : "", b); return find_key(f); }
static int m_need(const char *full)
{
	char a[40], b[40], c[40], d[40];
	int k = m_find(full);
	if (k >= 0) return k;
	m_split(full, a, b, c, d);
	if (*a && find_sec(a) < 0) { memset(&S[nS], 0, sizeof S[nS]); strcpy(S[nS].name, a); strcpy(S[nS].pretty, c); nS++; }
	k = nK++; memset(&K[k], 0, sizeof K[k]); strcpy(K[k].name, b); strcpy(K[k].pretty, d); strcpy(K[k].sect, a);
	order[nO++] = k; /* order holds the keys 0..nK-1 */
	return k;
}
static char touched[40][90]; static int ntouched; /* "section/key" in normal form whose lines may change */
static void touch(const char *sec, const char *key) { snprintf(touched[ntouched++], 90, "%s/%s", sec, key); }
static void touchk(int k) { touch(K[k].sect, K[k].name); }
static void m_del(int k) { memmove(&K[k], &K[k + 1], sizeof K[0] * (size_t)(nK - k - 1)); nK--; nO = 0; for (int i = 0; i < nK; i++) order[nO++] = i; }

/* lines of a text that belong to nothing that was changed */
static void keep_lines(const char *text, char *o, int base)
{
	char sec[40] = "", ln[200], k[60], kn[40];
	while (*text) {
		const char *e = strchr(text, '\n'); if (!e) e = text + strlen(text);
		snprintf(ln, sizeof ln, "%.*s", (int)(e - text), text);
		text = *e ? e + 1 : e;
		int keep = 1;
		if (ln[0] == '[') {
			char *q = strchr(ln, ']'); snprintf(k, sizeof k, "%.*s", (int)(q - ln - 1), ln + 1); norm(sec, k);
			keep = 0; /* headers are judged by reading back */
		} else if (*ln && *ln != '#') {
			snprintf(k, sizeof k, "%.*s", (int)strcspn(ln, "=#"), ln);
			while (*k && k[strlen(k) - 1] == ' ') k[strlen(k) - 1] = 0;
			norm(kn, k); char f[90]; snprintf(f, sizeof f, "%s/%s", sec, kn);
			for (int i = 0; i < ntouched; i++) if (!strcmp(touched[i], f)) keep = 0;
		}
		/* what is left of a section that lost all its keys, or was renamed, is not judged */
		char f[90]; snprintf(f, sizeof f, "%s/", sec);
		for (int i = 0; i < ntouched; i++) if (!strcmp(touched[i], f)) keep = 0;
		if (keep) { /* blanks around comments do not count */
			for (char *p = ln; *p; p++) if (*p != ' ') *o++ = *p;
			*o++ = '\n';
		}
	}
	(void)base;
	*o = 0;
}

static void run_edit(void)
{
	IGN = mc_choose(2);
	int b = mc_choose((int)HX_N(BASE)), multi = mc_choose(4), dup = M_INI_DUPKVS_COLLECT, wr_between = mc_choose(2), n = 1 + mc_choose(P_ops);
	M_ini_settings_t *info = mk_info(dup, multi);
	M_ini_t *ini = *BASE[b] ? M_ini_read(BASE[b], info, IGN ? M_TRUE : M_FALSE, NULL) : M_ini_create(IGN ? M_TRUE : M_FALSE);
	mc_check(ini != NULL, "base %d was rejected", b);
	nK = nE = nS = nO = ntouched = 0;
	/* model of the base */
	{ char cur[40] = "", ln[100]; const char *t = BASE[b];
	  while (*t) {
		const char *e = strchr(t, '\n'); snprintf(ln, sizeof ln, "%.*s", (int)(e - t), t); t = e + 1;
		if (*ln == '[') { char nm[40]; snprintf(cur, sizeof cur, "%.*s", (int)strcspn(ln + 1, "]"), ln + 1); norm(nm, cur); memset(&S[nS], 0, sizeof S[nS]); strcpy(S[nS].name, nm); strcpy(S[nS].pretty, cur); nS++; }
		else if (*ln && *ln != '#') {
			char f[90], *q = strchr(ln, '='), v[40]; snprintf(f, sizeof f, "%s%s%.*s", cur, *cur ? "/" : "", (int)strcspn(ln, "="), ln);
			snprintf(v, sizeof v, "%.*s", q ? (int)strcspn(q + 1, "#") : 0, q ? q + 1 : ""); while (*v && v[strlen(v) - 1] == ' ') v[strlen(v) - 1] = 0;
			int k = m_need(f); K[k].null[K[k].nv] = !q; strcpy(K[k].val[K[k].nv++], v);
		}
	  } }
	cmp_model(ini, BASE[b], "reading", 0);
	if (multi != M_INI_MULTIVALS_KEEP_EXISTING) for (int k = 0; k < nK; k++) if (K[k].nv > 1) touchk(k);
	char hist[400], *h = hist; *h = 0;
	for (int i = 0; i < n; i++) {
		mc_step();
		int op = mc_choose(7);
		if (op == 6) {
			int r = mc_choose((int)HX_N(REN)); const char *a = REN[r].a, *c = REN[r].b;
			h += sprintf(h, " rename(%s,%s)", a, c);
			M_bool ok = M_ini_kv_rename(ini, a, c), want = M_FALSE;
			int as = a[strlen(a) - 1] == '/', cs = c[strlen(c) - 1] == '/';
			if (as == cs && as) {
				char na[40], nc[40], ta[40], tc[40]; snprintf(ta, 40, "%.*s", (int)strlen(a) - 1, a); snprintf(tc, 40, "%.*s", (int)strlen(c) - 1, c); norm(na, ta); norm(nc, tc);
				int sa = find_sec(na), sc = find_sec(nc);
				if (sa >= 0 && (sc < 0 || !strcmp(na, nc))) {
					want = M_TRUE;
					if (strcmp(na, nc)) { touch(na, ""); touch(nc, ""); }
					for (int k = 0; k < nK; k++) if (!strcmp(K[k].sect, na)) strcpy(K[k].sect, nc);
					strcpy(S[sa].name, nc); strcpy(S[sa].pretty, tc);
				}
			} else if (as == cs) {
				int ka = m_find(a), kc = m_find(c);
				if (ka >= 0 && (kc < 0 || ka == kc)) {
					char s1[40], k1[40], s2[40], k2[40]; m_split(c, s1, k1, s2, k2);
					want = M_TRUE;
					touchk(ka); touch(s1, k1);
					if (kc < 0) { if (*s1 && find_sec(s1) < 0) { memset(&S[nS], 0, sizeof S[nS]); strcpy(S[nS].name, s1); strcpy(S[nS].pretty, s2); nS++; } strcpy(K[ka].sect, s1); strcpy(K[ka].name, k1); }
					strcpy(K[ka].pretty, k2);
				}
			}
			mc_check(ok == want, "base %d after%s: rename returned %d, expected %d", b, hist, ok, want);
		} else {
			const char *k = KEYS[mc_choose((int)NKEYS)]; char v[8] = "X"; v[1] = (char)('0' + i);
			int ki = m_find(k); M_bool ok, want = M_TRUE;
			h += sprintf(h, " %s(%s)", ((const char *[]){"set", "insert", "add_key", "remove", "remove_vals", "remove_val_at"})[op], k);
			switch (op) {
				case 0: ok = M_ini_kv_set(ini, k, v); ki = m_need(k); K[ki].nv = 1; K[ki].null[0] = 0; strcpy(K[ki].val[0], v); break;
				case 1: ok = M_ini_kv_insert(ini, k, v); ki = m_need(k); K[ki].null[K[ki].nv] = 0; strcpy(K[ki].val[K[ki].nv++], v); break;
				case 2: ok = M_ini_kv_add_key(ini, k); ki = m_need(k); break;
				case 3: ok = M_ini_kv_remove(ini, k); want = ki >= 0; break;
				case 4: ok = M_ini_kv_remove_vals(ini, k); if (ki < 0) want = ok; else K[ki].nv = 0; break;
				default: ok = M_ini_kv_remove_val_at(ini, k, 1); want = ki >= 0 && K[ki].nv > 1; if (want) { for (int q = 1; q < K[ki].nv - 1; q++) { K[ki].null[q] = K[ki].null[q + 1]; strcpy(K[ki].val[q], K[ki].val[q + 1]); } K[ki].nv--; } break;
			}
			if (ki >= 0) touchk(ki);
			if (op == 3 && ki >= 0) m_del(ki);
			mc_check(ok == want, "base %d after%s: the operation returned %d, expected %d", b, hist, ok, want);
		}
		mc_note("base %d, ignore whitespace %d, multi %d:%s", b, IGN, multi, hist);
		cmp_model(ini, hist, "edited state", 0);
		if (wr_between && i == 0 && n > 1) { char *x = M_ini_write(ini, info); h += sprintf(h, " write"); M_free(x); cmp_model(ini, hist, "state after writing", 0); }
	}
	mc_case();
	/* sections of the base that have no key any more */
	for (int i = 0; i < nS; i++) { int any = 0, had = 0; for (int k = 0; k < nK; k++) any |= !strcmp(K[k].sect, S[i].name); for (int k = 0; k < ntouched; k++) had |= !strncmp(touched[k], S[i].name, strlen(S[i].name)) && touched[k][strlen(S[i].name)] == '/'; if (!any && had) touch(S[i].name, ""); }
	char bl[600], ol[800];
	for (int r = 0; r < 2; r++) {
		char *out = M_ini_write(ini, info);
		cmp_model(ini, hist, "state after writing", 0);
		mc_check(out != NULL || !nK, "base %d after%s cannot be written", b, hist);
		if (!out) break;
		keep_lines(BASE[b], bl, 1); keep_lines(out, ol, 0);
		/* sections emptied on the way may have lost their comments */
		if (!(wr_between && n > 1)) mc_check(!strcmp(bl, ol), "base %d '%s' after%s is written as '%s': lines that were not touched changed: '%s' became '%s'", b, mc_escs(BASE[b]), hist, mc_escs(out), mc_escs(bl), mc_escs(ol));
		/* read back */
		M_ini_t *i2 = *out ? M_ini_read(out, info, IGN ? M_TRUE : M_FALSE, NULL) : M_ini_create(IGN ? M_TRUE : M_FALSE);
		mc_check(i2 != NULL, "base %d after%s was written as '%s', which is rejected", b, hist, mc_escs(out));
		M_list_str_t *ks = M_ini_kv_keys(i2);
		mc_check((int)M_list_str_len(ks) == nK, "base %d after%s: written as '%s' with %d keys, expected %d", b, hist, mc_escs(out), (int)M_list_str_len(ks), nK);
		M_list_str_destroy(ks);
		for (int k = 0; k < nK; k++) {
			char p[90]; pretty_of(&K[k], p);
			int nv = (int)M_ini_kv_len(i2, p), want = K[k].nv == 0 ? 1 : (multi <= M_INI_MULTIVALS_USE_FIRST ? 1 : K[k].nv);
			mc_check(nv == want, "base %d after%s: key '%s' written with %d values, expected %d: '%s'", b, hist, p, nv, want, mc_escs(out));
			int used[6] = {0};
			for (int q = 0; q < want; q++) {
				const char *v = M_ini_kv_get_direct(i2, p, (size_t)q);
				int ok = 0;
				if (K[k].nv == 0) ok = v == NULL;
				else for (int j = 0; j < K[k].nv && !ok; j++) {
					if (multi == M_INI_MULTIVALS_USE_LAST && j != K[k].nv - 1) continue;
					if (multi == M_INI_MULTIVALS_USE_FIRST && j != 0) continue;
					if (multi == M_INI_MULTIVALS_MAINTAIN_ORDER && j != q) continue;
					if (!used[j] && (K[k].null[j] ? v == NULL : hx_streq(v, K[k].val[j]))) { used[j] = 1; ok = 1; }
				}
				mc_check(ok, "base %d after%s: key '%s' written with value %d '%s': '%s'", b, hist, p, q, v ? v : "(none)", mc_escs(out));
			}
		}
		M_ini_destroy(i2);
		M_free(out);
	}
	M_ini_destroy(ini);
	M_ini_settings_destroy(info);
}

/* ---- values --------------------------------------------------------------------------------- */
static void run_vals(void)
{
	static const char AL[] = "a \"#=\n\\[;\t";
	int conf = mc_choose(3), pad = mc_choose(4), base = mc_choose(2);
	char v[12]; hx_str(v, P_vlen, AL, (int)sizeof AL - 1);
	mc_case(); mc_step();
	M_ini_settings_t *info = M_ini_settings_create();
	M_ini_settings_set_quote_char(info, '"');
	M_ini_settings_set_escape_char(info, conf == 1 ? '\\' : '"');
	if (conf == 2) M_ini_settings_set_comment_char(info, ';');
	M_ini_settings_set_padding(info, pad == 0 ? 0 : pad == 1 ? 15 : pad == 2 ? 3 : 12);
	M_ini_settings_reader_set_dupkvs_handling(info, M_INI_DUPKVS_COLLECT);
	char text[60]; snprintf(text, sizeof text, "k=v%s\nz=end\n", base ? conf == 2 ? " ; note" : " # note" : "");
	M_ini_t *ini = M_ini_read(text, info, M_FALSE, NULL);
	mc_check(ini && M_ini_kv_set(ini, "s/k", v) && M_ini_kv_set(ini, "k", v), "set '%s' failed", mc_escs(v));
	char *out = M_ini_write(ini, info);
	M_ini_t *i2 = M_ini_read(out, info, M_FALSE, NULL);
	mc_check(i2 != NULL, "value '%s' is written as '%s', which is rejected", mc_escs(v), mc_escs(out));
	const char *g = M_ini_kv_get_direct(i2, "k", 0), *g2 = M_ini_kv_get_direct(i2, "s/k", 0), *z = M_ini_kv_get_direct(i2, "z", 0);
	mc_check(hx_streq(g, v) && hx_streq(g2, v), "value '%s' is written as '%s' and read as '%s' and '%s'", mc_escs(v), mc_escs(out), g ? mc_escs(g) : "(none)", g2 ? mc_escs(g2) : "(none)");
	mc_check(hx_streq(z, "end") && M_ini_kv_len(i2, "z") == 1 && M_ini_kv_len(i2, "k") == 1, "value '%s' is written as '%s' and spoils other keys", mc_escs(v), mc_escs(out));
	M_list_str_t *ks = M_ini_kv_keys(i2); mc_check(M_list_str_len(ks) == 3, "value '%s' is written as '%s' with %d keys", mc_escs(v), mc_escs(out), (int)M_list_str_len(ks)); M_list_str_destroy(ks);
	char *o2 = M_ini_write(i2, info);
	mc_check(hx_streq(o2, out), "'%s' read and written again is '%s'", mc_escs(out), mc_escs(o2));
	M_free(o2); M_free(out); M_ini_destroy(ini); M_ini_destroy(i2); M_ini_settings_destroy(info);
}

/* ---- merging -------------------------------------------------------------------------------- */
static const struct { int n; const char *v[3]; } MS[] = {{0}, {1, {"a"}}, {1, {"b"}}, {1, {"c"}}, {1, {NULL}}, {2, {"a", "b"}}, {2, {"b", "c"}}, {3, {"a", "b", "c"}}};
static int res_cur;
static M_bool resolver(const char *key, const char *c, const char *n) { (void)key; (void)c; (void)n; return res_cur ? M_TRUE : M_FALSE; }
static int has(int s, const char *v) { for (int i = 0; i < MS[s].n; i++) if (MS[s].v[i] == v || (v && MS[s].v[i] && !strcmp(MS[s].v[i], v))) return 1; return 0; }

static void run_merge(void)
{
	int st[3], st2[3], sect = mc_choose(2), fl = mc_choose(8), rs = fl == 0 ? mc_choose(3) : 0, wkeys[2][3];
	IGN = 0;
	for (int i = 0; i < 3; i++) st[i] = mc_choose((int)HX_N(MS));
	for (int i = 0; i < 3; i++) st2[i] = mc_choose(3); /* a second key: absent, a, b */
	mc_case(); mc_step();
	static const M_uint32 FL[] = {0, 1, 2, 3, 8, 9, 10, 11};
	int keep_key = (FL[fl] & 1) || rs == 2, use_cur = (FL[fl] & 2) || rs == 2, keep_val = (FL[fl] & 8) || rs == 2;
	M_ini_settings_t *info = mk_info(M_INI_DUPKVS_COLLECT, M_INI_MULTIVALS_KEEP_EXISTING);
	M_ini_settings_merger_set_conflict_flags(info, FL[fl]);
	if (rs) { M_ini_settings_merger_set_resolver(info, resolver); res_cur = rs == 2; }
	M_ini_t *in[3];
	char text[3][200];
	for (int i = 0; i < 3; i++) {
		char *t = text[i];
		t += sprintf(t, "# c%d\n", i);
		if (!sect) for (int j = 0; j < MS[st[i]].n; j++) t += sprintf(t, "k%s%s\n", MS[st[i]].v[j] ? "=" : "", MS[st[i]].v[j] ? MS[st[i]].v[j] : "");
		if (st2[i]) t += sprintf(t, "j=%s\n", st2[i] == 1 ? "a" : "b");
		if (sect) { t += sprintf(t, "[s]\n"); for (int j = 0; j < MS[st[i]].n; j++) t += sprintf(t, "k%s%s\n", MS[st[i]].v[j] ? "=" : "", MS[st[i]].v[j] ? MS[st[i]].v[j] : ""); }
		in[i] = M_ini_read(text[i], info, M_FALSE, NULL);
	}
	mc_note("cur '%s' new '%s' orig '%s' flags %d resolver %d", mc_escs(text[0]), mc_escs(text[1]), mc_escs(text[2]), (int)FL[fl], rs);
	M_ini_t *m = M_ini_merge(in[0], in[1], in[2], info);
	mc_check(m != NULL, "merge failed");
	for (int kk = 0; kk < 2; kk++) {
		const char *key = kk ? "j" : sect ? "s/k" : "k";
		int c = kk ? st2[0] : st[0], w = kk ? st2[1] : st[1], o = kk ? st2[2] : st[2];
		const char *want[8]; int nw = 0, exist = 0, judge = 1;
		if (!MS[c].n && !MS[o].n && MS[w].n) { exist = 1; for (int i = 0; i < MS[w].n; i++) want[nw++] = MS[w].v[i]; }
		else if (MS[c].n && !MS[o].n) { exist = 1; for (int i = 0; i < MS[c].n; i++) want[nw++] = MS[c].v[i]; }
		else if (MS[c].n && MS[o].n && !MS[w].n) { exist = keep_key; if (exist) for (int i = 0; i < MS[c].n; i++) want[nw++] = MS[c].v[i]; }
		else if (MS[c].n && MS[o].n && MS[w].n) {
			exist = 1;
			if (MS[c].n == 1 && MS[w].n == 1) {
				if (MS[o].n > 1) judge = 0; /* one value that may be one of several: not judged */
				else if (has(o, MS[c].v[0]) && !has(w, MS[c].v[0])) want[nw++] = use_cur ? MS[c].v[0] : MS[w].v[0];
				else want[nw++] = MS[c].v[0];
			} else if (has(c, NULL) || has(w, NULL) || has(o, NULL)) judge = 0; /* a key without value among several values: not judged */
			else {
				for (int i = 0; i < MS[c].n; i++) if (has(w, MS[c].v[i]) || !has(o, MS[c].v[i]) || keep_val) want[nw++] = MS[c].v[i];
				for (int i = 0; i < MS[w].n; i++) if (!has(c, MS[w].v[i]) && !has(o, MS[w].v[i])) want[nw++] = MS[w].v[i];
			}
		}
		wkeys[kk][0] = exist;
		if (!judge) continue;
		for (int pass = 0; pass < 3; pass++) {
			M_ini_t *x = m; char *out = NULL;
			if (pass) { out = M_ini_write(m, info); x = out && *out ? M_ini_read(out, info, M_FALSE, NULL) : M_ini_create(M_FALSE); }
			int n = (int)M_ini_kv_len(x, key), wn = nw;
			M_list_str_t *ks = M_ini_kv_keys(x); int listed = 0; for (size_t q = 0; ks && q < M_list_str_len(ks); q++) listed |= hx_streq(M_list_str_at(ks, q), key); M_list_str_destroy(ks);
			mc_check(listed == exist, "merging '%s', '%s', '%s' (flags %d, resolver %d): key '%s' is %s%s", mc_escs(text[0]), mc_escs(text[1]), mc_escs(text[2]), (int)FL[fl], rs, key, listed ? "there" : "missing", pass ? " after writing" : "");
			if (pass && exist && nw == 0) wn = 1; /* written without a value */
			mc_check(n == wn, "merging '%s', '%s', '%s' (flags %d, resolver %d): key '%s' has %d values%s, expected %d", mc_escs(text[0]), mc_escs(text[1]), mc_escs(text[2]), (int)FL[fl], rs, key, n, pass ? " after writing" : "", wn);
			for (int i = 0; i < nw; i++) {
				int f = 0;
				for (int q = 0; q < n; q++) { const char *v = M_ini_kv_get_direct(x, key, (size_t)q); f |= want[i] ? hx_streq(v, want[i]) : v == NULL; }
				mc_check(f, "merging '%s', '%s', '%s' (flags %d, resolver %d): key '%s' lost its value '%s'%s", mc_escs(text[0]), mc_escs(text[1]), mc_escs(text[2]), (int)FL[fl], rs, key, want[i] ? want[i] : "(none)", pass ? " after writing" : "");
			}
			if (pass) { mc_check(strstr(out, "c1\n") && !strstr(out, "c0\n") && !strstr(out, "c2\n"), "merging '%s', '%s', '%s': comments are not those of the new file: '%s'", mc_escs(text[0]), mc_escs(text[1]), mc_escs(text[2]), mc_escs(out)); M_ini_destroy(x); M_free(out); }
		}
	}
	(void)wkeys;
	for (int i = 0; i < 3; i++) M_ini_destroy(in[i]);
	M_ini_destroy(m);
	M_ini_settings_destroy(info);
}

void mc_init(void)
{
	only = mc_param("only", -1, -1);
	P_lines = mc_param("lines", 3, 4);
	P_ops = mc_param("ops", 2, 3);
	P_vlen = mc_param("vlen", 3, 5);
	mc_leakcheck = 1;
}
void mc_run(void)
{
	int m = only >= 0 ? only : mc_choose(4);
	if (m == 0) run_read();
	else if (m == 1) run_edit();
	else if (m == 2) run_vals();
	else run_merge();
}
