// MODE: seq
// MODS: base
#include "hx.h"
#include <unistd.h>
#include <sys/stat.h>
#include <limits.h>
#include <errno.h>
/* C39: paths. */
const char *mc_name = "h_path";
static char cwd_[PATH_MAX];
/* components; a leading root is its own component "" (POSIX) or "\\\\" (UNC) or "X:" */
typedef struct { char c[40][64]; int n, abs; } comps;
static int issep(char c) { return c == '/' || c == '\\'; }
static void split(const char *p, int win, comps *o)
{
	char nb[400]; size_t i; o->n = 0; o->abs = 0; snprintf(nb, sizeof(nb), "%s", p); if (win) { if (p[0] == '\\' && p[1] == '\\') o->abs = 2; else if (p[0] && p[1] == ':') o->abs = 3; } else if (p[0] == '/') o->abs = 1;
	for (i = 0; nb[i];) { size_t j = i; while (nb[j] && !issep(nb[j])) j++; if (j > i) { memcpy(o->c[o->n], nb + i, j - i); o->c[o->n++][j - i] = 0; } i = nb[j] ? j + 1 : j; }
}
static void norm(comps *o, int keepup) { int i, k = 0, base = o->abs == 3 ? 1 : 0; comps r = *o; k = base; for (i = base; i < o->n; i++) { if (!strcmp(o->c[i], ".")) continue; if (!keepup && !strcmp(o->c[i], "..")) { if (k > base && strcmp(r.c[k - 1], "..")) { k--; continue; } if (o->abs) continue; } memmove(r.c[k++], o->c[i], 64); } r.n = k; *o = r; }
static void text(const comps *o, int win, char *out) { char s[2] = { win ? '\\' : '/', 0 }; int i; *out = 0; if (o->abs == 1) strcat(out, "/"); if (o->abs == 2) strcat(out, "\\\\"); for (i = 0; i < o->n; i++) { if (i) strcat(out, s); strcat(out, o->c[i]); } if (o->abs == 3 && o->n == 1) strcat(out, s); if (!*out) strcpy(out, "."); }
static void same(const char *what, const char *p, const char *got, const char *want) { mc_check(got ? want && !strcmp(got, want) : !want, "%s of '%s' is '%s', expected '%s'", what, p, got ? got : "NULL", want ? want : "NULL"); }
static void gen(char *b, int win, int max)
{
	static const char *const uc[] = { "a", "..", ".", "/", "b.", "~", "...", "c d" }; static const char *const us[] = { "/", "//", "\\" }; int n = 1 + mc_choose(max), i, ab; *b = 0; ab = mc_choose(win ? 4 : 3);
	if (win) strcat(b, ab == 1 ? "C:" : ab == 2 ? "\\\\" : ab == 3 ? "D:\\" : ""); else strcat(b, ab == 1 ? "/" : ab == 2 ? "//" : "");
	for (i = 0; i < n; i++) { if (i || (win && ab == 1)) strcat(b, us[mc_choose(i < 2 ? 3 : i < 3 ? 2 : 1)]); { const char *k = uc[mc_choose(i < 2 ? 8 : 3)]; if (*k != '/') strcat(b, k); else if (i == 0 && *b == 0) mc_prune(); } } if (mc_choose(2)) strcat(b, win ? "\\" : "/"); if (win && ab == 0 && issep(*b)) mc_prune(); if (win && b[0] == '/' ) mc_prune();
}
static M_fs_system_t sysof(int win) { return win ? M_FS_SYSTEM_WINDOWS : mc_choose(2) ? M_FS_SYSTEM_AUTO : M_FS_SYSTEM_UNIX; }
static void run_norm(void)
{
	char p[400], w[600], *o = NULL, *o2 = NULL, *z; comps c; int win = mc_choose(2), fl = mc_choose(4); M_uint32 f = (fl & 1 ? M_FS_PATH_NORM_ABSOLUTE : 0) | (fl & 2 ? M_FS_PATH_NORM_NOPARENT : 0); M_fs_system_t st = sysof(win); M_fs_error_t e; gen(p, win, (int)mc_param("n", 4, 5)); z = hx_dupz(p); mc_case();
	e = M_fs_path_norm(&o, z, f, st); mc_check(e == M_FS_ERROR_SUCCESS && o, "normalising '%s': error %d", p, e); split(p, win, &c);
	if ((fl & 1) && !c.abs) { if (win) { M_free(o); free(z); return; } snprintf(w, sizeof(w), "%s/%s", cwd_, p); split(w, 0, &c); } norm(&c, fl & 2 ? 1 : 0); text(&c, win, w); same("normal form", p, o, w);
	e = M_fs_path_norm(&o2, o, f, st); mc_check(e == M_FS_ERROR_SUCCESS && !strcmp(o2, w), "normalising '%s' again gives '%s'", o, o2 ? o2 : "NULL"); M_free(o); M_free(o2); free(z);
}
static void run_split(void)
{
	char p[400], w[600], *z, *d, *b, *j; comps c, q; int win = mc_choose(2), i; M_fs_system_t st = sysof(win); M_list_str_t *l; size_t off; gen(p, win, (int)mc_param("s", 4, 5)); z = hx_dupz(p); split(p, win, &c); mc_case();
	mc_check(M_fs_path_isabs(z, st) == (c.abs ? M_TRUE : M_FALSE), "'%s' absolute: %d", p, M_fs_path_isabs(z, st)); mc_check(M_fs_path_isunc(z) == (p[0] == '\\' && p[1] == '\\' ? M_TRUE : M_FALSE), "'%s' unc", p);
	l = M_fs_path_componentize_path(z, st); off = c.abs == 1 || c.abs == 2; mc_check(M_list_str_len(l) == (size_t)c.n + off, "'%s' has %zu parts, expected %zu", p, M_list_str_len(l), (size_t)c.n + off); if (off) mc_check(!*M_list_str_at(l, 0), "'%s': first part '%s'", p, M_list_str_at(l, 0)); for (i = 0; i < c.n; i++) same("part", p, M_list_str_at(l, (size_t)i + off), c.c[i]);
	text(&c, win, w); if (M_list_str_len(l)) { j = M_fs_path_join_parts(l, st); same("joined parts", p, j, w); M_free(j); M_list_str_insert_at(l, "", M_list_str_len(l)); if (M_list_str_len(l) > 2) M_list_str_insert_at(l, "", 1); j = M_fs_path_join_parts(l, st); if (win && !off && M_list_str_len(l) < 3) {} else same("joined parts with empty ones", p, j, w); M_free(j); } M_list_str_destroy(l);
	d = M_fs_path_dirname(z, st); b = M_fs_path_basename(z, st); q = c; if (!(c.n == 1 && c.abs == 3) && c.n) { same("base name", p, b, c.c[c.n - 1]); q.n--; if (q.n || q.abs) { text(&q, win, w); same("directory", p, d, w); } else same("directory", p, d, NULL); } else { same("base name", p, b, NULL); if (c.n || c.abs) { text(&c, win, w); same("directory", p, d, w); } }
	if (!win) { M_bool h = M_fs_path_ishidden(z, NULL); mc_check(h == (c.n && c.c[c.n - 1][0] == '.' ? M_TRUE : M_FALSE), "'%s' hidden: %d", p, h); }
	/* directory and base name name the same file again */
	if (b && d) { char *r = M_fs_path_join(d, b, st); split(r, win, &q); mc_check(q.n == c.n && q.abs == c.abs, "'%s' = '%s' + '%s' joins to '%s'", p, d, b, r); for (i = 0; i < c.n; i++) same("rejoined", p, q.c[i], c.c[i]); M_free(r); } M_free(d); M_free(b); free(z);
}
static void run_join(void)
{
	static const char *const k[] = { "", "a", "a/", "/", "/a", "a\\", "\\", "..", "C:", "C:\\", "C:\\x", "\\\\s", "a b/c", "./" }; int win = mc_choose(2), i = mc_choose(15), j = mc_choose(15), r = mc_choose(15); M_fs_system_t st = sysof(win); const char *a = i < 14 ? k[i] : NULL, *b = j < 14 ? k[j] : NULL, *c = r < 14 ? k[r] : NULL; char w[300], *o, sep = win ? '\\' : '/'; comps q; mc_case();
	o = M_fs_path_join(a, b, st); if (b) split(b, win, &q); else q.abs = 0; if (q.abs) snprintf(w, sizeof(w), "%s", b); else { snprintf(w, sizeof(w), "%s", a ? a : ""); if (*w && b && *b && w[strlen(w) - 1] != sep) { char s[2] = { sep, 0 }; strcat(w, s); } if (b) strcat(w, b); } if (*w || o) { if (!*w) mc_check(o == NULL || !*o, "join"); else same("join", a ? a : "NULL", o, w); } M_free(o);
	/* what a link under a directory points to */
	o = M_fs_path_join_resolved(a, b, c, st); if ((!a || !*a) && (!b || !*b) && (!c || !*c)) mc_check(o == NULL, "join_resolved of nothing"); else { split(c ? c : "", win, &q); if (q.abs) same("join_resolved", b ? b : "NULL", o, c); else if (*w && c && *c) { comps t; split(w, win, &t); if (t.n > (t.abs == 3)) { int x; char e[300]; comps g; t.n--; snprintf(e, sizeof(e), "%s", c); split(e, win, &g); for (x = 0; x < g.n; x++) strcpy(t.c[t.n++], g.c[x]); split(o ? o : "", win, &g); mc_check(o && g.n == t.n && g.abs == t.abs, "'%s' linking to '%s' is '%s'", w, c, o ? o : "NULL"); for (x = 0; x < g.n; x++) same("join_resolved", w, g.c[x], t.c[x]); } } } M_free(o);
}
/* environment variables and the home directory */
static void run_env(void)
{
	static const char *const val[] = { "v", "/v/w", "v/../w", "/", "v/w/", "../v", "", NULL }; static const char *const pt[] = { "$MCV", "%MCV%", "$MCV/x", "%MCV%/..", "$MCV/../y", "a/$MCV", "a/%MCV%/../b", "$MCV/$MCV", "/$MCV/z", "~", "~/x", "~/../x", "~/..", "~x", "a/~", "/~", "$MCV/~" };
	int v = mc_choose(8), i = mc_choose((int)HX_N(pt)), fl = mc_choose(4); M_uint32 f = (fl & 1 ? M_FS_PATH_NORM_ABSOLUTE : 0) | (fl & 2 ? M_FS_PATH_NORM_HOME : 0); char full[800], w[800], *z = hx_dupz(pt[i]), *o = NULL; const char *s; comps c; M_fs_error_t e; int hasv = strstr(pt[i], "MCV") != NULL, tilde;
	if (val[v]) setenv("MCV", val[v], 1); else unsetenv("MCV"); setenv("HOME", val[v] && *val[v] == '/' ? val[v] : "/home/q", 1); mc_case(); *full = 0; tilde = (fl & 2) && pt[i][0] == '~' && (!pt[i][1] || pt[i][1] == '/');
	for (s = pt[i]; *s;) { int at = s == pt[i] || s[-1] == '/'; if (at && !strncmp(s, "$MCV", 4)) { strcat(full, val[v] ? val[v] : ""); s += 4; } else if (at && !strncmp(s, "%MCV%", 5)) { strcat(full, val[v] ? val[v] : ""); s += 5; } else if (s == pt[i] && tilde) { strcat(full, getenv("HOME")); s++; } else { size_t k = strlen(full); full[k] = *s++; full[k + 1] = 0; } }
	if (hasv && val[v] && !*val[v]) { free(z); return; } e = M_fs_path_norm(&o, z, f, M_FS_SYSTEM_AUTO); if (hasv && !val[v]) { mc_check(e != M_FS_ERROR_SUCCESS && !o, "'%s' with an unset variable is '%s'", pt[i], o ? o : "NULL"); free(z); return; }
	mc_check(e == M_FS_ERROR_SUCCESS && o, "'%s' with '%s': error %d", pt[i], val[v] ? val[v] : "(unset)", e); split(full, 0, &c); if ((fl & 1) && !c.abs) { snprintf(w, sizeof(w), "%s/%s", cwd_, full); split(w, 0, &c); } norm(&c, 0); text(&c, 0, w); same(val[v] ? val[v] : "(unset)", pt[i], o, w); M_free(o); free(z);
}
/* links: the kernel's resolution is the reference */
static char root_[PATH_MAX]; static int owner;
static void mk(const char *n, const char *to) { char p[PATH_MAX]; snprintf(p, sizeof(p), "%s/%s", root_, n); if (to) { if (symlink(to, p)) abort(); } else if (mkdir(p, 0700)) abort(); }
static const char *const lnk[] = { "d/l1", "d/lp", "d/lz", "d/loop", "d/lone", "d/e/up", "d/e/x", "d/e/labs", "d/lrel", "d/chain", "d/e/dn" };
static void clean(void) { size_t i; char p[PATH_MAX]; static const char *const dirs[] = { "d/e/f", "d/e", "d", "g" }; if ((int)getpid() != owner) return; for (i = 0; i < HX_N(lnk); i++) { snprintf(p, sizeof(p), "%s/%s", root_, lnk[i]); unlink(p); } snprintf(p, sizeof(p), "%s/d/file", root_); unlink(p); for (i = 0; i < HX_N(dirs); i++) { snprintf(p, sizeof(p), "%s/%s", root_, dirs[i]); rmdir(p); } rmdir(root_); }
static void run_link(void)
{
	static const char *const k[] = { "e", "l1", "..", "lp", "up", "x", "labs", "lrel", "chain", ".", "file", "lz", "loop", "f", "d", "dn", "g", "lone" }; char p[600] = "", real[PATH_MAX], *o = NULL, *o2 = NULL, *z; int n = 1 + mc_choose((int)mc_param("ln", 4, 5)), i, ab = mc_choose(2), ok, en; M_fs_error_t e; M_uint32 f = M_FS_PATH_NORM_ABSOLUTE | M_FS_PATH_NORM_FOLLOWSYMLINKS;
	if (ab) { strcpy(p, root_); strcat(p, "/d"); } for (i = 0; i < n; i++) { if (*p) strcat(p, "/"); strcat(p, k[mc_choose(i < 3 ? 18 : i < 4 ? 4 : 3)]); } mc_case();
	ok = realpath(p, real) != NULL; en = errno; z = hx_dupz(p); e = M_fs_path_norm(&o, z, f, M_FS_SYSTEM_AUTO); if (ok) { mc_check(e == M_FS_ERROR_SUCCESS && o, "'%s' is '%s' but gives error %d", p, real, e); same("resolution", p, o, real); e = M_fs_path_norm(&o2, o, f, M_FS_SYSTEM_AUTO); mc_check(e == M_FS_ERROR_SUCCESS && !strcmp(o, o2), "resolving '%s' again", o); }
	else if (en == ELOOP) mc_check(e == M_FS_ERROR_LINK_LOOP && !o, "'%s' is a loop of links, but gives error %d '%s'", p, e, o ? o : "NULL"); else if (e == M_FS_ERROR_SUCCESS) mc_check(o && o[0] == '/', "'%s' resolves to '%s'", p, o ? o : "NULL"); M_free(o); M_free(o2); o = NULL;
	/* the missing target of a link can be asked to be an error */
	e = M_fs_path_norm(&o, z, M_FS_PATH_NORM_ABSOLUTE | M_FS_PATH_NORM_RESALL, M_FS_SYSTEM_AUTO); if (ok) same("resolution", p, o, real); else if (en == ENOENT && !strcmp(k[11], p)) { if (e == M_FS_ERROR_SUCCESS && mc_known("faildne-ignored")) {} else mc_check(e == M_FS_ERROR_DNE, "'%s' links to nothing but gives error %d '%s'", p, e, o ? o : "NULL"); } M_free(o); free(z);
}
static void run_readlink(void) { int i = mc_choose((int)HX_N(lnk) + 3); char p[PATH_MAX], b[PATH_MAX], *o = NULL; ssize_t n; M_fs_error_t e; snprintf(p, sizeof(p), "%s/%s", root_, i < (int)HX_N(lnk) ? lnk[i] : i == (int)HX_N(lnk) ? "d" : i == (int)HX_N(lnk) + 1 ? "d/file" : "nope"); mc_case(); n = readlink(p, b, sizeof(b) - 1); if (n >= 0) b[n] = 0; e = M_fs_path_readlink(&o, p); mc_check(e == M_FS_ERROR_SUCCESS, "readlink '%s': error %d", p, e); same("readlink", p, o, n >= 0 ? b : NULL); M_free(o); }
void mc_init(void)
{
	char p[PATH_MAX]; FILE *f; mc_leakcheck = 1; snprintf(root_, sizeof(root_), "%s/hx_path.XXXXXX", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp"); if (!mkdtemp(root_)) abort(); owner = (int)getpid(); atexit(clean); mk("d", NULL); mk("d/e", NULL); mk("d/e/f", NULL); mk("g", NULL); snprintf(p, sizeof(p), "%s/d/file", root_); f = fopen(p, "w"); fclose(f);
	mk("d/l1", "e"); mk("d/lp", "../g"); mk("d/lz", "nowhere"); mk("d/loop", "loop"); mk("d/lone", "e/dn"); mk("d/e/up", ".."); mk("d/e/x", "../../d/./e//f/"); snprintf(p, sizeof(p), "%s/d", root_); mk("d/e/labs", p); mk("d/lrel", "./e/.."); mk("d/chain", "lrel/l1/x"); mk("d/e/dn", "../lone"); if (chdir(p) || !getcwd(cwd_, sizeof(cwd_))) abort();
}
void mc_run(void)
{
	int only = (int)mc_param("only", -1, -1), m = only >= 0 ? only : mc_choose(6); switch (m) { case 0: run_norm(); break; case 1: run_split(); break; case 2: run_join(); break; case 3: run_env(); break; case 4: run_link(); break; default: run_readlink(); break; }
}
