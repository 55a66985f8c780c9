// MODE: seq
// MODS: base formats
// C56: a URL is taken apart into exactly the components RFC 3986 gives it.
//   sub 0  all combinations of present and absent well-formed components
//   sub 1  every text up to a length over the structural characters, alone and behind schemes: what is accepted has the
//          components of RFC 3986 appendix B; what breaks the rules on the left is rejected
//   sub 2  components of lengths around powers of two
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>

const char *mc_name = "h_url";

typedef struct { const char *p; size_t n; int set; } part_t;
typedef struct { part_t sc, ui, ho, po, pa, qu, fr; int v6, bad; } url_t;
static part_t P(const char *a, const char *b) { part_t r = {a, (size_t)(b - a), 1}; return r; }
static int is_al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int is_nu(int c) { return c >= '0' && c <= '9'; }
/* RFC 3986 appendix B; bad: what the RFC does not allow (only rules that concern the characters used here) */
static url_t split(const char *s)
{
	url_t u; memset(&u, 0, sizeof u);
	const char *e = s + strlen(s), *p = s, *q;
	if (!*s) u.bad = 1;
	for (q = s; q < e; q++) if ((unsigned char)*q <= ' ' || *q == 0x7f || strchr("<>\"{}|\\^`", *q)) u.bad = 1;
	q = s + strcspn(s, ":/?#");
	if (*q == ':' && q > s) {
		u.sc = P(s, q); p = q + 1;
		if (!is_al(*s)) u.bad = 1;
		for (const char *c = s; c < q; c++) if (!is_al(*c) && !is_nu(*c) && !strchr("+-.", *c)) u.bad = 1;
	} else if (*q == ':') u.bad = 1;
	/* text beginning with // is an HTTP request path here */
	if (u.sc.set && p[0] == '/' && p[1] == '/') {
		const char *a = p + 2, *ae = a + strcspn(a, "/?#"), *at = memchr(a, '@', (size_t)(ae - a)), *h = a, *c;
		if (at) { u.ui = P(a, at); h = at + 1; if (memchr(h, '@', (size_t)(ae - h))) u.bad = 1; for (c = a; c < at; c++) if (strchr("[]", *c)) u.bad = 1; }
		if (h < ae && *h == '[') {
			const char *b = memchr(h, ']', (size_t)(ae - h));
			if (!b) u.bad = 1; else {
				u.v6 = 1; u.ho = P(h + 1, b); c = b + 1;
				if (c < ae && *c == ':') { u.po = P(c + 1, ae); } else if (c < ae) u.bad = 1;
			}
		} else {
			c = memchr(h, ':', (size_t)(ae - h)); if (!c) c = ae;
			u.ho = P(h, c); if (c < ae) u.po = P(c + 1, ae);
			for (const char *x = h; x < c; x++) if (strchr("[]", *x)) u.bad = 1;
		}
		if (u.po.set) { long v = 0; for (c = u.po.p; c < ae; c++) { if (!is_nu(*c)) { u.bad = 1; break; } v = v * 10 + (*c - '0'); if (v > 65535) { u.bad = 1; break; } } }
		if (!u.ho.n) u.bad = 1;
		p = ae;
	} else if (u.sc.set) u.bad = 1;                                               /* not supported: mailto: and the like */
	else if (*p != '/' && *p != '*') u.bad = 1;                                    /* relative references: only an absolute path */
	q = p + strcspn(p, "?#"); u.pa = P(p, q); p = q;
	if (*p == '?') { q = p + strcspn(p, "#"); u.qu = P(p + 1, q); p = q; }
	if (*p == '#') u.fr = P(p + 1, e);
	return u;
}
static void cmp(const char *name, const char *got, part_t x, const char *url)
{
	int same = x.set && x.n ? got && strlen(got) == x.n && !memcmp(got, x.p, x.n) : got == NULL || !*got;
	mc_check(same, "%.80s: %s is %.60s, expected %s", mc_escs(url), name, mc_escs(got), x.set ? mc_esc(x.p, x.n > 60 ? 60 : x.n) : "none");
}
static void judge(const char *s, M_url_t *r, url_t *u)
{
	cmp("schema", M_url_schema(r), u->sc, s); cmp("userinfo", M_url_userinfo(r), u->ui, s); cmp("host", M_url_host(r), u->ho, s); cmp("port", M_url_port(r), u->po, s);
	cmp("path", M_url_path(r), u->pa, s); cmp("query", M_url_query(r), u->qu, s); cmp("fragment", M_url_fragment(r), u->fr, s);
	int port = 0; if (u->po.set) for (size_t i = 0; i < u->po.n; i++) port = port * 10 + (u->po.p[i] - '0');
	mc_check(M_url_port_u16(r) == port, "%s: port number %d", mc_escs(s), (int)M_url_port_u16(r));
}
static void run_combos(void)
{
	static const char *SC[] = {"", "http://", "ldap://", "HTTPS://", "x://"}, *UI[] = {"", "u@", "u:p@", "u:@", "@", "http:%2f%2fx@", "a.b-c_d~!$&*()+,;=@"}, *HO[] = {"h", "a.b-c", "127.0.0.1", "[2001:db8::7]", "[::1]", "1a", "x--y"},
	    *PO[] = {"", ":80", ":", ":65535", ":0", ":00080"}, *PA[] = {"", "/", "/a/b", "//x:1/@y", "/%41;p=1,2", "/a:b@c!$&'()*+", "/.", "/a//"}, *QU[] = {"", "?", "?a=b&c", "??/:@http://x", "?%20+"}, *FR[] = {"", "#", "#f", "#/?:@", "#a=1"};
	int sc = mc_choose(5), ui = sc ? mc_choose(7) : 0, ho = sc ? mc_choose(7) : 0, po = sc ? mc_choose(6) : 0, pa = mc_choose(8), qu = mc_choose(5), fr = mc_choose(5);
	if (!sc && !pa) mc_prune();
	char t[200]; snprintf(t, sizeof t, "%s%s%s%s%s%s%s", SC[sc], UI[ui], sc ? HO[ho] : "", PO[po], PA[pa], QU[qu], FR[fr]);
	char *c = hx_dupz(t); mc_note("%s", t);
	M_url_t *r = M_url_create(c); mc_check(r != NULL, "rejected");
	url_t u = split(c); mc_check(!u.bad, "harness");
	judge(c, r, &u); free(c); M_url_destroy(r); mc_case();
}
static void run_texts(void)
{
	static const char *PRE[] = {"", "http://", "x://a", "x://[", "/"}; char s[40], t[12];
	int pre = mc_choose(5), max = pre == 0 ? mc_param("len", 6, 7) : mc_param("plen", 5, 6);
	hx_str(t, max, "a:/?#@[]1% ", 11);
	snprintf(s, sizeof s, "%s%s", PRE[pre], t);
	char *c = hx_dupz(s); M_url_t *r = M_url_create(c); mc_note("%s", s);
	url_t u = split(c);
	if (u.bad) mc_check(r == NULL || (u.v6 && 0), "accepted %s: schema %s userinfo %s host %s port %s path %s", mc_escs(c), mc_escs(M_url_schema(r)), mc_escs(M_url_userinfo(r)), mc_escs(M_url_host(r)), mc_escs(M_url_port(r)), mc_escs(M_url_path(r)));
	else if (r && !(u.fr.set && memchr(u.fr.p, '#', u.fr.n))) judge(c, r, &u);       /* a # within the fragment is not RFC 3986 */
	mc_outcome(r != NULL);
	free(c); M_url_destroy(r); mc_case();
}
static void run_long(void)
{
	static const int N[] = {255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131073};
	int which = mc_choose(5), n = N[mc_choose(11)], n2 = mc_choose(2) ? N[mc_choose(11)] : 3;
	char *a = malloc((size_t)n + 1), *b = malloc((size_t)n2 + 1); memset(a, 'a', (size_t)n); a[n] = 0; memset(b, 'b', (size_t)n2); b[n2] = 0;
	char *s = malloc((size_t)n + (size_t)n2 + 50);
	switch (which) {
		case 0: sprintf(s, "http://u:%s@host:8080/p%s?q#f", a, b); break;
		case 1: sprintf(s, "http://%s:8080/p%s?q#f", a, b); break;
		case 2: sprintf(s, "http://h:8080/p%s?q%s#f", a, b); break;
		case 3: sprintf(s, "/p%s?q%s#f", a, b); break;
		default: sprintf(s, "http://h/?q%s#f%s", a, b); break;
	}
	mc_note("form %d lengths %d %d", which, n, n2);
	M_url_t *r = M_url_create(s); url_t u = split(s);
	if (n + n2 < 65000) mc_check(r != NULL, "rejected");
	if (r) judge(s, r, &u);
	M_url_destroy(r); free(s); free(a); free(b); mc_case();
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void)
{
	int only = mc_param("only", -1, -1);
	switch (only >= 0 ? only : mc_choose(3)) { case 0: run_combos(); break; case 1: run_texts(); break; default: run_long(); }
}
