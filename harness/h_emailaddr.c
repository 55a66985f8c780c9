// MODE: seq
// MODS: base text formats
/* C57: address lists: whatever text is accepted is written in a form that reads as the same recipients; nothing is read outside the text. */
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_emailaddr";
static const char *const toks[] = { "a@x.co", "N", "\"q;r\"", "<b@y.co>", ",", ";", ":", " ", "\"", "<", ">", "\\" };
static int depth;
void mc_init(void) { depth = (int)mc_param("depth", 4, 6); mc_leakcheck = 1; }
static int same(const char *a, const char *b) { if (!a || !*a) return !b || !*b; return b && !strcmp(a, b); }
static int dup_group(const M_email_t *e) { size_t i, j; const char *g, *n, *a, *h; for (i = 0; i < M_email_to_len(e); i++) { M_email_to(e, i, &g, &n, &a); if (!a && g) for (j = 0; j < M_email_to_len(e); j++) if (j != i) { M_email_to(e, j, &h, &n, &a); if (h && M_str_caseeq(h, g)) return 1; } } return 0; }
void mc_run(void)
{
	char t[128]; int n = mc_choose(depth + 1), i; M_email_t *e = M_email_create(), *f; char *out, *out2; size_t k, j; const char *g, *nm, *a, *g2, *nm2, *a2; M_bool ok; char *cp;
	t[0] = 0; for (i = 0; i < n; i++) strcat(t, toks[mc_choose(HX_N(toks))]);
	mc_note("text '%s'", t); cp = hx_dupz(t); ok = M_email_headers_insert(e, "To", cp); free(cp); mc_step();
	if (!strcmp(t, "a@x.co") || !strcmp(t, "a@x.co,a@x.co") || !strcmp(t, "N<b@y.co>") || !strcmp(t, "N:a@x.co;")) mc_check(ok && M_email_to_len(e) == (strlen(t) == 13 ? 2 : 1), "'%s' is not accepted", t);
	if (!ok) mc_check(M_email_to_len(e) == 0, "refused, but %zu recipients", M_email_to_len(e));
	else if (!dup_group(e)) {
		char used[16] = { 0 };
		for (k = 0; k < M_email_to_len(e); k++) { mc_check(M_email_to(e, k, &g, &nm, &a), "recipient %zu", k); mc_check(a != NULL || g != NULL, "recipient %zu without an address", k); mc_check(!a || M_verify_email_address(a), "address '%s'", a); }
		out = M_email_to_field(e);
		f = M_email_create();
		if (out) {
			mc_check(M_email_headers_insert(f, "To", out), "'%s' was accepted, but not when written as '%s'", t, out);
			mc_check(M_email_to_len(f) == M_email_to_len(e), "'%s' has %zu recipients, written as '%s' %zu", t, M_email_to_len(e), out, M_email_to_len(f));
			for (k = 0; k < M_email_to_len(e); k++) { M_email_to(e, k, &g, &nm, &a); for (j = 0; j < M_email_to_len(f); j++) { M_email_to(f, j, &g2, &nm2, &a2); if (!used[j] && same(nm, nm2) && same(a, a2) && (same(g, g2) || (g && g2 && M_str_caseeq(g, g2)))) break; } if (j == M_email_to_len(f)) mc_fail("'%s' written as '%s': '%s' '%s' '%s' is lost", t, out, g, nm, a); used[j] = 1; }
			out2 = M_email_to_field(f); mc_check(same(out, out2), "written as '%s', then as '%s'", out, out2); M_free(out2);
		} else mc_check(M_email_to_len(e) == 0, "'%s' has %zu recipients, written as nothing", t, M_email_to_len(e));
		M_email_destroy(f); mc_outcome(mc_hstr(1, out ? out : "")); M_free(out);
	}
	M_email_destroy(e); mc_case();
}
