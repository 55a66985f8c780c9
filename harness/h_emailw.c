// MODE: seq
// MODS: base text formats
// WRAP: M_rand
/* C57: an email written by the library reads back with the same recipients, headers, parts and attachments. */
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_emailw";
static uint64_t mrnd; uint64_t __wrap_M_rand(void *st) { (void)st; mrnd = mrnd * 6364136223846793005ULL + 1442695040888963407ULL; return mrnd >> 20; }
static const char *const names[] = { NULL, "N", "A B", "a,b", "a;b", "a:b", "a<b>", "a\"b", "a\\b", "a@b.c", "O'Neil", "(x)", "\xc3\xa9", "a;b:\"c\"" };
static const char *const groups[] = { NULL, "G", "g h", "g;h", "g:h", "g,h", "g\"h", "g<h>" };
static const char *const addrs[] = { "a@x.co", "b.c+d@y.co", NULL };
static const char *const texts[] = { "hello", "", "a\r\nb", "\r\n", "x\r\n\r\n", "--\r\n", "--x--", "\xc3\xa9\r\n.\r\n", "\n", "\r" };
static const char *const files[] = { "f.txt", "a b.txt", "a;b.txt", "a=b.txt", NULL, "name=x", "\xc3\xa9.txt", "a,b.txt" };
static const char *const vals[] = { "v", "a b  c", "x: y", "\"q\"; z", "0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 01234567890", "0123456789 \t0123456789 \t0123456789 \t0123456789 \t0123456789 \t0123456789 \t0123456789 \t0123456789 \t012", "=?utf-8?q?x?=", "<a@b>" };
static const char *squeeze(const char *s) { static char b[4][512]; static int w; char *d = b[w++ & 3]; size_t n = 0; if (!s) return ""; for (; *s && n < 500; s++) { if (*s == ' ' || *s == '\t') { if (n && d[n - 1] != ' ') d[n++] = ' '; } else d[n++] = *s; } d[n] = 0; return d; }
static int same(const char *a, const char *b) { if (!a || !*a) return !b || !*b; return b && !strcmp(a, b); }
typedef struct { const char *g, *n, *a; } rc_t;
static M_bool recp_in(const M_email_t *e, int k, size_t i, rc_t *r) { r->g = r->n = r->a = NULL; return k == 0 ? M_email_to(e, i, &r->g, &r->n, &r->a) : k == 1 ? M_email_cc(e, i, &r->g, &r->n, &r->a) : M_email_bcc(e, i, &r->g, &r->n, &r->a); }
static size_t recp_len(const M_email_t *e, int k) { return k == 0 ? M_email_to_len(e) : k == 1 ? M_email_cc_len(e) : M_email_bcc_len(e); }
static void recp_cmp(const M_email_t *a, const M_email_t *b, int k)
{
	size_t i, j, n = recp_len(a, k); char used[8] = { 0 }; rc_t x, y; static const char *const w[] = { "To", "CC", "BCC" };
	mc_check(recp_len(b, k) == n, "%s: %zu recipients written, %zu read", w[k], n, recp_len(b, k));
	for (i = 0; i < n; i++) { recp_in(a, k, i, &x); for (j = 0; j < n; j++) { recp_in(b, k, j, &y); if (!used[j] && same(x.g, y.g) && same(x.n, y.n) && same(x.a, y.a)) break; }
		if (j == n) { recp_in(b, k, i, &y); mc_fail("%s: recipient '%s' '%s' '%s' is not read back (there is '%s' '%s' '%s')", w[k], x.g, x.n, x.a, y.g, y.n, y.a); } used[j] = 1; }
}
static void pick(rc_t *r) { r->g = groups[mc_choose_cost(HX_N(groups))]; r->n = names[mc_choose_cost(HX_N(names))]; r->a = addrs[mc_choose_cost(HX_N(addrs))]; if (!r->a && (!r->g || r->n)) mc_prune(); }
void mc_init(void) { mc_set_budget((int)mc_param("budget", 3, 4)); mc_leakcheck = 1; }
void mc_run(void)
{
	M_email_t *e = M_email_create(), *b = NULL; M_buf_t *buf; rc_t r, s, rs[4]; int i, n, k, kind; M_email_error_t er; const char *cp; char *out, *pre = NULL, *epi = NULL, *subj = NULL; size_t l, len = 0; const char *ct, *te, *fn, *ct2, *te2, *fn2; int att;
	mrnd = 99; att = 0;
	pick(&r); M_email_set_from(e, r.g, r.n, r.a);
	if (mc_choose_cost(2)) { pick(&r); M_email_set_reply_to(e, r.g, r.n, r.a); }
	n = mc_choose_cost(4); k = mc_choose_cost(3);
	for (i = 0; i < n; i++) { pick(&r); rs[i] = r; for (int j = 0; j < i; j++) if ((!rs[j].a || !r.a) && rs[j].g && r.g && !strcmp(rs[j].g, r.g)) mc_prune(); /* "empty group" next to its members */ if (k == 0) M_email_to_append(e, r.g, r.n, r.a); else if (k == 1) M_email_cc_append(e, r.g, r.n, r.a); else M_email_bcc_append(e, r.g, r.n, r.a); }
	k = mc_choose_cost(HX_N(vals) + 1); if (k) M_email_headers_insert(e, "X-H", vals[k - 1]);
	k = mc_choose_cost(HX_N(vals) + 1); if (k) { subj = (char *)vals[k - 1]; M_email_set_subject(e, subj); }
	k = mc_choose_cost(4); if (k) { pre = (char *)(k == 1 ? "pre" : k == 2 ? "p\r\nq" : "-"); M_email_set_preamble(e, pre, strlen(pre)); }
	k = mc_choose_cost(4); if (k) { epi = (char *)(k == 1 ? "epi" : k == 2 ? "e\r\nq\r\n" : "\r\n"); M_email_set_epilouge(e, epi, strlen(epi)); }
	n = mc_choose_cost(4); n = n == 0 ? 1 : n == 1 ? 2 : n == 2 ? 3 : 0; /* parts */
	kind = n ? mc_choose_cost(2) : 0; /* a container first */
	for (i = 0; i < n; i++) {
		size_t idx = 99; M_hash_dict_t *h = NULL; int t, isatt = i || !kind ? mc_choose_cost(2) : 0, hd = mc_choose_cost(3); M_bool ok;
		t = mc_choose_cost(HX_N(texts));
		if (hd || (!i && kind)) { h = M_hash_dict_create(8, 75, M_HASH_DICT_CASECMP | M_HASH_DICT_KEYS_ORDERED | M_HASH_DICT_MULTI_VALUE); if (!i && kind) M_hash_dict_insert(h, "Content-Type", "multipart/alternative; boundary=\"old\""); else if (!isatt) M_hash_dict_insert(h, "Content-Type", "text/html; charset=utf-8"); if (hd == 2) M_hash_dict_insert(h, "X-P", "v w"); }
		if (isatt) { int f = mc_choose_cost(HX_N(files)), c = mc_choose_cost(3); ok = M_email_part_append_attachment(e, texts[t], strlen(texts[t]), h, c == 0 ? "text/x" : c == 1 ? "a/b; charset=x" : NULL, mc_choose_cost(2) ? "base64" : NULL, files[f], &idx); att = 1; }
		else ok = M_email_part_append(e, texts[t], strlen(texts[t]), h, &idx);
		mc_check(ok && idx == (size_t)i, "adding part %d: %d, %zu", i, ok, idx); M_hash_dict_destroy(h);
		mc_check(M_email_part_is_attachmenet(e, idx) == (isatt ? M_TRUE : M_FALSE), "is an attachment");
	}
	if (kind) M_email_set_mixed_multipart(e, M_TRUE);
	out = M_email_simple_write(e); mc_check(out != NULL, "not written"); mc_note("written: %s", mc_escs(out));
	l = strlen(out); cp = hx_dup(out, l);
	er = M_email_simple_read(&b, cp, l, M_EMAIL_SIMPLE_READ_NONE, &len);
	mc_check(er == M_EMAIL_ERROR_SUCCESS && b && len == l, "reading it again: %d, %zu of %zu bytes", er, len, l); free((void *)cp);
	r.g = r.n = r.a = s.g = s.n = s.a = NULL;
	M_email_from(e, &r.g, &r.n, &r.a); M_email_from(b, &s.g, &s.n, &s.a); mc_check(same(r.g, s.g) && same(r.n, s.n) && same(r.a, s.a), "From '%s' '%s' '%s' reads as '%s' '%s' '%s'", r.g, r.n, r.a, s.g, s.n, s.a);
	r.g = r.n = r.a = s.g = s.n = s.a = NULL;
	M_email_reply_to(e, &r.g, &r.n, &r.a); M_email_reply_to(b, &s.g, &s.n, &s.a); mc_check(same(r.g, s.g) && same(r.n, s.n) && same(r.a, s.a), "Reply-To '%s' '%s' '%s' reads as '%s' '%s' '%s'", r.g, r.n, r.a, s.g, s.n, s.a);
	for (i = 0; i < 3; i++) recp_cmp(e, b, i);
	{ const char *x = NULL, *y = NULL; M_hash_dict_get(M_email_headers(e), "X-H", &x); M_hash_dict_get(M_email_headers(b), "X-H", &y); mc_check(!strcmp(squeeze(x), squeeze(y)), "header '%s' reads as '%s'", x, y); }
	mc_check(!strcmp(squeeze(subj), squeeze(M_email_subject(b))), "subject '%s' reads as '%s'", subj, M_email_subject(b));
	mc_check(same(pre, M_email_preamble(b)), "preamble '%s' reads as '%s'", pre, M_email_preamble(b)); mc_check(same(epi, M_email_epilouge(b)), "epilogue '%s' reads as '%s'", epi ? mc_escs(epi) : "", M_email_epilouge(b));
	{ /* the parts: attachments may follow the other parts */
		size_t ord[4], m = 0, np = M_email_parts_len(e), nb = M_email_parts_len(b), q;
		if (kind && att) { for (q = 0; q < np; q++) if (!M_email_part_is_attachmenet(e, q)) ord[m++] = q; for (q = 0; q < np; q++) if (M_email_part_is_attachmenet(e, q)) ord[m++] = q; } else for (q = 0; q < np; q++) ord[m++] = q;
		if (n == 0) { mc_check(nb == 1 && same(NULL, M_email_part_data(b, 0)), "no parts read as %zu", nb); }
		else { mc_check(nb == np, "%zu parts written, %zu read", np, nb);
		for (q = 0; q < np; q++) {
			size_t o = ord[q]; const char *x = NULL, *y = NULL;
			mc_check(same(M_email_part_data(e, o), M_email_part_data(b, q)), "data of part %zu '%s' reads as '%s'", o, mc_escs(M_email_part_data(e, o)), M_email_part_data(b, q) ? mc_escs(M_email_part_data(b, q)) : "");
			mc_check(M_email_part_is_attachmenet(e, o) == M_email_part_is_attachmenet(b, q), "part %zu: attachment or not", o);
			M_hash_dict_get(M_email_part_headers(e, o), "X-P", &x); M_hash_dict_get(M_email_part_headers(b, q), "X-P", &y); mc_check(same(x, y), "header of part %zu '%s' reads as '%s'", o, x, y);
			if (M_email_part_is_attachmenet(e, o)) { M_email_part_attachment_info(e, o, &ct, &te, &fn); M_email_part_attachment_info(b, q, &ct2, &te2, &fn2); mc_check(same(ct, ct2) && same(te, te2) && same(fn, fn2), "attachment '%s' '%s' '%s' reads as '%s' '%s' '%s'", ct, te, fn, ct2, te2, fn2); }
			else if (!(kind && !o)) { x = y = NULL; M_hash_dict_get(M_email_part_headers(e, o), "Content-Type", &x); M_hash_dict_get(M_email_part_headers(b, q), "Content-Type", &y); mc_check(same(x, y), "type of part %zu '%s' reads as '%s'", o, x, y); }
		} }
	}
	buf = M_buf_create(); M_buf_add_str(buf, "prefix"); mrnd = 99; mc_check(M_email_simple_write_buf(e, buf) && M_buf_len(buf) == 6 + l && !memcmp(M_buf_peek(buf) + 6, out, l), "writing to a buffer gives something else"); M_buf_cancel(buf);
	mc_outcome(mc_hbytes(1, out, l)); M_free(out); M_email_destroy(e); M_email_destroy(b); mc_step(); mc_case();
}
