// MODE: seq
// MODS: base text formats
// WRAP: M_rand
/* C57: what the email reader reports does not depend on how the bytes were split and is what the grammar put there. */
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_email";
static uint64_t mrnd; uint64_t __wrap_M_rand(void *st) { (void)st; mrnd = mrnd * 6364136223846793005ULL + 1442695040888963407ULL; return mrnd >> 20; }
static char msg[4096], ex[8192], rec[8192]; static size_t ml, el, rl; static char lastk; static size_t lasti;
static void put(const char *s) { size_t n = strlen(s); memcpy(msg + ml, s, n); ml += n; }
static void addto(char *b, size_t *n, const char *d, size_t l) { mc_check(*n + l < 8192, "record too long"); memcpy(b + *n, d, l); *n += l; }
static void exf(const char *f, ...) { char t[1024]; va_list a; int n; va_start(a, f); n = vsnprintf(t, sizeof(t), f, a); va_end(a); addto(ex, &el, t, (size_t)n); }
static void recf(const char *f, ...) { char t[1024]; va_list a; int n; va_start(a, f); n = vsnprintf(t, sizeof(t), f, a); va_end(a); addto(rec, &rl, t, (size_t)n); lastk = 0; }
static void recd(char k, size_t idx, const char *d, size_t l) { mc_check(l > 0, "data callback without data"); if (lastk != k || lasti != idx) { recf("|%c%zu:", k, idx); lastk = k; lasti = idx; } addto(rec, &rl, d, l); }
#define S(x) ((x) ? (x) : "~")
static M_email_error_t c_h(const char *k, const char *v, void *t) { (void)t; recf("|h %s=%s", k, v ? v : ""); return 0; }
static M_email_error_t c_to(const char *g, const char *n, const char *a, void *t) { (void)t; recf("|to %s,%s,%s", S(g), S(n), S(a)); return 0; }
static M_email_error_t c_su(const char *s, void *t) { (void)t; recf("|su %s", s); return 0; }
static M_email_error_t c_hd(M_email_data_format_t f, void *t) { (void)t; recf("|hd%d", f == M_EMAIL_DATA_FORMAT_MULTIPART); return 0; }
static M_email_error_t c_b(const char *d, size_t l, void *t) { (void)t; recd('b', 0, d, l); return 0; }
static M_email_error_t c_p(const char *d, size_t l, void *t) { (void)t; recd('p', 0, d, l); return 0; }
static M_email_error_t c_pd(void *t) { (void)t; recf("|pd"); return 0; }
static M_email_error_t c_mh(const char *k, const char *v, size_t i, void *t) { (void)t; recf("|mh%zu %s=%s", i, k, v ? v : ""); return 0; }
static M_email_error_t c_at(const char *m, const char *e, const char *f, size_t i, void *t) { (void)t; recf("|at%zu %s,%s,%s", i, S(m), S(e), S(f)); return 0; }
static M_email_error_t c_mhd(size_t i, void *t) { (void)t; recf("|mhd%zu", i); return 0; }
static M_email_error_t c_d(const char *d, size_t l, size_t i, void *t) { (void)t; recd('d', i, d, l); return 0; }
static M_email_error_t c_dd(size_t i, void *t) { (void)t; recf("|dd%zu", i); return 0; }
static M_email_error_t c_fin(void *t) { (void)t; recf("|fin"); return 0; }
static M_email_error_t c_e(const char *d, size_t l, void *t) { (void)t; recd('e', 0, d, l); return 0; }
static M_email_error_t feed(size_t a, size_t b, int bytewise)
{
	struct M_email_reader_callbacks cbs; M_email_reader_t *r; M_email_error_t e = M_EMAIL_ERROR_MOREDATA; size_t done = 0, end, step = 0, l; char *cp;
	memset(&cbs, 0, sizeof(cbs)); cbs.header_func = c_h; cbs.to_func = c_to; cbs.subject_func = c_su; cbs.header_done_func = c_hd; cbs.body_func = c_b; cbs.multipart_preamble_func = c_p; cbs.multipart_preamble_done_func = c_pd; cbs.multipart_header_func = c_mh;
	cbs.multipart_header_attachment_func = c_at; cbs.multipart_header_done_func = c_mhd; cbs.multipart_data_func = c_d; cbs.multipart_data_done_func = c_dd; cbs.multipart_data_finished_func = c_fin; cbs.multipart_epilouge_func = c_e;
	rl = 0; lastk = 0; r = M_email_reader_create(&cbs, 0, NULL);
	for (end = bytewise ? 1 : a; ; end = bytewise ? end + 1 : step == 1 ? b : ml) {
		step++; if (end > ml) end = ml;
		if (end > done) { cp = hx_dup(msg + done, end - done); l = 0; e = M_email_reader_read(r, cp, end - done, &l); mc_check(l <= end - done, "read %zu of %zu", l, end - done); free(cp); done += l; mc_step(); if (e != M_EMAIL_ERROR_SUCCESS && e != M_EMAIL_ERROR_MOREDATA) break; }
		if (end == ml) break;
	}
	M_email_reader_destroy(r); rec[rl] = 0; return e;
}
static const char *const heads[] = { "A: b\r\n", "F: x\r\n\ty  z\r\n", "To: N <a@x.co>, b@y.co\r\n", "Subject: s\r\n", "E:\r\n", "To: G: ; \"q;r\" <c@x.co>\r\n" };
static const char *const headx[] = { "|h A=b", "|h F=x y  z", "|h To=N <a@x.co>, b@y.co|to ~,N,a@x.co|to ~,~,b@y.co", "|h Subject=s|su s", "|h E=", "|h To=G: ; \"q;r\" <c@x.co>|to G,~,~|to ~,q;r,c@x.co" };
static const char *const bodies[] = { "x", "\r\n", "a\r\n\r\nb\r\n", "--BX\r\n", "\r" };
static const char *const pres[] = { "", "pre", "p\r\nq", "\r\n", "\r", "-", "--B", "p\r\n-" };
static const char *const datas[] = { "", "d", "d\r\n", "\r\n\r\n", "d\r\n--", "d\r\n--B", "\r", "d--BY", "d\r", "\r\n-\r\n", "--S\r\n" };
static const char *const ends[] = { "", "\r\n", "\r\nepi", "\r\nepi\r\n", "\r\n\r\n" }; static const char *const endx[] = { "", "", "epi", "epi\r\n", "\r\n" };

static const char *sub; /* boundary of the inner parts */
static void part(size_t idx, const char *extra)
{
	int h = mc_choose_cost(4), d = mc_choose_cost(HX_N(datas));
	if (extra) { put("Content-Type: multipart/alternative; boundary=\""); put(extra); put("\"\r\n"); exf("|mh%zu Content-Type=multipart/alternative; boundary=\"%s\"", idx, extra); if (h > 1) mc_prune(); /* one Content-Type */ }
	if (h == 1) { put("K: v\r\n"); exf("|mh%zu K=v", idx); }
	if (h == 2) { put("Content-Type: text/plain\r\n"); exf("|mh%zu Content-Type=text/plain", idx); }
	if (h == 3) { put("Content-Disposition: attachment;\r\n filename=\"f.x\"\r\nContent-Transfer-Encoding: base64\r\n"); exf("|mh%zu Content-Disposition=attachment; filename=\"f.x\"|mh%zu Content-Transfer-Encoding=base64|at%zu ~,base64,f.x", idx, idx, idx); }
	if (sub) { char t[16]; snprintf(t, sizeof(t), "--%s", sub); if (strstr(datas[d], t)) mc_prune(); }
	put("\r\n"); exf("|mhd%zu", idx); put(datas[d]); put("\r\n"); if (*datas[d]) exf("|d%zu:%s", idx, datas[d]); exf("|dd%zu", idx);
}
static void grammar(void)
{
	int i, k, n; static const char *const bnd[] = { "boundary=BX", "boundary=\"BX\"; x=y", "Boundary=BX" };
	ml = el = 0; sub = NULL; k = mc_choose_cost(HX_N(heads)); if (mc_choose_cost(2)) put("\r\n"); put(heads[k]); exf("%s", headx[k]);
	if (!mc_choose(2)) { i = mc_choose_cost(HX_N(bodies)); put("\r\n"); exf("|hd0"); put(bodies[i]); exf("|b0:%s", bodies[i]); return; }
	i = mc_choose_cost(3); put("Content-Type: multipart/mixed; "); put(bnd[i]); put("\r\n\r\n"); exf("|h Content-Type=multipart/mixed; %s|hd1", bnd[i]);
	i = mc_choose_cost(HX_N(pres)); if (*pres[i]) { put(pres[i]); put("\r\n"); exf("|p0:%s", pres[i]); } exf("|pd");
	n = 1 + mc_choose_cost(2); k = mc_choose_cost(4);
	put("--BX\r\n");
	if (k) { /* nested: part 0 is a container */
		static const char *const subs[] = { "", "SY", "BXY", "B" }; size_t idx = 0; int inner, j; sub = subs[k]; inner = 1 + mc_choose_cost(2);
		part(idx++, subs[k]);
		for (j = 0; j < inner; j++) { put("--"); put(subs[k]); put("\r\n"); part(idx++, NULL); }
		put("--"); put(subs[k]); put("--\r\n\r\n");
		for (j = 1; j < n; j++) { put("--BX\r\n"); part(idx++, NULL); }
	} else for (i = 0; i < n; i++) { if (i) put("--BX\r\n"); part((size_t)i, NULL); }
	i = mc_choose_cost(HX_N(ends)); put("--BX--"); exf("|fin"); put(ends[i]); if (*endx[i]) exf("|e0:%s", endx[i]);
}
void mc_init(void) { mc_set_budget((int)mc_param("budget", 3, 4)); mc_leakcheck = 1; }
void mc_run(void)
{
	M_email_error_t e, e2; size_t i; uint64_t h;
	mrnd = 7; grammar(); msg[ml] = 0; ex[el] = 0; mc_note("message %s", mc_esc(msg, ml));
	e = feed(ml, ml, 0); mc_note("whole: %d %s", e, mc_esc(rec, rl));
	if (rl != el || memcmp(rec, ex, el)) { mc_note("expected %s", mc_esc(ex, el)); mc_fail("the email reads as %s", mc_esc(rec, rl)); }
	mc_check(e == M_EMAIL_ERROR_SUCCESS, "a complete email: %d", e);
	for (i = 0; i < ml; i++) {
		e2 = i ? feed(i, ml, 0) : feed(0, 0, 1);
		if (rl != el || memcmp(rec, ex, el)) { mc_note("expected %s", mc_esc(ex, el)); if (i) mc_fail("split at %zu, the email reads as %s", i, mc_esc(rec, rl)); mc_fail("byte by byte, the email reads as %s", mc_esc(rec, rl)); }
		mc_check(e2 == e, "split at %zu: %d", i, e2);
	}
	h = mc_hbytes(1, rec, rl); mc_outcome(h); mc_case();
}
