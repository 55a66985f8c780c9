// MODE: seq
// MODS: base formats
// C54: HTTP messages parse the same however the bytes are fragmented.
//
// A generator builds messages (start line, headers, framing: none / content-length / chunked with extensions and
// trailers / multipart with preamble, parts, epilogue / until close) together with the event trace a reader has to
// report.  Every message is fed whole, split at every position, at every pair of positions, and bytewise (unread bytes
// are kept and given again with the bytes that arrive next, one call of M_http_reader_read per arrival).
//
//   sub 0  valid messages: trace, results and consumed length are the generator's at every way of splitting
//   sub 1  each message with one byte changed or removed: same trace and same result at every split as in one piece
//   sub 2  texts that are not messages: rejected, at every split with the same error
//   sub 3  simple reader: MOREDATA at every proper prefix, exact length and content for the complete message; flags
//   sub 4  results of callbacks stop the reader with that result, for every callback and every call of it
#include "hx.h"
#include <mstdlib/mstdlib_text.h>
#include <mstdlib/mstdlib_formats.h>

const char *mc_name = "h_httpr";

/* ---- message under construction ---------------------------------------------------------------------------- */
#define MB 1024
#define TB 4096
static char   M[MB]; static size_t ML;      /* bytes of the message */
static char   X[TB]; static size_t XL;      /* expected trace */
static char   BODY[256]; static size_t BL;  /* expected body for the simple reader */
static int    fin;                          /* 0: ends by itself; 1: until close */
static int    multipart, nosimple;
static size_t hdr_end;
static int    lite;                         /* fewer shapes of bodies */
static char   xdata;                        /* open data run in X */

static void m_add(const char *s) { size_t n = strlen(s); memcpy(M + ML, s, n + 1); ML += n; }
static void tr(char *T, size_t *TL, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	if (*TL < TB - 1) *TL += (size_t)vsnprintf(T + *TL, TB - *TL, fmt, ap);
	if (*TL >= TB) *TL = TB - 1;
	va_end(ap);
}
static void tr_data(char *T, size_t *TL, char *open, char tag, size_t idx, const char *p, size_t n)
{
	if (*open != tag) { tr(T, TL, "%c%zu:", tag, idx); *open = tag; }
	for (size_t i = 0; i < n; i++) tr(T, TL, p[i] >= ' ' && p[i] < 127 && p[i] != '\\' ? "%c" : "\\%02x", (unsigned char)p[i]);
}
#define XE(...) (xdata = 0, tr(X, &XL, "|" __VA_ARGS__))
static void x_data(char tag, size_t idx, const char *s, size_t n)
{
	if (!n) return;
	if (xdata != tag) tr(X, &XL, "|");
	tr_data(X, &XL, &xdata, tag, idx, s, n);
}

/* ---- observed trace ---------------------------------------------------------------------------------------- */
static char T[TB]; static size_t TL; static char tdata;
static int  ncalls, fail_at, fail_res;
#define TE(...) (tdata = 0, tr(T, &TL, "|" __VA_ARGS__))
static M_http_error_t ret(void) { return ncalls++ == fail_at ? (M_http_error_t)fail_res : M_HTTP_ERROR_SUCCESS; }
static const char *nz(const char *s) { return s ? s : "~"; }
static M_http_error_t data(char tag, size_t idx, const unsigned char *p, size_t n)
{
	if (n) {
		if (tdata != tag) tr(T, &TL, "|");
		tr_data(T, &TL, &tdata, tag, idx, (const char *)p, n);
	} else tr(T, &TL, "!empty-data");
	return ret();
}
static M_http_error_t c_start(M_http_message_type_t t, M_http_version_t v, M_http_method_t m, const char *u, M_uint32 c, const char *r, void *th)
{ (void)th; if (t == M_HTTP_MESSAGE_TYPE_REQUEST) TE("S%d,%d,%s", v, m, nz(u)); else TE("R%d,%u,%s", v, c, nz(r)); return ret(); }
static M_http_error_t c_hf(const char *k, const char *v, void *th) { (void)th; TE("f%s=%s", k, v && *v ? v : "~"); return ret(); }
static M_http_error_t c_h(const char *k, const char *v, void *th) { (void)th; TE("h%s=%s", k, v && *v ? v : "~"); return ret(); }
static M_http_error_t c_hd(M_http_data_format_t f, void *th) { (void)th; TE("HD%d", f); return ret(); }
static M_http_error_t c_b(const unsigned char *d, size_t l, void *th) { (void)th; return data('B', 0, d, l); }
static M_http_error_t c_bd(void *th) { (void)th; TE("BD"); return ret(); }
static M_http_error_t c_ce(const char *k, const char *v, size_t i, void *th) { (void)th; TE("e%zu,%s=%s", i, nz(k), nz(v)); return ret(); }
static M_http_error_t c_ced(size_t i, void *th) { (void)th; TE("ED%zu", i); return ret(); }
static M_http_error_t c_cd(const unsigned char *d, size_t l, size_t i, void *th) { (void)th; return data('C', i, d, l); }
static M_http_error_t c_cdd(size_t i, void *th) { (void)th; TE("CD%zu", i); return ret(); }
static M_http_error_t c_cdf(void *th) { (void)th; TE("CF"); return ret(); }
static M_http_error_t c_p(const unsigned char *d, size_t l, void *th) { (void)th; return data('P', 0, d, l); }
static M_http_error_t c_mhf(const char *k, const char *v, size_t i, void *th) { (void)th; TE("F%zu,%s=%s", i, k, v && *v ? v : "~"); return ret(); }
static M_http_error_t c_mh(const char *k, const char *v, size_t i, void *th) { (void)th; TE("G%zu,%s=%s", i, k, v && *v ? v : "~"); return ret(); }
static M_http_error_t c_mhd(size_t i, void *th) { (void)th; TE("GD%zu", i); return ret(); }
static M_http_error_t c_m(const unsigned char *d, size_t l, size_t i, void *th) { (void)th; return data('D', i, d, l); }
static M_http_error_t c_md(size_t i, void *th) { (void)th; TE("DD%zu", i); return ret(); }
static M_http_error_t c_mf(void *th) { (void)th; TE("DF"); return ret(); }
static M_http_error_t c_ep(const unsigned char *d, size_t l, void *th) { (void)th; return data('E', 0, d, l); }
static M_http_error_t c_tf(const char *k, const char *v, void *th) { (void)th; TE("t%s=%s", k, v && *v ? v : "~"); return ret(); }
static M_http_error_t c_t(const char *k, const char *v, void *th) { (void)th; TE("u%s=%s", k, v && *v ? v : "~"); return ret(); }
static struct M_http_reader_callbacks CBS = {
	.start_func = c_start, .header_full_func = c_hf, .header_func = c_h, .header_done_func = c_hd, .body_func = c_b, .body_done_func = c_bd,
	.chunk_extensions_func = c_ce, .chunk_extensions_done_func = c_ced, .chunk_data_func = c_cd, .chunk_data_done_func = c_cdd,
	.chunk_data_finished_func = c_cdf, .multipart_preamble_func = c_p, .multipart_header_full_func = c_mhf, .multipart_header_func = c_mh,
	.multipart_header_done_func = c_mhd, .multipart_data_func = c_m, .multipart_data_done_func = c_md, .multipart_data_finished_func = c_mf,
	.multipart_epilouge_func = c_ep, .trailer_full_func = c_tf, .trailer_func = c_t,
	/* preamble_done, epilouge_done and trailer_done are documented as "only if present", but reported always: not judged */
};

/* ---- feeding ------------------------------------------------------------------------------------------------ */
static M_uint32 rflags;
/* cuts ascending; returns final result; *used = bytes consumed; *at = arrivals given when a final result (not more data) came */
static int feed(const char *p, size_t n, const size_t *cut, size_t ncut, size_t *used, size_t *at)
{
	M_http_reader_t *r = M_http_reader_create(&CBS, rflags, NULL);
	size_t pos = 0, end = 0, lr;
	int    res = M_HTTP_ERROR_MOREDATA;
	TL = 0; T[0] = 0; tdata = 0; ncalls = 0;
	for (size_t k = 0; k <= ncut; k++) {
		end = k < ncut ? cut[k] : n;
		if (end == pos) continue;
		char *c = hx_dup(p + pos, end - pos);
		lr  = 9999;
		res = (int)M_http_reader_read(r, (unsigned char *)c, end - pos, &lr);
		free(c);
		mc_check(lr <= end - pos, "len_read %zu of %zu bytes", lr, end - pos);
		pos += lr;
		if (res != M_HTTP_ERROR_MOREDATA && res != M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE) break;
	}
	M_http_reader_destroy(r);
	*used = pos; *at = end;
	return res;
}
static int feed_bytes(const char *p, size_t n, size_t *used, size_t *at)
{
	static size_t cut[MB];
	for (size_t i = 0; i + 1 < n; i++) cut[i] = i + 1;
	return feed(p, n, cut, n - 1, used, at);
}

/* ---- generator ---------------------------------------------------------------------------------------------- */
typedef struct { const char *line; const char *k; const char *full; const char *v[3]; } hdr_t;
static const hdr_t H[] = {
	{"A: b\r\n", "A", "b", {"b"}}, {"A:b\r\n", "A", "b", {"b"}}, {"A:\r\n", "A", "~", {"~"}},
	{"L: x, y\r\n", "L", "x, y", {"x", "y"}}, {"L:  x \r\nL:y\r\n", NULL, NULL, {NULL}}, {"Date: Mon, 1:2\r\n", "Date", "Mon, 1:2", {"Mon, 1:2"}},
	{"C: a\rb\r\n", "C", "a\rb", {"a\rb"}},
};
static void add_hdr(const hdr_t *h, char f, char g, int idx)
{
	char pre[16] = ""; if (idx >= 0) snprintf(pre, sizeof pre, "%d,", idx);
	m_add(h->line);
	if (!h->k) { XE("%c%sL=x", f, pre); XE("%c%sL=x", g, pre); XE("%c%sL=y", f, pre); XE("%c%sL=y", g, pre); return; }
	XE("%c%s%s=%s", f, pre, h->k, h->full);
	for (int i = 0; i < 3 && h->v[i]; i++) XE("%c%s%s=%s", g, pre, h->k, h->v[i]);
}
static void kv(const char *k, const char *v) { m_add(k); m_add(": "); m_add(v); m_add("\r\n"); XE("f%s=%s", k, v); XE("h%s=%s", k, v); }

typedef struct { const char *line; int req; const char *x; int nobody; } start_t;
static const start_t ST[] = {
	{"GET / HTTP/1.1\r\n", 1, "S2,2,/", 1}, {"POST /a?b HTTP/1.0\r\n", 1, "S1,4,/a?b", 0}, {"HTTP/1.1 200 OK now\r\n", 0, "R2,200,OK now", 0},
	{"HTTP/1.1 204 \r\n", 0, "R2,204,~", 2}, {"HTTP/1.1 304 N\r\n", 0, "R2,304,N", 2}, {"HTTP/1.1 100 C\r\n", 0, "R2,100,C", 2},
	{"", 2, "", 0},
};
enum { F_NONE, F_CL0, F_CL1, F_CL4, F_CHUNK, F_CLCHUNK, F_MP, F_MPQ, F_CLOSE, F_N };
static const char *BODIES[] = {"", "x", "\r\n\r\n"};

static void part(int i, int np)
{
	static const char *PD[] = {"d", "", "a\r\nb", "\r", "-", "\r\n", "\r\n-", "--", "x--b", "\n--b\r\n", "\r\n--c"};
	m_add("--b\r\n");
	int h = mc_choose(2 + (i == 0));
	if (h == 1) add_hdr(&H[0], 'F', 'G', i);
	if (h == 2) add_hdr(&H[3], 'F', 'G', i);
	m_add("\r\n"); XE("GD%d", i);
	const char *d = PD[i == 0 ? mc_choose(lite ? 3 : (int)HX_N(PD)) : mc_choose(np > 2 ? 2 : 3)];
	m_add(d); x_data('D', (size_t)i, d, strlen(d));
	m_add("\r\n"); XE("DD%d", i);
}
static void body_multi(int fm)
{
	static const char *PRE[] = {"", "p", "\r\n", "--", "-\r\n--c", "x--b\r\n"};
	static const char *EPI[] = {"", "\r\n", "\r\nepi", "\r\n\r\n--b\r\n"};
	const char *p = PRE[mc_choose(fm == F_MPQ ? 1 : lite ? 3 : (int)HX_N(PRE))];
	if (*p) { m_add(p); m_add("\r\n"); x_data('P', 0, p, strlen(p)); }
	int np = 1 + mc_choose(fm == F_MPQ || lite ? 1 : 2);
	for (int i = 0; i < np; i++) part(i, np);
	m_add("--b--"); XE("DF");
	const char *e = EPI[mc_choose(lite ? 3 : np == 1 ? (int)HX_N(EPI) : 2)];
	m_add(e); if (strlen(e) > 2) x_data('E', 0, e + 2, strlen(e) - 2);
}
static void body_chunked(void)
{
	typedef struct { const char *text; const char *data; const char *ext[2]; } ck_t;
	static const ck_t CK[] = {
		{"1\r\nz\r\n", "z", {0}}, {"0A;q=1;r\r\n\r\n23456789\r\n", "\r\n23456789", {"q=1", "r=~"}}, {"2\r\n\r\n\r\n", "\r\n", {0}}, {"b;n\r\n0\r\n\r\nabcdef\r\n", "0\r\n\r\nabcdef", {"n=~"}},
	};
	static const char *TRL[] = {"", "T: u\r\n", "T: u, v\r\nW:\r\n"};
	int nc = mc_choose(lite ? 2 : 3);
	for (int i = 0; i < nc; i++) {
		const ck_t *c = &CK[mc_choose((int)HX_N(CK))];
		m_add(c->text);
		for (int e = 0; e < 2 && c->ext[e]; e++) XE("e%d,%s", i, c->ext[e]);
		if (c->ext[0]) XE("ED%d", i);
		x_data('C', (size_t)i, c->data, strlen(c->data)); XE("CD%d", i);
		memcpy(BODY + BL, c->data, strlen(c->data)); BL += strlen(c->data);
	}
	int ze = mc_choose(2);
	m_add(ze ? "00;z=9\r\n" : "0\r\n");
	if (ze) { XE("e%d,z=9", nc); XE("ED%d", nc); }
	XE("CF");
	int t = mc_choose((int)HX_N(TRL));
	m_add(TRL[t]);
	if (t == 1) { XE("tT=u"); XE("uT=u"); }
	if (t == 2) { XE("tT=u, v"); XE("uT=u"); XE("uT=v"); XE("tW=~"); XE("uW=~"); }
	m_add("\r\n");
}
/* simple: 1 = only what the simple reader supports; hmax: header shapes; bodies trimmed when trim */
static void gen(int simple, int trim)
{
	ML = XL = BL = 0; M[0] = X[0] = 0; xdata = 0; fin = multipart = nosimple = 0; rflags = 0;
	int fm = mc_choose(F_N);
	multipart = fm == F_MP || fm == F_MPQ;
	if (simple && multipart) mc_prune();
	int plain = fm == F_NONE || fm == F_CL1 || fm == F_CLOSE;
	if (plain && !trim && mc_choose(2)) m_add("\r\n");
	int si = mc_choose(simple ? 6 : 7);
	const start_t *s = &ST[si];
	if (trim && si != 1 && si != 2) mc_prune();
	if (multipart && si != 1 && si != 2) mc_prune();
	if (s->nobody == 2 && (fm == F_CHUNK || fm == F_CLCHUNK)) mc_prune();
	m_add(s->line); if (*s->x) XE("%s", s->x);
	if (s->req == 2) rflags = M_HTTP_READER_SKIP_START;
	if (s->req == 2 && fm == F_NONE) mc_prune();
	if (lite && fm == F_CLCHUNK) mc_prune();
	if (plain && !trim) { int h = mc_choose((int)HX_N(H) + 1); if (h) add_hdr(&H[h - 1], 'f', 'h', -1); else if (s->req == 2) mc_prune(); }
	else if (s->req == 2) mc_prune();
	size_t lenpos = 0; char lentxt[16];
	int fmt = M_HTTP_DATA_FORMAT_BODY;
	int close = 0;
	switch (fm) {
		case F_NONE: if (s->req != 1 && !s->nobody) mc_prune(); break;
		case F_CL0: kv(mc_choose(2) ? "content-length" : "Content-Length", "0"); fmt = M_HTTP_DATA_FORMAT_NONE; break;
		case F_CL1: kv("Content-Length", "1"); break;
		case F_CL4: kv("CONTENT-LENGTH", "4"); break;
		case F_CHUNK: kv("Transfer-Encoding", "chunked"); fmt = M_HTTP_DATA_FORMAT_CHUNKED; break;
		case F_CLCHUNK: if (mc_choose(2)) { kv("Content-Length", "1"); kv("transfer-encoding", "Chunked"); } else { kv("Transfer-Encoding", "chunked"); kv("Content-Length", "1"); } fmt = M_HTTP_DATA_FORMAT_CHUNKED; nosimple = 1; break;
		case F_MP: case F_MPQ:
			if (fm == F_MP) kv("Content-Type", "multipart/form-data; boundary=b");
			else if (mc_choose(2)) kv("Content-Type", "multipart/form-data; boundary=\"b\"");
			else kv("Content-Type", "multipart/form-data; boundary=b; charset=x");
			close = si == 2 && mc_choose(2);
			fmt = M_HTTP_DATA_FORMAT_MULTIPART;
			if (!close) { m_add("Content-Length: "); lenpos = ML; m_add("000\r\n"); XE("fContent-Length=@@@"); XE("hContent-Length=@@@"); }
			break;
		case F_CLOSE: if (s->req == 1 || s->nobody) mc_prune(); close = 1; break;
	}
	/* no body at all */
	int nobody = 0;
	if (fm == F_NONE && s->nobody == 1) { fmt = M_HTTP_DATA_FORMAT_NONE; nobody = 1; }
	if (s->nobody == 2) { fmt = M_HTTP_DATA_FORMAT_NONE; nobody = 1; }
	m_add("\r\n"); XE("HD%d", fmt);
	hdr_end = ML;
	fin = close;
	if (!nobody) switch (fm) {
		case F_NONE: XE("BD"); break;
		case F_CL0: break;
		case F_CL1: case F_CL4: case F_CLOSE: {
			const char *b = fm == F_CL1 ? (mc_choose(2) ? "\n" : "x") : fm == F_CL4 ? "\r\n\r\n" : BODIES[mc_choose(3)];
			m_add(b); x_data('B', 0, b, strlen(b)); if (fm != F_CLOSE) XE("BD");
			memcpy(BODY, b, strlen(b)); BL = strlen(b);
			break;
		}
		case F_CHUNK: case F_CLCHUNK: body_chunked(); break;
		default: body_multi(fm); break;
	}
	if (lenpos) {
		snprintf(lentxt, sizeof lentxt, "%03zu", ML - hdr_end); memcpy(M + lenpos, lentxt, 3);
		for (char *p; (p = strstr(X, "@@@")); ) memcpy(p, lentxt, 3);
	}
}

static void judge(const char *how, int res, size_t used, size_t at, size_t a, size_t b, size_t n)
{
	int  ok   = fin ? M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE : M_HTTP_ERROR_SUCCESS;
	char w[64]; snprintf(w, sizeof w, "%s cut %zu,%zu", how, a, b);
	mc_check(res == ok, "%s: result %s, expected %s; message %s; trace %s", w, M_http_errcode_to_str((M_http_error_t)res), M_http_errcode_to_str((M_http_error_t)ok), mc_esc(M, n), mc_escs(T));
	mc_check(!strcmp(T, X), "%s: message %s: reported %s expected %s", w, mc_esc(M, n), mc_escs(T), mc_escs(X));
	mc_check(used == ML, "%s: message %s of %zu bytes: %zu consumed", w, mc_esc(M, n), ML, used);
	(void)at;
}

static void run_valid(void)
{
	gen(0, 0);
	static const char *NEXT[] = {"", "G", "\r\nGET / "};
	size_t base = ML, used, at, c[2];
	int    nx = fin ? 0 : mc_choose(multipart ? 2 : (int)HX_N(NEXT));
	m_add(NEXT[nx]);
	size_t n = ML; ML = base;
	mc_note("message %s next %s", mc_esc(M, base), mc_escs(NEXT[nx]));
	fail_at = -1;
	int r = feed(M, n, c, 0, &used, &at);
	judge("whole", r, used, at, 0, 0, n);
	if (mc_param("dump", 0, 0)) fprintf(stderr, "%s => %s\n", mc_esc(M, n), X);
	int three = nx == 0 && base < (size_t)mc_param("short", 50, 400);
	for (size_t a = 1; a < n; a++) {
		c[0] = a; r = feed(M, n, c, 1, &used, &at); judge("split", r, used, at, a, 0, n);
		mc_case();
		if (!three) continue;
		/* a cut inside the headers followed by another there is covered by the two-way splits of shorter messages */
		for (size_t b = a + 1; b < n; b++) {
			c[0] = a; c[1] = b; r = feed(M, n, c, 2, &used, &at); judge("split", r, used, at, a, b, n);
			mc_case();
		}
	}
	r = feed_bytes(M, n, &used, &at); judge("bytes", r, used, at, 0, 0, n);
	if (nx == 0 && !fin) {
		/* every proper prefix is incomplete */
		for (size_t a = 1; a < base; a++) {
			r = feed(M, a, c, 0, &used, &at);
			mc_check(r == M_HTTP_ERROR_MOREDATA, "prefix of %zu bytes of %s: %s", a, mc_esc(M, base), M_http_errcode_to_str((M_http_error_t)r));
		}
	}
	mc_case();
}

static void run_mutated(void)
{
	lite = !mc_param("rich", 0, 1);
	gen(0, 1);
	size_t used, at, c[2], pos = (size_t)mc_choose((int)ML);
	static const char SUB[] = {'\r', '\n', ' ', 'x', '-', ':', ';', '9'};
	int    ns = lite ? 5 : (int)HX_N(SUB), k = mc_choose(ns + 1);
	if (k < ns) { if (M[pos] == SUB[k]) mc_prune(); M[pos] = SUB[k]; }
	else { memmove(M + pos, M + pos + 1, ML - pos); ML--; }
	mc_note("message %s", mc_esc(M, ML));
	fail_at = -1;
	int  r0 = feed(M, ML, c, 0, &used, &at);
	size_t u0 = used;
	static char T0[TB]; strcpy(T0, T);
	int   err = r0 != M_HTTP_ERROR_SUCCESS && r0 != M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE && r0 != M_HTTP_ERROR_MOREDATA;
	for (size_t a = 0; a < ML; a++) {
		int r;
		if (lite && a && (a + 10 < pos || a > pos + 10)) continue;
		if (a == 0) r = feed_bytes(M, ML, &used, &at);
		else { c[0] = a; r = feed(M, ML, c, 1, &used, &at); }
		mc_check(r == r0, "message %s: whole %s, cut at %zu (0: bytes) %s; trace %s", mc_esc(M, ML), M_http_errcode_to_str((M_http_error_t)r0), a, M_http_errcode_to_str((M_http_error_t)r), mc_escs(T));
		mc_check(!strcmp(T, T0), "message %s: whole reported %s, cut at %zu (0: bytes) reported %s", mc_esc(M, ML), mc_escs(T0), a, mc_escs(T));
		if (!err && r0 != M_HTTP_ERROR_MOREDATA) mc_check(used == u0, "message %s: whole %zu consumed, cut at %zu %zu", mc_esc(M, ML), u0, a, used);
		mc_case();
	}
}

static const struct { const char *t; int res; } BAD[] = {
	{"GET /\r\n\r\n", M_HTTP_ERROR_STARTLINE_MALFORMED}, {"GET  HTTP/1.1\r\n\r\n", 0}, {"FOO / HTTP/1.1\r\n\r\n", M_HTTP_ERROR_REQUEST_METHOD},
	{"GET / HTTP/7.1\r\n\r\n", M_HTTP_ERROR_UNKNOWN_VERSION}, {"GET / HTXP/1.1\r\n\r\n", M_HTTP_ERROR_NOT_HTTP}, {"HTTP/1.1 2x0 OK\r\n\r\n", 0}, {"HTTP/1.1 -20 OK\r\n\r\n", 0},
	{"HTTP/1.1 OK\r\n\r\n", 0}, {"HTTP/1.1 x OK\r\n\r\n", 0}, {"HTTP/1.1  OK\r\n\r\n", 0},
	{"GET / HTTP/1.1\r\n A: b\r\n\r\n", M_HTTP_ERROR_HEADER_FOLD}, {"GET / HTTP/1.1\r\nA: b\r\n c\r\n\r\n", M_HTTP_ERROR_HEADER_FOLD},
	{"GET / HTTP/1.1\r\nA : b\r\n\r\n", M_HTTP_ERROR_HEADER_INVALID}, {"GET / HTTP/1.1\r\n: b\r\n\r\n", M_HTTP_ERROR_HEADER_INVALID}, {"GET / HTTP/1.1\r\nAb\r\n\r\n", M_HTTP_ERROR_HEADER_INVALID},
	{"POST / HTTP/1.1\r\nContent-Length: 1\r\nContent-Length: 1\r\n\r\nx", M_HTTP_ERROR_HEADER_DUPLICATE}, {"POST / HTTP/1.1\r\nContent-Length: 1, 1\r\n\r\nx", M_HTTP_ERROR_HEADER_DUPLICATE},
	{"POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED}, {"POST / HTTP/1.1\r\nContent-Length: x\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED},
	{"POST / HTTP/1.1\r\nContent-Length: 1x\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED}, {"POST / HTTP/1.1\r\nContent-Length: 1 1\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED},
	{"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED}, {"POST / HTTP/1.1\r\nContent-Length: +1\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED},
	{"POST / HTTP/1.1\r\nContent-Length: 0x1\r\n\r\nx", M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED},
#define CH "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"
	{CH "z\r\nx\r\n0\r\n\r\n", M_HTTP_ERROR_CHUNK_LENGTH}, {CH "-1\r\nx\r\n0\r\n\r\n", 0}, {CH "1z\r\nx\r\n0\r\n\r\n", 0}, {CH "1 1\r\nx\r\n0\r\n\r\n", 0}, {CH "\r\n\r\n0\r\n\r\n", 0}, {CH ";a\r\n0\r\n\r\n", 0},
	{CH "0x1\r\nx\r\n0\r\n\r\n", 0}, {CH "+1\r\nx\r\n0\r\n\r\n", 0}, {CH "1\r\nxy\r\n0\r\n\r\n", M_HTTP_ERROR_CHUNK_DATA_MALFORMED}, {CH "1\r\nx\rz0\r\n\r\n", M_HTTP_ERROR_CHUNK_DATA_MALFORMED}, {CH "1\r\nx0\r\n\r\n", M_HTTP_ERROR_CHUNK_DATA_MALFORMED},
	{CH "1;a=b=c\r\nx\r\n0\r\n\r\n", M_HTTP_ERROR_CHUNK_EXTENSION}, {CH "0\r\n T: u\r\n\r\n", M_HTTP_ERROR_HEADER_FOLD}, {CH "0\r\nTu\r\n\r\n", M_HTTP_ERROR_HEADER_INVALID},
	{CH "11111111111111111\r\nx\r\n0\r\n\r\n", 0},
#define MP(n) "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: " n "\r\n\r\n"
	{"POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=\r\nContent-Length: 3\r\n\r\n--b", M_HTTP_ERROR_MULTIPART_NOBOUNDARY}, {"POST / HTTP/1.1\r\nContent-Type: multipart/form-data\r\nContent-Length: 5\r\n\r\n--b--", 0},
	{"POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n--b--", M_HTTP_ERROR_MULTIPART_INVALID},
	{MP("5") "--b--", M_HTTP_ERROR_MULTIPART_MISSING_DATA}, {MP("11") "--b\r\nAb\r\n\r\n", 0}, {MP("17") "--b\r\n\r\nx\r\n--b  \r\n", 0},
	{MP("10") "--b\r\n\r\nxyz", 0}, {MP("12") "--b\r\n\r\nxyz\r\n", 0}, {MP("15") "--b\r\n\r\nxyz\r\n--b", 0}, {MP("7") "--b\r\n\r\n", 0}, {MP("5") "--b\r\n", 0}, {MP("4") "xyz-", 0}, {MP("6") "xyz\r\n-", 0}, {MP("13") "--b\r\n\r\nx\r\n--b-", 0}, {MP("17") "--b\r\n\r\nx\r\n--b--xyz", 0},
};
static void run_bad(void)
{
	int i = mc_choose((int)HX_N(BAD));
	size_t n = strlen(BAD[i].t), used, at, c[2];
	rflags = 0; fail_at = -1;
	/* a following message must not make a difference */
	char *m = M; strcpy(m, BAD[i].t);
	if (mc_choose(2)) { strcat(m, "GET / HTTP/1.1\r\n\r\n"); n = strlen(m); }
	mc_note("text %s", mc_esc(m, n));
	int r0 = feed(m, n, c, 0, &used, &at);
	mc_check(r0 > M_HTTP_ERROR_MOREDATA, "%s accepted: %s, trace %s", mc_esc(m, n), M_http_errcode_to_str((M_http_error_t)r0), mc_escs(T));
	if (BAD[i].res) mc_check(r0 == BAD[i].res, "%s rejected as %s, expected %s", mc_esc(m, n), M_http_errcode_to_str((M_http_error_t)r0), M_http_errcode_to_str((M_http_error_t)BAD[i].res));
	for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) {
		int r;
		if (a == 0 && b > 0) break;
		if (a == 0) r = feed_bytes(m, n, &used, &at);
		else { c[0] = a; c[1] = b; r = feed(m, n, c, 2, &used, &at); }
		mc_check(r == r0, "%s: whole %s, cut at %zu,%zu %s; trace %s", mc_esc(m, n), M_http_errcode_to_str((M_http_error_t)r0), a, b, M_http_errcode_to_str((M_http_error_t)r), mc_escs(T));
		mc_case();
	}
}

static void run_simple(void)
{
	gen(1, 0);
	if (nosimple) mc_prune();
	int fl  = mc_choose(16);
	M_uint32 flags = 0;
	int nodec = fl & 1, lenreq = !!(fl & 2), fext = !!(fl & 4), ftr = !!(fl & 8);
	if (nodec)  flags |= M_HTTP_SIMPLE_READ_NODECODE_BODY;
	if (lenreq) flags |= M_HTTP_SIMPLE_READ_LEN_REQUIRED;
	if (fext)   flags |= M_HTTP_SIMPLE_READ_FAIL_EXTENSION;
	if (ftr)    flags |= M_HTTP_SIMPLE_READ_FAIL_TRAILERS;
	size_t base = ML;
	int    nx = fin ? 0 : mc_choose(2);
	if (nx) m_add("\r\nGET /");
	size_t n = ML; ML = base;
	mc_note("message %s flags %x", mc_esc(M, n), flags);
	int has_cl = strstr(M, "ength: ") || strstr(M, "LENGTH: "), chunked = strstr(M, "chunked") != NULL;
	int has_ext = strstr(X, "|e") != NULL, has_tr = strstr(X, "|t") != NULL;
	int nob = strstr(X, "|HD1") != NULL || !strcmp(X + XL - 3, "|BD");
	if (lenreq && !has_cl && !chunked && nob) mc_prune();     /* a message that has no body at all: not specified */
	int exp = fin ? M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE : M_HTTP_ERROR_SUCCESS;
	if (lenreq && !has_cl) exp = M_HTTP_ERROR_LENGTH_REQUIRED;
	else if (fext && has_ext) exp = M_HTTP_ERROR_CHUNK_EXTENSION_NOTALLOWED;
	else if (ftr && has_tr) exp = M_HTTP_ERROR_TRAILER_NOTALLOWED;
	for (size_t a = 1; a <= n; a++) {
		M_http_simple_read_t *s = NULL;
		size_t lr = 9999, bl = 0;
		char  *c = hx_dup(M, a);
		int    r = (int)M_http_simple_read(&s, (unsigned char *)c, a, flags, &lr);
		int    r2 = (int)M_http_simple_read(NULL, (unsigned char *)c, a, flags, NULL);
		mc_check(r == r2, "message %s prefix %zu: %s with and %s without output", mc_esc(M, n), a, M_http_errcode_to_str((M_http_error_t)r), M_http_errcode_to_str((M_http_error_t)r2));
		M_parser_t *pp = M_parser_create_const((unsigned char *)c, a, 0);
		M_http_simple_read_t *sp = NULL;
		r2 = (int)M_http_simple_read_parser(&sp, pp, flags);
		mc_check(r2 == r && (sp == NULL) == (s == NULL), "message %s prefix %zu: parser form %s, plain form %s", mc_esc(M, n), a, M_http_errcode_to_str((M_http_error_t)r2), M_http_errcode_to_str((M_http_error_t)r));
		if (r2 == M_HTTP_ERROR_SUCCESS || r2 == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE) mc_check(M_parser_len(pp) == a - lr, "parser form left %zu of %zu, plain form used %zu", M_parser_len(pp), a, lr);
		if (r2 == M_HTTP_ERROR_MOREDATA) mc_check(M_parser_len(pp) == a, "parser form consumed bytes of an incomplete message");
		M_parser_destroy(pp); M_http_simple_read_destroy(sp);
		free(c);
		int e = a < base ? M_HTTP_ERROR_MOREDATA : exp;
		if (fin && a >= hdr_end && a < base) e = M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE;
		/* errors may be found as soon as the reason is seen */
		int early = exp > M_HTTP_ERROR_MOREDATA && r == exp && a < base && a >= hdr_end;
		if (fin && exp > M_HTTP_ERROR_MOREDATA && a >= hdr_end) e = exp;
		mc_check(r == e || early, "message %s (%zu bytes) flags %x, first %zu: %s, expected %s", mc_esc(M, n), base, flags, a, M_http_errcode_to_str((M_http_error_t)r), M_http_errcode_to_str((M_http_error_t)e));
		int good = r == M_HTTP_ERROR_SUCCESS || r == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE;
		mc_check((s != NULL) == good, "message %s first %zu: object %s with %s", mc_esc(M, n), a, s ? "set" : "missing", M_http_errcode_to_str((M_http_error_t)r));
		if (good) {
			mc_check(lr == (a < base ? a : base), "message %s (%zu bytes), first %zu: %zu read", mc_esc(M, n), base, a, lr);
			const unsigned char *b = M_http_simple_read_body(s, &bl);
			size_t eb = fin ? a - hdr_end : BL;
			mc_check(bl == eb && (bl == 0 || !memcmp(b, BODY, bl)), "message %s: body %s expected %s", mc_esc(M, n), mc_esc((const char *)b, bl), mc_esc(BODY, eb));
			int req = strstr(X, "|S") != NULL;
			mc_check(M_http_simple_read_message_type(s) == (req ? M_HTTP_MESSAGE_TYPE_REQUEST : M_HTTP_MESSAGE_TYPE_RESPONSE), "message type");
			char *h = M_http_simple_read_header(s, "l");
			if (strstr(M, "L: x, y") || strstr(M, "L:y")) mc_check(hx_streq(h, "x, y"), "message %s: header L reads %s", mc_esc(M, n), mc_escs(h));
			else mc_check(h == NULL, "header L in %s", mc_esc(M, n));
			M_free(h);
		}
		M_http_simple_read_destroy(s);
		mc_case();
	}
}

static void run_cbfail(void)
{
	lite = !mc_param("rich", 0, 1);
	gen(0, 1);
	size_t used, at, c[2];
	fail_at = -1;
	feed(M, ML, c, 0, &used, &at);
	int n = ncalls;
	for (int i = 0; i < n; i++) for (size_t a = 0; a < ML; a++) {
		fail_at = i; fail_res = i & 1 ? M_HTTP_ERROR_USER_FAILURE : M_HTTP_ERROR_STOP;
		c[0] = a;
		int r = feed(M, ML, c, a ? 1 : 0, &used, &at);
		if (r == fail_res) mc_check(ncalls == i + 1, "message %s: callback call %d said %s, %d more calls followed; trace %s", mc_esc(M, ML), i, M_http_errcode_to_str((M_http_error_t)fail_res), ncalls - i - 1, mc_escs(T));
		/* data split in more pieces gives more calls, never fewer */
		else mc_fail("message %s cut %zu: callback call %d said %s, result %s; trace %s", mc_esc(M, ML), a, i, M_http_errcode_to_str((M_http_error_t)fail_res), M_http_errcode_to_str((M_http_error_t)r), mc_escs(T));
		mc_case();
	}
	fail_at = -1;
}

void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void)
{
	lite = 0;
	int only = mc_param("only", -1, -1);
	int sub  = only >= 0 ? only : mc_choose(5);
	switch (sub) {
		case 0: run_valid(); break;
		case 1: run_mutated(); break;
		case 2: run_bad(); break;
		case 3: run_simple(); break;
		default: run_cbfail(); break;
	}
}
