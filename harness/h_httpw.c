// MODE: seq
// MODS: base formats
// C55: what the HTTP writer produces is the message it was given, and nothing else.
//
//   sub 0  all combinations of method/status, host, port, uri, agent, content type, headers, data, charset: the text is
//          taken apart by a parser of this harness (lines end with CR LF, any other CR or LF is an error) and by the
//          library's simple reader; both must give the message that was asked for
//   sub 1  every parameter as any short text over separators and control characters: refused, or written such that the
//          message still has exactly the parts it should have
//   sub 2  header values over , ; = and blanks: element by element what was given
//   sub 3  form data and query strings
//   sub 4  request targets: host, port, path and query as a model takes them apart
#include "hx.h"
#include <mstdlib/mstdlib_text.h>
#include <mstdlib/mstdlib_formats.h>

const char *mc_name = "h_httpw";

/* ---- strict reading of a message ------------------------------------------------------------------------------ */
static char START[3][300]; static char HK[24][120], HV[24][400]; static int nH; static const char *BODY; static size_t BL;
static const char *strict(const char *m, size_t n)
{
	static char line[1000];
	size_t pos = 0; int first = 1;
	nH = 0;
	for (;;) {
		const char *e = NULL;
		for (size_t i = pos; i + 1 < n; i++) if (m[i] == '\r' && m[i + 1] == '\n') { e = m + i; break; }
		if (!e) return "a line does not end";
		size_t l = (size_t)(e - (m + pos));
		if (l >= sizeof line) return "too long";
		for (size_t i = 0; i < l; i++) if (m[pos + i] == '\r' || m[pos + i] == '\n' || !m[pos + i]) return "stray CR, LF or NUL";
		memcpy(line, m + pos, l); line[l] = 0;
		pos += l + 2;
		if (first) {
			first = 0;
			char *a = strchr(line, ' '), *b = a ? strchr(a + 1, ' ') : NULL;
			if (!b) return "start line";
			*a = *b = 0;
			strcpy(START[0], line); strcpy(START[1], a + 1); strcpy(START[2], b + 1);
			continue;
		}
		if (!l) break;
		char *c = strchr(line, ':');
		if (!c || c == line) return "header without a name";
		*c = 0;
		if (nH >= 24 || strlen(line) > 110 || strlen(c + 1) > 390) return "too many";
		for (char *p = line; *p; p++) if (*p <= ' ' || strchr("()<>@,;:\\\"/[]?={}\x7f", *p) || (unsigned char)*p > 126) return "header name is not a token";
		strcpy(HK[nH], line);
		char *v = c + 1; while (*v == ' ' || *v == '\t') v++;
		size_t vl = strlen(v); while (vl && (v[vl - 1] == ' ' || v[vl - 1] == '\t')) v[--vl] = 0;
		strcpy(HV[nH++], v);
	}
	BODY = m + pos; BL = n - pos;
	return NULL;
}
static const char *hget(const char *k) { const char *v = NULL; for (int i = 0; i < nH; i++) if (!strcasecmp(HK[i], k)) { if (v) return "(several)"; v = HV[i]; } return v; }

static void req_body(const unsigned char *b, size_t n, const char *d, size_t dl, const char *what, const char *m, size_t ml)
{ mc_check(n == dl && (!n || !memcmp(b, d, n)), "%s: body %s, expected %s; message %s", what, mc_esc((const char *)b, n), mc_esc(d, dl), mc_esc(m, ml)); }

static void run_combos(void)
{
	static const char *HOST[] = {NULL, "h", "a.example"}; static const unsigned short PORT[] = {0, 80, 8080};
	static const char *URI[] = {NULL, "/", "/a b?c=d", "/x%20y", "/p?q=1&r="}, *URIX[] = {"/", "/", "/a%20b?c=d", "/x%20y", "/p?q=1&r="};
	static const char *UA[] = {NULL, "me 1"}; static const char *CT[] = {NULL, "text/html", "a/b; x=y", "text/html; charset=old"};
	static const char *CS[] = {NULL, "utf-8", "latin1"};
	static const struct { const char *d; size_t n; } DT[] = {{NULL, 0}, {"", 0}, {"x", 1}, {"\r\n\r\n", 4}, {"a\0b", 3}};
	static const char *HD[][4] = {{0}, {"A", "1"}, {"Accept", "x, y;q=1"}, {"Host", "own:1"}, {"content-type", "own/type"}, {"user-agent", "own"}, {"Content-Length", "3"}, {"Date", "Mon, 01 Jan 2001 00:00:00 GMT"}, {"A", "1", "B", "2"}, {"Transfer-Encoding", "chunked"}, {"Cookie", "t=ab==; u=c=d"}};
	static const M_uint32 CODE[] = {200, 204, 404, 777, 100}; static const char *REASON[] = {NULL, "Fine by me"};
	/* methods after the third: fewer combinations */
	int resp = mc_choose(2), host = 0, port = 0, uri = 0, ua = 0, meth = 0, code = 0, reason = 0;
	if (!resp) { meth = mc_choose(9); host = mc_choose(3); port = mc_choose(3); uri = mc_choose(5); ua = mc_choose(2); }
	else { code = mc_choose(5); reason = mc_choose(2); }
	int hd = mc_choose((int)HX_N(HD)), lim = meth > 2 && !mc_param("full", 0, 1), ct = lim ? 0 : mc_choose(4), cs = lim ? 0 : mc_choose(3), dt = mc_choose(lim ? 3 : 5), form = mc_choose(2);
	M_hash_dict_t *d = NULL;
	if (HD[hd][0]) {
		d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED | M_HASH_DICT_MULTI_VALUE);
		for (int i = 0; i < 4 && HD[hd][i]; i += 2) M_hash_dict_insert(d, HD[hd][i], HD[hd][i + 1]);
	}
	const char *hk = HD[hd][0] ? HD[hd][0] : "";
	size_t n = 99; char *m; M_buf_t *b = NULL;
	unsigned char *data = DT[dt].d ? (unsigned char *)hx_dup(DT[dt].d, DT[dt].n + 1) : NULL;
	mc_note("%s method %d host %s port %d uri %s agent %s headers %s type %s charset %s data %s code %d reason %s", resp ? "response" : "request", meth, mc_escs(HOST[host]), PORT[port], mc_escs(URI[uri]), mc_escs(UA[ua]), hk, mc_escs(CT[ct]), mc_escs(CS[cs]), DT[dt].d ? mc_esc(DT[dt].d, DT[dt].n) : "none", (int)CODE[code], mc_escs(REASON[reason]));
	static const M_http_method_t MT[] = {M_HTTP_METHOD_GET, M_HTTP_METHOD_POST, M_HTTP_METHOD_OPTIONS, M_HTTP_METHOD_HEAD, M_HTTP_METHOD_PUT, M_HTTP_METHOD_DELETE, M_HTTP_METHOD_TRACE, M_HTTP_METHOD_CONNECT, M_HTTP_METHOD_PATCH};
	static const char *MN[] = {"GET", "POST", "OPTIONS", "HEAD", "PUT", "DELETE", "TRACE", "CONNECT", "PATCH"};
	if (form) {
		b = M_buf_create(); M_buf_add_str(b, "pre");
		M_bool ok = resp ? M_http_simple_write_response_buf(b, CODE[code], REASON[reason], CT[ct], d, data, DT[dt].n, CS[cs])
		                 : M_http_simple_write_request_buf(b, MT[meth], HOST[host], PORT[port], URI[uri], UA[ua], CT[ct], d, data, DT[dt].n, CS[cs]);
		mc_check(M_buf_len(b) >= 3 && !memcmp(M_buf_peek(b), "pre", 3) && (ok || M_buf_len(b) == 3), "buffer contents before the message");
		m = ok ? hx_dup(M_buf_peek(b) + 3, M_buf_len(b) - 3) : NULL; n = ok ? M_buf_len(b) - 3 : 0;
		M_buf_cancel(b);
	} else {
		unsigned char *r = resp ? M_http_simple_write_response(CODE[code], REASON[reason], CT[ct], d, data, DT[dt].n, CS[cs], &n)
		                        : M_http_simple_write_request(MT[meth], HOST[host], PORT[port], URI[uri], UA[ua], CT[ct], d, data, DT[dt].n, CS[cs], &n);
		m = r ? hx_dup(r, n) : NULL; M_free(r);
		if (!r) mc_check(n == 0, "length %zu without a message", n);
	}
	free(data);
	/* expected outcome */
	int bad = 0;
	if (!resp && !HOST[host] && strcasecmp(hk, "host")) bad = 1;
	if (!strcasecmp(hk, "content-length") && DT[dt].d && DT[dt].n != 3) bad = 1;
	if (!strcasecmp(hk, "transfer-encoding") && DT[dt].n) bad = 1;
	mc_check((m == NULL) == bad, "message %s", m ? "written that cannot be" : "not written");
	M_hash_dict_destroy(d);
	if (!m) { mc_case(); return; }
	const char *e = strict(m, n);
	mc_check(!e, "%s: %s", e, mc_esc(m, n));
	int want = 0;
	if (resp) {
		char c[12]; snprintf(c, sizeof c, "%d", (int)CODE[code]);
		mc_check(!strcmp(START[0], "HTTP/1.1") && !strcmp(START[1], c) && (REASON[reason] ? !strcmp(START[2], REASON[reason]) : code == 1 ? !strcmp(START[2], "No Content") : *START[2]), "status line of %s", mc_esc(m, n));
	} else {
		mc_check(!strcmp(START[0], MN[meth]) && !strcmp(START[1], URIX[uri]) && !strcmp(START[2], "HTTP/1.1"), "request line of %s", mc_esc(m, n));
		char h[80]; snprintf(h, sizeof h, PORT[port] == 8080 ? "%s:8080" : "%s", HOST[host] ? HOST[host] : "own:1"); if (!HOST[host]) strcpy(h, "own:1");
		mc_check(hx_streq(hget("Host"), h), "host %s expected %s: %s", mc_escs(hget("Host")), h, mc_esc(m, n)); want++;
		const char *a = UA[ua] ? UA[ua] : !strcasecmp(hk, "user-agent") ? "own" : NULL;
		mc_check(hx_streq(hget("User-Agent"), a), "agent %s expected %s: %s", mc_escs(hget("User-Agent")), mc_escs(a), mc_esc(m, n)); if (a) want++;
	}
	if (resp && !strcasecmp(hk, "host")) { mc_check(hx_streq(hget("Host"), "own:1"), "host header"); want++; }
	if (resp && !strcasecmp(hk, "user-agent")) { mc_check(hx_streq(hget("user-agent"), "own"), "agent header"); want++; }
	char t[120]; snprintf(t, sizeof t, "%s", CT[ct] ? CT[ct] : !strcasecmp(hk, "content-type") ? "own/type" : CS[cs] ? "text/plain" : "application/octet-stream");
	if (CS[cs]) { char *p = strstr(t, "; charset"); if (p) *p = 0; snprintf(t + strlen(t), 40, "; charset=%s", CS[cs]); }
	mc_check(hx_streq(hget("Content-Type"), t), "content type %s expected %s: %s", mc_escs(hget("Content-Type")), t, mc_esc(m, n)); want++;
	char cl[20]; snprintf(cl, sizeof cl, "%zu", DT[dt].n); if (!strcasecmp(hk, "content-length")) strcpy(cl, "3");
	int te = !strcasecmp(hk, "transfer-encoding");
	if (!te) { mc_check(hx_streq(hget("Content-Length"), cl), "content length %s expected %s: %s", mc_escs(hget("Content-Length")), cl, mc_esc(m, n)); want++; }
	mc_check(hget("Date") != NULL, "no date: %s", mc_esc(m, n)); want++;
	if (!strcmp(hk, "Date")) mc_check(hx_streq(hget("Date"), HD[hd][1]), "date %s", mc_escs(hget("Date")));
	else mc_check(strlen(hget("Date")) == 29 && !strcmp(hget("Date") + 26, "GMT"), "date %s", mc_escs(hget("Date")));
	if (!strcmp(hk, "A")) { mc_check(hx_streq(hget("A"), "1"), "header A"); want++; if (HD[hd][2]) { mc_check(hx_streq(hget("B"), "2"), "header B"); want++; } }
	if (!strcmp(hk, "Accept")) { mc_check(hx_streq(hget("Accept"), "x, y; q=1"), "header Accept: %s", mc_escs(hget("Accept"))); want++; }
	if (!strcmp(hk, "Cookie")) { mc_check(hx_streq(hget("Cookie"), "t=ab==; u=c=d"), "header Cookie: %s", mc_escs(hget("Cookie"))); want++; }
	if (te) { mc_check(hx_streq(hget("Transfer-Encoding"), "chunked"), "transfer encoding"); want++; mc_check(hget("Content-Length") == NULL || mc_known("te-and-length"), "transfer encoding together with a content length: %s", mc_esc(m, n)); if (hget("Content-Length")) want++; }
	mc_check(nH == want, "%d headers, expected %d: %s", nH, want, mc_esc(m, n));
	req_body((const unsigned char *)BODY, BL, DT[dt].d ? DT[dt].d : "", DT[dt].n, "text", m, n);
	/* the simple reader */
	M_http_simple_read_t *s = NULL; size_t lr = 0, bl = 0;
	int r = (int)M_http_simple_read(&s, (unsigned char *)m, n, M_HTTP_SIMPLE_READ_NODECODE_BODY, &lr);
	int nobody = resp && (CODE[code] == 204 || CODE[code] == 100);
	int part = !nobody && (te || (!strcasecmp(hk, "content-length") && !DT[dt].d));
	mc_check(r == (part ? M_HTTP_ERROR_MOREDATA : M_HTTP_ERROR_SUCCESS), "reader: %s for %s", M_http_errcode_to_str((M_http_error_t)r), mc_esc(m, n));
	if (s) {
		const unsigned char *bd = M_http_simple_read_body(s, &bl);
		if (!nobody) { req_body(bd, bl, DT[dt].d ? DT[dt].d : "", DT[dt].n, "reader", m, n); mc_check(lr == n, "reader used %zu of %zu", lr, n); }
		if (resp) { mc_check(M_http_simple_read_status_code(s) == CODE[code], "code"); mc_check(hx_streq(M_http_simple_read_reason_phrase(s), START[2]), "reason"); }
		else { mc_check(M_http_simple_read_method(s) == MT[meth], "method"); mc_check(hx_streq(M_http_simple_read_uri(s), URIX[uri]), "uri"); }
		for (int i = 0; i < nH; i++) { char *v = M_http_simple_read_header(s, HK[i]); mc_check(hx_streq(v, HV[i]), "header %s reads %s in %s", HK[i], mc_escs(v), mc_esc(m, n)); M_free(v); }
		char base[120]; strcpy(base, t); char *sc = strchr(base, ';'); if (sc) *sc = 0;
		mc_check(hx_streq(M_http_simple_read_content_type(s), base), "content type %s", mc_escs(M_http_simple_read_content_type(s)));
		const char *xcs = strstr(t, "charset="); mc_check(hx_streq(M_http_simple_read_charset(s), xcs ? xcs + 8 : NULL), "charset %s", mc_escs(M_http_simple_read_charset(s)));
		M_http_simple_read_destroy(s);
	}
	free(m);
	mc_case();
}

/* ---- sub 1 ------------------------------------------------------------------------------------------------------ */
static int has(const char *s, const char *set) { return s[strcspn(s, set)] != 0; }
static void run_inject(void)
{
	static const char *TK[] = {"a", " ", "\r", "\n", ":", ";", "=", ",", "\"", "\x7f", "\xc3\xa9", "\r\nX: y", "\t", "\x01", "?", "/", "{"};
	char s[64], full[90];
	int field = mc_choose(9);
	hx_toks(s, sizeof s, mc_param("tok", 3, 4), TK, (int)HX_N(TK));
	snprintf(full, sizeof full, "%s", s);
	if (field == 1) snprintf(full, sizeof full, "/%s", s);
	M_hash_dict_t *d = NULL;
	if (field == 4 || field == 5) { d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED); M_hash_dict_insert(d, field == 4 ? s : "K", field == 4 ? "v" : s); }
	size_t n = 0; unsigned char *m;
	mc_note("field %d (0 host, 1 uri, 2 agent, 3 type, 4 header name, 5 header value, 6 charset, 7 reason, 8 content type of a response) = %s", field, mc_escs(full));
	if (field == 7) m = M_http_simple_write_response(200, s, "t/t", NULL, (const unsigned char *)"b", 1, NULL, &n);
	else if (field == 8) m = M_http_simple_write_response(200, "OK", s, NULL, (const unsigned char *)"b", 1, NULL, &n);
	else m = M_http_simple_write_request(M_HTTP_METHOD_POST, field == 0 ? s : "h", 0, field == 1 ? full : "/", field == 2 ? s : NULL, field == 3 ? s : "t/t", d, (const unsigned char *)"b", 1, field == 6 ? s : NULL, &n);
	M_hash_dict_destroy(d);
	mc_case();
	int nl = has(full, "\r\n");
	if (!m) {
		/* only text that cannot be in a message may be refused */
		int ok = nl || has(full, "\x01\x7f\t") || (field == 4 && has(full, " :;=,\"\xc3?/{")) || (field == 0 && (!*s || has(full, " :;=,\"\xc3?/{"))) || field == 8 || field == 3 || field == 6;
		if (field == 1 && *s == '/') ok = 1;
		mc_check(ok, "refused");
		return;
	}
	char *c = hx_dup(m, n); M_free(m);
	const char *e = strict(c, n);
	mc_check(!e, "%s: %s", e, mc_esc(c, n));
	int want = field == 7 || field == 8 ? 3 : 4;
	if (field == 2 && *s) want++;
	if ((field == 4 && *s) || field == 5) want++;
	int blank = field == 5 && !s[strspn(s, " ,;\t")];    /* a value without any content may be left out or written as empty */
	if (field == 2) { blank = !s[strspn(s, " ,;\t")]; }
	mc_check(nH == want || (blank && nH == want - 1), "%d headers, expected %d: %s", nH, want, mc_esc(c, n));
	mc_check(BL == 1 && *BODY == 'b', "body: %s", mc_esc(c, n));
	if (field == 1) {
		char *dec = NULL;
		mc_check(!has(START[1], " \t\x01\x7f"), "request target %s", mc_escs(START[1]));
		M_textcodec_decode(&dec, START[1], M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_URLMIN);
		mc_check(hx_streq(dec, full), "request target %s", mc_escs(START[1])); M_free(dec);
		mc_check(!strcmp(START[2], "HTTP/1.1"), "request line %s", mc_esc(c, n));
	}
	if (field == 7) { char tr[64]; strcpy(tr, *s ? s : "OK"); mc_check(!strcmp(START[2], tr), "reason %s", mc_escs(START[2])); }
	if (field == 4 && *s) mc_check(hx_streq(hget(s), "v"), "header %s", mc_esc(c, n));
	free(c);
}

/* ---- sub 2 ------------------------------------------------------------------------------------------------------ */
/* elements of a value: split at , then ; with blanks around , ; and the first = removed */
static int elems(const char *v, char out[16][32])
{
	int n = 0; char el[64]; size_t l = 0; int firstmod = 1;
	for (;; v++) {
		if (!*v || *v == ',' || *v == ';') {
			el[l] = 0; char *p = el; while (*p == ' ') p++; size_t k = strlen(p); while (k && p[k - 1] == ' ') p[--k] = 0;
			char *q = firstmod ? NULL : strchr(p, '=');
			char norm[64]; if (q) { char *a = q; while (a > p && a[-1] == ' ') a--; char *b = q + 1; while (*b == ' ') b++; if (*b) snprintf(norm, sizeof norm, "%.*s=%s", (int)(a - p), p, b); else snprintf(norm, sizeof norm, "%.*s", (int)(a - p), p); } else strcpy(norm, p);
			snprintf(out[n++], 32, "%c%s", firstmod ? 'v' : 'm', norm);
			l = 0; firstmod = *v == ',';
			if (!*v || n >= 15) return n;
			continue;
		}
		if (l < 60) el[l++] = *v;
	}
}
static void run_values(void)
{
	char s[16], a[16][32], b[16][32];
	hx_str(s, mc_param("vlen", 6, 7), "ab=;, ", 6);
	static const char *KEY[] = {"K", "Content-Type", "Cookie"};
	const char *key = KEY[mc_choose(3)];
	if (!*s || *s == ' ' || s[strlen(s) - 1] == ' ') mc_prune();
	int na = elems(s, a);
	for (int i = 0; i < na; i++) {
		if (!a[i][1]) mc_prune();                                              /* empty elements are dropped */
		if (a[i][0] == 'm' && a[i][1] == '=') mc_prune();                       /* a parameter without a name */
		/* the same element or parameter twice is merged (test/formats/check_http_simple_writer.c) */
		for (int j = 0; j < i; j++) if (a[i][0] == a[j][0]) { size_t x = strcspn(a[i] + 1, "="), y = strcspn(a[j] + 1, "="); if (a[i][0] == 'v' ? !strcasecmp(a[i], a[j]) : x == y && !strncasecmp(a[i] + 1, a[j] + 1, x)) mc_prune(); }
	}
	if (strchr(s, ',') && !strcmp(key, "Content-Type")) mc_prune();
	M_hash_dict_t *d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED); M_hash_dict_insert(d, key, s);
	size_t n = 0; unsigned char *m = M_http_simple_write_response(200, "OK", NULL, d, NULL, 0, NULL, &n);
	M_hash_dict_destroy(d);
	mc_note("%s: %s", key, s);
	mc_check(m != NULL, "refused");
	const char *e = strict((char *)m, n); mc_check(!e, "%s: %s", e, mc_esc((char *)m, n));
	const char *got = hget(key);
	mc_check(got != NULL, "header missing: %s", mc_esc((char *)m, n));
	int nb = elems(got, b), same = na == nb;
	for (int i = 0; same && i < na; i++) if (strcmp(a[i], b[i])) same = 0;
	mc_check(same, "%s: %s is written as %s", key, s, got);
	M_http_simple_read_t *r = NULL;
	mc_check(M_http_simple_read(&r, m, n, 0, NULL) == M_HTTP_ERROR_SUCCESS, "cannot be read: %s", mc_esc((char *)m, n));
	char *v = M_http_simple_read_header(r, key);
	mc_check(hx_streq(v, got), "%s: %s is read as %s", key, got, mc_escs(v));
	M_free(v); M_http_simple_read_destroy(r); M_free(m);
	mc_case();
}

/* ---- sub 3 ------------------------------------------------------------------------------------------------------ */
static void run_form(void)
{
	static const char AL[] = "a &=+%\n?#/";
	char k[3][8], v[3][8];
	int np = 1 + mc_choose(2), l1 = mc_param("form", 2, 3);
	M_hash_dict_t *d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED | M_HASH_DICT_MULTI_VALUE);
	for (int i = 0; i < np; i++) {
		if (i) { static const char *K2[] = {"b", "a", "&="}, *V2[] = {"1", "=&", ""}; strcpy(k[i], K2[mc_choose(3)]); strcpy(v[i], V2[mc_choose(3)]); }
		else { hx_str(k[i], l1, AL, (int)strlen(AL)); hx_str(v[i], l1, AL, (int)strlen(AL)); }
		M_hash_dict_insert(d, k[i], v[i]);
	}
	int uri = mc_choose(2);
	char *q = M_http_generate_query_string(uri ? "/u" : "/", d);
	mc_note("query %s", mc_escs(q));
	mc_check(q != NULL, "not generated");
	const char *p = q + (uri ? 2 : 1);
	int live = 0; for (int i = 0; i < np; i++) if (*k[i] && *v[i]) live++;
	mc_check(!strncmp(q, uri ? "/u" : "/", uri ? 2 : 1) && (*p == '?' || !*p) && !has(p, " \n#\""), "query string");
	mc_check(!!*p || !live, "nothing generated");
	M_hash_dict_t *r = M_http_parse_query_string(p, M_TEXTCODEC_UNKNOWN);
	mc_check(live == 0 || r, "query %s cannot be parsed", mc_escs(q));
	size_t tot = 0;
	for (int i = 0; i < np; i++) if (*k[i] && *v[i]) {
		size_t idx = 0, len = 0;
		for (int j = 0; j < i; j++) if (*v[j] && !strcasecmp(k[i], k[j])) idx++;
		M_hash_dict_multi_len(r, k[i], &len); tot++;
		const char *g = M_hash_dict_multi_get_direct(r, k[i], idx);
		mc_check(hx_streq(g, v[i]), "query %s: %s reads %s, expected %s", mc_escs(q), mc_escs(k[i]), mc_escs(g), mc_escs(v[i]));
	}
	if (live) { size_t all = 0; M_hash_dict_enum_t *it; const char *kk, *vv; M_hash_dict_enumerate(r, &it); while (M_hash_dict_enumerate_next(r, it, &kk, &vv)) all++; M_hash_dict_enumerate_free(it); mc_check(all == tot, "query %s: %zu pairs, expected %zu", mc_escs(q), all, tot); }
	char *f = M_http_generate_form_data_string(d);
	mc_check(hx_streq(f ? f : "", *p ? p + 1 : ""), "form data %s, query %s", mc_escs(f), mc_escs(q));
	M_free(f); M_free(q); M_hash_dict_destroy(d); M_hash_dict_destroy(r);
	mc_case();
}

/* ---- sub 4 ------------------------------------------------------------------------------------------------------ */
static void run_target(void)
{
	static const char *SC[] = {"", "http://", "https://"}, *HO[] = {"h", "a.b", "1.2.3.4", "[::1]"};
	static const char *PO[] = {"", ":80", ":8080", ":65535"}; static const int PN[] = {0, 80, 8080, 65535};
	static const char *PA[] = {"", "/", "/p", "/a:b", "/a:1/b", "/x%20y", "/a://b", "/%2F%3f", "//x", "/p;q=1"}, *PD[] = {NULL, "/", "/p", "/a:b", "/a:1/b", "/x y", "/a://b", "//?", "//x", "/p;q=1"};
	static const char *QU[] = {"", "?", "?a=b", "?a=b&c", "?a=x%3ay:z", "?u=http://o:1/", "?a=1&a=2", "?a=b=c"};
	char u[120], m[300];
	int sc = mc_choose(3), ho = sc ? mc_choose(4) : 0, po = sc ? mc_choose(4) : 0, pa = mc_choose(10), qu = mc_choose(8), hh = mc_choose(3);
	if (!sc && !pa) mc_prune();
	snprintf(u, sizeof u, "%s%s%s%s%s", SC[sc], sc ? HO[ho] : "", sc ? PO[po] : "", PA[pa], QU[qu]);
	int opt = !strcmp(u, "/") && mc_choose(2);
	if (opt) strcpy(u, "*");
	snprintf(m, sizeof m, "%s %s HTTP/1.1\r\n%s\r\n", opt ? "OPTIONS" : "GET", u, hh == 0 ? "" : hh == 1 ? "Host: z\r\n" : "Host: z:77\r\n");
	mc_note("request %s", mc_escs(m));
	char *c = hx_dup(m, strlen(m)); M_http_simple_read_t *s = NULL;
	int r = (int)M_http_simple_read(&s, (unsigned char *)c, strlen(m), 0, NULL);
	mc_check(r == M_HTTP_ERROR_SUCCESS || (sc && !pa && *QU[qu]), "%s: %s", mc_escs(m), M_http_errcode_to_str((M_http_error_t)r));
	free(c); mc_case();
	if (!s) return;
	M_uint16 port = 0; M_bool hp = M_http_simple_read_port(s, &port);
	const char *xh = sc ? HO[ho] : hh ? "z" : NULL; int xp = sc && PN[po] ? PN[po] : (hh == 2 ? 77 : 0);
	mc_check(hx_streq(M_http_simple_read_uri(s), u), "uri %s", mc_escs(M_http_simple_read_uri(s)));
	mc_check(hx_streq(M_http_simple_read_host(s), xh), "%s: host %s expected %s", mc_escs(m), mc_escs(M_http_simple_read_host(s)), mc_escs(xh));
	/* a port of the Host header for an absolute target without one: either way */
	if (!(sc && !PN[po] && hh == 2)) mc_check((int)port == xp && !!hp == (xp != 0), "%s: port %d expected %d", mc_escs(m), port, xp);
	mc_check(hx_streq(M_http_simple_read_path(s), opt ? "*" : PD[pa]), "%s: path %s expected %s", mc_escs(m), mc_escs(M_http_simple_read_path(s)), mc_escs(PD[pa]));
	mc_check(hx_streq(M_http_simple_read_query_string(s), !opt && QU[qu][0] && QU[qu][1] ? QU[qu] + 1 : NULL), "%s: query %s", mc_escs(m), mc_escs(M_http_simple_read_query_string(s)));
	const M_hash_dict_t *a = M_http_simple_read_query_args(s);
	static const char *XA[][3] = {{0}, {0}, {"a", "b"}, {"a", "b"}, {"a", "x:y:z"}, {"u", "http://o:1/"}, {"a", "1", "2"}, {"a", "b=c"}};
	if (!opt && XA[qu][0]) {
		mc_check(a && hx_streq(M_hash_dict_multi_get_direct(a, XA[qu][0], 0), XA[qu][1]), "%s: argument", mc_escs(m));
		if (XA[qu][2]) mc_check(hx_streq(M_hash_dict_multi_get_direct(a, XA[qu][0], 1), XA[qu][2]), "%s: second value", mc_escs(m));
	}
	M_http_simple_read_destroy(s);
}

void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void)
{
	int only = mc_param("only", -1, -1);
	switch (only >= 0 ? only : mc_choose(5)) {
		case 0: run_combos(); break;
		case 1: run_inject(); break;
		case 2: run_values(); break;
		case 3: run_form(); break;
		default: run_target(); break;
	}
}
