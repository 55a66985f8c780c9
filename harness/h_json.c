// MODE: seq
// MODS: base formats
// C50: the JSON reader accepts exactly the JSON language (plus comments), builds the document the text
// denotes, the writer's output denotes the tree it was given, JSONPath selects the documented nodes.
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_json";

/* ---- reference document ---- */
typedef struct RN RN;
struct RN { int t; char s[64]; long long num; int exp; int n; RN *k[16]; char key[16][64]; };
enum { R_OBJ = 1, R_ARR, R_STR, R_NUM, R_TRUE, R_FALSE, R_NULL };
static RN  pool[256];
static int npool;
static RN *rn(int t) { RN *r; if (npool >= 256) mc_fail("reference pool"); r = &pool[npool++]; memset(r, 0, sizeof(*r)); r->t = t; return r; }

static const char *p, *pe;
static unsigned fl;
static int lax;       /* text with a construct whose acceptance is not judged */
static int u8put(char *o, unsigned cp)
{
	if (cp < 0x80) { o[0] = (char)cp; return 1; }
	if (cp < 0x800) { o[0] = (char)(0xC0 | cp >> 6); o[1] = (char)(0x80 | (cp & 63)); return 2; }
	if (cp < 0x10000) { o[0] = (char)(0xE0 | cp >> 12); o[1] = (char)(0x80 | ((cp >> 6) & 63)); o[2] = (char)(0x80 | (cp & 63)); return 3; }
	o[0] = (char)(0xF0 | cp >> 18); o[1] = (char)(0x80 | ((cp >> 12) & 63)); o[2] = (char)(0x80 | ((cp >> 6) & 63)); o[3] = (char)(0x80 | (cp & 63)); return 4;
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int ws(void)
{
	for (;;) {
		if (p < pe && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) { p++; continue; }
		if (p < pe && *p == '/' && !(fl & M_JSON_READER_DISALLOW_COMMENTS)) {
			if (p + 1 < pe && p[1] == '/') { while (p < pe && *p != '\n') p++; continue; }
			if (p + 1 < pe && p[1] == '*') {
				const char *q = p + 2;
				while (q + 1 < pe && !(q[0] == '*' && q[1] == '/')) q++;
				if (q + 1 >= pe) return 0;
				p = q + 2; continue;
			}
			return 0;
		}
		return 1;
	}
}
static int hex4(unsigned *o)
{
	int i; *o = 0;
	if (pe - p < 4) return 0;
	for (i = 0; i < 4; i++) { int h = hexv(p[i]); if (h < 0) return 0; *o = *o * 16 + (unsigned)h; }
	return 1;
}
static int rstr(char *o)
{
	int n = 0; unsigned cp, c2;
	p++;
	while (p < pe && *p != '"') {
		unsigned char c = (unsigned char)*p;
		if (n > 50) mc_fail("reference string");
		if (c < 32) { if (!(fl & M_JSON_READER_REPLACE_BAD_CHARS)) return 0; lax = 1; p++; o[n++] = '?'; continue; }
		if (c != '\\') { o[n++] = *p++; continue; }
		p++;
		if (p >= pe) return 0;
		switch (*p) {
			case '"': case '\\': case '/': o[n++] = *p++; break;
			case 'b': o[n++] = '\b'; p++; break;
			case 'f': o[n++] = '\f'; p++; break;
			case 'n': o[n++] = '\n'; p++; break;
			case 'r': o[n++] = '\r'; p++; break;
			case 't': o[n++] = '\t'; p++; break;
			case 'u':
				p++;
				if (hex4(&cp) && (cp < 0xD800 || cp > 0xDFFF)) {
					p += 4;
				} else {
					const char *sv = p;
					int ok = 0;
					if (hex4(&cp) && cp < 0xDC00 && pe - p >= 10 && p[4] == '\\' && p[5] == 'u') {
						p += 6;
						if (hex4(&c2) && c2 >= 0xDC00 && c2 <= 0xDFFF) { p += 4; cp = 0x10000 + ((cp - 0xD800) << 10) + (c2 - 0xDC00); ok = 1; }
						else p = sv;
					}
					if (!ok) {
						int i;
						p = sv;
						if (!(fl & M_JSON_READER_REPLACE_BAD_CHARS)) return 0;
						for (i = 0; i < 4 && p < pe && hexv(*p) >= 0; i++) p++;
						o[n++] = '?';
						break;
					}
				}
				if (cp == 0) lax = 2;
				if (fl & M_JSON_READER_DONT_DECODE_UNICODE) { const char *q = p - (cp > 0xffff ? 12 : 6); while (q < p) o[n++] = *q++; }
				else n += u8put(o + n, cp);
				break;
			default: return 0;
		}
	}
	if (p >= pe) return 0;
	p++;
	o[n] = 0;
	return 1;
}
static RN *rval(void);
static RN *rnum(void)
{
	RN *r = rn(R_NUM); int neg = 0, nd = 0, ex = 0, eneg = 0, big = 0; unsigned long long m = 0; const char *s;
	if (*p == '-') { neg = 1; p++; }
	s = p;
	while (p < pe && *p >= '0' && *p <= '9') { if (m > 922337203685477580ULL || (m == 922337203685477580ULL && *p > '7')) big = 1; m = m * 10 + (unsigned)(*p++ - '0'); nd++; }
	if (!nd) return NULL;
	if (nd > 1 && *s == '0') lax |= 4;
	if (p < pe && *p == '.') {
		int f = 0; const char *z; p++;
		for (z = p; z < pe && *z >= '0' && *z <= '9'; z++) ;
		while (z > p && z[-1] == '0') z--;
		while (p < pe && p >= z && *p == '0') { p++; if (!f) f = -99; }
		if (f) { f = 0; goto frac_done; }
		while (p < z && *p >= '0' && *p <= '9') { if (m > 922337203685477580ULL || (m == 922337203685477580ULL && *p > '7')) big = 1; m = m * 10 + (unsigned)(*p++ - '0'); f++; }
		if (!f) return NULL;
		while (p < pe && *p == '0') p++;
		frac_done:
		r->exp = -f;
	}
	if (p < pe && (*p == 'e' || *p == 'E')) {
		int f = 0; p++;
		if (p < pe && (*p == '+' || *p == '-')) eneg = *p++ == '-';
		while (p < pe && *p >= '0' && *p <= '9') { ex = ex * 10 + (*p++ - '0'); if (ex > 500) { ex = 500; lax |= 32; } f++; }
		if (!f) return NULL;
		r->exp += eneg ? -ex : ex;
	}
	while (m && !big && r->exp < 0 && m % 10 == 0) { m /= 10; r->exp++; }
	if (m == 0) r->exp = 0;
	while (!big && r->exp > 0) { if (m > 922337203685477580ULL) big = 1; else { m *= 10; r->exp--; if (m > 9223372036854775807ULL) big = 1; } }
	if (big) lax |= neg ? 32 : 8;
	else if (r->exp < -18) lax |= 32;   /* not representable: reject (or truncate when allowed) */
	r->num = neg ? -(long long)m : (long long)m;
	return r;
}
static RN *rval(void)
{
	RN *r, *v; int i; char key[64];
	if (!ws() || p >= pe) return NULL;
	switch (*p) {
		case '{':
			r = rn(R_OBJ); p++;
			if (!ws()) return NULL;
			if (p < pe && *p == '}') { p++; return r; }
			for (;;) {
				if (!ws() || p >= pe || *p != '"' || !rstr(key)) return NULL;
				if (!*key) lax |= 16;
				for (i = 0; i < r->n; i++) if (!strcmp(r->key[i], key)) break;
				if (i < r->n && (fl & M_JSON_READER_OBJECT_UNIQUE_KEYS)) return NULL;
				if (!ws() || p >= pe || *p != ':') return NULL;
				p++;
				v = rval(); if (!v) return NULL;
				strcpy(r->key[i], key); r->k[i] = v; if (i == r->n) r->n++;
				if (!ws() || p >= pe) return NULL;
				if (*p == '}') { p++; return r; }
				if (*p != ',') return NULL;
				p++;
			}
		case '[':
			r = rn(R_ARR); p++;
			if (!ws()) return NULL;
			if (p < pe && *p == ']') { p++; return r; }
			for (;;) {
				v = rval(); if (!v) return NULL;
				r->k[r->n++] = v;
				if (!ws() || p >= pe) return NULL;
				if (*p == ']') { p++; return r; }
				if (*p != ',') return NULL;
				p++;
			}
		case '"': r = rn(R_STR); return rstr(r->s) ? r : NULL;
		case 't': if (pe - p < 4 || memcmp(p, "true", 4)) return NULL; p += 4; return rn(R_TRUE);
		case 'f': if (pe - p < 5 || memcmp(p, "false", 5)) return NULL; p += 5; return rn(R_FALSE);
		case 'n': if (pe - p < 4 || memcmp(p, "null", 4)) return NULL; p += 4; return rn(R_NULL);
		default:
			if (*p == '-' || (*p >= '0' && *p <= '9')) return rnum();
			return NULL;
	}
}
/* document node j denotes r */
static int same(const M_json_node_t *j, const RN *r)
{
	int i; M_list_str_t *ks; int ok = 1;
	switch (r->t) {
		case R_OBJ:
			if (M_json_node_type(j) != M_JSON_TYPE_OBJECT || (int)M_json_object_num_children(j) != r->n) return 0;
			for (i = 0; i < r->n; i++) { M_json_node_t *c = M_json_object_value(j, r->key[i]); if (!c || M_json_get_parent(c) != j || !same(c, r->k[i])) return 0; }
			ks = M_json_object_keys(j);
			if ((int)M_list_str_len(ks) != r->n) ok = 0;
			for (i = 0; ok && i < r->n; i++) if (!hx_streq(M_list_str_at(ks, (size_t)i), r->key[i])) ok = 0;
			M_list_str_destroy(ks);
			return ok;
		case R_ARR:
			if (M_json_node_type(j) != M_JSON_TYPE_ARRAY || (int)M_json_array_len(j) != r->n) return 0;
			for (i = 0; i < r->n; i++) { M_json_node_t *c = M_json_array_at(j, (size_t)i); if (!c || M_json_get_parent(c) != j || !same(c, r->k[i])) return 0; }
			return 1;
		case R_STR: return M_json_node_type(j) == M_JSON_TYPE_STRING && hx_streq(M_json_get_string(j), r->s);
		case R_NUM:
			if (M_json_node_type(j) == M_JSON_TYPE_INTEGER) return r->exp == 0 && M_json_get_int(j) == r->num;
			if (M_json_node_type(j) == M_JSON_TYPE_DECIMAL) {
				const M_decimal_t *d = M_json_get_decimal(j); M_decimal_t x;
				M_decimal_from_int(&x, r->num, (M_uint8)-r->exp);
				return M_decimal_cmp(d, &x) == 0;
			}
			return 0;
		case R_TRUE:  return M_json_node_type(j) == M_JSON_TYPE_BOOL && M_json_get_bool(j);
		case R_FALSE: return M_json_node_type(j) == M_JSON_TYPE_BOOL && !M_json_get_bool(j);
		case R_NULL:  return M_json_node_type(j) == M_JSON_TYPE_NULL;
	}
	return 0;
}
static RN *rparse(const char *s, size_t n, unsigned flags, size_t *used)
{
	RN *r; npool = 0; p = s; pe = s + n; fl = flags; lax = 0;
	r = rval();
	if (!r || (r->t != R_OBJ && r->t != R_ARR)) return NULL;
	if (!ws()) return NULL;
	*used = (size_t)(p - s);
	return r;
}
static const char *errn(M_json_error_t e) { return M_json_errcode_to_str(e); }
static void judge_read(const char *s, size_t n, unsigned flags)
{
	char *d = hx_dup(s, n); M_json_error_t e; size_t line, pos, used = 0, proc = 777; RN *r; M_json_node_t *j;
	mc_case();
	if (n == 0) { free(d); return; }
	r = rparse(d, n, flags, &used);
	j = M_json_read(d, n, flags, NULL, &e, &line, &pos);
	if (lax == 16) {    /* a member without a name */
		mc_check((j != NULL) == (r && used == n), "M_json_read(%s): %s", mc_esc(s, n), j ? "accepted" : "rejected");
		mc_check(!j || same(j, r) || mc_known("json-empty-name"), "M_json_read(%s): the member without a name is missing", mc_esc(s, n));
	} else if (lax) {
		if (j && lax == 4 && r && used == n) mc_check(same(j, r), "%s: leading zeros read as another number", mc_esc(s, n));
		if (lax & 8 && !(flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION)) mc_check(!j, "M_json_read(%s): accepted a number that cannot be represented", mc_esc(s, n));
	} else {
		if (!r || used != n) mc_check(!j, "M_json_read(%s, flags %u): accepted, not a JSON document", mc_esc(s, n), flags);
		else {
			mc_check(j != NULL, "M_json_read(%s, flags %u): rejected (%s), a JSON document", mc_esc(s, n), flags, errn(e));
			mc_check(e == M_JSON_ERROR_SUCCESS, "M_json_read(%s): success with error %s", mc_esc(s, n), errn(e));
			mc_check(same(j, r), "M_json_read(%s, flags %u): other document", mc_esc(s, n), flags);
		}
	}
	if (!j) {
		mc_check(e != M_JSON_ERROR_SUCCESS, "M_json_read(%s): NULL with no error", mc_esc(s, n));
		mc_check(line >= 1 && pos >= 1 && pos <= n + 1, "M_json_read(%s): error position %zu:%zu", mc_esc(s, n), line, pos);
	}
	M_json_node_destroy(j);
	/* as the first document of a stream */
	r = rparse(d, n, flags, &used);
	j = M_json_read(d, n, flags, &proc, &e, NULL, NULL);
	if (!lax) {
		if (r) { mc_check(j && proc == used, "M_json_read(%s, flags %u) with processed_len: %s, %zu bytes, document ends at %zu", mc_esc(s, n), flags, j ? "read" : "rejected", proc, used); mc_check(same(j, r), "other document"); }
		else if (j) {
			/* the text after the document may be anything, except that a comment which cannot be skipped may be either */
			size_t k; int ok = 0;
			for (k = 1; k <= n && !ok; k++) { RN *q = rparse(d, k, flags, &used); if (q && used == k && k == proc && same(j, q)) ok = 1; }
			mc_check(ok, "M_json_read(%s) with processed_len: accepted, not a JSON document", mc_esc(s, n));
		}
	}
	M_json_node_destroy(j);
	free(d);
}
static const unsigned RF[] = { 0, M_JSON_READER_DISALLOW_COMMENTS, M_JSON_READER_OBJECT_UNIQUE_KEYS, M_JSON_READER_DONT_DECODE_UNICODE, M_JSON_READER_REPLACE_BAD_CHARS, M_JSON_READER_ALLOW_DECIMAL_TRUNCATION };

static void run_tokens(void)
{
	static const char *T[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "-2.5", "true", "null", " ", "\n", "/", "//", "/**/", "q" };
	char s[128]; unsigned f = RF[mc_choose(3)];
	hx_toks(s, sizeof(s), (int)mc_param("toks", 5, 6), T, HX_N(T));
	judge_read(s, strlen(s), f);
}
/* inside an object or an array that is already open: longer members */
static void run_inner(void)
{
	static const char *T[] = { ",", ":", "\"a\":", "\"b\"", "1", "[]", "{}", "{\"a\"", "}", "]", "[", "false", "/*x*/" };
	char s[160], b[128]; int o = mc_choose(2); unsigned f = RF[o ? 0 : mc_choose(2) * 2];
	hx_toks(b, sizeof(b), (int)mc_param("inner", 5, 6), T, HX_N(T));
	snprintf(s, sizeof(s), "%c%s%c", o ? '[' : '{', b, o ? ']' : '}');
	judge_read(s, strlen(s), f);
}
static void run_string(void)
{
	static const char *T[] = { "a", "\\", "\"", "u", "00e9", "\\u", "\\n", "\\\\", "\\/", "d83d", "DE00", "\x01", "\n", "\xC3\xA9", "/", "4", "\\ud83d\\ude00", "0000" };
	char s[160], b[128]; unsigned f = RF[mc_choose(3) == 0 ? 0 : 3 + mc_choose(2)];
	hx_toks(b, sizeof(b), (int)mc_param("str", 4, 5), T, HX_N(T));
	if (mc_choose(2)) snprintf(s, sizeof(s), "[\"%s\"]", b); else snprintf(s, sizeof(s), "{\"%s\":1}", b);
	judge_read(s, strlen(s), f);
}
static void run_number(void)
{
	static const char *T[] = { "0", "1", "5", "-", ".", "e", "E", "+", "922337203685477580", "7", "8", "12" };
	char s[160], b[128]; unsigned f = mc_choose(2) ? 0 : M_JSON_READER_ALLOW_DECIMAL_TRUNCATION;
	hx_toks(b, sizeof(b), (int)mc_param("num", 5, 6), T, HX_N(T));
	snprintf(s, sizeof(s), "[%s]", b);
	judge_read(s, strlen(s), f);
}

/* ---- writer ---- */
static const char *STRS[] = { "", "a", "\"", "\\", "/", "\n", "\x01", "\x1f", "\x7f", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "a\"b", "\\u0041", "\b\f\r\t" };
static const long long INTS[] = { 0, -1, 42, 9007199254740991LL, -9007199254740991LL, 9007199254740992LL, -9007199254740992LL, 9223372036854775807LL, (-9223372036854775807LL - 1) };
static unsigned wf;
static int compat;    /* the text writes some number as a string */
static M_json_node_t *gen(int depth, RN **ro, int top)
{
	M_json_node_t *j = NULL, *c; RN *r, *rc; int k, i, n;
	k = top ? mc_choose(2) : depth > 0 ? mc_choose(7) : 2 + mc_choose(5);
	switch (k) {
		case 0:
			j = M_json_node_create(M_JSON_TYPE_OBJECT); r = rn(R_OBJ); n = mc_choose(depth > 1 ? 3 : 2);
			for (i = 0; i < n; i++) {
				const char *key = depth > 1 && i == 0 ? STRS[1 + mc_choose(HX_N(STRS) - 1)] : i ? "k2" : "k1"; int q;
				c = gen(depth - 1, &rc, 0);
				mc_check(M_json_object_insert(j, key, c), "object_insert failed");
				mc_check(!M_json_object_insert(j, "other", c), "a node with a parent was inserted again");
				for (q = 0; q < r->n; q++) if (!strcmp(r->key[q], key)) break;
				strcpy(r->key[q], key); r->k[q] = rc; if (q == r->n) r->n++;
			}
			break;
		case 1:
			j = M_json_node_create(M_JSON_TYPE_ARRAY); r = rn(R_ARR); n = mc_choose(depth > 1 ? 3 : 2);
			for (i = 0; i < n; i++) {
				c = gen(depth - 1, &rc, 0);
				mc_check(M_json_array_insert(j, c), "array_insert failed");
				mc_check(!M_json_array_insert(j, c), "a node with a parent was inserted again");
				r->k[r->n++] = rc;
			}
			break;
		case 2: { const char *s = STRS[depth ? mc_choose(HX_N(STRS)) : mc_choose(2) * 12]; j = M_json_node_create(M_JSON_TYPE_STRING); M_json_set_string(j, s); r = rn(R_STR); strcpy(r->s, s); break; }
		case 3: { long long v = INTS[depth ? mc_choose(HX_N(INTS)) : mc_choose(2)];
			j = M_json_node_create(M_JSON_TYPE_INTEGER); M_json_set_int(j, v); r = rn(R_NUM); r->num = v;
			if (!(wf & M_JSON_WRITER_NUMBER_NOCOMPAT) && (v > 9007199254740991LL || v < -9007199254740991LL)) { r->t = R_STR; r->num = 0; snprintf(r->s, 64, "%lld", v); compat = 1; }
			break; }
		case 4: { static const struct { long long n; int d; const char *s; } D[] = { { 5, 1, "0.5" }, { -12345, 2, "-123.45" }, { 1, 15, "0.000000000000001" }, { 1, 16, "0.0000000000000001" }, { 9007199254740992LL, 0, "9007199254740992" }, { 90071992547409925LL, 1, "9007199254740992.5" }, { 120, 2, "1.2" } };
			int q = depth ? mc_choose(HX_N(D)) : mc_choose(2); M_decimal_t d;
			M_decimal_from_int(&d, D[q].n, (M_uint8)D[q].d); j = M_json_node_create(M_JSON_TYPE_DECIMAL); M_json_set_decimal(j, &d);
			r = rn(R_NUM); r->num = D[q].n; r->exp = -D[q].d; while (r->exp < 0 && r->num % 10 == 0) { r->num /= 10; r->exp++; }
			if (!(wf & M_JSON_WRITER_NUMBER_NOCOMPAT) && q >= 3 && q <= 5) { r->t = R_STR; r->num = 0; r->exp = 0; strcpy(r->s, D[q].s); compat = 1; }
			break; }
		case 5: { int b = mc_choose(2); j = M_json_node_create(M_JSON_TYPE_BOOL); M_json_set_bool(j, b ? M_TRUE : M_FALSE); r = rn(b ? R_TRUE : R_FALSE); break; }
		default: j = M_json_node_create(M_JSON_TYPE_NULL); r = rn(R_NULL); break;
	}
	*ro = r;
	return j;
}
static int req(const RN *a, const RN *b)
{
	int i;
	if (a->t != b->t || a->n != b->n || a->num != b->num || a->exp != b->exp || strcmp(a->s, b->s)) return 0;
	for (i = 0; i < a->n; i++) if (strcmp(a->key[i], b->key[i]) || !req(a->k[i], b->k[i])) return 0;
	return 1;
}
static RN keep[256];
static void run_write(void)
{
	static const unsigned WF[] = { 0, M_JSON_WRITER_PRETTYPRINT_SPACE, M_JSON_WRITER_PRETTYPRINT_TAB | M_JSON_WRITER_PRETTYPRINT_WINLINEEND, M_JSON_WRITER_DONT_ENCODE_UNICODE, M_JSON_WRITER_NUMBER_NOCOMPAT, M_JSON_WRITER_REPLACE_BAD_CHARS };
	RN *r, *q; M_json_node_t *j; char *o; size_t n = 0, used = 0, i; int k;
	wf = WF[mc_choose(HX_N(WF))]; npool = 0; compat = 0;
	j = gen((int)mc_param("wdepth", 2, 2), &r, 1);
	mc_case();
	mc_check(compat || same(j, r), "tree built differs from what was inserted");
	o = M_json_write(j, wf, &n);
	mc_check(o && n == strlen(o), "M_json_write failed or wrong length");
	if (!(wf & M_JSON_WRITER_DONT_ENCODE_UNICODE)) for (i = 0; i < n; i++) mc_check((unsigned char)o[i] < 128, "M_json_write: output %s is not plain ASCII", mc_esc(o, n));
	if (!(wf & (M_JSON_WRITER_PRETTYPRINT_SPACE | M_JSON_WRITER_PRETTYPRINT_TAB))) mc_check(!strchr(o, '\n'), "several lines without pretty printing");
	/* keep the expectation while the reference parser reuses the pool */
	k = npool; memcpy(keep, pool, sizeof(pool[0]) * (size_t)k);
	for (i = 0; i < (size_t)k; i++) { int c; for (c = 0; c < keep[i].n; c++) keep[i].k[c] = keep + (keep[i].k[c] - pool); }
	r = keep + (r - pool);
	q = rparse(o, n, 0, &used);
	mc_check(q && used == n, "M_json_write (flags %u) wrote %s, which is not JSON", wf, mc_esc(o, n));
	mc_check(req(q, r), "M_json_write (flags %u) wrote %s, which denotes another document", wf, mc_esc(o, n));
	M_json_node_destroy(j);
	j = M_json_read(o, n, 0, NULL, NULL, NULL, NULL);
	mc_check(j && same(j, r), "%s (flags %u) does not read back as what was written", mc_esc(o, n), wf);
	M_json_node_destroy(j);
	M_free(o);
}
/* strings that are not UTF-8: replaced or refused, in values and keys, never leaking */
static void run_badutf8(void)
{
	static const char *T[] = { "a", "\xC3", "\xA9", "\xE2\x82", "\xF0\x9F\x98\x80", "\xFF", "\"", "\n" };
	char s[64]; int key = mc_choose(2), rep = mc_choose(2), enc = mc_choose(2), valid; M_json_node_t *j = M_json_node_create(M_JSON_TYPE_OBJECT); char *o; size_t n, used, i;
	RN *q;
	hx_toks(s, sizeof(s), 4, T, HX_N(T));
	if (key && !*s) mc_prune();
	valid = M_utf8_is_valid(s, NULL);
	mc_case();
	M_json_object_insert_string(j, key ? s : "k", key ? "v" : s);
	o = M_json_write(j, (rep ? M_JSON_WRITER_REPLACE_BAD_CHARS : 0u) | (enc ? 0u : M_JSON_WRITER_DONT_ENCODE_UNICODE), &n);
	if (!valid && !rep) mc_check(o == NULL, "M_json_write: %s %s is not UTF-8, written as %s", key ? "key" : "string", mc_escs(s), mc_escs(o));
	else {
		mc_check(o != NULL, "M_json_write: failed for %s", mc_escs(s));
		q = rparse(o, n, 0, &used);
		mc_check(q && used == n && q->n == 1, "M_json_write wrote %s, which is not JSON", mc_esc(o, n));
		mc_check(M_utf8_is_valid(o, NULL), "M_json_write wrote invalid UTF-8 %s", mc_esc(o, n));
		if (valid) mc_check(hx_streq(key ? q->key[0] : q->k[0]->s, s), "M_json_write wrote %s for %s", mc_esc(o, n), mc_escs(s));
		else { const char *g = key ? q->key[0] : q->k[0]->s; mc_check(strchr(g, '?') != NULL, "nothing replaced in %s", mc_escs(s)); for (i = 0; s[i]; i++) if (s[i] == 'a' || s[i] == '"' || s[i] == '\n') { int c1 = 0, c2 = 0; const char *z; for (z = s; *z; z++) c1 += *z == s[i]; for (z = g; *z; z++) c2 += *z == s[i]; mc_check(c1 == c2, "%s written as %s: good characters lost", mc_escs(s), mc_esc(o, n)); } }
	}
	M_free(o);
	M_json_node_destroy(j);
}

/* ---- JSONPath ---- */
static const char *DOCS[] = {
	"{\"a\":{\"a\":1,\"b\":[1,{\"a\":2}]},\"b\":[{\"a\":3},4,[5,{\"b\":6}]]}",
	"[0,1,2,3,4]",
	"[[0,1],{\"a\":[7,8,9]},[[2]]]",
	"{\"b\":{\"b\":{\"b\":{\"a\":0}}}}",
	"{\"a\":[],\"b\":{}}",
};
static M_json_node_t *exp_[512]; static int nexp;
typedef struct { int deep; const char *t; } SEG;
static SEG segs[8]; static int nsegs;
static void add(M_json_node_t *j) { if (nexp >= 512) mc_fail("expect overflow"); exp_[nexp++] = j; }
static int toint(const char *s, const char *e, long *v) { char b[16]; char *x; if (e == s || e - s > 10) return 0; memcpy(b, s, (size_t)(e - s)); b[e - s] = 0; *v = strtol(b, &x, 10); return *x == 0; }
static void sel(M_json_node_t *j, int k);
static void sel_here(M_json_node_t *j, int k)
{
	const char *t = segs[k].t; M_json_type_t ty = M_json_node_type(j);
	if (*t != '[') {
		if (ty == M_JSON_TYPE_OBJECT) {
			M_list_str_t *ks = M_json_object_keys(j); size_t i;
			for (i = 0; i < M_list_str_len(ks); i++) if (!strcmp(t, "*") || !strcmp(t, M_list_str_at(ks, i))) sel(M_json_object_value(j, M_list_str_at(ks, i)), k + 1);
			M_list_str_destroy(ks);
		}
		return;
	}
	if (ty == M_JSON_TYPE_ARRAY) {
		long n = (long)M_json_array_len(j), i; const char *s = t + 1;
		if (!strcmp(t, "[*]")) { for (i = 0; i < n; i++) sel(M_json_array_at(j, (size_t)i), k + 1); return; }
		for (;;) {
			const char *e = s + strcspn(s, ",]"), *c = memchr(s, ':', (size_t)(e - s)); long a, b, st = 1;
			if (!c) { if (toint(s, e, &a)) { if (a < 0) a += n; if (a >= 0 && a < n) sel(M_json_array_at(j, (size_t)a), k + 1); } }
			else {
				const char *c2 = memchr(c + 1, ':', (size_t)(e - c - 1)), *be = c2 ? c2 : e;
				a = 0; b = n;
				if (c > s) toint(s, c, &a);
				if (be > c + 1) toint(c + 1, be, &b);
				if (c2 && e > c2 + 1) toint(c2 + 1, e, &st);
				if (a < 0) a += n;
				if (b < 0) b += n;
				if (a >= 0 && b >= 0) {
					if (st > 0) for (i = a; i < b; i += st) { if (i < n) sel(M_json_array_at(j, (size_t)i), k + 1); }
					else for (i = a - 1; i >= b; i += st) if (i < n) sel(M_json_array_at(j, (size_t)i), k + 1);
				}
			}
			if (*e == ']') break;
			s = e + 1;
		}
	}
}
static void sel(M_json_node_t *j, int k)
{
	if (k == nsegs) { add(j); return; }
	sel_here(j, k);
	if (segs[k].deep) {
		size_t i;
		if (M_json_node_type(j) == M_JSON_TYPE_OBJECT) {
			M_list_str_t *ks = M_json_object_keys(j);
			for (i = 0; i < M_list_str_len(ks); i++) sel(M_json_object_value(j, M_list_str_at(ks, i)), k);
			M_list_str_destroy(ks);
		} else if (M_json_node_type(j) == M_JSON_TYPE_ARRAY) for (i = 0; i < M_json_array_len(j); i++) sel(M_json_array_at(j, i), k);
	}
}
static void run_path(void)
{
	static const char *NM[] = { "a", "b", "*", "z" };
	static const char *IX[] = { "[0]", "[1]", "[-1]", "[9]", "[*]", "[0,2]", "[2,1]", "[1:]", "[0:3]", "[:2]", "[3:0:-1]", "[0:4:2]", "[4:0:-2]", "[-2:]", "[1:-1]", "[0:9:3]", "[:]", "[-1,0:2]" };
	const char *doc = DOCS[mc_choose(HX_N(DOCS))]; M_json_node_t *j, **m; size_t nm = 99, i; int n = 1 + mc_choose((int)mc_param("segs", 3, 4)), k, rec = 0; char path[128] = "$"; int dup = 0;
	nsegs = 0;
	for (k = 0; k < n; k++) {
		int kind = mc_choose(3);    /* 0 .name  1 ..name or ..[ix]  2 [ix] */
		SEG *s = &segs[nsegs++];
		if (kind == 0) { s->deep = 0; s->t = NM[mc_choose(HX_N(NM))]; strcat(path, "."); if (k == 0) rec = 1; }
		else if (kind == 1) { s->deep = 1; s->t = mc_choose(2) ? NM[mc_choose(HX_N(NM))] : IX[mc_choose(5)]; strcat(path, ".."); }
		else { s->deep = 0; s->t = n > 2 ? IX[mc_choose(7)] : IX[mc_choose(HX_N(IX))]; }
		strcat(path, s->t);
	}
	mc_case();
	j = M_json_read(doc, strlen(doc), 0, NULL, NULL, NULL, NULL);
	nexp = 0; sel(j, 0);
	m = M_json_jsonpath(j, path, &nm);
	(void)dup;
	{
		int bad = (int)nm != nexp, want = nexp;
		/* same nodes with the same multiplicity */
		for (i = 0; !bad && i < nm; i++) { int c1 = 0, c2 = 0, q; size_t z; for (q = 0; q < nexp; q++) c1 += exp_[q] == m[i]; for (z = 0; z < nm; z++) c2 += m[z] == m[i]; if (c1 != c2) bad = 1; }
		if (bad && rec) {   /* "$.name" is searched for at any depth */
			segs[0].deep = 1; nexp = 0; sel(j, 0);
			if ((int)nm == nexp && mc_known("jsonpath-dollar-dot-deep")) bad = 0;
		}
		if (bad) { char b[512] = ""; for (i = 0; i < nm && i < 12; i++) { char *o = M_json_write(m[i], 0, NULL); snprintf(b + strlen(b), sizeof(b) - strlen(b), " %.40s", o); M_free(o); } mc_fail("M_json_jsonpath(%s, %s): %zu nodes (%s), expected %d", doc, path, nm, b, want); }
	}
	mc_check((m == NULL) == (nm == 0), "NULL/%zu", nm);
	M_free(m);
	M_json_node_destroy(j);
}
static void run_tree(void)
{
	/* moving nodes between parents: ownership follows, nothing leaks or is freed twice */
	M_json_node_t *root = M_json_node_create(M_JSON_TYPE_OBJECT), *arr = M_json_node_create(M_JSON_TYPE_ARRAY), *ch[3]; int where[3] = { 0, 0, 0 }, i, d = (int)mc_param("tree", 5, 6);   /* 0 free 1 in root 2 in arr 3 gone */
	static const char *K[] = { "x", "y", "z" };
	int ord[8], nord = 0, s;
	for (i = 0; i < 3; i++) { ch[i] = M_json_node_create(M_JSON_TYPE_INTEGER); M_json_set_int(ch[i], i); }
	M_json_object_insert(root, "arr", arr);
	for (s = 0; s < d; s++) {
		int k = mc_choose(3), op = mc_choose(4); M_bool r;
		if (where[k] == 3) mc_prune();
		mc_step();
		if (op == 0) { r = M_json_object_insert(root, K[k], ch[k]); mc_check(r == (where[k] == 0), "object_insert of a node %s: %d", where[k] ? "with a parent" : "without parent", r); if (r) where[k] = 1; }
		else if (op == 1) { r = M_json_array_insert(arr, ch[k]); mc_check(r == (where[k] == 0), "array_insert of a node %s: %d", where[k] ? "with a parent" : "without parent", r); if (r) { where[k] = 2; ord[nord++] = k; } }
		else {
			if (op == 2) M_json_take_from_parent(ch[k]); else M_json_node_destroy(ch[k]);
			if (where[k] == 2) { int q = 0, z; for (z = 0; z < nord; z++) if (ord[z] != k) ord[q++] = ord[z]; nord = q; }
			where[k] = op == 2 ? 0 : 3;
		}
		for (i = 0; i < 3; i++) if (where[i] != 3) mc_check(M_json_get_parent(ch[i]) == (where[i] == 0 ? NULL : where[i] == 1 ? root : arr), "parent of node %d", i);
		for (i = 0; i < 3; i++) mc_check(M_json_object_value(root, K[i]) == (where[i] == 1 ? ch[i] : NULL), "object member %d", i);
		mc_check((int)M_json_array_len(arr) == nord, "array length %zu, expected %d", M_json_array_len(arr), nord);
		for (i = 0; i < nord; i++) mc_check(M_json_array_at(arr, (size_t)i) == ch[ord[i]], "array order");
	}
	mc_case();
	for (i = 0; i < 3; i++) if (where[i] == 0) M_json_node_destroy(ch[i]);
	M_json_node_destroy(root);
}
static int only;
void mc_init(void) { mc_leakcheck = 1; only = (int)mc_param("only", -1, -1); }
void mc_run(void)
{
	static void (*R[])(void) = { run_tokens, run_inner, run_string, run_number, run_write, run_badutf8, run_path, run_tree };
	int w = only >= 0 ? only : mc_choose(8);
	R[w]();
}
