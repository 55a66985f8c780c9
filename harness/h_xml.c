// MODE: seq
// MODS: base formats
// C51: written XML reads back identically, well formed XML reads as what it denotes, misnested tags are
// rejected, XPath selects the documented nodes.
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_xml";

static int isws(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
/* ---- canonical text of a document: E name{k=v}...( children )  T[text]  C[text]  P name{..}  D name[data] */
typedef struct { char b[4096]; int n; int tpend; char t[1024]; int tn; } CAN;
static void put(CAN *c, const char *s) { int l = (int)strlen(s); if (c->n + l >= 4000) mc_fail("canon"); memcpy(c->b + c->n, s, (size_t)l + 1); c->n += l; }
static void flusht(CAN *c) { if (c->tn) { put(c, "T["); put(c, c->t); put(c, "]"); } c->tn = 0; c->t[0] = 0; }
static void addt(CAN *c, const char *s) { int l = (int)strlen(s); if (c->tn + l > 1000) mc_fail("canon text"); memcpy(c->t + c->tn, s, (size_t)l + 1); c->tn += l; }
static int trimt;     /* trim text in the canonical form of the tree (as reading does) */
static void can_attrs(CAN *c, const M_xml_node_t *n)
{
	M_list_str_t *k = M_xml_node_attribute_keys(n); size_t i;
	for (i = 0; i < M_list_str_len(k); i++) { put(c, "{"); put(c, M_list_str_at(k, i)); put(c, "="); put(c, M_xml_node_attribute(n, M_list_str_at(k, i))); put(c, "}"); }
	M_list_str_destroy(k);
}
static void can_tree(CAN *c, M_xml_node_t *n, int nocomment)
{
	size_t i, l; const char *s; char b[1024];
	switch (M_xml_node_type(n)) {
		case M_XML_NODE_TYPE_DOC: case M_XML_NODE_TYPE_ELEMENT:
			flusht(c);
			if (M_xml_node_type(n) == M_XML_NODE_TYPE_ELEMENT) { put(c, "E"); put(c, M_xml_node_name(n)); can_attrs(c, n); put(c, "("); }
			for (i = 0; i < M_xml_node_num_children(n); i++) {
				mc_check(M_xml_node_parent(M_xml_node_child(n, i)) == n, "child with another parent");
				can_tree(c, M_xml_node_child(n, i), nocomment);
			}
			/* adjacent texts written next to each other are one text */
			flusht(c);
			if (M_xml_node_type(n) == M_XML_NODE_TYPE_ELEMENT) put(c, ")");
			break;
		case M_XML_NODE_TYPE_TEXT: s = M_xml_node_text(n); addt(c, s ? s : ""); break;
		case M_XML_NODE_TYPE_COMMENT:
			if (nocomment) { break; }
			flusht(c); put(c, "C["); s = M_xml_node_tag_data(n); put(c, s ? s : ""); put(c, "]"); break;
		case M_XML_NODE_TYPE_PROCESSING_INSTRUCTION: flusht(c); put(c, "P"); put(c, M_xml_node_name(n)); can_attrs(c, n); s = M_xml_node_tag_data(n); if (s && *s) { put(c, "["); put(c, s); put(c, "]"); } break;
		case M_XML_NODE_TYPE_DECLARATION: flusht(c); put(c, "D"); put(c, M_xml_node_name(n)); put(c, "["); s = M_xml_node_tag_data(n); put(c, s ? s : ""); put(c, "]"); break;
		default: mc_fail("node type");
	}
	(void)l; (void)b;
}
/* ---- reference parser ---- */
static const char *p, *pe, *why;
static unsigned rf;
static int err(const char *w) { why = w; return 0; }
static int namech(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == ':' || (c >= '0' && c <= '9') || c == '-' || c == '_'; }
static int rname(char *o) { int n = 0; while (p < pe && namech(*p) && n < 30) o[n++] = *p++; o[n] = 0; return n > 0; }
static void skipws(void) { while (p < pe && isws(*p)) p++; }
static int decode(char *o, const char *s, int n, int text)
{
	int i, k = 0;
	for (i = 0; i < n; ) {
		if (s[i] != '&') { o[k++] = s[i++]; continue; }
		if (n - i >= 4 && !memcmp(s + i, "&lt;", 4)) { o[k++] = '<'; i += 4; }
		else if (n - i >= 4 && !memcmp(s + i, "&gt;", 4)) { o[k++] = '>'; i += 4; }
		else if (n - i >= 5 && !memcmp(s + i, "&amp;", 5)) { o[k++] = '&'; i += 5; }
		else if (n - i >= 6 && !memcmp(s + i, "&quot;", 6)) { o[k++] = '"'; i += 6; }
		else if (n - i >= 6 && !memcmp(s + i, "&apos;", 6)) { o[k++] = '\''; i += 6; }
		else if (text && n - i >= 5 && !memcmp(s + i, "&#xD;", 5)) { o[k++] = '\r'; i += 5; }
		else if (text && n - i >= 5 && !memcmp(s + i, "&#xA;", 5)) { o[k++] = '\n'; i += 5; }
		else return -1;
	}
	o[k] = 0;
	return k;
}
static void encode(char *o, const char *s, int n)
{
	int i; *o = 0;
	for (i = 0; i < n; i++) { static char c[2]; c[0] = s[i]; strcat(o, s[i] == '<' ? "&lt;" : s[i] == '>' ? "&gt;" : s[i] == '&' ? "&amp;" : s[i] == '"' ? "&quot;" : s[i] == '\'' ? "&apos;" : c); }
}
/* attributes up to the end mark; returns 0 on error */
static int rattrs(CAN *c)
{
	char names[8][32]; int nn = 0, i; char v[256];
	for (;;) {
		const char *s0 = p; skipws();
		if (p >= pe) return err("tag not closed");
		if (*p == '>' || *p == '/' || *p == '?') return 1;
		if (p == s0) return err("lexical");
		if (nn >= 8 || !rname(names[nn])) return err("lexical");
		for (i = 0; i < nn; i++) if (!strcasecmp(names[i], names[nn])) return err(strcmp(names[i], names[nn]) ? "lexical" : "attribute twice");
		skipws(); if (p >= pe || *p != '=') return err("lexical"); p++; skipws();
		if (p >= pe || (*p != '"' && *p != '\'')) return err("lexical");
		{
			char q = *p++; const char *s = p;
			while (p < pe && *p != q) { if (*p == '<') return err("lexical"); p++; }
			if (p >= pe) return err("tag not closed");
			if (rf & M_XML_READER_DONT_DECODE_ATTRS) { memcpy(v, s, (size_t)(p - s)); v[p - s] = 0; }
			else if (decode(v, s, (int)(p - s), 0) < 0) return err("lexical");
			p++;
		}
		put(c, "{"); put(c, names[nn]); put(c, "="); put(c, v); put(c, "}"); nn++;
	}
}
static size_t rootend;
static int rparse(CAN *c, const char *s, size_t n)
{
	char st[16][32], nm[32], v[1024]; int d = 0, root = 0; const char *s0 = s;
	p = s; pe = s + n; why = NULL; rootend = 0; memset(c, 0, sizeof(*c));
	while (p < pe) {
		if (d == 0) { skipws(); if (p >= pe) break; }
		if (*p != '<') {
			const char *q = p, *e; while (p < pe && *p != '<') p++;
			e = p;
			while (q < e && isws(*q)) q++;
			while (e > q && isws(e[-1])) e--;
			if (q == e) continue;
			if (d == 0) return err(root ? "text after the root" : "lexical");
			if (rf & M_XML_READER_DONT_DECODE_TEXT) { memcpy(v, q, (size_t)(e - q)); v[e - q] = 0; } else if (decode(v, q, (int)(e - q), 1) < 0) return err("lexical");
			if (e - q >= 3 && memmem(q, (size_t)(e - q), "]]>", 3)) return err("lexical");
			addt(c, v);
			continue;
		}
		if (pe - p >= 4 && !memcmp(p, "<!--", 4)) {
			const char *e = memmem(p + 4, (size_t)(pe - p - 4), "-->", 3), *q = p + 4, *z;
			if (!e) return err("comment not closed");
			p = e + 3;
			for (z = q; z + 1 < e; z++) if (z[0] == '-' && z[1] == '-') return err("lexical");
			if (e > q && e[-1] == '-') return err("lexical");
			while (q < e && isws(*q)) q++;
			while (e > q && isws(e[-1])) e--;
			if (!(rf & M_XML_READER_IGNORE_COMMENTS)) { flusht(c); memcpy(v, q, (size_t)(e - q)); v[e - q] = 0; put(c, "C["); put(c, v); put(c, "]"); }
			continue;
		}
		if (pe - p >= 9 && !memcmp(p, "<![CDATA[", 9)) {
			const char *e = memmem(p + 9, (size_t)(pe - p - 9), "]]>", 3), *q = p + 9;
			if (!e) return err("CDATA not closed");
			if (d == 0) return err(root ? "text after the root" : "lexical");
			p = e + 3;
			if (rf & M_XML_READER_DONT_DECODE_TEXT) encode(v, q, (int)(e - q)); else { memcpy(v, q, (size_t)(e - q)); v[e - q] = 0; }
			addt(c, v);
			continue;
		}
		if (pe - p >= 2 && p[1] == '!') {
			const char *q; char quo = 0; p += 2;
			if (!rname(nm)) return err("lexical");
			if (d > 0 || root) return err("lexical");
			q = p;
			if (p < pe && *p != '>' && !isws(*p)) return err("lexical");
			for (; p < pe && (quo || *p != '>'); p++) { if (quo) { if (*p == quo) quo = 0; } else if (*p == '"' || *p == '\'') quo = *p; else if (*p == '<' || *p == '[') return err("lexical"); }
			if (p >= pe) return err("tag not closed");
			flusht(c); put(c, "D"); put(c, nm); put(c, "[");
			{ const char *e = p; while (q < e && isws(*q)) q++; while (e > q && isws(e[-1])) e--; memcpy(v, q, (size_t)(e - q)); v[e - q] = 0; put(c, v); }
			put(c, "]"); p++;
			continue;
		}
		if (pe - p >= 2 && p[1] == '?') {
			p += 2;
			if (!rname(nm)) return err("lexical");
			flusht(c); put(c, "P"); put(c, nm);
			if (!rattrs(c)) return 0;
			if (p + 1 >= pe || p[0] != '?' || p[1] != '>') return err(p >= pe ? "tag not closed" : "lexical");
			p += 2;
			continue;
		}
		if (pe - p >= 2 && p[1] == '/') {
			p += 2;
			if (!rname(nm)) return err(p >= pe ? "tag not closed" : "lexical");
			skipws();
			if (p >= pe) return err("tag not closed");
			if (*p != '>') return err("lexical");
			if (d == 0) return err("close without open");
			if ((rf & M_XML_READER_TAG_CASECMP) ? strcasecmp(st[d - 1], nm) : strcmp(st[d - 1], nm)) return err("mismatched tags");
			p++; d--; flusht(c); put(c, ")");
			if (d == 0) rootend = (size_t)(p - s0);
			continue;
		}
		p++;
		if (!rname(nm)) return err(p >= pe ? "tag not closed" : "lexical");
		if (d == 0 && root) return err("several roots");
		flusht(c); put(c, "E"); put(c, nm);
		if (!rattrs(c)) return 0;
		put(c, "(");
		if (*p == '/') { p++; if (p >= pe) return err("tag not closed"); if (*p != '>') return err("lexical"); put(c, ")"); if (d == 0) rootend = (size_t)(p + 1 - s0); }
		else if (*p == '>') { if (d >= 16) return err("lexical"); strcpy(st[d++], nm); }
		else return err("lexical");
		root = 1; p++;
	}
	if (d) return err("element not closed");
	if (!root) return err("no element");
	flusht(c);
	return 1;
}
static CAN ca, cb;
static void judge_read(const char *s, size_t n, unsigned flags)
{
	char *d; M_xml_node_t *x; M_xml_error_t e; size_t l, pos, proc = 0; int ok;
	if (!n) return;
	mc_case();
	d = hx_dup(s, n);
	rf = flags; ok = rparse(&ca, d, n);
	x = M_xml_read(d, n, flags, NULL, &e, &l, &pos);
	if (ok) {
		mc_check(x != NULL, "M_xml_read(%s, flags %u): rejected (%s), well formed", mc_esc(s, n), flags, M_xml_errcode_to_str(e));
		memset(&cb, 0, sizeof(cb)); can_tree(&cb, x, 0);
		mc_check(!strcmp(ca.b, cb.b), "M_xml_read(%s, flags %u): read %s, expected %s", mc_esc(s, n), flags, mc_escs(cb.b), mc_escs(ca.b));
		mc_check(e == M_XML_ERROR_SUCCESS, "success with an error");
	} else if (strcmp(why, "lexical")) mc_check(x == NULL, "M_xml_read(%s, flags %u): accepted, %s", mc_esc(s, n), flags, why);
	if (!x) mc_check(e != M_XML_ERROR_SUCCESS && pos <= n, "M_xml_read(%s): failed with error %s at %zu", mc_esc(s, n), M_xml_errcode_to_str(e), pos);
	M_xml_node_destroy(x);
	/* first document of a stream: ends with its root (and white space) */
	if (ok || (why && !strcmp(why, "several roots"))) {
		size_t z = rootend;
		x = M_xml_read(d, n, flags, &proc, &e, NULL, NULL);
		while (z < n && isws(d[z])) z++;
		mc_check(x != NULL && proc == z, "M_xml_read(%s) as a stream: %s, processed %zu, root ends at %zu", mc_esc(s, n), x ? "read" : "rejected", proc, rootend);
		ok = rparse(&ca, d, rootend);
		if (ok) { memset(&cb, 0, sizeof(cb)); can_tree(&cb, x, 0); mc_check(!strcmp(ca.b, cb.b), "M_xml_read(%s) as a stream: read %s, expected %s", mc_esc(s, n), mc_escs(cb.b), mc_escs(ca.b)); }
		M_xml_node_destroy(x);
	}
	free(d);
}
static const unsigned RF[] = { 0, M_XML_READER_IGNORE_COMMENTS, M_XML_READER_TAG_CASECMP, M_XML_READER_DONT_DECODE_TEXT | M_XML_READER_DONT_DECODE_ATTRS };
static void run_tags(void)
{
	static const char *T[] = { "<a>", "</a>", "<b>", "</b>", "<A>", "<a/>", "<b x=\"1\" y='&lt;&gt;'/>", "t", " ", "&amp;", "<!--<a>-->", "<![CDATA[</a>&lt;]]>", "<?p x=\"1\"?>", "<!D e>", "&#xD;", "<a x='>' y=\"/'\">" };
	char s[256];
	hx_toks(s, sizeof(s), (int)mc_param("tags", 5, 6), T, HX_N(T));
	judge_read(s, strlen(s), RF[mc_choose(HX_N(RF))]);
}
static void run_chars(void)
{
	static const char *T[] = { "<", ">", "/", "a", "b", "=", "\"", "'", " ", "!--", "--", "?", "</a>", "x='1'", "![CDATA[", "]]", "&apos;", "\n" };
	char s[256], b[256];
	hx_toks(b, sizeof(b), (int)mc_param("chars", 5, 6), T, HX_N(T));
	if (mc_choose(2)) snprintf(s, sizeof(s), "<a>%s</a>", b); else snprintf(s, sizeof(s), "<%s", b);
	judge_read(s, strlen(s), 0);
}
/* ---- write / read ---- */
static const char *TX[] = { "t", "<", "&", "]]>", "\"'", "&amp;", "&lt;", "a<b>c", "x\ny", "\xC3\xA9", "--" };
static const char *AV[] = { "", "1", "<", "\"", "'", "&", ">", "&gt;", " a  b ", "x\ny", "a=\"b\"", "\xC3\xA9" };
static void gen(M_xml_node_t *par, int depth, int max)
{
	int n = mc_choose(max + 1), i;
	for (i = 0; i < n; i++) {
		int k = mc_choose(depth > 0 ? 5 : 3); M_xml_node_t *e;
		if (k == 0) M_xml_create_text(TX[depth ? mc_choose(HX_N(TX)) : 1 + mc_choose(2)], 0, par);
		else if (k == 1) M_xml_create_comment(mc_choose(2) ? "c <x> & \"" : "", par);
		else if (k == 2) { e = M_xml_create_element("e", par); if (mc_choose(2)) M_xml_node_insert_attribute(e, "K", "v", 0, M_FALSE); }
		else if (k == 3) { e = M_xml_create_processing_instruction("pi", par); if (mc_choose(2)) M_xml_node_insert_attribute(e, "k", AV[mc_choose(HX_N(AV))], 0, M_FALSE); }
		else { e = M_xml_create_element(mc_choose(2) ? "a" : "n:b", par); if (mc_choose(2)) M_xml_node_insert_attribute(e, "k", AV[mc_choose(HX_N(AV))], 0, M_FALSE); gen(e, depth - 1, depth > 1 ? max : 1); }
	}
}
static void run_write(void)
{
	static const unsigned WF[] = { 0, M_XML_WRITER_PRETTYPRINT_SPACE, M_XML_WRITER_PRETTYPRINT_TAB | M_XML_WRITER_SELFCLOSE_SPACE, M_XML_WRITER_IGNORE_COMMENTS };
	M_xml_node_t *doc = M_xml_create_doc(), *r, *x; unsigned wf = WF[mc_choose(HX_N(WF))]; int at, pre = mc_choose(3), post = mc_choose(3); char *o; size_t n; M_xml_error_t e;
	if (pre == 1) { M_xml_create_xml_declaration(NULL, doc); M_xml_create_declaration_with_tag_data("DOCTYPE", "html \"a>b\"", doc); }
	if (pre == 2) M_xml_create_comment("first", doc);
	r = M_xml_create_element("root", doc);
	if ((at = mc_choose(2))) { M_xml_node_insert_attribute(r, "z", AV[mc_choose(HX_N(AV))], 0, M_FALSE); M_xml_node_insert_attribute(r, "B", "2", 0, M_FALSE); }
	if (!pre && !post) gen(r, 1, at ? 1 : (int)mc_param("kids", 2, 3)); else gen(r, 0, 1);
	if (post == 1) M_xml_create_comment("last", doc);
	if (post == 2) M_xml_create_processing_instruction("end", doc);
	mc_case();
	memset(&ca, 0, sizeof(ca)); can_tree(&ca, doc, !!(wf & M_XML_WRITER_IGNORE_COMMENTS));
	o = M_xml_write(doc, wf, &n);
	mc_check(o && strlen(o) == n, "M_xml_write failed");
	if (wf & (M_XML_WRITER_PRETTYPRINT_SPACE | M_XML_WRITER_PRETTYPRINT_TAB)) ; else mc_check(memmem(o, n, "\n<", 2) == NULL, "lines without pretty printing");
	rf = 0;
	mc_check(rparse(&cb, o, n), "M_xml_write (flags %u) of %s wrote %s, which is not well formed (%s)", wf, mc_escs(ca.b), mc_esc(o, n), why);
	mc_check(!strcmp(ca.b, cb.b), "M_xml_write (flags %u) of %s wrote %s, which denotes %s", wf, mc_escs(ca.b), mc_esc(o, n), mc_escs(cb.b));
	x = M_xml_read(o, n, 0, NULL, &e, NULL, NULL);
	mc_check(x != NULL, "written as %s, rejected with %s", mc_esc(o, n), M_xml_errcode_to_str(e));
	memset(&cb, 0, sizeof(cb)); can_tree(&cb, x, 0);
	mc_check(!strcmp(ca.b, cb.b), "%s written (flags %u) as %s, read back as %s", mc_escs(ca.b), wf, mc_esc(o, n), mc_escs(cb.b));
	M_xml_node_destroy(x); M_xml_node_destroy(doc); M_free(o);
}
/* processing instruction data set through the API */
static void run_pi(void)
{
	static const char *D[] = { "x", "a=\"1\"", "echo 1 ;", "" };
	M_xml_node_t *doc = M_xml_create_doc(), *pi, *x; int k = mc_choose(HX_N(D)); char *o; size_t n; M_xml_error_t e;
	pi = M_xml_create_processing_instruction("php", doc); M_xml_create_element("r", doc);
	mc_check(M_xml_node_set_tag_data(pi, D[k]) && hx_streq(M_xml_node_tag_data(pi), D[k]), "set_tag_data");
	mc_case();
	o = M_xml_write(doc, 0, &n);
	x = M_xml_read(o, n, 0, NULL, &e, NULL, NULL);
	mc_check(x != NULL, "%s is rejected with %s", mc_esc(o, n), M_xml_errcode_to_str(e));
	M_xml_node_destroy(x); M_xml_node_destroy(doc); M_free(o);
}
/* ---- XPath ---- */
static const char *DOC[] = {
	"<r><a i=\"1\">x<b/>y<b i=\"2\">z</b></a><b><a i='2'><b/></a></b><a/></r>",
	"<r>t<a>1</a><a>2</a>u<a>3</a><c><a><a/></a></c></r>",
};
static M_xml_node_t *ex[1024]; static int nex;
typedef struct { int deep, text; const char *t; const char *pr[2]; int npr; } SG;
static SG sg[4]; static int nsg;
static int tagm(M_xml_node_t *n, const char *t) { return !strcmp(t, "*") || hx_streq(M_xml_node_name(n), t); }
static int predok(M_xml_node_t *n, const SG *s, const char *pr)
{
	M_xml_node_t *par = M_xml_node_parent(n); int pos = 0, last = 0, q = 0, v, eq = 0; size_t i;
	if (pr[0] == '@') {
		char k[16]; const char *e = strchr(pr, '='); const char *av; char w[16]; M_list_str_t *ks; size_t nk;
		if (!strcmp(pr, "@*")) { ks = M_xml_node_attribute_keys(n); nk = M_list_str_len(ks); M_list_str_destroy(ks); return nk > 0; }
		snprintf(k, sizeof(k), "%.*s", (int)(e ? e - pr - 1 : (int)strlen(pr) - 1), pr + 1);
		av = M_xml_node_attribute(n, k);
		if (!e) return av != NULL;
		e++; if (*e == '\'' || *e == '"') snprintf(w, sizeof(w), "%.*s", (int)strlen(e) - 2, e + 1); else snprintf(w, sizeof(w), "%s", e);
		return av && !strcmp(av, w);
	}
	for (i = 0; i < M_xml_node_num_children(par); i++) {
		M_xml_node_t *c = M_xml_node_child(par, i);
		if (s->text ? M_xml_node_type(c) == M_XML_NODE_TYPE_TEXT : (M_xml_node_type(c) == M_XML_NODE_TYPE_ELEMENT && tagm(c, s->t))) { last++; if (c == n) pos = last; }
	}
	if (!strncmp(pr, "position()", 10)) { pr += 10; while (*pr == ' ') pr++; if (!strncmp(pr, "<=", 2)) { eq = 1; pr += 2; } else if (!strncmp(pr, ">=", 2)) { eq = 2; pr += 2; } else if (*pr == '<') { eq = 3; pr++; } else if (*pr == '>') { eq = 4; pr++; } else pr++; while (*pr == ' ') pr++; }
	if (!strncmp(pr, "last()", 6)) { pr += 6; q = last; }
	v = q + (int)strtol(pr, NULL, 10);
	if (v <= 0) return 0;
	(void)eq;
	return eq == 1 ? pos <= v : eq == 2 ? pos >= v : eq == 3 ? pos < v : eq == 4 ? pos > v : pos == v;
}
static void sel(M_xml_node_t *n, int k)
{
	size_t i; int j;
	if (k == nsg) { if (nex >= 1024) mc_fail("expect"); ex[nex++] = n; return; }
	for (i = 0; i < M_xml_node_num_children(n); i++) {
		M_xml_node_t *c = M_xml_node_child(n, i); int el = M_xml_node_type(c) == M_XML_NODE_TYPE_ELEMENT, m = sg[k].text ? M_xml_node_type(c) == M_XML_NODE_TYPE_TEXT : (el && tagm(c, sg[k].t));
		for (j = 0; m && j < sg[k].npr; j++) m = predok(c, &sg[k], sg[k].pr[j]);
		if (m) sel(c, k + 1);
		if (sg[k].deep && el) sel(c, k);
	}
}
static void run_xpath(void)
{
	static const char *TG[] = { "a", "b", "*", "r", "q" };
	static const char *PR[] = { "1", "2", "last()", "last()-1", "@i", "@i=2", "@i='1'", "@*", "position() < 2", "position() >= 2", "position()<=last()-1", "position() > 1", "9", "position() = 2" };
	const char *doc = DOC[mc_choose(HX_N(DOC))]; char path[160] = ""; int n = 1 + mc_choose(3), k, z; M_xml_node_t *x, **m; size_t nm = 77, i; M_xml_error_t e;
	nsg = 0;
	for (k = 0; k < n; k++) {
		SG *s = &sg[nsg++]; memset(s, 0, sizeof(*s));
		s->deep = mc_choose(2); strcat(path, s->deep ? "//" : "/");
		s->text = k == n - 1 ? mc_choose(2) : 0;
		if (s->text) { strcat(path, "text()"); if (mc_choose(2)) { s->pr[s->npr++] = PR[mc_choose(3)]; } }
		else {
			s->t = TG[k == 0 && !s->deep ? 3 : mc_choose(HX_N(TG))]; strcat(path, s->t);
			if (k == n - 1 || n < 3) { int c = mc_choose(HX_N(PR) + 1); if (c) { s->pr[s->npr++] = PR[c - 1]; if (mc_choose(2)) s->pr[s->npr++] = "@i"; } }
		}
		for (z = 0; z < s->npr; z++) { strcat(path, "["); strcat(path, s->pr[z]); strcat(path, "]"); }
	}
	mc_case();
	x = M_xml_read(doc, strlen(doc), 0, NULL, &e, NULL, NULL);
	mc_check(x != NULL, "%s", M_xml_errcode_to_str(e));
	nex = 0; sel(x, 0);
	m = M_xml_xpath(x, path, 0, &nm);
	{
		int bad = (int)nm != nex;
		for (i = 0; !bad && i < nm; i++) { int c1 = 0, c2 = 0, q; size_t y; for (q = 0; q < nex; q++) c1 += ex[q] == m[i]; for (y = 0; y < nm; y++) c2 += m[y] == m[i]; bad = c1 != c2; }
		mc_check(!bad, "M_xml_xpath(%s, %s): %zu nodes, expected %d", doc, path, nm, nex);
	}
	M_free(m); M_xml_node_destroy(x);
}
static int only;
void mc_init(void) { mc_leakcheck = 1; only = (int)mc_param("only", -1, -1); }
void mc_run(void)
{
	static void (*R[])(void) = { run_tags, run_chars, run_write, run_pi, run_xpath };
	R[only >= 0 ? only : mc_choose(HX_N(R))]();
}
