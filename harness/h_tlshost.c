// MODE: seq
// MODS: base tls
// C60: a certificate is accepted for exactly the hosts its names cover.
//   sub 0  every name of up to 4 labels against every host of up to 4 labels, per combination of flags
//   sub 1  certificates with several names of all kinds (text and address names, other kinds, embedded nulls, common names of
//          several string types): accepted exactly when one of those looked at matches
//   sub 2  names around 255 bytes
//   sub 3  addresses: every kind of host text against address names of every length
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/mstdlib_tls.h>
#include <arpa/inet.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include "tls/m_tls_hostvalidate.h"

const char *mc_name = "h_tlshost";

#define CN M_TLS_VERIFY_HOST_FLAG_VALIDATE_CN
#define SAN M_TLS_VERIFY_HOST_FLAG_VALIDATE_SAN
#define WILD M_TLS_VERIFY_HOST_FLAG_ALLOW_WILDCARD
#define MULTI M_TLS_VERIFY_HOST_FLAG_MULTILEVEL_WILDCARD
#define FUZZY M_TLS_VERIFY_HOST_FLAG_FUZZY_BASE_DOMAIN

typedef struct { const char *p[140]; size_t n[140]; int k; } lab_t;
static void labels(const char *s, lab_t *l) { l->k = 0; for (;;) { const char *d = strchr(s, '.'); l->p[l->k] = s; l->n[l->k++] = d ? (size_t)(d - s) : strlen(s); if (!d) break; s = d + 1; } }
static int lab_eq(const lab_t *a, int i, const lab_t *b, int j) { return a->n[i] == b->n[j] && !strncasecmp(a->p[i], b->p[j], a->n[i]); }
static int is_ip(const char *h) { unsigned char b[16]; return inet_pton(AF_INET, h, b) == 1 || inet_pton(AF_INET6, h, b) == 1; }
/* name: a text name without nulls */
static int covers(const char *host, const char *name, int fl)
{
	lab_t h, n; int i;
	if (!*host || !*name) return 0;
	if (!strcasecmp(host, name)) return 1;
	labels(host, &h); labels(name, &n);
	if ((fl & WILD) && !is_ip(host) && n.k > 1 && n.n[0] == 1 && *n.p[0] == '*' && (h.k == n.k || ((fl & MULTI) && h.k > n.k))) {
		for (i = 1; i < n.k && lab_eq(&h, h.k - i, &n, n.k - i); i++);
		if (i == n.k) return 1;
	}
	if (fl & FUZZY) {
		if (!strcasecmp(host, "localhost")) return 1;
		/* the base domain: two labels, three under a country */
		int hb = h.n[h.k - 1] == 2 ? 3 : 2, nb = n.n[n.k - 1] == 2 ? 3 : 2; if (hb > h.k) hb = h.k; if (nb > n.k) nb = n.k;
		if (hb != nb) return 0;
		for (i = 1; i <= hb && lab_eq(&h, h.k - i, &n, n.k - i); i++);
		return i > hb;
	}
	return 0;
}
/* ---- certificates --------------------------------------------------------------------------------------------- */
typedef struct { int kind; const char *p; int n; } nm_t; /* 0 DNS 1 IP 2 email 3 URI 4 CN (utf8) 5 CN (printable) 6 CN (BMP) */
static X509 *cert(const nm_t *v, int k)
{
	X509 *x = X509_new(); GENERAL_NAMES *g = NULL; X509_NAME *s = X509_get_subject_name(x);
	for (int i = 0; i < k; i++) {
		if (v[i].kind >= 4) {
			if (v[i].kind == 6) { unsigned char b[200]; for (int j = 0; j < v[i].n; j++) { b[2 * j] = 0; b[2 * j + 1] = (unsigned char)v[i].p[j]; } X509_NAME_add_entry_by_NID(s, NID_commonName, V_ASN1_BMPSTRING, b, 2 * v[i].n, -1, 0); }
			else X509_NAME_add_entry_by_NID(s, NID_commonName, v[i].kind == 4 ? V_ASN1_UTF8STRING : V_ASN1_PRINTABLESTRING, (const unsigned char *)v[i].p, v[i].n, -1, 0);
			continue;
		}
		if (!g) g = GENERAL_NAMES_new();
		GENERAL_NAME *e = GENERAL_NAME_new(); ASN1_STRING *a = v[i].kind == 1 ? ASN1_OCTET_STRING_new() : ASN1_IA5STRING_new();
		ASN1_STRING_set(a, v[i].p, v[i].n);
		GENERAL_NAME_set0_value(e, v[i].kind == 0 ? GEN_DNS : v[i].kind == 1 ? GEN_IPADD : v[i].kind == 2 ? GEN_EMAIL : GEN_URI, a);
		sk_GENERAL_NAME_push(g, e);
	}
	if (g) { X509_add1_ext_i2d(x, NID_subject_alt_name, g, 0, 0); GENERAL_NAMES_free(g); }
	return x;
}
static const int FLS[] = {SAN | WILD, SAN, SAN | WILD | MULTI, SAN | FUZZY, SAN | WILD | MULTI | FUZZY, SAN | MULTI, 0};
static void run_names(void)
{
	static const char *NL[] = {"*", "a", "co", "B", "*a", "", "a*", "com"}, *HL[] = {"a", "b", "co", "*", "com"};
	char name[40] = ""; int k = 1 + mc_choose(mc_param("labels", 4, 5));
	for (int i = 0; i < k; i++) { if (i) strcat(name, "."); strcat(name, NL[mc_choose(8)]); }
	nm_t v = {0, name, (int)strlen(name)}; X509 *x = cert(&v, 1); mc_note("%s", name);
	for (int hk = 1; hk <= 5; hk++) {
		int ix[5] = {0};
		for (;;) {
			char host[40] = ""; for (int i = 0; i < hk; i++) { if (i) strcat(host, "."); strcat(host, HL[ix[i]]); }
			char *h = hx_dupz(host);
			for (int f = 0; f < (int)HX_N(FLS); f++) {
				int fl = FLS[f], want = !fl ? 0 : covers(host, name, fl);
				mc_check((int)M_tls_verify_host(x, h, (M_tls_verify_host_flags_t)fl) == want, "name \"%s\", flags %d: host %s is %s", name, fl, host, want ? "refused" : "accepted");
			}
			free(h);
			int p = hk - 1; while (p >= 0 && ++ix[p] == (hk >= 4 ? 3 : 5)) ix[p--] = 0;
			if (p < 0) break;
		}
	}
	X509_free(x); mc_case();
}
static void run_certs(void)
{
	static const nm_t N[] = {{0, "a.co", 4}, {0, "*.a.co", 6}, {0, "a.co\0.evil", 10}, {0, "evil\0.a.co", 10}, {0, "", 0}, {1, "\x0a\0\0\1", 4}, {1, "\x20\1\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\1", 16}, {2, "a.co", 4}, {3, "a.co", 4},
		{4, "a.co", 4}, {4, "*.a.co", 6}, {4, "a.co\0.evil", 10}, {5, "b.co", 4}, {6, "a.co", 4}, {4, "10.0.0.1", 8}, {6, "*.a.co", 6}, {1, "a.co", 4}, {0, "a.co\0", 5}, {4, "b.co\0", 5}};
	static const char *H[] = {"a.co", "A.CO", "x.a.co", "10.0.0.1", "2001:db8::1", "b.co", "evil", "a.co.evil", "97.46.99.111", "", "x.y.a.co", "co", "localhost"};
	int k = mc_choose(mc_param("names", 3, 4) + 1); nm_t v[4];
	for (int i = 0; i < k; i++) v[i] = N[mc_choose(HX_N(N))];
	X509 *x = cert(v, k); char nt[200] = ""; for (int i = 0; i < k; i++) sprintf(nt + strlen(nt), "%d:%s ", v[i].kind, v[i].kind == 1 ? "(address)" : mc_esc(v[i].p, (size_t)v[i].n)); mc_note("%s", nt);
	for (int f = 0; f < 16; f++) for (int hi = 0; hi < (int)HX_N(H); hi++) {
		int fl = f & 7, want = 0; if (f & 8) fl |= MULTI; char *h = hx_dupz(H[hi]);
		for (int i = 0; i < k && *h; i++) {
			char ip[64]; const char *p = v[i].p;
			if (v[i].kind == 2 || v[i].kind == 3 || !(fl & (v[i].kind >= 4 ? CN : SAN))) continue;
			if (v[i].kind == 1) { inet_ntop(v[i].n == 4 ? AF_INET : AF_INET6, p, ip, sizeof ip); p = ip; } else if (memchr(p, 0, (size_t)v[i].n)) continue;
			if (covers(h, p, fl)) want = 1;
		}
		mc_check((int)M_tls_verify_host(x, h, (M_tls_verify_host_flags_t)fl) == want, "names %s, flags %d: host %s is %s", nt, fl, h, want ? "refused" : "accepted");
		free(h);
	}
	mc_check(!M_tls_verify_host(x, NULL, M_TLS_VERIFY_HOST_FLAG_NORMAL) && !M_tls_verify_host(NULL, "a.co", M_TLS_VERIFY_HOST_FLAG_NORMAL), "nothing given is accepted");
	X509_free(x); mc_case();
}
static void run_long(void)
{
	/* name and host of different lengths, one a prefix of the other */
	int nl = 250 + mc_choose(12), hl = 250 + mc_choose(12), cn = mc_choose(2), w = mc_choose(3), fl = (cn ? CN : SAN) | WILD | (mc_choose(2) ? FUZZY : 0); char a[300], b[300];
	for (int i = 0; i < 299; i++) a[i] = b[i] = i % 40 == 39 ? '.' : 'a';
	if (w == 1) { a[0] = '*'; a[1] = '.'; b[0] = 'b'; b[1] = '.'; }
	if (w == 2) { memmove(a + 10, ".x.com", 6); memmove(b + 10, ".x.com", 6); a[16] = b[16] = '.'; }
	a[nl] = b[hl] = 0;
	nm_t v = {cn ? 4 : 0, a, nl}; X509 *x = cert(&v, 1); char *h = hx_dupz(b); mc_note("%d %d", nl, hl);
	int want = covers(b, a, fl);
	/* names longer than any in the domain name system may be left out */
	int got = (int)M_tls_verify_host(x, h, (M_tls_verify_host_flags_t)fl);
	mc_check(got == want || (nl > 253 && !got), "a name of %d bytes %s a host of %d bytes (%s, kind %d)", nl, want ? "does not cover" : "covers", hl, cn ? "CN" : "SAN", w);
	free(h); X509_free(x); mc_case();
}
static void run_ip(void)
{
	static const char *H[] = {"0.0.0.0", "10.0.0.1", "255.255.255.255", "10.0.0.10", "::", "::1", "2001:db8::1", "2001:DB8::1", "fe80::1:2", "::ffff:10.0.0.1", "1:2:3:4:5:6:7:8", "x.0.0.1", "10.0.0.1."};
	static const unsigned char B[][16] = {{0}, {10, 0, 0, 1}, {255, 255, 255, 255}, {10, 0, 0, 10}, {0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1}, {0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0, 7, 0, 8}, {0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 2}};
	int hi = mc_choose(HX_N(H)), bi = mc_choose(HX_N(B)), n = mc_choose(18), w = mc_choose(3); char buf[40]; memcpy(buf, B[bi], 16); buf[16] = 0;
	nm_t v[2] = {{1, buf, n}, {0, "*.0.0.1", 7}}; X509 *x = cert(v, w ? 2 : 1); int fl = SAN | WILD | (w == 2 ? MULTI : 0);
	unsigned char b[16]; int hn = inet_pton(AF_INET, H[hi], b) == 1 ? 4 : inet_pton(AF_INET6, H[hi], b) == 1 ? 16 : 0;
	int want = (hn && hn == n && !memcmp(b, B[bi], (size_t)n)) || (w && covers(H[hi], "*.0.0.1", fl));
	char *h = hx_dupz(H[hi]); mc_note("%s", h);
	mc_check((int)M_tls_verify_host(x, h, (M_tls_verify_host_flags_t)fl) == want, "address name %s%s: host %s is %s", mc_esc(buf, (size_t)n), w ? " and *.0.0.1" : "", h, want ? "refused" : "accepted");
	free(h); X509_free(x); mc_case();
}
void mc_init(void) { mc_leakcheck = 1; { X509 *x = X509_new(); X509_free(x); } }
void mc_run(void)
{
	int only = mc_param("only", -1, -1);
	switch (only >= 0 ? only : mc_choose(4)) { case 0: run_names(); break; case 1: run_certs(); break; case 2: run_long(); break; default: run_ip(); }
}
