// MODE: seq
// MODS: thread io
// WRAP: M_rand pipe2 epoll_create1 clock_gettime gettimeofday epoll_wait poll time
/* C08: PROXY protocol layer. Every header form x every fragmentation x reader behaviour, against the protocol's grammar. */
#include "hx.h"
static unsigned char msg[600]; static size_t mlen;
static unsigned char mock_byte(size_t i) { return msg[i]; }
#include "mockio.h"
const char *mc_name = "h_proxy";
typedef struct { const char *nm; int ok; /* 1 relayed 0 local -1 invalid */ const char *src, *dst; unsigned sp, dp; int six; const char *hdr; int v2; } hdr_t;
#define SIG "\r\n\r\n\0\r\nQUIT\n"
#define A4 "\x0a\x01\x02\x03\xc0\xa8\x00\x09\x00\x50\xff\xff"
#define A6 "\x20\x01\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\x01\xfe\x80\0\0\0\0\0\0\0\0\0\0\0\0\0\x02\x1f\x90\x00\x01"
#define S1(nm,ok,s,d,sp,dp,six,h) { nm, ok, s, d, sp, dp, six, h, 0 }
static const struct { hdr_t h; size_t n; } V[] = {
#define L1(nm,ok,s,d,sp,dp,six,h) { { nm, ok, s, d, sp, dp, six, h, 0 }, sizeof(h) - 1 },
#define L2(nm,ok,s,d,sp,dp,six,h) { { nm, ok, s, d, sp, dp, six, h, 1 }, sizeof(h) - 1 },
	L1("v1 tcp4", 1, "10.1.2.3", "192.168.0.9", 80, 65535, 0, "PROXY TCP4 10.1.2.3 192.168.0.9 80 65535\r\n")
	L1("v1 tcp4 longest", 1, "255.255.255.255", "255.255.255.254", 65535, 65534, 0, "PROXY TCP4 255.255.255.255 255.255.255.254 65535 65534\r\n")
	L1("v1 tcp4 short", 1, "1.2.3.4", "5.6.7.8", 1, 2, 0, "PROXY TCP4 1.2.3.4 5.6.7.8 1 2\r\n")
	L1("v1 tcp6", 1, "2001:db8::1", "fe80::2", 8080, 1, 1, "PROXY TCP6 2001:db8::1 fe80::2 8080 1\r\n")
	L1("v1 tcp6 longest", 1, "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe", 65535, 65535, 1, "PROXY TCP6 ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe 65535 65535\r\n")
	L1("v1 unknown", 0, NULL, NULL, 0, 0, 0, "PROXY UNKNOWN\r\n")
	L1("v1 unknown with addresses", 0, NULL, NULL, 0, 0, 0, "PROXY UNKNOWN 10.1.2.3 192.168.0.9 80 65535\r\n")
	L1("v1 unknown longest", 0, NULL, NULL, 0, 0, 0, "PROXY UNKNOWN ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff 65535 65535\r\n")
	L2("v2 tcp4", 1, "10.1.2.3", "192.168.0.9", 80, 65535, 0, SIG "\x21\x11\x00\x0c" A4)
	L2("v2 tcp4 with tlv", 1, "10.1.2.3", "192.168.0.9", 80, 65535, 0, SIG "\x21\x11\x00\x13" A4 "\x04\x00\x04" "abcd")
	L2("v2 tcp6", 1, "2001:db8::1", "fe80::2", 8080, 1, 1, SIG "\x21\x21\x00\x24" A6)
	L2("v2 tcp6 with tlv", 1, "2001:db8::1", "fe80::2", 8080, 1, 1, SIG "\x21\x21\x00\x28" A6 "\x04\x00\x01" "x")
	L2("v2 local", 0, NULL, NULL, 0, 0, 0, SIG "\x20\x00\x00\x00")
	L2("v2 local with data", 0, NULL, NULL, 0, 0, 0, SIG "\x20\x00\x00\x05" "hello")
	L2("v2 local with the family filled in", 0, NULL, NULL, 0, 0, 0, SIG "\x20\x11\x00\x0c" "\0\0\0\0\0\0\0\0\0\0\0\0")
	L2("v2 local with an unsupported family", 0, NULL, NULL, 0, 0, 0, SIG "\x20\x31\x00\x02" "zz")
	L2("v2 unspec", 0, NULL, NULL, 0, 0, 0, SIG "\x21\x00\x00\x00")
	L2("v2 unspec with data", 0, NULL, NULL, 0, 0, 0, SIG "\x21\x00\x00\x07" "PROXY T")
	L1("v1 no source", -1, 0, 0, 0, 0, 0, "PROXY TCP4  192.168.0.9 80 65535\r\n")
	L1("v1 bad source", -1, 0, 0, 0, 0, 0, "PROXY TCP4 10.1.2.300 192.168.0.9 80 65535\r\n")
	L1("v1 bad port", -1, 0, 0, 0, 0, 0, "PROXY TCP4 10.1.2.3 192.168.0.9 80x 65535\r\n")
	L1("v1 large port", -1, 0, 0, 0, 0, 0, "PROXY TCP4 10.1.2.3 192.168.0.9 80 65536\r\n")
	L1("v1 long port", -1, 0, 0, 0, 0, 0, "PROXY TCP4 10.1.2.3 192.168.0.9 80 4294967376\r\n")
	L1("v1 wrong family", -1, 0, 0, 0, 0, 0, "PROXY TCP6 10.1.2.3 192.168.0.9 80 65535\r\n")
	L1("v1 mixed family", -1, 0, 0, 0, 0, 0, "PROXY TCP4 10.1.2.3 fe80::2 80 65535\r\n")
	L1("v1 protocol", -1, 0, 0, 0, 0, 0, "PROXY UDP4 10.1.2.3 192.168.0.9 80 65535\r\n")
	L1("v1 other text", -1, 0, 0, 0, 0, 0, "GET / HTTP/1.1\r\n\r\n")
	L1("v1 near miss", -1, 0, 0, 0, 0, 0, "PROXYTCP4 10.1.2.3 192.168.0.9 80 65535\r\n")
	L2("v2 bad signature", -1, 0, 0, 0, 0, 0, "\r\n\r\n\0\r\nQUIX\n" "\x21\x11\x00\x0c" A4)
	L2("v2 version 1", -1, 0, 0, 0, 0, 0, SIG "\x11\x11\x00\x0c" A4)
	L2("v2 bad command", -1, 0, 0, 0, 0, 0, SIG "\x22\x11\x00\x0c" A4)
	L2("v2 short tcp4", -1, 0, 0, 0, 0, 0, SIG "\x21\x11\x00\x0b" A4)
	L2("v2 short tcp6", -1, 0, 0, 0, 0, 0, SIG "\x21\x21\x00\x23" A6)
};
static int nconn, nread, ndisc, nerr, nwrite, rsize, got_n, outbound, wrote; static char got[700];
static const hdr_t *H; static M_io_error_t lasterr;
static void check_info(int ok, const char *src, const char *dst, unsigned sp, unsigned dp, int six)
{
	mc_check(M_io_proxy_protocol_relayed(mio) == (ok == 1), "relayed() is %d", M_io_proxy_protocol_relayed(mio));
	if (ok != 1) { mc_check(M_io_proxy_protocol_source_ipaddr(mio) == NULL && M_io_proxy_protocol_dest_ipaddr(mio) == NULL, "a connection that is not relayed has addresses"); mc_check(M_io_proxy_protocol_source_port(mio) == 0 && M_io_proxy_protocol_dest_port(mio) == 0, "a connection that is not relayed has ports"); return; }
	{ unsigned char a[32], b[32]; size_t al = 0, bl = 0; const char *s = M_io_proxy_protocol_source_ipaddr(mio), *d = M_io_proxy_protocol_dest_ipaddr(mio);
	  mc_check(s && d, "a relayed connection has no addresses");
	  mc_check(M_io_net_ipaddr_to_bin(a, sizeof(a), s, &al) && M_io_net_ipaddr_to_bin(b, sizeof(b), src, &bl) && al == bl && !memcmp(a, b, al), "source address is %s, sent %s", s, src);
	  al = bl = 0; mc_check(M_io_net_ipaddr_to_bin(a, sizeof(a), d, &al) && M_io_net_ipaddr_to_bin(b, sizeof(b), dst, &bl) && al == bl && !memcmp(a, b, al), "destination address is %s, sent %s", d, dst);
	  mc_check(M_io_proxy_protocol_source_port(mio) == sp && M_io_proxy_protocol_dest_port(mio) == dp, "ports are %u %u, sent %u %u", M_io_proxy_protocol_source_port(mio), M_io_proxy_protocol_dest_port(mio), sp, dp);
	  mc_check(M_io_proxy_protocol_proxied_type(mio) == (six ? M_IO_NET_IPV6 : M_IO_NET_IPV4), "proxied type %d", M_io_proxy_protocol_proxied_type(mio)); }
}
static void rd(void)
{
	unsigned char b[64]; size_t n; M_io_error_t e;
	for (;;) {
		n = 0; e = M_io_read(mio, b, (size_t)(rsize ? rsize : (int)sizeof(b)), &n);
		mc_note("    read -> %d (%zu)", e, n);
		if (e != M_IO_ERROR_SUCCESS) { mc_check(n == 0, "a failed read reports %zu bytes", n); lasterr = e; return; }
		mc_check(n > 0 && n <= (size_t)(rsize ? rsize : (int)sizeof(b)), "read returned %zu bytes", n);
		mc_check((size_t)got_n + n <= sizeof(got), "far too much data"); memcpy(got + got_n, b, n); got_n += (int)n;
		if (rsize == 1) return; /* one read per event */
	}
}
static const char APP[] = "app data";
static void ucb(M_event_t *e, M_event_type_t t, M_io_t *io, void *arg)
{
	(void)e; (void)io; (void)arg; mact++; mc_note("  event %d", t);
	mc_check(!nerr && !ndisc, "event %d after the connection ended", t);
	switch (t) {
	case M_EVENT_TYPE_CONNECTED: nconn++; mc_check(nconn == 1, "CONNECTED twice"); if (!outbound) check_info(H->ok, H->src, H->dst, H->sp, H->dp, H->six); if (outbound) { size_t n = 0; if (M_io_write(mio, (const unsigned char *)APP + wrote, 8 - (size_t)wrote, &n) == M_IO_ERROR_SUCCESS) wrote += (int)n; } break;
	case M_EVENT_TYPE_READ: mc_check(nconn == 1, "READ before CONNECTED"); nread++; rd(); break;
	case M_EVENT_TYPE_WRITE: mc_check(nconn == 1, "WRITE before CONNECTED"); nwrite++; if (outbound && wrote < 8) { size_t n = 0; if (M_io_write(mio, (const unsigned char *)APP + wrote, 8 - (size_t)wrote, &n) == M_IO_ERROR_SUCCESS) wrote += (int)n; } break;
	case M_EVENT_TYPE_DISCONNECTED: ndisc++; M_io_destroy(mio); mio = NULL; mgone = 1; break;
	case M_EVENT_TYPE_ERROR: nerr++; { char m[256]; M_io_get_error_string(mio, m, sizeof(m)); mc_note("   error %s", m); } M_io_destroy(mio); mio = NULL; mgone = 1; break;
	default: mc_fail("event %d", t);
	}
}
static void expect_stream(const char *p, size_t n, const char *when) { mc_check((size_t)got_n == n && !memcmp(got, p, n), "%s: the application read %s, the peer sent %s", when, mc_esc(got, (size_t)got_n), mc_esc(p, n)); }
/* a fragmentation: the cut points, all of them or up to two */
static size_t cuts[700]; static int ncut;
static void choose_cuts(size_t n, int maxc)
{
	int k = mc_choose(maxc + 2); size_t i;
	ncut = 0;
	if (k == maxc + 1) { for (i = 1; i < n; i++) cuts[ncut++] = i; return; }
	if (k >= 1) cuts[ncut++] = 1 + (size_t)mc_choose((int)n - 1);
	if (k >= 2) { if (cuts[0] + 1 >= n) mc_prune(); cuts[1] = cuts[0] + 1 + (size_t)mc_choose((int)(n - 1 - cuts[0])); ncut = 2; }
}
static void inbound(void)
{
	static const char tail_[] = "DATA 1 2\r\n"; int v = mc_choose((int)HX_N(V)), fl = mc_choose(3), tl = mc_choose(3), ending, i; size_t pos = 0, hl = V[v].n, tn = tl == 0 ? 0 : tl == 1 ? 1 : 10; int exp;
	H = &V[v].h; rsize = mc_choose(2) ? 1 : 0; ending = mc_choose(3); /* none, disconnect, cut short inside the header */
	exp = H->ok; if (fl && (fl == 1) == H->v2) exp = -1;
	if (fl && tl != 1) mc_prune();
	memcpy(msg, H->hdr, hl); memcpy(msg + hl, tail_, tn); mlen = hl + tn;
	if (ending == 2) { if (tl || rsize) mc_prune(); }
	mock_create(); mc_check(M_io_proxy_protocol_inbound_add(mio, NULL, (M_uint32)fl) == M_IO_ERROR_SUCCESS, "inbound_add");
	mc_note("%s, flags %d, then %zu application bytes", H->nm, fl, tn);
	M_event_add(mev, mio, ucb, NULL); mock_ev(M_EVENT_TYPE_CONNECTED); mock_loop();
	mc_check(nconn == 0 && nerr == 0, "an event before the header");
	if (ending == 2) { /* stops inside the header */
		size_t cut = (size_t)mc_choose((int)hl); int how = mc_choose(3);
		if (cut) { mock_arrive(cut); mock_loop(); }
		mc_note("only %zu bytes, then %s", cut, how == 0 ? "silence" : how == 1 ? "disconnect" : "error");
		mc_check(nconn == 0 && got_n == 0, "connected on a partial header");
		if (!nerr) { if (how == 0) { mc_check(!ndisc, "disconnected"); mnow += 499; mock_loop(); if (exp == 1 || exp == 0) mc_check(!nerr, "gave up before the timeout"); mnow += 2; mock_loop(); mc_check(nerr == 1, "no error when the header did not arrive in time"); } else { mock_eof(how == 1 ? M_IO_ERROR_DISCONNECT : M_IO_ERROR_ERROR); mock_loop(); mc_check(nerr + ndisc == 1, "no event when the peer went away during the header"); } }
		mc_check(nconn == 0 && nread == 0, "events on a connection that never came up"); mc_outcome((uint64_t)v * 8 + 1); return;
	}
	choose_cuts(mlen, exp >= 0 && fl == 0 && tl == 2 && rsize == 0 && ending == 0 ? 2 : 1);
	cuts[ncut] = mlen;
	for (i = 0; i <= ncut; i++) { if (mgone) break; mk->avail = cuts[i]; if (i == ncut && ending == 1 && mc_choose(2)) mk->end = M_IO_ERROR_DISCONNECT; mc_note("arrived %zu", cuts[i]); mock_loop(); if (nerr) break; if (cuts[i] < hl) mc_check(nconn == 0, "connected before the header is complete"); }
	(void)pos;
	if (exp < 0) { if (!nerr) { mnow += 600; mock_loop(); } mc_check(nerr == 1 && nconn == 0 && nread == 0 && got_n == 0, "an invalid header: error %d connected %d", nerr, nconn); mc_outcome((uint64_t)v * 8 + 2); return; }
	mc_check(nconn == 1, "no CONNECTED after the complete header (error %d, disconnected %d)", nerr, ndisc);
	expect_stream((char *)msg + hl, tn, "after the header");
	if (ending == 1) { if (!mgone) { mock_eof(M_IO_ERROR_DISCONNECT); mock_loop(); } mc_check(ndisc == 1 && !nerr, "end of connection: disconnected %d error %d", ndisc, nerr); }
	else { mc_check(!nerr && !ndisc, "ended"); mnow += 600; mock_loop(); mc_check(!nerr && !ndisc, "the header timeout fired on an established connection"); memcpy(msg + mlen, "more", 4); mock_arrive(4); mock_loop(); expect_stream((char *)msg + hl, tn + 4, "later data"); check_info(H->ok, H->src, H->dst, H->sp, H->dp, H->six); }
	mc_outcome((uint64_t)v * 8 + 3);
}
static const struct { const char *s, *d; unsigned sp, dp; int ok, six; } E[] = {
	{ "10.1.2.3", "192.168.0.9", 80, 65535, 1, 0 }, { "255.255.255.255", "0.0.0.0", 65535, 1, 1, 0 }, { "2001:db8::1", "fe80::2", 8080, 443, 1, 1 }, { "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::1", 1, 2, 1, 1 }, { NULL, NULL, 0, 0, 0, 0 }, { "", "", 0, 0, 0, 0 },
	{ "10.1.2.3", NULL, 1, 1, -1, 0 }, { NULL, "10.1.2.3", 1, 1, -1, 0 }, { "10.1.2.3", "::1", 1, 1, -1, 0 }, { "::1", "10.1.2.3", 1, 1, -1, 0 }, { "10.1.2.3", "10.1.2.4", 0, 1, -1, 0 }, { "10.1.2.3", "10.1.2.4", 1, 0, -1, 0 }, { "bogus", "10.1.2.4", 1, 1, -1, 0 }, { "10.1.2.3", "bogus", 1, 1, -1, 0 } };
static int other_ok; static void *other(void *a) { M_io_t *io = a; other_ok = M_io_proxy_protocol_relayed(io); return NULL; }
static int lock_free; 
static void *prober(void *a) { M_event_t *e = a; M_event_timer_t *t = M_event_timer_add(e, ucb, NULL); M_event_timer_remove(t); __atomic_store_n(&lock_free, 1, __ATOMIC_SEQ_CST); return NULL; }
static void usl(void) { struct timespec ts = { 0, 1000000 }; nanosleep(&ts, NULL); }
static void outb(void)
{
	int e = mc_choose((int)HX_N(E)), fl = mc_choose(4), pre = mc_choose(3), i, r, ok = E[e].ok; size_t hl; unsigned char want[200]; 
	outbound = 1; mock_create(); mc_check(M_io_proxy_protocol_outbound_add(mio, NULL, (M_uint32)fl) == M_IO_ERROR_SUCCESS, "outbound_add");
	if (pre == 1) mc_check(M_io_proxy_protocol_set_source_endpoints(mio, "9.9.9.9", "8.8.8.8", 7, 6), "set_source_endpoints"); /* replaced below, or kept when the second call is refused */
	if (pre == 2) M_event_add(mev, mio, ucb, NULL);
	r = M_io_proxy_protocol_set_source_endpoints(mio, E[e].s, E[e].d, (M_uint16)E[e].sp, (M_uint16)E[e].dp);
	mc_check(r == (ok >= 0), "set_source_endpoints(%s, %s, %u, %u) returned %d", E[e].s ? E[e].s : "NULL", E[e].d ? E[e].d : "NULL", E[e].sp, E[e].dp, r);
	if (pre == 2) { /* nobody may be left holding the event lock: another thread adds a timer */
		M_thread_attr_t *ta = M_thread_attr_create(); M_threadid_t id; int k; lock_free = 0; M_thread_attr_set_create_joinable(ta, M_TRUE); id = M_thread_create(ta, prober, mev); M_thread_attr_destroy(ta);
		for (k = 0; k < 3000 && !__atomic_load_n(&lock_free, __ATOMIC_SEQ_CST); k++) usl();
		mc_check(__atomic_load_n(&lock_free, __ATOMIC_SEQ_CST), "after set_source_endpoints another thread cannot use the event loop");
		M_thread_join(id, NULL);
	}
	{ const char *s = E[e].s, *d = E[e].d; unsigned sp = E[e].sp, dp = E[e].dp; int rel = ok, six = E[e].six;
	if (ok < 0) { if (pre == 1) { s = "9.9.9.9"; d = "8.8.8.8"; sp = 7; dp = 6; rel = 1; six = 0; } else rel = 0; }
	check_info(rel, s, d, sp, dp, six);
	/* the header the protocol prescribes */
	if (fl == 1) { hl = (size_t)(rel == 1 ? sprintf((char *)want, "PROXY TCP%d %s %s %u %u\r\n", six ? 6 : 4, s, d, sp, dp) : sprintf((char *)want, "PROXY UNKNOWN\r\n")); }
	else { size_t n = 0; memcpy(want, SIG, 12); want[12] = rel == 1 ? 0x21 : 0x20; want[13] = rel != 1 ? 0 : six ? 0x21 : 0x11; want[14] = 0; hl = 16; if (rel == 1) { n = 0; M_io_net_ipaddr_to_bin(want + hl, 16, s, &n); hl += n; n = 0; M_io_net_ipaddr_to_bin(want + hl, 16, d, &n); hl += n; want[hl++] = (unsigned char)(sp >> 8); want[hl++] = (unsigned char)sp; want[hl++] = (unsigned char)(dp >> 8); want[hl++] = (unsigned char)dp; } want[15] = (unsigned char)(hl - 16); } }
	memcpy(want + hl, APP, 8); mlen = hl + 8;
	i = mc_choose(3); /* the peer accepts everything, stops anywhere once, or fails */
	if (i == 0) { choose_cuts(mlen, 1); cuts[ncut] = mlen; mk->room = cuts[0]; }
	else { size_t at = (size_t)mc_choose((int)hl); mk->room = at; ncut = -1; if (i == 2 && at) { ncut = -2; } }
	if (pre != 2) M_event_add(mev, mio, ucb, NULL);
	if (i && mk->room == 0) mk->werr = i == 1 ? M_IO_ERROR_DISCONNECT : M_IO_ERROR_ERROR;
	mock_ev(M_EVENT_TYPE_CONNECTED); mock_loop();
	if (i) { /* write fails inside the header */
		if (!mgone && !mk->werr) { mk->werr = i == 1 ? M_IO_ERROR_DISCONNECT : M_IO_ERROR_ERROR; mock_room(10); mock_loop(); }
		mc_check(nconn == 0, "CONNECTED although the header could not be written"); mc_check(nerr + ndisc == 1, "no error when the header could not be written (error %d disconnected %d)", nerr, ndisc); mc_outcome(9000); return;
	}
	for (i = 1; i <= ncut; i++) { if (cuts[i - 1] < hl) mc_check(nconn == 0, "CONNECTED before the header was written"); mock_room(cuts[i] - cuts[i - 1]); mock_loop(); }
	mc_check(nconn == 1 && !nerr && !ndisc, "connected %d error %d", nconn, nerr);
	mc_check(mk->out_len == mlen && !memcmp(mk->out, want, mlen), "sent %s, expected %s", mc_esc((char *)mk->out, mk->out_len), mc_esc((char *)want, mlen));
	mnow += 1000; mock_loop(); mc_check(!nerr && !ndisc, "ended");
	/* data from the peer passes through */
	memcpy(msg, "reply", 5); mock_arrive(5); mock_loop(); expect_stream("reply", 5, "outbound side"); mc_outcome(9001);
	if (ncut == 0 && pre == 0) { /* a second connection of the same object sends the same header */
		nconn = wrote = got_n = 0; mc_check(M_io_reconnect(mio), "reconnect"); mc_note("reconnect"); mock_loop(); mc_check(!nconn && !nread + 1, "event before the second connection"); mock_ev(M_EVENT_TYPE_CONNECTED); mock_loop();
		mc_check(nconn == 1 && !nerr && !ndisc, "second connection: connected %d error %d disconnected %d", nconn, nerr, ndisc);
		mc_check(mk->out_len == mlen && !memcmp(mk->out, want, mlen), "second connection sent %s, expected %s", mc_esc((char *)mk->out, mk->out_len), mc_esc((char *)want, mlen));
		memcpy(msg, "again", 5); mock_arrive(5); mock_loop(); expect_stream("again", 5, "outbound side, second connection"); mc_outcome(9002); }
}
static int part;
void mc_init(void) { part = (int)mc_param("part", 0, 0); mc_leakcheck = 1; }
void mc_run(void)
{
	nconn = nread = ndisc = nerr = nwrite = got_n = outbound = wrote = rsize = 0; lasterr = 0;
	mock_begin();
	if (mc_choose(2)) outb(); else inbound();
	mc_step(); mock_end(); mc_case();
}
