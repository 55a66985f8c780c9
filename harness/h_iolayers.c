// MODE: seq
// MODS: thread io
// WRAP: M_rand pipe2 epoll_create1 clock_gettime gettimeofday epoll_wait poll time
/* C07: what goes in at one end of a stack of IO layers comes out at the other, complete, in order and without a lost wakeup. */
#include "hx.h"
static unsigned char gen_in(size_t i) { return (unsigned char)(i * 131 + (i >> 8) * 17 + 3); }
static unsigned char gen_out(size_t i) { return (unsigned char)(i * 37 + (i >> 8) * 29 + 9); }
static unsigned char mock_byte(size_t i) { return gen_in(i); }
#include "mockio.h"
const char *mc_name = "h_iolayers";
enum { L_END, L_TRACE, L_BUF00, L_BUFR, L_BUFR32, L_BUFW, L_BUFRW, L_BW, L_BURST, L_TRICKLE, L_LAT, L_LONG };
static const char *const lname[] = { "", "trace", "buffer(0,0)", "buffer(16384,0)", "buffer(32768,0)", "buffer(0,64)", "buffer(16384,64)", "bwshaping off", "bwshaping burst", "bwshaping trickle", "bwshaping latency", "bwshaping trickle, fine" };
static const int stacks[][4] = { { 0 }, { L_TRACE }, { L_BUF00 }, { L_BUFR }, { L_BUFR32 }, { L_BUFW }, { L_BUFRW }, { L_BW }, { L_BURST }, { L_TRICKLE }, { L_LAT }, { L_LONG }, { L_BURST, L_BUFRW }, { L_BUFRW, L_BURST }, { L_TRACE, L_BUFRW, L_TRACE }, { L_BUFRW, L_TRICKLE }, { L_BUFRW, L_BUFRW }, { L_LAT, L_BUFRW } };
#define BPS 10000u
static size_t endout; static int bye, roomy; static int stk, rkind, paused, ended, nconn, timed, haslat, fine; static size_t got, wr_want, wr_acc; static M_io_error_t rlast; static size_t traced_r, traced_w;
static struct { uint64_t t; size_t n; } tl_r[4096], tl_w[4096]; static int n_r, n_w; /* progress at the mock, for the rate limits */
static size_t last_pos, last_out, rmaxseen;
static void sample(void) { if (!mk) return; if (mk->pos != last_pos && n_r < 4096) { tl_r[n_r].t = mnow; tl_r[n_r++].n = mk->pos - last_pos; last_pos = mk->pos; } if (mk->out_len != last_out && n_w < 4096) { tl_w[n_w].t = mnow; tl_w[n_w++].n = mk->out_len - last_out; last_out = mk->out_len; } }
static void tracecb(void *a, M_io_trace_type_t t, M_event_type_t e, const unsigned char *d, size_t n)
{
	size_t i; int which = (int)(uintptr_t)a; (void)e;
	if (which) return; /* only the lowest trace layer is checked */
	if (t == M_IO_TRACE_TYPE_READ) { for (i = 0; i < n; i++) mc_check(d[i] == gen_in(traced_r + i), "trace: byte %zu read is wrong", traced_r + i); traced_r += n; }
	if (t == M_IO_TRACE_TYPE_WRITE) { for (i = 0; i < n; i++) mc_check(d[i] == gen_out(traced_w + i), "trace: byte %zu written is wrong", traced_w + i); traced_w += n; }
}
static unsigned char rb[40000];
static int one_read(size_t n)
{
	size_t l = 0, i; M_io_error_t e = M_io_read(mio, rb, n, &l);
	mc_note("    read(%zu) -> %d, %zu", n, e, l); rlast = e; if (l > rmaxseen) rmaxseen = l;
	if (e != M_IO_ERROR_SUCCESS) { mc_check(l == 0, "failed read reports %zu bytes", l); return 0; }
	mc_check(l > 0 && l <= n, "read of %zu returned %zu bytes", n, l);
	for (i = 0; i < l; i++) mc_check(rb[i] == gen_in(got + i), "byte %zu of the stream is wrong (%zu bytes arrived)", got + i, mk ? mk->avail : 0);
	got += l; mc_check(!mk || got <= mk->avail, "read %zu bytes, only %zu arrived", got, mk->avail); return 1;
}
static void do_read(void) { if (rkind == 0) one_read(1000); else if (rkind == 1) one_read(sizeof(rb)); else while (one_read(777)) { } }
static void do_write(void)
{
	unsigned char b[256]; size_t n, l, i; M_io_error_t e;
	while (!ended && wr_acc < wr_want) {
		n = M_MIN(wr_want - wr_acc, sizeof(b)); for (i = 0; i < n; i++) b[i] = gen_out(wr_acc + i);
		l = 0; e = M_io_write(mio, b, n, &l); mc_note("    write(%zu) -> %d, %zu", n, e, l);
		mc_check(l <= n && (e == M_IO_ERROR_SUCCESS || l == 0), "write result %zu", l);
		if (e != M_IO_ERROR_SUCCESS) return;
		mc_check(l > 0, "a successful write of nothing"); wr_acc += l; memset(b, 0xEE, sizeof(b));
	}
}
static int again;
static void fresh(void) { nconn = paused = ended = n_r = n_w = 0; got = wr_want = wr_acc = traced_r = traced_w = last_pos = last_out = rmaxseen = endout = 0; rlast = 0; }
static void ucb(M_event_t *e, M_event_type_t t, M_io_t *io, void *arg)
{
	(void)e; (void)io; (void)arg; mact++; mc_note("  event %d", t);
	mc_check(!ended, "event %d after the end", t);
	switch (t) {
	case M_EVENT_TYPE_CONNECTED: nconn++; mc_check(nconn == 1, "CONNECTED twice"); break;
	case M_EVENT_TYPE_READ: mc_check(nconn, "READ before CONNECTED"); if (!paused) do_read(); break;
	case M_EVENT_TYPE_WRITE: mc_check(nconn, "WRITE before CONNECTED"); do_write(); break;
	case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR:
		endout = mk->out_len; if (again) { mc_check(M_io_reconnect(mio), "reconnect"); again = 0; fresh(); break; }
		if (bye) { ended = 1; M_io_destroy(mio); mio = NULL; break; }
		mc_check(mk->end, "the connection ended although the peer did not end it"); if (paused) while (one_read(1000)) { }
		mc_check(got == mk->avail, "the connection is reported as ended after %zu of %zu bytes were read", got, mk->avail); ended = 1; sample(); M_io_destroy(mio); mio = NULL; break;
	default: mc_fail("event %d", t);
	}
}
#define RATE(w, tl, cnt) do { int a_, b_; for (a_ = 0; a_ < cnt; a_++) { size_t s9 = 0, s1 = 0, s10 = 0; for (b_ = a_; b_ < cnt; b_++) { uint64_t d_ = tl[b_].t - tl[a_].t; if (d_ < 900) s9 += tl[b_].n; if (d_ < 100) s1 += tl[b_].n; if (d_ < 1000) s10 += tl[b_].n; } \
	if (burst) mc_check(s9 <= BPS, "%s: %zu bytes within 900 ms, the limit is %u per second in bursts", w, s9, BPS); \
	if (trickle) { mc_check(s1 <= 2 * BPS / 10, "%s: %zu bytes within 100 ms, the limit is %u per 100 ms slot", w, s1, BPS / 10); mc_check(s10 <= BPS + BPS / 10, "%s: %zu bytes within a second, the limit is %u", w, s10, BPS); } } } while (0)
static void add(int l, int which)
{
	size_t id = 0; M_io_error_t e = M_IO_ERROR_SUCCESS; int d;
	switch (l) {
	case L_TRACE: e = M_io_add_trace(mio, &id, tracecb, (void *)(uintptr_t)which, NULL, NULL); break;
	case L_BUF00: e = M_io_add_buffer(mio, &id, 0, 0); break;
	case L_BUFR: e = M_io_add_buffer(mio, &id, 16384, 0); break;
	case L_BUFR32: e = M_io_add_buffer(mio, &id, 32768, 0); break;
	case L_BUFW: e = M_io_add_buffer(mio, &id, 0, 64); break;
	case L_BUFRW: e = M_io_add_buffer(mio, &id, 16384, 64); break;
	default: e = M_io_add_bwshaping(mio, &id); timed = 1;
		for (d = 1; d <= 2; d++) { M_io_bwshaping_direction_t dir = d == 1 ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT;
			if (l == L_BURST || l == L_TRICKLE) { mc_check(M_io_bwshaping_set_throttle(mio, id, dir, BPS) && M_io_bwshaping_set_throttle_mode(mio, id, dir, l == L_BURST ? M_IO_BWSHAPING_MODE_BURST : M_IO_BWSHAPING_MODE_TRICKLE) && M_io_bwshaping_set_throttle_period(mio, id, dir, 1, 100), "configure"); }
			if (l == L_LAT) { mc_check(M_io_bwshaping_set_latency(mio, id, dir, 50), "latency"); haslat = 1; }
			if (l == L_LONG) { fine = 1; mc_check(M_io_bwshaping_set_throttle(mio, id, dir, BPS) && M_io_bwshaping_set_throttle_mode(mio, id, dir, M_IO_BWSHAPING_MODE_TRICKLE) && M_io_bwshaping_set_throttle_period(mio, id, dir, 10, 20), "configure"); } }
	}
	mc_check(e == M_IO_ERROR_SUCCESS && id == (size_t)which + 1, "adding %s gave %d, layer %zu", lname[l], e, id);
}
static int depth, lo, hi;
void mc_init(void) { depth = (int)mc_param("depth", 3, 4); lo = (int)mc_param("lo", 0, 0); hi = (int)mc_param("hi", 99, 99); mc_leakcheck = 1; }
void mc_run(void)
{
	int i, k, room, setup, eof = 0, burst, trickle; static const size_t arr[] = { 1, 16384, 20000 };
	fresh(); again = timed = haslat = fine = 0;
	mock_begin(); mock_create();
	if (hi > (int)HX_N(stacks)) hi = (int)HX_N(stacks);
	stk = lo + mc_choose(hi - lo); rkind = mc_choose(3); room = mc_choose(2); setup = room ? 0 : mc_choose(stacks[stk][0] ? 4 : 2);
	roomy = !room; bye = 0; if (room) mk->room = 50;
	for (i = 0; i < 4 && stacks[stk][i]; i++) add(stacks[stk][i], i);
	burst = stacks[stk][0] == L_BURST; trickle = stacks[stk][0] == L_TRICKLE;
	mc_note("stack: %s %s %s, reader %d, %s", lname[stacks[stk][0]], lname[stacks[stk][1]], lname[stacks[stk][2]], rkind, room ? "50 bytes of room" : "unlimited room");
	if (setup == 3) { mc_note("accepted"); mc_check(mock_accepted() == M_IO_ERROR_SUCCESS, "accept"); }
	M_event_add(mev, mio, ucb, NULL);
	if (setup == 1 || setup == 2) { mc_note("a connection before, ended by %s", setup == 1 ? "the peer" : "us"); mock_loop(); mock_ev(M_EVENT_TYPE_CONNECTED); mock_loop(); paused = 1; mock_arrive(20000); mock_loop(); wr_want = 10; do_write(); mock_loop(); mnow += 50; mock_loop(); again = 1; if (setup == 1) mock_eof(M_IO_ERROR_DISCONNECT); else M_io_disconnect(mio);
		paused = 0; if (setup == 1) while (one_read(777)) { }
		mock_loop(); if (setup == 1) for (i = 0; i < 400 && again; i++) { mnow += fine ? 20 : 51; mock_loop(); } mc_check(!again, "the first connection did not end"); mc_note("reconnected"); }
	mock_loop(); mc_check(!nconn, "an event before the connection"); mock_ev(M_EVENT_TYPE_CONNECTED); mock_loop(); mc_check(nconn == 1, "not connected");
	for (k = 0; k < depth && !ended; k++) {
		int op = mc_choose(11 + timed);
		if (op == 0) break;
		if (op <= 3) { if (eof) mc_prune(); mc_note("arrive %zu", arr[op - 1]); mock_arrive(arr[op - 1]); mock_loop(); }
		else if (op == 4) { paused = !paused; mc_note(paused ? "pause" : "resume"); if (!paused) { while (one_read(777)) { } mock_loop(); } }
		else if (op == 5 || op == 6) { wr_want += op == 5 ? 10 : 100; mc_note("write %d", op == 5 ? 10 : 100); do_write(); mock_loop(); }
		else if (op == 7) { if (!room) mc_prune(); mc_note("room for 70 more"); mock_room(70); mock_loop(); }
		else if (op == 8) { if (eof) mc_prune(); eof = 1; mc_note("the peer ends"); mock_eof(M_IO_ERROR_DISCONNECT); mock_loop(); }
		else if (op == 9) { /* hang up as epoll reports it: READ and DISCONNECTED together */
			if (eof || timed || rkind != 2 || paused) mc_prune(); eof = 1; mc_note("the peer hangs up"); mock_hup(); mock_loop(); }
		else if (op == 10) { /* a graceful disconnect by the application: what it wrote and the peer has room for still goes out */
			size_t wr = wr_acc; if (timed || wr_acc != wr_want) mc_prune(); wr_want += 10; do_write(); wr = wr_acc; mc_note("disconnect"); M_io_disconnect(mio); bye = 1; mock_loop(); mc_check(ended == 1, "no event after a disconnect"); if (roomy) mc_check(endout == wr, "disconnect: only %zu of %zu bytes written were sent", endout, wr); bye = 0; break; }
		else { uint64_t d = mc_choose(2) ? 100 : 50; mc_note("%d ms pass", (int)d); mnow += d; mock_loop(); }
		sample(); mc_step();
	}
	/* everything is let go: all of it must arrive */
	if (!ended) { int t; mc_note("drain"); paused = 0; mock_room((size_t)1 << 40); while (one_read(777)) { } mock_loop(); sample();
		for (t = 0; t < (fine ? 1000 : timed ? 400 : 2) && !ended; t++) { if (got == mk->avail && wr_acc == wr_want && mk->out_len == wr_want && !eof) break; if (timed) mnow += haslat ? 51 : fine ? 20 : 100; mock_loop(); sample(); }
		if (!ended) {
			mc_check(got == mk->avail, "only %zu of the %zu bytes that arrived reached the application", got, mk->avail);
			mc_check(wr_acc == wr_want, "the application could only write %zu of %zu bytes", wr_acc, wr_want);
			mc_check(mk->out_len == wr_want, "only %zu of the %zu bytes written reached the peer", mk->out_len, wr_want);
			for (t = 0; t < (int)mk->out_len; t++) mc_check(mk->out[t] == gen_out((size_t)t), "byte %d written is wrong", t);
			if (stacks[stk][0] == L_TRACE) mc_check(traced_r >= got && traced_w == wr_want, "trace saw %zu read, %zu written", traced_r, traced_w);
			mc_check(!eof, "the peer ended the connection, the application is not told"); } }
	if (burst || trickle) { RATE("in", tl_r, n_r); RATE("out", tl_w, n_w); }
	mc_outcome((uint64_t)stk * 100003 + (uint64_t)rkind * 1009 + got * 31 + wr_acc + (uint64_t)ended); mc_step(); mock_end(); mc_case();
}
