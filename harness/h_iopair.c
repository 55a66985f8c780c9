// MODE: seq
// MODS: thread io
// WRAP: M_rand pipe2 epoll_create1 clock_gettime gettimeofday epoll_wait poll time
/* C07: pipes and loopbacks of the library itself, with layers on both ends. */
#include "hx.h"
static unsigned char gen(size_t i) { return (unsigned char)(i * 131 + (i >> 8) * 17 + 3); }
static unsigned char mock_byte(size_t i) { return gen(i); }
#include "mockio.h"
const char *mc_name = "h_iopair";
enum { L_NONE, L_TRACE, L_BUFRW, L_BUF00, L_BW };
static const int pairs[][4] = { { L_NONE, L_NONE, L_NONE, L_NONE }, { L_TRACE, L_NONE, L_TRACE, L_NONE }, { L_BUFRW, L_NONE, L_NONE, L_NONE }, { L_NONE, L_NONE, L_BUFRW, L_NONE }, { L_BUFRW, L_TRACE, L_TRACE, L_BUFRW }, { L_BW, L_BUFRW, L_BUF00, L_BW } };
static M_io_t *r, *w; static int loopb, rkind, paused, nconn[2], ended[2], bye, rgone; static size_t got, want, acc; static M_io_error_t rlast;
static unsigned char rb[80000], all[700000];
static void tracecb(void *a, M_io_trace_type_t t, M_event_type_t e, const unsigned char *d, size_t n) { (void)a; (void)t; (void)e; (void)d; (void)n; }
static int one_read(size_t n)
{
	size_t l = 0, i; M_io_error_t e;
	if (!r) return 0;
	e = M_io_read(r, rb, n, &l); rlast = e; mc_note("    read(%zu) -> %d, %zu", n, e, l);
	if (e != M_IO_ERROR_SUCCESS) { mc_check(l == 0, "failed read reports %zu bytes", l); return 0; }
	mc_check(l > 0 && l <= n, "read of %zu returned %zu", n, l);
	mc_check(got + l <= sizeof(all), "too much"); if (memcmp(rb, all + got, l)) for (i = 0; i < l; i++) mc_check(rb[i] == gen(got + i), "byte %zu is wrong", got + i);
	got += l; mc_check(got <= acc, "read %zu bytes, %zu were written", got, acc); mact++; return 1;
}
static void do_read(void) { if (rkind == 0) one_read(1000); else if (rkind == 1) one_read(sizeof(rb)); else while (one_read(777)) { } }
static void do_write(void)
{
	static unsigned char b[30000]; size_t n, l; M_io_error_t e;
	while (w && !ended[1] && acc < want) {
		n = M_MIN(want - acc, sizeof(b)); memcpy(b, all + acc, n);
		l = 0; e = M_io_write(w, b, n, &l); mc_note("    write(%zu) -> %d, %zu", n, e, l);
		mc_check(l <= n && (e == M_IO_ERROR_SUCCESS || l == 0), "write result %zu", l);
		if (e != M_IO_ERROR_SUCCESS) { mc_check(e == M_IO_ERROR_WOULDBLOCK || rgone, "write: %d", e); return; }
		mc_check(l > 0, "a successful write of nothing"); acc += l; memset(b, 0xEE, n); mact++;
	}
}
static void ucb(M_event_t *e, M_event_type_t t, M_io_t *io, void *arg)
{
	int k = (int)(uintptr_t)arg; (void)e; mact++; mc_note("  event %d for the %s", t, k ? "writer" : "reader");
	mc_check(!ended[k], "an event after the end"); mc_check(io == (k ? w : r), "event for another object");
	switch (t) {
	case M_EVENT_TYPE_CONNECTED: mc_check(++nconn[k] == 1, "CONNECTED twice"); break;
	case M_EVENT_TYPE_READ: mc_check(!k, "READ for the writer"); if (!paused) do_read(); break;
	case M_EVENT_TYPE_WRITE: mc_check(k || loopb, "WRITE for the reader"); do_write(); break;
	case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR:
		ended[k] = 1;
		if (k == 0) { mc_check(bye, "the reader's connection ended although nobody ended it"); if (paused) while (one_read(1000)) { } mc_check(got == acc, "reported as ended after %zu of %zu bytes", got, acc); M_io_destroy(r); r = NULL; }
		else { mc_check(bye || rgone, "the writer's connection ended although nobody ended it"); M_io_destroy(w); w = NULL; }
		break;
	default: mc_fail("event %d", t);
	}
}
static void add(M_io_t *io, int l)
{
	size_t id; M_io_error_t e = M_IO_ERROR_SUCCESS;
	switch (l) { case L_TRACE: e = M_io_add_trace(io, &id, tracecb, NULL, NULL, NULL); break; case L_BUFRW: e = M_io_add_buffer(io, &id, 16384, 4096); break; case L_BUF00: e = M_io_add_buffer(io, &id, 0, 0); break; case L_BW: e = M_io_add_bwshaping(io, &id); break; default: break; }
	mc_check(e == M_IO_ERROR_SUCCESS, "add layer");
}
static void settle(void) { int quiet = 0, n = 0; while (quiet < 3) { long a = mact; mnow += 1; M_event_loop(mev, 0); quiet = a == mact ? quiet + 1 : 0; if (++n > 20000) mc_fail("the event loop never settles"); } }
static int depth;
void mc_init(void) { depth = (int)mc_param("depth", 4, 6); mc_leakcheck = 1; { size_t i; for (i = 0; i < sizeof(all); i++) all[i] = gen(i); } }
void mc_run(void)
{
	int i, k; static const size_t sz[] = { 1, 5000, 100000 };
	if (r) { r = NULL; } w = NULL; loopb = paused = bye = rgone = 0; nconn[0] = nconn[1] = ended[0] = ended[1] = 0; got = want = acc = 0; rlast = 0;
	mock_begin(); i = mc_choose(HX_N(pairs)); loopb = mc_choose(2); rkind = mc_choose(3);
	mc_note("%s, layers %d %d | %d %d, reader %d", loopb ? "loopback" : "pipe", pairs[i][0], pairs[i][1], pairs[i][2], pairs[i][3], rkind);
	if (loopb) { mc_check(M_io_loopback_create(&r) == M_IO_ERROR_SUCCESS, "loopback"); w = r; add(r, pairs[i][0]); add(r, pairs[i][1]); add(r, pairs[i][2]); add(r, pairs[i][3]); M_event_add(mev, r, ucb, NULL); }
	else { mc_check(M_io_pipe_create(M_IO_PIPE_NONE, &r, &w) == M_IO_ERROR_SUCCESS, "pipe"); add(w, pairs[i][0]); add(w, pairs[i][1]); add(r, pairs[i][2]); add(r, pairs[i][3]); M_event_add(mev, r, ucb, NULL); M_event_add(mev, w, ucb, (void *)1); }
	settle(); mc_check(nconn[0] == 1 && nconn[1] == !loopb, "not connected");
	for (k = 0; k < depth && !bye && !rgone; k++) {
		int op = mc_choose(8);
		if (op == 0) break;
		if (op <= 3) { want += sz[op - 1]; mc_note("write %zu", sz[op - 1]); do_write(); }
		else if (op == 4) { paused = !paused; mc_note(paused ? "pause" : "resume"); if (!paused) while (one_read(777)) { } }
		else if (op == 5) { if (!k) mc_prune(); mc_note("the event loop runs"); settle(); mc_check(paused || (got == want && acc == want), "only %zu of %zu bytes arrived", got, want); }
		else if (op == 6) { if (loopb || acc != want) mc_prune(); mc_note("the writer disconnects"); bye = 1; M_io_disconnect(w); }
		else { if (loopb) mc_prune(); mc_note("the reader is gone"); rgone = 1; ended[0] = 1; M_io_destroy(r); r = NULL; want += 1; do_write(); }
		mc_step();
	}
	mc_note("drain"); paused = 0; if (!rgone) while (one_read(777)) { }
	settle();
	if (rgone) mc_check(ended[1], "the reader is gone, the writer is not told");
	else { mc_check(acc == want, "the application could only write %zu of %zu bytes", acc, want); mc_check(got == want, "only %zu of %zu bytes arrived", got, want); if (bye) mc_check(ended[0] && ended[1], "disconnect: not told (%d %d)", ended[0], ended[1]); }
	mc_outcome((uint64_t)i * 131 + (uint64_t)loopb * 17 + got * 7 + (uint64_t)(ended[0] * 2 + ended[1]));
	if (r) M_io_destroy(r);
	if (w && w != r && !loopb) M_io_destroy(w);
	r = w = NULL;
	mock_end(); mc_step(); mc_case();
}
