/* A bottom IO layer whose arrivals, room and end the harness decides, driven by a real event loop under virtual time.
 * The harness provides: static unsigned char mock_byte(size_t i) - the i-th byte the peer sends. */
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/io/m_io_layer.h>
#include <sys/epoll.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
static uint64_t mnow; /* ms */
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { uint64_t b = c == CLOCK_REALTIME ? 1700000000000ULL : 5000000ULL; ts->tv_sec = (time_t)((b + mnow) / 1000); ts->tv_nsec = (long)((b + mnow) % 1000 * 1000000 + 300000); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t *t) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int mfds[8], nmfds; /* abandoned executions leave descriptors open */
int __real_pipe2(int *f, int fl); int __real_epoll_create1(int fl);
int __wrap_pipe2(int *f, int fl) { int r = __real_pipe2(f, fl); if (!r && nmfds < 6) { mfds[nmfds++] = f[0]; mfds[nmfds++] = f[1]; } return r; }
int __wrap_epoll_create1(int fl) { int r = __real_epoll_create1(fl); mc_check(r >= 0, "epoll_create1"); if (nmfds < 8) mfds[nmfds++] = r; return r; }
static uint64_t mrnd; uint64_t __wrap_M_rand(void *st) { (void)st; mrnd = mrnd * 6364136223846793005ULL + 1442695040888963407ULL; return mrnd >> 20; }
static int mwaited(int ms) { if (ms > 0) mnow += (uint64_t)ms; return 0; }
int __real_epoll_wait(int fd, struct epoll_event *e, int n, int ms); int __real_poll(struct pollfd *p, nfds_t n, int ms);
int __wrap_epoll_wait(int fd, struct epoll_event *e, int n, int ms) { int r = __real_epoll_wait(fd, e, n, 0); return r ? r : mwaited(ms); }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { int r = __real_poll(p, n, 0); return r ? r : mwaited(ms); }

struct M_io_handle { size_t avail, pos; M_io_error_t end; size_t rmax; unsigned char *out; size_t out_len, out_cap, room; M_io_error_t werr; int rwait, wblocked; M_io_state_t state; };
typedef struct M_io_handle mock_t;
static mock_t *mk; static M_io_t *mio; static M_event_t *mev; static long mact; static int mgone;

static M_bool mock_init(M_io_layer_t *l) { (void)l; return M_TRUE; }
static M_bool mock_process(M_io_layer_t *l, M_event_type_t *t)
{
	mock_t *m = M_io_layer_get_handle(l);
	mact++;
	if (*t == M_EVENT_TYPE_READ) m->rwait = 0; /* as the socket layer: armed again by the next read */
	if (*t == M_EVENT_TYPE_CONNECTED) { m->state = M_IO_STATE_CONNECTED; m->rwait = 1; }
	if (*t == M_EVENT_TYPE_DISCONNECTED) m->state = M_IO_STATE_DISCONNECTED;
	if (*t == M_EVENT_TYPE_ERROR) m->state = M_IO_STATE_ERROR;
	return M_FALSE;
}
static M_io_error_t mock_read(M_io_layer_t *l, unsigned char *buf, size_t *len, M_io_meta_t *meta)
{
	mock_t *m = M_io_layer_get_handle(l); size_t n = m->avail - m->pos, i;
	(void)meta; mact++;
	if (*len == 0) return M_IO_ERROR_INVALID;
	m->rwait = 1;
	if (n == 0) { if (m->end) { m->state = m->end == M_IO_ERROR_DISCONNECT ? M_IO_STATE_DISCONNECTED : M_IO_STATE_ERROR; m->rwait = 0; return m->end; } return M_IO_ERROR_WOULDBLOCK; }
	if (n > *len) n = *len;
	if (m->rmax && n > m->rmax) n = m->rmax;
	for (i = 0; i < n; i++) buf[i] = mock_byte(m->pos + i);
	m->pos += n; *len = n; return M_IO_ERROR_SUCCESS;
}
static M_io_error_t mock_write(M_io_layer_t *l, const unsigned char *buf, size_t *len, M_io_meta_t *meta)
{
	mock_t *m = M_io_layer_get_handle(l); size_t n = *len;
	(void)meta; mact++;
	if (m->werr) { m->state = M_IO_STATE_ERROR; return m->werr; }
	if (n > m->room) { n = m->room; m->wblocked = 1; }
	if (n == 0) return M_IO_ERROR_WOULDBLOCK;
	if (m->out_len + n > m->out_cap) { m->out_cap = (m->out_len + n) * 2; m->out = realloc(m->out, m->out_cap); }
	memcpy(m->out + m->out_len, buf, n); m->out_len += n; m->room -= n; *len = n; return M_IO_ERROR_SUCCESS;
}
static M_bool mock_reset(M_io_layer_t *l) { mock_t *m = M_io_layer_get_handle(l); m->avail = m->pos = m->out_len = 0; m->end = m->werr = M_IO_ERROR_SUCCESS; m->wblocked = m->rwait = 0; m->room = (size_t)1 << 40; m->state = M_IO_STATE_CONNECTING; return M_TRUE; }
static void mock_unregister(M_io_layer_t *l) { (void)l; }
static M_bool mock_disconnect(M_io_layer_t *l) { mock_t *m = M_io_layer_get_handle(l); m->state = M_IO_STATE_DISCONNECTED; M_io_layer_softevent_add(l, M_FALSE, M_EVENT_TYPE_DISCONNECTED, M_IO_ERROR_DISCONNECT); return M_TRUE; }
static void mock_destroy(M_io_layer_t *l) { mock_t *m = M_io_layer_get_handle(l); mgone = 1; free(m->out); free(m); mk = NULL; }
static M_io_state_t mock_state(M_io_layer_t *l) { mock_t *m = M_io_layer_get_handle(l); return m->state; }
static M_bool mock_errmsg(M_io_layer_t *l, char *e, size_t n) { (void)l; (void)e; (void)n; return M_FALSE; }
static M_io_error_t mock_accept(M_io_t *io, M_io_layer_t *orig);
static void mock_add(M_io_t *io)
{
	M_io_callbacks_t *cb = M_io_callbacks_create();
	mk = calloc(1, sizeof(*mk)); mk->room = (size_t)1 << 40; mk->state = M_IO_STATE_CONNECTING; mgone = 0;
	M_io_callbacks_reg_init(cb, mock_init); M_io_callbacks_reg_read(cb, mock_read); M_io_callbacks_reg_write(cb, mock_write); M_io_callbacks_reg_processevent(cb, mock_process); M_io_callbacks_reg_disconnect(cb, mock_disconnect);
	M_io_callbacks_reg_accept(cb, mock_accept); M_io_callbacks_reg_unregister(cb, mock_unregister); M_io_callbacks_reg_reset(cb, mock_reset); M_io_callbacks_reg_destroy(cb, mock_destroy); M_io_callbacks_reg_state(cb, mock_state); M_io_callbacks_reg_errormsg(cb, mock_errmsg);
	M_io_layer_add(io, "MOCK", mk, cb); M_io_callbacks_destroy(cb);
}
static M_io_error_t mock_accept(M_io_t *io, M_io_layer_t *orig) { (void)orig; mock_add(io); return M_IO_ERROR_SUCCESS; }
static void mock_create(void) { mio = M_io_init(M_IO_TYPE_STREAM); mock_add(mio); }
/* the connection is accepted from a listener that was set up the way mio is now */
static M_io_error_t mock_accepted(void) { M_io_t *srv = mio; mock_t *k; M_io_error_t e; mio = NULL; e = M_io_accept(&mio, srv); k = mk; M_io_destroy(srv); mk = k; mgone = 0; return e; }
static void mock_begin(void) { int i; for (i = 0; i < nmfds; i++) close(mfds[i]); nmfds = 0; mnow = 1000; mrnd = 1; mact = 0; mk = NULL; mio = NULL; mev = M_event_create(M_EVENT_FLAG_NONE); }
static void mock_end(void) { if (mio) { M_io_destroy(mio); mio = NULL; } M_event_destroy(mev); mev = NULL; nmfds = 0; }
static void mock_ev(M_event_type_t t) { M_io_layer_t *l; if (!mio || mgone) return; l = M_io_layer_acquire(mio, 0, NULL); if (l) { M_io_layer_softevent_add(l, M_FALSE, t, M_IO_ERROR_SUCCESS); M_io_layer_release(l); } }
static void mock_loop(void) { long a; int quiet = 0, n = 0; while (quiet < 3) { a = mact; M_event_loop(mev, 0); if (!mgone && mk->rwait && (mk->avail > mk->pos || mk->end)) { mk->rwait = 0; mock_ev(M_EVENT_TYPE_READ); mact++; } quiet = a == mact ? quiet + 1 : 0; if (++n > 100000) mc_fail("the event loop never settles"); } }
static void mock_arrive(size_t n) { if (!mgone) mk->avail += n; }
static void mock_eof(M_io_error_t e) { if (!mgone) mk->end = e; }
static void mock_hup(void) { if (mgone) return; mk->end = M_IO_ERROR_DISCONNECT; mock_ev(M_EVENT_TYPE_READ); mock_ev(M_EVENT_TYPE_DISCONNECTED); } /* what epoll reports */
static void mock_room(size_t n) { if (mgone) return; mk->room += n; if (mk->wblocked) { mk->wblocked = 0; mock_ev(M_EVENT_TYPE_WRITE); } }
