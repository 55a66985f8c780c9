// MODE: seq
// MODS: base
// WRAP: read write lseek close open fsync
// Open file handles and whole-file helpers against a byte-array model, with short, interrupted and failing calls (C40).
#include "hx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
const char *mc_name = "h_fsfile";
/* the file itself is simulated: no real descriptor */
#define FD 700
static int fault_on, opened, faults, errs; static char trace_[2000]; static unsigned char data_[256]; static int dlen, dpos, fappend, trunc_ok;
extern int __real_open(const char *, int, ...); extern ssize_t __real_read(int, void *, size_t); extern ssize_t __real_write(int, const void *, size_t); extern int __real_close(int); extern off_t __real_lseek(int, off_t, int); extern int __real_fsync(int);
static void tr(const char *fmt, ...) { va_list ap; size_t l = strlen(trace_); if (l + 60 > sizeof(trace_)) return; va_start(ap, fmt); vsnprintf(trace_ + l, 59, fmt, ap); va_end(ap); }
static int err(int e) { errno = e; errs++; return -1; }
static int flt(const char *n, int k) { int c = mc_choose_cost(k); if (c) { tr(" %s!%d", n, c); faults++; } return c; }
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; mode_t m; va_start(ap, fl); m = (mode_t)va_arg(ap, int); va_end(ap);
	if (fault_on) { if (flt("open", 2)) return err(EMFILE); opened++; fappend = (fl & O_APPEND) != 0; dpos = 0; if (fl & O_TRUNC) { dlen = 0; trunc_ok = 1; } return FD; }
	return __real_open(p, fl, m);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (fd != FD) return __real_read(fd, b, n);
	mc_step(); switch (flt("read", 4)) { case 1: n = 1; break; case 2: return err(EIO); case 3: return err(EINTR); }
	if ((int)n > dlen - dpos) n = dpos < dlen ? (size_t)(dlen - dpos) : 0;
	memcpy(b, data_ + dpos, n); dpos += (int)n; return (ssize_t)n;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (fd != FD) return __real_write(fd, b, n);
	mc_step(); switch (flt("write", 4)) { case 1: n = 1; break; case 2: return err(ENOSPC); case 3: return err(EINTR); }
	if (fappend) dpos = dlen;
	if (dpos + (int)n > (int)sizeof(data_)) abort();
	if (dpos > dlen) memset(data_ + dlen, 0, (size_t)(dpos - dlen));
	memcpy(data_ + dpos, b, n); dpos += (int)n; if (dpos > dlen) dlen = dpos;
	return (ssize_t)n;
}
off_t __wrap_lseek(int fd, off_t o, int w)
{
	long p; if (fd != FD) return __real_lseek(fd, o, w);
	mc_step(); if (flt("lseek", 2)) return err(EIO);
	p = w == SEEK_SET ? o : w == SEEK_CUR ? dpos + o : dlen + o; if (p < 0) { errno = EINVAL; return -1; } dpos = (int)p; return p;
}
int __wrap_close(int fd) { int k; if (fd != FD) return __real_close(fd); opened--; k = fault_on ? flt("close", 2) : 0; if (k) return err(EIO); return 0; }
int __wrap_fsync(int fd) { if (fd != FD) return __real_fsync(fd); return flt("fsync", 2) ? err(EIO) : 0; }
void mc_init(void) { mc_leakcheck = 1; }

static unsigned char mdl_[256]; static int mlen, mpos;      /* what the file is to be, and where we are in it */

static void run_ops(void)
{
	static const int RN[] = { 1, 3, 7 }, WN[] = { 1, 2, 5 };
	M_fs_file_t *f = NULL; unsigned char b[32]; int bs, init, steps, i, op, k, n, dirty = 0, poisoned = 0, app; size_t got; M_fs_error_t e; char hist[600] = ""; unsigned char nxt = 'A'; M_uint32 fl; long want;
#define H(...) do { size_t l_ = strlen(hist); if (l_ < 520) snprintf(hist + l_, sizeof(hist) - l_, __VA_ARGS__); } while (0)
#define CF "buffer %d, %d bytes:%s |%s"
#define C CF, bs, init, hist, trace_
	bs = mc_choose(3); bs = bs == 0 ? 0 : bs == 1 ? 2 : 4; init = mc_choose(3); init = init == 0 ? 0 : init == 1 ? 3 : 9; app = (int)mc_param("app", 0, 0); steps = (int)mc_param("steps", 3, 4);
	for (i = 0; i < init; i++) data_[i] = (unsigned char)('a' + i);
	dlen = init; memcpy(mdl_, data_, sizeof(mdl_)); mlen = dlen; mpos = 0; dpos = 0;
	fault_on = 1; e = M_fs_file_open(&f, "/nowhere/x", (size_t)bs, M_FS_FILE_MODE_READ | M_FS_FILE_MODE_WRITE | (app ? M_FS_FILE_MODE_APPEND : 0), NULL);
	if (e != M_FS_ERROR_SUCCESS) { mc_check(faults > 0 && f == NULL, "open fails without a fault"); return; }
	for (i = 0; i < steps && !poisoned; i++) {
		int e0;
		op = mc_choose(6); e0 = errs;
		switch (op) {
		case 0: case 1:
			n = RN[mc_choose(3)]; fl = op ? M_FS_FILE_RW_FULLBUF : M_FS_FILE_RW_NORMAL; memset(b, '?', sizeof(b)); got = 99;
			e = M_fs_file_read(f, b, (size_t)n, &got, fl); H(" read%s %d=%d/%d", op ? "-full" : "", n, (int)e, (int)got);
			if (got > (size_t)n) mc_fail("reads more than asked: " C);
			k = mpos < mlen ? mlen - mpos : 0; if (k > n) k = n;
			if ((int)got > k || memcmp(b, mdl_ + mpos, got)) mc_fail("read gives '%s' where the file has '%.*s': " CF, mc_esc((char *)b, (int)got), k, (char *)mdl_ + mpos, bs, init, hist, trace_);
			if (e == M_FS_ERROR_SUCCESS) { if (k && !got) mc_fail("end of file reported with %d bytes left: " CF, mlen - mpos, bs, init, hist, trace_); if (op && (int)got != k) mc_fail("full read stops early: " C); if (!faults && (int)got != k) mc_fail("short read: " C); }
			else if (errs == e0) mc_fail("read fails without a fault: " C);
			if (e != M_FS_ERROR_SUCCESS && dirty) { poisoned = 1; break; }
			mpos += (int)got; if (got || e == M_FS_ERROR_SUCCESS) dirty = 0; break;
		case 2: case 3:
			n = WN[mc_choose(3)]; fl = op == 3 ? M_FS_FILE_RW_FULLBUF : M_FS_FILE_RW_NORMAL; for (k = 0; k < n; k++) b[k] = nxt++;
			got = 99; e = M_fs_file_write(f, b, (size_t)n, &got, fl); H(" write%s %d=%d/%d", op == 3 ? "-full" : "", n, (int)e, (int)got);
			if (got > (size_t)n) mc_fail("writes more than given: " C);
			if (e == M_FS_ERROR_SUCCESS) { if (op == 3 && (int)got != n) mc_fail("full write is short: " C); if (!got) mc_fail("nothing written: " C); }
			else if (errs == e0) mc_fail("write fails without a fault: " C);
			if (app && got) mpos = mlen;
			if (mpos > mlen) memset(mdl_ + mlen, 0, (size_t)(mpos - mlen));
			memcpy(mdl_ + mpos, b, got); mpos += (int)got; if (mpos > mlen && got) mlen = mpos;
			dirty = bs > 0; break;
		case 4: {
			int w = mc_choose(3); static const int OFF[] = { 0, 2, -1, 8 }; int o = OFF[mc_choose(4)];
			if (app && w == 1) mc_prune();
			want = w == 0 ? o : w == 1 ? mpos + o : mlen + o; if (want < 0) mc_prune();
			e = M_fs_file_seek(f, o, w == 0 ? M_FS_FILE_SEEK_BEGIN : w == 1 ? M_FS_FILE_SEEK_CUR : M_FS_FILE_SEEK_END); H(" seek%d %d=%d", w, o, (int)e);
			if (e == M_FS_ERROR_SUCCESS) { mpos = (int)want; dirty = 0; }
			else { if (errs == e0) mc_fail("seek fails without a fault: " C); poisoned = 1; }
			break; }
		case 5:
			e = M_fs_file_sync(f, mc_choose(2) ? M_FS_FILE_SYNC_OS | M_FS_FILE_SYNC_BUFFER : M_FS_FILE_SYNC_BUFFER); H(" sync=%d", (int)e);
			if (e == M_FS_ERROR_SUCCESS) { if (dlen != mlen || memcmp(data_, mdl_, (size_t)mlen)) mc_fail("after a sync the file is '%s', not '%s': " CF, mc_esc((char *)data_, dlen), mc_esc((char *)mdl_, mlen), bs, init, hist, trace_); dirty = 0; }
			else if (errs == e0) mc_fail("sync fails without a fault: " C);
			break;
		}
	}
	{ int e0 = errs;
	if (!poisoned && dirty) { e = M_fs_file_sync(f, M_FS_FILE_SYNC_BUFFER); if (e == M_FS_ERROR_SUCCESS && (dlen != mlen || memcmp(data_, mdl_, (size_t)mlen))) mc_fail("after the last sync the file is '%s', not '%s': " CF, mc_esc((char *)data_, dlen), mc_esc((char *)mdl_, mlen), bs, init, hist, trace_); if (e != M_FS_ERROR_SUCCESS) { if (errs == e0) mc_fail("sync fails without a fault: " C); e = M_fs_file_sync(f, M_FS_FILE_SYNC_BUFFER); } }
	e0 = errs;
	M_fs_file_close(f);
	if (!poisoned && errs == e0 && (dlen != mlen || memcmp(data_, mdl_, (size_t)mlen))) mc_fail("after close the file is '%s', not '%s': " CF, mc_esc((char *)data_, dlen), mc_esc((char *)mdl_, mlen), bs, init, hist, trace_); }
	if (poisoned && 0) mc_note("x");
	if (opened) mc_fail("descriptor left open: " C);
	mc_outcome(mc_hbytes((M_uint64)mlen, mdl_, (size_t)mlen));
}

static void run_whole(void)
{
	static const int SZ[] = { 0, 1, 5, 30 }; int n, i, op, app, max; size_t got = 99; M_fs_error_t e; unsigned char b[40], *o = NULL; int old = 4;
	op = mc_choose(2); n = SZ[mc_choose(4)]; for (i = 0; i < n; i++) b[i] = (unsigned char)('a' + i); b[n] = 0; errs = 0; fault_on = 1;
	if (op == 0) {
		static const int MX[] = { 0, 1, 5, 29, 30, 31 }; max = MX[mc_choose(6)]; memcpy(data_, b, (size_t)n); dlen = n;
		e = M_fs_file_read_bytes("/nowhere/x", (size_t)max, &o, &got); mc_note("read_bytes %d max %d:%s", n, max, trace_);
		if (e == M_FS_ERROR_SUCCESS) { if ((int)got != n || memcmp(o, b, (size_t)n) || o[n]) mc_fail("read_bytes of %d bytes gives %d '%s':%s", n, (int)got, mc_esc((char *)o, (int)got), trace_); if (max && n > max) mc_fail("read_bytes reads more than %d", max); }
		else if (!errs && !(max && n > max)) mc_fail("read_bytes of %d bytes (max %d) fails: %d", n, max, (int)e);
		if (e == M_FS_ERROR_SUCCESS) M_free(o);
	} else {
		app = mc_choose(2); if (!n) mc_prune(); memcpy(data_, "OLD!", 4); dlen = old;
		e = M_fs_file_write_bytes("/nowhere/x", b, mc_choose(2) ? (size_t)n : 0, app ? M_FS_FILE_MODE_APPEND : 0, &got); mc_note("write_bytes %d append %d:%s", n, app, trace_);
		i = app ? old : 0;
		if (app && (dlen < old || memcmp(data_, "OLD!", 4))) mc_fail("append changes what was there:%s", trace_);
		if (e == M_FS_ERROR_SUCCESS && (dlen != i + n || memcmp(data_ + i, b, (size_t)n) || (int)got != n)) mc_fail("write_bytes of %d bytes writes '%s' and reports %d:%s", n, mc_esc((char *)data_, dlen), (int)got, trace_);
		if (e == M_FS_ERROR_SUCCESS && strstr(trace_, "close!")) mc_fail("write_bytes: failing close not reported");
		if (e != M_FS_ERROR_SUCCESS && !errs) mc_fail("write_bytes of %d fails: %d", n, (int)e);
		if (e != M_FS_ERROR_SUCCESS && !strstr(trace_, "open!") && (dlen - i != (int)got || memcmp(data_ + i, b, got))) mc_fail("write_bytes reports %d written, but the file has %d:%s", (int)got, dlen - i, trace_);
	}
	if (opened) mc_fail("descriptor left open:%s", trace_);
	mc_outcome((M_uint64)e * 64 + got);
}
void mc_run(void)
{
	int only = (int)mc_param("only", -1, -1);
	fault_on = opened = faults = errs = dlen = dpos = fappend = trunc_ok = 0; *trace_ = 0; memset(data_, 0, sizeof(data_)); memset(mdl_, 0, sizeof(mdl_)); mlen = mpos = 0;
	if ((only >= 0 ? only : mc_choose(2)) == 0) run_ops(); else run_whole();
	fault_on = 0;
}
