// MODE: seq
// MODS: base
// WRAP: open read write close rename unlink rmdir mkdir symlink readlink stat lstat fstat access opendir readdir closedir __readlink_chk chmod fchmod chown fchown
// Copy, move and delete of small real trees with every system call failing, short or interrupted (C40).
//   scope: op (copy, move, move across devices, delete) x source x destination x mode, budget faults
//   oracle: snapshots of the whole tree before and after.
#include "hx.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
const char *mc_name = "h_fscopy";

static char root_[300]; static size_t rlen; static int owner;
static int fault_on, xdev, nofault, cancels; static char trace_[3000];

/* ---- real calls ---- */
extern int __real_open(const char *, int, ...); extern ssize_t __real_read(int, void *, size_t); extern ssize_t __real_write(int, const void *, size_t); extern int __real_close(int);
extern int __real_rename(const char *, const char *); extern int __real_unlink(const char *); extern int __real_rmdir(const char *); extern int __real_mkdir(const char *, mode_t);
extern int __real_symlink(const char *, const char *); extern ssize_t __real_readlink(const char *, char *, size_t); extern int __real_stat(const char *, struct stat *);
extern int __real_lstat(const char *, struct stat *); extern int __real_fstat(int, struct stat *); extern int __real_access(const char *, int);
extern DIR *__real_opendir(const char *); extern struct dirent *__real_readdir(DIR *); extern int __real_closedir(DIR *);
extern int __real_chmod(const char *, mode_t); extern int __real_fchmod(int, mode_t); extern int __real_chown(const char *, uid_t, gid_t); extern int __real_fchown(int, uid_t, gid_t);

static int mine(const char *p) { return !strncmp(p, root_, rlen) && (p[rlen] == '/' || p[rlen] == 0); }
static const char *rel(const char *p) { return mine(p) ? p[rlen] ? p + rlen + 1 : "." : p; }
static void tr(const char *fmt, ...) { va_list ap; size_t l = strlen(trace_); if (l + 100 > sizeof(trace_)) return; va_start(ap, fmt); vsnprintf(trace_ + l, 99, fmt, ap); va_end(ap); }
/* a call that changes something must stay inside the scratch tree, also after resolving the directory it is in */
static int inside(const char *p)
{
	char dir[PATH_MAX], real[PATH_MAX]; char *s;
	if (!mine(p) || strlen(p) <= rlen + 1 || strstr(p, "/..")) return 0;
	snprintf(dir, sizeof(dir), "%s", p); s = strrchr(dir, '/'); *s = 0;
	if (!realpath(dir, real)) return 1;      /* fails by itself */
	return !strncmp(real, root_, rlen) && (real[rlen] == '/' || real[rlen] == 0);
}
#define NOTMINE(call, p) do { if (!inside(p)) { tr(" %s(%s)!", call, p); mc_fail("%s of a path outside the tree: %s%s", call, p, trace_); } } while (0)
static int flt(const char *call, const char *p, int n) { int k; if (!fault_on || nofault || !mine(p)) return 0; k = mc_choose_cost(n); if (k) tr(" %s(%s):%d", call, rel(p), k); return k; }
static int err(int e) { errno = e; return -1; }

static char fdp[1024][64];
static const char *fdpath(int fd) { static char b[400]; if (fd < 0 || fd >= 1024 || !*fdp[fd]) return "?"; snprintf(b, sizeof(b), "%s/%s", root_, fdp[fd]); return b; }
static unsigned char fdw[1024];

int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; mode_t m; int fd; va_start(ap, fl); m = (mode_t)va_arg(ap, int); va_end(ap);
	if (fault_on) { if (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) NOTMINE("open", p); if (flt("open", p, 2)) return err(EMFILE); }
	fd = (fl & O_CREAT) ? __real_open(p, fl, m) : __real_open(p, fl);
	if (fault_on && fd >= 0 && fd < 1024) { snprintf(fdp[fd], sizeof(fdp[fd]), "%s", rel(p)); fdw[fd] = (fl & (O_WRONLY | O_RDWR)) != 0; }
	return fd;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fault_on) switch (flt("read", fdpath(fd), 4)) { case 1: n = n > 1 ? 1 : n; break; case 2: return err(EIO); case 3: return err(EINTR); } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (fault_on) switch (flt("write", fdpath(fd), 4)) { case 1: n = n > 1 ? 1 : n; break; case 2: return err(ENOSPC); case 3: return err(EINTR); } return __real_write(fd, b, n); }
int __wrap_close(int fd)
{	/* a close that fails is a write-back that failed: what was written is gone */
	int w = fault_on && fd >= 0 && fd < 1024 && fdw[fd], k = 0;
	if (w) { k = flt("close", fdpath(fd), 2); fdw[fd] = 0; if (k && ftruncate(fd, 0) == -1) k = 0; }
	__real_close(fd); return k ? err(EIO) : 0;
}
int __wrap_rename(const char *a, const char *b) { if (fault_on) { NOTMINE("rename", a); NOTMINE("rename", b); if (xdev) return err(EXDEV); if (flt("rename", a, 2)) return err(EIO); } return __real_rename(a, b); }
int __wrap_unlink(const char *p) { if (fault_on) { NOTMINE("unlink", p); if (flt("unlink", p, 2)) return err(EIO); } return __real_unlink(p); }
int __wrap_rmdir(const char *p) { if (fault_on) { NOTMINE("rmdir", p); if (flt("rmdir", p, 2)) return err(EIO); } return __real_rmdir(p); }
int __wrap_mkdir(const char *p, mode_t m) { if (fault_on) { NOTMINE("mkdir", p); if (flt("mkdir", p, 2)) return err(ENOSPC); } return __real_mkdir(p, m); }
int __wrap_symlink(const char *t, const char *p) { if (fault_on) { NOTMINE("symlink", p); if (flt("symlink", p, 2)) return err(ENOSPC); } return __real_symlink(t, p); }
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { if (fault_on && flt("readlink", p, 2)) return err(EIO); return __real_readlink(p, b, n); }
ssize_t __wrap___readlink_chk(const char *p, char *b, size_t n, size_t bn) { (void)bn; return __wrap_readlink(p, b, n); }
int __wrap_stat(const char *p, struct stat *s) { if (fault_on && flt("stat", p, 2)) return err(EIO); return __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { if (fault_on && flt("lstat", p, 2)) return err(EIO); return __real_lstat(p, s); }
int __wrap_fstat(int fd, struct stat *s) { if (fault_on && flt("fstat", fdpath(fd), 2)) return err(EIO); return __real_fstat(fd, s); }
int __wrap_access(const char *p, int m) { if (fault_on && flt("access", p, 2)) return err(EIO); return __real_access(p, m); }
int __wrap_chmod(const char *p, mode_t m) { if (fault_on) { NOTMINE("chmod", p); if (flt("chmod", p, 2)) return err(EPERM); } return __real_chmod(p, m); }
int __wrap_fchmod(int fd, mode_t m) { if (fault_on && flt("fchmod", fdpath(fd), 2)) return err(EPERM); return __real_fchmod(fd, m); }
int __wrap_chown(const char *p, uid_t u, gid_t g) { if (fault_on) { NOTMINE("chown", p); if (flt("chown", p, 2)) return err(EPERM); } return __real_chown(p, u, g); }
int __wrap_fchown(int fd, uid_t u, gid_t g) { if (fault_on && flt("fchown", fdpath(fd), 2)) return err(EPERM); return __real_fchown(fd, u, g); }
/* directories are read in one go and given back in sorted order, so that executions are reproducible */
typedef struct { DIR *d; int n, i; struct dirent e[24]; char p[300]; } od_t;
static od_t ods[16];
static int decmp(const void *a, const void *b) { return strcmp(((const struct dirent *)a)->d_name, ((const struct dirent *)b)->d_name); }
DIR *__wrap_opendir(const char *p)
{
	DIR *d; int i; struct dirent *e;
	if (fault_on && flt("opendir", p, 2)) { errno = EACCES; return NULL; }
	d = __real_opendir(p);
	if (!fault_on || !d) return d;
	for (i = 0; i < 16 && ods[i].d; i++) ;
	if (i == 16) abort();
	ods[i].d = d; ods[i].n = ods[i].i = 0; snprintf(ods[i].p, sizeof(ods[i].p), "%s", p);
	while ((e = __real_readdir(d)) && ods[i].n < 24) ods[i].e[ods[i].n++] = *e;
	qsort(ods[i].e, (size_t)ods[i].n, sizeof(*e), decmp); return d;
}
struct dirent *__wrap_readdir(DIR *d)
{
	int i;
	for (i = 0; i < 16; i++) if (d && ods[i].d == d) {
		if (fault_on) switch (flt("readdir", ods[i].p, 3)) { case 1: errno = EIO; return NULL; case 2: if (ods[i].i < ods[i].n) ods[i].e[ods[i].i].d_type = DT_UNKNOWN; break; }
		return ods[i].i < ods[i].n ? &ods[i].e[ods[i].i++] : NULL;
	}
	return __real_readdir(d);
}
int __wrap_closedir(DIR *d) { int i; for (i = 0; i < 16; i++) if (d && ods[i].d == d) ods[i].d = NULL; return __real_closedir(d); }

/* ---- tree ---- */
typedef struct { char p[80]; char t; int mode, len, nl; char c[40]; M_uint64 h; } ent_t;
typedef struct { int n; ent_t e[60]; } snap_t;
static void snap_r(snap_t *s, const char *dir, const char *r)
{
	DIR *d = __real_opendir(dir); struct dirent *e; char p[PATH_MAX]; struct stat st; ent_t *x; int fd, l;
	if (!d) return;
	while ((e = __real_readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		if (s->n == 60) abort();
		x = &s->e[s->n++]; memset(x, 0, sizeof(*x)); snprintf(x->p, sizeof(x->p), "%s%s%s", r, *r ? "/" : "", e->d_name); snprintf(p, sizeof(p), "%s/%s", dir, e->d_name);
		if (__real_lstat(p, &st)) continue;
		x->t = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f'; x->mode = x->t == 'l' ? 0 : (int)(st.st_mode & 07777);
		if (x->t == 'l') x->len = (int)__real_readlink(p, x->c, sizeof(x->c));
		else if (x->t == 'f') { fd = __real_open(p, O_RDONLY); { static char b[4096]; l = (int)__real_read(fd, b, sizeof(b)); x->len = l > 0 ? l : 0; x->h = mc_hbytes(7, b, (size_t)x->len); } __real_close(fd); }
		else { char rr[80]; snprintf(rr, sizeof(rr), "%s", x->p); snap_r(s, p, rr); }
	}
	__real_closedir(d);
}
static int ecmp(const void *a, const void *b) { return strcmp(((const ent_t *)a)->p, ((const ent_t *)b)->p); }
static void snap(snap_t *s) { s->n = 0; snap_r(s, root_, ""); qsort(s->e, (size_t)s->n, sizeof(ent_t), ecmp); }
static ent_t *find(snap_t *s, const char *p) { int i; for (i = 0; i < s->n; i++) if (!strcmp(s->e[i].p, p)) return &s->e[i]; return NULL; }
static int same(const ent_t *a, const ent_t *b, int mode) { return a && b && a->t == b->t && a->len == b->len && a->h == b->h && !memcmp(a->c, b->c, sizeof(a->c)) && (!mode || a->mode == b->mode); }
static void wipe(const char *dir)
{
	DIR *d = __real_opendir(dir); struct dirent *e; char p[PATH_MAX]; struct stat st;
	if (!d) return;
	while ((e = __real_readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(p, sizeof(p), "%s/%s", dir, e->d_name); if (!mine(p) || __real_lstat(p, &st)) continue;
		if (S_ISDIR(st.st_mode)) { wipe(p); __real_rmdir(p); } else __real_unlink(p);
	}
	__real_closedir(d);
}
static void mkf(const char *n, const char *c, int mode) { char p[400]; int fd; snprintf(p, sizeof(p), "%s/%s", root_, n); fd = __real_open(p, O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0 || __real_write(fd, c, strlen(c)) < 0) abort(); __real_close(fd); __real_chmod(p, (mode_t)mode); }
static void mkd(const char *n, int mode) { char p[400]; snprintf(p, sizeof(p), "%s/%s", root_, n); if (__real_mkdir(p, 0700)) abort(); __real_chmod(p, (mode_t)mode); }
static void mkl(const char *n, const char *t) { char p[400]; snprintf(p, sizeof(p), "%s/%s", root_, n); if (__real_symlink(t, p)) abort(); }
static char big_[1501];
static void build(void)
{
	char a[400], b[400];
	wipe(root_);
	mkf("a", "content", 0640); mkf("b", "other", 0644); mkf("big", big_, 0644); mkf("e", "", 0600);
	mkd("d", 0750); mkf("d/f", "inner", 0604); mkd("d/s", 0711); mkf("d/s/g", "gg", 0644); mkl("d/l", "f"); mkl("d/s/up", "../../out/keep");
	mkd("D", 0755); mkd("out", 0755); mkf("out/keep", "keep", 0600); mkl("ln", "a"); mkl("ld", "out"); mkl("dang", "nowhere");
	snprintf(a, sizeof(a), "%s/a", root_); snprintf(b, sizeof(b), "%s/h", root_); if (link(a, b)) abort();
}
static void clean(void) { if (owner && owner == (int)getpid()) { wipe(root_); __real_rmdir(root_); } }
static void setroot(void)
{
	char p[200];
	if (owner == (int)getpid()) return;
	snprintf(p, sizeof(p), "%s/fs%08d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid()); owner = (int)getpid();
	if (__real_mkdir(p, 0700) && errno != EEXIST) abort();
	{ char *rp = realpath(p, NULL); if (!rp) abort(); snprintf(root_, sizeof(root_), "%s", rp); free(rp); }
	rlen = strlen(root_); atexit(clean);
}
void mc_init(void) { mc_leakcheck = 0; umask(0); { int i; for (i = 0; i < 1500; i++) big_[i] = (char)('a' + i % 23); } }

static M_bool cb(const M_fs_progress_t *p) { int sv = fault_on; (void)p; fault_on = 0; if (!nofault && mc_choose_cost(2)) { cancels++; tr(" cancel"); fault_on = sv; return M_FALSE; } fault_on = sv; return M_TRUE; }

static int under(const char *p, const char *d) { size_t l = strlen(d); return !strncmp(p, d, l) && (p[l] == 0 || p[l] == '/'); }
/* is what was at src (in A) at dst (in B)? files are followed through a link at the destination itself */
static int equal_tree(snap_t *A, const char *src, snap_t *B, const char *dst, int mode)
{
	int i, na = 0, nb = 0; ent_t *a = find(A, src), *b = find(B, dst); char p[200];
	static char t[50];
	if (!a || !b) return 0;
	if (b->t == 'l' && find(A, dst) && same(b, find(A, dst), 0) && strcmp(src, dst)) { snprintf(t, sizeof(t), "%.*s", b->len, b->c); dst = t; b = find(B, t); if (!b) return 0; }
	if (!same(a, b, mode)) return 0;
	if (a->t != 'd') return 1;
	for (i = 0; i < A->n; i++) if (under(A->e[i].p, src) && strcmp(A->e[i].p, src) && !(strcmp(src, dst) && under(A->e[i].p, dst))) { na++; snprintf(p, sizeof(p), "%s%s", dst, A->e[i].p + strlen(src)); if (!same(&A->e[i], find(B, p), mode)) return 0; }
	for (i = 0; i < B->n; i++) if (under(B->e[i].p, dst) && strcmp(B->e[i].p, dst)) nb++;
	return na == nb;
}
static const char *SRC[] = { "a", "e", "d", "ln", "ld", "dang", "D", "h", "none", "big" };
static const char *DST[] = { "new", "b", "D", "d", "a", "ln", "dang", "none/new", "out", "d/new", "h", "ld" };
static const char *OPN[] = { "copy", "move", "move-xdev", "delete" };

void mc_run(void)
{
	static snap_t A, B; char src[400], dst[400], eff[200], dlink[60]; int op, si, di = 0, mode = 0, usecb, only, pm, i, srcgone, dstok, ok, must, samefile = 0, into, rc = 0;
	ent_t *s, *d, *x; M_fs_error_t e; const char *sn, *dn; const char *bad = NULL; struct stat st1, st2; M_uint32 pf = M_FS_PROGRESS_NOEXTRA;

	setroot(); fault_on = 0; cancels = 0; *trace_ = 0; memset(ods, 0, sizeof(ods)); memset(fdp, 0, sizeof(fdp)); memset(fdw, 0, sizeof(fdw));
	only = (int)mc_param("only", -1, -1);
	op = only >= 0 ? only : mc_choose(4);
	si = mc_choose((int)HX_N(SRC)); if (op != 3) { di = mc_choose((int)HX_N(DST)); pm = mc_choose(4); mode = ((pm & 1) ? M_FS_FILE_MODE_OVERWRITE : 0) | ((pm & 2) ? M_FS_FILE_MODE_PRESERVE_PERMS : 0); } else rc = mc_choose(2);
	usecb = mc_choose(2); if (usecb) pf = M_FS_PROGRESS_COUNT | M_FS_PROGRESS_SIZE_TOTAL | M_FS_PROGRESS_SIZE_CUR;
	xdev = op == 2; nofault = (int)mc_param("budget", 1, 1) == 0;
	sn = SRC[si]; dn = DST[di]; if (op == 2 && !strcmp(sn, dn)) mc_prune();      /* cannot be on another device */
	build(); snap(&A);
	snprintf(src, sizeof(src), "%s/%s", root_, sn); snprintf(dst, sizeof(dst), "%s/%s", root_, dn);
	fault_on = 1;
	if (op == 0) e = M_fs_copy(src, dst, (M_uint32)mode, usecb ? cb : NULL, pf);
	else if (op == 3) e = M_fs_delete(src, rc ? M_TRUE : M_FALSE, usecb ? cb : NULL, pf);
	else e = M_fs_move(src, dst, (M_uint32)mode, usecb ? cb : NULL, pf);
	fault_on = 0; ok = e == M_FS_ERROR_SUCCESS;
	snap(&B);
	/* where the result belongs */
	s = find(&A, sn); snprintf(eff, sizeof(eff), "%s", dn); into = 0;
	while (op != 3 && s && s->t != 'd' && (d = find(&A, eff)) && d->t == 'd') { size_t l = strlen(eff); snprintf(eff + l, sizeof(eff) - l, "/%s", sn); into = 1; }
	d = op != 3 ? find(&A, eff) : NULL;
	if (s && s->t != 'd' && d && d->t == 'l' && !strcmp(eff, "ld")) { char alt[100]; snprintf(alt, sizeof(alt), "out/%s", sn); if (find(&B, alt)) { snprintf(eff, sizeof(eff), "%s", alt); d = NULL; } }      /* a link to a directory may be seen as one */
	if (op != 3) { char p2[700]; snprintf(p2, sizeof(p2), "%s/%s", root_, eff); samefile = (s && !strcmp(sn, eff)); (void)st1; (void)st2; (void)p2; }
	*dlink = 0; if (d && d->t == 'l') { snprintf(dlink, sizeof(dlink), "%.*s", d->len, d->c); }
	/* the hard link h and the links ln lead to the same file as a */
	if (s && d && s->t == 'f' && ((!strcmp(sn, "a") || !strcmp(sn, "h")) && (!strcmp(eff, "a") || !strcmp(eff, "h") || !strcmp(eff, "ln")))) samefile = 1;
	if (s && !strcmp(sn, "ln") && !strcmp(eff, "a")) samefile = 1;
	srcgone = !find(&B, sn); dstok = op != 3 && s && equal_tree(&A, sn, &B, eff, 0);
	{	/* frame */
		for (i = 0; i < A.n && !bad; i++) {
			const char *p = A.e[i].p; x = find(&B, p);
			if (same(&A.e[i], x, 1)) continue;
			if (op == 3) { if (under(p, sn) && (rc || !strcmp(p, sn))) continue; bad = p; break; }
			if (op != 0 && under(p, sn)) continue;      /* judged below */
			if ((mode & M_FS_FILE_MODE_OVERWRITE) && !samefile && d) {
				if (!strcmp(p, eff) || (*dlink && !strcmp(p, dlink)) ) continue;
				if (!strcmp(eff, "a") && !strcmp(p, "h")) continue;
				if (!strcmp(eff, "h") && !strcmp(p, "a")) continue;
				if (!strcmp(eff, "ln") && !strcmp(p, "h")) continue;
				if (under(p, eff)) { char q[200]; snprintf(q, sizeof(q), "%s%s", sn, p + strlen(eff)); if (find(&A, q)) continue; }
			}
			if (samefile && op != 0 && !strcmp(p, eff) && dstok) continue;
			if (x && A.e[i].t == 'd' && x->t == 'd') { bad = p; break; }
			bad = p;
		}
		for (i = 0; i < B.n && !bad; i++) {
			const char *p = B.e[i].p;
			if (find(&A, p)) continue;
			if (op == 3) { bad = p; break; }
			if (under(p, eff) || (*dlink && under(p, dlink))) continue;
			bad = p;
		}
	}
#define CTX "%s %s -> %s mode %d cb %d:%s%s result %d", OPN[op], sn, op == 3 ? (rc ? "(children)" : "") : dn, mode, usecb, trace_, *trace_ ? ";" : " (no fault)", (int)e
	{ char ctx[3400]; snprintf(ctx, sizeof(ctx), CTX);
	mc_note("%s", ctx);
	if (bad) mc_fail("%s: %s changed, which is not part of the operation", ctx, bad);
	if (op == 3) {
		if (ok && !srcgone) mc_fail("%s: deleted but still there", ctx);
		if (!*trace_ && s && !ok && (s->t != 'd' || rc || !strcmp(sn, "D"))) mc_fail("%s: cannot be deleted", ctx);
	} else {
		if (!s && ok) mc_fail("%s: success without a source", ctx);
		if (s) {
			int intact = 1, inner = s->t == 'd' && under(eff, sn) && strcmp(eff, sn);
			for (i = 0; i < A.n; i++) if (under(A.e[i].p, sn) && !same(&A.e[i], find(&B, A.e[i].p), 1) && !(inner && under(A.e[i].p, eff))) intact = 0;
			if (d && strcmp(eff, "dang") && !(mode & M_FS_FILE_MODE_OVERWRITE) && ok) mc_fail("%s: existing %s replaced though overwriting was not asked for", ctx, eff);
			if (ok && !samefile && !dstok) mc_fail("%s: success, but %s is not what %s was", ctx, eff, sn);
			if (ok && !samefile && op != 0 && !srcgone) mc_fail("%s: moved, but the source is still there", ctx);
			if (ok && samefile && !dstok) mc_fail("%s: the same file, and its content is gone", ctx);
			if (op == 0 && !intact) mc_fail("%s: the source of the copy changed", ctx);
			if (!ok && !intact && !dstok) mc_fail("%s: failed, and neither source nor destination is whole", ctx);
			if (ok && (mode & M_FS_FILE_MODE_PRESERVE_PERMS) && !d && !equal_tree(&A, sn, &B, eff, 1)) mc_fail("%s: permissions not kept", ctx);
			must = !*trace_ && !samefile && strncmp(eff, "none", 4) && !inner && (!d || ((mode & M_FS_FILE_MODE_OVERWRITE) && s->t == 'f' && d->t == 'f'));
			if (must && !ok) mc_fail("%s: refused", ctx);
		}
	} }
	(void)into; mc_outcome(mc_h64((M_uint64)e * 4 + (M_uint64)op, (M_uint64)(si * 20 + di)));
}
