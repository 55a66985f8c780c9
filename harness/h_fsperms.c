// MODE: seq
// MODS: base
// Permission objects: set, unset, dup, merge, and applying them to files and directories (C41).
#include "hx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
const char *mc_name = "h_fsperms";
typedef struct { int set, mode, type; } pm_t;                 /* model of one part */
typedef struct { pm_t p[3], d[3]; } mp_t;
static char dir_[300]; static int owner;
static void clean(void) { char p[400]; if (owner != (int)getpid()) return; snprintf(p, sizeof(p), "%s/f", dir_); unlink(p); snprintf(p, sizeof(p), "%s/d", dir_); rmdir(p); snprintf(p, sizeof(p), "%s/n", dir_); unlink(p); rmdir(p); rmdir(dir_); }
void mc_init(void) { mc_leakcheck = 1; umask(022); }
static int bits(int m) { return ((m & M_FS_PERMS_MODE_READ) ? 4 : 0) | ((m & M_FS_PERMS_MODE_WRITE) ? 2 : 0) | ((m & M_FS_PERMS_MODE_EXEC) ? 1 : 0); }
static int apply(const mp_t *m, int mode, int isdir) { int w, r = 0; for (w = 0; w < 3; w++) { int b = (mode >> (6 - 3 * w)) & 7; const pm_t *x = isdir && m->d[w].set ? &m->d[w] : &m->p[w]; if (x->set) b = x->type == 0 ? bits(x->mode) : x->type == 1 ? b | bits(x->mode) : b & ~bits(x->mode); r |= b << (6 - 3 * w); } return r; }
static void one(M_fs_perms_t *p, mp_t *m, int w, int dirpart, int full)
{
	static const int MD[] = { 0, 7, 5, 2, 1, 4, 3, 6 }; pm_t *x = dirpart ? &m->d[w] : &m->p[w]; int k = mc_choose(full ? 25 : 7), mode, type;
	if (k == 0) return;
	mode = MD[full ? (k - 1) % 8 : (k - 1) % 2 + (k & 1)]; type = full ? (k - 1) / 8 : (k - 1) / 2;
	x->set = 1; x->mode = mode; x->type = type;
	if (dirpart) M_fs_perms_set_dir_mode(p, (M_uint32)mode, (M_fs_perms_who_t)w, (M_fs_perms_type_t)type); else M_fs_perms_set_mode(p, (M_uint32)mode, (M_fs_perms_who_t)w, (M_fs_perms_type_t)type);
}
static void cmp(const M_fs_perms_t *p, const mp_t *m, const char *what)
{
	int w;
	for (w = 0; w < 3; w++) {
		M_fs_perms_who_t W = (M_fs_perms_who_t)w;
		if (!!M_fs_perms_get_isset(p, W) != m->p[w].set || (m->p[w].set && ((int)M_fs_perms_get_mode(p, W) != m->p[w].mode || (int)M_fs_perms_get_type(p, W) != m->p[w].type))) mc_fail("%s: who %d is set %d mode %d type %d, expected set %d mode %d type %d", what, w, (int)M_fs_perms_get_isset(p, W), (int)M_fs_perms_get_mode(p, W), (int)M_fs_perms_get_type(p, W), m->p[w].set, m->p[w].mode, m->p[w].type);
		if (!!M_fs_perms_get_dir_isset(p, W) != m->d[w].set || (m->d[w].set && ((int)M_fs_perms_get_dir_mode(p, W) != m->d[w].mode || (int)M_fs_perms_get_dir_type(p, W) != m->d[w].type))) mc_fail("%s: directory override of who %d differs", what, w);
	}
}
static void mpart(pm_t *d, const pm_t *s) { if (!s->set) return; if (d->set && d->type == 0 && s->type != 0) { if (s->type == 1) d->mode |= s->mode; else d->mode &= ~s->mode; } else *d = *s; }
static int mode_of(const char *p) { struct stat st; return lstat(p, &st) ? -1 : (int)(st.st_mode & 07777); }
void mc_run(void)
{
	char pf[400], pd[400], pn[400]; M_fs_perms_t *p, *q; mp_t m, m2; int op, w, w2, i, ini; static const int INI[] = { 0, 0777, 0640, 0137 }; M_fs_error_t e; M_fs_file_t *f; M_fs_info_t *info;
	if (owner != (int)getpid()) { owner = (int)getpid(); snprintf(dir_, sizeof(dir_), "%s/fp%08d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", owner); mkdir(dir_, 0700); atexit(clean); snprintf(pf, sizeof(pf), "%s/f", dir_); i = open(pf, O_CREAT | O_WRONLY, 0600); close(i); snprintf(pd, sizeof(pd), "%s/d", dir_); mkdir(pd, 0700); }
	snprintf(pf, sizeof(pf), "%s/f", dir_); snprintf(pd, sizeof(pd), "%s/d", dir_); snprintf(pn, sizeof(pn), "%s/n", dir_); unlink(pn); rmdir(pn);
	memset(&m, 0, sizeof(m)); p = M_fs_perms_create(); op = mc_choose(5);
	w = mc_choose(3); one(p, &m, w, 0, 1); one(p, &m, w, 1, op != 1); w2 = (w + 1) % 3; one(p, &m, w2, op == 1 ? mc_choose(2) : 0, 0);
	cmp(p, &m, "after setting");
	switch (op) {
	case 0: case 4:   /* apply to a file and a directory */
		ini = INI[mc_choose(4)]; chmod(pf, (mode_t)ini); chmod(pd, (mode_t)ini);
		if (op == 0) { e = M_fs_perms_set_perms(p, pf); if (e == M_FS_ERROR_SUCCESS) e = M_fs_perms_set_perms(p, pd); }
		else { if (M_fs_file_open(&f, pf, 0, M_FS_FILE_MODE_READ | M_FS_FILE_MODE_NOCREATE, NULL) != M_FS_ERROR_SUCCESS) { M_fs_perms_destroy(p); mc_prune(); } e = M_fs_perms_set_perms_file(p, f); M_fs_file_close(f); chmod(pd, (mode_t)apply(&m, ini, 1)); }
		if (e != M_FS_ERROR_SUCCESS) mc_fail("setting permissions fails: %d", (int)e);
		if (mode_of(pf) != apply(&m, ini, 0)) mc_fail("file %o set to (who %d: set %d mode %d type %d; who %d: set %d mode %d type %d) gets %o, expected %o", ini, w, m.p[w].set, m.p[w].mode, m.p[w].type, w2, m.p[w2].set, m.p[w2].mode, m.p[w2].type, mode_of(pf), apply(&m, ini, 0));
		if (mode_of(pd) != apply(&m, ini, 1)) mc_fail("directory %o set to (who %d: set %d mode %d type %d, override set %d mode %d type %d) gets %o, expected %o", ini, w, m.p[w].set, m.p[w].mode, m.p[w].type, m.d[w].set, m.d[w].mode, m.d[w].type, mode_of(pd), apply(&m, ini, 1));
		for (i = 0; i < 2; i++) {       /* and read back */
			mp_t r; int k, md = mode_of(i ? pd : pf); memset(&r, 0, sizeof(r)); for (k = 0; k < 3; k++) { int b = (md >> (6 - 3 * k)) & 7; r.p[k].set = 1; r.p[k].mode = ((b & 4) ? M_FS_PERMS_MODE_READ : 0) | ((b & 2) ? M_FS_PERMS_MODE_WRITE : 0) | ((b & 1) ? M_FS_PERMS_MODE_EXEC : 0); }
			if (M_fs_info(&info, i ? pd : pf, M_FS_PATH_INFO_FLAGS_NONE) != M_FS_ERROR_SUCCESS) mc_fail("no info");
			cmp(M_fs_info_get_perms(info), &r, "read back"); M_fs_info_destroy(info);
		}
		break;
	case 1:          /* merge */
		memset(&m2, 0, sizeof(m2)); q = M_fs_perms_create(); one(q, &m2, w, 0, 1); one(q, &m2, w2, mc_choose(2), 0);
		if (mc_choose(2)) M_fs_perms_set_user(q, "root");
		i = M_fs_perms_get_user(q) != NULL;
		M_fs_perms_merge(&p, q); for (w = 0; w < 3; w++) { mpart(&m.p[w], &m2.p[w]); mpart(&m.d[w], &m2.d[w]); }
		cmp(p, &m, "merge"); if (i != (M_fs_perms_get_user(p) != NULL)) mc_fail("merge loses the user"); break;
	case 2:          /* dup, unset */
		q = M_fs_perms_dup(p); cmp(q, &m, "dup"); i = mc_choose(3); if (mc_choose(2)) { M_fs_perms_unset_mode(q, (M_fs_perms_who_t)i); cmp(p, &m, "original after unset"); m.p[i].set = 0; m.d[i].set = 0; } else { M_fs_perms_unset_dir_mode(q, (M_fs_perms_who_t)i); cmp(p, &m, "original after unset"); m.d[i].set = 0; }
		cmp(q, &m, "unset"); M_fs_perms_destroy(q); break;
	case 3:          /* create with permissions */
		i = mc_choose(2); m2 = m; ini = 022;
		if (i) { e = M_fs_dir_mkdir(pn, M_FALSE, p); } else { e = M_fs_file_open(&f, pn, 0, M_FS_FILE_MODE_WRITE, p); if (e == M_FS_ERROR_SUCCESS) M_fs_file_close(f); }
		if (e != M_FS_ERROR_SUCCESS) mc_fail("creating fails: %d", (int)e);
		if (mode_of(pn) != (apply(&m, 0, i) & ~ini)) mc_fail("%s created with (who %d: set %d mode %d type %d, override set %d mode %d type %d) gets %o, expected %o", i ? "directory" : "file", w, m.p[w].set, m.p[w].mode, m.p[w].type, m.d[w].set, m.d[w].mode, m.d[w].type, mode_of(pn), apply(&m, 0, i) & ~ini);
		break;
	}
	M_fs_perms_destroy(p); mc_outcome((M_uint64)op);
}
