// MODE: seq
// MODS: base
/* State machines: every callback decides its status and successor, an interpreter of the documented
 * semantics predicts which callback comes next with which arguments and what run returns. */
#include "hx.h"
const char *mc_name = "h_statemachine";
#define ST(x) M_STATE_MACHINE_STATUS_##x
#define FL(x) M_STATE_MACHINE_##x
enum { K_FUNC, K_CLEAN, K_SUB, K_INTER };
enum { E_FUNC, E_CLEAN, E_PRE, E_POST };
typedef struct mach mach;
typedef struct { M_uint64 id; int kind, cb, pre, post, nsub, ilrun, ilst[3]; unsigned nextmask; mach *cl, *sub[3]; M_bool taint; } mst;
struct mach { const char *name; int clean; unsigned flags; int n; mst s[4]; int running, ncl, nprev, ncont, reason, preason, ret; M_uint64 cur, cl[64], prev[64], cont[64], clactive; unsigned seen; };
typedef struct { int kind, cb, aux, ret, run; M_uint64 in, out; } ent;
static ent lg[256]; static int nlg, pos, limit_hit; static char tr[6000];
static void T(const char *f, ...) { va_list ap; size_t l = strlen(tr); va_start(ap, f); vsnprintf(tr + l, sizeof(tr) - l, f, ap); va_end(ap); }
static const char *const sn[] = { "NONE", "NEXT", "PREV", "CONTINUE", "ERROR", "WAIT", "PAUSE", "DONE", "STOPCL", "INVALID", "BAD_ID", "NO_NEXT", "BAD_NEXT", "SELF_NEXT", "NO_PREV", "INF_CONT" };
/* ---- callbacks ---- */
static ent *rec(int kind, int cb, int aux, M_uint64 in) { ent *e; if (nlg >= 250) mc_prune(); e = &lg[nlg++]; e->kind = kind; e->cb = cb; e->aux = aux; e->in = in; mc_step(); return e; }
static M_uint64 alt(M_uint64 in)
{
	switch (mc_choose_cost(6)) { case 0: return in; case 1: return 1; case 2: return 2; case 3: return 3; case 4: return 99; default: return 0; }
}
static int status(int kind, int sub)
{
	static const int st[] = { ST(NEXT), ST(WAIT), ST(DONE), ST(ERROR_STATE), ST(PREV), ST(CONTINUE), ST(PAUSE), ST(ERROR_BAD_NEXT) }; int c = mc_choose_cost(kind == E_POST ? 8 : 8);
	if (kind == E_POST) { if (c == 0) return sub == ST(DONE) ? ST(NEXT) : sub; return st[c == 7 ? 0 : c]; }
	return st[c];
}
static M_state_machine_status_t func(int cb, M_uint64 *next) { ent *e = rec(E_FUNC, cb, 0, *next); e->ret = status(E_FUNC, 0); *next = e->out = alt(*next); T(" f%d(%llu):%s/%llu", cb, (unsigned long long)e->in, sn[e->ret], (unsigned long long)e->out); return (M_state_machine_status_t)e->ret; }
static M_state_machine_status_t cfunc(int cb, int reason, M_uint64 *next) { ent *e = rec(E_CLEAN, cb, reason, *next); e->ret = status(E_CLEAN, 0); *next = e->out = alt(*next); T(" c%d(%d,%llu):%s/%llu", cb, reason, (unsigned long long)e->in, sn[e->ret], (unsigned long long)e->out); return (M_state_machine_status_t)e->ret; }
static M_bool pre(int cb, M_state_machine_status_t *st, M_uint64 *next) { ent *e = rec(E_PRE, cb, 0, *next); e->run = !mc_choose_cost(2); e->out = *next; if (!e->run) { e->ret = status(E_PRE, 0); *st = (M_state_machine_status_t)e->ret; *next = e->out = alt(*next); } T(" pre%d:%s/%llu", cb, e->run ? "run" : sn[e->ret], (unsigned long long)e->out); return (M_bool)e->run; }
static M_state_machine_status_t post(int cb, M_state_machine_status_t sub, M_uint64 *next) { ent *e = rec(E_POST, cb, (int)sub, *next); e->ret = status(E_POST, (int)sub); *next = e->out = alt(*next); T(" post%d(%s):%s/%llu", cb, sn[sub], sn[e->ret], (unsigned long long)e->out); return (M_state_machine_status_t)e->ret; }
#define CB(i) static M_state_machine_status_t f##i(void *d, M_uint64 *n) { (void)d; return func(i, n); } static M_state_machine_status_t c##i(void *d, M_state_machine_cleanup_reason_t r, M_uint64 *n) { (void)d; return cfunc(i, (int)r, n); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7) CB(8) CB(9) CB(10) CB(11) CB(12) CB(13) CB(14) CB(15)
#define L(x) x##0, x##1, x##2, x##3, x##4, x##5, x##6, x##7, x##8, x##9, x##10, x##11, x##12, x##13, x##14, x##15
static M_state_machine_state_cb F[] = { L(f) }; static M_state_machine_cleanup_cb C[] = { L(c) };
#define PP(i) static M_bool p##i(void *d, M_state_machine_status_t *s, M_uint64 *n) { (void)d; return pre(i, s, n); } static M_state_machine_status_t q##i(void *d, M_state_machine_status_t s, M_uint64 *n) { (void)d; return post(i, s, n); }
PP(0) PP(1) PP(2) PP(3)
static M_state_machine_pre_cb P[] = { p0, p1, p2, p3 }; static M_state_machine_post_cb Q[] = { q0, q1, q2, q3 };
/* ---- definitions ---- */
static mach pool[24]; static int npool, ncb;
static mach *newm(const char *name, int clean, unsigned flags) { mach *m = &pool[npool++]; memset(m, 0, sizeof(*m)); m->name = name; m->clean = clean; m->flags = flags; return m; }
static mst *adds(mach *m, int kind, mach *cl) { mst *s = &m->s[m->n++]; memset(s, 0, sizeof(*s)); s->id = (M_uint64)m->n; s->kind = kind; s->cl = cl; s->pre = s->post = -1; if (kind == K_FUNC || kind == K_CLEAN) s->cb = ncb++; return s; }
static mach *leafclean(int n, unsigned flags) { mach *m = newm("cl", 1, flags); while (n--) adds(m, K_CLEAN, NULL); return m; }
static M_state_machine_t *build(mach *m)
{
	M_state_machine_t *r = m->clean ? (M_state_machine_t *)M_state_machine_cleanup_create(1, m->name, m->flags) : M_state_machine_create(1, m->name, m->flags); int i, j; M_bool ok;
	for (i = 0; i < m->n; i++) {
		mst *s = &m->s[i]; M_state_machine_cleanup_t *cl = s->cl ? (M_state_machine_cleanup_t *)build(s->cl) : NULL; M_list_u64_t *nx = NULL; M_state_machine_t *sub;
		if (s->nextmask) { nx = M_list_u64_create(M_LIST_U64_NONE); for (j = 0; j < 8; j++) if (s->nextmask & (1u << j)) M_list_u64_insert(nx, (M_uint64)j); }
		switch (s->kind) {
			case K_FUNC: ok = M_state_machine_insert_state(r, s->id, 0, "s", F[s->cb], cl, nx); break;
			case K_CLEAN: ok = M_state_machine_cleanup_insert_state((M_state_machine_cleanup_t *)r, s->id, 0, "s", C[s->cb], cl, nx); break;
			case K_SUB: sub = build(s->sub[0]); if (m->clean && s->sub[0]->clean) ok = M_state_machine_cleanup_insert_cleanup_sub_state_machine((M_state_machine_cleanup_t *)r, s->id, 0, "s", (M_state_machine_cleanup_t *)sub, s->pre < 0 ? NULL : P[s->pre], s->post < 0 ? NULL : Q[s->post], cl, nx); else ok = M_state_machine_insert_sub_state_machine(r, s->id, 0, "s", sub, s->pre < 0 ? NULL : P[s->pre], s->post < 0 ? NULL : Q[s->post], cl, nx); M_state_machine_destroy(sub); break;
			default: ok = M_state_machine_insert_state_interleaved(r, s->id, 0, "s", s->pre < 0 ? NULL : P[s->pre], s->post < 0 ? NULL : Q[s->post], cl, nx); for (j = 0; j < s->nsub && ok; j++) { sub = build(s->sub[j]); ok = M_state_machine_insert_sub_state_machine_interleaved(r, s->id, sub); M_state_machine_destroy(sub); } break;
		}
		mc_check(ok, "inserting a state failed"); M_state_machine_cleanup_destroy(cl);
	}
	return r;
}
/* ---- interpreter ---- */
static ent *take(int kind, int cb, int aux, M_uint64 in)
{
	ent *e; static const char *const kn[] = { "state", "cleanup state", "pre", "post" };
	mc_check(pos < nlg, "%s %d was not called;%s", kn[kind], cb, tr); e = &lg[pos++];
	mc_check(e->kind == kind && e->cb == cb, "call %d is %s %d, expected %s %d;%s", pos, kn[e->kind], e->cb, kn[kind], cb, tr);
	mc_check(e->aux == aux, "%s %d called with %d, expected %d;%s", kn[kind], cb, e->aux, aux, tr); mc_check(e->in == in, "%s %d offered next %llu, expected %llu;%s", kn[kind], cb, (unsigned long long)e->in, (unsigned long long)in, tr); return e;
}
static mst *find(mach *m, M_uint64 id) { int i; for (i = 0; i < m->n; i++) if (m->s[i].id == id) return &m->s[i]; return NULL; }
static int waits(int s) { return s == ST(WAIT) || s == ST(PAUSE); }
static int run(mach *m);
static void idle(mach *m) { int i, j; if (!m) return; m->running = 0; for (i = 0; i < m->n; i++) { mst *s = &m->s[i]; idle(s->cl); for (j = 0; j < 3; j++) { idle(s->sub[j]); s->ilst[j] = 0; } s->ilrun = 0; s->taint = M_FALSE; } }
static int cleanup(mach *m)
{
	for (;;) {
		mst *s; int r;
		if (!m->clactive) { if (!m->ncl) return ST(DONE); m->clactive = m->cl[--m->ncl]; s = find(m, m->clactive); if ((m->flags & FL(ONE_CLEANUP)) && (m->seen & (1u << m->clactive))) { m->clactive = 0; continue; } m->seen |= 1u << m->clactive; if (!s || !s->cl) { m->clactive = 0; continue; } }
		s = find(m, m->clactive); s->cl->preason = m->reason; r = run(s->cl); if (waits(r)) return r; m->clactive = 0;
	}
}
static void fail(mach *m, int st) { m->reason = M_STATE_MACHINE_CLEANUP_REASON_ERROR; m->ret = st; }
static int run(mach *m)
{
	if (!m->running) { m->ncl = m->nprev = m->ncont = 0; m->reason = 0; m->ret = 0; m->clactive = 0; m->seen = 0; m->cur = m->s[0].id; m->running = 1; }
	for (;;) {
		mst *s = find(m, m->cur); M_uint64 next = 0; int st = 0, i, r, subpause = 0, isfunc; ent *e;
		if (!s && !m->reason) fail(m, ST(ERROR_BAD_ID));
		if (m->reason) {
			if (s && s->kind == K_SUB && s->sub[0]->running) { r = run(s->sub[0]); if (waits(r)) return r; }
			if (s && s->kind == K_INTER && s->ilrun) { for (i = 0; i < s->nsub; i++) if (s->sub[i]->running) { r = run(s->sub[i]); if (waits(r)) return r; } s->ilrun = 0; memset(s->ilst, 0, sizeof(s->ilst)); }
			r = cleanup(m); if (waits(r)) return r; m->running = 0; return m->ret;
		}
		if (!(m->flags & FL(EXPLICIT_NEXT))) for (i = 0; i + 1 < m->n; i++) if (m->s[i].id == m->cur) next = m->s[i + 1].id;
		isfunc = s->kind == K_FUNC || s->kind == K_CLEAN;
		if (isfunc) { e = take(s->kind == K_FUNC ? E_FUNC : E_CLEAN, s->cb, s->kind == K_CLEAN ? m->preason : 0, next); st = e->ret; next = e->out; if (st == ST(ERROR_BAD_NEXT)) st = ST(ERROR_STATE); }
		else {
			int live = s->kind == K_SUB ? s->sub[0]->running : s->ilrun, go = 1, fin = 0;
			if (s->pre >= 0 && !live) { e = take(E_PRE, s->pre, 0, next); go = e->run; st = e->ret; next = e->out; }
			if (go) {
				if (!live) m->cl[m->ncl++] = m->cur;
				if (s->kind == K_SUB) { s->sub[0]->preason = m->preason; st = run(s->sub[0]); fin = !waits(st); if (st == ST(PAUSE)) subpause = 1; }
				else {
					int noab = (m->flags & FL(INTERNOABORT)) != 0, pend = 0, bad = 0;
					
					s->ilrun = 1;
					for (i = 0; i < s->nsub; i++) { if (s->ilst[i] != 0 && !waits(s->ilst[i])) continue; s->sub[i]->preason = m->preason; s->ilst[i] = run(s->sub[i]); if (waits(s->ilst[i])) pend = 1; else if (s->ilst[i] != ST(DONE) && !noab) { bad = s->ilst[i]; break; } }
					if (bad || !pend) { for (i = 0; i < s->nsub; i++) { if (noab && !bad && s->ilst[i] != ST(DONE)) bad = s->ilst[i]; idle(s->sub[i]); } st = bad ? bad : ST(DONE); s->ilrun = 0; memset(s->ilst, 0, sizeof(s->ilst)); fin = 1; } else st = ST(WAIT);
				}
				if (fin) { if (s->post >= 0) { e = take(E_POST, s->post, st, next); st = e->ret; next = e->out; if (st == ST(WAIT)) st = ST(NEXT); } else if (st == ST(DONE)) st = ST(NEXT); }
			}
		}
		if (isfunc && st != ST(WAIT) && st != ST(CONTINUE)) m->cl[m->ncl++] = m->cur;
		if (m->ncl > 60 || m->nprev > 60 || m->ncont > 60) mc_prune();
		if (subpause) { m->ncont = 0; return st; }
		if (st == ST(WAIT)) { m->ncont = 0; return st; }
		if (st == ST(NEXT) || st == ST(CONTINUE) || st == ST(PAUSE)) {
			if (next == 0) {
				if ((m->flags & FL(EXPLICIT_NEXT)) || !(m->flags & FL(LINEAR_END))) { fail(m, ST(ERROR_NO_NEXT)); continue; }
				if (m->flags & FL(DONE_CLEANUP)) { m->reason = M_STATE_MACHINE_CLEANUP_REASON_DONE; m->ret = ST(DONE); continue; }
				m->running = 0; return ST(DONE);
			}
			if (s->nextmask && (next > 7 || !(s->nextmask & (1u << next)))) { fail(m, ST(ERROR_BAD_NEXT)); continue; }
			if (st == ST(CONTINUE)) { for (i = 0; i < m->ncont; i++) if (m->cont[i] == next) break; if (i < m->ncont && !(m->flags & FL(CONTINUE_LOOP))) { fail(m, ST(ERROR_INF_CONT)); continue; } m->cont[m->ncont++] = next; }
			else { if (m->flags & FL(SINGLE_PREV)) m->nprev = 0; m->prev[m->nprev++] = m->cur; m->ncont = 0; }
			if (m->cur == next && !(m->flags & FL(SELF_CALL))) { fail(m, ST(ERROR_SELF_NEXT)); continue; }
			m->cur = next; if (st == ST(PAUSE)) return st; continue;
		}
		if (st == ST(PREV)) { if (!m->nprev) { fail(m, ST(ERROR_NO_PREV)); continue; } m->cur = m->prev[--m->nprev]; continue; }
		if (st != ST(DONE)) { fail(m, st); m->ncont = 0; continue; }
		if (m->flags & FL(DONE_CLEANUP)) { m->reason = M_STATE_MACHINE_CLEANUP_REASON_DONE; m->ret = ST(DONE); m->ncont = 0; continue; }
		m->running = 0; return ST(DONE);
	}
}
static void reset(mach *m, int reason)
{
	mst *s; int i; if (!m->running) return; if (reason == 0) { idle(m); return; }
	s = find(m, m->cur);
	if (s && s->kind == K_SUB && s->sub[0]->running) reset(s->sub[0], reason); else if (s && s->kind == K_INTER && s->ilrun) { for (i = 0; i < s->nsub; i++) reset(s->sub[i], reason); } else if (m->clactive) reset(find(m, m->clactive)->cl, reason);
	m->reason = reason; m->ret = ST(DONE);
}
static mach *define(int shape, unsigned flags)
{
	mach *m = newm("M", 0, flags), *s, *t, *c; mst *x; npool = npool;
	switch (shape) {
		case 0: c = leafclean(2, FL(LINEAR_END)); x = adds(m, K_FUNC, c); x = adds(m, K_FUNC, leafclean(1, FL(LINEAR_END))); x->nextmask = 1 << 3 | 1 << 1; adds(m, K_FUNC, NULL); break;
		case 1: adds(m, K_FUNC, leafclean(1, 0)); s = newm("S", 0, FL(LINEAR_END)); adds(s, K_FUNC, leafclean(1, FL(LINEAR_END))); adds(s, K_FUNC, NULL); x = adds(m, K_SUB, leafclean(1, FL(LINEAR_END))); x->sub[0] = s; x->nsub = 1; x->pre = 0; x->post = 0; adds(m, K_FUNC, NULL); break;
		case 2: adds(m, K_FUNC, leafclean(1, FL(LINEAR_END))); s = newm("S", 0, FL(LINEAR_END)); adds(s, K_FUNC, leafclean(1, FL(LINEAR_END))); t = newm("T", 0, FL(LINEAR_END) | FL(DONE_CLEANUP)); adds(t, K_FUNC, NULL); adds(t, K_FUNC, leafclean(1, FL(LINEAR_END))); x = adds(m, K_INTER, leafclean(1, FL(LINEAR_END))); x->sub[0] = s; x->sub[1] = t; x->nsub = 2; x->pre = 0; x->post = 0; adds(m, K_FUNC, NULL); break;
		case 3: s = newm("S", 0, FL(LINEAR_END)); t = newm("T", 0, FL(LINEAR_END)); adds(t, K_FUNC, leafclean(1, FL(LINEAR_END))); adds(t, K_FUNC, NULL); x = adds(s, K_SUB, leafclean(1, FL(LINEAR_END))); x->sub[0] = t; x->nsub = 1; adds(s, K_FUNC, leafclean(1, FL(LINEAR_END))); x = adds(m, K_SUB, NULL); x->sub[0] = s; x->nsub = 1; adds(m, K_FUNC, NULL); break;
		case 4: /* cleanup machines of every kind */ c = newm("C", 1, FL(LINEAR_END)); adds(c, K_CLEAN, leafclean(1, FL(LINEAR_END))); t = leafclean(2, FL(LINEAR_END)); x = adds(c, K_SUB, NULL); x->sub[0] = t; x->nsub = 1; x->post = 1; adds(m, K_FUNC, c); adds(m, K_FUNC, leafclean(1, FL(LINEAR_END) | FL(DONE_CLEANUP))); break;
		case 5: s = newm("S", 0, FL(LINEAR_END)); adds(s, K_FUNC, NULL); t = newm("T", 0, FL(LINEAR_END)); adds(t, K_FUNC, NULL); c = newm("U", 0, FL(LINEAR_END)); adds(c, K_FUNC, NULL); x = adds(m, K_INTER, NULL); x->sub[0] = s; x->sub[1] = t; x->sub[2] = c; x->nsub = 3; adds(m, K_FUNC, leafclean(1, FL(LINEAR_END))); break;
	}
	return m;
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void)
{
	static const unsigned fl[] = { 0, FL(LINEAR_END), FL(LINEAR_END) | FL(DONE_CLEANUP), FL(LINEAR_END) | FL(DONE_CLEANUP) | FL(ONE_CLEANUP), FL(SINGLE_PREV) | FL(LINEAR_END), FL(CONTINUE_LOOP), FL(SELF_CALL) | FL(ONE_CLEANUP), FL(EXPLICIT_NEXT) | FL(DONE_CLEANUP), FL(INTERNOABORT) | FL(LINEAR_END) | FL(DONE_CLEANUP), FL(INTERNOABORT) };
	int shape = mc_choose(6), fi = mc_choose(10), dup, i, rounds = 0; M_state_machine_t *r; mach *m;
	mc_set_budget((int)mc_param("budget", 2, 3)); dup = mc_choose_cost(2); npool = ncb = nlg = pos = 0; tr[0] = 0; T("shape %d flags %x:", shape, fl[fi]); m = define(shape, fl[fi]); r = build(m);
	if (dup) { M_state_machine_t *d = M_state_machine_duplicate(r); M_state_machine_destroy(r); r = d; mc_check(r != NULL, "duplicating failed"); }
	for (i = 0; i < 2; ) {
		int got, exp; T(" [run"); got = (int)M_state_machine_run(r, NULL); T("]=%s", sn[got]); exp = run(m); mc_check(pos == nlg, "%d unexpected calls;%s", nlg - pos, tr); mc_check(got == exp, "run returned %s, expected %s;%s", sn[got], sn[exp], tr);
		if (++rounds > 12) break;
		if (!waits(got)) { i++; continue; }
		{ int c = mc_choose_cost(4); if (c) { static const int rs[] = { 0, 0, M_STATE_MACHINE_CLEANUP_REASON_RESET, M_STATE_MACHINE_CLEANUP_REASON_CANCEL }; T(" reset%d", rs[c]); M_state_machine_reset(r, (M_state_machine_cleanup_reason_t)rs[c]); reset(m, rs[c]); } }
	}
	{ uint64_t h = 7; for (i = 0; i < nlg; i++) h = mc_h64(mc_h64(h, (uint64_t)(lg[i].kind * 100 + lg[i].cb)), (uint64_t)lg[i].ret); mc_outcome(h); mc_state(mc_h64(h, (uint64_t)fi)); }
	M_state_machine_destroy(r);
}
