// Deterministic scheduler used both symbolically and in native replay.  All schedule choices go through sym_pick.
#include "sym.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>

extern "C" {
int be_thread_new(void (*fn)(void *), void *arg);
void be_thread_switch(int tid);
int be_thread_self(void);
[[noreturn]] void be_thread_park(void);
}
namespace {
enum { RUN = 0, BLK_MUTEX = 1, BLK_COND = 2, BLK_JOIN = 3, DONE = 4, BLK_TIMED = 5 };
const int MAXT = 16;
struct T { int state; void *on; bool timed_out; void *(*fn)(void *); void *arg; void *ret; };
T g_t[MAXT];
int g_n = 1;
int g_preempt = 0;
int g_spurious = 0;
int g_idle = 0;           // timed waits that expired because nothing else could run

void pick_next(bool voluntary) {
	int self = be_thread_self();
	int cand[MAXT], n = 0;
	bool self_ok = g_t[self].state == RUN;
	if (self_ok) {
		if (!voluntary && g_preempt <= 0) return;
		cand[n++] = self;
	}
	for (int i = 0; i < g_n; i++) if (i != self && g_t[i].state == RUN) cand[n++] = i;
	bool idle = !n;
	// a timed wait may expire early (uses up one preemption), or when nothing else can run
	if (g_preempt > 0 || !n) for (int i = 0; i < g_n; i++) if (g_t[i].state == BLK_TIMED) cand[n++] = i;
	if (!n) sym_fail("deadlock: every thread is blocked");
	int k = n > 1 ? (int)sym_pick("sched", n) : 0;
	int t = cand[k];
	if (g_t[t].state == BLK_TIMED) { if (idle) g_idle++; g_t[t].state = RUN; g_t[t].timed_out = true; g_preempt--; }
	if (t == self) return;
	if (self_ok && !voluntary) g_preempt--;
	be_thread_switch(t);
}
void tramp(void *p) {
	T *t = (T *)p;
	t->ret = t->fn(t->arg);
	t->state = DONE;
	for (int i = 0; i < g_n; i++) if (g_t[i].state == BLK_JOIN && g_t[i].on == t) g_t[i].state = RUN;
	pick_next(true);
	be_thread_park();
}
int &owner(pthread_mutex_t *m) { return m->__data.__owner; }
void acquire(pthread_mutex_t *m) {
	int me = be_thread_self() + 1;
	if (owner(m) == me) {
		if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return; }
		sym_fail("deadlock: thread locks a mutex it already holds");
	}
	while (owner(m) != 0) {
		g_t[me - 1].state = BLK_MUTEX; g_t[me - 1].on = m;
		pick_next(true);
	}
	owner(m) = me;
	m->__data.__count = 1;
}
void release(pthread_mutex_t *m) {
	int me = be_thread_self() + 1;
	if (owner(m) != me) sym_fail("locking: unlock of a mutex not held");
	if (--m->__data.__count) return;
	owner(m) = 0;
	for (int i = 0; i < g_n; i++) if (g_t[i].state == BLK_MUTEX && g_t[i].on == m) g_t[i].state = RUN;
}
bool cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
	int me = be_thread_self();
	release(m);
	g_t[me].state = timed ? BLK_TIMED : BLK_COND; g_t[me].on = c; g_t[me].timed_out = false;
	pick_next(true);
	while (g_t[me].state != RUN) pick_next(true);
	g_t[me].on = 0;
	bool to = g_t[me].timed_out;
	acquire(m);
	return to;
}
}
extern "C" {
void sym_yield(void) { pick_next(false); }
int sym_idle_expiries(void) { return g_idle; }
void sym_sched(int p) { g_preempt = p; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { m->__data.__owner = 0; m->__data.__count = 0; m->__data.__kind = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { pick_next(false); acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
	pick_next(false);
	int me = be_thread_self() + 1;
	if (owner(m) == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
	if (owner(m)) return EBUSY;
	owner(m) = me; m->__data.__count = 1;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { release(m); return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
	for (int i = 0; i < g_n; i++) if ((g_t[i].state == BLK_COND || g_t[i].state == BLK_TIMED) && g_t[i].on == c) sym_fail("locking: condition variable destroyed with waiters");
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { cond_wait(c, m, false); return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait(c, m, true) ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return cond_wait(c, m, true) ? ETIMEDOUT : 0; }
int pthread_cond_broadcast(pthread_cond_t *c) {
	for (int i = 0; i < g_n; i++) if ((g_t[i].state == BLK_COND || g_t[i].state == BLK_TIMED) && g_t[i].on == c) g_t[i].state = RUN;
	return 0;
}
int pthread_cond_signal(pthread_cond_t *c) {
	int w[MAXT], n = 0;
	for (int i = 0; i < g_n; i++) if ((g_t[i].state == BLK_COND || g_t[i].state == BLK_TIMED) && g_t[i].on == c) w[n++] = i;
	if (n) g_t[w[n > 1 ? sym_pick("wake", n) : 0]].state = RUN;
	return 0;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (g_n >= MAXT) sym_unsupported("too many threads");
	int id = g_n++;
	T *t = &g_t[id];
	t->fn = fn; t->arg = arg; t->state = RUN; t->on = 0; t->ret = 0;
	int r = be_thread_new(tramp, t);
	if (r != id) sym_unsupported("thread ids");
	*pt = (pthread_t)(id + 1);
	pick_next(false);
	return 0;
}
int pthread_join(pthread_t p, void **ret) {
	int id = (int)p - 1;
	int me = be_thread_self();
	while (g_t[id].state != DONE) {
		g_t[me].state = BLK_JOIN; g_t[me].on = &g_t[id];
		pick_next(true);
	}
	if (ret) *ret = g_t[id].ret;
	return 0;
}
int pthread_detach(pthread_t p) { return 0; }
pthread_t pthread_self(void) { return (pthread_t)(be_thread_self() + 1); }
int pthread_setname_np(pthread_t, const char *) { return 0; }
int pthread_getname_np(pthread_t, char *b, size_t n) { if (n) b[0] = 0; return 0; }
int sched_yield(void) { pick_next(true); return 0; }
}
