// pthread, clocks and sleeping
#include "internal.h"
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <poll.h>
#include <semaphore.h>
#include <limits.h>

using namespace sim;

static Mtx &mget(void *m) { return G->mtx[(uintptr_t)m]; }
static Cnd &cget(void *c) { return G->cnd[(uintptr_t)c]; }

// sync objects inside released heap memory must not be used any more
static void live(void *p, const char *who) { check_range(p, 8, true, who); }

extern "C" {

// ------------------------------------------------------------------ mutex
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { G->mtxattr[(uintptr_t)a] = 0; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { G->mtxattr.erase((uintptr_t)a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { G->mtxattr[(uintptr_t)a] = t; return 0; }
int sim_pthread_mutexattr_setprotocol(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutexattr_setrobust(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutexattr_setpshared(pthread_mutexattr_t *, int) { return 0; }

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	live(m, "pthread_mutex_init");
	Mtx &x = mget(m);
	x = Mtx();
	x.init = true;
	if (a && G->mtxattr.count((uintptr_t)a)) x.type = G->mtxattr[(uintptr_t)a];
	memset(m, 0, sizeof *m);
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
	live(m, "pthread_mutex_destroy");
	Mtx &x = mget(m);
	vis("mutex_destroy");
	if (x.destroyed) fail("sync-misuse", "mutex destroyed twice");
	if (x.owner >= 0) fail("sync-misuse", "mutex destroyed while locked");
	x.destroyed = true;
	return 0;
}
static void mlock(pthread_mutex_t *m)
{
	Mtx &x = mget(m);
	if (x.destroyed) fail("sync-misuse", "lock of a destroyed mutex");
	int me = self();
	if (x.owner == me) {
		if (x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return; }
		fail("deadlock", "a thread locks a mutex it already holds");
	}
	while (x.owner >= 0) {
		Mtx *px = &x;
		block([px] { return px->owner < 0; }, CK_NONE, 0, false);
	}
	x.owner = me;
	x.count = 1;
}
static void munlock(pthread_mutex_t *m)
{
	Mtx &x = mget(m);
	if (x.owner != self()) fail("sync-misuse", "unlock of a mutex the thread does not hold");
	if (--x.count == 0) x.owner = -1;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
	live(m, "pthread_mutex_lock");
	vis("mutex_lock");
	if (mget(m).type == PTHREAD_MUTEX_ERRORCHECK && mget(m).owner == self()) return EDEADLK;
	mlock(m);
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m)
{
	live(m, "pthread_mutex_trylock");
	vis("mutex_trylock");
	Mtx &x = mget(m);
	if (x.owner >= 0 && !(x.owner == self() && x.type == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
	mlock(m);
	return 0;
}
static Wake mlock_until(pthread_mutex_t *m, Clk ck, i64 dl)
{
	Mtx *px = &mget(m);
	while (px->owner >= 0) {
		if (px->owner == self()) return W_TIMEOUT;
		if (block([px] { return px->owner < 0; }, ck, dl, false) == W_TIMEOUT) return W_TIMEOUT;
	}
	px->owner = self();
	px->count = 1;
	return W_READY;
}
static i64 ts_ns(const struct timespec *t)
{
	__int128 v = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
	if (v > (i64)9100000000000000000ll) v = 9100000000000000000ll;
	if (v < -(__int128)9100000000000000000ll) v = -9100000000000000000ll;
	return (i64)v;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	vis("mutex_timedlock");
	return mlock_until(m, CK_REAL, ts_ns(ts)) == W_TIMEOUT ? ETIMEDOUT : 0;
}
int sim_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts)
{
	vis("mutex_clocklock");
	return mlock_until(m, c == CLOCK_REALTIME ? CK_REAL : CK_MONO, ts_ns(ts)) == W_TIMEOUT ? ETIMEDOUT : 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
	live(m, "pthread_mutex_unlock");
	munlock(m);
	vis("mutex_unlock");
	return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *m, int)
{
	live((pthread_mutex_t *)m, "pthread_spin_init");
	Mtx &x = mget((pthread_mutex_t *)m);
	x = Mtx();
	x.init = true;
	*m = 0;
	return 0;
}
int sim_pthread_spin_lock(pthread_spinlock_t *m) { vis("spin_lock"); mlock((pthread_mutex_t *)m); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { munlock((pthread_mutex_t *)m); vis("spin_unlock"); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *m) { return sim_pthread_mutex_trylock((pthread_mutex_t *)m); }
// a read-write lock modelled as exclusive: a legal (if slow) implementation
int sim_pthread_rwlock_init(pthread_rwlock_t *m, const void *) { return sim_pthread_mutex_init((pthread_mutex_t *)m, nullptr); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { vis("rwlock_rdlock"); mlock((pthread_mutex_t *)m); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { vis("rwlock_wrlock"); mlock((pthread_mutex_t *)m); return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return sim_pthread_mutex_trylock((pthread_mutex_t *)m); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return sim_pthread_mutex_trylock((pthread_mutex_t *)m); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { munlock((pthread_mutex_t *)m); vis("rwlock_unlock"); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { return sim_pthread_mutex_destroy((pthread_mutex_t *)m); }

// ------------------------------------------------------------------ condition variables
int sim_pthread_condattr_init(pthread_condattr_t *a)
{
	if (fault(F_CONDINIT)) return ENOMEM;
	G->condattr[(uintptr_t)a] = CLOCK_REALTIME;
	return 0;
}
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL;
	vis("condattr_setclock");
	G->condattr[(uintptr_t)a] = c;
	vis("condattr_set");
	return 0;
}
int sim_pthread_condattr_getclock(const pthread_condattr_t *a, clockid_t *c) { *c = G->condattr[(uintptr_t)a]; return 0; }
int sim_pthread_condattr_setpshared(pthread_condattr_t *, int) { return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { G->condattr.erase((uintptr_t)a); return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	live(c, "pthread_cond_init");
	Cnd &x = cget(c);
	x = Cnd();
	x.init = true;
	x.clk = CLOCK_REALTIME;
	if (a && G->condattr.count((uintptr_t)a)) x.clk = G->condattr[(uintptr_t)a];
	memset(c, 0, sizeof *c);
	return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c)
{
	live(c, "pthread_cond_destroy");
	Cnd &x = cget(c);
	vis("cond_destroy");
	if (x.destroyed) fail("sync-misuse", "condition variable destroyed twice");
	if (!x.waiters.empty()) fail("sync-misuse", "condition variable destroyed while a thread waits on it");
	x.destroyed = true;
	return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, Clk ck, i64 dl)
{
	live(c, "pthread_cond_wait");
	live(m, "pthread_cond_wait");
	vis("cond_wait");
	Cnd &x = cget(c);
	Mtx &mx = mget(m);
	if (x.destroyed) fail("sync-misuse", "wait on a destroyed condition variable");
	int me = self();
	if (mx.owner != me) fail("sync-misuse", "wait on a condition variable without holding the mutex");
	// atomically: enqueue, release the mutex, sleep
	Cnd *px = &x;
	x.waiters.push_back(me);
	int cnt = mx.count;
	mx.owner = -1;
	mx.count = 0;
	bool spurious = fault(F_SPURIOUS);
	i64 sdl = 0;
	if (spurious) {
		// a wake-up nobody asked for, at some moment during the wait
		i64 rem = ck == CK_MONO ? dl - W->mono : ck == CK_REAL ? dl - rt_now() : 2000000000;
		if (rem > 2000000000) rem = 2000000000;
		if (rem < 0) rem = 0;
		sdl = W->mono + (choose(2) ? rem / 3 : 0);
	}
	auto queued = [px, me] {
		for (int w : px->waiters) if (w == me) return true;
		return false;
	};
	Wake w;
	if (spurious) {
		i64 *ps = &sdl;
		Thread *t = G->cur;
		(void)t;
		// block until signalled, timed out or spuriously woken (monotonic sdl)
		if (ck == CK_NONE) w = block([queued] { return !queued(); }, CK_MONO, *ps, false);
		else if (ck == CK_MONO) w = block([queued] { return !queued(); }, CK_MONO, *ps < dl ? *ps : dl, false);
		else w = block([queued, ps] { return !queued() || W->mono >= *ps; }, CK_REAL, dl, false);
		if (w == W_TIMEOUT && (ck == CK_NONE || (ck == CK_MONO && W->mono < dl))) w = W_READY;
	} else
		w = block([queued] { return !queued(); }, ck, dl, false);
	bool still = queued();
	for (auto it = px->waiters.begin(); it != px->waiters.end(); ++it)
		if (*it == me) { px->waiters.erase(it); break; }
	Mtx *pm = &mget(m);
	while (pm->owner >= 0) block([pm] { return pm->owner < 0; }, CK_NONE, 0, false);
	pm->owner = me;
	pm->count = cnt;
	ev("cond_woken", w, still);
	return w == W_TIMEOUT ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, CK_NONE, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return cwait(c, m, cget(c).clk == CLOCK_MONOTONIC ? CK_MONO : CK_REAL, ts_ns(ts));
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return cwait(c, m, ck == CLOCK_MONOTONIC ? CK_MONO : CK_REAL, ts_ns(ts));
}
int sim_pthread_cond_signal(pthread_cond_t *c)
{
	live(c, "pthread_cond_signal");
	vis("cond_signal");
	Cnd &x = cget(c);
	if (x.destroyed) fail("sync-misuse", "signal of a destroyed condition variable");
	if (!x.waiters.empty()) {
		u32 k = choose((u32)x.waiters.size());
		x.waiters.erase(x.waiters.begin() + k);
	}
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c)
{
	live(c, "pthread_cond_broadcast");
	vis("cond_broadcast");
	cget(c).waiters.clear();
	return 0;
}

// ------------------------------------------------------------------ semaphores
int sim_sem_init(sem_t *s, int, unsigned v) { live(s, "sem_init"); if (v > INT_MAX) { errno = EINVAL; return -1; } G->sem[(uintptr_t)s] = (int)v; return 0; }
int sim_sem_destroy(sem_t *s) { live(s, "sem_destroy"); G->sem.erase((uintptr_t)s); return 0; }
int sim_sem_post(sem_t *s) { live(s, "sem_post"); G->sem[(uintptr_t)s]++; vis("sem_post"); return 0; }
int sim_sem_getvalue(sem_t *s, int *v) { vis("sem_getvalue"); *v = G->sem[(uintptr_t)s]; return 0; }
static int sem_take(sem_t *s, Clk ck, i64 dl)
{
	live(s, "sem_wait");
	vis("sem_wait");
	int *v = &G->sem[(uintptr_t)s];
	while (*v <= 0) {
		Wake w = block([v] { return *v > 0; }, ck, dl, true);
		if (w == W_INTR) return sys_fail(EINTR);
		if (w == W_TIMEOUT) { errno = ETIMEDOUT; return -1; }
	}
	--*v;
	return 0;
}
int sim_sem_wait(sem_t *s) { return sem_take(s, CK_NONE, 0); }
int sim_sem_trywait(sem_t *s)
{
	live(s, "sem_trywait");
	vis("sem_trywait");
	int *v = &G->sem[(uintptr_t)s];
	if (*v <= 0) { errno = EAGAIN; return -1; }
	--*v;
	return 0;
}
int sim_sem_timedwait(sem_t *s, const struct timespec *t) { return sem_take(s, CK_REAL, ts_ns(t)); }
int sim_sem_clockwait(sem_t *s, clockid_t c, const struct timespec *t) { return sem_take(s, c == CLOCK_MONOTONIC ? CK_MONO : CK_REAL, ts_ns(t)); }

// ------------------------------------------------------------------ once, keys, self
int sim_pthread_once(pthread_once_t *o, void (*f)(void))
{
	vis("once");
	int *st = &G->once[(uintptr_t)o];
	if (*st == 2) return 0;
	if (*st == 1) { block([st] { return *st == 2; }, CK_NONE, 0, false); return 0; }
	*st = 1;
	f();
	*st = 2;
	return 0;
}
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
	if (fault(F_NOMEM)) return EAGAIN;
	*k = G->next_key++;
	G->keys[*k] = d;
	return 0;
}
int sim_pthread_key_delete(pthread_key_t k) { G->keys.erase(k); return 0; }
void *sim_pthread_getspecific(pthread_key_t k)
{
	auto it = G->cur->spec.find(k);
	return it == G->cur->spec.end() ? nullptr : it->second;
}
int sim_pthread_setspecific(pthread_key_t k, const void *v) { G->cur->spec[k] = (void *)v; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)(G->cur->id + 1); }
int sim_pthread_atfork(void (*)(void), void (*)(void), void (*)(void)) { return 0; }
int sim_pthread_sigmask(int, const void *, void *) { return 0; }
int sim_sigprocmask(int, const void *, void *) { return 0; }
int sim_pthread_setcancelstate(int, int *o) { if (o) *o = 0; return 0; }
int sim_sched_yield(void) { vis("sched_yield"); yield_point(); return 0; }

// ------------------------------------------------------------------ clocks
static void put_ts(i64 ns, struct timespec *ts)
{
	ts->tv_sec = ns / 1000000000;
	ts->tv_nsec = ns % 1000000000;
	if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
}
int sim_clock_gettime(clockid_t c, struct timespec *ts)
{
	vis("clock_gettime", c);
	if (fault(F_CLOCK)) return sys_fail(choose(2) ? ENOSYS : EINVAL);
	check_range(ts, sizeof *ts, true, "clock_gettime");
	switch (c) {
	case CLOCK_REALTIME: put_ts(rt_now(), ts); break;
	case CLOCK_REALTIME_COARSE: put_ts(rt_now() - W->mono % W->tick, ts); break;
	case CLOCK_TAI: put_ts(rt_now() + 37000000000ll, ts); break;
	case CLOCK_MONOTONIC:
		{ auto &mr = W->mono_reads[self()]; if (mr.size() < 100000) mr.push_back(W->mono); }
		put_ts(W->mono, ts);
		break;
	case CLOCK_MONOTONIC_COARSE: put_ts(W->mono - W->mono % W->tick, ts); break;
	case CLOCK_MONOTONIC_RAW: put_ts(W->mono - W->mono / 20000 - 1234567, ts); break;
	case CLOCK_BOOTTIME: put_ts(W->mono + 777000000000ll, ts); break;
	case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: put_ts((i64)G->R.visops * 1000, ts); break;
	default: errno = EINVAL; return -1;
	}
	return 0;
}
int sim_clock_getres(clockid_t, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
int sim_timespec_get(struct timespec *ts, int b) { return sim_clock_gettime(CLOCK_REALTIME, ts) == 0 ? b : 0; }
int sim_gettimeofday(struct timeval *tv, void *tz)
{
	vis("gettimeofday");
	(void)tz;
	if (fault(F_CLOCK)) return sys_fail(choose(2) ? ENOSYS : EINVAL);
	struct timespec ts;
	put_ts(rt_now(), &ts);
	if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
	return 0;
}
time_t sim_time(time_t *t)
{
	vis("time");
	struct timespec ts;
	put_ts(rt_now(), &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
clock_t sim_clock(void) { vis("clock"); return (clock_t)G->R.visops; }
static int setclock(i64 sec, i64 ns)
{
	vis("set_clock", sec, ns);
	if (fault(F_CLOCK)) return sys_fail(choose(2) ? EPERM : EINVAL);
	if (sec < 0 || sec > 8000000000ll || ns < 0 || ns >= 1000000000) { errno = EINVAL; return -1; }
	set_rt_offset(sec * 1000000000 + ns - W->mono);
	return 0;
}
int sim_settimeofday(const struct timeval *tv, const void *tz)
{
	(void)tz;
	if (!tv) return 0;
	vis("settimeofday");
	check_range(tv, sizeof *tv, false, "settimeofday");
	return setclock(tv->tv_sec, (i64)tv->tv_usec * 1000);
}
int sim_clock_settime(clockid_t c, const struct timespec *ts)
{
	if (c != CLOCK_REALTIME) { errno = EINVAL; return -1; }
	vis("clock_settime");
	check_range(ts, sizeof *ts, false, "clock_settime");
	return setclock(ts->tv_sec, ts->tv_nsec);
}
// ------------------------------------------------------------------ system properties (libputils)
int sim_sys_prop_get(const char *key, char *value, const char *def)
{
	vis("prop_get");
	auto it = W->props.find(key);
	const char *v = it != W->props.end() ? it->second.c_str() : def;
	if (!v) { value[0] = 0; return 0; }
	strcpy(value, v);
	check_range(value, strlen(v) + 1, true, "sys_prop_get");
	return (int)strlen(v);
}
int sim_sys_prop_set(const char *key, const char *value)
{
	vis("prop_set");
	if (strlen(value) >= 92) return -EINVAL;
	if (fault(F_PROP)) return choose(2) ? -ETIMEDOUT : -ECONNREFUSED;
	set_prop(key, value);
	return 0;
}
int sim_stime(const time_t *t) { return setclock(*t, 0); }
static struct tm *zone_tm(const time_t *t, struct tm *tm)
{
	int off = W->zone_off(*t);
	time_t l = *t + off;
	if (!gmtime_r(&l, tm)) return nullptr;
	tm->tm_gmtoff = off;
	tm->tm_zone = off == W->zone_before ? "ONE" : "TWO";
	tm->tm_isdst = off != W->zone_before;
	return tm;
}
struct tm *sim_localtime_r(const time_t *t, struct tm *tm)
{
	vis("localtime_r");
	check_range(t, sizeof *t, false, "localtime_r");
	check_range(tm, sizeof *tm, true, "localtime_r");
	return zone_tm(t, tm);
}
struct tm *sim_gmtime_r(const time_t *t, struct tm *tm)
{
	vis("gmtime_r");
	check_range(t, sizeof *t, false, "gmtime_r");
	check_range(tm, sizeof *tm, true, "gmtime_r");
	return gmtime_r(t, tm);
}
struct tm *sim_gmtime(const time_t *t)
{
	static struct tm tm;
	vis("gmtime");
	check_range(t, sizeof *t, false, "gmtime");
	return gmtime_r(t, &tm);
}
struct tm *sim_localtime(const time_t *t)
{
	static struct tm tm;
	vis("localtime");
	return zone_tm(t, &tm);
}

time_t sim_mktime(struct tm *tm)
{
	vis("mktime");
	struct tm c = *tm;
	time_t l = timegm(&c), t = l - W->zone_before;
	if (W->zone_off(t) != W->zone_before) t = l - W->zone_after;
	zone_tm(&t, tm);
	return t;
}
time_t sim_timelocal(struct tm *tm) { return sim_mktime(tm); }
void sim_tzset(void) {}

static Wake sleep_until(Clk ck, i64 dl)
{
	Wake w = block([] { return false; }, ck, dl, true);
	// a signal after the end of the sleep does not interrupt it
	if (w == W_INTR && dl <= (ck == CK_REAL ? rt_now() : W->mono)) w = W_TIMEOUT;
	return w;
}
int sim_nanosleep(const struct timespec *rq, struct timespec *rem)
{
	vis("nanosleep", rq->tv_sec, rq->tv_nsec);
	if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000 || rq->tv_sec < 0) { errno = EINVAL; return -1; }
	i64 dl = W->mono + ts_ns(rq);
	if (dl < W->mono) dl = 9000000000000000000ll;
	if (sleep_until(CK_MONO, dl) == W_INTR) {
		i64 r = dl - W->mono;
		if (r < 0) r = 0;
		if (rem) put_ts(r, rem);
		errno = EINTR;
		return -1;
	}
	return 0;
}
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rem)
{
	vis("clock_nanosleep", c, flags);
	if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000 || rq->tv_sec < 0) return EINVAL;
	if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_BOOTTIME) return EINVAL;
	if (flags & TIMER_ABSTIME) {
		i64 dl = ts_ns(rq);
		if (c == CLOCK_BOOTTIME) dl -= 777000000000ll;
		return sleep_until(c == CLOCK_REALTIME ? CK_REAL : CK_MONO, dl) == W_INTR ? EINTR : 0;
	}
	i64 dl = W->mono + ts_ns(rq);
	if (sleep_until(CK_MONO, dl) == W_INTR) {
		if (rem) put_ts(dl - W->mono < 0 ? 0 : dl - W->mono, rem);
		return EINTR;
	}
	return 0;
}
int sim_usleep(unsigned us)
{
	vis("usleep", us);
	if (sleep_until(CK_MONO, W->mono + (i64)us * 1000) == W_INTR) { errno = EINTR; return -1; }
	return 0;
}
unsigned sim_sleep(unsigned s)
{
	vis("sleep", s);
	i64 dl = W->mono + (i64)s * 1000000000;
	if (sleep_until(CK_MONO, dl) == W_INTR) return (unsigned)((dl - W->mono + 999999999) / 1000000000);
	return 0;
}
} // extern C
