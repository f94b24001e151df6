#include "internal.h"
#include <new>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <link.h>
#include <ucontext.h>
#include <sys/time.h>

namespace sim {

const char *fault_names[F_NKINDS] = {
	"alloc_failure", "syscall_eintr", "read_eio", "write_eio", "write_enospc", "short_write",
	"short_read", "fsync_error", "open_error", "fd_exhaustion", "close_error", "rename_error", "unlink_error",
	"readdir_error", "stat_error", "pipe_error", "fcntl_error", "ioctl_error", "inotify_error", "clock_error",
	"spurious_wakeup", "stall", "wall_clock_step", "process_kill", "power_loss", "entropy_syscall",
	"entropy_device", "iconv_error", "cond_init_error", "torn_unsynced_data", "stored_corruption", "message_loss", "message_duplication",
	"message_reorder", "signal", "exec", "fork", "concurrent_mutation", "property_error"};

WorldI *G = nullptr;
World *W = nullptr;
extern "C" { int g_budget = 1 << 30; }
int g_quantum = 1 << 30;
static const int BIG = 1000000;
volatile u64 g_run_serial = 0;

u64 mix64(u64 x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

// ------------------------------------------------------------------ choices
static u64 rng_next() { G->rng += 0x9e3779b97f4a7c15ull; return mix64(G->rng); }

static u32 record(u32 n, u32 v)
{
	G->R.choices.push_back(v);
	if (G->R.choices.size() > 16000000) fail("too-many-choices", "run does not end");
	(void)n;
	return v;
}
static bool from_replay(u32 n, u32 &v)
{
	if (!G->replay) return false;
	v = G->pos < G->in.size() ? G->in[G->pos] : 0;
	G->pos++;
	if (n && v >= n) v = v % n;
	return true;
}
u32 choose(u32 n)
{
	u32 v;
	if (n <= 1) return 0;
	if (!from_replay(n, v)) v = (u32)(((unsigned __int128)rng_next() * n) >> 64);
	return record(n, v);
}
u64 choose64()
{
	u32 a, b;
	if (!from_replay(0, a)) a = (u32)rng_next();
	record(0, a);
	if (!from_replay(0, b)) b = (u32)rng_next();
	record(0, b);
	return ((u64)b << 32) | a;
}
bool chance(u32 ppm)
{
	u32 v;
	if (!ppm) return false;
	if (!from_replay(2, v)) v = (rng_next() % 1000000) < ppm;
	return record(2, v) != 0;
}
u32 pickw(std::initializer_list<u32> w)
{
	u32 v, n = (u32)w.size();
	if (n <= 1) return 0;
	if (!from_replay(n, v)) {
		u64 tot = 0;
		for (u32 x : w) tot += x;
		u64 r = rng_next() % tot;
		v = 0;
		for (u32 x : w) { if (r < x) break; r -= x; v++; }
	}
	return record(n, v);
}
u32 log_uniform(u32 max)
{
	if (!max) return 0;
	u32 bits = 0;
	while ((1ull << bits) <= max) bits++;
	u32 b = choose(bits + 1);
	if (!b) return 0;
	u32 lo = 1u << (b - 1);
	u32 hi = (b == bits) ? max : (1u << b) - 1;
	return lo + choose(hi - lo + 1);
}

// ------------------------------------------------------------------ events
static inline void hmix(u64 &h, u64 x) { h = (h ^ x) * 0x100000001b3ull; h ^= h >> 29; }
static u64 hname(const char *s)
{
	u64 h = 1469598103934665603ull;
	while (*s) h = (h ^ (u8)*s++) * 1099511628211ull;
	return h;
}
bool g_stream;
static void log_line(const std::string &l)
{
	if (g_stream) { printf("%s\n", l.c_str()); fflush(stdout); }
	G->R.log.push_back(l);
}
void ev(const char *name, i64 a, i64 b, i64 r)
{
	G->seq++;
	u64 hn = hname(name);
	int t = G->cur ? G->cur->id : -1;
	hmix(G->R.loghash, hn + (u64)t);
	hmix(G->R.loghash, (u64)a); hmix(G->R.loghash, (u64)b); hmix(G->R.loghash, (u64)r);
	hmix(G->R.loghash, (u64)W->mono);
	if (G->verbose) {
		char buf[256];
		snprintf(buf, sizeof buf, "[%6llu t=%lld.%06llds %s] %s(%lld,%lld) = %lld", (unsigned long long)G->seq,
			 (long long)(W->mono / 1000000000), (long long)(W->mono / 1000 % 1000000),
			 G->cur ? G->cur->name.c_str() : "-", name, (long long)a, (long long)b, (long long)r);
		log_line(buf);
	}
}
void note(const char *fmt, ...)
{
	if (!G->verbose) return;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	log_line(std::string("    # ") + (G->cur ? G->cur->name : std::string("-")) + ": " + buf);
}
void describe(const char *fmt, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (G->R.desc.size() < 2000) { if (!G->R.desc.empty()) G->R.desc += "; "; G->R.desc += buf; }
}
bool verbose() { return G->verbose; }
u64 now_seq() { return G->seq; }
u64 cur_steps() { return G->R.steps; }


void fail(const char *kind, const char *fmt, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (!G->R.violated && !G->R.internal) {
		G->R.violated = true;
		G->R.kind = kind;
		G->R.msg = buf;
	}
	G->over = true;
	if (G->verbose) log_line(std::string("!!! VIOLATION ") + kind + ": " + buf);
	if (G->cur) { G->cur->st = T_DEAD; yield_to_sched(); }
	fprintf(stderr, "fail() outside a thread: %s: %s\n", kind, buf);
	_exit(3);
}
void internal_error(const char *fmt, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (G && G->cur) {
		G->R.internal = true;
		G->R.violated = false;
		G->R.kind = "internal";
		G->R.msg = buf;
		G->over = true;
		G->cur->st = T_DEAD;
		yield_to_sched();
	}
	fprintf(stderr, "internal error: %s\n", buf);
	_exit(3);
}

// ------------------------------------------------------------------ coroutines
extern "C" void co_switch(void **save, void *load);
asm(R"(
.text
.globl co_switch
.type co_switch,@function
co_switch:
	push %rbp
	push %rbx
	push %r12
	push %r13
	push %r14
	push %r15
	mov %rsp,(%rdi)
	mov %rsi,%rsp
	pop %r15
	pop %r14
	pop %r13
	pop %r12
	pop %rbx
	pop %rbp
	ret
)");

static const size_t STK = 8 << 20; // as threads have
static std::vector<void *> stack_pool;
static void *stack_get()
{
	if (!stack_pool.empty()) { void *p = stack_pool.back(); stack_pool.pop_back(); return p; }
	char *p = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap stack"); _exit(3); }
	mprotect(p, 4096, PROT_NONE);
	return p + 4096;
}

// thread-local storage of the executable = the library's (the harness has none)
static u8 *tls_block; static size_t tls_size; static const u8 *tls_init; static size_t tls_initsz;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *d)
{
	if (*(int *)d) return 0;
	*(int *)d = 1; // first object: the executable
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS) {
			tls_size = i->dlpi_phdr[k].p_memsz;
			tls_initsz = i->dlpi_phdr[k].p_filesz;
			tls_init = (const u8 *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
			tls_block = (u8 *)i->dlpi_tls_data;
		}
	return 0;
}
static void tls_setup()
{
	int first = 0;
	dl_iterate_phdr(phdr_cb, &first);
}
static void tls_fresh(std::vector<u8> &v)
{
	v.assign(tls_size, 0);
	if (tls_initsz) memcpy(v.data(), tls_init, tls_initsz);
}

// library globals: sections renamed by the build
extern "C" { extern u8 __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak)),
	     __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak)); }
static std::vector<u8> data_snap, bss_snap;
static void globals_snapshot()
{
	if (__start_simdata) data_snap.assign(__start_simdata, __stop_simdata);
	if (__start_simbss) bss_snap.assign(__start_simbss, __stop_simbss);
}
static void globals_restore()
{
	if (!data_snap.empty()) memcpy(__start_simdata, data_snap.data(), data_snap.size());
	if (!bss_snap.empty()) memcpy(__start_simbss, bss_snap.data(), bss_snap.size());
}
void lib_image(std::vector<std::pair<u8 *, size_t>> &r)
{
	r.clear();
	if (__start_simdata) r.push_back({__start_simdata, (size_t)(__stop_simdata - __start_simdata)});
	if (__start_simbss) r.push_back({__start_simbss, (size_t)(__stop_simbss - __start_simbss)});
	if (tls_size) r.push_back({tls_block, tls_size});
}
void fork_snapshot(std::vector<u8> &img)
{
	std::vector<std::pair<u8 *, size_t>> r;
	lib_image(r);
	img.clear();
	for (auto &x : r) img.insert(img.end(), x.first, x.first + x.second);
}
void fork_restore(const std::vector<u8> &img)
{
	std::vector<std::pair<u8 *, size_t>> r;
	lib_image(r);
	size_t o = 0;
	for (auto &x : r) { memcpy(x.first, img.data() + o, x.second); o += x.second; }
}

void yield_to_sched()
{
	Thread *t = G->cur;
	co_switch(&t->sp, G->sched_sp);
	// back: we were picked again
}

static void thread_main()
{
	Thread *t = G->cur;
	t->fn();
	// destructors of thread-specific values
	for (int r = 0; r < 4 && !t->spec.empty(); r++) {
		std::map<u32, void *> sp;
		sp.swap(t->spec);
		for (auto &x : sp) {
			auto k = G->keys.find(x.first);
			if (x.second && k != G->keys.end() && k->second) { Lib l; k->second(x.second); }
		}
	}
	G->cur->st = T_DONE;
	yield_to_sched();
	abort();
}

static void not_alone();
static bool q_alone;   // the running thread was the only one that could run
int spawn(const char *name, std::function<void()> fn, Proc *p, bool daemon)
{
	Thread *t = new Thread;
	t->id = (int)G->th.size();
	t->name = name;
	t->fn = std::move(fn);
	t->proc = p ? p : G->mainp;
	t->daemon = daemon;
	t->stack = stack_get();
	u64 *sp = (u64 *)((char *)t->stack + STK - 4096);
	sp = (u64 *)((uintptr_t)sp & ~15ull);
	*--sp = 0;
	*--sp = (u64)(void *)thread_main; // return address of co_switch
	for (int i = 0; i < 6; i++) *--sp = 0;
	t->sp = sp;
	tls_fresh(t->tls);
	G->th.push_back(t);
	ev("spawn", t->id, t->proc->id);
	if (G->cur && q_alone && W->cfg.preempt) not_alone();
	return t->id;
}
static bool tended(int tid) { return G->th[tid]->st == T_DONE || G->th[tid]->st == T_DEAD; }
void join(int tid) { block([tid] { return tended(tid); }, CK_NONE, 0, false); }
bool thread_dead(int tid) { return G->th[tid]->st == T_DEAD; }
int self() { return G->cur ? G->cur->id : -1; }
Proc *main_proc() { return G->mainp; }
bool proc_dead(Proc *p) { return p->dead; }

i64 rt_now() { return W->mono + W->rt_off; }
void set_rt_offset(i64 off)
{
	W->rt_off = off;
	W->rt_hist.push_back({W->mono, off});
	ev("wall_clock", off / 1000000000, off % 1000000000);
}

Proc *new_proc()
{
	Proc *p = new Proc;
	p->id = (int)G->procs.size();
	p->pid = 1000 + p->id;
	p->first_fd = W->cfg.first_fd;
	G->procs.push_back(p);
	return p;
}
void kill_proc(Proc *p)
{
	if (p->dead) return;
	p->dead = true;
	ev("killed", p->id);
	bool me = false;
	for (Thread *t : G->th)
		if (t->proc == p && t->st != T_DONE && t->st != T_DEAD) {
			t->st = T_DEAD;
			if (t == G->cur) me = true;
		}
	for (auto &m : G->mtx) {
		int o = m.second.owner;
		if (o >= 0 && G->th[o]->proc == p) { m.second.owner = -1; m.second.count = 0; }
	}
	io_kill_proc(p);
	if (me) yield_to_sched();
}

Lib::Lib() { old = G->cur->in_lib; G->cur->in_lib = true; }
Lib::~Lib() { G->cur->in_lib = old; }

void choose_env()
{
	u32 r = choose(12);
	W->cfg.clobber_errno = r >= 8;
	static const int many[] = {126, 254, 1022, 1024, 2100, 4094};
	W->cfg.first_fd = r == 7 || r == 8 ? 0 : r == 6 ? many[choose(6)] : 3;
	for (Proc *p : G->procs) p->first_fd = W->cfg.first_fd;
}
// how long the machine has been up: the ends of 32-bit counters of micro- and milliseconds
void choose_uptime()
{
	if (!chance(300000)) return;
	static const i64 at[] = {2000000, 2147483648ll, 4294967296ll, 2147483648000ll, 4294967296000ll, 86400000000ll * 365};
	W->mono = (at[choose(6)] - (i64)log_uniform(choose(2) ? 2000 : 1900000)) * 1000 + choose(1000);
	W->boot = W->mono;
}
void choose_sched(int nthreads)
{
	choose_env();
	(void)nthreads;
	switch (pickw({3, 2, 3, 3, 2, 2, 2})) {
	case 6: W->cfg.preempt = W->cfg.hold = true; W->cfg.preempt_left = 1 + (int)choose(6); W->cfg.vis_ppm = choose(2) ? 50000 : 0; break; // a thread is left behind inside a call
	case 5: W->cfg.preempt = true; W->cfg.preempt_left = 1500; W->cfg.fine = true; W->cfg.vis_ppm = 100000; break; // nearly in lockstep
	case 0: W->cfg.preempt = true; W->cfg.preempt_left = 1 + (int)choose(4); W->cfg.vis_ppm = 0; break;
	case 1: W->cfg.preempt = false; W->cfg.vis_ppm = 300000; break;
	case 2: W->cfg.preempt = true; W->cfg.preempt_left = 100; W->cfg.vis_ppm = 100000; break;
	case 3: W->cfg.preempt = true; W->cfg.vis_ppm = 50000; break;
	case 4: W->cfg.preempt = true; W->cfg.preempt_left = 20; W->cfg.vis_ppm = 500000; break;
	}
	if (chance(300000)) W->cfg.stall_ppm = pick(std::vector<u32>{2000, 20000, 100000});
}

u32 more_calls(u32 n) { return W->cfg.hold && choose(2) ? n + log_uniform(150) : n; }

static void new_quantum(int nrunnable)
{
	int q = BIG;
	q_alone = nrunnable < 2;
	if (nrunnable > 1 && W->cfg.preempt && W->cfg.preempt_left > 0) {
		u32 k = choose(W->cfg.fine ? 300 : W->cfg.preempt_left > 50 ? 60 : 13);
		if (k) k = 1 + k % (W->cfg.fine ? 5 : 12);
		if (k) { q = 1 << (k - 1); if (k > 1) q += (int)choose(1u << (k - 1)); }
	}
	g_quantum = g_budget = q;
}

// the running thread is no longer alone: from now on it can be preempted
static void not_alone()
{
	int used = g_quantum - g_budget;
	if (used > 0 && used <= g_quantum) G->R.steps += (u64)used;
	new_quantum(2);
}

void preempt_slow()
{
	if (!G || !G->cur) { g_budget = g_quantum = 1 << 30; return; }
	G->R.steps += (u64)g_quantum;
	if (G->R.steps > W->cfg.step_cap) fail("no-progress", "more than %llu memory accesses in one run: the library does not terminate", (unsigned long long)W->cfg.step_cap);
	if (g_quantum != BIG) {
		W->cfg.preempt_left--;
		G->R.preemptions++;
		ev("preempt", (i64)G->R.steps);
	}
	G->wantyield = 1;
	yield_to_sched();
}

void yield_point()
{
	G->wantyield = 2;
	yield_to_sched();
}

static bool wakeable(Thread *t);
void vis(const char *name, i64 a, i64 b)
{
	Thread *t = G->cur;
	if (!t) return;
	G->R.visops++;
	W->mono += 1000;
	ev(name, a, b);
	hmix(G->R.schedhash, hname(name) * 31 + (u64)t->id);
	if (W->monitor) W->monitor();
	if (G->R.visops > W->cfg.vis_cap) fail("no-progress", "more than %u system calls in one run: the library does not terminate", W->cfg.vis_cap);
	if (W->cfg.stall_ppm && t->in_lib && chance(W->cfg.stall_ppm)) {
		static const i64 d[] = {20000, 1000000, 7000000, 33000000, 400000000, 2500000000ll};
		i64 x = d[choose(6)];
		W->mono += x;
		W->i_stall_total += (u64)x;
		count_fault(F_STALL);
		ev("stall", x);
	}
	if (W->crash_in >= 0 && t->in_lib && t->proc == W->crash_proc) {
		if (W->crash_in == 0) {
			W->crash_in = -1;
			ev("crash", t->proc->id);
			kill_proc(t->proc);
		} else
			W->crash_in--;
	}
	if (W->cfg.vis_ppm && G->th.size() > 1 && chance(W->cfg.vis_ppm)) {
		G->wantyield = 3;
		yield_to_sched();
	} else if (q_alone && t->in_lib && W->cfg.preempt && W->cfg.preempt_left > 0 && G->th.size() > 1) {
		for (Thread *o : G->th)
			if (o != t && (o->st == T_READY || (o->st == T_BLOCKED && wakeable(o)))) { not_alone(); break; }
	}
}

Wake block(std::function<bool()> pred, Clk ck, i64 dl, bool interruptible)
{
	Thread *t = G->cur;
	t->pred = std::move(pred);
	t->dlck = ck;
	t->dl = dl;
	t->intr_at = -1;
	t->nblocks++;
	if (interruptible && t->in_lib && fault(F_EINTR)) {
		i64 rem = 1000000000;
		if (ck == CK_MONO) rem = dl - W->mono;
		else if (ck == CK_REAL) rem = dl - rt_now();
		if (rem < 0) rem = 0;
		u32 k = choose(6);
		i64 d = k == 0 ? 0 : k == 1 ? rem / 2 : k == 2 ? rem - rem / 16 : k == 3 ? (rem < 1000000 ? rem : 1000000) : rem;
		if (k == 5) d = rem - (i64)choose(2000) * 1000; // just before its end
		if (d < 0) d = 0;
		t->intr_at = W->mono + d;
	}
	t->st = T_BLOCKED;
	G->R.switches++;
	yield_to_sched();
	t->pred = nullptr;
	if (t->wr == W_INTR) ev("signal", t->id);
	return t->wr;
}

u64 self_blocks() { return G->cur ? G->cur->nblocks : 0; }
void sleep_ns(i64 d)
{
	block([] { return false; }, CK_MONO, W->mono + d, false);
}

// returns true and sets wr if the blocked thread can run now
static bool wakeable(Thread *t)
{
	if (t->pred && t->pred()) { t->wr = W_READY; return true; }
	if (t->intr_at >= 0 && t->intr_at <= W->mono) { t->wr = W_INTR; return true; }
	if (t->dlck == CK_MONO && t->dl <= W->mono) { t->wr = W_TIMEOUT; return true; }
	if (t->dlck == CK_REAL && t->dl <= rt_now()) { t->wr = W_TIMEOUT; return true; }
	return false;
}

static void sched_loop()
{
	Thread *last = nullptr;
	std::vector<Thread *> run;
	while (!G->over) {
		run.clear();
		bool live = false;
		size_t n = G->th.size();
		size_t start = last ? (size_t)last->id : 0;
		for (size_t i = 0; i < n; i++) {
			Thread *t = G->th[(start + i) % n];
			if (t->st == T_DONE || t->st == T_DEAD) continue;
			if (!t->daemon) live = true;
			if (t->st == T_READY || (t->st == T_BLOCKED && wakeable(t))) run.push_back(t);
		}
		if (!live) break;
		if (run.empty()) {
			i64 next = INT64_MAX;
			for (Thread *t : G->th) {
				if (t->st != T_BLOCKED) continue;
				if (t->intr_at >= 0 && t->intr_at < next) next = t->intr_at;
				if (t->dlck == CK_MONO && t->dl < next) next = t->dl;
				if (t->dlck == CK_REAL && t->dl - W->rt_off < next) next = t->dl - W->rt_off;
			}
			if (next == INT64_MAX || next > (i64)9000000000000000000ll) {
				G->cur = nullptr;
				std::string who;
				for (Thread *t : G->th) if (t->st == T_BLOCKED) who += " " + t->name;
				G->R.violated = true;
				G->R.kind = "deadlock";
				G->R.msg = "every thread is blocked for ever:" + who;
				if (G->verbose) log_line("!!! VIOLATION deadlock: " + G->R.msg);
				return;
			}
			if (next > W->mono) W->mono = next;
			continue;
		}
		Thread *t;
		u64 wy = G->wantyield;
		G->wantyield = 0;
		if (W->cfg.hold) {
			if (last && last->in_lib && (wy == 1 || wy == 3) && run.size() > 1) last->held = 1 + log_uniform(400);
			size_t free = 0;
			for (Thread *x : run) free += !x->held;
			if (free && free < run.size()) {
				size_t k = 0;
				for (Thread *x : run) if (x->held) x->held--; else run[k++] = x;
				run.resize(k);
			}
		}
		if (run.size() == 1) t = run[0];
		else if (wy == 3 && last && run[0] == last) t = run[1 + choose((u32)run.size() - 1)];
		else t = run[choose((u32)run.size())];
		if (t->st == T_BLOCKED) {
			// wr was set by wakeable(); recompute as state may have moved
			if (!wakeable(t)) continue;
			t->st = T_READY;
		}
		new_quantum((int)run.size());
		if (t != last) { G->R.switches++; hmix(G->R.schedhash, 0x77 + (u64)t->id + (G->R.steps << 8)); }
		last = t;
		G->cur = t;
		if (tls_size) memcpy(tls_block, t->tls.data(), tls_size);
		errno = t->err;
		co_switch(&G->sched_sp, t->sp);
		t->err = errno;
		if (tls_size) memcpy(t->tls.data(), tls_block, tls_size);
		int used = g_quantum - g_budget;
		if (used > 0 && used <= g_quantum) G->R.steps += (u64)used;
		G->cur = nullptr;
	}
}

// ------------------------------------------------------------------ faults
u32 fault_count(FaultKind k) { return G->R.faults[k]; }
u32 fault_here(FaultKind k) { return G->cur ? G->cur->faults[k] : G->R.faults[k]; }
void count_fault(FaultKind k) { G->R.faults[k]++; G->R.nfaults++; if (G->cur) G->cur->faults[k]++; }
bool fault(FaultKind k)
{
	FaultCfg &f = W->F;
	if (k == F_EINTR && storm(k)) return true;
	if (!(f.mask & FM(k)) || !G->cur || !G->cur->in_lib || f.left <= 0) return false;
	bool hit;
	if (f.at >= 0) hit = f.seen++ == f.at;
	else hit = chance(f.ppm);
	if (hit) {
		f.left--;
		f.fired++;
		count_fault(k);
		ev("fault", k);
		if (G->verbose) note("inject %s", fault_names[k]);
		if (k == F_EINTR && W->cfg.storm) G->cur->storm = log_uniform(W->cfg.storm);
	}
	return hit;
}
bool storm(FaultKind k)
{
	if (!G->cur || !G->cur->in_lib || !G->cur->storm) return false;
	if (!(W->F.mask & FM(k))) { G->cur->storm = 0; return false; } // faults have stopped
	G->cur->storm--;
	count_fault(k);
	ev("signal storm", G->cur->storm);
	if (G->verbose) note("inject %s", fault_names[k]);
	return true;
}
void choose_faults(u64 kinds, u32 typical, int maxf)
{
	FaultCfg &f = W->F;
	f = FaultCfg();
	switch (pickw({2, 5, 3})) {
	case 0: break;                                 // fault-free
	case 1: f.mask = kinds; f.at = (int)choose(typical ? typical : 1); break; // exactly one
	case 2: {
		// a random subset of kinds at a moderate rate
		u64 m = 0;
		for (int i = 0; i < F_NKINDS; i++) if (kinds & (1ull << i)) if (choose(2)) m |= 1ull << i;
		f.mask = m;
		f.ppm = pick(std::vector<u32>{10000, 50000, 150000, 400000});
		f.left = maxf;
		break;
	}
	}
	if (f.mask & (FM(F_EINTR) | FM(F_ENTROPY) | FM(F_ENTROPY_DEV)) && choose(10) == 9) W->cfg.storm = 300;
}

// ------------------------------------------------------------------ heap
static const uintptr_t ARENA = 0x200000000000ull, SHADOW = 0x300000000000ull;
static const size_t ARENA_SZ = 512ull << 20;
static const size_t RZ = 64;
static u8 *shadow;
static void arena_setup()
{
	void *a = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void *b = mmap((void *)SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != (void *)ARENA || b != (void *)SHADOW) { perror("mmap arena"); _exit(3); }
	shadow = (u8 *)SHADOW;
}
void heap_reset()
{
	// previous run's extent
	static uintptr_t hi = ARENA;
	if (G) { if (G->brk > hi) hi = G->brk; }
	if (hi > ARENA) memset(shadow, 0, hi - ARENA);
	hi = ARENA;
}
static void heap_clean(uintptr_t brk) { if (brk > ARENA) memset(shadow, 0, brk - ARENA); }

static void *halloc(size_t n, bool islib, bool zero)
{
	size_t tot = RZ + ((n + 15) & ~15ull) + RZ;
	if (n > (256ull << 20) || G->brk + tot > ARENA + ARENA_SZ) return nullptr;
	uintptr_t a = G->brk + RZ;
	G->brk += tot;
	memset((void *)(a - RZ), 0xFA, RZ);
	memset((void *)a, zero ? 0 : 0xA7, n);
	memset((void *)(a + n), 0xFB, tot - RZ - n);
	memset(shadow + (a - ARENA), 1, n);
	G->blkidx[a] = (u32)G->blks.size();
	G->blks.push_back(Blk{a, n, false, islib, G->cur ? G->cur->proc->id : -1, G->seq});
	return (void *)a;
}
void *xalloc(size_t n) { return halloc(n ? n : 1, false, false); }
static void hfree(void *p, const char *who)
{
	auto it = G->blkidx.find((uintptr_t)p);
	if (it == G->blkidx.end()) fail("heap-bad-free", "%s of a pointer that is not the start of a block", who);
	Blk &b = G->blks[it->second];
	if (b.freed) fail("heap-double-free", "%s of an already released block of %zu bytes", who, b.n);
	b.freed = true;
	memset(shadow + (b.a - ARENA), 2, b.n);
	memset((void *)b.a, 0xDD, b.n);
}
void xfree(void *p) { if (p) hfree(p, "xfree"); }
// state a thread keeps until it ends is not a leak
static bool thread_state(uintptr_t a)
{
	for (auto &t : G->th) for (auto &x : t->spec) if ((uintptr_t)x.second == a) return true;
	return false;
}
size_t lib_live_blocks(Proc *p)
{
	size_t n = 0;
	for (auto &b : G->blks) if (b.lib && !b.freed && (!p || b.proc == p->id) && !thread_state(b.a)) n++;
	return n;
}
std::string lib_live_desc(Proc *p)
{
	std::string s;
	for (auto &b : G->blks)
		if (b.lib && !b.freed && (!p || b.proc == p->id)) s += " " + std::to_string(b.n) + "B";
	return s;
}
void check_range(const void *p, size_t n, bool write, const char *who)
{
	uintptr_t a = (uintptr_t)p - ARENA;
	if (a >= ARENA_SZ || !n) return;
	if (n > ARENA_SZ - a) n = ARENA_SZ - a;
	for (size_t i = 0; i < n; i++)
		if (shadow[a + i] != 1)
			fail(shadow[a + i] == 2 ? "heap-use-after-free" : "heap-out-of-bounds", "%s %s %zu bytes at %s heap memory (offset %zu)", who,
			     write ? "writes" : "reads", n, shadow[a + i] == 2 ? "released" : "unallocated", i);
}
static inline void acc(uintptr_t p, size_t n, bool w)
{
	uintptr_t a = p - ARENA;
	if (__builtin_expect(a < ARENA_SZ, 0) && G && G->cur) {
		if (__builtin_expect(shadow[a] != 1 || shadow[a + n - 1] != 1, 0)) check_range((void *)p, n, w, "library code");
	}
	if (__builtin_expect(--g_budget < 0, 0)) preempt_slow();
}
bool arena_contains(const void *hay, size_t n)
{
	for (auto &b : G->blks)
		if (b.lib && !b.freed && b.n >= n && memmem((void *)b.a, b.n, hay, n)) return true;
	return false;
}

bool state_contains(const void *hay, size_t n)
{
	std::vector<std::pair<u8 *, size_t>> r;
	lib_image(r);
	for (auto &x : r) if (x.second >= n && memmem(x.first, x.second, hay, n)) return true;
	return arena_contains(hay, n);
}
std::vector<std::vector<u8>> state_bytes()
{
	std::vector<std::pair<u8 *, size_t>> r;
	std::vector<std::vector<u8>> v;
	lib_image(r);
	for (auto &x : r) v.emplace_back(x.first, x.first + x.second);
	for (auto &b : G->blks) if (b.lib && !b.freed) v.emplace_back((u8 *)b.a, (u8 *)b.a + b.n);
	return v;
}
// a forked child has its own copy of everything: globals, thread-local storage, heap blocks, thread-specific values
static void put64(std::vector<u8> &v, u64 x) { v.insert(v.end(), (u8 *)&x, (u8 *)&x + 8); }
static u64 get64(const std::vector<u8> &v, size_t &o) { u64 x; memcpy(&x, v.data() + o, 8); o += 8; return x; }
void set_prop(const char *key, const char *value)
{
	W->props[key] = value;
	ev("property set", (i64)strlen(value), value[0]);
	W->prop_hist.push_back({now_seq(), {key, value}});
}
std::vector<u8> fork_image()
{
	std::vector<u8> v;
	fork_snapshot(v);
	std::vector<Blk *> live;
	for (auto &b : G->blks) if (b.lib && !b.freed) live.push_back(&b);
	put64(v, live.size());
	for (auto *b : live) { put64(v, b->a); put64(v, b->n); v.insert(v.end(), (u8 *)b->a, (u8 *)b->a + b->n); }
	put64(v, G->cur->spec.size());
	for (auto &x : G->cur->spec) { put64(v, x.first); put64(v, (u64)(uintptr_t)x.second); }
	count_fault(F_FORK);
	return v;
}
void fork_load(const std::vector<u8> &img)
{
	fork_restore(img);
	std::vector<std::pair<u8 *, size_t>> r;
	lib_image(r);
	size_t o = 0;
	for (auto &x : r) o += x.second;
	u64 n = get64(img, o);
	for (u64 i = 0; i < n; i++) {
		u64 a = get64(img, o), sz = get64(img, o);
		auto it = G->blkidx.find((uintptr_t)a);
		if (it != G->blkidx.end() && !G->blks[it->second].freed) memcpy((void *)a, img.data() + o, sz);
		o += sz;
	}
	n = get64(img, o);
	G->cur->spec.clear();
	for (u64 i = 0; i < n; i++) { u64 k = get64(img, o); G->cur->spec[(u32)k] = (void *)(uintptr_t)get64(img, o); }
}

// ------------------------------------------------------------------ run
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void add_scenario(const Scenario &s) { scenarios().push_back(s); }

static bool setup_done;
RunResult run_one(const Scenario &s, u64 seed, const std::vector<u32> *rep, bool verbose, int variant, u64 arg)
{
	if (!setup_done) { arena_setup(); tls_setup(); globals_snapshot(); install_handlers(); setup_done = true; }
	g_run_serial = g_run_serial + 1;
	WorldI *w = new WorldI;
	G = w; W = w;
	w->brk = ARENA;
	w->verbose = verbose;
	w->variant = variant;
	w->variant_arg = arg;
	w->R.loghash = 0xcbf29ce484222325ull;
	w->R.schedhash = 0x9747b28c;
	w->rng = seed;
	if (rep) { w->replay = true; w->in = *rep; }
	globals_restore();
	g_budget = g_quantum = 1 << 30;
	w->mono = 1000000000ll * 5000;
	w->rt_off = 1000000000ll * 1700000000;
	w->rt_hist.push_back({0, w->rt_off});
	w->mainp = new_proc();
	io_reset();
	spawn("main", s.fn);
	w->boot = w->mono;
	sched_loop();
	w->R.simtime = w->mono - w->boot;
	hmix(w->R.loghash, w->R.steps);
	w->R.outputs = std::move(w->outputs);
	w->R.marks = std::move(w->marks);
	heap_clean(w->brk);
	for (Thread *t : w->th) { stack_pool.push_back(t->stack); delete t; }
	for (Proc *p : w->procs) delete p;
	RunResult r = std::move(w->R);
	io_reset();
	delete w;
	G = nullptr; W = nullptr;
	g_budget = g_quantum = 1 << 30;
	return r;
}

// ------------------------------------------------------------------ signals
static void on_crash(int sig, siginfo_t *si, void *)
{
	if (!G || !G->cur) { fprintf(stderr, "signal %d in the simulator itself\n", sig); _exit(3); }
	if (!G->cur->in_lib) {
		fprintf(stderr, "signal %d in harness code (addr %p)\n", sig, si->si_addr);
		_exit(3);
	}
	uintptr_t a = (uintptr_t)si->si_addr;
	if (!G->R.violated && !G->R.internal) {
		G->R.violated = true;
		G->R.kind = sig == SIGSEGV || sig == SIGBUS ? "crash-invalid-memory" : sig == SIGFPE ? "crash-arithmetic" : sig == SIGVTALRM ? "hang" : "crash-signal";
		char b[128];
		if (sig == SIGVTALRM) snprintf(b, sizeof b, "library code runs for ever without memory access or system call");
		else snprintf(b, sizeof b, "signal %d in library code%s", sig, a < 4096 ? " (null pointer)" : "");
		G->R.msg = b;
	}
	G->over = true;
	if (G->verbose) log_line("!!! VIOLATION " + G->R.kind + ": " + G->R.msg);
	G->cur->st = T_DEAD;
	void *dummy;
	co_switch(&dummy, G->sched_sp);
}
static void on_tick(int sig, siginfo_t *si, void *uc)
{
	// ten seconds of processor time during which nothing was counted: neither a
	// memory access nor a system call (those have limits of their own)
	static u64 last, lastvis, laststeps; static int ticks, lastb;
	u64 vis = G ? G->R.visops : 0, steps = G ? G->R.steps : 0;
	if (last != g_run_serial || lastb != g_budget || lastvis != vis || laststeps != steps) {
		last = g_run_serial; lastb = g_budget; lastvis = vis; laststeps = steps; ticks = 0;
		return;
	}
	if (++ticks < 10 || !G || !G->cur || !G->cur->in_lib) return;
	ticks = 0;
	on_crash(sig, si, uc);
}
void install_handlers()
{
	static char alt[65536];
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_crash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	sa.sa_sigaction = on_tick;
	sa.sa_flags |= SA_RESTART;
	sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval it = {{1, 0}, {1, 0}};
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ tsan ABI
extern "C" {
#define RW(n) \
	void __tsan_read##n(void *a) { acc((uintptr_t)a, n, false); } \
	void __tsan_write##n(void *a) { acc((uintptr_t)a, n, true); } \
	void __tsan_unaligned_read##n(void *a) { acc((uintptr_t)a, n, false); } \
	void __tsan_unaligned_write##n(void *a) { acc((uintptr_t)a, n, true); } \
	void __tsan_volatile_read##n(void *a) { acc((uintptr_t)a, n, false); } \
	void __tsan_volatile_write##n(void *a) { acc((uintptr_t)a, n, true); } \
	void __tsan_read_write##n(void *a) { acc((uintptr_t)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { check_range(a, n, false, "library code"); if (--g_budget < 0) preempt_slow(); }
void __tsan_write_range(void *a, size_t n) { check_range(a, n, true, "library code"); if (--g_budget < 0) preempt_slow(); }
void __tsan_func_entry(void *) { if (--g_budget < 0) preempt_slow(); }
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((uintptr_t)a, sizeof(T), false); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ heap ABI
extern char __executable_start, _end;
void *sim_malloc(size_t n)
{
	if (fault(F_NOMEM)) { errno = ENOMEM; return nullptr; }
	void *p = halloc(n, G->cur && G->cur->in_lib, false);
	if (!p) errno = ENOMEM;
	return p;
}
void *sim_calloc(size_t a, size_t b)
{
	if (fault(F_NOMEM)) { errno = ENOMEM; return nullptr; }
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	void *p = halloc(n, G->cur && G->cur->in_lib, true);
	if (!p) errno = ENOMEM;
	return p;
}
void sim_free(void *p)
{
	if (!p) return;
	if ((uintptr_t)p - ARENA >= ARENA_SZ) {
		// something a libc function that is not simulated allocated
		uintptr_t a = (uintptr_t)p, m = (uintptr_t)sbrk(0);
		if (a % 16 || a >= m || a < m - (1ull << 30) || (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end)) fail("heap-bad-free", "free of a pointer that is not a live block");
		free(p);
		return;
	}
	hfree(p, "free");
}
void *sim_realloc(void *p, size_t n)
{
	if (!p) return sim_malloc(n);
	if ((uintptr_t)p - ARENA >= ARENA_SZ) return realloc(p, n);
	if (!n) { sim_free(p); return nullptr; }
	auto it = G->blkidx.find((uintptr_t)p);
	if (it == G->blkidx.end() || G->blks[it->second].freed) fail("heap-bad-free", "realloc of a pointer that is not a live block");
	size_t old = G->blks[it->second].n;
	void *q = sim_malloc(n);
	if (!q) return nullptr;
	memcpy(q, p, old < n ? old : n);
	sim_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	return sim_realloc(p, n);
}
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
int sim_posix_memalign(void **p, size_t, size_t n) { void *q = sim_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
char *sim_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	check_range(s, n, false, "strdup");
	char *p = (char *)sim_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}
char *sim_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = (char *)sim_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}

// block copies are not atomic: allow a preemption in the middle
static inline void mid() { if (--g_budget < 0) preempt_slow(); }
// C++ allocation of library code (its templates are compiled into it)
void *sim__Znwm(size_t n) { void *p = sim_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *sim__Znam(size_t n) { return sim__Znwm(n); }
void *sim__ZnwmRKSt9nothrow_t(size_t n, const void *) { return sim_malloc(n); }
void *sim__ZnamRKSt9nothrow_t(size_t n, const void *) { return sim_malloc(n); }
void sim__ZdlPv(void *p) { sim_free(p); }
void sim__ZdaPv(void *p) { sim_free(p); }
void sim__ZdlPvm(void *p, size_t) { sim_free(p); }
void sim__ZdaPvm(void *p, size_t) { sim_free(p); }
// results are written into the argument
char *__xpg_basename(char *);
char *dirname(char *);
static char *pathpart(char *p, char *(*f)(char *), const char *who)
{
	if (!p) return f(p);
	check_range(p, strlen(p) + 1, true, who);
	mid();
	char *r = f(p);
	mid();
	return r;
}
char *sim___xpg_basename(char *p) { return pathpart(p, __xpg_basename, "basename"); }
char *sim_dirname(char *p) { return pathpart(p, dirname, "dirname"); }
void *sim_memcpy(void *d, const void *s, size_t n)
{
	check_range(s, n, false, "memcpy");
	check_range(d, n, true, "memcpy");
	mid();
	size_t h = n / 2;
	memcpy(d, s, h);
	mid();
	memcpy((char *)d + h, (const char *)s + h, n - h);
	mid();
	return d;
}
void *sim_mempcpy(void *d, const void *s, size_t n) { return (char *)sim_memcpy(d, s, n) + n; }
void *sim_memmove(void *d, const void *s, size_t n)
{
	check_range(s, n, false, "memmove");
	check_range(d, n, true, "memmove");
	mid();
	memmove(d, s, n);
	mid();
	return d;
}
void *sim_memset(void *d, int c, size_t n)
{
	check_range(d, n, true, "memset");
	mid();
	size_t h = n / 2;
	memset(d, c, h);
	mid();
	memset((char *)d + h, c, n - h);
	return d;
}
void sim_explicit_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
void sim_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
int sim_memcmp(const void *a, const void *b, size_t n)
{
	check_range(a, n, false, "memcmp");
	check_range(b, n, false, "memcmp");
	return memcmp(a, b, n);
}
int sim_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
	int r = vsnprintf(b, n, f, ap);
	if (n && r >= 0) check_range(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, true, "snprintf");
	return r;
}
int sim_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = sim_vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
int sim_vasprintf(char **o, const char *f, va_list ap)
{
	va_list a2;
	va_copy(a2, ap);
	int r = vsnprintf(nullptr, 0, f, a2);
	va_end(a2);
	if (r < 0) return r;
	char *p = (char *)sim_malloc((size_t)r + 1);
	if (!p) return -1;
	vsnprintf(p, (size_t)r + 1, f, ap);
	*o = p;
	return r;
}
int sim_asprintf(char **o, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = sim_vasprintf(o, f, ap);
	va_end(ap);
	return r;
}
int sim_sprintf(char *b, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsprintf(b, f, ap);
	va_end(ap);
	if (r >= 0) check_range(b, (size_t)r + 1, true, "sprintf");
	return r;
}
size_t sim_strlen(const char *s) { size_t n = strlen(s); check_range(s, n + 1, false, "strlen"); return n; }
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; check_range(s, n, false, "strcpy"); check_range(d, n, true, "strcpy"); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { check_range(d, n, true, "strncpy"); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { size_t n = strlen(d) + strlen(s) + 1; check_range(d, n, true, "strcat"); return strcat(d, s); }

void sim_abort(void)
{
	ev("abort");
	// the whole process dies; scenarios look at the dead process
	if (G->cur->in_lib && G->cur->proc != G->mainp) { probe("abort() called by the library"); kill_proc(G->cur->proc); }
	fail("abort", "the library aborted the process");
}
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	const char *b = strrchr(f, '/');
	(void)l;
	fail("assertion", "assertion '%s' failed in %s (%s)", e, fn, b ? b + 1 : f);
}
int sim_rand(void) { G->rand_state = mix64(G->rand_state); return (int)(G->rand_state >> 33); }
void sim_srand(unsigned s) { G->rand_state = s; }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { G->rand_state = s; }
int sim_rand_r(unsigned *s) { *s = (unsigned)mix64(*s); return (int)(*s >> 1); }
double sim_drand48(void) { return sim_rand() / 2147483648.0; }
long sim_lrand48(void) { return sim_rand(); }
void sim_srand48(long s) { G->rand_state = (u64)s; }
int sim_getpid(void) { return G->cur->proc->pid; }
int sim_gettid(void) { return G->cur->proc->pid + G->cur->id; }
void sim_exit(int) { sim_abort(); }
} // extern C
