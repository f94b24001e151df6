// Deterministic simulator for libfutils: core API.
// One OS thread; every simulated thread is a coroutine; every decision comes
// from choose(), so a run is a pure function of its choice list.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef int64_t i64;

namespace sim {

// ---------------------------------------------------------------- choices
u32 choose(u32 n);                 // uniform in [0,n); 0 is the simplest
bool chance(u32 ppm);              // true with probability ppm/1e6
u32 pickw(std::initializer_list<u32> weights); // weighted index, 0 simplest
u64 choose64();                    // any 64-bit number (0 simplest)
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((u32)v.size())]; }
u32 more_calls(u32 n);             // n, or many more when an interrupted thread stays behind
u32 log_uniform(u32 max);          // in [0,max], log-uniformly distributed
u64 mix64(u64 x);
inline u64 mix2(u64 a, u64 b) { return mix64(a ^ (mix64(b) + 0x9e3779b97f4a7c15ull)); }

// ---------------------------------------------------------------- verdicts
// fail(): the property is violated; ends the run at once. kind is a stable
// class name (used by minimisation), the rest is text.
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// note(): text for the event trace (verbose replays only); never affects a run
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// ev(): a logged event, part of the run's hash
void ev(const char *name, i64 a = 0, i64 b = 0, i64 r = 0);
bool verbose();
void probe(const char *name);      // "this rare condition was reached"
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_REQUIRE(c) do { if (!(c)) ::sim::internal_error("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)

// ---------------------------------------------------------------- threads
enum Wake { W_READY, W_TIMEOUT, W_INTR };
enum Clk { CK_NONE, CK_MONO, CK_REAL };

struct Thread;
struct Proc;
int spawn(const char *name, std::function<void()> fn, Proc *p = nullptr, bool daemon = false);
void join(int tid);                // waits for the end (or death) of a thread
bool thread_dead(int tid);         // ended by a crash of its process
void yield_point();                // harness threads: let others run (a choice)
void vis(const char *name, i64 a = 0, i64 b = 0); // visible operation
Wake block(std::function<bool()> pred, Clk ck, i64 deadline_ns, bool interruptible);
u64 self_blocks();                 // how often the calling thread has slept
void sleep_ns(i64 d);              // harness sleep on the simulated clock
int self();
u64 now_seq();                     // global event sequence number
u64 cur_steps();

// marks "inside a library call": faults are only injected there and heap and
// descriptors obtained there belong to the library
struct Lib { Lib(); ~Lib(); bool old; };
template <class F> auto lib(F f) { Lib l; return f(); }

// ---------------------------------------------------------------- heap
void *xalloc(size_t n);            // harness buffer with redzones, in the arena
void xfree(void *p);
size_t lib_live_blocks(Proc *p = nullptr); // heap blocks the library still owns
std::string lib_live_desc(Proc *p = nullptr);
void check_range(const void *p, size_t n, bool write, const char *who);
bool arena_contains(const void *hay, size_t n); // scan live arena blocks of lib
std::vector<std::vector<u8>> state_bytes(); // copies of the same regions
bool state_contains(const void *hay, size_t n); // library globals, the calling thread's TLS, library heap

// ---------------------------------------------------------------- faults
enum FaultKind : int {
	F_NOMEM, F_EINTR, F_EIO_READ, F_EIO_WRITE, F_ENOSPC, F_SHORT_WRITE,
	F_SHORT_READ, F_FSYNC, F_OPEN, F_EMFILE, F_CLOSE, F_RENAME, F_UNLINK,
	F_READDIR, F_STAT, F_PIPE, F_FCNTL, F_IOCTL, F_INOTIFY, F_CLOCK,
	F_SPURIOUS, F_STALL, F_CLOCKJUMP, F_CRASH, F_POWERLOSS, F_ENTROPY,
	F_ENTROPY_DEV, F_ICONV, F_CONDINIT, F_TORN, F_CORRUPT, F_MSGLOSS, F_MSGDUP,
	F_REORDER, F_SIGNAL, F_EXEC, F_FORK, F_CONCURRENT, F_PROP, F_NKINDS
};
extern const char *fault_names[F_NKINDS];
bool fault(FaultKind k);           // decide (choice) whether to inject now
void count_fault(FaultKind k);
u32 fault_count(FaultKind k);      // injected so far in this run
u32 fault_here(FaultKind k);       // injected into the calling thread
struct FaultCfg {
	u64 mask = 0;          // enabled kinds
	u32 ppm = 0;           // rate mode
	int at = -1;           // single mode: inject at this opportunity
	int left = 1 << 30;    // at most this many
	int seen = 0;
	int fired = 0;
};
// swarm style choice of a fault plan over the given kinds
void choose_faults(u64 kinds, u32 typical_opportunities, int max_faults = 1000);
inline u64 FM(FaultKind k) { return 1ull << k; }

// ---------------------------------------------------------------- processes
struct Proc;
Proc *new_proc();                  // empty descriptor table (0-2 taken or not)
void kill_proc(Proc *p);           // every thread dies now; fds closed; FILEs dead
bool proc_dead(Proc *p);
Proc *main_proc();
// descriptors the library obtained that a program executed now would inherit
std::vector<int> exec_survivors(Proc *p = nullptr);

// ---------------------------------------------------------------- kernel side
// (pristine, durable set-up and inspection of the simulated system; no faults,
// no time, no scheduling)
void fs_put(const std::string &path, const std::string &data);  // durable
void fs_put_cached(const std::string &path, const std::string &data); // like write() without sync
void fs_mkdir(const std::string &path);
void fs_link(const std::string &path, const std::string &existing); // another name
void fs_symlink(const std::string &path, const std::string &target);
bool fs_get(const std::string &path, std::string &data);        // what a reader sees now
void fs_set_size(const std::string &path, i64 size);             // a huge sparse file
bool fs_exists(const std::string &path);
void fs_remove(const std::string &path);
std::vector<std::string> fs_list(const std::string &dir);
void fs_writeback();               // everything cached becomes durable
void fs_power_loss();              // only durable state (plus chosen luck) survives
bool fs_dirty(const std::string &path);
struct FsCfg {
	i64 quota = -1;            // bytes that can still be written (-1: no limit)
	bool dtype_unknown = false;
	bool file_fsync_commits_meta = true;
	u32 stdio_buf = 4096;
	bool readdir_keeps_removed = false;
};
FsCfg &fs_cfg();
void fs_choose_cfg();
bool sys_error_seen(int e);       // a system call of the library failed with this errno
void sys_errors_clear();
int sys_fail(int e);             // sets errno, notes the error, returns -1
size_t open_fds(Proc *p = nullptr);
size_t open_lib_fds(Proc *p = nullptr);
std::vector<int> lib_fds(Proc *p = nullptr);
std::string open_fds_desc(Proc *p = nullptr);
bool fd_readable(int fd);
bool fd_writable(int fd);
bool fd_is_cloexec(int fd);
int fd_other_flags(int fd, int set = -1); // descriptor flags besides close-on-exec (2: close-on-fork)
int fd_flags(int fd);
void pipe_set_caps(const std::vector<u32> &caps);  // capacities given to new pipes
// notification queue
void inotify_push(int fd, u32 mask, u32 cookie, const std::string &name, int wd = 0);
u32 inotify_mask(int fd, const std::string &path);
size_t inotify_pending(int fd);
void inotify_on_push(std::function<void(int wd, u32 mask, u32 cookie, const std::string &)> f);
// entropy source: byte i is a function of the run's entropy seed
u64 entropy_pos();                 // bytes delivered so far
u64 entropy_deliveries();
struct EntropyCfg {
	u64 seed = 1;
	int mode = 0;              // which system behaviours (set by the scenario)
	std::set<u64> flips;       // positions whose byte is altered
	u64 alter_from = ~0ull;    // every byte from here on is altered
	u64 alter_to = ~0ull;      // (before this one)
	u64 alter_salt = 0;        // which alteration
	bool nosys = false;        // getrandom not implemented
	u32 chunk = 0;             // at most this many bytes per call (0: no limit)
	u32 fail_ppm = 0;          // failures per call
	int fail_kind = 0;
	bool dev_missing = false;
	bool dead = false;         // no source ever works
	i64 ready_at = 0;          // the kernel's pool is initialised from this moment on
};
u64 entropy_mine();                // bytes delivered to the calling thread
u64 entropy_weak();                // bytes delivered before the pool was initialised
EntropyCfg &entropy_cfg();
u8 entropy_byte(u64 pos);
int iconv_live();

// fork(): what the library's globals and thread-local storage look like now
std::vector<u8> fork_image();
void fork_load(const std::vector<u8> &img);  // the calling thread becomes the forked child's

// ---------------------------------------------------------------- run config
struct Cfg {
	bool preempt = false;      // preempt inside library code
	int preempt_left = 1 << 30;
	bool fine = false;         // short turns only
	u32 vis_ppm = 0;           // preempt at visible operations
	bool hold = false;         // who is interrupted inside the library stays behind for long
	u32 stall_ppm = 0;         // other system load: time passes
	u64 step_cap = 300000000;
	u32 vis_cap = 1000000;
	u32 storm = 0;             // a signal can be the first of up to this many more
	int first_fd = 3;           // lowest free descriptor at the start
	bool clobber_errno = false; // successful calls leave a value in errno
};
struct World {
	// clocks
	i64 mono = 0;              // ns
	i64 rt_off = 0;            // realtime = mono + rt_off
	i64 tick = 4000000;        // what coarse clocks are rounded down to
	// system properties (libputils)
	std::map<std::string, std::string> props;
	std::vector<std::pair<u64, std::pair<std::string, std::string>>> prop_hist; // (event, (name, value))
	std::map<int, std::vector<i64>> mono_reads; // what each reader of the monotonic clock was told
	std::vector<std::pair<i64, i64>> rt_hist; // (mono time of change, new offset)
	i64 boot = 0;              // monotonic time at the start of the run
	// the machine's time zone: one change of its UTC offset
	i64 zone_change = 0;       // epoch second
	int zone_before = 0, zone_after = 0;
	int zone_off(i64 sec) const { return sec < zone_change ? zone_before : zone_after; }
	Cfg cfg;
	FaultCfg F;
	// crash plan: crash current lib process at the n-th visible op from now
	i64 crash_in = -1;
	Proc *crash_proc = nullptr;
	// variant of a differential run
	int build = 0;             // which build of the library the scenario calls (0: the Linux one)
	int variant = 0;
	u64 variant_arg = 0;
	// outputs compared by differential scenarios
	std::vector<std::vector<u8>> outputs;
	std::vector<u64> marks;
	u64 i_stall_total = 0;     // ns of injected stalls
	bool quiet_deadlock = false;
	std::function<void()> monitor; // invariant looked at before every visible operation
};
extern World *W;
void set_rt_offset(i64 off);       // step the wall clock
void set_prop(const char *key, const char *value);
i64 rt_now();
void choose_env();
void choose_uptime();           // first thing of a scenario                 // what the surroundings of the library are like
void choose_sched(int nthreads);   // the same and swarm style choice of preemption settings

// ---------------------------------------------------------------- scenarios
struct RunResult {
	bool violated = false, internal = false;
	std::string kind, msg;
	u64 loghash = 0, schedhash = 0, steps = 0, visops = 0, switches = 0, preemptions = 0;
	i64 simtime = 0;
	u32 faults[F_NKINDS] = {0};
	u32 nfaults = 0;
	std::vector<u32> choices;
	std::vector<std::string> log;
	std::vector<std::vector<u8>> outputs;
	std::vector<u64> marks;
	std::string desc;
};
typedef std::function<RunResult(int variant, u64 arg)> Rerun;
struct Scenario {
	const char *prop;
	const char *name;
	u32 weight;
	void (*fn)();
	// optional differential oracle over the finished run
	bool (*post)(const RunResult &base, const Rerun &rerun, std::string &kind, std::string &msg);
	u32 post_every;            // evaluate post on every n-th run
};
void add_scenario(const Scenario &s);
struct Reg { Reg(const Scenario &s) { add_scenario(s); } };
#define SCENARIO(prop, ident, weight) \
	static void scn_##ident(); \
	static ::sim::Reg reg_##ident(::sim::Scenario{prop, #ident, weight, scn_##ident, nullptr, 1}); \
	static void scn_##ident()
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // one-line summary of the case
} // namespace sim
