#pragma once
#include "sim.h"
#include <unordered_map>
#include <errno.h>

namespace sim {

enum TState { T_READY, T_BLOCKED, T_DONE, T_DEAD };

extern bool g_stream;
struct OFile; // open file description (io.cpp)

struct FdEnt { OFile *f = nullptr; bool cloexec = false; int fdfl = 0; bool lib = false; u64 born = 0; };

struct Proc {
	int id = 0;
	bool dead = false;
	std::vector<FdEnt> fds;
	std::set<int> closed_once;      // fd numbers closed and not reopened
	int first_fd = 3;
	int pid = 1000;
};

struct Thread {
	int id = 0;
	std::string name;
	TState st = T_READY;
	Proc *proc = nullptr;
	bool daemon = false;
	bool in_lib = false;
	std::function<void()> fn;
	void *sp = nullptr;
	void *stack = nullptr;
	std::function<bool()> pred;
	Clk dlck = CK_NONE;
	i64 dl = 0;
	i64 intr_at = -1;
	Wake wr = W_READY;
	int err = 0;
	bool killed = false;
	std::vector<u8> tls;
	std::map<u32, void *> spec;
	u64 pick_seq = 0;
	u64 nblocks = 0;
	u32 faults[F_NKINDS] = {};
	u32 held = 0;              // scheduling decisions to stay behind
	u32 storm = 0;             // signals still to come in a storm
};

struct Blk { uintptr_t a; size_t n; bool freed; bool lib; int proc; u64 seq; };

struct Mtx { bool init = false, destroyed = false; int owner = -1; int count = 0; int type = 0; int waiters = 0; };
struct Cnd { bool init = false, destroyed = false; int clk = 0; std::deque<int> waiters; };

bool storm(FaultKind k);    // the next signal of a storm interrupts this call
struct WorldI : World {
	RunResult R;
	// choices
	bool replay = false;
	std::vector<u32> in;
	size_t pos = 0;
	u64 rng = 0;
	// threads
	std::vector<Thread *> th;
	Thread *cur = nullptr;
	bool over = false;
	std::vector<Proc *> procs;
	Proc *mainp = nullptr;
	// heap
	std::vector<Blk> blks;
	std::unordered_map<uintptr_t, u32> blkidx;
	uintptr_t brk = 0;
	// sync
	std::map<uintptr_t, Mtx> mtx;
	std::map<uintptr_t, int> sem;
	std::map<uintptr_t, Cnd> cnd;
	std::map<uintptr_t, int> condattr;
	std::map<uintptr_t, int> mtxattr;
	std::map<uintptr_t, std::map<int, bool>> cwait;
	std::map<uintptr_t, int> once;
	u32 next_key = 1;
	std::map<u32, void (*)(void *)> keys;
	u64 seq = 0;
	bool verbose = false;
	u64 wantyield = 0;
	void *sched_sp = nullptr;
	u64 rand_state = 1;
	int iconv_open_n = 0;
};
extern WorldI *G;

extern "C" int g_budget;
extern int g_quantum;
void yield_to_sched();
void preempt_slow();
void io_reset();
void io_kill_proc(Proc *p);
void heap_reset();
[[noreturn]] void thread_exit_dead();
void fork_snapshot(std::vector<u8> &img);  // library globals + current TLS
void fork_restore(const std::vector<u8> &img);
void lib_image(std::vector<std::pair<u8 *, size_t>> &ranges);
RunResult run_one(const Scenario &s, u64 seed, const std::vector<u32> *replay, bool verbose, int variant, u64 arg);
std::vector<Scenario> &scenarios();
void install_handlers();
extern volatile u64 g_run_serial;
} // namespace sim
