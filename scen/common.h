#pragma once
#include "sim.h"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
using namespace sim;

extern "C" {
struct pollfd;
int sim_open(const char *p, int fl, ...);
int sim_close(int fd);
ssize_t sim_read(int fd, void *b, size_t n);
ssize_t sim_write(int fd, const void *b, size_t n);
int sim_fcntl(int fd, int cmd, ...);
int sim_pipe2(int p[2], int fl);
int sim_rename(const char *a, const char *b);
int sim_unlink(const char *a);
int sim_mkdir(const char *a, mode_t m);
}

#define FAIL(kind, ...) ::sim::fail(kind, __VA_ARGS__)
static const i64 MS = 1000000, US = 1000, SEC = 1000000000;

// harness buffer in the checked arena
struct Buf {
	u8 *p;
	size_t n;
	explicit Buf(size_t n_) : p((u8 *)xalloc(n_ ? n_ : 1)), n(n_) {}
	Buf(const Buf &) = delete;
	~Buf() {}
	std::string str(size_t k) const { return std::string((char *)p, k); }
};
// a length near the widths that counters of bytes and characters have
static inline size_t limit_len()
{
	static const u32 w[] = {127, 255, 1024, 4095, 32767, 65535, 65536, 131072};
	return w[choose(8)] + choose(5) - 2;
}
// deterministic message contents: recognisable and unique per id
static inline void fill_msg(u8 *p, size_t n, u64 id)
{
	for (size_t i = 0; i < n; i++) p[i] = (u8)(mix2(id + 1, i >> 3) >> ((i & 7) * 8));
}
static inline std::string msg_of(size_t n, u64 id)
{
	std::string s(n, '\0');
	fill_msg((u8 *)&s[0], n, id);
	return s;
}
static inline u32 G_faults() { u32 n = 0; for (int k = 0; k < F_NKINDS; k++) n += fault_count((FaultKind)k); return n; }
// after a scenario: nothing the library obtained may remain
static inline void check_no_leak(const char *what, Proc *p = nullptr)
{
	if (open_lib_fds(p)) FAIL("leak-descriptor", "%s: descriptors left open:%s", what, open_fds_desc(p).c_str());
	if (lib_live_blocks(p)) FAIL("leak-memory", "%s: memory not released:%s", what, lib_live_desc(p).c_str());
}
// somebody else's load: the wall clock is stepped at arbitrary moments
static inline void wall_clock_stepper(int n, i64 horizon)
{
	spawn("clock-stepper", [n, horizon] {
		for (int i = 0; i < n; i++) {
			sleep_ns((i64)(choose64() % (u64)horizon));
			static const i64 d[] = {3600 * SEC, -3600 * SEC, 1 * SEC, -1 * SEC, 50 * MS, -50 * MS, 86400ll * 365 * SEC, -86400ll * 365 * 20 * SEC};
			set_rt_offset(W->rt_off + d[choose(8)]);
			count_fault(F_CLOCKJUMP);
		}
	}, nullptr, true);
}
