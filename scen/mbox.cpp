// C09, C10: fixed-size mailbox
#include "common.h"
#include "futils/mbox.h"
#include <algorithm>

namespace {
struct Msg {
	u64 einv = 0, eret = 0;   // its push (event numbers)
	int st = 0;               // 0 in progress, 1 accepted, 2 refused
	u64 dinv = 0, dret = 0;   // its read
	bool got = false;
};
struct Fail2 { u64 inv, ret; };
struct M {
	mbox *box = nullptr;
	size_t sz = 0;
	int fd = -1;
	std::vector<Msg> m;
	std::vector<Fail2> empties, fulls;
	size_t accepted = 0, received = 0;
	int inop = 0, producers = 0;
	size_t unread() const { return accepted - received; }
};
// a message carries its number in as many bytes as fit, the rest is derived
void enc(u8 *p, size_t n, u64 id)
{
	for (size_t i = 0; i < n; i++) p[i] = i == 0 ? (u8)id : i == 1 ? (u8)(id >> 8) : (u8)mix2(id * 131, i);
}
void quiet(M &m)
{
	if (!m.inop && m.unread() && !fd_readable(m.fd)) FAIL("pending-not-readable", "%zu messages are pending but the read descriptor is not readable", m.unread());
}
int push(M &m, bool block, unsigned to)
{
	u64 id = m.m.size();
	m.m.push_back(Msg());
	m.m[id].einv = now_seq();
	u8 *b = (u8 *)xalloc(m.sz);
	enc(b, m.sz, id);
	m.inop++;
	u64 nb = self_blocks();
	int r = lib([&] { return block ? mbox_push_block(m.box, b, to) : mbox_push(m.box, b); });
	bool slept = self_blocks() != nb;
	m.inop--;
	xfree(b);
	ev("push_ret", (i64)id, block, r);
	Msg &x = m.m[id];
	x.eret = now_seq();
	if (!block && slept) FAIL("push-blocked", "a non-blocking push slept");
	if (r == 0) { x.st = 1; if (!x.got) m.accepted++; }
	else {
		x.st = 2;
		if (x.got) FAIL("failed-push-delivered", "push of message %llu returned %d but the message was delivered", (unsigned long long)id, r);
		if (!block && r != -EAGAIN) FAIL("wrong-error", "push returned %d", r);
		if (!block) m.fulls.push_back({x.einv, x.eret});
	}
	quiet(m);
	return r;
}
int peek(M &m, u8 *b)
{
	u64 inv = now_seq();
	m.inop++;
	u64 nb = self_blocks();
	int r = lib([&] { return mbox_peek(m.box, b); });
	bool slept = self_blocks() != nb;
	m.inop--;
	u64 ret = now_seq();
	ev("peek_ret", r);
	if (slept) FAIL("read-blocked", "a read slept");
	if (r < 0) {
		if (r != -EAGAIN) FAIL("wrong-error", "reading returned %d", r);
		m.empties.push_back({inv, ret});
	} else {
		if (r != 0) FAIL("wrong-return", "reading returned %d", r);
		u64 id = b[0];
		if (m.sz > 1) id |= (u64)b[1] << 8;
		u8 *w = (u8 *)malloc(m.sz);
		bool ok = id < m.m.size();
		if (ok) { enc(w, m.sz, id); ok = memcmp(w, b, m.sz) == 0; }
		free(w);
		if (!ok) FAIL("message-corrupted", "received %zu bytes that are no pushed message (torn or mixed)", m.sz);
		Msg &x = m.m[id];
		if (x.got) FAIL("delivered-twice", "message %llu was delivered twice", (unsigned long long)id);
		if (x.st == 2) FAIL("failed-push-delivered", "message %llu was delivered but its push had failed", (unsigned long long)id);
		x.got = true;
		x.dinv = inv;
		x.dret = ret;
		if (x.st == 0) m.accepted++;
		m.received++;
	}
	quiet(m);
	return r;
}
void open_box(M &m, bool fill = false)
{
	pipe_set_caps({65536, 4096, 8192, 16384});
	switch (choose(5)) {
	case 0: m.sz = 1 + choose(16); break;
	case 1: m.sz = 4095 - choose(8); break;
	case 2: m.sz = 1 + choose(4095); break;
	case 3: m.sz = 1 + log_uniform(4094); break;
	default: m.sz = 1360 + choose(12); break;
	}
	// larger than what the kernel writes in one piece: refused or kept whole
	bool large = !fill && choose(24) == 23;
	if (large) m.sz = choose(2) ? 4096 + choose(9) : 4096 + choose(9000);
	if (fill && m.sz < 2) m.sz = 2;
	if (fill && m.sz < 64) pipe_set_caps({4096});
	m.box = lib([&] { return mbox_new(m.sz); });
	if (large && !m.box) {
		probe("a message size above the atomic limit was refused");
		do m.sz = choose(5000); while (m.sz == 0 || m.sz >= 4096);
		m.box = lib([&] { return mbox_new(m.sz); });
	}
	if (!m.box) FAIL("create-failed", "a mailbox of %zu byte messages could not be created without any fault", m.sz);
	m.fd = lib([&] { return mbox_get_read_fd(m.box); });
	if (m.fd < 0) FAIL("read-fd", "no read descriptor");
}
void drain_and_check(M &m)
{
	W->F.mask = 0;
	u8 *b = (u8 *)xalloc(m.sz);
	while (peek(m, b) == 0) {}
	xfree(b);
	for (size_t i = 0; i < m.m.size(); i++)
		if (m.m[i].st == 1 && !m.m[i].got) FAIL("message-lost", "accepted message %zu was never delivered", i);
	// one FIFO order must explain the history
	std::vector<size_t> byret, byinv;
	for (size_t i = 0; i < m.m.size(); i++) if (m.m[i].got) { byinv.push_back(i); if (m.m[i].eret) byret.push_back(i); }
	std::sort(byret.begin(), byret.end(), [&](size_t x, size_t y) { return m.m[x].eret < m.m[y].eret; });
	std::sort(byinv.begin(), byinv.end(), [&](size_t x, size_t y) { return m.m[x].einv < m.m[y].einv; });
	size_t k = 0, worst = 0;
	u64 latest = 0; // latest start of a read among messages queued before
	for (size_t j : byinv) {
		while (k < byret.size() && m.m[byret[k]].eret < m.m[j].einv) {
			if (m.m[byret[k]].dinv > latest) { latest = m.m[byret[k]].dinv; worst = byret[k]; }
			k++;
		}
		if (m.m[j].dret < latest) FAIL("order-violated", "message %zu was queued before message %zu was pushed, but was delivered after it", worst, j);
	}
	// would-block only when it was empty at some moment of the call
	for (auto &e : m.empties) {
		// moments covered by messages that were surely inside
		std::vector<std::pair<u64, u64>> c;
		for (auto &x : m.m) if (x.st == 1 && x.eret < e.ret && x.dinv > e.inv) c.push_back({x.eret, x.dinv});
		u64 at = e.inv;
		bool grew = true;
		while (grew && at < e.ret) {
			grew = false;
			for (auto &p : c) if (p.first <= at && p.second > at) { at = p.second; grew = true; }
		}
		if (at >= e.ret) FAIL("empty-but-pending", "reading reported would-block although a message was pending during the whole call");
	}
	for (auto &f : m.fulls) {
		bool any = false;
		for (auto &x : m.m) if (x.st == 1 && x.einv < f.ret && x.dret > f.inv) any = true;
		if (!any) FAIL("empty-refused", "a push reported would-block although the mailbox was empty during the whole call");
	}
	lib([&] { mbox_destroy(m.box); });
	check_no_leak("after the mailbox was destroyed");
}
} // namespace

SCENARIO("C09", mbox_mpmc, 10)
{
	M m;
	open_box(m);
	int np = 1 + (int)choose(3), nc = 1 + (int)choose(3);
	int n = 1 + (int)choose(m.sz == 1 ? 60 : 40);
	choose_sched(np + nc);
	choose_faults(FM(F_EINTR), 20);
	describe("%d producers, %d consumers, %zu byte messages, %d pushes each", np, nc, m.sz, n);
	m.producers = np;
	int style = (int)choose(3);
	std::vector<int> t;
	for (int i = 0; i < np; i++) t.push_back(spawn("producer", [&] {
		for (int k = 0; k < n; k++) {
			push(m, style == 1 && choose(3) == 0, 1 + choose(50));
			if (style == 2 && choose(3) == 0) sleep_ns((i64)choose(500) * US);
		}
		m.producers--;
	}));
	for (int i = 0; i < nc; i++) t.push_back(spawn("consumer", [&] {
		u8 *b = (u8 *)xalloc(m.sz);
		int spins = 0;
		for (;;) {
			int r = peek(m, b);
			if (r < 0) {
				if (!m.producers || ++spins > 20) break;
				M *pm = &m;
				block([pm] { return fd_readable(pm->fd) || !pm->producers; }, CK_MONO, W->mono + (i64)choose(3) * MS, false);
			}
			if (choose(8) == 0) sleep_ns((i64)choose(20) * MS);
		}
		xfree(b);
	}));
	for (int x : t) join(x);
	drain_and_check(m);
}
SCENARIO("C09", mbox_sequential, 3)
{
	choose_env();
	M m;
	open_box(m);
	int n = 10 + (int)choose(100), bias = 20 + (int)choose(75);
	choose_faults(FM(F_EINTR), 30);
	describe("sequential history, %zu byte messages, %d operations", m.sz, n);
	u8 *b = (u8 *)xalloc(m.sz);
	size_t next = 0;
	if (choose(8) == 7) {
		int r = lib([&] { return mbox_push(m.box, nullptr); });
		if (r >= 0) FAIL("invalid-accepted", "a null message was accepted");
	}
	for (int i = 0; i < n && m.m.size() < 250; i++) {
		size_t un = m.unread();
		if ((int)choose(100) < bias) {
			int r = push(m, false, 0);
			if (r && !un) FAIL("empty-refused", "the mailbox was empty but refused a message");
		} else {
			int r = peek(m, b);
			if (r && un) FAIL("empty-but-pending", "reading reported would-block although %zu messages were pending", un);
			if (!r) {
				while (m.m[next].st == 2) next++;
				if (!m.m[next].got) FAIL("order-violated", "message %zu was not delivered in its turn", next);
				next++;
			}
		}
	}
	xfree(b);
	drain_and_check(m);
}

SCENARIO("C10", mbox_push_block, 10)
{
	choose_uptime();
	M m;
	choose_sched(2);
	open_box(m, true);
	while (m.m.size() < 60000 && push(m, false, 0) == 0) {}
	m.fulls.clear();
	choose_faults(FM(F_EINTR), 6);
	static const unsigned lt[] = {1, 2, 3, 10, 100, 999, 1000, 1001, 60000, 2147483, 86400000, 2147483646, 2147483647u};
	static const unsigned huge[] = {2147483648u, 2147483649u, 3000000000u, 4294967295u};
	unsigned to;
	switch (pickw({8, 8, 8, 8, 1})) {
	case 4: to = huge[choose(4)]; break; // more than poll can take: refused or honoured
	case 0: to = 0; break;
	case 1: to = 1 + choose(3000); break;
	case 2: to = lt[choose(sizeof lt / sizeof *lt)]; break;
	default: to = 1 + (unsigned)log_uniform(2147483646u); break;
	}
	i64 dl = (i64)to * MS;
	int mode = (int)choose(3);  // 0 nobody reads, 1 one message is read, 2 all are read
	if (to == 0) mode = 2;
	i64 at = to == 0 ? (i64)(choose64() % (u64)(100 * SEC)) : choose(8) == 0 ? dl : (i64)(choose64() % (u64)(dl + dl / 4 + MS));
	if (choose(2)) wall_clock_stepper(1 + (int)choose(5), to == 0 ? 50 * SEC : dl + MS);
	describe("blocking push of %zu bytes, timeout %u ms, %zu queued, %s", m.sz, to, m.accepted, mode == 0 ? "nobody reads" : mode == 1 ? "one message is read" : "all are read");
	i64 freed = -1;
	int cons = -1;
	if (mode) cons = spawn("consumer", [&] {
		u8 *b = (u8 *)xalloc(m.sz);
		sleep_ns(at);
		if (mode == 1) peek(m, b);
		else while (m.unread()) peek(m, b);
		freed = W->mono;
		ev("space_freed", freed);
		xfree(b);
	});
	i64 t0 = 0, t1 = 0;
	u64 s0 = 0, s1 = 0;
	int r = 0;
	bool bad_clock = to && choose(16) == 15;  // the clock cannot be read
	int prod = spawn("producer", [&] {
		t0 = W->mono; s0 = W->i_stall_total + 2000 * fault_count(F_EINTR);
		u32 c0 = fault_here(F_CLOCK);
		FaultCfg keep = W->F;
		if (bad_clock) { W->F.mask |= FM(F_CLOCK); if (choose(2)) { W->F = FaultCfg(); W->F.mask = FM(F_CLOCK); W->F.at = 0; } }
		r = push(m, true, to);
		t1 = W->mono; s1 = W->i_stall_total + 2000 * fault_count(F_EINTR); // calls take time
		bad_clock = fault_here(F_CLOCK) != c0;
		W->F = keep;
	});
	join(prod);
	if (cons >= 0) join(cons);
	i64 el = t1 - t0, slack = 5 * MS + (i64)(s1 - s0);
	bool room = mode == 2;     // a whole atomic write fits for sure
	if (r == -EAGAIN) FAIL("would-block", "a blocking push reported would-block");
	if (r == -EINTR) FAIL("interrupted", "a blocking push was ended by a signal");
	if (bad_clock && r < 0 && r != -ETIMEDOUT) {
		// it cannot know its deadline: an error, or the push takes place
		if (r < -4095) FAIL("wrong-error", "blocking push returned %d", r);
	} else if (r == -ETIMEDOUT) {
		if (to == 0) FAIL("timeout-of-infinite-push", "a blocking push without timeout timed out");
		if (el < dl) FAIL("timeout-early", "push with timeout %u ms timed out after %.3f ms", to, (double)el / 1e6);
		if (room && freed >= 0 && freed < t0 + dl - slack && freed < t1 - slack) FAIL("timeout-despite-space", "space was freed %.3f ms into the push but it timed out after %.3f ms", (double)(freed - t0) / 1e6, (double)el / 1e6);
	} else if (r == 0) {
		if (room && freed >= 0 && t1 > freed + slack) FAIL("woken-late", "space was freed %.3f ms into the push, it returned after %.3f ms", (double)(freed - t0) / 1e6, (double)el / 1e6);
	} else if (r == -EINVAL && to > 2147483647u) probe("a timeout beyond INT_MAX was refused");
	else FAIL("wrong-error", "blocking push returned %d", r);
	if (to && !bad_clock && el > dl + slack) FAIL("timeout-late", "push with timeout %u ms returned %d after %.3f ms", to, r, (double)el / 1e6);
	drain_and_check(m);
}
SCENARIO("C10", mbox_contention, 8)
{
	choose_uptime();
	M m;
	open_box(m, true);
	int np = 2 + (int)choose(3);
	choose_sched(np + 1);
	choose_faults(FM(F_EINTR), 20);
	int n = 1 + (int)choose(12);
	bool prefill = choose(2);
	if (prefill) { FaultCfg k = W->F; W->F = FaultCfg(); while (m.m.size() < 60000 && push(m, false, 0) == 0) {} m.fulls.clear(); W->F = k; }
	if (choose(2)) wall_clock_stepper(1 + (int)choose(4), 2 * SEC);
	describe("%d producers block for room, %zu byte messages, %d pushes each", np, m.sz, n);
	m.producers = np;
	std::vector<int> t;
	bool timed = false;
	for (int i = 0; i < np; i++) t.push_back(spawn("producer", [&] {
		for (int k = 0; k < n; k++) {
			unsigned to = choose(3) == 0 ? 0 : 1 + choose(300);
			bool blk = choose(5) != 0;
			i64 a = W->mono;
			u64 st = W->i_stall_total;
			int r = push(m, blk, to);
			if (!blk) continue;
			i64 el = W->mono - a;
			if (r == -EAGAIN) FAIL("would-block", "a blocking push reported would-block");
			if (r && to == 0) FAIL("infinite-push-ended", "a blocking push without timeout returned %d", r);
			if (r && r != -ETIMEDOUT) FAIL("wrong-error", "blocking push returned %d", r);
			if (r == -ETIMEDOUT && el < (i64)to * MS) FAIL("timeout-early", "push with timeout %u ms timed out after %.3f ms", to, (double)el / 1e6);
			if (r == -ETIMEDOUT) timed = true;
			if (to && el > (i64)to * MS + 5 * MS + (i64)(W->i_stall_total - st)) FAIL("timeout-late", "push with timeout %u ms returned %d after %.3f ms", to, r, (double)el / 1e6);
			if (choose(4) == 0) sleep_ns((i64)choose(40) * MS);
		}
		m.producers--;
	}));
	t.push_back(spawn("consumer", [&] {
		u8 *b = (u8 *)xalloc(m.sz);
		while (m.producers || m.unread()) {
			M *pm = &m;
			block([pm] { return fd_readable(pm->fd) || !pm->producers; }, CK_NONE, 0, false);
			int burst = 1 + (int)choose(8);
			while (burst-- && peek(m, b) == 0) {}
			if (choose(3) == 0) sleep_ns((i64)choose(150) * MS);
		}
		xfree(b);
	}));
	for (int x : t) join(x);
	if (timed) probe("a contended push timed out");
	drain_and_check(m);
}
