// C06, C07, C08: variable-size mailbox
#include "common.h"
#include "futils/dynmbox.h"

namespace {
struct P { size_t size; u64 id; int st; bool got; }; // st: 0 in progress, 1 accepted, 2 refused
struct M {
	dynmbox *box = nullptr;
	size_t max = 0;
	std::vector<P> pushes;
	size_t next = 0;            // next push the consumer may receive
	size_t accepted = 0, received = 0;
	int inop = 0;
	bool prod_done = false;
	bool check_fd = false;
	int fd = -1;
	u64 opserial = 0, idbase = 0;
	size_t unread() const { return accepted - received; }
};

// runs when a mailbox operation ended: with none in progress the descriptor
// must tell the truth
void quiescent(M &m, const char *after)
{
	m.opserial++;
	if (!m.check_fd || m.inop) return;
	bool r = fd_readable(m.fd);
	if (m.unread() && !r) FAIL("pending-not-readable", "%zu messages are unread but the read descriptor is not readable (after %s)", m.unread(), after);
	if (!m.unread() && r) FAIL("empty-readable", "no message is unread but the read descriptor is readable (after %s)", after);
}

int push(M &m, size_t size, bool blocking, unsigned timeout, bool null_msg = false)
{
	bool invalid = size > m.max || (null_msg && size);
	u8 *buf = nullptr;
	u64 id = m.idbase + m.pushes.size();
	u64 sb0 = self_blocks();
	u32 c0 = fault_here(F_CLOCK);
	if (!null_msg) {
		buf = (u8 *)xalloc(size > 70000 ? 70000 : size);
		fill_msg(buf, size > 70000 ? 70000 : size, id);
	}
	size_t idx = m.pushes.size();
	m.pushes.push_back(P{size, id, 0, false});
	bool was_empty = m.unread() == 0;
	m.inop++;
	note("push %s size %zu timeout %u", blocking ? "block" : "", size, timeout);
	int r = lib([&] { return blocking ? dynmbox_push_block(m.box, buf, size, timeout) : dynmbox_push(m.box, buf, size); });
	m.inop--;
	ev("push_ret", (i64)size, (i64)id, r);
	P &p = m.pushes[idx];
	if (buf) xfree(buf);
	if (r == 0) {
		if (invalid) FAIL("invalid-accepted", "a message of %zu bytes (declared maximum %zu%s) was accepted", size, m.max, null_msg ? ", null" : "");
		p.st = 1;
		if (blocking && self_blocks() > sb0) probe("blocking push waited, then succeeded");
		if (p.got) ; // counted when received
		else m.accepted++;
	} else {
		if (p.got) FAIL("failed-push-delivered", "push of message %zu returned %d but the message was delivered", idx, r);
		p.st = 2;
		if (invalid) {
			if (r != -EINVAL) FAIL("wrong-error", "an invalid push (size %zu, maximum %zu) returned %d instead of -EINVAL", size, m.max, r);
		} else if (!blocking) {
			if (r != -EAGAIN) FAIL("wrong-error", "a valid push returned %d", r);
			probe("push refused because the ring is full");
			if (was_empty) FAIL("empty-refused", "the mailbox was empty but refused a message of %zu bytes (maximum %zu)", size, m.max);
		} else if (r != -ETIMEDOUT && fault_here(F_CLOCK) == c0) FAIL("wrong-error", "a valid blocking push returned %d", r);
		else if (timeout == 0) FAIL("timeout-of-infinite-push", "a blocking push without timeout timed out");
	}
	quiescent(m, "push");
	return r;
}
// returns message size or negative
ssize_t peek(M &m, Buf &b)
{
	bool nonempty = m.unread() > 0;
	u64 prog = 0;
	(void)prog;
	m.inop++;
	ssize_t r = lib([&] { return dynmbox_peek(m.box, b.p); });
	m.inop--;
	ev("peek_ret", r);
	if (r < 0) {
		if (r != -EAGAIN) FAIL("wrong-error", "reading returned %zd", r);
		probe("reading an empty mailbox");
		if (nonempty) FAIL("message-missed", "reading reported would-block although %zu accepted messages were unread", m.unread());
	} else {
		if ((size_t)r > m.max) FAIL("message-corrupted", "received %zd bytes, maximum is %zu", r, m.max);
		while (m.next < m.pushes.size() && m.pushes[m.next].st == 2) m.next++;
		if (m.next >= m.pushes.size()) FAIL("phantom-message", "received a message of %zd bytes that was never pushed (or twice)", r);
		P &p = m.pushes[m.next++];
		std::string want = msg_of(p.size, p.id);
		if ((size_t)r != p.size || b.str((size_t)r) != want)
			FAIL("message-corrupted", "message %zu (%zu bytes) was received as %zd bytes with %s contents", m.next - 1, p.size, r, (size_t)r == p.size ? "wrong" : "other");
		p.got = true;
		if (p.st == 0) probe("message received before its push returned");
		if (p.st == 0) m.accepted++; // its push has not returned yet
		m.received++;
	}
	quiescent(m, "read");
	return r;
}

size_t pick_max()
{
	switch (pickw({3, 3, 2, 2, 1, 1})) {
	case 0: return 1 + choose(16);
	case 1: return 1 + choose(4000);
	case 2: return DYNMBOX_MAX_SIZE;
	case 3: return DYNMBOX_MAX_SIZE - choose(16);
	case 4: return choose(DYNMBOX_MAX_SIZE + 1);
	default: return 0;
	}
}
size_t pick_size(const M &m, int style)
{
	switch (style) {
	case 0: return choose((u32)m.max + 1);
	case 1: return m.max;
	case 2: return log_uniform((u32)m.max);
	case 3: return choose(3) == 0 ? 0 : m.max - log_uniform((u32)m.max);
	case 4: return choose((u32)(m.max < 3 ? m.max : 3) + 1);
	default: {
		// sizes around fractions of the capacity, so the ring fills exactly
		size_t k = 1 + choose(6), s = 65536 / k;
		s = s > 4 ? s - 4 : 0;
		i64 d = (i64)choose(9) - 4;
		if ((i64)s + d < 0) d = 0;
		s = (size_t)((i64)s + d);
		return s > m.max ? m.max : s;
	}
	}
}
void open_box(M &m, size_t max)
{
	m.max = max;
	if (!m.idbase) pipe_set_caps({65536, 4096, 8192, 1048576});
	m.box = lib([&] { return dynmbox_new(max); });
	if (!m.box) FAIL("create-failed", "a mailbox with maximum %zu could not be created without any fault", max);
	ssize_t g = lib([&] { return dynmbox_get_max_size(m.box); });
	if (g != (ssize_t)max) FAIL("max-size", "declared maximum %zu, mailbox says %zd", max, g);
	m.fd = lib([&] { return dynmbox_get_read_fd(m.box); });
	if (m.fd < 0) FAIL("read-fd", "no read descriptor");
}
void drain(M &m)
{
	// nobody else is running any more: what is left must come out intact
	W->F.mask = 0;
	Buf b(m.max);
	for (;;) {
		size_t left = m.unread();
		ssize_t r = peek(m, b);
		if (r < 0) { if (left) FAIL("message-lost", "%zu accepted messages were never delivered", left); break; }
	}
	for (size_t i = 0; i < m.pushes.size(); i++)
		if (m.pushes[i].st == 1 && !m.pushes[i].got) FAIL("message-lost", "accepted message %zu was never delivered", i);
	lib([&] { dynmbox_destroy(m.box); });
}
void finish(M &m)
{
	drain(m);
	check_no_leak("after the mailbox was destroyed");
}
// a second mailbox with its own threads, used at the same time
void open_two(M &m, M &b)
{
	size_t max = pick_max();
	b.idbase = 1000000;
	b.check_fd = m.check_fd;
	pipe_set_caps({65536, 4096, 8192, 1048576});
	int t = spawn("other", [&b, max] { open_box(b, choose(2) ? max : pick_max()); });
	open_box(m, max);
	join(t);
	probe("two mailboxes in use at the same time");
}

// consumer: 0 reads whenever it likes, 1 waits for the descriptor before each
// read, 2 waits for the descriptor and then reads until nothing is left
std::vector<int> start_traffic(M &m, int n, int consumer, bool blocking_ok, int style)
{
	bool yields = choose(2);
	bool event_loop = consumer != 0;
	int prod = spawn("producer", [&m, n, blocking_ok, style, yields] {
		for (int i = 0; i < n; i++) {
			u32 k = choose(24);
			if (k == 23) { push(m, m.max + 1 + log_uniform(0xffffff), false, 0); continue; }
			if (k == 22) { push(m, pick_size(m, style), false, 0, true); continue; }
			if (k == 21 && blocking_ok) { push(m, m.max + 1 + choose(5), true, 5); continue; }
			size_t s = pick_size(m, style);
			if (blocking_ok && k >= 12) push(m, s, true, choose(2) ? 0 : 1 + choose(2000));
			else push(m, s, false, 0);
			if (yields) { if (choose(4) == 0) sleep_ns((i64)choose(2000) * US); else yield_point(); }
		}
		m.prod_done = true;
	});
	int cons = spawn("consumer", [&m, event_loop, consumer] {
		Buf b(m.max);
		int idle = 0;
		u64 idle_serial = 0;
		for (;;) {
			if (m.prod_done && !m.unread()) break;
			if (event_loop) {
				M *pm = &m;
				block([pm] { return fd_readable(pm->fd) || (pm->prod_done && !pm->unread()); }, CK_NONE, 0, false);
				if (!fd_readable(m.fd)) continue;
				u64 ser = m.opserial;
				int inop = m.inop;
				ssize_t r = peek(m, b);
				if (r < 0 && !inop && m.opserial == ser + 1) {
					if (idle_serial == ser) idle++; else idle = 1;
					idle_serial = m.opserial;
					if (idle > 3) FAIL("spins-on-empty", "the read descriptor stays readable although reading finds no message");
				} else idle = 0;
				if (consumer == 2) while (r >= 0) {
					r = peek(m, b);
					if (choose(4) == 0) yield_point();
				}
			} else {
				ssize_t r = peek(m, b);
				if (r < 0) {
					M *pm = &m;
					// nothing there: wait for the producer without using the descriptor
					size_t np = m.pushes.size();
					block([pm, np] { return pm->unread() > 0 || pm->prod_done || pm->pushes.size() > np; }, CK_MONO, W->mono + 10 * MS, false);
				}
			}
			if (choose(6) == 0) sleep_ns((i64)choose(30) * MS);
		}
	});
	return {prod, cons};
}
void traffic(M &m, M *second, int n, int consumer, bool blocking_ok, int style)
{
	std::vector<int> t = start_traffic(m, n, consumer, blocking_ok, style), t2;
	if (second) t2 = start_traffic(*second, 1 + (int)choose((u32)n), (int)choose(3), choose(2), (int)choose(6));
	for (int x : t) join(x);
	for (int x : t2) join(x);
}
} // namespace

SCENARIO("C06", dyn_spsc, 10)
{
	M m, m2;
	int style = (int)choose(6);
	int n = 1 + (int)choose(30);
	bool two = choose(4) == 3;
	choose_sched(two ? 4 : 2);
	if (two) open_two(m, m2);
	else open_box(m, pick_max());
	choose_faults(FM(F_EINTR) | FM(F_SPURIOUS), 30);
	describe("one producer, one consumer, maximum %zu, %d operations, size style %d%s", m.max, n, style, two ? ", and a second mailbox" : "");
	traffic(m, two ? &m2 : nullptr, n, (int)choose(3), choose(2), style);
	if (two) {
		int t = spawn("other", [&m2] { drain(m2); });
		drain(m);
		join(t);
		check_no_leak("after the mailboxes were destroyed");
		return;
	}
	finish(m);
}
SCENARIO("C06", dyn_sequential, 4)
{
	choose_env();
	// a long single-threaded history crossing the ring boundary many times
	M m;
	open_box(m, pick_max());
	Buf b(m.max);
	int style = (int)choose(6), n = 20 + (int)choose(120), bias = 20 + (int)choose(60);
	describe("sequential history of %d operations, maximum %zu, style %d", n, m.max, style);
	for (int i = 0; i < n; i++) {
		if ((int)choose(100) < bias) push(m, pick_size(m, style), false, 0);
		else peek(m, b);
	}
	finish(m);
}
SCENARIO("C07", dyn_event_loop, 10)
{
	choose_uptime();
	M m, m2;
	int style = (int)choose(6);
	int n = 1 + (int)choose(24);
	bool two = choose(5) == 4;
	choose_sched(two ? 4 : 2);
	m.check_fd = true;
	if (two) open_two(m, m2);
	else open_box(m, pick_max());
	choose_faults(FM(F_EINTR) | FM(F_SPURIOUS), 40);
	describe("consumer and read descriptor, maximum %zu, %d operations, size style %d%s", m.max, n, style, two ? ", and a second mailbox" : "");
	traffic(m, two ? &m2 : nullptr, n, (int)pickw({2, 3, 4}), choose(2), style);
	if (two) {
		int t = spawn("other", [&m2] { drain(m2); });
		drain(m);
		join(t);
		check_no_leak("after the mailboxes were destroyed");
		return;
	}
	finish(m);
}
SCENARIO("C07", dyn_tiny_burst, 1)
{
	choose_env();
	// thousands of tiny messages against a small notification channel
	M m;
	m.check_fd = true;
	u32 cap = pick(std::vector<u32>{4096, 8192, 4096});
	open_box(m, 4 + choose(8));
	(void)cap;
	W->cfg.vis_cap = 2000000;
	int n = 1000 + (int)choose(6000);
	size_t sz = choose(3);
	describe("burst of %d messages of %zu bytes", n, sz);
	Buf b(m.max);
	int batch = 1 + (int)choose(3);
	for (int k = 0; k < batch; k++) {
		for (int i = 0; i < n; i++) if (push(m, sz, false, 0)) break;
		size_t rd = k + 1 == batch ? ~0u : choose(2) ? m.unread() : choose((u32)m.unread() + 1);
		while (rd-- && m.unread()) {
			if (!fd_readable(m.fd)) FAIL("pending-not-readable", "%zu messages are unread but the read descriptor is not readable", m.unread());
			peek(m, b);
		}
	}
	finish(m);
}

namespace {
const unsigned long_timeouts[] = {1, 2, 10, 999, 1000, 1001, 2147483, 2147484, 4294967, 4294968, 5000000, 2147483647u, 2147483648u, 4294967295u, 86400000};
unsigned pick_timeout()
{
	switch (choose(4)) {
	case 0: return 0;
	case 1: return 1 + choose(3000);
	case 2: return long_timeouts[choose(sizeof long_timeouts / sizeof *long_timeouts)];
	default: return (unsigned)log_uniform(0xffffffffu);
	}
}
}
SCENARIO("C08", dyn_push_block, 10)
{
	choose_uptime();
	M m;
	choose_sched(2);
	size_t s;
	switch (choose(3)) {
	case 0: s = DYNMBOX_MAX_SIZE - choose(8); break;
	case 1: s = 65536 / (2 + choose(6)) - 4 - choose(3); break;
	default: s = 1500 + choose(40000); break;
	}
	open_box(m, s + choose(2) * (choose((u32)(DYNMBOX_MAX_SIZE - s) + 1)));
	// fill with equal messages until one more does not fit
	while (push(m, s, false, 0) == 0) {}
	size_t fill = m.accepted;
	choose_faults(FM(F_SPURIOUS), 4);
	unsigned to = pick_timeout();
	i64 dl = (i64)to * MS;
	int mode = (int)choose(3);      // 0 nobody reads, 1 one message is read, 2 all are read
	if (to == 0 && mode == 0) mode = 1 + (int)choose(2);
	i64 at = to == 0 ? (i64)(choose64() % (u64)(100 * SEC)) : choose(8) == 0 ? dl : (i64)(choose64() % (u64)(dl + dl / 4 + MS));
	if (choose(2)) wall_clock_stepper(1 + (int)choose(5), to == 0 ? 50 * SEC : dl + MS);
	describe("blocking push of %zu bytes, timeout %u ms, %zu messages queued, %s", s, to, fill, mode == 0 ? "nobody reads" : mode == 1 ? "one message is read" : "all are read");
	i64 freed = -1;
	bool bad_clock = to && choose(16) == 15;  // the clock cannot be read
	if (to && chance(150000)) {
		// a deadline at, just before or just after a whole second
		i64 frac = ((1000 - to % 1000) % 1000 * MS + (i64)choose(3) - 1 + SEC) % SEC, d = (frac - 1000 - W->mono % SEC + 2 * SEC) % SEC;
		if (d) sleep_ns(d);
	}
	int cons = -1;
	if (mode) cons = spawn("consumer", [&] {
		Buf b(m.max);
		sleep_ns(at);
		if (mode == 1) peek(m, b);
		else while (m.unread()) peek(m, b);
		freed = W->mono;
		ev("space_freed", freed);
	});
	i64 t0 = 0, t1 = 0;
	u64 st0 = 0, st1 = 0;
	int r = 0;
	int prod = spawn("producer", [&] {
		t0 = W->mono;
		st0 = W->i_stall_total + 2000 * fault_count(F_EINTR);
		u32 c0 = fault_here(F_CLOCK);
		FaultCfg keep = W->F;
		if (bad_clock) { W->F = FaultCfg(); W->F.mask = FM(F_CLOCK); W->F.at = 0; }
		r = push(m, s, true, to);
		t1 = W->mono;
		st1 = W->i_stall_total + 2000 * fault_count(F_EINTR); // calls take time
		bad_clock = fault_here(F_CLOCK) != c0;
		W->F = keep;
	});
	join(prod);
	if (cons >= 0) join(cons);
	i64 el = t1 - t0, slack = 5 * MS + (i64)(st1 - st0);
	if (bad_clock && r && r != -ETIMEDOUT) {
		// it cannot know its deadline: an error, or the push takes place
		if (r > 0 || r < -4095) FAIL("wrong-error", "blocking push returned %d", r);
	} else if (r == -ETIMEDOUT) {
		if (el < dl) FAIL("timeout-early", "push with timeout %u ms timed out after %.3f ms", to, (double)el / 1e6);
		if (freed >= 0 && freed < t0 + dl - slack && freed < t1 - slack) FAIL("timeout-despite-space", "space was freed %.3f ms into the push but it timed out after %.3f ms", (double)(freed - t0) / 1e6, (double)el / 1e6);
	} else if (r == 0) {
		i64 limit = freed + slack;
		if (freed >= 0 && t1 > limit) FAIL("woken-late", "space was freed %.3f ms into the push, it returned after %.3f ms", (double)(freed - t0) / 1e6, (double)el / 1e6);
	} else FAIL("wrong-error", "blocking push returned %d", r);
	if (to && el > dl + slack) FAIL("timeout-late", "push with timeout %u ms returned %d after %.3f ms", to, r, (double)el / 1e6);
	finish(m);
}
namespace {
struct Timed {
	M m;
	i64 emptied = -1; // since when the consumer finds nothing to read
	int prod = -1, cons = -1;
	void start(int n, int style)
	{
		prod = spawn("producer", [this, n, style] {
			for (int i = 0; i < n; i++) {
				unsigned to = choose(3) ? 0 : 1 + choose(500);
				i64 t0 = W->mono;
				u64 st0 = W->i_stall_total + 2000 * fault_count(F_EINTR);
				size_t s = pick_size(m, style);
				int r = push(m, s, true, to);
				i64 el = W->mono - t0, idle = emptied < 0 ? 0 : W->mono - std::max(emptied, t0), sl = 5 * MS + (i64)(W->i_stall_total + 2000 * fault_count(F_EINTR) - st0);
				if (r == -ETIMEDOUT && idle > sl) FAIL("timeout-despite-space", "a push timed out although the mailbox had been empty for %.3f ms", (double)idle / 1e6);
				if (r == 0 && idle > sl) FAIL("woken-late", "a push returned %.3f ms after the mailbox had become empty", (double)idle / 1e6);
				emptied = -1;
				if (r == -ETIMEDOUT && el < (i64)to * MS) FAIL("timeout-early", "push with timeout %u ms timed out after %.3f ms", to, (double)el / 1e6);
				if (to && el > (i64)to * MS + 5 * MS + (i64)(W->i_stall_total + 2000 * fault_count(F_EINTR) - st0)) FAIL("timeout-late", "push with timeout %u ms returned %d after %.3f ms", to, r, (double)el / 1e6);
			}
			m.prod_done = true;
		});
		cons = spawn("consumer", [this] {
			Buf b(m.max);
			while (!(m.prod_done && !m.unread())) {
				M *pm = &m;
				block([pm] { return pm->unread() || pm->prod_done; }, CK_NONE, 0, false);
				if (m.unread()) peek(m, b);
				emptied = m.unread() ? -1 : W->mono;
				if (choose(3) == 0) sleep_ns((i64)choose(300) * MS);
			}
		});
	}
};
}
SCENARIO("C08", dyn_push_block_traffic, 4)
{
	choose_uptime();
	Timed a, b;
	bool two = choose(4) == 3;
	choose_sched(two ? 4 : 2);
	if (two) open_two(a.m, b.m);
	else open_box(a.m, pick_max());
	choose_faults(FM(F_SPURIOUS), 20);
	int n = 2 + (int)choose(20), style = (int)choose(6);
	describe("blocking traffic, maximum %zu, %d pushes%s", a.m.max, n, two ? ", and a second mailbox" : "");
	if (choose(2)) wall_clock_stepper(1 + (int)choose(4), 2 * SEC);
	a.start(n, style);
	if (two) b.start(2 + (int)choose((u32)n), style);
	join(a.prod);
	join(a.cons);
	if (two) {
		join(b.prod);
		join(b.cons);
		drain(b.m);
	}
	finish(a.m);
}
