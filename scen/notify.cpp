// C15: inotify events
#include "common.h"
#include <sys/inotify.h>
#include <futils/inotify.h>

struct Ev15 { int wd; u32 mask, cookie; std::string name; };
struct S15 {
	int fd = -1;
	std::deque<Ev15> expect;
	u64 got = 0, calls = 0;
	u32 nested = 0;
	u64 pushed = 0;
	void *data = nullptr;
};
static S15 *cur15;
static void push_some(S15 &s, u32 max)
{
	u32 n = 1 + choose(max);
	for (u32 i = 0; i < n; i++) {
		// what real traffic is made of: the same change again (merged by the
		// kernel only with an unread neighbour), a rename's two halves
		static u32 lm; static std::string ln; static int lw;
		switch (s.pushed++ ? pickw({12, 2, 2}) : 0) {
		case 1: inotify_push(s.fd, lm, 0, ln, lw); continue;
		case 2: {
			u32 ck = 1 + (u32)choose(3);
			std::string a(1 + choose(30), 'o'), b(choose(4) ? 1 + choose(30) : a.size(), choose(2) ? 'n' : 'o');
			int w = 1 + (int)choose(3);
			inotify_push(s.fd, IN_MOVED_FROM, ck, a, w);
			inotify_push(s.fd, IN_MOVED_TO, ck, b, choose(3) ? w : 1 + (int)choose(3));
			continue;
		}
		default: break;
		}
		static const u32 masks[] = {IN_CREATE, IN_MODIFY, IN_DELETE | IN_ISDIR, IN_CLOSE_WRITE, IN_MOVED_FROM, IN_MOVED_TO, IN_DELETE_SELF, IN_Q_OVERFLOW, IN_IGNORED};
		u32 mask = masks[choose(9)];
		u32 nl = 0;
		switch (pickw({3, 4, 2, 1})) {
		case 0: nl = 0; break;
		case 1: nl = 1 + choose(20); break;
		case 2: nl = 1 + choose(255); break;
		case 3: nl = 255; break;
		}
		std::string name;
		for (u32 k = 0; k < nl; k++) name.push_back((char)('a' + (s.expect.size() + k * 7 + i) % 26));
		lm = mask & IN_Q_OVERFLOW ? (u32)IN_MODIFY : mask;  ln = name; lw = 1 + (int)choose(3);
		inotify_push(s.fd, mask, choose(2) ? 0 : (u32)choose64(), mask & IN_Q_OVERFLOW ? "" : name, mask & IN_Q_OVERFLOW ? -1 : lw);
	}
}
static void cb15(struct inotify_event *e, void *data)
{
	S15 &s = *cur15;
	if (data != s.data) FAIL("event-userdata", "the callback got another user pointer");
	check_range(e, sizeof *e, false, "event");
	if (e->len) check_range(e->name, e->len, false, "event name");
	std::string name = e->len ? std::string(e->name, strnlen(e->name, e->len)) : "";
	ev("event", e->wd, e->mask, e->len);
	if (s.expect.empty()) FAIL("event-invented", "an event was passed to the callback that the kernel did not queue (or it was passed twice)");
	const Ev15 &x = s.expect.front();
	if (e->wd != x.wd || e->mask != x.mask || e->cookie != x.cookie || name != x.name)
		FAIL("event-wrong", "event %llu: got watch %d mask %x cookie %x name '%s', the kernel queued %d %x %x '%s'", (unsigned long long)s.got, e->wd, e->mask, e->cookie, name.c_str(), x.wd, x.mask, x.cookie, x.name.c_str());
	s.expect.pop_front();
	s.got++;
}
static void cb15_outer(struct inotify_event *e, void *data)
{
	// the application's code: not inside the library
	S15 &s = *cur15;
	cb15(e, data);
	if (s.nested && chance(200000)) { s.nested--; push_some(s, 3); probe("events arrived while a batch was processed"); }
	yield_point();
}
SCENARIO("C15", dispatch, 4)
{
	auto sp = std::make_shared<S15>();
	S15 &s = *sp;
	cur15 = &s;
	fs_mkdir("/w");
	fs_put("/w/f", "x");
	u32 threads = chance(500000);
	choose_sched(1 + (int)threads);
	s.data = choose(2) ? (void *)&s : nullptr;
	s.fd = lib([&] { return inotify_create("/w", IN_ALL_EVENTS); });
	if (s.fd < 0) FAIL("create-failed", "inotify_create failed although nothing did");
	inotify_on_push([&s](int wd, u32 m, u32 c, const std::string &n) { s.expect.push_back({wd, m, c, n}); });
	s.nested = choose(4);
	u32 rounds = 1 + choose(6);
	bool faulty = chance(500000);
	if (faulty) choose_faults(FM(F_NOMEM) | FM(F_IOCTL) | FM(F_INOTIFY), 8, 30);
	describe("%u rounds%s%s", rounds, threads ? ", events from another thread" : "", faulty ? ", failing calls" : "");
	int t = -1;
	if (threads) {
		u32 k = 1 + choose(5);
		t = spawn("kernel", [&s, k] { for (u32 i = 0; i < k; i++) { yield_point(); push_some(s, 5); } });
	}
	static const u32 burst[] = {1, 3, 10, 60};
	// a consumer that was away for long finds thousands of events
	if (chance(4000)) {
		u32 backlog = 500 + (u32)log_uniform(12000);
		W->cfg.vis_cap = 4000000;
		while (s.expect.size() < backlog) push_some(s, 60);
		probe("a long backlog");
	}
	for (u32 r = 0; r < rounds; r++) {
		if (!threads || choose(2)) push_some(s, burst[choose(4)]);
		u32 calls = 1 + choose(3);
		for (u32 c = 0; c < calls; c++) {
			u64 g = s.got;
			u32 nf = G_faults();
			bool pend = inotify_pending(s.fd) > 0;
			if (!pend && chance(700000)) break; // the caller normally waits for readiness
			lib([&] { inotify_process_fd(s.fd, cb15_outer, s.data); });
			s.calls++;
			if (pend && s.got == g && G_faults() == nf) FAIL("event-stuck", "inotify_process_fd delivered none of the pending events although nothing failed");
			if (pend && s.got == g) probe("a failing call postponed events");
			if (open_lib_fds() != 1) FAIL("leak-descriptor", "descriptors:%s", open_fds_desc().c_str());
			if (lib_live_blocks()) FAIL("leak-memory", "after processing:%s", lib_live_desc().c_str());
		}
	}
	if (t >= 0) join(t);
	// the faults stop: everything still queued is delivered while the descriptor is readable
	W->F.mask = 0;
	for (u32 c = 0; fd_readable(s.fd); c++) {
		if (c > 400) FAIL("event-stuck", "the descriptor stays readable for ever");
		u64 g = s.got;
		lib([&] { inotify_process_fd(s.fd, cb15_outer, s.data); });
		if (s.got == g) FAIL("event-stuck", "inotify_process_fd delivered none of the pending events although nothing failed");
	}
	if (!s.expect.empty()) FAIL("event-lost", "%zu events were taken from the kernel and never passed to the callback", s.expect.size());
	lib([&] { inotify_destroy(s.fd); });
	check_no_leak("inotify_destroy");
	inotify_on_push(nullptr);
}
SCENARIO("C15", create, 1)
{
	fs_mkdir("/w");
	fs_put("/w/f", "x");
	choose_env();
	static const char *paths[] = {"/w", "/w/f", "/none", "/w/f/x", ""};
	u32 pi = choose(5);
	u32 mask = choose(4) ? (choose(2) ? IN_CREATE | IN_MODIFY : IN_CLOSE_WRITE) : 0;
	if (chance(600000)) choose_faults(FM(F_INOTIFY) | FM(F_EMFILE), 3);
	describe("inotify_create(\"%s\", %#x)", paths[pi], mask);
	int fd = lib([&] { return inotify_create(paths[pi], mask); });
	bool ok = pi < 2 && mask;
	if (fd < 0) {
		if (fd != -1) FAIL("create-result", "inotify_create failed with %d, not -1", fd);
		if (ok && !G_faults()) FAIL("create-failed", "inotify_create failed although nothing did");
		if (open_lib_fds()) FAIL("leak-descriptor", "a failed inotify_create left descriptors open:%s", open_fds_desc().c_str());
	} else {
		if (!ok) FAIL("create-result", "inotify_create(\"%s\", %#x) succeeded", paths[pi], mask);
		u32 m = inotify_mask(fd, paths[pi]);
		if (m != mask) FAIL("create-watch", "the watch has mask %#x, asked for %#x", m, mask);
		W->F.mask = 0;
		lib([&] { inotify_destroy(fd); });
	}
	lib([&] { inotify_destroy(-1); });
	check_no_leak("inotify_create");
}

// two descriptors, each processed by a thread of its own
static void cb15_two(struct inotify_event *e, void *data)
{
	S15 &s = *(S15 *)data;
	check_range(e, sizeof *e, false, "event");
	if (e->len) check_range(e->name, e->len, false, "event name");
	std::string name = e->len ? std::string(e->name, strnlen(e->name, e->len)) : "";
	ev("event", e->wd, e->mask, e->len);
	if (s.expect.empty()) FAIL("event-invented", "an event was passed to the callback that the kernel did not queue on this descriptor (or it was passed twice)");
	const Ev15 &x = s.expect.front();
	if (e->wd != x.wd || e->mask != x.mask || e->cookie != x.cookie || name != x.name)
		FAIL("event-wrong", "two descriptors in use: got watch %d mask %x cookie %x name '%s', the kernel queued %d %x %x '%s' on this one", e->wd, e->mask, e->cookie, name.c_str(), x.wd, x.mask, x.cookie, x.name.c_str());
	s.expect.pop_front();
	s.got++;
	yield_point();
}
SCENARIO("C15", two_descriptors, 2)
{
	fs_mkdir("/w");
	fs_mkdir("/v");
	choose_sched(2);
	auto a = std::make_shared<S15>(), b = std::make_shared<S15>();
	a->fd = lib([&] { return inotify_create("/w", IN_ALL_EVENTS); });
	b->fd = lib([&] { return inotify_create("/v", IN_ALL_EVENTS); });
	if (a->fd < 0 || b->fd < 0) FAIL("create-failed", "inotify_create failed although nothing did");
	S15 *into = nullptr;
	S15 **pi = &into;
	inotify_on_push([pi](int wd, u32 m, u32 c, const std::string &n) { (*pi)->expect.push_back({wd, m, c, n}); });
	describe("two descriptors processed by two threads");
	auto run = [pi](S15 *s) {
		u32 rounds = 1 + choose(4);
		for (u32 k = 0; k < rounds; k++) {
			*pi = s;
			push_some(*s, 6);
			while (fd_readable(s->fd)) {
				u64 g = s->got;
				lib([&] { inotify_process_fd(s->fd, cb15_two, s); });
				if (s->got == g) FAIL("event-stuck", "inotify_process_fd delivered none of the pending events although nothing failed");
			}
			if (!s->expect.empty()) FAIL("event-lost", "%zu events were taken from the kernel and never passed to the callback", s->expect.size());
			if (choose(2)) yield_point();
		}
	};
	int t = spawn("other", [run, b] { run(b.get()); });
	run(a.get());
	join(t);
	inotify_on_push(nullptr);
	lib([&] { inotify_destroy(a->fd); });
	lib([&] { inotify_destroy(b->fd); });
	check_no_leak("inotify_destroy");
}
