// C18-C21: time contexts, clocks and sleep
#include "common.h"
#include <math.h>
#include "timetext.h"
#include <sys/time.h>
#include <futils/systimetools.h>
#include <futils/timetools.h>
#include "timebuild.h"

// ------------------------------------------------------------------ C18
struct Msg18 { u32 kind; std::string text; Verdict v; Date d; Hour h; };
static Verdict judge(Msg18 &m)
{
	if (m.text.find('\0') != std::string::npos) m.text = m.text.substr(0, m.text.find('\0'));
	m.v = m.kind == 0 ? ref_date(m.text, m.d) : m.kind == 1 ? ref_hour(m.text, m.h) : ref_time(m.text, m.d, m.h);
	return m.v;
}
static void user18(bool first)
{
	struct time_ctx *c = (struct time_ctx *)xalloc(sizeof(struct time_ctx));
	memset((void *)c, choose(2) ? 0xff : 0, sizeof *c);
	int r = lib([&] { return time_ctx_init(c); });
	if (r) FAIL("init-failed", "time_ctx_init returned %d", r);
	u32 rounds = more_calls(1 + choose(3));
	for (u32 rd = 0; rd < rounds; rd++) {
		if (rd) { r = lib([&] { return time_ctx_init(c); }); if (r) FAIL("init-failed", "time_ctx_init returned %d", r); }
		bool hd = false, hh = false;
		Date d = {0, 0, 0};
		Hour h = {0, 0, 0, 0};
		// what the controller sends, and what the network makes of it
		std::vector<Msg18> sent, rx;
		u32 n = 1 + choose(4);
		for (u32 i = 0; i < n; i++) {
			Msg18 m;
			m.d = gen_date();
			m.h = gen_hour();
			m.kind = pickw({3, 3, 2});
			bool t = chance(300000);
			m.text = m.kind == 0 ? text_date(m.d) : m.kind == 1 ? text_hour(m.h, t) : text_time(m.d, m.h);
			Date gd = m.d;
			Hour gh = m.h;
			if (judge(m) != V_GOOD) internal_error("reference refuses '%s'", m.text.c_str());
			if ((m.kind != 1 && (m.d.y != gd.y || m.d.m != gd.m || m.d.d != gd.d)) || (m.kind != 0 && instant(gd, gh) != instant(gd, m.h))) internal_error("reference misreads '%s'", m.text.c_str());
			sent.push_back(m);
		}
		for (auto &m : sent) {
			if (chance(120000)) { count_fault(F_MSGLOSS); continue; }
			u32 copies = 1;
			if (chance(200000)) { copies += 1 + choose(2); count_fault(F_MSGDUP); }
			for (u32 k = 0; k < copies; k++) {
				Msg18 x = m;
				if (chance(300000)) {
					u32 hits = 1 + choose(2);
					for (u32 q = 0; q < hits; q++) x.text = corrupt(x.text);
					if (chance(100000)) x.kind = choose(3); // misrouted
					if (judge(x) == V_GREY) continue;
				}
				size_t at = rx.size();
				if (chance(250000)) { at = choose((u32)rx.size() + 1); count_fault(F_REORDER); }
				rx.insert(rx.begin() + (long)at, x);
			}
		}
		if (!rd && first) describe("%zu messages delivered of %u sent", rx.size(), n);
		auto query = [&] {
			u64 e = 0x1111;
			int32_t o = 0x2222;
			int q = lib([&] { return time_ctx_get_local(c, &e, &o); });
			if (!hd || !hh) { if (q != -EINPROGRESS) FAIL("query-incomplete", "querying a context without %s returned %d", !hd ? "a date" : "an hour", q); return; }
			if (q) FAIL("query-failed", "querying a complete context returned %d", q);
			if ((i64)e != instant(d, h) || o != h.off)
				FAIL("wrong-instant", "date %04u-%02u-%02u and hour %02u:%02u:%02u%+lld s give %llu offset %d, expected %lld", d.y, d.m, d.d, h.h, h.m, h.s, (long long)h.off, (unsigned long long)e, o, (long long)instant(d, h));
		};
		query();
		for (auto &m : rx) {
			// exact-size copy: reading past the terminator is an error
			Buf b(m.text.size() + 1);
			memcpy(b.p, m.text.c_str(), m.text.size() + 1);
			r = lib([&] { return m.kind == 0 ? time_ctx_set_date(c, (char *)b.p) : m.kind == 1 ? time_ctx_set_hour(c, (char *)b.p) : time_ctx_set_time(c, (char *)b.p); });
			xfree(b.p);
			static const char *kn[] = {"date", "hour", "combined"};
			bool set = m.kind == 0 ? hd : m.kind == 1 ? hh : hd || hh;
			note("%s '%s' = %d", kn[m.kind], m.text.c_str(), r);
			ev("message", m.kind, m.v, r);
			if (set) {
				if (r >= 0 || r == -EINPROGRESS || (m.v == V_GOOD && r != -EEXIST)) FAIL("set-twice", "%s message '%s' for a field already set returned %d", kn[m.kind], m.text.c_str(), r);
			} else if (m.v == V_BAD) {
				if (r >= 0 || r == -EINPROGRESS || r == -EEXIST) FAIL("garbage-accepted", "%s message '%s' returned %d", kn[m.kind], m.text.c_str(), r);
			} else {
				if (m.kind != 1) { d = m.d; hd = true; }
				if (m.kind != 0) { h = m.h; hh = true; }
				int want = hd && hh ? 0 : -EINPROGRESS;
				if (r != want) FAIL("message-result", "%s message '%s' returned %d, expected %d", kn[m.kind], m.text.c_str(), r, want);
			}
			query();
		}
	}
	if (chance(100000)) {
		u64 e;
		int32_t o;
		if (lib([&] { return time_ctx_init(nullptr); }) != -EINVAL || lib([&] { return time_ctx_set_date(c, nullptr); }) != -EINVAL || lib([&] { return time_ctx_set_hour(nullptr, "x"); }) != -EINVAL ||
		    lib([&] { return time_ctx_set_time(c, nullptr); }) != -EINVAL || lib([&] { return time_ctx_get_local(c, nullptr, &o); }) != -EINVAL || lib([&] { return time_ctx_get_local(nullptr, &e, &o); }) != -EINVAL)
			FAIL("arguments", "a null argument was not refused as invalid");
	}
	xfree(c);
}
SCENARIO("C18", messages, 1)
{
	bool two = chance(350000);
	if (two) choose_sched(2);
	if (two && !W->cfg.hold && choose(2)) { W->cfg.preempt = W->cfg.fine = true; W->cfg.preempt_left = 3000; }
	int t = two ? spawn("other", [] { user18(false); }) : -1;
	user18(true);
	if (two) join(t), probe("two contexts in two threads");
	check_no_leak("time context");
}

// ------------------------------------------------------------------ clocks
static i64 base_off;
struct OffIv { i64 from, to, off; };
// offsets between wall clock and monotonic clock in force during [s,e]
static std::vector<OffIv> offsets(i64 s, i64 e)
{
	std::vector<OffIv> v;
	i64 off = base_off, from = s;
	for (auto &h : W->rt_hist) {
		if (h.first < s) { off = h.second; continue; }
		if (h.first > e) break;
		v.push_back({from, h.first, off});
		from = h.first;
		off = h.second;
	}
	v.push_back({from, e, off});
	return v;
}
static void clock_world()
{
	choose_uptime();
	u32 k = choose(3);
	if (choose(2)) W->mono += (i64)log_uniform(2000000000) * 1000 + choose(1000);
	if (choose(2)) W->mono = W->mono / SEC * SEC + (choose(2) ? 0 : SEC - 1 - choose(4000));
	choose_sched(2);
	if (choose(2)) W->cfg.vis_ppm = 700000;
	if (choose(2)) W->cfg.stall_ppm = 200000;
	if (chance(200000)) {
		// no clock chip, the ends of 32-bit seconds, far future
		static const i64 at[] = {0x7fffffffll, 0xffffffffll, 1ll << 31, 1ll << 32, 7500000000ll, 1001, 86400 * 365};
		W->rt_off = at[choose(k == 1 ? 5 : 7)] * SEC - (choose(2) ? W->mono / SEC * SEC : 0) - (i64)choose(3) * SEC;
		W->rt_hist[0].second = W->rt_off;
		if (k == 1 || W->rt_off + W->mono > 1000 * SEC) probe("an unusual date");
	}
	base_off = W->rt_off;
	if (k == 1) wall_clock_stepper(1 + (int)choose(6), 20 * MS);
	if (k == 2) {
		u32 n = 1 + choose(10);
		spawn("clock-setter", [n] {
			for (u32 i = 0; i < n; i++) {
				yield_point();
				i64 d = choose(2) ? (i64)log_uniform(2000000000) * 1000 : (i64)log_uniform(2000000);
				set_rt_offset(W->rt_off + (choose(2) && W->rt_off - d + W->mono > 1000 * SEC ? -d : d));
				count_fault(F_CLOCKJUMP);
				vis("clock_set");
			}
		}, nullptr, true);
	}
}
// C19
SCENARIO("C19", to_wall_clock, 3)
{
	clock_world();
	pick_time_build(150000);
	u32 users = 1 + (choose(5) == 4);
	bool faulty = chance(250000), fixed = W->build && choose(2);
	u32 n = 1 + choose(8);
	i64 rt0 = 0;
	bool badprop = false;
	if (fixed) {
		// a simulated product: its wall clock is a fixed distance away from the monotonic one
		rt0 = choose(2) ? 1500000000000000ll + (i64)choose64() % 400000000000000ll : (i64)log_uniform(2000000000);
		std::string v = std::to_string(rt0);
		if (chance(100000)) { badprop = true; v = "99999999999999999999"; }
		if (chance(100000)) { fixed = badprop = false; v = ""; }
		set_prop("ro.simulator.clock_rt0_us", v.c_str());
	}
	describe("%u threads, %u conversions each%s%s", users, n, faulty ? ", failing clocks" : "", fixed ? ", distance of the clocks given by a property" : W->build ? ", libputils" : "");
	if (faulty) choose_faults(FM(F_CLOCK), 8);
	std::vector<int> tid;
	for (u32 u = 0; u < users; u++) tid.push_back(spawn("user", [=] {
		for (u32 i = 0; i < n; i++) {
			// past, present and future
			i64 mt;
			switch (choose(5)) {
			case 0: mt = W->mono / 1000; break;
			case 1: mt = W->mono / 1000 - (i64)log_uniform(1000000000); break;
			case 2: mt = W->mono / 1000 + (i64)log_uniform(1000000000); break;
			case 3: mt = W->mono / 1000 + 86400000000ll * (1 + choose(3650)); break;
			default: mt = (i64)choose(1000000); break;
			}
			if (mt < 0) mt = 0;
			if (base_off < 40ll * 365 * 86400 * SEC && mt < W->mono / 1000) mt = W->mono / 1000; // no time before 1970
			bool ms = choose(2);
			if (ms) mt = mt / 1000;
			u64 out = 0x5555;
			u32 f0 = fault_here(F_CLOCK);
			i64 s = W->mono;
			int r = lib([&] { return ms ? time_monotonic_to_realtime_ms((u64)mt, &out) : time_monotonic_to_realtime_us((u64)mt, &out); });
			i64 e = W->mono;
			note("%s(%lld) = %d -> %llu", ms ? "ms" : "us", (long long)mt, r, (unsigned long long)out);
			ev("converted", mt, r, (i64)out);
			if (fixed) {
				if (badprop) { if (r >= 0 || r < -4095) FAIL("property-error-hidden", "the property is no number and the conversion returned %d", r); continue; }
				if (r) { if (fault_here(F_CLOCK) == f0) FAIL("conversion-failed", "the conversion returned %d", r); continue; }
				i64 want = (ms ? mt * 1000 : mt) + rt0, got = ms ? (i64)out * 1000 : (i64)out, d = got - want;
				if (d < -3 - (ms ? 1000 : 0) || d > 3 + (ms ? 1000 : 0))
					FAIL("wrong-wall-clock", "monotonic %lld %s converts to %llu although the property gives %lld us between the clocks", (long long)mt, ms ? "ms" : "us", (unsigned long long)out, (long long)rt0);
				continue;
			}
			if (fault_here(F_CLOCK) != f0) {
				if (r >= 0 || !sys_error_seen(-r)) FAIL("clock-error-hidden", "reading a clock failed during the conversion, which returned %d", r);
				continue;
			}
			if (r) FAIL("conversion-failed", "the conversion returned %d", r);
			i64 mtn = ms ? mt * 1000000 : mt * 1000, got = ms ? (i64)out * 1000000 : (i64)out * 1000;
			i64 tol = (e - s) / 2 + (ms ? 1000000 : 0) + 3000, best = INT64_MAX;
			for (auto &o : offsets(s, e)) {
				i64 d = got - (mtn + o.off);
				if (d < 0) d = -d;
				if (d < best) best = d;
			}
			if (best > tol)
				FAIL("wrong-wall-clock", "monotonic %lld %s converts to %llu, %lld us away from what any offset in force during the %lld us of the call gives (tolerance %lld us)", (long long)mt, ms ? "ms" : "us",
				     (unsigned long long)out, (long long)(best / 1000), (long long)((e - s) / 1000), (long long)(tol / 1000));
			if (best > 0 && W->rt_hist.size() && offsets(s, e).size() > 1) probe("the wall clock was stepped during a conversion");
			if (chance(50000) && (lib([&] { return time_monotonic_to_realtime_us(1, nullptr); }) != -EINVAL || lib([&] { return time_monotonic_to_realtime_ms(1, nullptr); }) != -EINVAL))
				FAIL("arguments", "a null result was not refused");
		}
	}));
	for (int t : tid) join(t);
}
SCENARIO("C19", elapsed, 2)
{
	clock_world();
	u32 users = 1 + (choose(4) == 3);
	bool faulty = chance(200000);
	u32 n = 1 + choose(10);
	describe("%u threads, %u elapsed times each%s", users, n, faulty ? ", failing clocks" : "");
	if (faulty) choose_faults(FM(F_CLOCK), 8);
	std::vector<int> tid;
	for (u32 u = 0; u < users; u++) tid.push_back(spawn("user", [=] {
		for (u32 i = 0; i < n; i++) {
			i64 at = W->mono + 1000; // what the next clock reading shows
			i64 v;
			switch (choose(6)) {
			case 0: v = at - (i64)choose(10) * SEC; break;              // same nanoseconds
			case 1: v = at - (i64)log_uniform(2000000000); break;
			case 2: v = at - (i64)choose(5000) * SEC + (i64)choose(SEC); break;
			case 3: v = at + (i64)log_uniform(2000000000); break;
			case 4: v = at + (i64)choose(10) * SEC; break;
			default: v = choose(1000000000); break;
			}
			if (v < 0) v = 0;
			struct timespec ts = {v / SEC, v % SEC}, d = {77, 77};
			u32 f0 = fault_here(F_CLOCK);
			auto &reads = W->mono_reads[self()];
			reads.clear();
			i64 s = W->mono;
			int r = lib([&] { return time_timespec_diff_now(&ts, &d); });
			i64 e = W->mono;
			// what "now" was for the library
			if (!reads.empty()) {
				s = *std::min_element(reads.begin(), reads.end());
				e = *std::max_element(reads.begin(), reads.end());
			}
			ev("elapsed", v, r, (i64)d.tv_sec * SEC + d.tv_nsec);
			if (fault_here(F_CLOCK) != f0) { if (r >= 0 || !sys_error_seen(-r)) FAIL("clock-error-hidden", "reading the clock failed, time_timespec_diff_now returned %d", r); continue; }
			if (v > e) { if (r >= 0) FAIL("future-accepted", "elapsed time since a future timestamp (%lld ns ahead) returned %d", (long long)(v - e), r); continue; }
			if (r) { if (v <= s) FAIL("elapsed-refused", "elapsed time since a past timestamp (%lld ns ago) returned %d", (long long)(s - v), r); continue; }
			if (d.tv_nsec < 0 || d.tv_nsec >= SEC || d.tv_sec < 0) FAIL("not-normalised", "elapsed time is {%lld, %ld}", (long long)d.tv_sec, (long)d.tv_nsec);
			i64 got = d.tv_sec * SEC + d.tv_nsec;
			if (got < s - v || got > e - v) FAIL("elapsed-wrong", "%lld ns have elapsed since the timestamp, got %lld", (long long)(e - v), (long long)got);
			if (chance(50000) && (lib([&] { return time_timespec_diff_now(nullptr, &d); }) != -EINVAL || lib([&] { return time_timespec_diff_now(&ts, nullptr); }) != -EINVAL))
				FAIL("arguments", "a null argument was not refused");
		}
	}));
	for (int t : tid) join(t);
}
// C20
static void check_read(i64 s, i64 e, u64 sec, i64 msec, const char *what)
{
	// some instant of [s,e] must show sec (and msec)
	i64 lo = (i64)sec * SEC + (msec >= 0 ? msec * MS : 0), hi = lo + (msec >= 0 ? MS : SEC);
	for (auto &o : offsets(s, e))
		if (o.to + o.off >= lo && o.from + o.off < hi) return;
	auto v = offsets(s, e);
	FAIL("incoherent-time", "%s returned %llu s %lld ms, which the system clock showed at no moment between the call (%lld ms) and its return (%lld ms)", what, (unsigned long long)sec, (long long)msec,
	     (long long)((s + v.front().off) / MS), (long long)((e + v.back().off) / MS));
}
// the offsets the system property held between two events
static bool prop_offset_seen(u64 s, u64 e, int off)
{
	std::string cur = "0";
	bool seen = false;
	for (auto &h : W->prop_hist) {
		if (h.second.first != "timezone.utc_offset.sec") continue;
		if (h.first > s) seen |= atoi(cur.c_str()) == off;
		if (h.first > e) return seen;
		cur = h.second.second;
	}
	return seen || atoi(cur.c_str()) == off;
}
SCENARIO("C20", wall_clock, 1)
{
	clock_world();
	pick_time_build(200000);
	bool faulty = chance(250000);
	u32 n = 1 + choose(10), users = 1 + choose(2);
	if (choose(2)) {
		// the offset changes at a second close to now
		static const int offs[] = {0, 3600, 7200, -18000, -14400, 20700, 45900};
		W->zone_change = (W->mono + W->rt_off) / SEC + (choose(2) ? 1 : (i64)choose(4) - 1);
		W->zone_before = offs[choose(7)];
		W->zone_after = offs[choose(7)];
	}
	describe("%u threads, %u calls each, zone offset %d then %d%s", users, n, W->zone_before, W->zone_after, faulty ? ", failing clocks" : "");
	if (W->build && chance(300000)) set_prop("timezone.utc_offset.sec", std::to_string((int)choose(28 * 3600) - 14 * 3600).c_str());
	if (faulty) choose_faults(FM(F_CLOCK) | (W->build ? FM(F_PROP) : 0), 8);
	std::vector<int> tid;
	for (u32 u = 0; u < users; u++) tid.push_back(spawn("user", [=] {
		for (u32 i = 0; i < n; i++) {
			u32 f0 = fault_here(F_CLOCK), p0 = fault_here(F_PROP);
			u64 q0 = now_seq();
			switch (pickw({5, 3, 3, 1})) {
			case 0: case 1: {
				u64 sec = 0x123456;
				u16 ms = 0x7777;
				int32_t off = 0x33;
				bool full = choose(3) != 0, wo = choose(2);
				i64 s = W->mono;
				int r = lib([&] { return full ? time_local_ms_get(&sec, &ms, wo ? &off : nullptr) : time_local_get(&sec, wo ? &off : nullptr); });
				i64 e = W->mono;
				ev("read", r, (i64)sec, ms);
				if (r) {
					if (r > 0 || r < -4095) FAIL("read-result", "reading the local time returned %d", r);
					if (fault_here(F_CLOCK) == f0) FAIL("read-failed", "reading the local time returned %d although the clock works", r);
					break;
				}
				if (fault_here(F_CLOCK) != f0) FAIL("clock-error-hidden", "reading the clock failed and the local time was returned");
				if (full && ms > 999) FAIL("incoherent-time", "milliseconds are %u", ms);
				check_read(s, e, sec, full ? ms : -1, full ? "time_local_ms_get" : "time_local_get");
				if (W->build) {
					if (wo && !prop_offset_seen(q0, now_seq(), off)) FAIL("wrong-offset", "the offset returned, %d, is not what the property said during the call", off);
				} else if (wo && off != 0 && off != W->zone_off((i64)sec))
					FAIL("wrong-offset", "the offset of the instant returned (%llu s) is %d but %d was returned", (unsigned long long)sec, W->zone_off((i64)sec), off);
				break;
			}
			case 2: {
				u64 to = choose(4) ? 1000000000ull + choose64() % 3000000000ull : 86400 + choose64() % 7800000000ull;
				if (chance(100000)) to = choose(2) ? ~0ull - choose(5) : 1ull << 62;
				bool bad = to > 8000000000ull;
				size_t h0 = W->rt_hist.size();
				i64 s = W->mono;
				int noff = W->build ? (int)choose(28 * 60) * 60 - 14 * 3600 : (int)choose(3) * 3600;
				int r = lib([&] { return time_local_set(to, noff); });
				i64 e = W->mono;
				ev("set", r, (i64)to);
				if (W->build && fault_here(F_PROP) != p0 && !bad && fault_here(F_CLOCK) == f0) {
					if (r >= 0 || r < -4095) FAIL("property-error-hidden", "storing the offset failed and time_local_set returned %d", r);
					probe("storing the offset failed");
					break;
				}
				if (W->build && (bad || fault_here(F_CLOCK) != f0) && r != -EPERM && r != -EINVAL)
					FAIL("clock-error-hidden", "setting the clock failed with EPERM or EINVAL and time_local_set returned %d", r);
				if (W->build && r == 0) {
					bool stored = false;
					for (auto &h : W->prop_hist) if (h.first > q0 && h.second.first == "timezone.utc_offset.sec" && atoi(h.second.second.c_str()) == noff) stored = true;
					if (!stored) FAIL("offset-not-set", "time_local_set returned 0 and the offset %d was never stored", noff);
				}
				if (r) {
					if (r > 0 || r < -4095) FAIL("set-result", "time_local_set returned %d", r);
					if (!bad && fault_here(F_CLOCK) == f0) FAIL("set-failed", "time_local_set(%llu) returned %d although the system accepted it", (unsigned long long)to, r);
					break;
				}
				if (fault_here(F_CLOCK) != f0) FAIL("clock-error-hidden", "setting the clock failed and time_local_set returned 0");
				if (bad) FAIL("clock-error-hidden", "the system refuses %llu and time_local_set returned 0", (unsigned long long)to);
				bool found = false;
				for (size_t k = h0; k < W->rt_hist.size(); k++) {
					i64 at = W->rt_hist[k].first, v = at + W->rt_hist[k].second;
					if (at >= s && at <= e && v == (i64)to * SEC) found = true;
				}
				if (!found) FAIL("set-wrong", "time_local_set(%llu) returned 0 and the system clock never showed that time", (unsigned long long)to);
				break;
			}
			default: {
				u64 sec;
				u16 ms;
				if (lib([&] { return time_local_ms_get(nullptr, choose(2) ? &ms : nullptr, nullptr); }) != -EINVAL || lib([&] { return time_local_get(nullptr, nullptr); }) != -EINVAL)
					FAIL("arguments", "reading nothing was not refused");
				(void)sec;
			}
			}
		}
	}));
	for (int t : tid) join(t);
}
// C21
SCENARIO("C21", msleep, 2)
{
	clock_world();
	u32 users = 1 + (choose(4) == 3);
	u32 mode = choose(3), n = 1 + choose(3);
	u32 dur[4];
	for (u32 i = 0; i < n; i++) switch (choose(5)) {
		case 0: dur[i] = choose(5); break;
		case 1: dur[i] = log_uniform(100000); break;
		case 2: dur[i] = (u32)choose64(); break;
		case 3: { static const u32 d[] = {999, 1000, 1001, 2147483, 2147484, 4294967, 4294968, 2147483647, 2147483648u, 4294967295u, 60000, 86400000}; dur[i] = d[choose(12)]; break; }
		default: dur[i] = 1000 * choose(4000000); break;
	}
	u32 d0 = dur[0];
	describe("sleep %u ms%s", d0, mode == 1 ? ", signals" : "");
	std::vector<u32> dv(dur, dur + n);
	if (mode == 1) choose_faults(FM(F_EINTR), 2);
	std::vector<int> tid;
	for (u32 u = 0; u < users; u++) tid.push_back(spawn("sleeper", [=] {
		for (u32 d0 : dv) {
			u32 d = u ? d0 / 3 + 1 : d0;
			u32 f0 = fault_here(F_EINTR);
			i64 s = W->mono;
			u64 st0 = W->i_stall_total + 2000 * fault_count(F_EINTR);
			int r = lib([&] { return time_msleep(d); });
			i64 el = W->mono - s, want = (i64)d * MS;
			ev("slept", d, r, el);
			if (r > 0 || r < -4095) FAIL("sleep-result", "time_msleep(%u) returned %d", d, r);
			if (r == 0 && el < want) FAIL("sleep-early", "time_msleep(%u) returned 0 after %lld us", d, (long long)(el / 1000));
			if (r < 0 && fault_here(F_EINTR) == f0) FAIL("sleep-failed", "time_msleep(%u) returned %d without a signal", d, r);
			if (r < 0 && r != -EINTR) FAIL("wrong-error", "time_msleep(%u) was interrupted and returned %d", d, r);
			if (el > want + 10 * MS + (i64)(W->i_stall_total + 2000 * fault_count(F_EINTR) - st0)) FAIL("sleep-late", "time_msleep(%u) returned after %lld us", d, (long long)(el / 1000));
			if (r < 0) probe("a signal cut a sleep short");
		}
	}));
	for (int t : tid) join(t);
}
SCENARIO("C21", readers, 1)
{
	clock_world();
	u32 users = 1 + (choose(4) == 3);
	bool faulty = chance(300000);
	u32 n = 1 + choose(10);
	describe("%u threads, %u clock readings each", users, n);
	if (faulty) choose_faults(FM(F_CLOCK), 8);
	std::vector<int> tid;
	for (u32 u = 0; u < users; u++) tid.push_back(spawn("reader", [=] {
		for (u32 i = 0; i < n; i++) {
			struct timespec ts = {1, 1};
			bool mono = choose(2);
			u32 f0 = fault_here(F_CLOCK);
			i64 s = W->mono;
			int r = lib([&] { return mono ? time_get_monotonic(&ts) : time_get_realtime(&ts); });
			i64 e = W->mono;
			ev("read", r, ts.tv_sec, ts.tv_nsec);
			if (fault_here(F_CLOCK) != f0) { if (r >= 0 || !sys_error_seen(-r)) FAIL("clock-error-hidden", "the clock cannot be read and the reader returned %d", r); continue; }
			if (r) FAIL("read-failed", "the reader returned %d", r);
			i64 v = (i64)ts.tv_sec * SEC + ts.tv_nsec;
			if (ts.tv_nsec < 0 || ts.tv_nsec >= SEC) FAIL("not-normalised", "nanoseconds are %ld", (long)ts.tv_nsec);
			if (mono) { if (v < s || v > e) FAIL("wrong-clock", "the monotonic clock showed %lld..%lld, the reader returned %lld", (long long)s, (long long)e, (long long)v); }
			else {
				bool ok = false;
				for (auto &o : offsets(s, e)) if (v >= o.from + o.off && v <= o.to + o.off) ok = true;
				if (!ok) FAIL("wrong-clock", "the wall clock never showed %lld during the call", (long long)v);
			}
		}
	}));
	for (int t : tid) join(t);
}
// ------------------------------------------------------------------ C26
// every call is compared with arithmetic in 128 bits
typedef __int128 i128;
static i128 tval(const struct timespec &t) { return (i128)t.tv_sec * SEC + t.tv_nsec; }
static std::string tstr(const struct timespec &t) { return fmt("{%lld, %ld}", (long long)t.tv_sec, (long)t.tv_nsec); }
static struct timespec ts_of(i128 v)
{
	i128 s = v >= 0 ? v / SEC : -((SEC - 1 - v) / SEC);
	return {(time_t)s, (long)(v - s * SEC)};
}
static bool tsame(const struct timespec &a, const struct timespec &b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
static bool fits_sec(i128 v) { i128 s = v >= 0 ? v / SEC : -((SEC - 1 - v) / SEC); return s > -((i128)1 << 62) && s < ((i128)1 << 62); }
struct Arith {
	static struct timespec add(const struct timespec &t, i64 delta, bool us, bool inplace)
	{
		i128 want = tval(t) + (i128)delta * (us ? 1000 : 1);
		struct timespec src = t, res = {0x55, 0x55};
		struct timespec *out = inplace ? &src : &res;
		int r = lib([&] { return us ? time_timespec_add_us(&src, delta, out) : time_timespec_add_ns(&src, delta, out); });
		ev("add", us, delta, r);
		if (r) FAIL("add-refused", "adding %lld %s to %s returned %d", (long long)delta, us ? "us" : "ns", tstr(t).c_str(), r);
		if (!tsame(*out, ts_of(want))) FAIL("add-wrong", "%s plus %lld %s gives %s, not %s", tstr(t).c_str(), (long long)delta, us ? "us" : "ns", tstr(*out).c_str(), tstr(ts_of(want)).c_str());
		if (!inplace && !tsame(src, t)) FAIL("input-changed", "adding changed its input");
		return *out;
	}
	static int cmp(const struct timespec &a, const struct timespec &b)
	{
		int r = lib([&] { return time_timespec_cmp(&a, &b); });
		ev("cmp", r);
		int want = tval(a) < tval(b) ? -1 : tval(a) > tval(b);
		if (r != want) FAIL("cmp-wrong", "comparing %s with %s gives %d", tstr(a).c_str(), tstr(b).c_str(), r);
		return r;
	}
	// b - a; false if b is before a
	static bool diff(const struct timespec &a, const struct timespec &b, struct timespec &d)
	{
		d = {0x33, 0x33};
		int r = lib([&] { return time_timespec_diff(&a, &b, &d); });
		ev("diff", r);
		i128 want = tval(b) - tval(a);
		if (want < 0) {
			if (r >= 0 || r < -4095) FAIL("negative-difference", "%s minus %s, which is negative, returned %d", tstr(b).c_str(), tstr(a).c_str(), r);
			return false;
		}
		if (r) FAIL("diff-refused", "%s minus %s returned %d", tstr(b).c_str(), tstr(a).c_str(), r);
		if (!tsame(d, ts_of(want))) FAIL("diff-wrong", "%s minus %s gives %s", tstr(b).c_str(), tstr(a).c_str(), tstr(d).c_str());
		return true;
	}
	static u64 diff_us(const struct timespec &a, const struct timespec &b)
	{
		u64 us = 0x77;
		int sign = 0x44;
		bool ws = choose(4) != 0;
		i128 d = tval(a) - tval(b), ad = d < 0 ? -d : d;
		int r = lib([&] { return time_timespec_diff_us(&a, &b, &us, ws ? &sign : nullptr); });
		ev("diff_us", r, (i64)us);
		if (r) FAIL("diff-refused", "the difference of %s and %s returned %d", tstr(a).c_str(), tstr(b).c_str(), r);
		if (us != (u64)(ad / 1000)) FAIL("diff-wrong", "%s and %s are %llu us apart, got %llu", tstr(a).c_str(), tstr(b).c_str(), (unsigned long long)(ad / 1000), (unsigned long long)us);
		if (ws && d && sign != (d > 0 ? 1 : -1)) FAIL("wrong-sign", "the difference of %s and %s has sign %d", tstr(a).c_str(), tstr(b).c_str(), sign);
		return us;
	}
	static bool in_range(const struct timespec &a, const struct timespec &b, u64 range)
	{
		u64 us = 0x77;
		bool wd = choose(4) != 0;
		i128 d = tval(a) - tval(b), ad = d < 0 ? -d : d;
		int r = lib([&] { return time_timespec_diff_in_range(&a, &b, range, wd ? &us : nullptr); });
		ev("in_range", r, (i64)us);
		int want = !d || ad < (i128)range * 1000;
		if (r != want) FAIL("range-wrong", "%s and %s, %llu us apart, are %sin a range of %llu us", tstr(a).c_str(), tstr(b).c_str(), (unsigned long long)(ad / 1000), r ? "" : "not ", (unsigned long long)range);
		if (wd && us != (u64)(ad / 1000)) FAIL("diff-wrong", "%s and %s are %llu us apart, got %llu", tstr(a).c_str(), tstr(b).c_str(), (unsigned long long)(ad / 1000), (unsigned long long)us);
		return r;
	}
	// unit: 0 ns, 1 us, 2 ms
	static u64 to(const struct timespec &t, u32 unit)
	{
		static const i64 div[] = {1, 1000, 1000000};
		static const char *un[] = {"ns", "us", "ms"};
		u64 v = 0x77;
		int r = lib([&] { return unit == 0 ? time_timespec_to_ns(&t, &v) : unit == 1 ? time_timespec_to_us(&t, &v) : time_timespec_to_ms(&t, &v); });
		ev("to", unit, (i64)v, r);
		if (r) FAIL("conversion-refused", "%s in %s returned %d", tstr(t).c_str(), un[unit], r);
		i128 want = tval(t) / div[unit];
		if (v != (u64)want) FAIL("conversion-wrong", "%s is %llu %s, got %llu", tstr(t).c_str(), (unsigned long long)want, un[unit], (unsigned long long)v);
		return v;
	}
	static struct timespec from(u64 v, u32 unit)
	{
		static const i64 mul[] = {1, 1000, 1000000};
		static const char *un[] = {"ns", "us", "ms"};
		struct timespec t = {0x55, 0x55};
		uint64_t x = v;
		int r = lib([&] { return unit == 0 ? time_ns_to_timespec(&x, &t) : unit == 1 ? time_us_to_timespec(&x, &t) : time_ms_to_timespec(&x, &t); });
		ev("from", unit, (i64)v, r);
		if (r) FAIL("conversion-refused", "%llu %s returned %d", (unsigned long long)v, un[unit], r);
		if (x != v) FAIL("input-changed", "a conversion changed its input");
		if (!tsame(t, ts_of((i128)v * mul[unit]))) FAIL("conversion-wrong", "%llu %s is converted to %s", (unsigned long long)v, un[unit], tstr(t).c_str());
		return t;
	}
	static struct timespec from_timeval(i64 s, i64 us)
	{
		struct timeval tv = {(time_t)s, (suseconds_t)us};
		struct timespec t = {0x55, 0x55};
		uint32_t ms = 0x77;
		int r = lib([&] { return time_timeval_to_timespec(&tv, &t); });
		if (r || t.tv_sec != s || t.tv_nsec != us * 1000) FAIL("conversion-wrong", "{%lld s, %lld us} is converted to %s: %d", (long long)s, (long long)us, tstr(t).c_str(), r);
		i64 want = s * 1000 + us / 1000;
		if (s >= 0 && s < 4294967 && want < 4294967296ll) {
			r = lib([&] { return time_timeval_to_ms(&tv, &ms); });
			if (r || ms != (u32)want) FAIL("conversion-wrong", "{%lld s, %lld us} is %lld ms, got %u: %d", (long long)s, (long long)us, (long long)want, ms, r);
		}
		ev("timeval", s, us);
		return t;
	}
};
static i64 gen_delta(bool us)
{
	i64 d;
	switch (choose(6)) {
	case 0: d = choose(4); break;
	case 1: d = (i64)choose(5) * (us ? 1000000 : SEC) + (i64)choose(5) - 2; break;
	case 2: d = (i64)log_uniform(2000000000); break;
	case 3: d = (i64)choose64(); break;
	case 4: d = (i64)(choose64() >> choose(64)); break;
	default: d = INT64_MAX - (i64)choose(3); if (choose(4) == 0) return INT64_MIN; break;
	}
	return choose(2) ? d : (i64)(0 - (u64)d);
}
// periodic tasks whose deadlines are computed from the simulated clocks
SCENARIO("C26", periodic_tasks, 3)
{
	clock_world();
	u32 tasks = 1 + choose(3);
	describe("%u periodic tasks", tasks);
	std::vector<int> tid;
	for (u32 k = 0; k < tasks; k++) tid.push_back(spawn("task", [=] {
		u32 unit = choose(3), rounds = 1 + choose(8);
		u64 per = unit == 0 ? 1 + log_uniform(2000000000) : unit == 1 ? 1 + log_uniform(100000000) : 1 + log_uniform(100000);
		struct timespec ptime = Arith::from(per, unit);
		i64 period = (i64)tval(ptime);
		struct timespec base = {0, 0}, next, last, rtlast = {0, 0};
		if (lib([&] { return time_get_monotonic(&base); })) FAIL("read-failed", "reading the clock failed");
		bool us = period % 1000 == 0 && choose(2);
		next = Arith::add(base, us ? period / 1000 : period, us, false);
		last = base;
		bool drift_free = choose(2);
		i64 fired = 0, k0 = (i64)tval(base);
		for (u32 i = 0; i < rounds; i++) {
			struct timespec now, rem;
			u32 turns = 0;
			for (;;) {
				if (lib([&] { return time_get_monotonic(&now); })) FAIL("read-failed", "reading the clock failed");
				if (Arith::cmp(now, last) < 0) FAIL("clock-backwards", "the monotonic clock went from %s to %s", tstr(last).c_str(), tstr(now).c_str());
				last = now;
				if (Arith::cmp(now, next) >= 0) break;
				if (++turns > 60) internal_error("a task never gets to its deadline");
				if (!Arith::diff(now, next, rem)) FAIL("diff-refused", "no time is left until a deadline in the future");
				if (choose(2)) (void)Arith::diff(next, now, rem), Arith::diff(now, next, rem);
				u64 ms = Arith::to(rem, 2);
				if (ms && choose(2)) lib([&] { return time_msleep((u32)ms); });
				else sleep_ns((i64)tval(rem));
			}
			// how late, and how many periods were missed
			u64 late = Arith::diff_us(now, next);
			if (Arith::in_range(now, next, per) && late) probe("a deadline was met late");
			if (late * 1000 > (u64)period) probe("periods were missed");
			fired++;
			if (drift_free) {
				// k-th deadline from the base: must equal repeated addition
				next = Arith::add(next, us ? period / 1000 : period, us, choose(2));
				if (tval(next) != (i128)k0 + (i128)period * (fired + 1)) FAIL("drift", "after %lld periods the deadline has moved by %lld ns", (long long)fired, (long long)(tval(next) - k0 - (i128)period * (fired + 1)));
			} else {
				next = Arith::add(now, us ? period / 1000 : period, us, false);
				k0 = (i64)tval(now) - period * fired;
			}
			// wall clock stamps, which may go back
			if (choose(2)) {
				struct timespec rt = {0, 0};
				if (lib([&] { return time_get_realtime(&rt); })) FAIL("read-failed", "reading the clock failed");
				struct timespec d;
				if (i && !Arith::diff(rtlast, rt, d)) probe("the wall clock went back between two stamps");
				if (i) Arith::diff_us(rt, rtlast), Arith::in_range(rtlast, rt, choose64() >> choose(64)), Arith::cmp(rt, rtlast);
				rtlast = rt;
				// undo the delta
				i64 dl = gen_delta(false) / 4;
				if (!tsame(Arith::add(Arith::add(rt, dl, false, false), -dl, false, true), rt)) FAIL("add-wrong", "adding and subtracting %lld ns does not give the time again", (long long)dl);
			} else if (choose(2)) {
				struct timespec again = Arith::from(Arith::to(now, unit), unit);
				i64 cut = (i64)(tval(now) - tval(again));
				static const i64 res[] = {1, 1000, 1000000};
				if (cut < 0 || cut >= res[unit]) FAIL("conversion-wrong", "%s converted to a number and back is %s", tstr(now).c_str(), tstr(again).c_str());
			}
			if (W->mono > (i64)4000000000 * SEC) break;
		}
	}));
	for (int t : tid) join(t);
	check_no_leak("time arithmetic");
}
// stamps from other nodes: any normalised time
SCENARIO("C26", foreign_stamps, 2)
{
	u32 users = 1 + choose(2), n = 1 + choose(12);
	choose_sched((int)users);
	n = more_calls(n);
	describe("%u threads, %u operations each", users, n);
	std::vector<int> tid;
	for (u32 k = 0; k < users; k++) tid.push_back(spawn("user", [=] {
		auto gen = [] {
			struct timespec t;
			switch (choose(4)) {
			case 0: t.tv_sec = choose(4); break;
			case 1: t.tv_sec = (time_t)log_uniform(4000000000u); break;
			case 2: t.tv_sec = (time_t)(choose64() >> (2 + choose(60))); break;
			default: t.tv_sec = 1700000000 + choose(3); break;
			}
			switch (choose(4)) {
			case 0: t.tv_nsec = choose(3); break;
			case 1: t.tv_nsec = SEC - 1 - choose(3); break;
			case 2: t.tv_nsec = (long)choose(1000) * 1000000 + choose(2) * 999999; break;
			default: t.tv_nsec = choose(1000000000); break;
			}
			if (chance(150000)) t.tv_sec = -t.tv_sec;
			return t;
		};
		struct timespec a = gen(), b = gen(), d;
		for (u32 i = 0; i < n; i++) {
			yield_point();
			if (choose(2)) b = choose(2) ? gen() : a;
			i128 ad = tval(a) - tval(b);
			if (ad < 0) ad = -ad;
			switch (choose(7)) {
			case 0: {
				bool us = choose(2);
				i64 dl = gen_delta(us);
				if (!fits_sec(tval(a) + (i128)dl * (us ? 1000 : 1))) break;
				a = Arith::add(a, dl, us, choose(2));
				break;
			}
			case 1: Arith::cmp(a, b); break;
			case 2: if (!fits_sec(tval(b) - tval(a))) break; Arith::diff(a, b, d); break;
			case 3: if (ad / 1000 > (i128)UINT64_MAX) break; Arith::diff_us(a, b); break;
			case 4: {
				if (ad / 1000 > (i128)UINT64_MAX - 2) break;
				u64 range = choose(2) ? (u64)(ad / 1000) + choose(3) - (ad >= 1000 ? 1 : 0) : choose64() >> choose(64);
				Arith::in_range(a, b, range);
				break;
			}
			case 5: {
				static const i64 div[] = {1, 1000, 1000000};
				u32 unit = choose(3);
				if (a.tv_sec >= 0 && tval(a) / div[unit] <= (i128)UINT64_MAX) Arith::to(a, unit);
				b = Arith::from(choose(2) ? log_uniform(4000000000u) : choose64() >> choose(64), unit);
				break;
			}
			default: b = Arith::from_timeval(choose(2) ? choose(4294968) : (i64)(choose64() >> (20 + choose(40))), choose(2) ? choose(1000000) : choose(2) ? 999999 : choose(1000) * 1000); break;
			}
		}
		if (chance(50000)) {
			u64 v = 5;
			u32 ms = 0;
			struct timeval tv = {1, 1};
			struct timespec t = {1, 1};
			if (lib([&] { return time_timespec_diff(nullptr, &a, &d); }) >= 0 || lib([&] { return time_timespec_diff(&a, nullptr, &d); }) >= 0 || lib([&] { return time_timespec_diff(&a, &a, nullptr); }) >= 0 ||
			    lib([&] { return time_timespec_diff_us(nullptr, &a, &v, nullptr); }) >= 0 || lib([&] { return time_timespec_diff_us(&a, nullptr, &v, nullptr); }) >= 0 || lib([&] { return time_timespec_diff_us(&a, &a, nullptr, nullptr); }) >= 0 ||
			    lib([&] { return time_timespec_to_ns(nullptr, &v); }) >= 0 || lib([&] { return time_timespec_to_us(&a, nullptr); }) >= 0 || lib([&] { return time_timespec_to_ms(nullptr, &v); }) >= 0 ||
			    lib([&] { return time_ns_to_timespec(nullptr, &t); }) >= 0 || lib([&] { return time_us_to_timespec(&v, nullptr); }) >= 0 || lib([&] { return time_ms_to_timespec(nullptr, &t); }) >= 0 ||
			    lib([&] { return time_timespec_add_ns(nullptr, 1, &t); }) >= 0 || lib([&] { return time_timespec_add_us(&a, 1, nullptr); }) >= 0 ||
			    lib([&] { return time_timeval_to_timespec(nullptr, &t); }) >= 0 || lib([&] { return time_timeval_to_timespec(&tv, nullptr); }) >= 0 || lib([&] { return time_timeval_to_ms(nullptr, &ms); }) >= 0 || lib([&] { return time_timeval_to_ms(&tv, nullptr); }) >= 0)
				FAIL("arguments", "a null argument was accepted");
			if (lib([&] { return time_timespec_cmp(nullptr, &a); }) || lib([&] { return time_timespec_cmp(&a, nullptr); }) || lib([&] { return time_timespec_diff_in_range(nullptr, &a, 5, nullptr); }) || lib([&] { return time_timespec_diff_in_range(&a, nullptr, 5, nullptr); }))
				FAIL("arguments", "a null argument was compared");
		}
	}));
	for (int t : tid) join(t);
}
