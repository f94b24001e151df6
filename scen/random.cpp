// C11-C14: random generator
#include "common.h"
#include <math.h>
#include <limits.h>
#include <unordered_map>
#include <algorithm>
#include <futils/random.h>
#include "randbuild.h"
#include "../probe/randinl.h"

typedef std::vector<u8> Bytes;
struct Rec { u64 v[8]; };
static void put_marks(std::initializer_list<u64> l) { for (u64 x : l) W->marks.push_back(x); }
static u64 add_output(const Bytes &b) { W->outputs.push_back(b); return W->outputs.size() - 1; }

// a request for len raw bytes through one of the raw interfaces
static Bytes draw_raw(size_t len, u32 how)
{
	Bytes out(len);
	// the inline variants with a result
	bool inl = !W->build && (len + how) % 3 == 1;
	auto inl_failed = [](int r) { FAIL("draw-refused", "an inline function of random.h with valid arguments returned %d", r); };
	if (inl && how >= 1 && how <= 4) {
		size_t w = (size_t)1 << (how - 1);
		for (size_t i = 0; i + w <= len; i += w) {
			u8 v8; u16 v16; u32 v32; u64 v64;
			int r = lib([&] { return how == 1 ? ri_8(&v8) : how == 2 ? ri_16(&v16) : how == 3 ? ri_32(&v32) : ri_64(&v64); });
			if (r) inl_failed(r);
			memcpy(&out[i], how == 1 ? (void *)&v8 : how == 2 ? (void *)&v16 : how == 3 ? (void *)&v32 : (void *)&v64, w);
		}
		out.resize(len / w * w);
		return out;
	}
	switch (how) {
	default: {
		Buf b(len);
		if (inl && len) { int r = lib([&] { return ri_bytes(b.p, len); }); if (r) inl_failed(r); }
		else lib([&] { futils_random(b.p, len); });
		memcpy(out.data(), b.p, len);
		xfree(b.p);
		break;
	}
	case 1: for (size_t i = 0; i < len; i++) out[i] = lib([&] { return futils_randomr8(); }); break;
	case 2: for (size_t i = 0; i + 2 <= len; i += 2) { u16 v = lib([&] { return futils_randomr16(); }); memcpy(&out[i], &v, 2); } out.resize(len / 2 * 2); break;
	case 3: for (size_t i = 0; i + 4 <= len; i += 4) { u32 v = lib([&] { return futils_randomr32(); }); memcpy(&out[i], &v, 4); } out.resize(len / 4 * 4); break;
	case 4: for (size_t i = 0; i + 8 <= len; i += 8) { u64 v = lib([&] { return futils_randomr64(); }); memcpy(&out[i], &v, 8); } out.resize(len / 8 * 8); break;
	}
	return out;
}
static size_t choose_len(u32 lo)
{
	switch (pickw({40, 20, 15, 10, 2})) {
	case 0: return lo + choose(48);
	case 1: return lo + log_uniform(700);
	case 2: { static const u32 e[] = {43, 44, 45, 63, 64, 65, 127, 128, 424, 425, 467, 468, 469, 511, 512, 513, 556}; u32 v = e[choose(17)]; return v < lo ? lo : v; }
	case 3: return lo + 400 + choose(1200);
	default: return lo + choose(20000);
	}
}

// Byte-level dependence. rerun(k) alters the entropy in the k-th way; a byte that is the same in the base run
// and in all of 12 altered ones (an honest byte: 2^-96) does not depend on the altered entropy.
typedef std::pair<u64, u32> Pos; // output, byte
static bool stuck_byte(const RunResult &base, std::vector<Pos> cand, const std::function<RunResult(u32)> &again, Pos &out)
{
	for (u32 k = 0; k < 12 && !cand.empty(); k++) {
		RunResult r = again(k);
		if (r.violated || r.marks.size() != base.marks.size() || r.outputs.size() != base.outputs.size()) return false;
		std::vector<Pos> left;
		for (auto &c : cand) {
			const Bytes &x = base.outputs[c.first], &y = r.outputs[c.first];
			if (x.size() != y.size()) return false;
			if (x[c.second] == y[c.second]) left.push_back(c);
		}
		cand = left;
	}
	if (cand.empty()) return false;
	out = cand[0];
	return true;
}

// ------------------------------------------------------------------ C11
// marks: out, from, to: output 'out' must depend on every entropy byte of [from,to)
struct Prog11 { u32 op; u32 len; u32 how; };
static void c11_ops(const std::vector<Prog11> &prog, u64 K, int *aborted_at, bool single)
{
	bool seeded = false;
	u64 pend_from = 0, pend_to = 0;
	auto &E = entropy_cfg();
	auto may_fail = [&] {
		return fault_count(F_ENTROPY_DEV) || E.dead || sys_error_seen(EIO) || sys_error_seen(EPERM) || sys_error_seen(EINVAL) ||
		       (E.dev_missing && (E.nosys || fault_count(F_ENTROPY) || E.ready_at));
	};
	for (size_t i = 0; i < prog.size(); i++) {
		const Prog11 &o = prog[i];
		*aborted_at = (int)i;
		u64 m0 = entropy_mine(), p0 = entropy_pos(), w0 = entropy_weak();
		if (o.op == 0) {
			// ordinary output
			Bytes b = draw_raw(o.len, o.how);
			u64 d = entropy_mine() - m0;
			note("output of %zu bytes, %llu entropy bytes taken", b.size(), (unsigned long long)d);
			if (!seeded && d < K) FAIL("unseeded-output", "%zu bytes handed out after only %llu of %llu seed bytes were obtained", b.size(), (unsigned long long)d, (unsigned long long)K);
			u64 idx = add_output(b);
			if (single) {
				if (d >= K) put_marks({idx, entropy_pos() - K, entropy_pos()});
				else if (pend_to) put_marks({idx, pend_from, pend_to});
			}
			pend_to = 0;
			seeded = true;
		} else if (o.op == 1) {
			int r = lib([&] { return futils_random_reseed(); });
			u64 d = entropy_mine() - m0;
			note("reseed = %d, %llu entropy bytes taken", r, (unsigned long long)d);
			if (r > 0 || r < -4095) FAIL("reseed-result", "reseed returned %d", r);
			if (r == 0) {
				if (d < K) FAIL("reseed-incomplete", "reseed succeeded with %llu of %llu seed bytes", (unsigned long long)d, (unsigned long long)K);
				pend_from = entropy_pos() - K;
				pend_to = entropy_pos();
				seeded = true;
			} else {
				if (!may_fail()) FAIL("reseed-refused", "reseed returned %d although entropy was available", r);
				seeded = false;
				pend_to = 0;
				probe("reseed failed");
			}
		} else {
			Buf b(o.len);
			memset(b.p, 0, o.len);
			int r = lib([&] { return futils_random_strong(b.p, o.len); });
			u64 d = entropy_mine() - m0;
			if (r > 0 || r < -4095) FAIL("strong-result", "futils_random_strong returned %d", r);
			if (r == 0) {
				if (d < o.len) FAIL("strong-incomplete", "futils_random_strong(%u) succeeded with %llu entropy bytes", o.len, (unsigned long long)d);
				if (single) {
					for (u32 k = 0; k < o.len; k++)
						if (b.p[k] != entropy_byte(entropy_pos() - o.len + k))
							FAIL("strong-not-entropy", "byte %u of %u of the strong output is not the byte the system delivered", k, o.len);
					if (entropy_weak() != w0) FAIL("strong-not-ready", "strong output contains bytes delivered before the system's pool was ready");
				}
			} else {
				if (!may_fail()) FAIL("strong-refused", "futils_random_strong(%u) returned %d although entropy was available", o.len, r);
				probe("strong failed");
			}
			xfree(b.p);
		}
		(void)p0;
		if (single && open_lib_fds()) FAIL("leak-descriptor", "descriptors left open:%s", open_fds_desc().c_str());
	}
	*aborted_at = -1;
}
static std::vector<Prog11> c11_prog(u32 n)
{
	std::vector<Prog11> v;
	for (u32 i = 0; i < n; i++) {
		Prog11 o;
		o.op = pickw({5, 3, 3});
		o.how = pickw({6, 1, 1, 1, 1});
		o.len = o.op == 2 ? 1 + log_uniform(700) : (u32)(16 + log_uniform(600));
		v.push_back(o);
	}
	return v;
}
static void c11_env()
{
	auto &E = entropy_cfg();
	if (chance(250000)) E.nosys = true;
	if (chance(120000)) E.dev_missing = true;
	if (chance(300000)) E.chunk = 1 + log_uniform(50);
	if (chance(100000)) E.ready_at = W->mono + 1 + (i64)log_uniform(2000000000);
	if (chance(80000)) E.dead = true;
	choose_faults(FM(F_ENTROPY) | FM(F_ENTROPY_DEV), 12);
}
static u64 c11_calibrate()
{
	u64 K = 0;
	Proc *p = new_proc();
	int t = spawn("calibrate", [&] { u64 m = entropy_mine(); draw_raw(16, 0); K = entropy_mine() - m; }, p);
	join(t);
	if (proc_dead(p) || K < 32) FAIL("seed-too-small", "the generator hands out bytes after %llu bytes of entropy", (unsigned long long)K);
	return K;
}
static void scn_seeding()
{
	auto &E = entropy_cfg();
	E.seed = choose64();
	if (W->variant == 1) E.flips.insert(W->variant_arg);
	if (W->variant >= 2) {
		E.alter_from = W->variant_arg >> 32;
		E.alter_to = E.alter_from + (u32)W->variant_arg;
		E.alter_salt = (u64)W->variant;
	}
	pick_random_build();
	u64 K = c11_calibrate();
	u32 nth = 1 + pickw({6, 3, 1});
	sys_errors_clear();
	c11_env();
	describe("seed bytes %llu, getrandom %s, device %s, chunk %u%s%s, %u threads in turn", (unsigned long long)K, E.nosys ? "missing" : "present", E.dev_missing ? "missing" : "present", E.chunk,
		 E.dead ? ", no source works" : "", E.ready_at ? ", not ready at first" : "", nth);
	for (u32 t = 0; t < nth; t++) {
		std::vector<Prog11> prog = c11_prog(1 + choose(6));
		Proc *p = new_proc();
		int at = -1;
		int tid = spawn("user", [&] { c11_ops(prog, K, &at, true); }, p);
		join(tid);
		if (proc_dead(p)) {
			const Prog11 &o = prog[at];
			if (o.op != 0) FAIL("abort", "the library aborted in %s, which reports errors", o.op == 1 ? "reseed" : "futils_random_strong");
			bool may = fault_count(F_ENTROPY_DEV) || E.dead || sys_error_seen(EIO) || sys_error_seen(EPERM) || sys_error_seen(EINVAL) || (E.dev_missing && (E.nosys || fault_count(F_ENTROPY) || E.ready_at));
			if (!may) FAIL("abort-needless", "the library aborted although entropy was available");
			probe("ordinary generator aborted");
		}
		if (chance(200000)) E.dead = !E.dead;
	}
}
static bool post_seeding(const RunResult &base, const Rerun &rerun, std::string &kind, std::string &msg)
{
	size_t n = base.marks.size() / 3;
	if (!n) return false;
	u64 h = base.loghash;
	for (int k = 0; k < 3; k++) {
		h = mix64(h);
		size_t i = h % n;
		u64 idx = base.marks[i * 3], from = base.marks[i * 3 + 1], to = base.marks[i * 3 + 2];
		u64 pos = from + (h >> 32) % (to - from);
		RunResult r = rerun(1, pos);
		if (r.outputs.size() <= idx || r.violated) continue; // diverged: nothing to compare
		if (r.outputs[idx] == base.outputs[idx]) {
			char b[256];
			snprintf(b, sizeof b, "byte %llu of the %llu seed bytes (entropy position %llu) has no influence on the next output (%zu bytes)", (unsigned long long)(pos - from), (unsigned long long)(to - from),
				 (unsigned long long)pos, base.outputs[idx].size());
			kind = "seed-byte-ignored";
			msg = b;
			return true;
		}
	}
	if (h % 4) return false;
	size_t i = mix64(h) % n;
	u64 idx = base.marks[i * 3], from = base.marks[i * 3 + 1], to = base.marks[i * 3 + 2];
	std::vector<Pos> cand;
	for (u32 b = 0; b < base.outputs[idx].size(); b++) cand.push_back({idx, b});
	Pos p;
	if (stuck_byte(base, cand, [&](u32 k) { return rerun(2 + (int)k, from << 32 | (to - from)); }, p)) {
		char b[200];
		snprintf(b, sizeof b, "byte %u of the %zu bytes handed out does not depend on any of the %llu seed bytes obtained before", p.second, base.outputs[idx].size(), (unsigned long long)(to - from));
		kind = "seed-ignored";
		msg = b;
		return true;
	}
	return false;
}
static Reg reg_seeding(Scenario{"C11", "seeding", 3, scn_seeding, post_seeding, 4});

SCENARIO("C11", seeding_concurrent, 1)
{
	auto &E = entropy_cfg();
	E.seed = choose64();
	pick_random_build();
	u64 K = c11_calibrate();
	u32 n = 2 + choose(3);
	choose_sched((int)n);
	sys_errors_clear();
	c11_env();
	describe("%u threads at once", n);
	std::vector<std::vector<Prog11>> pr(n);
	std::vector<int> at(n, -1), tid(n);
	std::vector<Proc *> ps(n);
	Proc *p = new_proc();
	for (u32 t = 0; t < n; t++) pr[t] = c11_prog(1 + choose(4));
	for (u32 t = 0; t < n; t++) tid[t] = spawn("user", [&, t] { c11_ops(pr[t], K, &at[t], false); }, p);
	for (u32 t = 0; t < n; t++) join(tid[t]);
	if (!proc_dead(p) && open_lib_fds(p)) FAIL("leak-descriptor", "descriptors left open:%s", open_fds_desc(p).c_str());
}
SCENARIO("C11", arguments, 1)
{
	choose_env();
	entropy_cfg().seed = choose64();
	u8 b[8] = {0};
	pick_random_build();
	if (chance(500000)) c11_env();
	entropy_cfg().dead = false;
	int r = choose(2) ? lib([&] { return futils_random_strong(b, 0); }) : lib([&] { return futils_random_strong(nullptr, choose(64)); });
	if (r != -EINVAL) FAIL("strong-arguments", "futils_random_strong with an invalid argument returned %d", r);
}

// ------------------------------------------------------------------ C12
// marks, 8 per operation: kind (0 output, 1 reseed), thread, seq at call, seq at return, result, entropy position at call, at return, output
static void scn_reseed()
{
	W->cfg.step_cap = 400000000;
	W->cfg.vis_cap = 4000000;
	auto &E = entropy_cfg();
	E.seed = choose64();
	if (W->variant) {
		E.alter_from = W->variant_arg;
		E.alter_salt = (u64)W->variant;
	}
	u32 n = 1 + pickw({2, 5, 3, 1});
	pick_random_build();
	choose_sched((int)n);
	if (chance(200000)) E.chunk = 1 + log_uniform(50);
	if (chance(200000)) E.nosys = true;
	bool faulty = chance(300000);
	struct Op { u32 k; u32 len; u32 how; u32 rep; u32 pause; };
	std::vector<std::vector<Op>> pr(n);
	bool bulk = chance(60000), huge = false;
	for (auto &v : pr) {
		u32 m = 1 + choose(7);
		for (u32 i = 0; i < m; i++) {
			Op o;
			o.k = pickw({5, 3});
			o.how = pickw({6, 1, 1, 1, 1});
			o.len = (u32)choose_len(16);
			if (o.how && o.len > 600) o.len = 600;
			if (o.len > 3000) o.len = 3000;
			o.rep = 1;
			if (o.k == 1 && bulk && chance(400000)) {
				static const u32 reps[] = {2, 3, 126, 127, 128, 129, 254, 255, 256, 257};
				o.rep = !huge && chance(20000) ? 32768 - choose(3) : reps[choose(10)];
				huge = huge || o.rep > 1000;
			}
			o.pause = choose(3);
			v.push_back(o);
		}
	}
	if (faulty) choose_faults(FM(F_ENTROPY) | FM(F_ENTROPY_DEV), 12);
	describe("%u threads%s%s", n, faulty ? ", failing entropy sources" : "", bulk ? ", many reseeds" : "");
	Proc *p = new_proc();
	std::vector<int> tid;
	for (u32 t = 0; t < n; t++)
		tid.push_back(spawn("user", [&, t] {
			for (const Op &o : pr[t]) {
				for (u32 k = 0; k < o.pause; k++) yield_point();
				for (u32 k = 0; k < o.rep; k++) {
					u64 s0 = now_seq(), p0 = entropy_pos();
					ev("call", o.k);
					if (o.k == 0) {
						Bytes b = draw_raw(o.len, o.how);
						ev("return");
						u64 idx = add_output(b);
						put_marks({0, t, s0, now_seq(), 0, p0, entropy_pos(), idx});
					} else {
						int r = lib([&] { return futils_random_reseed(); });
						ev("return", r);
						if (o.rep == 1 || k == 0 || k + 1 == o.rep || r) put_marks({1, t, s0, now_seq(), (u64)(i64)r, p0, entropy_pos(), 0});
					}
				}
			}
		}, p));
	for (int t : tid) join(t);
}
// every thread has a stream; one of them reseeds many times while the others rest
static void scn_many_reseeds()
{
	W->cfg.step_cap = 1500000000;
	W->cfg.vis_cap = 4000000;
	auto &E = entropy_cfg();
	E.seed = choose64();
	if (W->variant) {
		E.alter_from = W->variant_arg;
		E.alter_salt = (u64)W->variant;
	}
	static const u32 few[] = {63, 64, 127, 128, 129, 255, 256, 257, 512, 1024, 4096}, lots[] = {32767, 32768, 32769, 65535, 65536};
	u32 n = chance(40000) ? lots[choose(5)] : few[choose(11)];
	pick_random_build();
	u32 others = 1 + choose(2), done = 0, fin = 0;
	bool mine = choose(2); // the one that reseeds draws in between
	choose_env();
	describe("%u reseeds in one thread, %u other threads", n, others);
	Proc *p = new_proc();
	auto draw = [&](u32 t) {
		u64 s0 = now_seq(), p0 = entropy_pos();
		Bytes b = draw_raw(8 + choose(24), 0);
		u64 idx = add_output(b);
		put_marks({0, t, s0, now_seq(), 0, p0, entropy_pos(), idx});
	};
	std::vector<int> tid;
	for (u32 t = 0; t < others; t++)
		tid.push_back(spawn("resting", [&, t] {
			draw(t + 1);
			done++;
			while (!fin) sleep_ns(1000000000);
			draw(t + 1);
		}, p));
	tid.push_back(spawn("reseeding", [&] {
		draw(0);
		while (done < others) sleep_ns(1000000);
		for (u32 k = 0; k < n; k++) {
			u64 s0 = now_seq(), p0 = entropy_pos();
			int r = lib([&] { return futils_random_reseed(); });
			if (r) FAIL("reseed-result", "reseed returned %d although entropy was available", r);
			if (k + 1 == n) put_marks({1, 0, s0, now_seq(), 0, p0, entropy_pos(), 0});
			if (mine && k % 97 == 5) lib([&] { futils_randomr8(); });
		}
		fin = 1;
	}, p));
	for (int t : tid) join(t);
}
// reseeds in a storm: two threads reseed without a break while others draw
static void scn_storm()
{
	W->cfg.step_cap = 400000000;
	W->cfg.vis_cap = 4000000;
	auto &E = entropy_cfg();
	E.seed = choose64();
	if (W->variant) {
		E.alter_from = W->variant_arg;
		E.alter_salt = (u64)W->variant;
	}
	pick_random_build(100000);
	u32 rs = 2 + choose(2), dr = 1 + choose(2), n = rs + dr;
	choose_sched((int)n);
	W->cfg.preempt = true;
	W->cfg.fine = choose(4) == 3;
	W->cfg.preempt_left = W->cfg.fine ? 5000 : 1 + (int)choose(4); // few: who is interrupted stays behind
	W->cfg.vis_ppm = W->cfg.fine ? 100000 : 0;
	if (choose(2)) W->cfg.stall_ppm = 0;
	describe("%u threads reseed in a storm, %u draw", rs, dr);
	Proc *p = new_proc();
	std::vector<int> tid;
	u32 reps = 1 + choose(4), active = rs;
	for (u32 t = 0; t < n; t++)
		tid.push_back(spawn("user", [&, t] {
			if (t < rs) {
				for (u32 k = 0; k < reps + t; k++) {
					u64 s0 = now_seq(), p0 = entropy_pos();
					int r = lib([&] { return futils_random_reseed(); });
					ev("reseeded", r);
					put_marks({1, t, s0, now_seq(), (u64)(i64)r, p0, entropy_pos(), 0});
					yield_point();
				}
				active--;
			} else {
				for (u32 k = 0, last = 0; k < 12 && !last; k++) {
					last = !active;
					u64 s0 = now_seq(), p0 = entropy_pos();
					Bytes b = draw_raw(8, 0);
					ev("drawn");
					u64 idx = add_output(b);
					put_marks({0, t, s0, now_seq(), 0, p0, entropy_pos(), idx});
					yield_point();
				}
			}
		}, p));
	for (int t : tid) join(t);
}
static bool post_reseed(const RunResult &base, const Rerun &rerun, std::string &kind, std::string &msg)
{
	size_t n = base.marks.size() / 8;
	const u64 *m = base.marks.data();
	std::vector<size_t> rs;
	for (size_t i = 0; i < n; i++) if (m[i * 8] == 1) rs.push_back(i);
	if (rs.empty()) return false;
	u64 h = base.loghash;
	bool storm = rs.size() * 2 > n;
	u32 tries = std::min((u32)rs.size(), storm ? 4u : 2u);
	for (u32 k = 0; k < tries; k++) {
		h = mix64(h);
		size_t i = rs[storm ? rs.size() - 1 - k : h % rs.size()];
		const u64 *x = m + i * 8;
		bool okr = (i64)x[4] == 0;
		// a successful reseed counts from its call, a failed one from its return
		RunResult r = rerun(1, okr ? x[5] : x[6]);
		if (r.violated || r.marks.size() != base.marks.size()) continue;
		for (size_t j = 0; j < n; j++) {
			const u64 *y = m + j * 8;
			if (y[0] != 0 || y[2] < x[3]) continue;
			if (!okr && y[1] != x[1]) continue;
			if (r.outputs.size() > y[7] && base.outputs[y[7]].size() >= 8 && r.outputs[y[7]] == base.outputs[y[7]]) {
				char b[300];
				snprintf(b, sizeof b, "an output requested by thread %llu after a reseed in thread %llu %s does not depend on entropy obtained after the %s", (unsigned long long)y[1], (unsigned long long)x[1],
					 okr ? "had returned 0" : "had failed", okr ? "call" : "failure");
				kind = okr ? "stale-stream" : "weak-after-failed-reseed";
				msg = b;
				return true;
			}
		}
		if (k || h % 3) continue;
		std::vector<Pos> cand;
		for (size_t j = 0; j < n; j++) {
			const u64 *y = m + j * 8;
			if (y[0] != 0 || y[2] < x[3] || (!okr && y[1] != x[1])) continue;
			for (u32 b = 0; b < base.outputs[y[7]].size(); b++) cand.push_back({y[7], b});
		}
		Pos p;
		if (stuck_byte(base, cand, [&](u32 q) { return rerun(2 + (int)q, okr ? x[5] : x[6]); }, p)) {
			char b[200];
			snprintf(b, sizeof b, "byte %u of an output of %zu bytes, requested after a reseed that %s, does not depend on entropy obtained since", p.second, base.outputs[p.first].size(), okr ? "returned 0" : "failed");
			kind = okr ? "stale-byte" : "weak-byte-after-failed-reseed";
			msg = b;
			return true;
		}
	}
	return false;
}
static Reg reg_reseed(Scenario{"C12", "reseed", 12, scn_reseed, post_reseed, 1});
static Reg reg_storm(Scenario{"C12", "storm", 6, scn_storm, post_reseed, 1});
static Reg reg_many_reseeds(Scenario{"C12", "many_reseeds", 1, scn_many_reseeds, post_reseed, 1});

// ------------------------------------------------------------------ C13
// ChaCha20 (RFC 8439), the attacker's copy
static void attacker_block(const u8 key[32], const u8 nonce[12], u32 ctr, u8 out[64])
{
	u32 s[16], x[16];
	memcpy(s, "expand 32-byte k", 16);
	memcpy(s + 4, key, 32);
	s[12] = ctr;
	memcpy(s + 13, nonce, 12);
	memcpy(x, s, 64);
	auto rot = [](u32 v, int k) { return v << k | v >> (32 - k); };
	auto qr = [&](int a, int b, int c, int d) {
		x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 16);
		x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 8);
		x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 7);
	};
	for (int i = 0; i < 10; i++) {
		qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
		qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
	}
	for (int i = 0; i < 16; i++) x[i] += s[i];
	memcpy(out, x, 64);
}
// somebody who obtains the generator's state: takes every stretch of it for a
// key and tries to compute what was handed out before
static bool recomputable(const Bytes &out)
{
	if (out.size() < 8) return false;
	const u8 *first = out.data(), *last = out.data() + out.size() - 8;
	for (auto &m : state_bytes()) {
		size_t run = 0; // a key of zeroes is no key
		for (size_t i = 0; i + 44 <= m.size(); i++) {
			run = m[i] ? 0 : run + 1;
			if (run >= 8) continue;
			for (int lay = 0; lay < 2; lay++) {
				if (lay && i + 48 > m.size()) continue;
				const u8 *k = &m[i], *n = k + (lay ? 36 : 32);
				if (n[0] == 0 && !memcmp(n, n + 1, 11) && !memcmp(k, k + 1, 31)) continue; // nothing was set up here
				u8 ks[64 * 10];
				for (u32 b = 0; b < 10; b++) attacker_block(k, n, b, ks + 64 * b);
				if (memmem(ks, sizeof ks, first, 8) || memmem(ks, sizeof ks, last, 8)) return true;
			}
		}
	}
	return false;
}
struct Windows {
	bool attack = false;
	std::unordered_map<u64, u64> seen; // window -> (stream, position)
	std::map<int, Bytes> tail;
	std::map<int, u64> len;
	void add(int stream, const Bytes &b, const char *what)
	{
		Bytes &t = tail[stream];
		u64 base = len[stream] - t.size();
		Bytes all = t;
		all.insert(all.end(), b.begin(), b.end());
		size_t first = t.size() >= 11 ? t.size() - 11 : 0;
		for (size_t i = first; i + 12 <= all.size(); i++) {
			u64 a; u32 c;
			memcpy(&a, &all[i], 8);
			memcpy(&c, &all[i + 8], 4);
			u64 h = mix2(a, c);
			auto r = seen.emplace(h, ((u64)stream << 40) | (base + i));
			if (!r.second)
				FAIL("repeated-output", "%s: bytes %llu.. of stream %d were already handed out at %llu of stream %llu", what, (unsigned long long)(base + i), stream,
				     (unsigned long long)(r.first->second & 0xffffffffffull), (unsigned long long)(r.first->second >> 40));
		}
		len[stream] += b.size();
		t = all.size() > 700 ? Bytes(all.end() - 700, all.end()) : all;
	}
	void erased(int stream)
	{
		const Bytes &t = tail[stream];
		if (t.size() < 8) return;
		for (int k = 0; k < 4; k++) {
			size_t o = k == 0 ? t.size() - 8 : k == 1 ? t.size() - 8 - (t.size() - 8 > 40 ? 40 : t.size() - 8) : choose((u32)t.size() - 7);
			if (state_contains(&t[o], 8)) FAIL("output-retained", "bytes handed out are still present in the generator's state");
		}
	}
};
static void c13_user(Windows &w, int stream, u32 ops, bool reseeds, bool scan)
{
	for (u32 i = 0; i < ops; i++) {
		u32 k = pickw({8, 3, 2});
		if (k == 2 && reseeds) {
			int r = lib([&] { return futils_random_reseed(); });
			if (r) FAIL("reseed-result", "reseed returned %d although entropy was available", r);
			continue;
		}
		u32 how = k == 1 ? 1 + choose(4) : 0;
		size_t len = how ? 1 + log_uniform(700) : chance(300000) ? 1 + choose(16) : choose_len(1);
		u32 rep = len < 64 ? 1 + log_uniform(24) : 1 + log_uniform(3);
		for (u32 q = 0; q < rep; q++) {
			Bytes b = draw_raw(len, how);
			w.add(stream, b, "output");
			if (scan) w.erased(stream);
			if (scan && w.attack && choose(8) == 7 && recomputable(b))
				FAIL("output-recomputable", "%zu bytes handed out can be computed from the generator's retained state", b.size());
		}
	}
}
SCENARIO("C13", streams, 3)
{
	auto &E = entropy_cfg();
	E.seed = choose64();
	u32 n = 1 + pickw({4, 4, 2, 1});
	bool crowd = choose(24) == 23;
	if (crowd) n = 5 + log_uniform(90);
	pick_random_build();
	choose_sched((int)n);
	if (chance(200000)) E.chunk = 1 + log_uniform(50);
	auto w = std::make_shared<Windows>();
	std::vector<int> tid;
	describe("%u threads", n);
	bool reseeds = chance(400000);
	std::vector<u32> ops(n);
	for (auto &o : ops) o = crowd ? 1 + choose(3) : 2 + choose(8);
	if (crowd) probe("a crowd of threads");
	w->attack = n == 1 && choose(50) == 49;
	for (u32 t = 0; t < n; t++) tid.push_back(spawn("user", [=] { c13_user(*w, (int)t, ops[t], reseeds, n == 1 || chance(300000)); }));
	for (int t : tid) join(t);
	if (chance(100000)) {
		// threads that end and others that start later
		tid.clear();
		for (u32 t = 0; t < n; t++) tid.push_back(spawn("later", [=] { c13_user(*w, (int)(100 + t), 2, false, false); }));
		for (int t : tid) join(t);
	}
}
// one very long request
SCENARIO("C13", long_request, 1)
{
	choose_env();
	auto &E = entropy_cfg();
	E.seed = choose64();
	pick_random_build(50000);
	bool huge = choose(1200) == 1199;
	size_t n = huge ? (4u << 20) + choose(3u << 20) : 16384 + choose(40000);
	describe("one request for %zu bytes", n);
	u32 before = choose(3);
	auto w = std::make_shared<Windows>();
	c13_user(*w, 0, before, false, false);
	Bytes b = draw_raw(n, 0);
	// whole repeated stretches show at any step: compare one window per block
	std::unordered_map<u64, size_t> seen;
	u32 shift = choose(56);
	for (size_t i = shift; i + 8 <= n; i += 64) {
		u64 v;
		memcpy(&v, &b[i], 8);
		auto r = seen.emplace(v, i);
		if (!r.second) FAIL("repeated-output", "bytes %zu.. of a request for %zu bytes repeat those at %zu", i, n, r.first->second);
	}
	c13_user(*w, 0, 1, false, false);
	w->add(0, Bytes(b.begin(), b.begin() + 4096), "output");
	w->add(1, Bytes(b.end() - 4096, b.end()), "output");
	if (state_contains(&b[n - 8], 8)) FAIL("output-retained", "bytes handed out are still present in the generator's state");
}
SCENARIO("C13", fork_reseed, 2)
{
	choose_env();
	auto &E = entropy_cfg();
	E.seed = choose64();
	auto w = std::make_shared<Windows>();
	pick_random_build();
	u32 kids = 1 + choose(3);
	u32 before = choose(5), order = choose(2), gen = choose(2);
	describe("%u children, %u operations before the fork", kids, before);
	c13_user(*w, 0, before, chance(300000), false);
	std::vector<u8> img = fork_image(), parent;
	auto child = [&](int s) {
		int r = lib([&] { return futils_random_reseed(); });
		if (r) FAIL("reseed-result", "reseed returned %d although entropy was available", r);
		c13_user(*w, s, 1 + choose(4), chance(200000), false);
	};
	if (order) { c13_user(*w, 0, 1 + choose(4), false, false); parent = fork_image(); }
	for (u32 k = 0; k < kids; k++) {
		fork_load(img);
		child((int)(1 + k));
		if (gen) {
			// a grandchild, then the child goes on
			std::vector<u8> mid = fork_image();
			child((int)(10 + k));
			fork_load(mid);
			c13_user(*w, (int)(1 + k), 1 + choose(3), false, false);
		}
		if (chance(300000)) {
			// another thread of the child
			int t = spawn("child-thread", [=] { c13_user(*w, (int)(20 + k), 2, false, false); });
			join(t);
		}
	}
	fork_load(order ? parent : img);
	c13_user(*w, 0, 1 + choose(4), false, true);
}

// ------------------------------------------------------------------ C14
// chi-square of counts against probabilities; the limit is far out in the tail
// (about 1e-19), so that a fair generator never trips it
static void chi2(const char *what, const std::vector<u32> &cnt, const std::vector<double> &p, u32 n)
{
	double x = 0;
	u32 k = 0;
	double restp = 0;
	u32 restc = 0;
	for (size_t i = 0; i < cnt.size(); i++) {
		double e = p[i] * n;
		if (e < 16) { restp += p[i]; restc += cnt[i]; continue; }
		x += (cnt[i] - e) * (cnt[i] - e) / e;
		k++;
	}
	if (restp * n >= 16) { double e = restp * n; x += (restc - e) * (restc - e) / e; k++; }
	if (k < 2) return;
	double df = k - 1;
	double z = (cbrt(x / df) - (1 - 2 / (9 * df))) / sqrt(2 / (9 * df));
	if (z > 9) {
		std::string s;
		for (size_t i = 0; i < cnt.size() && i < 20; i++) s += " " + std::to_string(cnt[i]);
		FAIL("not-uniform", "%s: %u draws are not uniform (z=%.1f), counts%s%s", what, n, z, s.c_str(), cnt.size() > 20 ? " ..." : "");
	}
}
static void balanced(const char *what, u32 ones, u32 n)
{
	double z = (2.0 * ones - n) / sqrt((double)n);
	if (z > 9.5 || z < -9.5) FAIL("not-uniform", "%s: %u of %u", what, ones, n);
}
// bits of one number against each other: how often bits i and i+k differ
struct Pairs {
	u32 nb, n = 0;
	std::vector<u32> ks;
	std::vector<std::vector<u32>> diff;
	Pairs(u32 bits) : nb(bits)
	{
		static const u32 fixed[] = {8, 16, 24, 32, 1};
		for (u32 q = 0; q < 2 && nb >= 2; q++) { u32 k = q ? 1 + choose(nb - 1) : fixed[choose(5)]; if (k < nb) ks.push_back(k); }
		diff.assign(ks.size(), std::vector<u32>(64, 0));
	}
	void add(u64 v)
	{
		n++;
		for (size_t q = 0; q < ks.size(); q++) { u64 x = v ^ (v >> ks[q]); for (u32 b = 0; b + ks[q] < nb; b++) diff[q][b] += (x >> b) & 1; }
	}
	void check(const char *what)
	{
		for (size_t q = 0; q < ks.size(); q++) for (u32 b = 0; b + ks[q] < nb; b++) {
			double z = (2.0 * diff[q][b] - n) / sqrt((double)n);
			if (z > 9.5 || z < -9.5) FAIL("not-independent", "%s: bits %u and %u differ in %u of %u values", what, b, b + ks[q], diff[q][b], n);
		}
	}
};
typedef unsigned __int128 u128;
static u64 choose_max(u32 bits)
{
	u64 full = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
	u32 k = 1 + choose(bits);
	u64 p = k == 64 ? 0 : 1ull << k; // 0: 2^64
	switch (pickw({3, 2, 2, 2, 3, 3, 2})) {
	case 0: v = choose(12); break;
	case 1: v = p - 1; break;
	case 2: v = p; break;
	case 3: v = p + 1; break;
	case 4: v = (p >> 1) + (p >> 2) + choose(3); break;
	case 5: v = (p >> 1) + (choose64() & ((p >> 1) - 1)); break;
	default: v = (p >> 1) + (p >> 3); break;
	}
	return v & full;
}
SCENARIO("C14", bounded, 4)
{
	pick_random_build(60000);
	W->cfg.step_cap = 400000000;
	entropy_cfg().seed = choose64();
	if (chance(200000)) entropy_cfg().chunk = 1 + choose(60);
	if (chance(200000)) choose_faults(FM(F_ENTROPY), 4);
	static const u32 wb[] = {8, 16, 32, 64};
	u32 wi = choose(4), bits = wb[wi];
	u64 max = choose_max(bits);
	u32 n = chance(20000) ? 80000 : 600 + choose(1500);
	describe("r%u_maximum(%llu) x %u", bits, (unsigned long long)max, n);
	bool small = max < 64;
	u32 cells = small ? (u32)max + 1 : 16;
	std::vector<u32> cnt(cells, 0), low(8, 0), mid(8, 0);
	u32 lg = 0;
	while (lg < 63 && (max >> (lg + 1))) lg++;
	bool domid = lg >= 14;
	Pairs pairs(max && !(max & (max + 1)) ? lg + 1 : lg > 12 ? lg - 12 : 0);
	u32 sh = domid ? choose(lg - 12) : 0;
	bool inl = !W->build && choose(4) == 3;
	for (u32 i = 0; i < n; i++) {
		u64 v = lib([&]() -> u64 {
			if (inl) {
				u8 v8 = 0; u16 v16 = 0; u32 v32 = 0; u64 v64 = 0;
				int r = wi == 0 ? ri_8_max(&v8, (u8)max) : wi == 1 ? ri_16_max(&v16, (u16)max) : wi == 2 ? ri_32_max(&v32, (u32)max) : ri_64_max(&v64, max);
				if (r) FAIL("draw-refused", "the inline function for a number up to %llu returned %d", (unsigned long long)max, r);
				return wi == 0 ? v8 : wi == 1 ? v16 : wi == 2 ? v32 : v64;
			}
			switch (wi) {
			case 0: return futils_randomr8_maximum((u8)max);
			case 1: return futils_randomr16_maximum((u16)max);
			case 2: return futils_randomr32_maximum((u32)max);
			default: return futils_randomr64_maximum(max);
			}
		});
		if (v > max) FAIL("out-of-range", "futils_randomr%u_maximum(%llu) returned %llu", bits, (unsigned long long)max, (unsigned long long)v);
		pairs.add(v);
		if (small) cnt[v]++;
		else { cnt[(u32)(((u128)v * 16) / ((u128)max + 1))]++; low[v & 7]++; if (domid) mid[(v >> sh) & 7]++; }
	}
	std::vector<double> p(cells);
	char what[80];
	snprintf(what, sizeof what, "futils_randomr%u_maximum(%llu)", bits, (unsigned long long)max);
	if (small) for (auto &x : p) x = 1.0 / cells;
	else for (u32 c = 0; c < 16; c++) {
		u128 M = (u128)max + 1;
		auto lo = [&](u32 q) { return (M * q + 15) / 16; }; // first v with v*16/M >= q
		p[c] = (double)(lo(c + 1) - lo(c)) / (double)M;
	}
	chi2(what, cnt, p, n);
	pairs.check(what);
	if (!small) {
		std::vector<double> pl(8);
		for (u32 c = 0; c < 8; c++) pl[c] = (double)(((u128)max + 8 - c) / 8) / (double)((u128)max + 1);
		chi2(what, low, pl, n);
		if (domid) chi2(what, mid, std::vector<double>(8, 0.125), n);
	}
}
SCENARIO("C14", unit_reals, 1)
{
	W->cfg.step_cap = 400000000;
	entropy_cfg().seed = choose64();
	u32 n = chance(50000) ? 40000 : 1500;
	bool dbl = choose(2);
	describe("%s x %u", dbl ? "futils_randomrd" : "futils_randomrf", n);
	std::vector<u32> cnt(16, 0), bit(53, 0);
	u32 nb = dbl ? 53 : 24;
	Pairs pairs(nb);
	for (u32 i = 0; i < n; i++) {
		double v = lib([&]() -> double { return dbl ? futils_randomrd() : (double)futils_randomrf(); });
		if (!(v >= 0 && v < 1)) FAIL("out-of-range", "%s returned %.20g", dbl ? "futils_randomrd" : "futils_randomrf", v);
		double q = ldexp(v, (int)nb);
		if (q != floor(q)) FAIL("not-multiple", "%s returned %.20g, not a multiple of 2^-%u", dbl ? "futils_randomrd" : "futils_randomrf", v, nb);
		u64 x = (u64)q;
		cnt[(u32)(v * 16)]++;
		pairs.add(x);
		for (u32 b = 0; b < nb; b++) if ((x >> b) & 1) bit[b]++;
	}
	chi2(dbl ? "futils_randomrd" : "futils_randomrf", cnt, std::vector<double>(16, 1 / 16.0), n);
	for (u32 b = 0; b < nb; b++) balanced("bit of a unit real", bit[b], n);
	pairs.check(dbl ? "futils_randomrd" : "futils_randomrf");
}
// strings: 0 base16, 1 base32, 2 base64, 3 alphabet
static const char *const SN[] = {"base16", "base32", "base64", "string"};
static int call_string(u32 kind, char *b, size_t len, size_t count, const char *al)
{
	return lib([&] {
		switch (kind) {
		case 0: return futils_random_base16(b, len, count);
		case 1: return futils_random_base32(b, len, count);
		case 2: return futils_random_base64(b, len, count);
		default: return futils_random_string(b, len, count, al);
		}
	});
}
static size_t full_len(u32 kind, size_t count)
{
	return kind == 0 ? count * 2 : kind == 1 ? (count + 4) / 5 * 8 : kind == 2 ? (count + 2) / 3 * 4 : count;
}
static std::string alphabet_of(u32 kind)
{
	std::string up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", lw = "abcdefghijklmnopqrstuvwxyz";
	if (kind == 0) return "0123456789abcdef";
	if (kind == 1) return up + "234567";
	if (kind == 2) return up + lw + "0123456789+/";
	u32 n = pickw({3, 1, 1}) == 1 ? 1 : 1 + log_uniform(200);
	std::string s;
	for (u32 i = 0; i < n; i++) s.push_back((char)(1 + i));
	return s;
}
// number of data characters, and of significant bits in the last of them
static void layout(u32 kind, size_t count, size_t &data, u32 &lastbits)
{
	u32 bpc = kind == 0 ? 4 : kind == 1 ? 5 : 6;
	if (kind == 3) { data = count; lastbits = 0; return; }
	size_t bits = count * 8;
	data = (bits + bpc - 1) / bpc;
	lastbits = (u32)(bits - (data ? (data - 1) * bpc : 0));
	if (!data) lastbits = bpc;
}
static void check_string(u32 kind, const std::string &al, const char *b, size_t len, size_t count, int r)
{
	char what[100];
	snprintf(what, sizeof what, "futils_random_%s(len %zu, count %zu)", SN[kind], len, count);
	size_t full = full_len(kind, count);
	if (kind == 3 && al.empty()) full = 0;
	if (r < 0 || (size_t)r != full) FAIL("string-length", "%s returned %d, expected %zu", what, r, full);
	if (!len) return;
	size_t w = full < len - 1 ? full : len - 1;
	size_t got = strnlen(b, len);
	if (got != w) FAIL("string-termination", "%s wrote a string of %zu characters, expected %zu", what, got, w);
	size_t data;
	u32 lastbits;
	layout(kind, count, data, lastbits);
	u32 bpc = kind == 0 ? 4 : kind == 1 ? 5 : 6;
	for (size_t i = 0; i < w; i++) {
		if (i >= data) { if (b[i] != '=') FAIL("string-padding", "%s: character %zu is '%c', expected padding", what, i, b[i]); continue; }
		size_t v = al.find(b[i]);
		if (v == std::string::npos) FAIL("string-alphabet", "%s: character %zu is 0x%02x", what, i, (u8)b[i]);
		if (kind != 3 && i + 1 == data && lastbits < bpc && (v & ((1u << (bpc - lastbits)) - 1))) FAIL("string-padding", "%s: padding bits set in the last character", what);
	}
}
SCENARIO("C14", string_shape, 4)
{
	pick_random_build(60000);
	choose_env();
	entropy_cfg().seed = choose64();
	if (chance(200000)) choose_faults(FM(F_ENTROPY), 4);
	u32 kind = choose(4);
	std::string al = alphabet_of(kind);
	if (kind == 3 && chance(60000)) al = "";
	if (chance(60000)) {
		// counts the result type cannot express
		static const u64 big[] = {(u64)INT_MAX + 1, (u64)INT_MAX * 2, ~0ull, ~0ull - 1, ~0ull - 2, ~0ull - 3, ~0ull - 4, 1ull << 62, 1ull << 63, ((u64)INT_MAX + 1) / 2 + 1, ((u64)INT_MAX / 8) * 5 + 8, ((u64)INT_MAX / 4) * 3 + 6};
		u64 c = big[choose(12)];
		// the documented length, in 128 bits
		u128 full = kind == 0 ? (u128)c * 2 : kind == 1 ? ((u128)c + 4) / 5 * 8 : kind == 2 ? ((u128)c + 2) / 3 * 4 : (u128)c;
		Buf b(64);
		memset(b.p, 0x7e, 64);
		size_t len = choose(2) ? choose(64) : 0;
		describe("%s, count %llu", SN[kind], (unsigned long long)c);
		int r = call_string(kind, (char *)b.p, len, c, al.empty() ? "x" : al.c_str());
		if (full > INT_MAX) { if (r >= 0) FAIL("string-overflow", "futils_random_%s(count %llu) returned %d", SN[kind], (unsigned long long)c, r); }
		else if ((u128)r != full) FAIL("string-length", "futils_random_%s(count %llu) returned %d", SN[kind], (unsigned long long)c, r);
		xfree(b.p);
		return;
	}
	u32 rep = 1 + choose(6);
	for (u32 q = 0; q < rep; q++) {
		size_t count = log_uniform(600);
		size_t full = full_len(kind, count), len;
		switch (pickw({3, 3, 2, 1})) {
		case 0: len = full + 1 + choose(4); break;
		case 1: len = choose((u32)full + 2); break;
		case 2: len = full + 1 > choose(9) ? full + 1 - choose((u32)(full + 1 > 9 ? 9 : full + 1)) : full; break;
		default: len = 0; break;
		}
		if (!q) describe("%s, count %zu, buffer %zu", SN[kind], count, len);
		Buf b(len);
		memset(b.p, 0x7e, len ? len : 1);
		int r = call_string(kind, len || choose(2) ? (char *)b.p : nullptr, len, count, al.c_str());
		check_string(kind, al, (char *)b.p, len, count, r);
		xfree(b.p);
	}
}
// uniformity and independence of characters of generated strings
SCENARIO("C14", string_statistics, 5)
{
	W->cfg.step_cap = 400000000;
	entropy_cfg().seed = choose64();
	u32 kind = choose(4);
	std::string al = alphabet_of(kind);
	size_t count = kind == 3 ? 2 + choose(24) : 1 + log_uniform(24);
	size_t data;
	u32 lastbits;
	layout(kind, count, data, lastbits);
	size_t full = full_len(kind, count);
	size_t len = full + 1;
	if (chance(150000) && full > 1) len = 2 + choose((u32)full - 1); // truncated strings are just as random
	size_t w = len - 1 < data ? len - 1 : data;
	u32 N = chance(20000) ? 4000 : 300 + choose(300);
	describe("%s, count %zu, alphabet %zu, %u strings", SN[kind], count, al.size(), N);
	u32 A = (u32)al.size(), bpc = kind == 0 ? 4 : kind == 1 ? 5 : kind == 2 ? 6 : 0;
	std::vector<std::vector<u32>> val(N);
	Buf b(len);
	for (u32 q = 0; q < N; q++) {
		int r = call_string(kind, (char *)b.p, len, count, al.c_str());
		check_string(kind, al, (char *)b.p, len, count, r);
		val[q].resize(w);
		for (size_t i = 0; i < w; i++) val[q][i] = (u32)al.find((char)b.p[i]);
	}
	xfree(b.p);
	if (!w) return;
	char what[120];
	auto sig = [&](size_t i) { return kind != 3 && i + 1 == data ? lastbits : bpc; };
	// all full characters together, then one position
	std::vector<u32> all(A, 0);
	u32 tot = 0;
	for (auto &v : val) for (size_t i = 0; i < w; i++) if (sig(i) == bpc) { all[v[i]]++; tot++; }
	snprintf(what, sizeof what, "characters of futils_random_%s(count %zu, alphabet of %u)", SN[kind], count, A);
	if (tot) chi2(what, all, std::vector<double>(A, 1.0 / A), tot);
	for (int t = 0; t < 4; t++) {
		size_t i = t == 0 ? w - 1 : choose((u32)w);
		u32 drop = kind == 3 ? 0 : bpc - sig(i), cells = A >> drop;
		std::vector<u32> c(cells, 0);
		for (auto &v : val) c[v[i] >> drop]++;
		snprintf(what, sizeof what, "character %zu of futils_random_%s(count %zu)", i, SN[kind], count);
		chi2(what, c, std::vector<double>(cells, 1.0 / cells), N);
	}
	// pairs of positions: bits of one against bits of the other, and equality
	for (int t = 0; t < 6 && w >= 2; t++) {
		size_t i, j;
		if (t < 2) { j = w - 1 - (t && w > 2 ? 1 : 0); i = j - 1; }
		else { i = choose((u32)w); j = choose((u32)w); }
		if (i == j) continue;
		if (kind != 3) {
			for (u32 a = bpc - sig(i); a < bpc; a++)
				for (u32 c = bpc - sig(j); c < bpc; c++) {
					u32 ones = 0;
					for (auto &v : val) ones += ((v[i] >> a) ^ (v[j] >> c)) & 1;
					double z = (2.0 * ones - N) / sqrt((double)N);
					if (z > 9.5 || z < -9.5)
						FAIL("not-independent", "futils_random_%s(count %zu): bit %u of character %zu and bit %u of character %zu agree in %u of %u strings", SN[kind], count, a, i, c, j, N - ones, N);
				}
		} else if (A >= 2) {
			u32 same = 0, sgt = 0;
			for (auto &v : val) { same += v[i] == v[j]; sgt += (v[i] >= A / 2) == (v[j] >= A / 2); }
			double p = 1.0 / A, z = (same - p * N) / sqrt(N * p * (1 - p));
			// few expected: allow for the discrete tail
			if (same > p * N + 60 && z > 9.5) FAIL("not-independent", "futils_random_string: characters %zu and %zu are equal in %u of %u strings (alphabet of %u)", i, j, same, N, A);
			double h = (double)(A / 2) / A, ps = h * h + (1 - h) * (1 - h);
			double zs = (sgt - ps * N) / sqrt(N * ps * (1 - ps));
			if (zs > 9.5 || zs < -9.5) FAIL("not-independent", "futils_random_string: characters %zu and %zu are related", i, j);
		}
	}
	// the same position in consecutive strings
	for (int t = 0; t < 2; t++) {
		size_t i = t ? w - 1 : 0;
		u32 same = 0;
		for (u32 q = 1; q < N; q++) same += val[q][i] == val[q - 1][i];
		u32 cells = kind == 3 ? A : A >> (bpc - sig(i));
		if (cells < 2) continue;
		double p = 1.0 / cells, z = (same - p * (N - 1)) / sqrt((N - 1) * p * (1 - p));
		if (same > p * N + 60 && z > 9.5) FAIL("not-independent", "futils_random_%s: character %zu repeats in consecutive strings", SN[kind], i);
	}
}
SCENARIO("C14", shuffle, 3)
{
	choose_env();
	W->cfg.step_cap = 400000000;
	entropy_cfg().seed = choose64();
	u32 n = pickw({4, 3, 1}), size;
	n = n == 0 ? 2 + choose(4) : n == 1 ? 1 + log_uniform(60) : choose(3);
	static const u32 sz[] = {1, 2, 4, 8, 3, 7, 9, 12, 16, 40, 300};
	size = sz[choose(11)];
	u32 N = n <= 3 ? 300 : n == 4 ? 900 : n == 5 ? 3000 : 100;
	if (chance(20000)) N *= 10;
	bool faulty = chance(250000);
	lib([] { futils_randomr8(); }); // set up what the generator itself needs
	if (faulty) choose_faults(FM(F_NOMEM), 4);
	describe("shuffle %u items of %u bytes x %u", n, size, N);
	Buf b((size_t)n * size);
	std::map<std::vector<u32>, u32> perms;
	std::vector<u32> firstpos(n, 0), lastpos(n, 0);
	u32 good = 0;
	for (u32 q = 0; q < N; q++) {
		for (u32 i = 0; i < n; i++) { fill_msg(b.p + (size_t)i * size, size, 7); b.p[(size_t)i * size] = (u8)i; if (size > 1) b.p[(size_t)(i + 1) * size - 1] = (u8)~i; }
		std::string before((char *)b.p, (size_t)n * size);
		u32 f0 = fault_count(F_NOMEM);
		int r = lib([&] { return futils_random_shuffle(b.p, n, size); });
		std::string after((char *)b.p, (size_t)n * size);
		if (r) {
			if (r > 0 || r < -4095) FAIL("shuffle-result", "futils_random_shuffle returned %d", r);
			if (fault_count(F_NOMEM) == f0) FAIL("shuffle-refused", "futils_random_shuffle(%u items of %u bytes) returned %d without a failing allocation", n, size, r);
			if (after != before) FAIL("shuffle-changed", "futils_random_shuffle failed with %d and changed the array", r);
			probe("shuffle failed for lack of memory");
			continue;
		}
		std::vector<u32> pm(n);
		std::vector<bool> seen(n, false);
		for (u32 i = 0; i < n; i++) {
			u32 id = b.p[(size_t)i * size];
			if (id >= n || seen[id] || after.substr((size_t)i * size, size) != before.substr((size_t)id * size, size))
				FAIL("not-a-permutation", "futils_random_shuffle(%u items of %u bytes): item %u is lost, duplicated or damaged", n, size, i);
			seen[id] = true;
			pm[i] = id;
		}
		good++;
		if (n <= 5) perms[pm]++;
		if (n) { firstpos[pm[0]]++; lastpos[pm[n - 1]]++; }
	}
	xfree(b.p);
	if (open_lib_fds()) FAIL("leak-descriptor", "shuffle left descriptors open");
	check_no_leak("futils_random_shuffle");
	if (n < 2 || good < N / 2) return;
	if (n <= 5) {
		u32 f = 1;
		for (u32 i = 2; i <= n; i++) f *= i;
		std::vector<u32> c;
		for (auto &x : perms) c.push_back(x.second);
		c.resize(f, 0);
		chi2("permutations of a shuffle", c, std::vector<double>(f, 1.0 / f), good);
	}
	chi2("first item of a shuffle", firstpos, std::vector<double>(n, 1.0 / n), good);
	chi2("last item of a shuffle", lastpos, std::vector<double>(n, 1.0 / n), good);
}
// long arrays: where items come from, by regions of the array
SCENARIO("C14", shuffle_long, 1)
{
	W->cfg.step_cap = 400000000;
	entropy_cfg().seed = choose64();
	u32 n = 40 + log_uniform(chance(30000) ? 70000 : 3000), sz = pick(std::vector<u32>{1, 2, 3, 4, 5, 8, 9, 12, 40}), N = n > 5000 ? 4 : 4 + 6000 / n;
	describe("shuffle %u items of %u bytes x %u", n, sz, N);
	const u32 R = 8;
	std::vector<u32> from(R * R, 0), parity(4, 0), first(R, 0);
	u32 fixedp = 0, kept = 0;
	Buf b((size_t)n * sz);
	std::vector<u32> cur(n);
	// items carry as much of their number as they have room for, then a pattern
	auto item = [&](u32 id, u8 *o) {
		if (sz == 1) { o[0] = (u8)((u64)id * R / n); return; }
		if (sz == 2 && n > 65536) id = (u32)((u64)id * R / n);
		u64 h = id * 0x9e3779b97f4a7c15ull;
		for (u32 k = 0; k < sz; k++) o[k] = k < 3 ? (u8)(id >> 8 * k) : (u8)(h >> 8 * (k % 8));
	};
	bool regions = sz == 1 || (sz == 2 && n > 65536);
	for (u32 q = 0; q < N; q++) {
		for (u32 i = 0; i < n; i++) item(i, b.p + (size_t)i * sz);
		int r = lib([&] { return futils_random_shuffle(b.p, n, sz); });
		if (r) FAIL("shuffle-refused", "futils_random_shuffle(%u items of %u bytes) returned %d", n, sz, r);
		if (regions) {
			std::vector<u32> seen(R, 0), want(R, 0);
			for (u32 i = 0; i < n; i++) {
				u8 g = b.p[(size_t)i * sz];
				if (g >= R || (sz == 2 && b.p[(size_t)i * sz + 1])) FAIL("not-a-permutation", "futils_random_shuffle(%u items of %u bytes): item %u is damaged", n, sz, i);
				seen[g]++;
				want[(u64)i * R / n]++;
				from[(u32)((u64)i * R / n) * R + g]++;
			}
			if (seen != want) FAIL("not-a-permutation", "futils_random_shuffle(%u items of %u bytes): items are lost or duplicated", n, sz);
			continue;
		}
		std::vector<bool> seen(n, false);
		for (u32 i = 0; i < n; i++) {
			u8 *q = b.p + (size_t)i * sz, want[40];
			u32 id = q[0] | q[1] << 8 | (sz > 2 ? q[2] << 16 : 0);
			item(id, want);
			if (id >= n || seen[id] || memcmp(q, want, sz)) FAIL("not-a-permutation", "futils_random_shuffle(%u items of %u bytes): item %u is lost, duplicated or damaged", n, sz, i);
			seen[id] = true;
			cur[i] = id;
			from[(u32)((u64)i * R / n) * R + (u32)((u64)id * R / n)]++;
			parity[(i & 1) * 2 + (id & 1)]++;
			fixedp += id == i;
			kept += i && id == cur[i - 1] + 1;
		}
	}
	xfree(b.p);
	// drawing without replacement only makes the counts vary less
	std::vector<double> p(R * R), pp(4);
	auto sizeof_region = [&](u32 c) { u32 k = 0; for (u32 i = (u32)((u64)c * n / R) - (c ? 1 : 0); i < n && (u64)i * R / n <= c; i++) k += (u64)i * R / n == c; return k; };
	std::vector<u32> rs(R);
	for (u32 c = 0; c < R; c++) rs[c] = sizeof_region(c);
	for (u32 a = 0; a < R; a++) for (u32 c = 0; c < R; c++) p[a * R + c] = (double)rs[a] * rs[c] / n / n;
	char what[100];
	snprintf(what, sizeof what, "origins by region in shuffles of %u items", n);
	chi2(what, from, p, n * N);
	for (u32 a = 0; a < 2; a++) for (u32 c = 0; c < 2; c++) pp[a * 2 + c] = (double)((n + 1 - a) / 2) * ((n + 1 - c) / 2) / n / n;
	if (regions) return;
	chi2("parities in a shuffle", parity, pp, n * N);
	// items staying in place and neighbours staying together: Poisson with mean 1 per shuffle
	if (fixedp > 60 + 12 * N) FAIL("not-uniform", "%u items of %u stayed in place over %u shuffles", fixedp, n, N);
	if (kept > 60 + 12 * N) FAIL("not-uniform", "%u neighbours of %u stayed together over %u shuffles", kept, n, N);
}
// alphabets longer than a byte can index
SCENARIO("C14", string_long_alphabet, 1)
{
	W->cfg.step_cap = 400000000;
	entropy_cfg().seed = choose64();
	static const u32 as[] = {255, 256, 257, 258, 300, 511, 512, 513, 1000, 65535, 65536, 65537, 70000};
	u32 A = chance(500000) ? as[choose(13)] : 200 + log_uniform(3000), G = 2 + choose(40);
	u32 count = 1 + log_uniform(400), N = 1 + 6000 / count;
	bool rare = choose(2); // the last character of the alphabet occurs once in it
	if (rare) { N = 1 + 40 * A / count; if (N * count > 200000) { rare = false; N = 1 + 6000 / count; } }
	std::string al(A, 0);
	std::vector<double> p(G + 1, 0);
	for (u32 i = 0; i < A; i++) { u32 g = rare && i + 1 == A ? G : (u32)((u64)i * G / A); al[i] = (char)(1 + g); p[g] += 1.0 / A; }
	describe("alphabet of %u, %u strings of %u", A, N, count);
	std::vector<u32> c(G + 1, 0);
	Buf b(count + 1), ab(A + 1);
	memcpy(ab.p, al.c_str(), A + 1);
	for (u32 q = 0; q < N; q++) {
		int r = lib([&] { return futils_random_string((char *)b.p, count + 1, count, (char *)ab.p); });
		if (r != (int)count || b.p[count]) FAIL("string-length", "futils_random_string(count %u, alphabet of %u) returned %d", count, A, r);
		for (u32 i = 0; i < count; i++) { if (!b.p[i] || b.p[i] > G + 1) FAIL("string-alphabet", "a character is not of the alphabet"); c[b.p[i] - 1]++; }
	}
	xfree(b.p);
	xfree(ab.p);
	char what[100];
	snprintf(what, sizeof what, "characters by region of an alphabet of %u", A);
	chi2(what, c, p, N * count);
	if (rare && !c[G]) FAIL("not-uniform", "the last of %u characters never occurs in %u drawn (%.0f expected)", A, N * count, (double)N * count / A);
}
SCENARIO("C14", shuffle_arguments, 1)
{
	entropy_cfg().seed = choose64();
	Buf b(64);
	fill_msg(b.p, 64, 1);
	std::string before = b.str(64);
	if (choose(2)) {
		u32 w = choose(5);
		int r = lib([&] { return w == 0 ? ri_bytes(nullptr, 4) : w == 1 ? ri_8_max(nullptr, 3) : w == 2 ? ri_16_max(nullptr, 3) : w == 3 ? ri_32_max(nullptr, 3) : ri_64_max(nullptr, 3); });
		if (r != -EINVAL) FAIL("arguments", "a draw to nowhere returned %d", r);
	}
	u32 c = choose(3);
	int r = lib([&] { return c == 0 ? futils_random_shuffle(nullptr, 1 + choose(5), 1 + choose(9)) : c == 1 ? futils_random_shuffle(b.p, choose(2), 64) : futils_random_shuffle(b.p, choose(9), 0); });
	if (c == 0 ? r != -EINVAL : r != 0) FAIL("shuffle-arguments", "futils_random_shuffle returned %d", r);
	if (b.str(64) != before) FAIL("shuffle-changed", "futils_random_shuffle with nothing to do changed the array");
	xfree(b.p);
}
// the generator's functions used by several threads at once
SCENARIO("C14", several_threads, 2)
{
	W->cfg.step_cap = 400000000;
	u32 nt = 2 + (choose(4) == 3);
	pick_random_build(100000);
	choose_sched((int)nt);
	if (!W->cfg.hold && choose(2)) { W->cfg.preempt = W->cfg.fine = true; W->cfg.preempt_left = 3000; }
	entropy_cfg().seed = choose64();
	describe("%u threads draw strings, shuffles and numbers", nt);
	// stretches of text that carry a whole draw; two equal ones are a coincidence
	struct St { std::map<std::string, u32> g; u32 same[4] = {0, 0, 0, 0}; std::vector<std::string> by[4][3]; std::vector<u64> num[3]; };
	auto st = std::make_shared<St>();
	// numbers of one width, whole ranges
	static const u32 widths[] = {17, 24, 32, 40, 48, 56, 64};
	u32 width = chance(300000) ? widths[choose(7)] : 0;
	bool many = choose(3) == 2; // long strings of one kind
	u32 mkind = 1 + choose(2);
	std::vector<int> tid;
	for (u32 k = 0; k < nt; k++) tid.push_back(spawn("user", [st, k, many, mkind, width] {
		u32 ops = 2 + choose(5);
		if (width) {
			u64 max = width == 64 ? ~0ull : (1ull << width) - 1;
			for (u32 i = 0; i < 80; i++) {
				u64 v = lib([&]() -> u64 { return width <= 32 ? futils_randomr32_maximum((u32)max) : futils_randomr64_maximum(max); });
				if (v > max) FAIL("out-of-range", "a number up to %llu is %llu, other threads drawing", (unsigned long long)max, (unsigned long long)v);
				st->num[k].push_back(v);
			}
			return;
		}
		for (u32 q = 0; q < ops; q++) {
			switch (pickw({6, 2, 2, 1})) {
			case 0: {
				u32 kind = choose(4);
				std::string al = alphabet_of(kind);
				if (kind == 3 && choose(2)) { al.clear(); for (int i = 0; i < 64; i++) al.push_back((char)(33 + i)); }
				size_t count = kind == 3 ? 8 * (1 + choose(6)) : kind == 0 ? 8 * (1 + choose(5)) : kind == 1 ? 5 * (1 + choose(8)) : 3 * (1 + choose(12));
				if (choose(4) == 3) count += choose(4);
				if (many) kind = mkind, al = alphabet_of(kind), count = kind == 1 ? 250 : 150;
				size_t len = full_len(kind, count) + 1;
				Buf b(len);
				memset(b.p, 0x7e, len);
				int r = call_string(kind, (char *)b.p, len, count, al.c_str());
				check_string(kind, al, (char *)b.p, len, count, r);
				u32 gl = kind == 0 ? 16 : kind == 2 ? 4 : 8;
				if (kind != 3 || al.size() == 64)
					for (size_t i = 0; i + gl <= len - 1; i += gl) {
						std::string s((char *)b.p + i, gl);
						if (s.find('=') != std::string::npos) continue;
						if (st->by[kind][k].size() < 150) st->by[kind][k].push_back(s);
						if (many) continue;
						if (st->g[std::to_string(kind) + s]++) {
							st->same[kind]++;
							if (st->same[kind] >= (kind == 2 ? 3u : 2u)) FAIL("not-independent", "futils_random_%s: text handed out to one thread appears in what another one got, %u times", SN[kind], st->same[kind]);
						}
					}
				xfree(b.p);
				break;
			}
			case 1: {
				static const u32 sz[] = {1, 2, 4, 8, 3, 16, 40};
				u32 n = 1 + choose(12), size = sz[choose(7)];
				Buf b((size_t)n * size);
				for (u32 i = 0; i < n; i++) { fill_msg(b.p + (size_t)i * size, size, k); b.p[(size_t)i * size] = (u8)(i + 20 * k); }
				std::string before((char *)b.p, (size_t)n * size);
				int r = lib([&] { return futils_random_shuffle(b.p, n, size); });
				if (r) FAIL("shuffle-refused", "futils_random_shuffle(%u items of %u bytes) returned %d without a failing allocation", n, size, r);
				std::string after((char *)b.p, (size_t)n * size);
				std::vector<bool> seen(n, false);
				for (u32 i = 0; i < n; i++) {
					u32 id = (u32)(u8)after[(size_t)i * size] - 20 * k;
					if (id >= n || seen[id] || after.substr((size_t)i * size, size) != before.substr((size_t)id * size, size))
						FAIL("not-a-permutation", "futils_random_shuffle(%u items of %u bytes), other threads drawing: item %u is lost, duplicated or damaged", n, size, i);
					seen[id] = true;
				}
				xfree(b.p);
				break;
			}
			case 2: for (u32 i = 0; i < 12; i++) {
				u32 bits = choose(4);
				u64 max = choose_max(8u << bits);
				u64 v = lib([&]() -> u64 { return bits == 0 ? futils_randomr8_maximum((u8)max) : bits == 1 ? futils_randomr16_maximum((u16)max) : bits == 2 ? futils_randomr32_maximum((u32)max) : futils_randomr64_maximum(max); });
				if (v > max) FAIL("out-of-range", "futils_randomr%u_maximum(%llu) returned %llu, other threads drawing", 8u << bits, (unsigned long long)max, (unsigned long long)v);
			}
			break;
			default: {
				double d = lib([] { return futils_randomrd(); });
				float f = lib([] { return futils_randomrf(); });
				if (!(d >= 0 && d < 1) || !(f >= 0 && f < 1)) FAIL("out-of-range", "a unit real is %.20g or %.20g", d, (double)f);
			}
			}
		}
	}));
	for (int t : tid) join(t);
	for (u32 a = 0; width && a < nt; a++) for (u32 b = 0; b < a; b++) {
		double mean = 80 * 80 / 65536.0 * (width == 17 ? 2 : 1);
		for (u32 sh = 0; sh + 16 <= width; sh += 8) {
			std::map<u16, u32> m;
			u32 same = 0;
			for (u64 x : st->num[a]) m[(u16)(x >> sh)]++;
			for (u64 x : st->num[b]) { auto q = m.find((u16)(x >> sh)); if (q != m.end()) same += q->second; }
			if (same > mean + 8 * sqrt(mean) + 8) FAIL("not-independent", "numbers of %u bits drawn by two threads: bits %u to %u agree %u times, %.1f expected", width, sh, sh + 15, same, mean);
		}
	}
	// parts of one thread's text in another one's
	for (u32 kind = 1; kind <= 2; kind++)
		for (u32 a = 0; a < nt; a++) for (u32 b = 0; b < a; b++) {
			auto &A = st->by[kind][a], &B = st->by[kind][b];
			double mean = (double)A.size() * (double)B.size() / (kind == 1 ? 1024 : 4096);
			for (u32 p = 0; p + 2 <= (kind == 1 ? 8u : 4u); p++) {
				std::map<std::string, u32> m;
				for (auto &x : A) m[x.substr(p, 2)]++;
				u32 same = 0;
				for (auto &x : B) { auto q = m.find(x.substr(p, 2)); if (q != m.end()) same += q->second; }
				if (same > mean + 8 * sqrt(mean) + 12) FAIL("not-independent", "futils_random_%s in two threads: characters %u and %u of the groups agree %u times, %.1f expected", SN[kind], p, p + 1, same, mean);
			}
		}
	check_no_leak("the generator's functions");
}
