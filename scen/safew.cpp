// C01..C04: safe write, with and without checksum
#include "common.h"
#include "futils/safew.h"

namespace {
typedef futils_safew_file SF;
const char *TMP = ".tmp", *CRC = ".crc", *CRCTMP = ".crc.tmp";
struct Ver { bool present = false; std::string data; bool operator==(const Ver &o) const { return present == o.present && data == o.data; } };
std::string show(const Ver &v)
{
	if (!v.present) return "absent";
	std::string s = std::to_string(v.data.size()) + " bytes \"";
	for (size_t i = 0; i < v.data.size() && i < 16; i++) { char c = v.data[i]; s += c >= 32 && c < 127 ? c : '?'; }
	return s + "\"";
}
Ver look(const std::string &p) { Ver v; v.present = fs_get(p, v.data); return v; }

size_t pick_len()
{
	switch (pickw({4, 2, 2, 1, 1})) {
	case 0: return 1 + choose(60);
	case 1: return 0;
	case 2: return 1 + log_uniform(3000);
	case 3: return 4090 + choose(12);
	default: return choose(12) == 11 ? 60000 + choose(80000) : 8000 + choose(12000);
	}
}
// contents are distinct and never start with NUL; every other one holds
// arbitrary bytes
std::string content(u32 id, size_t n)
{
	std::string s;
	char t[24];
	while (s.size() < n) {
		snprintf(t, sizeof t, "<%u:%zu:%04x>", id, s.size(), (unsigned)mix2(id, s.size()) & 0xffff);
		s += t;
	}
	s.resize(n);
	if (mix2(id, 77) & 1)
		for (size_t i = 0; i < n; i++) {
			u64 r = mix2(id * 1000003ull + 5, i);
			if (r % 3 == 0) s[i] = (r >> 8) % 4 == 0 ? (char)0xff : (char)(r >> 16);
		}
	if (n) s[0] = (char)(35 + id % 90);
	return s;
}

// one library use of a path
struct Use {
	std::string path;
	std::string data;        // to be written
	bool with_crc = false;
	bool rollback = false;
	bool wfailed = false;    // a write was reported as failed
	bool opened = false, in_end = false, ended = false;
	bool open_failed = false;
	int ret = 0;
};
// writes u.data in pieces; leaves the decision to the library
void use_write(Use &u, SF *f)
{
	size_t pos = 0;
	int pieces = 1 + (int)choose(5);
	// some applications look at each result, others carry on
	bool stubborn = choose(2);
	while (pos < u.data.size() && (stubborn || !u.wfailed)) {
		size_t n = pieces <= 1 ? u.data.size() - pos : choose((u32)(u.data.size() - pos)) + 1;
		if (pieces > 0) pieces--;
		u32 how = choose(4);
		if (how == 1 && memchr(u.data.data() + pos, 0, n)) how = 0;
		switch (how) {
		case 1: {
			int r = lib([&] { return futils_safew_fprintf(f, "%.*s", (int)n, u.data.c_str() + pos); });
			ev("fprintf_ret", (i64)n, 0, r);
			if (r < 0) u.wfailed = true;
			else if ((size_t)r != n) FAIL("wrong-return", "fprintf of %zu characters returned %d", n, r);
			break;
		}
		case 2: {
			// item size above 1
			size_t sz = 1 + choose(7);
			if (sz > n) sz = n;
			n -= n % sz;
			u8 *b = (u8 *)xalloc(n);
			memcpy(b, u.data.data() + pos, n);
			size_t r = lib([&] { return futils_safew_fwrite(b, sz, n / sz, f); });
			ev("fwrite_ret", (i64)n, (i64)sz, (i64)r);
			xfree(b);
			if (r > n / sz) FAIL("wrong-return", "fwrite of %zu items returned %zu", n / sz, r);
			if (r != n / sz) u.wfailed = true;
			break;
		}
		default: {
			u8 *b = (u8 *)xalloc(n);
			memcpy(b, u.data.data() + pos, n);
			size_t r = lib([&] { return futils_safew_fwrite(b, 1, n, f); });
			ev("fwrite_ret", (i64)n, 1, (i64)r);
			xfree(b);
			if (r > n) FAIL("wrong-return", "fwrite of %zu items returned %zu", n, r);
			if (r != n) u.wfailed = true;
			break;
		}
		}
		pos += n;
		if (choose(8) == 7) lib([&] { return futils_safew_fwrite("", 1, 0, f); });
	}
}
void use_run(Use &u)
{
	SF *f = lib([&] { return futils_safew_fopen(u.path.c_str()); });
	ev("fopen_ret", f != nullptr);
	if (!f) { u.open_failed = true; u.ended = true; u.ret = -1; return; }
	u.opened = true;
	use_write(u, f);
	if (u.wfailed && choose(3) == 2) u.rollback = true;
	u.in_end = true;
	u.ret = lib([&] { return u.rollback ? futils_safew_fclose_rollback(f) : u.with_crc ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_commit(f); });
	if (!u.ret) lib([] { vis("closed"); });   // killed before the application notices
	u.in_end = false;
	u.ended = true;
	ev("fclose_ret", u.rollback, u.with_crc, u.ret);
	if (u.ret > 0) FAIL("wrong-return", "closing returned %d", u.ret);
	note("%s returned %d", u.rollback ? "rollback" : "commit", u.ret);
}
void plan_crash()
{
	switch (choose(3)) {
	case 0: W->crash_in = (i64)choose(30); break;
	case 1: W->crash_in = (i64)choose(14); break;
	default: W->crash_in = (i64)log_uniform(400); break;
	}
}
enum Crash { NONE, KILL, POWER };
// runs f in a process of its own, killed at a chosen point; true if it was
bool in_process(Crash c, std::function<void()> f)
{
	Proc *p = new_proc();
	W->crash_proc = p;
	if (c != NONE) plan_crash();
	int t = spawn("app", f, p);
	join(t);
	W->crash_in = -1;
	bool dead = proc_dead(p);
	if (!dead) { check_no_leak("after the handle was closed", p); kill_proc(p); }
	else if (c == KILL) count_fault(F_CRASH);
	return dead;
}
void power() { count_fault(F_POWERLOSS); fs_power_loss(); }

std::string pick_path(const std::string &dir, int i)
{
	switch (pickw({6, 1, 1})) {
	case 0: return dir + "/f" + std::to_string(i);
	case 1: { // around the longest supported path
		size_t n = 123 + choose(8);
		std::string s = dir + "/" + std::to_string(i);
		while (s.size() < n) s += 'y';
		return s;
	}
	default: return dir + "/a file." + std::to_string(i);
	}
}
const u64 IOF = FM(F_NOMEM) | FM(F_EIO_WRITE) | FM(F_ENOSPC) | FM(F_SHORT_WRITE) | FM(F_FSYNC) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_CLOSE) | FM(F_RENAME) | FM(F_UNLINK);
} // namespace

// ------------------------------------------------------------------ C01
namespace {
struct T1 {
	std::string path;
	Ver cur;
	std::vector<Ver> cand;    // versions the medium may hold after a power loss
	Use u;
	bool active = false;
	bool crctmp0 = false;     // a temporary checksum was there before
	bool is_new(const Ver &v) const { return active && (u.in_end || (u.ended && (u.ret == 0 || u.with_crc))) && !u.rollback && !u.wfailed && v.present && v.data == u.data; }
	bool in_cand(const Ver &v) const { for (auto &c : cand) if (c == v) return true; return false; }
};
}
SCENARIO("C01", safew_atomic, 10)
{
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	int nt = 1 + (pickw({3, 1}) == 1);
	std::vector<T1> ts((size_t)nt);
	u32 id = 0;
	for (int i = 0; i < nt; i++) {
		T1 &t = ts[(size_t)i];
		t.path = pick_path("/data", i);
		if (choose(3)) { t.cur.present = true; t.cur.data = content(id++, pick_len()); fs_put(t.path, t.cur.data); }
		t.cand.push_back(t.cur);
		// what an earlier crash may have left
		if (choose(4) == 3) fs_put(t.path + TMP, content(id++, pick_len()));
	}
	fs_put("/data/other", "unrelated");
	if (nt > 1) choose_sched(2);
	std::vector<T1> *pts = &ts;
	W->monitor = [pts] {
		for (T1 &t : *pts) {
			Ver v = look(t.path);
			if (v == t.cur || t.is_new(v)) continue;
			FAIL("mixed-content", "the path holds %s; before it held %s%s%s", show(v).c_str(), show(t.cur).c_str(),
				t.active && t.u.in_end && !t.u.rollback ? ", being committed: " : "", t.active && t.u.in_end && !t.u.rollback ? show(Ver{true, t.u.data}).c_str() : "");
		}
	};
	int rounds = 1 + (int)choose(4);
	std::string d;
	for (int k = 0; k < rounds; k++) {
		W->F = FaultCfg();
		fs_cfg().quota = -1;
		Crash c = (Crash)pickw({4, 3, 3});
		int fm = (int)choose(3);
		if (fm == 1) choose_faults(IOF, 14);
		if (fm == 2 && choose(2)) { choose_faults(FM(F_UNLINK) | FM(F_CLOSE), 4); fs_cfg().quota = (i64)log_uniform(6000); }
		u32 un0 = fault_count(F_UNLINK);
		auto nfaults = [] { u32 n = 0; for (int i = 0; i < F_NKINDS; i++) if (i != F_STALL && i != F_SHORT_WRITE && i != F_POWERLOSS && i != F_CRASH && i != F_TORN) n += fault_count((FaultKind)i); return n; };
		u32 f0 = nfaults();
		for (T1 &t : ts) {
			t.u = Use();
			t.u.path = t.path;
			t.u.data = content(id++, pick_len());
			t.u.rollback = choose(5) == 4;
			t.u.with_crc = choose(5) == 4;
			t.active = true;
			t.crctmp0 = fs_exists(t.path + CRC + TMP);
		}
		d += c == NONE ? " run" : c == KILL ? " kill" : " power-loss";
		for (T1 &t : ts) if (fs_exists(t.path + TMP)) probe("opening with a stale temporary file present");
		bool dead = in_process(c, [&] {
			std::vector<int> tid;
			for (int i = 1; i < nt; i++) { T1 *t = &ts[(size_t)i]; tid.push_back(spawn("app2", [t] { use_run(t->u); }, W->crash_proc)); }
			use_run(ts[0].u);
			for (int t : tid) join(t);
		});
		bool faulty = nfaults() != f0, unl = fault_count(F_UNLINK) != un0;
		for (T1 &t : ts) {
			Ver v = look(t.path);
			Use &u = t.u;
			if (u.ended) {
				if (u.open_failed && !faulty && t.path.size() < 128) FAIL("open-refused", "opening failed without any fault");
				if (!u.open_failed && !u.rollback && u.ret == 0) {
					if (u.wfailed) FAIL("failed-write-committed", "a write failed but the commit returned 0");
					if (!(v == Ver{true, u.data})) FAIL("committed-content-wrong", "commit of %s returned 0 but the path holds %s", show(Ver{true, u.data}).c_str(), show(v).c_str());
					t.cur = v;
					t.cand.push_back(v);
				} else {
					// a failed checksummed commit may have put the payload in place (C03)
					if (u.with_crc && t.is_new(v)) { t.cur = v; t.cand.push_back(v); }
					if (!(v == t.cur)) FAIL("previous-content-lost", "%s but the path holds %s instead of %s", u.open_failed ? "opening failed" : u.rollback ? "the write was rolled back" : "the commit returned an error", show(v).c_str(), show(t.cur).c_str());
					if (u.opened && u.ret && !faulty && !u.wfailed) FAIL("refused-without-fault", "%s returned %d without any fault", u.rollback ? "rollback" : "commit", u.ret);
				}
				if (u.opened && u.rollback && u.ret == 0 && fs_exists(t.path + TMP)) FAIL("temporary-left", "the rollback returned 0 but a temporary file is left");
				if (u.opened && !unl && fs_exists(t.path + TMP)) FAIL("temporary-left", "a temporary file is left after the handle was closed");
				// (kept when the new payload is in place, to recover the pair)
				if (u.opened && !unl && !t.crctmp0 && !(u.with_crc && u.ret && v == Ver{true, u.data}) && fs_exists(t.path + CRC + TMP)) FAIL("temporary-left", "a temporary checksum file is left after the handle was closed");
			} else {
				// killed in the middle
				probe(!u.in_end ? "killed while writing" : u.rollback ? "killed inside the rollback" : v == t.cur ? "killed inside the commit, old content in place" : "killed inside the commit, new content in place");
				if (!(v == t.cur) && !t.is_new(v)) FAIL("mixed-content", "after the kill the path holds %s; before it held %s", show(v).c_str(), show(t.cur).c_str());
				t.cur = v;
				t.cand.push_back(v);
			}
		}
		bool lose = (dead && c == POWER) || choose(12) == 11;
		if (lose) {
			for (T1 &t : ts) if (!t.u.ended) t.cand.push_back(Ver{true, t.u.data});
			for (T1 &t : ts) t.active = false;
			W->monitor = nullptr;
			power();
			for (T1 &t : ts) {
				Ver v = look(t.path);
				if (!(v == t.cur)) probe("power loss brought an older or newer version back");
				if (!t.in_cand(v)) FAIL("content-lost-on-power-loss", "after the power loss the path holds %s, which was never committed (last: %s)", show(v).c_str(), show(t.cur).c_str());
				t.cur = v;
				t.cand = {v};
			}
			W->monitor = [pts] {
				for (T1 &t : *pts) {
					Ver v = look(t.path);
					if (!(v == t.cur || t.is_new(v))) FAIL("mixed-content", "the path holds %s; before it held %s", show(v).c_str(), show(t.cur).c_str());
				}
			};
		} else if (choose(4) == 3) {
			fs_writeback();
			for (T1 &t : ts) t.cand = {t.cur};
		}
		for (T1 &t : ts) t.active = false;
	}
	describe("safe write of %d path(s), %d rounds:%s", nt, rounds, d.c_str());
	if (!(look("/data/other") == Ver{true, "unrelated"})) FAIL("unrelated-file-changed", "an unrelated file was changed");
}

// ------------------------------------------------------------------ C02..C04
namespace {
struct Pairs {
	std::vector<std::string> data, crc; // versions and the checksum files the library made for them
	// made on a healthy system
	void make(int n)
	{
		FaultCfg keep = W->F;
		W->F = FaultCfg();
		fs_mkdir("/ref");
		for (int i = 0; i < n; i++) {
			std::string s;
			do s = content(1000 + (u32)data.size(), 1 + (pick_len() ? pick_len() : 0)); while (0);
			if (i == 3 && choose(2)) s = "";
			SF *f = lib([&] { return futils_safew_fopen("/ref/x"); });
			if (!f) FAIL("open-refused", "opening failed without any fault");
			if (s.size() && lib([&] { return futils_safew_fwrite(s.data(), 1, s.size(), f); }) != s.size()) FAIL("wrong-return", "fwrite failed without any fault");
			if (lib([&] { return futils_safew_fclose_commit_with_crc(f); }) != 0) FAIL("refused-without-fault", "a checksummed commit failed without any fault");
			std::string c, p;
			if (!fs_get("/ref/x.crc", c) || !fs_get("/ref/x", p) || p != s) FAIL("committed-content-wrong", "a checksummed commit returned 0 without storing the pair");
			data.push_back(s);
			crc.push_back(c);
		}
		W->F = keep;
		fs_writeback();
	}
	int find(const std::string &d) const { for (size_t i = 0; i < data.size(); i++) if (data[i] == d) return (int)i; return -1; }
	// does this checksum file belong to these bytes?
	bool match(const Ver &p, const Ver &c) const
	{
		if (!p.present || !c.present) return false;
		int i = find(p.data);
		return i >= 0 && crc[(size_t)i] == c.data;
	}
};
struct Four { Ver pay, ptmp, crc, ctmp; bool operator==(const Four &o) const { return pay == o.pay && ptmp == o.ptmp && crc == o.crc && ctmp == o.ctmp; } };
Four look4(const std::string &p) { return Four{look(p), look(p + TMP), look(p + CRC), look(p + CRCTMP)}; }
std::string show4(const Four &f)
{
	return "payload " + show(f.pay) + ", payload.tmp " + show(f.ptmp) + ", crc " + show(f.crc) + ", crc.tmp " + show(f.ctmp);
}
// which of the 16 presence combinations the checks met
void probe4(const std::string &path)
{
	std::string s = "check of:";
	static const char *n[] = {"payload", "payload.tmp", "crc", "crc.tmp"}, *x[] = {"", ".tmp", ".crc", ".crc.tmp"};
	for (int i = 0; i < 4; i++) if (fs_exists(path + x[i])) { s += " "; s += n[i]; }
	probe(s.c_str());
}
int check(const std::string &path)
{
	probe4(path);
	int r = lib([&] { return futils_safew_file_check(path.c_str()); });
	ev("check_ret", r);
	note("check returned %d", r);
	if (r > 0) FAIL("wrong-return", "the check returned %d", r);
	return r;
}
// an uninterrupted, fault-free check that must succeed with one of the allowed versions
int must_recover(const std::string &path, const Pairs &P, const std::set<int> &allowed, const char *when)
{
	FaultCfg keep = W->F;
	W->F = FaultCfg();
	Four before = look4(path);
	int r = 1;
	in_process(NONE, [&] { r = check(path); });
	Four a = look4(path);
	if (r != 0) FAIL("pair-lost", "%s: the check returned %d; before it: %s", when, r, show4(before).c_str());
	if (!P.match(a.pay, a.crc)) FAIL("invalid-pair-accepted", "%s: the check returned 0 but left %s; before it: %s", when, show4(a).c_str(), show4(before).c_str());
	int v = P.find(a.pay.data);
	if (!allowed.count(v)) {
		std::string s;
		for (int x : allowed) s += " " + std::to_string(x);
		FAIL("wrong-version", "%s: the check returned 0 with version %d, expected one of%s; before it: %s", when, v, s.c_str(), show4(before).c_str());
	}
	if (a.ptmp.present || a.ctmp.present) FAIL("temporary-left", "%s: the check left %s", when, show4(a).c_str());
	in_process(NONE, [&] { r = check(path); });
	Four b = look4(path);
	if (r != 0 || !(a == b)) FAIL("check-not-idempotent", "%s: checking again returned %d and left %s", when, r, show4(b).c_str());
	W->F = keep;
	return v;
}
}
namespace { u32 nfaults() { u32 n = 0; for (int i = 0; i < F_NKINDS; i++) if (i != F_STALL && i != F_SHORT_WRITE && i != F_SHORT_READ) n += fault_count((FaultKind)i); return n; } }
SCENARIO("C02", safew_crc_crash, 10)
{
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	Pairs P;
	P.make(4);
	std::string path = pick_path("/data", 0);
	if (path.size() > 127) path = "/data/f";
	int cur = 0;
	fs_put(path, P.data[0]);
	fs_put(path + CRC, P.crc[0]);
	std::set<int> cand = {0};
	int rounds = 1 + (int)choose(3);
	std::string d;
	for (int k = 0; k < rounds; k++) {
		int nv = (cur + 1 + (int)choose(3)) % 4;
		Use u;
		u.path = path;
		u.data = P.data[(size_t)nv];
		u.with_crc = true;
		Crash c = (Crash)pickw({1, 3, 3});
		d += c == NONE ? " commit" : c == KILL ? " commit+kill" : " commit+power-loss";
		// system errors during the commit; not with a kill: a file whose
		// synchronisation failed may then be found again and never reach the medium
		if (c != KILL && choose(3) == 2) choose_faults(IOF & ~FM(F_UNLINK), 30);
		u32 f0 = nfaults();
		in_process(c, [&] { use_run(u); });
		bool faulty = nfaults() != f0;
		W->F = FaultCfg();
		if (u.ended && u.ret != 0 && !faulty) FAIL("refused-without-fault", "a checksummed commit returned %d without any fault", u.ret);
		std::set<int> allowed;
		bool lost = false;
		if (u.ended && u.ret == 0 && u.wfailed && !u.rollback) FAIL("failed-write-committed", "a write failed but the commit returned 0");
		if (u.ended && u.rollback) allowed = {cur}; else if (u.ended && u.ret == 0) allowed = {nv}; else allowed = {cur, nv};
		auto lose = [&] { lost = true; power(); if (!u.rollback) allowed.insert(nv); for (int x : cand) allowed.insert(x); allowed.insert(cur); };
		if (c == POWER || choose(10) == 9) lose();
		int m = (int)pickw({3, 3, 2, 1});
		for (int i = 0; i < m; i++) {
			Crash cc = choose(2) ? POWER : KILL;
			d += cc == KILL ? " check+kill" : " check+power-loss";
			int r = 1;
			bool dead = in_process(cc, [&] { r = check(path); });
			if (dead) probe(cc == KILL ? "check killed" : "check cut by a power loss");
			if (!dead && r != 0) FAIL("pair-lost", "the check returned %d; %s", r, show4(look4(path)).c_str());
			if (cc == POWER) lose();
		}
		(void)lost;
		int v = must_recover(path, P, allowed, "after the interruption");
		d += " -> v" + std::to_string(v);
		cand.insert(cur);
		if ((u.ended && u.ret == 0 && !u.rollback) || v == nv) cand.insert(nv);
		for (int x : allowed) cand.insert(x);
		cur = v;
		cand.insert(v);
		switch (choose(3)) {
		case 0: fs_writeback(); cand = {cur}; break;
		case 1: break;
		case 2: power(); cur = must_recover(path, P, cand, "after a power loss following the check"); break;
		}
	}
	describe("checksummed writes with interruptions:%s", d.c_str());
}
SCENARIO("C03", safew_crc_faults, 10)
{
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	Pairs P;
	P.make(4);
	std::string path = pick_path("/data", 0);
	if (path.size() > 127) path = "/data/f";
	int cur = -1;
	if (choose(6)) {
		cur = 0;
		fs_put(path, P.data[0]);
		fs_put(path + CRC, P.crc[0]);
	}
	std::set<int> allowed = {cur};
	int rounds = 1 + (int)choose(4);
	std::string d;
	for (int k = 0; k < rounds; k++) {
		int nv = (std::max(cur, 0) + 1 + (int)choose(3)) % 4;
		Use u;
		u.path = path;
		u.data = P.data[(size_t)nv];
		u.with_crc = true;
		u.rollback = choose(6) == 5;
		fs_cfg().quota = -1;
		choose_faults(IOF | FM(F_EIO_READ) | FM(F_SHORT_READ), 30);
		if (choose(6) == 5) fs_cfg().quota = (i64)log_uniform((u32)u.data.size() + 12);
		Four before = look4(path);
		u32 f0 = nfaults();
		in_process(NONE, [&] { use_run(u); });
		bool faulty = nfaults() != f0;
		W->F = FaultCfg();
		fs_cfg().quota = -1;
		Four a = look4(path);
		d += u.open_failed ? " open-failed" : u.rollback ? " rollback" : u.ret ? " commit-failed" : " commit";
		if (u.ret && !faulty) FAIL("refused-without-fault", "a checksummed %s returned %d without any fault", u.rollback ? "rollback" : "commit", u.ret);
		if (!u.rollback && u.ret == 0) {
			if (u.wfailed) FAIL("failed-write-committed", "a write failed but the commit returned 0");
			if (!(a.pay == Ver{true, u.data})) FAIL("committed-content-wrong", "a checksummed commit returned 0 but the path holds %s", show(a.pay).c_str());
			if (!P.match(a.pay, a.crc)) FAIL("committed-content-wrong", "a checksummed commit returned 0 but the checksum file does not match: %s", show4(a).c_str());
			allowed = {nv};
		} else {
			if (u.rollback || u.wfailed || u.open_failed) {
				if (!(a.pay == before.pay) || !(a.crc == before.crc)) FAIL("previous-pair-touched", "a %s left %s; before: %s", u.rollback ? "rollback" : u.wfailed ? "failed write" : "failed open", show4(a).c_str(), show4(before).c_str());
			} else {
				if (!(a.pay == before.pay) && !(a.pay == Ver{true, u.data})) FAIL("mixed-content", "a failed checksummed commit left %s", show4(a).c_str());
				allowed.insert(nv);
			}
		}
		// the premise of the next round is a stored pair
		bool intact = P.match(a.pay, a.crc);
		if (intact && choose(3) == 2) { cur = P.find(a.pay.data); continue; }
		if (allowed.count(-1)) {
			// there never was a pair
			int r = 1;
			in_process(NONE, [&] { r = check(path); });
			Four b = look4(path);
			if (r == 0 && (!P.match(b.pay, b.crc) || !allowed.count(P.find(b.pay.data)))) FAIL("invalid-pair-accepted", "the check returned 0 with %s", show4(b).c_str());
			if (b.ptmp.present || b.ctmp.present) FAIL("temporary-left", "the check left %s", show4(b).c_str());
			cur = r == 0 ? P.find(b.pay.data) : -1;
		} else
			cur = must_recover(path, P, allowed, u.ret ? "after the failed commit" : u.rollback ? "after the rollback" : "after the commit");
		allowed = {cur};
	}
	if (!allowed.count(-1)) must_recover(path, P, allowed, "at the end");
	describe("checksummed writes with faults:%s", d.c_str());
}

// threads of one process, each with a path of its own
namespace {
struct Nb {
	std::string path;
	std::set<int> allowed = {0};
	int cur = 0;
};
void neighbours(bool faults)
{
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	Pairs P;
	P.make(4);
	int nt = 2 + (pickw({4, 1}) == 1);
	std::vector<Nb> nb((size_t)nt);
	for (int i = 0; i < nt; i++) {
		Nb &x = nb[(size_t)i];
		x.cur = (int)choose(4);
		x.allowed = {x.cur};
		x.path = choose(2) ? "/data/f" + std::to_string(i) : pick_path("/data", i);
		if (x.path.size() > 127) x.path = "/data/f" + std::to_string(i);
		fs_put(x.path, P.data[(size_t)x.cur]);
		fs_put(x.path + CRC, P.crc[(size_t)x.cur]);
	}
	fs_writeback();
	choose_sched(nt);
	int nops = 1 + (int)choose(3);
	bool kill = !faults && choose(3) == 2;
	describe("%d threads, each with its own pair, %d operations each%s", nt, nops, kill ? ", killed" : faults ? ", with faults" : "");
	if (faults) choose_faults(IOF | FM(F_EIO_READ) | FM(F_SHORT_READ), 60);
	u32 f0 = nfaults();
	auto body = [&](Nb &x) {
		for (int k = 0; k < nops; k++) {
			if (!faults && choose(4) == 3) {
				int r = check(x.path);
				if (r != 0) FAIL("pair-lost", "a check while other threads use other paths returned %d; %s", r, show4(look4(x.path)).c_str());
				if (x.allowed.size() == 1 && !(look(x.path) == Ver{true, P.data[(size_t)x.cur]})) FAIL("wrong-version", "a check left %s", show4(look4(x.path)).c_str());
				continue;
			}
			Use u;
			int nv = (x.cur + 1 + (int)choose(3)) % 4;
			u.path = x.path;
			u.data = P.data[(size_t)nv];
			u.with_crc = true;
			u.rollback = choose(6) == 5;
			std::set<int> was = x.allowed;
			if (!u.rollback) x.allowed.insert(nv);
			use_run(u);
			if (u.ret && nfaults() == f0) FAIL("refused-without-fault", "a checksummed %s returned %d without any fault", u.rollback ? "rollback" : "commit", u.ret);
			if (u.ret == 0 && !u.rollback) {
				if (u.wfailed) FAIL("failed-write-committed", "a write failed but the commit returned 0");
				Four a = look4(x.path);
				if (!(a.pay == Ver{true, u.data}) || !P.match(a.pay, a.crc)) FAIL("committed-content-wrong", "a checksummed commit returned 0 and left %s", show4(a).c_str());
				x.allowed = {nv};
				x.cur = nv;
			} else if (u.rollback || u.wfailed || u.open_failed) x.allowed = was;
			else break; // in doubt
		}
	};
	in_process(kill ? KILL : NONE, [&] {
		std::vector<int> tid;
		for (int i = 1; i < nt; i++) { Nb *x = &nb[(size_t)i]; auto *b = &body; tid.push_back(spawn("app2", [x, b] { (*b)(*x); }, W->crash_proc)); }
		body(nb[0]);
		for (int t : tid) join(t);
	});
	W->F = FaultCfg();
	for (Nb &x : nb) must_recover(x.path, P, x.allowed, kill ? "after the kill" : "after the threads ended");
}
}
SCENARIO("C02", safew_crc_neighbours, 3) { neighbours(false); }
SCENARIO("C03", safew_crc_neighbours_faults, 3) { neighbours(true); }

// ------------------------------------------------------------------ C04
namespace {
// what the documented table selects: 0 nothing, 1 payload/crc, 2 payload/crc.tmp, 3 payload.tmp/crc.tmp
int table(const Four &f, const Pairs &P)
{
	bool a = f.pay.present, b = f.ptmp.present, c = f.crc.present, t = f.ctmp.present;
	if (!t) return a && c && P.match(f.pay, f.crc) ? 1 : 0;
	if (b) {
		if (!a && !b) return 0;
		if (P.match(f.ptmp, f.ctmp)) return 3;
		if (a && c) return P.match(f.pay, f.crc) ? 1 : 0;
		return 0;
	}
	if (!a) return 0;
	if (c && P.match(f.pay, f.crc)) return 1;
	return P.match(f.pay, f.ctmp) ? 2 : 0;
}
Ver pick_payload(const Pairs &P, u32 bias)
{
	Ver v;
	switch (pickw({2, 6, 1, 1, 1, 1})) {
	case 0: return v;
	case 1: v.present = true; v.data = P.data[bias]; return v;
	case 2: v.present = true; v.data = P.data[choose(3)]; return v;
	case 3: v.present = true; return v; // emptied
	case 4: v.present = true; v.data = P.data[bias]; v.data.resize(choose((u32)v.data.size() + 1)); return v;
	default: v.present = true; v.data = P.data[bias]; if (v.data.size()) v.data[choose((u32)v.data.size())] ^= (char)(1u << choose(8)); return v;
	}
}
Ver pick_crc(const Pairs &P, u32 bias)
{
	Ver v;
	switch (pickw({2, 6, 2, 1, 2, 1})) {
	case 0: return v;
	case 1: v.present = true; v.data = P.crc[bias]; return v;
	case 2: v.present = true; v.data = P.crc[choose(3)]; return v;
	case 3: v.present = true; return v;
	case 4: v.present = true; v.data = P.crc[bias]; v.data.resize(choose((u32)v.data.size())); return v;
	default: v.present = true; v.data = P.crc[bias]; v.data[choose((u32)v.data.size())] ^= (char)(1u << choose(8)); return v;
	}
}
void put(const std::string &p, const Ver &v) { if (v.present) fs_put(p, v.data); }
void expect(const std::string &path, const Pairs &P, const Four &f, int r, const char *when)
{
	Four a = look4(path);
	int s = table(f, P);
	if (a.ptmp.present || a.ctmp.present) FAIL("temporary-left", "%s: the check returned %d and left %s; before: %s", when, r, show4(a).c_str(), show4(f).c_str());
	if (s == 0) {
		if (r == 0) FAIL("invalid-pair-accepted", "%s: the check returned 0 but no selectable pair matches; before: %s", when, show4(f).c_str());
		if (a.pay.present || a.crc.present) FAIL("not-erased", "%s: no selectable pair matches but the check left %s; before: %s", when, show4(a).c_str(), show4(f).c_str());
		return;
	}
	const Ver &wp = s == 3 ? f.ptmp : f.pay, &wc = s == 1 ? f.crc : f.ctmp;
	if (r != 0) FAIL("pair-lost", "%s: the check returned %d although a selectable pair matches (row %d); before: %s", when, r, s, show4(f).c_str());
	if (!(a.pay == wp) || !(a.crc == wc)) FAIL("wrong-version", "%s: the check left %s instead of the pair the table selects (row %d); before: %s", when, show4(a).c_str(), s, show4(f).c_str());
}
}
SCENARIO("C04", safew_check_table, 10)
{
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	Pairs P;
	P.make(3);
	std::string path = pick_path("/data", 0);
	bool too_long = path.size() > 127;
	u32 o = choose(3), n = choose(3);
	Four f{pick_payload(P, o), pick_payload(P, n), pick_crc(P, choose(4) ? o : n), pick_crc(P, choose(4) ? n : o)};
	put(path, f.pay); put(path + TMP, f.ptmp); put(path + CRC, f.crc); put(path + CRCTMP, f.ctmp);
	fs_put("/data/other", "unrelated");
	int s = table(f, P);
	describe("check of %s", show4(f).c_str());
	bool faults = choose(2);
	int r = 1;
	if (too_long) {
		// longer than the documented maximum: refused without touching anything, or handled
		in_process(NONE, [&] { r = check(path); });
		if (r == 0 || !(look4(path) == f)) expect(path, P, f, r, "check of a long path");
	} else if (!faults) {
		in_process(NONE, [&] { r = check(path); });
		expect(path, P, f, r, "check");
	} else {
		std::vector<Ver> pays;   // valid pairs among the four files
		if (P.match(f.pay, f.crc) || P.match(f.pay, f.ctmp)) pays.push_back(f.pay);
		if (P.match(f.ptmp, f.ctmp)) pays.push_back(f.ptmp);
		int rounds = 1 + (int)choose(3);
		Four before = f;
		for (int k = 0; k < rounds; k++) {
			choose_faults(FM(F_NOMEM) | FM(F_EIO_READ) | FM(F_SHORT_READ) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_RENAME) | FM(F_UNLINK) | FM(F_CLOSE) | FM(F_FSYNC), 24);
			W->F.left = W->F.left > 4 ? 4 : W->F.left;
			in_process(NONE, [&] { r = check(path); });
			W->F = FaultCfg();
			Four a = look4(path);
			if (r == 0 && !P.match(a.pay, a.crc)) FAIL("invalid-pair-accepted", "with a fault, the check returned 0 and left %s; before: %s", show4(a).c_str(), show4(before).c_str());
			before = a;
		}
		in_process(NONE, [&] { r = check(path); });
		Four a = look4(path);
		if (s) {
			bool ok = r == 0 && P.match(a.pay, a.crc);
			bool known = false;
			for (auto &p : pays) if (a.pay == p) known = true;
			if (!ok || !known) FAIL("pair-lost", "after a check that met a system error, a clean check returns %d and leaves %s; at first: %s", r, show4(a).c_str(), show4(f).c_str());
		}
		expect(path, P, before, r, "clean check after faults");
	}
	if (!(look("/data/other") == Ver{true, "unrelated"})) FAIL("unrelated-file-changed", "an unrelated file was changed");
}
SCENARIO("C04", safew_check_neighbours, 2)
{
	// several threads check paths of their own
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	Pairs P;
	P.make(3);
	int nt = 2 + (int)choose(2);
	std::vector<std::string> path((size_t)nt);
	std::vector<Four> f((size_t)nt);
	std::vector<int> r((size_t)nt, 1);
	std::string d;
	for (int i = 0; i < nt; i++) {
		size_t k = (size_t)i;
		path[k] = "/data/f" + std::to_string(i);
		u32 o = choose(3), n = choose(3);
		f[k] = Four{pick_payload(P, o), pick_payload(P, n), pick_crc(P, choose(4) ? o : n), pick_crc(P, choose(4) ? n : o)};
		put(path[k], f[k].pay); put(path[k] + TMP, f[k].ptmp); put(path[k] + CRC, f[k].crc); put(path[k] + CRCTMP, f[k].ctmp);
		d += " [" + show4(f[k]) + "]";
	}
	choose_sched(nt);
	describe("%d threads check paths of their own:%s", nt, d.c_str());
	in_process(NONE, [&] {
		std::vector<int> tid;
		for (int i = 1; i < nt; i++) tid.push_back(spawn("app2", [&, i] { r[(size_t)i] = check(path[(size_t)i]); }, W->crash_proc));
		r[0] = check(path[0]);
		for (int t : tid) join(t);
	});
	for (int i = 0; i < nt; i++) expect(path[(size_t)i], P, f[(size_t)i], r[(size_t)i], "check");
}
SCENARIO("C04", safew_check_after_history, 3)
{
	// states as real histories leave them, then damaged on the medium
	fs_choose_cfg();
	W->cfg.vis_cap = 4000000;
	fs_mkdir("/data");
	Pairs P;
	P.make(4);
	std::string path = "/data/f";
	int n = 1 + (int)choose(3);
	std::set<int> all;
	for (int k = 0; k < n; k++) {
		Use u;
		u.path = path;
		u.data = P.data[choose(4)];
		u.with_crc = choose(5) != 4;
		in_process(k + 1 == n || choose(2) ? KILL : NONE, [&] { use_run(u); });
	}
	static const char *sfx[] = {"", ".tmp", ".crc", ".crc.tmp"};
	if (choose(2)) {
		std::string p = path + sfx[choose(4)], d;
		if (fs_get(p, d)) {
			if (choose(2) || d.empty()) fs_remove(p);
			else { d[choose((u32)d.size())] ^= (char)(1u << choose(8)); fs_put(p, d); }
			count_fault(F_CORRUPT);
		}
	}
	Four f = look4(path);
	describe("check after %d writes: %s", n, show4(f).c_str());
	int r = 1;
	in_process(NONE, [&] { r = check(path); });
	expect(path, P, f, r, "check");
}
