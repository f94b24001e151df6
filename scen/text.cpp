// C29: path and string helpers in a process of many threads and little memory
#include "common.h"
#include <algorithm>
#include "../probe/textprobe.h"

// POSIX dirname and basename, by components
static std::string ref_dir(const std::string &p, bool base)
{
	if (p.empty()) return ".";
	size_t e = p.size();
	while (e > 0 && p[e - 1] == '/') e--;
	if (!e) return "/";
	size_t b = e;
	while (b > 0 && p[b - 1] != '/') b--;
	if (base) return p.substr(b, e - b);
	if (!b) return ".";
	size_t d = b;
	while (d > 0 && p[d - 1] == '/') d--;
	return d ? p.substr(0, d) : "/";
}
static bool two_slashes(const std::string &p) { return p.size() >= 2 && p[0] == '/' && p[1] == '/'; }
static std::string gen_path()
{
	std::string s;
	static const char *part[] = {"a", "usr", ".", "..", "...", "lib.so.1", " ", "b c", ".hidden", "x\xc3\xa9", "A-B_c"};
	u32 n = choose(6);
	if (choose(2)) s += std::string(1 + (choose(4) ? 0 : choose(3)), '/');
	for (u32 i = 0; i < n; i++) {
		if (chance(50000)) s += std::string(log_uniform(5000), (char)('a' + choose(26)));
		else s += part[choose(11)];
		if (i + 1 < n || !choose(3)) s += std::string(1 + (choose(4) ? 0 : choose(3)), '/');
	}
	return s;
}
static std::string gen_text()
{
	std::string s;
	u32 n = choose(3) ? choose(8) : log_uniform(3000);
	u32 k = choose(4);
	for (u32 i = 0; i < n; i++) s += k == 0 ? (char)('a' + choose(2)) : k == 1 ? (char)choose(256) : k == 2 ? (char)(choose(2) ? 'A' + choose(26) : 'a' + choose(26)) : (char)choose(3);
	return s;
}
SCENARIO("C29", helpers, 1)
{
	u32 users = 1 + choose(4), n = 1 + choose(10);
	choose_sched((int)users);
	n = more_calls(n);
	bool faulty = chance(400000);
	describe("%u threads, %u calls each%s", users, n, faulty ? ", failing allocations" : "");
	if (faulty) choose_faults(FM(F_NOMEM), 6);
	std::vector<int> tid;
	for (u32 k = 0; k < users; k++) tid.push_back(spawn("user", [=] {
		for (u32 i = 0; i < n; i++) {
			yield_point();
			u32 fn = choose(5);
			std::string a, b;
			if (fn <= TP_BASENAME) a = gen_path();
			else {
				a = gen_text();
				// related to the text, or not
				size_t c = choose((u32)a.size() + 1);
				switch (choose(5)) {
				case 0: b = a.substr(0, c); break;
				case 1: b = a.substr(c); break;
				case 2: b = a.substr(0, c); if (!b.empty()) b[choose((u32)b.size())] ^= (char)(1 << choose(8)); break;
				case 3: b = choose(2) ? a + gen_text() : gen_text() + a; break;
				default: b = gen_text(); break;
				}
			}
			if (chance(2000)) {
				size_t c = choose((u32)a.size() + 1), w = limit_len();
				a.insert(c, std::string(w, (char)('A' + choose(58))));
				if (fn > TP_BASENAME && choose(2)) b.insert(choose((u32)b.size() + 1), std::string(w, 'z'));
				if (fn > TP_BASENAME && choose(2)) b = choose(2) ? a.substr(choose(9)) : a.substr(0, a.size() - choose((u32)a.size() > 9 ? 9 : (u32)a.size()));
				probe("a long string");
			}
			Buf x(a.size()), y(b.size()), o(a.size() + 8);
			memcpy(x.p, a.data(), a.size());
			memcpy(y.p, b.data(), b.size());
			u32 f0 = fault_here(F_NOMEM);
			long r = lib([&] { return textprobe((int)fn, (char *)x.p, a.size(), (char *)y.p, b.size(), (char *)o.p, o.n); });
			bool nomem = fault_here(F_NOMEM) != f0;
			std::string got = r >= 0 && fn != TP_STARTS && fn != TP_ENDS ? std::string((char *)o.p, (size_t)r) : "";
			xfree(x.p);
			xfree(y.p);
			xfree(o.p);
			static const char *fnn[] = {"dirname", "basename", "startsWith", "endsWith", "convertToLowerCase"};
			ev("text", fn, (i64)a.size(), r);
			note("%s('%s', '%s') = %ld '%s'", fnn[fn], a.c_str(), b.c_str(), r, got.c_str());
			if (r == TP_NOMEM) { if (!nomem && !faulty) FAIL("out-of-memory", "%s of %zu bytes ran out of memory although no allocation failed", fnn[fn], a.size()); probe("no memory for the result"); continue; }
			if (r == TP_CHANGED) FAIL("input-changed", "%s changed its argument", fnn[fn]);
			if (r < 0) FAIL("helper-failed", "%s of %zu bytes: %s", fnn[fn], a.size(), r == TP_TOOLONG ? "the result is longer than its argument" : "unexpected exception");
			switch (fn) {
			case TP_DIRNAME: case TP_BASENAME: {
				std::string want = ref_dir(a, fn == TP_BASENAME);
				bool ok = got == want || (two_slashes(a) && want == "/" && got == "//");
				// documented answers when the work cannot be done
				if (faulty && got == (fn == TP_DIRNAME ? "." : "")) ok = true;
				if (!ok) FAIL("wrong-part", "%s of '%s' is '%s', not '%s'", fnn[fn], a.c_str(), got.c_str(), want.c_str());
				break;
			}
			case TP_STARTS: case TP_ENDS: {
				bool want = b.size() <= a.size();
				for (size_t q = 0; want && q < b.size(); q++) if (b[q] != a[fn == TP_STARTS ? q : a.size() - b.size() + q]) want = false;
				if (r != (long)want) FAIL("wrong-answer", "%s of %zu and %zu bytes answered %ld", fnn[fn], a.size(), b.size(), r);
				break;
			}
			default: {
				std::string want = a;
				for (char &c : want) if (c >= 'A' && c <= 'Z') c += 32;
				if (got != want) FAIL("wrong-case", "the lower case form of %zu bytes is wrong", a.size());
			}
			}
		}
	}));
	for (int t : tid) join(t);
	check_no_leak("text helpers");
}
// ------------------------------------------------------------------ C30
extern "C" {
#include "../probe/macroprobe.h"
}
// limits and values that other threads change while they are compared
template <class T> struct Cells {
	T *v[3];
	std::vector<std::pair<u64, T>> hist[3];   // (sequence number, value from then on)
	// the values cell i had at some moment between s and now
	std::vector<T> during(int i, u64 s)
	{
		std::vector<T> o;
		for (size_t k = 0; k < hist[i].size(); k++) if (k + 1 == hist[i].size() || hist[i][k + 1].first > s) o.push_back(hist[i][k].second);
		return o;
	}
};
template <class T> static T gen_num(bool extremes)
{
	if (extremes) return choose(2) ? (T)choose64() : (T)(choose64() >> choose(64));
	return (T)((int)choose(11) - 5);
}
template <class T> static void macro_users(T (*f)(int, volatile T *, volatile T *, volatile T *), const char *type)
{
	auto C = std::make_shared<Cells<T>>();
	auto seq = std::make_shared<u64>(1);
	bool extremes = choose(2);
	for (int i = 0; i < 3; i++) { C->v[i] = (T *)xalloc(sizeof(T)); *C->v[i] = gen_num<T>(extremes); C->hist[i].push_back({0, *C->v[i]}); }
	u32 nw = choose(3), nr = 1 + choose(2), n = 1 + choose(12);
	describe("%s: %u writers, %u readers, %u evaluations each", type, nw, nr, n);
	std::vector<int> tid;
	for (u32 k = 0; k < nw; k++) tid.push_back(spawn("writer", [=] {
		for (u32 i = 0; i < n * 2; i++) {
			u32 c = choose(3);
			*C->v[c] = gen_num<T>(extremes);
			C->hist[c].push_back({++*seq, *C->v[c]});
			count_fault(F_CONCURRENT);
			yield_point();
		}
	}));
	for (u32 k = 0; k < nr; k++) tid.push_back(spawn("reader", [=] {
		for (u32 i = 0; i < n; i++) {
			yield_point();
			int op = (int)choose(3);
			u64 s = *seq;
			T r = lib([&] { return f(op, C->v[0], C->v[1], C->v[2]); });
			ev("macro", op, (i64)r);
			auto a = C->during(0, s), m = C->during(1, s), M = op == MP_BOUND ? C->during(2, s) : std::vector<T>{T()};
			bool ok = false;
			for (T x : a) for (T y : m) for (T z : M) {
				T want = op == MP_MIN ? (y < x ? y : x) : op == MP_MAX ? (x < y ? y : x) : x < y ? y : z < x ? z : x;
				if (want == r) ok = true;
				if (op == MP_BOUND && z < y && r == (z < x ? z : x < y ? y : x)) ok = true; // limits crossed: either order
			}
			if (a.size() > 1 || m.size() > 1 || M.size() > 1) probe("an operand changed during the evaluation");
			static const char *on[] = {"MIN", "MAX", "BOUND"};
			if (!ok) FAIL("wrong-result", "%s of %s values is %lld, which no values of its operands give (%lld, %lld, %lld before)", on[op], type, (long long)r, (long long)a[0], (long long)m[0], (long long)M[0]);
		}
	}));
	for (int t : tid) join(t);
	for (int i = 0; i < 3; i++) xfree(C->v[i]);
}
SCENARIO("C30", shared_operands, 3)
{
	u32 t = choose(7);
	choose_sched(3);
	switch (t) {
	case 0: macro_users<int32_t>(mp_i32, "int32"); break;
	case 1: macro_users<uint32_t>(mp_u32, "uint32"); break;
	case 2: macro_users<int64_t>(mp_i64, "int64"); break;
	case 3: macro_users<uint64_t>(mp_u64, "uint64"); break;
	case 4: macro_users<double>(mp_dbl, "double"); break;
	case 5: macro_users<int8_t>(mp_i8, "int8"); break;
	default: macro_users<uint16_t>(mp_u16, "uint16"); break;
	}
}
// operands with effects: clock readings, taking the next ticket
struct Calls30 { std::vector<i64> got[3]; bool clock; i64 next; };
static int64_t call30(int i, void *arg)
{
	Calls30 *c = (Calls30 *)arg;
	if (chance(300000)) W->mono += (i64)log_uniform(1000000);
	i64 v = c->clock && i == 0 ? W->mono : (c->next += 1 + choose(3));
	if (!c->clock && choose(2)) v = -v;
	c->got[i].push_back(v);
	return v;
}
// operands of different types, each within the range of its own
struct Calls30m { int k; std::vector<i64> got[3]; };
// types by case and operand: bits, sign
static const int mixed_types[MP_MIXED][3] = {{32, 64}, {64, 32}, {8, 64}, {64, 8}, {32, 32}, {32, 32}, {8, 32}, {-8, 64}, {-16, 32}, {-32, 64}, {64, 32, 32}, {32, 64, 64}, {8, 32, 64}, {32, 32, 32}, {32, 32, 8}, {64, 8, -32}};
static int64_t call30m(int i, void *arg)
{
	Calls30m *c = (Calls30m *)arg;
	int t = mixed_types[c->k][i], bits = t < 0 ? -t : t;
	u64 raw = choose(3) ? choose64() >> choose(64) : choose(8);
	i64 v;
	if (choose(2) && !c->got[0].empty() && i) raw = (u64)c->got[choose((u32)i)][0] + choose(3) - 1;
	if (t < 0) v = (i64)(raw & ((1ull << bits) - 1));
	else {
		v = bits == 64 ? (i64)raw : (i64)(raw << (64 - bits)) >> (64 - bits);
		if (choose(2)) v = (i64)(0 - (u64)v);
		if (bits < 64) v = (i64)((u64)v << (64 - bits)) >> (64 - bits);
	}
	c->got[i].push_back(v);
	return v;
}
static void mixed30()
{
	Calls30m c = {(int)choose(MP_MIXED), {}};
	long double r = lib([&] { return mp_mixed(c.k, call30m, &c); });
	ev("mixed", c.k, (i64)(r * 4));
	bool bound = c.k >= 10;
	long double v[3] = {0, 0, 0};
	for (int i = 0; i < (bound ? 3 : 2); i++) {
		if (c.got[i].size() != 1) FAIL("evaluated-again", "operand %d was evaluated %zu times", i, c.got[i].size());
		v[i] = (long double)c.got[i][0];
	}
	switch (c.k) {
	case 4: v[1] /= 4; break;
	case 5: v[0] /= 4; break;
	case 6: v[0] /= 4; v[1] /= 4; break;
	case 13: v[0] /= 4; break;
	case 14: v[1] /= 4; break;
	}
	static const bool is_max[] = {0, 0, 1, 1, 0, 1, 0, 1, 0, 1};
	if (bound && v[1] > v[2]) return; // limits crossed
	long double want = bound ? v[0] < v[1] ? v[1] : v[0] > v[2] ? v[2] : v[0] : is_max[c.k] ? std::max(v[0], v[1]) : std::min(v[0], v[1]);
	if (r != want) FAIL("wrong-result", "%s of operands of different types %.2Lf, %.2Lf, %.2Lf is %.2Lf instead of %.2Lf (case %d)", bound ? "BOUND" : is_max[c.k] ? "MAX" : "MIN", v[0], v[1], v[2], r, want, c.k);
}
SCENARIO("C30", operands_with_effects, 1)
{
	choose_env();
	u32 n = 1 + choose(10);
	describe("%u evaluations", n);
	i64 last = 0;
	for (u32 i = 0; i < n; i++) {
		Calls30 c = {{}, (bool)choose(2), (i64)log_uniform(100000)};
		int op = (int)choose(3);
		if (c.clock) c.next += W->mono - 50000;
		i64 r = lib([&] { return mp_call(op, call30, &c); });
		ev("macro", op, r);
		for (int k = 0; k < (op == MP_BOUND ? 3 : 2); k++)
			if (c.got[k].size() != 1) FAIL("evaluated-again", "operand %d was evaluated %zu times", k, c.got[k].size());
		i64 x = c.got[0][0], y = c.got[1][0], z = op == MP_BOUND ? c.got[2][0] : 0;
		i64 want = op == MP_MIN ? std::min(x, y) : op == MP_MAX ? std::max(x, y) : x < y ? y : x > z ? z : x;
		if (r != want) FAIL("wrong-result", "operands %lld, %lld, %lld give %lld instead of %lld", (long long)x, (long long)y, (long long)z, (long long)r, (long long)want);
		last = r;
		mixed30();
		int w = lib([&] { return mp_const((unsigned)choose(1000)); });
		if (w) FAIL("constant", "helper macro check %d failed", w);
	}
	(void)last;
}
