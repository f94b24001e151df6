// C17: hash table against a map
#include "common.h"
#include <algorithm>
#include <stddef.h>
#include <futils/hash.h>
#define H17(fn, ...) (legacy ? hash_##fn(__VA_ARGS__) : futils_hash_##fn(__VA_ARGS__))

struct Ent17 { u32 key; void *data; bool cst; };
static std::map<int, std::vector<void *>> *freed17; // by thread
static void hfree17(void *d) { (*freed17)[self()].push_back(d); }

static void user17(bool alone, bool first)
{
	Buf hb(sizeof(struct hash));
	memset(hb.p, 0xa5, sizeof(struct hash));
	struct hash *h = (struct hash *)hb.p;
	std::vector<void *> &fr = (*freed17)[self()];
	std::vector<Ent17> m;
	bool alive = false, withfree = false, faulty = chance(600000);
	u64 serial = first ? 0x1000 : 0x1000000;
	bool legacy = chance(250000); // the names without prefix
	// keys: few, colliding, or anything
	u32 kmode = choose(4);
	u32 kbase = (u32)choose64();
	auto key = [&]() -> u32 {
		switch (kmode) {
		case 0: return choose(12);
		case 1: { u32 k = choose(6); u32 lo = (kbase & 0x1f) + k, b1 = 0xf0 - 33 * k; return (kbase & 0xffff0000) | ((b1 & 0xff) << 8) | (lo & 0xff); }
		case 2: return m.empty() || chance(400000) ? (u32)choose64() : m[choose((u32)m.size())].key;
		default: { static const u32 e[] = {0, 1, ~0u, ~0u - 1, 0x80000000u, 0x7fffffff, 0xff, 0x100, 0xffff, 0x10000}; return e[choose(10)]; }
		}
	};
	u32 steps = 1 + log_uniform(chance(50000) ? 1200 : alone ? 120 : 60);
	if (faulty) choose_faults(FM(F_NOMEM), 10);
	if (first) describe("%s%u operations, %s keys%s", alone ? "" : "two tables in two threads, ", steps, kmode == 0 ? "few" : kmode == 1 ? "colliding" : kmode == 2 ? "random" : "extreme", faulty ? ", failing allocations" : "");
	auto find = [&](u32 k) -> int { for (size_t i = 0; i < m.size(); i++) if (m[i].key == k) return (int)i; return -1; };
	auto expect_freed = [&](std::vector<void *> want, const char *what) {
		if (!withfree) want.clear();
		std::vector<void *> a = fr;
		std::sort(a.begin(), a.end());
		std::sort(want.begin(), want.end());
		if (a != want) FAIL("release-callback", "%s: the release callback ran for %zu entries (%zu expected), or for other ones", what, a.size(), want.size());
		fr.clear();
	};
	auto verify = [&](const char *what) {
		if (!alive) return;
		size_t i = 0;
		struct list_node *n = h->entries.next, *prev = &h->entries;
		for (; n != &h->entries; prev = n, n = n->next, i++) {
			check_range(n, sizeof(struct hash_entry), false, "iteration");
			struct hash_entry *e = (struct hash_entry *)((char *)n - offsetof(struct hash_entry, node));
			if (i >= m.size()) FAIL("iteration", "%s: iteration lists more than the %zu live entries", what, m.size());
			if (n->prev != prev) FAIL("iteration", "%s: the entry list is broken", what);
			if (e->key != m[i].key || e->data != m[i].data) FAIL("iteration", "%s: entry %zu of the iteration is key %u, expected key %u", what, i, e->key, m[i].key);
		}
		if (i != m.size()) FAIL("iteration", "%s: iteration lists %zu of %zu live entries", what, i, m.size());
		if (h->entries.prev != prev) FAIL("iteration", "%s: the entry list is broken", what);
	};
	auto check_key = [&](u32 k) {
		int i = find(k);
		void *d = (void *)0x77;
		const void *cd = (void *)0x77;
		int r = lib([&] { return H17(lookup, h, k, choose(8) ? &d : nullptr); });
		int rc = lib([&] { return H17(lookup_const, h, k, &cd); });
		if (i < 0) {
			if (r != -ENOENT || rc != -ENOENT) FAIL("lookup-missing", "key %u is not stored, lookup returned %d, constant lookup %d", k, r, rc);
			if (d != (void *)0x77 || cd != (void *)0x77) FAIL("lookup-output", "a failed lookup wrote its result");
		} else if (m[i].cst) {
			if (r >= 0) FAIL("lookup-const", "a constant value is available through the ordinary lookup");
			if (rc || cd != m[i].data) FAIL("lookup-wrong", "constant lookup of key %u returned %d, %p instead of %p", k, rc, cd, m[i].data);
		} else {
			if (r || (d != (void *)0x77 && d != m[i].data)) FAIL("lookup-wrong", "lookup of key %u returned %d, %p instead of %p", k, r, d, m[i].data);
		}
	};
	for (u32 s = 0; s < steps; s++) {
		u32 f0 = fault_here(F_NOMEM);
		if (!alive) {
			withfree = choose(2);
			static const size_t sz[] = {0, 1, 2, 3, 6, 7, 13, 16, 100, 1000, 70000, 0x7ffffffe, 0x7fffffff, 0xffffffffu, (size_t)-1};
			u32 zi = chance(30000) ? 10 + choose(5) : choose(10);
			size_t size = sz[zi];
			int r = lib([&] { return legacy && !withfree ? hash_init(h, size) : futils_hash_init(h, size, withfree ? hfree17 : nullptr); });
			if (r == 0) { alive = true; m.clear(); }
			else {
				if (r > 0 || r < -4095) FAIL("init-result", "futils_hash_init returned %d", r);
				if (f0 == fault_here(F_NOMEM) && zi < 11) FAIL("init-failed", "futils_hash_init(%zu) returned %d although nothing failed", size, r);
				if (alone && lib_live_blocks()) FAIL("leak-memory", "failed initialisation:%s", lib_live_desc().c_str());
				probe("initialisation failed for lack of memory");
			}
			if (!fr.empty()) FAIL("release-callback", "initialisation ran the release callback");
			continue;
		}
		switch (pickw({10, 5, 3, 1, 1, 1})) {
		case 0: {
			u32 k = key();
			bool cst = chance(300000);
			void *d = chance(50000) ? nullptr : (void *)(serial += 16);
			int r = lib([&] { return cst ? H17(insert_const, h, k, d) : H17(insert, h, k, d); });
			note("insert%s key %u = %d", cst ? " constant" : "", k, r);
			if (find(k) >= 0) {
				bool nomem = r < 0 && f0 != fault_here(F_NOMEM);
				if (r != -EEXIST && !nomem) FAIL("insert-duplicate", "inserting key %u again returned %d", k, r);
				if (r >= 0) FAIL("insert-duplicate", "inserting key %u again returned %d", k, r);
			} else if (r == 0) m.push_back({k, d, cst});
			else {
				if (r > 0 || r < -4095) FAIL("insert-result", "insertion returned %d", r);
				if (f0 == fault_here(F_NOMEM)) FAIL("insert-failed", "inserting new key %u returned %d although nothing failed", k, r);
				probe("insertion failed for lack of memory");
			}
			expect_freed({}, "insertion");
			break;
		}
		case 1: check_key(key()); break;
		case 2: {
			u32 k = key();
			int i = find(k);
			int r = lib([&] { return H17(remove, h, k); });
			note("remove key %u = %d", k, r);
			if (i < 0) { if (r != -ENOENT) FAIL("remove-missing", "removing the unknown key %u returned %d", k, r); expect_freed({}, "refused removal"); }
			else {
				if (r) FAIL("remove-failed", "removing key %u returned %d", k, r);
				expect_freed({m[i].data}, "removal");
				m.erase(m.begin() + i);
			}
			break;
		}
		case 3: {
			std::vector<void *> w;
			for (auto &e : m) w.push_back(e.data);
			int r = lib([&] { return H17(remove_all, h); });
			if (r) FAIL("clear-failed", "futils_hash_remove_all returned %d", r);
			m.clear();
			expect_freed(w, "clearing");
			break;
		}
		case 4: {
			if (chance(500000)) break;
			std::vector<void *> w;
			for (auto &e : m) w.push_back(e.data);
			int r = lib([&] { return H17(destroy, h); });
			if (r) FAIL("destroy-failed", "futils_hash_destroy returned %d", r);
			m.clear();
			alive = false;
			expect_freed(w, "destruction");
			if (alone && lib_live_blocks()) FAIL("leak-memory", "destruction:%s", lib_live_desc().c_str());
			break;
		}
		default: {
			// arguments
			void *d;
			const void *cd;
			if (lib([&] { return futils_hash_insert(nullptr, 1, &d); }) >= 0 || lib([&] { return futils_hash_insert_const(nullptr, 1, &d); }) >= 0 || lib([&] { return futils_hash_remove(nullptr, 1); }) >= 0 ||
			    lib([&] { return futils_hash_lookup(nullptr, 1, &d); }) >= 0 || lib([&] { return futils_hash_lookup_const(nullptr, 1, &cd); }) >= 0 || lib([&] { return futils_hash_remove_all(nullptr); }) >= 0 ||
			    lib([&] { return futils_hash_destroy(nullptr); }) >= 0 || lib([&] { return futils_hash_init(nullptr, 3, nullptr); }) >= 0)
				FAIL("arguments", "a null table was accepted");
		}
		}
		verify("after an operation");
		if (!alone && choose(3) == 0) yield_point();
		if (alive && (chance(200000) || s + 1 == steps)) for (auto e : std::vector<Ent17>(m)) check_key(e.key);
	}
	if (alive) {
		std::vector<void *> w;
		for (auto &e : m) w.push_back(e.data);
		lib([&] { return H17(destroy, h); });
		expect_freed(w, "final destruction");
	}
	xfree(hb.p);
}
SCENARIO("C17", history, 1)
{
	choose_env();
	W->cfg.step_cap = 400000000;
	std::map<int, std::vector<void *>> fr;
	freed17 = &fr;
	bool two = chance(120000);
	int t = -1;
	if (two) {
		choose_sched(2);
		if (!W->cfg.hold && choose(2)) { W->cfg.preempt = W->cfg.fine = true; W->cfg.preempt_left = 3000; }
		probe("two tables in two threads");
		t = spawn("other", [] { user17(false, false); });
	}
	user17(!two, true);
	if (two) join(t);
	check_no_leak("hash");
}
