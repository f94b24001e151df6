// C24: intrusive lists as the queues of a message broker
#include "common.h"
#include <algorithm>
#include <deque>
#include <stddef.h>
#include <futils/list.h>
extern "C" {
#include "../probe/listprobe.h"
}

typedef struct list_node Node;
enum { PENDING, ACTIVE, EXPIRED, ALL, NLISTS };
static const char *lname[] = {"pending", "active", "expired", "all"};
struct Broker {
	int k;
	Node *head[NLISTS];
	std::vector<u32> m[NLISTS];          // who should be in it, in order
	std::map<u32, lp_item *> items;
	std::set<Node *> owned;              // heads allocated here
	u32 next_id = 1;
	Node *node(u32 l, u32 id) { return l == ALL ? &items[id]->other : &items[id]->node; }
	Node *at(u32 l, size_t i) { return i < m[l].size() ? node(l, m[l][i]) : head[l]; }
	static u32 id_of(Node *n, u32 l) { return ((lp_item *)((char *)n - (l == ALL ? offsetof(lp_item, other) : offsetof(lp_item, node))))->id; }
};
static Node *new_head(Broker *B)
{
	Node *h = (Node *)xalloc(sizeof(Node));
	memset((void *)h, 0xa5, sizeof *h);
	B->owned.insert(h);
	return h;
}
static void walk_cb(struct lp_item *i, void *arg)
{
	auto *got = (std::vector<u32> *)arg;
	check_range(i, sizeof *i, false, "iteration");
	if (got->size() > 10000) FAIL("endless", "an iteration does not end");
	got->push_back(i->id);
}
static void verify(Broker *B, u32 l, const char *what)
{
	auto &m = B->m[l];
	Node *h = B->head[l];
	size_t i = 0;
	Node *p = h;
	for (Node *n = h->next; n != h; p = n, n = n->next, i++) {
		if (i >= m.size()) FAIL("ring", "%s: the %s list visits more than its %zu members", what, lname[l], m.size());
		if (n != B->node(l, m[i])) FAIL("ring", "%s: member %zu of the %s list is not %u", what, i, lname[l], m[i]);
		check_range(n, sizeof *n, false, "ring");
		if (n->prev != p) FAIL("ring", "%s: the way back from member %zu of the %s list is broken", what, i, lname[l]);
	}
	if (i != m.size()) FAIL("ring", "%s: the %s list visits %zu of its %zu members", what, lname[l], i, m.size());
	if (h->prev != p) FAIL("ring", "%s: the way back from the end of the %s list is broken", what, lname[l]);
	if (!chance(300000)) return;
	size_t n = m.size();
	if (lib([&] { return lp_num(LP_LENGTH, h, nullptr); }) != (long)n) FAIL("length", "%s: length of the %s list with %zu members is wrong", what, lname[l], n);
	if (lib([&] { return lp_num(LP_IS_EMPTY, h, nullptr); }) != (n == 0)) FAIL("emptiness", "%s: the %s list with %zu members is %sempty", what, lname[l], n, n ? "" : "not ");
	if (lib([&] { return lp_get(LP_FIRST, h, nullptr); }) != B->at(l, 0)) FAIL("ends", "%s: wrong first member of the %s list", what, lname[l]);
	if (lib([&] { return lp_get(LP_LAST, h, nullptr); }) != (n ? B->at(l, n - 1) : h)) FAIL("ends", "%s: wrong last member of the %s list", what, lname[l]);
	if (n) {
		size_t q = choose((u32)n);
		Node *x = B->at(l, q);
		if (lib([&] { return lp_get(LP_NEXT, h, x); }) != (q + 1 < n ? B->at(l, q + 1) : nullptr)) FAIL("neighbour", "%s: wrong successor of member %zu of %zu", what, q, n);
		if (lib([&] { return lp_get(LP_PREV, h, x); }) != (q ? B->at(l, q - 1) : nullptr)) FAIL("neighbour", "%s: wrong predecessor of member %zu of %zu", what, q, n);
		if (lib([&] { return lp_num(LP_IS_LAST, h, x); }) != (q + 1 == n)) FAIL("ends", "%s: member %zu of %zu is%s the last one", what, q, n, q + 1 == n ? " not" : "");
		if (lib([&] { return lp_num(LP_IS_REF, h, x); }) != 1 || lib([&] { return lp_num(LP_IS_UNREF, h, x); }) != 0) FAIL("membership", "%s: a member is said to be in no list", what);
		if (lib([&] { return lp_entry(x, l == ALL); }) != B->items[m[q]]) FAIL("container", "%s: wrong container of a member", what);
	}
	// a node that is elsewhere, or nowhere, is not its last member
	if (B->items.size() > n && chance(300000)) {
		auto it = B->items.begin();
		std::advance(it, choose((u32)B->items.size()));
		Node *x = B->node(l, it->first);
		bool member = false;
		for (u32 id : m) member |= id == it->first;
		if (!member && lib([&] { return lp_num(LP_IS_LAST, h, x); }) != 0) FAIL("ends", "%s: a node outside the %s list of %zu is said to be its last member", what, lname[l], n);
	}
	u32 kind = choose(8);
	std::vector<u32> got, want = m;
	lib([&] { lp_walk((int)kind, h, l == ALL, walk_cb, &got); return 0; });
	if (kind & 1) std::reverse(want.begin(), want.end());
	if (got != want) FAIL("iteration", "%s: iterator %u visits %zu members of the %s list, or in another order (%zu expected)", what, kind, got.size(), lname[l], want.size());
}
static void verify_all(Broker *B, const char *what) { for (u32 l = 0; l < NLISTS; l++) verify(B, l, what); }
static void op(int o, Node *a, Node *b = nullptr, Node *c = nullptr) { lib([&] { lp_op(o, a, b, c); return 0; }); ev("op", o); }
static void unref_check(Node *n, const char *what)
{
	if (lib([&] { return lp_num(LP_IS_UNREF, n, n); }) != 1 || lib([&] { return lp_num(LP_IS_REF, n, n); }) != 0) FAIL("membership", "%s: a removed node is said to be in a list", what);
}
static void drop(std::vector<u32> &v, u32 id) { v.erase(std::find(v.begin(), v.end(), id)); }
static bool in(const std::vector<u32> &v, u32 id) { return std::find(v.begin(), v.end(), id) != v.end(); }
// puts id somewhere into list l
static void insert(Broker *B, u32 l, u32 id, bool fifo)
{
	auto &m = B->m[l];
	Node *n = B->node(l, id), *h = B->head[l];
	if (fifo) {
		if (choose(2)) op(LP_PUSH, h, n); else op(LP_ADD_BEFORE, h, n);
		m.push_back(id);
		return;
	}
	size_t i = choose((u32)m.size() + 1);   // becomes member i
	switch (choose(3)) {
	case 0: op(LP_ADD_BEFORE, B->at(l, i), n); break;
	case 1: op(LP_ADD_AFTER, i ? B->at(l, i - 1) : h, n); break;
	default: op(LP_ADD, n, i ? B->at(l, i - 1) : h, B->at(l, i)); break;
	}
	m.insert(m.begin() + (long)i, id);
}
static void remove_from(Broker *B, u32 l, u32 id)
{
	Node *n = B->node(l, id);
	switch (choose(4)) {
	case 0: {
		// a run of one, cut out
		op(LP_DETACH, n->prev, n->next);
		op(LP_UNREF, n);
		unref_check(n, "unreferenced");
		break;
	}
	case 1:
		op(LP_DEL_INIT, n);
		if (lib([&] { return lp_num(LP_IS_EMPTY, n, nullptr); }) != 1 || n->next != n || n->prev != n) FAIL("membership", "a removed and reinitialised node is not a list of its own");
		break;
	default: op(LP_DEL, n); unref_check(n, "deleted"); break;
	}
	drop(B->m[l], id);
}
static void destroy(Broker *B, u32 id)
{
	remove_from(B, ALL, id);
	lp_item *it = B->items[id];
	B->items.erase(id);
	lib([&] { lp_free(it); return 0; });
}
// what happens to the members met by a safe iteration
struct Sweep { Broker *B; u32 l; u32 rate; std::vector<u32> seen; };
static void sweep_cb(struct lp_item *i, void *arg)
{
	Sweep *S = (Sweep *)arg;
	Broker *B = S->B;
	check_range(i, sizeof *i, false, "iteration");
	u32 id = i->id;
	if (S->seen.size() > 10000) FAIL("endless", "an iteration does not end");
	S->seen.push_back(id);
	bool timeout = i->deadline <= W->mono;
	if (!timeout && !chance(S->rate)) return;
	if (timeout) probe("an entry had timed out");
	if (S->l == ALL) {
		for (u32 l = 0; l < ALL; l++) if (in(B->m[l], id)) remove_from(B, l, id);
		destroy(B, id);
	} else switch (choose(3)) {
		case 0: remove_from(B, S->l, id); destroy(B, id); break;
		case 1: {
			// to a list not being iterated
			u32 to = (S->l + 1 + choose(2)) % 3;
			remove_from(B, S->l, id);
			insert(B, to, id, choose(2));
			break;
		}
		default: {
			u32 to = (S->l + 1 + choose(2)) % 3;
			op(choose(2) ? LP_MOVE_BEFORE : LP_MOVE_AFTER, B->head[to], &i->node);
			drop(B->m[S->l], id);
			if (B->head[to]->prev == &i->node) B->m[to].push_back(id); else B->m[to].insert(B->m[to].begin(), id);
			break;
		}
	}
	if (chance(200000)) verify_all(B, "during an iteration");
}
static void move_any(Broker *B)
{
	// one entry from one place to another, of the same or another list
	u32 from = choose(3), to = choose(3);
	auto &mf = B->m[from], &mt = B->m[to];
	if (choose(5) == 0) from = to = ALL;
	auto &f = B->m[from], &t = B->m[to];
	(void)mf; (void)mt;
	if (f.empty()) return;
	u32 id = pick(f);
	Node *n = B->node(from, id);
	u32 target = choose((u32)t.size() + 1); // size: the head
	Node *at = B->at(to, target);
	if (at == n) return;
	bool before = choose(2);
	u32 tid = target < t.size() ? t[target] : 0;
	op(before ? LP_MOVE_BEFORE : LP_MOVE_AFTER, at, n);
	drop(f, id);
	if (!tid) t.insert(before ? t.end() : t.begin(), id);
	else {
		auto it = std::find(t.begin(), t.end(), tid);
		t.insert(before ? it : it + 1, id);
	}
}
static void replace_any(Broker *B)
{
	bool init = choose(2);
	if (choose(4) == 0) {
		// hand a whole list over to another head
		u32 l = choose(NLISTS);
		if (B->m[l].empty()) return;
		Node *h = new_head(B), *old = B->head[l];
		op(init ? LP_REPLACE_INIT : LP_REPLACE, old, h);
		B->head[l] = h;
		if (init && (old->next != old || old->prev != old)) FAIL("membership", "a head whose members were handed over is not an empty list");
		if (B->owned.erase(old)) {
			memset((void *)old, 0x5a, sizeof *old);
			xfree(old);
		}
		probe("a list was handed over to another head");
		return;
	}
	// a larger copy takes the place of an entry
	if (B->m[ALL].empty()) return;
	u32 id = pick(B->m[ALL]);
	lp_item *old = B->items[id], *neu = lib([&] { return lp_new(id); });
	if (!neu) return;
	neu->deadline = old->deadline;
	bool queued = false;
	for (u32 l = 0; l < ALL; l++) queued |= in(B->m[l], id);
	if (queued) op(init ? LP_REPLACE_INIT : LP_REPLACE, &old->node, &neu->node);
	op(init ? LP_REPLACE_INIT : LP_REPLACE, &old->other, &neu->other);
	if (init && (old->other.next != &old->other || old->other.prev != &old->other || (queued && (old->node.next != &old->node || old->node.prev != &old->node)))) FAIL("membership", "a replaced and reinitialised node is not a list of its own");
	B->items[id] = neu;
	lib([&] { lp_free(old); return 0; });
}

// lists too long for small counters; nodes are the messages of one block
SCENARIO("C24", long_lists, 1)
{
	u32 n = choose(4) ? 200 + choose(400) : choose(8) ? 2 + log_uniform(3000) : 65530 + choose(20);
	u32 rounds = 1 + choose(4);
	choose_env();
	describe("%u members", n);
	Node *h = (Node *)xalloc(2 * sizeof(Node)), *h2 = h + 1;
	Node *v = (Node *)xalloc(n * sizeof(Node));
	memset((void *)v, 0x5a, n * sizeof(Node));
	op(LP_INIT, h);
	op(LP_INIT, h2);
	for (u32 i = 0; i < n; i++) lp_op(LP_PUSH, h, &v[i], nullptr);
	std::deque<Node *> want, other;
	for (u32 i = 0; i < n; i++) want.push_back(&v[i]);
	auto check = [&](Node *l, std::deque<Node *> &w) {
		long len = lib([&] { return lp_num(LP_LENGTH, l, nullptr); });
		ev("length", len);
		if (len != (long)w.size()) FAIL("length", "the length of a list of %zu members is %ld", w.size(), len);
		if (lib([&] { return lp_num(LP_IS_EMPTY, l, nullptr); }) != w.empty()) FAIL("emptiness", "a list of %zu members is %sempty", w.size(), w.empty() ? "" : "not ");
		Node *p = l;
		for (Node *x : w) {
			if (p->next != x || x->prev != p) FAIL("ring", "a list of %zu members is not the ring of its members", w.size());
			p = x;
		}
		if (p->next != l || l->prev != p) FAIL("ring", "a list of %zu members is not closed", w.size());
	};
	check(h, want);
	for (u32 r = 0; r < rounds; r++) {
		u32 c = 1 + log_uniform(n), how = choose(4);
		for (u32 i = 0; i < c && !want.empty(); i++) {
			Node *x;
			switch (how) {
			case 0: x = want.front(); want.pop_front(); lp_op(LP_MOVE_BEFORE, h2, x, nullptr); other.push_back(x); break;
			case 1: x = want.back(); want.pop_back(); lp_op(LP_MOVE_AFTER, h2, x, nullptr); other.push_front(x); break;
			case 2: x = want.front(); want.pop_front(); lp_op(choose(2) ? LP_DEL : LP_DEL_INIT, x, nullptr, nullptr); lp_op(LP_ADD_AFTER, h2, x, nullptr); other.push_front(x); break;
			default: x = want.front(); want.pop_front(); lp_op(LP_DEL, x, nullptr, nullptr); lp_op(LP_PUSH, h, x, nullptr); want.push_back(x); break;
			}
		}
		check(h, want);
		check(h2, other);
	}
	xfree(v);
	xfree(h);
	check_no_leak("long lists");
}
SCENARIO("C24", broker, 8)
{
	u32 nb = 1 + pickw({3, 1});
	u32 threads = 1 + choose(4), steps = 1 + log_uniform(60);
	choose_sched((int)(nb * threads));
	if (choose(2)) W->cfg.stall_ppm = 100000;
	bool faulty = chance(300000);
	if (faulty) choose_faults(FM(F_NOMEM), 10);
	describe("%u brokers, %u threads each, %u steps each%s", nb, threads, steps, faulty ? ", failing allocations" : "");
	std::vector<std::unique_ptr<Broker>> bs;
	std::vector<int> tid;
	for (u32 k = 0; k < nb; k++) {
		bs.push_back(std::make_unique<Broker>());
		Broker *B = bs.back().get();
		B->k = (int)k;
		for (u32 l = 0; l < NLISTS; l++) {
			Node *h = l == PENDING && choose(2) ? lib([&] { return lp_static_head((int)k); }) : nullptr;
			if (!h) { h = new_head(B); op(LP_INIT, h); }
			B->head[l] = h;
		}
		verify_all(B, "initialised");
		for (u32 t = 0; t < threads; t++) tid.push_back(spawn("worker", [=] {
			auto lock = [&] { lib([&] { lp_lock(B->k); return 0; }); };
			auto unlock = [&] { lib([&] { lp_unlock(B->k); return 0; }); };
			u32 held = 0; // an entry taken from the queue and being worked on
			for (u32 s = 0; s < steps; s++) {
				if (choose(2)) yield_point();
				if (chance(100000)) sleep_ns((i64)log_uniform(50000000));
				lock();
				const char *what = "";
				switch (pickw({6, 4, 3, 2, 2, 2, 1})) {
				case 0: {
					what = "insertion";
					u32 id = B->next_id++;
					lp_item *it = lib([&] { return lp_new(id); });
					if (!it) { probe("no memory for an entry"); break; }
					it->deadline = W->mono + (i64)log_uniform(30000000);
					B->items[id] = it;
					unref_check(&it->node, "a new entry");
					insert(B, choose(5) ? PENDING : choose(3), id, choose(4) != 0);
					insert(B, ALL, id, true);
					break;
				}
				case 1: {
					what = "taking the first";
					if (held) break;
					u32 l = choose(4) ? PENDING : choose(3);
					lp_item *it = lib([&] { return lp_pop(B->head[l], 0); });
					ev("pop", it ? it->id : 0);
					if (B->m[l].empty()) { if (it) FAIL("pop-empty", "an entry was taken from an empty list"); break; }
					if (!it || it != B->items[B->m[l][0]]) FAIL("pop-order", "%s was taken from the %s list instead of its first entry %u", it ? "another entry" : "nothing", lname[l], B->m[l][0]);
					held = it->id;
					unref_check(&it->node, "taken");
					B->m[l].erase(B->m[l].begin());
					break;
				}
				case 2: {
					what = "finishing";
					// may have been discarded by a sweep meanwhile
					if (!held || !B->items.count(held)) { held = 0; break; }
					bool queued = false;
					for (u32 l = 0; l < ALL; l++) queued |= in(B->m[l], held);
					if (!queued) {
						if (choose(2)) insert(B, ACTIVE, held, choose(2));
						else destroy(B, held);
					}
					held = 0;
					break;
				}
				case 3: {
					what = "an iteration with removals";
					Sweep S = {B, choose(NLISTS), choose(3) * 300000, {}};
					std::vector<u32> want = B->m[S.l];
					u32 kind = 4 + choose(4);
					if (kind & 1) std::reverse(want.begin(), want.end());
					lib([&] { lp_walk((int)kind, B->head[S.l], S.l == ALL, sweep_cb, &S); return 0; });
					if (S.seen != want) FAIL("iteration", "safe iterator %u met %zu entries of the %s list, or in another order (%zu were in it)", kind, S.seen.size(), lname[S.l], want.size());
					break;
				}
				case 4: what = "a move"; move_any(B); break;
				case 5: what = "a replacement"; replace_any(B); break;
				default: {
					what = "a removal";
					u32 l = choose(3);
					if (B->m[l].empty()) break;
					u32 id = pick(B->m[l]);
					remove_from(B, l, id);
					if (choose(2)) insert(B, choose(3), id, choose(2)); else destroy(B, id);
					break;
				}
				}
				verify_all(B, what);
				unlock();
			}
			// give back what is held
			lock();
			if (held && B->items.count(held)) {
				bool queued = false;
				for (u32 l = 0; l < ALL; l++) queued |= in(B->m[l], held);
				if (!queued) insert(B, PENDING, held, true);
			}
			unlock();
		}));
	}
	for (int t : tid) join(t);
	// everything inserted and not finished is still there, exactly once
	for (auto &b : bs) {
		Broker *B = b.get();
		verify_all(B, "at the end");
		size_t n = 0;
		for (u32 l = 0; l < ALL; l++) {
			for (;;) {
				lp_item *it = lib([&] { return lp_pop(B->head[l], 0); });
				if (!it) break;
				if (B->m[l].empty() || it != B->items[B->m[l][0]]) FAIL("pop-order", "draining the %s list gives other entries than it holds", lname[l]);
				B->m[l].erase(B->m[l].begin());
				n++;
			}
			if (!B->m[l].empty()) FAIL("entries-lost", "%zu entries were lost from the %s list", B->m[l].size(), lname[l]);
		}
		(void)n;
		for (;;) {
			lp_item *it = lib([&] { return lp_pop(B->head[ALL], 1); });
			if (!it) break;
			if (B->m[ALL].empty() || it != B->items[B->m[ALL][0]]) FAIL("pop-order", "draining gives other entries than were inserted");
			u32 id = B->m[ALL][0];
			B->m[ALL].erase(B->m[ALL].begin());
			B->items.erase(id);
			lib([&] { lp_free(it); return 0; });
		}
		if (!B->items.empty()) FAIL("entries-lost", "%zu entries were lost", B->items.size());
		for (Node *h : B->owned) xfree(h);
	}
	check_no_leak("broker");
}
