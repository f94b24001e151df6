// command line: batches of runs, replay, minimisation, determinism
#include "internal.h"
#include <unistd.h>
#include <stdlib.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <atomic>

extern "C" void verif_ulog(const char *fmt, ...)
{
	int e = errno;
	if (sim::G && sim::G->cur && sim::verbose()) {
		char b[512];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		sim::note("log: %s", b);
	}
	// a real logger writes, locks and formats: where this run lets successful
	// calls disturb errno, so does logging
	errno = (sim::G && sim::G->cur && sim::W && sim::G->cur->in_lib && sim::W->cfg.clobber_errno) ? ENOTTY : e;
}

using namespace sim;

static const int MAXW = 64;
static const u64 TAB = 1 << 24;
struct Shm {
	std::atomic<u64> next, done, viol, steps, visops, switches, preempt, simtime_ms, nfaults, posts, faulted_runs, runs_multi;
	std::atomic<u64> faults[F_NKINDS];
	std::atomic<u64> scen[128];
	std::atomic<int> stop;
	std::atomic<i64> cur[MAXW];
	std::atomic<u64> cur_since[MAXW];
	std::atomic<u64> distinct_sched, distinct_log;
	std::atomic<int> plock;
	int nprobes;
	char pname[256][96];
	std::atomic<u64> pcount[256];
	std::atomic<u64> t1[TAB], t2[TAB];
};
static Shm *S;

namespace sim {
void probe(const char *name)
{
	static std::map<std::string, int> cache;
	if (!S) return;
	auto it = cache.find(name);
	int id;
	if (it != cache.end()) id = it->second;
	else {
		int z = 0;
		while (!S->plock.compare_exchange_weak(z, 1)) z = 0;
		for (id = 0; id < S->nprobes; id++) if (!strncmp(S->pname[id], name, 95)) break;
		if (id == S->nprobes && id < 256) { strncpy(S->pname[id], name, 95); S->nprobes++; }
		S->plock = 0;
		if (id >= 256) return;
		cache[name] = id;
	}
	S->pcount[id]++;
}
}

static u64 now_ms()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (u64)ts.tv_sec * 1000 + (u64)ts.tv_nsec / 1000000;
}
static bool insert(std::atomic<u64> *t, u64 h)
{
	if (!h) h = 1;
	u64 i = mix64(h) & (TAB - 1);
	for (int k = 0; k < 64; k++, i = (i + 1) & (TAB - 1)) {
		u64 v = t[i].load();
		if (v == h) return false;
		if (!v) { u64 z = 0; if (t[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
	}
	return false;
}
static u64 hstr(const std::string &s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h; }

struct Case { std::string prop, scen, kind, msg, desc; u64 hash = 0, seed = 0, index = 0; bool post = false; std::vector<u32> ch; };

static const Scenario *find_scen(const std::string &prop, const std::string &name)
{
	for (auto &s : scenarios()) if (prop == s.prop && name == s.name) return &s;
	return nullptr;
}
static const Scenario *pick_scen(const std::string &prop, u64 seed)
{
	u64 tot = 0;
	for (auto &s : scenarios()) if (prop == s.prop) tot += s.weight;
	if (!tot) return nullptr;
	u64 r = mix2(seed, 0x5ce7) % tot;
	for (auto &s : scenarios()) if (prop == s.prop) { if (r < s.weight) return &s; r -= s.weight; }
	return nullptr;
}
static RunResult exec_choices(const Scenario &s, const std::vector<u32> &ch, bool verb, bool with_post)
{
	RunResult r = run_one(s, 0, &ch, verb, 0, 0);
	if (!r.violated && !r.internal && with_post && s.post) {
		Rerun rr = [&](int v, u64 a) { return run_one(s, 0, &r.choices, false, v, a); };
		std::string k, m;
		if (s.post(r, rr, k, m)) { r.violated = true; r.kind = k; r.msg = m; if (verb) r.log.push_back("!!! VIOLATION " + k + ": " + m); }
	}
	return r;
}
static void write_case(const std::string &path, const Case &c, const RunResult *r)
{
	std::string tmp = path + ".tmp";
	FILE *f = fopen(tmp.c_str(), "w");
	if (!f) { perror(path.c_str()); _exit(3); }
	fprintf(f, "property %s\nscenario %s\nkind %s\nmessage %s\ncase %s\nseed %llu\nindex %llu\nhash %016llx\nchoices %zu\n", c.prop.c_str(), c.scen.c_str(), c.kind.c_str(),
		c.msg.c_str(), c.desc.c_str(), (unsigned long long)c.seed, (unsigned long long)c.index, (unsigned long long)c.hash, c.ch.size());
	for (size_t i = 0; i < c.ch.size(); i++) fprintf(f, "%u%c", c.ch[i], i % 32 == 31 || i + 1 == c.ch.size() ? '\n' : ' ');
	if (r) {
		fprintf(f, "trace\n");
		size_t n = r->log.size(), from = 0;
		if (n > 4000) from = n - 4000;
		for (size_t i = from; i < n; i++) fprintf(f, "%s\n", r->log[i].c_str());
	}
	fclose(f);
	rename(tmp.c_str(), path.c_str());
}
static bool read_case(const char *path, Case &c)
{
	FILE *f = fopen(path, "r");
	if (!f) return false;
	char line[8192];
	size_t n = 0;
	while (fgets(line, sizeof line, f)) {
		std::string l(line);
		if (!l.empty() && l.back() == '\n') l.pop_back();
		size_t sp = l.find(' ');
		std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
		if (k == "property") c.prop = v;
		else if (k == "scenario") c.scen = v;
		else if (k == "kind") c.kind = v;
		else if (k == "message") c.msg = v;
		else if (k == "case") c.desc = v;
		else if (k == "seed") c.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "index") c.index = strtoull(v.c_str(), nullptr, 10);
		else if (k == "hash") c.hash = strtoull(v.c_str(), nullptr, 16);
		else if (k == "choices") { n = strtoull(v.c_str(), nullptr, 10); break; }
	}
	for (size_t i = 0; i < n; i++) { unsigned x; if (fscanf(f, "%u", &x) != 1) { fclose(f); return false; } c.ch.push_back(x); }
	fclose(f);
	return true;
}

static void worker(int w, const std::string &prop, u64 seed, u64 runs, const std::string &out, int quota)
{
	for (int k = 0; k < quota && !S->stop; k++) {
		u64 i = S->next++;
		if (i >= runs) break;
		S->cur_since[w] = now_ms();
		S->cur[w] = (i64)i;
		u64 rs = mix2(mix2(seed, hstr(prop)), i);
		const Scenario *s = pick_scen(prop, rs);
		RunResult r = run_one(*s, rs, nullptr, false, 0, 0);
		std::string pk, pm;
		bool dopost = !r.violated && !r.internal && s->post && (s->post_every <= 1 || (rs >> 20) % s->post_every == 0);
		if (dopost) {
			Rerun rr = [&](int v, u64 a) { return run_one(*s, 0, &r.choices, false, v, a); };
			S->posts++;
			if (s->post(r, rr, pk, pm)) { r.violated = true; r.kind = pk; r.msg = pm; }
		}
		if (r.internal) { fprintf(stderr, "internal error in run %llu (%s): %s\n", (unsigned long long)i, s->name, r.msg.c_str()); _exit(3); }
		S->done++;
		S->steps += r.steps; S->visops += r.visops; S->switches += r.switches; S->preempt += r.preemptions;
		S->simtime_ms += (u64)(r.simtime > (i64)4e18 || r.simtime < 0 ? 0 : r.simtime / 1000000);
		S->nfaults += r.nfaults;
		if (r.nfaults) S->faulted_runs++;
		for (int f = 0; f < F_NKINDS; f++) if (r.faults[f]) S->faults[f] += r.faults[f];
		S->scen[s - &scenarios()[0]]++;
		if (insert(S->t1, r.schedhash ^ hstr(s->name))) S->distinct_sched++;
		if (insert(S->t2, r.loghash)) S->distinct_log++;
		if (r.violated) {
			u64 n = S->viol++;
			if (n < 24) {
				Case c;
				c.prop = prop; c.scen = s->name; c.kind = r.kind; c.msg = r.msg; c.desc = r.desc; c.hash = r.loghash; c.seed = seed; c.index = i; c.ch = r.choices;
				write_case(out + "/viol-" + std::to_string(i) + ".replay", c, nullptr);
			}
			if (n >= 8) S->stop = 1;
		}
		S->cur[w] = -1;
	}
}

static int cmd_batch(int argc, char **argv)
{
	if (argc < 6) return 2;
	std::string prop = argv[0];
	u64 seed = strtoull(argv[1], nullptr, 10), runs = strtoull(argv[2], nullptr, 10);
	int nw = atoi(argv[3]);
	u64 cap = strtoull(argv[4], nullptr, 10) * 1000;
	std::string out = argv[5];
	if (nw > MAXW) nw = MAXW;
	S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); return 2; }
	if (!pick_scen(prop, 1)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
	u64 t0 = now_ms();
	std::vector<pid_t> pid(nw, 0);
	bool bad = false;
	auto start = [&](int w) {
		S->cur[w] = -1;
		S->cur_since[w] = now_ms();
		fflush(nullptr);
		pid_t p = fork();
		if (p == 0) { worker(w, prop, seed, runs, out, 3000); _exit(0); }
		pid[w] = p;
	};
	// a run that takes the whole process down (the library corrupted memory
	// outside the checked heap, or never ends) is recorded by its seed
	auto lost = [&](int w) {
		i64 i = S->cur[w];
		if (i < 0) { bad = true; S->stop = 1; return; }
		Case c;
		c.prop = prop; c.kind = "crash-process"; c.msg = "the simulated process was destroyed or does not end"; c.seed = seed; c.index = (u64)i;
		c.scen = pick_scen(prop, mix2(mix2(seed, hstr(prop)), (u64)i))->name;
		S->viol++;
		write_case(out + "/viol-" + std::to_string(i) + ".replay", c, nullptr);
		if (S->viol >= 4) S->stop = 1;
	};
	for (int w = 0; w < nw; w++) start(w);
	bool timecap = false;
	for (;;) {
		int alive = 0;
		for (int w = 0; w < nw; w++) {
			if (!pid[w]) continue;
			int st;
			pid_t p = waitpid(pid[w], &st, WNOHANG);
			if (p == pid[w]) {
				pid[w] = 0;
				if (!WIFEXITED(st) || WEXITSTATUS(st)) {
					fprintf(stderr, "worker %d died (status 0x%x) in run %lld\n", w, st, (long long)S->cur[w].load());
					lost(w);
				}
				if (!S->stop && S->next < runs) { start(w); alive++; }
			} else {
				alive++;
				if (S->cur[w] >= 0 && now_ms() - S->cur_since[w] > 120000) {
					fprintf(stderr, "run %lld does not end\n", (long long)S->cur[w].load());
					kill(pid[w], SIGKILL);
				}
			}
		}
		if (!alive) break;
		if (now_ms() - t0 > cap && !S->stop) { S->stop = 1; timecap = true; }
		usleep(20000);
	}
	double secs = (double)(now_ms() - t0) / 1000;
	std::string sp = out + "/summary.json";
	FILE *f = fopen(sp.c_str(), "w");
	fprintf(f, "{\"runs\": %llu, \"requested\": %llu, \"violations\": %llu, \"seconds\": %.3f, \"time_capped\": %s, \"bad\": %s, \"workers\": %d,\n", (unsigned long long)S->done.load(), (unsigned long long)runs,
		(unsigned long long)S->viol.load(), secs, timecap ? "true" : "false", bad ? "true" : "false", nw);
	fprintf(f, " \"memory_steps\": %llu, \"visible_ops\": %llu, \"context_switches\": %llu, \"preemptions\": %llu, \"sim_ms\": %llu, \"faults_total\": %llu, \"faulted_runs\": %llu, \"differential_checks\": %llu, \"distinct_schedules\": %llu, \"distinct_executions\": %llu,\n",
		(unsigned long long)S->steps, (unsigned long long)S->visops, (unsigned long long)S->switches, (unsigned long long)S->preempt, (unsigned long long)S->simtime_ms, (unsigned long long)S->nfaults, (unsigned long long)S->faulted_runs,
		(unsigned long long)S->posts, (unsigned long long)S->distinct_sched, (unsigned long long)S->distinct_log);
	fprintf(f, " \"faults\": {");
	bool first = true;
	for (int k = 0; k < F_NKINDS; k++) if (S->faults[k]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", fault_names[k], (unsigned long long)S->faults[k]); first = false; }
	fprintf(f, "},\n \"scenarios\": {");
	first = true;
	for (size_t k = 0; k < scenarios().size(); k++) if (prop == scenarios()[k].prop) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", scenarios()[k].name, (unsigned long long)S->scen[k]); first = false; }
	fprintf(f, "},\n \"probes\": {");
	first = true;
	for (int k = 0; k < S->nprobes; k++) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", S->pname[k], (unsigned long long)S->pcount[k]); first = false; }
	fprintf(f, "}}\n");
	fclose(f);
	return bad ? 2 : S->viol ? 1 : 0;
}

static int cmd_replay(int argc, char **argv)
{
	Case c;
	if (argc < 1 || !read_case(argv[0], c)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
	bool verb = argc > 1 && !strcmp(argv[1], "-v");
	const Scenario *s = find_scen(c.prop, c.scen);
	if (!s) { fprintf(stderr, "unknown scenario\n"); return 2; }
	if (c.kind == "crash-process") {
		fflush(nullptr);
		pid_t p = fork();
		if (!p) {
			g_stream = verb;
			RunResult r = run_one(*s, mix2(mix2(c.seed, hstr(c.prop)), c.index), nullptr, verb, 0, 0);
			_exit(0);
		}
		u64 end = now_ms() + 120000;
		int st = 0;
		while (waitpid(p, &st, WNOHANG) == 0) {
			if (now_ms() > end) { kill(p, SIGKILL); end += 1000000; }
			usleep(10000);
		}
		bool died = !WIFEXITED(st) || WEXITSTATUS(st);
		printf(died ? "violated %s: %s (status 0x%x)\n" : "no violation\n", c.kind.c_str(), c.msg.c_str(), st);
		return died ? 1 : 0;
	}
	RunResult r = exec_choices(*s, c.ch, verb, true);
	for (auto &l : r.log) printf("%s\n", l.c_str());
	printf("case: %s\n", r.desc.c_str());
	if (r.internal) { printf("INTERNAL %s\n", r.msg.c_str()); return 2; }
	printf("hash %016llx\n", (unsigned long long)r.loghash);
	if (r.violated) printf("violated %s: %s\n", r.kind.c_str(), r.msg.c_str());
	else printf("no violation\n");
	if (!r.violated) return 0;
	return (r.kind == c.kind && (r.loghash == c.hash || !c.hash)) ? 1 : 4;
}

static int cmd_shrink(int argc, char **argv)
{
	Case c;
	if (argc < 3 || !read_case(argv[0], c)) return 2;
	const Scenario *s = find_scen(c.prop, c.scen);
	if (!s) return 2;
	u64 end = now_ms() + strtoull(argv[2], nullptr, 10) * 1000;
	std::vector<u32> best = c.ch;
	RunResult br = exec_choices(*s, best, false, true);
	if (!br.violated || br.kind != c.kind) { fprintf(stderr, "not reproducible: %s\n", br.kind.c_str()); return 2; }
	auto norm = [](std::vector<u32> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
	best = norm(br.choices);
	u64 tries = 0, t0 = best.size();
	auto ok = [&](std::vector<u32> v) {
		if (now_ms() > end) return false;
		tries++;
		RunResult r = exec_choices(*s, v, false, true);
		if (!r.violated || r.kind != c.kind) return false;
		std::vector<u32> n = norm(r.choices);
		if (n.size() > v.size()) n = norm(v);
		auto sum = [](const std::vector<u32> &x) { u64 t = 0; for (u32 y : x) t += y ? 1 + (y > 8) : 0; return t; };
		if (n.size() > best.size() || (n.size() == best.size() && sum(n) > sum(best))) return false;
		best = n;
		return true;
	};
	bool progress = true;
	while (progress && now_ms() < end) {
		progress = false;
		size_t before = best.size();
		// cut the tail
		for (size_t k = best.size() / 2; k > 0; k /= 2)
			while (best.size() > k) { std::vector<u32> v(best.begin(), best.end() - (long)k); if (!ok(v)) break; progress = true; }
		// delete chunks
		for (size_t k = best.size() / 2; k > 0 && now_ms() < end; k /= 2)
			for (size_t i = 0; i + k <= best.size() && now_ms() < end;) {
				std::vector<u32> v(best.begin(), best.begin() + (long)i);
				v.insert(v.end(), best.begin() + (long)(i + k), best.end());
				if (ok(v)) progress = true; else i += k;
			}
		// zero chunks
		for (size_t k = best.size() / 2; k > 0 && now_ms() < end; k /= 2)
			for (size_t i = 0; i + k <= best.size() && now_ms() < end; i += k) {
				std::vector<u32> v = best;
				bool any = false;
				for (size_t j = i; j < i + k; j++) if (v[j]) { v[j] = 0; any = true; }
				if (any && ok(v)) progress = progress || best.size() < before;
			}
		for (size_t i = 0; i < best.size() && now_ms() < end; i++) {
			if (best[i] <= 1) continue;
			for (u32 x : {1u, best[i] / 2, best[i] - 1}) {
				if (i >= best.size() || x >= best[i]) break;
				std::vector<u32> v = best;
				v[i] = x;
				if (ok(v)) break;
			}
		}
		if (best.size() < before) progress = true; else break;
	}
	RunResult fr = exec_choices(*s, best, true, true);
	RunResult f2 = exec_choices(*s, best, false, true);
	if (!fr.violated || fr.kind != c.kind || fr.loghash != f2.loghash) { fprintf(stderr, "minimised run is not repeatable\n"); return 2; }
	c.ch = best;
	c.hash = fr.loghash;
	c.msg = fr.msg;
	c.desc = fr.desc;
	write_case(argv[1], c, &fr);
	printf("%zu choices -> %zu in %llu runs\n", (size_t)t0, best.size(), (unsigned long long)tries);
	return 0;
}

static int cmd_hashes(int argc, char **argv)
{
	if (argc < 3) return 2;
	std::string prop = argv[0];
	u64 seed = strtoull(argv[1], nullptr, 10), n = strtoull(argv[2], nullptr, 10);
	u64 acc = 0;
	for (u64 i = 0; i < n; i++) {
		u64 rs = mix2(mix2(seed, hstr(prop)), i);
		const Scenario *s = pick_scen(prop, rs);
		if (!s) return 2;
		RunResult r = run_one(*s, rs, nullptr, false, 0, 0);
		RunResult q = run_one(*s, 0, &r.choices, false, 0, 0);
		if (r.loghash != q.loghash || r.kind != q.kind || r.steps != q.steps || r.choices != q.choices) {
			printf("NONDETERMINISTIC run %llu (%s): %016llx %016llx %s %s\n", (unsigned long long)i, s->name, (unsigned long long)r.loghash, (unsigned long long)q.loghash, r.kind.c_str(), q.kind.c_str());
			return 1;
		}
		acc = mix2(acc, r.loghash);
		if (argc > 3) printf("%llu %s %016llx %s\n", (unsigned long long)i, s->name, (unsigned long long)r.loghash, r.violated ? r.kind.c_str() : "");
	}
	printf("hash %016llx\n", (unsigned long long)acc);
	return 0;
}
static int cmd_one(int argc, char **argv)
{
	// one <prop> <seed> <index>: verbose run
	if (argc < 3) return 2;
	std::string prop = argv[0];
	u64 seed = strtoull(argv[1], nullptr, 10), i = strtoull(argv[2], nullptr, 10);
	u64 rs = mix2(mix2(seed, hstr(prop)), i);
	const Scenario *s = pick_scen(prop, rs);
	RunResult r = run_one(*s, rs, nullptr, true, 0, 0);
	for (auto &l : r.log) printf("%s\n", l.c_str());
	printf("%s case: %s\nhash %016llx steps %llu vis %llu %s %s\n", s->name, r.desc.c_str(), (unsigned long long)r.loghash, (unsigned long long)r.steps, (unsigned long long)r.visops, r.kind.c_str(), r.msg.c_str());
	return 0;
}
int main(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (argc < 2) { fprintf(stderr, "usage: dst batch|replay|shrink|hashes|one|list\n"); return 2; }
	std::string c = argv[1];
	int r = 2;
	if (c == "batch") r = cmd_batch(argc - 2, argv + 2);
	else if (c == "replay") r = cmd_replay(argc - 2, argv + 2);
	else if (c == "shrink") r = cmd_shrink(argc - 2, argv + 2);
	else if (c == "hashes") r = cmd_hashes(argc - 2, argv + 2);
	else if (c == "one") r = cmd_one(argc - 2, argv + 2);
	else if (c == "list") { for (auto &s : scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight); r = 0; }
	fflush(nullptr);
	_exit(r);
}
