// C05, C16: synchronisation and directory size
#include "common.h"
#include "futils/fs.h"
extern "C" {
#include "futils/synctools.h"
}

namespace {
std::string blob(u32 id, size_t n) { std::string s(n, '\0'); fill_msg((u8 *)&s[0], n, id); return s; }
void in_app(std::function<void(Proc *)> f)
{
	Proc *p = new_proc();
	int t = spawn("app", [&] { f(p); }, p);
	join(t);
	check_no_leak("after the call", p);
	kill_proc(p);
}
}

SCENARIO("C05", sync_durable, 10)
{
	fs_choose_cfg();
	static const char *dirs[] = {"/d", "/d/sub", "/d/sub/deep dir", ""};
	fs_mkdir("/d"); fs_mkdir("/d/sub"); fs_mkdir("/d/sub/deep dir");
	std::string dir = dirs[choose(4)];
	std::string folder = dir.empty() ? "/" : dir;
	std::string name = choose(4) ? "f" : "a.b.c";
	std::string file = dir + "/" + name;
	u32 id = 1;
	int api = (int)choose(3);        // file, folder, both
	bool nodir = false;
	// files there already
	std::map<std::string, std::string> ents;
	for (int i = 0; i < 4; i++) {
		std::string n = "old" + std::to_string(i);
		if (choose(2)) { fs_put(dir + "/" + n, blob(id, 1 + choose(50))); id++; ents[n] = "?"; }
	}
	// the file: overwritten (its name is durable) or new
	std::string want;
	bool fresh = api != 0 && choose(2);
	if (!fresh) fs_put(file, blob(id++, choose(4000)));
	want = blob(id++, choose(3) ? 1 + choose(6000) : log_uniform(100000));
	fs_put_cached(file, want);
	// pending changes of the folder
	int nops = (int)choose(6);
	for (int i = 0; i < nops; i++) {
		std::string a = dir + "/old" + std::to_string(choose(4)), b = dir + "/new" + std::to_string(choose(3));
		switch (choose(4)) {
		case 0: fs_put_cached(b, blob(id++, choose(100))); break;
		case 1: sim_rename(a.c_str(), b.c_str()); break;
		case 2: fs_remove(a); break;
		case 3: { std::string d = dir + "/nd" + std::to_string(i); sim_mkdir(d.c_str(), 0755); break; }
		}
	}
	// unrelated changes elsewhere
	if (choose(2)) fs_put_cached("/tmp/else", blob(id++, 20));
	std::string arg = file;
	int bad = choose(6) == 5 ? 1 + (int)choose(4) : 0;
	if (bad == 1) arg = dir + "/missing";
	if (bad == 2) arg = "/nowhere/x";
	if (bad == 3) { if (api == 1) arg = file; else bad = 0; }
	if (bad == 4) arg = "";
	if (!bad && api == 1) arg = choose(3) == 2 ? folder + "/" : folder;
	// other ways to spell the path; the working directory is the root
	bool bare = false;
	if (!arg.empty() && arg[0] == '/')
		switch (pickw({5, 1, 1, 1, 1, 1, 1})) {
		case 6: arg = (choose(2) ? "../" : "./../") + arg.substr(1); break;
		case 5: // through a symbolic link
			if (bad || dir.empty()) break;
			if (api == 0 && choose(2)) { fs_symlink("/ln", file); arg = "/ln"; }
			else { fs_symlink("/ln", dir); arg = api == 1 ? "/ln" : "/ln/" + name; }
			probe("synchronisation through a symbolic link");
			break;
		case 1: if (arg.size() > 1) { arg = arg.substr(1); bare = arg.find('/') == std::string::npos; } break;
		case 2: arg = "./" + arg.substr(1); break;
		case 3: arg = "/" + arg; if (arg.rfind('/') > 1) arg.insert(arg.rfind('/'), "/"); break;
		case 4: arg = "/d/../" + arg.substr(1); break;
		default: break;
		}
	choose_faults(FM(F_NOMEM) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_FSYNC) | FM(F_CLOSE), 5);
	auto nf = [] { return fault_count(F_NOMEM) + fault_count(F_OPEN) + fault_count(F_EMFILE) + fault_count(F_FSYNC); };
	std::vector<std::string> names = fs_list(folder);
	describe("%s of \"%s\" (%zu bytes, %s), %d pending changes", api == 0 ? "sync_file" : api == 1 ? "sync_folder" : "sync_file_and_folder", arg.c_str(), want.size(), fresh ? "new" : "overwritten", nops);
	bool null = choose(24) == 23;
	int calls = 1 + (choose(4) == 3);
	int r = 0;
	bool ok = false;
	for (int c = 0; c < calls; c++) {
		sys_errors_clear();
		u32 f0 = nf();
		in_app([&](Proc *app) { (void)app;
			const char *p = null ? nullptr : arg.c_str();
			char *q = nullptr;
			if (p) { q = (char *)xalloc(arg.size() + 1); memcpy(q, p, arg.size() + 1); }
			r = lib([&] { return api == 0 ? sync_file(q) : api == 1 ? sync_folder(q) : sync_file_and_folder(q); });
			if (q) xfree(q);
		});
		ev("sync_ret", api, c, r);
		bool faulty = nf() != f0;
		if (r > 0) FAIL("wrong-return", "synchronisation returned %d", r);
		if (r == 0 && (bad || null)) FAIL("invalid-path-accepted", "synchronisation of an invalid path (%s) returned 0", null ? "null" : arg.c_str());
		if (r == 0 && faulty && !sys_error_seen(EINTR)) FAIL("failure-not-reported", "a step of the synchronisation failed but it returned 0");
		if (r < 0) {
			if (!faulty && !bad && !null && !(bare && api == 2)) FAIL("refused-without-fault", "synchronisation returned %d without any fault", r);
			bool named = sys_error_seen(-r) || (r == -ENOMEM && fault_count(F_NOMEM)) || (r == -EINVAL && (null || bad || (bare && api == 2)));
			if (r == -EBADF) named = false; // no step was asked about a bad descriptor, unless the library invented one
			if (!named) FAIL("wrong-error", "synchronisation returned %d, but no step failed with that error", r);
		}
		if (r == 0) ok = true;
		if (fault_count(F_FSYNC)) break; // the kernel forgets what it could not write; a later success says nothing
	}
	(void)nodir;
	// power may fail at any time from now
	if (choose(3) == 2) fs_put_cached("/tmp/later", "x");
	count_fault(F_POWERLOSS);
	fs_power_loss();
	if (!ok) return;
	if (api != 1) {
		std::string d;
		if (!fs_get(file, d)) { if (api == 2 || !fresh) FAIL("name-not-durable", "%s returned 0 but after a power loss %s does not exist", api == 0 ? "sync_file" : "sync_file_and_folder", file.c_str()); }
		else if (d != want) FAIL("data-not-durable", "the synchronisation returned 0 but after a power loss %s has %zu bytes instead of the %zu written%s", file.c_str(), d.size(), want.size(), d.size() == want.size() ? " (other contents)" : "");
	}
	if (api != 0) {
		std::vector<std::string> now = fs_list(folder);
		std::vector<std::string> a = names, b = now;
		if (folder == "/") {}
		if (a != b) {
			std::string x, y;
			for (auto &s : a) x += " " + s;
			for (auto &s : b) y += " " + s;
			FAIL("folder-not-durable", "the synchronisation returned 0 with [%s ] in the folder; after a power loss it has [%s ]", x.c_str(), y.c_str());
		}
	}
}

// threads that synchronise paths of their own at the same time
SCENARIO("C05", sync_threads, 3)
{
	fs_choose_cfg();
	u32 nt = 2 + choose(2);
	choose_sched((int)nt);
	struct U { std::string dir, file, arg, want; int api, r; bool bad; std::vector<std::string> names; };
	std::vector<U> us(nt);
	u32 id = 1;
	for (u32 i = 0; i < nt; i++) {
		U &u = us[i];
		u.dir = "/d" + std::to_string(i);
		fs_mkdir(u.dir);
		for (u32 k = choose(3); k; k--) u.dir += "/s", fs_mkdir(u.dir);
		u.file = u.dir + "/f" + std::string(choose(20), 'x');
		u.api = (int)choose(3);
		if (u.api == 0 || choose(2)) fs_put(u.file, blob(id++, choose(200)));
		u.want = blob(id++, 1 + choose(9000));
		fs_put_cached(u.file, u.want);
		for (u32 k = choose(3); k; k--) fs_put_cached(u.dir + "/new" + std::to_string(k), blob(id++, choose(100)));
		u.names = fs_list(u.dir);
		u.bad = choose(6) == 5;
		u.r = 1;
		u.arg = u.api == 1 ? u.dir : u.file;
		if (u.bad) u.arg += "/none";
	}
	if (chance(200000)) choose_faults(FM(F_NOMEM) | FM(F_FSYNC) | FM(F_OPEN), 6);
	describe("%u threads synchronise paths of their own", nt);
	sys_errors_clear();
	in_app([&](Proc *app) { (void)app;
		std::vector<int> tid;
		auto body = [&us](u32 i) {
			U &u = us[i];
			char *q = (char *)xalloc(u.arg.size() + 1);
			memcpy(q, u.arg.c_str(), u.arg.size() + 1);
			u.r = lib([&] { return u.api == 0 ? sync_file(q) : u.api == 1 ? sync_folder(q) : sync_file_and_folder(q); });
			xfree(q);
			ev("sync_ret", u.api, (i64)i, u.r);
		};
		for (u32 i = 1; i < nt; i++) tid.push_back(spawn("app2", [&body, i] { body(i); }, app));
		body(0);
		for (int t : tid) join(t);
	});
	bool faulty = fault_count(F_NOMEM) + fault_count(F_FSYNC) + fault_count(F_OPEN) != 0;
	for (U &u : us) {
		if (u.r > 0) FAIL("wrong-return", "synchronisation returned %d", u.r);
		if (u.r == 0 && u.bad) FAIL("invalid-path-accepted", "synchronisation of an invalid path (%s) returned 0 while other threads synchronised", u.arg.c_str());
		if (u.r < 0 && !u.bad && !faulty) FAIL("refused-without-fault", "synchronisation of %s returned %d without any fault", u.arg.c_str(), u.r);
		if (u.r < 0 && !sys_error_seen(-u.r) && !(u.r == -ENOMEM && fault_count(F_NOMEM))) FAIL("wrong-error", "synchronisation returned %d, but no step failed with that error", u.r);
	}
	count_fault(F_POWERLOSS);
	fs_power_loss();
	for (U &u : us) {
		if (u.r) continue;
		std::string d;
		if (u.api != 1 && fault_count(F_FSYNC) == 0) {
			if (!fs_get(u.file, d)) { if (u.api == 2) FAIL("name-not-durable", "sync_file_and_folder returned 0 but after a power loss %s does not exist", u.file.c_str()); }
			else if (d != u.want) FAIL("data-not-durable", "the synchronisation returned 0 but after a power loss %s has %zu bytes instead of the %zu written%s", u.file.c_str(), d.size(), u.want.size(), d.size() == u.want.size() ? " (other contents)" : "");
		}
		if (u.api != 0 && fs_list(u.dir) != u.names) FAIL("folder-not-durable", "the synchronisation of %s returned 0; after a power loss it has other entries", u.dir.c_str());
	}
}

// ------------------------------------------------------------------ C16
namespace {
struct Node { std::string path; i64 size; bool in_scope; };
struct Tree {
	std::vector<Node> files;
	std::vector<std::string> dirs;
	u32 serial = 0;
	i64 total = 0;
	bool links = false; // files with several names
};
i64 pick_fsize()
{
	switch (pickw({4, 2, 1, 1})) {
	case 0: return choose(5000);
	case 1: return (i64)log_uniform(0xffffffffu);
	case 2: return 0;
	default: return 2147483647ll - 2 + (i64)choose(5) + (choose(2) ? 2147483648ll : 0);
	}
}
void grow(Tree &t, const std::string &dir, int depth, bool scope, bool recursive)
{
	int n = (int)choose(depth == 0 ? 7 : 5);
	for (int i = 0; i < n; i++) {
		static const char *pre[] = {"f", ".hidden", "..x", "sp ace", "L"};
		std::string name = std::string(pre[choose(5)]) + std::to_string(t.serial++);
		if (name[0] == 'L') name += std::string(200, 'n');
		std::string p = dir + "/" + name;
		switch (pickw({6, depth < 4 ? 3u : 0u, 1, 1, t.links ? 2u : 0u})) {
		case 0: {
			i64 s = pick_fsize();
			fs_put(p, "");
			fs_set_size(p, s);
			t.files.push_back(Node{p, s, scope});
			if (scope) t.total += s;
			break;
		}
		case 1:
			fs_mkdir(p);
			t.dirs.push_back(p);
			grow(t, p, depth + 1, scope && recursive, recursive);
			break;
		case 2: { static const char *tg[] = {"/big/huge", ".", "..", "/big", "nowhere", "/dev/null"}; fs_symlink(p, tg[choose(6)]); break; }
		case 4: {
			// one more name of a file that has one already, here or elsewhere
			i64 s = 77777777777ll;
			u32 k = choose((u32)t.files.size() + 1);
			if (k < t.files.size()) s = t.files[k].size;
			fs_link(p, k < t.files.size() ? t.files[k].path : "/big/huge");
			t.files.push_back(Node{p, s, scope});
			if (scope) t.total += s;
			probe("a file with several names");
			break;
		}
		default: break;
		}
	}
}
}
SCENARIO("C16", dir_size, 10)
{
	fs_choose_cfg();
	fs_mkdir("/big");
	fs_put("/big/huge", "");
	fs_set_size("/big/huge", 77777777777ll);
	fs_mkdir("/top");
	Tree t;
	bool rec = choose(4) != 0;
	int shape = (int)choose(10);
	std::string top = "/top";
	if (shape == 9) { // the way to the tree is nearly as long as paths can be
		fs_mkdir("/p");
		top = "";
		size_t len = 4080 - log_uniform(80);
		top = "/top";
		while (top.size() < len) top += "/.";
	}
	if (shape == 8) top = "/top/";
	if (shape == 7) { fs_symlink("/lnk", "/top"); top = "/lnk"; }
	if (shape == 6) top = choose(2) ? "/missing" : "/big/huge";
	t.links = choose(3) == 0;
	grow(t, "/top", 0, true, rec);
	bool valid = shape != 6;
	u32 many = choose(24);
	if (many == 23) { // deep: one directory in the other
		std::string d = "/top";
		u32 depth = 1 + log_uniform(400);
		for (u32 i = 0; i < depth; i++) {
			d += i % 7 ? "/d" : "/sub directory";
			if (d.size() > 3000) break;
			fs_mkdir(d);
			t.dirs.push_back(d);
			if (i + 1 == depth || !choose(4)) grow(t, d, 4, rec, rec);
		}
		probe("a deep tree");
	}
	if (many == 22) { // wide: many entries in one directory
		std::string d = "/top";
		if (choose(2)) fs_mkdir(d += "/wide"), t.dirs.push_back(d);
		bool scope = rec || d == "/top";
		for (u32 i = 0, n = log_uniform(2500); i < n; i++) {
			i64 sz = 1 + (i64)(i * 7 % 3001);
			std::string f = d + "/w" + std::to_string(i);
			fs_put(f, "");
			fs_set_size(f, sz);
			t.files.push_back(Node{f, sz, scope});
			if (scope) t.total += sz;
		}
		probe("a directory with many entries");
	}
	choose_faults(FM(F_NOMEM) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_READDIR) | FM(F_STAT) | FM(F_CLOSE), 1 + 3 * (u32)(t.files.size() + t.dirs.size()));
	auto nf = [] { return fault_count(F_NOMEM) + fault_count(F_OPEN) + fault_count(F_EMFILE) + fault_count(F_READDIR) + fault_count(F_STAT); };
	describe("%s size of %s: %zu files, %zu directories, %lld bytes", rec ? "recursive" : "flat", shape == 9 ? "a long path" : top.c_str(), t.files.size(), t.dirs.size(), (long long)t.total);
	sys_errors_clear();
	u32 f0 = nf();
	i64 r = 0;
	in_app([&](Proc *app) { (void)app;
		char *q = (char *)xalloc(top.size() + 1);
		memcpy(q, top.c_str(), top.size() + 1);
		r = lib([&] { return futils_fs_dir_size(q, rec); });
		xfree(q);
	});
	ev("dir_size_ret", rec, 0, r);
	bool faulty = nf() != f0;
	if (r < 0) {
		bool named = sys_error_seen((int)-r) || (r == -ENOMEM && fault_count(F_NOMEM)) || (r == -ENAMETOOLONG && shape == 9);
		if (!named) FAIL("wrong-error", "directory size returned %lld, but nothing failed with that error", (long long)r);
		if (!faulty && valid && shape != 9) FAIL("refused-without-fault", "directory size returned %lld without any fault", (long long)r);
		return;
	}
	if (!valid) FAIL("invalid-path-accepted", "the size of %s was given as %lld", top.c_str(), (long long)r);
	if (faulty) FAIL("silently-partial", "a step of the walk failed but %lld was returned (exact: %lld)", (long long)r, (long long)t.total);
	if (r != t.total) FAIL("wrong-size", "directory size is %lld, returned %lld", (long long)t.total, (long long)r);
}
SCENARIO("C16", dir_size_concurrent, 5)
{
	fs_choose_cfg();
	choose_sched(2);
	W->cfg.vis_ppm = 300000;
	fs_mkdir("/big");
	fs_put("/big/huge", "");
	fs_mkdir("/top");
	Tree t;
	bool rec = choose(4) != 0;
	grow(t, "/top", 0, true, rec);
	// volatile files: sizes they have had; 0 is always allowed
	std::map<std::string, std::set<i64>> vol;
	std::set<std::string> gone_dir;
	bool removed_dir = false;
	i64 stable = t.total;
	int n = 1 + (int)choose(5);
	struct Op { int k; std::string p; i64 size; };
	std::vector<Op> ops;
	for (int i = 0; i < n; i++) {
		Op o;
		o.size = pick_fsize();
		o.k = (int)choose(3);
		if (o.k && t.files.size()) {
			Node &f = t.files[choose((u32)t.files.size())];
			o.p = f.path;
			if (f.in_scope && !vol.count(o.p)) { vol[o.p] = {0, f.size}; stable -= f.size; }
			if (f.in_scope && o.k == 1) vol[o.p].insert(o.size);
		} else {
			o.k = 0;
			bool sub = rec && t.dirs.size() && choose(2);
			o.p = (sub ? t.dirs[choose((u32)t.dirs.size())] : "/top") + "/created" + std::to_string(i);
			vol[o.p] = {0, o.size};
		}
		ops.push_back(o);
	}
	describe("%s size while %d files are created, resized or removed: %zu files", rec ? "recursive" : "flat", n, t.files.size());
	i64 r = 0;
	sys_errors_clear();
	int m = spawn("mutator", [&] {
		for (auto &o : ops) {
			if (choose(2)) sleep_ns((i64)choose(60) * US);
			yield_point();
			switch (o.k) {
			case 0: fs_put(o.p, ""); fs_set_size(o.p, o.size); break;
			case 1: if (fs_exists(o.p)) fs_set_size(o.p, o.size); break;
			case 2: if (fs_exists(o.p)) fs_remove(o.p); break;
			}
			ev("mutated", o.k, o.size);
			count_fault(F_CONCURRENT);
		}
	});
	in_app([&](Proc *app) { (void)app; r = lib([&] { return futils_fs_dir_size("/top", rec); }); });
	join(m);
	(void)removed_dir;
	ev("dir_size_ret", rec, 0, r);
	if (r < 0) {
		if (!sys_error_seen((int)-r)) FAIL("wrong-error", "directory size returned %lld, but nothing failed with that error", (long long)r);
		return;
	}
	std::set<i64> sums = {stable};
	for (auto &v : vol) {
		std::set<i64> nx;
		for (i64 a : sums) for (i64 b : v.second) nx.insert(a + b);
		sums.swap(nx);
	}
	if (!sums.count(r)) FAIL("wrong-size", "directory size returned %lld: no combination of the sizes the files had gives it (stable part %lld)", (long long)r, (long long)stable);
}

// threads that measure trees of their own, or the same one
SCENARIO("C16", dir_size_threads, 2)
{
	fs_choose_cfg();
	u32 nt = 2 + choose(2);
	choose_sched((int)nt);
	fs_mkdir("/big");
	fs_put("/big/huge", "");
	std::vector<Tree> t(nt);
	std::vector<i64> r(nt, 0);
	std::vector<std::string> top(nt);
	std::vector<char> rec(nt), bad(nt);
	for (u32 i = 0; i < nt; i++) {
		rec[i] = choose(4) != 0;
		bad[i] = choose(6) == 5;
		if (i && choose(3) == 2) { top[i] = top[0]; rec[i] = rec[0]; t[i].total = t[0].total; bad[i] = bad[0]; continue; }
		top[i] = "/t" + std::to_string(i) + std::string(choose(30), 'y');
		if (bad[i]) continue;
		fs_mkdir(top[i]);
		grow(t[i], top[i], 0, true, rec[i]);
	}
	describe("%u threads measure directories", nt);
	in_app([&](Proc *app) { (void)app;
		std::vector<int> tid;
		auto body = [&](u32 i) {
			char *q = (char *)xalloc(top[i].size() + 1);
			memcpy(q, top[i].c_str(), top[i].size() + 1);
			r[i] = lib([&] { return futils_fs_dir_size(q, rec[i]); });
			xfree(q);
			ev("dir_size_ret", rec[i], i, r[i]);
		};
		for (u32 i = 1; i < nt; i++) tid.push_back(spawn("app2", [&body, i] { body(i); }, app));
		body(0);
		for (int x : tid) join(x);
	});
	for (u32 i = 0; i < nt; i++) {
		if (bad[i]) { if (r[i] != -ENOENT) FAIL("wrong-error", "the size of a missing directory was given as %lld while other threads measured theirs", (long long)r[i]); continue; }
		if (r[i] < 0) FAIL("refused-without-fault", "directory size returned %lld without any fault", (long long)r[i]);
		if (r[i] != t[i].total) FAIL("wrong-size", "directory size is %lld, returned %lld (%u threads measure at once)", (long long)t[i].total, (long long)r[i], nt);
	}
}
