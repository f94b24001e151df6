// C22: every stateful module under any failing call or allocation; C23: descriptors
#include "common.h"
#include <sys/inotify.h>
#include <wchar.h>
#include <algorithm>
#include <futils/inotify.h>
#include <futils/mbox.h>
#include <futils/dynmbox.h>
#include <futils/safew.h>
#include <futils/fs.h>
#include <futils/hash.h>
#include <futils/random.h>
#include <futils/string.h>
#include <futils/fdutils.h>
extern "C" {
#include <futils/synctools.h>
}

namespace {
const u64 ALLK = FM(F_NOMEM) | FM(F_EINTR) | FM(F_EIO_READ) | FM(F_EIO_WRITE) | FM(F_ENOSPC) | FM(F_SHORT_WRITE) | FM(F_SHORT_READ) | FM(F_FSYNC) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_CLOSE) | FM(F_RENAME) |
	FM(F_UNLINK) | FM(F_READDIR) | FM(F_STAT) | FM(F_PIPE) | FM(F_IOCTL) | FM(F_INOTIFY) | FM(F_CLOCK) | FM(F_ENTROPY) | FM(F_ENTROPY_DEV) | FM(F_ICONV) | FM(F_CONDINIT);
// calls that failed so far
u32 errs()
{
	u32 n = 0;
	for (int k = 0; k < F_NKINDS; k++) if (ALLK & (1ull << k)) n += fault_count((FaultKind)k);
	return n;
}
// everything the module function needs to know
struct Ctx {
	Proc *p = nullptr;
	bool alone = true;   // nothing else runs in the process
	int id = 0;          // distinguishes the paths of the participants
	std::string dir() const { return "/l" + std::to_string(id); }
};
void gone(const Ctx &c, const char *what) { if (c.alone) check_no_leak(what, c.p); }

// ---------------------------------------------------------------- modules
void life_dynmbox(Ctx &c)
{
	static const size_t sizes[] = {1, 8, 100, 5000, 65532, 0};
	size_t max = sizes[choose(6)];
	u32 f0 = errs();
	dynmbox *b = lib([&] { return dynmbox_new(max); });
	ev("dynmbox_new", b != nullptr);
	if (!b) {
		if (errs() == f0) FAIL("constructor-failed", "dynmbox_new(%zu) failed although nothing did", max);
		gone(c, "a failed dynmbox_new");
		return;
	}
	Buf out(max);
	u32 n = choose(8);
	std::deque<std::pair<size_t, u64>> q;
	u64 id = (u64)c.id * 1000;
	bool odd = false;
	for (u32 i = 0; i < n; i++) {
		u32 e0 = errs();
		if (choose(2) == 0) {
			size_t sz = choose(4) ? choose((u32)max + 1) : max;
			u8 *m = (u8 *)xalloc(sz);
			fill_msg(m, sz, ++id);
			bool blk = choose(3) == 2;
			int r = lib([&] { return blk ? dynmbox_push_block(b, m, sz, 1 + choose(5)) : dynmbox_push(b, m, sz); });
			xfree(m);
			ev("push", (i64)sz, blk, r);
			if (r == 0) q.push_back({sz, id});
			else if (r > 0 || r < -4095) FAIL("wrong-return", "dynmbox_push returned %d", r);
			else if (q.empty() && errs() == e0 && !odd) FAIL("refused", "an empty mailbox refused a message (%d) although nothing failed", r);
			if (errs() != e0) odd = true;
		} else {
			ssize_t r = lib([&] { return dynmbox_peek(b, out.p); });
			ev("peek", r);
			if (r < 0) {
				if (r < -4095) FAIL("wrong-return", "dynmbox_peek returned %zd", r);
				if (!q.empty() && errs() == e0 && !odd) FAIL("lost", "a queued message cannot be read (%zd) although nothing failed", r);
			} else {
				if (q.empty()) FAIL("invented", "dynmbox_peek returned %zd from an empty mailbox", r);
				auto [sz, i2] = q.front();
				q.pop_front();
				if ((size_t)r != sz || out.str(sz) != msg_of(sz, i2)) FAIL("corrupted", "a message of %zu bytes was read as %zd other bytes", sz, r);
			}
			if (errs() != e0) odd = true;
		}
	}
	lib([&] { dynmbox_destroy(b); });
	gone(c, "dynmbox_destroy");
	if (choose(4) == 3) lib([&] { dynmbox_destroy(nullptr); });
}
void life_mbox(Ctx &c)
{
	static const size_t sizes[] = {1, 8, 100, 4095};
	size_t sz = sizes[choose(4)];
	u32 f0 = errs();
	mbox *b = lib([&] { return mbox_new(sz); });
	ev("mbox_new", b != nullptr);
	if (!b) {
		if (errs() == f0) FAIL("constructor-failed", "mbox_new(%zu) failed although nothing did", sz);
		gone(c, "a failed mbox_new");
		return;
	}
	Buf out(sz), in(sz);
	std::deque<u64> q;
	u64 id = (u64)c.id * 1000;
	u32 n = choose(8);
	for (u32 i = 0; i < n; i++) {
		u32 e0 = errs();
		if (choose(2) == 0) {
			fill_msg(in.p, sz, ++id);
			bool blk = choose(3) == 2;
			int r = lib([&] { return blk ? mbox_push_block(b, in.p, 1 + choose(5)) : mbox_push(b, in.p); });
			ev("push", blk, 0, r);
			if (r == 0) q.push_back(id);
			else if (r > 0 || r < -4095) FAIL("wrong-return", "mbox_push returned %d", r);
			else if (q.empty() && errs() == e0) FAIL("refused", "an empty mailbox refused a message (%d) although nothing failed", r);
		} else {
			int r = lib([&] { return mbox_peek(b, out.p); });
			ev("peek", r);
			if (r < 0) {
				if (r < -4095) FAIL("wrong-return", "mbox_peek returned %d", r);
				if (!q.empty() && errs() == e0) FAIL("lost", "a queued message cannot be read (%d) although nothing failed", r);
			} else {
				if (q.empty()) FAIL("invented", "mbox_peek returned %d from an empty mailbox", r);
				if (out.str(sz) != msg_of(sz, q.front())) FAIL("corrupted", "a message was read as other bytes");
				q.pop_front();
			}
		}
	}
	lib([&] { mbox_destroy(b); });
	gone(c, "mbox_destroy");
	if (choose(4) == 3) lib([&] { mbox_destroy(nullptr); });
}
void life_safew(Ctx &c)
{
	std::string path = c.dir() + "/sw";
	u32 uses = 1 + choose(3);
	for (u32 i = 0; i < uses; i++) {
		u32 e0 = errs();
		if (choose(4) == 3) {
			bool pl = fs_exists(path), cr = fs_exists(path + ".crc");
			(void)pl; (void)cr;
			int r = lib([&] { return futils_safew_file_check(path.c_str()); });
			ev("check", r);
			if (r > 0) FAIL("wrong-return", "futils_safew_file_check returned %d", r);
			gone(c, "futils_safew_file_check");
			continue;
		}
		futils_safew_file *f = lib([&] { return futils_safew_fopen(path.c_str()); });
		ev("fopen", f != nullptr);
		if (!f) {
			if (errs() == e0) FAIL("constructor-failed", "futils_safew_fopen failed although nothing did");
			gone(c, "a failed futils_safew_fopen");
			continue;
		}
		std::string all;
		bool bad = false;
		u32 w = choose(4);
		for (u32 k = 0; k < w; k++) {
			std::string d = msg_of(choose(3) ? choose(40) : log_uniform(9000), c.id * 100 + i * 10 + k);
			for (char &ch : d) ch = 'a' + (u8)ch % 26;
			if (choose(2)) {
				int r = lib([&] { return futils_safew_fprintf(f, "%s", d.c_str()); });
				if (r != (int)d.size()) bad = true;
			} else {
				Buf b(d.size());
				memcpy(b.p, d.data(), d.size());
				size_t r = lib([&] { return futils_safew_fwrite(b.p, 1, d.size(), f); });
				if (r != d.size()) bad = true;
				xfree(b.p);
			}
			all += d;
		}
		u32 how = choose(3);
		int r = lib([&] { return how == 0 ? futils_safew_fclose_commit(f) : how == 1 ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_rollback(f); });
		ev("fclose", how, bad, r);
		if (r > 0) FAIL("wrong-return", "closing a safe-write file returned %d", r);
		if (how < 2 && r < 0 && errs() == e0) FAIL("refused", "the commit returned %d although nothing failed", r);
		gone(c, "closing a safe-write file");
		std::string now;
		if (how < 2 && r == 0) {
			if (bad) FAIL("phantom", "a write failed and the commit returned 0");
			if (!fs_get(path, now) || now != all) FAIL("phantom", "the commit returned 0 but the path does not hold what was written");
		}
	}
}
void hfree_life(void *d) { *(int *)d += 1; }
void life_hash(Ctx &c)
{
	Buf hb(sizeof(struct hash));
	memset(hb.p, 0x5a, hb.n);
	struct hash *h = (struct hash *)hb.p;
	u32 f0 = errs();
	bool fr = choose(2);
	int r = lib([&] { return futils_hash_init(h, 1 + choose(40), fr ? hfree_life : nullptr); });
	ev("hash_init", r);
	if (r < 0) {
		if (errs() == f0) FAIL("constructor-failed", "futils_hash_init returned %d although nothing failed", r);
		gone(c, "a failed futils_hash_init");
		return;
	}
	static int cells[64];
	memset(cells, 0, sizeof cells);
	std::map<u32, int> m;
	u32 n = choose(20);
	int used = 0;
	for (u32 i = 0; i < n; i++) {
		u32 e0 = errs();
		u32 k = choose(10);
		switch (choose(4)) {
		case 0: case 1: {
			int cell = used++;
			int r2 = lib([&] { return futils_hash_insert(h, k, &cells[cell]); });
			ev("insert", k, 0, r2);
			if (m.count(k)) { if (r2 >= 0) FAIL("phantom", "a second value for a key was accepted"); }
			else if (r2 == 0) m[k] = cell;
			else if (errs() == e0) FAIL("refused", "futils_hash_insert returned %d although nothing failed", r2);
			break;
		}
		case 2: {
			int r2 = lib([&] { return futils_hash_remove(h, k); });
			if ((r2 == 0) != (m.count(k) > 0)) FAIL("phantom", "futils_hash_remove returned %d", r2);
			if (m.count(k)) { if (cells[m[k]] != (int)fr) FAIL("release-count", "the release callback ran %d times", cells[m[k]]); m.erase(k); }
			break;
		}
		case 3: {
			void *d = nullptr;
			int r2 = lib([&] { return futils_hash_lookup(h, k, &d); });
			if ((r2 == 0) != (m.count(k) > 0) || (r2 == 0 && d != &cells[m[k]])) FAIL("phantom", "futils_hash_lookup returned %d", r2);
			break;
		}
		}
	}
	lib([&] { return futils_hash_destroy(h); });
	for (auto &x : m) if (cells[x.second] != (int)fr) FAIL("release-count", "the release callback ran %d times for an entry", cells[x.second]);
	gone(c, "futils_hash_destroy");
}
struct InoCtx { int n; };
void ino_cb(struct inotify_event *e, void *d) { check_range(e, sizeof *e + e->len, false, "event"); ((InoCtx *)d)->n++; ev("event", e->mask); }
void life_inotify(Ctx &c)
{
	u32 f0 = errs();
	bool missing = choose(5) == 4;
	std::string path = missing ? c.dir() + "/none" : c.dir();
	int fd = lib([&] { return inotify_create(path.c_str(), IN_ALL_EVENTS); });
	ev("inotify_create", fd >= 0);
	if (fd < 0) {
		if (fd != -1) FAIL("wrong-return", "inotify_create failed with %d", fd);
		if (errs() == f0 && !missing) FAIL("constructor-failed", "inotify_create failed although nothing did");
		gone(c, "a failed inotify_create");
		return;
	}
	if (missing) FAIL("phantom", "inotify_create of a missing path succeeded");
	u32 rounds = choose(4);
	InoCtx x{0};
	int queued = 0;
	for (u32 r = 0; r < rounds; r++) {
		u32 k = choose(2) ? 1 + choose(3) : 8 + choose(30);
		for (u32 i = 0; i < k; i++) { inotify_push(fd, IN_CREATE, 0, "name" + std::to_string(i)); queued++; }
		u32 e0 = errs();
		int before = x.n;
		lib([&] { inotify_process_fd(fd, ino_cb, &x); });
		if (errs() == e0 && x.n == before) FAIL("lost", "no pending event was delivered although nothing failed");
		if (c.alone && (open_lib_fds(c.p) != 1 || lib_live_blocks(c.p))) FAIL("leak-memory", "processing events left%s%s", lib_live_desc(c.p).c_str(), open_fds_desc(c.p).c_str());
	}
	if (x.n > queued) FAIL("invented", "%d events delivered, %d queued", x.n, queued);
	lib([&] { inotify_destroy(fd); });
	gone(c, "inotify_destroy");
}
void life_dirsize(Ctx &c)
{
	std::string top = c.dir() + "/tree";
	u32 e0 = errs();
	bool rec = choose(2), missing = choose(6) == 5;
	i64 r = lib([&] { return futils_fs_dir_size(missing ? "/nowhere" : top.c_str(), rec); });
	ev("dir_size", rec, missing, r);
	i64 want = rec ? 111 + 22 + 3333 + 4 : 111 + 22;
	if (r < -4095) FAIL("wrong-return", "futils_fs_dir_size returned %lld", (long long)r);
	if (r >= 0 && (missing || r != want)) FAIL("phantom", "futils_fs_dir_size returned %lld instead of %lld", (long long)r, (long long)want);
	if (r < 0 && !missing && errs() == e0) FAIL("refused", "futils_fs_dir_size returned %lld although nothing failed", (long long)r);
	gone(c, "futils_fs_dir_size");
}
void life_sync(Ctx &c)
{
	std::string file = c.dir() + "/tree/a";
	u32 e0 = errs();
	u32 api = choose(3);
	bool missing = choose(6) == 5;
	if (missing) file = choose(2) ? "/nowhere/a" : c.dir() + "/none";
	int r = lib([&] { return api == 0 ? sync_file(file.c_str()) : api == 1 ? sync_folder(missing ? "/nowhere" : c.dir().c_str()) : sync_file_and_folder(file.c_str()); });
	ev("sync", api, missing, r);
	if (r > 0 || r < -4095) FAIL("wrong-return", "synchronising returned %d", r);
	if (r == 0 && missing) FAIL("phantom", "synchronising a missing path returned 0");
	if (r < 0 && !missing && errs() == e0) FAIL("refused", "synchronising returned %d although nothing failed", r);
	gone(c, "synchronising");
}
void put8(std::string &s, u32 cp)
{
	if (cp < 0x80) s += (char)cp;
	else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
	else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
	else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
}
void life_utf8(Ctx &c)
{
	std::vector<u32> cps;
	u32 n = choose(4) ? choose(20) : log_uniform(600);
	for (u32 i = 0; i < n; i++) switch (choose(5)) {
	case 0: cps.push_back('a' + choose(26)); break;
	case 1: cps.push_back((u32)"*/:<>?\\|\""[choose(9)]); break;
	case 2: cps.push_back(0xa1 + choose(0x600)); break;
	case 3: cps.push_back(0x800 + choose(0xc000)); break;
	case 4: cps.push_back(0x10000 + choose(0xfffff)); break;
	}
	bool forb = choose(2);
	bool invalid = choose(5) == 4;
	std::string in;
	for (u32 cp : cps) put8(in, cp);
	size_t chars = cps.size();
	if (invalid) {
		static const char *badseq[] = {"\xff", "\x80", "\xc3", "\xe2\x82"};
		std::string b = badseq[choose(4)];
		if (choose(2)) in += b; else in = b + "(" + in;
	}
	char *q = (char *)xalloc(in.size() + 1);
	memcpy(q, in.c_str(), in.size() + 1);
	bool has = false;
	for (u32 cp : cps) if (cp < 0x80 && strchr("*/:<>?\\|\"", (int)cp)) has = true;
	u32 e0 = errs();
	if (choose(2)) {
		size_t max = 2 + choose(3) * choose((u32)in.size() + 20);
		std::string want;
		for (u32 cp : cps) {
			std::string one;
			put8(one, forb && cp < 0x80 && strchr("*/:<>?\\|\"", (int)cp) ? '_' : cp);
			if (want.size() + one.size() > max - 1) break;
			want += one;
		}
		Buf out(max);
		memset(out.p, 0x7e, max);
		int r = lib([&] { return futils_string_sanitize_utf8(q, (char *)out.p, max, forb ? FUTILS_STRING_EXFAT_FORBIDDEN : nullptr, L'_'); });
		ev("sanitize", invalid, (i64)max, r);
		if (r < -4095) FAIL("wrong-return", "sanitising returned %d", r);
		if (r < 0 && errs() == e0 && !invalid) FAIL("refused", "sanitising valid text returned %d although nothing failed", r);
		if (r >= 0) {
			if (invalid) FAIL("phantom", "invalid text was accepted (%d)", r);
			if (r > (int)max || memcmp(out.p, want.c_str(), want.size() + 1) || ((size_t)r != want.size() && (size_t)r != want.size() + 1)) FAIL("phantom", "sanitising returned %d and other text than the input's", r);
		}
		xfree(out.p);
	} else {
		size_t mb = choose(2) ? 0 : choose((u32)in.size() + 5), mw = choose(2) ? 0 : choose((u32)chars + 3);
		int r = lib([&] { return futils_string_check_utf8(q, mb, mw, forb ? FUTILS_STRING_EXFAT_FORBIDDEN : nullptr); });
		ev("check", invalid, 0, r);
		if (r > 0 || r < -4095) FAIL("wrong-return", "checking returned %d", r);
		bool sane = !invalid && !(mb && in.size() >= mb) && !(mw && chars > mw) && !(forb && has);
		if (r == 0 && !sane) FAIL("phantom", "unacceptable text was found sane");
		if (r < 0 && sane && errs() == e0) FAIL("refused", "sane text was refused with %d although nothing failed", r);
	}
	xfree(q);
	if (iconv_live() && c.alone) FAIL("leak-handle", "%d conversion handles were not released", iconv_live());
	gone(c, "UTF-8 conversion");
}
bool random_abort_ok;
void life_random(Ctx &c)
{
	u32 n = 1 + choose(4);
	for (u32 i = 0; i < n; i++) {
		u32 e0 = errs();
		auto &E = entropy_cfg();
		bool none = E.dead || (E.nosys && E.dev_missing);
		switch (choose(5)) {
		case 0: {
			Buf b(1 + choose(300));
			int r = lib([&] { return futils_random_strong(b.p, b.n); });
			ev("strong", (i64)b.n, 0, r);
			if (r > 0 || r < -4095) FAIL("wrong-return", "futils_random_strong returned %d", r);
			if (r == 0 && E.dead) FAIL("phantom", "strong random bytes without any entropy source");
			if (r < 0 && errs() == e0 && !none) FAIL("refused", "futils_random_strong returned %d although nothing failed", r);
			xfree(b.p);
			break;
		}
		case 1: {
			int r = lib([&] { return futils_random_reseed(); });
			ev("reseed", r);
			if (r > 0 || r < -4095) FAIL("wrong-return", "futils_random_reseed returned %d", r);
			if (r == 0 && E.dead) FAIL("phantom", "reseeded without any entropy source");
			if (r < 0 && errs() == e0 && !none) FAIL("refused", "futils_random_reseed returned %d although nothing failed", r);
			break;
		}
		case 2: {
			u32 m = choose(20), sz = choose(2) ? 1 + choose(16) : 1 + choose(700);
			if (none) break;
			Buf b(m * sz);
			std::vector<std::string> a, z;
			for (u32 k = 0; k < m; k++) { fill_msg(b.p + k * sz, sz, k); a.push_back(std::string((char *)b.p + k * sz, sz)); }
			int r = lib([&] { return futils_random_shuffle(b.p, m, sz); });
			ev("shuffle", m, sz, r);
			for (u32 k = 0; k < m; k++) z.push_back(std::string((char *)b.p + k * sz, sz));
			if (r < 0 && errs() == e0) FAIL("refused", "futils_random_shuffle returned %d although nothing failed", r);
			if (r < 0 && a != z) FAIL("phantom", "the shuffle failed and changed the array");
			std::sort(a.begin(), a.end());
			std::sort(z.begin(), z.end());
			if (a != z) FAIL("phantom", "the shuffle is no permutation");
			xfree(b.p);
			break;
		}
		case 3: {
			if (none) break;
			size_t len = 1 + choose(60), cnt = 1 + choose(40);
			Buf b(len);
			int r = lib([&] { return futils_random_base64((char *)b.p, len, cnt); });
			ev("base64", (i64)len, (i64)cnt, r);
			xfree(b.p);
			break;
		}
		case 4: {
			if (none) break;
			u32 v = lib([&] { return futils_randomr32_maximum(6); });
			ev("draw", v);
			if (v > 6) FAIL("phantom", "%u drawn, the maximum is 6", v);
			break;
		}
		}
		gone(c, "a random operation");
	}
}
typedef void (*Life)(Ctx &);
const Life lives[] = {life_dynmbox, life_mbox, life_safew, life_hash, life_inotify, life_dirsize, life_sync, life_utf8, life_random};
const char *life_names[] = {"variable-size mailbox", "fixed-size mailbox", "safe write", "hash", "notifications", "directory size", "synchronisation", "UTF-8", "random"};
const u64 life_kinds[] = {
	FM(F_NOMEM) | FM(F_PIPE) | FM(F_EINTR) | FM(F_CONDINIT) | FM(F_CLOSE) | FM(F_CLOCK) | FM(F_EMFILE),
	FM(F_NOMEM) | FM(F_PIPE) | FM(F_EINTR) | FM(F_CLOSE) | FM(F_CLOCK) | FM(F_EMFILE),
	FM(F_NOMEM) | FM(F_EIO_READ) | FM(F_EIO_WRITE) | FM(F_ENOSPC) | FM(F_SHORT_WRITE) | FM(F_SHORT_READ) | FM(F_FSYNC) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_CLOSE) | FM(F_RENAME) | FM(F_UNLINK) | FM(F_STAT),
	FM(F_NOMEM),
	FM(F_NOMEM) | FM(F_INOTIFY) | FM(F_IOCTL) | FM(F_EMFILE) | FM(F_CLOSE),
	FM(F_NOMEM) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_READDIR) | FM(F_STAT) | FM(F_CLOSE),
	FM(F_NOMEM) | FM(F_OPEN) | FM(F_EMFILE) | FM(F_FSYNC) | FM(F_CLOSE),
	FM(F_NOMEM) | FM(F_ICONV),
	FM(F_NOMEM) | FM(F_ENTROPY) | FM(F_ENTROPY_DEV) | FM(F_EMFILE) | FM(F_CLOSE),
};
const int NL = 9;
void prepare(Ctx &c)
{
	fs_mkdir(c.dir());
	fs_mkdir(c.dir() + "/tree");
	fs_mkdir(c.dir() + "/tree/sub");
	fs_mkdir(c.dir() + "/tree/sub/sub2");
	fs_put(c.dir() + "/tree/a", std::string(111, 'x'));
	fs_put(c.dir() + "/tree/b", std::string(22, 'x'));
	fs_put(c.dir() + "/tree/sub/c", std::string(3333, 'x'));
	fs_put(c.dir() + "/tree/sub/sub2/d", std::string(4, 'x'));
	static const char *sfx[] = {"", ".tmp", ".crc", ".crc.tmp"};
	u32 m = choose(3) ? 0 : choose(16);
	for (int i = 0; i < 4; i++) if (m >> i & 1) fs_put(c.dir() + "/sw" + sfx[i], choose(2) ? "abcd" : "some old contents of the file");
}
void random_env()
{
	auto &E = entropy_cfg();
	E.seed = choose64();
	if (chance(250000)) E.nosys = true;
	if (chance(80000)) E.dev_missing = true;
	if (chance(200000)) E.chunk = 1 + log_uniform(50);
	if (chance(50000)) E.dead = true;
}
void aborted_check(Proc *p)
{
	auto &E = entropy_cfg();
	if (proc_dead(p) && !errs() && !E.dead && !(E.nosys && E.dev_missing)) FAIL("abort", "the library aborted the process although nothing failed");
}
}

// one module at a time, one failure (or several) anywhere in it
SCENARIO("C22", alone, 8)
{
	fs_choose_cfg();
	int k = (int)choose(NL);
	Ctx c;
	c.p = new_proc();
	prepare(c);
	if (k == 8) random_env();
	u32 rounds = 1 + (choose(3) == 2);
	static const u32 typ[] = {8, 6, 24, 12, 8, 20, 4, 6, 14};
	choose_faults(life_kinds[k] | (choose(4) == 3 ? FM(F_EINTR) : 0), typ[k]);
	describe("%s, %s", life_names[k], W->F.at >= 0 ? "one failing call" : W->F.mask ? "failing calls" : "nothing fails");
	int t = spawn("app", [&] { for (u32 i = 0; i < rounds; i++) lives[k](c); }, c.p);
	join(t);
	aborted_check(c.p);
	if (iconv_live()) FAIL("leak-handle", "%d conversion handles were not released", iconv_live());
	if (!proc_dead(c.p)) { check_no_leak("at the end", c.p); kill_proc(c.p); }
}
// arguments the documentation rules out: refused, with nothing left behind
SCENARIO("C22", invalid_arguments, 1)
{
	fs_choose_cfg();
	Ctx c;
	c.p = new_proc();
	prepare(c);
	int t = spawn("app", [&] {
		u32 n = 1 + choose(6);
		for (u32 i = 0; i < n; i++) {
			switch (choose(9)) {
			case 0: {
				static const size_t bad[] = {0, 4096, 4097, 65536, (size_t)-1};
				size_t z = bad[choose(5)];
				mbox *b = lib([&] { return mbox_new(z); });
				ev("mbox_new", (i64)z, 0, b != nullptr);
				if (b) FAIL("phantom", "mbox_new(%zu) succeeded, sizes are documented to lie between 0 and PIPE_BUF, exclusive", z);
				break;
			}
			case 1: {
				static const size_t bad[] = {65533, 65536, 1 << 20, (size_t)-1, (size_t)-4};
				size_t z = bad[choose(5)];
				dynmbox *b = lib([&] { return dynmbox_new(z); });
				ev("dynmbox_new", (i64)z, 0, b != nullptr);
				if (b) FAIL("phantom", "dynmbox_new(%zu) succeeded, the maximum is documented as %zu", z, (size_t)DYNMBOX_MAX_SIZE);
				break;
			}
			case 2: {
				u8 m[8] = {0};
				if (lib([&] { return mbox_get_read_fd(nullptr); }) != -1) FAIL("phantom", "mbox_get_read_fd(NULL) is not -1");
				if (lib([&] { return dynmbox_get_read_fd(nullptr); }) != -1) FAIL("phantom", "dynmbox_get_read_fd(NULL) is not -1");
				if (lib([&] { return mbox_push(nullptr, m); }) >= 0 || lib([&] { return mbox_peek(nullptr, m); }) >= 0 || lib([&] { return mbox_push_block(nullptr, m, 1); }) >= 0) FAIL("phantom", "an operation on no mailbox succeeded");
				if (lib([&] { return dynmbox_push(nullptr, m, 1); }) >= 0 || lib([&] { return dynmbox_peek(nullptr, m); }) >= 0 || lib([&] { return dynmbox_push_block(nullptr, m, 1, 1); }) >= 0) FAIL("phantom", "an operation on no mailbox succeeded");
				lib([&] { mbox_destroy(nullptr); dynmbox_destroy(nullptr); });
				break;
			}
			case 3: {
				mbox *b = lib([&] { return mbox_new(8); });
				if (!b) FAIL("constructor-failed", "mbox_new failed although nothing did");
				u8 m[8];
				if (lib([&] { return mbox_push(b, nullptr); }) >= 0 || lib([&] { return mbox_push_block(b, nullptr, 1); }) >= 0) FAIL("phantom", "pushing no message succeeded");
				if (lib([&] { return mbox_peek(b, nullptr); }) >= 0) FAIL("phantom", "reading into nothing succeeded");
				int r = lib([&] { return mbox_peek(b, m); });
				if (r != -EAGAIN) FAIL("phantom", "a refused push left something to read (%d)", r);
				lib([&] { mbox_destroy(b); });
				break;
			}
			case 4: {
				dynmbox *b = lib([&] { return dynmbox_new(8); });
				if (!b) FAIL("constructor-failed", "dynmbox_new failed although nothing did");
				u8 m[16] = {0};
				if (lib([&] { return dynmbox_push(b, nullptr, 3); }) >= 0 || lib([&] { return dynmbox_push(b, m, 9); }) >= 0 || lib([&] { return dynmbox_push_block(b, m, 9, 1); }) >= 0) FAIL("phantom", "an invalid push succeeded");
				if (lib([&] { return dynmbox_peek(b, nullptr); }) >= 0) FAIL("phantom", "reading into nothing succeeded");
				ssize_t r = lib([&] { return dynmbox_peek(b, m); });
				if (r != -EAGAIN) FAIL("phantom", "a refused push left something to read (%zd)", r);
				lib([&] { dynmbox_destroy(b); });
				break;
			}
			case 5: {
				std::string path = "/l0/" + std::string(choose(2) ? 121 + choose(8) : 200 + choose(4000), 'n');
				futils_safew_file *f = lib([&] { return choose(3) ? futils_safew_fopen(path.c_str()) : futils_safew_fopen("/nowhere/f"); });
				ev("fopen", f != nullptr);
				if (f) { lib([&] { return futils_safew_fclose_rollback(f); }); }
				if (lib([&] { return futils_safew_fclose_rollback(nullptr); }) >= 0 || lib([&] { return futils_safew_fclose_commit(nullptr); }) >= 0 || lib([&] { return futils_safew_fclose_commit_with_crc(nullptr); }) >= 0) FAIL("phantom", "closing no file succeeded");
				break;
			}
			case 6: {
				if (lib([&] { return sync_file(nullptr); }) >= 0 || lib([&] { return sync_folder(nullptr); }) >= 0 || lib([&] { return sync_file_and_folder(nullptr); }) >= 0) FAIL("phantom", "synchronising no path succeeded");
				break;
			}
			case 7: {
				char o[8];
				if (lib([&] { return futils_string_sanitize_utf8(nullptr, o, 8, nullptr, 0); }) >= 0 || lib([&] { return futils_string_sanitize_utf8("a", nullptr, 8, nullptr, 0); }) >= 0 ||
				    lib([&] { return futils_string_sanitize_utf8("a", o, 1, nullptr, 0); }) >= 0 || lib([&] { return futils_string_check_utf8(nullptr, 0, 0, nullptr); }) >= 0) FAIL("phantom", "invalid arguments of the UTF-8 functions were accepted");
				break;
			}
			case 8: {
				struct hash h;
				memset(&h, 0x5a, sizeof h);
				int r = lib([&] { return futils_hash_init(nullptr, 8, nullptr); });
				if (r >= 0) FAIL("phantom", "initialising no hash table succeeded");
				break;
			}
			}
			gone(c, "a refused call");
		}
	}, c.p);
	join(t);
	if (iconv_live()) FAIL("leak-handle", "%d conversion handles were not released", iconv_live());
	kill_proc(c.p);
}
// several modules in several threads of one process: a failure in one must not
// touch the objects (or the reused descriptors) of another
SCENARIO("C22", together, 4)
{
	fs_choose_cfg();
	Proc *p = new_proc();
	u32 n = 2 + choose(3);
	choose_sched((int)n);
	entropy_cfg().seed = choose64();
	std::vector<Ctx> c(n);
	std::vector<int> kind(n), tid(n);
	bool hash_used = false, rnd = false;
	for (u32 i = 0; i < n; i++) {
		c[i].p = p;
		c[i].alone = false;
		c[i].id = (int)i;
		prepare(c[i]);
		do kind[i] = (int)choose(NL); while (kind[i] == 3 && hash_used);
		if (kind[i] == 3) hash_used = true;
		if (kind[i] == 8) rnd = true;
	}
	u64 kinds = 0;
	for (u32 i = 0; i < n; i++) kinds |= life_kinds[kind[i]];
	if (rnd) kinds &= ~(FM(F_ENTROPY) | FM(F_ENTROPY_DEV));
	choose_faults(kinds & ~FM(F_CLOCK), 30);
	std::string d;
	for (u32 i = 0; i < n; i++) d += std::string(i ? ", " : "") + life_names[kind[i]];
	describe("together: %s", d.c_str());
	for (u32 i = 0; i < n; i++) tid[i] = spawn("app", [&, i] { u32 r = 1 + choose(2); for (u32 k = 0; k < r; k++) lives[kind[i]](c[i]); }, p);
	for (u32 i = 0; i < n; i++) join(tid[i]);
	aborted_check(p);
	if (!proc_dead(p)) {
		check_no_leak("at the end", p);
		if (iconv_live()) FAIL("leak-handle", "%d conversion handles were not released", iconv_live());
		kill_proc(p);
	}
}

// ---------------------------------------------------------------- C23
namespace {
struct Obj { int kind; void *p; int fd; std::vector<int> fds; size_t sz; };
}
SCENARIO("C23", executed_program, 4)
{
	fs_mkdir("/l0");
	Proc *p = new_proc();
	std::vector<Obj> objs;
	bool busy = false;  // a constructor or destructor is running
	std::set<int> held; // descriptors of finished objects
	u32 nexec = 0;
	choose_sched(2);
	W->cfg.vis_ppm = 300000;
	auto programme = [&](const char *when) {
		for (int fd : exec_survivors(p)) if (held.count(fd)) FAIL("inherited", "descriptor %d, held by a mailbox or a watch, would be open in a program executed %s", fd, when);
		for (auto &o : objs) if (o.kind < 2) for (int fd : o.fds) if (!(fd_flags(fd) & O_NONBLOCK)) FAIL("blocking-descriptor", "descriptor %d of a mailbox is not in non-blocking mode %s", fd, when);
	};
	u32 steps = 2 + choose(14);
	if (chance(400000)) choose_faults(FM(F_NOMEM) | FM(F_PIPE) | FM(F_EMFILE) | FM(F_INOTIFY) | FM(F_EINTR) | FM(F_CLOSE) | FM(F_IOCTL), 10);
	describe("%u operations", steps);
	int t = spawn("app", [&] {
		for (u32 i = 0; i < steps; i++) {
			u32 a = choose(6);
			if (objs.empty() || (a < 2 && objs.size() < 6)) {
				Obj o;
				o.kind = (int)choose(3);
				o.sz = 1 + choose(2) * choose(3000);
				std::vector<int> before = lib_fds(p);
				busy = true;
				o.p = nullptr;
				o.fd = -1;
				if (o.kind == 0) { mbox *b = lib([&] { return mbox_new(o.sz); }); o.p = b; if (b) o.fd = lib([&] { return mbox_get_read_fd(b); }); }
				else if (o.kind == 1) { dynmbox *b = lib([&] { return dynmbox_new(o.sz); }); o.p = b; if (b) o.fd = lib([&] { return dynmbox_get_read_fd(b); }); }
				else o.fd = lib([&] { return inotify_create("/l0", IN_ALL_EVENTS); });
				busy = false;
				ev("created", o.kind, o.fd >= 0);
				if (o.fd < 0) { if (lib_fds(p) != before) FAIL("leak-descriptor", "a failed constructor left descriptors open:%s", open_fds_desc(p).c_str()); continue; }
				for (int fd : lib_fds(p)) if (!std::count(before.begin(), before.end(), fd)) { o.fds.push_back(fd); held.insert(fd); }
				if (!std::count(o.fds.begin(), o.fds.end(), o.fd)) FAIL("wrong-descriptor", "the object's descriptor %d is not one it opened", o.fd);
				objs.push_back(o);
				programme("right after the constructor returned");
				if (fd_has_close_on_exec(o.fd) != 1) FAIL("inherited", "fd_has_close_on_exec reports 0 for descriptor %d of a new object", o.fd);
			} else {
				size_t k = choose((u32)objs.size());
				Obj &o = objs[k];
				if (a == 5) {
					Obj d = o;
					objs.erase(objs.begin() + k);
					for (int fd : d.fds) held.erase(fd);
					busy = true;
					if (d.kind == 0) lib([&] { mbox_destroy((mbox *)d.p); });
					else if (d.kind == 1) lib([&] { dynmbox_destroy((dynmbox *)d.p); });
					else lib([&] { inotify_destroy(d.fd); });
					busy = false;
					for (int fd : lib_fds(p)) if (std::count(d.fds.begin(), d.fds.end(), fd)) FAIL("leak-descriptor", "a destroyed object left descriptor %d open", fd);
				} else {
					Buf b(o.sz);
					memset(b.p, 7, o.sz);
					InoCtx x{0};
					if (o.kind == 0) { if (choose(2)) lib([&] { return choose(3) ? mbox_push((mbox *)o.p, b.p) : mbox_push_block((mbox *)o.p, b.p, 2); }); else lib([&] { return mbox_peek((mbox *)o.p, b.p); }); }
					else if (o.kind == 1) { if (choose(2)) lib([&] { return choose(3) ? dynmbox_push((dynmbox *)o.p, b.p, choose((u32)o.sz + 1)) : dynmbox_push_block((dynmbox *)o.p, b.p, o.sz, 2); }); else lib([&] { return dynmbox_peek((dynmbox *)o.p, b.p); }); }
					else { inotify_push(o.fd, IN_CREATE, 0, "n"); lib([&] { inotify_process_fd(o.fd, ino_cb, &x); }); }
					xfree(b.p);
					programme("after an operation");
				}
			}
		}
	}, p);
	// another thread executes programs whenever it likes
	bool stop = false;
	int e = spawn("executor", [&] {
		for (u32 i = 0; i < 40 && !stop; i++) {
			yield_point();
			programme("by another thread");
			count_fault(F_EXEC);
			nexec++;
			if (choose(3) == 2) sleep_ns(1 + (i64)choose(1000) * US);
		}
	});
	join(t);
	stop = true;
	join(e);
	for (auto &o : objs) (void)o;
	kill_proc(p);
}
// several threads construct objects at the same time
SCENARIO("C23", constructors_together, 2)
{
	fs_mkdir("/l0");
	Proc *p = new_proc();
	u32 n = 2 + choose(3);
	choose_sched((int)n + 1);
	W->cfg.vis_ppm = 300000;
	if (!W->cfg.hold && choose(2)) { W->cfg.preempt = W->cfg.fine = true; W->cfg.preempt_left = 3000; }
	if (choose(3) == 2) choose_faults(FM(F_NOMEM) | FM(F_PIPE) | FM(F_EMFILE) | FM(F_INOTIFY) | FM(F_EINTR) | FM(F_CLOSE), 10);
	u32 same = choose(4); // 3: each thread its own kind
	std::vector<std::vector<Obj>> objs(n);
	std::vector<int> tid(n);
	int live = 0, running = 0;
	describe("%u threads construct mailboxes and watches", n);
	// with nobody inside a constructor or destructor, every descriptor belongs to an object
	auto examine = [&](const char *when) {
		if (running) return;
		for (int fd : exec_survivors(p)) FAIL("inherited", "descriptor %d, held by a mailbox or a watch, would be open in a program executed %s", fd, when);
		std::set<int> watches;
		for (auto &v : objs) for (auto &o : v) if (o.kind == 2) watches.insert(o.fd);
		for (int fd : lib_fds(p)) if (!watches.count(fd) && !(fd_flags(fd) & O_NONBLOCK)) FAIL("blocking-descriptor", "descriptor %d of a mailbox is not in non-blocking mode %s", fd, when);
		if (!live && !lib_fds(p).empty()) FAIL("leak-descriptor", "no object is left and descriptors are open %s:%s", when, open_fds_desc(p).c_str());
	};
	for (u32 i = 0; i < n; i++) tid[i] = spawn("app", [&, i] {
		u32 k = 1 + choose(4);
		auto &mine = objs[i];
		while (k--) {
			if (mine.empty() || choose(3)) {
				Obj o;
				o.kind = same < 3 ? (int)same : (int)choose(3);
				o.sz = 1 + choose(100);
				o.p = nullptr;
				o.fd = -1;
				running++;
				if (o.kind == 0) { mbox *b = lib([&] { return mbox_new(o.sz); }); o.p = b; if (b) o.fd = lib([&] { return mbox_get_read_fd(b); }); }
				else if (o.kind == 1) { dynmbox *b = lib([&] { return dynmbox_new(o.sz); }); o.p = b; if (b) o.fd = lib([&] { return dynmbox_get_read_fd(b); }); }
				else o.fd = lib([&] { return inotify_create("/l0", IN_ALL_EVENTS); });
				running--;
				if (o.fd < 0) { examine("after a failed constructor"); continue; }
				for (auto &v : objs) for (auto &q : v) if (q.fd == o.fd) FAIL("wrong-descriptor", "two objects have descriptor %d", o.fd);
				mine.push_back(o);
				live++;
				if (!fd_is_cloexec(o.fd)) FAIL("inherited", "descriptor %d would be open in a program executed right after the constructor returned", o.fd);
				if (o.kind < 2 && !(fd_flags(o.fd) & O_NONBLOCK)) FAIL("blocking-descriptor", "descriptor %d of a new mailbox is not in non-blocking mode", o.fd);
				examine("right after a constructor returned");
			} else {
				size_t j = choose((u32)mine.size());
				Obj o = mine[j];
				mine.erase(mine.begin() + j);
				live--;
				running++;
				if (o.kind == 0) lib([&] { mbox_destroy((mbox *)o.p); });
				else if (o.kind == 1) lib([&] { dynmbox_destroy((dynmbox *)o.p); });
				else lib([&] { inotify_destroy(o.fd); });
				running--;
				examine("right after a destructor returned");
			}
			yield_point();
		}
		examine("by a thread that is done");
	}, p);
	for (u32 i = 0; i < n; i++) join(tid[i]);
	kill_proc(p);
}
SCENARIO("C23", descriptor_helpers, 3)
{
	fs_put("/f", "0123456789");
	choose_env();
	Proc *p = new_proc();
	bool faulty = chance(500000);
	u32 steps = 1 + choose(10);
	describe("%u calls of the descriptor helpers%s", steps, faulty ? ", failing fcntl" : "");
	int t = spawn("app", [&] {
		std::vector<int> fds;
		static const int fl[] = {O_RDONLY, O_WRONLY | O_APPEND, O_RDWR | O_NONBLOCK, O_RDONLY | O_CLOEXEC, O_RDWR | O_APPEND | O_NONBLOCK | O_CLOEXEC};
		u32 n = 1 + choose(3);
		for (u32 i = 0; i < n; i++) {
			if (choose(2)) fds.push_back(sim_open("/f", fl[choose(5)]));
			else { int q[2]; static const int pf[] = {0, O_CLOEXEC, O_NONBLOCK, O_CLOEXEC | O_NONBLOCK}; if (sim_pipe2(q, pf[choose(4)]) == 0) { fds.push_back(q[0]); fds.push_back(q[1]); } }
		}
		std::map<int, int> other;
		for (int fd : fds) other[fd] = fd_other_flags(fd, choose(3) == 2 ? 2 : 0);
		if (faulty) choose_faults(FM(F_FCNTL), steps * 2);
		for (u32 i = 0; i < steps; i++) {
			std::map<int, std::pair<int, bool>> st;
			for (int fd : fds) st[fd] = {fd_flags(fd), fd_is_cloexec(fd)};
			bool bad = choose(5) == 4;
			int fd = bad ? (choose(2) ? -1 : 3000 + (int)choose(20)) : pick(fds);
			int target = fd;
			sys_errors_clear();
			u32 f0 = fault_count(F_FCNTL);
			switch (choose(3)) {
			case 0: {
				int r = lib([&] { return fd_set_close_on_exec(fd); });
				ev("set_cloexec", fd, 0, r);
				if (r > 0 || r < -4095) FAIL("wrong-return", "fd_set_close_on_exec returned %d", r);
				if (bad) { if (r != -EBADF && fault_count(F_FCNTL) == f0) FAIL("wrong-error", "fd_set_close_on_exec of an invalid descriptor returned %d", r); break; }
				if (fault_count(F_FCNTL) != f0) { if (r == 0 || !sys_error_seen(-r)) FAIL("error-hidden", "fcntl failed and fd_set_close_on_exec returned %d", r); break; }
				if (r) FAIL("wrong-error", "fd_set_close_on_exec returned %d although nothing failed", r);
				st[fd].second = true;
				break;
			}
			case 1: {
				static const int add[] = {O_NONBLOCK, O_APPEND, O_NONBLOCK | O_APPEND, O_NOATIME, 0};
				int a = add[choose(5)];
				int r = lib([&] { return fd_add_flags(fd, a); });
				ev("add_flags", fd, a, r);
				if (r > 0 || r < -4095) FAIL("wrong-return", "fd_add_flags returned %d", r);
				if (bad) { if (r != -EBADF && fault_count(F_FCNTL) == f0) FAIL("wrong-error", "fd_add_flags of an invalid descriptor returned %d", r); break; }
				if (fault_count(F_FCNTL) != f0) { if (r == 0 || !sys_error_seen(-r)) FAIL("error-hidden", "fcntl failed and fd_add_flags returned %d", r); break; }
				if (r) FAIL("wrong-error", "fd_add_flags returned %d although nothing failed", r);
				for (int g : fds) if (st[g].first >= 0 && g == fd) st[g].first |= a;
				break;
			}
			case 2: {
				int r = lib([&] { return fd_has_close_on_exec(fd); });
				ev("has_cloexec", fd, 0, r);
				if (bad || fault_count(F_FCNTL) != f0) { if (r != 0) FAIL("wrong-report", "fd_has_close_on_exec of a descriptor that cannot be examined returned %d", r); break; }
				if (r != (int)st[fd].second) FAIL("wrong-report", "fd_has_close_on_exec returned %d, the flag is %s", r, st[fd].second ? "set" : "not set");
				break;
			}
			}
			(void)target;
			for (int g : fds) {
				if (fd_flags(g) != st[g].first) FAIL("flags-changed", "descriptor %d has flags %#o, expected %#o", g, fd_flags(g), st[g].first);
				if (fd_is_cloexec(g) != st[g].second) FAIL("flags-changed", "close-on-exec of descriptor %d is %s", g, fd_is_cloexec(g) ? "set" : "not set");
				if (fd_other_flags(g) != other[g]) FAIL("flags-changed", "another descriptor flag of descriptor %d changed", g);
			}
		}
	}, p);
	join(t);
	kill_proc(p);
}
