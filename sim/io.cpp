// descriptors, files, directories, pipes, notifications, entropy, stdio, iconv
#include "internal.h"
#include <sys/mman.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <stdlib.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <poll.h>
#include <iconv.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/inotify.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <algorithm>
#include <tuple>

namespace sim {

// ------------------------------------------------------------------ disk
enum IType { I_REG, I_DIR, I_LNK, I_CHR };
struct Inode {
	int id;
	IType type;
	std::string data;                 // what processes see
	std::string durable;              // what the medium holds
	bool dirty = false;               // data differs in history from durable
	bool lost = false;                // write-back failed: clean but not on the medium
	std::map<std::string, int> ents;  // cached directory
	std::map<std::string, int> dents; // durable directory
	std::string target;
	i64 size = -1;                    // pretended size of a huge file
	int rdev = 0;                     // 1 random, 2 urandom, 3 null
	int opens = 0;
	bool linked = false;              // may have several names
};
struct MetaOp { std::vector<std::tuple<int, std::string, int>> ch; }; // dir, name, inode (-1: removed)
struct Disk {
	std::vector<std::unique_ptr<Inode>> in;
	std::vector<MetaOp> journal;      // not yet durable
	u64 tmpn = 0;
	size_t forced = 0;                // prefix that must survive
	FsCfg cfg;
};

struct PipeB { std::deque<u8> q; size_t cap; int rd = 0, wr = 0; };
struct InotB { std::deque<std::string> q; std::map<int, std::pair<int, u32>> w; int next = 1; };

enum FKind { K_FILE, K_DIR, K_PIPER, K_PIPEW, K_INOT, K_DEV, K_EVENT, K_SOCK, K_EPOLL };
struct OFile {
	FKind kind;
	int refs = 0;
	int flags = 0;
	int ino = -1;
	i64 off = 0;
	std::shared_ptr<PipeB> pipe, pipe2;
	std::shared_ptr<InotB> inot;
	u64 counter = 0;
	std::map<int, std::pair<u32, u64>> ep;
	std::string path;
};
struct SFile { FILE *f; int fd; Proc *proc; bool dead; char *buf; OFile *of; };
struct SDir { u64 magic; int fd; Proc *proc; std::vector<std::pair<std::string, int>> names; size_t pos; struct dirent de; bool closed; int ino; bool tail; };

static Disk D;
static EntropyCfg E;
static u64 e_pos, e_deliv, e_weak;
static std::map<int, u64> e_mine;
static std::vector<u32> pcaps;
static std::map<FILE *, SFile *> sfiles;
static std::set<SDir *> sdirs;
static std::vector<SDir *> alldirs;
static std::vector<OFile *> allof;
static std::function<void(int, u32, u32, const std::string &)> on_inot;
static std::set<void *> iconvs;
static std::set<int> seen_errs;

FsCfg &fs_cfg() { return D.cfg; }
EntropyCfg &entropy_cfg() { return E; }
u64 entropy_pos() { return e_pos; }
u64 entropy_weak() { return e_weak; }
u64 entropy_mine() { return e_mine[self()]; }
u64 entropy_deliveries() { return e_deliv; }
u8 entropy_byte(u64 pos)
{
	u8 b = (u8)(mix2(E.seed, pos >> 3) >> ((pos & 7) * 8));
	if (E.flips.count(pos)) b ^= 0x5a;
	if (pos >= E.alter_from && pos < E.alter_to) b ^= (u8)(mix2(0x77777 + E.alter_salt, pos) | 1);
	return b;
}
int iconv_live() { return (int)iconvs.size(); }

static Inode *ino(int i) { return D.in[i].get(); }
static int new_inode(IType t)
{
	auto p = std::make_unique<Inode>();
	p->id = (int)D.in.size();
	p->type = t;
	D.in.push_back(std::move(p));
	return (int)D.in.size() - 1;
}
static void dput(int dir, const std::string &n, int i) { ino(dir)->ents[n] = i; ino(dir)->dents[n] = i; }
void io_reset()
{
	for (auto &x : sfiles) { if (x.second->proc) { } }
	sfiles.clear();
	for (SDir *d : alldirs) delete d;
	alldirs.clear();
	sdirs.clear();
	for (OFile *o : allof) delete o;
	allof.clear();
	D.in.clear();
	D.journal.clear();
	D.forced = 0;
	D.tmpn = 0;
	D.cfg = FsCfg();
	E = EntropyCfg();
	e_pos = e_deliv = e_weak = 0;
	e_mine.clear();
	pcaps.clear();
	on_inot = nullptr;
	seen_errs.clear();
	for (void *c : iconvs) iconv_close((iconv_t)c);
	iconvs.clear();
	int root = new_inode(I_DIR);
	int dev = new_inode(I_DIR);
	dput(root, "dev", dev);
	for (int k = 1; k <= 3; k++) {
		int c = new_inode(I_CHR);
		ino(c)->rdev = k;
		dput(dev, k == 1 ? "random" : k == 2 ? "urandom" : "null", c);
	}
	int tmp = new_inode(I_DIR);
	dput(root, "tmp", tmp);
}
void fs_choose_cfg()
{
	static const u32 bufs[] = {4096, 1, 3, 16, 64, 512, 65536};
	D.cfg.stdio_buf = bufs[pickw({6, 1, 1, 1, 1, 1, 1})];
	D.cfg.file_fsync_commits_meta = choose(2) == 0;
	D.cfg.dtype_unknown = choose(4) == 3;
	D.cfg.readdir_keeps_removed = choose(3) == 2;
	choose_env();
}

// path lookup; returns inode or -errno; parent and last component optionally
static int lookup(int base, const std::string &path, bool follow, int *par, std::string *last, int depth = 0)
{
	if (depth > 12) return -ELOOP;
	if (path.empty()) return -ENOENT;
	if (path.size() >= PATH_MAX) return -ENAMETOOLONG;
	std::vector<int> st;
	st.push_back(path[0] == '/' ? 0 : base);
	// rebuild the chain of parents for ".."
	size_t i = 0;
	int cur = st[0];
	std::map<int, int> up;
	std::vector<int> chain = {0};
	if (cur != 0) {
		// find the chain from the root
		std::function<bool(int)> dfs = [&](int d) -> bool {
			if (d == cur) return true;
			for (auto &e : ino(d)->ents)
				if (ino(e.second)->type == I_DIR) {
					chain.push_back(e.second);
					if (dfs(e.second)) return true;
					chain.pop_back();
				}
			return false;
		};
		if (!dfs(0)) chain.push_back(cur);
	}
	bool trailing = path.back() == '/';
	for (;;) {
		while (i < path.size() && path[i] == '/') i++;
		if (i >= path.size()) {
			if (par) *par = -1;
			if (last) last->clear();
			if (trailing && ino(cur)->type != I_DIR) return -ENOTDIR;
			return cur;
		}
		size_t j = i;
		while (j < path.size() && path[j] != '/') j++;
		std::string c = path.substr(i, j - i);
		bool lastc = path.find_first_not_of('/', j) == std::string::npos;
		if (ino(cur)->type != I_DIR) return -ENOTDIR;
		if (c.size() > NAME_MAX) return -ENAMETOOLONG;
		if (c == ".") { i = j; continue; }
		if (c == "..") { if (chain.size() > 1) chain.pop_back(); cur = chain.back(); i = j; continue; }
		auto it = ino(cur)->ents.find(c);
		if (lastc && par) *par = cur;
		if (lastc && last) *last = c;
		if (it == ino(cur)->ents.end()) {
			if (!lastc && par) *par = -1;
			return -ENOENT;
		}
		int nx = it->second;
		if (ino(nx)->type == I_LNK && (!lastc || follow || trailing)) {
			std::string rest = j < path.size() ? path.substr(j) : "";
			std::string np = ino(nx)->target + rest;
			return lookup(cur, np, follow, par, last, depth + 1);
		}
		if (lastc) {
			if (trailing && ino(nx)->type != I_DIR) return -ENOTDIR;
			return nx;
		}
		chain.push_back(nx);
		cur = nx;
		i = j;
	}
}
static void meta(std::vector<std::tuple<int, std::string, int>> ch)
{
	for (auto &c : ch) {
		auto &e = ino(std::get<0>(c))->ents;
		if (std::get<2>(c) < 0) e.erase(std::get<1>(c));
		else e[std::get<1>(c)] = std::get<2>(c);
	}
	D.journal.push_back(MetaOp{std::move(ch)});
}
static void apply_meta(size_t n)
{
	for (size_t i = 0; i < n; i++)
		for (auto &c : D.journal[i].ch) {
			auto &e = ino(std::get<0>(c))->dents;
			if (std::get<2>(c) < 0) e.erase(std::get<1>(c));
			else e[std::get<1>(c)] = std::get<2>(c);
		}
	D.journal.erase(D.journal.begin(), D.journal.begin() + (long)n);
	D.forced = D.forced > n ? D.forced - n : 0;
}
void fs_writeback()
{
	apply_meta(D.journal.size());
	for (auto &p : D.in)
		if (p->type == I_REG) { p->durable = p->data; p->dirty = p->lost = false; }
}
void fs_power_loss()
{
	for (Proc *p : G->procs)
		if (p != G->mainp && !p->dead) kill_proc(p);
	size_t n = D.journal.size();
	size_t k = D.forced + choose((u32)(n - D.forced + 1));
	ev("power_loss", (i64)k, (i64)n);
	note("power loss: %zu of %zu pending directory changes survive", k, n);
	apply_meta(k);
	D.journal.clear();
	D.forced = 0;
	D.tmpn = 0;
	for (auto &p : D.in) {
		if (p->type == I_DIR) p->ents = p->dents;
		if (p->type != I_REG || (!p->dirty && !p->lost)) continue;
		u32 c = pickw({3, 3, 2, 2, 1});
		std::string r;
		if (p->data == p->durable && c != 4) c = 1;
		switch (c) {
		case 0: r = p->durable; break;
		case 1: r = p->data; break;
		case 2: r = p->data.substr(0, choose((u32)p->data.size() + 1)); break;   // torn: only a prefix
		case 3: { // size updated, the data of the last blocks was not
			size_t z = choose((u32)p->data.size() + 1);
			r = p->data.substr(0, z) + std::string(p->data.size() - z, '\0');
			break;
		}
		case 4: { // mixture of old and new
			r = p->data;
			size_t z = choose((u32)p->data.size() + 1);
			for (size_t i = z; i < r.size() && i < p->durable.size(); i++) r[i] = p->durable[i];
			break;
		}
		}
		if (r != p->data) count_fault(F_TORN);
		ev("unsynced", p->id, (i64)c, (i64)r.size());
		note("unsynced file #%d: %zu bytes in cache, %zu on medium, %zu after (mode %u)", p->id, p->data.size(), p->durable.size(), r.size(), c);
		p->data = p->durable = r;
		p->dirty = p->lost = false;
	}
}
static std::pair<int, std::string> split_mk(const std::string &path)
{
	int par = -1;
	std::string last;
	int r = lookup(0, path, true, &par, &last);
	if (r >= 0 && par < 0) return {r, ""};
	SIM_REQUIRE(par >= 0);
	return {par, last};
}
void fs_put(const std::string &path, const std::string &data)
{
	auto pl = split_mk(path);
	auto it = ino(pl.first)->ents.find(pl.second);
	int i = it != ino(pl.first)->ents.end() ? it->second : new_inode(I_REG);
	dput(pl.first, pl.second, i);
	Inode *p = ino(i);
	p->data = p->durable = data;
	p->dirty = p->lost = false;
}
void fs_put_cached(const std::string &path, const std::string &data)
{
	auto pl = split_mk(path);
	auto it = ino(pl.first)->ents.find(pl.second);
	int i;
	if (it == ino(pl.first)->ents.end()) { i = new_inode(I_REG); meta({{pl.first, pl.second, i}}); }
	else i = it->second;
	ino(i)->data = data;
	ino(i)->dirty = true;
	ino(i)->lost = false;
}
void fs_mkdir(const std::string &path)
{
	auto pl = split_mk(path);
	if (pl.second.empty()) return;
	if (ino(pl.first)->ents.count(pl.second)) return;
	int i = new_inode(I_DIR);
	dput(pl.first, pl.second, i);
}
void fs_link(const std::string &path, const std::string &existing)
{
	int i = lookup(0, existing.c_str(), false, nullptr, nullptr);
	if (i < 0) internal_error("fs_link: no such file");
	auto pl = split_mk(path);
	ino(i)->linked = true;
	dput(pl.first, pl.second, i);
}
void fs_symlink(const std::string &path, const std::string &target)
{
	auto pl = split_mk(path);
	int i = new_inode(I_LNK);
	ino(i)->target = target;
	dput(pl.first, pl.second, i);
}
bool fs_get(const std::string &path, std::string &data)
{
	int i = lookup(0, path, true, nullptr, nullptr);
	if (i < 0 || ino(i)->type != I_REG) return false;
	data = ino(i)->data;
	return true;
}
void fs_set_size(const std::string &path, i64 size)
{
	int i = lookup(0, path, false, nullptr, nullptr);
	SIM_REQUIRE(i >= 0);
	ino(i)->size = size;
}
bool fs_exists(const std::string &path) { return lookup(0, path, false, nullptr, nullptr) >= 0; }
bool fs_dirty(const std::string &path)
{
	int i = lookup(0, path, true, nullptr, nullptr);
	return i >= 0 && (ino(i)->dirty || ino(i)->lost);
}
void fs_remove(const std::string &path)
{
	int par = -1;
	std::string last;
	int i = lookup(0, path, false, &par, &last);
	if (i >= 0 && par >= 0) meta({{par, last, -1}});
}
std::vector<std::string> fs_list(const std::string &dir)
{
	std::vector<std::string> r;
	int i = lookup(0, dir, true, nullptr, nullptr);
	if (i >= 0) for (auto &e : ino(i)->ents) r.push_back(e.first);
	return r;
}

// ------------------------------------------------------------------ descriptors
static Proc *cp() { return G->cur ? G->cur->proc : G->mainp; }
static FdEnt *fent(int fd)
{
	Proc *p = cp();
	if (fd < 0 || (size_t)fd >= p->fds.size() || !p->fds[fd].f) return nullptr;
	return &p->fds[fd];
}
static OFile *of(int fd) { FdEnt *e = fent(fd); return e ? e->f : nullptr; }
static OFile *new_of(FKind k, int flags)
{
	OFile *o = new OFile;
	o->kind = k;
	o->flags = flags;
	allof.push_back(o);
	return o;
}
static int install(OFile *o, bool cloexec, int minfd = 0)
{
	Proc *p = cp();
	int fd = p->first_fd > minfd ? p->first_fd : minfd;
	for (;; fd++) {
		if ((size_t)fd >= p->fds.size()) p->fds.resize(fd + 1);
		if (!p->fds[fd].f) break;
	}
	FdEnt &e = p->fds[fd];
	e.f = o;
	e.cloexec = cloexec;
	e.lib = G->cur && G->cur->in_lib;
	e.born = G->seq;
	o->refs++;
	return fd;
}
static void drop(OFile *o)
{
	if (--o->refs > 0) return;
	if (o->kind == K_PIPER) o->pipe->rd--;
	if (o->kind == K_PIPEW) o->pipe->wr--;
	if (o->kind == K_SOCK) { o->pipe->rd--; o->pipe2->wr--; }
	o->pipe.reset(); o->pipe2.reset(); o->inot.reset();
}
void io_kill_proc(Proc *p)
{
	for (auto &e : p->fds) if (e.f) { drop(e.f); e.f = nullptr; }
	for (auto &x : sfiles) if (x.second->proc == p) x.second->dead = true;
}
size_t open_fds(Proc *p) { if (!p) p = G->mainp; size_t n = 0; for (auto &e : p->fds) if (e.f) n++; return n; }
size_t open_lib_fds(Proc *p) { if (!p) p = G->mainp; size_t n = 0; for (auto &e : p->fds) if (e.f && e.lib) n++; return n; }
std::vector<int> lib_fds(Proc *p) { if (!p) p = G->mainp; std::vector<int> v; for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i].f && p->fds[i].lib) v.push_back((int)i); return v; }
std::string open_fds_desc(Proc *p)
{
	static const char *kn[] = {"file", "directory", "pipe read end", "pipe write end", "inotify", "device", "eventfd", "socket"};
	if (!p) p = G->mainp;
	std::string s;
	for (size_t i = 0; i < p->fds.size(); i++)
		if (p->fds[i].f && p->fds[i].lib) s += " " + std::to_string(i) + ":" + kn[p->fds[i].f->kind] + (p->fds[i].f->path.empty() ? "" : " " + p->fds[i].f->path);
	return s;
}
std::vector<int> exec_survivors(Proc *p)
{
	if (!p) p = G->mainp;
	std::vector<int> v;
	for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i].f && p->fds[i].lib && !p->fds[i].cloexec) v.push_back((int)i);
	return v;
}
static bool of_readable(OFile *o)
{
	switch (o->kind) {
	case K_PIPER: return !o->pipe->q.empty() || o->pipe->wr == 0;
	case K_SOCK: return !o->pipe->q.empty() || o->pipe->wr == 0;
	case K_INOT: return !o->inot->q.empty();
	case K_EVENT: return o->counter > 0;
	case K_PIPEW: return false;
	default: return true;
	}
}
static bool of_writable(OFile *o)
{
	PipeB *b = o->kind == K_PIPEW ? o->pipe.get() : o->kind == K_SOCK ? o->pipe2.get() : nullptr;
	if (b) return b->rd == 0 || b->cap - b->q.size() >= PIPE_BUF;
	if (o->kind == K_EVENT) return o->counter < ~0ull - 1;
	return o->kind != K_PIPER && o->kind != K_INOT;
}
bool fd_readable(int fd) { OFile *o = of(fd); return o && of_readable(o); }
bool fd_writable(int fd) { OFile *o = of(fd); return o && of_writable(o); }
int fd_other_flags(int fd, int set) { FdEnt *e = fent(fd); if (!e) return -1; if (set >= 0) e->fdfl = set; return e->fdfl; }
bool fd_is_cloexec(int fd) { FdEnt *e = fent(fd); return e && e->cloexec; }
int fd_flags(int fd) { OFile *o = of(fd); return o ? o->flags : -1; }
void pipe_set_caps(const std::vector<u32> &c) { pcaps = c; }

static std::string mkev(int wd, u32 mask, u32 cookie, const std::string &name)
{
	struct inotify_event e;
	e.wd = wd; e.mask = mask; e.cookie = cookie;
	e.len = name.empty() ? 0 : (u32)((name.size() + 1 + 15) & ~15ull);
	std::string s((char *)&e, sizeof e);
	s += name;
	s.resize(sizeof e + e.len, '\0');
	return s;
}
void inotify_push(int fd, u32 mask, u32 cookie, const std::string &name, int wdn)
{
	OFile *o = of(fd);
	if (!o || o->kind != K_INOT) fail("wrong-descriptor", "descriptor %d, which the library returned for the watch, is not a notification descriptor", fd);
	int wd = mask & IN_Q_OVERFLOW ? -1 : wdn ? wdn : o->inot->w.empty() ? 1 : o->inot->w.begin()->first;
	std::string e = mkev(wd, mask, cookie, name);
	if (!o->inot->q.empty() && o->inot->q.back() == e) return; // the kernel merges identical neighbours
	o->inot->q.push_back(e);
	ev("kernel_event", mask, (i64)name.size());
	if (on_inot) on_inot(wd, mask, cookie, name);
}
void inotify_on_push(std::function<void(int, u32, u32, const std::string &)> f) { on_inot = std::move(f); }
u32 inotify_mask(int fd, const std::string &path)
{
	OFile *o = of(fd);
	if (!o || o->kind != K_INOT) return 0;
	int i = lookup(0, path, true, nullptr, nullptr);
	for (auto &w : o->inot->w) if (w.second.first == i) return w.second.second;
	return 0;
}
size_t inotify_pending(int fd) { OFile *o = of(fd); return o ? o->inot->q.size() : 0; }

bool sys_error_seen(int e) { return seen_errs.count(e) > 0; }
void sys_errors_clear() { seen_errs.clear(); }
int sys_fail(int e) { errno = e; if (G && G->cur && G->cur->in_lib) seen_errs.insert(e); return -1; }
static int E_(int e) { return sys_fail(e); }
// a successful call may leave any value in errno
static void clobber() { if (G->cur && G->cur->in_lib && W->cfg.clobber_errno) errno = ENOTTY; }
static int pick_err(std::initializer_list<int> l)
{
	auto it = l.begin();
	std::advance(it, choose((u32)l.size()));
	return *it;
}
static bool cwd_ino(int dirfd, int &b, const char *path)
{
	b = 0;
	if (path && path[0] == '/') return true;
	if (dirfd == AT_FDCWD) return true;
	OFile *o = of(dirfd);
	if (!o) { errno = EBADF; return false; }
	if (o->kind != K_DIR) { errno = ENOTDIR; return false; }
	b = o->ino;
	return true;
}

static int do_open(int dirfd, const char *path, int flags, const char *who)
{
	check_range(path, strlen(path) + 1, false, who);
	vis(who, (i64)strlen(path), flags);
	note("%s(\"%s\", 0x%x)", who, path, flags);
	if (fault(F_EMFILE)) return E_(pick_err({EMFILE, ENFILE, ENOMEM}));
	int b;
	if (!cwd_ino(dirfd, b, path)) return -1;
	int par = -1;
	std::string last;
	int i = lookup(b, path, !(flags & O_NOFOLLOW), &par, &last);
	bool dev = i >= 0 && ino(i)->type == I_CHR;
	if (dev && ino(i)->rdev <= 2) {
		if (E.dev_missing) return E_(ENOENT);
		if (fault(F_ENTROPY_DEV)) return E_(pick_err({EACCES, EMFILE, ENOENT, EINTR, EIO}));
	} else if (fault(F_OPEN)) return E_((flags & (O_CREAT | O_WRONLY | O_RDWR)) ? pick_err({EIO, ENOSPC, ENOMEM, EACCES, EROFS, EDQUOT, EPERM}) : pick_err({EIO, ENOMEM, EACCES, EPERM, ELOOP}));
	if (i < 0) {
		if (i != -ENOENT || !(flags & O_CREAT) || par < 0 || last.empty()) return E_(-i);
		if (path[strlen(path) - 1] == '/') return E_(EISDIR);
		i = new_inode(I_REG);
		meta({{par, last, i}});
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) return E_(EEXIST);
		if (ino(i)->type == I_LNK) return E_(ELOOP);
		if ((flags & O_DIRECTORY) && ino(i)->type != I_DIR) return E_(ENOTDIR);
		if (ino(i)->type == I_DIR && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT))) return E_(EISDIR);
		if (ino(i)->type == I_REG && (flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && !ino(i)->data.empty()) {
			ino(i)->data.clear();
			ino(i)->dirty = true;
			ino(i)->lost = false;
		}
	}
	OFile *o = new_of(ino(i)->type == I_DIR ? K_DIR : ino(i)->type == I_CHR ? K_DEV : K_FILE, flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC | O_NOCTTY));
	o->ino = i;
	o->path = path;
	ino(i)->opens++;
	int fd = install(o, flags & O_CLOEXEC);
	ev("fd", fd, i);
	clobber();
	return fd;
}
static int do_close(int fd)
{
	vis("close", fd);
	FdEnt *e = fent(fd);
	bool inlib = G->cur->in_lib;
	if (!e) {
		if (inlib && fd >= 0 && G->cur->proc->closed_once.count(fd)) fail("fd-double-close", "the library closes descriptor %d a second time: with other threads running it closes somebody else's descriptor", fd);
		if (inlib && fd >= 0 ) fail("fd-bad-close", "the library closes descriptor %d, which is not open", fd);
		return E_(EBADF);
	}
	if (inlib && !e->lib) fail("fd-foreign-close", "the library closes descriptor %d, which belongs to somebody else", fd);
	G->cur->proc->closed_once.insert(fd);
	OFile *o = e->f;
	e->f = nullptr;
	drop(o);
	if (fault(F_CLOSE)) return E_(pick_err({EIO, EINTR}));
	return 0;
}

static i64 entropy_read(u8 *b, size_t n)
{
	// delivered bytes
	for (size_t i = 0; i < n; i++) b[i] = entropy_byte(e_pos + i);
	e_pos += n;
	e_deliv++;
	e_mine[self()] += n;
	if (W->mono < E.ready_at) e_weak += n;
	ev("entropy", (i64)n, (i64)e_pos);
	return (i64)n;
}
static ssize_t file_write(OFile *o, const u8 *p, size_t n, i64 off)
{
	Inode *in = ino(o->ino);
	if (fault(F_EIO_WRITE)) return E_(EIO);
	if (fault(F_ENOSPC)) return E_(pick_err({ENOSPC, EDQUOT, EFBIG}));
	if (n > 1 && fault(F_SHORT_WRITE)) n = 1 + choose((u32)n - 1);
	if (D.cfg.quota >= 0) {
		if (D.cfg.quota == 0 && n) { count_fault(F_ENOSPC); ev("disk_full"); return E_(ENOSPC); }
		if ((i64)n > D.cfg.quota) n = (size_t)D.cfg.quota;
		D.cfg.quota -= (i64)n;
	}
	auto put = [&](size_t a, size_t b) {
		if (in->data.size() < (size_t)off + b) in->data.resize((size_t)off + b, '\0');
		memcpy(&in->data[(size_t)off + a], p + a, b - a);
		in->dirty = true;
		in->lost = false;
	};
	if (n > 1 && W->crash_in >= 0) {
		put(0, n / 2); // a kill can hit in the middle of a write
		vis("write_mid");
		put(n / 2, n);
	} else
		put(0, n);
	return (ssize_t)n;
}
static ssize_t do_write(int fd, const void *buf, size_t n, i64 at = -1)
{
	vis("write", fd, (i64)n);
	OFile *o = of(fd);
	if (!o) return E_(EBADF);
	check_range(buf, n, false, "write");
	if (o->kind == K_PIPEW || o->kind == K_SOCK) {
		PipeB *b = o->kind == K_PIPEW ? o->pipe.get() : o->pipe2.get();
		if (fault(F_EINTR)) return E_(EINTR);
		if (n == 0) return 0;
		size_t done = 0;
		const u8 *p = (const u8 *)buf;
		for (;;) {
			if (b->rd == 0) return done ? (ssize_t)done : E_(EPIPE);
			size_t fr = b->cap - b->q.size();
			if (n <= PIPE_BUF ? fr >= n : fr > 0) {
				size_t k = n - done < fr ? n - done : fr;
				b->q.insert(b->q.end(), p + done, p + done + k);
				done += k;
				if (done == n) { ev("wrote", (i64)n); return (ssize_t)n; }
				continue;
			}
			if (o->flags & O_NONBLOCK) return done ? (ssize_t)done : E_(EAGAIN);
			probe("a pipe write blocked");
			Wake w = block([b, n] { return b->rd == 0 || (n <= PIPE_BUF ? b->cap - b->q.size() >= n : b->cap > b->q.size()); }, CK_NONE, 0, true);
			if (w == W_INTR) return done ? (ssize_t)done : E_(EINTR);
		}
	}
	if (o->kind == K_EVENT) {
		if (n < 8) return E_(EINVAL);
		u64 v;
		memcpy(&v, buf, 8);
		o->counter += v;
		return 8;
	}
	if (o->kind == K_DEV) return (ssize_t)n;
	if (o->kind != K_FILE) return E_(EBADF);
	if ((o->flags & O_ACCMODE) == O_RDONLY) return E_(EBADF);
	i64 off = at >= 0 ? at : (o->flags & O_APPEND) ? (i64)ino(o->ino)->data.size() : o->off;
	ssize_t r = file_write(o, (const u8 *)buf, n, off);
	if (r > 0 && at < 0) o->off = off + r;
	ev("written", r);
	return r;
}
static ssize_t do_read(int fd, void *buf, size_t n, i64 at = -1)
{
	vis("read", fd, (i64)n);
	OFile *o = of(fd);
	if (!o) return E_(EBADF);
	check_range(buf, n, true, "read");
	u8 *p = (u8 *)buf;
	switch (o->kind) {
	case K_PIPER: case K_SOCK: {
		PipeB *b = o->pipe.get();
		if (fault(F_EINTR)) return E_(EINTR);
		if (!n) return 0;
		while (b->q.empty()) {
			if (b->wr == 0) return 0;
			if (o->flags & O_NONBLOCK) return E_(EAGAIN);
			probe("a pipe read blocked");
			if (block([b] { return !b->q.empty() || b->wr == 0; }, CK_NONE, 0, true) == W_INTR) return E_(EINTR);
		}
		size_t k = n < b->q.size() ? n : b->q.size();
		for (size_t i = 0; i < k; i++) { p[i] = b->q.front(); b->q.pop_front(); }
		ev("got", (i64)k);
		return (ssize_t)k;
	}
	case K_INOT: {
		InotB *b = o->inot.get();
		if (fault(F_INOTIFY)) return E_(pick_err({EINTR, EIO, ENOMEM}));
		while (b->q.empty()) {
			if (o->flags & O_NONBLOCK) return E_(EAGAIN);
			if (block([b] { return !b->q.empty(); }, CK_NONE, 0, true) == W_INTR) return E_(EINTR);
		}
		size_t done = 0;
		while (!b->q.empty() && b->q.front().size() <= n - done) {
			memcpy(p + done, b->q.front().data(), b->q.front().size());
			done += b->q.front().size();
			b->q.pop_front();
		}
		if (!done) return E_(EINVAL);
		ev("got", (i64)done);
		return (ssize_t)done;
	}
	case K_EVENT:
		if (n < 8) return E_(EINVAL);
		if (!o->counter) {
			if (o->flags & O_NONBLOCK) return E_(EAGAIN);
			OFile *oo = o;
			if (block([oo] { return oo->counter > 0; }, CK_NONE, 0, true) == W_INTR) return E_(EINTR);
		}
		memcpy(p, &o->counter, 8);
		o->counter = 0;
		return 8;
	case K_DEV:
		if (ino(o->ino)->rdev == 3) return 0;
		if (E.dead) { count_fault(F_ENTROPY_DEV); return E_(EIO); }
		if (ino(o->ino)->rdev == 1 && W->mono < E.ready_at) {
			if (o->flags & O_NONBLOCK) return E_(EAGAIN);
			if (block([] { return W->mono >= E.ready_at; }, CK_MONO, E.ready_at, true) == W_INTR) return E_(EINTR);
		}
		if (storm(F_ENTROPY_DEV)) return E_(EINTR);
		if (fault(F_ENTROPY_DEV)) {
			switch (choose(5)) {
			case 0: G->cur->storm = log_uniform(W->cfg.storm); return E_(EINTR);
			case 1: return E_(EIO);
			case 2: return 0;
			case 3: if (n > 1) return entropy_read(p, 1 + choose((u32)(n > 1000000 ? 1000000 : n) - 1)); break;
			case 4: return E_(EAGAIN);
			}
		}
		if (E.chunk && n > E.chunk) n = E.chunk;
		return entropy_read(p, n);
	case K_FILE: {
		if ((o->flags & O_ACCMODE) == O_WRONLY) return E_(EBADF);
		if (fault(F_EIO_READ)) return E_(EIO);
		Inode *in = ino(o->ino);
		size_t off = at >= 0 ? (size_t)at : (size_t)o->off;
		if (off >= in->data.size()) { ev("got", 0); return 0; }
		size_t k = in->data.size() - off;
		if (k > n) k = n;
		if (k > 1 && fault(F_SHORT_READ)) k = 1 + choose((u32)k - 1);
		memcpy(p, in->data.data() + off, k);
		if (at < 0) o->off += (i64)k;
		ev("got", (i64)k);
		return (ssize_t)k;
	}
	case K_DIR: return E_(EISDIR);
	default: return E_(EBADF);
	}
}
static int do_fsync(int fd, const char *who)
{
	vis(who, fd);
	OFile *o = of(fd);
	if (!o) return E_(EBADF);
	if (o->kind == K_PIPER || o->kind == K_PIPEW || o->kind == K_INOT || o->kind == K_SOCK || o->kind == K_EVENT) return E_(EINVAL);
	if (o->kind == K_DEV) return E_(EINVAL);
	Inode *in = ino(o->ino);
	if (fault(F_FSYNC)) {
		int e = pick_err({EIO, ENOSPC, EDQUOT, EINTR, EINVAL, EROFS});
		if (e != EINTR && in->type == I_REG && in->dirty) { in->dirty = false; in->lost = true; }
		return E_(e);
	}
	if (in->type == I_REG) {
		if (!in->lost) { in->durable = in->data; in->dirty = false; }
		if (D.cfg.file_fsync_commits_meta) {
			// commits the running transaction if it concerns this file
			for (size_t i = D.journal.size(); i > 0; i--) {
				bool hit = false;
				for (auto &c : D.journal[i - 1].ch) if (std::get<2>(c) == o->ino) hit = true;
				if (hit) { if (i > D.forced) D.forced = i; break; }
			}
		}
	} else if (in->type == I_DIR) {
		for (size_t i = D.journal.size(); i > 0; i--) {
			bool hit = false;
			for (auto &c : D.journal[i - 1].ch) if (std::get<0>(c) == o->ino) hit = true;
			if (hit) { if (i > D.forced) D.forced = i; break; }
		}
	}
	ev("synced", o->ino);
	return 0;
}
static int do_rename(int d1, const char *a, int d2, const char *b)
{
	vis("rename");
	note("rename(\"%s\", \"%s\")", a, b);
	if (fault(F_RENAME)) return E_(pick_err({EIO, ENOSPC, EACCES, EXDEV, EBUSY, EPERM, EROFS, ENOMEM}));
	int b1, b2;
	if (!cwd_ino(d1, b1, a) || !cwd_ino(d2, b2, b)) return -1;
	int p1 = -1, p2 = -1;
	std::string n1, n2;
	int i1 = lookup(b1, a, false, &p1, &n1);
	if (i1 < 0) return E_(-i1);
	int i2 = lookup(b2, b, false, &p2, &n2);
	if (p1 < 0) return E_(EBUSY);
	if (i2 < 0 && (i2 != -ENOENT || p2 < 0)) return E_(-i2);
	if (i2 >= 0 && p2 < 0) return E_(EBUSY);
	if (i1 == i2) return 0;
	if (i2 >= 0) {
		if (ino(i2)->type == I_DIR && ino(i1)->type != I_DIR) return E_(EISDIR);
		if (ino(i1)->type == I_DIR && ino(i2)->type != I_DIR) return E_(ENOTDIR);
		if (ino(i2)->type == I_DIR && !ino(i2)->ents.empty()) return E_(ENOTEMPTY);
	}
	meta({{p1, n1, -1}, {p2, n2, i1}});
	ev("renamed", i1);
	return 0;
}
static int do_unlink(int dirfd, const char *a, bool dir)
{
	vis("unlink");
	note("unlink(\"%s\")", a);
	int b;
	if (!cwd_ino(dirfd, b, a)) return -1;
	int par = -1;
	std::string n;
	int i = lookup(b, a, false, &par, &n);
	if (i < 0) return E_(-i);
	if (fault(F_UNLINK)) return E_(pick_err({EIO, EACCES, EROFS, EBUSY, EPERM}));
	if (par < 0) return E_(EBUSY);
	if (dir) {
		if (ino(i)->type != I_DIR) return E_(ENOTDIR);
		if (!ino(i)->ents.empty()) return E_(ENOTEMPTY);
	} else if (ino(i)->type == I_DIR) return E_(EISDIR);
	meta({{par, n, -1}});
	ev("unlinked", i);
	return 0;
}
static void fill_stat(int i, struct stat *st)
{
	memset(st, 0, sizeof *st);
	Inode *in = ino(i);
	st->st_dev = 42;
	st->st_ino = (ino_t)(1000 + i);
	st->st_nlink = in->type == I_DIR ? 2 : 1;
	if (in->linked) {
		st->st_nlink = 0;
		for (auto &d : D.in) for (auto &e : d->ents) st->st_nlink += e.second == i;
	}
	st->st_mode = in->type == I_REG ? S_IFREG | 0644 : in->type == I_DIR ? S_IFDIR | 0755 : in->type == I_LNK ? S_IFLNK | 0777 : S_IFCHR | 0666;
	st->st_size = in->type == I_REG ? (in->size >= 0 ? in->size : (i64)in->data.size()) : in->type == I_LNK ? (i64)in->target.size() : in->type == I_DIR ? 4096 : 0;
	st->st_blksize = 4096;
	st->st_blocks = (in->type == I_REG || in->type == I_DIR) ? (st->st_size + 4095) / 4096 * 8 : 0;
	if (in->type == I_CHR) st->st_rdev = (dev_t)(0x100 + in->rdev);
}
static int do_stat(int dirfd, const char *path, struct stat *st, int flags)
{
	check_range(path, strlen(path) + 1, false, "stat");
	vis("stat", flags);
	note("stat(\"%s\")", path);
	check_range(st, sizeof *st, true, "stat");
	if (fault(F_STAT)) return E_(pick_err({EIO, ENOMEM, EACCES, EOVERFLOW, ELOOP}));
	if ((flags & AT_EMPTY_PATH) && !*path) {
		OFile *o = of(dirfd);
		if (!o || o->ino < 0) return E_(EBADF);
		fill_stat(o->ino, st);
		return 0;
	}
	int b;
	if (!cwd_ino(dirfd, b, path)) return -1;
	int i = lookup(b, path, !(flags & AT_SYMLINK_NOFOLLOW), nullptr, nullptr);
	if (i < 0) return E_(-i);
	fill_stat(i, st);
	ev("size", st->st_size);
	clobber();
	return 0;
}

// ------------------------------------------------------------------ stdio
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	SFile *s = (SFile *)c;
	if (s->dead || !G || !G->cur) return (ssize_t)n;
	size_t done = 0;
	while (done < n) { // like libc on a real file: until everything is written or an error
		ssize_t r = do_write(s->fd, b + done, n - done);
		if (r < 0) break;
		done += (size_t)r;
	}
	return (ssize_t)done;
}
static ssize_t ck_read(void *c, char *b, size_t n)
{
	SFile *s = (SFile *)c;
	if (s->dead || !G || !G->cur) return 0;
	return do_read(s->fd, b, n);
}
static int ck_seek(void *c, off64_t *o, int wh)
{
	SFile *s = (SFile *)c;
	if (s->dead || !G || !G->cur) return -1;
	OFile *f = of(s->fd);
	if (!f || f->kind != K_FILE) { errno = ESPIPE; return -1; }
	i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->off : (i64)ino(f->ino)->data.size();
	if (base + *o < 0) { errno = EINVAL; return -1; }
	f->off = base + *o;
	*o = f->off;
	return 0;
}
static int ck_close(void *c)
{
	SFile *s = (SFile *)c;
	if (s->dead || !G || !G->cur) return 0;
	return do_close(s->fd);
}
static FILE *mkfile(int fd, const char *mode)
{
	SFile *s = new SFile{nullptr, fd, cp(), false, nullptr, of(fd)};
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *f = fopencookie(s, mode, io);
	s->f = f;
	s->buf = (char *)malloc(D.cfg.stdio_buf + 8);
	setvbuf(f, s->buf, _IOFBF, D.cfg.stdio_buf);
	sfiles[f] = s;
	return f;
}
static SFile *sf(FILE *f) { auto it = sfiles.find(f); return it == sfiles.end() ? nullptr : it->second; }
static int mode_flags(const char *m)
{
	int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	for (const char *p = m + 1; *p && *p != ','; p++) {
		if (*p == '+') fl = (fl & ~O_ACCMODE) | O_RDWR;
		if (*p == 'e') fl |= O_CLOEXEC;
		if (*p == 'x') fl |= O_EXCL;
	}
	return fl;
}
static void use_file(FILE *f, const char *who)
{
	if (!f) fail("crash-invalid-memory", "%s of a null FILE", who);
	if (f == stdout || f == stderr || f == stdin) return;
	if (!sf(f)) fail("stdio-misuse", "%s of a FILE that was already closed", who);
}
} // namespace sim
using namespace sim;

extern "C" {
// ------------------------------------------------------------------ files
int sim_openat(int d, const char *p, int fl, ...) { return do_open(d, p, fl, "open"); }
int sim_open(const char *p, int fl, ...) { if (!p) return E_(EFAULT); return do_open(AT_FDCWD, p, fl, "open"); }
int sim_creat(const char *p, int) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, "open"); }
int sim_close(int fd) { return do_close(fd); }
ssize_t sim_read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t sim_recv(int fd, void *b, size_t n, int) { return do_read(fd, b, n); }
ssize_t sim_send(int fd, const void *b, size_t n, int) { return do_write(fd, b, n); }
int sim_vdprintf(int fd, const char *fmt, va_list ap)
{
	char *s = nullptr;
	int n = vasprintf(&s, fmt, ap);
	if (n < 0) return -1;
	ssize_t r = do_write(fd, s, (size_t)n);
	free(s);
	return r < 0 ? -1 : (int)r;
}
int sim_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}
static ssize_t vec(int fd, const struct iovec *v, int c, bool wr)
{
	std::string tmp;
	if (wr) {
		for (int i = 0; i < c; i++) { check_range(v[i].iov_base, v[i].iov_len, false, "writev"); tmp.append((char *)v[i].iov_base, v[i].iov_len); }
		return do_write(fd, tmp.data(), tmp.size());
	}
	size_t n = 0;
	for (int i = 0; i < c; i++) { check_range(v[i].iov_base, v[i].iov_len, true, "readv"); n += v[i].iov_len; }
	tmp.resize(n + 1);
	ssize_t r = do_read(fd, &tmp[0], n);
	size_t o = 0;
	for (int i = 0; i < c && r > (ssize_t)o; i++) {
		size_t k = v[i].iov_len < (size_t)r - o ? v[i].iov_len : (size_t)r - o;
		memcpy(v[i].iov_base, &tmp[o], k);
		o += k;
	}
	return r;
}
ssize_t sim_readv(int fd, const struct iovec *v, int c) { return vec(fd, v, c, false); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { return vec(fd, v, c, true); }
off_t sim_lseek(int fd, off_t o, int wh)
{
	OFile *f = of(fd);
	if (!f) return E_(EBADF);
	if (f->kind != K_FILE) return E_(ESPIPE);
	i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->off : (i64)ino(f->ino)->data.size();
	if (base + o < 0) return E_(EINVAL);
	return f->off = base + o;
}
static int do_trunc(int i, off_t n)
{
	if (n < 0) return E_(EINVAL);
	if (fault(F_EIO_WRITE)) return E_(EIO);
	ino(i)->data.resize((size_t)n, '\0');
	ino(i)->dirty = true;
	ino(i)->lost = false;
	return 0;
}
int sim_ftruncate(int fd, off_t n)
{
	vis("ftruncate", fd, n);
	OFile *f = of(fd);
	if (!f || f->kind != K_FILE) return E_(EBADF);
	return do_trunc(f->ino, n);
}
int sim_truncate(const char *p, off_t n)
{
	vis("truncate", n);
	int i = lookup(0, p, true, nullptr, nullptr);
	if (i < 0) return E_(-i);
	return do_trunc(i, n);
}
int sim_fsync(int fd) { return do_fsync(fd, "fsync"); }
int sim_fdatasync(int fd) { return do_fsync(fd, "fdatasync"); }
int sim_syncfs(int fd) { vis("syncfs", fd); if (!of(fd)) return E_(EBADF); if (fault(F_FSYNC)) return E_(EIO); fs_writeback(); return 0; }
void sim_sync(void) { vis("sync"); fs_writeback(); }
int sim_rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int sim_renameat(int d, const char *a, int e, const char *b) { return do_rename(d, a, e, b); }
int sim_renameat2(int d, const char *a, int e, const char *b, unsigned f) { if (f) return E_(EINVAL); return do_rename(d, a, e, b); }
int sim_unlink(const char *p) { return do_unlink(AT_FDCWD, p, false); }
int sim_unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f & AT_REMOVEDIR); }
int sim_rmdir(const char *p) { return do_unlink(AT_FDCWD, p, true); }
int sim_remove(const char *p)
{
	int i = lookup(0, p, false, nullptr, nullptr);
	return do_unlink(AT_FDCWD, p, i >= 0 && ino(i)->type == I_DIR);
}
int sim_link(const char *a, const char *b)
{
	vis("link");
	int i = lookup(0, a, false, nullptr, nullptr), p = -1;
	std::string n;
	if (i < 0) return E_(-i);
	int j = lookup(0, b, false, &p, &n);
	if (j >= 0) return E_(EEXIST);
	if (p < 0) return E_(ENOENT);
	ino(i)->linked = true;
	meta({{p, n, i}});
	return 0;
}
int sim_symlink(const char *a, const char *b)
{
	vis("symlink");
	int p = -1;
	std::string n;
	if (lookup(0, b, false, &p, &n) >= 0) return E_(EEXIST);
	if (p < 0) return E_(ENOENT);
	int i = new_inode(I_LNK);
	ino(i)->target = a;
	meta({{p, n, i}});
	return 0;
}
int sim_mkostemps(char *t, int suf, int fl)
{
	size_t n = t ? strlen(t) : 0;
	if (suf < 0 || n < (size_t)suf + 6 || memcmp(t + n - suf - 6, "XXXXXX", 6)) return E_(EINVAL);
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	for (int k = 0; k < 100; k++) {
		u64 v = D.tmpn++ * 2654435761u + 12345;
		for (int q = 0; q < 6; q++) { t[n - suf - 6 + q] = al[v % 62]; v /= 62; }
		int fd = do_open(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL | fl, "mkstemp");
		if (fd >= 0 || errno != EEXIST) return fd;
	}
	return E_(EEXIST);
}
int sim_mkostemp(char *t, int fl) { return sim_mkostemps(t, 0, fl); }
int sim_mkstemps(char *t, int s) { return sim_mkostemps(t, s, 0); }
int sim_mkstemp(char *t) { return sim_mkostemps(t, 0, 0); }
int sim_posix_fadvise(int fd, off_t, off_t, int) { vis("posix_fadvise", fd); return of(fd) ? 0 : EBADF; }
int sim_sync_file_range(int fd, off_t, off_t, unsigned) { vis("sync_file_range", fd); if (!of(fd)) return E_(EBADF); if (fault(F_FSYNC)) return E_(EIO); return 0; } // nothing becomes durable
int sim_flock(int fd, int) { vis("flock", fd); return of(fd) ? 0 : E_(EBADF); }
int sim_lockf(int fd, int, off_t) { vis("lockf", fd); return of(fd) ? 0 : E_(EBADF); }
int sim_posix_fallocate(int fd, off_t o, off_t n)
{
	vis("posix_fallocate", fd, n);
	OFile *f = of(fd);
	if (!f || f->kind != K_FILE) return EBADF;
	if (o < 0 || n <= 0) return EINVAL;
	if (fault(F_ENOSPC)) return ENOSPC;
	if ((size_t)(o + n) > ino(f->ino)->data.size()) { int r = do_trunc(f->ino, o + n); if (r) return errno; }
	return 0;
}
int sim_fallocate(int fd, int mode, off_t o, off_t n)
{
	if (mode) return E_(EOPNOTSUPP);
	int r = sim_posix_fallocate(fd, o, n);
	return r ? E_(r) : 0;
}
int sim_mkdir(const char *a, mode_t)
{
	vis("mkdir");
	int p = -1;
	std::string n;
	int j = lookup(0, a, false, &p, &n);
	if (j >= 0) return E_(EEXIST);
	if (p < 0) return E_(ENOENT);
	meta({{p, n, new_inode(I_DIR)}});
	return 0;
}
int sim_stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int sim_lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int sim_fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
int sim_fstat(int fd, struct stat *s)
{
	vis("fstat", fd);
	OFile *o = of(fd);
	if (!o) return E_(EBADF);
	if (fault(F_STAT)) return E_(EIO);
	check_range(s, sizeof *s, true, "fstat");
	if (o->ino >= 0) fill_stat(o->ino, s);
	else { memset(s, 0, sizeof *s); s->st_mode = S_IFIFO | 0600; }
	return 0;
}
int sim_access(const char *p, int)
{
	vis("access");
	if (fault(F_STAT)) return E_(pick_err({EIO, ENOMEM, EACCES, EOVERFLOW, ELOOP}));
	int i = lookup(0, p, true, nullptr, nullptr);
	return i < 0 ? E_(-i) : 0;
}
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_chmod(const char *, mode_t) { return 0; }
int sim_fchmod(int, mode_t) { return 0; }
mode_t sim_umask(mode_t) { return 022; }
ssize_t sim_readlink(const char *p, char *b, size_t n)
{
	vis("readlink");
	int i = lookup(0, p, false, nullptr, nullptr);
	if (i < 0) return E_(-i);
	if (ino(i)->type != I_LNK) return E_(EINVAL);
	if (n > ino(i)->target.size()) n = ino(i)->target.size();
	check_range(b, n, true, "readlink");
	memcpy(b, ino(i)->target.data(), n);
	return (ssize_t)n;
}
static int dodup(int fd, int minfd, bool ce)
{
	vis("dup", fd);
	OFile *o = of(fd);
	if (!o) return E_(EBADF);
	if (fault(F_EMFILE)) return E_(EMFILE);
	return install(o, ce, minfd);
}
int sim_dup(int fd) { return dodup(fd, 0, false); }
int sim_dup3(int a, int b, int fl)
{
	vis("dup3", a, b);
	OFile *o = of(a);
	if (!o || b < 0) return E_(EBADF);
	if (a == b) return b;
	Proc *p = cp();
	if ((size_t)b >= p->fds.size()) p->fds.resize(b + 1);
	if (p->fds[b].f) drop(p->fds[b].f);
	o->refs++;
	p->fds[b].f = o;
	p->fds[b].cloexec = fl & O_CLOEXEC;
	p->fds[b].lib = G->cur->in_lib;
	return b;
}
int sim_dup2(int a, int b) { return sim_dup3(a, b, 0); }
int sim_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (cmd == F_DUPFD) return dodup(fd, (int)arg, false);
	if (cmd == F_DUPFD_CLOEXEC) return dodup(fd, (int)arg, true);
	vis("fcntl", fd, cmd);
	FdEnt *e = fent(fd);
	if (!e) return E_(EBADF);
	if (fault(F_FCNTL)) return E_(pick_err({EINVAL, EPERM, EIO}));
	switch (cmd) {
	case F_GETFD: return (e->cloexec ? FD_CLOEXEC : 0) | e->fdfl;
	case F_SETFD: e->cloexec = (arg & FD_CLOEXEC) != 0; e->fdfl = (int)arg & 2; ev("setfd", arg); return 0;
	case F_GETFL: return e->f->flags;
	case F_SETFL: {
		int m = O_APPEND | O_ASYNC | O_DIRECT | O_NOATIME | O_NONBLOCK;
		e->f->flags = (e->f->flags & ~m) | ((int)arg & m);
		ev("setfl", e->f->flags);
		return 0;
	}
	case F_GETPIPE_SZ: if (e->f->pipe) return (int)e->f->pipe->cap; return E_(EBADF);
	case F_SETPIPE_SZ: {
		if (!e->f->pipe) return E_(EBADF);
		size_t want = arg < 4096 ? 4096 : (size_t)arg;
		if (want > 1048576 || want < e->f->pipe->q.size() || choose(4) == 3) return E_(EPERM);
		e->f->pipe->cap = (want + 4095) / 4096 * 4096;
		return (int)e->f->pipe->cap;
	}
	default: return E_(EINVAL);
	}
}
int sim_ioctl(int fd, unsigned long rq, ...)
{
	va_list ap;
	va_start(ap, rq);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	vis("ioctl", fd, (i64)rq);
	FdEnt *e = fent(fd);
	if (!e) return E_(EBADF);
	if (fault(F_IOCTL)) return E_(pick_err({EINVAL, ENOTTY, EIO}));
	OFile *o = e->f;
	switch (rq) {
	case FIONREAD: {
		i64 n = 0;
		if (o->kind == K_PIPER || o->kind == K_SOCK) n = (i64)o->pipe->q.size();
		else if (o->kind == K_INOT) for (auto &s : o->inot->q) n += (i64)s.size();
		else if (o->kind == K_FILE) n = (i64)ino(o->ino)->data.size() - o->off;
		check_range(arg, sizeof(int), true, "ioctl");
		*(int *)arg = (int)n;
		ev("fionread", n);
		return 0;
	}
	case FIONBIO: if (*(int *)arg) o->flags |= O_NONBLOCK; else o->flags &= ~O_NONBLOCK; return 0;
	case FIOCLEX: e->cloexec = true; return 0;
	case FIONCLEX: e->cloexec = false; return 0;
	default: return E_(ENOTTY);
	}
}
int sim_pipe2(int p[2], int fl)
{
	vis("pipe", fl);
	check_range(p, 2 * sizeof(int), true, "pipe");
	if (fault(F_PIPE)) return E_(pick_err({EMFILE, ENFILE}));
	auto b = std::make_shared<PipeB>();
	b->cap = pcaps.empty() ? 65536 : pcaps[choose((u32)pcaps.size())];
	b->rd = b->wr = 1;
	OFile *r = new_of(K_PIPER, O_RDONLY | (fl & O_NONBLOCK)), *w = new_of(K_PIPEW, O_WRONLY | (fl & O_NONBLOCK));
	r->pipe = w->pipe = b;
	p[0] = install(r, fl & O_CLOEXEC);
	p[1] = install(w, fl & O_CLOEXEC);
	ev("pipe_fds", p[0], p[1], (i64)b->cap);
	return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int sim_socketpair(int, int type, int, int p[2])
{
	vis("socketpair");
	if (fault(F_PIPE)) return E_(EMFILE);
	auto a = std::make_shared<PipeB>(), b = std::make_shared<PipeB>();
	a->cap = b->cap = 65536;
	a->rd = a->wr = b->rd = b->wr = 1;
	int fl = type & SOCK_NONBLOCK ? O_NONBLOCK : 0;
	OFile *x = new_of(K_SOCK, O_RDWR | fl), *y = new_of(K_SOCK, O_RDWR | fl);
	x->pipe = a; x->pipe2 = b;
	y->pipe = b; y->pipe2 = a;
	p[0] = install(x, type & SOCK_CLOEXEC);
	p[1] = install(y, type & SOCK_CLOEXEC);
	return 0;
}
int sim_eventfd(unsigned v, int fl)
{
	vis("eventfd");
	if (fault(F_PIPE)) return E_(EMFILE);
	OFile *o = new_of(K_EVENT, O_RDWR | (fl & O_NONBLOCK));
	o->counter = v;
	return install(o, fl & O_CLOEXEC);
}
static int do_poll(struct pollfd *f, nfds_t n, i64 ns)
{
	vis("poll", (i64)n, ns < 0 ? -1 : ns / 1000000);
	check_range(f, n * sizeof *f, true, "poll");
	auto scan = [f, n]() {
		int c = 0;
		for (nfds_t i = 0; i < n; i++) {
			f[i].revents = 0;
			if (f[i].fd < 0) continue;
			OFile *o = of(f[i].fd);
			if (!o) { f[i].revents = POLLNVAL; c++; continue; }
			if ((f[i].events & POLLIN) && of_readable(o) && !(o->kind == K_PIPER && o->pipe->q.empty())) f[i].revents |= POLLIN;
			if ((f[i].events & POLLOUT) && of_writable(o)) f[i].revents |= POLLOUT;
			if (o->kind == K_PIPER && o->pipe->wr == 0) f[i].revents |= POLLHUP;
			if (o->kind == K_PIPEW && o->pipe->rd == 0) f[i].revents |= POLLERR;
			if (f[i].revents) c++;
		}
		return c;
	};
	int c = scan();
	if (!c && ns == 0 && fault(F_EINTR)) return E_(EINTR); // a signal was pending
	if (c || ns == 0) { ev("polled", c); return c; }
	// predicate evaluated in scheduler context: use the waiting thread's process
	Proc *p = cp();
	std::vector<std::pair<OFile *, short>> w;
	for (nfds_t i = 0; i < n; i++) if (f[i].fd >= 0 && (size_t)f[i].fd < p->fds.size() && p->fds[f[i].fd].f) w.push_back({p->fds[f[i].fd].f, f[i].events});
	auto pred = [w] {
		for (auto &x : w) {
			OFile *o = x.first;
			if (o->refs <= 0) continue;
			if ((x.second & POLLIN) && of_readable(o)) return true;
			if ((x.second & POLLOUT) && of_writable(o)) return true;
			if (o->kind == K_PIPEW && o->pipe->rd == 0) return true;
		}
		return false;
	};
	Wake wk = block(pred, ns < 0 ? CK_NONE : CK_MONO, ns < 0 ? 0 : W->mono + ns, true);
	if (wk == W_INTR) return E_(EINTR);
	c = scan();
	ev("polled", c, wk);
	if (c == 0 && wk == W_READY) return do_poll(f, n, ns < 0 ? -1 : 0);
	return c;
}
int sim_poll(struct pollfd *f, nfds_t n, int ms) { return do_poll(f, n, ms < 0 ? -1 : (i64)ms * 1000000); }
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const void *)
{
	return do_poll(f, n, ts ? ts->tv_sec > 9000000000ll ? -1 : (i64)ts->tv_sec * 1000000000 + ts->tv_nsec : -1);
}
long verif_fdelt(long d)
{
	if (d < 0 || d >= FD_SETSIZE) fail("fd-set-overflow", "descriptor %ld was put into an fd_set, which holds %d", d, FD_SETSIZE);
	return d / __NFDBITS;
}
int sim_select(int nf, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	std::vector<struct pollfd> v;
	for (int i = 0; i < nf; i++) {
		short m = 0;
		if (r && FD_ISSET(i, r)) m |= POLLIN;
		if (w && FD_ISSET(i, w)) m |= POLLOUT;
		if (m) v.push_back({i, m, 0});
	}
	if (e) FD_ZERO(e);
	int c = do_poll(v.data(), v.size(), tv ? (i64)tv->tv_sec * 1000000000 + tv->tv_usec * 1000 : -1);
	if (c < 0) return c;
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	int n = 0;
	for (auto &p : v) {
		if ((p.revents & (POLLIN | POLLHUP)) && (p.events & POLLIN)) { FD_SET(p.fd, r); n++; }
		if ((p.revents & (POLLOUT | POLLERR)) && (p.events & POLLOUT)) { FD_SET(p.fd, w); n++; }
	}
	return n;
}

// the descriptors of an epoll instance; level triggered
int sim_epoll_create1(int fl)
{
	vis("epoll_create");
	if (fault(F_PIPE)) return E_(EMFILE);
	OFile *o = new_of(K_EPOLL, O_RDWR);
	return install(o, fl & EPOLL_CLOEXEC);
}
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
	vis("epoll_ctl", fd, op);
	OFile *o = of(ep);
	if (!o || !of(fd)) return E_(EBADF);
	if (o->kind != K_EPOLL) return E_(EINVAL);
	bool has = o->ep.count(fd) > 0;
	if (op == EPOLL_CTL_ADD ? has : !has) return E_(has ? EEXIST : ENOENT);
	if (op == EPOLL_CTL_DEL) o->ep.erase(fd);
	else o->ep[fd] = std::make_pair((u32)e->events, (u64)e->data.u64);
	return 0;
}
int sim_epoll_wait(int ep, struct epoll_event *ev, int max, int ms)
{
	OFile *o = of(ep);
	if (!o) return E_(EBADF);
	if (o->kind != K_EPOLL || max <= 0) return E_(EINVAL);
	std::vector<struct pollfd> v;
	for (auto &x : o->ep) v.push_back({x.first, (short)(x.second.first & (POLLIN | POLLOUT)), 0});
	int r = do_poll(v.data(), v.size(), ms < 0 ? -1 : (i64)ms * 1000000);
	if (r <= 0) return r;
	check_range(ev, (size_t)max * sizeof *ev, true, "epoll_wait");
	int n = 0;
	for (auto &x : v) if (x.revents && n < max) { ev[n].events = (u32)x.revents; ev[n].data.u64 = o->ep[x.fd].second; n++; }
	return n;
}
int sim_epoll_pwait(int ep, struct epoll_event *ev, int max, int ms, const void *) { return sim_epoll_wait(ep, ev, max, ms); }

void *sim_calloc(size_t, size_t);
void sim_free(void *);
// private mappings: a copy of the file at the time of the call
void *sim_mmap(void *, size_t n, int prot, int fl, int fd, off_t at)
{
	vis("mmap", fd, (i64)n);
	if (!n || at < 0 || at % 4096) { E_(EINVAL); return MAP_FAILED; }
	bool anon = fl & MAP_ANONYMOUS;
	OFile *o = anon ? nullptr : of(fd);
	if (!anon && !o) { E_(EBADF); return MAP_FAILED; }
	if (!anon && (o->flags & O_ACCMODE) == O_WRONLY) { E_(EACCES); return MAP_FAILED; }
	if (!anon && (o->kind != K_FILE || ((fl & MAP_SHARED) && (prot & PROT_WRITE)))) { E_(ENODEV); return MAP_FAILED; }
	size_t len = (n + 4095) / 4096 * 4096;
	u8 *p = (u8 *)sim_calloc(1, len);
	if (!p) { E_(ENOMEM); return MAP_FAILED; }
	if (!anon) {
		auto &d = ino(o->ino)->data;
		if ((size_t)at < d.size()) memcpy(p, d.data() + at, std::min(n, d.size() - (size_t)at));
	}
	return p;
}
int sim_munmap(void *p, size_t) { vis("munmap"); sim_free(p); return 0; }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_msync(void *, size_t, int) { return 0; }

// ------------------------------------------------------------------ inotify
int sim_inotify_init1(int fl)
{
	vis("inotify_init", fl);
	if (fault(F_INOTIFY)) return E_(pick_err({EMFILE, ENFILE, ENOMEM}));
	OFile *o = new_of(K_INOT, O_RDONLY | (fl & IN_NONBLOCK ? O_NONBLOCK : 0));
	o->inot = std::make_shared<InotB>();
	return install(o, fl & IN_CLOEXEC);
}
int sim_inotify_init(void) { return sim_inotify_init1(0); }
int sim_inotify_add_watch(int fd, const char *p, u32 mask)
{
	vis("inotify_add_watch", fd, mask);
	OFile *o = of(fd);
	if (!o) return E_(EBADF);
	if (o->kind != K_INOT) return E_(EINVAL);
	if (!p) return E_(EFAULT);
	if (fault(F_INOTIFY)) return E_(pick_err({ENOSPC, ENOMEM, EACCES}));
	if (!(mask & IN_ALL_EVENTS)) return E_(EINVAL);
	int i = lookup(0, p, !(mask & IN_DONT_FOLLOW), nullptr, nullptr);
	if (i < 0) return E_(-i);
	for (auto &w : o->inot->w) if (w.second.first == i) { w.second.second = mask; return w.first; }
	int wd = o->inot->next++;
	o->inot->w[wd] = {i, mask};
	return wd;
}
int sim_inotify_rm_watch(int fd, int wd)
{
	vis("inotify_rm_watch", fd, wd);
	OFile *o = of(fd);
	if (!o || o->kind != K_INOT || !o->inot->w.erase(wd)) return E_(EINVAL);
	return 0;
}

// ------------------------------------------------------------------ entropy
ssize_t sim_getrandom(void *buf, size_t n, unsigned fl)
{
	vis("getrandom", (i64)n, fl);
	check_range(buf, n, true, "getrandom");
	if (E.nosys) return E_(ENOSYS);
	if (E.dead) { count_fault(F_ENTROPY); return E_(pick_err({EIO, EPERM})); }
	if (n > 33554431) n = 33554431;
	if (W->mono < E.ready_at && !(fl & 4)) { // GRND_INSECURE does not wait
		if (fl & 1) return E_(EAGAIN);
		if (block([] { return W->mono >= E.ready_at; }, CK_MONO, E.ready_at, true) == W_INTR) return E_(EINTR);
	}
	if (storm(F_ENTROPY)) return E_(EINTR);
	if (fault(F_ENTROPY)) {
		switch (choose(7)) {
		case 0: if (n > 1) return entropy_read((u8 *)buf, 1 + choose((u32)n - 1)); break; // short
		case 1: G->cur->storm = log_uniform(W->cfg.storm); return E_(EINTR);
		case 2: return E_(EAGAIN);
		case 3: return E_(ENOSYS);
		case 4: return E_(EPERM);
		case 5: return E_(EIO);
		case 6: return E_(EINVAL);
		}
	}
	if (E.chunk && n > E.chunk) n = E.chunk;
	return entropy_read((u8 *)buf, n);
}
int sim_getentropy(void *buf, size_t n)
{
	vis("getentropy", (i64)n);
	check_range(buf, n, true, "getentropy");
	if (n > 256) return E_(EIO);
	if (E.nosys) return E_(ENOSYS);
	if (E.dead || fault(F_ENTROPY)) return E_(pick_err({EIO, ENOSYS}));
	entropy_read((u8 *)buf, n);
	return 0;
}
void sim_arc4random_buf(void *buf, size_t n) { check_range(buf, n, true, "arc4random_buf"); entropy_read((u8 *)buf, n); }
u32 sim_arc4random(void) { u32 v; entropy_read((u8 *)&v, 4); return v; }
long sim_syscall(long nr, ...)
{
	va_list ap;
	va_start(ap, nr);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
	va_end(ap);
	switch (nr) {
	case SYS_getrandom: return sim_getrandom((void *)a, (size_t)b, (unsigned)c);
	case SYS_gettid: return G->cur->proc->pid + G->cur->id;
	case SYS_getpid: return G->cur->proc->pid;
	default: return E_(ENOSYS);
	}
}

// ------------------------------------------------------------------ directories
static DIR *mkdir_stream(int fd)
{
	SDir *d = new SDir;
	memset((void *)&d->de, 0, sizeof d->de);
	d->magic = 0xD1D1;
	d->fd = fd;
	d->proc = cp();
	d->pos = 0;
	d->closed = false;
	d->tail = false;
	d->ino = of(fd)->ino;
	alldirs.push_back(d);
	sdirs.insert(d);
	auto &e = ino(d->ino)->ents;
	d->names.push_back({".", d->ino});
	d->names.push_back({"..", 0});
	for (auto &x : e) d->names.push_back({x.first, x.second});
	if (d->names.size() > 3) { // file systems list in any order
		u32 r = choose((u32)d->names.size());
		std::rotate(d->names.begin(), d->names.begin() + r, d->names.end());
	}
	return (DIR *)d;
}
static SDir *sd(DIR *p, const char *who)
{
	if (!p) fail("crash-invalid-memory", "%s of a null directory stream", who);
	if (!sdirs.count((SDir *)p)) fail("stdio-misuse", "%s of a directory stream that was already closed", who);
	return (SDir *)p;
}
DIR *sim_opendir(const char *p)
{
	if (fault(F_NOMEM)) { errno = ENOMEM; return nullptr; }
	int fd = do_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, "opendir");
	if (fd < 0) return nullptr;
	return mkdir_stream(fd);
}
DIR *sim_fdopendir(int fd)
{
	OFile *o = of(fd);
	if (!o) { errno = EBADF; return nullptr; }
	if (o->kind != K_DIR) { errno = ENOTDIR; return nullptr; }
	if (fault(F_NOMEM)) { errno = ENOMEM; return nullptr; }
	return mkdir_stream(fd);
}
struct dirent *sim_readdir(DIR *p)
{
	SDir *d = sd(p, "readdir");
	vis("readdir", d->fd);
	if (fault(F_READDIR)) { E_(pick_err({EIO, ENOMEM, ENOENT, EOVERFLOW})); return nullptr; }
	for (;;) {
		if (d->pos >= d->names.size()) {
			if (!d->tail) {
				// entries created during the walk may or may not be listed
				d->tail = true;
				for (auto &x : ino(d->ino)->ents) {
					bool have = false;
					for (auto &y : d->names) if (y.first == x.first) have = true;
					if (!have && choose(2)) d->names.push_back({x.first, x.second});
				}
				if (d->pos < d->names.size()) continue;
			}
			ev("readdir_end");
			return nullptr;
		}
		auto &e = d->names[d->pos++];
		bool special = e.first == "." || e.first == "..";
		if (!special && !ino(d->ino)->ents.count(e.first) && !D.cfg.readdir_keeps_removed) continue;
		d->de.d_ino = (ino_t)(1000 + e.second);
		d->de.d_off = (off_t)d->pos;
		d->de.d_reclen = sizeof d->de;
		IType t = ino(e.second)->type;
		d->de.d_type = D.cfg.dtype_unknown ? DT_UNKNOWN : t == I_REG ? DT_REG : t == I_DIR ? DT_DIR : t == I_LNK ? DT_LNK : DT_CHR;
		memset(d->de.d_name, 0, sizeof d->de.d_name);
		strncpy(d->de.d_name, e.first.c_str(), sizeof d->de.d_name - 1);
		note("readdir -> %s", d->de.d_name);
		ev("entry", e.second);
		return &d->de;
	}
}
int sim_readdir_r(DIR *p, struct dirent *e, struct dirent **r)
{
	int old = errno;
	errno = 0;
	struct dirent *x = sim_readdir(p);
	int er = errno;
	errno = old;
	if (!x) { *r = nullptr; return er; }
	memcpy(e, x, sizeof *x);
	*r = e;
	return 0;
}
int sim_closedir(DIR *p)
{
	SDir *d = sd(p, "closedir");
	sdirs.erase(d);
	return do_close(d->fd);
}
int sim_dirfd(DIR *p) { return sd(p, "dirfd")->fd; }
void sim_rewinddir(DIR *p)
{
	SDir *d = sd(p, "rewinddir");
	d->pos = 0;
	d->tail = false;
	d->names.clear();
	d->names.push_back({".", d->ino});
	d->names.push_back({"..", 0});
	for (auto &x : ino(d->ino)->ents) d->names.push_back({x.first, x.second});
}

// ------------------------------------------------------------------ stdio
FILE *sim_fopen(const char *p, const char *m)
{
	if (fault(F_NOMEM)) { errno = ENOMEM; return nullptr; }
	int fd = do_open(AT_FDCWD, p, mode_flags(m), "open");
	if (fd < 0) return nullptr;
	return mkfile(fd, m);
}
FILE *sim_fdopen(int fd, const char *m)
{
	if (!of(fd)) { errno = EBADF; return nullptr; }
	if (fault(F_NOMEM)) { errno = ENOMEM; return nullptr; }
	return mkfile(fd, m);
}
int sim_fclose(FILE *f)
{
	use_file(f, "fclose");
	SFile *s = sf(f);
	if (!s) return 0;
	auto it = sfiles.find(f);
	int r = fclose(f); // flushes and closes through the cookie (may not return if killed)
	int e = errno;
	sfiles.erase(it);
	free(s->buf);
	delete s;
	errno = e;
	return r;
}
int sim_fflush(FILE *f)
{
	if (!f) {
		int r = 0;
		Proc *p = cp();
		std::vector<FILE *> l;
		for (auto &x : sfiles) if (x.second->proc == p && !x.second->dead) l.push_back(x.first);
		for (FILE *x : l) if (fflush(x)) r = EOF;
		return r;
	}
	use_file(f, "fflush");
	return fflush(f);
}
int sim_fileno(FILE *f)
{
	use_file(f, "fileno");
	SFile *s = sf(f);
	if (!s) return fileno(f);
	return s->fd;
}
size_t sim_fread(void *b, size_t s, size_t n, FILE *f)
{
	use_file(f, "fread");
	check_range(b, s * n, true, "fread");
	return fread(b, s, n, f);
}
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f)
{
	use_file(f, "fwrite");
	check_range(b, s * n, false, "fwrite");
	return fwrite(b, s, n, f);
}
int sim_getc(FILE *f) { use_file(f, "getc"); return getc(f); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { use_file(f, "fprintf"); return vfprintf(f, fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
int sim_ferror(FILE *f) { use_file(f, "ferror"); return ferror(f); }
int sim_feof(FILE *f) { use_file(f, "feof"); return feof(f); }
int sim_fputs(const char *s, FILE *f) { use_file(f, "fputs"); check_range(s, strlen(s), false, "fputs"); return fputs(s, f); }
int sim_fputc(int c, FILE *f) { use_file(f, "fputc"); return fputc(c, f); }
char *sim_fgets(char *b, int n, FILE *f) { use_file(f, "fgets"); check_range(b, (size_t)n, true, "fgets"); return fgets(b, n, f); }
int sim_fseeko(FILE *f, off_t o, int w) { use_file(f, "fseek"); return fseeko(f, o, w); }
off_t sim_ftello(FILE *f) { use_file(f, "ftell"); return ftello(f); }
void sim_rewind(FILE *f) { use_file(f, "rewind"); rewind(f); }
void sim_clearerr(FILE *f) { use_file(f, "clearerr"); clearerr(f); }
void sim_setbuf(FILE *f, char *b) { use_file(f, "setbuf"); setbuf(f, b); }
int sim_ungetc(int c, FILE *f) { use_file(f, "ungetc"); return ungetc(c, f); }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { use_file(f, "setvbuf"); return setvbuf(f, b, m, n); }

void *sim_malloc(size_t);
void *sim_realloc(void *, size_t);
void sim_free(void *);
ssize_t sim_getdelim(char **l, size_t *n, int delim, FILE *f)
{
	use_file(f, "getdelim");
	size_t k = 0;
	int c;
	while ((c = getc(f)) != EOF) {
		if (!*l || k + 2 > *n) {
			size_t m = k + 2 < 120 ? 120 : 2 * k + 2;
			char *p = (char *)sim_realloc(*l, m);
			if (!p) return -1;
			*l = p;
			*n = m;
		}
		(*l)[k++] = (char)c;
		if (c == delim) break;
	}
	if (k == 0 || ferror(f)) return -1;
	(*l)[k] = 0;
	return (ssize_t)k;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
int sim_scandir(const char *dir, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
	DIR *d = sim_opendir(dir);
	if (!d) return -1;
	struct dirent **v = nullptr;
	int n = 0;
	int e = 0;
	for (;;) {
		errno = 0;
		struct dirent *x = sim_readdir(d);
		if (!x) { e = errno; break; }
		if (sel && !sel(x)) continue;
		struct dirent **nv = (struct dirent **)sim_realloc(v, sizeof(*v) * (size_t)(n + 1));
		if (!nv) { e = ENOMEM; break; }
		v = nv;
		if (!(v[n] = (struct dirent *)sim_malloc(sizeof **v))) { e = ENOMEM; break; }
		memcpy(v[n++], x, sizeof **v);
	}
	sim_closedir(d);
	if (e) {
		while (n > 0) sim_free(v[--n]);
		sim_free(v);
		errno = e;
		return -1;
	}
	if (cmp && n) qsort(v, (size_t)n, sizeof *v, (int (*)(const void *, const void *))cmp);
	if (!v) v = (struct dirent **)sim_malloc(sizeof *v);
	*out = v;
	return n;
}

// ------------------------------------------------------------------ iconv
iconv_t sim_iconv_open(const char *to, const char *from)
{
	vis("iconv_open");
	if (fault(F_ICONV)) { errno = pick_err({EMFILE, ENFILE, ENOMEM, EINVAL}); return (iconv_t)-1; }
	iconv_t c = iconv_open(to, from);
	if (c != (iconv_t)-1) iconvs.insert((void *)c);
	return c;
}
size_t sim_iconv(iconv_t c, char **ib, size_t *il, char **ob, size_t *ol)
{
	if (!iconvs.count((void *)c)) fail("iconv-misuse", "iconv on a handle that is not open");
	if (ib && *ib && il) check_range(*ib, *il, false, "iconv");
	if (ob && *ob && ol) check_range(*ob, *ol, true, "iconv");
	if (ib && fault(F_ICONV)) { errno = pick_err({EILSEQ, EBADF}); return (size_t)-1; }
	return iconv(c, ib, il, ob, ol);
}
int sim_iconv_close(iconv_t c)
{
	if (!iconvs.erase((void *)c)) fail("iconv-misuse", "iconv_close on a handle that is not open");
	vis("iconv_close");
	int r = iconv_close(c);
	if (fault(F_ICONV)) { errno = EBADF; return -1; }
	return r;
}
// the library must not start programs or reach the network
int sim_system(const char *) { return -1; }
int sim_kill(int, int) { return -1; }
} // extern C
