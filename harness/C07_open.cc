// MODS: src/bees.cc lib/fs.cc
// JOB: file op=0
// JOB: nested op=1
// THOROUGH: three op=0 paths=3
// THOROUGH: nested2 op=1 paths=2
// REACH: found wrongino wrongroot wrongdev nocow nopath noroot tmpfile rootmissing oldkernel second failed nested badroot
// BOUND: inode number of any value, in the top-level subvolume, a subvolume, one nested in it, the root tree or one that does not exist; up to 2 (3) paths per inode; every way for each open, path lookup and attribute query to fail and for each opened file to be the wrong one (inode, subvolume, device, attribute); kernels with and without openat2; the same file opened twice
// ASSUME: the descriptor-to-identity queries (fstat, INO_LOOKUP, FS_IOC_GETFLAGS) report the truth
#include "fake_tree.h"
#include "bees.h"
#include "crucible/openat2.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <linux/fs.h>
using namespace crucible;
static const int ROOT = 5;
struct F { bool open, dir, nocow, goodino, goodroot, gooddev, flagsfail; };
static F fd_[24];
static int g_next = 10, g_opens, g_op, g_maxpaths;
static int g_old;   // openat2 does not exist
static uint64_t g_ino, g_want;
static bool g_pathfail, g_rootfail;
static int g_npaths;
static int g_firstopen = -1;     // the first descriptor opened for the file's paths
static int g_tried;
static bool g_dirs;
// what the file system looks like: 5 (top) > 257 "sub" in 5's top directory > 258 "in" in directory 300 of 257, at path "d/e"
static int dirOf(int fd) { return fd == ROOT ? 5 : fd >= 10 && fd < g_next && fd_[fd].dir ? (int)(long)fd_[fd].dir : 0; }
static uint64_t fdroot[24];
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int fd) { if (fd >= 10 && fd < 24) { sym_assert(fd_[fd].open, "a descriptor is closed twice"); fd_[fd].open = false; } return 0; }
static int do_open(int parent, const char *path, uint64_t flags, uint64_t resolve, bool two) {
	sym_assert(parent == ROOT || (parent >= 10 && parent < g_next && fd_[parent].open && fd_[parent].dir), "a path is opened below something that is not an open directory");
	sym_assert(flags & O_NOFOLLOW, "a symbolic link may be followed");
	sym_assert(!(flags & (O_CREAT | O_TRUNC)) && (flags & O_ACCMODE) == O_RDONLY, "a file found by inode is opened for writing or created");
	if (two) {
		sym_assert(resolve & RESOLVE_BENEATH, "a path may lead out of the subvolume");
		sym_assert(resolve & RESOLVE_NO_SYMLINKS, "a symbolic link may be followed");
		sym_assert(resolve & RESOLVE_NO_XDEV, "a path may lead onto another file system");
		if (g_old) { errno = ENOSYS; return -1; }
	}
	bool dir = flags & O_DIRECTORY;
	uint64_t proot = parent == ROOT ? 5 : fdroot[parent];
	static const int E[] = { ENOENT, EXDEV, EACCES };
	int fd = g_next;
	sym_assert(fd < 23, "too many files are opened");
	if (!strcmp(path, "sub") || !strcmp(path, "in") || !strcmp(path, "d/e")) {
		sym_assert(dir, "a directory is opened as a file");
		int w = sym_pick("diropen", 4);
		if (w == 3) { errno = E[sym_pick("errno", 2)]; g_rootfail = true; return -1; }
		fd_[fd] = F { true, true, false, w != 1, w != 2, true, false };
		uint64_t r = !strcmp(path, "sub") ? 257 : !strcmp(path, "in") ? 258 : proot;
		if (strcmp(path, "d/e") && w) g_rootfail = true;
		if (!strcmp(path, "sub")) sym_assert(proot == 5, "a subvolume is looked for in the wrong place");
		if (!strcmp(path, "in")) sym_assert(proot == 257, "a subvolume is looked for in the wrong place");
		fdroot[fd] = r;
		if (!strcmp(path, "d/e")) { fd_[fd].goodino = fd_[fd].goodroot = true; }
		g_next++;
		return fd;
	}
	sym_assert(!dir, "a file is opened as a directory");
	sym_assert(path[0] == 'p' && path[1] == '0' + g_tried, "the paths of an inode are not tried one after the other");
	g_tried++;
	sym_assert(proot == g_want, "a file is opened below the wrong subvolume");
	int w = sym_pick("fileopen", 8);
	if (w >= 6) { errno = E[w - 6]; return -1; }
	fd_[fd] = F { true, false, w == 4, w != 1, w != 2, w != 3, w == 5 };
	if (g_firstopen < 0) g_firstopen = fd;
	g_next++;
	return fd;
}
int openat2(int const parent, const char *const path, const struct open_how *const how, size_t const size) {
	sym_assert(size == sizeof(open_how) && !how->mode, "openat2 is called wrongly");
	return do_open(parent, path, how->flags, how->resolve, true);
}
int openat64(int parent, const char *path, int flags, ...) {
	sym_assert(g_old, "the unrestricted open is used although the restricted one exists");
	return do_open(parent, path, flags, 0, false);
}
int fstat64(int fd, struct stat64 *st) {
	memset(st, 0, sizeof *st);
	if (fd == ROOT) { st->st_ino = 256; st->st_dev = 100; st->st_mode = S_IFDIR | 0755; return 0; }
	sym_assert(fd >= 10 && fd < g_next && fd_[fd].open, "fstat of a descriptor that is not open");
	F &f = fd_[fd];
	if (f.dir) { st->st_ino = f.goodino ? 256 : 299; st->st_dev = 100 + fdroot[fd] - 5; st->st_mode = S_IFDIR | 0755; return 0; }
	st->st_ino = f.goodino ? g_ino : g_ino + 1;
	st->st_dev = f.gooddev ? 100 + g_want - 5 : 99;
	st->st_mode = S_IFREG | 0644;
	return 0;
}
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	if (req == BTRFS_IOC_TREE_SEARCH_V2) { sym_assert(fd == ROOT, "the root tree is searched through something else"); return tree_search(arg); }
	if (req == BTRFS_IOC_INO_LOOKUP) {
		auto p = (btrfs_ioctl_ino_lookup_args *)arg;
		sym_assert(p->objectid == BTRFS_FIRST_FREE_OBJECTID && p->treeid == 0, "the subvolume of a descriptor is asked for wrongly");
		if (fd == ROOT) { p->treeid = 5; return 0; }
		sym_assert(fd >= 10 && fd < g_next && fd_[fd].open, "ioctl on a descriptor that is not open");
		p->treeid = fd_[fd].dir ? (fd_[fd].goodroot ? fdroot[fd] : 999) : fd_[fd].goodroot ? g_want : 999;
		return 0;
	}
	if (req == BTRFS_IOC_INO_PATHS) {
		auto p = (btrfs_ioctl_ino_path_args *)arg;
		uint64_t root = fd == ROOT ? 5 : fdroot[fd];
		sym_assert(fd == ROOT || (fd_[fd].open && fd_[fd].dir), "paths are looked up through something that is not a subvolume");
		auto c = (btrfs_data_container *)p->fspath;
		char *base = (char *)c->val;
		if (!sym_concrete(p->inum == g_ino)) {
			sym_assert(p->inum == 300 && root == 257, "paths of an unrelated inode are looked up");
			int w = sym_pick("dirpath", 3);
			if (w) g_rootfail = true;
			if (w == 1) { errno = ENOENT; return -1; }
			c->elem_cnt = w ? 0 : 1;
			c->val[0] = 64; strcpy(base + 64, "d/e");
			return 0;
		}
		sym_assert(root == g_want, "the paths of an inode are looked up in the wrong subvolume");
		if (sym_pick("pathfail", 2)) { errno = sym_pick("errno", 2) ? ENOENT : EACCES; g_pathfail = true; return -1; }
		c->elem_cnt = g_npaths = sym_pick("paths", g_maxpaths + 1);
		for (int i = 0; i < g_npaths; i++) { c->val[i] = 64 + i * 4; base[64 + i * 4] = 'p'; base[65 + i * 4] = '0' + i; base[66 + i * 4] = 0; }
		return 0;
	}
	sym_assert(req == FS_IOC_GETFLAGS, "unexpected ioctl");
	sym_assert(fd >= 10 && fd < g_next && fd_[fd].open, "ioctl on a descriptor that is not open");
	if (fd_[fd].flagsfail) { errno = EIO; return -1; }
	*(int *)arg = (sym_pick("otherflag", 2) ? FS_COMPR_FL | FS_NOATIME_FL : 0) | (fd_[fd].nocow ? FS_NOCOW_FL : 0);
	return 0;
}
}
static uint8_t g_item[3][64];
static void backref(int i, uint64_t child, uint64_t parent, uint64_t dirid, const char *name) {
	auto r = (btrfs_root_ref *)g_item[i];
	memset(g_item[i], 0, 64);
	r->dirid = dirid; r->name_len = strlen(name);
	memcpy(r + 1, name, strlen(name));
	T[NT++] = TItem { BTRFS_ROOT_TREE_OBJECTID, child, BTRFS_ROOT_BACKREF_KEY, parent, 7, g_item[i], sizeof *r + strlen(name) };
}
int main() {
	g_op = sym_param("op", 0);
	g_maxpaths = sym_param("paths", g_op ? 1 : 2);
	g_old = sym_pick("old", 2);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(ROOT); ctx->m_home_fd = Fd(6);
	auto roots = ctx->roots();
	static const uint64_t W[] = { 5, 257, 1, 259, 258 };
	g_want = g_op ? 258 : W[sym_pick("root", 4)];
	g_ino = sym_range("ino", 257, ~0ull >> 1);
	sym_assume(g_ino != 300);
	backref(0, 257, 5, 256, "sub");
	backref(1, 258, 257, 300, "in");
	bool tmp = !g_op && sym_pick("tmpfile", 2);
	if (tmp) {
		// a temporary file that is known by identity; possibly a different one
		bool other = sym_pick("othertmp", 2);
		fd_[9].open = true;
		roots->m_tmpfiles[BeesFileId(g_want, other ? g_ino + 1 : g_ino)] = Fd(9);
		if (!other) {
			Fd f = roots->open_root_ino(g_want, g_ino);
			sym_assert(f == 9, "a temporary file's own identity does not lead to it");
			sym_assert(!g_tried, "a temporary file is opened by path");
			sym_reach("tmpfile");
			return 0;
		}
	}
	for (int round = 0; round < 2; round++) {
		Fd f;
		bool threw = false;
		try { f = roots->open_root_ino(g_want, g_ino); } catch (const std::exception &) { threw = true; }
		if (!f) {
			for (int i = 10; i < g_next; i++) if (!fd_[i].dir) sym_assert(!fd_[i].open, "a refused file is left open");
			if (g_old) sym_reach("oldkernel");
			if (g_want == 1) { sym_assert(!threw && g_next == 10, "a file in the root tree is looked for"); sym_reach("noroot"); return 0; }
			if (g_want == 259) { sym_assert(!threw && g_next == 10, "a file in a missing subvolume is looked for"); sym_reach("rootmissing"); return 0; }
			if (g_rootfail) { sym_assert(!g_tried, "a file is opened below the wrong subvolume"); sym_reach(threw ? "badroot" : "failed"); return 0; }
			if (g_pathfail || !g_npaths || g_firstopen < 0) { sym_assert(!threw, "a missing file is an error"); sym_reach("nopath"); return 0; }
			F &x = fd_[g_firstopen];
			sym_assert(!(x.goodino && x.goodroot && x.gooddev && !x.nocow && !x.flagsfail), "the right file was opened but not returned");
			if (!x.goodino) sym_reach("wrongino");
			if (!x.goodroot) sym_reach("wrongroot");
			if (!x.gooddev) sym_reach("wrongdev");
			if (x.nocow) sym_reach("nocow");
			return 0;
		}
		sym_assert(f >= 10 && f < g_next, "something that was not opened is returned");
		F &x = fd_[(int)f];
		sym_assert(x.open && !x.dir, "a closed descriptor is returned");
		sym_assert(x.goodino, "a file with another inode number is returned");
		sym_assert(x.goodroot, "a file in another subvolume is returned");
		sym_assert(x.gooddev, "a file on another device is returned");
		sym_assert(!x.nocow, "a file without copy-on-write is returned");
		sym_assert(!x.flagsfail, "a file whose attributes are unknown is returned");
		sym_assert(g_want != 1 && g_want != 259 && !g_rootfail, "a file below the wrong subvolume is returned");
		for (int i = 10; i < g_next; i++) if (!fd_[i].dir) sym_assert(fd_[i].open == (i == (int)f), "another file is left open");
		sym_reach("found");
		if (g_op) sym_reach("nested");
		if (round) sym_reach("second");
		if (!sym_pick("again", 2)) return 0;
		f = Fd();
		if (sym_pick("clear", 2)) { ctx->fd_cache()->clear(); sym_assert(!x.open, "a cleared cache keeps a file open"); for (int i = 10; i < g_next; i++) sym_assert(!fd_[i].open, "a cleared cache keeps a file open"); g_tried = 0; g_firstopen = -1; }
	}
}
