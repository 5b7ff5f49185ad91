// MODS: src/bees-hash.cc src/bees-context.cc src/bees.cc src/bees-thread.cc src/bees-types.cc src/bees-roots.cc lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc lib/task.cc lib/time.cc lib/fs.cc lib/path.cc lib/uname.cc
// REACH: opened created refused error crash mapped
// BOUND: an existing file of any 64-bit size or a missing one with any requested size; every system call of the creation failing, and a crash after every one; mapping and bucket location checked for tables of 1 to 3 regions at boundary hashes
// ASSUME: the directory operations are atomic; a short or failed call leaves the directory as it was
#include "sym.h"
#include "bees.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace crucible;
typedef BeesHashTable::Cell Cell;
static const uint64_t EXT = 128 * 1024;
static const int HOME = 3;
enum { REAL = 0, TMP = 1, NONE = 2 };
struct File { bool exists; uint64_t size; bool complete; };
static File g_dir[2];         // by name
static int g_fd_name;         // which name the open descriptor was opened under
static File *g_open;          // the open file (moves with the rename)
static uint64_t g_want;       // requested size
static bool g_had, g_failed, g_crashed;
static uint64_t g_oldsize;
static uint8_t *g_map; static uint64_t g_map_size;
static File g_inode[2];       // 0: old, 1: new
static int g_name_ino[2] = { -1, -1 };
static void check_disk() {
	if (g_name_ino[REAL] == 0) sym_assert(g_inode[0].size == g_oldsize, "the existing table file was resized");
	if (g_name_ino[REAL] == 1) {
		sym_assert(!g_had, "an existing table file was replaced");
		sym_assert(g_inode[1].size == g_want, "an incomplete table file got the real name");
	}
	if (g_had) sym_assert(g_name_ino[REAL] == 0, "the existing table file is gone");
}
static int step(const char *what) {
	check_disk();
	if (sym_pick("crash", 2)) { check_disk(); sym_reach("crash"); sym_stop(); }
	if (!g_failed && sym_pick("fail", 2)) { g_failed = true; errno = EIO; return -1; }
	return 0;
}
static int name_of(const char *n) { if (!strcmp(n, "beeshash.dat")) return REAL; sym_assert(!strcmp(n, "beeshash.dat.tmp"), "a file of another name is touched"); return TMP; }
static bool g_first_open = true;
extern "C" {
int openat64(int dir, const char *name, int flags, ...) {
	sym_assert(dir == HOME, "open outside the home directory");
	int n = name_of(name);
	sym_assert(!(flags & O_TRUNC) || n == TMP, "a table file is truncated on open");
	if (flags & O_CREAT) {
		sym_assert(n == TMP, "the table file is created under its real name");
		if (step("create")) return -1;
		if (g_name_ino[n] >= 0 && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		g_name_ino[n] = 1; g_inode[1].size = 0;
		return 11;
	}
	if (g_name_ino[n] < 0) { errno = ENOENT; return -1; }
	return 10 + g_name_ino[n];
}
int unlinkat(int dir, const char *name, int) { int n = name_of(name); sym_assert(n == TMP, "the table file is deleted"); if (step("unlink")) return -1; g_name_ino[n] = -1; return 0; }
int ftruncate64(int fd, off64_t n) { sym_assert(fd == 11, "an existing table file is resized"); if (step("truncate")) return -1; g_inode[1].size = n; return 0; }
int renameat(int d1, const char *a, int d2, const char *b) {
	sym_assert(d1 == HOME && d2 == HOME, "rename outside the home directory");
	int x = name_of(a), y = name_of(b);
	if (step("rename")) return -1;
	g_name_ino[y] = g_name_ino[x]; g_name_ino[x] = -1;
	check_disk();
	return 0;
}
int fstat64(int fd, struct stat64 *st) { memset(st, 0, sizeof *st); if (step("stat")) return -1; st->st_size = g_inode[fd - 10].size; st->st_mode = S_IFREG; return 0; }
void *mmap64(void *, size_t n, int, int, int, off64_t) {
	sym_assert(!g_map, "mapped twice");
	if (step("map")) return MAP_FAILED;
	if (n > 3 * EXT) { errno = ENOMEM; g_failed = true; return MAP_FAILED; }
	n = sym_concrete(n);
	g_map = (uint8_t *)calloc(1, n); g_map_size = n; return g_map;
}
int munmap(void *p, size_t n) { return 0; }
int madvise(void *, size_t, int) { return 0; }
int posix_fadvise64(int, off64_t, off64_t, int) { return 0; }
ssize_t readahead(int, off64_t, size_t) { return 0; }
int close(int) { return 0; }
int ioctl(int fd, unsigned long req, ...) { errno = ENOTTY; return -1; }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	sym_assert((uint64_t)off + n <= g_map_size, "read outside the table file");
	memset(buf, 0, n); return n;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { sym_fail("write while opening"); }
}
void BeesThread::exec(std::function<void()> f) {}
int main() {
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_home_fd = Fd(HOME);
	ctx->m_root_fd = Fd(HOME + 1);
	g_had = sym_pick("exists", 2);
	uint64_t sz = sym_pick("regions", 4);
	if (sz) sz *= EXT;
	else { sz = sym_bits("size", 63); sym_assume(sz == 0 || sz > 3 * EXT || sz % EXT); }
	(g_had ? g_oldsize : g_want) = sz;
	if (g_had) g_want = EXT;
	g_inode[0].size = g_oldsize;
	if (g_had) g_name_ino[REAL] = 0;
	else if (sym_pick("stale_tmp", 2)) { g_name_ino[TMP] = 1; g_inode[1].size = 5; }
	uint64_t size = g_had ? g_oldsize : g_want;
	std::shared_ptr<BeesHashTable> t;
	try {
		t = std::make_shared<BeesHashTable>(ctx, "beeshash.dat", g_want);
	} catch (const std::exception &) {}
	check_disk();
	bool good = (size != 0) & (size % EXT == 0);
	if (!t) {
		if (g_failed) { sym_reach("error"); return 0; }
		sym_assert(!good, "a table file of valid size was refused");
		sym_reach("refused");
		return 0;
	}
	sym_assert(!g_failed || g_had == false, "a failed system call was ignored");
	sym_assert(good, "a table file whose size is not a positive whole number of regions was accepted");
	sym_reach(g_had ? "opened" : "created");
	sym_assert(g_name_ino[REAL] >= 0, "the table is in use but has no file under its name");
	uint64_t n = g_map_size / EXT;
	sym_assert(g_map_size == size, "the mapping does not have the size of the file");
	sym_assert(t->m_size == size && t->m_extents == n && t->m_buckets == n * 32 && t->m_cells == n * 32 * 256, "region, bucket and entry counts disagree with the file size");
	static const uint64_t hs[] = { 0, 1, 31, 32, 95, 96, 97, 0xffffffffffffffffull, 0x8000000000000000ull };
	uint64_t h = hs[sym_pick("hash", 9)];
	t->push_front_hash_addr(h, 0x7000);
	Cell *c = (Cell *)(g_map + (h % (n * 32)) * 4096);
	sym_assert(c->e_hash == h && c->e_addr == 0x7000, "an entry is not stored in the bucket its hash selects");
	t->push_front_hash_addr(h + 1, 0x8000);
	c = (Cell *)(g_map + ((h + 1) % (n * 32)) * 4096);
	sym_assert(c->e_hash == h + 1 && c->e_addr == 0x8000, "an entry is not stored in the bucket its hash selects");
	sym_reach("mapped");
}
