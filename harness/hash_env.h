// Fake kernel for the hash table: one table file, anonymous memory for its mapping.
#pragma once
#include "sym.h"
#include "bees.h"
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace crucible;
typedef BeesHashTable::Cell Cell;
static const size_t EXT = 128 * 1024, BKT = 4096, CPB = 256;
struct HashEnv {
	uint8_t *file = nullptr;      // contents of the table file
	size_t file_size = 0;
	uint8_t *map = nullptr;       // the mapping
	size_t map_size = 0;
	int preads = 0, pwrites = 0;
	void (*on_pread)(size_t off, size_t n) = nullptr;
	bool (*on_pwrite)(const uint8_t *p, size_t off, size_t n) = nullptr;   // false: fail with EIO
};
static HashEnv E;
static const int HOME = 3, TABLE = 7;
extern "C" {
int openat64(int dir, const char *name, int flags, ...) { sym_assert(dir == HOME, "open outside the home directory"); return TABLE; }
int fstat64(int fd, struct stat64 *st) { memset(st, 0, sizeof *st); st->st_size = E.file_size; st->st_ino = 77; st->st_mode = S_IFREG; return 0; }
void *mmap64(void *, size_t n, int, int, int, off64_t) {
	sym_assert(!E.map, "mapped twice");
	E.map = (uint8_t *)calloc(1, n); E.map_size = n; return E.map;
}
int munmap(void *p, size_t n) { return 0; }
int madvise(void *, size_t, int) { return 0; }
int mlock(const void *, size_t) { return 0; }
int posix_fadvise64(int, off64_t, off64_t, int) { return 0; }
ssize_t readahead(int, off64_t, size_t) { return 0; }
int close(int) { return 0; }
int ioctl(int fd, unsigned long req, ...) { errno = ENOTTY; return -1; }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	sym_assert(fd == TABLE, "read from a descriptor that is not the table file");
	E.preads++;
	if (E.on_pread) E.on_pread(off, n);
	if ((size_t)off >= E.file_size) return 0;
	if (n > E.file_size - off) n = E.file_size - off;
	memcpy(buf, E.file + off, n);
	return n;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
	sym_assert(fd == TABLE, "write to a descriptor that is not the table file");
	E.pwrites++;
	sym_assert((size_t)off <= E.file_size && n <= E.file_size - off, "write outside the table file");
	if (E.on_pwrite && !E.on_pwrite((const uint8_t *)buf, off, n)) { errno = EIO; return -1; }
	memcpy(E.file + off, buf, n);
	return n;
}
}
static std::shared_ptr<BeesHashTable> g_table;
// the table's own threads are started by the harness when it wants them
static std::vector<std::function<void()>> g_threads;
#ifndef REAL_THREADS
void BeesThread::exec(std::function<void()> f) { g_threads.push_back(f); }
#endif
static std::shared_ptr<BeesContext> g_ctx;
static std::shared_ptr<BeesHashTable> open_table(size_t extents) {
	E.file_size = extents * EXT;
	E.file = (uint8_t *)calloc(1, E.file_size);
	g_ctx = std::make_shared<BeesContext>();
	g_ctx->m_home_fd = Fd(HOME);
	g_ctx->m_root_fd = Fd(HOME + 1);
	g_table = std::make_shared<BeesHashTable>(g_ctx, "beeshash.dat", E.file_size);
	return g_table;
}
static Cell *map_bucket(size_t b) { return reinterpret_cast<Cell *>(E.map + b * BKT); }
static Cell *file_bucket(size_t b) { return reinterpret_cast<Cell *>(E.file + b * BKT); }
// make the table's next random number map to position pos when drawn with the default engine
static void set_random(size_t pos) {
	const uint64_t M = 2147483647ull, INV = 1407677000ull, SC = (M - 3) / 256;
	uint64_t x = (pos % 256) * SC + 1;
	bees_generator._M_x = (x * INV) % M;
}
