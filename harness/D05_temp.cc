// MODS: src/bees.cc lib/fs.cc
// JOB: ops n=3 shards=8 depth=5
// JOB: faults n=2 faults=1 shards=8 depth=5
// THOROUGH: ops4 n=4 shards=32 depth=8
// THOROUGH: faults3 n=3 faults=1 shards=32 depth=8
// REACH: copied hole reset zeroblock realigned truncfail readfail shortread writefail shortwrite toolarge empty again flags unregistered
// BOUND: every sequence of up to 3 (4) copies, holes and resets of 0 to 3 blocks and a tail of 0, 1, 2048 or 4095 bytes; every content of the first, last and one middle byte of every source block; with a failure of any single truncation, read or write (or a short one) in sequences of up to 2 (3)
// ASSUME: the kernel's truncate, read and write behave as documented; the source does not change while it is copied
#include "sym.h"
#include "bees.h"
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
using namespace crucible;
static const off_t B = 4096;
static const int TMP = 77, SRC = 31;
static const int NB = 24;
struct Blk { uint8_t f, m, z; };               // bytes 0, 2000 and 4095 of a block
static Blk S[4], F[NB];
static bool g_known[NB], g_written[NB];
static off_t g_tsize, g_ssize = 64 * B, g_srcbegin;
static int g_flags, g_fault = -1, g_calls, g_open, g_dropped;
static off_t g_lo, g_hi;                       // where writes are allowed now
static uint8_t src_byte(off_t o) { Blk &b = S[(o - g_srcbegin) / B]; switch (o % B) { case 0: return b.f; case 2000: return b.m; case 4095: return b.z; } return 0; }
static bool fails() { return g_calls++ == g_fault; }
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int fd) { if (fd == TMP) g_open--; return 0; }
int openat64(int dir, const char *name, int flags, ...) {
	sym_assert(dir == 5 && name[0] == '.' && !name[1] && (flags & O_TMPFILE) == O_TMPFILE, "something other than a temporary file in the filesystem root is opened");
	sym_assert((flags & O_ACCMODE) == O_RDWR, "the temporary file is not opened for reading and writing");
	g_open++;
	return TMP;
}
int fstat64(int fd, struct stat64 *st) throw() {
	sym_assert(fd == TMP || fd == SRC, "an unknown descriptor is used");
	memset(st, 0, sizeof *st);
	st->st_ino = fd == TMP ? 999 : 300; st->st_size = fd == TMP ? g_tsize : g_ssize; st->st_mode = S_IFREG | 0600;
	return 0;
}
int ftruncate64(int fd, off64_t n) throw() {
	sym_assert(fd == TMP, "a file other than the temporary one is truncated");
	sym_assert(n >= 0 && n <= NB * B, "the temporary file has an impossible size");
	if (fails()) { sym_reach("truncfail"); errno = ENOSPC; return -1; }
	for (int i = 0; i < NB; i++) {
		if (i * B >= n) { F[i] = Blk(); g_written[i] = false; }
		else if (i * B + B > n) { if (n - i * B <= 2000) F[i].m = 0; F[i].z = 0; }
	}
	g_tsize = n;
	return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	sym_assert(fd == SRC, "a file other than the source is read");
	sym_assert(off >= g_srcbegin && (off - g_srcbegin) / B < 4, "a read outside the source range");
	if (fails()) { if (sym_pick("short", 2)) { sym_reach("shortread"); return 0; } sym_reach("readfail"); errno = EIO; return -1; }
	memset(buf, 0, n);
	uint8_t *p = (uint8_t *)buf;
	sym_assert(off % B == 0 && n <= (size_t)B, "a read across blocks");
	for (off_t o : { off_t(0), off_t(2000), off_t(4095) }) if (o < (off_t)n) p[o] = src_byte(off + o);
	// the last byte of a partial block is not zero by accident
	return n;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
	sym_assert(fd == TMP, "a file other than the temporary one is written");
	sym_assert(off >= g_lo && off + (off_t)n <= g_hi, "a write outside the range of the copy");
	sym_assert(off >= B, "the first block of the temporary file is written");
	if (fails()) { if (sym_pick("short", 2)) { sym_reach("shortwrite"); return 0; } sym_reach("writefail"); errno = EIO; return -1; }
	const uint8_t *p = (const uint8_t *)buf;
	for (size_t k = 0; k < n; ) {
		off_t at = off + k; int i = at / B; off_t in = at % B;
		if (in == 0) { F[i].f = p[k]; g_written[i] = true; }
		if (in <= 2000 && in + (off_t)(n - k) > 2000) F[i].m = p[k + 2000 - in];
		if (in + (off_t)(n - k) > 4095) F[i].z = p[k + 4095 - in];
		k += B - in;
	}
	if (off + (off_t)n > g_tsize) g_tsize = off + n;
	return n;
}
int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == TMP, "an ioctl on something other than the temporary file");
	if (req == FS_IOC_GETFLAGS) { *(int *)arg = g_flags; return 0; }
	sym_assert(req == FS_IOC_SETFLAGS, "unexpected ioctl");
	g_flags = *(int *)arg; sym_reach("flags");
	return 0;
}
}
namespace crucible { uint64_t btrfs_get_root_id(int fd) { sym_assert(fd == TMP || fd == SRC, "an unknown descriptor is used"); return fd == TMP ? 5 : 300; } }
void bees_throttle(double, const char *) {}
int main() {
	int n = sym_param("n", 3);
	bool faults = sym_param("faults", 0);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5); ctx->m_home_fd = Fd(6);
	auto roots = ctx->roots();
	g_flags = sym_pick("iflags", 2) ? FS_NOCOW_FL | FS_NOCOMP_FL | FS_NODUMP_FL : 0;
	int keep = g_flags & FS_NODUMP_FL;
	g_srcbegin = 20 * B;
	for (int i = 0; i < 4; i++) { S[i].f = sym_bits("first", 8); S[i].m = sym_bits("middle", 8); S[i].z = sym_bits("last", 8); }
	auto t = std::make_shared<BeesTempFile>(ctx);
	sym_assert(g_tsize == B, "the temporary file does not begin with one empty block");
	sym_assert(ctx->is_blacklisted(BeesFileId(5, 999)), "the temporary file is not kept out of scans");
	sym_assert((int)ctx->fd_cache()->open_root_ino(5, 999) == TMP || (int)roots->open_root_ino(5, 999) == TMP, "the temporary file cannot be found by its inode");
	if (faults) g_fault = g_calls + sym_pick("fault", 8);
	off_t handed = B;              // ranges below this were handed out since the last reset
	static const off_t TAIL[] = { 0, 1, 2048, 4095 };
	for (int step = 0; step < n; step++) {
		int op = sym_pick("op", 3);
		off_t size = op == 2 ? 0 : sym_pick("blocks", faults ? 2 : 3) * B;
		if (op != 2) size += step && !faults ? TAIL[sym_pick("somebytes", 2) * 2] : TAIL[sym_pick("tail", 4)];
		bool threw = false;
		BeesFileRange r;
		off_t oldsize = g_tsize;
		bool realign = handed % B != 0;
		if (realign && op != 2) handed = B;
		g_lo = handed; g_hi = handed + size;
		try {
			if (op == 0) r = t->make_copy(BeesFileRange(Fd(SRC), g_srcbegin, g_srcbegin + size));
			else if (op == 1) { g_hi = g_lo; r = t->make_hole(size); }
			else { t->reset(); }
		} catch (const std::exception &) { threw = true; }
		if (op != 2 && size == 0) { sym_assert(threw, "an empty range is handed out"); sym_assert(g_tsize == oldsize, "a refused request changes the file"); sym_reach("empty"); if (realign) handed = g_tsize; continue; }
		if (threw) {
			sym_assert(g_fault >= 0 && g_calls > g_fault, "a request fails although nothing failed");
			g_fault = -1; sym_reach("again");
			handed = g_tsize;
			// what is handed out from now on must not contain leftovers: checked below
			if (handed < B) handed = 0;
			if (t->m_end_offset < g_tsize) handed = t->m_end_offset;
			continue;
		}
		sym_assert(g_fault < 0 || g_calls <= g_fault, "a failure is ignored");
		sym_assert((g_flags & FS_COMPR_FL) && !(g_flags & (FS_NOCOMP_FL | FS_NOCOW_FL)) && (g_flags & FS_NODUMP_FL) == keep, "the attributes of the temporary file are wrong");
		if (op == 2) { sym_assert(g_tsize == B, "a reset does not leave exactly one empty block"); sym_assert(!g_written[0], "a reset leaves data"); handed = B; sym_reach("reset"); continue; }
		sym_assert((int)r.fd() == TMP, "a range outside the temporary file is handed out");
		sym_assert(r.end() - r.begin() == size, "the range has another length than was asked for");
		sym_assert(r.begin() % B == 0, "the range does not begin on a block boundary");
		sym_assert(r.begin() >= B, "the range includes the first block");
		sym_assert(r.begin() >= handed, "the range overlaps one that was handed out before");
		sym_assert(r.end() == g_tsize, "the range does not end at the end of the temporary file");
		if (realign) sym_reach("realigned");
		for (off_t o = 0; o < size; o += B) {
			int i = (r.begin() + o) / B, k = o / B;
			off_t len = size - o < B ? size - o : B;
			if (op == 1) { sym_assert(!g_written[i], "a hole contains data"); sym_reach("hole"); continue; }
			Blk want = S[k];
			if (len <= 2000) want.m = 0;
			if (len <= 4095) want.z = 0;
			sym_assert((F[i].f == want.f) & (F[i].m == want.m) & (F[i].z == want.z), "the copy differs from the source");
			if (sym_concrete((want.f | want.m | want.z) == 0)) { sym_assert(!g_written[i], "a zero block is written"); sym_reach("zeroblock"); }
			sym_reach("copied");
		}
		handed = g_tsize;
	}
	// an absurdly large copy is refused without touching the file
	off_t before = g_tsize;
	bool refused = false;
	if (!faults && sym_pick("large", 2)) {
		try { t->make_copy(BeesFileRange(Fd(SRC), g_srcbegin, g_srcbegin + BLOCK_SIZE_MAX_TEMP_FILE)); } catch (const std::exception &) { refused = true; }
		sym_assert(refused && g_tsize == before, "an absurdly large copy is not refused");
		sym_reach("toolarge");
	}
	t.reset();
	sym_assert(!ctx->is_blacklisted(BeesFileId(5, 999)), "the temporary file's inode stays out of scans forever");
	sym_reach("unregistered");
	return 0;
}
