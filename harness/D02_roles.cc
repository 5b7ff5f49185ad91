// MODS: src/bees.cc lib/fs.cc
// JOB: two same=0
// JOB: same same=1
// THOROUGH: deep2 same=0 n=5
// THOROUGH: deep1 same=1 n=5
// REACH: done overlap mismatch empty protected missing unprotected again differs failed gone wrongfd
// BOUND: every pair of ranges with positions below 2^61, in one file or in two files with any inode numbers and three subvolumes (one of them the top level), descriptors already open (of the right or of another file) or opened on demand (possibly failing); send workaround on or off and the destination's subvolume writable, read-only or without an item; up to 3 (5) kernel requests with any progress, refusals, and busy answers
// ASSUME: opening by inode returns the file asked for or nothing (C07)
#include "fake_tree.h"
#include "bees.h"
#include <sys/stat.h>
using namespace crucible;
static const int OPEN[2] = { 31, 42 }, WRONG = 57;
static uint64_t g_root[2], g_ino[2];
static off_t g_b[2], g_e[2];
static bool g_pre[2], g_wrong[2], g_canopen[2], g_same, g_wa;
static int g_calls, g_max, g_err, g_again, g_waits;
static uint64_t g_done;
static enum { NONE, OKAY, DIFF, FAIL } g_out = NONE;
static int g_protect;   // 0 writable, 1 read-only, 2 no root item
static int which(int fd) { return fd == OPEN[0] ? 0 : fd == OPEN[1] ? 1 : fd == WRONG ? 2 : -1; }
static bool may() {
	bool ok = g_e[0] - g_b[0] == g_e[1] - g_b[1];
	ok &= g_e[0] > g_b[0];
	bool share = (g_b[0] < g_e[1]) & (g_b[1] < g_e[0]);
	bool same = (g_root[0] == g_root[1]) & (g_ino[0] == g_ino[1]);
	return ok & !(share & same);
}
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int) { return 0; }
int fstat64(int fd, struct stat64 *st) {
	int w = which(fd);
	sym_assert(w >= 0, "the identity of an unknown descriptor is asked for");
	memset(st, 0, sizeof *st);
	st->st_ino = w == 2 ? 999 : g_ino[w]; st->st_size = 1ull << 62; st->st_mode = S_IFREG | 0644;
	return 0;
}
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	if (req == BTRFS_IOC_TREE_SEARCH_V2) { sym_assert(fd == 5, "the root tree is searched through something else"); return tree_search(arg); }
	sym_assert(req == BTRFS_IOC_FILE_EXTENT_SAME, "unexpected ioctl");
	auto a = (btrfs_ioctl_same_args *)arg;
	sym_assert(!g_wa || g_protect == 0 || !(g_root[1] == 5 || g_root[1] >= 256), "a request is sent for a destination in a protected subvolume");
	sym_assert(which(fd) == 0 || g_same && fd == OPEN[1], "the request's source is not the source file");
	sym_assert(a->dest_count == 1 && (which(a->info[0].fd) == 1 || g_same && a->info[0].fd == OPEN[0]), "the request's destination is not the destination file");
	sym_assert(g_out == NONE, "a request is sent after the outcome is known");
	sym_assert(may(), "a request is sent for ranges that overlap, are empty or differ in length");
	sym_assert(a->logical_offset == g_b[0] + g_done, "the request starts at the wrong place in the source");
	sym_assert(a->info[0].logical_offset == g_b[1] + g_done, "the request starts at the wrong place in the destination");
	sym_assert(a->length > 0, "the request is empty");
	sym_assert(a->length <= (uint64_t)(g_e[0] - g_b[0]) - g_done, "the request leaves the range");
	if (++g_calls > g_max) sym_stop();
	switch (sym_pick("answer", 5)) {
		case 0: {
			uint64_t did = sym_range("did", 1, ~0ull >> 1);
			sym_assume(did <= a->length);
			a->info[0].status = 0; a->info[0].bytes_deduped = did;
			g_done += did;
			break;
		}
		case 1: a->info[0].status = BTRFS_SAME_DATA_DIFFERS; g_out = DIFF; break;
		case 2: g_out = FAIL; g_err = sym_pick("errno", 2) ? EIO : ENOSPC; errno = g_err; return -1;
		case 3: g_again++; g_done = 0; errno = EAGAIN; return -1;
		case 4: g_again++; g_done = 0; a->info[0].status = -EAGAIN; a->info[0].bytes_deduped = 0; break;
	}
	return 0;
}
}
namespace crucible { uint64_t btrfs_get_root_id(int fd) { int w = which(fd); sym_assert(w >= 0, "the subvolume of an unknown descriptor is asked for"); return w == 2 ? 300 : g_root[w]; } }
Fd BeesRoots::open_root_ino(uint64_t root, uint64_t ino) {
	for (int i = 0; i < 2; i++)
		if (sym_concrete((root == g_root[i]) & (ino == g_ino[i])) && g_canopen[i]) return Fd(OPEN[i]);
	return Fd();
}
void BeesRoots::wait_for_transid(uint64_t n) {
	g_waits++;
	sym_assert(n == 1, "a busy destination is not retried in the next transaction");
	sym_assert(g_waits == g_again, "waits although the destination is not busy");
}
BeesAddress::BeesAddress(int fd, off_t offset) : m_addr(4096) {
	if (fd < 0) throw std::runtime_error("bad fd");
	int w = which(fd);
	sym_assert(w == 0 || w == 1, "an address is taken from an unknown descriptor");
	if (w == 1 && sym_pick("otherplace", 2)) m_addr = 8192;
}
int main() {
	g_max = sym_param("n", 3);
	g_same = sym_param("same", 0);
	static const uint64_t ROOT[] = { 5, 257, 258 };
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5); ctx->m_home_fd = Fd(6);
	auto roots = ctx->roots();
	g_root[0] = ROOT[sym_pick("root", 3)];
	g_ino[0] = sym_range("ino", 256, ~0ull >> 1);
	if (g_same) { g_root[1] = g_root[0]; g_ino[1] = g_ino[0]; }
	else { g_root[1] = ROOT[sym_pick("root2", 3)]; g_ino[1] = sym_range("ino2", 256, ~0ull >> 1); sym_assume((g_root[0] != g_root[1]) | (g_ino[0] != g_ino[1])); }
	g_wa = roots->m_workaround_btrfs_send = sym_pick("workaround", 2);
	g_protect = g_wa ? sym_pick("protect", 3) : sym_pick("ro", 2);
	btrfs_root_item ri; memset(&ri, 0, sizeof ri);
	ri.flags = g_protect == 1 ? BTRFS_ROOT_SUBVOL_RDONLY : 0;
	btrfs_root_item rw; memset(&rw, 0, sizeof rw);
	// the source's subvolume has the opposite protection, if it is another one
	rw.flags = g_protect ? 0 : BTRFS_ROOT_SUBVOL_RDONLY;
	for (int i = 0; i < 3; i++) {
		bool dst = ROOT[i] == g_root[1];
		if (dst && g_protect == 2) continue;
		T[NT++] = TItem { BTRFS_ROOT_TREE_OBJECTID, ROOT[i], BTRFS_ROOT_ITEM_KEY, 0, 7, (const uint8_t *)(dst ? &ri : &rw), sizeof ri };
	}
	BeesFileRange r[2];
	for (int i = 0; i < 2; i++) {
		g_b[i] = sym_bits("b", 61); g_e[i] = sym_bits("e", 61);
		sym_assume(g_b[i] <= g_e[i]);
		r[i] = BeesFileRange(BeesFileId(g_root[i], g_ino[i]), g_b[i], g_e[i]);
		switch (sym_pick("fd", 4)) {
			case 0: g_canopen[i] = true; break;
			case 1: break;                                          // cannot be opened
			case 2: r[i].m_fd = Fd(OPEN[i]); g_pre[i] = true; break;
			case 3: r[i].m_fd = Fd(WRONG); g_wrong[i] = true; break; // descriptor of another file
		}
	}
	if (g_same) g_canopen[1] = g_canopen[0];
	// The pair is valid when made, and its ranges are changed afterwards
	BeesRangePair p(BeesFileRange(BeesFileId(1, 1), 0, 4096), BeesFileRange(BeesFileId(1, 2), 0, 4096));
	p.first = r[0];
	p.second = r[1];
	bool rv = false, threw = false; int code = 0;
	try { rv = ctx->dedup(p); }
	catch (const std::system_error &e) { threw = true; code = e.code().value(); }
	catch (const std::exception &) { threw = true; }
	bool prot = g_wa && g_protect;
	if (!g_calls) {
		sym_assert(!rv, "success is reported without a request");
		if (prot) { sym_assert(!threw, "a protected destination is not a plain refusal"); sym_reach(g_protect == 1 ? "protected" : "missing"); return 0; }
		sym_assert(threw, "a request that was not sent is reported as refused by the kernel");
		if (g_wrong[0] || g_wrong[1]) { sym_reach("wrongfd"); return 0; }
		if (!(g_pre[0] || g_canopen[0]) || !(g_pre[1] || g_canopen[1])) { sym_reach("gone"); return 0; }
		sym_assert(!may(), "a valid request is not sent");
		if (sym_concrete(g_e[0] - g_b[0] != g_e[1] - g_b[1])) sym_reach("mismatch");
		else if (sym_concrete(g_e[0] == g_b[0])) sym_reach("empty");
		else sym_reach("overlap");
		return 0;
	}
	sym_assert(!g_wrong[0] && !g_wrong[1], "a descriptor of another file is used");
	if (g_again) sym_reach("again");
	sym_assert(g_waits == g_again, "a busy destination is not waited for");
	if (g_protect) sym_reach("unprotected");
	if (threw) { sym_assert(g_out == FAIL && code == g_err, "an error is raised that the kernel did not report"); sym_reach("failed"); }
	else if (!rv) { sym_assert(g_out == DIFF, "a refusal is reported that the kernel did not give"); sym_reach("differs"); }
	else { sym_assert(g_out == NONE && g_done == (uint64_t)(g_e[0] - g_b[0]), "success is reported before every byte was accepted"); sym_reach("done"); }
}
