// MODS: src/bees.cc src/bees-types.cc
// JOB: look n=2 kinds=9 shards=8 depth=7
// JOB: ranges n=4 kinds=2 shards=8 depth=7
// JOB: same n=3 kinds=2 twice=1 shards=8 depth=7
// THOROUGH: look3 n=3 kinds=9 shards=32 depth=9
// THOROUGH: ranges5 n=5 kinds=2 shards=32 depth=9
// REACH: inserted deduped copied zero allzero compressed prealloc preallocmiss hole already toxichash toxicmatch malign stale nohash nodup failed trimmed tooexpensive skipped rescanned eof twocells
// BOUND: extents of up to 2 (3) blocks with up to two hash table entries per block of every kind, and of up to 4 (5) blocks with matches of every position and length in the extent; the last block whole or partial; every block zero or not, by its contents; extents compressed or not, preallocated, or holes; every dedupe request succeeding or not; the same extent scanned twice
// ASSUME: a match covers the block it was found for, lies inside the extent and holds equal bytes (D03, D06); hash table operations do what H01 says
#include "sym.h"
#include "bees.h"
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <vector>
using namespace crucible;
static const off_t B = 4096;
static const int DST = 31, SRC = 42, TMP = 77;
static int N;
static off_t g_begin, g_end, g_size;
static uint8_t g_b[6];                          // first byte of every block, the rest is zero
static uint64_t g_phys = 0x40000000;
static bool g_comp;
static int g_kinds, g_twice, g_cells;
struct Match { int blk, lo, hi; };
static Match M[8]; static int g_m;
static bool g_ins[6], g_ded[6], g_cop[6], g_looked[6];
static int g_inserts, g_dedups, g_copies, g_failed, g_holes, g_exit, g_erased, g_front, g_inv;
static int g_cur;
static bool g_done;                             // an entry that ends the scan was met
static bool zero(int i) { return sym_concrete(g_b[i] == 0); }
static off_t blen(int i) { off_t b = g_begin + i * B; return g_end - b < B ? g_end - b : B; }
static uint64_t addr_of(int i) { uint64_t a = g_comp ? g_phys | BeesAddress::c_compressed_mask | (i + 1) : g_phys + i * B; if (blen(i) != B) a |= BeesAddress::c_eof_mask; return a; }
static uint64_t hash_of(int i) { return 0x100000 + i; }
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int) { return 0; }
int fstat64(int fd, struct stat64 *st) throw() { memset(st, 0, sizeof *st); st->st_ino = fd; st->st_size = fd == DST ? g_size : 1 << 30; st->st_mode = S_IFREG; return 0; }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	sym_assert(fd == DST, "another file than the scanned one is read");
	sym_assert(off >= g_begin && off + (off_t)n <= g_end && (off - g_begin) % B == 0, "a read outside the extent");
	int i = (off - g_begin) / B;
	sym_assert((off_t)n == blen(i), "a block is read in part");
	memset(buf, 0, n); ((uint8_t *)buf)[0] = g_b[i]; ((uint8_t *)buf)[1] = 0; ((uint8_t *)buf)[2] = g_b[i] ? i : 0;
	return n;
}
}
namespace crucible { uint64_t btrfs_get_root_id(int) { return 300; } }
void bees_readahead(int, off_t, size_t) {}
BeesHash::BeesHash(const uint8_t *p, size_t n) : m_hash(0x100000 + p[2]) { sym_assert(n <= (size_t)B, "a hash of more than a block"); }
static int of_hash(uint64_t h) { int i = (int)(h - 0x100000); sym_assert(i >= 0 && i < N, "a hash that belongs to no block"); return i; }
std::vector<BeesHashTable::Cell> BeesHashTable::find_cell(HashType hash) {
	int i = of_hash(hash);
	g_cur = i;
	g_looked[i] = true;
	std::vector<Cell> rv;
	int cells = g_cells > 1 ? sym_pick("cells", 3) : sym_pick("cell", 2);
	if (cells == 2) sym_reach("twocells");
	for (int c = 0; c < cells; c++) {
		BeesAddress a(0x80000000 + (i * 2 + c) * 0x100000 + (blen(i) != B ? BeesAddress::c_eof_mask : 0));
		int kind = sym_pick("kind", g_kinds);     // 0 match, 1 address of no data, 2 same place, 3 toxic entry, 4 wrong alignment, 5 toxic when resolved, 6 other hash there, 7 hash but no match, 8 the entry before once more
		if (kind == 2) { a = BeesAddress(addr_of(i)); if (g_comp && N > 1) { int j = sym_pick("other", N); a = BeesAddress((addr_of(j) & ~BeesAddress::c_eof_mask) | (addr_of(i) & BeesAddress::c_eof_mask)); } if (!g_done) sym_reach("already"); }
		if (kind == 3) a.set_toxic();
		if (kind == 4) { a = BeesAddress(uint64_t(a) ^ BeesAddress::c_eof_mask); }
		if (kind == 5) a = BeesAddress(uint64_t(a) + 0x1000000);
		if (kind == 6) a = BeesAddress(uint64_t(a) + 0x2000000);
		if (kind == 7) a = BeesAddress(uint64_t(a) + 0x3000000);
		if (kind == 1) a = BeesAddress(uint64_t(a) + 0x4000000);
		if (kind == 8) { if (rv.empty()) return rv; rv.push_back(rv.back()); continue; }
		rv.push_back(Cell(hash, a));
	}
	// what the scan has to do with them, in order: entries of the same place or toxic ones end it before any is resolved
	for (auto &c : rv) { BeesAddress a(c.e_addr); if (a.get_physical_or_zero() == BeesAddress(addr_of(i)).get_physical_or_zero()) { g_done = true; g_exit = 1; return rv; }
		if (a.is_unaligned_eof() != (blen(i) != B)) { sym_reach("malign"); continue; }
		if (a.is_toxic()) { g_done = true; g_exit = 2; sym_reach("toxichash"); return rv; } }
	return rv;
}
static uint64_t g_raddr;
BeesResolver::BeesResolver(shared_ptr<BeesContext>, BeesAddress a) : m_addr(a), m_bior_count(1) {
	sym_assert(!g_done, "a scan that should have ended goes on");
	sym_assert(!a.is_toxic(), "a toxic entry is resolved");
	uint64_t v = a & ~0xfffffull;
	g_raddr = a;
	int k = (v >> 24) & 7;
	sym_assert(a.is_unaligned_eof() == (blen(g_cur) != B), "an entry of another length is resolved");
	if (k == 1) { m_is_toxic = true; g_done = true; g_exit = 3; sym_reach("toxicmatch"); }
	if (k == 4) { m_bior_count = 0; sym_reach("stale"); }
}
BeesRangePair BeesResolver::replace_dst(const BeesFileRange &dst) {
	sym_assert((int)dst.fd() == DST, "a range outside the scanned file is replaced");
	int i = (dst.begin() - g_begin) / B;
	sym_assert(dst.begin() == g_begin + i * B && dst.size() == blen(i), "something other than one block is replaced");
	sym_assert(!zero(i), "a zero block is replaced");
	int k = (g_raddr >> 24) & 7;
	if (k == 2) { sym_reach("nohash"); return { BeesFileRange(), BeesFileRange() }; }
	m_found_hash = true;
	if (k == 3) { sym_reach("nodup"); return { BeesFileRange(), BeesFileRange() }; }
	m_found_dup = true;
	int lo = g_kinds <= 2 ? i - sym_pick("before", i + 1) : i;
	int hi = i + 1 + sym_pick("after", N - i);
	M[g_m++] = { i, lo, hi };
	off_t b = g_begin + lo * B, e = hi == N ? g_end : g_begin + hi * B;
	off_t at = 0x100000 + i * 0x10000;
	return BeesRangePair(BeesFileRange(Fd(SRC), at + b, at + e), BeesFileRange(Fd(DST), b, e));
}
bool BeesContext::dedup(const BeesRangePair &p) {
	if (g_holes) {
		sym_assert((int)p.first.fd() == TMP && (int)p.second.fd() == DST, "a hole is put into another file");
		sym_assert(p.second.begin() == g_begin && p.second.end() == (g_end < g_size ? g_end : g_size), "a hole replaces something other than the extent");
		if (sym_pick("holeworks", 2)) { g_done = true; g_exit = 4; return true; }
		sym_reach("preallocmiss");
		g_holes = 0;
		return false;
	}
	sym_assert(!g_done && !g_failed, "a scan that should have ended goes on");
	sym_assert((int)p.first.fd() == SRC && (int)p.second.fd() == DST, "a request for other files");
	sym_assert(!g_copies, "a copy is made before all dedupe requests succeeded");
	off_t b = p.second.begin(), e = p.second.end();
	sym_assert(b >= g_begin && e <= g_end && b < e, "a destination leaves the extent");
	sym_assert((b - g_begin) % B == 0 && (e == g_end || (e - g_begin) % B == 0), "a destination begins or ends inside a block");
	sym_assert(p.first.size() == e - b, "the ranges differ in length");
	bool from = false;
	for (int m = 0; m < g_m; m++) {
		off_t at = 0x100000 + M[m].blk * 0x10000;
		from |= p.first.begin() - b == at && b >= g_begin + M[m].lo * B && e <= (M[m].hi == N ? g_end : g_begin + M[m].hi * B);
		if (p.first.begin() - b == at && b > g_begin + M[m].lo * B) sym_reach("trimmed");
	}
	sym_assert(from, "a request is not part of any match that was found");
	for (int i = 0; i < N; i++) if (g_begin + i * B >= b && g_begin + i * B < e) { sym_assert(!g_ded[i], "two destinations overlap"); g_ded[i] = true; }
	g_dedups++;
	if (!sym_pick("works", 2)) { g_failed++; sym_reach("failed"); return false; }
	return true;
}
void BeesContext::rewrite_file_range(const BeesFileRange &r) {
	sym_assert(!g_done && !g_failed, "a scan that should have ended goes on");
	sym_assert((int)r.fd() == DST && r.begin() >= g_begin && r.end() <= g_end && r.begin() < r.end(), "a copy outside the extent");
	sym_assert((r.begin() - g_begin) % B == 0 && (r.end() == g_end || (r.end() - g_begin) % B == 0), "a copy begins or ends inside a block");
	for (int i = 0; i < N; i++) if (g_begin + i * B >= r.begin() && g_begin + i * B < r.end()) { sym_assert(!g_cop[i] && !g_ded[i], "a block is copied twice or copied and deduped"); g_cop[i] = true; }
	g_copies++;
}
BeesFileRange BeesTempFile::make_hole(off_t n) { g_holes++; sym_assert(n == (g_end < g_size ? g_end : g_size) - g_begin, "a hole of another length than the extent"); return BeesFileRange(Fd(TMP), B, B + n); }
bool BeesHashTable::push_random_hash_addr(HashType h, AddrType a) {
	sym_assert(!g_done && !g_failed, "an entry is inserted although the scan ended early");
	int i = of_hash(h);
	sym_assert(!zero(i), "a zero block is inserted");
	sym_assert(uint64_t(a) == addr_of(i), "a hash is inserted with the address of another block");
	sym_assert(!g_ins[i], "a block is inserted twice");
	g_ins[i] = true; g_inserts++;
	return true;
}
bool BeesHashTable::push_front_hash_addr(HashType h, AddrType a) {
	of_hash(h);
	if (g_exit == 3) { sym_assert(BeesAddress(a).is_toxic() && (uint64_t(a) & ~BeesAddress::c_toxic_mask) == g_raddr, "a toxic match is not remembered as such"); g_front = 100; return true; }
	bool known = false;
	for (int m = 0; m < g_m; m++) known |= hash_of(M[m].blk) == uint64_t(h);
	sym_assert(known, "an entry that did not match is pushed to the front");
	sym_assert(!BeesAddress(a).is_toxic(), "an entry is marked toxic");
	g_front++;
	return false;
}
void BeesHashTable::erase_hash_addr(HashType h, AddrType a) {
	of_hash(h);
	int k = (uint64_t(a) >> 24) & 7;
	sym_assert(uint64_t(a) == g_raddr && (k == 2 || k == 4), "an entry that is not stale is erased");
	g_erased++;
}
void BeesContext::invalidate_addr(BeesAddress) { g_inv++; }
int main() {
	N = 1 + sym_pick("n", sym_param("n", 2));
	g_kinds = sym_param("kinds", 2); g_twice = sym_param("twice", 0);
	g_cells = g_kinds > 2 ? 2 : 1;
	g_begin = 16 * B;
	g_end = g_begin + N * B;
	if (sym_pick("partial", 2)) { g_end -= 96; sym_reach("eof"); }
	g_size = g_end;
	for (int i = 0; i < N; i++) g_b[i] = sym_bits("byte", 8);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5); ctx->m_home_fd = Fd(6);
	static char ht[sizeof(BeesHashTable)], tf[sizeof(BeesTempFile)];
	ctx->m_hash_table = std::shared_ptr<BeesHashTable>(std::shared_ptr<void>(), (BeesHashTable *)ht);
	ctx->m_tmpfile_pool.generator([]() { return std::shared_ptr<BeesTempFile>(std::shared_ptr<void>(), (BeesTempFile *)tf); });
	Extent e;
	e.m_begin = g_begin; e.m_end = g_end; e.m_physical = g_phys; e.m_physical_len = e.m_logical_len = N * B; e.m_offset = 0;
	e.m_flags = g_end % B ? FIEMAP_EXTENT_LAST : 0;
	int type = sym_pick("type", 4);
	bool pre = type == 2, hole = type == 3;
	g_comp = type == 1;
	if (g_comp) { e.m_flags |= FIEMAP_EXTENT_ENCODED; sym_reach("compressed"); }
	if (pre) { e.m_flags |= Extent::PREALLOC; g_holes = 0; for (int i = 0; i < N; i++) sym_assume(g_b[i] == 0); }
	if (hole) e.m_flags |= Extent::HOLE;
	BeesFileRange bfr(Fd(DST), g_begin, g_end);
	ctx->scan_one_extent(bfr, e);
	if (hole) { sym_assert(!g_inserts && !g_dedups && !g_copies && !g_holes, "something is done about a hole"); sym_reach("hole"); return 0; }
	if (pre && g_exit == 4) { sym_assert(!g_inserts && !g_dedups && !g_copies, "a replaced preallocation is scanned further"); sym_reach("prealloc"); return 0; }
	if (g_done) {
		sym_assert(!g_inserts && !g_dedups && !g_copies, "an extent that must be left alone is changed or remembered");
		if (g_exit == 3) sym_assert(g_front == 100, "a toxic match is not remembered as such");
		return 0;
	}
	if (g_failed) { sym_assert(!g_copies && !g_inserts, "a scan goes on after a failed request"); return 0; }
	int zeros = 0, ded = 0, cop = 0, ins = 0, data = 0, zcop = 0;
	off_t copied = 0, zeroed = 0, deduped = 0;
	for (int i = 0; i < N; i++) {
		bool z = zero(i);
		if (z) zeros++; else data++;
		if (g_ded[i]) { ded++; deduped += blen(i); }
		if (g_cop[i]) { cop++; copied += blen(i); if (z) { zcop++; zeroed += blen(i); } }
		if (g_ins[i]) ins++;
	}
	if (ded || cop) {
		sym_assert(!ins, "blocks of an extent that was replaced are remembered");
		sym_assert(ded + cop == N, "an extent is replaced in part only, so its space stays in use");
		sym_assert(ded || zcop, "an extent without matches or zeros is copied");
		sym_assert(copied - zeroed <= deduped + zeroed, "more is copied than is freed");
		if (g_comp) sym_assert(ded || !data, "zeros are punched out of a compressed extent");
		if (ded) sym_assert(g_front >= 1, "the matches are not pushed to the front");
		if (ded) sym_reach("deduped");
		if (cop) sym_reach("copied");
		if (zcop) sym_reach(data ? "zero" : "allzero");
	} else {
		sym_assert(ins == data, "a block of an unchanged extent is not remembered");
		if (ins) sym_reach("inserted");
		if (g_m) sym_reach("tooexpensive");
	}
	if (g_twice && sym_pick("rescan", 2)) {
		bool changed = ded || cop;
		int was = g_inserts;
		g_m = 0; g_dedups = g_copies = g_front = 0;
		for (int i = 0; i < N; i++) g_ins[i] = g_ded[i] = g_cop[i] = g_looked[i] = false;
		ctx->scan_one_extent(bfr, e);
		bool any = false;
		for (int i = 0; i < N; i++) any |= g_looked[i];
		if (!changed && !pre) { sym_assert(g_inserts == was && !any && !g_dedups && !g_copies, "an extent that was remembered is scanned again at once"); sym_reach("skipped"); }
		else { if (data) sym_assert(any, "an extent at a place that was replaced is not scanned"); sym_reach("rescanned"); }
	}
	return 0;
}
