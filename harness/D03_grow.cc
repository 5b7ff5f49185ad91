// MODS: src/bees.cc src/bees-types.cc lib/extentwalker.cc
// JOB: two same=0 shards=8 depth=6
// JOB: same same=1 shards=8 depth=6
// REACH: grown back forth differs sameplace zero zerocompressed zerohole toxic bof overlap eof malign hole edge constrained partial
// BOUND: two files of 4 blocks or one of 6, ending on or inside a block; every starting pair of blocks; every content of the first, second and last byte of every block (the rest zero; the second does not enter the hash, so that hashes collide); every block of the source in its own extent, stored apart from or at the same place as the facing block, compressed or not, or a hole; the destination in one extent, in two, in two with a hole between them, or preallocated; every byte value with a toxic hash
// ASSUME: the files do not change while the match grows; addresses are reported as in T01 and F05
#include "fake_tree.h"
#include "bees.h"
#include <sys/stat.h>
using namespace crucible;
static const off_t B = 4096;
static int g_same, N;                      // blocks per file
static off_t g_size[2];
static uint8_t g_a[2][6], g_m[2][6], g_z[2][6];   // first, second and last byte of every block; the hash leaves out the second
static uint64_t g_addr[2][6];              // physical address, 0: hole
static bool g_comp[2][6];
static uint8_t g_tox;
static int which(int fd) { sym_assert(fd == 31 || fd == 42, "an unknown descriptor is used"); return fd == 31 ? 0 : 1; }
static off_t blen(int f, int i) { return g_size[f] - i * B < B ? g_size[f] - i * B : B; }
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int) { return 0; }
int fstat64(int fd, struct stat64 *st) throw() {
	int f = which(fd);
	memset(st, 0, sizeof *st);
	st->st_ino = 257 + f; st->st_size = g_size[f]; st->st_mode = S_IFREG | 0644;
	return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	int f = which(fd);
	sym_assert(off >= 0 && off % B == 0 && off < g_size[f], "a read outside the file");
	int i = off / B;
	sym_assert((off_t)n == blen(f, i), "a block is read in part");
	memset(buf, 0, n);
	((uint8_t *)buf)[0] = g_a[f][i];
	((uint8_t *)buf)[1] = g_m[f][i];
	((uint8_t *)buf)[n - 1] = g_z[f][i];
	return n;
}
int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	return tree_search(arg);
}
}
namespace crucible { uint64_t btrfs_get_root_id(int fd) { which(fd); return 300; } }
void bees_readahead(int, off_t, size_t) {}
void bees_readahead_pair(int, off_t, size_t, int, off_t, size_t) {}
BeesAddress::BeesAddress(int fd, off_t off) : m_addr(ZERO) {
	int f = which(fd);
	sym_assert(off >= 0 && off % B == 0 && off < g_size[f], "an address outside the file");
	int i = off / B;
	if (!g_addr[f][i]) m_addr = HOLE;
	else m_addr = g_comp[f][i] ? g_addr[f][i] | c_compressed_mask | 1 : g_addr[f][i];
}
BeesHash::BeesHash(const uint8_t *p, size_t n) : m_hash(0x10000 | p[0] | p[n - 1] << 8) {}
std::vector<BeesHashTable::Cell> BeesHashTable::find_cell(HashType hash) {
	std::vector<Cell> rv;
	rv.push_back(Cell(hash, 0x7000000));
	BeesAddress a(0x8000000);
	if (sym_concrete((hash & 0xff) == g_tox)) a.set_toxic();
	rv.push_back(Cell(hash, a));
	rv.push_back(Cell(hash, 0x9000000));
	return rv;
}
static btrfs_file_extent_item X[6];
static void item(int i, off_t begin, off_t len, uint64_t disk, bool pre) {
	X[i].type = pre ? BTRFS_FILE_EXTENT_PREALLOC : BTRFS_FILE_EXTENT_REG;
	X[i].disk_bytenr = disk; X[i].num_bytes = X[i].ram_bytes = X[i].disk_num_bytes = len;
	T[NT++] = TItem { 300, (uint64_t)(257 + (g_same ? 0 : 1)), BTRFS_EXTENT_DATA_KEY, (uint64_t)begin, 9, (const uint8_t *)&X[i], sizeof X[i] };
}
int main() {
	g_same = sym_param("same", 0);
	N = g_same ? 6 : 4;
	int d = g_same ? 0 : 1;                   // the file of the destination
	int files = g_same ? 1 : 2;
	for (int f = 0; f < files; f++) {
		g_size[f] = N * B;
		if (sym_pick("eof", 2)) { g_size[f] -= f ? 2000 : 3000; }
	}
	if (!g_same && g_size[0] != N * B && g_size[1] != N * B && sym_pick("eofsame", 2)) g_size[1] = g_size[0];
	if (!g_same && sym_pick("shorter", 2)) { g_size[0] -= B; sym_reach("partial"); }
	for (int f = 0; f < files; f++) for (int i = 0; i < N; i++) { g_a[f][i] = sym_bits("first", 8); g_m[f][i] = sym_bits("second", 8); g_z[f][i] = sym_bits("last", 8); }
	g_tox = sym_bits("toxic", 8);
	// where the pair starts
	int s0, d0;
	if (g_same) { static const int S[][2] = { {1, 4}, {4, 1}, {0, 3}, {3, 5}, {5, 2}, {2, 3} }; int k = sym_pick("start", 6); s0 = S[k][0]; d0 = S[k][1]; }
	else { s0 = sym_pick("src", N - (g_size[0] <= (N - 1) * B)); static const int D[] = { 1, 2, 3, 0 }; d0 = D[sym_pick("dst", 4)]; }
	// a starting block is a whole block
	if (s0 * B + B > g_size[0] || d0 * B + B > g_size[d]) return 0;
	for (int i = 0; i < N; i++) for (int f = 0; f < 2; f++) { g_addr[f][i] = 0x100000 * (f * 8 + i + 1); g_comp[f][i] = false; }
	int lay = sym_pick("layout", 4);
	// destination extents
	int cut = g_same ? 4 : 2;
	int e_begin[6], e_end[6];
	bool hole[6] = {};
	for (int i = 0; i < N; i++) { e_begin[i] = 0; e_end[i] = N; }
	uint64_t base = g_same ? 0x100000 : 0x900000;
	if (lay == 1 || lay == 2) {
		item(0, 0, cut * B, base, false);
		int from = cut + (lay == 2);
		if (lay == 2) { hole[cut] = true; g_addr[d][cut] = 0; g_a[d][cut] = g_m[d][cut] = g_z[d][cut] = 0; }
		item(1, from * B, (N - from) * B, base + 0x4000000, false);
		for (int i = 0; i < N; i++) { e_begin[i] = i < cut ? 0 : i < from ? cut : from; e_end[i] = i < cut ? cut : i < from ? from : N; }
	} else item(0, 0, N * B, base, lay == 3);
	if (hole[d0]) return 0;
	// one block of the source that is special
	int special = sym_pick("special", 5);
	int at = sym_pick("at", 3);           // the block before, the block itself, the block after
	int sb = s0 - 1 + at, db = d0 - 1 + at;
	if (special && sb >= 0 && sb < N && db >= 0 && db < N && (at != 1 || special == 2)) switch (special) {
		case 1: if (g_addr[d][db]) g_addr[0][sb] = g_addr[d][db]; break;
		case 2: g_comp[0][sb] = true; break;
		case 3: g_comp[0][sb] = true; if (g_addr[d][db]) g_addr[0][sb] = g_addr[d][db]; break;
		case 4: if (!g_same) { g_addr[0][sb] = 0; g_a[0][sb] = g_m[0][sb] = g_z[0][sb] = 0; } break;
	}
	bool constrained = sym_pick("constrained", 2);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5); ctx->m_home_fd = Fd(6);
	static char ht[sizeof(BeesHashTable)];
	ctx->m_hash_table = std::shared_ptr<BeesHashTable>(std::shared_ptr<void>(), (BeesHashTable *)ht);
	int dfd = g_same ? 31 : 42;
	BeesRangePair p(BeesFileRange(Fd(31), s0 * B, s0 * B + B), BeesFileRange(Fd(dfd), d0 * B, d0 * B + B));
	bool rv = p.grow(ctx, constrained);
	off_t b0 = p.first.begin(), e0 = p.first.end(), b1 = p.second.begin(), e1 = p.second.end();
	sym_assert(e0 - b0 == e1 - b1, "the ranges differ in length");
	sym_assert(b0 <= s0 * B && e0 >= s0 * B + B && b1 <= d0 * B && e1 >= d0 * B + B, "the match lost its first block");
	sym_assert(s0 * B - b0 == d0 * B - b1, "the ranges moved against each other");
	sym_assert(b0 % B == 0 && b1 % B == 0, "a range begins inside a block");
	sym_assert(b0 >= 0 && b1 >= 0 && e0 <= g_size[0] && e1 <= g_size[d], "a range leaves its file");
	sym_assert(e0 % B == 0 || (e0 == g_size[0] && e1 == g_size[d]), "a range ends inside a block that is not the last of both files");
	if (g_same) sym_assert(e0 <= b1 || e1 <= b0, "the ranges overlap");
	sym_assert(rv == (e0 - b0 > B), "the result does not tell whether the match grew");
	sym_assert(b1 >= e_begin[d0] * B, "the match grows backward into another extent");
	if (constrained) { sym_assert(e1 <= e_end[d0] * B, "a constrained match grows into another extent"); sym_reach("constrained"); }
	// every block that was added
	int lo = (b0 - s0 * B) / B, hi = (e0 - s0 * B + B - 1) / B;     // relative to the start, [lo, hi)
	auto ok = [&](int k, const char *&why) -> bool {
		int i = s0 + k, j = d0 + k;
		why = "differs";
		if (sym_concrete((g_a[0][i] != g_a[d][j]) | (g_m[0][i] != g_m[d][j]) | (g_z[0][i] != g_z[d][j]))) return false;
		why = "sameplace";
		if (g_addr[0][i] == g_addr[d][j]) return false;
		why = "zero";
		bool z = sym_concrete((g_a[0][i] == 0) & (g_m[0][i] == 0) & (g_z[0][i] == 0));
		if (z && g_addr[0][i] && !g_comp[0][i]) return false;
		if (z && g_comp[0][i]) sym_reach("zerocompressed");
		if (z && !g_addr[0][i]) sym_reach("zerohole");
		why = "toxic";
		if (sym_concrete(g_a[0][i] == g_tox)) return false;
		return true;
	};
	const char *why;
	for (int k = lo; k < hi; k++) sym_assert(!hole[d0 + k], "the match grows into a hole of the destination");
	for (int k = lo; k < hi; k++) if (k && !ok(k, why)) {
		sym_assert(why[0] != 'd', "a block was added that differs");
		sym_assert(why[0] != 's', "a block was added that is stored at the same place");
		sym_assert(why[0] != 'z', "a zero block was added where zeros are excluded");
		sym_assert(why[0] != 't', "a block with a toxic hash was added");
	}
	if (rv) sym_reach("grown");
	if (lo) sym_reach("back");
	if (hi > 1) sym_reach("forth");
	// growth ends only for a reason
	int i = s0 + lo - 1, j = d0 + lo - 1;
	if (j < e_begin[d0]) ;
	else if (i < 0) sym_reach("bof");
	else if (g_same && (i < j + (hi - lo + 1) && j < i + (hi - lo + 1)) && (i < j ? i + (1 - lo + 1) > j : j + (1 - lo + 1) > i)) sym_reach("overlap");
	else { sym_assert(!ok(lo - 1, why), "a matching block before the match was not added"); sym_reach(why); }
	i = s0 + hi; j = d0 + hi;
	if (e0 % B) sym_reach("eof");
	else if (constrained && j >= e_end[d0]) sym_reach("edge");
	else if (i * B >= g_size[0] || j * B >= g_size[d]) sym_reach("eof");
	else if (hole[j]) sym_reach("hole");
	else if (blen(0, i) != blen(d, j)) sym_reach("malign");
	else if (g_same && (s0 + lo < d0 + lo ? i >= d0 + lo : j >= s0 + lo)) sym_reach("overlap");
	else { sym_assert(!ok(hi, why), "a matching block after the match was not added"); sym_reach(why); }
	return 0;
}
