// MODS: src/bees.cc src/bees-context.cc src/bees-types.cc lib/extentwalker.cc
// JOB: rewrite n=3 shards=8 depth=5
// THOROUGH: rewrite4 n=4 shards=16 depth=7
// REACH: moved mixed hole compressed zero eof nocopy noreplace inserted unchanged
// BOUND: ranges of 1 to 3 (4) blocks at the start, middle or end of a file that ends on or inside a block; every content of the first and last byte of every block; before and after the references are moved every block in the old or a new extent, plain or compressed, or a hole if it is zero, with extents merging where they touch; copying or moving the references may fail
// ASSUME: the copy in the temporary file is D05, moving the references is D06; the file does not change while it is rewritten
#include "fake_tree.h"
#include "bees.h"
#include <sys/stat.h>
#include <stdexcept>
using namespace crucible;
static const off_t B = 4096, TB = 9 * B;
static const int DST = 31, TMP = 77;
static int N, g_first, g_n;                 // blocks in the file, first block and blocks of the range
static off_t g_size;
static uint8_t g_a[8], g_z[8];
static int g_kind[8];                        // 0: old extent 1: new 2: compressed, new 3: hole
static int g_step;                           // 1: copied 2: replaced
static bool g_ins[8];
static off_t blen(int i) { return g_size - i * B < B ? g_size - i * B : B; }
static off_t g_end;
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int) { return 0; }
int fstat64(int fd, struct stat64 *st) throw() {
	memset(st, 0, sizeof *st);
	st->st_ino = 257; st->st_mode = S_IFREG | 0644;
	if (fd == DST) st->st_size = g_size;
	else { sym_assert(fd == TMP, "an unknown descriptor is used"); st->st_size = TB + 16 * B; }
	return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	if (fd == TMP) off += g_first * B - TB;
	else sym_assert(fd == DST, "an unknown descriptor is read");
	int i = off / B;
	sym_assert(off >= 0 && off % B == 0 && i >= g_first && i < g_first + g_n && (off_t)n == blen(i), "something other than a block of the range is read");
	memset(buf, 0, n);
	((uint8_t *)buf)[0] = g_a[i];
	((uint8_t *)buf)[n - 1] = g_z[i];
	return n;
}
int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	return tree_search(arg);
}
}
namespace crucible { uint64_t btrfs_get_root_id(int) { return 300; } }
void bees_readahead(int, off_t, size_t) {}
BeesHash::BeesHash(const uint8_t *p, size_t n) : m_hash(0x10000 | p[0] | p[n - 1] << 8) {}
static btrfs_file_extent_item X[8];
static void layout() {
	NT = 0;
	for (int i = 0; i < N; ) {
		int k = g_kind[i], e = i + 1;
		while (e < N && g_kind[e] == k) e++;
		if (k != 3) {
			auto &x = X[NT];
			memset(&x, 0, sizeof x);
			x.type = BTRFS_FILE_EXTENT_REG;
			x.compression = k == 2;
			x.disk_bytenr = k == 0 ? 0x100000 : k == 1 ? 0x400000 : 0x800000;
			x.disk_num_bytes = k == 2 ? B : N * B;
			x.ram_bytes = N * B;
			x.offset = i * B;
			x.num_bytes = (e - i) * B;
			T[NT] = TItem { 300, 257, BTRFS_EXTENT_DATA_KEY, (uint64_t)i * B, 9, (const uint8_t *)&x, sizeof x };
			NT++;
		}
		i = e;
	}
}
static bool zero(int i) { return sym_concrete((g_a[i] == 0) & (g_z[i] == 0)); }
static uint64_t addr_of(int i) {
	uint64_t a = g_kind[i] == 0 ? 0x100000 + i * B : g_kind[i] == 1 ? 0x400000 + i * B : 0x800000 | BeesAddress::c_compressed_mask | (i + 1);
	if (blen(i) != B) a |= BeesAddress::c_eof_mask;
	return a;
}
static std::runtime_error g_err("fault");
BeesFileRange BeesTempFile::make_copy(const BeesFileRange &r) {
	sym_assert(g_step == 0, "a range is copied twice");
	sym_assert((int)r.fd() == DST && r.begin() == g_first * B && r.end() == g_end, "something other than the range is copied");
	if (sym_pick("nocopy", 2)) { sym_reach("nocopy"); throw g_err; }
	g_step = 1;
	return BeesFileRange(Fd(TMP), TB, TB + r.size());
}
BeesResolver::BeesResolver(shared_ptr<BeesContext>, BeesAddress a) : m_addr(a), m_bior_count(1) {
	sym_assert(g_step == 1, "references are looked up before there is a copy");
	sym_assert(uint64_t(a) == addr_of(g_first), "the references of another block are looked up");
}
void BeesResolver::replace_src(const BeesFileRange &r) {
	sym_assert(g_step == 1, "references are moved twice or before there is a copy");
	sym_assert((int)r.fd() == TMP && r.begin() == TB && r.size() == blen(g_first), "the references are not moved to the copy");
	if (sym_pick("noreplace", 2)) { sym_reach("noreplace"); throw g_err; }
	g_step = 2;
	bool all = true, any = false;
	for (int i = g_first; i < g_first + g_n; i++) {
		bool z = zero(i);
		int was = g_kind[i];
		g_kind[i] = z ? sym_pick("zero_to", 3) : sym_pick("data_to", 3);
		if (z && g_kind[i] == 2) g_kind[i] = 3;
		if (g_kind[i] != was) any = true; else all = false;
		if (g_kind[i] == 2) sym_reach("compressed");
		if (g_kind[i] == 3) sym_reach("hole");
	}
	sym_reach(all ? "moved" : any ? "mixed" : "unchanged");
	layout();
}
bool BeesHashTable::push_random_hash_addr(HashType h, AddrType a) {
	sym_assert(g_step == 2, "an entry is inserted although nothing was moved");
	int i = -1;
	for (int k = g_first; k < g_first + g_n; k++) if (addr_of(k) == uint64_t(a) && g_kind[k] != 3) i = k;
	sym_assert(i >= 0, "an entry is inserted with an address that is not in the range now");
	sym_assert(uint64_t(h) == (0x10000u | g_a[i] | (unsigned)g_z[i] << 8), "an entry is inserted with the hash of another block");
	sym_assert(!zero(i), "a zero block is inserted");
	sym_assert(!g_ins[i], "a block is inserted twice");
	g_ins[i] = true;
	sym_reach("inserted");
	return true;
}
int main() {
	g_n = 1 + sym_pick("n", sym_param("n", 3));
	g_first = sym_pick("before", 2);
	int after = sym_pick("after", 2);
	N = g_first + g_n + after;
	g_size = N * B;
	if (sym_pick("partial", 2)) { g_size -= 96; sym_reach("eof"); }
	for (int i = g_first; i < g_first + g_n; i++) { g_a[i] = sym_bits("first", 8); g_z[i] = sym_bits("last", 8); if (blen(i) == 1) g_z[i] = g_a[i]; }
	bool comp = sym_pick("comp", 2);
	for (int i = 0; i < N; i++) g_kind[i] = comp && i >= g_first && i < g_first + g_n ? 2 : 0;
	layout();
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5); ctx->m_home_fd = Fd(6);
	static char ht[sizeof(BeesHashTable)], tf[sizeof(BeesTempFile)];
	ctx->m_hash_table = std::shared_ptr<BeesHashTable>(std::shared_ptr<void>(), (BeesHashTable *)ht);
	ctx->m_tmpfile_pool.generator([]() { return std::shared_ptr<BeesTempFile>(std::shared_ptr<void>(), (BeesTempFile *)tf); });
	off_t end = (g_first + g_n) * B;
	g_end = end < g_size ? end : g_size;
	// the scan passes ranges that end with the extent, which may be rounded up to a block
	BeesFileRange bfr(Fd(DST), g_first * B, sym_pick("rounded", 2) ? end : g_end);
	bool threw = false;
	try { ctx->rewrite_file_range(bfr); } catch (const std::runtime_error &) { threw = true; }
	sym_assert(threw == (g_step != 2), "a failure is not reported, or one that did not happen is");
	for (int i = g_first; i < g_first + g_n; i++) {
		bool want = g_step == 2 && g_kind[i] != 3 && !zero(i);
		sym_assert(g_ins[i] == want, "a block that was moved is not remembered");
		if (g_step == 2 && zero(i)) sym_reach("zero");
	}
	return 0;
}
