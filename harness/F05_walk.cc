// MODS:
// JOB: shape n=3 shards=8 depth=7
// JOB: fields n=2 fields=1 shards=8 depth=6
// JOB: many n=5 few=1 shards=4 depth=4
// JOB: long min=17 n=20 few=2 shards=8 depth=7
// THOROUGH: shape4 n=4 shards=32 depth=8
// THOROUGH: long24 min=21 n=24 few=2 shards=16 depth=8
// THOROUGH: many7 n=7 few=1 shards=16 depth=8
// REACH: walked back empty hole hole0 explicit tailhole lastinode nextinode truncated beyond prealloc compressed obscured inline negoffset resumed
// BOUND: files of up to 3 (4) extent items of 1 or 33 blocks, adjacent or 1, 40 or 98305 blocks apart, of up to 5 (7) items of 33 blocks, and of 17 to 20 (24) items with one hole between them; explicit hole items; file sizes ending inside or at the end of the last item, or up to 3 blocks after it, with items beyond the end; the file being the last in its subvolume or not; every block as seek position; every field of up to 2 items (type, compression, address, offset, lengths)
// ASSUME: the file does not change during the walk; items of a file do not overlap and are block-aligned; inline items stand alone
#include "fake_tree.h"
#include "crucible/extentwalker.h"
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <unistd.h>
using namespace crucible;
extern "C" int close(int) { return 0; }
static off_t g_size;
extern "C" int fstat64(int fd, struct stat64 *st) throw() { sym_assert(fd == 7, "another file is examined"); memset(st, 0, sizeof *st); st->st_size = g_size; st->st_ino = 257; st->st_mode = S_IFREG; return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (req == BTRFS_IOC_INO_LOOKUP) { sym_assert(fd == 7, "the subvolume of another file is used"); ((btrfs_ioctl_ino_lookup_args *)arg)->treeid = 300; return 0; }
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	return tree_search(arg);
}
static const uint64_t B = 4096;
struct Item { uint64_t begin, len, disk, ram, off; uint8_t type, comp; bool hole; };
static Item I[24];
static int g_n;
static btrfs_file_extent_item X[24];
static btrfs_inode_item Y;
static void check(const Extent &e) {
	// the item covering the first byte
	int k = -1;
	for (int i = 0; i < g_n; i++) if ((uint64_t)e.m_begin >= I[i].begin && (uint64_t)e.m_begin < I[i].begin + I[i].len) k = i;
	uint64_t vis = g_size;
	if (k < 0) {
		sym_assert((e.m_flags & Extent::HOLE) != 0, "a part without an item is not reported as a hole");
		sym_assert(e.m_physical == 0, "a hole has a physical address");
		for (int i = 0; i < g_n; i++) sym_assert(!(I[i].begin < (uint64_t)e.m_end && I[i].begin + I[i].len > (uint64_t)e.m_begin), "a hole covers an item");
		sym_reach(e.m_begin ? "hole" : "hole0");
		return;
	}
	Item &x = I[k];
	uint64_t end = x.begin + x.len < vis ? x.begin + x.len : vis;
	sym_assert((uint64_t)e.m_begin == x.begin, "an extent begins in the middle of its item");
	sym_assert((uint64_t)e.m_end == end, "an extent does not end with its item");
	if (end < x.begin + x.len) sym_reach("truncated");
	bool hole = e.m_flags & Extent::HOLE;
	if (x.type == BTRFS_FILE_EXTENT_INLINE) {
		sym_assert((e.m_flags & FIEMAP_EXTENT_DATA_INLINE) != 0, "inline data is not flagged");
		sym_reach("inline");
		return;
	}
	sym_assert(hole == sym_concrete(x.disk == 0), hole ? "data is reported as a hole" : "an explicit hole is reported as data");
	bool pre = e.m_flags & Extent::PREALLOC;
	sym_assert(pre == sym_concrete(x.type == BTRFS_FILE_EXTENT_PREALLOC), "the preallocated flag is wrong");
	if (pre) sym_reach("prealloc");
	bool comp = e.m_flags & FIEMAP_EXTENT_ENCODED;
	sym_assert(comp == sym_concrete(x.comp != 0), "the compressed flag is wrong");
	sym_assert(e.compressed() == comp, "the compressed flag is wrong");
	if (comp) sym_reach("compressed");
	sym_assert(!(e.m_flags & FIEMAP_EXTENT_DATA_INLINE), "an extent is flagged as inline");
	if (hole) { sym_reach("explicit"); return; }
	sym_assert(e.m_physical == (comp ? x.disk : x.disk + x.off), "the physical address is wrong");
	sym_assert(e.bytenr() == x.disk, "the address of the whole extent is wrong");
	sym_assert((uint64_t)e.m_offset == x.off, "the offset in the extent is wrong");
	sym_assert((uint64_t)e.m_physical_len == x.ram, "the length of the whole extent is wrong");
	sym_assert((uint64_t)e.m_logical_len == x.len, "the length of the visible part is wrong");
	bool obscured = e.m_flags & Extent::OBSCURED;
	sym_assert(obscured == sym_concrete((x.ram != x.len) | (x.off != 0)), "the obscured flag is wrong");
	if (obscured) sym_reach("obscured");
	if (sym_concrete((int64_t)x.off < 0)) sym_reach("negoffset");
}
int main() {
	int lo = sym_param("min", 0), n = lo + sym_pick("n", sym_param("n", 4) + 1 - lo);
	bool fields = sym_param("fields", 0), few = sym_param("few", 0), many = sym_param("few", 0) == 2;
	uint64_t pos = 0;
	bool inl = fields && n == 1 && sym_pick("inline", 2);
	for (int i = 0; i < n; i++) {
		Item &x = I[i];
		if (!few && !inl && (fields ? i == 1 : sym_pick("gap", 2))) pos += (i == 1 ? 40 : i == 2 ? 0x18001 : 1) * B;
		if (many && i == 18) pos += 5 * B;
		x.begin = pos;
		x.len = ((many ? i % 3 == 1 : few || (fields && i) || (!fields && sym_pick("len", 2))) ? 33 : 1) * B;
		x.disk = 0x10000000 * (i + 1); x.ram = x.len; x.off = 0; x.type = BTRFS_FILE_EXTENT_REG; x.comp = 0;
		if (inl) { x.type = BTRFS_FILE_EXTENT_INLINE; x.len = x.ram = sym_pick("inlinelen", 2) ? 100 : 4095; x.comp = sym_bits("comp", 8); }
		else if (fields) {
			x.type = sym_pick("prealloc", 2) ? BTRFS_FILE_EXTENT_PREALLOC : BTRFS_FILE_EXTENT_REG;
			x.comp = sym_bits("comp", 8);
			x.disk = sym_bits("disk", 64); x.off = sym_bits("off", 64); x.ram = sym_bits("ram", 63);
			if (sym_concrete(x.disk != 0)) { sym_assume(x.ram > 0); sym_assume((int64_t)x.off < (int64_t)x.ram); }
		} else if (i == 1 && sym_pick("explicit", 2)) x.disk = 0;
		pos += x.len;
	}
	g_n = n;
	for (int i = 0; i < n; i++) {
		Item &x = I[i];
		memset(&X[i], 0, sizeof X[i]);
		X[i].type = x.type; X[i].compression = x.comp; X[i].disk_bytenr = x.disk; X[i].offset = x.off; X[i].ram_bytes = x.ram; X[i].num_bytes = x.len; X[i].disk_num_bytes = x.ram;
		if (inl) X[i].ram_bytes = x.len;
		T[NT++] = TItem { 300, 257, BTRFS_EXTENT_DATA_KEY, x.begin, 9, (uint8_t *)&X[i], sizeof X[i] };
	}
	if (sym_pick("nextinode", 2)) { T[NT++] = TItem { 300, 258, BTRFS_INODE_ITEM_KEY, 0, 9, (uint8_t *)&Y, sizeof Y }; sym_reach("nextinode"); }
	else sym_reach("lastinode");
	g_size = pos;
	if (inl) ;
	else switch (n ? sym_pick("size", 4) : 2) {
		case 1: g_size -= 1000; break;
		case 2: g_size += 3 * B - 96; sym_reach("tailhole"); break;
		case 3: g_size = I[n - 1].begin; if (n > 1 && I[n - 1].begin == I[n - 2].begin + I[n - 2].len) g_size -= 10; sym_reach("beyond"); break;
	}
	if (g_size <= 0) return 0;
	if (!n) sym_reach("empty");
	uint64_t blocks = (g_size + B - 1) / B;
	uint64_t at;
	// every block near the edges of items, and one in the middle
	{
		uint64_t c[128]; int m = 0;
		c[m++] = 0;
		for (int i = 0; i < n; i++) { if (many && i > 1 && i < 14) continue; uint64_t s = I[i].begin / B, e = s + (I[i].len + B - 1) / B; c[m++] = s; c[m++] = e - 1; c[m++] = e; if (e - s > 2) c[m++] = s + 17; if (s) c[m++] = s - 1; }
		c[m++] = blocks - 1;
		int u = 0;
		for (int i = 0; i < m; i++) { bool dup = c[i] >= blocks; for (int j = 0; j < u; j++) dup |= c[j] == c[i]; if (!dup) c[u++] = c[i]; }
		at = c[sym_pick("at", u)];
	}
	BtrfsExtentWalker ew(Fd(7), at * B, Fd(5));
	Extent e = ew.current();
	sym_assert(e.m_begin <= (off_t)(at * B) && e.m_end > (off_t)(at * B), "the extent does not contain the position that was asked for");
	check(e);
	int k = 0;
	while (ew.next()) {
		Extent f = ew.current();
		sym_assert(f.m_begin == e.m_end, "an extent does not begin where the previous one ended");
		sym_assert(f.m_end > f.m_begin, "an empty extent");
		check(f);
		e = f;
		sym_assert(k++ < 40, "the walk does not end");
	}
	sym_assert(e.m_end == g_size, "the walk ends before the end of the file");
	sym_reach("walked");
	if (k > 5) sym_reach("resumed");
	if (!inl && sym_pick("back", 2)) {
		while (ew.prev()) {
			Extent f = ew.current();
			sym_assert(f.m_end == e.m_begin, "an extent does not end where the next one began");
			check(f);
			e = f;
			sym_assert(k-- > -40, "the walk does not end");
		}
		sym_assert(e.m_begin == 0, "the walk back ends before the beginning of the file");
		sym_reach("back");
	}
	return 0;
}
