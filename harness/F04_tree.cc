// MODS:
// JOB: offset kind=0 n=2 shards=16 depth=8
// JOB: inode kind=1 n=2 shards=16 depth=8
// JOB: extent kind=2 n=2 shards=16 depth=8
// JOB: data kind=3 n=2 shards=8 depth=6
// THOROUGH: offset3 kind=0 n=3 queries=1 shards=32 depth=9
// THOROUGH: offsetq kind=0 n=2 batches=3 queries=5 shards=32 depth=9
// THOROUGH: inodeq kind=1 n=2 batches=3 queries=5 shards=32 depth=9
// THOROUGH: dataq kind=3 n=2 batches=3 queries=5 shards=32 depth=9
// REACH: at lower next prev rlower found none other batch old skipped
// BOUND: item lookups over 16-bit keys (in blocks where the tree is keyed by address): up to 2 (3) matching items anywhere, items of lower and higher types, of other objects and of other trees around them, items outside the generation range, every lookup key around them, replies of at most one (or two) items; the data-only lookup with three block groups, each with data or metadata
// ASSUME: the tree does not change during a lookup
#include "fake_tree.h"
#include "crucible/btrfs-tree.h"
#include <sys/ioctl.h>
#include <unistd.h>
using namespace crucible;
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	if (req == BTRFS_IOC_FS_INFO) { btrfs_ioctl_fs_info_args *f = (btrfs_ioctl_fs_info_args *)arg; memset(f, 0, sizeof *f); f->sectorsize = f->nodesize = f->clone_alignment = 4096; return 0; }
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	return tree_search(arg);
}
static uint8_t D[8];
static void add(uint64_t tree, uint64_t obj, uint32_t type, uint64_t off, uint64_t transid) {
	int i = NT++;
	for (; i > 0; i--) {
		TItem &p = T[i - 1];
		if (p.tree < tree || (p.tree == tree && sym_concrete(key_lt(p.obj, p.type, p.off, obj, type, off)))) break;
		T[i] = p;
	}
	T[i] = TItem { tree, obj, type, off, transid, D, 8 };
}
static void addc(uint64_t off, btrfs_chunk *c) {
	add(BTRFS_CHUNK_TREE_OBJECTID, BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, off, 9);
	for (int i = 0; i < NT; i++) if (T[i].tree == BTRFS_CHUNK_TREE_OBJECTID && T[i].off == off) { T[i].data = (const uint8_t *)c; T[i].len = sizeof *c; }
}
int main() {
	int kind = sym_param("kind", 0), n = sym_pick("n", sym_param("n", 2) + 1);
	// every key below 256, with every order and every distance
	uint64_t pos[3];
	for (int i = 0; i < n; i++) {
		// block group lookups follow each item found: there the keys are chosen around the edges of the groups
		static const uint64_t E[] = { 0, 33, 63, 64, 127, 160, 255 };
		pos[i] = kind == 3 ? E[sym_pick("edge", 7)] : sym_bits("pos", 8);
		if (i) sym_assume(pos[i - 1] < pos[i]); }
	uint64_t scale = kind == 1 ? 1 : 4096;
	uint64_t tree = kind >= 2 ? BTRFS_EXTENT_TREE_OBJECTID : 300;
	uint32_t type = kind == 0 ? BTRFS_EXTENT_DATA_KEY : kind == 1 ? BTRFS_INODE_ITEM_KEY : BTRFS_EXTENT_ITEM_KEY;
	// block groups: blocks 0..63, 64..127 and 160..255, with data or metadata
	static btrfs_chunk C[3];
	static const uint64_t CB[] = { 0, 64, 160 }, CE[] = { 64, 128, 256 };
	bool isdata[3];
	if (kind == 3) {
		for (int c = 0; c < 3; c++) {
			isdata[c] = !sym_pick("metadata", 2);
			C[c].length = (CE[c] - CB[c]) * 4096;
			C[c].type = isdata[c] ? BTRFS_BLOCK_GROUP_DATA : BTRFS_BLOCK_GROUP_METADATA | BTRFS_BLOCK_GROUP_DUP;
		}
		for (int i = 0; i < n; i++) {
			bool in = false;
			for (int c = 0; c < 3; c++) in |= isdata[c] & (pos[i] >= CB[c]) & (pos[i] < CE[c]);
			sym_assume(in);
		}
	}
	int old = n ? sym_pick("old", n + 1) : 0;
	for (int i = 0; i < n; i++) {
		if (kind == 0) add(tree, 257, type, pos[i] * scale, old == i + 1 ? 3 : 9);
		else if (kind == 1) add(tree, pos[i], type, 0, old == i + 1 ? 3 : 9);
		else add(tree, pos[i] * scale, type, 8 * 4096, old == i + 1 ? 3 : 9);
	}
	if (old) sym_reach("old");
	int other = sym_pick("other", 4);
	// items a lookup must not return
	if (kind == 0) {
		if (other == 1) { add(tree, 257, BTRFS_INODE_ITEM_KEY, 0, 9); add(tree, 257, BTRFS_XATTR_ITEM_KEY, 77, 9); add(tree, 258, BTRFS_INODE_ITEM_KEY, 0, 9); }
		if (other == 2) { add(tree, 256, type, 40 * scale, 9); add(tree, 258, type, 40 * scale, 9); add(tree, 258, type, 41 * scale, 9); }
		if (other == 3) { add(301, 257, type, 40 * scale, 9); add(299, 257, type, 32 * scale, 9); }
	} else if (kind == 1) {
		if (other == 1) { add(tree, 33, BTRFS_EXTENT_DATA_KEY, 0, 9); add(tree, 33, BTRFS_EXTENT_DATA_KEY, 4096, 9); add(tree, 36, BTRFS_INODE_REF_KEY, 5, 9); add(tree, 100, BTRFS_EXTENT_DATA_KEY, 8192, 9); }
		if (other == 2) { add(tree, 20, BTRFS_XATTR_ITEM_KEY, 3, 9); add(tree, 32, BTRFS_XATTR_ITEM_KEY, 5, 9); add(tree, 32, BTRFS_EXTENT_DATA_KEY, 0, 9); }
		if (other == 3) { add(301, 40, type, 0, 9); add(299, 40, type, 0, 9); }
	} else {
		if (kind == 3) {
			for (int c = 0; c < 3; c++) {
				addc(CB[c] * 4096, &C[c]);
				if (!isdata[c] && other) { add(tree, (CB[c] + 2) * scale, BTRFS_METADATA_ITEM_KEY, 0, 9); if (other == 2) add(tree, (CB[c] + 40) * scale, BTRFS_METADATA_ITEM_KEY, 1, 9); sym_reach("skipped"); }
			}
			if (other == 3) return 0;
		}
		else if (other == 1) { for (int i = 0; i < 5; i++) add(tree, (33 + i) * scale, BTRFS_METADATA_ITEM_KEY, 0, 9); }
		else if (other == 2) { add(tree, 32 * scale, BTRFS_EXTENT_DATA_REF_KEY, 77, 9); add(tree, 60 * scale, 192, 4096, 9); }
		else if (other == 3) { add(1, 40 * scale, type, 4096, 9); add(7, 40 * scale, type, 4096, 9); }
	}
	if (other) sym_reach("other");
	g_batch = sym_pick("batch", sym_param("batches", 2));
	if (g_batch) sym_reach("batch");
	int op = sym_pick("op", 5);
	static const int64_t Q[] = { 33, 0, 1, 200, 1LL << 40 };
	int queries = sym_param("queries", 2);
	uint64_t q = Q[sym_pick("query", queries > 2 ? queries : op == 0 ? 1 : op == 3 ? 3 : 2)] * scale;
	BtrfsExtentDataFetcher f0(Fd(5)); BtrfsInodeFetcher f1(Fd(5)); BtrfsExtentItemFetcher f2(Fd(5));
	f0.tree(300); BtrfsDataExtentTreeFetcher f3(Fd(5)); f0.objectid(257); f1.tree(300);
	BtrfsTreeFetcher &f = kind == 0 ? (BtrfsTreeFetcher &)f0 : kind == 1 ? (BtrfsTreeFetcher &)f1 : kind == 3 ? (BtrfsTreeFetcher &)f3 : (BtrfsTreeFetcher &)f2;
	f.transid(5);
	BtrfsTreeItem got;
	switch (op) {
		case 0: got = f.at(q); sym_reach("at"); break;
		case 1: got = f.lower_bound(q); sym_reach("lower"); break;
		case 2: got = f.next(q); sym_reach("next"); break;
		case 3: got = f.prev(q); sym_reach("prev"); break;
		case 4: got = f.rlower_bound(q); sym_reach("rlower"); break;
	}
	int want = -1;
	for (int i = 0; i < n; i++) {
		if (old == i + 1) continue;
		uint64_t p = pos[i] * scale;
		if (sym_concrete(op == 0 ? p == q : op == 1 ? p >= q : op == 2 ? p > q : op == 3 ? p < q : p <= q)) if (want < 0 || op >= 3) want = i;
	}
	if (want < 0) { sym_assert(!got, "an item was found where there is none"); sym_reach("none"); return 0; }
	sym_assert(!!got, "an existing item was not found");
	sym_reach("found");
	sym_assert(got.type() == type, "an item of another type was returned");
	sym_assert(got.transid() == 9, "the wrong generation was returned");
	if (kind == 0) sym_assert(got.objectid() == 257 && got.offset() == pos[want] * scale, "the wrong item was returned");
	else sym_assert(got.objectid() == pos[want] * scale && got.offset() == (kind == 1 ? 0 : 8 * 4096), "the wrong item was returned");
	sym_assert(got.data().size() == 8, "the data of the item is wrong");
	return 0;
}
