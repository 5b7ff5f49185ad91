// MODS: src/bees-hash.cc src/bees-context.cc src/bees.cc src/bees-thread.cc src/bees-types.cc src/bees-roots.cc lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc lib/task.cc lib/time.cc lib/fs.cc lib/path.cc lib/uname.cc
// NATIVE: sched
// JOB: load nsym=2 shards=2 depth=3
// THOROUGH: load3 nsym=3 shards=8 depth=6
// JOB: once mode=1 pre=2

// THOROUGH: once3 mode=1 pre=3 shards=8 depth=6
// REACH: clean cleared emptied failed once
// BOUND: tables of three regions, any one of them loaded; 2 (thorough 3) fully symbolic entries at the first, last and middle places of the region's 8192, the others empty; a failing read; two threads looking up in the same region with at most 2 (3) preemptions
#include "hash_env.h"
#include <thread>
static size_t g_off, g_len;
static bool g_fail;
static void on_pread(size_t off, size_t n) { g_off = off; g_len = n; sym_yield(); }
static const uint64_t TOXIC = BeesAddress::c_toxic_mask;
int main() {
	if (sym_param("mode", 0)) {
		auto t = open_table(2);
		E.on_pread = on_pread;
		Cell *f = file_bucket(33);
		f[7] = Cell(33, 0x5000 | TOXIC);
		f[9] = Cell(33, 0x6000);
		size_t n1 = 99, n2 = 99;
		sym_sched(sym_param("pre", 2));
		std::thread other([&]() { auto v = t->find_cell(33); n1 = v.size(); if (n1 == 2) sym_assert(!(v[0].e_addr & TOXIC), "an entry loaded from disk is still marked toxic"); });
		auto v = t->find_cell(33); n2 = v.size();
		other.join();
		sym_assert(n1 == 2 && n2 == 2, "a lookup missed entries of a region being loaded");
		sym_assert(E.preads == 1, "a region was read more than once");
		sym_reach("once");
		return 0;
	}
	const size_t NX = 3;
	auto t = open_table(NX);
	size_t x = sym_pick("region", NX);
	for (size_t i = 0; i < NX; i++) { Cell *c = file_bucket(i * 32); c[3] = Cell(i * 32 + 0x1000, 0x100000 + i * 0x1000); }
	size_t n = sym_param("nsym", 3);
	static const size_t pos[] = { 0, 8191, 255, 4000 };
	Cell *f = file_bucket(x * 32);
	for (size_t i = 0; i < n; i++) f[pos[i]] = Cell(sym_bits("hash", 64), sym_bits("addr", 64));
	bool fail = sym_pick("fail", 2);
	E.on_pread = on_pread;
	Cell old[4] = { Cell(0,0), Cell(0,0), Cell(0,0), Cell(0,0) };
	for (size_t i = 0; i < n; i++) old[i] = f[pos[i]];
	if (fail) { E.file_size = x * EXT; }   // the read comes back short
	t->find_cell(x * 32 + 1);
	sym_assert(E.preads == 1 && g_off == x * EXT && g_len == EXT, "a region is not read from its own place in the file");
	t->find_cell(x * 32 + 7);
	t->erase_hash_addr(x * 32 + 9, 0x999000);
	sym_assert(E.preads == 1, "a loaded region was read again");
	sym_assert(E.pwrites == 0, "loading wrote to the table file");
	Cell *m = map_bucket(x * 32);
	if (fail) {
		for (size_t i = 0; i < n; i++) sym_assert(m[pos[i]].e_hash == 0 && m[pos[i]].e_addr == 0, "entries appeared from a failed read");
		sym_reach("failed");
		return 0;
	}
	Cell fixed(x * 32 + 0x1000, 0x100000 + x * 0x1000);
	sym_assert(m[3].e_hash == fixed.e_hash && m[3].e_addr == fixed.e_addr, "an unmarked entry was changed by loading");
	for (size_t i = 0; i < n; i++) {
		Cell o = old[i], got = m[pos[i]];
		if (!sym_concrete(o.e_addr & TOXIC)) {
			sym_assert((got.e_hash == o.e_hash) & (got.e_addr == o.e_addr), "an unmarked entry was changed by loading");
			sym_reach("clean");
			continue;
		}
		Cell c(o.e_hash, o.e_addr & ~TOXIC);
		bool dup = (c.e_hash == fixed.e_hash) & (c.e_addr == fixed.e_addr) | (c.e_hash == 0) & (c.e_addr == 0);
		for (size_t j = 0; j < n; j++) dup |= (c.e_hash == old[j].e_hash) & (c.e_addr == old[j].e_addr);
		if (sym_concrete(dup)) {
			sym_assert((got.e_hash == 0) & (got.e_addr == 0), "a marked entry that duplicates another one was not emptied");
			sym_reach("emptied");
		} else {
			sym_assert((got.e_hash == c.e_hash) & (got.e_addr == c.e_addr), "a marked entry did not just lose its mark");
			sym_reach("cleared");
		}
	}
	// everything else is as on disk
	size_t last = 0;
	for (size_t i = 0; i < 8192; i++) {
		bool special = i == 3;
		for (size_t j = 0; j < n; j++) special |= i == pos[j];
		if (special) { sym_assert(!memcmp(m + last, f + last, (i - last) * 16), "loading changed another entry"); last = i + 1; }
	}
	for (size_t i = 0; i < NX; i++) if (i != x) { static const Cell z(0, 0); sym_assert(!memcmp(map_bucket(i * 32) + 3, &z, 16), "a region was filled without being read"); }
}
