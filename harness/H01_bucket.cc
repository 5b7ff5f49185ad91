// MODS: src/bees-hash.cc src/bees-context.cc src/bees.cc src/bees-thread.cc src/bees-types.cc src/bees-roots.cc lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc lib/task.cc lib/time.cc lib/fs.cc lib/path.cc lib/uname.cc
// JOB: find op=0
// JOB: erase op=1
// JOB: front op=2 shards=2 depth=4
// JOB: random op=3 shards=4 depth=6
// JOB: seq op=4 shards=8 depth=6
// THOROUGH: find6 op=0 nsym=6 shards=4 depth=5
// THOROUGH: front6 op=2 nsym=6 shards=8 depth=6
// THOROUGH: random5 op=3 nsym=5 wide=1 shards=16 depth=8
// THOROUGH: erase6 op=1 nsym=6 shards=4 depth=5
// REACH: find erase front random seq full notfull found notfound
// BOUND: buckets of the real 256 entries in a table of two regions (64 buckets); 4 entries (thorough 5-6), at the start, middle and end of the bucket and around the insertion point, are fully symbolic, the other entries are fixed distinct ones or all empty; hash and address fully symbolic; one operation on an arbitrary bucket, or an insert followed by another operation on a second symbolic entry
// ASSUME: entries of a bucket are distinct unless empty and fully empty when their address is 0 (established by the operations themselves, which the harness also checks)
#include "hash_env.h"
static size_t NS;
static size_t g_pos[8];

static std::vector<Cell> before(1, Cell(0, 0)), after(1, Cell(0, 0));
static bool eq(const Cell &a, const Cell &b) { return (bool)sym_concrete((a.e_hash == b.e_hash) & (a.e_addr == b.e_addr)); }
static bool zero(const Cell &a) { return (bool)sym_concrete((a.e_hash == 0) & (a.e_addr == 0)); }
static void load(std::vector<Cell> &v, size_t b) { v.assign(map_bucket(b), map_bucket(b) + CPB); }
static size_t index_of(const std::vector<Cell> &v, const Cell &c) {
	for (size_t i = 0; i < CPB; i++) if (eq(v[i], c)) return i;
	return CPB;
}
static bool has_empty(const std::vector<Cell> &v) { for (auto &c : v) if (zero(c)) return true; return false; }
// the entries of a (without c and without empty places) are, in order, those of b; except that drop of them may be missing
static void check_rest(const std::vector<Cell> &a, const std::vector<Cell> &b, const Cell &c, size_t drop) {
	size_t j = 0, dropped = 0, cs = 0;
	for (size_t i = 0; i < CPB; i++) {
		if (zero(a[i]) || eq(a[i], c)) continue;
		size_t k = j;
		while (k < CPB && (zero(b[k]) || eq(b[k], c))) k++;
		if (k < CPB && eq(a[i], b[k])) { j = k + 1; continue; }
		dropped++;
		sym_assert(dropped <= drop, "another entry of the bucket was lost, changed or reordered");
		size_t last = CPB;
		for (size_t m = i + 1; m < CPB; m++) if (!zero(a[m]) && !eq(a[m], c)) last = m;
		sym_assert(last == CPB, "the entry dropped from a full bucket is not the least recent one");
	}
	while (j < CPB) { sym_assert(zero(b[j]) || eq(b[j], c), "an entry appeared that was not there before"); j++; }
	(void)cs;
}
static size_t count(const std::vector<Cell> &v, const Cell &c) { size_t n = 0; for (auto &x : v) n += eq(x, c); return n; }
static void one(BeesHashTable &t, int op, size_t b, Cell c, bool check_dirty) {
	load(before, b);
	for (auto &m : t.m_extent_metadata) m.m_dirty = false;
	t.m_dirty = false;
	size_t at = index_of(before, c);
	bool full = !has_empty(before);
	bool found = at < CPB;
	sym_reach(full ? "full" : "notfull");
	sym_reach(found ? "found" : "notfound");
	bool rv = found;
	switch (op) {
	case 0: {
		auto v = t.find_cell(c.e_hash);
		load(after, b);
		size_t j = 0;
		for (size_t i = 0; i < CPB; i++) {
			if (!sym_concrete((before[i].e_hash == c.e_hash) & (before[i].e_addr != 0))) continue;
			if (sym_concrete(before[i].e_addr < 0x1000)) continue;   // special addresses carry no data
			sym_assert(j < v.size(), "a stored entry was not returned by a lookup");
			sym_assert((v[j].e_hash == before[i].e_hash) & (v[j].e_addr == before[i].e_addr), "a lookup returned something else than the stored entry");
			j++;
		}
		sym_assert(j == v.size(), "a lookup returned an entry that is not stored under the hash");
		for (size_t i = 0; i < CPB; i++) sym_assert((before[i].e_hash == after[i].e_hash) & (before[i].e_addr == after[i].e_addr), "a lookup changed the table");
		sym_reach("find");
		return;
	}
	case 1:
		t.erase_hash_addr(c.e_hash, c.e_addr);
		load(after, b);
		for (size_t i = 0; i < CPB; i++) {
			if (i == at) sym_assert(zero(after[i]), "the named entry was not erased");
			else sym_assert((before[i].e_hash == after[i].e_hash) & (before[i].e_addr == after[i].e_addr), "erasing changed another entry");
		}
		sym_reach("erase");
		break;
	case 2:
		rv = t.push_front_hash_addr(c.e_hash, c.e_addr);
		load(after, b);
		sym_assert(rv == found, "insert reports wrongly whether the entry was present");
		sym_assert(eq(after[0], c), "the entry is not the most recent one after insertion at the front");
		sym_assert(count(after, c) == 1, "the inserted entry is stored more than once");
		check_rest(before, after, c, full && !found ? 1 : 0);
		sym_reach("front");
		break;
	case 3:
		rv = t.push_random_hash_addr(c.e_hash, c.e_addr);
		load(after, b);
		sym_assert(rv == found, "insert reports wrongly whether the entry was present");
		sym_assert(count(after, c) == 1, "the inserted entry is not stored exactly once");
		check_rest(before, after, c, full && !found ? 1 : 0);
		sym_reach("random");
		break;
	}
	bool changed = false;
	for (size_t i = 0; i < CPB; i++) if (!eq(before[i], after[i])) { changed = true; break; }
	size_t x = b / 32;
	if (changed) sym_assert(t.m_extent_metadata.at(x).m_dirty && t.m_dirty, "a changed region is not scheduled for writing");
	sym_observe("rv", rv);
}
int main() {
	int op = sym_param("op", 0);
	NS = sym_param("nsym", op == 4 ? 2 : 4);
	auto t = open_table(2);
	size_t b = sym_pick("bucket", 2) ? 37 : 0;
	bool fill = sym_pick("fill", 2);
	size_t pos = 0;
	if (op >= 3) {
		static const size_t ps[] = { 0, 1, 100, 254, 255 };
		pos = ps[sym_pick("random", op == 4 ? 3 : 5)];
	}
	t->find_cell(b);      // loads the region (all empty)
	t->find_cell(63);
	t->find_cell(0);
	sym_assert(E.preads == 2, "the table regions are not loaded once each");
	Cell *bk = map_bucket(b);
	// positions of the symbolic entries
	size_t p[8] = { 0, 255, 100, 101, 254, 1, 99, 128 };
	if (op == 3) { p[0] = pos; p[1] = pos ? pos - 1 : 255; p[2] = pos < 255 ? pos + 1 : 0; p[3] = pos == 255 || pos == 254 ? 128 : 255; p[4] = pos == 0 || pos == 1 ? 50 : 0; }
	if (op == 4) { p[0] = 1; p[1] = 255; }
	if (fill) for (size_t i = 0; i < CPB; i++) bk[i] = Cell((0xff00000000000000ull | (i << 8) << 6 | b), 0x1000 * (i + 16));
	Cell nb[2] = { Cell(b + 1, 0x77000), Cell(b - 1 + 64, 0x66000) };
	*map_bucket((b + 1) % 64) = nb[0];
	map_bucket((b + 63) % 64)[255] = nb[1];
	uint8_t *base = (uint8_t *)malloc(2 * EXT);
	memcpy(base, E.map, 2 * EXT);
	for (size_t i = 0; i < NS; i++) {
		Cell c(sym_bits("chash", 57) << 6 | b, sym_bits("caddr", 64));
		sym_assume((c.e_hash >> 56) != 0xff);
		if (sym_pick("empty", 2)) c = Cell(0, 0);
		else {
			sym_assume(c.e_addr != 0);
			for (size_t j = 0; j < i; j++) sym_assume((bk[p[j]].e_hash != c.e_hash) | (bk[p[j]].e_addr != c.e_addr));
		}
		bk[p[i]] = c;
	}
	int nops = op == 4 ? 2 : 1;
	for (int k = 0; k < nops; k++) {
		Cell c(sym_bits("hash", 57) << 6 | b, sym_bits("addr", 64));
		sym_assume((c.e_hash >> 56) != 0xff);
		sym_assume(c.e_addr != 0);
		int o = op;
		if (op == 4) o = k == 0 ? 2 + sym_pick("op1", 2) : sym_pick("op2", 4);
		set_random(pos);
		one(*t, o, b, c, true);
	}
	// nothing else moved
	sym_assert(!memcmp(E.map, base, b * BKT), "an operation changed another bucket");
	sym_assert(!memcmp(E.map + (b + 1) * BKT, base + (b + 1) * BKT, 2 * EXT - (b + 1) * BKT), "an operation changed another bucket");
	sym_assert(E.pwrites == 0 && E.preads == 2, "unexpected file access");
	if (op == 4) sym_reach("seq");
}
