// MODS: lib/fs.cc lib/bytevector.cc lib/error.cc lib/string.cc lib/fd.cc lib/path.cc
// JOB: any op=0
// JOB: typed op=1
// JOB: walk op=2
// REACH: advanced end typed typedend typeskip walked
// BOUND: every 64-bit object and offset and 8-bit type; pagination over 3 items of symbolic keys
#include "fake_tree.h"
using namespace crucible;
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	return tree_search(arg);
}
int main() {
	int op = sym_param("op", 0);
	BtrfsIoctlSearchKey sk;
	BtrfsIoctlSearchHeader h;
	h.objectid = sym_bits("obj", 64); h.type = sym_bits("type", 8); h.offset = sym_bits("off", 64);
	uint64_t ko = sym_bits("kobj", 64), kf = sym_bits("koff", 64);
	uint32_t kt = sym_bits("ktype", 8);
	bool threw = false;
	if (op == 0) {
		try { sk.next_min(h); } catch (const std::exception &) { threw = true; }
		bool last = h.objectid == UINT64_MAX && h.type == 255 && h.offset == UINT64_MAX;
		sym_assert(threw == last, "the end of the key space is wrapped, or reported too early");
		if (threw) { sym_reach("end"); return 0; }
		sym_assert(sk.min_type <= 255, "the next key has an item type that does not exist");
		sym_assert(key_lt(h.objectid, h.type, h.offset, sk.min_objectid, sk.min_type, sk.min_offset), "the next search does not move forward");
		if (key_lt(h.objectid, h.type, h.offset, ko, kt, kf)) sym_assert(!key_lt(ko, kt, kf, sk.min_objectid, sk.min_type, sk.min_offset), "the next search skips a key");
		sym_assert(sk.max_objectid == UINT64_MAX && sk.max_offset == UINT64_MAX, "the end of the search moved");
		sym_reach("advanced");
	} else if (op == 1) {
		uint8_t t = sym_bits("want", 8);
		try { sk.next_min(h, t); } catch (const std::exception &) { threw = true; }
		bool last = h.objectid == UINT64_MAX && (h.type > t || (h.type == t && h.offset == UINT64_MAX));
		sym_assert(threw == last, "the end of the key space is wrapped, or reported too early");
		if (threw) { sym_reach("typedend"); return 0; }
		sym_assert(sk.min_type == t, "the next search starts at another item type");
		sym_assert(key_lt(h.objectid, h.type, h.offset, sk.min_objectid, sk.min_type, sk.min_offset), "the next search does not move forward");
		if (key_lt(h.objectid, h.type, h.offset, ko, t, kf)) sym_assert(!key_lt(ko, t, kf, sk.min_objectid, sk.min_type, sk.min_offset), "the next search skips a key");
		if (h.type != t) sym_reach("typeskip");
		sym_reach("typed");
	} else {
		// paginating with next_min visits every item of the range exactly once, in order
		uint64_t tree = 1;
		NT = 3;
		static const uint8_t d[1] = {0};
		for (int i = 0; i < NT; i++) {
			T[i].tree = tree; T[i].obj = sym_bits("obj", 64); T[i].type = sym_bits("type", 8); T[i].off = sym_bits("off", 64); T[i].transid = 1; T[i].data = d; T[i].len = 0;
			if (i) sym_assume(key_lt(T[i - 1].obj, T[i - 1].type, T[i - 1].off, T[i].obj, T[i].type, T[i].off));
		}
		sk.tree_id = tree;
		int seen = 0;
		for (int round = 0; round < 5; round++) {
			sk.nr_items = 1 + (round & 1);
			sk.do_ioctl(5);
			if (sk.m_result.empty()) break;
			bool end = false;
			for (auto &i : sk.m_result) {
				sym_assert(seen < NT && i.objectid == T[seen].obj && i.type == T[seen].type && i.offset == T[seen].off, "pagination repeats, skips or reorders an item");
				seen++;
				try { sk.next_min(i); } catch (const std::exception &) { end = true; }
			}
			if (end) break;
		}
		sym_assert(seen == NT, "pagination ended early");
		sym_reach("walked");
	}
}
