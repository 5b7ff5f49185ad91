// MODS: src/bees.cc
// STUB: noop std::__cxx11::basic_regex<*
// STUB: noop std::locale*
// JOB: other btrfs=0 size=4
// JOB: btrfs btrfs=1 size=3
// JOB: block btrfs=0 block=1
// JOB: blockb btrfs=1 block=1
// THOROUGH: big btrfs=0 size=6 rounds=2
// THOROUGH: bigb btrfs=1 size=6 rounds=2
// REACH: published failed kept limit readback oldkernel newkernel shortwrite first
// BOUND: old contents of 3 bytes or no file, with or without a leftover temporary file; new contents of 1 to 4 (up to 6) arbitrary bytes, or of 511, 512, 4095, 4096, 4097 or 8192 bytes (the first six arbitrary), or at and above the size limit; every system call failing in every combination, every short transfer; the disk state examined before and after every system call; file systems with and without btrfs semantics and eight kernel versions; one (two) rewrites in a row
// ASSUME: directory operations are atomic and ordered; data is stable after a successful fsync, and on btrfs before 5.17 after the rename itself (as the source documents)
#include <regex>
#include <string>
static bool g_version_checked = false;
// the version pattern ^(\d+)\.(\d+)\.  by hand
namespace std {
template<> bool regex_search(const string &s, smatch &m, const regex &, regex_constants::match_flag_type) {
	g_version_checked = true;
	typedef sub_match<string::const_iterator> S;
	auto dig = [](char c) { return c >= '0' && c <= '9'; };
	auto b = s.begin(), e = b;
	while (e != s.end() && dig(*e)) ++e;
	if (e == b || e == s.end() || *e != '.') return false;
	auto b2 = e + 1, e2 = b2;
	while (e2 != s.end() && dig(*e2)) ++e2;
	if (e2 == b2 || e2 == s.end() || *e2 != '.') return false;
	auto &v = static_cast<vector<S> &>(m);
	S x; x.matched = true;
	v.clear();
	x.first = b; x.second = e2 + 1; v.push_back(x);
	x.first = b; x.second = e; v.push_back(x);
	x.first = b2; x.second = e2; v.push_back(x);
	x.matched = false; x.first = x.second = s.end();
	v.push_back(x); v.push_back(x); v.push_back(x);
	return true;
}
}
#define HOME_FS_MAX 8400
#include "home_fs.h"
#include "bees.h"
using namespace crucible;
static char g_old[3];
static char g_want[2][8400]; static int g_wantlen[2];
static int g_round, g_published = -1;    // the last round whose contents were published, or -1
static bool g_had, g_failed, g_needsync;
static void instant() {
	int r = g_name[0];
	if (r < 0) { sym_assert(!g_had && g_published < 0, "the state file is gone"); return; }
	Ino &i = I_[r];
	int lo = g_published, which = -2;
	if (!i.isnew) {
		sym_assert(g_published < 0, "the old contents came back");
		sym_assert(i.len == 3, "the previous contents are damaged");
		for (int k = 0; k < 3; k++) sym_assert(i.data[k] == g_old[k], "the previous contents are damaged");
		return;
	}
	// contents of this round or of the last published one
	static int owner[6] = { -1, -1, -1, -1, -1, -1 };
	if (owner[r] < 0) owner[r] = g_round;
	int w = owner[r];
	sym_assert(i.len == g_wantlen[w], "an incomplete file is published");
	for (int k = 0; k < i.len; k++) if (k < 8 || i.data[k] != g_want[w][k]) sym_assert(i.data[k] == g_want[w][k], "wrong contents are published");
	if (g_needsync) sym_assert(i.stable == i.len, "a file is published before its contents are stable");
	g_published = w;
}
static int faultpick(const char *what) {
	if (!sym_pick(what, 2)) return 0;
	if (!strcmp(what, "unlink") || !strcmp(what, "read") || !strcmp(what, "stat")) {
		if (what[0] == 'u' && what[2] == 'l') return EACCES;
	}
	g_failed = true;
	return EIO;
}
static int shortpick(int n) { int k = n == 1 ? 1 : n > 8 ? (sym_pick("half", 2) ? n / 2 : n) : 1 + sym_pick("moved", n); if (k != n) { g_failed = true; sym_reach("shortwrite"); } return k; }
int main() {
	g_btrfs = sym_param("btrfs", 0);
	int maxsize = sym_param("size", 2), rounds = sym_param("rounds", 1);
	static const char *R[] = { "6.8.0-31-generic", "5.17.1", "10.0.0", "5.15.9", "4.19.0-x", "garbage", "5.4.0", "6.1.rc" };
	static const int NEW[] = { 1, 1, 1, 0, 0, 0, 0, 1 };
	int block = sym_param("block", 0), limit = block ? 8400 : 64;
	static const int L[] = { 511, 512, 4095, 4096, 4097, 8192 };
	int r = g_btrfs ? sym_pick("kernel", block ? 4 : 8) : 0;
	g_release = R[r];
	g_needsync = !g_btrfs || NEW[r];
	g_had = sym_pick("exists", 2);
	if (g_had) {
		Ino &i = I_[g_nino];
		for (int k = 0; k < 3; k++) i.data[k] = g_old[k] = sym_bits("old", 8);
		i.len = i.stable = 3; i.isnew = false;
		g_name[0] = g_nino++;
	}
	if (sym_pick("stale", 2)) { I_[g_nino].data[0] = 'x'; I_[g_nino].len = 1; I_[g_nino].isnew = true; g_name[1] = g_nino++; }
	BeesStringFile f(Fd(HOME), "beescrawl.dat", limit);
	g_instant = instant;
	if (rounds == 1 && sym_pick("toobig", 2)) {
		bool threw = false;
		try { f.write(std::string(limit + sym_pick("over", 2), 'z')); } catch (const std::exception &) { threw = true; }
		sym_assert(threw && g_nofd == 0, "contents above the limit are written");
		instant();
		sym_reach("limit");
		return 0;
	}
	for (g_round = 0; g_round < rounds; g_round++) {
		g_wantlen[g_round] = block ? L[sym_pick("length", 6)] : 1 + sym_pick("size", maxsize);
		std::string s;
		for (int k = 0; k < g_wantlen[g_round]; k++) s += g_want[g_round][k] = k < 6 ? sym_bits("new", 8) : 'a' + k % 23;
		int before = g_published;
		g_failed = false; g_fault = faultpick; g_short = shortpick;
		bool threw = false;
		try { f.write(s); } catch (const std::exception &) { threw = true; }
		g_fault = nullptr; g_short = nullptr;
		instant();
		for (int k = 0; k < g_nofd; k++) sym_assert(!O_[k].open, "a file is left open");
		if (threw) {
			sym_assert(g_published == before, "a failed write publishes a file");
			if (g_failed) sym_reach("failed");
			if (g_had) sym_reach("kept");
			continue;
		}
		sym_assert(!g_failed, "a failed system call is not reported");
		sym_assert(g_published == g_round, "success is reported but the new contents are not in place");
		sym_reach("published");
		if (!g_had) sym_reach("first");
		if (g_btrfs) sym_reach(NEW[r] ? "newkernel" : "oldkernel");
		std::string t = f.read();
		sym_assert((int)t.size() == g_wantlen[g_round], "what is read back differs from what was written");
		for (size_t k = 0; k < t.size(); k++) if (k < 8 || t[k] != g_want[g_round][k]) sym_assert(t[k] == g_want[g_round][k], "what is read back differs from what was written");
		sym_reach("readback");
	}
}
