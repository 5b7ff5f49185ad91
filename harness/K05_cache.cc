// NATIVE: sched
// MODS: lib/error.cc lib/string.cc
// JOB: seq4 steps=4
// JOB: two mode=1 n=2 pre=3
// JOB: mixed mode=2 n=2 pre=2 shards=4 depth=4
// THOROUGH: mixed3 mode=2 n=2 pre=3 shards=8 depth=4
// THOROUGH: seq5 steps=5 fail=1
// THOROUGH: seq6 steps=6 lim=2
// THOROUGH: three mode=1 n=3 pre=3
// REACH: hit miss displaced expired inserted failed shared mixed
// BOUND: every sequence of 4 (5..6) lookups, inserts, expiries, refreshes and clears over three symbolic keys with a limit of 1 to 3 entries and loader failures; two (three) concurrent lookups of symbolic keys with every interleaving of at most 3 preemptions; every operation beside every other one with at most 2 (3) preemptions, from a cache of up to two entries
#include "sym.h"
#include "crucible/cache.h"
#include <thread>
#include <vector>
using namespace crucible;
extern "C" pid_t gettid() throw() { return 7; }
typedef LRUCache<uint64_t, uint64_t> C;
static uint64_t K[3];
static uint64_t g_serial, g_last_key; static int g_calls;
static bool g_fail;
struct Model { uint64_t key, val; };
static std::vector<Model> M;    // least recent first
static int find(int k) { for (size_t i = 0; i < M.size(); i++) if (M[i].key == (uint64_t)k) return i; return -1; }
static int idx(uint64_t k) { for (int i = 0; i < 3; i++) if (sym_concrete(k == K[i])) return i; return -1; }
static void seq() {
	size_t lim = sym_param("lim", 0) ? sym_param("lim", 0) : sym_pick("limit", 3) + 1;
	C c([&](uint64_t k) -> uint64_t {
		g_calls++; g_last_key = k;
		if (g_fail) throw std::runtime_error("x");
		return ++g_serial * 1000 + k;
	}, lim);
	int steps = sym_param("steps", 4);
	bool canfail = true;
	for (int s = 0; s < steps; s++) {
		int op = sym_pick("op", canfail ? 6 : 5), k = op == 4 ? 0 : sym_pick("key", 3);
		int before = g_calls;
		auto displace = [&]() { while (M.size() >= lim) { M.erase(M.begin()); sym_reach("displaced"); } };
		g_fail = op == 5;
		auto lookup = [&]() {
			int f = find(k);
			if (f < 0 && g_fail) {
				bool thrown = false;
				try { c(K[k]); } catch (const std::runtime_error &) { thrown = true; }
				sym_assert(thrown && g_calls == before + 1, "a failed load did not raise an error");
				sym_reach("failed");
				return;
			}
			uint64_t v = c(K[k]);
			if (f >= 0) {
				sym_assert(g_calls == before, "a cached value was loaded again");
				sym_assert(v == M[f].val, "a cached lookup returned another value");
				Model m = M[f]; M.erase(M.begin() + f); M.push_back(m);
				sym_reach("hit");
			} else {
				sym_assert(g_calls == before + 1 && g_last_key == K[k], "a missing value was not loaded once for its key");
				sym_assert(v == g_serial * 1000 + K[k], "a lookup did not return what the loader produced");
				displace(); M.push_back(Model{(uint64_t)k, v});
				sym_reach("miss");
			}
		};
		if (op == 0 || op == 5) lookup();
		else if (op == 1) { c.expire(K[k]); int f = find(k); if (f >= 0) { M.erase(M.begin() + f); sym_reach("expired"); } }
		else if (op == 2) {
			int f = find(k);
			uint64_t v = 0x77000000 + s;
			c.insert(v, K[k]);
			sym_assert(g_calls == before, "an insert called the loader");
			if (f >= 0) { Model m = M[f]; M.erase(M.begin() + f); M.push_back(m); }
			else { displace(); M.push_back(Model{(uint64_t)k, v}); sym_reach("inserted"); }
		} else if (op == 3) {
			int f = find(k);
			if (f >= 0) M.erase(M.begin() + f);
			uint64_t v = c.refresh(K[k]);
			sym_assert(g_calls == before + 1 && v == g_serial * 1000 + K[k], "a refresh did not load the value again");
			displace(); M.push_back(Model{(uint64_t)k, v});
		} else if (op == 4) { c.clear(); M.clear(); }
		sym_assert(c.size() == M.size(), "the cache holds another number of entries than it should");
		sym_assert(c.size() <= lim, "the cache exceeds its limit");
	}
	// what is left is exactly the most recent entries: looking them up does not load
	for (auto &m : std::vector<Model>(M)) {
		int before = g_calls; g_fail = false;
		sym_assert(c(K[m.key]) == m.val && g_calls == before, "a recent entry was displaced before an older one");
	}
}
static void threads() {
	int n = sym_param("n", 2);
	uint64_t in_key[3]; bool in_on[3] = { false, false, false };
	int me_next = 0;
	C c([&](uint64_t k) -> uint64_t {
		int me = me_next++ % 3;
		g_calls++;
		for (int i = 0; i < 3; i++) if (in_on[i]) sym_assert(in_key[i] != k, "one key is being loaded twice at the same time");
		in_key[me] = k; in_on[me] = true;
		sym_yield();
		in_on[me] = false;
		return k ^ 0x5555;
	}, 3);
	bool same = n == 2 ? sym_concrete(K[0] == K[1]) : sym_concrete((K[0] == K[1]) & (K[1] == K[2]));
	bool alldiff = n == 2 ? !same : sym_concrete((K[0] != K[1]) & (K[1] != K[2]) & (K[0] != K[2]));
	std::vector<std::thread> th;
	sym_sched(sym_param("pre", 2));
	for (int i = 0; i < n; i++) th.emplace_back([&, i]() { sym_assert(c(K[i]) == (K[i] ^ 0x5555), "a lookup returned another key's value"); });
	for (auto &t : th) t.join();
	if (same) { sym_assert(g_calls == 1, "concurrent lookups of one key loaded it more than once"); sym_reach("shared"); }
	if (alldiff) sym_assert(g_calls == n, "different keys were not loaded once each");
	sym_assert(c.size() == (same ? 1u : alldiff ? (unsigned)n : 2u), "the cache holds another number of entries than it should");
}
static void mixed() {
	size_t lim = 1 + sym_pick("limit", 2);
	static uint64_t serial = 0;
	C c([&](uint64_t k) -> uint64_t { sym_yield(); return ++serial * 1000 + k; }, lim);
	if (sym_pick("first", 2)) c(1);
	if (sym_pick("second", 2)) c(2);
	auto one = [&](int op, uint64_t k) {
		uint64_t was = serial;
		switch (op) {
			case 0: sym_assert(c(k) % 1000 == k, "a lookup returned another key's value"); break;
			case 1: c.expire(k); break;
			case 2: c.insert(900000 + k, k); break;
			case 3: { uint64_t v = c.refresh(k); sym_assert(v % 1000 == k, "a refresh returned another key's value"); (void)was; break; }
			default: c.clear();
		}
	};
	int a = sym_pick("a", 5), b = sym_pick("b", 5);
	uint64_t ka = a == 4 ? 1 : 1 + sym_pick("ka", 2), kb = b == 4 ? 1 : 1 + sym_pick("kb", 2);
	sym_sched(sym_param("pre", 2));
	std::thread t([&]() { one(a, ka); });
	one(b, kb);
	t.join();
	sym_assert(c.size() <= lim, "the cache exceeds its limit");
	sym_assert(c.m_list.size() == c.m_map.size(), "the cache lost track of an entry");
	for (auto it = c.m_list.begin(); it != c.m_list.end(); ++it) {
		auto f = c.m_map.find(it->key);
		sym_assert(f != c.m_map.end() && f->second == it, "the cache lost track of an entry");
	}
	for (uint64_t k = 1; k <= 3; k++) {
		sym_assert(c(k) % 1000 == k, "a lookup returned another key's value");
		uint64_t was = serial;
		c(k);
		sym_assert(serial == was, "the entry used last was displaced");
	}
	sym_assert(c.size() == lim, "the cache holds another number of entries than it should");
	sym_reach("mixed");
}
int main() {
	if (sym_param("mode", 0) == 2) { mixed(); return 0; }
	for (int i = 0; i < 3; i++) K[i] = sym_bits("k", 64);
	if (sym_param("mode", 0)) { threads(); return 0; }
	sym_assume((K[0] < K[1]) & (K[1] < K[2]));
	if (sym_pick("perm", 2)) std::swap(K[0], K[2]);
	seq();
}
