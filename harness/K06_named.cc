// NATIVE: sched
// MODS: lib/error.cc lib/string.cc
// JOB: seq4 steps=4
// JOB: two mode=1 n=2 pre=3
// THOROUGH: seq5 steps=5
// THOROUGH: three mode=1 n=3 pre=3
// REACH: reused recreated inserted failed race
// BOUND: every sequence of 4 (5) lookups, inserts, copies and releases of handles for two symbolic names including a failing or null creator; 2 (3) threads each taking and dropping a handle twice with every interleaving of at most 3 preemptions
#include "sym.h"
#include "crucible/namedptr.h"
#include <thread>
#include <vector>
using namespace crucible;
extern "C" pid_t gettid() throw() { return 7; }
static int g_live[2], g_made[2], g_died;
static uint64_t K[2];
static int g_mode;
struct Obj { int k; uint64_t ser; Obj(int k) : k(k), ser(0) { g_live[k]++; g_made[k]++; } ~Obj() { g_live[k]--; g_died++; } };
typedef NamedPtr<Obj, uint64_t> NP;
static std::shared_ptr<Obj> make(uint64_t k) {
	if (g_mode == 1) throw std::runtime_error("x");
	if (g_mode == 2) return std::shared_ptr<Obj>();
	sym_yield();
	return std::make_shared<Obj>(k == K[0] ? 0 : 1);
}
static void seq() {
	NP n(make);
	std::shared_ptr<Obj> h[2][2];
	int steps = sym_param("steps", 5);
	for (int s = 0; s < steps; s++) {
		int op = sym_pick("op", 4), k = sym_pick("key", 2), slot = sym_pick("slot", 2);
		int made = g_made[k];
		std::shared_ptr<Obj> alive = h[k][0] ? h[k][0] : h[k][1];
		if (op == 0) {
			g_mode = 0;
			auto p = n(K[k]);
			if (alive) { sym_assert(p == alive && g_made[k] == made, "a live name was created again"); sym_reach("reused"); }
			else { sym_assert(g_made[k] == made + 1, "a name was not created once"); if (made) sym_reach("recreated"); }
			sym_assert(p && p->k == k, "a lookup returned another name's object");
			h[k][slot] = p;
		} else if (op == 1) {
			auto o = std::make_shared<Obj>(k);
			auto p = n.insert(o, K[k]);
			if (alive) sym_assert(p == alive, "an insert replaced a live object"); else { sym_assert(p.get() == o.get(), "an insert did not use the given object"); sym_reach("inserted"); }
			h[k][slot] = p;
		} else if (op == 2) {
			h[k][slot].reset();
		} else {
			g_mode = 1 + slot;
			bool thrown = false;
			try { auto p = n(K[k]); sym_assert(p == alive, "a failed creation returned an object"); } catch (const std::exception &) { thrown = true; }
			sym_assert(thrown == !alive, "a failed creation did not raise an error");
			if (thrown) sym_reach("failed");
		}
		alive.reset();
		for (int q = 0; q < 2; q++) {
			bool any = h[q][0] || h[q][1];
			sym_assert(g_live[q] == any, "an object outlives its handles, or dies before them");
		}
	}
	for (auto &a : h) for (auto &b : a) b.reset();
	sym_assert(g_live[0] == 0 && g_live[1] == 0, "an object leaked");
	sym_assert(n.m_map_rep->m_map.empty(), "a dead name was left behind");
}
static Obj *g_h[3];
static void threads() {
	int nt = sym_param("n", 2);
	NP n(make);
	std::vector<std::thread> th;
	sym_sched(sym_param("pre", 2));
	for (int i = 0; i < nt; i++) th.emplace_back([&, i]() {
		for (int r = 0; r < (nt == 2 ? 2 : 1); r++) {
			auto p = n(K[0]);
			g_h[i] = p.get();
			for (int j = 0; j < nt; j++) if (g_h[j]) sym_assert(g_h[j] == g_h[i], "two live handles of one name refer to different objects");
			sym_yield();
			sym_assert(g_live[0] >= 1 && p && p->k == 0, "the object died while a handle exists");
			g_h[i] = nullptr;
		}
	});
	for (auto &t : th) t.join();
	sym_assert(g_live[0] == 0, "an object leaked");
	sym_assert(n.m_map_rep->m_map.empty(), "a dead name was left behind");
	sym_reach("race");
}
int main() {
	K[0] = sym_bits("k", 64); K[1] = sym_bits("k", 64);
	sym_assume(K[0] != K[1]);
	if (sym_param("mode", 0)) threads(); else seq();
}
