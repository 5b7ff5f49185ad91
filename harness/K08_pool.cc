// NATIVE: sched
// MODS: lib/error.cc lib/string.cc
// JOB: seq5 steps=5
// JOB: two mode=1 n=2 pre=3
// THOROUGH: seq7 steps=7
// THOROUGH: three mode=1 n=3 pre=3
// REACH: reused created orphan cleared
// BOUND: every sequence of 5 (7) check-outs, handle copies, returns and clears over up to three users, with the pool destroyed before or after its users; 2 (3) threads each checking out twice with every interleaving of at most 3 preemptions
#include "sym.h"
#include "crucible/pool.h"
#include <thread>
#include <vector>
using namespace crucible;
struct Obj { int user; int in, out; bool hook; Obj() : user(0), in(0), out(0), hook(false) {} };
typedef Pool<Obj> P;
static int g_made, g_free, g_in, g_out;
static void hook(P::Ptr p) {
	sym_assert(!p->hook, "an object is in two hooks at once");
	p->hook = true;
	sym_yield();
	p->hook = false;
	sym_assert(p->user == 0, "an object is used while it is in a hook");
}
static P *mk() {
	return new P([]() { g_made++; sym_yield(); return std::make_shared<Obj>(); },
		[](P::Ptr p) { g_in++; p->in++; sym_assert(p->user == 0, "an object was checked in while in use"); hook(p); },
		[](P::Ptr p) { g_out++; p->out++; sym_assert(p->user == 0, "an object was checked out while in use"); hook(p); });
}
static void seq() {
	P *p = mk();
	P::Ptr h[3], copy[3];
	int steps = sym_param("steps", 5), used = 0, free = 0;
	for (int s = 0; s < steps; s++) {
		int op = sym_pick("op", 4), u = sym_pick("user", op == 3 ? 1 : 3);
		int made = g_made, in = g_in, out = g_out;
		if (op == 0 && !h[u] && !copy[u]) {
			h[u] = (*p)();
			sym_assert(h[u] && h[u]->user == 0, "an object in use was handed out again");
			for (int i = 0; i < 3; i++) if (i != u) sym_assert(h[u] != h[i] && h[u] != copy[i], "an object in use was handed out again");
			h[u]->user = u + 1;
			sym_assert(g_out == out + 1 && g_in == in, "the check-out hook did not run exactly once");
			if (free) { sym_assert(g_made == made, "a new object was made although one was free"); free--; sym_reach("reused"); }
			else { sym_assert(g_made == made + 1, "no object was made"); sym_reach("created"); }
		} else if (op == 1 && h[u]) { copy[u] = h[u]; sym_assert(g_in == in && g_out == out, "a copy of a handle ran a hook"); }
		else if (op == 2) {
			bool had = !!h[u], other = !!copy[u];
			Obj *o = had ? h[u].get() : other ? copy[u].get() : nullptr;
			if (o && !(had && other)) o->user = 0;
			if (had) h[u].reset(); else copy[u].reset();
			if (had && other) sym_assert(g_in == in, "an object was returned while a handle exists");
			else if (o) { sym_assert(g_in == in + 1, "the check-in hook did not run exactly once"); free++; }
		} else if (op == 3) { p->clear(); free = 0; sym_assert(g_in == in && g_out == out, "clearing ran a hook"); sym_reach("cleared"); }
		for (int i = 0; i < 3; i++) if (h[i] || copy[i]) sym_assert((h[i] ? h[i] : copy[i])->user == i + 1, "two users share an object");
		sym_assert((int)p->m_list_rep->m_list.size() == free, "the pool keeps another number of objects than were returned");
	}
	int in = g_in;
	delete p;
	for (int i = 0; i < 3; i++) { if (h[i] || copy[i]) sym_reach("orphan"); h[i].reset(); copy[i].reset(); }
	sym_assert(g_in == in, "an object was returned to a destroyed pool");
}
static void threads() {
	P *p = mk();
	int n = sym_param("n", 2);
	std::vector<std::thread> th;
	sym_sched(sym_param("pre", 2));
	for (int i = 0; i < n; i++) th.emplace_back([&, i]() {
		for (int r = 0; r < 2; r++) {
			auto h = (*p)();
			sym_assert(h->user == 0, "an object in use was handed out again");
			sym_assert(!h->hook, "an object in a hook was handed out");
			h->user = i + 1;
			sym_yield();
			sym_assert(h->user == i + 1, "two users share an object");
			h->user = 0;
		}
	});
	for (auto &t : th) t.join();
	sym_assert(g_in == 2 * n && g_out == 2 * n, "hooks did not run exactly once per use");
	sym_assert(g_made <= n && (int)p->m_list_rep->m_list.size() == g_made, "an object was lost or duplicated");
	delete p;
}
int main() { if (sym_param("mode", 0)) threads(); else seq(); }
