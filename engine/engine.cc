// symx: symbolic executor for LLVM IR (see DESIGN.md)
#include <unistd.h>
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/KnownBits.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/TargetParser/Triple.h>
#include <fnmatch.h>
#include <sys/resource.h>
#include <pthread.h>
#include <time.h>
#include <math.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <list>

using namespace llvm;
using std::string; using std::vector; using std::map; using std::make_shared;

enum Status { ST_OK, ST_INFEASIBLE, ST_VIOLATION, ST_UNSUPPORTED, ST_DROP, ST_FORKED };
struct PathEnd { Status st; string msg; };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options
static u64 opt_hang = 0;
static u64 opt_max_steps = 400000000, opt_max_paths = 100000000;
static double opt_max_time = 1e9;
static int opt_shard = 0, opt_nshards = 1, opt_shard_depth = 10;
static int opt_samples = 6;
static int opt_maxcex = 30;
static bool opt_trace = false, opt_verbose = false;
static int opt_cap = 4096;
static u64 opt_seed = 1;
static string opt_out = "/tmp/symx";
static map<string, u64> opt_params;
static unsigned opt_solver_ms = 60000;

// ------------------------------------------------------------------ stats
static u64 n_paths = 0, n_infeasible = 0, n_steps = 0, n_queries = 0, n_cached = 0, n_modelhits = 0, n_forks = 0, n_asserts = 0, n_assert_q = 0, n_assert_triv = 0, n_sat = 0, n_unsat = 0, n_cvc5 = 0;
static double t_solver = 0, t_maxq = 0;
static map<string, u64> n_reach;
static std::set<string> unsupported;
static map<string, int> cex_msgs;
static int n_cex = 0;
static bool incomplete = false;
static string incomplete_why;

// ------------------------------------------------------------------ module
static LLVMContext *LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, PF *> pfs;
static std::unordered_map<u64, PF *> faddr;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static std::unordered_map<const GlobalVariable *, u64> tlsid;      // TLS globals
static map<u64, const GlobalVariable *> tlsg;
static MMap gconst;                // constant globals, shared
static MMap ginit;                 // initial images of mutable globals (copied on first write)
static map<string, Builtin> builtins;
static std::unordered_map<u64, int> typeids;
static vector<std::pair<string, string>> stubspec;
static string last_error_loc;

static std::list<State *> worklist;
static int next_state_id = 0;

static string locOf(State &s) {
	if (s.th.empty() || s.th[s.cur].fr.empty()) return "?";
	string r;
	auto &fr = s.th[s.cur].fr;
	int n = 0;
	for (int i = fr.size() - 1; i >= 0 && n < 12; i--) {
		Frame &f = fr[i];
		string loc;
		if (f.bb < (int)f.f->bb.size() && f.pc < (int)f.f->bb[f.bb].in.size()) {
			Instruction *I = f.f->bb[f.bb].in[f.pc].I;
			if (auto d = I->getDebugLoc()) loc = (":" + std::to_string(d.getLine()));
		}
		string d = f.f->dem;
		size_t p = d.find('(');
		if (p != string::npos && p > 0) d = d.substr(0, std::min<size_t>(d.size(), 110));
		r += (n ? " < " : "") + d + loc;
		n++;
	}
	return r;
}

// ------------------------------------------------------------------ solver
static Z3_solver SV;
static Z3_solver SV2;
struct QKeyHash { size_t operator()(const vector<uint32_t> &v) const { u64 h = 7; for (auto x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32; } return h; } };
struct QRes { bool sat; std::shared_ptr<vector<std::pair<uint32_t, u128>>> vals; };
static std::unordered_map<vector<uint32_t>, QRes, QKeyHash> qcache;
extern Z3_ast toBool(Expr *e);

static u128 parseBV(Z3_ast v, unsigned w) {
	// numeral string may be large
	const char *s = Z3_get_numeral_string(Z, v);
	u128 r = 0;
	while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0');
	return r & maskw(w);
}

static bool usesFP(Expr *e, std::unordered_set<Expr *> &seen) {
	if (!seen.insert(e).second) return false;
	if (e->op >= O_FADD) return true;
	for (int i = 0; i < 3; i++) if (e->k[i] && usesFP(e->k[i], seen)) return true;
	return false;
}

static bool linearOnly(Expr *e, std::unordered_set<Expr *> &seen) {
	if (!seen.insert(e).second) return true;
	switch (e->op) {
	case O_CONST: case O_VAR: case O_ADD: case O_SUB: case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_CONCAT: case O_EXTRACT: case O_ZEXT: case O_SEXT: case O_ITE: break;
	case O_AND: case O_OR: case O_XOR: if (e->w != 1) return false; break;
	default: return false;
	}
	for (int i = 0; i < 3; i++) if (e->k[i] && !linearOnly(e->k[i], seen)) return false;
	return true;
}

// Linear 64-bit arithmetic that bit-blasting finds hard: cvc5 decides it over the integers (an exact translation).
// A satisfying assignment is only accepted after evaluating the query under it.
static Z3_lbool cvc5check(const vector<Expr *> &q, const std::set<uint32_t> &vs, Model *out, int secs) {
	static int have = -1;
	if (have < 0) have = system("command -v cvc5 >/dev/null 2>&1") == 0;
	if (!have || vs.empty()) return Z3_L_UNDEF;
	char fn[] = "/tmp/symxqXXXXXX";
	int fd = mkstemp(fn);
	if (fd < 0) return Z3_L_UNDEF;
	Z3_solver_reset(Z, SV2);
	for (auto e : q) Z3_solver_assert(Z, SV2, toBool(e));
	FILE *f = fdopen(fd, "w");
	fprintf(f, "(set-logic QF_BV)\n(set-option :produce-models true)\n%s(check-sat)\n(get-value (", Z3_solver_to_string(Z, SV2));
	Z3_solver_reset(Z, SV2);
	for (auto v : vs) fprintf(f, "v%u ", v);
	fprintf(f, "))\n");
	fclose(f);
	string cmd = "timeout " + std::to_string(secs) + " cvc5 --solve-bv-as-int=sum " + fn + " 2>/dev/null", so;
	FILE *p = popen(cmd.c_str(), "r");
	char buf[4096]; size_t n;
	while (p && (n = fread(buf, 1, sizeof buf, p)) > 0) so.append(buf, n);
	if (p) pclose(p);
	unlink(fn);
	if (so.compare(0, 5, "unsat") == 0) return Z3_L_FALSE;
	if (so.compare(0, 3, "sat") != 0) return Z3_L_UNDEF;
	Model m;
	const char *c = so.c_str();
	while ((c = strstr(c, "(v"))) {
		char *e;
		uint32_t v = strtoul(c + 2, &e, 10);
		const char *b = strstr(e, "#b"), *close = strchr(e, ')');
		if (!b || !close || b > close) return Z3_L_UNDEF;
		u128 val = 0;
		for (b += 2; *b == '0' || *b == '1'; b++) val = val * 2 + (*b - '0');
		m[v] = val;
		c = close;
	}
	for (auto v : vs) if (!m.count(v)) return Z3_L_UNDEF;
	for (auto e : q) if (!evalE(e, m)) return Z3_L_UNDEF;
	for (auto v : vs) (*out)[v] = m[v];
	return Z3_L_TRUE;
}

static bool zcheck(const vector<Expr *> &q, Model *out, const VarSet *) {
	static Z3_params P[5];
	static Z3_solver SVF = nullptr;
	if (!SV) {
		SV = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, SV);
		SV2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, SV2);
		SVF = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, SVF);
		unsigned ms[5] = { 60, 1000, 0, 3000, (unsigned)opt_solver_ms };
		for (int i = 0; i < 5; i++) { P[i] = Z3_mk_params(Z); Z3_params_inc_ref(Z, P[i]); Z3_params_set_uint(Z, P[i], Z3_mk_string_symbol(Z, "timeout"), ms[i]); }
	}
	std::unordered_set<Expr *> seen;
	bool fp = false;
	for (auto e : q) if (usesFP(e, seen)) { fp = true; break; }
	double t0 = now();
	Z3_solver S = SV;
	Z3_lbool r = Z3_L_UNDEF;
	// a quick incremental attempt, then bit-blasting with preprocessing, then integers (cvc5) for linear arithmetic,
	// then each of the first two for longer
	bool lin = true;
	{ std::unordered_set<Expr *> sl; for (auto e : q) lin = lin && linearOnly(e, sl); }
	for (int attempt = fp ? 4 : 0; attempt < 5 && r == Z3_L_UNDEF; attempt++) {
		if (attempt == 2) {
			if (!lin) continue;
			std::set<uint32_t> vs;
			for (auto e : q) vs.insert(e->vars->begin(), e->vars->end());
			Z3_lbool r2 = cvc5check(q, vs, out, 10);
			if (r2 != Z3_L_UNDEF) {
				n_queries++;
				n_cvc5++;
				(r2 == Z3_L_TRUE ? n_sat : n_unsat)++;
				double dt = now() - t0;
				t_solver += dt;
				if (dt > t_maxq) t_maxq = dt;
				return r2 == Z3_L_TRUE;
			}
			continue;
		}
		S = fp ? SVF : attempt == 0 || attempt == 3 ? SV : SV2;
		Z3_solver_reset(Z, S);
		for (auto e : q) Z3_solver_assert(Z, S, toBool(e));
		Z3_solver_set_params(Z, S, P[attempt]);
		r = Z3_solver_check(Z, S);
	}
	n_queries++;
	static const char *dumpdir = getenv("SYMX_DUMP");
	if (dumpdir && now() - t0 > 0.2) {
		FILE *f = fopen((string(dumpdir) + "/q" + std::to_string(n_queries) + ".smt2").c_str(), "w");
		Z3_solver_reset(Z, SV2);
		for (auto e : q) Z3_solver_assert(Z, SV2, toBool(e));
		if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(Z, SV2)); fclose(f); }
	}
	bool res = false;
	if (r == Z3_L_UNDEF) {
		t_solver += now() - t0;
		throw PathEnd{ST_UNSUPPORTED, "solver gave up (unknown)"};
	}
	if (r == Z3_L_TRUE) {
		res = true;
		n_sat++;
		Z3_model m = Z3_solver_get_model(Z, S);
		Z3_model_inc_ref(Z, m);
		std::set<uint32_t> vs;
		for (auto e : q) vs.insert(e->vars->begin(), e->vars->end());
		for (auto v : vs) {
			Z3_ast a = toZ3(g_vars[v].e), o;
			if (Z3_model_eval(Z, m, a, true, &o)) { Z3_inc_ref(Z, o); (*out)[v] = parseBV(o, g_vars[v].w); Z3_dec_ref(Z, o); }
		}
		Z3_model_dec_ref(Z, m);
	} else n_unsat++;
	Z3_solver_reset(Z, S);
	double dt = now() - t0;
	t_solver += dt;
	if (dt > t_maxq) t_maxq = dt;
	if (opt_verbose && dt > 1) { fprintf(stderr, "slow query %.2fs (%zu conj) last=%s\n", dt, q.size(), exprStr(q.back(), 8).substr(0, 600).c_str()); }
	return res;
}

// Is cons(s) && q satisfiable?  If so *out = full model.
static bool feasible(State &s, Expr *q, std::shared_ptr<Model> *out) {
	if (q->isC()) { if (q->c && out) *out = s.model; return q->c; }
	if (s.conset->count(q)) { if (out) *out = s.model; return true; }
	if (s.conset->count(mkNot(q))) return false;
	if (evalE(q, *s.model)) { n_modelhits++; if (out) *out = s.model; return true; }
	// slice
	vector<Expr *> slice{q};
	std::set<uint32_t> vs(q->vars->begin(), q->vars->end());
	std::set<const VarSet *> seenVS{q->vars};
	vector<char> used(s.cons.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
			const VarSet *cv = s.cons[i]->vars;
			bool hit = seenVS.count(cv);
			if (!hit) for (auto v : *cv) if (vs.count(v)) { hit = true; break; }
			if (hit) {
				used[i] = 1;
				slice.push_back(s.cons[i]);
				if (seenVS.insert(cv).second) { for (auto v : *cv) if (vs.insert(v).second) ch = true; }
			}
		}
	}
	vector<uint32_t> key;
	for (auto e : slice) key.push_back(e->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = qcache.find(key);
	if (it != qcache.end()) {
		n_cached++;
		if (!it->second.sat) return false;
		if (out) {
			auto m = make_shared<Model>(*s.model);
			for (auto &p : *it->second.vals) (*m)[p.first] = p.second;
			*out = m;
		}
		return true;
	}
	Model mm;
	bool r = zcheck(slice, &mm, nullptr);
	QRes qr; qr.sat = r;
	if (r) {
		qr.vals = make_shared<vector<std::pair<uint32_t, u128>>>(mm.begin(), mm.end());
		if (out) {
			auto m = make_shared<Model>(*s.model);
			for (auto &p : mm) (*m)[p.first] = p.second;
			*out = m;
		}
	}
	qcache[key] = qr;
	return r;
}

static void addFixed(State &s, Expr *e, u128 v) {
	if (s.fixed.use_count() > 1) s.fixed = make_shared<std::unordered_map<Expr *, u128>>(*s.fixed);
	(*s.fixed)[e] = v;
}
// Add a constraint known to hold under s.model
static void addCons(State &s, Expr *c) {
	if (c->isC()) return;
	if (s.conset->count(c)) return;
	if (c->op == O_AND && c->w == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
	if (c->op == O_XOR && c->w == 1 && c->k[1]->isC() && c->k[0]->op == O_OR) { addCons(s, mkNot(c->k[0]->k[0])); addCons(s, mkNot(c->k[0]->k[1])); return; }
	s.cons.push_back(c);
	if (s.conset.use_count() > 1) s.conset = make_shared<std::unordered_set<Expr *>>(*s.conset);
	s.conset->insert(c);
	if (c->op == O_EQ && c->k[1]->isC()) addFixed(s, c->k[0], c->k[1]->c);
}

static State *cloneState(State &s) {
	State *n = new State(s);
	n->id = next_state_id++;
	return n;
}
static bool g_drop_check(State &s, u64 v) {
	// returns true if this state belongs to another shard
	s.forks++;
	s.fhash = (s.fhash ^ (v + 0x9E37)) * 1099511628211ull; s.fhash ^= s.fhash >> 29;
	if (opt_nshards > 1 && (int)s.forks == opt_shard_depth) return (int)((s.fhash >> 7) % opt_nshards) != opt_shard;
	return false;
}

// Decide a boolean in state s; may fork. Returns the direction for s itself.
// The sibling gets `sib` applied to it (e.g. jump elsewhere) before being queued.
static bool decide(State &s, Expr *c, const std::function<void(State &)> *sib, bool *forked = nullptr) {
	if (c->isC()) return c->c;
	if (s.conset->count(c)) return true;
	Expr *nc = mkNot(c);
	if (s.conset->count(nc)) return false;
	bool dir = evalE(c, *s.model);
	Expr *mine = dir ? c : nc, *other = dir ? nc : c;
	std::shared_ptr<Model> om;
	if (feasible(s, other, &om)) {
		n_forks++;
		if (forked) *forked = true;
		State *n = cloneState(s);
		n->model = om;
		addCons(*n, other);
		bool dropn = g_drop_check(*n, dir ? 0 : 1);
		if (dropn) delete n;
		else { if (sib) (*sib)(*n); worklist.push_back(n); }
		addCons(s, mine);
		if (g_drop_check(s, dir ? 1 : 0)) throw PathEnd{ST_DROP, ""};
	} else {
		// implied: remember it (cheap; helps later lookups)
		if (s.conset.use_count() > 1) s.conset = make_shared<std::unordered_set<Expr *>>(*s.conset);
		s.conset->insert(mine);
	}
	return dir;
}

// Make a value concrete, forking over all feasible values. Instruction must be restartable.
static u128 concretize(State &s, const Val &v, int cap = 0) {
	if (!cap) cap = opt_cap;
	if (v.conc()) return v.c;
	Expr *e = v.e;
	if (e->isC()) return e->c;
	auto f = s.fixed->find(e);
	if (f != s.fixed->end()) return f->second;
	vector<u128> vals;
	vector<std::shared_ptr<Model>> mods;
	u128 v0 = evalE(e, *s.model);
	vals.push_back(v0); mods.push_back(s.model);
	{
		State probe(s);
		addCons(probe, mkNot(mkBin(O_EQ, e, mkC(v0, e->w))));
		Expr *last = mkNot(mkBin(O_EQ, e, mkC(v0, e->w)));
		while (true) {
			std::shared_ptr<Model> om;
			// probe.model may not satisfy `last`; query with last as q against s plus previous exclusions
			Expr *q = mkC(1, 1);
			for (auto x : vals) q = mkBin(O_AND, q, mkNot(mkBin(O_EQ, e, mkC(x, e->w))));
			(void)last;
			if (!feasible(s, q, &om)) break;
			u128 x = evalE(e, *om);
			vals.push_back(x); mods.push_back(om);
			if ((int)vals.size() > cap) throw PathEnd{ST_UNSUPPORTED, "concretize: more than " + std::to_string(cap) + " values at " + locOf(s) + " of " + exprStr(e, 4)};
		}
	}
	// deterministic order
	vector<size_t> ord(vals.size());
	for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
	std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return vals[a] < vals[b]; });
	if (vals.size() > 1) {
		n_forks += vals.size() - 1;
		for (size_t j = ord.size(); j-- > 1;) {
			size_t i = ord[j];
			State *n = cloneState(s);
			n->model = mods[i];
			addCons(*n, mkBin(O_EQ, e, mkC(vals[i], e->w)));
			addFixed(*n, e, vals[i]);
			if (g_drop_check(*n, (u64)vals[i])) delete n; else worklist.push_back(n);
		}
		size_t i = ord[0];
		s.model = mods[i];
		addCons(s, mkBin(O_EQ, e, mkC(vals[i], e->w)));
		addFixed(s, e, vals[i]);
		if (g_drop_check(s, (u64)vals[i])) throw PathEnd{ST_DROP, ""};
		return vals[i];
	}
	addFixed(s, e, v0);
	return v0;
}

// ------------------------------------------------------------------ counterexamples
static void writeInputs(FILE *f, State &s, const Model &m) {
	for (auto &in : s.inputs) {
		u128 v = evalE(in.second.ex(), m);
		fprintf(f, "in %s %u %llu\n", in.first.c_str(), in.second.w, (unsigned long long)v);
	}
}
static void reportViolation(State &s, const string &msg, std::shared_ptr<Model> m) {
	// key: message up to '|'
	string key = msg;
	int &cnt = cex_msgs[key];
	cnt++;
	if (cnt > 2 || n_cex >= opt_maxcex) return;
	string fn = opt_out + ".cex" + std::to_string(n_cex++);
	FILE *f = fopen(fn.c_str(), "w");
	string loc = locOf(s);
	fprintf(f, "# %s\n# at %s\n", msg.c_str(), loc.c_str());
	fprintf(f, "msg %s\n", msg.c_str());
	writeInputs(f, s, *m);
	for (auto &o : s.obs) fprintf(f, "# obs %s %llu\n", o.name.c_str(), (unsigned long long)evalE(o.v.ex(), *m));
	for (auto &t : s.trace) fprintf(f, "# trace %s\n", t.c_str());
	fclose(f);
	fprintf(stderr, "CEX %s: %s\n   at %s\n", fn.c_str(), msg.c_str(), loc.c_str());
}
static int n_samples = 0;
static void writeSample(State &s) {
	// the first few paths, then ever sparser ones, overwriting older late samples
	static u64 next = 1;
	if (n_samples >= opt_samples && n_paths < next) return;
	int idx;
	if (n_samples < opt_samples) idx = n_samples++;
	else { idx = opt_samples / 2 + (int)(n_paths % (u64)std::max(1, opt_samples - opt_samples / 2)); }
	next = n_paths + n_paths / 4 + 1;
	string fn = opt_out + ".trace" + std::to_string(idx);
	FILE *f = fopen(fn.c_str(), "w");
	fprintf(f, "msg OK\n");
	writeInputs(f, s, *s.model);
	for (auto &o : s.obs) fprintf(f, "obs %s %llu\n", o.name.c_str(), (unsigned long long)evalE(o.v.ex(), *s.model));
	fclose(f);
}

// ------------------------------------------------------------------ memory
static const u64 REDZONE = 64;
static MMap &memW(State &s) {
	if (s.mem.use_count() > 1) s.mem = make_shared<MMap>(*s.mem);
	return *s.mem;
}
static Obj *newObj(State &s, u64 size, uint8_t kind, const char *name) {
	Obj *o = new Obj;
	u64 &nx = kind == 1 ? s.stackNext : s.heapNext;
	o->base = nx;
	nx += (size + REDZONE + 31) & ~31ull;
	o->size = size;
	o->kind = kind;
	o->d.assign(size, kind == 0 ? 0xAA : 0xAB);
	o->name = name;
	memW(s)[o->base] = ORef(o);
	return o;
}
static Obj *findIn(MMap &m, u64 a, u64 n) {
	auto it = m.upper_bound(a);
	if (it == m.begin()) return nullptr;
	--it;
	Obj *o = it->second.o;
	if (a >= o->base && a - o->base <= o->size && n <= o->size - (a - o->base)) return o;
	return nullptr;
}
[[noreturn]] static void violation(State &s, const string &msg) {
	reportViolation(s, msg, s.model);
	throw PathEnd{ST_VIOLATION, msg};
}
static string hex(u64 x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }

static Obj *getR(State &s, u64 a, u64 n) {
	Obj *o = findIn(*s.mem, a, n);
	if (o) return o;
	if (a < 0x100000000ull) {
		o = findIn(gconst, a, n);
		if (o) return o;
		o = findIn(ginit, a, n);
		if (o && !s.mem->count(o->base)) return o;
	}
	violation(s, "memory: invalid read of " + std::to_string(n) + " bytes" + (a < 4096 ? " near null" : ""));
}
static Obj *getW(State &s, u64 a, u64 n) {
	Obj *o = findIn(*s.mem, a, n);
	if (!o && a < 0x100000000ull) {
		o = findIn(ginit, a, n);
		if (o && !s.mem->count(o->base)) {
			Obj *c = new Obj(*o); c->rc = 0;
			memW(s)[c->base] = ORef(c);
			return c;
		}
		o = nullptr;
	}
	if (!o) violation(s, "memory: invalid write of " + std::to_string(n) + " bytes" + (a < 4096 ? " near null" : ""));
	if (o->ro) violation(s, "memory: write to constant");
	MMap &m = memW(s);
	if (o->rc > 1) {
		Obj *c = new Obj(*o); c->rc = 0;
		m[c->base] = ORef(c);
		return c;
	}
	return o;
}
static Expr *byteAt(Obj *o, u64 off) {
	if (!o->s.empty() && o->s[off]) return o->s[off];
	return mkC(o->d[off], 8);
}
static Val loadBits(Obj *o, u64 off, unsigned w) {
	unsigned n = (w + 7) / 8;
	bool sym = false;
	if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
	if (!sym && w <= 64) {
		u64 v = 0;
		memcpy(&v, &o->d[off], n);
		return Val::C(v, w);
	}
	Expr *e = byteAt(o, off + n - 1);
	for (int i = n - 2; i >= 0; i--) e = mkBin(O_CONCAT, e, byteAt(o, off + i));
	if (w < n * 8) e = mkExtract(e, 0, w);
	return Val::E(e);
}
static void storeBits(Obj *o, u64 off, const Val &v, unsigned w) {
	unsigned n = (w + 7) / 8;
	if (v.conc()) {
		u64 c = v.c;
		memcpy(&o->d[off], &c, std::min(n, 8u));
		if (n > 8) memset(&o->d[off + 8], 0, n - 8);
		if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
		return;
	}
	Expr *e = v.e;
	if (w < n * 8) e = mkZExt(e, n * 8);
	if (o->s.empty()) o->s.assign(o->size, nullptr);
	for (unsigned i = 0; i < n; i++) {
		Expr *b = mkExtract(e, i * 8, 8);
		if (b->isC()) { o->s[off + i] = nullptr; o->d[off + i] = (uint8_t)b->c; }
		else o->s[off + i] = b;
	}
}
// mux tree over object contents indexed by symbolic offset
static Expr *muxTree(Obj *o, Expr *idx, unsigned bit, u64 base, unsigned stride, u64 n, unsigned w) {
	// idx: index expression; select among entries base .. base+2^bit-1
	if (base >= n) return nullptr;
	if (bit == 0) return loadBits(o, base * stride, w).ex();
	Expr *lo = muxTree(o, idx, bit - 1, base, stride, n, w);
	Expr *hi = muxTree(o, idx, bit - 1, base + (1ull << (bit - 1)), stride, n, w);
	if (!hi) return lo;
	return mkIte(mkExtract(idx, bit - 1, 1), hi, lo);
}
static unsigned lowZeroBits(Expr *e) {
	if (e->isC()) { unsigned n = 0; while (n < e->w && !((e->c >> n) & 1)) n++; return n; }
	switch (e->op) {
	case O_CONCAT: { unsigned n = lowZeroBits(e->k[1]); return n == e->k[1]->w ? n + lowZeroBits(e->k[0]) : n; }
	case O_ZEXT: case O_SEXT: { unsigned n = lowZeroBits(e->k[0]); return n == e->k[0]->w ? e->w : n; }
	case O_ADD: case O_SUB: case O_OR: return std::min(lowZeroBits(e->k[0]), lowZeroBits(e->k[1]));
	case O_MUL: return std::min<unsigned>(e->w, lowZeroBits(e->k[0]) + lowZeroBits(e->k[1]));
	case O_AND: return std::max(lowZeroBits(e->k[0]), lowZeroBits(e->k[1]));
	case O_ITE: return std::min(lowZeroBits(e->k[1]), lowZeroBits(e->k[2]));
	case O_EXTRACT: if ((unsigned)e->c == 0) return std::min<unsigned>(e->w, lowZeroBits(e->k[0])); return 0;
	default: return 0;
	}
}
static Val loadAt(State &s, const Val &addr, unsigned w) {
	unsigned n = (w + 7) / 8;
	if (addr.conc()) { Obj *o = getR(s, addr.c, n); return loadBits(o, addr.c - o->base, w); }
	auto f = s.fixed->find(addr.e);
	if (f != s.fixed->end()) { Obj *o = getR(s, (u64)f->second, n); return loadBits(o, (u64)f->second - o->base, w); }
	u64 a0 = (u64)evalE(addr.e, *s.model);
	Obj *o = getR(s, a0, n);
	Expr *inb = mkBin(O_AND, mkBin(O_ULE, mkC(o->base, 64), addr.e), mkBin(O_ULE, addr.e, mkC(o->base + o->size - n, 64)));
	std::shared_ptr<Model> om;
	if (feasible(s, mkNot(inb), &om)) {
		// maybe several objects: split on in-bounds of this one
		decide(s, inb, nullptr);   // sibling re-executes this instruction
		// s continues in the direction of its model: in-bounds
	}
	Expr *off = mkBin(O_SUB, addr.e, mkC(o->base, 64));
	unsigned z = std::min(lowZeroBits(off), 12u);
	while (z > 0 && (1u << z) > std::max<u64>(o->size, 1)) z--;
	u64 stride = 1ull << z;
	u64 cnt = (o->size - n) / stride + 1;
	if (cnt <= 4096 && stride >= n) {
		unsigned bits = 0; while ((1ull << bits) < cnt) bits++;
		if (bits == 0) return loadBits(o, 0, w);
		Expr *idx = mkExtract(off, z, bits);
		if (w <= 64 && cnt == (1ull << bits) && bits >= 4) {
			// table that is affine over GF(2) (checked entry by entry): xor of per-bit contributions
			bool ok = true;
			vector<u64> t(cnt);
			for (u64 i = 0; i < cnt && ok; i++) { Val x = loadBits(o, i * stride, w); if (!x.conc()) ok = false; else t[i] = x.c; }
			for (u64 i = 1; i < cnt && ok; i++) { u64 lb = i & -i; if (t[i] != (t[i ^ lb] ^ t[lb] ^ t[0])) ok = false; }
			if (ok) {
				Expr *e = mkC(t[0], w);
				for (unsigned b = 0; b < bits; b++) e = mkBin(O_XOR, e, mkIte(mkExtract(idx, b, 1), mkC(t[1ull << b] ^ t[0], w), mkC(0, w)));
				return Val::E(e);
			}
		}
		return Val::E(muxTree(o, idx, bits, 0, stride, cnt, w));
	}
	u64 a = (u64)concretize(s, addr);
	o = getR(s, a, n);
	return loadBits(o, a - o->base, w);
}
static void storeAt(State &s, const Val &addr, const Val &v, unsigned w) {
	u64 a = addr.conc() ? addr.c : (u64)concretize(s, addr);
	Obj *o = getW(s, a, (w + 7) / 8);
	storeBits(o, a - o->base, v, w);
}

static Val loadTy(State &s, Type *T, const Val &addr);
static Val addrPlus(const Val &a, u64 k) {
	if (!k) return a;
	if (a.conc()) return Val::C(a.c + k, 64);
	return Val::E(mkBin(O_ADD, a.e, mkC(k, 64)));
}
static Val loadTy(State &s, Type *T, const Val &addr) {
	if (auto *st = dyn_cast<StructType>(T)) {
		Val r; r.agg = make_shared<vector<Val>>();
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadTy(s, st->getElementType(i), addrPlus(addr, sl->getElementOffset(i))));
		return r;
	}
	if (auto *at = dyn_cast<ArrayType>(T)) {
		Val r; r.agg = make_shared<vector<Val>>();
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadTy(s, at->getElementType(), addrPlus(addr, i * es)));
		return r;
	}
	if (auto *vt = dyn_cast<FixedVectorType>(T)) {
		Val r; r.agg = make_shared<vector<Val>>();
		u64 es = DL->getTypeAllocSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(loadTy(s, vt->getElementType(), addrPlus(addr, i * es)));
		return r;
	}
	return loadAt(s, addr, DL->getTypeSizeInBits(T));
}
static void storeTy(State &s, Type *T, const Val &addr, const Val &v) {
	if (auto *st = dyn_cast<StructType>(T)) {
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, st->getElementType(i), addrPlus(addr, sl->getElementOffset(i)), (*v.agg)[i]);
		return;
	}
	if (auto *at = dyn_cast<ArrayType>(T)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(s, at->getElementType(), addrPlus(addr, i * es), (*v.agg)[i]);
		return;
	}
	if (auto *vt = dyn_cast<FixedVectorType>(T)) {
		u64 es = DL->getTypeAllocSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(s, vt->getElementType(), addrPlus(addr, i * es), (*v.agg)[i]);
		return;
	}
	storeAt(s, addr, v, DL->getTypeSizeInBits(T));
}
static void copyMem(State &s, u64 dst, u64 src, u64 n) {
	if (!n) return;
	Obj *so = getR(s, src, n);
	ORef hold(so);
	Obj *d = getW(s, dst, n);
	// getW may have copied d; so stays alive through hold. If same object use temp copies.
	u64 so_ = src - so->base, do_ = dst - d->base;
	vector<uint8_t> tb(so->d.begin() + so_, so->d.begin() + so_ + n);
	vector<Expr *> ts;
	if (!so->s.empty()) ts.assign(so->s.begin() + so_, so->s.begin() + so_ + n);
	std::copy(tb.begin(), tb.end(), d->d.begin() + do_);
	bool any = false;
	for (auto e : ts) if (e) { any = true; break; }
	if (any) {
		if (d->s.empty()) d->s.assign(d->size, nullptr);
		std::copy(ts.begin(), ts.end(), d->s.begin() + do_);
	} else if (!d->s.empty()) std::fill(d->s.begin() + do_, d->s.begin() + do_ + n, nullptr);
}
static string cstr(State &s, u64 a) {
	string r;
	while (true) {
		Obj *o = getR(s, a, 1);
		u64 off = a - o->base;
		if (!o->s.empty() && o->s[off]) return r + "?";
		char c = o->d[off];
		if (!c) return r;
		r += c; a++;
	}
}

// ------------------------------------------------------------------ constants
static PF *getPF(const Function *F);
static Val zeroVal(Type *T) {
	if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
		Val r; r.agg = make_shared<vector<Val>>();
		unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
		for (unsigned i = 0; i < n; i++) r.agg->push_back(zeroVal(T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType()));
		return r;
	}
	unsigned w = DL->getTypeSizeInBits(T);
	if (w > 64) { Val r = Val::E(mkC(0, w)); if (!r.e) r.e = mkC(0, w); return r; }
	return Val::C(0, w);
}
static Val valOfAP(const APInt &a) {
	unsigned w = a.getBitWidth();
	if (w <= 64) return Val::C(a.getZExtValue(), w);
	u128 v = a.extractBitsAsZExtValue(64, 0);
	if (w > 64) v |= (u128)a.extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64;
	Val r; r.w = w; r.e = mkC(v, w); return r;
}
static u64 globalAddr(const GlobalVariable *g);
static Val constVal(const Constant *C) {
	Type *T = C->getType();
	if (auto *ci = dyn_cast<ConstantInt>(C)) return valOfAP(ci->getValue());
	if (auto *cf = dyn_cast<ConstantFP>(C)) return valOfAP(cf->getValueAPF().bitcastToAPInt());
	if (isa<ConstantPointerNull>(C) || isa<ConstantAggregateZero>(C)) return zeroVal(T);
	if (isa<UndefValue>(C)) return zeroVal(T);
	if (auto *f = dyn_cast<Function>(C)) {
		if (f->hasExternalWeakLinkage() && f->isDeclaration() && !getPF(f)->bi) return Val::C(0, 64);
		return Val::C(getPF(f)->addr, 64);
	}
	if (auto *g = dyn_cast<GlobalVariable>(C)) {
		if (g->isThreadLocal()) return Val::C(0xdead0000ull, 64);   // only valid through threadlocal.address
		return Val::C(globalAddr(g), 64);
	}
	if (auto *ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
	if (auto *ca = dyn_cast<ConstantAggregate>(C)) {
		Val r; r.agg = make_shared<vector<Val>>();
		for (unsigned i = 0; i < ca->getNumOperands(); i++) r.agg->push_back(constVal(ca->getOperand(i)));
		return r;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
		Val r; r.agg = make_shared<vector<Val>>();
		for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constVal(cd->getElementAsConstant(i)));
		return r;
	}
	if (auto *ce = dyn_cast<ConstantExpr>(C)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			auto *gep = cast<GEPOperator>(ce);
			if (!gep->accumulateConstantOffset(*DL, off)) throw PathEnd{ST_UNSUPPORTED, "const gep"};
			Val b = constVal(cast<Constant>(gep->getPointerOperand()));
			return Val::C(b.c + off.getSExtValue(), 64);
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
			Val v = constVal(ce->getOperand(0));
			unsigned w = DL->getTypeSizeInBits(T);
			return Val::C(v.c, w);
		}
		case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); return Val::C(v.c, DL->getTypeSizeInBits(T)); }
		case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val::C(a.c - b.c, a.w); }
		case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val::C(a.c + b.c, a.w); }
		case Instruction::ICmp: {
			Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: return Val::C(a.c == b.c, 1);
			case CmpInst::ICMP_NE: return Val::C(a.c != b.c, 1);
			default: break;
			}
			break;
		}
		default: break;
		}
		string str; raw_string_ostream os(str); ce->print(os);
		throw PathEnd{ST_UNSUPPORTED, "constant expression " + str};
	}
	string str; raw_string_ostream os(str); C->print(os);
	throw PathEnd{ST_UNSUPPORTED, "constant " + str};
}
static void initConst(Obj *o, u64 off, const Constant *C) {
	Type *T = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
	if (auto *st = dyn_cast<StructType>(T)) {
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), C->getAggregateElement(i));
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
		StringRef raw = cd->getRawDataValues();
		memcpy(&o->d[off], raw.data(), raw.size());
		return;
	}
	if (auto *at = dyn_cast<ArrayType>(T)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, C->getAggregateElement(i));
		return;
	}
	Val v = constVal(C);
	unsigned w = DL->getTypeSizeInBits(T);
	if (v.e && v.e->isC()) {
		u128 c = v.e->c; memcpy(&o->d[off], &c, (w + 7) / 8);
	} else { u64 c = v.c; memcpy(&o->d[off], &c, std::min(8u, (w + 7) / 8)); }
}
static u64 g_next_global = 0x10000000ull;
static u64 globalAddr(const GlobalVariable *g) {
	auto it = gaddr.find(g);
	if (it != gaddr.end()) return it->second;
	u64 sz = g->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g->getValueType()) : 64;
	if (g->isDeclaration()) {
		if (g->hasExternalWeakLinkage()) return gaddr[g] = 0;
		sz = std::max<u64>(sz, 256);
	}
	u64 a = g_next_global;
	u64 al = std::max<u64>(16, g->getAlign() ? g->getAlign()->value() : 16);
	a = (a + al - 1) & ~(al - 1);
	g_next_global = a + sz + REDZONE;
	gaddr[g] = a;
	Obj *o = new Obj;
	o->base = a; o->size = sz; o->kind = 2; o->name = g->getName().str();
	o->d.assign(sz, 0);
	o->ro = g->isConstant();
	if (g->isDeclaration()) {
		if (o->name == "_ZSt21__libc_single_threaded" || o->name == "__libc_single_threaded") o->d[0] = 1;
		o->ro = false;
		if (o->name.compare(0, 4, "_ZTI") == 0) {
			// typeinfo of a library type: give it its name so that type_info::operator== works
			Obj *n = new Obj;
			string nm = o->name.substr(4);
			n->base = (g_next_global + 15) & ~15ull; n->size = nm.size() + 1; n->kind = 2; n->name = "tiname"; n->ro = true;
			n->d.assign(nm.c_str(), nm.c_str() + nm.size() + 1);
			g_next_global = n->base + n->size + REDZONE;
			gconst[n->base] = ORef(n);
			u64 na = n->base; memcpy(&o->d[8], &na, 8);
		}
	}
	(o->ro ? gconst : ginit)[a] = ORef(o);
	if (g->hasInitializer()) initConst(o, 0, g->getInitializer());
	return a;
}
static u64 tlsAddr(State &s, const GlobalVariable *g) {
	u64 id = (u64)(uintptr_t)g;
	auto &t = s.th[s.cur].tls;
	auto it = t.find(id);
	if (it != t.end()) return it->second;
	u64 sz = DL->getTypeAllocSize(g->getValueType());
	Obj *o = newObj(s, sz, 2, "tls");
	std::fill(o->d.begin(), o->d.end(), 0);
	if (g->hasInitializer()) initConst(o, 0, g->getInitializer());
	t[id] = o->base;
	return o->base;
}

// ------------------------------------------------------------------ functions
static u64 g_next_faddr = 0x1000000ull;
static PF *getPF(const Function *F) {
	auto it = pfs.find(F);
	if (it != pfs.end()) return it->second;
	PF *p = new PF;
	p->F = const_cast<Function *>(F);
	p->name = F->getName().str();
	p->dem = demangle(p->name);
	p->addr = g_next_faddr; g_next_faddr += 16;
	faddr[p->addr] = p;
	pfs[F] = p;
	if (F->isDeclaration()) {
		auto b = builtins.find(p->name);
		if (b != builtins.end()) p->bi = &b->second;
	}
	if (F->hasFnAttribute("symx-stub")) p->stub = atoi(F->getFnAttribute("symx-stub").getValueAsString().str().c_str());
	if (auto *sp = F->getSubprogram()) {
		string fn = sp->getFile() ? (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str() : "";
		p->project = fn.find("/src/bees") != string::npos || fn.find("/lib/") != string::npos || fn.find("crucible/") != string::npos;
		if (fn.find("/usr/") != string::npos) { if (sp->getFile()->getFilename().starts_with("/usr/")) p->project = false; }
	}
	return p;
}

static void decode(PF *p) {
	p->decoded = true;
	Function &F = *p->F;
	map<const Value *, int> reg;
	map<const BasicBlock *, int> bbi;
	int n = 0;
	for (auto &a : F.args()) { reg[&a] = n; p->args.push_back(n++); }
	int b = 0;
	for (auto &B : F) { bbi[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
	p->nregs = n;
	auto mk = [&](Value *v) {
		Opnd o;
		if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
		if (auto *c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
		o.reg = reg.at(v);
		return o;
	};
	p->bb.resize(b);
	for (auto &B : F) {
		PBB &pb = p->bb[bbi[&B]];
		for (auto &I : B) {
			if (auto *ph = dyn_cast<PHINode>(&I)) {
				vector<std::pair<int, Opnd>> inc;
				for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) inc.push_back({bbi[ph->getIncomingBlock(i)], mk(ph->getIncomingValue(i))});
				pb.phis.push_back({reg[&I], inc});
				continue;
			}
			if (isa<DbgInfoIntrinsic>(&I)) continue;
			PI pi;
			pi.I = &I;
			pi.op = I.getOpcode();
			if (!I.getType()->isVoidTy()) pi.dst = reg[&I];
			if (I.getType()->isSized() && !I.getType()->isStructTy() && !I.getType()->isArrayTy() && !I.getType()->isVectorTy()) pi.w = DL->getTypeSizeInBits(I.getType());
			switch (I.getOpcode()) {
			case Instruction::Br: {
				auto *br = cast<BranchInst>(&I);
				if (br->isConditional()) { pi.ops.push_back(mk(br->getCondition())); pi.b1 = bbi[br->getSuccessor(1)]; }
				pi.b0 = bbi[br->getSuccessor(0)];
				break;
			}
			case Instruction::Switch: {
				auto *sw = cast<SwitchInst>(&I);
				pi.ops.push_back(mk(sw->getCondition()));
				pi.b0 = bbi[sw->getDefaultDest()];
				for (auto &c : sw->cases()) { Val cv = valOfAP(c.getCaseValue()->getValue()); pi.cases.push_back({cv.e ? cv.e->c : cv.c, bbi[c.getCaseSuccessor()]}); }
				break;
			}
			case Instruction::Call: case Instruction::Invoke: {
				auto *cb = cast<CallBase>(&I);
				if (auto *iv = dyn_cast<InvokeInst>(&I)) { pi.b0 = bbi[iv->getNormalDest()]; pi.b1 = bbi[iv->getUnwindDest()]; }
				Value *cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
				if (auto *cf = dyn_cast<Function>(cv)) {
					if (cf->getName() == "llvm.threadlocal.address.p0") {
						auto *g = cast<GlobalVariable>(cb->getArgOperand(0));
						pi.callee = getPF(cf); pi.k1 = (u64)(uintptr_t)g;
						break;
					}
					pi.callee = getPF(cf);
					for (auto &a : cb->args()) pi.ops.push_back(mk(a));
				} else {
					for (auto &a : cb->args()) pi.ops.push_back(mk(a));
					pi.ops.push_back(mk(cb->getCalledOperand()));
				}
				break;
			}
			case Instruction::GetElementPtr: {
				auto *g = cast<GetElementPtrInst>(&I);
				pi.ops.push_back(mk(g->getPointerOperand()));
				u64 k = 0;
				for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
					Value *idx = gi.getOperand();
					if (auto *st = gi.getStructTypeOrNull()) {
						k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					} else {
						u64 sc = gi.getSequentialElementStride(*DL);
						if (auto *ci = dyn_cast<ConstantInt>(idx)) k += sc * ci->getSExtValue();
						else { pi.gep.push_back({(int)pi.ops.size(), sc}); pi.ops.push_back(mk(idx)); }
					}
				}
				pi.k1 = k;
				break;
			}
			case Instruction::Alloca: {
				auto *a = cast<AllocaInst>(&I);
				pi.k1 = DL->getTypeAllocSize(a->getAllocatedType());
				pi.ops.push_back(mk(a->getArraySize()));
				break;
			}
			case Instruction::LandingPad: break;
			default:
				for (auto &o : I.operands()) pi.ops.push_back(mk(o));
			}
			pb.in.push_back(std::move(pi));
		}
	}
}

static void pushFrame(State &s, PF *f, vector<Val> &args) {
	if (!f->decoded) decode(f);
	f->calls++;
	auto &fr = s.th[s.cur].fr;
	if (fr.size() > 4000) throw PathEnd{ST_UNSUPPORTED, "stack too deep"};
	fr.emplace_back();
	Frame &n = fr.back();
	n.f = f;
	n.regs.resize(f->nregs);
	for (size_t i = 0; i < f->args.size() && i < args.size(); i++) n.regs[f->args[i]] = std::move(args[i]);
	for (size_t i = f->args.size(); i < args.size(); i++) n.va.push_back(args[i]);
}
static void gotoBB(State &s, int target) {
	Frame &f = s.top();
	int from = f.bb;
	PBB &b = f.f->bb[target];
	if (!b.phis.empty()) {
		vector<Val> nv(b.phis.size());
		for (size_t i = 0; i < b.phis.size(); i++) {
			bool ok = false;
			for (auto &p : b.phis[i].second) if (p.first == from) { nv[i] = p.second.reg >= 0 ? f.regs[p.second.reg] : p.second.v; ok = true; break; }
			if (!ok) throw PathEnd{ST_UNSUPPORTED, "phi"};
		}
		for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].first] = std::move(nv[i]);
	}
	f.prev = from;
	f.bb = target;
	f.pc = 0;
}
static void popFrame(State &s) {
	auto &fr = s.th[s.cur].fr;
	if (!fr.back().allocas.empty()) {
		MMap &m = memW(s);
		for (auto a : fr.back().allocas) m.erase(a);
	}
	fr.pop_back();
}
// After a call in the current top frame produced r: store & advance
static void finishCall(State &s, const Val &r) {
	Frame &f = s.top();
	PI &pi = f.f->bb[f.bb].in[f.pc];
	if (pi.dst >= 0) {
		f.regs[pi.dst] = r;
		Val &x = f.regs[pi.dst];
		if (!x.agg && pi.w && x.w != pi.w) {
			if (x.w == 0) x = Val::C(0, pi.w);
			else if (x.conc()) x = Val::C(x.c, pi.w);
			else x = Val::E(x.w > pi.w ? mkExtract(x.e, 0, pi.w) : mkZExt(x.e, pi.w));
		}
	}
	if (pi.op == Instruction::Invoke) gotoBB(s, pi.b0);
	else f.pc++;
}

// ------------------------------------------------------------------ exceptions
static const GlobalVariable *gvAt(u64 a) {
	static std::unordered_map<u64, const GlobalVariable *> rev;
	static size_t n = 0;
	if (n != gaddr.size()) { for (auto &p : gaddr) rev[p.second] = p.first; n = gaddr.size(); }
	auto it = rev.find(a);
	return it == rev.end() ? nullptr : it->second;
}
static const map<string, string> &stdParents() {
	static const map<string, string> m = {
		{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
		{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
		{"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
		{"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
		{"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
		{"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
	};
	return m;
}
static bool tiMatch(u64 thrown, u64 want) {
	if (thrown == want) return true;
	const GlobalVariable *g = gvAt(thrown), *w = gvAt(want);
	if (!g) return false;
	if (w && w->getName() == g->getName()) return true;
	if (!g->hasInitializer()) {
		auto it = stdParents().find(g->getName().str());
		if (it == stdParents().end()) return false;
		if (w && w->getName() == it->second) return true;
		// climb by name
		string cur = it->second;
		while (true) {
			if (w && w->getName() == cur) return true;
			auto j = stdParents().find(cur);
			if (j == stdParents().end()) return false;
			cur = j->second;
		}
	}
	const Constant *C = g->getInitializer();
	unsigned n = C->getNumOperands();
	for (unsigned i = 2; i < n; i++) {
		auto *b = dyn_cast<GlobalVariable>(C->getOperand(i)->stripPointerCasts());
		if (b && tiMatch(globalAddr(b), want)) return true;
	}
	return false;
}
static int typeId(u64 ti) {
	auto it = typeids.find(ti);
	if (it != typeids.end()) return it->second;
	int n = typeids.size() + 1;
	return typeids[ti] = n;
}
static string tiName(u64 ti) { auto *g = gvAt(ti); return g ? demangle(g->getName().str()) : "?"; }

// Unwind from the current top frame's call instruction (if fromCall) or resume.
static void unwind(State &s, u64 exn) {
	Thread &t = s.th[s.cur];
	u64 ti = s.exns[exn].ti;
	static const bool dbg = getenv("SYMX_THROW");
	if (dbg) {
		fprintf(stderr, "UNWIND %s thread %d\n", tiName(ti).c_str(), (int)s.cur);
		for (auto &f : t.fr) fprintf(stderr, "    %s\n", demangle(f.f->F->getName().str()).substr(0, 150).c_str());
	}
	while (!t.fr.empty()) {
		Frame &f = t.fr.back();
		PI &pi = f.f->bb[f.bb].in[f.pc];
		if (pi.op == Instruction::Invoke) {
			BasicBlock *lb = cast<InvokeInst>(pi.I)->getUnwindDest();
			auto *lp = lb->getLandingPadInst();
			bool enter = false;
			int sel = 0;
			for (unsigned i = 0; i < lp->getNumClauses() && !enter; i++) {
				if (lp->isCatch(i)) {
					auto *c = lp->getClause(i)->stripPointerCasts();
					if (isa<ConstantPointerNull>(c)) { enter = true; sel = typeId(0); }
					else {
						u64 want = constVal(c).c;
						if (tiMatch(ti, want)) { enter = true; sel = typeId(want); }
					}
				} else {
					// filter: treat as not allowed -> enter with negative selector
					enter = true; sel = -1;
				}
			}
			if (!enter && lp->isCleanup()) enter = true;
			if (enter) {
				gotoBB(s, pi.b1);
				f.exn = Val::C(exn, 64);
				f.sel = Val::C((uint32_t)sel, 32);
				return;
			}
		}
		popFrame(s);
	}
	// rebuild something for location purposes is not possible; report
	violation(s, "uncaught exception " + tiName(ti));
}

// ------------------------------------------------------------------ builtins
static Val retZero(PI &pi) {
	Type *T = pi.I->getType();
	if (T->isVoidTy()) return Val();
	return zeroVal(T);
}
static u64 argC(State &s, Val &v) { return v.conc() ? v.c : (u64)concretize(s, v); }
static void writeEmptyString(State &s, u64 p) {
	Obj *o = getW(s, p, 32);
	u64 off = p - o->base;
	storeBits(o, off, Val::C(p + 16, 64), 64);
	storeBits(o, off + 8, Val::C(1, 64), 64);   // formatted text is modelled as "?": never empty, as real messages are not
	storeBits(o, off + 16, Val::C('?', 16), 16);
}
static string uniq(State &s, const string &n) {
	int k = s.namecount[n]++;
	return k ? n + "#" + std::to_string(k) : n;
}
static std::unordered_map<string, Expr *> s_varcache;
static Expr *inputVar(State &s, const string &name, unsigned w) {
	string u = uniq(s, name);
	string key = u + ":" + std::to_string(w);
	// share variables between paths (same name, same width): independent paths never mix
	auto it = s_varcache.find(key);
	Expr *e;
	if (it != s_varcache.end()) e = it->second;
	else s_varcache[key] = e = mkVar(u, w);
	s.inputs.push_back({u, Val::E(e)});
	return e;
}
static void assume(State &s, Val c) {
	Expr *e = c.ex();
	if (e->w != 1) e = mkNot(mkBin(O_EQ, e, mkC(0, e->w)));
	if (e->isC()) { if (!e->c) throw PathEnd{ST_INFEASIBLE, "assume"}; return; }
	std::shared_ptr<Model> m;
	if (!feasible(s, e, &m)) throw PathEnd{ST_INFEASIBLE, "assume"};
	s.model = m;
	addCons(s, e);
}
static void doAssert(State &s, Val c, const string &msg) {
	n_asserts++;
	Expr *e = c.ex();
	if (e->w != 1) e = mkNot(mkBin(O_EQ, e, mkC(0, e->w)));
	if (e->isC()) {
		if (e->c) { n_assert_triv++; return; }
		reportViolation(s, msg, s.model);
		throw PathEnd{ST_VIOLATION, msg};
	}
	n_assert_q++;
	std::shared_ptr<Model> m;
	if (feasible(s, mkNot(e), &m)) {
		reportViolation(s, msg, m);
		if (!feasible(s, e, &m)) throw PathEnd{ST_VIOLATION, msg};
		s.model = m;
		addCons(s, e);
	} else {
		if (s.conset.use_count() > 1) s.conset = make_shared<std::unordered_set<Expr *>>(*s.conset);
		s.conset->insert(e);
	}
}
static void setupBuiltins() {
	auto def = [&](const char *n, Builtin b) { builtins[n] = b; };
#define B [](State &s, PI &pi, vector<Val> &a, Val &r)
	Builtin allocB = B { u64 n = argC(s, a[0]); if (n > (1ull << 30)) throw PathEnd{ST_UNSUPPORTED, "huge allocation at " + locOf(s)}; r = Val::C(newObj(s, n, 0, "heap")->base, 64); };
	for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) def(n, allocB);
	def("calloc", B { u64 n = argC(s, a[0]), m = argC(s, a[1]); Obj *o = newObj(s, n * m, 0, "heap"); std::fill(o->d.begin(), o->d.end(), 0); r = Val::C(o->base, 64); });
	def("aligned_alloc", B { u64 n = argC(s, a[1]); s.heapNext = (s.heapNext + 4095) & ~4095ull; Obj *o = newObj(s, n, 0, "heap"); r = Val::C(o->base, 64); });
	Builtin freeB = B {
		u64 p = argC(s, a[0]);
		if (!p) return;
		auto it = s.mem->find(p);
		if (it == s.mem->end() || it->second.o->kind != 0) violation(s, "memory: invalid free");
		memW(s).erase(p);
	};
	for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) def(n, freeB);
	def("realloc", B {
		u64 p = argC(s, a[0]), n = argC(s, a[1]);
		Obj *o = newObj(s, n, 0, "heap");
		u64 nb = o->base;
		if (p) {
			auto it = s.mem->find(p);
			if (it == s.mem->end()) violation(s, "memory: invalid realloc");
			copyMem(s, nb, p, std::min<u64>(n, it->second.o->size));
			memW(s).erase(p);
		}
		r = Val::C(nb, 64);
	});
	Builtin mcpy = B { u64 n = argC(s, a[2]); u64 d = n ? argC(s, a[0]) : 0, q = n ? argC(s, a[1]) : 0; copyMem(s, d, q, n); r = a[0]; };
	def("memcpy", mcpy); def("memmove", mcpy);
	def("memset", B {
		u64 n = argC(s, a[2]);
		if (n) {
			u64 d = argC(s, a[0]);
			Obj *o = getW(s, d, n);
			u64 off = d - o->base;
			if (a[1].conc()) { std::fill(o->d.begin() + off, o->d.begin() + off + n, (uint8_t)a[1].c); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); }
			else { Val b = Val::E(mkExtract(a[1].e, 0, 8)); for (u64 i = 0; i < n; i++) storeBits(o, off + i, b, 8); }
		}
		r = a[0];
	});
	auto cmpB = [](bool eqonly) -> Builtin { return [eqonly](State &s, PI &pi, vector<Val> &a, Val &r) {
		u64 n = argC(s, a[2]);
		if (!n) { r = Val::C(0, 32); return; }
		u64 p = argC(s, a[0]), q = argC(s, a[1]);
		Obj *x = getR(s, p, n), *y = getR(s, q, n);
		u64 xo = p - x->base, yo = q - y->base;
		auto sym = [](Obj *o, u64 off, u64 n) { if (o->s.empty()) return false; for (u64 i = 0; i < n; i++) if (o->s[off + i]) return true; return false; };
		if (!sym(x, xo, n) && !sym(y, yo, n)) {
			int c = memcmp(&x->d[xo], &y->d[yo], n);
			r = Val::C((u64)(c < 0 ? -1 : c > 0), 32);
			return;
		}
		if (eqonly) {
			Expr *eq = mkC(1, 1);
			for (u64 i = 0; i < n;) {
				if (n - i >= 8) { Val u = loadBits(x, xo + i, 64), v = loadBits(y, yo + i, 64); eq = mkBin(O_AND, eq, mkBin(O_EQ, u.ex(), v.ex())); i += 8; }
				else { eq = mkBin(O_AND, eq, mkBin(O_EQ, byteAt(x, xo + i), byteAt(y, yo + i))); i++; }
				if (eq->isC() && !eq->c) break;
			}
			r = Val::E(mkIte(eq, mkC(0, 32), mkC(1, 32)));
			return;
		}
		Expr *e = mkC(0, 32);
		// stop at first concretely different byte
		u64 lim = n;
		for (u64 i = 0; i < n; i++) { Expr *b = byteAt(x, xo + i), *c = byteAt(y, yo + i); if (b->isC() && c->isC() && b->c != c->c) { lim = i + 1; break; } }
		for (u64 i = lim; i-- > 0;) {
			Expr *b = byteAt(x, xo + i), *c = byteAt(y, yo + i);
			if (b == c) continue;
			Expr *d = mkIte(mkBin(O_ULT, b, c), mkC((u64)-1, 32), mkC(1, 32));
			e = mkIte(mkBin(O_EQ, b, c), e, d);
		}
		r = Val::E(e);
	}; };
	def("memcmp", cmpB(false)); def("bcmp", cmpB(true));
	auto abortB = [](const char *m) -> Builtin { return [m](State &s, PI &pi, vector<Val> &a, Val &r) { violation(s, string("crash: ") + m); }; };
	def("abort", abortB("abort")); def("_ZSt9terminatev", abortB("terminate")); def("__cxa_pure_virtual", abortB("pure virtual call"));
	def("__assert_fail", B { violation(s, "crash: assertion failed: " + cstr(s, a[0].c)); });
	def("__cxa_call_unexpected", abortB("unexpected")); def("__stack_chk_fail", abortB("stack"));
	def("__cxa_atexit", B { r = Val::C(0, 32); });
	def("__cxa_thread_atexit", B { r = Val::C(0, 32); });
	def("__cxa_guard_acquire", B {
		u64 p = argC(s, a[0]); Obj *o = getR(s, p, 1); Val v = loadBits(o, p - o->base, 8);
		r = Val::C(v.c ? 0 : 1, 32);
	});
	def("__cxa_guard_release", B { u64 p = argC(s, a[0]); Obj *o = getW(s, p, 1); storeBits(o, p - o->base, Val::C(1, 8), 8); });
	def("__cxa_guard_abort", B { });
	def("__cxa_allocate_exception", B { u64 n = argC(s, a[0]); Obj *o = newObj(s, n, 0, "exception"); r = Val::C(o->base, 64); });
	def("__cxa_free_exception", B { memW(s).erase(argC(s, a[0])); });
	def("__cxa_throw", B { u64 x = argC(s, a[0]); ExnInfo ei; ei.ti = argC(s, a[1]); s.exns[x] = ei; s.th[s.cur].uncaught++; unwind(s, x); throw PathEnd{ST_FORKED, ""}; });
	def("__cxa_begin_catch", B { u64 x = argC(s, a[0]); auto &e = s.exns[x]; e.handlers++; e.rethrown = false; auto &t = s.th[s.cur]; t.caught.push_back(x); t.uncaught--; r = Val::C(x, 64); });
	def("__cxa_get_exception_ptr", B { r = a[0]; });
	def("__cxa_end_catch", B { auto &t = s.th[s.cur]; if (!t.caught.empty()) { u64 x = t.caught.back(); s.exns[x].handlers--; t.caught.pop_back(); } });
	def("__cxa_rethrow", B {
		auto &t = s.th[s.cur];
		if (t.caught.empty()) violation(s, "crash: rethrow without exception");
		u64 x = t.caught.back();
		t.uncaught++;
		unwind(s, x); throw PathEnd{ST_FORKED, ""};
	});
	def("_ZSt19uncaught_exceptionsv", B { r = Val::C(s.th[s.cur].uncaught, 32); });
	def("_ZSt18uncaught_exceptionv", B { r = Val::C(s.th[s.cur].uncaught > 0, 1); });
	def("symx_current_exception", B { auto &t = s.th[s.cur]; r = Val::C(t.caught.empty() ? 0 : t.caught.back(), 64); });
	def("__dynamic_cast", B {
		u64 p = argC(s, a[0]), dst = argC(s, a[2]);
		u64 vt = loadAt(s, Val::C(p, 64), 64).c;
		u64 ti = loadAt(s, Val::C(vt - 8, 64), 64).c;
		s128 off = (int64_t)loadAt(s, Val::C(vt - 16, 64), 64).c;
		if (tiMatch(ti, dst)) r = Val::C(p + (int64_t)off, 64); else r = Val::C(0, 64);
	});
	// ---- harness interface
	def("sym_bits", B { unsigned w = argC(s, a[1]); r = Val::E(mkZExt(inputVar(s, cstr(s, a[0].c), w), 64)); });
	def("sym_range", B {
		u64 lo = argC(s, a[1]), hi = argC(s, a[2]);
		Expr *v = inputVar(s, cstr(s, a[0].c), 64);
		assume(s, Val::E(mkBin(O_ULE, mkC(lo, 64), v)));
		assume(s, Val::E(mkBin(O_ULE, v, mkC(hi, 64))));
		r = Val::E(v);
	});
	def("sym_pick", B {
		// restartable: variable is created once per (state, instruction) via pending concretization
		u64 n = argC(s, a[1]);
		string nm = cstr(s, a[0].c);
		if (n <= 1) { inputVar(s, nm, 32); s.inputs.back().second = Val::C(0, 32); r = Val::C(0, 64); return; }
		// work on a scratch copy of bookkeeping so that siblings re-execute cleanly
		auto nc = s.namecount; auto ni = s.inputs.size();
		Expr *v = inputVar(s, nm, 32);
		auto nc2 = s.namecount; auto in2 = s.inputs;
		s.namecount = nc; s.inputs.resize(ni);
		Expr *lim = mkBin(O_ULT, v, mkC(n, 32));
		if (!s.conset->count(lim)) assume(s, Val::E(lim));
		u64 c = (u64)concretize(s, Val::E(v));
		s.namecount = nc2; s.inputs = in2;
		r = Val::C(c, 64);
	});
	def("sym_mem", B {
		u64 p = argC(s, a[0]), n = argC(s, a[1]);
		string nm = cstr(s, a[2].c);
		for (u64 i = 0; i < n; i++) {
			Expr *e = inputVar(s, nm, 8);
			Obj *o = getW(s, p + i, 1);
			storeBits(o, p + i - o->base, Val::E(e), 8);
		}
	});
	def("sym_assume", B { assume(s, a[0]); });
	def("sym_assert", B { doAssert(s, a[0], cstr(s, a[1].c)); });
	def("sym_fail", B { violation(s, cstr(s, a[0].c)); });
	def("sym_reach", B { s.reached.push_back(cstr(s, a[0].c)); });
	def("sym_observe", B { s.obs.push_back({cstr(s, a[0].c), a[1]}); });
	def("sym_concrete", B { r = Val::C((u64)concretize(s, a[0]), 64); });
	def("sym_is_symbolic", B { r = Val::C(1, 32); });
	def("sym_param", B { string n = cstr(s, a[0].c); auto it = opt_params.find(n); r = it == opt_params.end() ? a[1] : Val::C(it->second, 64); });
	def("sym_stop", B { throw PathEnd{ST_OK, "stop"}; });
	def("sym_trace", B { s.trace.push_back(cstr(s, a[0].c)); if (opt_trace) fprintf(stderr, "[%d] %s\n", s.id, s.trace.back().c_str()); });
	def("sym_print", B { fprintf(stderr, "[state %d] %s = %s\n", s.id, cstr(s, a[0].c).c_str(), a[1].conc() ? std::to_string((long long)a[1].c).c_str() : exprStr(a[1].e, 8).c_str()); });
	def("sym_unsupported", B { throw PathEnd{ST_UNSUPPORTED, cstr(s, a[0].c)}; });
	// ite without forking
	def("sym_ite", B { Expr *c = a[0].ex(); if (c->w != 1) c = mkNot(mkBin(O_EQ, c, mkC(0, c->w))); r = Val::E(mkIte(c, a[1].ex(), a[2].ex())); });
	// ---- threads
	def("symx_thread_new", B {
		u64 fn = argC(s, a[0]);
		PF *f = faddr.at(fn);
		s.th.emplace_back();
		int id = s.th.size() - 1;
		int save = s.cur;
		s.cur = id;
		vector<Val> args{a[1]};
		pushFrame(s, f, args);
		s.cur = save;
		r = Val::C(id, 32);
	});
	def("symx_thread_switch", B {
		int t = argC(s, a[0]);
		finishCall(s, Val());
		s.cur = t;
		if (s.th[t].fr.empty()) throw PathEnd{ST_UNSUPPORTED, "switch to finished thread"};
		throw PathEnd{ST_FORKED, ""};
	});
	def("symx_thread_self", B { r = Val::C(s.cur, 32); });
	def("_exit", B { throw PathEnd{ST_OK, "exit"}; });
	def("exit", B { throw PathEnd{ST_OK, "exit"}; });
	// math
	auto f1 = [](Op op) -> Builtin { return [op](State &s, PI &pi, vector<Val> &a, Val &r) { r = Val::E(mkUn(op, a[0].ex(), a[0].w)); }; };
	def("floor", f1(O_FFLOOR)); def("ceil", f1(O_FCEIL)); def("trunc", f1(O_FTRUNC)); def("round", f1(O_FROUND));
	def("fabs", B { r = Val::E(mkBin(O_AND, a[0].ex(), mkC(~0ull >> 1, 64))); });
	auto fc = [](double (*fn)(double)) -> Builtin { return [fn](State &s, PI &pi, vector<Val> &a, Val &r) {
		u64 c = argC(s, a[0]); double d; memcpy(&d, &c, 8); d = fn(d); memcpy(&c, &d, 8); r = Val::C(c, 64); }; };
	def("log", fc(log)); def("log2", fc(log2)); def("exp", fc(exp)); def("sqrt", fc(sqrt));
	def("_ZNSt6localeC1Ev", B { }); def("_ZNSt6localeD1Ev", B { });
	def("_ZNSt8ios_base4InitC1Ev", B { }); def("_ZNSt8ios_base4InitD1Ev", B { });
	def("_ZNSt8ios_baseC2Ev", B { }); def("_ZNSt8ios_baseD2Ev", B { });
#undef B
}

static bool intrinsic(State &s, PI &pi, PF *f, vector<Val> &a, Val &r) {
	StringRef n = f->F->getName();
	if (!n.starts_with("llvm.")) return false;
	auto has = [&](const char *p) { return n.starts_with(p); };
	if (has("llvm.lifetime") || has("llvm.dbg") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.invariant") || has("llvm.prefetch") || has("llvm.donothing") || has("llvm.var.annotation") || has("llvm.stackrestore") || has("llvm.va_end") || has("llvm.pseudoprobe")) return true;
	if (has("llvm.threadlocal.address")) { r = Val::C(tlsAddr(s, (const GlobalVariable *)(uintptr_t)pi.k1), 64); return true; }
	if (has("llvm.memcpy") || has("llvm.memmove")) { u64 c = argC(s, a[2]); if (c) { u64 d = argC(s, a[0]), q = argC(s, a[1]); copyMem(s, d, q, c); } return true; }
	if (has("llvm.memset")) { builtins["memset"](s, pi, a, r); r = Val(); return true; }
	if (has("llvm.va_start")) {
		// x86-64 va_list with the register area exhausted: every argument is read from the overflow area, 8 bytes each
		Frame &fr = s.top();
		Obj *o = newObj(s, std::max<u64>(8, 8 * fr.va.size()), 1, "varargs");
		u64 base = o->base;
		fr.allocas.push_back(base);
		for (size_t i = 0; i < fr.va.size(); i++) {
			Val v = fr.va[i];
			if (v.agg) throw PathEnd{ST_UNSUPPORTED, "aggregate vararg"};
			if (v.w < 64) v = v.conc() ? Val::C(v.c, 64) : Val::E(mkZExt(v.ex(), 64));
			storeAt(s, Val::C(base + 8 * i, 64), v, 64);
		}
		u64 l = argC(s, a[0]);
		storeAt(s, Val::C(l, 64), Val::C(48, 32), 32);
		storeAt(s, Val::C(l + 4, 64), Val::C(304, 32), 32);
		storeAt(s, Val::C(l + 8, 64), Val::C(base, 64), 64);
		storeAt(s, Val::C(l + 16, 64), Val::C(0, 64), 64);
		return true;
	}
	if (has("llvm.va_copy")) { u64 d = argC(s, a[0]), q = argC(s, a[1]); copyMem(s, d, q, 24); return true; }
	if (has("llvm.expect")) { r = a[0]; return true; }
	if (has("llvm.stacksave")) { r = Val::C(0, 64); return true; }
	if (has("llvm.launder") || has("llvm.strip") || has("llvm.ssa.copy")) { r = a[0]; return true; }
	if (has("llvm.is.constant")) { r = Val::C(0, 1); return true; }
	if (has("llvm.objectsize")) { r = Val::C(~0ull, pi.w); return true; }
	if (has("llvm.eh.typeid.for")) { r = Val::C(typeId(a[0].c), 32); return true; }
	if (has("llvm.trap")) violation(s, "crash: trap");
	unsigned w = pi.w;
	auto E = [&](int i) { return a[i].ex(); };
	auto cmpsel = [&](Op op, bool swap) { Expr *x = E(0), *y = E(1); Expr *c = mkBin(op, swap ? y : x, swap ? x : y); r = Val::E(mkIte(c, x, y)); return true; };
	if (!pi.I->getType()->isVectorTy()) {
		if (has("llvm.umin")) return cmpsel(O_ULT, false);
		if (has("llvm.umax")) return cmpsel(O_ULT, true);
		if (has("llvm.smin")) return cmpsel(O_SLT, false);
		if (has("llvm.smax")) return cmpsel(O_SLT, true);
		if (has("llvm.abs")) { Expr *x = E(0); r = Val::E(mkIte(mkBin(O_SLT, x, mkC(0, w)), mkBin(O_SUB, mkC(0, w), x), x)); return true; }
		if (has("llvm.bswap")) { Expr *x = E(0), *y = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(x, i, 8); y = y ? mkBin(O_CONCAT, y, b) : b; } r = Val::E(y); return true; }
		if (has("llvm.bitreverse")) { Expr *x = E(0), *y = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(x, i, 1); y = y ? mkBin(O_CONCAT, y, b) : b; } r = Val::E(y); return true; }
		if (has("llvm.ctpop")) { Expr *x = E(0), *y = mkC(0, w); for (unsigned i = 0; i < w; i++) y = mkBin(O_ADD, y, mkZExt(mkExtract(x, i, 1), w)); r = Val::E(y); return true; }
		if (has("llvm.ctlz")) { Expr *x = E(0), *y = mkC(w, w); for (unsigned i = 0; i < w; i++) y = mkIte(mkExtract(x, i, 1), mkC(w - 1 - i, w), y); r = Val::E(y); return true; }
		if (has("llvm.cttz")) { Expr *x = E(0), *y = mkC(w, w); for (unsigned i = w; i-- > 0;) y = mkIte(mkExtract(x, i, 1), mkC(i, w), y); r = Val::E(y); return true; }
		if (has("llvm.fshl") || has("llvm.fshr")) {
			bool l = has("llvm.fshl");
			Expr *hi = E(0), *lo = E(1), *sh = mkBin(O_UREM, E(2), mkC(w, w));
			if (w <= 64) {
				Expr *cat = mkBin(O_CONCAT, hi, lo), *s2 = mkZExt(sh, 2 * w);
				r = Val::E(l ? mkExtract(mkBin(O_SHL, cat, s2), w, w) : mkExtract(mkBin(O_LSHR, cat, s2), 0, w));
				return true;
			}
			throw PathEnd{ST_UNSUPPORTED, "wide fsh"};
		}
		if (has("llvm.usub.sat")) { Expr *x = E(0), *y = E(1); r = Val::E(mkIte(mkBin(O_ULT, x, y), mkC(0, w), mkBin(O_SUB, x, y))); return true; }
		if (has("llvm.uadd.sat")) { Expr *x = E(0), *y = E(1); Expr *z = mkBin(O_ADD, x, y); r = Val::E(mkIte(mkBin(O_ULT, z, x), mkC(maskw(w), w), z)); return true; }
		if (n.contains(".with.overflow")) {
			Expr *x = E(0), *y = E(1);
			unsigned xw = x->w;
			bool sg = has("llvm.s");
			Op op = n.contains("add") ? O_ADD : n.contains("sub") ? O_SUB : O_MUL;
			if (xw > 64) throw PathEnd{ST_UNSUPPORTED, "wide overflow"};
			unsigned W = op == O_MUL ? 2 * xw : xw + 1;
			if (op == O_SUB && !sg) {
				r.agg = make_shared<vector<Val>>(); r.agg->push_back(Val::E(mkBin(O_SUB, x, y))); r.agg->push_back(Val::E(mkBin(O_ULT, x, y))); return true;
			}
			Expr *z = mkBin(op, sg ? mkSExt(x, W) : mkZExt(x, W), sg ? mkSExt(y, W) : mkZExt(y, W));
			Expr *t = mkExtract(z, 0, xw);
			Expr *ov = mkNot(mkBin(O_EQ, z, sg ? mkSExt(t, W) : mkZExt(t, W)));
			r.agg = make_shared<vector<Val>>(); r.agg->push_back(Val::E(t)); r.agg->push_back(Val::E(ov));
			return true;
		}
		if (has("llvm.fabs")) { r = Val::E(mkBin(O_AND, E(0), mkC(maskw(w) >> 1, w))); return true; }
		if (has("llvm.floor")) { r = Val::E(mkUn(O_FFLOOR, E(0), w)); return true; }
		if (has("llvm.ceil")) { r = Val::E(mkUn(O_FCEIL, E(0), w)); return true; }
		if (has("llvm.trunc")) { r = Val::E(mkUn(O_FTRUNC, E(0), w)); return true; }
		if (has("llvm.round.")) { r = Val::E(mkUn(O_FROUND, E(0), w)); return true; }
		if (has("llvm.fmuladd")) { r = Val::E(mkBin(O_FADD, mkBin(O_FMUL, E(0), E(1)), E(2))); return true; }
	}
	throw PathEnd{ST_UNSUPPORTED, "intrinsic " + n.str()};
}

// ------------------------------------------------------------------ interpreter
static inline Val getOp(Frame &f, const Opnd &o) { return o.reg >= 0 ? f.regs[o.reg] : o.v; }

static Val binop(State &s, unsigned opc, Val &a, Val &b) {
	Op op;
	switch (opc) {
	case Instruction::Add: op = O_ADD; break;
	case Instruction::Sub: op = O_SUB; break;
	case Instruction::Mul: op = O_MUL; break;
	case Instruction::UDiv: op = O_UDIV; break;
	case Instruction::SDiv: op = O_SDIV; break;
	case Instruction::URem: op = O_UREM; break;
	case Instruction::SRem: op = O_SREM; break;
	case Instruction::And: op = O_AND; break;
	case Instruction::Or: op = O_OR; break;
	case Instruction::Xor: op = O_XOR; break;
	case Instruction::Shl: op = O_SHL; break;
	case Instruction::LShr: op = O_LSHR; break;
	case Instruction::AShr: op = O_ASHR; break;
	case Instruction::FAdd: op = O_FADD; break;
	case Instruction::FSub: op = O_FSUB; break;
	case Instruction::FMul: op = O_FMUL; break;
	case Instruction::FDiv: op = O_FDIV; break;
	default: throw PathEnd{ST_UNSUPPORTED, "binop"};
	}
	if (op >= O_UDIV && op <= O_SREM) {
		// division by zero
		if (b.conc()) { if (!b.c) violation(s, "crash: division by zero"); }
		else {
			Expr *z = mkBin(O_EQ, b.e, mkC(0, b.w));
			if (decide(s, z, nullptr)) violation(s, "crash: division by zero");
		}
	}
	if (a.conc() && b.conc()) {
		u64 x = a.c, y = b.c;
		unsigned w = a.w;
		switch (op) {
		case O_ADD: return Val::C(x + y, w);
		case O_SUB: return Val::C(x - y, w);
		case O_MUL: return Val::C(x * y, w);
		case O_AND: return Val::C(x & y, w);
		case O_OR: return Val::C(x | y, w);
		case O_XOR: return Val::C(x ^ y, w);
		default: return Val::C((u64)foldBin(op, x, y, w), w);
		}
	}
	return Val::E(mkBin(op, a.ex(), b.ex()));
}
static Val icmp(CmpInst::Predicate p, Val &a, Val &b) {
	if (a.conc() && b.conc()) {
		u64 x = a.c, y = b.c;
		unsigned w = a.w;
		int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
		bool r = false;
		switch (p) {
		case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
		case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
		case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
		case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
		case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
		default: break;
		}
		return Val::C(r, 1);
	}
	Expr *x = a.ex(), *y = b.ex();
	switch (p) {
	case CmpInst::ICMP_EQ: return Val::E(mkBin(O_EQ, x, y));
	case CmpInst::ICMP_NE: return Val::E(mkNot(mkBin(O_EQ, x, y)));
	case CmpInst::ICMP_ULT: return Val::E(mkBin(O_ULT, x, y));
	case CmpInst::ICMP_ULE: return Val::E(mkBin(O_ULE, x, y));
	case CmpInst::ICMP_UGT: return Val::E(mkBin(O_ULT, y, x));
	case CmpInst::ICMP_UGE: return Val::E(mkBin(O_ULE, y, x));
	case CmpInst::ICMP_SLT: return Val::E(mkBin(O_SLT, x, y));
	case CmpInst::ICMP_SLE: return Val::E(mkBin(O_SLE, x, y));
	case CmpInst::ICMP_SGT: return Val::E(mkBin(O_SLT, y, x));
	case CmpInst::ICMP_SGE: return Val::E(mkBin(O_SLE, y, x));
	default: throw PathEnd{ST_UNSUPPORTED, "icmp"};
	}
}
static Val fcmp(CmpInst::Predicate p, Val &a, Val &b) {
	Expr *x = a.ex(), *y = b.ex();
	Expr *un = mkBin(O_FUNO, x, y), *eq = mkBin(O_FOEQ, x, y), *lt = mkBin(O_FOLT, x, y), *gt = mkBin(O_FOLT, y, x), *le = mkBin(O_FOLE, x, y), *ge = mkBin(O_FOLE, y, x);
	auto Or = [](Expr *p, Expr *q) { return mkBin(O_OR, p, q); };
	switch (p) {
	case CmpInst::FCMP_OEQ: return Val::E(eq);
	case CmpInst::FCMP_UNE: return Val::E(mkNot(eq));
	case CmpInst::FCMP_ONE: return Val::E(mkBin(O_AND, mkNot(eq), mkNot(un)));
	case CmpInst::FCMP_UEQ: return Val::E(Or(eq, un));
	case CmpInst::FCMP_OLT: return Val::E(lt); case CmpInst::FCMP_OGT: return Val::E(gt);
	case CmpInst::FCMP_OLE: return Val::E(le); case CmpInst::FCMP_OGE: return Val::E(ge);
	case CmpInst::FCMP_ULT: return Val::E(Or(lt, un)); case CmpInst::FCMP_UGT: return Val::E(Or(gt, un));
	case CmpInst::FCMP_ULE: return Val::E(Or(le, un)); case CmpInst::FCMP_UGE: return Val::E(Or(ge, un));
	case CmpInst::FCMP_ORD: return Val::E(mkNot(un)); case CmpInst::FCMP_UNO: return Val::E(un);
	case CmpInst::FCMP_TRUE: return Val::C(1, 1); default: return Val::C(0, 1);
	}
}
static Val iteVal(Expr *c, Val &x, Val &y) {
	if (x.agg) {
		Val r; r.agg = make_shared<vector<Val>>();
		for (size_t i = 0; i < x.agg->size(); i++) r.agg->push_back(iteVal(c, (*x.agg)[i], (*y.agg)[i]));
		return r;
	}
	return Val::E(mkIte(c, x.ex(), y.ex()));
}

static void doCall(State &s, PI &pi, PF *cf, vector<Val> &args) {
	Val r;
	if (cf->stub) {
		switch (cf->stub) {
		case 1: r = retZero(pi); break;
		case 2: r = retZero(pi); break;
		case 3: r = args[0]; break;
		case 4: case 5: writeEmptyString(s, argC(s, args[0])); break;
		}
		finishCall(s, r);
		return;
	}
	if (cf->F->isDeclaration()) {
		if (intrinsic(s, pi, cf, args, r)) { finishCall(s, r); return; }
		if (cf->bi) { cf->calls++; (*cf->bi)(s, pi, args, r); finishCall(s, r); return; }
		if (cf->F->getName().starts_with("_ZTH")) { finishCall(s, r); return; }   // initialization routine of a thread-local without one
		throw PathEnd{ST_UNSUPPORTED, "external function " + cf->dem + " called at " + locOf(s)};
	}
	pushFrame(s, cf, args);
}

static void step(State &s) {
	Frame &f = s.top();
	PI &pi = f.f->bb[f.bb].in[f.pc];
	switch (pi.op) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
	case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
		Val a = getOp(f, pi.ops[0]), b = getOp(f, pi.ops[1]);
		if (a.agg) {
			Val r; r.agg = make_shared<vector<Val>>();
			for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(s, pi.op, (*a.agg)[i], (*b.agg)[i]));
			f.regs[pi.dst] = r;
		} else { Val r = binop(s, pi.op, a, b); f.regs[pi.dst] = std::move(r); }
		f.pc++;
		return;
	}
	case Instruction::FNeg: { Val a = getOp(f, pi.ops[0]); f.regs[pi.dst] = Val::E(mkBin(O_XOR, a.ex(), mkC((u128)1 << (a.w - 1), a.w))); f.pc++; return; }
	case Instruction::ICmp: {
		Val a = getOp(f, pi.ops[0]), b = getOp(f, pi.ops[1]);
		auto p = cast<ICmpInst>(pi.I)->getPredicate();
		if (a.agg) {
			Val r; r.agg = make_shared<vector<Val>>();
			for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(icmp(p, (*a.agg)[i], (*b.agg)[i]));
			f.regs[pi.dst] = r;
		} else f.regs[pi.dst] = icmp(p, a, b);
		f.pc++;
		return;
	}
	case Instruction::FCmp: { Val a = getOp(f, pi.ops[0]), b = getOp(f, pi.ops[1]); f.regs[pi.dst] = fcmp(cast<FCmpInst>(pi.I)->getPredicate(), a, b); f.pc++; return; }
	case Instruction::Trunc: { Val a = getOp(f, pi.ops[0]); f.regs[pi.dst] = a.conc() && a.w <= 64 ? Val::C(a.c, pi.w) : Val::E(mkExtract(a.ex(), 0, pi.w)); f.pc++; return; }
	case Instruction::ZExt: {
		Val a = getOp(f, pi.ops[0]);
		if (a.conc() && pi.w <= 64) f.regs[pi.dst] = Val::C(a.c, pi.w);
		else { Val r; r.e = mkZExt(a.ex(), pi.w); r.w = pi.w; if (pi.w <= 64) r = Val::E(r.e); f.regs[pi.dst] = r; }
		f.pc++; return;
	}
	case Instruction::SExt: {
		Val a = getOp(f, pi.ops[0]);
		if (a.conc() && pi.w <= 64) f.regs[pi.dst] = Val::C((u64)(int64_t)sextw(a.c, a.w), pi.w);
		else { Val r; r.e = mkSExt(a.ex(), pi.w); r.w = pi.w; if (pi.w <= 64) r = Val::E(r.e); f.regs[pi.dst] = r; }
		f.pc++; return;
	}
	case Instruction::PtrToInt: case Instruction::IntToPtr: {
		Val a = getOp(f, pi.ops[0]);
		if (a.w == pi.w) f.regs[pi.dst] = a;
		else if (a.w > pi.w) f.regs[pi.dst] = Val::E(mkExtract(a.ex(), 0, pi.w));
		else f.regs[pi.dst] = Val::E(mkZExt(a.ex(), pi.w));
		f.pc++; return;
	}
	case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
		Val a = getOp(f, pi.ops[0]);
		if (a.agg && pi.w) {
			// vector -> scalar
			Expr *e = nullptr;
			for (auto &x : *a.agg) e = e ? mkBin(O_CONCAT, x.ex(), e) : x.ex();
			f.regs[pi.dst] = Val::E(e);
		} else if (!a.agg && pi.I->getType()->isVectorTy()) {
			auto *vt = cast<FixedVectorType>(pi.I->getType());
			unsigned ew = DL->getTypeSizeInBits(vt->getElementType());
			Val r; r.agg = make_shared<vector<Val>>();
			for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(Val::E(mkExtract(a.ex(), i * ew, ew)));
			f.regs[pi.dst] = r;
		} else f.regs[pi.dst] = a;
		f.pc++; return;
	}
	case Instruction::FPToSI: { Val a = getOp(f, pi.ops[0]); f.regs[pi.dst] = Val::E(mkUn(O_FPTOSI, a.ex(), pi.w)); f.pc++; return; }
	case Instruction::FPToUI: { Val a = getOp(f, pi.ops[0]); f.regs[pi.dst] = Val::E(mkUn(O_FPTOUI, a.ex(), pi.w)); f.pc++; return; }
	case Instruction::SIToFP: { Val a = getOp(f, pi.ops[0]); f.regs[pi.dst] = Val::E(mkUn(O_SITOFP, a.ex(), pi.w)); f.pc++; return; }
	case Instruction::UIToFP: { Val a = getOp(f, pi.ops[0]); f.regs[pi.dst] = Val::E(mkUn(O_UITOFP, a.ex(), pi.w)); f.pc++; return; }
	case Instruction::FPExt: case Instruction::FPTrunc: { Val a = getOp(f, pi.ops[0]); if (pi.w > 64 || a.w > 64) throw PathEnd{ST_UNSUPPORTED, "long double"}; f.regs[pi.dst] = Val::E(mkUn(O_FPCAST, a.ex(), pi.w)); f.pc++; return; }
	case Instruction::GetElementPtr: {
		Val b = getOp(f, pi.ops[0]);
		if (pi.I->getType()->isVectorTy()) throw PathEnd{ST_UNSUPPORTED, "vector gep"};
		bool sym = !b.conc();
		u64 k = pi.k1;
		for (auto &g : pi.gep) {
			Val i = getOp(f, pi.ops[g.first]);
			if (!i.conc()) sym = true;
		}
		if (!sym) {
			u64 r = b.c + k;
			for (auto &g : pi.gep) { Val i = getOp(f, pi.ops[g.first]); r += (u64)(int64_t)sextw(i.c, i.w) * g.second; }
			f.regs[pi.dst] = Val::C(r, 64);
		} else {
			Expr *e = mkBin(O_ADD, b.ex(), mkC(k, 64));
			for (auto &g : pi.gep) {
				Val i = getOp(f, pi.ops[g.first]);
				Expr *x = i.w < 64 ? mkSExt(i.ex(), 64) : i.ex();
				e = mkBin(O_ADD, e, mkBin(O_MUL, x, mkC(g.second, 64)));
			}
			f.regs[pi.dst] = Val::E(e);
		}
		f.pc++; return;
	}
	case Instruction::Load: {
		Val a = getOp(f, pi.ops[0]);
		Val r;
		if (pi.w) r = loadAt(s, a, pi.w); else r = loadTy(s, pi.I->getType(), a);
		f.regs[pi.dst] = std::move(r);
		f.pc++; return;
	}
	case Instruction::Store: {
		Val v = getOp(f, pi.ops[0]), a = getOp(f, pi.ops[1]);
		if (!v.agg) storeAt(s, a, v, v.w); else { if (!a.conc()) a = Val::C((u64)concretize(s, a), 64); storeTy(s, cast<StoreInst>(pi.I)->getValueOperand()->getType(), a, v); }
		f.pc++; return;
	}
	case Instruction::Alloca: {
		Val n = getOp(f, pi.ops[0]);
		u64 c = argC(s, n);
		Obj *o = newObj(s, std::max<u64>(1, pi.k1 * c), 1, "stack");
		f.allocas.push_back(o->base);
		f.regs[pi.dst] = Val::C(o->base, 64);
		f.pc++; return;
	}
	case Instruction::Select: {
		Val c = getOp(f, pi.ops[0]), x = getOp(f, pi.ops[1]), y = getOp(f, pi.ops[2]);
		if (c.agg) throw PathEnd{ST_UNSUPPORTED, "vector select"};
		if (c.conc()) f.regs[pi.dst] = c.c ? x : y;
		else if (s.conset->count(c.e)) f.regs[pi.dst] = x;
		else if (pi.I->getType()->isPointerTy()) {
			// keep pointers concrete: fork
			bool d = decide(s, c.e, nullptr);
			f.regs[pi.dst] = d ? x : y;
		} else f.regs[pi.dst] = iteVal(c.e, x, y);
		f.pc++; return;
	}
	case Instruction::Br: {
		if (pi.ops.empty()) { gotoBB(s, pi.b0); return; }
		Val c = getOp(f, pi.ops[0]);
		bool d = c.conc() ? c.c : decide(s, c.e, nullptr);
		gotoBB(s, d ? pi.b0 : pi.b1);
		return;
	}
	case Instruction::Switch: {
		Val c = getOp(f, pi.ops[0]);
		if (c.conc()) {
			int t = pi.b0;
			for (auto &k : pi.cases) if ((u64)k.first == c.c) { t = k.second; break; }
			gotoBB(s, t);
			return;
		}
		// decide case by case
		for (auto &k : pi.cases) {
			Expr *e = mkBin(O_EQ, c.ex(), mkC(k.first, c.w));
			if (decide(s, e, nullptr)) { gotoBB(s, k.second); return; }
		}
		gotoBB(s, pi.b0);
		return;
	}
	case Instruction::ExtractValue: {
		Val a = getOp(f, pi.ops[0]);
		for (unsigned i : cast<ExtractValueInst>(pi.I)->indices()) { Val t = (*a.agg)[i]; a = t; }
		f.regs[pi.dst] = a; f.pc++; return;
	}
	case Instruction::InsertValue: {
		Val a = getOp(f, pi.ops[0]), v = getOp(f, pi.ops[1]);
		std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val x, ArrayRef<unsigned> ix) -> Val {
			if (ix.empty()) return v;
			Val r; r.agg = make_shared<vector<Val>>(*x.agg);
			(*r.agg)[ix[0]] = ins((*x.agg)[ix[0]], ix.slice(1));
			return r;
		};
		f.regs[pi.dst] = ins(a, cast<InsertValueInst>(pi.I)->getIndices()); f.pc++; return;
	}
	case Instruction::ExtractElement: {
		Val a = getOp(f, pi.ops[0]), i = getOp(f, pi.ops[1]);
		f.regs[pi.dst] = (*a.agg)[argC(s, i)]; f.pc++; return;
	}
	case Instruction::InsertElement: {
		Val a = getOp(f, pi.ops[0]), v = getOp(f, pi.ops[1]), i = getOp(f, pi.ops[2]);
		Val r; r.agg = make_shared<vector<Val>>(*a.agg); (*r.agg)[argC(s, i)] = v;
		f.regs[pi.dst] = r; f.pc++; return;
	}
	case Instruction::ShuffleVector: {
		Val a = getOp(f, pi.ops[0]), b = getOp(f, pi.ops[1]);
		auto *sv = cast<ShuffleVectorInst>(pi.I);
		Val r; r.agg = make_shared<vector<Val>>();
		int n = a.agg->size();
		for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
		f.regs[pi.dst] = r; f.pc++; return;
	}
	case Instruction::Ret: {
		Val r;
		if (!pi.ops.empty()) r = getOp(f, pi.ops[0]);
		popFrame(s);
		if (s.th[s.cur].fr.empty()) {
			if (s.cur == 0) throw PathEnd{ST_OK, ""};
			throw PathEnd{ST_UNSUPPORTED, "thread returned without scheduler exit"};
		}
		finishCall(s, r);
		return;
	}
	case Instruction::Unreachable: violation(s, "undefined: unreachable code executed");
	case Instruction::LandingPad: {
		Val r; r.agg = make_shared<vector<Val>>();
		r.agg->push_back(f.exn); r.agg->push_back(f.sel);
		f.regs[pi.dst] = r; f.pc++; return;
	}
	case Instruction::Resume: {
		Val a = getOp(f, pi.ops[0]);
		u64 x = (*a.agg)[0].c;
		popFrame(s);
		if (s.th[s.cur].fr.empty()) violation(s, "uncaught exception");
		unwind(s, x);
		return;
	}
	case Instruction::Call: case Instruction::Invoke: {
		if (pi.callee) {
			vector<Val> args;
			args.reserve(pi.ops.size());
			for (auto &o : pi.ops) args.push_back(getOp(f, o));
			doCall(s, pi, pi.callee, args);
			return;
		}
		auto *cb = cast<CallBase>(pi.I);
		if (cb->isInlineAsm()) { Val r = retZero(pi); finishCall(s, r); return; }
		vector<Val> args;
		for (size_t i = 0; i + 1 < pi.ops.size(); i++) args.push_back(getOp(f, pi.ops[i]));
		Val fp = getOp(f, pi.ops.back());
		u64 a = argC(s, fp);
		auto it = faddr.find(a);
		if (it == faddr.end()) violation(s, "crash: call through invalid function pointer");
		doCall(s, pi, it->second, args);
		return;
	}
	case Instruction::AtomicCmpXchg: {
		Val p = getOp(f, pi.ops[0]), c = getOp(f, pi.ops[1]), n = getOp(f, pi.ops[2]);
		Val old = loadAt(s, p, c.w);
		Expr *eq = mkBin(O_EQ, old.ex(), c.ex());
		bool d = eq->isC() ? eq->c : decide(s, eq, nullptr);
		if (d) storeAt(s, p, n, n.w);
		Val r; r.agg = make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(Val::C(d, 1));
		f.regs[pi.dst] = r; f.pc++; return;
	}
	case Instruction::AtomicRMW: {
		auto *rmw = cast<AtomicRMWInst>(pi.I);
		Val p = getOp(f, pi.ops[0]), v = getOp(f, pi.ops[1]);
		if (!p.conc()) p = Val::C((u64)concretize(s, p), 64);
		Val old = loadAt(s, p, v.w), nv;
		switch (rmw->getOperation()) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v); break;
		case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v); break;
		case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v); break;
		case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v); break;
		case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v); break;
		default: throw PathEnd{ST_UNSUPPORTED, "atomicrmw"};
		}
		storeAt(s, p, nv, nv.w);
		f.regs[pi.dst] = old; f.pc++; return;
	}
	case Instruction::Fence: f.pc++; return;
	default: {
		string str; raw_string_ostream os(str); pi.I->print(os);
		throw PathEnd{ST_UNSUPPORTED, "instruction " + str};
	}
	}
}

static void profileTick(State &s);
static map<string, u64> prof;
static bool opt_prof = false;

static void runState(State *sp) {
	State &s = *sp;
	try {
		while (true) {
			if (opt_hang && s.steps > opt_hang) violation(s, "hang: the code did not finish within the step limit");
			if (++s.steps > opt_max_steps) throw PathEnd{ST_UNSUPPORTED, "step limit at " + locOf(s)};
			n_steps++;
			if (opt_prof && (n_steps & 63) == 0) prof[s.top().f->dem.substr(0, 120)]++;
			if ((n_steps & 0xfffff) == 0 && opt_verbose) fprintf(stderr, "steps %lluM paths %llu work %zu q %llu (%.1fs) forks %llu | %s\n", (unsigned long long)(n_steps >> 20), (unsigned long long)n_paths, worklist.size(), (unsigned long long)n_queries, t_solver, (unsigned long long)n_forks, locOf(s).substr(0, 200).c_str());
			try { step(s); }
			catch (PathEnd &e) { if (e.st == ST_FORKED) continue; throw; }
		}
	} catch (PathEnd &e) {
		switch (e.st) {
		case ST_OK:
			if (opt_nshards > 1 && (int)s.forks < opt_shard_depth && opt_shard != 0) break;   // counted by shard 0
			n_paths++;
			for (auto &r : std::set<string>(s.reached.begin(), s.reached.end())) n_reach[r]++;
			writeSample(s);
			break;
		case ST_INFEASIBLE: n_infeasible++; break;
		case ST_DROP: break;
		case ST_VIOLATION: break;
		case ST_UNSUPPORTED:
			if (unsupported.insert(e.msg).second) fprintf(stderr, "UNSUPPORTED: %s\n   at %s\n", e.msg.c_str(), locOf(s).c_str());
			break;
		default: break;
		}
	}
	delete sp;
}

// ------------------------------------------------------------------ main
static int stubAction(const string &dem, const string &mangled, Function &F) {
	for (auto it = stubspec.rbegin(); it != stubspec.rend(); ++it) {
		if (fnmatch(it->second.c_str(), dem.c_str(), 0) == 0 || it->second == mangled) {
			if (it->first == "keep") return 0;
			if (it->first == "noop") {
				if (F.arg_size() && F.getArg(0)->hasStructRetAttr()) if (auto *st = dyn_cast<StructType>(F.getParamStructRetType(0))) if (st->hasName() && st->getName().starts_with("class.std::__cxx11::basic_string")) return 4;
				return 1;
			}
			if (it->first == "ret0") return 2;
			if (it->first == "arg0") return 3;
			if (it->first == "emptystr") return 4;
			if (it->first == "errnostr") return 5;   // like emptystr, and the call leaves another errno behind
		}
	}
	return 0;
}
static void jsonStr(FILE *f, const string &s) {
	fputc('"', f);
	for (char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if ((unsigned char)c < 32) fputc(' ', f); else fputc(c, f); }
	fputc('"', f);
}
static vector<string> files;
static string opt_emit;
static bool opt_isopt = false;
static string opt_natstub;
static void stringBody(Function &F, int a) {
	F.deleteBody(); F.setComdat(nullptr); F.setPersonalityFn(nullptr);
	BasicBlock *bb = BasicBlock::Create(*LC, "e", &F);
	IRBuilder<> B(bb);
	Value *p = F.getArg(0);
	auto at = [&](u64 o) { return B.CreateConstGEP1_64(Type::getInt8Ty(*LC), p, o); };
	if (a == 5) B.CreateStore(B.getInt32(2), B.CreateCall(M->getOrInsertFunction("__errno_location", B.getPtrTy())));
	B.CreateStore(at(16), p);
	B.CreateStore(B.getInt64(1), at(8));
	B.CreateStore(B.getInt16('?'), at(16));
	B.CreateRetVoid();
}
// give the project's stubbed functions the same trivial bodies in the native replay program
static int nativeStubs() {
	for (auto &F : *M) {
		if (F.isIntrinsic() || F.isDeclaration()) continue;
		string mn = F.getName().str(), dm = demangle(mn);
		if (dm.compare(0, 5, "std::") == 0) continue;
		int a = stubAction(dm, mn, F);
		if (!a) continue;
		auto lk = F.getLinkage();
		bool str = a >= 4 && F.arg_size() && F.getArg(0)->hasStructRetAttr();
		if (str) stringBody(F, a); else F.deleteBody();
		F.setComdat(nullptr);
		F.setLinkage(lk == GlobalValue::LinkOnceODRLinkage ? GlobalValue::WeakODRLinkage : lk);
		if (str) continue;
		F.setPersonalityFn(nullptr);
		BasicBlock *bb = BasicBlock::Create(*LC, "e", &F);
		IRBuilder<> B(bb);
		Type *rt = F.getReturnType();
		if (rt->isVoidTy()) B.CreateRetVoid();
		else if (a == 3 && F.arg_size() && F.getArg(0)->getType() == rt) B.CreateRet(F.getArg(0));
		else B.CreateRet(Constant::getNullValue(rt));
	}
	std::error_code ec;
	raw_fd_ostream os(opt_natstub, ec);
	WriteBitcodeToFile(*M, os);
	os.flush();
	return ec ? 2 : 0;
}
static int realMain();
static void *threadMain(void *) { static int rv; rv = realMain(); return &rv; }

int main(int argc, char **argv) {
	string stubfile;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		auto next = [&]() { return string(argv[++i]); };
		if (a == "--stubs") {
			std::ifstream in(next());
			string l;
			while (getline(in, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find(' '); stubspec.push_back({l.substr(0, p), l.substr(p + 1)}); }
		}
		else if (a == "--emit-opt") opt_emit = next();
		else if (a == "--opt") opt_isopt = true;
		else if (a == "--native-stubs") opt_natstub = next();
		else if (a == "--out") opt_out = next();
		else if (a == "--max-time") opt_max_time = atof(next().c_str());
		else if (a == "--max-paths") opt_max_paths = strtoull(next().c_str(), 0, 0);
		else if (a == "--max-steps") opt_max_steps = strtoull(next().c_str(), 0, 0);
		else if (a == "--shard") { string v = next(); sscanf(v.c_str(), "%d/%d", &opt_shard, &opt_nshards); }
		else if (a == "--shard-depth") opt_shard_depth = atoi(next().c_str());
		else if (a == "--samples") opt_samples = atoi(next().c_str());
		else if (a == "--hang-steps") opt_hang = strtoull(next().c_str(), 0, 0);
		else if (a == "--solver-ms") opt_solver_ms = atoi(next().c_str());
		else if (a == "--seed") opt_seed = strtoull(next().c_str(), 0, 0);
		else if (a == "--param") { string v = next(); size_t p = v.find('='); opt_params[v.substr(0, p)] = strtoull(v.c_str() + p + 1, 0, 0); }
		else if (a == "--trace") opt_trace = true;
		else if (a == "-v") opt_verbose = true;
		else if (a == "--prof") opt_prof = true;
		else files.push_back(a);
	}
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 2048ull << 20);
	pthread_t t;
	if (pthread_create(&t, &at, threadMain, nullptr)) { perror("pthread_create"); return 2; }
	void *rv;
	pthread_join(t, &rv);
	return *(int *)rv;
}

static int realMain() {
	double t0 = now();
	LC = new LLVMContext;
	SMDiagnostic err;
	for (auto &f : files) {
		auto m = parseIRFile(f, err, *LC);
		if (!m) { err.print("symx", errs()); return 2; }
		if (!M) { M = std::move(m); continue; }
		// first definition wins (harness first)
		for (auto &F : *m) if (!F.isDeclaration() && !F.hasLocalLinkage()) {
			Function *G = M->getFunction(F.getName());
			if (G && !G->isDeclaration() && !F.isWeakForLinker() ) { if (!G->isWeakForLinker()) { F.deleteBody(); F.setComdat(nullptr); } }
			else if (G && !G->isDeclaration() && F.isWeakForLinker()) { if (!G->isWeakForLinker()) { F.deleteBody(); F.setComdat(nullptr); } }
		}
		if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link error\n"); return 2; }
	}
	if (!opt_natstub.empty()) return nativeStubs();
	DL = &M->getDataLayout();
	expr_init();
	setupBuiltins();
	typeId(0);
	if (!opt_isopt) {
	// stubs
	int nst = 0;
	for (auto &F : *M) {
		if (F.isIntrinsic()) continue;
		string mn = F.getName().str();
		int a = stubAction(demangle(mn), mn, F);
		if (a == 5 && !F.isDeclaration() && F.arg_size() && F.getArg(0)->hasStructRetAttr()) { stringBody(F, a); nst++; }
		else if (a) {
			if (!F.isDeclaration()) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
			F.addFnAttr("symx-stub", std::to_string(a));
			nst++;
		}
	}
	// internalize and drop the unreachable
	for (auto &F : *M) if (!F.isDeclaration() && F.getName() != "main" && !F.hasLocalLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
	for (auto &G : M->globals()) if (!G.isDeclaration() && !G.hasLocalLinkage() && !G.getName().starts_with("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); }
	for (auto it = M->alias_begin(); it != M->alias_end();) { GlobalAlias &A = *it++; A.replaceAllUsesWith(A.getAliasee()); A.eraseFromParent(); }
	for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
	if (auto *u = M->getGlobalVariable("llvm.used")) u->eraseFromParent();
	if (auto *u = M->getGlobalVariable("llvm.compiler.used")) u->eraseFromParent();
	{
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PassBuilder PB;
		// no library-call recognition: our libc is a model
		TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
		TLII.disableAllFunctions();
		FAM.registerPass([&] { return TargetLibraryAnalysis(TLII); });
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		ModulePassManager MPM;
		if (auto e = PB.parsePassPipeline(MPM, "globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),cgscc(inline),globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,adce,simplifycfg)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
		MPM.run(*M, MAM);
	}
	}
	if (!opt_emit.empty()) {
		std::error_code ec;
		raw_fd_ostream os(opt_emit, ec);
		WriteBitcodeToFile(*M, os);
		os.flush();
		return ec ? 2 : 0;
	}
	{
		std::vector<Constant *> tl;
		for (auto &G : M->globals()) if (G.isThreadLocal()) tl.push_back(&G);
		convertUsersOfConstantsToInstructions(tl);
	}
	// direct uses of thread-local variables go through the intrinsic
	for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
		if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *cf = cb->getCalledFunction()) if (cf->getName() == "llvm.threadlocal.address.p0") continue;
		for (unsigned i = 0; i < I.getNumOperands(); i++) {
			auto *g = dyn_cast<GlobalVariable>(I.getOperand(i));
			if (!g || !g->isThreadLocal() || isa<PHINode>(I)) continue;
			Function *tf = Intrinsic::getDeclaration(M.get(), Intrinsic::threadlocal_address, {g->getType()});
			I.setOperand(i, CallInst::Create(tf, {g}, "tlsa", &I));
		}
	}
	for (auto &F : *M) getPF(&F);
	for (auto &G : M->globals()) if (!G.isThreadLocal() && !G.getName().starts_with("llvm.")) globalAddr(&G);
	double t1 = now();
	// initial state
	Function *mainF = M->getFunction("main");
	if (!mainF) { fprintf(stderr, "no main\n"); return 2; }
	State *s = new State;
	s->mem = make_shared<MMap>();
	s->model = make_shared<Model>();
	s->conset = make_shared<std::unordered_set<Expr *>>();
	s->fixed = make_shared<std::unordered_map<Expr *, u128>>();
	s->th.resize(1);
	s->id = next_state_id++;
	vector<Val> args{Val::C(0, 32), Val::C(0, 64)};
	pushFrame(*s, getPF(mainF), args);
	// global constructors run before main: push frames in reverse order with main's frame below.
	// A ctor frame returning calls finishCall on the frame below; use a trampoline: run them one by one.
	if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
		vector<std::pair<u64, Function *>> cs;
		if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
			for (auto &o : ca->operands()) {
				auto *cs_ = cast<ConstantStruct>(o);
				cs.push_back({cast<ConstantInt>(cs_->getOperand(0))->getZExtValue(), cast<Function>(cs_->getOperand(1)->stripPointerCasts())});
			}
		std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
		Frame mainFrame = s->th[0].fr[0];
		for (auto &c : cs) {
			s->th[0].fr.clear();
			vector<Val> none;
			pushFrame(*s, getPF(c.second), none);
			try {
				while (true) {
					try { step(*s); } catch (PathEnd &e) { if (e.st == ST_FORKED) continue; throw; }
					n_steps++;
				}
			} catch (PathEnd &e) {
				if (e.st != ST_OK) {
					fprintf(stderr, "global constructor %s: %s at %s\n", c.second->getName().str().c_str(), e.msg.c_str(), locOf(*s).c_str());
					return 2;
				}
			}
		}
		s->th[0].fr.clear();
		s->th[0].fr.push_back(mainFrame);
	}
	worklist.push_back(s);
	while (!worklist.empty()) {
		if (now() - t0 > opt_max_time) { incomplete = true; incomplete_why = "time limit"; break; }
		if (n_paths >= opt_max_paths) { incomplete = true; incomplete_why = "path limit"; break; }
		State *n = worklist.back();
		worklist.pop_back();
		runState(n);
	}
	double t2 = now();
	string jf = opt_out + ".json";
	FILE *f = fopen(jf.c_str(), "w");
	fprintf(f, "{\"paths\":%llu,\"infeasible\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cached\":%llu,\"model_hits\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"setup_s\":%.3f,\"explore_s\":%.3f,\"vars\":%zu,\"samples\":%d,\"cex\":%d,",
		(unsigned long long)n_paths, (unsigned long long)n_infeasible, (unsigned long long)n_steps, (unsigned long long)n_forks, (unsigned long long)n_queries, (unsigned long long)n_sat, (unsigned long long)n_unsat, (unsigned long long)n_cached, (unsigned long long)n_modelhits, (unsigned long long)n_asserts, (unsigned long long)n_assert_q, t_solver, t_maxq, t1 - t0, t2 - t1, g_vars.size(), n_samples, n_cex);
	fprintf(f, "\"incomplete\":"); jsonStr(f, incomplete ? incomplete_why : "");
	fprintf(f, ",\"unsupported\":["); bool first = true;
	for (auto &u : unsupported) { if (!first) fputc(',', f); first = false; jsonStr(f, u); }
	fprintf(f, "],\"reach\":{"); first = true;
	for (auto &r : n_reach) { if (!first) fputc(',', f); first = false; jsonStr(f, r.first); fprintf(f, ":%llu", (unsigned long long)r.second); }
	fprintf(f, "},\"violations\":{"); first = true;
	for (auto &r : cex_msgs) { if (!first) fputc(',', f); first = false; jsonStr(f, r.first); fprintf(f, ":%d", r.second); }
	fprintf(f, "},\"functions\":["); first = true;
	for (auto &p : pfs) if (p.second->calls && p.second->project && p.second->F && !p.second->F->isDeclaration()) { if (!first) fputc(',', f); first = false; jsonStr(f, p.second->dem.substr(0, 160)); }
	fprintf(f, "]}\n");
	fclose(f);
	if (opt_prof) {
		vector<std::pair<u64, string>> v;
		for (auto &p : prof) v.push_back({p.second, p.first});
		std::sort(v.rbegin(), v.rend());
		for (size_t i = 0; i < v.size() && i < 30; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
	}
	fprintf(stderr, "paths=%llu infeasible=%llu steps=%llu forks=%llu queries=%llu solver=%.1fs (max %.1f) setup=%.1fs explore=%.1fs cex=%d unsupported=%zu%s\n", (unsigned long long)n_paths, (unsigned long long)n_infeasible, (unsigned long long)n_steps, (unsigned long long)n_forks, (unsigned long long)n_queries, t_solver, t_maxq, t1 - t0, t2 - t1, n_cex, unsupported.size(), incomplete ? " INCOMPLETE" : "");
	return 0;
}
