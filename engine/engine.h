#pragma once
#include "expr.h"
#include <functional>
#include <set>
#include <deque>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>

typedef uint64_t u64;

struct Val {
	u64 c = 0;
	Expr *e = nullptr;          // non-null: symbolic or wide constant
	uint16_t w = 0;             // 0: aggregate / void
	std::shared_ptr<std::vector<Val>> agg;
	static Val C(u64 v, unsigned w) { Val r; r.c = w < 64 ? v & ((1ull << w) - 1) : v; r.w = w; return r; }
	static Val E(Expr *x) { Val r; r.w = x->w; if (x->isC() && x->w <= 64) r.c = (u64)x->c; else r.e = x; return r; }
	bool conc() const { return !e; }
	Expr *ex() const { return e ? e : mkC(c, w); }
};

struct Obj {
	u64 base = 0, size = 0;
	int rc = 0;
	uint8_t kind = 0;           // 0 heap 1 stack 2 global 3 function/opaque
	bool ro = false;
	std::vector<uint8_t> d;
	std::vector<Expr *> s;      // empty or size d.size(); non-null = symbolic byte
	std::string name;
};
struct ORef {
	Obj *o = nullptr;
	ORef() {}
	ORef(Obj *p) : o(p) { if (o) o->rc++; }
	ORef(const ORef &r) : o(r.o) { if (o) o->rc++; }
	ORef(ORef &&r) : o(r.o) { r.o = nullptr; }
	ORef &operator=(ORef r) { std::swap(o, r.o); return *this; }
	~ORef() { if (o && --o->rc == 0) delete o; }
};
typedef std::map<u64, ORef> MMap;

struct PF;
struct Opnd { int reg = -1; Val v; };
struct PI {
	llvm::Instruction *I;
	unsigned op;
	int dst = -1;
	uint16_t w = 0;
	std::vector<Opnd> ops;
	PF *callee = nullptr;
	u64 k1 = 0;                              // gep const offset / sizes
	std::vector<std::pair<int, u64>> gep;    // (operand index, scale)
	int b0 = -1, b1 = -1;                    // successors
	std::vector<std::pair<u128, int>> cases;
	std::vector<std::vector<Opnd>> phi;      // not used
};
struct PBB { std::vector<PI> in; std::vector<std::pair<int, std::vector<std::pair<int, Opnd>>>> phis; };
struct State;
struct Engine;
typedef std::function<void(State &, PI &, std::vector<Val> &, Val &)> Builtin;
struct PF {
	llvm::Function *F = nullptr;
	std::string name, dem;
	bool decoded = false;
	std::vector<PBB> bb;
	int nregs = 0;
	std::vector<int> args;
	int stub = 0;                 // 0 none 1 noop/zero 2 ret0 3 retarg0 4 emptystr
	const Builtin *bi = nullptr;
	u64 calls = 0;
	u64 addr = 0;
	bool project = false;
};
struct Frame {
	PF *f = nullptr;
	int bb = 0, pc = 0, prev = -1;
	std::vector<Val> regs;
	std::vector<u64> allocas;
	Val exn, sel;                 // pending landing pad values
	std::vector<Val> va;
};
struct Thread {
	std::vector<Frame> fr;
	bool done = false;
	std::vector<u64> caught;
	int uncaught = 0;
	std::map<u64, u64> tls;       // TLS global id -> object address
};
struct ExnInfo { u64 ti = 0; int handlers = 0; bool rethrown = false; };
struct In { uint32_t var; };
struct Ob { std::string name; Val v; };

struct State {
	std::vector<Thread> th;
	int cur = 0;
	std::shared_ptr<MMap> mem;
	std::vector<Expr *> cons;
	std::shared_ptr<std::unordered_set<Expr *>> conset;
	std::shared_ptr<Model> model;
	std::shared_ptr<std::unordered_map<Expr *, u128>> fixed;
	std::vector<std::pair<std::string, Val>> inputs;
	std::vector<Ob> obs;
	std::vector<std::string> reached;
	std::map<u64, ExnInfo> exns;
	u64 heapNext = 0x100000000ull, stackNext = 0x4000000000ull;
	u64 steps = 0;
	u64 forks = 0, fhash = 1469598103934665603ull;
	std::map<std::string, int> namecount;
	std::vector<std::string> trace;
	Frame &top() { return th[cur].fr.back(); }
	int id = 0;
};
