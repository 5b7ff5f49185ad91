// Hash-consed bit-vector expressions with local simplification, concrete evaluation and z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <map>
#include <memory>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
	O_CONST, O_VAR,
	O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
	O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
	// floating point on IEEE bit patterns (w = 32 or 64)
	O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
	O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPCAST, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FROUND,
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
	Op op;
	uint16_t w;
	uint32_t id;
	Expr *k[3];
	u128 c;                     // constant value / extract offset / variable index
	const VarSet *vars;
	Z3_ast z;
	bool isC() const { return op == O_CONST; }
};

struct VarInfo { std::string name; unsigned w; Expr *e; };

extern Z3_context Z;
extern std::vector<VarInfo> g_vars;

typedef std::unordered_map<uint32_t, u128> Model;   // var index -> value (absent = 0)

void expr_init();
Expr *mkC(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot(Expr *a);     // 1-bit
Expr *mkUn(Op op, Expr *a, unsigned w);
u128 evalE(Expr *e, const Model &m);
Z3_ast toZ3(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextw(u128 v, unsigned w) {
	if (w >= 128) return (s128)v;
	u128 m = (u128)1 << (w - 1);
	v &= maskw(w);
	return (s128)((v ^ m) - m);
}
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
u128 foldUn(Op op, u128 a, unsigned aw, unsigned w);
