// Hash-consed bit-vector expressions, models and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum EK : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT };

struct VarSet { std::vector<u32> v; u32 id; };
struct Expr {
  EK k; u16 w; u32 id; u32 lo; u64 c; Expr *a, *b, *d; const VarSet *vs;
  u64 memoEp; u64 memo;
};
struct Model { u64 id; std::vector<u64> v; };
typedef std::shared_ptr<Model> ModelP;

static inline u64 maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextW(u64 x, unsigned w) { return w >= 64 ? (i64)x : (i64)(x << (64 - w)) >> (64 - w); }

Expr *mkConst(u64 c, unsigned w);               // any width; value zero-extended
Expr *mkVar(const std::string &name, unsigned w); // fresh
Expr *mkBin(EK k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkNot(Expr *a);                            // bitwise
static inline bool isC(Expr *e) { return e->k == K_CONST; }
bool wideConst(Expr *e, std::vector<u64> &words);  // constant of any width
Expr *mkWide(const std::vector<u64> &words, unsigned w);
u64 evalE(Expr *e, const Model &m);             // low 64 bits
std::string exprStr(Expr *e, int depth = 6);
u32 numVars(); const std::string &varName(u32 i); unsigned varWidth(u32 i); Expr *varExpr(u32 i);
ModelP newModel(const Model *from);
u64 numExprs();

enum SatRes { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries = 0, cacheHits = 0, brute = 0, z3 = 0, sat = 0, unsat = 0, unknown = 0, order = 0, compact = 0, guess = 0; double z3s = 0, maxq = 0; };
extern SolverStats gS;
// Is cond satisfiable together with pc?  On SAT, out is a model of pc+cond (base satisfies pc).
SatRes checkSat(const std::vector<Expr *> &pc, Expr *cond, const ModelP &base, ModelP &out);
extern u64 gRlimit;
