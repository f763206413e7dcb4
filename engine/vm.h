// Decoded LLVM IR, machine state and memory of the symbolic executor.
#pragma once
#include "expr.h"
#include <functional>
#include <map>
#include <unordered_map>
namespace llvm { class Function; class Instruction; class Module; class GlobalVariable; class Type; class CallBase; class Constant; class Value; class BasicBlock; class DataLayout; }

struct Val { u64 c; Expr *e; };
static inline Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val vc(u64 c) { return Val{c, nullptr}; }
static inline Val ve(Expr *e) { if (isC(e)) return Val{e->c, nullptr}; return Val{0, e}; }

// ---------------------------------------------------------------- memory
struct Cell { Expr *e; u32 off; };      // byte 'off' of e; e==null: uninitialised
struct Page { int rc; u8 d[256]; u64 sm[4]; Cell *cells; };
struct N3 { int rc; Page *p[256]; };
struct N2 { int rc; N3 *p[256]; };
struct N1 { int rc; N2 *p[256]; };
struct Mem {
  N1 *root;
  Mem(); Mem(const Mem &o) : root(o.root) { root->rc++; }
  ~Mem(); Mem &operator=(const Mem &) = delete;
  const Page *rd(u32 a) const { N2 *b = root->p[a >> 24]; if (!b) return nullptr; N3 *c = b->p[(a >> 16) & 255]; if (!c) return nullptr; return c->p[(a >> 8) & 255]; }
  Page *wr(u32 a);
};
enum OKind : u8 { OK_GLOBAL, OK_HEAP, OK_STACK, OK_MMAP, OK_FUNC, OK_TLS };
struct Obj { u32 addr, size; OKind kind; u8 freed, ro; u8 how; u32 seq; };
struct Chunk { std::vector<Obj> v; };
typedef std::shared_ptr<Chunk> ChunkP;

// ---------------------------------------------------------------- code
struct Leaf { u32 off; u16 w, bytes; };
struct TypeInfo { std::vector<Leaf> leaves; u64 size; bool bitvec; };
struct PhiCopy { int dst, src; u16 lanes; };
struct Edge { u32 target; std::vector<PhiCopy> phis; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; unsigned w; std::unordered_map<u64, u32> map; };
struct GepInfo { std::vector<std::tuple<int, u64, u16>> idx; u64 konst; u16 lanes; std::vector<u8> vecIdx; bool vecBase; };
struct CallInfo { struct Func *target = nullptr; int builtin = -1; int callee = 0; std::vector<int> args; std::vector<u16> argLanes; std::vector<u16> argW; int dst = -1; u16 lanes = 0; u16 w = 0; const llvm::CallBase *cb = nullptr; std::string name; const TypeInfo *rt = nullptr; };
struct PInst { u16 op, sub, w, lanes; int dst, a, b, c; u32 x; const llvm::Instruction *I; };
struct Func {
  llvm::Function *F = nullptr; std::string name; bool decoded = false; int builtin = -1; bool isRT = false; u32 addr = 0;
  std::vector<PInst> code; std::vector<Edge> edges; std::vector<SwitchInfo> sw; std::vector<GepInfo> geps; std::vector<CallInfo> calls; std::vector<Val> consts; std::vector<std::vector<int>> shufs; std::vector<const TypeInfo *> types;
  u32 nregs = 0; std::vector<u16> argLanes; bool varArg = false; u64 entered = 0; u64 nInst = 0;
};
struct Frame { Func *f; u32 pc; u32 base; u32 sp; u32 nobj; int dst; u16 dstLanes; u32 vaArea; u32 onRetPop; };
struct Thread {
  int id = 0; std::vector<Val> vs; std::vector<Frame> fr; u32 sp = 0, stackBase = 0; std::vector<Obj> stk; bool done = false; bool blocked = false;
  std::vector<std::pair<const llvm::GlobalVariable *, u32>> tls; u64 spin = 0, sameA = 0, sameN = 0;
};
struct InputRec { std::string name; Expr *e; unsigned w; u64 c; };
struct State {
  u64 id = 0; Mem mem; std::vector<ChunkP> heap; u32 brk = 0; u32 nobj = 0;
  std::vector<Thread> th; int cur = 0;
  std::vector<Expr *> pc; std::vector<std::pair<Expr *, u64>> eq; ModelP model; std::vector<u64> bnd; /* variables fixed to one value by the path */
  std::vector<InputRec> inputs; std::vector<InputRec> obs; std::vector<std::pair<u64, int>> sched;
  u64 steps = 0; int depth = 0; bool running = false; int preempts = 0, maxPre = 0; u64 schedCnt = 0; int noSched = 0; u64 yields = 0; u32 ytot = 0, yforks = 0; u64 memGen = 0, lastYieldGen = 0;
  u32 uninits = 0; bool usedUninit = false; u64 clock = 1000; bool allowThrow = false; u64 covers = 0; bool pureChoice = false; bool uninitZero = false;
  Obj cache{}; bool cacheOk = false; std::vector<u32> atexitFns;
  u32 specific[64] = {0}; 
  State() {} 
};
