// symx: symbolic executor for LLVM IR (forking, COW memory, Z3 back end, symbolic schedules).
#include "vm.h"
#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#undef O_TRUNC
using namespace llvm;

// ------------------------------------------------------------------ options and shared state
static std::string optOut = "."; static int optJobs = 8; static double optTime = 60; static u64 optPathSteps = 60000000; static int optSamples = 6;
// Variables are shared between paths: the n-th one of a kind and name is the same object on every path.
static Expr *pooledVar(const std::string &n, unsigned w, u32 idx) { static std::unordered_map<std::string, Expr *> pool; std::string k = n + "/" + std::to_string(w) + "/" + std::to_string(idx); auto it = pool.find(k); if (it != pool.end()) return it->second; return pool[k] = mkVar(n + (n.compare(0, 6, "uninit") == 0 ? std::to_string(idx) : ""), w); }
static int optMaxViol = 4; static bool optUninitZero = false; static u64 optSpin = 4000; static bool optVerbose = false; static int optRounds = 12; static int optPreOverride = -1; static u64 optMaxPaths = ~0ull; static bool optStrictUninit = false; static bool optBFS = false; static bool optForkSelect = false; static int optYieldForks = 6;
struct Shm { std::atomic<int> active; std::atomic<int> nviol; std::atomic<int> stop; std::atomic<u64> paths; std::atomic<u64> nprocs; std::atomic<int> newConflict; std::atomic<u64> nConf; double deadline; std::atomic<int> samples; std::atomic<u64> timeouts; std::atomic<int> vhash[64]; };
static Shm *shm; static u8 *gAcc;  // per 8-byte granule: low nibble readers, high nibble writers
static const u64 ACCSZ = 1ull << 29;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Stats { u64 paths = 0, steps = 0, forks = 0, errors = 0, incomplete = 0, assumeKilled = 0, completed = 0, asserts = 0, assertsProved = 0, branches = 0, symLoads = 0, concr = 0, throws = 0, left = 0, uninitPaths = 0; std::map<std::string, u64> incompleteWhy; std::map<std::string, u64> covers; u64 maxDepth = 0; };
static Stats ST;
static std::vector<State *> work; static u64 stateIds = 1; static std::vector<std::string> covNames;

static std::unique_ptr<Module> Mod; static const DataLayout *DL;
static std::map<const Function *, Func *> funcs; static std::vector<Func *> funcList; static std::map<u32, Func *> funcByAddr;
static std::map<const GlobalVariable *, u32> gAddr; static std::vector<Obj> gObjs; static std::map<const GlobalVariable *, std::string> gNames;

// ------------------------------------------------------------------ memory
Mem::Mem() { root = new N1; memset(root, 0, sizeof *root); root->rc = 1; }
static void relPage(Page *p) { if (--p->rc == 0) { delete[] p->cells; delete p; } }
static void relN3(N3 *n) { if (--n->rc == 0) { for (auto p : n->p) if (p) relPage(p); delete n; } }
static void relN2(N2 *n) { if (--n->rc == 0) { for (auto p : n->p) if (p) relN3(p); delete n; } }
Mem::~Mem() { if (--root->rc == 0) { for (auto p : root->p) if (p) relN2(p); delete root; } }
Page *Mem::wr(u32 a) {
  if (root->rc > 1) { N1 *n = new N1(*root); n->rc = 1; for (auto p : n->p) if (p) p->rc++; root->rc--; root = n; }
  N2 *&b = root->p[a >> 24]; if (!b) { b = new N2; memset(b, 0, sizeof *b); b->rc = 1; } else if (b->rc > 1) { N2 *n = new N2(*b); n->rc = 1; for (auto p : n->p) if (p) p->rc++; b->rc--; b = n; }
  N3 *&c = b->p[(a >> 16) & 255]; if (!c) { c = new N3; memset(c, 0, sizeof *c); c->rc = 1; } else if (c->rc > 1) { N3 *n = new N3(*c); n->rc = 1; for (auto p : n->p) if (p) p->rc++; c->rc--; c = n; }
  Page *&p = c->p[(a >> 8) & 255];
  if (!p) { p = new Page; memset(p, 0, sizeof *p); p->rc = 1; }
  else if (p->rc > 1) { Page *n = new Page(*p); n->rc = 1; if (p->cells) { n->cells = new Cell[256]; memcpy(n->cells, p->cells, 256 * sizeof(Cell)); } p->rc--; p = n; }
  return p;
}
static inline bool sbit(const Page *p, unsigned o) { return (p->sm[o >> 6] >> (o & 63)) & 1; }
static inline u64 sbits(const Page *p, unsigned o, unsigned n) { // n<=8, o+n<=256
  u64 r = p->sm[o >> 6] >> (o & 63); if ((o & 63) + n > 64) r |= p->sm[(o >> 6) + 1] << (64 - (o & 63)); return r & ((1u << n) - 1); }
static void memFill(State &S, u32 a, u64 n, int mode, u8 v) {  // mode 0: concrete byte v; 1: uninit
  while (n) { Page *p = S.mem.wr(a); unsigned o = a & 255; unsigned k = std::min<u64>(n, 256 - o);
    if (mode == 0) { memset(p->d + o, v, k); if (o == 0 && k == 256) memset(p->sm, 0, 32); else for (unsigned i = o; i < o + k; i++) p->sm[i >> 6] &= ~(1ull << (i & 63)); }
    else { if (o == 0 && k == 256) memset(p->sm, 255, 32); else for (unsigned i = o; i < o + k; i++) p->sm[i >> 6] |= 1ull << (i & 63); if (p->cells) for (unsigned i = o; i < o + k; i++) p->cells[i].e = nullptr; }
    a += k; n -= k; }
}
static Expr *cellByte(State &S, u32 a) {  // symbolic or uninit byte at a
  const Page *p = S.mem.rd(a); unsigned o = a & 255; Cell *c = p->cells ? &p->cells[o] : nullptr;
  if (c && c->e) return mkExtract(c->e, c->off * 8, 8);
  if (optUninitZero || S.uninitZero) return mkConst(0, 8);
  (void)a; Expr *v = pooledVar("uninit_b", 8, S.uninits++);
  Page *q = S.mem.wr(a); if (!q->cells) { q->cells = new Cell[256]; memset(q->cells, 0, 256 * sizeof(Cell)); } q->cells[o] = Cell{v, 0}; return v;
}
// value of e when the path has fixed every variable in it
static inline bool fixedVal(State &S, Expr *e, u64 &v) {
  if (S.bnd.empty() || e->w > 64) return false; for (u32 i : e->vs->v) if (i / 64 >= S.bnd.size() || !(S.bnd[i / 64] >> (i % 64) & 1)) return false; v = evalE(e, *S.model); return true;
}
static Val rdMem0(State &S, u32 a, unsigned bytes, unsigned w) {
  const Page *p = S.mem.rd(a); unsigned o = a & 255;
  if (bytes <= 8 && o + bytes <= 256) {
    if (!p) return vc(0);
    if (!sbits(p, o, bytes)) { u64 v = 0; memcpy(&v, p->d + o, bytes); return vc(v & maskW(w)); }
    if (p->cells) { Cell *c = &p->cells[o]; Expr *e = c->e; // whole value fast path
      if (e && sbit(p, o)) { bool ok = true; for (unsigned i = 1; i < bytes && ok; i++) ok = sbit(p, o + i) && c[i].e == e && c[i].off == c[0].off + i;
        if (ok) { if (c[0].off == 0 && e->w == w) return ve(e); Expr *r = mkExtract(e, c[0].off * 8, std::min<unsigned>(bytes * 8, e->w - c[0].off * 8)); if (r->w < bytes * 8) r = mkZExt(r, bytes * 8); return ve(mkExtract(r, 0, w)); } } }
  }
  if (bytes > 8) { bool conc = true; for (unsigned i = 0; i < bytes && conc; i++) { const Page *q = S.mem.rd(a + i); if (q && sbit(q, (a + i) & 255)) conc = false; }
    if (conc) { std::vector<u64> wd((bytes + 7) / 8, 0); for (unsigned i = 0; i < bytes; i++) { const Page *q = S.mem.rd(a + i); if (q) wd[i / 8] |= (u64)q->d[(a + i) & 255] << (8 * (i % 8)); } return ve(mkWide(wd, w)); } }
  Expr *acc = nullptr;
  for (unsigned i = 0; i < bytes; i++) { const Page *q = S.mem.rd(a + i); unsigned oo = (a + i) & 255; Expr *b; if (!q) b = mkConst(0, 8); else if (!sbit(q, oo)) b = mkConst(q->d[oo], 8); else b = cellByte(S, a + i); acc = acc ? mkConcat(b, acc) : b; }
  return ve(mkExtract(acc, 0, w));
}
static Val rdMem(State &S, u32 a, unsigned bytes, unsigned w) { Val r = rdMem0(S, a, bytes, w); u64 v; if (r.e && fixedVal(S, r.e, v)) return vc(v); return r; }
static void wrMem(State &S, u32 a, unsigned bytes, unsigned w, Val v) {
  if (!v.e) {
    unsigned o = a & 255;
    if (o + bytes <= 256 && bytes <= 8) { Page *p = S.mem.wr(a); u64 x = v.c & maskW(w); memcpy(p->d + o, &x, bytes); u64 m = (1ull << bytes) - 1; p->sm[o >> 6] &= ~(m << (o & 63)); if ((o & 63) + bytes > 64) p->sm[(o >> 6) + 1] &= ~(m >> (64 - (o & 63))); return; }
    for (unsigned i = 0; i < bytes; i++) { Page *p = S.mem.wr(a + i); unsigned oo = (a + i) & 255; p->d[oo] = i < 8 ? (u8)(v.c >> (8 * i)) : 0; p->sm[oo >> 6] &= ~(1ull << (oo & 63)); }
    return;
  }
  Expr *e = v.e; if (e->w != bytes * 8) e = mkZExt(e, bytes * 8);
  std::vector<u64> wd; bool wcst = e->w > 64 && wideConst(e, wd);
  for (unsigned i = 0; i < bytes; i++) { Page *p = S.mem.wr(a + i); unsigned oo = (a + i) & 255;
    Expr *be = nullptr; if (wcst) { p->d[oo] = (u8)(wd[i / 8] >> (8 * (i % 8))); p->sm[oo >> 6] &= ~(1ull << (oo & 63)); continue; }
    if (bytes > 1 && (e->k == K_CONCAT || e->k == K_ZEXT)) be = mkExtract(e, i * 8, 8);
    if (be && isC(be)) { p->d[oo] = be->c; p->sm[oo >> 6] &= ~(1ull << (oo & 63)); continue; }
    if (!p->cells) { p->cells = new Cell[256]; memset(p->cells, 0, 256 * sizeof(Cell)); }
    p->cells[oo] = Cell{e, i}; p->sm[oo >> 6] |= 1ull << (oo & 63); }
}
static void copyMem(State &S, u32 d, u32 s, u64 n) {
  if (!n || d == s) return; std::vector<u8> buf(n); std::vector<Cell> cs; std::vector<u8> sy(n, 0); bool any = false; static const Cell Z{nullptr, 0};
  for (u64 i = 0; i < n;) { const Page *p = S.mem.rd(s + i); unsigned o = (s + i) & 255; unsigned k = std::min<u64>(n - i, 256 - o);
    if (!p) { memset(&buf[i], 0, k); } else { memcpy(&buf[i], p->d + o, k); for (unsigned j = 0; j < k; j++) if (sbit(p, o + j)) { if (!any) { any = true; cs.assign(n, Z); } sy[i + j] = 1; if (p->cells) cs[i + j] = p->cells[o + j]; } } i += k; }
  for (u64 i = 0; i < n;) { Page *p = S.mem.wr(d + i); unsigned o = (d + i) & 255; unsigned k = std::min<u64>(n - i, 256 - o); memcpy(p->d + o, &buf[i], k);
    for (unsigned j = 0; j < k; j++) { unsigned q = o + j; if (any && sy[i + j]) { p->sm[q >> 6] |= 1ull << (q & 63); if (cs[i + j].e && !p->cells) { p->cells = new Cell[256]; memset(p->cells, 0, 256 * sizeof(Cell)); } if (p->cells) p->cells[q] = cs[i + j]; } else p->sm[q >> 6] &= ~(1ull << (q & 63)); } i += k; }
}
// ------------------------------------------------------------------ objects
static const u32 G_BASE = 0x01000000, H_BASE = 0x10000000, S_BASE = 0xE0000000, S_STRIDE = 0x1000000;
static Obj *findHeap(State &S, u64 a) {
  if (S.heap.empty()) return nullptr; size_t lo = 0, hi = S.heap.size(); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (S.heap[m]->v[0].addr <= a) lo = m; else hi = m; }
  auto &v = S.heap[lo]->v; size_t l = 0, h = v.size(); if (v[0].addr > a) return nullptr; while (h - l > 1) { size_t m = (l + h) / 2; if (v[m].addr <= a) l = m; else h = m; }
  return &v[l];
}
static Obj *findObj(State &S, u64 a) {  // object with greatest start <= a in a's region
  if (a >> 32) return nullptr;
  if (a >= S_BASE) { size_t t = (a - S_BASE) / S_STRIDE; if (t >= S.th.size()) return nullptr; auto &v = S.th[t].stk; size_t l = 0, h = v.size(); if (!h || v[0].addr > a) return nullptr; while (h - l > 1) { size_t m = (l + h) / 2; if (v[m].addr <= a) l = m; else h = m; } return &v[l]; }
  if (a >= H_BASE) return findHeap(S, a);
  size_t l = 0, h = gObjs.size(); if (!h || gObjs[0].addr > a) return nullptr; while (h - l > 1) { size_t m = (l + h) / 2; if (gObjs[m].addr <= a) l = m; else h = m; } return &gObjs[l];
}
static Obj *wrObj(State &S, Obj *o) { // heap object for modification
  u32 a = o->addr; size_t lo = 0, hi = S.heap.size(); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (S.heap[m]->v[0].addr <= a) lo = m; else hi = m; }
  if (S.heap[lo].use_count() > 1) S.heap[lo] = std::make_shared<Chunk>(*S.heap[lo]); S.cacheOk = false; return findHeap(S, a);
}
static u32 heapAlloc(State &S, u64 size, u64 align, OKind k, int how, bool zero) {
  if (align < 16) align = 16; u64 a = ((u64)S.brk + 32 + align - 1) & ~(align - 1); u64 end = a + size; if (end + 64 >= S_BASE) return 0; S.brk = (u32)((end + 15) & ~15ull);
  Obj o{(u32)a, (u32)size, k, 0, 0, (u8)how, S.nobj++};
  if (S.heap.empty() || S.heap.back()->v.size() >= 64) S.heap.push_back(std::make_shared<Chunk>()); else if (S.heap.back().use_count() > 1) S.heap.back() = std::make_shared<Chunk>(*S.heap.back());
  S.heap.back()->v.push_back(o); S.cacheOk = false;
  if (!zero && size) memFill(S, (u32)a, size, 1, 0);
  return (u32)a;
}
static u32 stackAlloc(State &S, Thread &T, u64 size, u64 align) {
  if (align < 16) align = 16; u64 a = ((u64)T.sp + 16 + align - 1) & ~(align - 1); u64 end = a + (size ? size : 1); if (end - T.stackBase > S_STRIDE - 65536) return 0; T.sp = (u32)end;
  T.stk.push_back(Obj{(u32)a, (u32)size, OK_STACK, 0, 0, 0, 0}); S.cacheOk = false; memFill(S, (u32)a, size, 1, 0); return (u32)a;
}
// ------------------------------------------------------------------ types
static std::map<Type *, TypeInfo *> tiCache;
static void flat(Type *T, u64 off, TypeInfo &ti) {
  if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); ti.leaves.push_back({(u32)off, (u16)w, (u16)((w + 7) / 8)}); }
  else if (T->isPointerTy()) ti.leaves.push_back({(u32)off, 64, 8});
  else if (T->isFloatTy()) ti.leaves.push_back({(u32)off, 32, 4}); else if (T->isDoubleTy()) ti.leaves.push_back({(u32)off, 64, 8});
  else if (T->isX86_FP80Ty()) ti.leaves.push_back({(u32)off, 80, 10}); else if (T->isHalfTy() || T->isBFloatTy()) ti.leaves.push_back({(u32)off, 16, 2}); else if (T->isFP128Ty()) ti.leaves.push_back({(u32)off, 128, 16});
  else if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + L->getElementOffset(i), ti); }
  else if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, ti); }
  else if (auto *V = dyn_cast<FixedVectorType>(T)) { unsigned w = DL->getTypeSizeInBits(V->getElementType()); if (w % 8) ti.bitvec = true; for (unsigned i = 0; i < V->getNumElements(); i++) ti.leaves.push_back({(u32)(off + i * (w / 8)), (u16)w, (u16)((w + 7) / 8)}); }
  else { errs() << "type unsupported: " << *T << "\n"; }
}
static const TypeInfo *tinfo(Type *T) {
  auto &p = tiCache[T]; if (p) return p; p = new TypeInfo; p->bitvec = false; p->size = 0;
  if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return p;
  if (T->isSized()) p->size = DL->getTypeStoreSize(T).getFixedValue(); flat(T, 0, *p); return p;
}
static unsigned elemW(Type *T) { if (auto *V = dyn_cast<VectorType>(T)) T = V->getElementType(); if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isX86_FP80Ty()) return 80; if (T->isHalfTy()) return 16; return 0; }
static unsigned nLeaves(Type *T) { return tinfo(T)->leaves.size(); }

// ------------------------------------------------------------------ constants
static u32 globalAddr(const GlobalValue *G);
static Val apVal(const APInt &v) { if (v.getBitWidth() <= 64) return vc(v.getZExtValue()); std::vector<u64> w(v.getRawData(), v.getRawData() + v.getNumWords()); return ve(mkWide(w, v.getBitWidth())); }
static Val constExpr(const Constant *C);
static void constLeaves(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (auto *I = dyn_cast<ConstantInt>(C)) { out.push_back(apVal(I->getValue())); return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) { out.push_back(apVal(F->getValueAPF().bitcastToAPInt())); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(vc(0)); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto &l : tinfo(T)->leaves) out.push_back(l.w > 64 ? ve(mkConst(0, l.w)) : vc(0)); return; }
  if (auto *A = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < A->getNumElements(); i++) constLeaves(A->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) constLeaves(cast<Constant>(C->getOperand(i)), out); return; }
  if (auto *G = dyn_cast<GlobalValue>(C)) { out.push_back(vc(globalAddr(G))); return; }
  out.push_back(constExpr(C));
}
static Val constExpr(const Constant *C) {
  if (auto *D = dyn_cast<DSOLocalEquivalent>(C)) return constExpr(D->getGlobalValue());
  if (auto *G = dyn_cast<GlobalValue>(C)) return vc(globalAddr(G));
  if (auto *I = dyn_cast<ConstantInt>(C)) return apVal(I->getValue());
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return vc(0);
  auto *E = dyn_cast<ConstantExpr>(C); if (!E) { errs() << "constant unsupported " << *C << "\n"; return vc(0); }
  unsigned w = elemW(E->getType()); auto op = [&](unsigned i) { return constExpr(E->getOperand(i)).c; };
  switch (E->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *G = cast<GEPOperator>(E); if (!G->accumulateConstantOffset(*DL, off)) errs() << "gep const\n"; return vc(op(0) + off.getSExtValue()); }
    case Instruction::PtrToInt: case Instruction::Trunc: return vc(op(0) & maskW(w)); case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: case Instruction::AddrSpaceCast: return vc(op(0));
    case Instruction::SExt: return vc(sextW(op(0), elemW(E->getOperand(0)->getType())) & maskW(w));
    case Instruction::Sub: return vc((op(0) - op(1)) & maskW(w)); case Instruction::Add: return vc((op(0) + op(1)) & maskW(w)); case Instruction::Xor: return vc(op(0) ^ op(1)); case Instruction::Mul: return vc((op(0) * op(1)) & maskW(w)); case Instruction::Shl: return vc((op(0) << op(1)) & maskW(w));
    default: errs() << "constexpr unsupported " << *C << "\n"; return vc(0);
  }
}
// ------------------------------------------------------------------ function table / decode
// Does the value chosen by this select reach a memory address (or leave the function)?
static bool selectFeedsAddress(const SelectInst *S) {
  if (S->getType()->isVectorTy() || S->getType()->isStructTy()) return false; if (S->getType()->isPointerTy()) return true; if (!S->getType()->isIntegerTy() || S->getType()->getIntegerBitWidth() == 1) return false;
  std::set<const Value *> seen; std::vector<const Value *> w{S};
  while (!w.empty()) { const Value *v = w.back(); w.pop_back(); if (!seen.insert(v).second || seen.size() > 200) continue;
    for (auto *U : v->users()) { if (isa<GetElementPtrInst>(U) || isa<IntToPtrInst>(U) || isa<ReturnInst>(U)) return true; if (isa<PHINode>(U) || isa<CastInst>(U) || isa<SelectInst>(U)) w.push_back(U); else if (auto *B = dyn_cast<BinaryOperator>(U)) w.push_back(B); } }
  return false;
}
enum OP : u16 { O_BIN, O_ICMP, O_SELECT, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_TRUNC, O_ZEXT, O_SEXT, O_BITCAST, O_COPY, O_EXTV, O_INSV, O_EXTE, O_INSE, O_SHUF, O_RMW, O_CAS, O_NOP, O_ALLOCA, O_UNREACH, O_FBIN, O_FCMP, O_FCAST, O_FNEG, O_UNSUP, O_VAARG };
static int builtinId(const std::string &n, bool prefixes = true); static Func *getFunc(const Function *F);
static u32 nextFuncAddr = 0x1000;
static Func *getFunc(const Function *F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  Func *f = new Func; f->F = const_cast<Function *>(F); f->name = F->getName().str(); f->addr = nextFuncAddr; nextFuncAddr += 16; funcs[F] = f; funcByAddr[f->addr] = f; funcList.push_back(f);
  f->builtin = builtinId(f->name, F->isDeclaration()); f->varArg = F->isVarArg(); return f;
}
static u32 globalAddr(const GlobalValue *G) {
  if (auto *A = dyn_cast<GlobalAlias>(G)) { const GlobalObject *o = A->getAliaseeObject(); if (o) return globalAddr(o); }
  if (auto *F = dyn_cast<Function>(G)) return getFunc(F)->addr;
  auto it = gAddr.find(cast<GlobalVariable>(G)); if (it != gAddr.end()) return it->second; errs() << "no address for global " << G->getName() << "\n"; return 0;
}
static bool isIntr(const Function *F) { return F && F->getName().starts_with("llvm."); }
static void decode(Func *f) {
  f->decoded = true; Function &F = *f->F; std::map<const Value *, int> slot; std::map<const Constant *, int> cslot; u32 n = 0;
  auto alloc = [&](const Value *v) { int s = n; slot[v] = s; n += std::max(1u, nLeaves(v->getType())); return s; };
  for (auto &A : F.args()) { alloc(&A); f->argLanes.push_back(nLeaves(A.getType())); }
  for (auto &BB : F) for (auto &I : BB) if (!I.getType()->isVoidTy()) alloc(&I);
  f->nregs = n;
  auto opnd = [&](const Value *v) -> int {
    if (auto *C = dyn_cast<Constant>(v)) { auto it = cslot.find(C); if (it != cslot.end()) return it->second; int s = ~(int)f->consts.size(); std::vector<Val> t; constLeaves(C, t); if (t.empty()) t.push_back(vc(0)); f->consts.insert(f->consts.end(), t.begin(), t.end()); cslot[C] = s; return s; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return ~0;
    auto it = slot.find(v); if (it == slot.end()) { errs() << "operand? " << *v << "\n"; return 0; } return it->second; };
  // consts[0] reserved; note multi-leaf constants are stored ascending, so index k of constant s is consts[~s + k]
  f->consts.push_back(vc(0));
  std::map<const BasicBlock *, u32> start; std::vector<std::pair<u32, const BasicBlock *>> fix;
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.target = 0; for (auto &P : to->phis()) e.phis.push_back({slot[&P], opnd(P.getIncomingValueForBlock(from)), (u16)std::max(1u, nLeaves(P.getType()))}); f->edges.push_back(e); fix.push_back({(u32)f->edges.size() - 1, to}); return (u32)f->edges.size() - 1; };
  for (auto &BB : F) {
    start[&BB] = f->code.size();
    for (auto &I : BB) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      PInst p{}; p.I = &I; p.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; Type *T = I.getType(); p.w = elemW(T); p.lanes = T->isVectorTy() ? cast<FixedVectorType>(T)->getNumElements() : 1;
      if (auto *B = dyn_cast<BinaryOperator>(&I)) {
        p.a = opnd(B->getOperand(0)); p.b = opnd(B->getOperand(1)); p.op = O_BIN;
        switch (B->getOpcode()) { case Instruction::Add: p.sub = K_ADD; break; case Instruction::Sub: p.sub = K_SUB; break; case Instruction::Mul: p.sub = K_MUL; break; case Instruction::UDiv: p.sub = K_UDIV; break; case Instruction::SDiv: p.sub = K_SDIV; break; case Instruction::URem: p.sub = K_UREM; break; case Instruction::SRem: p.sub = K_SREM; break;
          case Instruction::And: p.sub = K_AND; break; case Instruction::Or: p.sub = K_OR; break; case Instruction::Xor: p.sub = K_XOR; break; case Instruction::Shl: p.sub = K_SHL; break; case Instruction::LShr: p.sub = K_LSHR; break; case Instruction::AShr: p.sub = K_ASHR; break;
          default: p.op = O_FBIN; p.sub = B->getOpcode(); }
      } else if (auto *C = dyn_cast<ICmpInst>(&I)) { p.op = O_ICMP; p.sub = C->getPredicate(); p.a = opnd(C->getOperand(0)); p.b = opnd(C->getOperand(1)); p.w = elemW(C->getOperand(0)->getType()); }
      else if (auto *C = dyn_cast<FCmpInst>(&I)) { p.op = O_FCMP; p.sub = C->getPredicate(); p.a = opnd(C->getOperand(0)); p.b = opnd(C->getOperand(1)); p.w = elemW(C->getOperand(0)->getType()); }
      else if (auto *S = dyn_cast<SelectInst>(&I)) { p.op = O_SELECT; p.a = opnd(S->getCondition()); p.b = opnd(S->getTrueValue()); p.c = opnd(S->getFalseValue()); p.lanes = nLeaves(T); p.sub = S->getCondition()->getType()->isVectorTy() ? 1 : optForkSelect && selectFeedsAddress(S) ? 2 : 0; f->types.push_back(tinfo(T)); p.x = f->types.size() - 1; }
      else if (auto *L = dyn_cast<LoadInst>(&I)) { p.op = O_LOAD; p.a = opnd(L->getPointerOperand()); f->types.push_back(tinfo(T)); p.x = f->types.size() - 1; p.sub = T->isPointerTy(); }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { p.op = O_STORE; p.a = opnd(S->getPointerOperand()); p.b = opnd(S->getValueOperand()); f->types.push_back(tinfo(S->getValueOperand()->getType())); p.x = f->types.size() - 1; }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        p.op = O_GEP; GepInfo gi; gi.konst = 0; gi.lanes = p.lanes; p.a = opnd(G->getPointerOperand()); gi.vecBase = G->getPointerOperand()->getType()->isVectorTy();
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) { u64 fi = 0; if (auto *ci = dyn_cast<ConstantInt>(ix)) fi = ci->getZExtValue(); else if (auto *cv = dyn_cast<Constant>(ix)) fi = cast<ConstantInt>(cv->getSplatValue())->getZExtValue(); gi.konst += DL->getStructLayout(st)->getElementOffset(fi); }
          else { u64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) gi.konst += sc * (u64)ci->getSExtValue(); else { gi.idx.push_back({opnd(ix), sc, (u16)elemW(ix->getType())}); gi.vecIdx.push_back(ix->getType()->isVectorTy()); } } }
        f->geps.push_back(gi); p.x = f->geps.size() - 1;
      } else if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isUnconditional()) { p.op = O_BR; p.x = edge(&BB, B->getSuccessor(0)); } else { p.op = O_CBR; p.a = opnd(B->getCondition()); p.b = edge(&BB, B->getSuccessor(0)); p.c = edge(&BB, B->getSuccessor(1)); }
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        p.op = O_SWITCH; p.a = opnd(S->getCondition()); SwitchInfo si; si.w = elemW(S->getCondition()->getType()); si.def = edge(&BB, S->getDefaultDest()); for (auto &c : S->cases()) { u32 e = edge(&BB, c.getCaseSuccessor()); si.cases.push_back({c.getCaseValue()->getZExtValue(), e}); si.map[c.getCaseValue()->getZExtValue()] = e; } f->sw.push_back(si); p.x = f->sw.size() - 1;
      } else if (auto *R = dyn_cast<ReturnInst>(&I)) { p.op = O_RET; if (R->getReturnValue()) { p.a = opnd(R->getReturnValue()); p.lanes = std::max(1u, nLeaves(R->getReturnValue()->getType())); p.sub = 1; } }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        p.op = O_CALL; CallInfo ci; ci.cb = CB; ci.dst = p.dst; ci.lanes = T->isVoidTy() ? 0 : nLeaves(T); ci.w = elemW(T); ci.rt = tinfo(T);
        bool skip = false;
        Value *cv = CB->getCalledOperand()->stripPointerCastsAndAliases();
        if (isa<InlineAsm>(cv)) { ci.builtin = builtinId("$asm"); ci.name = std::string(cast<InlineAsm>(cv)->getAsmString()); }
        else if (auto *cf = dyn_cast<Function>(cv)) { ci.name = cf->getName().str(); if (isIntr(cf)) { static const char *ign[] = {"llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.prefetch", "llvm.experimental.noalias", "llvm.invariant.", "llvm.stackrestore", "llvm.donothing", "llvm.x86.sse.sfence", "llvm.x86.sse2.mfence", "llvm.x86.sse2.lfence", "llvm.x86.sse2.clflush", "llvm.x86.clflushopt", "llvm.va_end", "llvm.pseudoprobe", "llvm.var.annotation", "llvm.x86.avx.vzeroupper", "llvm.codeview"}; for (auto s : ign) if (StringRef(ci.name).starts_with(s)) skip = true; if (!skip) { ci.builtin = builtinId(ci.name); } }
          else { ci.target = getFunc(cf); ci.builtin = ci.target->builtin; } }
        else ci.callee = opnd(cv);
        if (!skip) { for (auto &A : CB->args()) { ci.args.push_back(opnd(A.get())); ci.argLanes.push_back(A->getType()->isMetadataTy() ? 1 : std::max(1u, nLeaves(A->getType()))); ci.argW.push_back(A->getType()->isMetadataTy() ? 0 : elemW(A->getType())); } f->calls.push_back(ci); p.x = f->calls.size() - 1; f->code.push_back(p); }
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { PInst q{}; q.I = &I; q.op = O_BR; q.dst = -1; q.x = edge(&BB, IV->getNormalDest()); f->code.push_back(q); }
        continue;
      } else if (auto *C = dyn_cast<CastInst>(&I)) {
        p.a = opnd(C->getOperand(0)); unsigned sw = elemW(C->getSrcTy()); p.sub = sw; p.c = C->getSrcTy()->isVectorTy() ? cast<FixedVectorType>(C->getSrcTy())->getNumElements() : 1;
        switch (C->getOpcode()) { case Instruction::Trunc: p.op = O_TRUNC; break; case Instruction::ZExt: p.op = O_ZEXT; break; case Instruction::SExt: p.op = O_SEXT; break;
          case Instruction::BitCast: p.op = O_BITCAST; break; case Instruction::PtrToInt: case Instruction::IntToPtr: p.op = p.w == sw ? O_COPY : (p.w < sw ? O_TRUNC : O_ZEXT); break; case Instruction::AddrSpaceCast: p.op = O_COPY; break;
          default: p.op = O_FCAST; p.x = C->getOpcode(); }
      } else if (isa<FreezeInst>(I)) { p.op = O_COPY; p.a = opnd(I.getOperand(0)); p.lanes = std::max(1u, nLeaves(T)); }
      else if (auto *E = dyn_cast<ExtractValueInst>(&I)) { p.op = O_EXTV; p.a = opnd(E->getAggregateOperand()); u32 off = 0; Type *t = E->getAggregateOperand()->getType(); for (unsigned ix : E->indices()) { for (unsigned k = 0; k < ix; k++) off += nLeaves(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()); t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType(); } p.x = off; p.lanes = nLeaves(T); }
      else if (auto *E = dyn_cast<InsertValueInst>(&I)) { p.op = O_INSV; p.a = opnd(E->getAggregateOperand()); p.b = opnd(E->getInsertedValueOperand()); u32 off = 0; Type *t = T; for (unsigned ix : E->indices()) { for (unsigned k = 0; k < ix; k++) off += nLeaves(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()); t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType(); } p.x = off; p.lanes = nLeaves(T); p.c = nLeaves(E->getInsertedValueOperand()->getType()); }
      else if (auto *E = dyn_cast<ExtractElementInst>(&I)) { p.op = O_EXTE; p.a = opnd(E->getVectorOperand()); p.b = opnd(E->getIndexOperand()); p.lanes = cast<FixedVectorType>(E->getVectorOperand()->getType())->getNumElements(); p.sub = elemW(E->getIndexOperand()->getType()); }
      else if (auto *E = dyn_cast<InsertElementInst>(&I)) { p.op = O_INSE; p.a = opnd(E->getOperand(0)); p.b = opnd(E->getOperand(1)); p.c = opnd(E->getOperand(2)); p.sub = elemW(E->getOperand(2)->getType()); }
      else if (auto *E = dyn_cast<ShuffleVectorInst>(&I)) { p.op = O_SHUF; p.a = opnd(E->getOperand(0)); p.b = opnd(E->getOperand(1)); std::vector<int> m(E->getShuffleMask().begin(), E->getShuffleMask().end()); f->shufs.push_back(m); p.x = f->shufs.size() - 1; p.c = cast<FixedVectorType>(E->getOperand(0)->getType())->getNumElements(); }
      else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { p.op = O_RMW; p.a = opnd(R->getPointerOperand()); p.b = opnd(R->getValOperand()); p.sub = R->getOperation(); p.w = elemW(R->getValOperand()->getType()); }
      else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { p.op = O_CAS; p.a = opnd(X->getPointerOperand()); p.b = opnd(X->getCompareOperand()); p.c = opnd(X->getNewValOperand()); p.w = elemW(X->getCompareOperand()->getType()); }
      else if (auto *A = dyn_cast<AllocaInst>(&I)) { p.op = O_ALLOCA; p.a = opnd(A->getArraySize()); f->consts.push_back(vc(DL->getTypeAllocSize(A->getAllocatedType()))); p.b = ~(int)(f->consts.size() - 1); p.x = A->getAlign().value(); p.sub = elemW(A->getArraySize()->getType()); }
      else if (isa<FenceInst>(I)) { continue; }
      else if (isa<UnreachableInst>(I)) p.op = O_UNREACH;
      else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) p.op = O_UNREACH;
      else if (auto *U = dyn_cast<UnaryOperator>(&I)) { p.op = O_FNEG; p.a = opnd(U->getOperand(0)); }
      else { p.op = O_UNSUP; }
      f->code.push_back(p);
    }
  }
  for (auto &x : fix) f->edges[x.first].target = start[x.second];
  f->nInst = f->code.size();
}
// ------------------------------------------------------------------ reporting
static std::string locOf(const Instruction *I) {
  if (!I) return "?"; std::string s; if (auto D = I->getDebugLoc()) { const DILocation *L = D.get(); s = L->getFilename().str() + ":" + std::to_string(L->getLine()); while (auto *IA = L->getInlinedAt()) { L = IA; } } return s;
}
static std::string backtrace(State &S) {
  std::string r; Thread &T = S.th[S.cur]; for (size_t i = T.fr.size(); i-- > 0 && T.fr.size() - i < 14;) { auto &f = T.fr[i]; if (f.pc < f.f->code.size()) { const Instruction *I = f.f->code[f.pc].I; r += "  #" + std::to_string(T.fr.size() - 1 - i) + " " + f.f->name.substr(0, 90) + " at "; if (I) if (auto D = I->getDebugLoc()) { const DILocation *L = D.get(); while (L) { r += L->getFilename().str() + ":" + std::to_string(L->getLine()) + " "; L = L->getInlinedAt(); } } r += "\n"; } } return r;
}
static void writeInputs(FILE *f, State &S) {
  for (auto &i : S.inputs) fprintf(f, "in %s %u %lx\n", i.name.c_str(), i.w, i.e ? evalE(i.e, *S.model) : i.c);
  for (auto &p : S.sched) fprintf(f, "sched %lu %d\n", p.first, p.second);
}
static u32 strHash(const std::string &s) { u32 h = 2166136261u; for (char c : s) h = (h ^ (u8)c) * 16777619u; return h ? h : 1; }
static void violation(State &S, const std::string &kind, const std::string &msg) {
  ST.errors++;
  std::string loc; Thread &T = S.th[S.cur]; if (!T.fr.empty()) { auto &f = T.fr.back(); if (f.pc < f.f->code.size()) loc = locOf(f.f->code[f.pc].I); }
  u32 h = strHash(kind + msg + loc); bool dup = false; for (int i = 0; i < 64; i++) { int z = 0; if (shm->vhash[i].compare_exchange_strong(z, (int)h)) break; if (z == (int)h) { dup = true; break; } }
  if (dup) return;
  int n = shm->nviol++; if (n >= 32) return;
  std::string path = optOut + "/viol-" + std::to_string(n) + ".txt"; FILE *f = fopen(path.c_str(), "w"); if (!f) return;
  bool un = false; for (Expr *e : S.pc) for (u32 v : e->vs->v) if (varName(v).compare(0, 6, "uninit") == 0) un = true;
  fprintf(f, "kind %s\nmsg %s\nloc %s\nuninit %d\n", kind.c_str(), msg.c_str(), loc.c_str(), un ? 1 : 0); writeInputs(f, S); fprintf(f, "trace\n%s", backtrace(S).c_str()); fclose(f);
  if (n + 1 >= optMaxViol) shm->stop = 1;
}
static State *curState; static bool ended;   // path of curState ended
static void endPath(State &) { ended = true; }
static void incomplete(State &S, const std::string &why) { ST.incomplete++; ST.incompleteWhy[why]++; if (optVerbose) fprintf(stderr, "incomplete: %s\n%s", why.c_str(), backtrace(S).c_str()); endPath(S); }
static void fail(State &S, const std::string &kind, const std::string &msg) { if (optVerbose) fprintf(stderr, "violation: %s: %s\n%s", kind.c_str(), msg.c_str(), backtrace(S).c_str()); violation(S, kind, msg); endPath(S); }

// ------------------------------------------------------------------ constraints and forking
static void addC(State &S, Expr *c) {
  if (isC(c)) return;
  if (c->w == 1 && c->k == K_AND) { addC(S, c->a); addC(S, c->b); return; }
  for (Expr *e : S.pc) if (e == c) return;
  S.pc.push_back(c);
  if (c->k == K_EQ && isC(c->b)) { S.eq.push_back({c->a, c->b->c}); if (c->a->k == K_VAR) { u32 i = c->a->vs->v[0]; if (S.bnd.size() <= i / 64) S.bnd.resize(i / 64 + 1); S.bnd[i / 64] |= 1ull << (i % 64); } }
}
static bool eqLookup(State &S, Expr *e, u64 &v) { if (fixedVal(S, e, v)) return true; for (size_t i = S.eq.size(); i-- > 0;) if (S.eq[i].first == e) { v = S.eq[i].second; return true; } return false; }
static void dbgFork(State &S);
static State *cloneS(State &S) { static bool dbg = getenv("SYMX_FORKS"); if (dbg) dbgFork(S); State *n = new State(S); n->id = ++stateIds; n->cacheOk = false; n->depth++; ST.forks++; if ((u64)n->depth > ST.maxDepth) ST.maxDepth = n->depth; return n; }
static int implied(State &S, Expr *c) { // 1 true, 0 false, -1 unknown (syntactic)
  if (isC(c)) return c->c ? 1 : 0; { u64 v; if (fixedVal(S, c, v)) return v & 1; } Expr *n = mkNot(c); if (isC(n)) return n->c ? 0 : 1; for (Expr *e : S.pc) { if (e == c) return 1; if (e == n) return 0; }
  if (c->k == K_EQ && isC(c->b)) { u64 v; if (eqLookup(S, c->a, v)) return v == c->b->c; }
  return -1;
}
// A condition over one small variable as a union of intervals of that variable (keeps path conditions free of big table expressions).
static Expr *canon(Expr *c) {
  if (isC(c) || c->w != 1 || c->vs->v.size() != 1) return c; u32 v = c->vs->v[0]; unsigned w = varWidth(v); if (w > 8 || w < 2) return c;
  Expr *k = c; while (k->k == K_XOR && isC(k->b)) k = k->a; if ((k->k == K_EQ || k->k == K_ULE || k->k == K_ULT) && ((isC(k->a) && k->b->k == K_VAR) || (isC(k->b) && k->a->k == K_VAR))) return c;
  static std::unordered_map<Expr *, Expr *> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
  ModelP m = newModel(nullptr); if (m->v.size() <= v) m->v.resize(v + 1, 0); unsigned n = 1u << w; std::vector<bool> t(n); unsigned ones = 0; for (unsigned x = 0; x < n; x++) { m->v[v] = x; m->id = newModel(nullptr)->id; t[x] = evalE(c, *m) & 1; ones += t[x]; }
  Expr *var = varExpr(v), *r = nullptr; unsigned runs = 0; bool neg = ones * 2 > n; for (unsigned x = 0; x < n;) { if (t[x] == neg) { x++; continue; } unsigned y = x; while (y + 1 < n && t[y + 1] != neg) y++; runs++;
    Expr *q = x == y ? mkBin(K_EQ, var, mkConst(x, w)) : mkBin(K_AND, mkBin(K_ULE, mkConst(x, w), var), mkBin(K_ULE, var, mkConst(y, w))); r = r ? mkBin(K_OR, r, q) : q; x = y + 1; }
  if (!r) r = mkConst(0, 1); if (neg) r = mkNot(r); memo[c] = r; return r;
}
// Which way does the current state go?  The other way, when feasible, is handed to 'other'.
template <class Fn> static bool decide(State &S, Expr *c, Fn other) {
  int im = implied(S, c); if (im >= 0) return im; ST.branches++; c = canon(c); if (isC(c)) return c->c;
  bool v = evalE(c, *S.model); Expr *mine = v ? c : mkNot(c), *oth = v ? mkNot(c) : c; ModelP m; SatRes r = checkSat(S.pc, oth, S.model, m);
  if (r == SAT) { State *o = cloneS(S); o->model = m; addC(*o, oth); other(*o, !v); work.push_back(o); }
  else if (r == UNKNOWN) { ST.incomplete++; ST.incompleteWhy["solver gave up"]++; }
  addC(S, mine); return v;
}
// Make e concrete in S; other values are explored by clones that re-execute the current instruction.  The value range is halved until one value is left.
static u64 concretize(State &S, Expr *e) {
  if (isC(e)) return e->c; u64 v; if (eqLookup(S, e, v)) return v; ST.concr++;
  v = evalE(e, *S.model); Expr *c = mkBin(K_EQ, e, mkConst(v, e->w)); int im = implied(S, c); if (im == 1) return v;
  while (true) {
    ModelP m; Expr *nc = canon(mkNot(c)); SatRes r = checkSat(S.pc, nc, S.model, m);
    if (r == UNKNOWN) { ST.incomplete++; ST.incompleteWhy["solver gave up"]++; } if (r != SAT) break;
    u64 v2 = evalE(e, *m); State *o = cloneS(S); o->model = m; u64 mid = std::min(v, v2) + (std::max(v, v2) - std::min(v, v2)) / 2; Expr *low = mkBin(K_ULE, e, mkConst(mid, e->w)); bool mine = v <= mid; low = canon(low);
    addC(*o, mine ? mkNot(low) : low); work.push_back(o); addC(S, mine ? low : mkNot(low));
  }
  addC(S, canon(c)); S.eq.push_back({e, v}); return v;
}
static inline u64 conc(State &S, const Val &v) { return v.e ? concretize(S, v.e) : v.c; }
// bounded enumeration of feasible values; false if more than max
static bool enumVals(State &S, Expr *e, unsigned max, std::vector<u64> &out) {
  out.clear(); u64 v; if (eqLookup(S, e, v)) { out.push_back(v); return true; }
  std::vector<Expr *> pc = S.pc; ModelP m = S.model; v = evalE(e, *m);
  while (true) { out.push_back(v); if (out.size() > max) return false; Expr *ne = mkNot(mkBin(K_EQ, e, mkConst(v, e->w))); if (isC(ne) && !ne->c) return true; ModelP m2; SatRes r = checkSat(pc, ne, m, m2); if (r == UNSAT) return true; if (r == UNKNOWN) return false; pc.push_back(ne); m = m2; v = evalE(e, *m); }
}
// ------------------------------------------------------------------ access checks
static const char *regionName(OKind k) { switch (k) { case OK_GLOBAL: return "global"; case OK_HEAP: return "heap"; case OK_STACK: return "stack"; case OK_MMAP: return "mapped"; case OK_FUNC: return "code"; default: return "thread-local"; } }
static bool okAccess(State &S, u64 a, u64 n, bool wr) {  // concrete address
  if (S.cacheOk && a >= S.cache.addr && a + n <= (u64)S.cache.addr + S.cache.size && !(wr && S.cache.ro)) return true;
  Obj *o = findObj(S, a);
  if (o && !o->freed && a + n <= (u64)o->addr + o->size && !(wr && o->ro)) { S.cache = *o; S.cacheOk = true; return true; }
  char b[200];
  if (a < 4096) snprintf(b, 200, "null pointer %s", wr ? "write" : "read");
  else if (o && o->freed && a < (u64)o->addr + o->size) snprintf(b, 200, "%s of freed memory", wr ? "write" : "read");
  else if (o && a + n <= (u64)o->addr + o->size && o->ro) snprintf(b, 200, "write to read-only memory");
  else if (o && a < (u64)o->addr + o->size + 64) snprintf(b, 200, "%s of %lu bytes past the end of a %s object", wr ? "write" : "read", (unsigned long)n, regionName(o->kind));
  else snprintf(b, 200, "%s through a wild pointer", wr ? "write" : "read");
  if (optVerbose) fprintf(stderr, "addr %lx n %lu obj %x+%u\n", a, n, o ? o->addr : 0, o ? o->size : 0);
  fail(S, "memory", b); return false;
}
static void accTrack(State &S, u64 a, u64 n, bool wr) {
  if (!S.running || !n) return; if (a >= S_BASE && (a - S_BASE) / S_STRIDE == (u64)S.cur) return; int t = std::min(S.cur, 3);
  for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) { u8 o = gAcc[g], v = o | (wr ? 0x10 << t : 0x01 << t); if (v != o) { gAcc[g] = v; u8 any = (v & 15) | (v >> 4); bool was = ({ u8 an = (o & 15) | (o >> 4); (o >> 4) && (an & (an - 1)); }); bool is = (v >> 4) && (any & (any - 1)); if (is && !was) { shm->newConflict = 1; shm->nConf++; } } }
}
static bool accConflict(State &S, u64 a, u64 n, bool wr) { for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) { u8 v = gAcc[g]; u8 any = (v & 15) | (v >> 4); if ((v >> 4) && (any & (any - 1))) { u8 me = 1 << std::min(S.cur, 3); if (wr ? (any & ~me) : ((v >> 4) & ~me)) return true; } } return false; }

// ------------------------------------------------------------------ calls
static Val *regs(State &S) { Thread &T = S.th[S.cur]; return T.vs.data() + T.fr.back().base; }
static void pushFrame(State &S, Func *f, int dst, u16 lanes) {
  if (!f->decoded) decode(f); f->entered++; Thread &T = S.th[S.cur]; Frame fr; fr.f = f; fr.pc = 0; fr.base = T.fr.empty() ? 0 : T.fr.back().base + T.fr.back().f->nregs; fr.sp = T.sp; fr.nobj = T.stk.size(); fr.dst = dst; fr.dstLanes = lanes; fr.vaArea = 0; fr.onRetPop = 0;
  if (T.vs.size() < fr.base + f->nregs + 8) T.vs.resize(std::max<size_t>(T.vs.size() * 3 / 2, fr.base + f->nregs + 64), Val{0, nullptr});
  T.fr.push_back(fr);
}
struct Ctx { State &S; CallInfo &ci; const std::vector<const Val *> &args; int dst;
  Val a(int i) const { return *args[i]; } u64 C(int i) { return conc(S, *args[i]); } u16 w(int i) const { return ci.argW[i]; }
  void ret(Val v) { if (ci.dst >= 0) regs(S)[ci.dst] = v; } Val *out() { return regs(S) + ci.dst; } };
typedef void (*BI)(Ctx &);
static void schedSwitch(State &S, int t);
#include "builtins.inc"

// ------------------------------------------------------------------ stepping
static void takeEdge(State &S, u32 ei) {
  Frame &fr = S.th[S.cur].fr.back(); Edge &e = fr.f->edges[ei]; Val *R = S.th[S.cur].vs.data() + fr.base; const Val *K = fr.f->consts.data();
  if (!e.phis.empty()) {
    if (e.phis.size() == 1) { auto &p = e.phis[0]; const Val *s = p.src >= 0 ? R + p.src : K + ~p.src; for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = s[i]; }
    else { static std::vector<Val> tmp; tmp.clear(); for (auto &p : e.phis) { const Val *s = p.src >= 0 ? R + p.src : K + ~p.src; tmp.insert(tmp.end(), s, s + p.lanes); } size_t k = 0; for (auto &p : e.phis) for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = tmp[k++]; }
  }
  fr.pc = e.target;
}
static void threadFinished(State &S);
static void doRet(State &S, const Val *v, unsigned lanes) {
  Thread &T = S.th[S.cur]; Frame fr = T.fr.back(); T.fr.pop_back(); T.sp = fr.sp; if (T.stk.size() > fr.nobj) { T.stk.resize(fr.nobj); S.cacheOk = false; }
  if (T.fr.empty()) { if (S.cur == 0) { pathCompleted(S); } else { T.done = true; threadFinished(S); } return; }
  if (fr.dst >= 0 && v) { Val *R = T.vs.data() + T.fr.back().base; for (unsigned i = 0; i < lanes; i++) R[fr.dst + i] = v[i]; }
  T.fr.back().pc++;
}
static void collectBits(const Val *v, unsigned lanes, unsigned w, std::vector<Expr *> *, Expr *&out) { Expr *acc = nullptr; for (unsigned i = 0; i < lanes; i++) { Expr *e = ex(v[i], w); acc = acc ? mkConcat(e, acc) : e; } out = acc; }
static void bitcastLanes(const Val *s, unsigned sl, unsigned sw, Val *d, unsigned dl, unsigned dw) {
  if (sl == dl) { for (unsigned i = 0; i < sl; i++) d[i] = s[i]; return; }
  bool con = true; for (unsigned i = 0; i < sl; i++) if (s[i].e) con = false;
  if (con && sw <= 64 && dw <= 64) { std::vector<u64> buf((sl * sw + 63) / 64 + 1, 0); for (unsigned i = 0; i < sl; i++) { unsigned b = i * sw; u64 v = s[i].c & maskW(sw); buf[b / 64] |= v << (b % 64); if (b % 64 && b % 64 + sw > 64) buf[b / 64 + 1] |= v >> (64 - b % 64); }
    for (unsigned i = 0; i < dl; i++) { unsigned b = i * dw; u64 v = buf[b / 64] >> (b % 64); if (b % 64 && b % 64 + dw > 64) v |= buf[b / 64 + 1] << (64 - b % 64); d[i] = vc(v & maskW(dw)); } return; }
  if (dw > sw && dw % sw == 0) { unsigned k = dw / sw; std::vector<Val> t(s, s + sl); for (unsigned i = 0; i < dl; i++) { Expr *o; collectBits(&t[i * k], k, sw, nullptr, o); d[i] = ve(o); } return; }
  if (sw > dw && sw % dw == 0) { unsigned k = sw / dw; std::vector<Val> t(s, s + sl); for (unsigned i = 0; i < dl; i++) d[i] = ve(mkExtract(ex(t[i / k], sw), (i % k) * dw, dw)); return; }
  Expr *all; collectBits(s, sl, sw, nullptr, all); for (unsigned i = 0; i < dl; i++) d[i] = ve(mkExtract(all, i * dw, dw));
}
static double asD(u64 c, unsigned w) { if (w == 32) { float f; u32 x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 ofD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static Expr *icmpE(unsigned pred, Expr *a, Expr *b) {
  switch (pred) { case ICmpInst::ICMP_EQ: return mkBin(K_EQ, a, b); case ICmpInst::ICMP_NE: return mkNot(mkBin(K_EQ, a, b)); case ICmpInst::ICMP_ULT: return mkBin(K_ULT, a, b); case ICmpInst::ICMP_ULE: return mkBin(K_ULE, a, b); case ICmpInst::ICMP_UGT: return mkBin(K_ULT, b, a); case ICmpInst::ICMP_UGE: return mkBin(K_ULE, b, a);
    case ICmpInst::ICMP_SLT: return mkBin(K_SLT, a, b); case ICmpInst::ICMP_SLE: return mkBin(K_SLE, a, b); case ICmpInst::ICMP_SGT: return mkBin(K_SLT, b, a); default: return mkBin(K_SLE, b, a); }
}
static bool icmpC(unsigned pred, u64 a, u64 b, unsigned w) {
  switch (pred) { case ICmpInst::ICMP_EQ: return a == b; case ICmpInst::ICMP_NE: return a != b; case ICmpInst::ICMP_ULT: return a < b; case ICmpInst::ICMP_ULE: return a <= b; case ICmpInst::ICMP_UGT: return a > b; case ICmpInst::ICMP_UGE: return a >= b;
    case ICmpInst::ICMP_SLT: return sextW(a, w) < sextW(b, w); case ICmpInst::ICMP_SLE: return sextW(a, w) <= sextW(b, w); case ICmpInst::ICMP_SGT: return sextW(a, w) > sextW(b, w); default: return sextW(a, w) >= sextW(b, w); }
}
// symbolic shift amounts are masked as the hardware does for in-range ones; out-of-range is poison in C
static Val binV(unsigned k, Val a, Val b, unsigned w) {
  if (!a.e && !b.e && w <= 64) { u64 x = a.c, y = b.c;
    switch (k) { case K_ADD: return vc((x + y) & maskW(w)); case K_SUB: return vc((x - y) & maskW(w)); case K_MUL: return vc((x * y) & maskW(w)); case K_AND: return vc(x & y); case K_OR: return vc(x | y); case K_XOR: return vc(x ^ y);
      case K_SHL: return vc((x << (y & 63)) & maskW(w)); case K_LSHR: return vc(x >> (y & 63)); case K_ASHR: return vc((u64)(sextW(x, w) >> (y & 63)) & maskW(w)); case K_UDIV: return vc(x / y); case K_UREM: return vc(x % y);
      case K_SDIV: { i64 p = sextW(x, w), q = sextW(y, w); return vc((q == -1 ? (u64)-p : (u64)(p / q)) & maskW(w)); } case K_SREM: { i64 p = sextW(x, w), q = sextW(y, w); return vc((q == -1 ? 0 : (u64)(p % q)) & maskW(w)); } } }
  return ve(mkBin((EK)k, ex(a, w), ex(b, w)));
}
// returns candidate-expression load for a symbolic address; false when the path ended or must not continue
static bool symLoad(State &S, Expr *ae, const TypeInfo *ti, bool isPtr, Val *out) {
  ST.symLoads++;
  u64 v; if (!eqLookup(S, ae, v)) {
    v = evalE(ae, *S.model); Obj *o = findObj(S, v);
    if (o && !o->freed && v + ti->size <= (u64)o->addr + o->size && !isPtr && ti->leaves.size() == 1 && ti->leaves[0].w <= 64) {
      u64 lo = o->addr, hi = (u64)o->addr + o->size - ti->size; u32 osz = o->size, oaddr = o->addr;
      Expr *inb = mkBin(K_ULE, mkBin(K_SUB, ae, mkConst(lo, 64)), mkConst(hi - lo, 64));
      if (!decide(S, inb, [](State &, bool) {})) { /* model was inside, so never */ }
      std::vector<u64> vals; unsigned bytes = ti->leaves[0].bytes, w = ti->leaves[0].w;
      if (osz > 64 && osz <= 8192) {
        // table: one entry per aligned slot
        unsigned st = bytes; Expr *off = mkBin(K_SUB, ae, mkConst(oaddr, 64)); bool al = true; if (st > 1) { Expr *low = mkExtract(off, 0, __builtin_ctz(st)); al = isC(low) && low->c == 0; }
        if (al && (st & (st - 1)) == 0) {
          unsigned cnt = osz / st; std::vector<Val> t(cnt); for (unsigned i = 0; i < cnt; i++) t[i] = rdMem(S, oaddr + i * st, bytes, w);
          std::function<Expr *(unsigned, unsigned)> rec = [&](unsigned l, unsigned h) -> Expr * { if (h - l == 1) return ex(t[l], w); bool same = true; for (unsigned i = l + 1; i < h && same; i++) same = t[i].e == t[l].e && t[i].c == t[l].c; if (same) return ex(t[l], w); unsigned m = (l + h) / 2; return mkIte(mkBin(K_ULT, off, mkConst((u64)m * st, 64)), rec(l, m), rec(m, h)); };
          if (enumVals(S, ae, 6, vals)) { Expr *r = nullptr; for (u64 x : vals) { Expr *c = ex(rdMem(S, x, bytes, w), w); r = r ? mkIte(mkBin(K_EQ, ae, mkConst(x, 64)), c, r) : c; } out[0] = ve(r); return true; }
          out[0] = ve(rec(0, cnt)); return true; }
      }
      if (enumVals(S, ae, 24, vals)) { Expr *r = nullptr; for (u64 x : vals) { Expr *c = ex(rdMem(S, x, bytes, w), w); r = r ? mkIte(mkBin(K_EQ, ae, mkConst(x, 64)), c, r) : c; } out[0] = ve(r); return true; }
    }
    v = concretize(S, ae);
  }
  if (!okAccess(S, v, ti->size, false)) return false;
  for (size_t i = 0; i < ti->leaves.size(); i++) out[i] = rdMem(S, v + ti->leaves[i].off, ti->leaves[i].bytes, ti->leaves[i].w);
  return true;
}
static void schedSwitch(State &S, int t) { S.cur = t; S.cacheOk = false; }
static void run(State *SP) {
  State &S = *SP; curState = SP; ended = false; u64 budget = 0;
  while (!ended) {
    Thread *T = &S.th[S.cur]; Frame *fr = &T->fr.back(); Func *f = fr->f; PInst &p = f->code[fr->pc]; Val *R = T->vs.data() + fr->base; const Val *K = f->consts.data();
#define V(i) ((i) >= 0 ? R + (i) : K + ~(i))
    S.steps++; ST.steps++;
    if (++budget >= 65536) { budget = 0; if (shm->stop) { ST.left++; return; } if (now() > shm->deadline) { shm->timeouts++; shm->stop = 1; ST.left++; return; } }
    if (S.steps > optPathSteps) { fail(S, "hang", "operation did not finish within the step bound"); return; }
    switch (p.op) {
      case O_BIN: { const Val *a = V(p.a), *b = V(p.b);
        if (p.sub >= K_UDIV && p.sub <= K_SREM) for (unsigned i = 0; i < p.lanes && !ended; i++) { if (!b[i].e && b[i].c == 0 && p.w <= 64) { fail(S, "arith", "division by zero"); break; }
            if (b[i].e && b[i].e->vs->v.size()) { Expr *z = mkBin(K_EQ, b[i].e, mkConst(0, p.w)); State *orig = &S; (void)orig; bool isz = decide(S, z, [](State &, bool) {}); R = S.th[S.cur].vs.data() + fr->base; if (isz) { fail(S, "arith", "division by zero"); break; } } }
        if (ended) break;
        for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = binV(p.sub, a[i], b[i], p.w); fr->pc++; break; }
      case O_ICMP: { const Val *a = V(p.a), *b = V(p.b); for (unsigned i = 0; i < p.lanes; i++) { if (!a[i].e && !b[i].e) R[p.dst + i] = vc(icmpC(p.sub, a[i].c, b[i].c, p.w)); else R[p.dst + i] = ve(icmpE(p.sub, ex(a[i], p.w), ex(b[i], p.w))); } fr->pc++; break; }
      case O_SELECT: { const Val *c = V(p.a), *a = V(p.b), *b = V(p.c); const TypeInfo *ti = f->types[p.x];
        if (p.sub == 2 && c->e) { u32 base = fr->base; auto put = [&](State &o, bool v) { Frame &g = o.th[o.cur].fr.back(); Val *Q = o.th[o.cur].vs.data() + base; int x = v ? p.b : p.c; for (unsigned i = 0; i < p.lanes; i++) Q[p.dst + i] = x >= 0 ? Q[x + i] : K[~x + i]; g.pc++; };
          bool t = decide(S, c->e, put); put(S, t); break; }
        for (unsigned i = 0; i < p.lanes; i++) { const Val &cc = p.sub & 1 ? c[i] : c[0]; if (!cc.e) R[p.dst + i] = cc.c ? a[i] : b[i]; else { int im = implied(S, cc.e); R[p.dst + i] = im >= 0 ? (im ? a[i] : b[i]) : ve(mkIte(cc.e, ex(a[i], ti->leaves[i].w), ex(b[i], ti->leaves[i].w))); } } fr->pc++; break; }
      case O_LOAD: { const Val *a = V(p.a); const TypeInfo *ti = f->types[p.x];
        if (ti->bitvec) { u64 ad = conc(S, *a); unsigned n = ti->leaves.size() * ti->leaves[0].w; if (!okAccess(S, ad, ti->size, false)) break; Expr *e = ex(rdMem(S, ad, ti->size, ti->size * 8), ti->size * 8); (void)n; unsigned w = ti->leaves[0].w; for (size_t i = 0; i < ti->leaves.size(); i++) R[p.dst + i] = ve(mkExtract(e, i * w, w)); fr->pc++; break; }
        if (!a->e) { u64 ad = a->c; if (!okAccess(S, ad, ti->size, false)) break; for (size_t i = 0; i < ti->leaves.size(); i++) R[p.dst + i] = rdMem(S, ad + ti->leaves[i].off, ti->leaves[i].bytes, ti->leaves[i].w); fr->pc++; break; }
        { std::vector<Val> o(ti->leaves.size()); if (!symLoad(S, a->e, ti, p.sub, o.data())) break; R = S.th[S.cur].vs.data() + fr->base; for (size_t i = 0; i < o.size(); i++) R[p.dst + i] = o[i]; fr->pc++; } break; }
      case O_STORE: { u64 ad = conc(S, *V(p.a)); const TypeInfo *ti = f->types[p.x]; if (!okAccess(S, ad, ti->size, true)) break; const Val *b = V(p.b);
        bool chg = true; if (S.running && ti->leaves.size() == 1 && !ti->bitvec) { Val o = rdMem(S, ad, ti->leaves[0].bytes, ti->leaves[0].w); chg = o.e != b->e || o.c != b->c; }
        if (ti->bitvec) { Expr *e; collectBits(b, ti->leaves.size(), ti->leaves[0].w, nullptr, e); if (e->w < ti->size * 8) e = mkZExt(e, ti->size * 8); wrMem(S, ad, ti->size, ti->size * 8, ve(e)); }
        else for (size_t i = 0; i < ti->leaves.size(); i++) wrMem(S, ad + ti->leaves[i].off, ti->leaves[i].bytes, ti->leaves[i].w, b[i]);
        if (chg) S.memGen++; fr->pc++; break; }
      case O_GEP: { GepInfo &g = f->geps[p.x]; const Val *base = V(p.a);
        for (unsigned l = 0; l < g.lanes; l++) { Val acc = base[g.vecBase ? l : 0]; if (!acc.e) acc.c += g.konst; else if (g.konst) acc = ve(mkBin(K_ADD, acc.e, mkConst(g.konst, 64)));
          for (size_t i = 0; i < g.idx.size(); i++) { auto &[op, sc, w] = g.idx[i]; Val ix = V(op)[g.vecIdx[i] ? l : 0]; if (!ix.e) { u64 o = (u64)sextW(ix.c, w) * sc; if (!acc.e) acc.c += o; else acc = ve(mkBin(K_ADD, acc.e, mkConst(o, 64))); } else { Expr *e = w < 64 ? mkSExt(ix.e, 64) : (w > 64 ? mkExtract(ix.e, 0, 64) : ix.e); acc = ve(mkBin(K_ADD, ex(acc, 64), mkBin(K_MUL, e, mkConst(sc, 64)))); } }
          R[p.dst + l] = acc; }
        fr->pc++; break; }
      case O_BR: takeEdge(S, p.x); break;
      case O_CBR: { const Val *c = V(p.a); if (!c->e) { takeEdge(S, c->c & 1 ? p.b : p.c); break; }
        bool t = decide(S, c->e, [&](State &o, bool v) { takeEdge(o, v ? p.b : p.c); }); takeEdge(S, t ? p.b : p.c); break; }
      case O_SWITCH: { SwitchInfo &si = f->sw[p.x]; Val c = *V(p.a);
        if (c.e) { // fork over the targets
          u64 v; if (eqLookup(S, c.e, v)) c = vc(v); else {
            v = evalE(c.e, *S.model); auto it = si.map.find(v);
            // group cases by target edge block
            u32 myT = it == si.map.end() ? si.def : it->second; Expr *mine = nullptr;
            if (it == si.map.end()) { mine = mkConst(1, 1); for (auto &cs : si.cases) mine = mkBin(K_AND, mine, mkNot(mkBin(K_EQ, c.e, mkConst(cs.first, si.w)))); }
            else mine = mkBin(K_EQ, c.e, mkConst(v, si.w));
            decide(S, mine, [](State &, bool) {});  // the clone re-executes the switch with 'mine' excluded
            takeEdge(S, myT); break; } }
        auto it = si.map.find(c.c); takeEdge(S, it == si.map.end() ? si.def : it->second); break; }
      case O_RET: { if (p.sub) { std::vector<Val> t; const Val *v = V(p.a); Val small[4]; if (p.lanes <= 4) { for (unsigned i = 0; i < p.lanes; i++) small[i] = v[i]; doRet(S, small, p.lanes); } else { t.assign(v, v + p.lanes); doRet(S, t.data(), p.lanes); } } else doRet(S, nullptr, 0); break; }
      case O_CALL: {
        CallInfo &ci = f->calls[p.x]; Func *t = ci.target; int bi = ci.builtin;
        if (!t && bi < 0) { if (ci.callee == 0 && ci.name.size()) { incomplete(S, "unsupported intrinsic " + ci.name); break; } u64 fa = conc(S, *V(ci.callee)); auto it = funcByAddr.find((u32)fa); if (fa >> 32 || it == funcByAddr.end()) { fail(S, "memory", "call through a wild function pointer"); break; } t = it->second; bi = t->builtin; }
        if (bi >= 0) { std::vector<const Val *> args; args.reserve(ci.args.size()); std::vector<Val> keep; for (size_t i = 0; i < ci.args.size(); i++) args.push_back(V(ci.args[i])); Ctx c{S, ci, args, ci.dst}; u32 pc0 = fr->pc; biRetry = false; biNoAdvance = false; (void)pc0; int cur0 = S.cur; size_t depth = T->fr.size(); biTab[bi].fn(c); if (!ended && !biRetry && !biNoAdvance) { (void)depth; S.th[cur0].fr.back().pc++; } break; }
        if (t->F->isDeclaration()) { if (ignoreExt(t->name)) { if (ci.dst >= 0) for (unsigned i = 0; i < ci.lanes; i++) R[ci.dst + i] = vc(0); fr->pc++; break; } incomplete(S, "external function " + t->name); break; }
        if (T->fr.size() > 3000) { fail(S, "hang", "unbounded recursion"); break; }
        u32 cbase = fr->base; pushFrame(S, t, ci.dst, ci.lanes); T = &S.th[S.cur]; Val *N = T->vs.data() + T->fr.back().base; R = T->vs.data() + cbase; unsigned k = 0; size_t fixed = t->argLanes.size();
        for (size_t i = 0; i < ci.args.size() && i < fixed; i++) { const Val *v = V(ci.args[i]); for (unsigned l = 0; l < ci.argLanes[i]; l++) N[k++] = v[l]; }
        { const CallBase *cb = ci.cb; for (size_t i = 0; i < fixed && i < ci.args.size(); i++) if (cb->isByValArgument(i)) { Type *bt = cb->getParamByValType(i); u64 sz = DL->getTypeAllocSize(bt); u32 na = stackAlloc(S, *T, sz, 16); u64 src = conc(S, *V(ci.args[i])); copyMem(S, na, (u32)src, sz); unsigned pos = 0; for (size_t q = 0; q < i; q++) pos += ci.argLanes[q]; N[pos] = vc(na); } }
        if (t->varArg && ci.args.size() > fixed) { u32 area = stackAlloc(S, *T, 8 * (ci.args.size() - fixed) + 8, 16); for (size_t i = fixed; i < ci.args.size(); i++) wrMem(S, area + 8 * (i - fixed), 8, 64, *V(ci.args[i])); T->fr.back().vaArea = area; }
        break; }
      case O_TRUNC: { const Val *a = V(p.a); for (unsigned i = 0; i < p.lanes; i++) { Val v = a[i]; R[p.dst + i] = v.e ? ve(mkExtract(v.e, 0, p.w)) : (p.w <= 64 ? vc(v.c & maskW(p.w)) : v); } fr->pc++; break; }
      case O_ZEXT: { const Val *a = V(p.a); for (unsigned i = 0; i < p.lanes; i++) { Val v = a[i]; R[p.dst + i] = v.e || p.w > 64 ? ve(mkZExt(ex(v, p.sub), p.w)) : v; } fr->pc++; break; }
      case O_SEXT: { const Val *a = V(p.a); for (unsigned i = 0; i < p.lanes; i++) { Val v = a[i]; R[p.dst + i] = v.e || p.w > 64 ? ve(mkSExt(ex(v, p.sub), p.w)) : vc((u64)sextW(v.c, p.sub) & maskW(p.w)); } fr->pc++; break; }
      case O_BITCAST: { const Val *a = V(p.a); bitcastLanes(a, p.c, p.sub, R + p.dst, p.lanes, p.w); fr->pc++; break; }
      case O_COPY: { const Val *a = V(p.a); for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = a[i]; fr->pc++; break; }
      case O_EXTV: { const Val *a = V(p.a) + p.x; for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = a[i]; fr->pc++; break; }
      case O_INSV: { const Val *a = V(p.a), *b = V(p.b); for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = a[i]; for (int i = 0; i < p.c; i++) R[p.dst + p.x + i] = b[i]; fr->pc++; break; }
      case O_EXTE: { const Val *a = V(p.a); Val ix = *V(p.b); if (ix.e) { Expr *r = ex(a[0], p.w); for (unsigned i = 1; i < p.lanes; i++) r = mkIte(mkBin(K_EQ, ix.e, mkConst(i, p.sub)), ex(a[i], p.w), r); R[p.dst] = ve(r); } else R[p.dst] = ix.c < p.lanes ? a[ix.c] : vc(0); fr->pc++; break; }
      case O_INSE: { const Val *a = V(p.a); Val b = *V(p.b); u64 ix = conc(S, *V(p.c)); for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = a[i]; if (ix < p.lanes) R[p.dst + ix] = b; fr->pc++; break; }
      case O_SHUF: { const Val *a = V(p.a), *b = V(p.b); auto &m = f->shufs[p.x]; std::vector<Val> t(m.size()); for (size_t i = 0; i < m.size(); i++) t[i] = m[i] < 0 ? vc(0) : m[i] < p.c ? a[m[i]] : b[m[i] - p.c]; for (size_t i = 0; i < m.size(); i++) R[p.dst + i] = t[i]; fr->pc++; break; }
      case O_RMW: { u64 ad = conc(S, *V(p.a)); unsigned by = (p.w + 7) / 8; if (!okAccess(S, ad, by, true)) break; Val o = rdMem(S, ad, by, p.w), v = *V(p.b), n = v;
        switch (p.sub) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: n = binV(K_ADD, o, v, p.w); break; case AtomicRMWInst::Sub: n = binV(K_SUB, o, v, p.w); break; case AtomicRMWInst::And: n = binV(K_AND, o, v, p.w); break; case AtomicRMWInst::Nand: n = ve(mkNot(mkBin(K_AND, ex(o, p.w), ex(v, p.w)))); break; case AtomicRMWInst::Or: n = binV(K_OR, o, v, p.w); break; case AtomicRMWInst::Xor: n = binV(K_XOR, o, v, p.w); break;
          case AtomicRMWInst::Max: n = ve(mkIte(mkBin(K_SLT, ex(o, p.w), ex(v, p.w)), ex(v, p.w), ex(o, p.w))); break; case AtomicRMWInst::Min: n = ve(mkIte(mkBin(K_SLT, ex(o, p.w), ex(v, p.w)), ex(o, p.w), ex(v, p.w))); break; case AtomicRMWInst::UMax: n = ve(mkIte(mkBin(K_ULT, ex(o, p.w), ex(v, p.w)), ex(v, p.w), ex(o, p.w))); break; case AtomicRMWInst::UMin: n = ve(mkIte(mkBin(K_ULT, ex(o, p.w), ex(v, p.w)), ex(o, p.w), ex(v, p.w))); break; default: incomplete(S, "atomicrmw"); }
        if (ended) break; wrMem(S, ad, by, p.w, n); if (n.e != o.e || n.c != o.c) S.memGen++; R[p.dst] = o; fr->pc++; break; }
      case O_CAS: { u64 ad = conc(S, *V(p.a)); unsigned by = (p.w + 7) / 8; if (!okAccess(S, ad, by, true)) break; Val o = rdMem(S, ad, by, p.w), cm = *V(p.b), nw = *V(p.c); bool eq;
        if (!o.e && !cm.e) eq = o.c == cm.c; else eq = decide(S, mkBin(K_EQ, ex(o, p.w), ex(cm, p.w)), [](State &, bool) {});
        R = S.th[S.cur].vs.data() + fr->base; if (eq) { wrMem(S, ad, by, p.w, nw); S.memGen++; } R[p.dst] = o; R[p.dst + 1] = vc(eq); fr->pc++; break; }
      case O_ALLOCA: { u64 n = conc(S, *V(p.a)); u64 sz = V(p.b)->c * n; u32 a = stackAlloc(S, *T, sz, p.x); if (!a) { fail(S, "hang", "stack overflow"); break; } R[p.dst] = vc(a); fr->pc++; break; }
      case O_UNREACH: fail(S, "memory", "unreachable code executed"); break;
      case O_FBIN: { const Val *a = V(p.a), *b = V(p.b); bool sy = false; for (unsigned i = 0; i < p.lanes; i++) { double x, y, r; u64 ca = a[i].e ? conc(S, a[i]) : a[i].c, cb = b[i].e ? conc(S, b[i]) : b[i].c; if (p.w != 32 && p.w != 64) { sy = true; break; } x = asD(ca, p.w); y = asD(cb, p.w); switch (p.sub) { case Instruction::FAdd: r = p.w == 32 ? (float)x + (float)y : x + y; break; case Instruction::FSub: r = p.w == 32 ? (float)x - (float)y : x - y; break; case Instruction::FMul: r = p.w == 32 ? (float)x * (float)y : x * y; break; case Instruction::FDiv: r = p.w == 32 ? (float)x / (float)y : x / y; break; default: r = fmod(x, y); } R[p.dst + i] = vc(ofD(r, p.w)); } if (sy) incomplete(S, "floating point width"); else fr->pc++; break; }
      case O_FCMP: { const Val *a = V(p.a), *b = V(p.b); if (p.w != 32 && p.w != 64) { incomplete(S, "floating point width"); break; } for (unsigned i = 0; i < p.lanes; i++) { double x = asD(conc(S, a[i]), p.w), y = asD(conc(S, b[i]), p.w); bool un = std::isnan(x) || std::isnan(y), r = false; unsigned pr = p.sub; r = ((pr & 8) && un) || (!un && (((pr & 1) && x == y) || ((pr & 2) && x > y) || ((pr & 4) && x < y))); R[p.dst + i] = vc(r); } fr->pc++; break; }
      case O_FCAST: { const Val *a = V(p.a); bool bad = false; for (unsigned i = 0; i < p.lanes && !bad; i++) { u64 c = conc(S, a[i]), r = 0; if (p.sub > 64 || p.w > 64) { bad = true; break; } switch (p.x) { case Instruction::UIToFP: r = p.w == 32 ? ofD((float)c, 32) : ofD((double)c, 64); break; case Instruction::SIToFP: { i64 q = sextW(c, p.sub); r = p.w == 32 ? ofD((float)q, 32) : ofD((double)q, 64); break; } case Instruction::FPToUI: { double d = asD(c, p.sub); r = d < 0 ? (u64)(i64)d : (u64)d; r &= maskW(p.w); break; } case Instruction::FPToSI: r = (u64)(i64)asD(c, p.sub) & maskW(p.w); break; case Instruction::FPTrunc: case Instruction::FPExt: r = ofD(asD(c, p.sub), p.w); break; default: bad = true; } R[p.dst + i] = vc(r); } if (bad) incomplete(S, "floating point cast"); else fr->pc++; break; }
      case O_FNEG: { const Val *a = V(p.a); for (unsigned i = 0; i < p.lanes; i++) R[p.dst + i] = binV(K_XOR, a[i], vc(1ull << (p.w - 1)), p.w); fr->pc++; break; }
      default: incomplete(S, std::string("unsupported instruction ") + p.I->getOpcodeName());
    }
  }
#undef V
}
// ------------------------------------------------------------------ process tree
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((u8)c < 32) { r += ' '; continue; } r += c; } return r; }
static void writeStats() {
  std::string path = optOut + "/stat-" + std::to_string(getpid()) + ".json"; FILE *f = fopen(path.c_str(), "w");
  fprintf(f, "{\"paths\":%lu,\"completed\":%lu,\"steps\":%lu,\"forks\":%lu,\"errors\":%lu,\"incomplete\":%lu,\"assumeKilled\":%lu,\"asserts\":%lu,\"assertsProved\":%lu,\"branches\":%lu,\"symLoads\":%lu,\"concretized\":%lu,\"left\":%lu,\"maxDepth\":%lu,", ST.paths, ST.completed, ST.steps, ST.forks, ST.errors, ST.incomplete, ST.assumeKilled, ST.asserts, ST.assertsProved, ST.branches, ST.symLoads, ST.concr, ST.left + work.size(), ST.maxDepth);
  fprintf(f, "\"queries\":%lu,\"order\":%lu,\"compact\":%lu,\"cacheHits\":%lu,\"bruteForce\":%lu,\"z3\":%lu,\"guess\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"maxq\":%.3f,\"exprs\":%lu,", gS.queries, gS.order, gS.compact, gS.cacheHits, gS.brute, gS.z3, gS.guess, gS.sat, gS.unsat, gS.unknown, gS.z3s, gS.maxq, numExprs());
  fprintf(f, "\"why\":{"); bool c = false; for (auto &k : ST.incompleteWhy) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", jesc(k.first).c_str(), k.second); c = true; } fprintf(f, "},\"covers\":{"); c = false; for (auto &k : ST.covers) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", jesc(k.first).c_str(), k.second); c = true; }
  std::set<std::string> fn; for (auto *g : funcList) if (g->entered && !g->isRT) { std::set<const DISubprogram *> seen; auto sp = [&](const DISubprogram *s) { if (!s || !seen.insert(s).second) return; StringRef d = s->getFile() ? s->getFile()->getDirectory() : "", n = s->getFilename(); std::string p = n.starts_with("/") ? n.str() : (d + "/" + n).str(); if (p.find("/usr/") == 0 || p.find("/harness/") != std::string::npos || p.find("/lib/llvm") != std::string::npos) return; fn.insert(s->getName().str() + " (" + p.substr(p.rfind('/') + 1) + ")"); };
    sp(g->F->getSubprogram()); for (auto &I : instructions(*g->F)) if (const DILocation *L = I.getDebugLoc().get()) for (; L; L = L->getInlinedAt()) sp(L->getScope()->getSubprogram()); }
  fprintf(f, "},\"funcs\":["); c = false; for (auto &n : fn) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(n).c_str()); c = true; } fprintf(f, "]}\n"); fclose(f);
}
static void finishPath(State *S) { // path ended normally
  (void)S; ST.paths++; shm->paths++; if (shm->paths >= optMaxPaths) { if (!shm->stop) shm->timeouts++; shm->stop = 1; }
}
static void explore() {
  double lastFork = now(); u64 tick = 0; unsigned rng = getpid() * 2654435761u;
  while (!work.empty()) {
    if (shm->stop) break;
    if ((++tick & 7) == 0 || work.size() > 8) { if (now() > shm->deadline) { shm->timeouts++; shm->stop = 1; break; }
      if (work.size() >= 2 && shm->active < optJobs && now() - lastFork > 0.02) {
        int a = shm->active; if (a < optJobs && shm->active.compare_exchange_strong(a, a + 1)) {
          lastFork = now(); fflush(nullptr); pid_t p = fork();
          std::vector<State *> mine, theirs; for (size_t i = 0; i < work.size(); i++) (i & 1 ? mine : theirs).push_back(work[i]);
          if (p == 0) { alarm((unsigned)(std::max(0.0, shm->deadline - now()) + 60)); ST = Stats(); gS = SolverStats(); for (auto *f : funcList) f->entered = 0; for (auto *s : mine) delete s; work = theirs; shm->nprocs++; rng = getpid() * 2654435761u; }
          else if (p > 0) { for (auto *s : theirs) delete s; work = mine; }
          else shm->active--; } } }
    size_t pick = work.size() - 1; if ((rng = rng * 1103515245 + 12345) >> 28 == 0) pick = (rng >> 8) % work.size();
    if (optBFS) pick = 0;
    State *s = work[pick]; if (optBFS) work.erase(work.begin()); else { work[pick] = work.back(); work.pop_back(); }
    run(s); finishPath(s); delete s;
  }
  for (auto *s : work) { (void)s; }
}
static void threadFinished(State &S) { // current spawned thread ended
  std::vector<int> r; for (size_t i = 1; i < S.th.size(); i++) if (!S.th[i].done) r.push_back(i);
  S.schedCnt++;
  if (r.empty()) { S.running = false; schedSwitch(S, 0); S.th[0].fr.back().pc++; return; }
  for (size_t i = 1; i < r.size(); i++) { State *o = cloneS(S); o->sched.push_back({S.schedCnt, r[i]}); schedSwitch(*o, r[i]); work.push_back(o); }
  S.sched.push_back({S.schedCnt, r[0]}); schedSwitch(S, r[0]);
}
static void dbgFork(State &S) { Thread &T = S.th[S.cur]; if (T.fr.empty()) return; auto &f = T.fr.back(); fprintf(stderr, "FORK %s %s\n", f.f->name.substr(0, 60).c_str(), f.pc < f.f->code.size() ? locOf(f.f->code[f.pc].I).c_str() : ""); }
// ------------------------------------------------------------------ instrumentation of shared accesses
static int instrument(const char *in, const char *out) {
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(in, E, C); if (!M) { E.print("symx", errs()); return 3; } const DataLayout &D = M->getDataLayout();
  auto SP = M->getOrInsertFunction("sx_sched_point", Type::getVoidTy(C), PointerType::getUnqual(C), Type::getInt64Ty(C), Type::getInt32Ty(C));
  auto YP = M->getOrInsertFunction("sx_yield", Type::getVoidTy(C)); u64 n = 0;
  for (auto &F : *M) { if (F.isDeclaration()) { auto nm = F.getName(); for (auto q : {"pthread_mutex_", "pthread_rwlock_", "pthread_spin_"}) if (nm.starts_with(q) && !nm.ends_with("_destroy")) { F.setName("sx_p_" + nm.str()); break; } } else F.addFnAttr(Attribute::SanitizeAddress); }
  for (auto &F : *M) { if (F.isDeclaration() || F.getName().starts_with("sx_") || F.getName().contains("sxh_")) continue;
    std::vector<Instruction *> todo; for (auto &I : instructions(F)) todo.push_back(&I);
    for (auto *I : todo) { IRBuilder<> B(I); if (I->getDebugLoc()) B.SetCurrentDebugLocation(I->getDebugLoc());
      auto pt = [&](Value *ptr, Value *sz, int k) { if (!(k & 2) && isa<AllocaInst>(getUnderlyingObject(ptr, 12))) return; if (auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(ptr, 12))) if (g->isConstant()) return; B.CreateCall(SP, {ptr, sz, B.getInt32(k)}); n++; };
      if (auto *L = dyn_cast<LoadInst>(I)) pt(L->getPointerOperand(), B.getInt64(D.getTypeStoreSize(L->getType())), (L->isAtomic() || L->isVolatile()) ? 2 : 0);
      else if (auto *S = dyn_cast<StoreInst>(I)) pt(S->getPointerOperand(), B.getInt64(D.getTypeStoreSize(S->getValueOperand()->getType())), (S->isAtomic() || S->isVolatile()) ? 3 : 1);
      else if (auto *R = dyn_cast<AtomicRMWInst>(I)) pt(R->getPointerOperand(), B.getInt64(D.getTypeStoreSize(R->getType())), 3);
      else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) pt(X->getPointerOperand(), B.getInt64(D.getTypeStoreSize(X->getCompareOperand()->getType())), 3);
      else if (auto *MT = dyn_cast<MemTransferInst>(I)) { pt(MT->getRawSource(), B.CreateZExtOrTrunc(MT->getLength(), B.getInt64Ty()), 0); pt(MT->getRawDest(), B.CreateZExtOrTrunc(MT->getLength(), B.getInt64Ty()), 1); }
      else if (auto *MS = dyn_cast<MemSetInst>(I)) pt(MS->getRawDest(), B.CreateZExtOrTrunc(MS->getLength(), B.getInt64Ty()), 1);
      else if (auto *CB = dyn_cast<CallBase>(I)) { if (auto *CF = CB->getCalledFunction()) { auto nm = CF->getName(); if (nm == "llvm.x86.sse2.pause") { B.CreateCall(YP); } else if (nm == "sched_yield" || nm == "usleep" || nm == "nanosleep") B.CreateCall(YP); else if (nm == "free" || nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "_ZdlPvSt11align_val_t" || nm == "_ZdlPvmSt11align_val_t") pt(CB->getArgOperand(0), B.getInt64(1), 1); }
        else if (auto *IA = dyn_cast<InlineAsm>(CB->getCalledOperand())) { auto s = IA->getAsmString(); if (StringRef(s).contains("pause") || StringRef(s).contains("rep")) B.CreateCall(YP); } }
    } }
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); os.flush(); fprintf(stderr, "instrumented %lu accesses\n", n); return 0;
}
int prep(const std::vector<std::string> &in, const std::string &out);
static int realMain(int argc, char **argv) {
  std::vector<std::string> files; std::string entry = "main"; std::string mode;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") optOut = nx(); else if (a == "--jobs") optJobs = atoi(nx().c_str()); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--path-steps") optPathSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--uninit-zero") optUninitZero = true; else if (a == "-v") optVerbose = true; else if (a == "--entry") entry = nx(); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--spin") optSpin = strtoull(nx().c_str(), 0, 0); else if (a == "--preempt") optPreOverride = atoi(nx().c_str()); else if (a == "--rlimit") gRlimit = strtoull(nx().c_str(), 0, 0); else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 0); else if (a == "--fork-select") optForkSelect = true; else if (a == "--yield-forks") optYieldForks = atoi(nx().c_str()); else if (a == "--bfs") optBFS = true; else if (a == "--prep") { std::string o = nx(); std::vector<std::string> v; while (i + 1 < argc) v.push_back(nx()); return prep(v, o); } else if (a == "--instrument") { std::string x = nx(), y = nx(); return instrument(x.c_str(), y.c_str()); } else files.push_back(a); }
  double t0 = now(); LLVMContext C; SMDiagnostic E; std::set<std::string> rtNames;
  for (size_t i = 0; i < files.size(); i++) { auto M = parseIRFile(files[i], E, C); if (!M) { E.print("symx", errs()); return 3; } if (files[i].find("/rt") != std::string::npos) for (auto &F : *M) if (!F.isDeclaration()) rtNames.insert(F.getName().str()); if (!Mod) Mod = std::move(M); else if (Linker::linkModules(*Mod, std::move(M))) return 3; }
  DL = &Mod->getDataLayout();
  shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)shm, 0, sizeof *shm);
  gAcc = (u8 *)mmap(0, ACCSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  initBuiltins();
  State *S = new State; S->id = 1; S->model = newModel(nullptr); S->brk = H_BASE; S->th.resize(1); S->th[0].id = 0; S->th[0].sp = S->th[0].stackBase = S_BASE; S->th[0].vs.resize(4096, Val{0, nullptr});
  // globals
  u64 ga = G_BASE;
  for (auto &G : Mod->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; bool decl = G.isDeclaration(); if (decl) sz = std::max<u64>(sz, 512); if (sz == 0) sz = 1; u64 al = std::max<u64>(32, G.getAlign() ? G.getAlign()->value() : 16); ga = (ga + 32 + al - 1) & ~(al - 1); gAddr[&G] = ga; gObjs.push_back(Obj{(u32)ga, (u32)sz, OK_GLOBAL, 0, (u8)(G.isConstant() && !decl), 0, 0}); ga += sz; if (ga >= H_BASE) { fprintf(stderr, "globals too large\n"); return 3; } }
  for (auto &F : *Mod) if (!isIntr(&F)) { Func *f = getFunc(&F); f->isRT = rtNames.count(f->name); }
  std::sort(gObjs.begin(), gObjs.end(), [](const Obj &a, const Obj &b) { return a.addr < b.addr; });
  for (auto &G : Mod->globals()) if (G.hasInitializer()) { if (G.getInitializer()->isNullValue()) continue; std::vector<Val> v; constLeaves(G.getInitializer(), v); const TypeInfo *ti = tinfo(G.getValueType()); if (ti->bitvec) continue; for (size_t i = 0; i < v.size(); i++) wrMem(*S, gAddr[&G] + ti->leaves[i].off, ti->leaves[i].bytes, ti->leaves[i].w, v[i]); }
  Function *mainF = Mod->getFunction(entry); if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  pushFrame(*S, getFunc(mainF), -1, 0); { Val *R = regs(*S); for (unsigned i = 0; i < mainF->arg_size(); i++) R[i] = vc(0); }
  // global constructors run before main
  if (auto *GC = Mod->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto *A = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<u64, Function *>> cs; for (auto &op : A->operands()) { auto *st = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      // pushed frames return into the frame below, whose pc must not advance: use a stub pc of -1
      for (size_t i = cs.size(); i-- > 0;) { S->th[0].fr.back().pc = (u32)-1; pushFrame(*S, getFunc(cs[i].second), -1, 0); } }
  shm->deadline = now() + optTime; double tLoad = now() - t0; u64 rounds = 0;
  prctl(PR_SET_CHILD_SUBREAPER, 1); bool crashed = false;
  while (true) {
    rounds++; shm->newConflict = 0; shm->active = 1; shm->paths = 0;
    fflush(nullptr); pid_t p = fork();
    if (p == 0) { signal(SIGALRM, [](int) { shm->timeouts++; shm->stop = 1; _exit(0); }); alarm((unsigned)optTime + 60); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); shm->nprocs++; work.push_back(S); explore(); writeStats(); shm->active--; _exit(0); }
    int st; pid_t q; while ((q = waitpid(-1, &st, 0)) > 0) if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "worker died, status %x\n", st); crashed = true; shm->stop = 1; }
    if (shm->stop || !shm->newConflict || rounds >= (u64)optRounds) break;
    // another round with the larger set of conflicting addresses
    std::string cmd = optOut; (void)cmd; char b[64]; (void)b; { std::vector<std::string> del; }
    if (system(("rm -f -- " + optOut + "/stat-*.json " + optOut + "/sample-*.txt").c_str())) {} shm->samples = 0;
  }
  FILE *f = fopen((optOut + "/summary.json").c_str(), "w"); fprintf(f, "{\"rounds\":%lu,\"conflicts\":%lu,\"stillNew\":%d,\"viol\":%d,\"timedOut\":%d,\"crashed\":%d,\"load_s\":%.3f,\"wall_s\":%.3f,\"procs\":%lu}\n", rounds, (u64)shm->nConf, (int)shm->newConflict, (int)shm->nviol, shm->timeouts ? 1 : 0, crashed ? 1 : 0, tLoad, now() - t0, (u64)shm->nprocs); fclose(f);
  _exit(crashed ? 3 : shm->nviol ? 1 : 0);
}
int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur < (512u << 20) && !getenv("SYMX_REEXEC")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  return realMain(argc, argv);
}
