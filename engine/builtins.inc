// Library functions, LLVM intrinsics and the harness interface (included by vm.cpp).
struct BIEnt { std::string name; BI fn; };
static std::vector<BIEnt> biTab; static std::unordered_map<std::string, int> biMap; static std::vector<std::pair<std::string, int>> biPrefix;
static bool biRetry = false, biNoAdvance = false;
static void initBuiltins();
static void regB(const std::string &n, BI f) { if (n.size() && n.back() == '*') { biPrefix.push_back({n.substr(0, n.size() - 1), (int)biTab.size()}); } else biMap[n] = biTab.size(); biTab.push_back({n, f}); }
static int builtinId(const std::string &n, bool prefixes) { auto it = biMap.find(n); if (it != biMap.end()) return it->second; if (prefixes) for (auto &p : biPrefix) if (n.compare(0, p.first.size(), p.first) == 0) return p.second; return -1; }
static bool ignoreExt(const std::string &n) {
  static const std::set<std::string> ign = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "fflush", "perror", "vfprintf", "vprintf", "__cxa_atexit", "atexit", "setlocale", "pthread_setaffinity_np", "pthread_attr_init", "pthread_attr_setaffinity_np", "pthread_attr_destroy", "signal", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "madvise", "mprotect", "munmap", "mlock", "getpid", "syscall", "setvbuf", "pthread_mutex_destroy", "pthread_cond_destroy", "pthread_cond_init", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_spin_destroy", "pthread_rwlock_destroy", "__cxa_guard_abort", "__cxa_thread_atexit", "sched_yield", "usleep", "nanosleep", "pthread_mutex_lock", "pthread_spin_init", "pthread_spin_lock", "pthread_spin_unlock", "pthread_spin_trylock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_trylock", "pthread_rwlock_init", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "dprintf", "backtrace", "backtrace_symbols_fd", "sched_getcpu", "getcpu", "pthread_setname_np", "clearerr", "getenv", "secure_getenv", "pthread_once_dummy", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev"};
  if (ign.count(n)) return true;
  if (n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 5, "_ZStl") == 0 || n.compare(0, 5, "_ZNSi") == 0) return true; // iostream output
  return false;
}
static u64 cstr(State &S, u64 a, std::string &out) { out.clear(); for (int i = 0; i < 4096; i++) { if (!okAccess(S, a + i, 1, false)) return 0; Val v = rdMem(S, a + i, 1, 8); u64 c = v.e ? evalE(v.e, *S.model) : v.c; if (!c) break; out += (char)c; } return out.size(); }
static void doAlloc(Ctx &c, u64 size, u64 align, int how, bool zero) { if (size > (1u << 30)) { incomplete(c.S, "allocation over 1 GiB"); return; } u32 a = heapAlloc(c.S, size, align, OK_HEAP, how, zero); if (!a) { incomplete(c.S, "address space exhausted"); return; } c.ret(vc(a)); }
static void doFree(Ctx &c, u64 a, int how) {
  State &S = c.S; if (!a) return; accTrack(S, a, 1, true); Obj *o = findObj(S, a); if (o && o->addr == a && o->size) accTrack(S, a, std::min<u64>(o->size, 512), true);  // freeing a block conflicts with every use of it
  if (!o || o->addr != a || (o->kind != OK_HEAP)) { fail(S, "memory", "free of a pointer that was not allocated"); return; }
  if (o->freed) { fail(S, "memory", "double free"); return; } (void)how;
  o = wrObj(S, o); o->freed = 1;
}
static void pathCompleted(State &S) {
  ST.completed++; for (unsigned i = 0; i < 64; i++) if (S.covers >> i & 1) ST.covers[i < covNames.size() ? covNames[i] : std::to_string(i)]++;
  bool un = false; for (Expr *e : S.pc) for (u32 v : e->vs->v) if (varName(v).compare(0, 6, "uninit") == 0) un = true;
  if (un) ST.uninitPaths++;
  bool dump = false; if (!un) { u64 h = S.id * 0x9E3779B97F4A7C15ull ^ (u64)getpid() * 0xff51afd7ed558ccdull; h ^= h >> 33; u64 n = ST.completed; dump = n <= 1 || (h % std::max<u64>(1, n / 2)) == 0; if (dump && shm->samples++ >= optSamples * 4) dump = false; }
  if (dump) { // unconstrained inputs get arbitrary values rather than zero
    std::set<u32> used; for (Expr *e : S.pc) for (u32 v : e->vs->v) used.insert(v); ModelP m = newModel(S.model.get()); for (auto &i : S.inputs) if (i.e) for (u32 v : i.e->vs->v) if (!used.count(v)) { if (m->v.size() <= v) m->v.resize(v + 1, 0); u64 x = (v + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; m->v[v] = x & maskW(varWidth(v)); }
    bool ok = true; for (Expr *e : S.pc) ok = ok && evalE(e, *m); if (ok) S.model = m;
    static int k = 0; std::string p = optOut + "/sample-" + std::to_string(getpid()) + "-" + std::to_string(k++) + ".txt"; FILE *f = fopen(p.c_str(), "w"); if (f) { writeInputs(f, S); for (auto &o : S.obs) { bool ou = false; if (o.e) for (u32 v : o.e->vs->v) if (varName(v).compare(0, 6, "uninit") == 0) ou = true; if (ou) continue; fprintf(f, "obs %s %lx\n", o.name.c_str(), o.e ? evalE(o.e, *S.model) : o.c); } fclose(f); } }
  endPath(S);
}
static Val inputVal(Ctx &c, const std::string &n, unsigned w) { Expr *v = pooledVar(n, w, c.S.inputs.size()); c.S.inputs.push_back({n, v, w, 0}); return ve(v); }
static std::vector<int> runnable(State &S) { std::vector<int> r; for (size_t i = 1; i < S.th.size(); i++) if (!S.th[i].done && (int)i != S.cur) r.push_back(i); return r; }
static void switchTo(State &S, int t) { S.sched.push_back({S.schedCnt, t}); S.th[S.cur].spin = S.th[S.cur].sameN = 0; S.th[t].spin = S.th[t].sameN = 0; S.cur = t; S.cacheOk = false; }
static void doYield(State &S) { // the calling frame's pc is already advanced
  S.schedCnt++; if (S.memGen == S.lastYieldGen) S.yields++; else { S.yields = 0; S.lastYieldGen = S.memGen; }
  auto r = runnable(S); if (S.yields > 40 * (S.th.size()) || ++S.ytot > 800 * S.th.size()) { fail(S, "hang", "threads wait for each other for ever"); return; }
  S.th[S.cur].spin = S.th[S.cur].sameN = 0; if (r.empty()) return;
  // round robin first, other choices as forks
  std::sort(r.begin(), r.end(), [&](int a, int b) { int n = S.th.size(); return (a - S.cur + n) % n < (b - S.cur + n) % n; });
  if (S.yields < 4 && (int)S.yforks < optYieldForks && r.size() > 1) { S.yforks++; for (size_t i = 1; i < r.size(); i++) { State *o = cloneS(S); switchTo(*o, r[i]); work.push_back(o); } }
  switchTo(S, r[0]);
}
static void bSched(Ctx &c) {
  State &S = c.S; if (!S.running || S.noSched) return;
  u64 a = c.C(0), n = c.C(1), k = c.C(2); if (!n) { S.schedCnt++; return; }
  bool own = a >= S_BASE && a < (1ull << 32) && (a - S_BASE) / S_STRIDE == (u64)S.cur && !(k & 2); bool wild = a >> 32; if (n > 65536) n = 65536;
  S.schedCnt++; Thread &T = S.th[S.cur]; T.spin++; if (k == 2 && a == T.sameA) T.sameN++; else { T.sameA = k == 2 ? a : 0; T.sameN = 0; }
  if (!own && !wild) { accTrack(S, a, n, k & 1);
    if (S.preempts < S.maxPre && accConflict(S, a, n, k & 1)) for (int t : runnable(S)) { State *o = cloneS(S); o->preempts++; o->th[o->cur].fr.back().pc++; switchTo(*o, t); work.push_back(o); } }
  if (T.spin > optSpin || T.sameN >= 48) { T.fr.back().pc++; biNoAdvance = true; doYield(S); }
}
static Val vBin(EK k, Val a, Val b, unsigned w) { if (!a.e && !b.e) return ve(mkBin(k, mkConst(a.c, w), mkConst(b.c, w))); return ve(mkBin(k, ex(a, w), ex(b, w))); }
static Expr *ctzE(Expr *e, unsigned w) { Expr *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return r; }
static Expr *clzE(Expr *e, unsigned w) { Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return r; }
static Expr *popE(Expr *e, unsigned w) { Expr *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(e, i, 1), w)); return r; }
static Expr *crcStep(Expr *crc, Expr *data, unsigned bits) { // crc 32 bit, CRC-32C reflected; wider steps are byte steps, so that equal byte sequences give one expression
  Expr *x = crc; Expr *poly = mkConst(0x82F63B78u, 32);
  for (unsigned by = 0; by < bits / 8; by++) { x = mkBin(K_XOR, x, mkZExt(mkExtract(data, 8 * by, 8), 32)); for (unsigned i = 0; i < 8; i++) x = mkBin(K_XOR, mkBin(K_LSHR, x, mkConst(1, 32)), mkIte(mkExtract(x, 0, 1), poly, mkConst(0, 32))); }
  return x;
}
static u32 crcC(u32 crc, u64 d, unsigned bits) { for (unsigned b = 0; b < bits; b += 8) { crc ^= (d >> b) & 255; for (int i = 0; i < 8; i++) crc = (crc >> 1) ^ ((crc & 1) ? 0x82F63B78u : 0); } return crc; }
template <class F> static void perLane(Ctx &c, F fn) { unsigned L = c.ci.lanes, w = c.ci.w; Val *o = c.out(); for (unsigned i = 0; i < L; i++) o[i] = fn(i, w); }
static void memCmp(Ctx &c) {
  State &S = c.S; u64 n = c.C(2), a = c.C(0), b = c.C(1); if (n == 0) { c.ret(vc(0)); return; }
  if (!okAccess(S, a, n, false) || !okAccess(S, b, n, false)) return;
  unsigned w = 32; Expr *r = mkConst(0, w);
  for (u64 i = n; i-- > 0;) { Val x = rdMem(S, a + i, 1, 8), y = rdMem(S, b + i, 1, 8); if (!x.e && !y.e) { if (x.c != y.c) r = mkConst(x.c < y.c ? ~0ull : 1, w); } else { Expr *X = ex(x, 8), *Y = ex(y, 8); r = mkIte(mkBin(K_EQ, X, Y), r, mkIte(mkBin(K_ULT, X, Y), mkConst(~0ull, w), mkConst(1, w))); } }
  c.ret(ve(r));
}
static void initBuiltins() {
#define B(n) regB(n, [](Ctx &c) {
#define E });
  // ---- harness interface
  B("sx_u64") std::string n; cstr(c.S, c.C(0), n); c.ret(inputVal(c, n, 64)); E
  B("sx_u32") std::string n; cstr(c.S, c.C(0), n); c.ret(inputVal(c, n, 32)); E
  B("sx_u16") std::string n; cstr(c.S, c.C(0), n); c.ret(inputVal(c, n, 16)); E
  B("sx_u8") std::string n; cstr(c.S, c.C(0), n); c.ret(inputVal(c, n, 8)); E
  B("sx_bool") std::string n; cstr(c.S, c.C(0), n); Val v = inputVal(c, n, 1); c.ret(ve(mkZExt(ex(v, 1), c.ci.w))); E
  B("sx_range") std::string n; cstr(c.S, c.C(0), n); u64 lo = c.C(1), hi = c.C(2), d = hi - lo; unsigned w = 1; while (w < 64 && (d >> w)) w++; // the recorded input is the offset from lo
    Val v = inputVal(c, n, w); if (d != maskW(w)) { Expr *r = mkBin(K_ULE, v.e, mkConst(d, w)); ModelP m; checkSat({}, r, c.S.model, m); c.S.model = m; addC(c.S, r); }
    c.ret(ve(mkBin(K_ADD, w < 64 ? mkZExt(v.e, 64) : v.e, mkConst(lo, 64)))); E
  B("sx_bytes") std::string n; u64 p = c.C(0), k = c.C(1); cstr(c.S, c.C(2), n); if (k && !okAccess(c.S, p, k, true)) return; for (u64 i = 0; i < k; i++) { Val v = inputVal(c, n, 8); wrMem(c.S, p + i, 1, 8, v); } E
  B("sx_choice") // forks: every value 0..n-1 becomes its own path
    std::string nm; cstr(c.S, c.C(0), nm); u64 n = c.C(1); for (u64 i = 1; i < n; i++) { State *o = cloneS(c.S); o->inputs.push_back({nm, nullptr, 32, i}); Val *R = regs(*o); if (c.ci.dst >= 0) R[c.ci.dst] = vc(i); o->th[o->cur].fr.back().pc++; work.push_back(o); } c.S.inputs.push_back({nm, nullptr, 32, 0}); c.ret(vc(0)); E
  B("sx_assume") Val v = c.a(0); if (!v.e) { if (!v.c) { ST.assumeKilled++; endPath(c.S); } return; } Expr *e = mkNot(mkBin(K_EQ, v.e, mkConst(0, v.e->w))); int im = implied(c.S, e); if (im == 1) return; if (im == 0) { ST.assumeKilled++; endPath(c.S); return; }
    if (!evalE(e, *c.S.model)) { ModelP m; if (checkSat(c.S.pc, e, c.S.model, m) != SAT) { ST.assumeKilled++; endPath(c.S); return; } c.S.model = m; } addC(c.S, e); E
  B("sx_assert") std::string m; Val v = c.a(0); ST.asserts++; if (!v.e) { if (!v.c) { cstr(c.S, c.C(1), m); fail(c.S, "assert", m); } else ST.assertsProved++; return; }
    Expr *e = mkNot(mkBin(K_EQ, v.e, mkConst(0, v.e->w))); int im = implied(c.S, e); if (im == 1) { ST.assertsProved++; return; } cstr(c.S, c.C(1), m);
    if (!evalE(e, *c.S.model)) { fail(c.S, "assert", m); return; }
    ModelP mm; SatRes r = checkSat(c.S.pc, mkNot(e), c.S.model, mm); if (r == UNSAT) { ST.assertsProved++; return; } if (r == UNKNOWN) { ST.incomplete++; ST.incompleteWhy["solver gave up on an assertion"]++; return; }
    ModelP keep = c.S.model; c.S.model = mm; violation(c.S, "assert", m); c.S.model = keep; addC(c.S, e); E
  B("sx_fail") std::string m; cstr(c.S, c.C(0), m); fail(c.S, "assert", m); E
  B("sx_undef") c.ret(c.S.uninitZero || optUninitZero ? vc(0) : ve(pooledVar("uninit_l", 64, c.S.uninits++))); E
  B("sx_concretize") c.ret(vc(c.C(0))); E
  B("sx_observe") std::string m; cstr(c.S, c.C(0), m); Val v = c.a(1); c.S.obs.push_back({m, v.e, 64, v.c}); E
  B("sx_cover") std::string m; cstr(c.S, c.C(0), m); size_t i = 0; for (; i < covNames.size(); i++) if (covNames[i] == m) break; if (i == covNames.size()) covNames.push_back(m); if (i < 64) c.S.covers |= 1ull << i; E
  B("sx_end") pathCompleted(c.S); E
  B("sx_allow_throw") c.S.allowThrow = c.C(0); E
  B("sx_uninit_zero") c.S.uninitZero = c.C(0); E
  B("sx_is_symbolic") c.ret(vc(c.a(0).e ? 1 : 0)); E
  B("sx_is_native") c.ret(vc(0)); E
  B("sx_spawn") u64 fa = c.C(0), arg = c.C(1); State &S = c.S; auto it = funcByAddr.find(fa); if (it == funcByAddr.end()) { incomplete(S, "sx_spawn"); return; } int saved = S.cur; Thread T; T.id = S.th.size(); T.stackBase = T.sp = S_BASE + T.id * S_STRIDE; S.th.push_back(T); S.cur = T.id; pushFrame(S, it->second, -1, 0); regs(S)[0] = vc(arg); S.cur = saved; c.ret(vc(T.id)); E
  B("sx_run") State &S = c.S; S.maxPre = optPreOverride >= 0 ? optPreOverride : (int)c.C(0); S.running = true; S.preempts = 0; S.schedCnt = 0; S.yields = 0; biNoAdvance = true; int n = S.th.size(); int first = -1; for (int i = 1; i < n; i++) if (!S.th[i].done) { if (first < 0) first = i; else { State *o = cloneS(S); o->sched.push_back({0, i}); schedSwitch(*o, i); work.push_back(o); } } if (first < 0) { S.running = false; biNoAdvance = false; return; } S.sched.push_back({0, first}); schedSwitch(S, first); E
  B("sx_thread") c.ret(vc(c.S.cur)); E
  B("sx_nosched") c.S.noSched += (int)c.C(0); E
  B("sx_sched_point") bSched(c); E
  B("sx_yield") State &S = c.S; if (!S.running || S.noSched) return; S.th[S.cur].fr.back().pc++; biNoAdvance = true; doYield(S); E
  // ---- allocation
  B("malloc") doAlloc(c, c.C(0), 16, 0, false); E
  B("_Znwm") doAlloc(c, c.C(0), 16, 1, false); E
  B("_Znam") doAlloc(c, c.C(0), 16, 2, false); E
  B("_ZnwmRKSt9nothrow_t") doAlloc(c, c.C(0), 16, 1, false); E
  B("_ZnamRKSt9nothrow_t") doAlloc(c, c.C(0), 16, 2, false); E
  B("_ZnwmSt11align_val_t") u64 n = c.C(0); doAlloc(c, n, c.C(1), 1, false); E
  B("_ZnamSt11align_val_t") u64 n = c.C(0); doAlloc(c, n, c.C(1), 2, false); E
  B("calloc") u64 a = c.C(0), b = c.C(1); doAlloc(c, a * b, 16, 0, true); E
  B("aligned_alloc") u64 a = c.C(0), n = c.C(1); doAlloc(c, n, a, 0, false); E
  B("memalign") u64 a = c.C(0), n = c.C(1); doAlloc(c, n, a, 0, false); E
  B("posix_memalign") u64 p = c.C(0), al = c.C(1), n = c.C(2); if (!okAccess(c.S, p, 8, true)) return; u32 a = heapAlloc(c.S, n, al, OK_HEAP, 0, false); wrMem(c.S, p, 8, 64, vc(a)); c.ret(vc(0)); E
  B("realloc") u64 p = c.C(0), n = c.C(1); u32 a = heapAlloc(c.S, n, 16, OK_HEAP, 0, false); if (p) { Obj *o = findObj(c.S, p); if (!o || o->addr != p || o->freed) { fail(c.S, "memory", "realloc of an invalid pointer"); return; } u64 k = std::min<u64>(n, o->size); copyMem(c.S, a, p, k); doFree(c, p, 0); } c.ret(vc(a)); E
  B("malloc_usable_size") u64 p = c.C(0); Obj *o = findObj(c.S, p); c.ret(vc(o ? o->size : 0)); E
  B("free") doFree(c, c.C(0), 0); E
  regB("_ZdlPv", [](Ctx &c) { doFree(c, c.C(0), 1); }); regB("_ZdlPvm", [](Ctx &c) { doFree(c, c.C(0), 1); }); regB("_ZdaPv", [](Ctx &c) { doFree(c, c.C(0), 2); }); regB("_ZdaPvm", [](Ctx &c) { doFree(c, c.C(0), 2); });
  regB("_ZdlPvSt11align_val_t", [](Ctx &c) { doFree(c, c.C(0), 1); }); regB("_ZdlPvmSt11align_val_t", [](Ctx &c) { doFree(c, c.C(0), 1); }); regB("_ZdaPvSt11align_val_t", [](Ctx &c) { doFree(c, c.C(0), 2); });
  B("mmap") u64 n = c.C(1); u32 a = heapAlloc(c.S, n, n >= (1u << 21) ? 1u << 21 : 4096, OK_MMAP, 3, true); if (!a) { incomplete(c.S, "address space exhausted"); return; } c.ret(vc(a)); E
  // ---- memory
  auto mcpy = [](Ctx &c) { State &S = c.S; u64 n = c.C(2), d = c.C(0), s = c.C(1); c.ret(vc(d)); if (!n) return; if (!okAccess(S, s, n, false) || !okAccess(S, d, n, true)) return; S.memGen++; copyMem(S, d, s, n); };
  for (auto n : {"memcpy", "memmove", "llvm.memcpy.*", "llvm.memmove.*"}) regB(n, mcpy);
  auto mset = [](Ctx &c) { State &S = c.S; u64 n = c.C(2), d = c.C(0); Val v = c.a(1); c.ret(vc(d)); if (!n) return; if (!okAccess(S, d, n, true)) return; S.memGen++; if (v.e) { Expr *b = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; i++) wrMem(S, d + i, 1, 8, ve(b)); } else memFill(S, d, n, 0, (u8)v.c); };
  regB("memset", mset); regB("llvm.memset.*", mset);
  regB("memcmp", memCmp); regB("bcmp", memCmp);
  // ---- process
  B("abort") fail(c.S, "abort", "abort called"); E
  B("__assert_fail") std::string m; cstr(c.S, c.C(0), m); fail(c.S, "abort", "assertion failed: " + m); E
  B("exit") fail(c.S, "abort", "exit called"); E
  B("_exit") fail(c.S, "abort", "exit called"); E
  B("llvm.trap") fail(c.S, "abort", "trap"); E
  auto thr = [](Ctx &c) { if (c.S.allowThrow) { ST.throws++; pathCompleted(c.S); } else fail(c.S, "abort", "exception thrown: " + c.ci.name); };
  regB("_ZNSt11range_errorC1E*", [](Ctx &c) {}); regB("_ZNSt13runtime_errorC1E*", [](Ctx &c) {}); regB("_ZNSt11logic_errorC1E*", [](Ctx &c) {}); regB("_ZNSt12out_of_rangeC1E*", [](Ctx &c) {}); regB("_ZNSt16invalid_argumentC1E*", [](Ctx &c) {});  // the object is only ever thrown
  regB("__cxa_throw", thr); regB("_ZSt*", thr);  // std::__throw_*
  B("__cxa_allocate_exception") doAlloc(c, c.C(0) + 64, 16, 0, false); E
  B("__cxa_pure_virtual") fail(c.S, "abort", "pure virtual call"); E
  B("_ZSt9terminatev") fail(c.S, "abort", "terminate"); E
  B("__cxa_guard_acquire") u64 g = c.C(0); Val v = rdMem(c.S, g, 1, 8); c.ret(vc(v.e || !v.c)); E
  B("__cxa_guard_release") u64 g = c.C(0); wrMem(c.S, g, 1, 8, vc(1)); E
  B("clock_gettime") u64 p = c.C(1); c.S.clock += 1000; wrMem(c.S, p, 8, 64, vc(c.S.clock / 1000000)); wrMem(c.S, p + 8, 8, 64, vc(c.S.clock % 1000000)); c.ret(vc(0)); E
  B("gettimeofday") u64 p = c.C(0); c.S.clock += 1000; wrMem(c.S, p, 8, 64, vc(c.S.clock / 1000000)); wrMem(c.S, p + 8, 8, 64, vc(c.S.clock % 1000000)); c.ret(vc(0)); E
  B("time") c.ret(vc(c.S.clock / 1000000)); E
  regB("llvm.x86.rdtsc", [](Ctx &c) { c.S.clock += 100; c.ret(vc(c.S.clock)); }); regB("llvm.readcyclecounter", [](Ctx &c) { c.S.clock += 100; c.ret(vc(c.S.clock)); }); regB("_ZNSt6chrono3_V212steady_clock3nowEv", [](Ctx &c) { c.S.clock += 1000; c.ret(vc(c.S.clock)); }); regB("_ZNSt6chrono3_V212system_clock3nowEv", [](Ctx &c) { c.S.clock += 1000; c.ret(vc(c.S.clock)); });
  B("sysconf") u64 n = c.C(0); c.ret(vc(n == 30 ? 4096 : n == 84 || n == 83 ? 8 : n == 190 ? 64 : 4096)); E
  B("getpagesize") c.ret(vc(4096)); E
  B("pthread_self") c.ret(vc(0x1000 + c.S.cur)); E
  B("__errno_location") { // per-thread int
      Thread &T = c.S.th[c.S.cur]; for (auto &p : T.tls) if (p.first == nullptr) { c.ret(vc(p.second)); return; } u32 a = heapAlloc(c.S, 8, 16, OK_TLS, 0, true); T.tls.push_back({nullptr, a}); c.ret(vc(a)); } E
  B("pthread_key_create") u64 p = c.C(0); static const u32 K0 = 1; u32 k = K0; while (k < 64 && (c.S.specific[k] & 1)) k++; c.S.specific[k] = 1; wrMem(c.S, p, 4, 32, vc(k)); c.ret(vc(0)); E
  B("pthread_getspecific") u64 k = c.C(0); u64 id = (k << 8) | c.S.cur; Thread &T = c.S.th[c.S.cur]; for (auto &p : T.tls) if (p.first == (const GlobalVariable *)(uintptr_t)(id + 4)) { c.ret(vc(p.second)); return; } c.ret(vc(0)); E
  B("pthread_setspecific") u64 k = c.C(0), v = c.C(1); u64 id = (k << 8) | c.S.cur; Thread &T = c.S.th[c.S.cur]; c.ret(vc(0)); for (auto &p : T.tls) if (p.first == (const GlobalVariable *)(uintptr_t)(id + 4)) { p.second = v; return; } T.tls.push_back({(const GlobalVariable *)(uintptr_t)(id + 4), (u32)v}); E
  B("llvm.threadlocal.address*") State &S = c.S; u64 a = c.C(0); const GlobalVariable *G = dyn_cast<GlobalVariable>(c.ci.cb->getArgOperand(0)->stripPointerCastsAndAliases()); Thread &T = S.th[S.cur]; if (S.cur == 0 || !G) { c.ret(vc(a)); return; }
    for (auto &p : T.tls) if (p.first == G) { c.ret(vc(p.second)); return; } u64 sz = DL->getTypeAllocSize(G->getValueType()); u32 na = heapAlloc(S, sz, 64, OK_TLS, 0, true);
    if (G->hasInitializer() && !G->getInitializer()->isNullValue()) { std::vector<Val> v; constLeaves(G->getInitializer(), v); const TypeInfo *ti = tinfo(G->getValueType()); for (size_t i = 0; i < v.size(); i++) wrMem(S, na + ti->leaves[i].off, ti->leaves[i].bytes, ti->leaves[i].w, v[i]); }
    T.tls.push_back({G, na}); c.ret(vc(na)); E
  B("$asm") // inline assembly: barriers and hints only
    StringRef s(c.ci.name); if (s.trim().empty() || s.contains("pause") || s.contains("mfence") || s.contains("lfence") || s.contains("sfence") || s.contains("prefetch") || s.contains("nop")) { if (c.ci.dst >= 0) { if (c.ci.args.size() >= 1) for (unsigned i = 0; i < c.ci.lanes; i++) c.out()[i] = *c.args[0]; } return; }
    if (s.contains("rdtsc")) { c.S.clock += 100; if (c.ci.dst >= 0) { c.out()[0] = vc(c.S.clock); for (unsigned i = 1; i < c.ci.lanes; i++) c.out()[i] = vc(0); } return; }
    if (s.contains("cpuid")) { if (c.ci.dst >= 0) for (unsigned i = 0; i < c.ci.lanes; i++) c.out()[i] = vc(0); return; }
    if (s.contains("bsrq") || s.contains("bsfq") || s.contains("bswap")) { Val v = c.a(0); unsigned w = c.w(0); if (s.contains("bswap")) { Expr *e = ex(v, w), *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, b) : b; } c.ret(ve(r)); } else if (s.contains("bsf")) c.ret(ve(ctzE(ex(v, w), w))); else c.ret(ve(mkBin(K_SUB, mkConst(w - 1, w), clzE(ex(v, w), w)))); return; }
    incomplete(c.S, "inline assembly: " + c.ci.name.substr(0, 60)); E
  // ---- LLVM intrinsics
  B("llvm.ctpop.*") perLane(c, [&](unsigned i, unsigned w) { Val v = c.args[0][i]; return v.e ? ve(popE(v.e, w)) : vc(__builtin_popcountll(v.c)); }); E
  B("llvm.cttz.*") perLane(c, [&](unsigned i, unsigned w) { Val v = c.args[0][i]; return v.e ? ve(ctzE(v.e, w)) : vc(v.c ? __builtin_ctzll(v.c) : w); }); E
  B("llvm.ctlz.*") perLane(c, [&](unsigned i, unsigned w) { Val v = c.args[0][i]; return v.e ? ve(clzE(v.e, w)) : vc(v.c ? __builtin_clzll(v.c) - (64 - w) : w); }); E
  B("llvm.bswap.*") perLane(c, [&](unsigned i, unsigned w) { Val v = c.args[0][i]; if (!v.e) return vc(__builtin_bswap64(v.c) >> (64 - w)); Expr *r = nullptr; for (unsigned k = 0; k < w / 8; k++) { Expr *b = mkExtract(v.e, k * 8, 8); r = r ? mkConcat(r, b) : b; } return ve(r); }); E
  B("llvm.bitreverse.*") perLane(c, [&](unsigned i, unsigned w) { Expr *e = ex(c.args[0][i], w), *r = nullptr; for (unsigned k = 0; k < w; k++) { Expr *b = mkExtract(e, k, 1); r = r ? mkConcat(r, b) : b; } return ve(r); }); E
  B("llvm.fshl.*") perLane(c, [&](unsigned i, unsigned w) { Val s = c.args[2][i]; Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w); if (!s.e) { unsigned k = s.c % w; if (!k) return ve(a); return ve(mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k))); } Expr *m = mkBin(K_UREM, s.e, mkConst(w, w)); return ve(mkIte(mkBin(K_EQ, m, mkConst(0, w)), a, mkBin(K_OR, mkBin(K_SHL, a, m), mkBin(K_LSHR, b, mkBin(K_SUB, mkConst(w, w), m))))); }); E
  B("llvm.fshr.*") perLane(c, [&](unsigned i, unsigned w) { Val s = c.args[2][i]; Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w); if (!s.e) { unsigned k = s.c % w; if (!k) return ve(b); return ve(mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k))); } Expr *m = mkBin(K_UREM, s.e, mkConst(w, w)); return ve(mkIte(mkBin(K_EQ, m, mkConst(0, w)), b, mkBin(K_OR, mkBin(K_LSHR, b, m), mkBin(K_SHL, a, mkBin(K_SUB, mkConst(w, w), m))))); }); E
  B("llvm.abs.*") perLane(c, [&](unsigned i, unsigned w) { Expr *e = ex(c.args[0][i], w); return ve(mkIte(mkExtract(e, w - 1, 1), mkBin(K_SUB, mkConst(0, w), e), e)); }); E
#define MM(n, k) B("llvm." n ".*") perLane(c, [&](unsigned i, unsigned w) { Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w); return ve(mkIte(mkBin(k, a, b), a, b)); }); E
#define MX(n, k) B("llvm." n ".*") perLane(c, [&](unsigned i, unsigned w) { Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w); return ve(mkIte(mkBin(k, b, a), a, b)); }); E
  MM("umin", K_ULT) MM("smin", K_SLT) MX("umax", K_ULT) MX("smax", K_SLT)
#define OV(n, stmt) B("llvm." n ".with.overflow.*") unsigned L = c.ci.lanes / 2, w = c.ci.rt->leaves[0].w; Val *o = c.out(); std::vector<Val> t; for (unsigned i = 0; i < L; i++) { Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w); Expr *r, *f; stmt; t.push_back(ve(r)); o[L + i] = ve(f); } for (unsigned i = 0; i < L; i++) o[i] = t[i]; E
  OV("uadd", r = mkBin(K_ADD, a, b); f = mkBin(K_ULT, r, a)) OV("usub", r = mkBin(K_SUB, a, b); f = mkBin(K_ULT, a, b))
  OV("sadd", Expr *x = mkBin(K_ADD, mkSExt(a, w + 1), mkSExt(b, w + 1)); r = mkExtract(x, 0, w); f = mkNot(mkBin(K_EQ, mkExtract(x, w, 1), mkExtract(x, w - 1, 1)))) OV("ssub", Expr *x = mkBin(K_SUB, mkSExt(a, w + 1), mkSExt(b, w + 1)); r = mkExtract(x, 0, w); f = mkNot(mkBin(K_EQ, mkExtract(x, w, 1), mkExtract(x, w - 1, 1))))
  OV("umul", Expr *x = mkBin(K_MUL, mkZExt(a, 2 * w), mkZExt(b, 2 * w)); r = mkExtract(x, 0, w); f = mkNot(mkBin(K_EQ, mkExtract(x, w, w), mkConst(0, w)))) OV("smul", Expr *x = mkBin(K_MUL, mkSExt(a, 2 * w), mkSExt(b, 2 * w)); r = mkExtract(x, 0, w); f = mkNot(mkBin(K_EQ, x, mkSExt(r, 2 * w))))
  B("llvm.usub.sat.*") perLane(c, [&](unsigned i, unsigned w) { Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w); return ve(mkIte(mkBin(K_ULT, a, b), mkConst(0, w), mkBin(K_SUB, a, b))); }); E
  B("llvm.uadd.sat.*") perLane(c, [&](unsigned i, unsigned w) { Expr *a = ex(c.args[0][i], w), *b = ex(c.args[1][i], w), *r = mkBin(K_ADD, a, b); return ve(mkIte(mkBin(K_ULT, r, a), mkConst(~0ull, w), r)); }); E
  B("llvm.expect.*") perLane(c, [&](unsigned i, unsigned) { return c.args[0][i]; }); E
  for (auto n : {"llvm.launder.invariant.group*", "llvm.strip.invariant.group*", "llvm.ptr.annotation*", "llvm.ssa.copy*", "llvm.ptrmask*"}) regB(n, [](Ctx &c) { c.ret(c.a(0)); });
  B("llvm.is.constant.*") c.ret(vc(0)); E
  B("llvm.objectsize.*") c.ret(vc(~0ull)); E
  B("llvm.stacksave*") c.ret(vc(0)); E
  B("llvm.returnaddress*") c.ret(vc(0)); E
  B("llvm.frameaddress*") c.ret(vc(0)); E
  B("llvm.eh.typeid.for*") c.ret(vc(0)); E
  B("llvm.va_start*") u64 p = c.C(0); State &S = c.S; u32 area = S.th[S.cur].fr.back().vaArea; wrMem(S, p, 4, 32, vc(48)); wrMem(S, p + 4, 4, 32, vc(176)); wrMem(S, p + 8, 8, 64, vc(area)); wrMem(S, p + 16, 8, 64, vc(0)); E
  B("llvm.va_copy*") u64 d = c.C(0), s = c.C(1); copyMem(c.S, d, s, 24); E
#define RED(n, k) B("llvm.vector.reduce." n ".*") unsigned w = c.w(0), L = c.ci.argLanes[0]; Val r = c.args[0][0]; for (unsigned i = 1; i < L; i++) r = vBin(k, r, c.args[0][i], w); c.ret(r); E
  RED("add", K_ADD) RED("or", K_OR) RED("and", K_AND) RED("xor", K_XOR) RED("mul", K_MUL)
#define REDM(n, k) B("llvm.vector.reduce." n ".*") unsigned w = c.w(0), L = c.ci.argLanes[0]; Expr *r = ex(c.args[0][0], w); for (unsigned i = 1; i < L; i++) { Expr *x = ex(c.args[0][i], w); r = mkIte(mkBin(k, x, r), x, r); } c.ret(ve(r)); E
#define REDX(n, k) B("llvm.vector.reduce." n ".*") unsigned w = c.w(0), L = c.ci.argLanes[0]; Expr *r = ex(c.args[0][0], w); for (unsigned i = 1; i < L; i++) { Expr *x = ex(c.args[0][i], w); r = mkIte(mkBin(k, r, x), x, r); } c.ret(ve(r)); E
  REDM("umin", K_ULT) REDM("smin", K_SLT) REDX("umax", K_ULT) REDX("smax", K_SLT)
  B("llvm.masked.load.*") State &S = c.S; u64 p = c.C(0); unsigned w = c.ci.w; std::vector<Val> m(c.args[2], c.args[2] + c.ci.lanes), pt(c.args[3], c.args[3] + c.ci.lanes); for (unsigned i = 0; i < c.ci.lanes; i++) { u64 b = conc(S, m[i]); if (b && !okAccess(S, p + i * (w / 8), w / 8, false)) return; c.out()[i] = b ? rdMem(S, p + i * (w / 8), w / 8, w) : pt[i]; } E
  B("llvm.masked.store.*") State &S = c.S; u64 p = c.C(1); unsigned L = c.ci.argLanes[0], w = c.w(0); std::vector<Val> v(c.args[0], c.args[0] + L), m(c.args[3], c.args[3] + L); for (unsigned i = 0; i < L; i++) { u64 b = conc(S, m[i]); if (b) { if (!okAccess(S, p + i * (w / 8), w / 8, true)) return; wrMem(S, p + i * (w / 8), w / 8, w, v[i]); } } S.memGen++; E
  B("llvm.masked.gather.*") State &S = c.S; unsigned L = c.ci.lanes, w = c.ci.w; std::vector<Val> ps(c.args[0], c.args[0] + L), m(c.args[2], c.args[2] + L), pt(c.args[3], c.args[3] + L); std::vector<Val> r; for (unsigned i = 0; i < L; i++) { u64 b = conc(S, m[i]); if (b) { u64 p = conc(S, ps[i]); if (!okAccess(S, p, w / 8, false)) return; r.push_back(rdMem(S, p, w / 8, w)); } else r.push_back(pt[i]); } for (unsigned i = 0; i < L; i++) c.out()[i] = r[i]; E
#define FP1(n, fn) B("llvm." n ".*") perLane(c, [&](unsigned i, unsigned w) { u64 x = conc(c.S, c.args[0][i]); if (w == 32) { float f; u32 t = x; memcpy(&f, &t, 4); f = (float)fn((double)f); memcpy(&t, &f, 4); return vc(t); } double d; memcpy(&d, &x, 8); d = fn(d); memcpy(&x, &d, 8); return vc(x); }); E
  FP1("floor", floor) FP1("ceil", ceil) FP1("sqrt", sqrt) FP1("fabs", fabs) FP1("trunc", trunc) FP1("round", round) FP1("rint", rint) FP1("nearbyint", nearbyint) FP1("log2", log2) FP1("log", log) FP1("exp", exp)
#define FP1C(n, fn) B(n) u64 x = c.C(0); double d; memcpy(&d, &x, 8); d = fn(d); memcpy(&x, &d, 8); c.ret(vc(x)); E
  FP1C("log", log) FP1C("log2", log2) FP1C("exp", exp) FP1C("sqrt", sqrt) FP1C("floor", floor) FP1C("ceil", ceil) FP1C("log10", log10)
  B("llvm.fmuladd.*") perLane(c, [&](unsigned i, unsigned w) { auto D = [&](int k) { u64 x = conc(c.S, c.args[k][i]); if (w == 32) { float f; u32 t = x; memcpy(&f, &t, 4); return (double)f; } double d; memcpy(&d, &x, 8); return d; }; double r = D(0) * D(1) + D(2); u64 o = 0; if (w == 32) { float f = r; memcpy(&o, &f, 4); } else memcpy(&o, &r, 8); return vc(o); }); E
  // ---- x86
  B("llvm.x86.sse2.pause") E
  for (auto n : {"llvm.x86.sse2.pmovmskb.128", "llvm.x86.avx2.pmovmskb", "llvm.x86.sse.movmsk.ps", "llvm.x86.sse2.movmsk.pd", "llvm.x86.avx.movmsk.ps.256", "llvm.x86.avx.movmsk.pd.256"}) regB(n, [](Ctx &c) { unsigned w = c.w(0), L = c.ci.argLanes[0]; u64 cv = 0; bool sy = false; for (unsigned i = 0; i < L; i++) { if (c.args[0][i].e) sy = true; else cv |= ((c.args[0][i].c >> (w - 1)) & 1) << i; } if (!sy) { c.ret(vc(cv)); return; } Expr *r = nullptr; for (unsigned i = 0; i < L; i++) { Expr *b = mkExtract(ex(c.args[0][i], w), w - 1, 1); r = r ? mkConcat(b, r) : b; } c.ret(ve(L < 32 ? mkZExt(r, 32) : r)); });
#define CRC(n, bits) B(n) unsigned w = c.ci.w; Val a = c.a(0), b = c.a(1); if (!a.e && !b.e) { c.ret(vc(crcC((u32)a.c, b.c, bits))); return; } Expr *r = crcStep(mkExtract(ex(a, w), 0, 32), mkExtract(ex(b, c.w(1)), 0, bits), bits); c.ret(ve(mkZExt(r, w))); E
  CRC("llvm.x86.sse42.crc32.64.64", 64) CRC("llvm.x86.sse42.crc32.32.32", 32) CRC("llvm.x86.sse42.crc32.32.16", 16) CRC("llvm.x86.sse42.crc32.32.8", 8)
  B("llvm.x86.bmi.pext.*") unsigned w = c.ci.w; Val s = c.a(0); u64 m = c.C(1); if (!s.e) { u64 r = 0, k = 0; for (unsigned i = 0; i < w; i++) if ((m >> i) & 1) r |= ((s.c >> i) & 1) << k++; c.ret(vc(r)); return; } Expr *r = nullptr; for (unsigned i = 0; i < w; i++) if ((m >> i) & 1) { Expr *b = mkExtract(s.e, i, 1); r = r ? mkConcat(b, r) : b; } c.ret(r ? ve(mkZExt(r, w)) : vc(0)); E
  B("llvm.x86.bmi.pdep.*") unsigned w = c.ci.w; Val s = c.a(0); u64 m = c.C(1); if (!s.e) { u64 r = 0, k = 0; for (unsigned i = 0; i < w; i++) if ((m >> i) & 1) r |= ((s.c >> k++) & 1) << i; c.ret(vc(r)); return; } Expr *r = nullptr; unsigned k = 0; for (unsigned i = 0; i < w; i++) { Expr *b = ((m >> i) & 1) ? mkExtract(s.e, k++, 1) : mkConst(0, 1); r = r ? mkConcat(b, r) : b; } c.ret(ve(r)); E
  B("llvm.x86.bmi.bextr.*") unsigned w = c.ci.w; Val s = c.a(0); u64 k = c.C(1); unsigned st = k & 255, ln = (k >> 8) & 255; if (st >= w || !ln) { c.ret(vc(0)); return; } if (st + ln > w) ln = w - st; c.ret(ve(mkZExt(mkExtract(ex(s, w), st, ln), w))); E
  B("llvm.x86.bmi.bzhi.*") unsigned w = c.ci.w; u64 k = c.C(1) & 255; Val s = c.a(0); if (k >= w) { c.ret(s); return; } if (!k) { c.ret(vc(0)); return; } c.ret(ve(mkZExt(mkExtract(ex(s, w), 0, k), w))); E
  for (auto n : {"llvm.x86.ssse3.pshuf.b.128", "llvm.x86.avx2.pshuf.b"}) regB(n, [](Ctx &c) { unsigned L = c.ci.lanes; std::vector<Val> a(c.args[0], c.args[0] + L), m(c.args[1], c.args[1] + L); for (unsigned i = 0; i < L; i++) { unsigned base = i & ~15u; Val s = m[i]; if (!s.e) { c.out()[i] = (s.c & 0x80) ? vc(0) : a[base + (s.c & 15)]; continue; } Expr *r = ex(a[base], 8); Expr *lo = mkExtract(s.e, 0, 4); for (unsigned k = 1; k < 16; k++) r = mkIte(mkBin(K_EQ, lo, mkConst(k, 4)), ex(a[base + k], 8), r); c.out()[i] = ve(mkIte(mkExtract(s.e, 7, 1), mkConst(0, 8), r)); } });
  auto pack = [](Ctx &c) { bool uns = c.ci.name.find("packus") != std::string::npos; unsigned L = c.ci.lanes, w = c.ci.w, sw = 2 * w, n = 128 / sw, blocks = L * w / 128; std::vector<Val> r; for (unsigned b = 0; b < blocks; b++) for (int q = 0; q < 2; q++) for (unsigned i = 0; i < n; i++) { Expr *e = ex(c.args[q][b * n + i], sw); i64 hi = uns ? (i64)maskW(w) : (1ll << (w - 1)) - 1, lo = uns ? 0 : -(1ll << (w - 1)); Expr *t = mkExtract(e, 0, w); t = mkIte(mkBin(K_SLT, mkConst(hi, sw), e), mkConst(hi, w), mkIte(mkBin(K_SLT, e, mkConst(lo, sw)), mkConst(lo, w), t)); r.push_back(ve(t)); } for (unsigned i = 0; i < L; i++) c.out()[i] = r[i]; };
  for (auto n : {"llvm.x86.sse2.packsswb.128", "llvm.x86.sse2.packuswb.128", "llvm.x86.sse2.packssdw.128", "llvm.x86.sse41.packusdw", "llvm.x86.avx2.packsswb", "llvm.x86.avx2.packuswb", "llvm.x86.avx2.packssdw", "llvm.x86.avx2.packusdw"}) regB(n, pack);
  for (auto n : {"llvm.x86.sse41.ptestz", "llvm.x86.avx.ptestz.256"}) regB(n, [](Ctx &c) { unsigned L = c.ci.argLanes[0], w = c.w(0); Expr *r = mkConst(1, 1); for (unsigned i = 0; i < L; i++) r = mkBin(K_AND, r, mkBin(K_EQ, mkBin(K_AND, ex(c.args[0][i], w), ex(c.args[1][i], w)), mkConst(0, w))); c.ret(ve(mkZExt(r, 32))); });
  for (auto n : {"llvm.x86.sse41.pblendvb", "llvm.x86.avx2.pblendvb"}) regB(n, [](Ctx &c) { unsigned L = c.ci.lanes, w = c.ci.w; std::vector<Val> r; for (unsigned i = 0; i < L; i++) r.push_back(ve(mkIte(mkExtract(ex(c.args[2][i], w), w - 1, 1), ex(c.args[1][i], w), ex(c.args[0][i], w)))); for (unsigned i = 0; i < L; i++) c.out()[i] = r[i]; });
  B("llvm.x86.avx2.permd") std::vector<Val> a(c.args[0], c.args[0] + 8), m(c.args[1], c.args[1] + 8); for (int i = 0; i < 8; i++) c.out()[i] = a[conc(c.S, m[i]) & 7]; E
#define SHV(n, k) for (auto nm : {"llvm.x86.avx2." n ".d", "llvm.x86.avx2." n ".d.256", "llvm.x86.avx2." n ".q", "llvm.x86.avx2." n ".q.256"}) regB(nm, [](Ctx &c) { perLane(c, [&](unsigned i, unsigned w) { return vBin(k, c.args[0][i], c.args[1][i], w); }); });
  SHV("psllv", K_SHL) SHV("psrlv", K_LSHR) SHV("psrav", K_ASHR)
#define SHI(n, k) for (auto nm : {"llvm.x86.sse2." n ".w", "llvm.x86.sse2." n ".d", "llvm.x86.sse2." n ".q", "llvm.x86.avx2." n ".w", "llvm.x86.avx2." n ".d", "llvm.x86.avx2." n ".q"}) regB(nm, [](Ctx &c) { uint64_t s = c.C(1); perLane(c, [&](unsigned i, unsigned w) { return s >= w ? vc(0) : vBin(k, c.args[0][i], vc(s), w); }); });
  SHI("pslli", K_SHL) SHI("psrli", K_LSHR)
#undef B
#undef E
}
