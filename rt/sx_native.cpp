// Native implementation of the harness interface: replays one recorded path on the real build.
#include "sx.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
struct In { std::string n; unsigned w; uint64_t v; };
static std::vector<In> *ins; static size_t pos; static std::vector<std::pair<uint64_t, int>> *sch; static size_t spos; static bool loaded;
static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static void load() {
  if (loaded) return; loaded = true; ins = new std::vector<In>; sch = new std::vector<std::pair<uint64_t, int>>; const char *p = getenv("SX_INPUT"); if (!p) return; FILE *f = fopen(p, "r"); if (!f) { fprintf(stderr, "SX: cannot open input\n"); quit(90); }
  char line[1024]; while (fgets(line, sizeof line, f)) { char n[512]; unsigned w; unsigned long v; int t; if (sscanf(line, "in %511s %u %lx", n, &w, &v) == 3) ins->push_back({n, w, v}); else if (sscanf(line, "sched %lu %d", &v, &t) == 2) sch->push_back({v, t}); else if (!strncmp(line, "trace", 5)) break; }
  fclose(f);
}
static uint64_t nxt(const char *n) { load(); if (pos >= ins->size()) { fprintf(stderr, "SX-DIVERGED: input exhausted at %s\n", n); quit(91); } In &i = (*ins)[pos++]; if (i.n != n) { fprintf(stderr, "SX-DIVERGED: wanted %s have %s\n", n, i.n.c_str()); quit(91); } return i.v; }
struct Th { std::thread t; bool done = false; uint64_t spin = 0, sameA = 0, sameN = 0; void clr() { spin = sameN = 0; } };
static std::vector<Th *> *ths; static std::mutex *mu; static std::condition_variable *cv; static int cur = 0; static bool running = false; static int noSched = 0; static uint64_t cnt = 0, spinMax = 4000; static thread_local int me = 0;
static std::vector<Th *> &TH() { if (!ths) { ths = new std::vector<Th *>; ths->push_back(new Th); mu = new std::mutex; cv = new std::condition_variable; if (getenv("SX_SPIN")) spinMax = strtoull(getenv("SX_SPIN"), 0, 10); } return *ths; }
static void pass(int t) { std::unique_lock<std::mutex> l(*mu); (*ths)[me]->clr(); (*ths)[t]->clr(); cur = t; cv->notify_all(); cv->wait(l, [] { return cur == me; }); }
static void maybeSwitch() { if (spos < sch->size() && (*sch)[spos].first == cnt) { int t = (*sch)[spos++].second; if (t != cur) { if ((size_t)t >= ths->size() || (*ths)[t]->done) { fprintf(stderr, "SX-DIVERGED: schedule names a finished thread\n"); quit(91); } pass(t); } } }
extern "C" {
uint64_t sx_u64(const char *n) { return nxt(n); } uint32_t sx_u32(const char *n) { return nxt(n); } uint16_t sx_u16(const char *n) { return nxt(n); } uint8_t sx_u8(const char *n) { return nxt(n); } bool sx_bool(const char *n) { return nxt(n) & 1; }
uint64_t sx_range(const char *n, uint64_t lo, uint64_t) { return lo + nxt(n); }
void sx_bytes(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = nxt(nm); }
uint32_t sx_choice(const char *n, uint32_t) { return nxt(n); }
void sx_assume(bool c) { if (!c) { fprintf(stderr, "SX-ASSUME failed\n"); quit(92); } }
void sx_assert(bool c, const char *m) { if (!c) { fprintf(stderr, "SX-ASSERT: %s\n", m); quit(42); } }
void sx_fail(const char *m) { fprintf(stderr, "SX-ASSERT: %s\n", m); quit(42); }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_observe(const char *n, uint64_t v) { printf("obs %s %lx\n", n, (unsigned long)v); fflush(stdout); }
void sx_cover(const char *) {} void sx_end(void) { quit(0); } void sx_allow_throw(int) {} void sx_uninit_zero(int) {} bool sx_is_symbolic(uint64_t) { return false; } bool sx_is_native(void) { return true; }
uint64_t sx_undef(uint32_t) { return 0xa5a5a5a5a5a5a5a5ull; }
int sx_spawn(void (*f)(void *), void *arg) { load(); auto &T = TH(); int id = T.size(); Th *t = new Th; T.push_back(t);
  t->t = std::thread([=] { me = id; { std::unique_lock<std::mutex> l(*mu); cv->wait(l, [&] { return cur == me; }); } f(arg); t->done = true; cnt++; int next = 0;
    if (spos < sch->size() && (*sch)[spos].first == cnt) next = (*sch)[spos++].second; else for (size_t i = 1; i < ths->size(); i++) if (!(*ths)[i]->done) { next = i; break; }
    std::unique_lock<std::mutex> l(*mu); (*ths)[next]->clr(); if (next == 0) running = false; cur = next; cv->notify_all(); });
  return id; }
void sx_run(int) { load(); auto &T = TH(); int first = -1; for (size_t i = 1; i < T.size(); i++) if (!T[i]->done) { first = i; break; } if (first < 0) return; cnt = 0; if (spos < sch->size() && (*sch)[spos].first == 0) first = (*sch)[spos++].second; running = true;
  std::unique_lock<std::mutex> l(*mu); cur = first; cv->notify_all(); cv->wait(l, [] { return cur == 0; }); l.unlock(); running = false; for (size_t i = 1; i < T.size(); i++) if (T[i]->t.joinable()) T[i]->t.join(); }
int sx_thread(void) { return me; } void sx_nosched(int d) { noSched += d; }
void sx_yield(void) { if (!running || noSched) return; cnt++; (*ths)[me]->clr(); maybeSwitch(); }
void sx_sched_point(void *p, uint64_t n, uint32_t k) { if (!running || noSched) return; if (!n) { cnt++; return; } cnt++; Th &T = *(*ths)[me]; T.spin++; uint64_t a = (uint64_t)p; if (k == 2 && a == T.sameA) T.sameN++; else { T.sameA = k == 2 ? a : 0; T.sameN = 0; } maybeSwitch(); if (T.spin > spinMax || T.sameN >= 48) sx_yield(); }
}
