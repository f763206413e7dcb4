// The OptiQL latches under every interleaving with at most PRE preemptions.
// LK 0 OMCS (queue, central and upgrade entry points; optimistic readers) 1 MCS 2 MCSRW (queue or central) 3 STDRW.
// Each thread runs its list Ti of steps: 0 write(queue node) 1 read / optimistic read 2 optimistic read then upgrade 3 write without queue node 4 write with read callback 5 try_lock (MCS) 6 blocking optimistic read 7 read then upgrade without queue node 8 split lock_begin/lock_turn_off_opread.
#include "sx.h"
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <immintrin.h>
typedef uint64_t u64;
#define NOIN __attribute__((noinline))
#define CHECK(c, m) sx_assert(c, m)
struct Sink { template <class T> Sink &operator<<(const T &) { return *this; } };
#define LOG(x) (sx_fail("LOG(" #x ")"), Sink())
#if LK == 0
#include "OptiQL/latches/OMCSImpl.h"
typedef omcs_impl::OMCSLock L; typedef omcs_impl::OMCSQNode Q;
#ifdef OMCS_OFFSET
namespace omcs_impl { OMCSQNode *base_qnode; }
using omcs_impl::base_qnode;
#endif
#elif LK == 1
#include "OptiQL/latches/MCS.h"
typedef mcs::MCSLock L; typedef mcs::MCSQNode Q;
#elif LK == 2
#include "OptiQL/latches/MCSRW.h"
typedef mcsrw::MCSRWLock L; typedef mcsrw::MCSRWQNode Q;
#ifdef OMCS_OFFSET
namespace mcsrw { MCSRWQNode *base_qnode; }
using mcsrw::base_qnode;
#endif
#else
#include "OptiQL/latches/STDRW.h"
typedef std_lock::STDRWLock L; typedef u64 Q;
#endif
static L lk; static Q qs[4]; static u64 A, B, X[3]; static int inW, inR, nW, nR, nFail, nValid;
extern "C" {
NOIN void sxh_enterW() { CHECK(inW == 0, "one writer at a time"); CHECK(inR == 0, "no writer beside a reader"); inW++; nW++; }
NOIN void sxh_leaveW() { inW--; }
NOIN void sxh_enterR() { CHECK(inW == 0, "no reader beside a writer"); inR++; nR++; }
NOIN void sxh_leaveR() { inR--; }
NOIN void sxh_fail() { nFail++; }
NOIN void sxh_valid(u64 a, u64 b) { CHECK(a == b, "a validated reader saw no half of a write"); nValid++; }
}
static void work(int t) { sxh_enterW(); u64 a = A, b = B; CHECK(a == b, "the writer finds what the last one left"); A = a + X[t]; B = b + X[t]; sxh_leaveW(); }
static void step(int t, int what) { Q *q = &qs[t];
#if LK == 0
  switch (what) {
    case 0: lk.lock(q); work(t); lk.unlock(q); break;
    case 1: { bool r = false; u64 v = lk.try_begin_read(r); if (r) { sxh_fail(); break; } u64 a = A, b = B; if (lk.validate_read(v)) sxh_valid(a, b); break; }
    case 2: { bool r = false; u64 v = lk.try_begin_read(r); if (r) { sxh_fail(); break; } u64 a = A; if (!lk.try_lock(q, v)) { sxh_fail(); break; } CHECK(a == A, "an upgraded reader saw the current state"); work(t); lk.unlock(q); break; }
    case 3: { u64 v = lk.lock(); work(t); lk.unlock(v); break; }
    case 4: { u64 seen = 0; lk.lock(q, [&] { seen = A; }); CHECK(seen == A, "the callback saw the current state"); work(t); lk.unlock(q); break; }
    case 6: { u64 v = lk.begin_read(); u64 a = A, b = B; if (lk.validate_read(v)) sxh_valid(a, b); break; }
    case 7: { bool r = false; u64 v = lk.try_begin_read(r); if (r) { sxh_fail(); break; } u64 a = A; if (!lk.try_lock(v)) { sxh_fail(); break; } CHECK(a == A, "an upgraded reader saw the current state"); work(t); lk.unlock(); break; }
    case 8: { if (lk.lock_begin(q)) { u64 seen = A; lk.lock_turn_off_opread(); CHECK(seen == A, "the split lock reads the current state"); } work(t); lk.unlock(q); break; }
  }
#elif LK == 1
  switch (what) { case 0: lk.lock(q); work(t); lk.unlock(q); break; case 5: if (!lk.try_lock(q)) { sxh_fail(); break; } work(t); lk.unlock(q); break; }
#else
  switch (what) {
    case 0: lk.lock(q); work(t); lk.unlock(q); break;
    case 1: { lk.read_lock(q); sxh_enterR(); u64 a = A, b = B; CHECK(a == b, "a reader sees no half of a write"); sxh_leaveR(); lk.read_unlock(q); break; }
#if LK == 2 && (defined(RWLOCK_WRITER_PREFERENCE) || defined(RWLOCK_READER_PREFERENCE))
    case 3: lk.lock(); work(t); lk.unlock(); break;
#endif
  }
#endif
}
static const int TA[] = T0, TB[] = T1;
static void ta(void *) { for (int s : TA) step(0, s); } static void tb(void *) { for (int s : TB) step(1, s); }
#ifdef T2
static const int TC[] = T2; static void tc(void *) { for (int s : TC) step(2, s); }
#endif
int main() {
  u64 v0 = 0;
#if LK == 0
  v0 = sx_u64("v0"); sx_assume(v0 < (1ull << 40)); lk.tail_.store(v0);
#endif
#ifdef OMCS_OFFSET
  base_qnode = qs;
#endif
  A = B = sx_u64("a0"); for (auto &x : X) x = sx_u64("x"); u64 a0 = A;
  sx_spawn(ta, 0); sx_spawn(tb, 0);
#ifdef T2
  sx_spawn(tc, 0);
#endif
  sx_run(PRE);
  CHECK(A == B, "nothing half written"); CHECK(!inW && !inR, "nobody inside"); int n = sizeof TA / sizeof *TA + sizeof TB / sizeof *TB;
#ifdef T2
  n += sizeof TC / sizeof *TC;
#endif
  CHECK(nW <= n, "no step twice"); sx_observe("writes", nW); sx_observe("reads", nR); sx_observe("refused", nFail); sx_observe("valid", nValid); sx_observe("A", A - a0);
#if LK == 0
  CHECK(!lk.is_locked(), "the latch is free again"); CHECK(lk.tail_.load() == v0 + nW, "every write made a new version"); bool r = false; CHECK(lk.try_begin_read(r) == v0 + nW && !r, "a reader may start");
#elif LK == 1
  CHECK(lk.tail_.load() == 0, "the latch is free again"); CHECK(lk.try_lock(&qs[3]), "the latch can be taken again");
#elif LK == 2
  CHECK(lk.u32_.load() == 0, "no reader is counted");
#ifdef QUEUE
#ifdef OMCS_OFFSET
  CHECK(lk.u16a_.load() == 0 && lk.u16b_.load() == 0, "the latch is free again");
#else
  CHECK(lk.u64a_.load() == 0 && lk.u64b_.load() == 0, "the latch is free again");
#endif
#endif
#endif
  sx_end();
}
