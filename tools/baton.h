// Two threads run one at a time; thread A is stopped at its n-th hook and thread B runs in between.
#pragma once
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <atomic>
#include <cstdio>
#include <cstdlib>
namespace baton {
inline std::mutex m; inline std::condition_variable cv; inline int turn = -1; inline bool fin[2]; inline long cnt[2], stopA, lim; inline thread_local int me = -1;
inline void give(std::unique_lock<std::mutex> &l) { int o = 1 - me; if (fin[o]) return; turn = o; cv.notify_all(); cv.wait(l, [] { return turn == me; }); }
inline void hook() { if (me < 0) return; std::unique_lock<std::mutex> l(m); cnt[me]++; lim++; if (cnt[me] > 300000) { puts("a thread spins for ever"); fflush(stdout); exit(1); } if (me == 0 && cnt[0] == stopA) { lim = 0; give(l); } else if (lim > 3000) { lim = 0; give(l); } }
// returns the number of hooks thread A passed
inline long run2(std::function<void()> a, std::function<void()> b, long n) {
  fin[0] = fin[1] = false; cnt[0] = cnt[1] = 0; stopA = n; lim = 0; turn = 0;
  auto body = [](int i, std::function<void()> f) { { std::unique_lock<std::mutex> l(m); me = i; cv.wait(l, [i] { return turn == i; }); } f(); std::unique_lock<std::mutex> l(m); fin[i] = true; turn = 1 - i; me = -1; cv.notify_all(); };
  std::thread x(body, 0, a), y(body, 1, b); x.join(); y.join(); return cnt[0];
}
// an atomic whose operations are hooks
template <class T> struct hatomic {
  std::atomic<T> a; hatomic() = default; constexpr hatomic(T v) : a(v) {}
  T load(std::memory_order o = std::memory_order_seq_cst) const { hook(); return a.load(o); }
  void store(T v, std::memory_order o = std::memory_order_seq_cst) { hook(); a.store(v, o); }
  T exchange(T v, std::memory_order o = std::memory_order_seq_cst) { hook(); return a.exchange(v, o); }
  bool compare_exchange_strong(T &e, T v, std::memory_order o = std::memory_order_seq_cst, std::memory_order o2 = std::memory_order_seq_cst) { hook(); return a.compare_exchange_strong(e, v); }
  bool compare_exchange_weak(T &e, T v, std::memory_order o = std::memory_order_seq_cst, std::memory_order o2 = std::memory_order_seq_cst) { hook(); return a.compare_exchange_strong(e, v); }
  T fetch_add(T v, std::memory_order o = std::memory_order_seq_cst) { hook(); return a.fetch_add(v); }
  T fetch_sub(T v, std::memory_order o = std::memory_order_seq_cst) { hook(); return a.fetch_sub(v); }
  operator T() const { return load(); } T operator=(T v) { store(v); return v; }
  T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); }
};
struct Key { long k; Key(long x = 0) : k(x) {} bool operator<(const Key &o) const { hook(); return k < o.k; } bool operator>(const Key &o) const { return o < *this; } bool operator<=(const Key &o) const { return !(o < *this); } bool operator>=(const Key &o) const { return !(*this < o); } bool operator==(const Key &o) const { hook(); return k == o.k; } bool operator!=(const Key &o) const { return !(*this == o); } };
}
