// Stand-in for TBB's per-thread storage (library not installed): one value per harness thread.
#pragma once
#include "sx.h"
#include <new>
#include <iterator>
namespace tbb {
enum ets_key_usage_type { ets_key_per_instance, ets_no_key };
template <class T> struct cache_aligned_allocator {};
template <class T, class A = int, ets_key_usage_type E = ets_no_key> class enumerable_thread_specific {
  enum { N = 6 }; T *slot[N] = {};
public:
  ~enumerable_thread_specific() { for (auto *p : slot) delete p; }
  T &local() { T *&p = slot[sx_thread()]; if (!p) p = new T(); return *p; }
  struct iterator { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef long difference_type; typedef T *pointer; typedef T &reference; T **p, **e; void skip() { while (p != e && !*p) ++p; } T &operator*() const { return **p; } iterator &operator++() { ++p; skip(); return *this; } iterator operator++(int) { iterator o = *this; ++*this; return o; } bool operator==(const iterator &o) const { return p == o.p; } bool operator!=(const iterator &o) const { return p != o.p; } };
  iterator begin() { iterator i{slot, slot + N}; i.skip(); return i; }
  iterator end() { return {slot + N, slot + N}; }
};
}
