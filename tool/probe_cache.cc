// Probe functions over the bounded cache (parsed only, never executed).
#include <cassert>
#include <iostream>
#include <vector>
#include "Cache.hh"
using cache_t = Cache<unsigned long, float>;
template class Cache<unsigned long, float>;
namespace probe {
  void built(unsigned long n) { cache_t c(n); }
  void inserted(cache_t& c, unsigned long k, float v) { c.insert_no_overwrite(k, v); }
  void put(cache_t& c, unsigned long k, float v) { c.insert_ref_no_overwrite(k) = v; }
  float got(cache_t& c, unsigned long k) { return c.get(k); }
  float got_after(cache_t& c, unsigned long k, float v) { c.insert_no_overwrite(k, v); return c.get(k); }
  float evicted(cache_t& c, unsigned long k) { return c.evict(k); }
  float evicted_oldest(cache_t& c) { return c.evict_oldest_from_full_cache(); }
  bool has(cache_t& c, unsigned long k) { return c.contains(k); }
  bool free_slot(cache_t& c) { return c.has_free_slot(); }
  template <class W> void old_to_new(cache_t& c, W&& w) { c.loop_over_elements_old_to_new(w); }
  template <class W> void new_to_old(cache_t& c, W&& w) { c.loop_over_elements_new_to_old(w); }
  inline void use(cache_t& c) { auto w = [](float&) {}; old_to_new(c, w); new_to_old(c, w); }
}
