// Probe functions that drive the spatial index (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "RStarTree.hh"
template <std::size_t d> struct probe {
  using C = RStarTree<std::size_t, d, std::size_t>; using ind_t = Vector<std::size_t, d>; using B = BoundingBox<std::size_t, d>;
  static C* make(std::size_t n) { return new C(n); }
  static std::size_t ins(C& c, const ind_t& b, const ind_t& e, std::size_t p) { return c.InsertElement(p, b, e); }
  static void upd(C& c, const ind_t& i, const ind_t& b, const ind_t& e) { c.UpdateBoundingBox(i, b, e); }
  static void put(std::size_t* out, const std::size_t& m) { *out = m; }
  static std::size_t list(C& c, const ind_t& b, const ind_t& e, std::size_t* out) { auto r = c.Search(b, e); std::size_t n = 0; for (const std::size_t& m : r) { put(out + n, m); n++; } return n; }
  static std::size_t all(C& c, std::size_t* out) { std::vector<std::size_t> r; c.GetAllEntries(r); std::size_t n = 0; for (const std::size_t& m : r) { put(out + n, m); n++; } return n; }
  static bool at(C& c, const ind_t& i, std::size_t* out) { const std::size_t* m = c.Search(i); if (m) put(out, *m); return m != nullptr; }
  static bool empty(C& c) { return c.Empty(); }
  static void rebuild(C& c) { c.RebuildSTR(); }
  static void clear(C& c) { c.Clear(); }
  static ind_t lo(C& c) { return c.GetBoundingBox().start_coords; }
  static ind_t hi(C& c) { return c.GetBoundingBox().end_coords; }
  static bool contains(const ind_t& b, const ind_t& e, const ind_t& i) { B x(b, e); return x.contains(i); }
  static bool overlaps(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x(b, e), y(b2, e2); return x.overlaps(y); }
  static B extend(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x(b, e), y(b2, e2); x.extend(y); return x; }
  static B hull(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x(b, e), y(b2, e2); return B(x, y); }
  static B fromnone(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x; x.extend(b, e); x.extend(b2, e2); return x; }
  static B reset(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x(b, e); x.reset_bounding_box(); x.extend(b2, e2); return x; }
  static B update(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x(b, e); x.update(b2, e2); return x; }
  static B copy(const ind_t& b, const ind_t& e, const ind_t& b2, const ind_t& e2) { B x(b, e), y(b2, e2); B z(y); x = z; return x; }
  static void use(C* cp, const ind_t& s, std::size_t* o) { C& c = *cp; make(1); ins(c, s, s, 0); upd(c, s, s, s); list(c, s, s, o); all(c, o); at(c, s, o); empty(c); rebuild(c); clear(c); lo(c); hi(c);
    contains(s, s, s); overlaps(s, s, s, s); extend(s, s, s, s); hull(s, s, s, s); fromnone(s, s, s, s); reset(s, s, s, s); update(s, s, s, s); copy(s, s, s, s); }
};
struct pool {
  using P = MemoryPool<std::size_t>;
  static P* make(std::size_t n) { return new P(n); }
  static std::size_t get(P& p, std::size_t v) { std::size_t s = p.get_empty_slot_front(); p[s] = v; return s; }
  static void free(P& p, std::size_t s) { p.free_slot(s); }
  static void reset(P& p) { p.reset(); }
  static std::size_t all(P& p, std::size_t* out) { std::vector<std::size_t> r; p.fill_elements(r); std::size_t n = 0; for (const std::size_t& m : r) { probe<1>::put(out + n, m); n++; } return n; }
  static std::size_t read(P& p, std::size_t s) { return p[s]; }
};
void use_all(probe<1>::C* a, probe<2>::C* b, probe<3>::C* c, std::size_t* o, pool::P* p) { probe<1>::use(a, std::size_t(1), o); probe<2>::use(b, {1, 1}, o); probe<3>::use(c, {1, 1, 1}, o); pool::make(1); pool::get(*p, 1); pool::free(*p, 1); pool::reset(*p); pool::all(*p, o); pool::read(*p, 1); }
