// Probe functions that drive distributed arrays (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "Serialization.hh"
#include "NDVecArrayStreamer.hh"
#include "DistributedNDVecArray.hh"
template <std::size_t d> struct probe {
  using D = DistributedNDVecArray<NDVecArray, float, d, 1>; using A = NDVecArray<float, d, 1>; using ind_t = Vector<std::size_t, d>; using sind_t = Vector<int, d>; using M = ChunkMetadata<d>;
  struct L : ChunkLibrary<NDVecArray, float, d, 1> {
    using B = ChunkLibrary<NDVecArray, float, d, 1>; using B::B;
    static void put(M* out, const M& m) { *out = m; }
    std::size_t list(const ind_t& b, const ind_t& e, M* out) { auto r = this->m_index.GetChunks(b, e); std::size_t n = 0; for (const M& m : r) { put(out + n, m); n++; } return n; }
    ind_t raw(const ind_t& i, float* out) { const M* m = this->m_index.GetChunk(i); const A& a = this->m_cache.RetrieveChunk(*m); ind_t s = a.GetShape(); save(a, s, out); return s; }
  };
  template <class W> static void each(const ind_t& s, W&& w) {
    if constexpr (d == 1) { for (std::size_t i = 0; i < s[0]; i++) w(ind_t(i)); }
    else { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t j = 0; j < s[1]; j++) w(ind_t(i, j)); }
  }
  static void load(A& a, const ind_t& s, const float* v) { std::size_t k = 0; each(s, [&](ind_t ind) { a[ind][0] = v[k]; k++; }); }
  static void save(const A& a, const ind_t& s, float* v) { std::size_t k = 0; each(s, [&](ind_t ind) { v[k] = a[ind][0]; k++; }); }
  static float mark(const sind_t& i) { if constexpr (d == 1) return 1000000 + 100 * (i[0] + 50); else return 1000000 + 1000 * (i[0] + 50) + (i[1] + 50); }
  static D* make(const std::filesystem::path& w, std::size_t cap, const ind_t& shape, const ind_t& piece) { return new D(w, cap, shape, piece); }
  static void reg(D& c, const ind_t& b, const ind_t& s, const float* v, bool opt) { A a(s); load(a, s, v); c.RegisterChunk(a, b, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
  static void rego(D& c, const ind_t& b, const ind_t& e, std::size_t ov, const ind_t& s, const float* v, bool opt) { A a(s); load(a, s, v); c.RegisterChunk(a, b, e, ov, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
  static void append0(D& c, const ind_t& b, const ind_t& s, const float* v) { A a(s); load(a, s, v); c.template AppendSlice<0>(b, a); }
  static void fill(D& c, const ind_t& s, const float* v, const ind_t& b, const ind_t& e, const ind_t& o, float* out) { A a(s); load(a, s, v); c.FillArray(a, b, e, o); save(a, s, out); }
  static float at(D& c, const ind_t& i) { return c[i][0]; }
  static void loop(D& c, const ind_t& s, float* out, std::size_t* n) { c.index_loop_over_elements([&](const ind_t& ind, const typename A::view_t& elem) { std::size_t k = ind[0]; if constexpr (d > 1) k = k * s[1] + ind[1]; out[k] = elem[0]; n[k] += 1; }); }
  static ind_t shape(D& c) { return c.GetShape(); }
  static void rebuild(D& c, const ind_t& s, const std::filesystem::path& t, std::size_t ov, bool opt) {
    c.RebuildChunks(s, t, ov, [](A&, const sind_t&, const sind_t&, const sind_t& i, typename A::view_t elem) { elem[0] = mark(i); }, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
  static void partial(D& c, const ind_t& b, const ind_t& e, const ind_t& o, const ind_t& s, const std::filesystem::path& t, std::size_t ov, bool opt) {
    c.RebuildChunksPartial(b, e, o, s, t, ov, [](D&, const sind_t& i, typename A::view_t elem) { elem[0] = mark(i); }, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
  static void swap(D& c) { c.template SwapAxes<0, d - 1>(); }
  static void move(D& c, const std::filesystem::path& w) { c.Move(w); }
  static void import(D& c, const std::filesystem::path& w, bool mv) { c.Import(w, mv); }
  static void flush(D& c) { c.Flush(); }
  static void destroy(D* c) { delete c; }
  static L* lib(const std::filesystem::path& w, std::size_t cap, const ind_t& shape, const ind_t& piece) { return new L(w, cap, shape, piece); }
  static std::size_t list(L& c, const ind_t& b, const ind_t& e, M* out) { return c.list(b, e, out); }
  static ind_t raw(L& c, const ind_t& i, float* out) { return c.raw(i, out); }
  static ind_t begin(L& c) { return c.GetStartInd(); }
  static ind_t end(L& c) { return c.GetEndInd(); }
  static void clear(L& c) { c.ClearLibrary(); }
  static void del(L& c) { c.DeleteLibrary(); }
  static void movelib(L& c, const std::filesystem::path& w) { c.MoveLibrary(w); }
  static void dropl(L* c) { delete c; }
  static void use(D* cp, L* lp, const ind_t& s, float* v, std::size_t* n, const std::filesystem::path& w, M* o) { D& c = *cp; L& l = *lp; make(w, 1, s, s); reg(c, s, s, v, true); rego(c, s, s, 1, s, v, true); append0(c, s, s, v); fill(c, s, v, s, s, s, v); at(c, s); loop(c, s, v, n); shape(c);
    rebuild(c, s, w, 1, true); partial(c, s, s, s, s, w, 1, true); swap(c); move(c, w); import(c, w, true); flush(c); destroy(cp); lib(w, 1, s, s); list(l, s, s, o); raw(l, s, v); begin(l); end(l); clear(l); del(l); movelib(l, w); dropl(lp); }
};
void use_all(probe<1>::D* a, probe<1>::L* al, probe<2>::D* b, probe<2>::L* bl, float* v, std::size_t* n, const std::filesystem::path& w, ChunkMetadata<1>* o, ChunkMetadata<2>* o2) { probe<1>::use(a, al, std::size_t(1), v, n, w, o); probe<2>::use(b, bl, {1, 1}, v, n, w, o2); }
