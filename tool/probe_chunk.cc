// Probe functions that drive the chunk cache (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "Serialization.hh"
#include "NDVecArrayStreamer.hh"
#include "DistributedNDVecArray.hh"
template <std::size_t d> struct probe {
  using A = NDVecArray<float, d, 1>; using ind_t = typename A::ind_t; using C = ChunkCache<NDVecArray, float, d, 1>; using M = ChunkMetadata<d>;
  template <class W> static void each(const ind_t& s, W&& w) {
    if constexpr (d == 1) { for (std::size_t i = 0; i < s[0]; i++) w(ind_t(i)); }
    else { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t j = 0; j < s[1]; j++) w(ind_t(i, j)); }
  }
  static void load(A& a, const ind_t& s, const float* v) { std::size_t k = 0; each(s, [&](ind_t ind) { a[ind][0] = v[k]; k++; }); }
  static void save(const A& a, const ind_t& s, float* v) { std::size_t k = 0; each(s, [&](ind_t ind) { v[k] = a[ind][0]; k++; }); }
  static C* make(const std::filesystem::path& w, std::size_t cap, const ind_t& piece) { return new C(w, cap, ind_t(std::size_t(1)), piece, 4); }
  static M* meta(const std::filesystem::path& p, std::size_t id, const ind_t& start, const ind_t& shape, bool null) { return new M(null ? ChunkType::all_null : ChunkType::specified, p, id, start, shape, 0); }
  static M* meta_overlap(const std::filesystem::path& p, std::size_t id, const ind_t& start, const ind_t& shape, std::size_t ov, bool null) { return new M(null ? ChunkType::all_null : ChunkType::specified, p, id, start, shape, ov); }
  static void add(C& c, const M& m, const ind_t& s, const float* v) { A a(s); load(a, s, v); c.RegisterNewChunk(m, a); }
  static void replace(C& c, const M& m, const M& m2, const ind_t& s, const float* v) { A a(s); load(a, s, v); c.ReplaceChunk(m, m2, a); }
  static void append0(C& c, M& m, const ind_t& s, const float* v) { A a(s); load(a, s, v); c.template AppendSlice<0>(m, a); }
  static void append1(C& c, M& m, const ind_t& s, const float* v) { A a(s); load(a, s, v); c.template AppendSlice<d - 1>(m, a); }
  static ind_t get(C& c, const M& m, float* out) { const A& a = c.RetrieveChunk(m); ind_t s = a.GetShape(); save(a, s, out); return s; }
  static void remove(C& c, const M& m) { c.RemoveChunk(m); }
  static void flush(C& c) { c.FlushCache(); }
  static void clear(C& c) { c.ClearCache(); }
  static void move(C& c, const std::filesystem::path& w) { c.MoveCache(w); }
  static void import(C& c, const std::filesystem::path& w, bool mv) { c.ImportCache(w, mv); }
  static void destroy(C* c) { delete c; }
  static void use(C* cp, M& m, const ind_t& s, float* v, const std::filesystem::path& w) {
    C& c = *cp; make(w, 1, s); meta(w, 0, s, s, false); meta_overlap(w, 0, s, s, 1, false); add(c, m, s, v); replace(c, m, m, s, v); append0(c, m, s, v); append1(c, m, s, v); get(c, m, v); remove(c, m); flush(c); clear(c); move(c, w); import(c, w, true); destroy(cp); }
};
void use_all(ChunkCache<NDVecArray, float, 1, 1>* a, ChunkMetadata<1>& m, ChunkCache<NDVecArray, float, 2, 1>* b, ChunkMetadata<2>& m2, float* v, const std::filesystem::path& w) { probe<1>::use(a, m, std::size_t(1), v, w); probe<2>::use(b, m2, {1, 1}, v, w); }
