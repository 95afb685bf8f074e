// Probe functions that drive the chunk index (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "Serialization.hh"
#include "NDVecArrayStreamer.hh"
#include "DistributedNDVecArray.hh"
template <std::size_t d> struct probe {
  using C = ChunkIndex<d>; using M = ChunkMetadata<d>; using ind_t = Vector<std::size_t, d>;
  static C* make(const std::filesystem::path& w) { return new C(w, 2); }
  static std::size_t reg(C& c, const ind_t& start, const ind_t& shape, std::size_t ov, bool null) { M& m = c.RegisterChunk(start, shape, ov, null ? ChunkType::all_null : ChunkType::specified); return m.chunk_id; }
  static void put(M* out, const M& m) { *out = m; }
  static std::size_t list(C& c, const ind_t& b, const ind_t& e, M* out) { auto r = c.GetChunks(b, e); std::size_t n = 0; for (const M& m : r) { put(out + n, m); n++; } return n; }
  static bool at(C& c, const ind_t& i, M* out) { const M* m = c.GetChunk(i); if (m) put(out, *m); return m != nullptr; }
  static void grow(C& c, const ind_t& i, std::size_t n) { M* m = c.GetChunk(i); m->template GrowChunk<0>(n); c.UpdateChunkInIndex(i, *m); }
  static void swap(C& c) { c.Map([](M& m) { m.template SwapAxes<0, d - 1>(); }); }
  static ind_t shape(C& c) { return c.GetShape(); }
  static ind_t begin(C& c) { return c.get_start_ind(); }
  static ind_t end(C& c) { return c.get_end_ind(); }
  static void flush(C& c) { c.FlushIndex(); }
  static void clear(C& c) { c.ClearIndex(); }
  static void move(C& c, const std::filesystem::path& w) { c.MoveIndex(w); }
  static void import(C& c, const std::filesystem::path& w, bool mv) { c.ImportIndex(w, mv); }
  static void destroy(C* c) { delete c; }
  static void use(C* cp, const ind_t& s, const std::filesystem::path& w, M* o) { C& c = *cp; make(w); reg(c, s, s, 0, false); list(c, s, s, o); at(c, s, o); grow(c, s, 1); swap(c); shape(c); begin(c); end(c); flush(c); clear(c); move(c, w); import(c, w, true); destroy(cp); }
};
void use_all(ChunkIndex<1>* a, ChunkIndex<2>* b, const std::filesystem::path& w, ChunkMetadata<1>* o, ChunkMetadata<2>* o2) { probe<1>::use(a, std::size_t(1), w, o); probe<2>::use(b, {1, 1}, w, o2); }
