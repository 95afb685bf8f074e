// Probe functions that write arrays to a stream, append to them and read them back (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "Serialization.hh"
#include "NDVecArrayStreamer.hh"
template <std::size_t d, std::size_t nc> struct probe {
  using A = NDVecArray<float, d, nc>; using ind_t = typename A::ind_t; using S = stor::NDVecArrayStreamer<NDVecArray, float, d, nc>; using mode_t = stor::StreamerMode; using io = std::fstream;
  template <class W> static void each(const ind_t& s, W&& w) {
    if constexpr (d == 1) { for (std::size_t i = 0; i < s[0]; i++) w(ind_t(i)); }
    else { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t j = 0; j < s[1]; j++) w(ind_t(i, j)); }
  }
  static void load(A& a, const ind_t& s, const float* v) { std::size_t k = 0; each(s, [&](ind_t ind) { for (std::size_t c = 0; c < nc; c++) { a[ind][c] = v[k]; k++; } }); }
  static void save(A& a, const ind_t& s, float* v) { std::size_t k = 0; each(s, [&](ind_t ind) { for (std::size_t c = 0; c < nc; c++) { v[k] = a[ind][c]; k++; } }); }
  static void wr(S& st, io& f, const ind_t& s, const ind_t& piece, const float* v, const mode_t& m) { A a(s); load(a, s, v); st.serialize(f, a, piece, m); }
  static ind_t rd(S& st, io& f, std::size_t at, float* out) { f.seekg(at); A b(ind_t(std::size_t(1)), -1.f); st.deserialize(f, b); ind_t s = b.GetShape(); save(b, s, out); return s; }
  static ind_t round(io& f, const ind_t& s, const ind_t& piece, const float* v, const mode_t& m, float* out, std::size_t init) { S st(init); wr(st, f, s, piece, v, m); return rd(st, f, 0, out); }
  static ind_t round_other(io& f, const ind_t& s, const ind_t& piece, const float* v, const mode_t& m, float* out, std::size_t init) { S st(init); wr(st, f, s, piece, v, m); S st2(init + 1); return rd(st2, f, 0, out); }
  static ind_t round_view(io& f, const ind_t& s, const ind_t& piece, const float* v, const mode_t& m, float* out, std::size_t init) {
    S st(init); A big(s + 1, -2.f); A a = big.View(ind_t(std::size_t(1)), s + 1); load(a, s, v); st.serialize(f, a, piece, m); return rd(st, f, 0, out); }
  static ind_t second(io& f, std::size_t at, const ind_t& s, const ind_t& piece, const float* v, const mode_t& m, float* out, std::size_t init) { S st(init); f.seekp(at); wr(st, f, s, piece, v, m); return rd(st, f, at, out); }
  static void write(io& f, const ind_t& s, const ind_t& piece, const float* v, const mode_t& m) { S st(4); wr(st, f, s, piece, v, m); }
  static void append(io& f, std::size_t at, const ind_t& s, const float* v, std::size_t axis, const mode_t& m) { S st(4); A a(s); load(a, s, v); f.seekg(at); st.append_slice(f, a, axis, m); }
  static void close(io& f, std::size_t at) { S st(4); f.seekg(at); st.mark_as_final(f); }
  static ind_t read(io& f, std::size_t at, float* out) { S st(4); return rd(st, f, at, out); }
  static void use(io& f, const ind_t& s, const float* v, const mode_t& m, float* out) {
    round(f, s, s, v, m, out, 0); round_other(f, s, s, v, m, out, 0); round_view(f, s, s, v, m, out, 0); second(f, 0, s, s, v, m, out, 0); write(f, s, s, v, m); append(f, 0, s, v, 0, m); close(f, 0); read(f, 0, out); }
};
void use_all(std::fstream& f, const float* v, const stor::StreamerMode& m, float* out) { probe<1, 1>::use(f, std::size_t(1), v, m, out); probe<2, 1>::use(f, {1, 1}, v, m, out); probe<2, 2>::use(f, {1, 1}, v, m, out); }
