// Probe functions that encode an array into a buffer and decode it again (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "Serialization.hh"
#include "NDVecArrayStreamer.hh"
template <std::size_t d, std::size_t nc> struct probe {
  using A = NDVecArray<float, d, nc>; using ind_t = typename A::ind_t; using buf_t = std::vector<uint32_t>;
  static void load(A& a, const ind_t& s, const float* v) {
    std::size_t k = 0;
    if constexpr (d == 1) { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t c = 0; c < nc; c++) { ind_t ind(i); a[ind][c] = v[k]; k++; } }
    else { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t j = 0; j < s[1]; j++) for (std::size_t c = 0; c < nc; c++) { ind_t ind(i, j); a[ind][c] = v[k]; k++; } }
  }
  static void save(A& a, const ind_t& s, float* v) {
    std::size_t k = 0;
    if constexpr (d == 1) { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t c = 0; c < nc; c++) { ind_t ind(i); v[k] = a[ind][c]; k++; } }
    else { for (std::size_t i = 0; i < s[0]; i++) for (std::size_t j = 0; j < s[1]; j++) for (std::size_t c = 0; c < nc; c++) { ind_t ind(i, j); v[k] = a[ind][c]; k++; } }
  }
  static void sup(A& a, A& b, buf_t& buf, std::size_t* res) {
    res[2] = nullsup::calculate_required_buflen(a); buf.resize(res[2]);
    res[0] = nullsup::suppress_null(a, std::span<uint32_t>(buf)); res[1] = nullsup::desuppress_null(std::span<uint32_t>(buf), b);
  }
  static void plain(A& a, A& b, buf_t& buf, std::size_t* res) {
    res[2] = a.GetVolume(); buf.resize(res[2]);
    res[0] = dense::to_buffer(a, std::span<uint32_t>(buf)); res[1] = dense::from_buffer(b, std::span<uint32_t>(buf));
  }
  static void sup_round(const ind_t& s, const float* v, buf_t& buf, std::size_t* res, float* out) { A a(s); load(a, s, v); A b(s, -1.f); sup(a, b, buf, res); save(b, s, out); }
  static void dense_round(const ind_t& s, const float* v, buf_t& buf, std::size_t* res, float* out) { A a(s); load(a, s, v); A b(s, -1.f); plain(a, b, buf, res); save(b, s, out); }
  static void sup_view(const ind_t& s, const float* v, buf_t& buf, std::size_t* res, float* out) {
    A a(s + 1, -2.f), b(s + 1, -1.f); ind_t o(1); A va = a.View(o, s + 1), vb = b.View(o, s + 1); load(va, s, v); sup(va, vb, buf, res); save(vb, s, out); }
  static void dense_view(const ind_t& s, const float* v, buf_t& buf, std::size_t* res, float* out) {
    A a(s + 1, -2.f), b(s + 1, -1.f); ind_t o(1); A va = a.View(o, s + 1), vb = b.View(o, s + 1); load(va, s, v); plain(va, vb, buf, res); save(vb, s, out); }
  static std::size_t bound(const ind_t& s) { return nullsup::calculate_required_buflen(s, nc); }
  static std::size_t bound_of(const ind_t& s) { A a(s); return nullsup::calculate_required_buflen(a); }
  static void use(const ind_t& s, const float* v, buf_t& buf, std::size_t* res, float* out) { sup_round(s, v, buf, res, out); dense_round(s, v, buf, res, out); sup_view(s, v, buf, res, out); dense_view(s, v, buf, res, out); bound(s); bound_of(s); }
};
void use_all(const float* v, std::vector<uint32_t>& buf, std::size_t* res, float* out) {
  probe<1, 1>::use(std::size_t(1), v, buf, res, out); probe<1, 2>::use(std::size_t(1), v, buf, res, out); probe<2, 1>::use({1, 1}, v, buf, res, out); probe<2, 2>::use({1, 1}, v, buf, res, out);
}
