// Analysis driver for the in-memory array: probe functions that return the addresses which index expressions denote.
// Parsed by the extractor only; never compiled to code or executed.
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "IteratorUtils.hh"
template class NDVecArray<float, 3, 2>;
template class NDVecArray<float, 1, 1>;
template class NDVecArray<float, 1, 2>;
template class NDVecArray<double, 2, 1>;
template class NDVecArray<float, 4, 3>;

template <class A> struct probe;
template <class T, std::size_t d, std::size_t nc> struct probe<NDVecArray<T, d, nc>> {
  using A = NDVecArray<T, d, nc>;
  using ind_t = typename A::ind_t; using view_t = typename A::view_t;
  static auto* fresh(const ind_t& s, const ind_t& i, std::size_t c) { A a(s); return &a[i][c]; }
  static auto* filled(const ind_t& s, const ind_t& i, std::size_t c) { A a(s, (T)1); return &a[i][c]; }
  static auto* resized(const ind_t& s, const ind_t& n, const ind_t& i, std::size_t c) { A a(s); a.resize(n); return &a[i][c]; }
  static auto* resized_value(const ind_t& s, const ind_t& n, const ind_t& i, std::size_t c) { A a(s); a.resize(n, (T)1); return &a[i][c]; }
  static auto* copied(const ind_t& s, const ind_t& i, std::size_t c) { A b(s); A a(b); return &a[i][c]; }
  static auto* copied_view(const ind_t& s, const ind_t& vs, const ind_t& ve, const ind_t& i, std::size_t c) { A b(s); A a(b); a = b.View(vs, ve); return &a[i][c]; }
  static auto* assigned(const ind_t& s, const ind_t& n, const ind_t& i, std::size_t c) { A b(n); A a(s); a = b; return &a[i][c]; }
  static auto* appended(const ind_t& s, const ind_t& n, const ind_t& i, std::size_t c) { A b(n); A a(s); a.template Append<0>(b); return &a[i][c]; }
  static auto* constant(const ind_t& s, const ind_t& i, std::size_t c) { const A a(s); return &a[i][c]; }
  static auto* viewed(const ind_t& s, const ind_t& vs, const ind_t& ve, const ind_t& i, std::size_t c) { A a(s); A v = a.View(vs, ve); return &v[i][c]; }
  static auto* viewed_const(const ind_t& s, const ind_t& vs, const ind_t& ve, const ind_t& i, std::size_t c) { A a(s); const A v = a.View(vs, ve); return &v[i][c]; }
  static auto* viewed_twice(const ind_t& s, const ind_t& vs, const ind_t& ve, const ind_t& ws, const ind_t& we, const ind_t& i, std::size_t c) { A a(s); A v = a.View(vs, ve); A w = v.View(ws, we); return &w[i][c]; }
  static std::size_t number(const ind_t& s) { A a(s); return a.GetNumberElements(); }
  static std::size_t volume(const ind_t& s) { A a(s); return a.GetVolume(); }
  static std::size_t number_resized(const ind_t& s, const ind_t& n) { A a(s); a.resize(n); return a.GetNumberElements(); }
  static std::size_t volume_resized(const ind_t& s, const ind_t& n) { A a(s); a.resize(n); return a.GetVolume(); }
  static std::size_t number_view(const ind_t& s, const ind_t& vs, const ind_t& ve) { A a(s); A v = a.View(vs, ve); return v.GetNumberElements(); }
  static std::size_t volume_view(const ind_t& s, const ind_t& vs, const ind_t& ve) { A a(s); A v = a.View(vs, ve); return v.GetVolume(); }
  static std::size_t number_copy(const ind_t& s) { A b(s); A a(b); return a.GetNumberElements(); }
  static ind_t shape(const ind_t& s) { A a(s); return a.GetShape(); }
  static ind_t shape_resized(const ind_t& s, const ind_t& n) { A a(s); a.resize(n); return a.GetShape(); }
  static ind_t shape_view(const ind_t& s, const ind_t& vs, const ind_t& ve) { A a(s); A v = a.View(vs, ve); return v.GetShape(); }
  static ind_t shape_copy(const ind_t& s) { A b(s); A a(b); return a.GetShape(); }
  static void* indexed(A& a, const ind_t& i) { return &a[i][0]; }
  static void* indexed_const(const A& a, const ind_t& i) { return &a[i][0]; }
  static bool has(const A& a, const ind_t& i) { return a.has_index(i); }
  static bool has_shape(const ind_t& s, const ind_t& i) { return A::has_index(i, s); }
  static bool within(const A& a, const ind_t& i) { return a.index_within_bounds(i); }
  static bool has_view(A& a, const ind_t& vs, const ind_t& ve, const ind_t& i) { A v = a.View(vs, ve); return v.has_index(i); }
  static auto* base(const A& a, const ind_t& i) { const A& b = a; return &b[i][0]; }
  static bool null(const A& a, const ind_t& i) { return a.IsNull(i); }
  static bool all_null(const A& a) { return a.IsAllNull(); }
  template <class W> static void loop(const A& a, W&& w) { a.loop_over_elements(w); }
  template <class W> static void index_loop(const A& a, W&& w) { a.index_loop_over_elements(w); }
  template <class W> static void index_region(const A& a, const ind_t& s, const ind_t& e, W&& w) { a.index_loop_over_elements(s, e, w); }
  template <class W> static void sequential(A& a, const ind_t& o, const std::vector<std::size_t>& in, W&& w) { a.apply_sequential(o, in, w); }
  static void use(A& a, const ind_t& i, const std::vector<std::size_t>& in) {
    fresh(i, i, 0); filled(i, i, 0); resized(i, i, i, 0); resized_value(i, i, i, 0); copied(i, i, 0); copied_view(i, i, i, i, 0); assigned(i, i, i, 0); appended(i, i, i, 0); constant(i, i, 0);
    viewed(i, i, i, i, 0); viewed_const(i, i, i, i, 0); viewed_twice(i, i, i, i, i, i, 0); number(i); volume(i); number_resized(i, i); volume_resized(i, i); number_view(i, i, i); volume_view(i, i, i); number_copy(i);
    shape(i); shape_resized(i, i); shape_view(i, i, i); shape_copy(i); indexed(a, i); indexed_const(a, i); has(a, i); has_shape(i, i); within(a, i); has_view(a, i, i, i); base(a, i); null(a, i); all_null(a);
    auto w1 = [](view_t) {}; loop(a, w1); auto w2 = [](const ind_t&, view_t) {}; index_loop(a, w2); index_region(a, i, i, w2); sequential(a, i, in, w1);
    auto w3 = [](const ind_t&) {}; IteratorUtils::index_loop_over_array_elements(a, w3); auto w4 = [](const ind_t&, const ind_t&) {}; IteratorUtils::index_loop_over_array_chunks(a, i, w4);
    A x(i); A y(x); y = x; y = (T)1; y.fill(i, i, (T)1); y.fill_from(x, i, i, i); y.template Append<0>(x); if constexpr((d > 1)) { y.template Append<1>(x); x.template SwapAxes<0, 1>(y); x.template SwapAxes<1, 0>(y); }
  }
};
struct probe1 {
  using A = NDVecArray<float, 1, 2>;
  static float* indexed(A& a, std::size_t i) { return &a[i][0]; }
  static float* fresh(std::size_t n, std::size_t i) { A a(n); return &a[i][0]; }
  static float* viewed(std::size_t n, const Vector<std::size_t, 1>& s, const Vector<std::size_t, 1>& e, std::size_t i) { A a(n); A v = a.View(s, e); return &v[i][0]; }
  static float* resized(std::size_t m, std::size_t n, std::size_t i) { A a(m); a.resize(n); return &a[i][0]; }
};
template <class A> void cols(A& a, NDVecArray<float, 1, 2>& o, const typename A::ind_t& i) { a.template fill_from<2>(o, i); a.template fill_from<0>(o, i); a.template Append<2>(a); a.template SwapAxes<0, 2>(a); }
void drive(NDVecArray<float, 3, 2>& a, NDVecArray<float, 1, 1>& b, NDVecArray<double, 2, 1>& c, NDVecArray<float, 4, 3>& d, NDVecArray<float, 1, 2>& e, const Vector<std::size_t, 3>& i, const std::vector<std::size_t>& in) {
  probe<NDVecArray<float, 3, 2>>::use(a, i, in); probe<NDVecArray<float, 1, 1>>::use(b, {1u}, in); probe<NDVecArray<double, 2, 1>>::use(c, {1u, 1u}, in); probe<NDVecArray<float, 4, 3>>::use(d, {1u, 1u, 1u, 1u}, in);
  cols(a, e, i); probe1::indexed(e, 0); probe1::fresh(0, 0); probe1::viewed(0, {1u}, {1u}, 0); probe1::resized(0, 0, 0);
}
