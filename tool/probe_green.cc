// Probe functions that drive a Green's function made of registered chunks (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "Serialization.hh"
#include "NDVecArrayStreamer.hh"
#include "DistributedNDVecArray.hh"
#include "Interpolation.hh"
#include "Symmetry.hh"
#include "Current.hh"
#include "GreensFunction.hh"
struct probe {
  using D = Distributed_RZT_ErEz_Array; using A = NDVecArray<scalar_t, 3, 2>; using ind_t = RZTVector<std::size_t>; using G = CylindricalGreensFunction; using K2 = Interpolation::Kernel::Keys; using K1 = Interpolation::Kernel::Linear;
  static D* make(const std::filesystem::path& w, std::size_t cap, const ind_t& shape, const ind_t& piece) { return new D(w, cap, shape, piece); }
  static void load(A& a, const ind_t& s, const float* v) { std::size_t k = 0; for (std::size_t i = 0; i < s[0]; i++) for (std::size_t j = 0; j < s[1]; j++) for (std::size_t l = 0; l < s[2]; l++) { ind_t ind{i, j, l}; a[ind][0] = v[k]; a[ind][1] = v[k + 1]; k += 2; } }
  static void rego(D& c, const ind_t& b, const ind_t& e, std::size_t ov, const ind_t& s, const float* v, bool opt) { A a(s); load(a, s, v); c.RegisterChunk(a, b, e, ov, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); }
  static G* green(D& c, const RZTCoordVector& b, const RZTCoordVector& e, const RZTCoordVector& h) { return new G(b, e, h, std::move(c)); }
  static G* open(const std::filesystem::path& w, std::size_t cap) { return new G(w, cap); }
  static void acc1(G& g, const RZCoordVector& x, float t0, float dt, std::size_t n, const RZFieldVector& src, float wt, bool ignore, const float* in, float* out) { run<K1>(g, x, t0, dt, n, src, wt, ignore, in, out); }
  static void acc2(G& g, const RZCoordVector& x, float t0, float dt, std::size_t n, const RZFieldVector& src, float wt, bool ignore, const float* in, float* out) { run<K2>(g, x, t0, dt, n, src, wt, ignore, in, out); }
  template <class K> static void run(G& g, const RZCoordVector& x, float t0, float dt, std::size_t n, const RZFieldVector& src, float wt, bool ignore, const float* in, float* out) {
    std::vector<float> r(n); for (std::size_t i = 0; i < n; i++) r[i] = in[i];
    RZCoordVector cx(x); RZFieldVector cs(src);
    try { g.template accumulate_inner_product<K, float>(cx, t0, dt, n, cs, r.begin(), wt, ignore ? Green::OutOfBoundsBehavior::Ignore : Green::OutOfBoundsBehavior::RaiseError); }
    catch (const std::runtime_error&) { out[n] = 1; }
    for (std::size_t i = 0; i < n; i++) out[i] = r[i];
  }
  static void seg(G& g, const float* p, float t0, float t1, float q, float s0, float ds, std::size_t n, std::size_t size, const float* in, float* out, float wt) {
    std::vector<float> r(size); for (std::size_t i = 0; i < size; i++) r[i] = in[i];
    LineCurrentSegment s(XYZCoordVector{p[0], p[1], p[2]}, XYZCoordVector{p[3], p[4], p[5]}, t0, t1, q);
    g.template apply_accumulate<K1, float>(s, s0, ds, n, r, Green::OutOfBoundsBehavior::RaiseError, wt);
    for (std::size_t i = 0; i < size; i++) out[i] = r[i];
  }
  static void fill(G& g, const RZTCoordVector& b, const RZTCoordVector& e, const ind_t& n, float* out) {
    A a(n); g.template fill_array<K1>(b, e, n, a); std::size_t k = 0;
    for (std::size_t i = 0; i < n[0]; i++) for (std::size_t j = 0; j < n[1]; j++) for (std::size_t l = 0; l < n[2]; l++) { ind_t ind{i, j, l}; out[k] = a[ind][0]; out[k + 1] = a[ind][1]; k += 2; }
  }
  static void use(D* c, G* gp, const ind_t& s, float* v, const std::filesystem::path& w, const RZTCoordVector& x, const RZCoordVector& y, const RZFieldVector& f) {
    G& g = *gp; make(w, 1, s, s); rego(*c, s, s, 1, s, v, true); green(*c, x, x, x); open(w, 1); acc1(g, y, 0, 0, 1, f, 1, true, v, v); acc2(g, y, 0, 0, 1, f, 1, true, v, v); seg(g, v, 0, 0, 0, 0, 0, 1, 1, v, v, 1); fill(g, x, x, s, v); }
};
void use_all(probe::D* c, probe::G* g, const probe::ind_t& s, float* v, const std::filesystem::path& w, const RZTCoordVector& x, const RZCoordVector& y, const RZFieldVector& f) { probe::use(c, g, s, v, w, x, y, f); }
