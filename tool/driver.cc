// Analysis driver: pulls in the library headers of the tree under analysis and forces the
// instantiation of every template whose semantics the checks reason about. It is only parsed
// (by the extractor), never compiled to code or executed.
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include <set>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "NDVecArrayOperations.hh"
#include "NDVecArrayStreamer.hh"
#include "Serialization.hh"
#include "Interpolation.hh"
#include "Quadrature.hh"
#include "MathUtils.hh"
#include "Symmetry.hh"
#include "Cache.hh"
#include "RStarTree.hh"
#include "DistributedNDVecArray.hh"
#include "GreensFunction.hh"
#include "AnalyticGreensFunctionCalculator.hh"
#include "SignalCalculator.hh"
#include "SignalExport.hh"
#include "Current.hh"
#include "ChunkUtils.hh"
#include "IteratorUtils.hh"

// --- whole classes
template class NDVecArray<float, 3, 2>;
template class NDVecArray<float, 1, 1>;
template class stor::NDVecArrayStreamer<NDVecArray, float, 3, 2>;
template class ChunkIndex<3>;
template struct ChunkMetadata<3>;
template class ChunkCache<NDVecArray, float, 3, 2>;
template class ChunkLibrary<NDVecArray, float, 3, 2>;
template class RStarTree<std::size_t, 3, ChunkMetadata<3>>;

// --- member templates and free templates
using arr_t = NDVecArray<float, 3, 2>;
using darr_t = DistributedNDVecArray<NDVecArray, float, 3, 2>;
using ind_t = Vector<std::size_t, 3>;

void drive_array(arr_t& a, arr_t& b, const ind_t& i) {
  a.Append<0>(b); a.Append<1>(b); a.Append<2>(b);
  arr_t c(b);
  arr_t d(std::move(b));
  a = d;
  (void)c;
  a[i][0] = 1.0f;
}
void drive_downsampling(arr_t& a, const ind_t& i, const ind_t& f, arr_t& out) {
  ind_t ds; Downsampling::downsample(a, i, f, out, ds);
  (void)Downsampling::get_downsampled_shape(i, i, f);
}
void drive_stream(std::fstream& s, arr_t& a) {
  stor::Traits<uint32_t>::serialize(s, 1u); stor::Traits<uint32_t>::deserialize(s);
  stor::Traits<uint64_t>::serialize(s, 1u); stor::Traits<uint64_t>::deserialize(s);
  stor::Traits<float>::serialize(s, 1.f); stor::Traits<float>::deserialize(s);
  stor::Traits<double>::serialize(s, 1.); stor::Traits<double>::deserialize(s);
  std::vector<float> vf; stor::Traits<std::vector<float>>::serialize(s, vf); stor::Traits<std::vector<float>>::deserialize(s);
  std::vector<double> vd; stor::Traits<std::vector<double>>::serialize(s, vd); stor::Traits<std::vector<double>>::deserialize(s);
  std::array<float, 3> af; stor::Traits<std::array<float, 3>>::serialize(s, af); stor::Traits<std::array<float, 3>>::deserialize(s);
  std::array<std::size_t, 3> au; stor::Traits<std::array<std::size_t, 3>>::serialize(s, au); stor::Traits<std::array<std::size_t, 3>>::deserialize(s);
  std::string st; stor::Traits<std::string>::serialize(s, st); stor::Traits<std::string>::deserialize(s);
  std::map<std::string, double> m; stor::Traits<std::map<std::string, double>>::serialize(s, m); stor::Traits<std::map<std::string, double>>::deserialize(s);
  Vector<std::size_t, 3> v; stor::Traits<Vector<std::size_t, 3>>::serialize(s, v); stor::Traits<Vector<std::size_t, 3>>::deserialize(s);
  RZTCoordVector rzt; stor::Traits<RZTCoordVector>::serialize(s, rzt); stor::Traits<RZTCoordVector>::deserialize(s);
  ChunkMetadata<3> cm; stor::Traits<ChunkMetadata<3>>::serialize(s, cm); stor::Traits<ChunkMetadata<3>>::deserialize(s);
  CylindricalGreensFunctionMetadata gm; stor::Traits<CylindricalGreensFunctionMetadata>::serialize(s, gm); stor::Traits<CylindricalGreensFunctionMetadata>::deserialize(s);
}

void drive_library(ChunkLibrary<NDVecArray, float, 3, 2>& lib, arr_t& a, const ind_t& i) {
  lib.AppendSlice<0>(i, a); lib.AppendSlice<2>(i, a); lib.SwapAxes<0, 2>();
  lib.index_loop_over_elements([](const ind_t&, const arr_t::view_t&) {});
  lib.index_loop_over_elements(i, i, [](const ind_t&, const arr_t::view_t&) {});
}
void drive_cache(ChunkCache<NDVecArray, float, 3, 2>& c, ChunkMetadata<3>& m, arr_t& a) { c.AppendSlice<0>(m, a); c.AppendSlice<2>(m, a); }
void drive_meta(ChunkMetadata<3>& m) { m.GrowChunk<0>(1); m.GrowChunk<2>(1); m.SwapAxes<0, 2>(); m.SwapAxes<0, 1>(); std::cout << m; }
void drive_darr(darr_t& d, arr_t& a, const ind_t& i, const std::filesystem::path& p) {
  d.RegisterChunk(a, i); d.RegisterChunk(a, i, i, 1); d.AppendSlice<0>(i, a); d.AppendSlice<2>(i, a);
  (void)d.GetShape(); (void)d[i]; d.Move(p); d.Import(p, true); d.SwapAxes<0, 2>(); d.FillArray(a, i, i, i); d.Flush();
  d.RebuildChunks(i, p, 2, SpatialSymmetry::Cylindrical<float>::boundary_evaluator);
  d.RebuildChunksPartial(i, i, i, p, 2, SpatialSymmetry::Cylindrical<float>::boundary_evaluator);
  d.RebuildChunksPartial(i, i, i, i, p, 2, SpatialSymmetry::Cylindrical<float>::boundary_evaluator);
  d.index_loop_over_elements([](const ind_t&, const arr_t::view_t&) {});
}
#ifdef EV_NOOVERLAP
void drive_darr2(darr_t& d, const ind_t& i, const std::filesystem::path& p) { d.RebuildChunks(i, p); d.RebuildChunksPartial(i, i, i, p); }
#endif
void drive_gf(CylindricalGreensFunction& gf, darr_t&& d, const LineCurrentSegment& s, std::vector<float>& sf, std::vector<double>& sd,
              const RZTCoordVector& c, const RZTVector<std::size_t>& n, arr_t& a, const std::filesystem::path& p) {
  CylindricalGreensFunction g1(p); CylindricalGreensFunction g2(c, c, c, std::move(d));
  gf.apply_accumulate<Interpolation::Kernel::Linear>(s, 0.f, 1.f, 2, sf);
  gf.apply_accumulate<Interpolation::Kernel::Keys>(s, 0.f, 1.f, 2, sf);
  gf.apply_accumulate<Interpolation::Kernel::Linear, double>(s, 0.f, 1.f, 2, sd);
  gf.fill_array<Interpolation::Kernel::Linear>(c, c, n, a);
  gf.fill_array<Interpolation::Kernel::Keys>(c, c, n, a);
  (void)gf.start_coords(); (void)gf.end_coords();
}
void drive_zones(ZRCoordVector a, TZRCoordVector c, XYZTCoordVector q, const ZRCoordVector ac, const TZRCoordVector cc, const XYZTCoordVector qc, const RZTCoordVector rc,
                 const RZCoordVector rz, const XYZCoordVector xc, std::vector<scalar_t>& sv, float* fp) {
  (void)a.r(); (void)a.z(); (void)c.r(); (void)c.z(); (void)c.t(); (void)q.x(); (void)q.y(); (void)q.z(); (void)q.t();
  (void)ac.r(); (void)ac.z(); (void)cc.r(); (void)cc.z(); (void)cc.t(); (void)qc.x(); (void)qc.y(); (void)qc.z(); (void)qc.t();
  (void)rc.r(); (void)rc.z(); (void)rc.t(); (void)rz.r(); (void)rz.z(); (void)xc.x(); (void)xc.y(); (void)xc.z();
  (void)RZTVector<float>::r(rc); (void)RZTVector<float>::z(rc); (void)RZTVector<float>::t(rc);
  (void)RZVector<float>::r(a); (void)RZVector<float>::z(a); (void)ZRVector<float>::r(a); (void)ZRVector<float>::z(a);
  (void)RZVector<float>::r(rz); (void)RZVector<float>::z(rz); (void)ZRVector<float>::r(rz); (void)ZRVector<float>::z(rz);
  RZTVector<float> j(RZVector<float>{1.f, 2.f}, 3.f); TZRVector<float> k(3.f, ZRVector<float>{1.f, 2.f}); (void)j; (void)k;
  (void)c.zr_view(); (void)c.zr();
  RZFieldVectorView vv(fp); (void)RZFieldVectorView::r(vv); (void)RZFieldVectorView::z(vv);
  const RZFieldVectorView cv(fp); (void)RZFieldVectorView::r(cv); (void)RZFieldVectorView::z(cv);
  ZRVectorView<float> zv(fp); (void)ZRVectorView<float>::r(zv); (void)ZRVectorView<float>::z(zv);
  const ZRVectorView<float> czv(fp); (void)ZRVectorView<float>::r(czv); (void)ZRVectorView<float>::z(czv);
  RZTVectorView<float> tv(fp); (void)tv.r(); (void)tv.z(); (void)tv.t();
  (void)IsNullVector(vv); (void)IsNullVector(tv);
  ExportSignal(sv, sv, "", 3, 3);
  (void)MathUtils::incomplete_gamma(1.f, 1.f);
}
void drive_iter(Vector<std::size_t, 1> a, Vector<std::size_t, 2> b, Vector<std::size_t, 3> c, Vector<std::size_t, 4> d, Vector<int, 3> e, RZTIndexVector f) {
  auto w1 = [](const Vector<std::size_t, 1>&) {}; IteratorUtils::index_loop_over_elements(a, a, w1);
  auto w2 = [](const Vector<std::size_t, 2>&) {}; IteratorUtils::index_loop_over_elements(b, b, w2);
  auto w3 = [](const Vector<std::size_t, 3>&) {}; IteratorUtils::index_loop_over_elements(c, c, w3);
  auto w4 = [](const Vector<std::size_t, 4>&) {}; IteratorUtils::index_loop_over_elements(d, d, w4);
  auto w5 = [](const Vector<int, 3>&) {}; IteratorUtils::index_loop_over_elements(e, e, w5);
  auto w6 = [](const Vector<std::size_t, 1>&, const Vector<std::size_t, 1>&) {}; IteratorUtils::index_loop_over_chunks(a, a, a, w6);
  auto w7 = [](const Vector<std::size_t, 2>&, const Vector<std::size_t, 2>&) {}; IteratorUtils::index_loop_over_chunks(b, b, b, w7);
  auto w8 = [](const Vector<std::size_t, 3>&, const Vector<std::size_t, 3>&) {}; IteratorUtils::index_loop_over_chunks(c, c, c, w8);
  auto w9 = [](const Vector<std::size_t, 4>&, const Vector<std::size_t, 4>&) {}; IteratorUtils::index_loop_over_chunks(d, d, d, w9);
  (void)IteratorUtils::empty_range(c, c); (void)IteratorUtils::empty_range(b, b);
}
void drive_chunkutils(Vector<std::size_t, 3> a, Vector<int, 3> b, Vector<double, 3> d) {
  (void)ChunkUtils::contains(a, a, a); (void)ChunkUtils::overlaps(a, a, a, a); ChunkUtils::get_chunk_overlap(a, a, a, a, a, a);
  (void)VectorUtils::min(b, a); (void)VectorUtils::max(b, a); (void)VectorUtils::min(a, std::size_t(1)); (void)VectorUtils::min(b, 1); (void)VectorUtils::min(d, d); (void)VectorUtils::max(d, d);
  (void)VectorUtils::min(d, 1.); (void)VectorUtils::max(d, 1.); (void)VectorUtils::ceil_nonneg(d); (void)VectorUtils::floor_nonneg(d); (void)b.as_type<float>(); (void)a.at(1); (void)(a >= a); (void)(a != a);
  a *= a; b += b; b -= b; b *= b; b += 1; b -= 1; b *= 2; (void)(b + b); (void)(b - b); (void)(b * b); (void)(b + 1); (void)(b - 1); (void)(b * 2); (void)(a == a); (void)(b == b); b = b; b = 1;
  Vector<int, 3> e(b), f(5), g(1, 2, 3); (void)e; (void)f; (void)g; (void)(a / a); (void)(a * a); (void)(a + a); (void)(a - a);
}
template <class V, class S> void drive_arith(V a, V b, S k) {
  (void)(a + b); (void)(a - b); (void)(a * b); (void)(a / b); (void)(a + k); (void)(a - k); (void)(a * k); (void)(a / k);
  a += b; a -= b; a *= b; a /= b; a += k; a -= k; a *= k; a /= k; (void)(a == b); (void)(a != b); (void)(a >= b); a = b; a = k; (void)a.at(0);
}
template void drive_arith(Vector<std::size_t, 3>, Vector<std::size_t, 3>, std::size_t); template void drive_arith(Vector<int, 3>, Vector<int, 3>, int); template void drive_arith(Vector<float, 2>, Vector<float, 2>, float);
template void drive_arith(Vector<double, 3>, Vector<double, 3>, double);
void drive_calc(SignalCalculator& c, const LineCurrentSegment& s, std::vector<scalar_t>& sig, const std::filesystem::path& p) { c.AccumulateSignal(s, 0.f, 1.f, 2, sig); SignalCalculator d(p, 2); (void)d; }
void drive_vectors(RZTCoordVector v, RZCoordVector w, XYZCoordVector x, XYZFieldVector f, RZFieldVector g, RZTIndexVector u) {
  (void)(v + v); (void)(v - v); (void)(v * v); (void)(v / v); (void)(v * 2.f); (void)(v / 2.f); (void)(v + 1.f); (void)(v - 1.f);
  v += v; v -= v; v *= v; v /= v; v *= 2.f; v += 1.f; v -= 1.f; v /= 2.f; (void)(v == v);
  (void)v.r(); (void)v.z(); (void)v.t(); (void)w.r(); (void)w.z(); (void)x.x(); (void)x.y(); (void)x.z(); (void)f.x(); (void)f.y(); (void)f.z(); (void)g.r(); (void)g.z(); (void)u.r(); (void)u.z(); (void)u.t();
  v.r() = 1; v.z() = 1; v.t() = 1;
  (void)v.rz_view(); (void)VectorUtils::max(v, v); (void)VectorUtils::min(v, v); (void)VectorUtils::inner(x, x); 
  
}

