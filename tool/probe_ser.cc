// Probe functions that write a value to a stream and read it back (parsed only, never executed).
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"
#include "NDVecArrayStreamer.hh"
#include "Serialization.hh"
#include "DistributedNDVecArray.hh"
#include "GreensFunction.hh"
namespace probe {
  template <class T> T round(std::fstream& s, const T& v) { stor::Traits<T>::serialize(s, v); s.seekg(0); return stor::Traits<T>::deserialize(s); }
  template <class T> T round_by(std::fstream& s, const T& v) { stor::DefaultSerializer ser; ser.template serialize<T>(s, v); s.seekg(0); return ser.template deserialize<T>(s); }
  template <class T> T round_blocks(std::fstream& s, const T& v, std::size_t b1, std::size_t b2) { stor::Traits<T>::serialize(s, v, b1); s.seekg(0); return stor::Traits<T>::deserialize(s, b2); }
  template <class T> void put(std::fstream& s, const T& v) { stor::Traits<T>::serialize(s, v); }
  template <class T> T get(std::fstream& s) { return stor::Traits<T>::deserialize(s); }
  template <class T> void use(std::fstream& s, const T& v) { (void)round<T>(s, v); (void)round_by<T>(s, v); put<T>(s, v); (void)get<T>(s); }
  using path_t = std::filesystem::path; using id_t = ChunkMetadata<3>::id_t; using ind_t = Vector<std::size_t, 3>;
  inline ChunkMetadata<3> make_chunk(const ChunkType& t, const path_t& p, const id_t& i, const ind_t& start, const ind_t& shape, std::size_t overlap) { return ChunkMetadata<3>(t, p, i, start, shape, overlap); }
  inline ChunkMetadata<3> round_chunk(std::fstream& s, const ChunkType& t, const path_t& p, const id_t& i, const ind_t& start, const ind_t& shape, std::size_t overlap) { return round<ChunkMetadata<3>>(s, ChunkMetadata<3>(t, p, i, start, shape, overlap)); }
  inline CylindricalGreensFunctionMetadata make_green(const RZTCoordVector& a, const RZTCoordVector& b, const RZTCoordVector& c) { return CylindricalGreensFunctionMetadata(a, b, c); }
  inline CylindricalGreensFunctionMetadata round_green(std::fstream& s, const RZTCoordVector& a, const RZTCoordVector& b, const RZTCoordVector& c) { return round<CylindricalGreensFunctionMetadata>(s, CylindricalGreensFunctionMetadata(a, b, c)); }
  inline void all(std::fstream& s) {
    use<uint32_t>(s, 1u); use<uint64_t>(s, 1u); use<float>(s, 1.f); use<double>(s, 1.);
    use<std::vector<float>>(s, {}); use<std::vector<double>>(s, {}); use<std::vector<std::size_t>>(s, {}); use<std::vector<std::string>>(s, {});
    use<std::array<float, 3>>(s, {}); use<std::array<std::size_t, 3>>(s, {}); use<std::string>(s, ""); use<std::map<std::string, double>>(s, {}); use<std::map<std::size_t, float>>(s, {});
    use<Vector<std::size_t, 3>>(s, {}); use<Vector<float, 2>>(s, {}); use<RZTCoordVector>(s, {}); use<RZTVector<std::size_t>>(s, {});
    round_blocks<std::vector<float>>(s, {}, 1, 1);
  }
  inline void more(std::fstream& s, const ChunkMetadata<3>& c, const CylindricalGreensFunctionMetadata& g, const std::vector<ChunkMetadata<3>>& cs, const stor::NDVecArrayStreamerMetadata<NDVecArray, float, 3, 2>& m, const stor::NDVecArrayStreamerChunkMetadata& n) {
    use(s, c); use(s, g); use(s, cs); use(s, m); use(s, n);
  }
}
