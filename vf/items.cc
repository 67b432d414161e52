#include "io.h"
namespace vf {
#define IV(T) k.push_back([](Case& c) { return value_item<T>(c, #T); });
#define ISub(T) k.push_back([](Case& c) { return sub_item<T>(c, #T); });
#define IA(T) k.push_back([](Case& c) { return array_item<T>(c, #T); }); k.push_back([](Case& c) { return little_item<T>(c, #T); });
#define IC(T) k.push_back([](Case& c) { return counted_item<T>(c, #T); });
typedef std::map<int, double> MapID; typedef std::map<short, multi1d<int>> MapSM; typedef std::pair<int, float> PairIF; typedef std::pair<multi1d<short>, std::vector<double>> PairMV; typedef unsigned int uint_; typedef unsigned short ushort_; typedef unsigned long ulong_; typedef long long llong_;
typedef std::complex<float> CxF; typedef std::complex<double> CxD; typedef unsigned char byte_; typedef std::map<std::pair<int, short>, ComplexD> MapPC;
std::vector<std::function<Item(Case&)>>& item_kinds() {
  static std::vector<std::function<Item(Case&)>> k;
  if (!k.empty()) return k;
  k.push_back(string_item); k.push_back(string_item); k.push_back(string_item);
  IV(char) IV(int) IV(uint_) IV(short) IV(ushort_) IV(long) IV(ulong_) IV(llong_) IV(float) IV(double) IV(bool) IV(CxF) IV(CxD)
  IV(multi1d<int>) IV(multi1d<double>) IV(multi1d<Complex>) IV(multi1d<CxD>) IV(multi1d<multi1d<short>>) IV(multi2d<double>) IV(multi2d<Integer>) IV(multi3d<int>) IV(multi4d<short>) IV(multi5d<float>) IV(multiNd<double>) IV(multi1d<bool>)
  IV(std::vector<double>) IV(std::vector<multi1d<int>>) IV(std::list<short>) IV(Array1dO<int>) IV(MapID) IV(MapSM) IV(MapPC) IV(PairIF) IV(PairMV)
  IV(Integer) IV(Boolean) IV(Real) IV(RealD) IV(RealF) IV(Complex) IV(ComplexD) IV(ColorMatrix) IV(ColorVector) IV(SpinMatrix) IV(Fermion) IV(Propagator) IV(ColorMatrixD) IV(PropagatorF)
  IV(LatticeInteger) IV(LatticeBoolean) IV(LatticeReal) IV(LatticeRealD) IV(LatticeComplex) IV(LatticeComplexD) IV(LatticeColorMatrix) IV(LatticeColorVector) IV(LatticeFermion) IV(LatticeFermionD) IV(LatticeHalfFermion) IV(LatticeSpinMatrix) IV(LatticeSpinVector) IV(LatticePropagator) IV(multi1d<LatticeColorMatrix>) IV(multi1d<LatticeRealD>) IV(std::vector<LatticeComplex>)
  ISub(LatticeReal) ISub(LatticeInteger) ISub(LatticeComplexD) ISub(LatticeColorMatrix) ISub(LatticeFermion) ISub(LatticePropagator) ISub(LatticeBoolean) ISub(LatticeHalfFermion) ISub(LatticeRealD)
  IA(byte_) IA(ushort_) IA(uint_) IA(ulong_) IA(float) IA(double) IA(__int128)
  k.push_back([](Case& c) { return counted2_item<int>(c, "int"); }); k.push_back([](Case& c) { return counted2_item<Real>(c, "Real"); }); k.push_back([](Case& c) { return counted2_item<Complex>(c, "Complex"); });
  IC(int) IC(double) IC(Complex) IC(LatticeReal)
  return k;
}
}
