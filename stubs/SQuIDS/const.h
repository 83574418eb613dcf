// Stand-in for the constants of the SQuIDS library, which is not installed here.
// Natural units: energies in eV, lengths in 1/eV.
#ifndef SQUIDS_CONST_H
#define SQUIDS_CONST_H
#include <cassert>
#include <cmath>
#include <array>
#include <complex>
#include <memory>
#include <stdexcept>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_complex.h>
#include <gsl/gsl_complex_math.h>
#ifndef SQUIDS_MAX_HILBERT_DIM
#define SQUIDS_MAX_HILBERT_DIM 6
#endif
#define SQUIDS_VERSION 103000
#define SQUIDS_VERSION_STR "1.3.0"
#define SQUIDS_THREAD_LOCAL thread_local
namespace squids {
class Const {
public:
  double sqrt2 = 1.4142135623730951, pi = 3.14159265358979323846, piby2 = pi / 2;
  double PeV = 1e15, TeV = 1e12, GeV = 1e9, MeV = 1e6, keV = 1e3, eV = 1, Joule = 1 / 1.60225e-19;
  double kg = 5.62e35, gr = 1e-3 * kg;
  double meter = 5.06773093741e6, cm = 1e-2 * meter, km = 1e3 * meter, fermi = 1e-15 * meter, angstrom = 1e-10 * meter;
  double AU = 149.60e9 * meter, ly = 9.4605284e15 * meter, parsec = 3.08568025e16 * meter;
  double picobarn = 1e-36 * cm * cm, femtobarn = 1e-39 * cm * cm;
  double sec = 1.523e15, hour = 3600 * sec, day = 24 * hour, year = 365 * day;
  double Pascal = Joule / (meter * meter * meter), atm = 101325 * Pascal, psi = 6893 * Pascal, Kelvin = 1 / 1.1604505e4, C = 6.24150965e18 * 0.30282212088, A = C / sec, T = kg / (A * sec * sec);
  double degree = pi / 180;
  double GF = 1.16639e-23, Na = 6.0221415e23, sw_sq = 0.2312, alpha = 1 / 137.0, e_charge = 0.30282212088;
  double proton_mass = 938.272e6, neutron_mass = 939.565e6, electron_mass = 0.510998910e6, muon_mass = 105.658367e6, tau_mass = 1776.82e6;
  void SetMixingAngle(unsigned i, unsigned j, double v) { th[chk(i, j)][j] = v; }
  double GetMixingAngle(unsigned i, unsigned j) const { return th[chk(i, j)][j]; }
  void SetPhase(unsigned i, unsigned j, double v) { de[chk(i, j)][j] = v; }
  double GetPhase(unsigned i, unsigned j) const { return de[chk(i, j)][j]; }
  void SetEnergyDifference(unsigned i, double v) { dm.at(one(i)) = v; }
  double GetEnergyDifference(unsigned i) const { return dm.at(one(i)); }
  std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex *)> GetTransformationMatrix(size_t d) const {
    if (d > SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const::GetTransformationMatrix: dimension too large");
    typedef std::complex<double> C;
    std::array<std::array<C, 8>, 8> u;
    for (auto &r : u) r.fill(0);
    for (size_t i = 0; i < d; i++) u[i][i] = 1;
    for (size_t j = 1; j < d; j++) for (size_t i = 0; i < j; i++) {
      double c = std::cos(th[i][j]), s = std::sin(th[i][j]); C p = std::polar(1.0, -de[i][j]);
      for (size_t k = 0; k < d; k++) { C a = u[i][k], b = u[j][k]; u[i][k] = c * a + s * p * b; u[j][k] = -s * std::conj(p) * a + c * b; }
    }
    std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex *)> m(gsl_matrix_complex_alloc(d, d), gsl_matrix_complex_free);
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) { gsl_complex z; GSL_SET_COMPLEX(&z, u[i][j].real(), u[i][j].imag()); gsl_matrix_complex_set(m.get(), i, j, z); }
    return m;
  }
  Const() { for (auto &r : th) r.fill(0); for (auto &r : de) r.fill(0); dm.fill(0); }
private:
  unsigned chk(unsigned i, unsigned j) const { if (j <= i) throw std::runtime_error("Const: first state index must be smaller"); if (j >= SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const: state index too large"); return i; }
  unsigned one(unsigned i) const { if (!i) throw std::runtime_error("Const: energy differences are relative to state 0"); if (i >= SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const: state index too large"); return i; }
  std::array<std::array<double, 8>, 8> th, de; std::array<double, 8> dm;
};
}
#endif
