// Stand-in for sphericart in this demonstration: polynomials of the right number, with their exact gradients.
#pragma once
#include <vector>
#include <cstddef>
namespace sphericart {
template <typename T> class SphericalHarmonics {
  size_t L;
public:
  SphericalHarmonics(size_t l_max) : L(l_max) {}
  void compute_array_with_gradients(const T* xyz, size_t n3, T* s, size_t, T* d, size_t) {
    const size_t n = n3/3, q = (L+1)*(L+1);
    for (size_t i=0; i<n; ++i) {
      const T v[3] = {xyz[3*i], xyz[3*i+1], xyz[3*i+2]};
      for (size_t lm=0; lm<q; ++lm) {
        int l=0; while ((size_t)((l+1)*(l+1)) <= lm) ++l;
        const int m = (int)lm - l*l, a = m%3, b = (m/2+1)%3;
        T val = T(0.3)+T(0.1)*m, g[3] = {0,0,0};
        for (int t=0; t<l; ++t) {
          const int c = t%2 ? b : a;
          for (int k=0; k<3; ++k) g[k] *= T(0.4)*v[c];
          g[c] += T(0.4)*val; val *= T(0.4)*v[c];
        }
        s[i*q+lm] = val;
        for (int k=0; k<3; ++k) d[(3*i+k)*q+lm] = g[k];
      }
    }
  }
  void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& s, std::vector<T>& d) {
    compute_array_with_gradients(xyz.data(), xyz.size(), s.data(), s.size(), d.data(), d.size());
  }
};
}
