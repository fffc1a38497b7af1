#pragma once
#include <vector>
#include <cstddef>
namespace sphericart {
template <typename T> class SphericalHarmonics {
public:
  SphericalHarmonics(size_t l_max);
  void compute(const std::vector<T>& xyz, std::vector<T>& sph);
  void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph);
  void compute_array(const T*, size_t, T*, size_t);
  void compute_array_with_gradients(const T*, size_t, T*, size_t, T*, size_t);
};
}
