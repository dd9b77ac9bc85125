// Replaces the random number source by the numbers the harness is given: each draw takes the next one.
// Included before everything else.
#pragma once
#include <cmath>
#include <cstdlib>
#include <limits>
#include <random>
namespace vx {
inline const double *draws = nullptr;
inline int taken = 0;
inline void feed(const double *p) {
    draws = p;
    taken = 0;
}
inline double draw() { return draws[taken++]; }
}  // namespace vx
namespace std {
struct vh_random_device {
    using result_type = unsigned;
    result_type operator()() { return 1; }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0u; }
};
#define VX_ENGINE(T) \
    template <> inline void T::seed(T::result_type) {}
VX_ENGINE(mt19937)
VX_ENGINE(mt19937_64)
// [a, b): any value from a to the largest one below b
#define VX_UNI(R, G) \
    template <> template <> inline R uniform_real_distribution<R>::operator()<G>(G &) { \
        return R(a() + vx::draw() * (std::nextafter(b(), a()) - a())); \
    }
VX_UNI(double, mt19937)
VX_UNI(double, mt19937_64)
VX_UNI(float, mt19937)
VX_UNI(float, mt19937_64)
}  // namespace std
#define random_device vh_random_device
#include <Eigen/Core>
namespace Eigen {
namespace internal {
// rand() / RAND_MAX: any value of [0, 1]
template <> inline double random_default_impl<double, false, false>::run(const double &x, const double &y) {
    return x + (y - x) * vx::draw();
}
template <> inline float random_default_impl<float, false, false>::run(const float &x, const float &y) {
    return float(x + (y - x) * vx::draw());
}
template <> inline double random_default_impl<double, false, false>::run() { return run(-1., 1.); }
template <> inline float random_default_impl<float, false, false>::run() { return run(-1.f, 1.f); }
}  // namespace internal
}  // namespace Eigen
