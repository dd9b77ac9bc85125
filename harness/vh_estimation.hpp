// Measurement functions, noise helpers and a stand-in for the iterative eigenvalue solver.
#pragma once
#include "vh_compound.hpp"
namespace vx {
// Eigenvectors of the covariance under test: the solver's result is given by its contract.  The
// stand-in diagonalises whatever it is given with these vectors; `off` receives what would have to
// vanish for that to be a diagonalisation.
inline const Eigen::Matrix3d *eigvec = nullptr;
inline double *off = nullptr;
template <typename Mat> struct Eig {
    Mat V, M;
    Eigen::Vector3d l;
    Eig() = default;
    template <typename D> explicit Eig(const Eigen::EigenBase<D> &m, int = 0) { compute(m); }
    template <typename D> Eig &compute(const Eigen::EigenBase<D> &m, int = 0) {
        M = m.derived();
        V = *eigvec;
        const Eigen::Matrix3d B = V.transpose() * M * V;
        l = B.diagonal();
        if (off) {
            off[0] = B(0, 1); off[1] = B(0, 2); off[2] = B(1, 0);
            off[3] = B(1, 2); off[4] = B(2, 0); off[5] = B(2, 1);
        }
        return *this;
    }
    template <typename F> Mat with(F f) const {
        Eigen::Vector3d g{f(l[0]), f(l[1]), f(l[2])};
        Mat r;
        r = V * g.asDiagonal() * V.transpose();
        return r;
    }
    Mat operatorInverseSqrt() const { return with([](double x) { return 1 / std::sqrt(x); }); }
    Mat operatorSqrt() const { return with([](double x) { return std::sqrt(x); }); }
    const Eigen::Vector3d &eigenvalues() const { return l; }
    const Mat &eigenvectors() const { return V; }
    Eigen::ComputationInfo info() const { return Eigen::Success; }
};
}  // namespace vx
namespace Eigen {
#define VX_EIG2(...) \
    template <> class SelfAdjointEigenSolver<__VA_ARGS__> : public vx::Eig<__VA_ARGS__> { \
     public: \
        using vx::Eig<__VA_ARGS__>::Eig; \
    };
VX_EIG2(wave::BlockMatrix<wave::Translationd, wave::Translationd>)
VX_EIG2(wave::BlockMatrix<wave::RotationMd, wave::RotationMd>)
VX_EIG2(wave::BlockMatrix<wave::RelativeRotationd, wave::RelativeRotationd>)
VX_EIG2(Eigen::Matrix3d)
}  // namespace Eigen
namespace vx {
// V diag(s^2) V'
inline Eigen::Matrix3d covOf(const Eigen::Matrix3d &V, const Eigen::Vector3d &s) {
    Eigen::Matrix3d r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double x = 0;
            for (int k = 0; k < 3; ++k) x += V(i, k) * s[k] * s[k] * V(j, k);
            r(i, j) = x;
        }
    return r;
}
template <typename T> struct Var { using type = wave::FactorVariable<T>; };
template <typename T> auto var() { return std::make_shared<wave::FactorVariable<T>>(); }
struct Distance {
    template <typename A, typename B> auto operator()(const A &a, const B &b) const { return (a - b).norm(); }
};
struct Difference {
    template <typename A, typename B> auto operator()(const A &a, const B &b) const { return a - b; }
};
struct Rotated {
    template <typename R, typename A, typename B> auto operator()(const R &r, const A &a, const B &b) const { return r * a - b; }
};
struct Landmark {
    template <typename T, typename A> auto operator()(const T &t, const A &a) const { return inverse(t) * a; }
};
struct Between {
    template <typename A, typename B> auto operator()(const A &a, const B &b) const { return log(inverse(a) * b); }
};
struct Prior {
    template <typename A> auto operator()(const A &a) const { return log(a); }
};
struct Skip {
    template <typename A, typename B, typename C> auto operator()(const A &a, const B &, const C &c) const { return a + c; }
};
struct Twice {
    template <typename A> auto operator()(const A &a) const { return a + a; }
};
struct RangeBearing {
    template <typename A, typename B> auto operator()(const A &t, const B &p) const {
        auto &&z = wave::Translationd{0., 0., 1.};
        auto &&range = (t.translation() - p).norm();
        auto &&bearing = dot(std::move(z), inverse(t) * p);
        return wave::internal::makeCompound<RB>(std::move(range), std::move(bearing));
    }
};
struct Mixed {
    template <typename R, typename A, typename B> auto operator()(const R &r, const A &a, const B &b) const {
        return wave::internal::makeCompound<PV>(log(r), r * a - b, b.norm());
    }
};
}  // namespace vx
