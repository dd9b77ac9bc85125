// Loading and storing of wave_geometry values for the verification harnesses.
#pragma once
#include <wave/geometry/core.hpp>
#include <wave/geometry/geometry.hpp>
#include <wave/geometry/dynamic.hpp>
#include <wave/geometry/estimation.hpp>

struct FrameA;
struct FrameB;
struct FrameC;
struct FrameD;

namespace vh {
using namespace wave;
template <typename S> using V3 = Eigen::Matrix<S, 3, 1>;
template <typename S> using M3 = Eigen::Matrix<S, 3, 3>;
template <typename S> using M4 = Eigen::Matrix<S, 4, 4>;
template <typename S> using V6 = Eigen::Matrix<S, 6, 1>;

template <typename S, int R, int C>
Eigen::Matrix<S, R, C> ldm(const double *in) {
    Eigen::Matrix<S, R, C> m;
    for (int j = 0; j < C; ++j)
        for (int i = 0; i < R; ++i) m(i, j) = static_cast<S>(*in++);
    return m;
}

template <typename T> struct L;
template <typename S> struct L<MatrixRotation<Eigen::Matrix<S, 3, 3>>> {
    static auto ld(const double *in) { return MatrixRotation<Eigen::Matrix<S, 3, 3>>{ldm<S, 3, 3>(in)}; }
};
template <typename S> struct L<QuaternionRotation<Eigen::Quaternion<S>>> {
    static auto ld(const double *in) {
        Eigen::Quaternion<S> q(static_cast<S>(in[3]), static_cast<S>(in[0]), static_cast<S>(in[1]), static_cast<S>(in[2]));
        return QuaternionRotation<Eigen::Quaternion<S>>{q};
    }
};
template <typename S> struct L<AngleAxisRotation<Eigen::AngleAxis<S>>> {
    static auto ld(const double *in) {
        Eigen::AngleAxis<S> a(static_cast<S>(in[0]), ldm<S, 3, 1>(in + 1));
        return AngleAxisRotation<Eigen::AngleAxis<S>>{a};
    }
};
template <typename S> struct L<MatrixRigidTransform<Eigen::Matrix<S, 4, 4>>> {
    static auto ld(const double *in) {
        Eigen::Matrix<S, 4, 4> m;
        m.template topLeftCorner<3, 3>() = ldm<S, 3, 3>(in);
        m.template topRightCorner<3, 1>() = ldm<S, 3, 1>(in + 9);
        m(3, 0) = m(3, 1) = m(3, 2) = S(0);
        m(3, 3) = S(1);
        return MatrixRigidTransform<Eigen::Matrix<S, 4, 4>>{m};
    }
};
template <typename S> struct L<CompactRigidTransform<Eigen::Quaternion<S>, Eigen::Matrix<S, 3, 1>>> {
    static auto ld(const double *in) {
        using T = CompactRigidTransform<Eigen::Quaternion<S>, Eigen::Matrix<S, 3, 1>>;
        T t{};
        t.rotationBlock().value() = Eigen::Quaternion<S>(
          static_cast<S>(in[3]), static_cast<S>(in[0]), static_cast<S>(in[1]), static_cast<S>(in[2]));
        t.translationBlock().value() = ldm<S, 3, 1>(in + 4);
        return t;
    }
};
template <typename S> struct L<Translation<Eigen::Matrix<S, 3, 1>>> {
    static auto ld(const double *in) { return Translation<Eigen::Matrix<S, 3, 1>>{ldm<S, 3, 1>(in)}; }
};
template <typename S> struct L<RelativeRotation<Eigen::Matrix<S, 3, 1>>> {
    static auto ld(const double *in) { return RelativeRotation<Eigen::Matrix<S, 3, 1>>{ldm<S, 3, 1>(in)}; }
};
template <typename S> struct L<Point<Eigen::Matrix<S, 3, 1>>> {
    static auto ld(const double *in) { return Point<Eigen::Matrix<S, 3, 1>>{ldm<S, 3, 1>(in)}; }
};
template <typename S> struct L<Twist<Eigen::Matrix<S, 6, 1>>> {
    static auto ld(const double *in) { return Twist<Eigen::Matrix<S, 6, 1>>{ldm<S, 6, 1>(in)}; }
};
template <typename S> struct L<Scalar<S>> {
    static auto ld(const double *in) { return Scalar<S>{static_cast<S>(in[0])}; }
};
template <> struct L<double> {
    static double ld(const double *in) { return in[0]; }
};
template <> struct L<float> {
    static float ld(const double *in) { return static_cast<float>(in[0]); }
};
template <typename T, typename... F> struct L<Framed<T, F...>> {
    static auto ld(const double *in) { return Framed<T, F...>{frame_cast<F...>(L<T>::ld(in))}; }
};
template <typename T> auto ld(const double *in) { return L<T>::ld(in); }

// ---- storing
struct O {
    double *p;
};
template <typename D> void stm(O &o, const Eigen::MatrixBase<D> &m) {
    for (int j = 0; j < m.cols(); ++j)
        for (int i = 0; i < m.rows(); ++i) *o.p++ = static_cast<double>(m.derived().coeff(i, j));
}
template <typename D> void st(O &o, const Eigen::EigenBase<D> &m) {
    const typename D::PlainObject x = m.derived();
    stm(o, x);
}
template <typename D> void st(O &o, const Eigen::MatrixBase<D> &m) {
    const typename D::PlainObject x = m.derived();
    stm(o, x);
}
template <typename D> void st(O &o, const Eigen::QuaternionBase<D> &q) { stm(o, q.coeffs()); }
template <typename S> void st(O &o, const Eigen::AngleAxis<S> &a) {
    *o.p++ = static_cast<double>(a.angle());
    stm(o, a.axis());
}
inline void st(O &o, double x) { *o.p++ = x; }
inline void st(O &o, float x) { *o.p++ = static_cast<double>(x); }
inline void st(O &o, bool x) { *o.p++ = x ? 1.0 : 0.0; }
inline void st(O &o, int x) { *o.p++ = x; }
inline void st(O &o, long x) { *o.p++ = static_cast<double>(x); }
inline void st(O &o, unsigned long x) { *o.p++ = static_cast<double>(x); }
template <typename I> void st(O &o, const MatrixRotation<I> &x) { st(o, x.value()); }
template <typename I> void st(O &o, const QuaternionRotation<I> &x) { st(o, x.value()); }
template <typename I> void st(O &o, const AngleAxisRotation<I> &x) { st(o, x.value()); }
template <typename I> void st(O &o, const MatrixRigidTransform<I> &x) { st(o, x.value()); }
template <typename Q, typename V> void st(O &o, const CompactRigidTransform<Q, V> &x) {
    st(o, x.rotationBlock().value());
    st(o, x.translationBlock().value());
}
template <typename I> void st(O &o, const Translation<I> &x) { st(o, x.value()); }
template <typename I> void st(O &o, const RelativeRotation<I> &x) { st(o, x.value()); }
template <typename I> void st(O &o, const Point<I> &x) { st(o, x.value()); }
template <typename I> void st(O &o, const Twist<I> &x) { st(o, x.value()); }
template <typename S> void st(O &o, const Scalar<S> &x) { st(o, x.value()); }
template <typename T, typename... F> void st(O &o, const Framed<T, F...> &x) { st(o, x.value()); }
// A rotation of any representation: tag (0 matrix, 1 quaternion, 2 angle-axis) and nine numbers.
inline void pad(O &o, int n) {
    while (n-- > 0) *o.p++ = 0.0;
}
template <typename I> void stR(O &o, const MatrixRotation<I> &x) {
    st(o, 0);
    st(o, x);
}
template <typename I> void stR(O &o, const QuaternionRotation<I> &x) {
    st(o, 1);
    st(o, x);
    pad(o, 5);
}
template <typename I> void stR(O &o, const AngleAxisRotation<I> &x) {
    st(o, 2);
    st(o, x);
    pad(o, 5);
}
template <typename T, typename... F> void stR(O &o, const Framed<T, F...> &x) { stR(o, T{x.value()}); }
// A rigid transform of any representation: tag (0 matrix, 1 compact) and sixteen numbers.
template <typename I> void stT(O &o, const MatrixRigidTransform<I> &x) {
    st(o, 0);
    st(o, x);
}
template <typename Q, typename V> void stT(O &o, const CompactRigidTransform<Q, V> &x) {
    st(o, 1);
    st(o, x);
    pad(o, 9);
}
template <typename T, typename... F> void stT(O &o, const Framed<T, F...> &x) { stT(o, T{x.value()}); }
template <typename Q, typename V, typename... F> void stT(O &o, const Framed<CompactRigidTransform<Q, V>, F...> &x) {
    st(o, 1);
    st(o, std::get<0>(x.value()).value());
    st(o, std::get<1>(x.value()).value());
    pad(o, 9);
}
// Any value
template <typename D> void sv(O &o, const RotationBase<D> &x) { stR(o, x.derived()); }
template <typename D> void sv(O &o, const RigidTransformBase<D> &x) { stT(o, x.derived()); }
template <typename D> void sv(O &o, const VectorBase<D> &x) { st(o, x.derived()); }
template <typename D> void sv(O &o, const PointBase<D> &x) { st(o, x.derived()); }
template <typename D> void sv(O &o, const ScalarBase<D> &x) { st(o, x.derived()); }
inline void sv(O &o, double x) { st(o, x); }
template <typename T> T cp(const T &x) { return x; }
}  // namespace vh
using namespace wave;
