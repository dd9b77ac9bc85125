// Compound types used by the harnesses.
#pragma once
namespace vx {
template <typename A = wave::Scalar<double>, typename B = wave::Scalar<double>>
struct RB : wave::CompoundVectorBase<RB<A, B>>, wave::NaryStorage<RB<A, B>, A, B> {
    using Storage = wave::NaryStorage<RB<A, B>, A, B>;
    using Storage::Storage;
    using Storage::operator=;
};
template <typename R = wave::RelativeRotationd, typename P = wave::Translationd, typename S = wave::Scalar<double>>
struct PV : wave::CompoundVectorBase<PV<R, P, S>>, wave::NaryStorage<PV<R, P, S>, R, P, S> {
    using Storage = wave::NaryStorage<PV<R, P, S>, R, P, S>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace vx
namespace wave {
namespace internal {
template <typename A, typename B>
struct traits<vx::RB<A, B>> : compound_vector_traits_base<vx::RB<A, B>, A, B>, frameable_vector_traits {};
template <typename R, typename P, typename S>
struct traits<vx::PV<R, P, S>> : compound_vector_traits_base<vx::PV<R, P, S>, R, P, S>, frameable_vector_traits {};
}  // namespace internal
}  // namespace wave
namespace vh {
template <typename A, typename B> void sv(O &o, const vx::RB<A, B> &x) {
    sv(o, x.template get<0>());
    sv(o, x.template get<1>());
}
template <typename R, typename P, typename S> void sv(O &o, const vx::PV<R, P, S> &x) {
    sv(o, x.template get<0>());
    sv(o, x.template get<1>());
    sv(o, x.template get<2>());
}
}  // namespace vh
// A compound with a rotation, and its tangent
namespace vx {
template <typename R = wave::RelativeRotationd, typename P = wave::Translationd>
struct RP : wave::CompoundVectorBase<RP<R, P>>, wave::NaryStorage<RP<R, P>, R, P> {
    using Storage = wave::NaryStorage<RP<R, P>, R, P>;
    using Storage::Storage;
    using Storage::operator=;
};
template <typename R = wave::RotationMd, typename P = wave::Translationd>
struct Pose : wave::CompoundBase<Pose<R, P>>, wave::NaryStorage<Pose<R, P>, R, P> {
    using Storage = wave::NaryStorage<Pose<R, P>, R, P>;
    using Storage::Storage;
    using Storage::operator=;
};
// Pose, velocity and bias
template <typename T = wave::Twistd, typename V = wave::Translationd, typename B = wave::Scalar<double>>
struct StateT : wave::CompoundVectorBase<StateT<T, V, B>>, wave::NaryStorage<StateT<T, V, B>, T, V, B> {
    using Storage = wave::NaryStorage<StateT<T, V, B>, T, V, B>;
    using Storage::Storage;
    using Storage::operator=;
};
template <typename T = wave::RigidTransformMd, typename V = wave::Translationd, typename B = wave::Scalar<double>>
struct State : wave::CompoundBase<State<T, V, B>>, wave::NaryStorage<State<T, V, B>, T, V, B> {
    using Storage = wave::NaryStorage<State<T, V, B>, T, V, B>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace vx
namespace wave {
namespace internal {
template <typename A, typename B>
struct traits<vx::RP<A, B>> : compound_vector_traits_base<vx::RP<A, B>, A, B>, frameable_vector_traits {};
template <typename R, typename P>
struct traits<vx::Pose<R, P>> : compound_traits_base<vx::Pose<R, P>, R, P> {
    using TangentType = vx::RP<typename eval_traits<R>::TangentType, typename eval_traits<P>::TangentType>;
};
template <typename A, typename B, typename C>
struct traits<vx::StateT<A, B, C>> : compound_vector_traits_base<vx::StateT<A, B, C>, A, B, C>, frameable_vector_traits {};
template <typename A, typename B, typename C>
struct traits<vx::State<A, B, C>> : compound_traits_base<vx::State<A, B, C>, A, B, C> {
    using TangentType = vx::StateT<typename eval_traits<A>::TangentType, typename eval_traits<B>::TangentType, typename eval_traits<C>::TangentType>;
};
}  // namespace internal
}  // namespace wave
namespace vh {
template <typename A, typename B> void sv(O &o, const vx::RP<A, B> &x) {
    sv(o, x.template get<0>());
    sv(o, x.template get<1>());
}
template <typename A, typename B> void sv(O &o, const vx::Pose<A, B> &x) {
    sv(o, x.template get<0>());
    sv(o, x.template get<1>());
}
template <typename A, typename B, typename C> void sv(O &o, const vx::StateT<A, B, C> &x) {
    sv(o, x.template get<0>());
    sv(o, x.template get<1>());
    sv(o, x.template get<2>());
}
template <typename A, typename B, typename C> void sv(O &o, const vx::State<A, B, C> &x) {
    sv(o, x.template get<0>());
    sv(o, x.template get<1>());
    sv(o, x.template get<2>());
}
}  // namespace vh
