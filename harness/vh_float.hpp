// Single-precision counterparts of the convenience types.
#pragma once
namespace wave {
using RotationMf = MatrixRotation<Eigen::Matrix3f>;
using RotationQf = QuaternionRotation<Eigen::Quaternionf>;
using RotationAf = AngleAxisRotation<Eigen::AngleAxisf>;
using RigidTransformMf = MatrixRigidTransform<Eigen::Matrix4f>;
using RigidTransformQf = CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>;
using RelativeRotationf = RelativeRotation<Eigen::Vector3f>;
using Translationf = Translation<Eigen::Vector3f>;
using Pointf = Point<Eigen::Vector3f>;
using Twistf = Twist<Eigen::Matrix<float, 6, 1>>;
}  // namespace wave
