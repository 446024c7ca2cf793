// Stand-in for the RBDL library: kinematic trees of rigid bodies with the data layout and conventions of RBDL (spatial vectors are
// [angular; linear], a transform (E, r) has the rotation base -> body and the position of the body in the base frame). Only what the bridge uses.
#pragma once
#include <cassert>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
namespace RigidBodyDynamics
{
    namespace Math
    {
        typedef Eigen::Vector3d Vector3d; typedef Eigen::Matrix3d Matrix3d; typedef Eigen::VectorXd VectorNd; typedef Eigen::MatrixXd MatrixNd;
        typedef Eigen::Matrix<double, 6, 1> SpatialVector; typedef Eigen::Matrix<double, 6, 6> SpatialMatrix; typedef Eigen::Matrix<double, 6, 3> Matrix63;
        inline Matrix3d cross(const Vector3d &v) { Matrix3d m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
        struct SpatialTransform
        {
            Matrix3d E; Vector3d r;
            SpatialTransform() : E(Matrix3d::Identity()), r(Vector3d::Zero()) {}
            SpatialTransform(const Matrix3d &e, const Vector3d &p) : E(e), r(p) {}
            SpatialVector apply(const SpatialVector &v) const { Vector3d w = v.head<3>(), l = v.tail<3>(); SpatialVector o; o.head<3>() = E * w; o.tail<3>() = E * (l - r.cross(w)); return o; }
            SpatialTransform inverse() const { return SpatialTransform(E.transpose(), -E * r); }
            SpatialMatrix toMatrix() const { SpatialMatrix m; m.setZero(); m.topLeftCorner<3, 3>() = E; m.bottomRightCorner<3, 3>() = E; m.bottomLeftCorner<3, 3>() = -E * cross(r); return m; }
            SpatialTransform operator*(const SpatialTransform &o) const { return SpatialTransform(E * o.E, o.r + o.E.transpose() * r); }
        };
    }
    enum JointType { JointTypeUndefined = 0, JointTypeRevolute, JointTypePrismatic, JointTypeEulerXYZ, JointTypeTranslationXYZ, JointTypeCustom };
    struct Joint { JointType mJointType; unsigned int mDoFCount, q_index, custom_joint_index; Math::Vector3d axis; Joint() : mJointType(JointTypeUndefined), mDoFCount(0), q_index(0), custom_joint_index(std::numeric_limits<unsigned int>::max()), axis(Math::Vector3d::Zero()) {} };
    struct Body
    {
        double mMass; Math::Vector3d mCenterOfMass;
        Body() : mMass(0), mCenterOfMass(Math::Vector3d::Zero()) {}
        void Join(const Math::SpatialTransform &x, const Body &o) { if (o.mMass == 0) return; Math::Vector3d c = x.E.transpose() * o.mCenterOfMass + x.r; double m = mMass + o.mMass; mCenterOfMass = (mMass * mCenterOfMass + o.mMass * c) / m; mMass = m; }
    };
    struct FixedBody { double mMass; Math::Vector3d mCenterOfMass; unsigned int mMovableParent; Math::SpatialTransform mParentTransform, mBaseTransform; };
    struct CustomJoint { unsigned int mDoFCount; Math::MatrixNd S; };
    struct Model
    {
        std::vector<unsigned int> lambda; std::vector<Body> mBodies; std::vector<Joint> mJoints; std::vector<FixedBody> mFixedBodies; std::vector<CustomJoint *> mCustomJoints;
        std::vector<Math::SpatialTransform> X_T, X_lambda, X_base; std::vector<Math::SpatialVector> S; std::vector<Math::Matrix63> multdof3_S;
        unsigned int q_size, qdot_size, dof_count, fixed_body_discriminator; std::map<std::string, unsigned int> mBodyNameMap;
        Model() : q_size(0), qdot_size(0), dof_count(0), fixed_body_discriminator(std::numeric_limits<unsigned int>::max() / 2) { Joint j; grow(0, Body(), j, Math::SpatialTransform()); mBodyNameMap["ROOT"] = 0; }
        ~Model() { for (auto *c : mCustomJoints) delete c; }
        Model(const Model &o) { *this = o; }
        Model &operator=(const Model &o)
        {
            if (this == &o) return *this;
            for (auto *c : mCustomJoints) delete c;
            lambda = o.lambda; mBodies = o.mBodies; mJoints = o.mJoints; mFixedBodies = o.mFixedBodies; X_T = o.X_T; X_lambda = o.X_lambda; X_base = o.X_base; S = o.S; multdof3_S = o.multdof3_S;
            q_size = o.q_size; qdot_size = o.qdot_size; dof_count = o.dof_count; fixed_body_discriminator = o.fixed_body_discriminator; mBodyNameMap = o.mBodyNameMap;
            mCustomJoints.clear(); for (auto *c : o.mCustomJoints) mCustomJoints.push_back(new CustomJoint(*c));
            return *this;
        }
        unsigned int GetBodyId(const char *name) const { auto it = mBodyNameMap.find(name); return it == mBodyNameMap.end() ? std::numeric_limits<unsigned int>::max() : it->second; }
        bool IsFixedBodyId(unsigned int id) const { return id >= fixed_body_discriminator && id < std::numeric_limits<unsigned int>::max() && id - fixed_body_discriminator < mFixedBodies.size(); }
        void grow(unsigned int parent, const Body &b, const Joint &j, const Math::SpatialTransform &x)
        {
            lambda.push_back(parent); mBodies.push_back(b); mJoints.push_back(j); X_T.push_back(x); X_lambda.push_back(Math::SpatialTransform()); X_base.push_back(Math::SpatialTransform());
            S.push_back(Math::SpatialVector::Zero()); multdof3_S.push_back(Math::Matrix63::Zero());
        }
        void named(const std::string &name, unsigned int id) { if (name.empty()) return; if (mBodyNameMap.count(name)) throw std::runtime_error("RBDL stand-in: body '" + name + "' exists already"); mBodyNameMap[name] = id; }
        unsigned int AddBody(unsigned int parent, Math::SpatialTransform frame, Joint j, const Body &b, const std::string &name)
        {
            if (IsFixedBodyId(parent)) { FixedBody &f = mFixedBodies[parent - fixed_body_discriminator]; frame = frame * f.mParentTransform; parent = f.mMovableParent; }
            j.q_index = q_size; q_size += j.mDoFCount; qdot_size += j.mDoFCount; dof_count += j.mDoFCount;
            unsigned int id = mBodies.size(); grow(parent, b, j, frame); named(name, id); return id;
        }
        unsigned int AddFixed(unsigned int parent, Math::SpatialTransform frame, const Body &b, const std::string &name)
        {
            if (IsFixedBodyId(parent)) { FixedBody &f = mFixedBodies[parent - fixed_body_discriminator]; frame = frame * f.mParentTransform; parent = f.mMovableParent; }
            FixedBody f; f.mMass = b.mMass; f.mCenterOfMass = b.mCenterOfMass; f.mMovableParent = parent; f.mParentTransform = frame; mFixedBodies.push_back(f);
            if (parent != 0) mBodies[parent].Join(frame, b);
            unsigned int id = mFixedBodies.size() - 1 + fixed_body_discriminator; named(name, id); return id;
        }
    };
    inline Math::Matrix3d rotation(double a, const Math::Vector3d &axis) { return Eigen::AngleAxisd(a, axis).toRotationMatrix(); }
    inline void UpdateKinematicsCustom(Model &m, const Math::VectorNd *q, const Math::VectorNd *, const Math::VectorNd *)
    {
        if (!q) return;
        if (q->size() != (int)m.q_size) throw std::runtime_error("RBDL stand-in: wrong number of joint coordinates");
        using namespace Math;
        for (unsigned int i = 1; i < m.mBodies.size(); ++i)
        {
            const Joint &j = m.mJoints[i]; const double *v = q->data() + j.q_index; SpatialTransform x;
            auto euler = [&](const double *a, Matrix63 &s) {
                Matrix3d r1 = rotation(a[0], Vector3d::UnitX()), r2 = r1 * rotation(a[1], Vector3d::UnitY()), r3 = r2 * rotation(a[2], Vector3d::UnitZ());
                s.setZero(); s.col(0).head<3>() = r3.transpose() * Vector3d::UnitX(); s.col(1).head<3>() = r3.transpose() * (r1 * Vector3d::UnitY()); s.col(2).head<3>() = r3.transpose() * (r2 * Vector3d::UnitZ());
                return Matrix3d(r3.transpose());
            };
            switch (j.mJointType)
            {
                case JointTypeRevolute: x.E = rotation(v[0], j.axis).transpose(); m.S[i] << j.axis, Vector3d::Zero(); break;
                case JointTypePrismatic: x.r = v[0] * j.axis; m.S[i] << Vector3d::Zero(), j.axis; break;
                case JointTypeEulerXYZ: x.E = euler(v, m.multdof3_S[i]); break;
                case JointTypeTranslationXYZ: x.r << v[0], v[1], v[2]; m.multdof3_S[i].setZero(); m.multdof3_S[i].bottomRows<3>().setIdentity(); break;
                case JointTypeCustom:
                {
                    CustomJoint &c = *m.mCustomJoints[j.custom_joint_index]; c.S.setZero(6, c.mDoFCount);
                    if (c.mDoFCount == 3) { x.r << v[0], v[1], 0; x.E = rotation(v[2], Vector3d::UnitZ()).transpose(); c.S.block<3, 1>(3, 0) = x.E * Vector3d::UnitX(); c.S.block<3, 1>(3, 1) = x.E * Vector3d::UnitY(); c.S(2, 2) = 1; }
                    else { Matrix63 s; x.r << v[0], v[1], v[2]; x.E = euler(v + 3, s); c.S.block<3, 3>(3, 0) = x.E; c.S.rightCols<3>() = s; }
                    break;
                }
                default: break;
            }
            m.X_lambda[i] = x * m.X_T[i];
            m.X_base[i] = m.X_lambda[i] * m.X_base[m.lambda[i]];
        }
    }
}
