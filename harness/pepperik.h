// Shared by C23 and C24: one of the three descriptions of the robot (chosen by FEATURES: 8 torso, 16 tibia, 32 planar), states and references.
#pragma once
#include "vh.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/pepper_ik.h"
#include "mp.h"
#include "robot.h"
using namespace robot; namespace ik = humoto::pepper_ik;
static const int F = ik::ModelFeatures::FIXED_WHEELS | FEATURES; static const bool PLANAR_ROOT = FEATURES == 32; static const int ROOT = PLANAR_ROOT ? 3 : 6, N = ROOT + 15;
typedef ik::ModelDescription<F> Desc; typedef ik::GeneralizedCoordinates<F> State; typedef ik::Model<F> Model; typedef ik::WholeBodyController<F> Wbc;
static std::string urdfFile(int features = FEATURES) { return std::string(VH_REPO) + "/modules/pepper_ik/config/" + (features == 8 ? "pepper_fixedwheels.urdf" : features == 16 ? "pepper_fixedwheels_roottibia.urdf" : "pepper_fixedwheels_roottibia_planar.urdf"); }
static const Robot &bot() { static const Robot r = read(urdfFile()); return r; }
static std::vector<std::string> jointNames() { return {"HeadYaw", "HeadPitch", "HipRoll", "HipPitch", "KneePitch", "LShoulderPitch", "LShoulderRoll", "LElbowYaw", "LElbowRoll", "LWristYaw", "RShoulderPitch", "RShoulderRoll", "RElbowYaw", "RElbowRoll", "RWristYaw"}; }
static std::vector<std::string> armNames() { std::vector<std::string> a; for (auto &n : jointNames()) if (n[0] == 'L' || n[0] == 'R') a.push_back(n); return a; }
// joints in the order of the coordinates of the robot
static int indexOf(const std::string &name) { return bot().links[bot().joint(name)].q - ROOT; }
static const Link &linkOf(int joint) { for (auto &l : bot().links) if (l.kind == REVOLUTE && l.q == ROOT + joint) return l; static Link none; return none; }
static std::vector<int> baseIds() { return {bot().find("Tibia")}; }
static std::vector<int> bodyIds() { std::vector<int> o; for (int i : bot().movables()) if (bot().links[i].name != "Tibia") o.push_back(i); return o; }
static Matrix3d rpyMatrix(const Vector3d &a) { return frame(a, Vector3d(0, 0, 0)).linear(); }
// sine of the angle of the error times its axis
static Vector3d errorOf(const Matrix3d &cur, const Matrix3d &ref) { Matrix3d e = ref * cur.transpose(); return 0.5 * Vector3d(e(2, 1) - e(1, 2), e(0, 2) - e(2, 0), e(1, 0) - e(0, 1)); }

struct Root { Vector3d position, rpy; };
static Root randomRoot(vh::Rng &r)
{
    Root o; o.position = r.chance(0.1) ? Vector3d(0, 0, 0) : Vector3d(r.gvec(3)) * r.pick({1., 1., 20.}); o.rpy = Vector3d(r.real(-1.4, 1.4), r.real(-1.4, 1.4), r.real(-3.1, 3.1)); if (r.chance(0.15)) o.rpy.setZero();
    if (PLANAR_ROOT) { o.position[2] = 0; o.rpy[0] = o.rpy[1] = 0; } return o;
}
static VectorXd randomJoints(vh::Rng &r) { VectorXd q(15); for (int i = 0; i < 15; ++i) { const Link &l = linkOf(i); q[i] = r.chance(0.05) ? l.lower : r.chance(0.05) ? l.upper : r.real(l.lower, l.upper); } return q; }
static State randomState(vh::Case &c, const Root &root, const VectorXd &joints)
{
    State s; s.setRootPosition(root.position); s.setRootOrientation(root.rpy); s.joint_angles_ = joints; return s;
}
static VectorXd coords(const State &s) { VectorXd q(N); q << s.root_pose_, s.joint_angles_; return q; }
static ik::MotionParameters randomMotion(vh::Rng &r) { ik::MotionParameters m; m.base_com_position_ = r.gvec(3); m.body_com_position_ = r.gvec(3); m.base_orientation_rpy_ = Vector3d(r.real(-1.4, 1.4), r.real(-1.4, 1.4), r.real(-3, 3)); return m; }
