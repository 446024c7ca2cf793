/**
 * Rotations and rigid body quantities against elementary rotations written out here.
 */
#include "vh.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
using namespace humoto::rigidbody;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
static M3 rx(double a) { M3 m; m << 1, 0, 0, 0, std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a); return m; }
static M3 ry(double a) { M3 m; m << std::cos(a), 0, std::sin(a), 0, 1, 0, -std::sin(a), 0, std::cos(a); return m; }
static M3 rz(double a) { M3 m; m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1; return m; }
static M3 skew(const V3 &v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
// rotation by |w| about w
static M3 expm(const V3 &w)
{
    double t = w.norm(); if (t < 1e-9) return M3::Identity() + skew(w);
    V3 a = w / t; return M3(std::cos(t) * M3::Identity() + std::sin(t) * skew(a) + (1 - std::cos(t)) * a * a.transpose());
}
static const double PI = 3.14159265358979323846;
static double angle(vh::Rng &r)
{
    switch (r.i(0, 7))
    {
        case 0: return 0; case 1: return PI / 2 * r.i(-4, 4); case 2: return PI / 2 * r.i(-2, 2) + r.normal() * std::pow(10., r.i(-14, -3)); case 3: return r.normal() * std::pow(10., r.i(-14, -2)); case 4: return r.real(-20, 20);
        default: return r.real(-PI, PI);
    }
}
static V3 angles(vh::Rng &r) { return V3(angle(r), angle(r), angle(r)); }
static M3 rotation(vh::Rng &r)
{
    if (r.chance(0.4)) { V3 a = angles(r); return M3(rz(a(2)) * ry(a(1)) * rx(a(0))); }
    V3 w = r.gvec(3); return expm(w.normalized() * angle(r));
}
static void isRotation(vh::Case &c, const M3 &m, const std::string &key) { c.nearM(M3(m * m.transpose()), M3::Identity(), 1e-13, key); c.near(m.determinant(), 1, 1e-13, key); }

VH_FAMILY(euler, 6000, 100000)
{
    auto &r = c.rng; V3 a = angles(r); M3 rpy = rz(a(2)) * ry(a(1)) * rx(a(0)), xyz = rx(a(0)) * ry(a(1)) * rz(a(2)); c.desc << vh::show(a.transpose());
    M3 m1 = convertEulerAnglesToMatrix(a, EulerAngles::RPY), m2 = convertEulerAnglesToMatrix(a, EulerAngles::XYZ); c.nearM(m1, rpy, 1e-13, "euler/rpy"); c.nearM(m2, xyz, 1e-13, "euler/xyz"); isRotation(c, m1, "euler/orthonormal"); isRotation(c, m2, "euler/orthonormal");
    c.nearM(convertEulerAnglesToMatrix(a, EulerAngles::ZYX), rpy, 1e-13, "euler/alias"); c.nearM(convertEulerAnglesToMatrix(a, EulerAngles::YPR), xyz, 1e-13, "euler/alias");
    RotaryState s; s.set(a); c.nearM(s.getOrientationMatrix(), rpy, 1e-13, "euler/state");
    M3 R = rotation(r);
    for (auto t : {EulerAngles::RPY, EulerAngles::XYZ})
    {
        V3 e = convertMatrixToEulerAngles(R, t); M3 back = t == EulerAngles::RPY ? M3(rz(e(2)) * ry(e(1)) * rx(e(0))) : M3(rx(e(0)) * ry(e(1)) * rz(e(2))); c.nearM(back, R, 1e-7, "euler/extract"); c.nearM(convertEulerAnglesToMatrix(e, t), R, 1e-7, "euler/roundtrip");
        double cp = std::fabs(std::cos(e(1))); if (cp > 1e-3) c.nearM(back, R, 1e-11, "euler/extract_regular"); else c.count("singular_orientations");
        for (auto q : {EulerAngles::RPY, EulerAngles::XYZ}) { V3 f = convertEulerAngles(a, t, q); M3 g = q == EulerAngles::RPY ? M3(rz(f(2)) * ry(f(1)) * rx(f(0))) : M3(rx(f(0)) * ry(f(1)) * rz(f(2))); c.nearM(g, t == EulerAngles::RPY ? rpy : xyz, 1e-7, "euler/convert"); }
    }
    // angles within the principal range are recovered
    { V3 p(r.real(0.001, PI - 0.001), r.real(-PI / 2 + 0.01, PI / 2 - 0.01), r.real(0.001, PI - 0.001)); V3 e = convertMatrixToEulerAngles(rz(p(2)) * ry(p(1)) * rx(p(0)), EulerAngles::RPY), f = convertMatrixToEulerAngles(rx(p(0)) * ry(p(1)) * rz(p(2)), EulerAngles::XYZ); c.nearM(e, p, 1e-9, "euler/recover_rpy"); c.nearM(f, p, 1e-9, "euler/recover_xyz"); c.count("recovered"); }
    c.mustReject([&] { convertEulerAnglesToMatrix(a, EulerAngles::UNDEFINED); }, "euler/undefined"); c.mustReject([&] { convertMatrixToEulerAngles(R, EulerAngles::UNDEFINED); }, "euler/undefined"); c.mustReject([&] { getEulerRatesToAngularVelocityTransform(a, EulerAngles::UNDEFINED); }, "euler/undefined");
    c.count("conversions"); c.signature(c.desc.str() + vh::hashM(R));
}
VH_FAMILY(rates, 6000, 100000)
{
    auto &r = c.rng; V3 a = angles(r), d = r.vec(3); c.desc << vh::show(a.transpose()) << vh::show(d.transpose());
    // derivative of Rz Ry Rx by the product rule, R' R^T is the cross product matrix of the angular velocity
    M3 X = rx(a(0)), Y = ry(a(1)), Z = rz(a(2)), Dx = skew(V3::UnitX()) * X, Dy = skew(V3::UnitY()) * Y, Dz = skew(V3::UnitZ()) * Z; M3 dR = d(2) * Dz * Y * X + d(1) * Z * Dy * X + d(0) * Z * Y * Dx, W = dR * (Z * Y * X).transpose();
    V3 w = getEulerRatesToAngularVelocityTransform(a, EulerAngles::RPY) * d; c.nearM(skew(w), W, 1e-12, "rates/velocity"); c.count("rates"); c.signature(c.desc.str());
    // finite rotation over a short time approaches it
    double h = 1e-6; M3 R1 = convertEulerAnglesToMatrix(a + h * d, EulerAngles::RPY), R0 = convertEulerAnglesToMatrix(a - h * d, EulerAngles::RPY); M3 N = (R1 - R0) / (2 * h) * (Z * Y * X).transpose(); c.nearM(N, skew(w), 1e-5 * (1 + d.squaredNorm()), "rates/finite_difference");
}
VH_FAMILY(errors, 6000, 100000)
{
    auto &r = c.rng; M3 R = rotation(r), E; V3 ax = r.gvec(3).normalized(); double t = angle(r); E = expm(ax * t); M3 ref = E * R; c.desc << "angle " << t;
    c.nearM(getRotationError(R, ref), E, 1e-12, "error/matrix"); c.nearM(getRotationError(R, ref) * R, ref, 1e-12, "error/restores"); c.nearM(getRotationErrorAngleAxis(R, ref), std::sin(t) * ax, 1e-12, "error/angle_axis"); c.nearM(getRotationErrorAngleAxis(R, R), V3::Zero(), 1e-14, "error/zero");
    c.count("errors"); c.signature(c.desc.str() + vh::hashM(R));
}
VH_FAMILY(integration, 6000, 100000)
{
    auto &r = c.rng; M3 R = rotation(r); V3 w = r.chance(0.1) ? V3(V3::Zero()) : V3(r.gvec(3) * std::pow(10., r.i(-15, 1))); double dt = r.chance(0.1) ? 0. : (r.chance(0.2) ? -1 : 1) * r.real(0, 2); c.desc << vh::show(w.transpose()) << " dt " << dt;
    M3 q = integrateAngularVelocityRodrigues(R, w, dt); c.nearM(q, R * expm(w * dt), 1e-11, "integrate/rodrigues"); isRotation(c, M3(q), "integrate/orthonormal");
    c.nearM(integrateAngularVelocity(R, w, dt), R + dt * R * skew(w), 1e-12, "integrate/euler"); if (w.norm() < 1e-11) c.count("small_velocities");
    // first order agreement, and composition of two steps
    double h = 1e-4; c.nearM(integrateAngularVelocity(R, w, h), integrateAngularVelocityRodrigues(R, w, h), 2e-8 * (1 + w.squaredNorm()), "integrate/agree"); double s = r.real(0, 1); c.nearM(integrateAngularVelocityRodrigues(integrateAngularVelocityRodrigues(R, w, s * dt), w, (1 - s) * dt), q, 1e-11, "integrate/compose");
    double tol = 0.5; c.nearM(integrateAngularVelocityRodrigues(R, w, dt, tol), w.norm() < tol ? R : M3(R * expm(w * dt)), 1e-11, "integrate/tolerance");
    c.count("integrations"); c.signature(c.desc.str() + vh::hashM(R));
}
VH_FAMILY(states, 2000, 20000)
{
    auto &r = c.rng; V3 p = r.vec(3), v = r.vec(3), a = r.vec(3), o = r.vec(3), ov = r.vec(3), oa = r.vec(3); RigidBodyState s; c.desc << vh::show(p.transpose()) << vh::show(o.transpose());
    auto is = [&](const V3 &p_, const V3 &v_, const V3 &a_, const V3 &o_, const V3 &ov_, const V3 &oa_, const char *k) { c.check(s.position_ == p_ && s.velocity_ == v_ && s.acceleration_ == a_ && s.rpy_ == o_ && s.angular_velocity_ == ov_ && s.angular_acceleration_ == oa_, k); };
    V3 z = V3::Zero(); is(z, z, z, z, z, z, "state/default"); s.set(p, o, v, ov, a, oa); is(p, v, a, o, ov, oa, "state/set"); c.nearM(s.getOrientationMatrix(), rz(o(2)) * ry(o(1)) * rx(o(0)), 1e-12, "state/orientation");
    s.translate(v); is(p + v, v, a, o, ov, oa, "state/translate"); s.set(p, o); is(p, z, z, o, z, z, "state/set_pose"); s.set(p, o, v); is(p, v, z, o, z, z, "state/set_velocity"); s.set(p, o, v, ov); is(p, v, z, o, ov, z, "state/set_velocities");
    s.unset(); for (int i = 0; i < 3; ++i) c.check(s.position_(i) != s.position_(i) && s.velocity_(i) != s.velocity_(i) && s.acceleration_(i) != s.acceleration_(i) && s.rpy_(i) != s.rpy_(i) && s.angular_velocity_(i) != s.angular_velocity_(i) && s.angular_acceleration_(i) != s.angular_acceleration_(i), "state/unset");
    s.setDefaults(); is(z, z, z, z, z, z, "state/reset"); PointMassState q; q.set(p, v, a); q.translate(o); c.check(q.position_ == p + o && q.velocity_ == v && q.acceleration_ == a, "state/point"); q.set(p); c.check(q.position_ == p && q.velocity_ == z && q.acceleration_ == z, "state/point_position");
    RotaryState u; u.set(o, ov, oa); c.check(u.rpy_ == o && u.angular_velocity_ == ov && u.angular_acceleration_ == oa, "state/rotary"); u.set(o); c.check(u.rpy_ == o && u.angular_velocity_ == z && u.angular_acceleration_ == z, "state/rotary"); c.count("states"); c.signature(c.desc.str());
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
