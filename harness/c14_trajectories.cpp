/**
 * Cubic polynomials and swing foot trajectories: boundary conditions, and derivatives
 * obtained from the reported positions.
 */
#include "vh.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace humoto::rigidbody;
typedef Eigen::Vector3d V3;
typedef TrajectoryEvaluationType TE;
typedef std::function<double(double, TE::Type)> F;

// derivatives of a cubic by finite differences are exact up to rounding (third differences are constant)
static void derivatives(vh::Case &c, const F &f, double lo, double hi, double scale, const std::string &key)
{
    auto &r = c.rng; double h = (hi - lo) / 8; for (int q = 0; q < 3; ++q)
    {
        double t = r.real(lo + 2 * h, hi - 2 * h), p2 = f(t + 2 * h, TE::POSITION), p1 = f(t + h, TE::POSITION), m1 = f(t - h, TE::POSITION), m2 = f(t - 2 * h, TE::POSITION), p0 = f(t, TE::POSITION);
        double d1 = (8 * (p1 - m1) - (p2 - m2)) / (12 * h), d2 = (p1 - 2 * p0 + m1) / (h * h);
        c.near(f(t, TE::VELOCITY) / scale, d1 / scale, 1e-10, key + "/velocity", "t=" + std::to_string(t)); c.near(f(t, TE::ACCELERATION) / scale, d2 / scale, 1e-9, key + "/acceleration", "t=" + std::to_string(t)); c.count("derivatives", 2);
        c.near((f(t + h, TE::VELOCITY) - f(t - h, TE::VELOCITY)) / (2 * h) / scale, f(t, TE::ACCELERATION) / scale, 1e-10, key + "/consistent"); 
    }
    // up to the ends
    double e0 = f(lo, TE::VELOCITY) + 0 * h; (void) e0;
    for (double t : {lo, hi}) { double sgn = t == lo ? 1 : -1; double a = f(t, TE::POSITION), b = f(t + sgn * h, TE::POSITION), d = f(t + sgn * 2 * h, TE::POSITION), e = f(t + sgn * 3 * h, TE::POSITION); double d1 = sgn * (-11 * a + 18 * b - 9 * d + 2 * e) / (6 * h), d2 = (2 * a - 5 * b + 4 * d - e) / (h * h); c.near(f(t, TE::VELOCITY) / scale, d1 / scale, 1e-10, key + "/velocity_at_end"); c.near(f(t, TE::ACCELERATION) / scale, d2 / scale, 1e-9, key + "/acceleration_at_end"); }
}
VH_FAMILY(cubic, 6000, 100000)
{
    auto &r = c.rng; CubicPolynomial1D p; double a = r.coef(), b = r.coef(), va = r.coef(), vb = r.coef(); bool moving = r.chance(0.7);
    if (r.chance(0.5)) p.initialize(r.normal(), r.normal(), r.normal(), r.normal());   // history
    if (moving) p.initialize(a, va, b, vb); else { p.initialize(a, b); va = vb = 0; } double s = 1 + std::fabs(a) + std::fabs(b) + std::fabs(va) + std::fabs(vb); c.desc << "from " << a << " at " << va << " to " << b << " at " << vb;
    c.near(p.getPosition(0) / s, a / s, 1e-13, "cubic/start"); c.near(p.getPosition(1) / s, b / s, 1e-13, "cubic/end"); c.near(p.getVelocity(0) / s, va / s, 1e-13, "cubic/start_velocity"); c.near(p.getVelocity(1) / s, vb / s, 1e-13, "cubic/end_velocity");
    F f = [&](double t, TE::Type k) { t = std::min(1., std::max(0., t)); return p.eval(t, k); }; derivatives(c, f, 0, 1, s, "cubic"); double t = r.u(); c.check(p.getPosition(t) == p.eval(t, TE::POSITION) && p.getVelocity(t) == p.eval(t, TE::VELOCITY) && p.getAcceleration(t) == p.eval(t, TE::ACCELERATION), "cubic/eval");
    c.near(p.getJerk() / s, (p.getAcceleration(1) - p.getAcceleration(0)) / s, 1e-12, "cubic/jerk");
    // the cubic with these boundary conditions is unique
    double h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1); c.near(p.getPosition(t) / s, (h00 * a + h10 * va + h01 * b + h11 * vb) / s, 1e-12, "cubic/between");
    Eigen::VectorXd ts(r.i(1, 6)); for (int i = 0; i < ts.size(); ++i) ts(i) = r.u(); for (auto k : {TE::POSITION, TE::VELOCITY, TE::ACCELERATION}) { auto v = p.eval(ts, k); c.check(v.size() == static_cast<std::size_t>(ts.size()), "cubic/list"); for (int i = 0; i < ts.size(); ++i) c.check(v[i] == p.eval(ts(i), k), "cubic/list"); }
    double bad = r.chance(0.5) ? -r.real(1e-9, 2) : 1 + r.real(1e-9, 2); c.mustReject([&] { p.getPosition(bad); }, "cubic/range"); c.mustReject([&] { p.getVelocity(bad); }, "cubic/range"); c.mustReject([&] { p.getAcceleration(bad); }, "cubic/range"); c.mustReject([&] { p.eval(t, TE::UNDEFINED); }, "cubic/undefined");
    { Eigen::VectorXd x(r.i(2, 6)); for (int i = 0; i < x.size(); ++i) x(i) = r.normal() * 3; if (x.minCoeff() == x.maxCoeff()) x(0) += 1; Eigen::VectorXd y = CubicPolynomial1D::scale(x); double lo = x.minCoeff(), hi = x.maxCoeff(); for (int i = 0; i < x.size(); ++i) c.near(y(i), (x(i) - lo) / (hi - lo), 1e-12, "cubic/scale"); }
    c.count(moving ? "moving_ends" : "resting_ends"); c.signature(c.desc.str());
}
VH_FAMILY(foot, 6000, 100000)
{
    auto &r = c.rng; humoto::walking::Simple3DFootTrajectory f; int how = r.i(0, 2); V3 a = r.gvec(3), b = r.gvec(3), va = V3::Zero(), vb = V3::Zero(); double h = r.real(0, 1), ya = 0, yb = 0, wa = 0, wb = 0; if (b(2) > a(2) + h) b(2) = a(2) + h - r.real(0, 1) * (r.chance(0.2) ? 0 : 1);
    RigidBodyState s0, s1; auto init = [&](int k, const V3 &a_, const V3 &va_, const V3 &b_, const V3 &vb_, double ya_, double wa_, double yb_, double wb_) {
        if (k == 0) f.initialize(a_, b_, h); else if (k == 1) f.initialize(a_, va_, b_, vb_, h); else { s0.position_ = a_; s0.velocity_ = va_; s1.position_ = b_; s1.velocity_ = vb_; s0.rpy_ << r.normal(), r.normal(), ya_; s1.rpy_ << r.normal(), r.normal(), yb_; s0.angular_velocity_ << r.normal(), r.normal(), wa_; s1.angular_velocity_ << r.normal(), r.normal(), wb_; f.initialize(s0, s1, h); } };
    if (r.chance(0.6)) { V3 q = r.gvec(3), w = r.gvec(3); w(2) = q(2) - 0.1; init(r.i(0, 2), q, r.gvec(3), w, r.gvec(3), r.normal(), r.normal(), r.normal(), r.normal()); c.count("reinitialized"); }      // history
    if (how > 0) { va = r.gvec(3); vb = r.gvec(3); } if (how == 2) { ya = r.normal(); yb = r.normal(); wa = r.normal(); wb = r.normal(); } init(how, a, va, b, vb, ya, wa, yb, wb); c.desc << "way " << how << " from " << vh::show(a.transpose()) << " at " << vh::show(va.transpose()) << " to " << vh::show(b.transpose()) << " at " << vh::show(vb.transpose()) << " height " << h;
    double s = 2 + a.norm() + b.norm() + va.norm() + vb.norm() + h; auto at = [&](double t, TE::Type k) { return V3(f.eval(t, k)); };
    c.nearM(at(0, TE::POSITION) / s, a / s, 1e-13, "foot/start"); c.nearM(at(1, TE::POSITION) / s, b / s, 1e-13, "foot/end"); c.nearM(at(0, TE::VELOCITY) / s, va / s, 1e-12, "foot/start_velocity"); c.nearM(at(1, TE::VELOCITY) / s, vb / s, 1e-12, "foot/end_velocity"); c.near(f.evalz(0.5, TE::POSITION) / s, (a(2) + h) / s, 1e-13, "foot/apex"); c.near(f.evalz(0.5, TE::VELOCITY) / s, 0, 1e-12, "foot/apex_velocity"); c.near(f.evalz(0.5 + 1e-12, TE::VELOCITY) / s, 0, 1e-9, "foot/apex_velocity"); c.near(f.evalz(std::nextafter(0.5, 1), TE::POSITION) / s, (a(2) + h) / s, 1e-12, "foot/continuous");
    auto cl = [](double t, double lo, double hi) { return std::min(hi, std::max(lo, t)); };
    derivatives(c, [&](double t, TE::Type k) { return f.evalx(cl(t, 0, 1), k); }, 0, 1, s, "foot_x"); derivatives(c, [&](double t, TE::Type k) { return f.evaly(cl(t, 0, 1), k); }, 0, 1, s, "foot_y"); derivatives(c, [&](double t, TE::Type k) { return f.evalTheta(cl(t, 0, 1), k); }, 0, 1, s, "foot_theta");
    derivatives(c, [&](double t, TE::Type k) { return f.evalz(cl(t, 0, 0.5), k); }, 0, 0.5, 16 * s, "foot_up"); derivatives(c, [&](double t, TE::Type k) { return f.evalz(cl(t, 0.5 + 1e-9, 1), k); }, 0.5 + 1e-9, 1, 16 * s, "foot_down");
    c.near(f.evalTheta(0, TE::POSITION), ya, 1e-13, "foot/yaw"); c.near(f.evalTheta(1, TE::POSITION), yb, 1e-12, "foot/yaw"); c.near(f.evalTheta(0, TE::VELOCITY), wa, 1e-12, "foot/yaw_velocity"); c.near(f.evalTheta(1, TE::VELOCITY), wb, 1e-12, "foot/yaw_velocity");
    // at rest at both ends: rises, then falls
    if (how == 0) { double t = r.u() * 0.5, z = f.evalz(t, TE::POSITION), z2 = f.evalz(0.5 + t, TE::POSITION); c.check(z >= a(2) - 1e-9 && z <= a(2) + h + 1e-9 && z2 <= a(2) + h + 1e-9 && z2 >= b(2) - 1e-9, "foot/within"); }
    { double t = r.u(); RigidBodyState o; f.eval(o, t); c.nearM(o.position_, at(t, TE::POSITION), 0, "foot/state"); c.nearM(o.velocity_, at(t, TE::VELOCITY), 0, "foot/state"); c.nearM(o.acceleration_, at(t, TE::ACCELERATION), 0, "foot/state"); c.check(o.rpy_(2) == f.evalTheta(t, TE::POSITION) && o.angular_velocity_(2) == f.evalTheta(t, TE::VELOCITY) && o.angular_acceleration_(2) == f.evalTheta(t, TE::ACCELERATION), "foot/state_yaw");
      c.check(at(t, TE::POSITION) == V3(f.evalx(t, TE::POSITION), f.evaly(t, TE::POSITION), f.evalz(t, TE::POSITION)), "foot/components"); }
    double bad = r.chance(0.5) ? -r.real(1e-9, 2) : 1 + r.real(1e-9, 2); c.mustReject([&] { at(bad, TE::POSITION); }, "foot/range"); V3 high = b; high(2) = a(2) + h + r.real(0.001, 1); c.mustReject([&] { f.initialize(a, high, h); }, "foot/too_high"); c.mustReject([&] { f.initialize(a, va, high, vb, h); }, "foot/too_high"); c.signature(c.desc.str()); c.count("feet");
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
