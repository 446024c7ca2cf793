/**
 * Triple integrators and the point mass walking model against closed form motions derived
 * independently (polynomials of time, hyperbolic motion about a moving CoP) and numerical integration.
 */
#include "vh.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace humoto::rigidbody;
typedef humoto::walking::PointMassModel6z PM;
typedef TripleIntegrator TI;
typedef Eigen::Vector3d V3;
using Eigen::MatrixXd;
using Eigen::VectorXd;

// constant jerk
static V3 move(const V3 &x, double j, double t) { return V3(x(0) + x(1) * t + x(2) * t * t / 2 + j * t * t * t / 6, x(1) + x(2) * t + j * t * t / 2, x(2) + j * t); }
static double duration(vh::Rng &r) { return r.pick({r.real(0.001, 0.1), r.real(0.05, 1.), r.real(0.5, 5.), 0.1, 1.0, 0.02}); }
template <int N> static void triple(vh::Case &c)
{
    auto &r = c.rng; double T = duration(r), s = r.chance(0.1) ? T : (r.chance(0.1) ? 0. : T * r.u()); VectorXd x(3 * N), y(3 * N), ys(3 * N), j(N), up(N), uv(N), ua(N);
    for (int i = 0; i < N; ++i)
    {
        V3 a(r.coef(), r.coef() / T, r.coef() / (T * T)); j(i) = r.coef() / (T * T * T); V3 b = move(a, j(i), T); x.segment(3 * i, 3) = a; y.segment(3 * i, 3) = b; ys.segment(3 * i, 3) = move(a, j(i), s); up(i) = b(0); uv(i) = b(1); ua(i) = b(2);
    }
    c.desc << N << " integrators T=" << T << " s=" << s << " x=" << vh::show(x.transpose()) << " jerk=" << vh::show(j.transpose());
    // everything in units where T = 1
    VectorXd w(3 * N); for (int i = 0; i < N; ++i) w.segment(3 * i, 3) << 1, T, T * T; auto sc = [&](const VectorXd &v) { return VectorXd(v.cwiseProduct(w)); };
    auto agree = [&](const VectorXd &a, const VectorXd &b, const char *key) { double m = std::max(std::max(1., sc(x).cwiseAbs().maxCoeff()), (j * T * T * T).cwiseAbs().maxCoeff()); c.nearM(sc(a) / m, sc(b) / m, 1e-12, key); };
    agree(TI::getAJerk<N>(T) * x + TI::getBJerk<N>(T) * j, y, "integrator/jerk"); agree(TI::getAAcc<N>(T) * x + TI::getBAcc<N>(T) * ua, y, "integrator/acceleration"); agree(TI::getAVel<N>(T) * x + TI::getBVel<N>(T) * uv, y, "integrator/velocity"); agree(TI::getAPos<N>(T) * x + TI::getBPos<N>(T) * up, y, "integrator/position");
    agree(TI::getAsAcc<N>(T, s) * x + TI::getBsAcc<N>(T, s) * ua, ys, "intermediate/acceleration"); agree(TI::getAsVel<N>(T, s) * x + TI::getBsVel<N>(T, s) * uv, ys, "intermediate/velocity"); agree(TI::getAsPos<N>(T, s) * x + TI::getBsPos<N>(T, s) * up, ys, "intermediate/position");
    double m = std::max(1., std::max(sc(x).cwiseAbs().maxCoeff(), (j * T * T * T).cwiseAbs().maxCoeff())), T3 = T * T * T / m;
    c.nearM((TI::getDAcc<N>(T) * x + TI::getEAcc<N>(T) * ua) * T3, j * T3, 1e-11, "jerk/acceleration"); c.nearM((TI::getDVel<N>(T) * x + TI::getEVel<N>(T) * uv) * T3, j * T3, 1e-11, "jerk/velocity"); c.nearM((TI::getDPos<N>(T) * x + TI::getEPos<N>(T) * up) * T3, j * T3, 1e-11, "jerk/position");
    // two steps under the same jerk are one
    VectorXd mid = TI::getAJerk<N>(s) * x + TI::getBJerk<N>(s) * j; agree(TI::getAJerk<N>(T - s) * mid + TI::getBJerk<N>(T - s) * j, y, "integrator/compose");
    c.count("integrators"); if (s == T || s == 0) c.count("interval_ends"); c.signature(c.desc.str());
}
VH_FAMILY(triple_integrators, 6000, 100000) { switch (c.index % 4) { case 0: triple<1>(c); break; case 1: triple<2>(c); break; case 2: triple<3>(c); break; default: triple<6>(c); } }

// CoM above a CoP which moves with a constant velocity: c'' = w^2 (c - z)
static V3 pendulum(const V3 &x, double dz, double w, double t)
{
    double z0 = x(0) - x(2) / (w * w), a = x(0) - z0, b = (x(1) - dz) / w, ch = std::cosh(w * t), sh = std::sinh(w * t), d = a * ch + b * sh, dd = w * (a * sh + b * ch);
    return V3(z0 + dz * t + d, dz + dd, w * w * d);
}
VH_FAMILY(point_mass, 6000, 100000)
{
    auto &r = c.rng; double h = r.real(0.2, 2.), g = 9.8, T = r.pick({r.real(0.005, 0.2), 0.1, 0.04, r.real(0.1, 0.6)}), s = r.chance(0.1) ? T : (r.chance(0.1) ? 0. : T * r.u()); double w = PM::getOmega(h); c.desc << "height " << h << " T " << T << " s " << s;
    // the constant of gravity of the library, whatever its exact value
    g = w * w * h; c.check(g > 9.7 && g < 9.9 && std::fabs(g - humoto::g_gravitational_acceleration) < 1e-12, "pendulum/omega");
    V3 x = V3(r.normal(), r.normal(), r.normal() * w * w * 0.1), y = V3(r.normal(), r.normal(), r.normal() * w * w * 0.1); double zx = x(0) - x(2) / (w * w), zy = y(0) - y(2) / (w * w), dx = r.coef(), dy = r.coef(), ux = zx + dx * T, uy = zy + dy * T;
    V3 ex = pendulum(x, dx, w, T), ey = pendulum(y, dy, w, T), sx = pendulum(x, dx, w, s), sy = pendulum(y, dy, w, s); Eigen::Matrix<double, 6, 1> X, E, S; X << x, y; E << ex, ey; S << sx, sy; Eigen::Vector2d u(ux, uy), dz(dx, dy); double m = std::max(1., std::max(E.cwiseAbs().maxCoeff(), std::cosh(w * T) * (1 + X.cwiseAbs().maxCoeff() + std::fabs(dx) + std::fabs(dy)) * (1 + w) / std::min(1., w * T)));
    auto agree = [&](const VectorXd &a, const VectorXd &b, const char *key) { c.nearM(a / m, b / m, 1e-12, key); };
    agree(PM::getA3(T, w) * x + PM::getB3(T, w) * ux, ex, "pendulum/step3"); agree(PM::getA3(s, w, T) * x + PM::getB3(s, w, T) * ux, sx, "pendulum/intermediate3"); agree(PM::getA6(T, w) * X + PM::getB6(T, w) * u, E, "pendulum/step6"); agree(PM::getA6(s, w, T) * X + PM::getB6(s, w, T) * u, S, "pendulum/intermediate6");
    { Eigen::Matrix<double, 1, 1> v; v << PM::getD3(T, w) * x + Eigen::Matrix<double, 1, 1>::Constant(PM::getE3(T) * ux); agree(v * T, VectorXd::Constant(1, dx * T), "output/cop_velocity3"); } agree((PM::getD6(T, w) * X + PM::getE6(T, w) * u) * T, dz * T, "output/cop_velocity6");
    agree(PM::getDdz6(h) * X, Eigen::Vector2d(zx, zy), "output/cop"); agree(PM::getDdz6(h) * (PM::getA6(T, w) * X + PM::getB6(T, w) * u), u, "output/cop_at_end"); agree(PM::getDdz6(h) * S, Eigen::Vector2d(zx + dx * s, zy + dy * s), "output/cop_intermediate");
    { Eigen::Vector2d v = PM::getDcpv6(w) * X; agree(v, Eigen::Vector2d(x(1) + x(2) / w, y(1) + y(2) / w), "output/capture_point_velocity"); }
    // evaluation of the state
    { auto st = PM::evaluate(s, T, h, X, u); V3 p(sx(0), sy(0), h), v(sx(1), sy(1), 0), a(sx(2), sy(2), 0); agree(st.position_, p, "evaluate/position"); agree(st.velocity_, v, "evaluate/velocity"); agree(st.acceleration_, a, "evaluate/acceleration"); c.check(st.position_(2) == h && st.velocity_(2) == 0 && st.acceleration_(2) == 0, "evaluate/vertical"); }
    { auto st = PM::convertCoMState(X, h); c.check(st.position_ == V3(x(0), y(0), h) && st.velocity_ == V3(x(1), y(1), 0) && st.acceleration_ == V3(x(2), y(2), 0), "convert/state"); c.nearM(PM::convertCoMState(st), X, 0, "convert/roundtrip"); }
    // two steps with the CoP moving on are one
    { Eigen::Vector2d um(zx + dx * s, zy + dy * s); if (s > 1e-3 * T && T - s > 1e-3 * T) { Eigen::Matrix<double, 6, 1> q = PM::getA6(s, w) * X + PM::getB6(s, w) * um; q = PM::getA6(T - s, w) * q + PM::getB6(T - s, w) * u; c.nearM(q / m, E / m, 1e-9, "pendulum/compose"); c.count("compositions"); } }
    PM pm; c.check(pm.Ns_ == 6 && pm.Nu_ == 2, "pendulum/sizes"); c.count("pendulums"); if (s == T || s == 0) c.count("interval_ends"); c.signature(c.desc.str() + vh::hashM(X));
    // numerical integration of c'' = w^2 (c - z), which does not know the closed form
    if (c.index % 10 == 0)
    {
        double p = x(0), v = x(1), t = 0; int n = 400; double k = T / n; auto acc = [&](double p_, double t_) { return w * w * (p_ - zx - dx * t_); };
        for (int i = 0; i < n; ++i) { double a1 = acc(p, t), v2 = v + k / 2 * a1, a2 = acc(p + k / 2 * v, t + k / 2), v3 = v + k / 2 * a2, a3 = acc(p + k / 2 * v2, t + k / 2), v4 = v + k * a3, a4 = acc(p + k * v3, t + k); p += k / 6 * (v + 2 * v2 + 2 * v3 + v4); v += k / 6 * (a1 + 2 * a2 + 2 * a3 + a4); t += k; }
        V3 q = PM::getA3(T, w) * x + PM::getB3(T, w) * ux; agree(q.head(2) * 1e-3, Eigen::Vector2d(p, v) * 1e-3, "pendulum/numerical"); c.count("numerical_integrations");
    }
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
