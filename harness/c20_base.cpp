/**
 * Closed loops of the controller of the wheeled robot. An independent description of the motion (a base which
 * reaches given velocities with constant jerks, a body driven by jerks, and the CoP below them) is advanced next
 * to it; predictions, constraints, objective, references and intermediate states are compared at every step.
 */
#include "vh.h"
#include "humoto/config_msgpack.h"
#include "refqp.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/pepper_mpc.h"
#include "mp.h"
#include <deque>
using Eigen::MatrixXd; using Eigen::VectorXd; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Matrix2d M2; typedef Eigen::Matrix<double, 6, 1> V6;
namespace P = humoto::pepper_mpc;
static M2 rot(double a) { M2 m; m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return m; }
static double scaleOf(const VectorXd &v) { return std::max(1., v.size() ? v.cwiseAbs().maxCoeff() : 0.); }
static void agree(vh::Case &c, const VectorXd &a, const VectorXd &b, double tol, double scale, const std::string &key, const std::string &msg) { c.check(a.size() == b.size(), key + "/size", msg + " " + std::to_string(a.size()) + " not " + std::to_string(b.size())); c.nearM(a / scale, b / scale, tol, key, msg); }

// x and y motions of a point: position, velocity, acceleration
struct Point { V2 p, v, a; Point after(const V2 &j, double t) const { Point q; q.p = p + t * v + t * t / 2 * a + t * t * t / 6 * j; q.v = v + t * a + t * t / 2 * j; q.a = a + t * j; return q; } V6 vec() const { V6 s; s << p(0), v(0), a(0), p(1), v(1), a(1); return s; } };
struct Motion { V2 vel, pos; double omega; long ms; };   // ms < 0: unlimited
struct Parameters { double radius, vmax, amax; Eigen::Matrix2d body; };
struct Goal { V2 vel, pos; double theta; };
struct Robot
{
    P::MPCParameters mp; P::RobotParameters rp; P::Model model; P::MPCforMG mpc; std::shared_ptr<humoto::OptimizationProblem> opt; humoto::Solution sol;
    Parameters par; double ms, md, hs, hd; double gv = 0, gp = 0, gj = 0, gb = 0, gc = 0, gd = 0; std::vector<std::string> hard; double theta; Point base, body;
    std::vector<Goal> goals;
    long N() const { return mp.preview_horizon_length_; } double T() const { return mp.sampling_time_ms_ / 1000.; }
    V2 cop(const Point &s, const Point &d) const { const double g = humoto::g_gravitational_acceleration; return (ms * (s.p - hs / g * s.a) + md * (d.p - hd / g * d.a)) / (ms + md) - s.p; }
    struct Prediction { std::vector<Point> s, d; std::vector<V2> js, cop; VectorXd cs, copv, jv; };
    Prediction simulate(const VectorXd &x) const
    {
        Prediction r; long n = N(); double t = T(); Point s = base, d = body; r.cs.resize(12 * n); r.copv.resize(2 * n); r.jv.resize(2 * n);
        for (long i = 0; i < n; ++i) { V2 j = 2 * (V2(x.segment(2 * i, 2)) - s.v - t * s.a) / (t * t); s = s.after(j, t); d = d.after(x.segment(2 * n + 2 * i, 2), t); r.s.push_back(s); r.d.push_back(d); r.js.push_back(j); r.cop.push_back(cop(s, d)); r.cs.segment(6 * i, 6) = s.vec(); r.cs.segment(6 * n + 6 * i, 6) = d.vec(); r.copv.segment(2 * i, 2) = r.cop.back(); r.jv.segment(2 * i, 2) = j; }
        return r;
    }
    double objective(const VectorXd &x) const
    {
        Prediction r = simulate(x); double f = 0; long n = N();
        for (long i = 0; i < n; ++i) f += gv * gv * (r.s[i].v - goals[i].vel).squaredNorm() + gp * gp * (r.s[i].p - goals[i].pos).squaredNorm() + gj * gj * r.js[i].squaredNorm() + gb * gb * x.segment(2 * n + 2 * i, 2).squaredNorm() + gc * gc * r.cop[i].squaredNorm() + gd * gd * (r.s[i].p - r.d[i].p).squaredNorm();
        return f / 2;
    }
    // distances to the bounds: what is bounded, minus lower bounds; upper bounds minus what is bounded
    void slacks(const VectorXd &x, std::vector<double> &lo, std::vector<double> &hi) const
    {
        Prediction r = simulate(x); double q = std::sqrt(2.) / 2;
        for (long i = 0; i < N(); ++i) for (const std::string &h : hard)
        {
            V2 v, l, u; if (h == "TaskBaseAccelerationBounds") { v = r.s[i].a; u.setConstant(par.amax * q); l = -u; } else if (h == "TaskCoPPositionBounds") { v = r.cop[i]; u.setConstant(par.radius * q); l = -u; } else if (h == "TaskBodyPositionBounds") { v = rot(-goals[i].theta) * (r.s[i].p - r.d[i].p); l = par.body.col(0); u = par.body.col(1); } else continue;
            for (int k = 0; k < 2; ++k) { lo.push_back(v(k) - l(k)); hi.push_back(u(k) - v(k)); }
        }
    }
    void read()
    {   // of the model
        auto &b = model.state_.base_state_; auto &d = model.state_.body_state_; base.p = b.position_.head(2); base.v = b.velocity_.head(2); base.a = b.acceleration_.head(2); body.p = d.position_.head(2); body.v = d.velocity_.head(2); body.a = d.acceleration_.head(2); hs = b.position_.z(); hd = d.position_.z(); theta = b.rpy_.z(); ms = model.state_.base_mass_; md = model.state_.body_mass_;
    }
};
static void setRobot(vh::Case &c, Robot &w)
{
    auto &r = c.rng; Parameters &p = w.par; p.radius = 0.7; p.vmax = 0.5; p.amax = 1; p.body << -.06, .06, -.03, .03;
    if (r.chance(0.6))
    {
        p.radius = r.real(.05, 1); p.vmax = r.real(.1, 2); p.amax = r.real(.2, 3); p.body << r.real(-.2, -.01), r.real(.01, .2), r.real(-.2, -.01), r.real(.01, .2);
        if (r.chance(0.5))
        {
            mp::Tree f = mp::Tree::map(), m = mp::Tree::map(), data = mp::Tree::array(); f.add("base_radius", mp::Tree::real(p.radius)).add("max_nominal_base_velocity", mp::Tree::real(p.vmax)).add("max_nominal_base_acceleration", mp::Tree::real(p.amax)).add("max_base_velocity", mp::Tree::real(9)).add("max_base_acceleration", mp::Tree::real(11));
            for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) data.items.push_back(mp::Tree::real(p.body(i, j))); m.add("cols", mp::Tree::integer(2)).add("rows", mp::Tree::integer(2)).add("data", data); f.add("body_bounds", m);
            mp::Temp file("robot.msgpack"); mp::spill(file, mp::encode(mp::section("RobotParameters", f))); humoto::config::msgpack::Reader reader(file); w.rp.readConfig(reader, true); c.count("robots_configured");
        }
        else { P::RobotParameters q; struct Open : P::RobotParameters { void done() { finalize(); } }; Open o; o.base_radius_ = p.radius; o.max_nominal_base_velocity_ = p.vmax; o.max_nominal_base_acceleration_ = p.amax; o.body_bounds_ = p.body; o.done(); w.rp = o; }
    }
    else w.rp = P::RobotParameters();
    w.model.setParameters(w.rp);
}
static void tasks(vh::Case &c, Robot &w)
{
    auto &r = c.rng; std::vector<std::string> hard{"TaskBaseVelocityBounds", "TaskBodyPositionBounds", "TaskCoPPositionBounds", "TaskBaseAccelerationBounds"}, soft; if (r.chance(0.15)) hard.erase(hard.begin() + 1 + r.i(0, 2));
    double q = std::sqrt(.5), e = 0.0223606797749979; bool dflt = r.chance(0.3); auto g = [&](double d, double lo, double hi) { return dflt ? d : r.real(lo, hi); }; int kind = r.pick({0, 0, 1, 1, 2});
    if (kind != 1) { w.gv = g(1, .3, 3); soft.push_back("TaskBaseVelocityReference"); } if (kind != 0) { w.gp = g(q, .3, 3); soft.push_back("TaskBasePositionReference"); }
    w.gj = g(e, .01, .3); soft.push_back("TaskBaseJerkMinimization"); w.gb = g(e, .01, .3); soft.push_back("TaskBodyJerkMinimization"); if (r.chance(0.8)) { w.gc = g(q, .1, 3); soft.push_back("TaskCoPCentering"); } if (r.chance(0.4)) { w.gd = g(q, .1, 3); soft.push_back("TaskBodyPositionReference"); }
    r.shuffle(hard); r.shuffle(soft); w.hard = hard; std::map<std::string, double> gains{{"TaskBaseVelocityReference", w.gv}, {"TaskBasePositionReference", w.gp}, {"TaskBaseJerkMinimization", w.gj}, {"TaskBodyJerkMinimization", w.gb}, {"TaskCoPCentering", w.gc}, {"TaskBodyPositionReference", w.gd}};
    if (r.chance(0.5))
    {
        std::shared_ptr<P::ConfigurableOptimizationProblem> o(new P::ConfigurableOptimizationProblem); mp::Tree f = mp::Tree::map(), names = mp::Tree::array(), ids = mp::Tree::array(); int k = 0;
        for (auto *l : {&hard, &soft}) { mp::Tree a = mp::Tree::array(), b = mp::Tree::array(); for (auto &n : *l) { a.items.push_back(mp::Tree::str(n)); std::string id = l == &hard ? n : "task" + std::to_string(k++); b.items.push_back(mp::Tree::str(id)); mp::Tree s = mp::Tree::map(); if (n != "TaskBaseVelocityBounds") s.add("gain", mp::Tree::real(l == &hard ? 0. : gains[n])); if (n == "TaskBodyJerkMinimization") s.add("variables_id", mp::Tree::str("body_pos")); f.add(id, s); } names.items.push_back(a); ids.items.push_back(b); }
        f.add("task_class_names", names).add("task_ids", ids); mp::Temp file("hierarchy.msgpack"); mp::spill(file, mp::encode(mp::section("OptimizationProblem", f))); humoto::config::msgpack::Reader reader(file); o->readConfig(reader, true); w.opt = o; c.count("hierarchies_configured");
    }
    else
    {
        w.opt.reset(new humoto::OptimizationProblem); w.opt->reset(2); auto put = [&](auto *t, int l) { w.opt->pushTask(humoto::TaskSharedPointer(t), l); };
        for (auto &n : hard) { if (n == "TaskBaseVelocityBounds") put(new P::TaskBaseVelocityBounds, 0); if (n == "TaskBodyPositionBounds") put(new P::TaskBodyPositionBounds, 0); if (n == "TaskCoPPositionBounds") put(new P::TaskCoPPositionBounds, 0); if (n == "TaskBaseAccelerationBounds") put(new P::TaskBaseAccelerationBounds, 0); }
        for (auto &n : soft) { double a = gains[n]; if (n == "TaskBaseVelocityReference") put(new P::TaskBaseVelocityReference(a), 1); if (n == "TaskBasePositionReference") put(new P::TaskBasePositionReference(a), 1); if (n == "TaskBaseJerkMinimization") put(new P::TaskBaseJerkMinimization(a), 1); if (n == "TaskBodyJerkMinimization") put(new P::TaskBodyJerkMinimization(a), 1); if (n == "TaskCoPCentering") put(new P::TaskCoPCentering(a), 1); if (n == "TaskBodyPositionReference") put(new P::TaskBodyPositionReference(a), 1); }
    }
}
static P::MotionParameters toReal(const Motion &m) { P::MotionParameters q; q.base_velocity_ = m.vel; q.base_position_ = m.pos; q.base_angular_velocity_ = m.omega; q.duration_ms_ = m.ms < 0 ? static_cast<long>(P::MotionParameters::UNLIMITED_DURATION) : m.ms; q.motion_mode_ = P::MotionMode::MAINTAIN_VELOCITY; return q; }
static void drive(vh::Case &c, bool solve)
{
    auto &r = c.rng; Robot w; setRobot(c, w); long s = r.pick({100, 100, 50, 40, 200, 30}), sub = r.chance(0.4) ? s : r.pick({10L, s / 2, s, s / 5, 2 * s}); w.mp = P::MPCParameters(r.i(1, 16), s, sub); w.mpc.setParameters(w.mp); tasks(c, w); const double tol = 1e-8;
    // the initial state
    double bh = r.chance(0.3) ? 0.125564931735602 : r.real(.05, .5), dh = bh == 0.125564931735602 ? .75 : r.real(.4, 1.2), off = r.real(-.05, .05);
    P::ModelState st; double m1 = 16.34234, m2 = 12.3389; int how = r.i(0, 3); V3 bp(r.real(-2, 2), r.real(-2, 2), bh), dp = bp + V3(r.real(-.01, .01), r.real(-.01, .01), dh - bh); if (how > 1) { m1 = r.real(5, 30); m2 = r.real(5, 30); }
    if (how == 0) { st = P::ModelState(bh, dh, off); bp << 0, 0, bh; dp << off, 0, dh; } else if (how == 1) { humoto::rigidbody::RigidBodyState b; humoto::rigidbody::PointMassState d; b.setDefaults(); d.setDefaults(); b.position_ = bp; d.position_ = dp; st.set(b, d); } else if (how == 2) st = P::ModelState(m1, m2, bp, dp); else st.update(m1, m2, bp, dp, 0);
    c.check(st.base_state_.position_ == bp && st.body_state_.position_ == dp, "state/positions", "constructed in way " + std::to_string(how)); c.check(st.base_mass_ == m1 && st.body_mass_ == m2, "state/masses", "constructed in way " + std::to_string(how)); st.base_state_.position_ = bp; st.body_state_.position_ = dp;
    if (r.chance(0.6)) { st.base_state_.rpy_.z() = r.real(-3, 3); double k = solve ? .1 : 1; st.base_state_.velocity_.head(2) << k * r.real(-.5, .5), k * r.real(-.5, .5); st.body_state_.velocity_.head(2) = st.base_state_.velocity_.head(2); if (!solve) { st.base_state_.acceleration_.head(2) << r.real(-1, 1), r.real(-1, 1); st.body_state_.acceleration_.head(2) << r.real(-1, 1), r.real(-1, 1); } }
    w.model.updateState(st); w.read();
    // what is asked for
    bool queue = r.chance(0.6); std::deque<Motion> q; int km = queue ? r.i(1, 6) : 1; long horizon = w.N() * s;
    for (int k = 0; k < km; ++k) { Motion m; m.vel << r.real(-.5, .5), r.real(-.3, .3); m.pos << w.base.p(0) + r.real(-1, 1), w.base.p(1) + r.real(-1, 1); m.omega = r.chance(.3) ? 0 : r.real(-1, 1); int style = r.i(0, 3); m.ms = style == 0 ? s * r.i(0, 12) : style == 1 ? r.i(0, 10 * s) : style == 2 ? r.i(1, 3) * sub : horizon + r.i(0, 5 * s); if (k + 1 == km && r.chance(.4)) m.ms = -1; q.push_back(m); }
    std::deque<P::MotionParameters> real; for (auto &m : q) real.push_back(toReal(m)); P::MotionParameters single = real.front();
    c.desc << "N " << w.N() << " sampling " << s << "/" << sub << " masses " << m1 << "," << m2 << " heights " << bh << "," << dh << " motions"; for (auto &m : q) c.desc << " " << m.ms; c.desc << (queue ? "" : " single");
    long limit = solve ? 60 : r.i(1, 20), n = 0; bool as = r.chance(.4), disturbed = r.chance(.3); humoto::ActiveSet guess, actual; std::map<std::string, std::vector<int>> old; humoto::Solution old_sol; std::string hist; typedef humoto::ConstraintActivationType A;
    for (; n < limit; ++n)
    {
        std::string at = "step " + std::to_string(n); bool both = r.chance(.5); long shift = r.pick({sub, s, 0L, -1L, r.i(0, 3 * s) + 0L});
        // the motions which are previewed: the one in force at the end of an interval
        w.goals.clear(); double th = w.theta; bool stop = false; for (long i = 0; i < w.N() && !stop; ++i) { long end = (i + 1) * s, sum = 0; const Motion *m = nullptr; for (auto &k : q) { if (k.ms < 0) { m = &k; break; } sum += k.ms; if (end <= sum) { m = &k; break; } } if (!m) { stop = true; break; } th += m->omega * w.T(); Goal g; g.theta = th; g.vel = rot(th) * m->vel; g.pos = m->pos; w.goals.push_back(g); }
        auto before = real; auto status = queue ? (both ? w.mpc.updateAndShift(real, w.model, shift) : w.mpc.update(real, w.model)) : (both ? w.mpc.updateAndShift(single, w.model, shift) : w.mpc.update(single, w.model)); c.check((status == humoto::ControlProblemStatus::STOPPED) == stop, "motion/status", at); if (stop) { c.count("motions_ended"); if (both) c.check(queue ? real.size() == before.size() && (q.empty() || real.front().duration_ms_ == before.front().duration_ms_) : single.duration_ms_ == q.front().ms, "motion/stopped_shift", at); break; }
        if (!both && r.chance(.9)) { if (queue) w.mpc.shift(real, shift); else w.mpc.shift(single, shift); both = true; }
        if (both) { long left = shift < 0 ? s : shift; if (queue) { while (!q.empty() && q.front().ms >= 0 && q.front().ms <= left) { left -= q.front().ms; q.pop_front(); } if (!q.empty() && q.front().ms >= 0) q.front().ms -= left; } else if (q.front().ms >= 0) q.front().ms = std::max(0L, q.front().ms - left); }
        if (queue) { std::size_t skip = 0, drop = 0; while (skip < real.size() && real[skip].duration_ms_ == 0) ++skip; while (drop < q.size() && q[drop].ms == 0) ++drop; bool same = real.size() - skip == q.size() - drop; for (std::size_t k = drop; same && k < q.size(); ++k) same = real[k - drop + skip].duration_ms_ == q[k].ms && real[k - drop + skip].base_velocity_ == q[k].vel; c.check(same, "motion/shift", at); c.count("queues_shifted"); } else c.check(single.duration_ms_ == q.front().ms, "motion/shift", at);
        long N = w.N(), nv = 4 * N; if (as) w.opt->form(w.sol, guess, w.model, w.mpc); else w.opt->form(w.sol, w.model, w.mpc);
        c.check(w.sol.getNumberOfVariables() == static_cast<std::size_t>(nv), "problem/variables", at);
        if (as)
        {
            for (auto &ti : (*w.opt)[0].tasks_) { std::vector<int> g, want(2 * N, A::INACTIVE); for (std::size_t k = 0; k < ti.location_.length_; ++k) g.push_back(guess[0][ti.location_.offset_ + k]); bool reset = s > sub; if (n && !reset) for (int k = 0; k + 2 < 2 * N; ++k) want[k] = old[ti.ptr_->getDescription()][k + 2]; c.check(g == want || (n && reset && g == old[ti.ptr_->getDescription()]), "active_set/guess", at + " " + ti.ptr_->getDescription()); }
            if (n) { humoto::Solution gs; w.mpc.guessSolution(gs, old_sol); VectorXd x = VectorXd::Zero(nv); for (int k = 0; k + 2 < 2 * N; ++k) { x(k) = old_sol.x_(k + 2); x(2 * N + k) = old_sol.x_(2 * N + k + 2); } c.nearM(gs.x_, x, 0, "guess/solution", at); c.count("guesses"); }
        }
        VectorXd vb = VectorXd::Constant(2 * N, w.par.vmax * std::sqrt(2.) / 2); humoto::QPProblem_ILU_ALU q_; w.opt->getQPProblem(q_, w.sol, true); const humoto::QPProblem_ILU_ALU &qp = q_;
        { VectorXd l = qp.getSolutionLowerBounds(), u = qp.getSolutionUpperBounds(); agree(c, l.head(2 * N), -vb, 1e-12, 1, "constraints/velocity", at); agree(c, u.head(2 * N), vb, 1e-12, 1, "constraints/velocity", at); c.check((l.tail(2 * N).array() < -1e10).all() && (u.tail(2 * N).array() > 1e10).all(), "constraints/jerk", at); }
        auto probe = [&](const VectorXd &x, const std::string &what)
        {
            std::string m = at + " " + what; Robot::Prediction p = w.simulate(x); double sc = scaleOf(p.cs); agree(c, w.mpc.cstate_profile_, p.cs, tol, sc, "prediction/state", m); agree(c, w.mpc.cop_profile_, p.copv, tol, sc, "prediction/cop", m); agree(c, w.mpc.base_jerk_profile_, p.jv, tol, scaleOf(p.jv), "prediction/jerk", m); agree(c, w.mpc.base_controls_, x.head(2 * N), 0, 1, "prediction/controls", m); agree(c, w.mpc.body_controls_, x.tail(2 * N), 0, 1, "prediction/controls", m);
            std::vector<double> lo, hi; w.slacks(x, lo, hi); VectorXd ax = qp.getGeneralConstraints().getA() * x, l = ax - qp.getGeneralConstraints().getLowerBounds(), u = qp.getGeneralConstraints().getUpperBounds() - ax; c.check(l.size() == static_cast<long>(lo.size()), "constraints/number", m); if (l.size() == static_cast<long>(lo.size())) { std::sort(lo.begin(), lo.end()); std::sort(hi.begin(), hi.end()); std::sort(l.data(), l.data() + l.size()); std::sort(u.data(), u.data() + u.size()); agree(c, l, Eigen::Map<VectorXd>(lo.data(), lo.size()), tol, sc, "constraints/lower", m); agree(c, u, Eigen::Map<VectorXd>(hi.data(), hi.size()), tol, sc, "constraints/upper", m); }
            VectorXd z = VectorXd::Zero(nv); double f0 = w.objective(z), f1 = w.objective(x), d = 0.5 * x.dot(qp.getHessian() * x) + qp.getGradient().dot(x); c.near(d / std::max(1., f0 + f1), (f1 - f0) / std::max(1., f0 + f1), 1e-7, "objective/value", m); c.count("predictions");
        };
        auto random = [&](double k) { VectorXd x(nv); for (int i = 0; i < nv; ++i) x(i) = i < 2 * N ? k * r.real(-1, 1) : k * r.real(-10, 10); return x; };
        humoto::Solution ps; ps.initialize(w.mpc.getSolutionStructure()); bool probed = r.chance(solve ? .3 : .7); if (!probed && r.chance(.5)) { c.mustReject([&] { w.mpc.getNextModelState(w.model); }, "order/not_parsed"); c.mustReject([&] { w.mpc.getModelState(w.model, std::size_t(0)); }, "order/not_parsed"); } if (probed) { VectorXd x = random(r.pick({.1, 1., 10.})); ps.x_ = x; w.mpc.parseSolution(ps); probe(x, "probe"); if (r.chance(.2)) { x = random(1); ps.x_ = x; w.mpc.parseSolution(ps); probe(x, "second probe"); } }
        VectorXd x = random(r.pick({0., .1, .3}));
        if (solve) { MatrixXd H = qp.getHessian(); MatrixXd G = qp.getGeneralConstraints().getA(); int m = G.rows(); MatrixXd C(4 * N + 2 * m, nv); C.setZero(); C.topLeftCorner(2 * N, 2 * N).setIdentity(); C.block(2 * N, 0, 2 * N, 2 * N) = -MatrixXd::Identity(2 * N, 2 * N); C.middleRows(4 * N, m) = G; C.bottomRows(m) = -G; VectorXd d(4 * N + 2 * m); d << -vb, -vb, qp.getGeneralConstraints().getLowerBounds(), -qp.getGeneralConstraints().getUpperBounds(); VectorXd y; int it = 0; if (refqp::solve(H, qp.getGradient(), MatrixXd(0, nv), VectorXd(0), C, d, y, &it)) { x = y; c.count("solved"); if (it > 0) c.count("active_constraints"); } else { c.count("unsolvable"); break; } }
        w.sol.x_ = x; w.sol.return_status_ = humoto::SolverStatus::OK; P::ModelState next; if (!probed && r.chance(.5)) { next = w.mpc.getNextModelState(w.sol, w.model); c.mustReject([&] { w.mpc.getNextModelState(w.sol, w.model); }, "order/parsed_twice"); } else { w.mpc.parseSolution(w.sol); next = w.mpc.getNextModelState(w.model); } if (r.chance(.5)) probe(x, "applied");
        Robot::Prediction p = w.simulate(x); double sc = scaleOf(p.cs);
        auto compare = [&](const P::ModelState &g, const Point &b, const Point &d, double th_, const std::string &key, const std::string &m) { auto v3 = [](const V2 &v, double z) { return V3(v(0), v(1), z); }; agree(c, g.base_state_.position_, v3(b.p, w.hs), tol, sc, key + "/base_position", m); agree(c, g.base_state_.velocity_, v3(b.v, 0), tol, sc, key + "/base_velocity", m); agree(c, g.base_state_.acceleration_, v3(b.a, 0), tol, sc, key + "/base_acceleration", m); agree(c, g.body_state_.position_, v3(d.p, w.hd), tol, sc, key + "/body_position", m); agree(c, g.body_state_.velocity_, v3(d.v, 0), tol, sc, key + "/body_velocity", m); agree(c, g.body_state_.acceleration_, v3(d.a, 0), tol, sc, key + "/body_acceleration", m); c.near(g.base_state_.rpy_.z(), th_, tol, key + "/orientation", m); c.check(g.base_mass_ == w.ms && g.body_mass_ == w.md, key + "/masses", m); agree(c, w.model.getCoP(g), w.cop(b, d), tol, sc, key + "/cop", m); };
        compare(next, p.s[0], p.d[0], w.goals[0].theta, "next", at);
        auto instant = [&](long tm, bool in_ms, const std::string &key) { long left = tm; int i = 0; while (left > s) { left -= s; ++i; } double t = left / 1000., t0 = i ? w.goals[i - 1].theta : w.theta; Point b = (i ? p.s[i - 1] : w.base).after(p.js[i], t), d = (i ? p.d[i - 1] : w.body).after(x.segment(2 * N + 2 * i, 2), t); double th_ = t0 + (w.goals[i].theta - t0) * left / s; auto g = in_ms ? w.mpc.getModelState(w.model, static_cast<std::size_t>(tm)) : w.mpc.getModelState(w.model, tm / 1000.); compare(g, b, d, th_, key, at + " at " + std::to_string(tm) + (in_ms ? " ms" : "")); c.count(i ? "instants_later" : "instants_first"); return g; };
        for (int k = 0; k < 3; ++k) { bool in_ms = r.chance(.6); long tm = in_ms ? r.i(0, horizon) : r.i(0, horizon - 1); if (r.chance(.2)) tm = in_ms ? horizon : horizon - 1; instant(tm, in_ms, "motion"); } c.mustReject([&] { w.mpc.getModelState(w.model, static_cast<std::size_t>(horizon + 1)); }, "motion/beyond"); c.mustReject([&] { w.mpc.getModelState(w.model, horizon / 1000. + .001); }, "motion/beyond");
        P::ModelState after = next; if (r.chance(.5) && sub <= horizon) { after = instant(sub, true, "step"); c.count("subsampled"); } else c.count("whole_intervals");
        w.model.updateState(after); w.read(); hist += static_cast<char>('a' + q.size());
        if (as) { w.opt->initializeActiveSet(actual); for (std::size_t k = 0; k < actual[0].size(); ++k) actual[0][k] = r.pick({A::INACTIVE, A::LOWER_BOUND, A::UPPER_BOUND}); w.opt->processActiveSet(actual); old.clear(); for (auto &ti : (*w.opt)[0].tasks_) for (std::size_t k = 0; k < ti.location_.length_; ++k) old[ti.ptr_->getDescription()].push_back(actual[0][ti.location_.offset_ + k]); old_sol = w.sol; }
        if (disturbed && r.chance(.2)) { auto d = w.model.state_; d.base_state_.velocity_(0) += r.real(-.03, .03); d.body_state_.velocity_(1) += r.real(-.02, .02); d.base_mass_ *= r.real(.9, 1.1); d.body_state_.position_.z() += r.real(-.02, .02); d.base_state_.rpy_.z() += r.real(-.5, .5); w.model.updateState(d); w.read(); c.count("disturbances"); }
        if (!as && r.chance(.05)) { w.mp = P::MPCParameters(r.i(1, 16), s, sub); w.mpc.setParameters(w.mp); horizon = w.N() * s; c.count("horizon_changes"); }
        if (!solve && r.chance(.05)) { setRobot(c, w); c.count("robot_changes"); }
        if (p.cs.cwiseAbs().maxCoeff() > 1e6) break;
    }
    c.count("steps", n); c.signature(c.desc.str() + hist);
}
#ifndef VH_LIBRARY
VH_FAMILY(any_solution, 1500, 20000) { drive(c, false); }
VH_FAMILY(driven, 300, 4000) { drive(c, true); }
int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
