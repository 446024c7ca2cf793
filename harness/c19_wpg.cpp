/**
 * Closed loops of the walking controller. An independent description of the walk (supports, intervals,
 * a mass above a CoP moving with constant velocity) is advanced next to it; predictions, constraints,
 * objective, feet and the end of the walk are compared at every step.
 */
#include "vh.h"
#include "humoto/config_msgpack.h"
#include "refqp.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "mp.h"
using Eigen::MatrixXd; using Eigen::VectorXd; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Matrix2d M2;
using namespace humoto::walking; namespace W = humoto::wpg04; typedef StanceType ST; typedef humoto::LeftOrRight LR;
static M2 rot(double a) { M2 m; m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return m; }
static V3 pendulum(const V3 &x, double dz, double w, double t)
{
    double z0 = x(0) - x(2) / (w * w), a = x(0) - z0, b = (x(1) - dz) / w, ch = std::cosh(w * t), sh = std::sinh(w * t), d = a * ch + b * sh, dd = w * (a * sh + b * ch);
    return V3(z0 + dz * t + d, dz + dd, w * w * d);
}
struct Support { ST::Type type; double theta; V2 lo, hi; V2 flo, fhi; bool fixed; };
struct Interval { double T; long ms; int support; V2 vref; };

// what the problem should be
struct Expect
{
    std::vector<Support> sup; std::vector<Interval> iv; V2 pos0; bool stop; int steps() const { return static_cast<int>(sup.size()) - 1; }
    std::vector<V2> positions(const VectorXd &f) const { std::vector<V2> p{pos0}; for (int j = 0; j < steps(); ++j) p.push_back(p.back() + rot(sup[j].theta) * f.segment(2 * j, 2)); return p; }
};
struct Walk
{
    W::WalkParameters wp; W::MPCParameters mp; W::Model model; W::MPCforWPG mpc; StanceFiniteStateMachine fsm; humoto::OptimizationProblem opt; humoto::Solution sol; bool fix_steps = false; double gv = 1, gz = 1, gp = 1, gt = 1; double h = 0.8, w = 3;
    double step_len, dmin, dmax, dist, len, wid;
    V2 foot(LR::Type f) const { return model.state_.feet_[f].position_.head(2); } double yaw(LR::Type f) const { return model.state_.feet_[f].rpy_(humoto::AngleIndex::YAW); }
    Expect expect() const
    {
        Expect e; e.stop = false; StanceFiniteStateMachine f = fsm; long N = mp.preview_horizon_length_, s = mp.sampling_time_ms_; long rest = f.current_stance_.duration_ms_ - f.current_time_ms_; ST::Type cur = f.current_stance_.type_; bool first = f.current_stance_.subtype_ == StanceSubType::FIRST, last = cur == ST::DS && f.ss_states_to_termination_ == 0 && !(first && wp.num_steps_ > 0);
        if (last && rest < N * s) { e.stop = true; return e; }
        if (cur != ST::TDS && rest > N * s) rest = N * s;      // nothing but the current stance is previewed
        double lt = yaw(LR::LEFT), rt = yaw(LR::RIGHT);
        auto support = [&](ST::Type t) { Support q; q.type = t; double hw = t == ST::DS ? (wid + dist) / 2 : wid / 2; q.lo = V2(-len / 2, -hw); q.hi = V2(len / 2, hw); q.fixed = true; q.flo.setZero(); q.fhi.setZero(); return q; };
        auto advance = [&](ST::Type from, double theta, ST::Type to) {
            Support q = support(to); 
            if (from == ST::DS) { q.theta = to == ST::LSS ? lt : rt; q.flo = q.fhi = V2(0, to == ST::LSS ? dist / 2 : -dist / 2); }
            else if (to == ST::DS) { q.theta = theta; q.flo = q.fhi = V2(0, from == ST::LSS ? -dist / 2 : dist / 2); }
            else { q.theta = theta + wp.theta_increment_; q.fixed = false; if (to == ST::LSS) { q.flo = V2(-step_len, dmin); q.fhi = V2(step_len, dmax); } else { q.flo = V2(-step_len, -dmax); q.fhi = V2(step_len, -dmin); } (to == ST::LSS ? lt : rt) = q.theta;
                   if (fix_steps) { double y = to == ST::LSS ? dmin : -dmin; q.flo = q.fhi = V2(step_len, y); } }
            return q; };
        auto velocity = [&](const Support &q, bool is_first) { V2 v = q.type == ST::DS ? (is_first ? wp.first_stance_com_velocity_ : wp.last_stance_com_velocity_) : wp.com_velocity_; return V2(rot(q.theta) * v); };
        auto put = [&](long ms, int sup_, const V2 &v) { if (static_cast<long>(e.iv.size()) < N) { Interval i; i.ms = ms; i.T = ms / 1000.; i.support = sup_; i.vref = v; e.iv.push_back(i); } };
        Support q;
        if (cur == ST::TDS)
        {   // the foot has landed: the next support is the current one
            f.shiftStance(); ST::Type nx = f.current_stance_.type_; q = support(nx); q.theta = nx == ST::LSS ? lt : nx == ST::RSS ? rt : (f.current_stance_.previous_nonds_stance_type_ == ST::LSS ? lt : rt); e.sup.push_back(q); put(rest, 0, velocity(q, false)); cur = nx; for (long k = f.current_stance_.duration_ms_ / s; k > 0; --k) put(s, 0, velocity(q, false));
        }
        else { q = support(cur); q.theta = cur == ST::LSS ? lt : cur == ST::RSS ? rt : (lt + rt) / 2; e.sup.push_back(q); V2 v = velocity(q, first); if (rest % s) put(rest % s, 0, v); for (long k = rest / s; k > 0; --k) put(s, 0, v); }
        switch (cur) { case ST::LSS: e.pos0 = foot(LR::LEFT); break; case ST::RSS: e.pos0 = foot(LR::RIGHT); break; default: e.pos0 = (foot(LR::LEFT) + foot(LR::RIGHT)) / 2; }
        while (static_cast<long>(e.iv.size()) < N)
        {
            f.shiftStance(); long tds = f.current_stance_.duration_ms_; f.shiftStance(); ST::Type nx = f.current_stance_.type_; q = advance(cur, q.theta, nx); e.sup.push_back(q); int k = e.sup.size() - 1; V2 v = velocity(q, false); put(tds, k, v); for (long j = f.current_stance_.duration_ms_ / s; j > 0; --j) put(s, k, v); cur = nx;
        }
        return e;
    }
    // the motion for given variables
    void simulate(const Expect &e, const VectorXd &x, VectorXd &cop, VectorXd &dcop, VectorXd &cs, VectorXd &fp) const
    {
        int N = e.iv.size(); cop.resize(2 * N); dcop.resize(2 * N); cs.resize(6 * N); fp.resize(2 * e.steps()); std::vector<V2> p = e.positions(x.tail(2 * e.steps())); for (int j = 0; j < e.steps(); ++j) fp.segment(2 * j, 2) = p[j + 1];
        Eigen::Matrix<double, 6, 1> st = com(); V2 z(st(0) - st(2) / (w * w), st(3) - st(5) / (w * w));
        for (int i = 0; i < N; ++i) { const Support &q = e.sup[e.iv[i].support]; V2 u = p[e.iv[i].support] + rot(q.theta) * x.segment(2 * i, 2), dz = (u - z) / e.iv[i].T; cop.segment(2 * i, 2) = u; dcop.segment(2 * i, 2) = dz; st.head(3) = pendulum(st.head(3), dz(0), w, e.iv[i].T); st.tail(3) = pendulum(st.tail(3), dz(1), w, e.iv[i].T); cs.segment(6 * i, 6) = st; z = u; }
    }
    Eigen::Matrix<double, 6, 1> com() const { Eigen::Matrix<double, 6, 1> s; auto &c = model.state_.com_state_; s << c.position_(0), c.velocity_(0), c.acceleration_(0), c.position_(1), c.velocity_(1), c.acceleration_(1); return s; }
    double objective(const Expect &e, const VectorXd &x) const
    {
        VectorXd cop, dcop, cs, fp; simulate(e, x, cop, dcop, cs, fp); int N = e.iv.size(); double f = 0; for (int i = 0; i < N; ++i) f += gv * gv * (V2(cs(6 * i + 1), cs(6 * i + 4)) - e.iv[i].vref).squaredNorm(); return 0.5 * (f + gz * gz * dcop.squaredNorm() + gp * gp * x.head(2 * N).squaredNorm());
    }
};
static double scaleOf(const VectorXd &v) { return std::max(1., v.size() ? v.cwiseAbs().maxCoeff() : 0.); }
static void agree(vh::Case &c, const VectorXd &a, const VectorXd &b, double tol, double scale, const std::string &key, const std::string &msg) { c.check(a.size() == b.size(), key + "/size", msg + " " + std::to_string(a.size()) + " not " + std::to_string(b.size())); c.nearM(a / scale, b / scale, tol, key, msg); }

static void setup(vh::Case &c, Walk &w, bool drive)
{
    auto &r = c.rng; long s = r.pick({100, 100, 80, 40, 60}), sub, tds = r.chance(0.6) ? s : 20 * r.i(1, s / 20); std::vector<long> subs; for (long k : {s, s / 2, 20L, s / 4, s / 5, 10L}) if (k > 0 && s % k == 0 && tds % k == 0) subs.push_back(k); sub = r.chance(0.4) && tds == s ? s : r.pick(subs);
    int N = drive ? r.pick({16, 16, 12, 10, 20}) : r.i(2, 16); w.mp = W::MPCParameters(N, s, sub, tds); w.wp.ss_duration_ms_ = s * r.i(drive ? 5 : 1, 9); w.wp.tds_duration_ms_ = tds; w.wp.first_stance_duration_ms_ = r.chance(0.4) ? sub * r.i(1, 30) : s * r.i(1, 8); w.wp.last_stance_duration_ms_ = s * N + s * r.i(0, 6); w.wp.num_steps_ = r.chance(0.08) ? 0 : r.i(2, 6);
    w.wp.first_stance_ = r.pick({ST::DS, ST::DS, ST::LSS, ST::RSS}); w.wp.first_ss_type_ = r.pick({ST::LSS, ST::RSS}); if (w.wp.first_stance_ != ST::DS) { if (w.wp.first_stance_duration_ms_ % s) w.wp.first_stance_duration_ms_ = s * r.i(1, 8); if (w.wp.num_steps_ == 0) w.wp.num_steps_ = 2; }
    w.wp.com_velocity_ << r.real(-0.2, 0.3), r.real(-0.05, 0.05); w.wp.first_stance_com_velocity_ << r.real(-0.2, 0.3), r.real(-0.1, 0.1); w.wp.last_stance_com_velocity_ << (r.chance(0.7) ? 0 : r.real(-0.1, 0.1)), 0; w.wp.theta_increment_ = r.chance(0.4) ? 0 : r.real(-0.2, 0.2);
    w.step_len = 0.2; w.dmin = 0.19; w.dmax = 0.3; w.dist = 0.19; w.len = 0.1372; w.wid = 0.058;
    w.h = r.real(0.4, 1.1); w.w = std::sqrt(humoto::g_gravitational_acceleration / w.h); double phi = r.chance(0.4) ? 0 : r.real(-3, 3); V2 o = r.chance(0.4) ? V2(0, 0) : V2(r.real(-2, 2), r.real(-2, 2));
    RobotFootParameters feet;
    if (r.chance(0.5))
    {
        w.step_len = r.real(.05, .4); w.dmin = r.real(.1, .25); w.dmax = w.dmin + r.real(.02, .2); w.dist = r.real(w.dmin, w.dmax); w.len = r.real(.05, .3); w.wid = r.real(.03, .12);
        mp::Tree f = mp::Tree::map(); f.add("max_step_len", mp::Tree::real(w.step_len)); f.add("min_feet_dist", mp::Tree::real(w.dmin)); f.add("max_feet_dist", mp::Tree::real(w.dmax)); f.add("feet_dist_default", mp::Tree::real(w.dist)); f.add("foot_length", mp::Tree::real(w.len)); f.add("foot_width", mp::Tree::real(w.wid));
        mp::Temp file("feet.msgpack"); mp::spill(file, mp::encode(mp::section("RobotFootParameters", f))); humoto::config::msgpack::Reader reader(file); feet.readConfig(reader, true); c.count("feet_configured");
    }
    w.model.setFootParameters(feet); W::ModelState st; st.W::ModelState::set(feet, w.h); V2 lp = o + rot(phi) * V2(0, w.dist / 2), rp = o - rot(phi) * V2(0, w.dist / 2); double fz = r.chance(0.5) ? 0 : r.real(-0.1, 0.1); auto L = st.feet_.getLeft(), R = st.feet_.getRight(); L.position_ << lp, fz; R.position_ << rp, fz; L.rpy_ << 0, 0, phi; R.rpy_ << 0, 0, phi;
    auto com = st.com_state_; V2 at = w.wp.first_stance_ == ST::LSS ? lp : w.wp.first_stance_ == ST::RSS ? rp : o; com.position_ << at + V2(r.real(-.01, .01), r.real(-.01, .01)), w.h; com.velocity_.setZero(); com.velocity_(0) = r.real(-.05, .05); com.acceleration_.setZero(); if (!drive) com.acceleration_.head(2) << r.real(-1, 1), r.real(-1, 1); st.set(w.wp.first_stance_, com, L, R); w.model.updateState(st);
    w.fsm = StanceFiniteStateMachine(w.wp); w.mpc.setParameters(w.mp); w.fix_steps = r.chance(0.15);
    if (r.chance(0.5)) { w.gv = r.real(0.3, 2); w.gz = r.real(0.1, 1); w.gp = r.real(1, 15); w.gt = r.real(0.5, 2); } else { w.gv = 0.707106781186548; w.gz = 0.223606797749979; w.gp = 12.2474487139159; w.gt = 1; }
    w.opt.reset(2); std::vector<humoto::TaskSharedPointer> t0{humoto::TaskSharedPointer(new W::TaskFootstepBounds(w.fix_steps)), humoto::TaskSharedPointer(new W::TaskCoPBounds()), humoto::TaskSharedPointer(new W::TaskTerminalConstraint(w.gt))}, t1{humoto::TaskSharedPointer(new W::TaskCoMVelocity(w.gv)), humoto::TaskSharedPointer(new W::TaskCoPVelocity(w.gz)), humoto::TaskSharedPointer(new W::TaskCoPPosition(w.gp))}; r.shuffle(t0); r.shuffle(t1); for (auto &t : t0) w.opt.pushTask(t, 0); for (auto &t : t1) w.opt.pushTask(t, 1);
    c.desc << "N " << N << " sampling " << s << "/" << sub << "/" << tds << " stances " << w.wp.first_stance_duration_ms_ << "," << w.wp.ss_duration_ms_ << "," << w.wp.last_stance_duration_ms_ << " first " << w.wp.first_stance_ << "/" << w.wp.first_ss_type_ << " steps " << w.wp.num_steps_ << " turn " << w.wp.theta_increment_ << " height " << w.h;
}
struct Feet { humoto::rigidbody::RigidBodyState f[2]; };
static void walk(vh::Case &c, bool drive)
{
    auto &r = c.rng; Walk w; setup(c, w, drive); const int most = w.mp.preview_horizon_length_; long limit = drive ? 400 : r.i(1, 40), n = 0, t = 0, sub = w.mp.subsampling_time_ms_; bool ended = false, disturbed = drive && r.chance(0.4), changing = r.chance(0.3); const double tol = 1e-8; std::string hist; bool as = r.chance(0.3); humoto::ActiveSet guess, actual; std::vector<int> old_cop, old_foot; humoto::Solution old_sol;
    // a part of the walk is skipped now and then by jumping over the first stances
    for (; n < limit; ++n)
    {
        std::string at = "step " + std::to_string(n) + " t " + std::to_string(t); Expect e = w.expect(); auto status = w.mpc.update(w.model, w.fsm, w.wp); c.check((status == humoto::ControlProblemStatus::STOPPED) == e.stop, "walk/status", at); if (e.stop) { ended = true; c.count("walks_ended"); break; }
        int N = e.iv.size(), nv = 2 * N + 2 * e.steps(); hist += static_cast<char>('a' + e.steps());
        if (as) w.opt.form(w.sol, guess, w.model, w.mpc); else w.opt.form(w.sol, w.model, w.mpc);
        if (as)
        {
            typedef humoto::ConstraintActivationType A; int ns = e.steps(), os = static_cast<int>(old_foot.size()) / 2; std::map<std::string, std::vector<int>> g; for (auto &ti : w.opt[0].tasks_) for (std::size_t k = 0; k < ti.location_.length_; ++k) g[ti.ptr_->getDescription()].push_back(guess[0][ti.location_.offset_ + k]); std::vector<int> wc(2 * N, A::INACTIVE), wf(2 * ns, w.fix_steps ? A::EQUALITY : A::INACTIVE);
            if (n) { for (int k = 0; k + 2 < 2 * N; ++k) wc[k] = old_cop[k + 2]; if (!w.fix_steps) { int skip = os > ns ? 2 : 0; for (int k = 0; k < 2 * ns && k + skip < 2 * os; ++k) wf[k] = old_foot[k + skip]; } if (os > ns) c.count("steps_left_horizon"); if (os < ns) c.count("steps_entered_horizon"); }
            c.check(g["TaskCoPBounds"] == wc, "active_set/cop_guess", at); if (std::abs(os - ns) <= 1 || !n) c.check(g["TaskFootstepBounds"] == wf, "active_set/footstep_guess", at + " " + std::to_string(os) + " -> " + std::to_string(ns) + " steps");
            if (n) { humoto::Solution gs; w.mpc.guessSolution(gs, old_sol); VectorXd x = VectorXd::Zero(nv); for (int k = 0; k + 2 < 2 * N; ++k) x(k) = old_sol.x_(k + 2); int skip = os > ns ? 2 : 0; for (int k = 0; k < 2 * ns && k + skip < 2 * os; ++k) x(2 * N + k) = old_sol.x_(2 * N + k + skip); if (std::abs(os - ns) <= 1) c.nearM(gs.x_, x, 0, "guess/solution", at); }
        }
        c.check(w.sol.getNumberOfVariables() == static_cast<std::size_t>(nv), "problem/variables", at + " " + std::to_string(w.sol.getNumberOfVariables()) + " not " + std::to_string(nv)); c.check(w.sol.getSolutionPartLocation("CoP").length_ == static_cast<std::size_t>(2 * N) && w.sol.getSolutionPartLocation("footpos").length_ == static_cast<std::size_t>(2 * e.steps()), "problem/parts", at);
        // constraints
        VectorXd lb(nv), ub(nv); for (int i = 0; i < N; ++i) { lb.segment(2 * i, 2) = e.sup[e.iv[i].support].lo; ub.segment(2 * i, 2) = e.sup[e.iv[i].support].hi; } for (int j = 0; j < e.steps(); ++j) { lb.segment(2 * N + 2 * j, 2) = e.sup[j + 1].flo; ub.segment(2 * N + 2 * j, 2) = e.sup[j + 1].fhi; }
        humoto::QPProblem_ILU_ALU q_; w.opt.getQPProblem(q_, w.sol, true); const humoto::QPProblem_ILU_ALU &q = q_; agree(c, q.getSolutionLowerBounds(), lb, 1e-12, 1, "constraints/lower", at); agree(c, q.getSolutionUpperBounds(), ub, 1e-12, 1, "constraints/upper", at); c.check(q.getGeneralConstraints().getNumberOfConstraints() == 2, "constraints/number", at);
        auto probe = [&](const VectorXd &x, const std::string &what)
        {
            std::string m = at + " " + what; VectorXd cop, dcop, cs, fp; w.simulate(e, x, cop, dcop, cs, fp); double sc = scaleOf(cs); agree(c, w.mpc.cop_profile, cop, tol, scaleOf(cop), "prediction/cop", m); agree(c, w.mpc.dcop_profile, dcop, tol, std::max(sc, scaleOf(dcop)), "prediction/cop_velocity", m); agree(c, w.mpc.cstate_profile, cs, tol, sc, "prediction/state", m); agree(c, w.mpc.footpos_profile, fp, tol, scaleOf(fp), "prediction/footsteps", m);
            V2 cap = w.gt * V2(cs(6 * N - 5) + cs(6 * N - 4) / w.w, cs(6 * N - 2) + cs(6 * N - 1) / w.w), got = q.getGeneralConstraints().getA() * x - q.getGeneralConstraints().getLowerBounds(), gu = q.getGeneralConstraints().getA() * x - q.getGeneralConstraints().getUpperBounds(); agree(c, got, cap, tol, sc, "constraints/terminal", m); agree(c, gu, cap, tol, sc, "constraints/terminal", m);
            VectorXd z = VectorXd::Zero(nv); double f0 = w.objective(e, z), f1 = w.objective(e, x), d = 0.5 * x.dot(q.getHessian() * x) + q.getGradient().dot(x); c.near(d / std::max(1., f0 + f1), (f1 - f0) / std::max(1., f0 + f1), 1e-7, "objective/value", m); c.count("predictions");
        };
        auto random = [&](double k) { VectorXd x(nv); for (int i = 0; i < nv; ++i) x(i) = r.real(lb(i), ub(i)) + k * r.real(-0.1, 0.1); return x; };
        humoto::Solution ps; ps.initialize(w.mpc.getSolutionStructure()); bool probed = r.chance(drive ? 0.3 : 0.7); if (probed) { VectorXd x = random(r.pick({0., 1., 10.})); ps.x_ = x; w.mpc.parseSolution(ps); probe(x, "probe"); if (r.chance(0.2)) { x = random(1.); ps.x_ = x; w.mpc.parseSolution(ps); probe(x, "second probe"); } }
        // what is applied
        VectorXd x = random(0.);
        if (drive) { MatrixXd H = q.getHessian(); H.diagonal().array() += 1e-8; MatrixXd C(2 * nv, nv); C << MatrixXd::Identity(nv, nv), -MatrixXd::Identity(nv, nv); VectorXd d(2 * nv); d << lb, -ub; VectorXd y; int it = 0; if (refqp::solve(H, q.getGradient(), q.getGeneralConstraints().getA(), q.getGeneralConstraints().getLowerBounds(), C, d, y, &it)) { x = y; c.count("solved"); if (it > 0) c.count("active_constraints"); } else { c.count("unsolvable"); break; } }
        w.sol.x_ = x; w.sol.return_status_ = humoto::SolverStatus::OK; VectorXd cop, dcop, cs, fp; w.simulate(e, x, cop, dcop, cs, fp); W::ModelState next; Eigen::Matrix<double, 6, 1> st = w.com(); ST::Type old = w.model.state_.stance_type_;
        // feet which stand, and the one which is landing
        std::vector<V2> pos = e.positions(x.tail(2 * e.steps())); bool ss = old == ST::LSS || old == ST::RSS; humoto::rigidbody::RigidBodyState landing; LR::Type lf = old == ST::LSS ? LR::RIGHT : LR::LEFT, sf = old == ST::LSS ? LR::LEFT : LR::RIGHT; V2 lpos(0, 0); double lyaw = 0; if (ss && e.steps() > 0) { lyaw = e.sup[1].theta; lpos = pos[1]; if (e.sup[1].type == ST::DS) lpos = pos[1] + rot(lyaw) * V2(0, lf == LR::LEFT ? w.dist / 2 : -w.dist / 2); }
        double lz = w.model.state_.feet_[sf].position_.z(); humoto::rigidbody::RigidBodyState before[2] = {w.model.state_.feet_.getLeft(), w.model.state_.feet_.getRight()};
        if (!probed && r.chance(0.5)) { c.mustReject([&] { w.mpc.getNextModelState(w.fsm, w.model); }, "order/not_parsed"); c.mustReject([&] { w.mpc.getCoMState(w.model, 0); }, "order/not_parsed"); }
        w.fsm.shiftTime(sub); t += sub; bool direct = !probed && r.chance(0.5); if (direct) { next = w.mpc.getNextModelState(w.sol, w.fsm, w.model); c.mustReject([&] { w.mpc.getNextModelState(w.sol, w.fsm, w.model); }, "order/parsed_twice"); } else { w.mpc.parseSolution(w.sol); next = w.mpc.getNextModelState(w.fsm, w.model); } if (r.chance(0.5)) probe(x, "applied");
        // the motion in between
        { long total = 0; for (auto &i : e.iv) total += i.ms; for (int k = 0; k < 2; ++k) { long tm = k == 0 ? sub : r.chance(0.1) ? total : r.i(0, total); long left = tm; int i = 0; while (left > e.iv[i].ms) left -= e.iv[i++].ms; Eigen::Matrix<double, 6, 1> b = i ? Eigen::Matrix<double, 6, 1>(cs.segment(6 * i - 6, 6)) : st; V3 X = pendulum(b.head(3), dcop(2 * i), w.w, left / 1000.), Y = pendulum(b.tail(3), dcop(2 * i + 1), w.w, left / 1000.); auto g = w.mpc.getCoMState(w.model, tm); double sc = std::max(1., std::max(X.cwiseAbs().maxCoeff(), Y.cwiseAbs().maxCoeff())); agree(c, g.position_, V3(X(0), Y(0), w.h), tol, sc, "motion/position", at); agree(c, g.velocity_, V3(X(1), Y(1), 0), tol, sc, "motion/velocity", at); agree(c, g.acceleration_, V3(X(2), Y(2), 0), tol, sc, "motion/acceleration", at); } c.mustReject([&] { w.mpc.getCoMState(w.model, total + 1); }, "motion/beyond"); c.count("instants"); }
        if (ss && e.steps() > 0) { auto g = w.mpc.getFootLandingState(w.model); agree(c, g.position_, V3(lpos(0), lpos(1), lz), tol, scaleOf(lpos), "landing/position", at); c.near(g.rpy_(2), lyaw, tol, "landing/yaw", at); c.check(g.rpy_(0) == 0 && g.rpy_(1) == 0 && g.velocity_.isZero() && g.acceleration_.isZero(), "landing/rest", at); c.count("landings_predicted"); } else c.mustReject([&] { w.mpc.getFootLandingState(w.model); }, "landing/none", at);
        { V3 X = pendulum(st.head(3), dcop(0), w.w, sub / 1000.), Y = pendulum(st.tail(3), dcop(1), w.w, sub / 1000.); auto &g = next.com_state_; double sc = std::max(1., std::max(X.cwiseAbs().maxCoeff(), Y.cwiseAbs().maxCoeff())); agree(c, g.position_, V3(X(0), Y(0), w.h), tol, sc, "next/position", at); agree(c, g.velocity_, V3(X(1), Y(1), 0), tol, sc, "next/velocity", at); agree(c, g.acceleration_, V3(X(2), Y(2), 0), tol, sc, "next/acceleration", at);
          if (sub == e.iv[0].ms) { agree(c, V3(g.position_(0), g.velocity_(0), g.acceleration_(0)), cs.segment(0, 3), tol, sc, "next/first_predicted", at); c.count("whole_intervals"); } else c.count("subsampled"); }
        c.check(next.stance_type_ == w.fsm.current_stance_.type_ && next.next_stance_type_ == w.fsm.getNextStance().type_, "next/stance", at);
        w.model.updateState(next);
        ST::Type now = w.model.state_.stance_type_; c.check(now == w.fsm.current_stance_.type_, "model/stance", at); bool landed = ss && now == ST::TDS; if (landed) c.count("landings");
        for (int k = 0; k < 2; ++k)
        {
            LR::Type f = k == 0 ? LR::LEFT : LR::RIGHT; if ((now == ST::LSS && k == 1) || (now == ST::RSS && k == 0)) continue; auto &g = w.model.state_.feet_[f];
            if (landed && f == lf) { agree(c, g.position_, V3(lpos(0), lpos(1), lz), tol, scaleOf(lpos), "feet/landed", at); c.near(g.rpy_(2), lyaw, tol, "feet/landed_yaw", at); } else c.check(g.position_ == before[k].position_ && g.rpy_ == before[k].rpy_, "feet/moved", at);
        }
        { V2 s; ST::Type eff = now == ST::TDS ? w.fsm.getNextStance().type_ : now; s = eff == ST::LSS ? w.foot(LR::LEFT) : eff == ST::RSS ? w.foot(LR::RIGHT) : V2((w.foot(LR::LEFT) + w.foot(LR::RIGHT)) / 2); c.nearM(w.model.current_support_position_, s, 1e-12, "model/support", at); }
        if (as)
        {
            w.opt.initializeActiveSet(actual); for (std::size_t k = 0; k < actual[0].size(); ++k) actual[0][k] = r.pick({humoto::ConstraintActivationType::INACTIVE, humoto::ConstraintActivationType::LOWER_BOUND, humoto::ConstraintActivationType::UPPER_BOUND}); w.opt.processActiveSet(actual); c.check(guess.size() == 2 && guess[0].size() == static_cast<std::size_t>(2 * N + 2 * e.steps() + 2), "active_set/size", at); c.count("guesses");
            for (auto &ti : w.opt[0].tasks_) { std::string id = ti.ptr_->getDescription(); if (id == "TaskTerminalConstraint") continue; std::vector<int> &o = id == "TaskCoPBounds" ? old_cop : old_foot; o.clear(); for (std::size_t k = 0; k < ti.location_.length_; ++k) o.push_back(actual[0][ti.location_.offset_ + k]); } old_sol = w.sol;
        }
        if (disturbed && r.chance(0.1)) { auto s = w.model.state_; s.com_state_.velocity_(0) += r.real(-.03, .03); s.com_state_.velocity_(1) += r.real(-.02, .02); w.model.state_ = s; c.count("disturbances"); }
        if (!as && !drive && r.chance(0.05)) { w.mp = W::MPCParameters(r.i(2, most), w.mp.sampling_time_ms_, sub, w.mp.tds_sampling_time_ms_); w.mpc.setParameters(w.mp); c.count("horizon_changes"); }
        if (changing && r.chance(0.1)) { w.wp.com_velocity_ << r.real(-0.2, 0.3), r.real(-0.05, 0.05); w.wp.theta_increment_ = r.real(-0.2, 0.2); c.count("commands_changed"); }
        if (w.com().cwiseAbs().maxCoeff() > 1e6) break;
    }
    c.count("steps", n); if (drive && ended && !disturbed) c.count("walks_completed"); c.signature(c.desc.str() + hist);
}
#ifndef VH_LIBRARY
VH_FAMILY(any_solution, 1600, 20000) { walk(c, false); }
VH_FAMILY(driven, 280, 3000) { walk(c, true); }
int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
