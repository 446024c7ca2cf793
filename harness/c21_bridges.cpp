// C21: the bridges to QP solvers. The libraries are stand-ins which keep what they were given and solve it with refqp.
#include "vh.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "problem.h"
#include "mp.h"
using namespace vp; using standin::rec; typedef humoto::ConstraintActivationType CT;
static const double BIG = 1e18;

// ------------------------------------------------------------------------------------------------ problems with a known feasible point
struct Setup { int n; std::vector<std::vector<Spec>> sp; VectorXd x0; MatrixXd H; VectorXd g; };
static Spec around(vh::Rng &r, const VectorXd &x0, const std::vector<Body> &bodies, std::set<unsigned> &fixed, double p_eq, int &eq_left)
{
    const int n = x0.size();
    for (;;)
    {
        Body body = r.pick(bodies); bool eq = r.chance(p_eq) && eq_left > 0; Spec s = randomSpec(r, body, eq ? B : r.pick(std::vector<Bnd>{LU, L, U}), n, false, 4);
        if (eq && s.m > eq_left) continue;
        for (int i = 0; i < s.Aloc.rows(); ++i) do for (int k = 0; k < s.Aloc.cols(); ++k) s.Aloc(i, k) = r.chance(0.3) ? r.i(-2, 2) : r.real(-2, 2); while (s.Aloc.row(i).norm() < 0.3);
        for (int i = 0; i < s.gains.size(); ++i) s.gains[i] = r.real(0.3, 3) * (r.chance(0.5) ? 1 : -1);
        if (s.simple())
        {
            std::set<unsigned> seen; bool again = false; for (unsigned i : s.idx) { again = again || (eq && (fixed.count(i) || seen.count(i))); seen.insert(i); } if (again) continue;
            if (eq) for (unsigned i : s.idx) fixed.insert(i);
        }
        if (eq && r.chance(0.25))
        {   // homogeneous, if it can be
            if (!s.simple()) { VectorXd xl = body == AS ? VectorXd(x0.segment(s.offset, s.Aloc.cols())) : x0; if (xl.squaredNorm() > 0.01) { s.Aloc -= (s.Aloc * xl) * xl.transpose() / xl.squaredNorm(); if (s.Aloc.rowwise().norm().minCoeff() > 0.1 && n > 1) { s.bnd = B0; } } }
        }
        s.interpret(); VectorXd v = s.full * x0;
        for (int i = 0; i < s.m; ++i) { s.b[i] = v[i]; double a = r.chance(0.3) ? 0 : r.real(0.05, 2), b = r.chance(0.3) && a > 0 ? 0 : r.real(0.05, 2); s.lb[i] = v[i] - a; s.ub[i] = v[i] + b; }
        if (s.body == I && s.bnd == LU && r.chance(0.3)) for (int i = 0; i < s.m; ++i) { if (r.chance(0.5)) s.lb[i] = v[i] - 1e3; }
        if (eq) eq_left -= s.m;
        s.interpret(); return s;
    }
}
static bool setup(vh::Rng &r, Setup &q, const std::vector<Body> &bodies, int max_n = 7)
{
    for (int trial = 0; trial < 40; ++trial)
    {
        q = Setup(); int n = q.n = r.i(1, max_n); q.x0 = VectorXd(n); for (int i = 0; i < n; ++i) q.x0[i] = r.chance(0.15) ? 0 : r.normal();
        if (r.chance(0.85))
        {
            std::vector<Spec> l; std::set<unsigned> fixed; int left = n - 1; int k = r.i(1, 5); double pe = r.pick({0., 0.3, 0.3, 0.6});
            for (int i = 0; i < k; ++i) l.push_back(around(r, q.x0, bodies, fixed, pe, left));
            int m = 0; for (auto &s : l) if (s.equality()) m += s.m;
            MatrixXd E(m, n); m = 0; for (auto &s : l) if (s.equality()) { E.middleRows(m, s.m) = s.full; m += s.m; }
            if (m > 0) { Eigen::JacobiSVD<MatrixXd> svd(E); if (svd.singularValues()(m - 1) < 0.1) continue; }
            q.sp.push_back(l);
        }
        std::vector<Spec> obj = randomLevel(r, n, 4, true, false);
        if (r.chance(0.5)) for (int k = 0, m = obj.size(); k < m; ++k) if (r.chance(0.5)) obj[k] = randomSpec(r, r.pick(std::vector<Body>{I, GI}), obj[k].bnd, n, false);
        bool simple = r.chance(0.3); if (simple) { obj.clear(); for (int k = r.i(1, 3); k > 0; --k) obj.push_back(randomSpec(r, r.pick(std::vector<Body>{I, GI}), r.pick(eqBnds()), n, false)); }
        if (r.chance(0.7)) { Spec s; s.body = simple ? GI : r.pick(std::vector<Body>{A, GI}); s.bnd = r.pick(eqBnds()); s.n = s.m = n; s.offset = 0; s.b = r.gvec(n); s.gains = VectorXd(n); s.Aloc = r.gmat(n, n); for (int i = 0; i < n; ++i) { s.idx.push_back(i); s.gains[i] = r.real(0.5, 2); s.Aloc(i, i) += 2; } s.interpret(); obj.insert(obj.begin() + r.i(0, obj.size()), s); }
        q.sp.push_back(obj); q.H = MatrixXd::Zero(n, n); q.g = VectorXd::Zero(n); for (auto &s : obj) { q.H += s.full.transpose() * s.full; q.g -= s.full.transpose() * s.rlb; }
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(q.H); if (es.eigenvalues()(0) < 0.05 || es.eigenvalues()(n - 1) / es.eigenvalues()(0) > 1e4) continue;
        return true;
    }
    return false;
}
static double objective(const Setup &q, const VectorXd &x) { double f = 0; for (auto &s : q.sp.back()) f += 0.5 * (s.full * x - s.rlb).squaredNorm(); return f; }
static double worst(const Setup &q, const VectorXd &x)
{
    double w = 0; if (q.sp.size() < 2) return 0;
    for (auto &s : q.sp[0]) { VectorXd v = s.full * x; for (int i = 0; i < s.m; ++i) w = std::max({w, s.rlb[i] - v[i], v[i] - s.rub[i]}); }
    return w;
}
static bool reference(const Setup &q, double reg, VectorXd &x)
{
    std::vector<std::pair<VectorXd, double>> e, c; const int n = q.n;
    if (q.sp.size() > 1) for (auto &s : q.sp[0]) for (int i = 0; i < s.m; ++i)
    {
        VectorXd a = s.full.row(i).transpose(); if (s.equality()) { e.push_back({a, s.rlb[i]}); continue; }
        if (s.rlb[i] > -BIG) c.push_back({a, s.rlb[i]}); if (s.rub[i] < BIG) c.push_back({-a, -s.rub[i]});
    }
    MatrixXd Ce(e.size(), n), C(c.size(), n); VectorXd be(e.size()), d(c.size());
    for (std::size_t i = 0; i < e.size(); ++i) { Ce.row(i) = e[i].first.transpose(); be[i] = e[i].second; }
    for (std::size_t i = 0; i < c.size(); ++i) { C.row(i) = c[i].first.transpose(); d[i] = c[i].second; }
    return refqp::solve(q.H + reg * MatrixXd::Identity(n, n), q.g, Ce, be, C, d, x);
}
static void checkOptimum(vh::Case &c, const Setup &q, const humoto::Solution &sol, double reg, const std::string &key)
{
    c.check(sol.return_status_ == humoto::SolverStatus::OK, key + "/status"); c.check(sol.x_.rows() == q.n, key + "/size");
    double scale = 1 + q.x0.cwiseAbs().maxCoeff() + sol.x_.cwiseAbs().maxCoeff();
    c.check(worst(q, sol.x_) < 1e-6 * scale, key + "/infeasible", std::to_string(worst(q, sol.x_)));
    VectorXd x; if (reference(q, reg, x)) { c.nearM(sol.x_, x, 1e-5 * (1 + x.cwiseAbs().maxCoeff()), key + "/optimum"); c.count("optima"); } else c.count("reference_failed");
    double f = objective(q, sol.x_) + 0.5 * reg * sol.x_.squaredNorm();
    for (int k = 0; k < 4; ++k)
    {   // no better feasible point
        VectorXd y = q.x0; if (k > 0) { y = q.x0 + c.rng.real(0, 1) * (sol.x_ - q.x0) + 0.2 * c.rng.gvec(q.n); if (worst(q, y) > 0) continue; }
        c.check(f <= objective(q, y) + 0.5 * reg * y.squaredNorm() + 1e-6 * (1 + std::fabs(f)), key + "/better_point"); c.count("feasible_points");
    }
    double slack = 1; if (q.sp.size() > 1) for (auto &s : q.sp[0]) if (!s.equality()) { VectorXd v = s.full * sol.x_; for (int i = 0; i < s.m; ++i) slack = std::min({slack, v[i] - s.rlb[i], s.rub[i] - v[i]}); }
    if (slack < 1e-7) c.count("with_active_inequalities");
}
static std::string sig(const Problem &p, const Setup &q) { return p.describe() + vh::hashM(q.x0) + vh::hashM(q.H); }
static const std::vector<Body> NOGI{A, AS, I};

template <class P> static void spoil(P &p, vh::Rng &r) { p.crash_on_any_failure_ = r.chance(0.5); }

// what qpOASES says about a row of a task
static CT::Type expectedType(const std::vector<Made> &level, const Spec &s, int row, int general_row, const VectorXd &wb, const VectorXd &wc)
{
    if (!s.simple()) { double w = wc[general_row]; return w < 0 ? CT::LOWER_BOUND : w > 0 ? CT::UPPER_BOUND : CT::INACTIVE; }
    unsigned v = s.idx[row]; double lb = -BIG, ub = BIG; for (auto &m : level) { const Spec &o = m.hooks->spec; if (!o.simple()) continue; for (int i = 0; i < o.m; ++i) if (o.idx[i] == v) { lb = std::max(lb, o.rlb[i]); ub = std::min(ub, o.rub[i]); } }
    if (wb[v] < 0) return s.rlb[row] >= lb ? CT::LOWER_BOUND : CT::INACTIVE;
    if (wb[v] > 0) return s.rub[row] <= ub ? CT::UPPER_BOUND : CT::INACTIVE;
    return CT::INACTIVE;
}
static void checkActiveSet(vh::Case &c, Problem &p, const humoto::ActiveSet &as, const VectorXd &wb, const VectorXd &wc, const std::string &key)
{
    std::size_t nl = p.levels.size(); c.check(as.size() == nl, key + "/levels"); if (as.size() != nl) return;
    for (std::size_t l = 0; l < nl; ++l)
    {
        c.check((int) as[l].size() == p.rows(l), key + "/size");
        if (l + 1 == nl) { for (std::size_t i = 0; i < as[l].size(); ++i) c.check(as[l][i] == CT::EQUALITY, key + "/objective", p.describe()); continue; }
        for (auto &m : p.levels[l])
        {
            const Spec &s = m.hooks->spec; humoto::Location loc = p.location(l, m);
            for (int i = 0; i < s.m; ++i)
            {
                CT::Type want = expectedType(p.levels[l], s, i, loc.offset_ + i, wb, wc);
                c.check(as[l][loc.offset_ + i] == want, key + "/" + s.type(), p.describe() + " row " + std::to_string(i) + " is " + std::to_string(as[l][loc.offset_ + i]) + " want " + std::to_string(want));
                c.count(want == CT::INACTIVE ? "rows_inactive" : want == CT::LOWER_BOUND ? "rows_lower" : "rows_upper");
            }
        }
    }
}

VH_FAMILY(qpoases_histories, 2500, 50000)
{
    auto &r = c.rng; typedef humoto::qpoases::SolverParameters P; int before = rec().created - rec().destroyed; std::string s;
    {
        std::unique_ptr<humoto::qpoases::Solver> solver; P par; spoil(par, r); bool by_ctor = r.chance(0.3); if (by_ctor) solver.reset(new humoto::qpoases::Solver(par)); else { solver.reset(new humoto::qpoases::Solver); if (r.chance(0.5)) solver->setParameters(par); else par = P(); }
        int rounds = r.i(1, 4); Problem p; humoto::qpoases::Solution sol; humoto::Solution plain; humoto::ActiveSet as_guess, as;
        for (int k = 0; k < rounds; ++k)
        {
            Setup q; if (!setup(r, q, NOGI)) continue; p.build(q.n, q.sp); bool typed = r.chance(0.6); humoto::Solution &x = typed ? static_cast<humoto::Solution &>(sol) : plain; rec() = standin::Record{rec()}; auto &R = rec(); R.force_status = R.force_iterations = -1; R.force_working_set = R.force_x = false;
            humoto::Solution gs, old; bool with_as = r.chance(0.4), with_gs = r.chance(0.4); bool changed = k == 0 || r.chance(0.3); if (changed) { par.max_cpu_time_ = r.pick({0., 0.5, 1e-3}); par.max_number_of_iterations_ = r.i(100, 500); }
            p.opt.form(x, as_guess, p.model, p.control); gs.initialize(x); gs.x_ = r.gvec(q.n); c.desc << (with_as ? "as " : "") << (with_gs ? "gs " : "") << p.describe() << "; "; s += sig(p, q);
            for (auto &m : p.levels[0]) { const Spec &t = m.hooks->spec; humoto::Location loc = p.location(0, m); if (p.levels.size() > 1 && !t.equality()) for (int i = 0; i < t.m; ++i) as_guess[0][loc.offset_ + i] = r.pick({CT::INACTIVE, CT::LOWER_BOUND, CT::UPPER_BOUND}); }
            if (changed || r.chance(0.2)) solver->setParameters(par); else c.count("parameters_kept"); int how = r.i(0, 1); int calls = R.calls;
            if (with_as && with_gs) { if (how) solver->solve(x, as, p.opt, gs, as_guess); else solver->solve(x, p.opt, gs, as_guess); }
            else if (with_as) { if (how) solver->solve(x, as, p.opt, as_guess); else solver->solve(x, p.opt, as_guess); }
            else if (with_gs) { if (how) solver->solve(x, as, p.opt, gs); else solver->solve(x, p.opt, gs); }
            else if (how) solver->solve(x, as, p.opt); else if (r.chance(0.5)) solver->solve(x, p.opt, par); else solver->solve(x, p.opt);
            c.check(R.calls == calls + 1, "qpoases/one_solve"); checkOptimum(c, q, x, 0, "qpoases");
            c.check(R.limit == par.max_number_of_iterations_, "qpoases/iteration_limit"); c.check(R.has_time == (par.max_cpu_time_ != 0) && R.time == par.max_cpu_time_, "qpoases/time_limit");
            c.check(R.has_guess == with_gs && (!with_gs || (R.guess.array() == gs.x_.array()).all()), "qpoases/solution_guess"); if (with_gs) c.count("solution_guesses");
            if (how) { checkActiveSet(c, p, as, R.wb, R.wc, "qpoases/active_set"); c.count("active_sets"); p.opt.processActiveSet(as); }
            c.check(R.has_bounds_guess == with_as && R.has_constraints_guess == with_as, "qpoases/active_set_guess_given");
            if (with_as && p.levels.size() > 1)
            {
                std::vector<int> wantc(R.A.rows(), 99); std::vector<std::set<int>> wantb(q.n);
                for (auto &m : p.levels[0]) { const Spec &t = m.hooks->spec; humoto::Location loc = p.location(0, m); for (int i = 0; i < t.m; ++i) { CT::Type g = as_guess[0][loc.offset_ + i]; int st = g == CT::INACTIVE ? 0 : g == CT::UPPER_BOUND ? 1 : -1; if (t.simple()) { if (st) wantb[t.idx[i]].insert(st); } else wantc[loc.offset_ + i] = st; } }
                c.check(wantc == R.constraints_guess, "qpoases/constraints_guess");
                for (int v = 0; v < q.n; ++v) { int got = R.bounds_guess[v]; c.check(wantb[v].empty() ? got == 0 : wantb[v].count(got) > 0, "qpoases/bounds_guess"); }
                c.count("active_set_guesses");
            }
            if (typed) { c.check(sol.qpoases_return_value_ == qpOASES::SUCCESSFUL_RETURN && sol.number_of_iterations_ >= 0 && sol.number_of_iterations_ <= par.max_number_of_iterations_, "qpoases/iterations"); }
            if (R.A.rows() > 0) c.count("with_general_constraints"); if (R.bounds_given) c.count("with_bounds"); if (R.A.rows() == 0 && !R.bounds_given) c.count("unconstrained"); if (k) c.count("resolved");
        }
    }
    c.check(rec().created - rec().destroyed == before, "qpoases/solver_objects_leaked"); c.signature(s);
}

// any working set which the library reports is distributed to the rows it belongs to; others are refused
VH_FAMILY(qpoases_working_sets, 2500, 50000)
{
    auto &r = c.rng; Setup q; if (!setup(r, q, NOGI)) return; Problem p; p.build(q.n, q.sp); humoto::Solution sol; p.opt.form(sol, p.model, p.control); humoto::qpoases::Solver solver; auto &R = rec(); R.force_status = R.force_iterations = -1; R.force_x = true; R.fx = r.gvec(q.n); R.force_working_set = true;
    R.fwb = VectorXd::Zero(q.n); int nc = 0; if (q.sp.size() > 1) for (auto &s : q.sp[0]) if (!s.simple()) nc += s.m; R.fwc = VectorXd::Zero(nc); bool simple = false;
    VectorXd lb = VectorXd::Constant(q.n, -BIG), ub = -lb; if (q.sp.size() > 1) for (auto &s : q.sp[0]) if (s.simple()) for (int i = 0; i < s.m; ++i) { simple = true; lb[s.idx[i]] = std::max(lb[s.idx[i]], s.rlb[i]); ub[s.idx[i]] = std::min(ub[s.idx[i]], s.rub[i]); }
    for (int i = 0; i < q.n; ++i) { std::vector<double> o{0}; if (lb[i] > -BIG) o.push_back(-1); if (ub[i] < BIG) o.push_back(1); R.fwb[i] = r.pick(o); }
    for (int i = 0; i < nc; ++i) R.fwc[i] = r.pick({-1., 0., 1.});
    bool garbage = r.chance(0.15) && (nc > 0 || simple); double bad = r.pick({0.5, 2., -2., 1e-300, std::nan("")}); if (garbage) { if (nc > 0) R.fwc[r.i(0, nc - 1)] = bad; else { int v = -1; for (auto &s : q.sp[0]) if (s.simple()) v = s.idx[0]; R.fwb[v] = bad; } }
    humoto::ActiveSet as; c.desc << p.describe();
    if (garbage) { c.mustReject([&] { solver.solve(sol, as, p.opt); }, "working_set/garbage_accepted"); c.count("garbage"); c.signature(sig(p, q)); return; }
    solver.solve(sol, as, p.opt); checkActiveSet(c, p, as, R.fwb, R.fwc, "working_set"); c.nearM(sol.x_, R.fx, 1e-300, "working_set/solution");
    p.opt.processActiveSet(as); if (p.levels.size() > 1) for (auto &m : p.levels[0]) { humoto::Location loc = p.location(0, m); for (int i = 0; i < m.hooks->spec.m; ++i) c.check(m.hooks->actual()[i] == as[0][loc.offset_ + i], "working_set/task"); }
    c.count("working_sets"); c.signature(sig(p, q) + vh::hashM(R.fwb) + vh::hashM(R.fwc));
}

VH_FAMILY(qpmad_histories, 2500, 50000)
{
    auto &r = c.rng; typedef humoto::qpmad::SolverParameters P; P par; spoil(par, r); std::unique_ptr<humoto::qpmad::Solver> solver; if (r.chance(0.3)) solver.reset(new humoto::qpmad::Solver(par)); else { solver.reset(new humoto::qpmad::Solver); solver->setParameters(par); }
    int rounds = r.i(1, 4); Problem p; humoto::qpmad::Solution sol; humoto::Solution plain; std::string s;
    for (int k = 0; k < rounds; ++k)
    {
        Setup q; if (!setup(r, q, NOGI)) continue; p.build(q.n, q.sp); humoto::Solution &x = r.chance(0.6) ? static_cast<humoto::Solution &>(sol) : plain; auto &R = rec(); R.force_status = R.force_iterations = -1; R.force_x = false;
        if (r.chance(0.5)) { par.regularization_factor_ = r.pick({0., 0.1, 1.5}); par.options_.tolerance_ = r.pick({1e-12, 1e-9}); par.options_.max_iter_ = r.pick({-1, 200, 300}); }
        p.opt.form(x, p.model, p.control); c.desc << p.describe() << "; "; s += sig(p, q); int calls = R.calls; int again = r.i(1, 2);
        for (int a = 0; a < again; ++a)
        {
            if (r.chance(0.5)) { solver->setParameters(par); solver->solve(x, p.opt); } else solver->solve(x, p.opt, par);
            checkOptimum(c, q, x, par.regularization_factor_, "qpmad"); c.check(R.tolerance == par.options_.tolerance_ && R.max_iter == par.options_.max_iter_ && R.hessian_type == par.options_.hessian_type_, "qpmad/options"); if (par.regularization_factor_ > 0) c.count("regularized");
        }
        c.check(R.calls == calls + again, "qpmad/one_solve");
        if (&x == &sol) c.check(sol.qpmad_return_value_ == ::qpmad::Solver::OK && sol.getStatusDescription() == "qpmad: Ok.", "qpmad/description");
    }
    P neg; neg.regularization_factor_ = -0.1; Setup q; if (setup(r, q, NOGI)) { p.build(q.n, q.sp); p.opt.form(plain, p.model, p.control); c.mustReject([&] { solver->solve(plain, p.opt, neg); }, "qpmad/negative_regularization"); }
    c.signature(s);
}

VH_FAMILY(quadprogpp_histories, 2500, 50000)
{
    auto &r = c.rng; typedef humoto::quadprogpp::SolverParameters P; P par; spoil(par, r); std::unique_ptr<humoto::quadprogpp::Solver> solver; if (r.chance(0.3)) solver.reset(new humoto::quadprogpp::Solver(par)); else { solver.reset(new humoto::quadprogpp::Solver); solver->setParameters(par); }
    int rounds = r.i(1, 4); Problem p; humoto::quadprogpp::Solution sol; humoto::Solution plain; std::string s;
    for (int k = 0; k < rounds; ++k)
    {
        Setup q; if (!setup(r, q, allBodies())) continue; p.build(q.n, q.sp); humoto::Solution &x = r.chance(0.6) ? static_cast<humoto::Solution &>(sol) : plain; auto &R = rec(); R.force_status = R.force_iterations = -1; R.force_x = false;
        par.regularization_factor_ = r.pick({0., 0., 0.1, 1.5}); p.opt.form(x, p.model, p.control); c.desc << p.describe() << "; "; s += sig(p, q); int calls = R.calls; int again = r.i(1, 2);
        for (int a = 0; a < again; ++a)
        {
            if (r.chance(0.5)) { solver->setParameters(par); solver->solve(x, p.opt); } else solver->solve(x, p.opt, par);
            checkOptimum(c, q, x, par.regularization_factor_, "quadprogpp"); if (par.regularization_factor_ > 0) c.count("regularized");
        }
        c.check(R.calls == calls + again, "quadprogpp/one_solve");
        if (&x == &sol) c.check(sol.getStatusDescription() == "quadprogpp: Ok.", "quadprogpp/description");
    }
    P neg; neg.regularization_factor_ = -0.1; Setup q; if (setup(r, q, NOGI)) { p.build(q.n, q.sp); p.opt.form(plain, p.model, p.control); c.mustReject([&] { solver->solve(plain, p.opt, neg); }, "quadprogpp/negative_regularization"); }
    c.signature(s);
}

// failures of a library are reported, and never taken for a success
template <class S, class Par, class Sol> static void failing(vh::Case &c, const std::string &key, const std::vector<std::pair<int, humoto::SolverStatus::Status>> &codes)
{
    auto &r = c.rng; Setup q; if (!setup(r, q, NOGI)) return; bool contradiction = r.chance(0.3);
    if (contradiction) { if (q.sp.size() < 2) return; Spec s = randomSpec(r, A, L, q.n, false, 1); s.m = 1; s.Aloc = r.gmat(1, q.n); s.lb = s.ub = s.b = VectorXd::Zero(1); do s.Aloc = r.gmat(1, q.n); while (s.Aloc.norm() < 0.3 || s.Aloc.norm() > 10); Spec t = s; t.bnd = U; s.lb[0] = 1; t.ub[0] = -1; s.interpret(); t.interpret(); q.sp[0].push_back(s); q.sp[0].push_back(t); }
    Problem p; p.build(q.n, q.sp); Sol sol; humoto::Solution plain; bool typed = r.chance(0.5); humoto::Solution &x = typed ? static_cast<humoto::Solution &>(sol) : plain; p.opt.form(x, p.model, p.control);
    auto code = r.pick(codes); Par par; par.crash_on_any_failure_ = r.chance(0.5); auto &R = rec(); R.force_iterations = -1; R.force_working_set = false; R.force_x = false; R.force_status = contradiction ? -1 : code.first; S s; std::string what; c.desc << key << code.first << (contradiction ? " contradiction" : "");
    x.return_status_ = r.pick({humoto::SolverStatus::UNDEFINED, humoto::SolverStatus::OK});
    bool thrown = c.rejects([&] { s.solve(x, p.opt, par); }, key + "/assert", &what); R.force_status = -1; humoto::SolverStatus::Status want = contradiction ? humoto::SolverStatus::OTHER : code.second;
    c.check(x.return_status_ == want, key + "/status", std::to_string(x.return_status_)); bool bad = want != humoto::SolverStatus::OK; c.check(thrown == (bad && par.crash_on_any_failure_), key + (bad ? "/failure_not_reported" : "/success_rejected"), what);
    if (thrown) c.check(what.find(x.getStatusDescription()) != std::string::npos, key + "/reason");
    if (typed) { std::string d = sol.getStatusDescription(); if (key != "qpoases") c.check((d.find("Ok") != std::string::npos) == !bad, key + "/description", d + " for " + std::to_string(code.first)); else if (!contradiction) c.check(d.find("stand-in message " + std::to_string(code.first)) != std::string::npos, key + "/description", d); }
    if (bad) c.count("failures"); if (contradiction) c.count("contradictions"); c.signature(key + std::to_string(code.first) + sig(p, q));
}
VH_FAMILY(failures, 1500, 30000)
{
    typedef humoto::SolverStatus S;
    switch (c.index % 3)
    {
        case 0: failing<humoto::qpoases::Solver, humoto::qpoases::SolverParameters, humoto::qpoases::Solution>(c, "qpoases", {{0, S::OK}, {64, S::MAX_ITER}, {61, S::OTHER}, {62, S::OTHER}, {33, S::OTHER}, {1, S::OTHER}}); break;
        case 1: failing<humoto::qpmad::Solver, humoto::qpmad::SolverParameters, humoto::qpmad::Solution>(c, "qpmad", {{0, S::OK}, {1, S::OTHER}, {2, S::OTHER}, {3, S::MAX_ITER}}); break;
        default: failing<humoto::quadprogpp::Solver, humoto::quadprogpp::SolverParameters, humoto::quadprogpp::Solution>(c, "quadprogpp", {{0, S::OK}, {1, S::OTHER}});
    }
}

// hierarchies which are not QPs, and guesses or solutions of other problems, are refused
VH_FAMILY(refusals, 1200, 24000)
{
    auto &r = c.rng; Setup q; if (!setup(r, q, NOGI)) return; int what = c.index % 6, which = r.i(0, 2); Problem p; humoto::Solution sol; bool par_off = false; std::vector<std::vector<Spec>> sp = q.sp;
    auto &R = rec(); R.force_status = R.force_iterations = -1; R.force_working_set = R.force_x = false; int calls = R.calls;
    if (what == 0) { std::vector<Spec> l = randomLevel(r, q.n, 2, true, false, true, NOGI); while (sp.size() < 3) sp.insert(sp.begin(), l); }
    if (what == 1) { Spec s = randomSpec(r, r.pick(NOGI), r.pick({LU, L, U}), q.n, false); sp.back().insert(sp.back().begin() + r.i(0, sp.back().size()), s); }
    if (what == 2) par_off = true;
    p.build(q.n, sp); p.opt.form(sol, p.model, p.control); c.desc << what << " solver " << which << " " << p.describe();
    if (what < 3)
    {
        auto go = [&](int w) { if (w == 0) { humoto::qpoases::SolverParameters a; a.solve_two_levels_as_qp_ = !par_off; humoto::qpoases::Solver s(a); s.solve(sol, p.opt); } if (w == 1) { humoto::qpmad::SolverParameters a; a.solve_two_levels_as_qp_ = !par_off; humoto::qpmad::Solver s(a); s.solve(sol, p.opt); } if (w == 2) { humoto::quadprogpp::SolverParameters a; a.solve_two_levels_as_qp_ = !par_off; humoto::quadprogpp::Solver s(a); s.solve(sol, p.opt); } };
        c.mustReject([&] { go(which); }, "refusals/hierarchy" + std::to_string(what)); c.check(R.calls == calls, "refusals/solved_anyway");
    }
    if (what == 3) { humoto::Solution g; humoto::SolutionStructure st; int m = q.n; while (m == q.n) m = std::max(0, q.n + r.pick({-2, -1, 1, 2})); if (m) st.addSolutionPart("x", m); g.initialize(st, 0.); humoto::qpoases::Solver s; c.mustReject([&] { s.solve(sol, p.opt, g); }, "refusals/solution_guess"); c.check(R.calls == calls, "refusals/solved_anyway"); }
    if (what == 4)
    {
        humoto::ActiveSet g; p.opt.initializeActiveSet(g); std::vector<std::size_t> cnt; for (std::size_t l = 0; l < p.levels.size(); ++l) cnt.push_back(p.rows(l)); int k = r.i(0, 2);
        if (k == 0 && cnt.size() > 1) cnt[0] += cnt[0] > 1 && r.chance(0.5) ? -1 : 1; else if (k == 1) cnt.clear(); else cnt.push_back(2);
        g.initialize(cnt.size(), cnt); for (std::size_t l = 0; l < cnt.size(); ++l) g.set(l, CT::INACTIVE); humoto::qpoases::Solver s; c.mustReject([&] { s.solve(sol, p.opt, g); }, "refusals/active_set_guess"); c.check(R.calls == calls, "refusals/solved_anyway");
    }
    if (what == 5)
    {   // a solution which was prepared for another problem
        humoto::Solution x; humoto::SolutionStructure st; int m = q.n; while (m == q.n) m = std::max(1, q.n + r.pick({-2, -1, 1, 2})); st.addSolutionPart("x", m); x.initialize(st, 0.);
        c.mustReject([&] { if (which == 0) { humoto::qpoases::Solver s; s.solve(x, p.opt); } if (which == 1) { humoto::qpmad::Solver s; s.solve(x, p.opt); } if (which == 2) { humoto::quadprogpp::Solver s; s.solve(x, p.opt); } }, "refusals/other_solution" + std::to_string(which));
    }
    c.count("refused" + std::to_string(what)); c.signature(c.desc.str());
}

// parameters survive a configuration file, and reach the library
VH_FAMILY(parameters, 600, 12000)
{
    auto &r = c.rng; typedef humoto::config::msgpack::Reader Reader; typedef humoto::config::msgpack::Writer Writer; Setup q; if (!setup(r, q, NOGI, 3)) return; Problem p; p.build(q.n, q.sp); humoto::Solution sol; p.opt.form(sol, p.model, p.control); mp::Temp f("par.msgpack"); auto &R = rec(); R.force_status = R.force_iterations = -1; R.force_working_set = R.force_x = false;
    {
        humoto::qpoases::SolverParameters a, b; auto &o = a.options_; auto bt = [&] { return r.chance(0.5) ? qpOASES::BT_TRUE : qpOASES::BT_FALSE; };
        qpOASES::Options mpc; mpc.setToMPC(); auto same = [&](const qpOASES::Options &u, const qpOASES::Options &v, const std::string &key) {
#define EQ(x) c.check(u.x == v.x, key + #x);
#define ALL_ENUM(F) F(enableRamping) F(enableFarBounds) F(enableFlippingBounds) F(enableRegularisation) F(enableFullLITests) F(enableNZCTests) F(enableEqualities) F(enableInertiaCorrection) F(enableDropInfeasibles)
#define ALL_INT(F) F(enableDriftCorrection) F(enableCholeskyRefactorisation) F(numRegularisationSteps) F(numRefinementSteps) F(dropBoundPriority) F(dropEqConPriority) F(dropIneqConPriority)
#define ALL_REAL(F) F(terminationTolerance) F(boundTolerance) F(boundRelaxation) F(epsNum) F(epsDen) F(maxPrimalJump) F(maxDualJump) F(initialRamping) F(finalRamping) F(initialFarBounds) F(growFarBounds) F(epsFlipping) F(epsRegularisation) F(epsIterRef) F(epsLITests) F(epsNZCTests) F(rcondSMin)
            ALL_ENUM(EQ) ALL_INT(EQ) ALL_REAL(EQ) EQ(initialStatusBounds) };
        same(a.options_, mpc, "parameters/default_"); c.check(a.crash_on_any_failure_ && a.solve_two_levels_as_qp_, "parameters/defaults");
#define SE(x) o.x = bt();
#define SI(x) o.x = r.i(0, 9);
#define SR(x) o.x = r.normal() * std::pow(10., r.i(-12, 6));
        ALL_ENUM(SE) ALL_INT(SI) ALL_REAL(SR) o.initialStatusBounds = r.pick({qpOASES::ST_LOWER, qpOASES::ST_INACTIVE, qpOASES::ST_UPPER}); a.max_number_of_iterations_ = r.i(100, 5000); a.max_cpu_time_ = r.pick({0., 0.25, 3.}); a.crash_on_any_failure_ = r.chance(0.5);
        a.writeConfig<Writer>(f.name); b.readConfig<Reader>(f.name); same(b.options_, a.options_, "parameters/read_"); c.check(b.max_number_of_iterations_ == a.max_number_of_iterations_ && b.max_cpu_time_ == a.max_cpu_time_ && b.crash_on_any_failure_ == a.crash_on_any_failure_, "parameters/read");
        humoto::qpoases::Solver s(b); s.solve(sol, p.opt); same(qpOASES::lastOptions(), a.options_, "parameters/used_"); c.check(R.limit == a.max_number_of_iterations_ && R.time == a.max_cpu_time_, "parameters/limits");
    }
    {
        humoto::qpmad::SolverParameters a, b; a.options_.tolerance_ = r.real(1e-14, 1e-6); a.options_.max_iter_ = r.i(100, 1000); a.options_.hessian_type_ = r.chance(0.5) ? ::qpmad::SolverParameters::HESSIAN_LOWER_TRIANGULAR : ::qpmad::SolverParameters::HESSIAN_UNDEFINED; a.regularization_factor_ = r.real(0, 1);
        mp::Temp g("par2.msgpack"); a.writeConfig<Writer>(g.name); b.readConfig<Reader>(g.name); c.check(b.options_.tolerance_ == a.options_.tolerance_ && b.options_.max_iter_ == a.options_.max_iter_ && b.options_.hessian_type_ == a.options_.hessian_type_ && b.regularization_factor_ == a.regularization_factor_, "parameters/qpmad_read");
        humoto::qpmad::Solver s(b); s.solve(sol, p.opt); c.check(R.tolerance == a.options_.tolerance_ && R.max_iter == a.options_.max_iter_, "parameters/qpmad_used");
        humoto::quadprogpp::SolverParameters d, e; d.regularization_factor_ = r.real(0, 1); mp::Temp h("par3.msgpack"); d.writeConfig<Writer>(h.name); e.readConfig<Reader>(h.name); c.check(d.regularization_factor_ == e.regularization_factor_, "parameters/quadprogpp_read");
    }
    std::unique_ptr<humoto::QPProblem_ILU_ALU> fresh(new humoto::QPProblem_ILU_ALU); c.check(static_cast<int>(fresh->getStatus()) == 0 && static_cast<int>(fresh->getHessianType()) == 0, "parameters/not_formed"); { std::unique_ptr<humoto::QPProblem_AB> f2(new humoto::QPProblem_AB); c.check(f2->getStatus() == humoto::QPObjective::UNDEFINED, "parameters/not_formed"); p.opt.getQPProblem(*fresh, sol); c.check(fresh->getStatus() == humoto::QPObjective::INITIALIZED, "parameters/formed"); }
    c.count("parameters"); c.signature(sig(p, q));
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
