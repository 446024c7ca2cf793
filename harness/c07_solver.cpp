#include "problem.h"
#include "humoto/kktsolver.h"
using namespace vp;
typedef humoto::kktsolver::SolverParameters P;

// ---------------------------------------------------------------- optimality of the equality constrained solver
// independent reference: null space method on the dense data
static bool reference(const std::vector<std::vector<Spec>> &sp, int n, VectorXd &x, double &cond)
{
    MatrixXd H = MatrixXd::Zero(n, n); VectorXd h = VectorXd::Zero(n);
    for (auto &s : sp.back()) { H += s.full.transpose() * s.full; h += s.full.transpose() * s.rlb; }
    int m = 0; if (sp.size() > 1) for (auto &s : sp[0]) m += s.m;
    MatrixXd C(m, n); VectorXd d(m); int at = 0;
    if (sp.size() > 1) for (auto &s : sp[0]) { C.middleRows(at, s.m) = s.full; d.segment(at, s.m) = s.rlb; at += s.m; }
    VectorXd xp = VectorXd::Zero(n); MatrixXd Z = MatrixXd::Identity(n, n); cond = 1;
    if (m > 0)
    {
        if (m > n) return false;
        Eigen::JacobiSVD<MatrixXd> svd(C, Eigen::ComputeFullV | Eigen::ComputeThinU);
        if (svd.singularValues()(m - 1) < 0.05) return false;
        cond = std::max(cond, svd.singularValues()(0) / svd.singularValues()(m - 1));
        xp = svd.solve(d); Z = svd.matrixV().rightCols(n - m);
    }
    if (Z.cols() > 0)
    {
        MatrixXd R = Z.transpose() * H * Z; Eigen::SelfAdjointEigenSolver<MatrixXd> es(R);
        if (es.eigenvalues()(0) < 0.02) return false;
        cond = std::max(cond, H.norm() / es.eigenvalues()(0));
        x = xp + Z * es.operatorInverseSqrt() * (es.operatorInverseSqrt() * (Z.transpose() * (h - H * xp)));
    }
    else x = xp;
    return cond < 1e5;
}
static void checkSolution(vh::Case &c, const humoto::Solution &sol, const VectorXd &x, double cond, double tol, const std::string &key)
{
    c.check(sol.return_status_ == humoto::SolverStatus::OK, key + "/status");
    c.check(sol.x_.rows() == x.rows(), key + "/size");
    c.nearM(sol.x_, x, tol * std::max(1., cond), key + "/optimum", "cond " + std::to_string(cond));
}
static std::vector<std::vector<Spec>> wellPosed(vh::Rng &r, int &n, bool constrained, bool diagonal, VectorXd &x, double &cond)
{
    for (int k = 0; k < 60; ++k)
    {
        n = r.i(1, 7); std::vector<std::vector<Spec>> sp;
        if (constrained) sp.push_back(randomLevel(r, n, 3, true, r.chance(0.5)));
        std::vector<Spec> obj = randomLevel(r, n, 4, true, r.chance(0.3), true, diagonal ? std::vector<Body>{I, GI} : allBodies());
        if (r.chance(0.7))
        {   // something that touches every variable
            Spec s; s.body = diagonal ? GI : r.pick(std::vector<Body>{A, GI}); s.bnd = r.pick(eqBnds()); s.n = s.m = n; s.offset = 0; s.b = r.gvec(n); s.gains = VectorXd(n); s.Aloc = r.gmat(n, n);
            for (int i = 0; i < n; ++i) { s.idx.push_back(i); s.gains[i] = r.real(0.5, 2); s.Aloc(i, i) += 2; } s.interpret(); obj.push_back(s);
        }
        sp.push_back(obj);
        if (reference(sp, n, x, cond)) return sp;
    }
    return {};
}
VH_FAMILY(optimum, 5000, 100000)
{
    auto &r = c.rng; int n; VectorXd x; double cond; bool diagonal = r.chance(0.4); bool constrained = r.chance(0.75);
    auto sp = wellPosed(r, n, constrained, diagonal, x, cond); if (sp.empty()) return;
    Problem p; p.build(n, sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    P par; std::vector<P::Method> ms{P::LU, P::QR}; if (diagonal) ms.push_back(P::CONSTRAINT_ELIMINATION_LLT);
    par.solution_method_ = r.pick(ms);
    double tol = par.solution_method_ == P::CONSTRAINT_ELIMINATION_LLT ? 1e-7 : 1e-10;
    if (par.solution_method_ == P::CONSTRAINT_ELIMINATION_LLT)
    {   // the elimination inverts the whole Hessian, which must be well conditioned, not only on the null space
        VectorXd d = VectorXd::Zero(n); for (auto &s : sp.back()) for (int i = 0; i < s.m; ++i) for (int k = 0; k < n; ++k) d[k] += s.full(i, k) * s.full(i, k);
        if (d.minCoeff() < 0.05) return; cond = std::max(cond, d.maxCoeff() / d.minCoeff()); cond *= cond; if (cond > 1e5) return;
    }
    int how = r.i(0, 2);
    if (how == 0) { humoto::kktsolver::Solver s(par); s.solve(sol, p.opt); }
    if (how == 1) { humoto::kktsolver::Solver s; s.setParameters(par); s.solve(sol, p.opt); }
    if (how == 2) { humoto::kktsolver::Solver s; s.solve(sol, p.opt, par); }
    std::string key = "optimum/method" + std::to_string(par.solution_method_) + (constrained ? "" : "_unconstrained");
    checkSolution(c, sol, x, cond, tol, key);
    humoto::Violations v; p.opt.computeViolations(v, sol);
    if (constrained) for (std::size_t i = 0; i < v[0].size(); ++i) c.check(std::fabs(v[0][i]) < tol * std::max(1., cond) * (1 + x.cwiseAbs().maxCoeff()) * 30, key + "/constraint_violated");
    c.count("solved_method" + std::to_string(par.solution_method_)); if (!constrained) c.count("solved_unconstrained");
    c.signature(p.describe() + vh::hashM(x));
}

// one solver object through a history of problems gives what a fresh one gives
VH_FAMILY(solver_history, 800, 16000)
{
    auto &r = c.rng; humoto::kktsolver::Solver s; Problem p; std::string sig; humoto::Solution sol; int rounds = r.i(2, 6);
    for (int k = 0; k < rounds; ++k)
    {
        int n; VectorXd x; double cond; bool constrained = r.chance(0.6), diag = r.chance(0.4);
        auto sp = wellPosed(r, n, constrained, diag, x, cond); if (sp.empty()) continue;
        p.build(n, sp); p.opt.form(sol, p.model, p.control); sig += p.describe() + "/";
        P par; par.solution_method_ = r.chance(0.5) ? P::LU : P::QR;
        if (r.chance(0.5)) s.solve(sol, p.opt, par); else { if (r.chance(0.5)) s.setParameters(par); s.solve(sol, p.opt); }
        checkSolution(c, sol, x, cond, 1e-10, "history");
        if (r.chance(0.3))
        {   // a rejected problem in between
            Problem bad; bad.build(n, {{randomSpec(r, A, LU, n, true)}, {randomSpec(r, A, B, n, true)}}); humoto::Solution bs; bad.opt.form(bs, bad.model, bad.control);
            c.mustReject([&] { s.solve(bs, bad.opt); }, "history/inequalities_accepted");
        }
        c.count("problems_in_histories");
    }
    c.desc << sig; c.signature(sig);
}

// constraints which repeat each other consistently leave the optimum as it is (the rank revealing method solves these)
VH_FAMILY(redundant_constraints, 1500, 30000)
{
    auto &r = c.rng; int n; VectorXd x; double cond;
    auto sp = wellPosed(r, n, true, false, x, cond); if (sp.empty() || cond > 1e3) return;
    int extra = r.i(1, 3);
    for (int k = 0; k < extra; ++k)
    {   // a repetition, possibly scaled or combined from several constraints
        Spec s; s.body = A; s.bnd = B; s.n = n; s.offset = 0;
        const Spec &o = sp[0][r.i(0, int(sp[0].size()) - 1)]; s.m = o.m; MatrixXd T = MatrixXd::Identity(o.m, o.m);
        int kind = r.i(0, 2);
        if (kind == 1) T *= r.pick(std::vector<double>{-1, 2, 0.5});
        if (kind == 2) for (int i = 0; i < o.m; ++i) for (int j = 0; j < o.m; ++j) T(i, j) = r.i(-1, 1);
        s.Aloc = T * o.full; s.b = T * o.rlb; s.gains = VectorXd::Ones(o.m);
        for (int i = 0; i < n; ++i) s.idx.push_back(i);
        s.interpret(); sp[0].insert(sp[0].begin() + r.i(0, int(sp[0].size())), s);
    }
    Problem p; p.build(n, sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control); P par; par.solution_method_ = P::QR;
    humoto::kktsolver::Solver s; s.solve(sol, p.opt, par);
    checkSolution(c, sol, x, cond, 1e-8, "redundant");
    c.count("solved_redundant"); c.signature(p.describe() + vh::hashM(x));
}

VH_FAMILY(unsupported_requests, 400, 4000)
{
    auto &r = c.rng; int n; VectorXd x; double cond; auto sp = wellPosed(r, n, true, false, x, cond); if (sp.empty()) return; bool gen = false;
    for (auto &s : sp.back()) gen = gen || !s.simple();
    Problem p; p.build(n, sp); humoto::Solution sol; p.opt.form(sol, p.model, p.control); P par;
    par.solution_method_ = P::UNDEFINED; { humoto::kktsolver::Solver s; c.mustReject([&] { s.solve(sol, p.opt, par); }, "unsupported/method"); }
    if (gen) { par.solution_method_ = P::CONSTRAINT_ELIMINATION_LLT; humoto::kktsolver::Solver s; c.mustReject([&] { s.solve(sol, p.opt, par); }, "unsupported/elimination_generic"); }
    c.desc << p.describe(); c.signature(p.describe());
}

// ---------------------------------------------------------------- the protocol of a solver
class MockParameters : public humoto::SolverParametersBase
{
  public:
    int tag = 0; humoto::SolverStatus::Status result = humoto::SolverStatus::OK;
    MockParameters() {}
    const std::string &getConfigSectionID() const { static std::string s("mock"); return s; }
};
class MockSolution : public humoto::Solution { public: std::string getStatusDescription() const { return "mock failure 4711"; } };

struct Trace { std::vector<std::string> ev; const void *guess = nullptr; const void *as_guess = nullptr; int tag = 0; const void *hier = nullptr; };

template <class Base> class Mock : public Base
{
  public:
    Trace t; int throw_at = -1; long nvar = -1;
    explicit Mock() {}
  protected:
    void step(const char *n) { t.ev.push_back(n); if (throw_at == (int) t.ev.size()) throw std::runtime_error(std::string("injected in ") + n); }
    void reset() { t.ev.push_back("reset"); t.tag = this->parameters_.tag; }
    void initialize(const humoto::OptimizationProblem &h, const humoto::SolutionStructure &s) { t.hier = &h; nvar = s.getNumberOfVariables(); t.tag = this->parameters_.tag; step("initialize"); }
    void solveHierarchy(humoto::Solution &s, const humoto::OptimizationProblem &h) { if (t.hier != &h) t.ev.push_back("wrong hierarchy"); s.x_.setConstant(3); s.return_status_ = this->parameters_.result; step("solve"); }
};
template <class Base> class MockGuess : public Mock<Base>
{
  protected:
    void setSolutionGuess(const humoto::Solution &s) { this->t.guess = &s; this->step("guess"); }
    void setActiveSet(const humoto::ActiveSet &a, const humoto::OptimizationProblem &h) { if (this->t.hier != &h) this->t.ev.push_back("wrong hierarchy"); this->t.as_guess = &a; this->step("set"); }
    void getActiveSet(humoto::ActiveSet &a, const humoto::OptimizationProblem &h) { if (this->t.hier != &h) this->t.ev.push_back("wrong hierarchy"); a.initialize(1, {2}); this->step("get"); }
};
template <class Base> class Counting : public Base      // records when the inputs are checked
{
  public:
    bool reject = false;
  protected:
    void checkInputs(const humoto::OptimizationProblem &h) const { const_cast<Counting *>(this)->t.ev.push_back("check"); if (reject) throw std::runtime_error("bad input"); Base::checkInputs(h); }
};
typedef Counting<MockGuess<humoto::SolverGuessSolutionActiveSet<MockParameters>>> Full;
typedef Counting<MockGuess<humoto::SolverGuessSolution<MockParameters>>> OnlyGuess;
typedef Counting<MockGuess<humoto::SolverGuessActiveSet<MockParameters>>> OnlySet;

static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
static bool before(const std::vector<std::string> &v, const std::string &a, const std::string &b)
{
    auto i = std::find(v.begin(), v.end(), a), j = std::find(v.begin(), v.end(), b);
    return i != v.end() && j != v.end() && i < j;
}
template <class S> static void protocol(vh::Case &c, S &s, int how, const std::function<void(humoto::Solution &, humoto::ActiveSet &, humoto::OptimizationProblem &, humoto::Solution &, humoto::ActiveSet &, MockParameters &)> &call,
                                        std::vector<std::string> want, bool use_par)
{
    auto &r = c.rng; int n = r.i(1, 5); Problem p; p.build(n, {{randomSpec(r, A, B, n, true)}}); MockSolution sol; p.opt.form(sol, p.model, p.control);
    MockParameters par; par.tag = r.i(1, 1000); par.crash_on_any_failure_ = r.chance(0.5);
    bool fails = r.chance(0.4), reject = r.chance(0.1); par.result = fails ? r.pick({humoto::SolverStatus::UNDEFINED, humoto::SolverStatus::MAX_ITER, humoto::SolverStatus::OTHER}) : humoto::SolverStatus::OK;
    if (!use_par) { s.setParameters(par); c.check(s.t.ev == std::vector<std::string>{"reset"} && s.t.tag == par.tag, "protocol/set_parameters"); }
    s.t = Trace(); s.reject = reject; s.throw_at = -1;
    if (r.chance(0.2) && !reject) s.throw_at = r.i(2, 7);
    humoto::Solution guess; humoto::ActiveSet as, as_guess; std::string what;
    bool thrown = c.rejects([&] { call(sol, as, p.opt, guess, as_guess, par); }, "protocol/assert", &what);
    std::string ev = join(s.t.ev); std::string key = "protocol/how" + std::to_string(how);
    c.desc << how << " fails=" << fails << " crash=" << par.crash_on_any_failure_ << " reject=" << reject << " throw_at=" << s.throw_at << ": " << ev;
    bool wants_get = std::find(want.begin(), want.end(), "get") != want.end();
    if (reject) { c.check(thrown && s.t.ev == std::vector<std::string>{"check"}, key + "/input_check_first", ev); c.count("inputs_rejected"); c.signature(c.desc.str()); return; }
    if (s.throw_at > 0 && s.throw_at <= (int) s.t.ev.size()) { c.check(thrown && what.find("injected") != std::string::npos, key + "/error_swallowed", ev + what); c.count("errors_injected"); c.signature(c.desc.str()); return; }
    bool must_throw = fails && par.crash_on_any_failure_;
    c.check(thrown == must_throw, key + (must_throw ? "/failure_not_reported" : "/success_rejected"), ev + what);
    if (must_throw) { c.check(what.find("mock failure 4711") != std::string::npos, key + "/failure_description", what); want.erase(std::remove(want.begin(), want.end(), "get"), want.end()); c.count("failures_reported"); }
    std::vector<std::string> a = s.t.ev, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    c.check(a == b, key + "/steps", ev + " want " + join(want));
    c.check(before(s.t.ev, "check", "initialize") && before(s.t.ev, "initialize", "solve"), key + "/order", ev);
    for (auto *g : {"guess", "set"}) if (std::find(want.begin(), want.end(), g) != want.end()) c.check(before(s.t.ev, "initialize", g) && before(s.t.ev, g, "solve"), key + "/order", ev);
    if (wants_get && !must_throw) { c.check(before(s.t.ev, "solve", "get"), key + "/order", ev); c.check(as.size() == 1 && as[0].size() == 2, key + "/active_set_returned"); }
    if (std::find(want.begin(), want.end(), "guess") != want.end()) c.check(s.t.guess == &guess, key + "/guess_passed");
    if (std::find(want.begin(), want.end(), "set") != want.end()) c.check(s.t.as_guess == &as_guess, key + "/active_set_passed");
    c.check(s.t.tag == par.tag, key + "/parameters_used"); c.check(s.nvar == n && s.t.hier == &p.opt, key + "/problem_passed");
    c.check(sol.return_status_ == par.result, key + "/status_kept");
    c.count("protocol_runs"); c.signature(c.desc.str());
}
VH_FAMILY(protocol_all_entry_points, 3000, 60000)
{
    using HS = humoto::Solution; using AS_ = humoto::ActiveSet; using OP = humoto::OptimizationProblem; using MP = MockParameters;
    int how = c.index % 16; Full f; OnlyGuess g; OnlySet s;
    switch (how)
    {
        case 0: protocol(c, f, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &, MP &) { f.solve(x, o); }, {"check", "initialize", "solve"}, false); break;
        case 1: protocol(c, f, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &, MP &p) { f.solve(x, o, p); }, {"check", "initialize", "solve"}, true); break;
        case 2: protocol(c, f, how, [&](HS &x, AS_ &, OP &o, HS &gs, AS_ &, MP &) { f.solve(x, o, gs); }, {"check", "initialize", "guess", "solve"}, false); break;
        case 3: protocol(c, f, how, [&](HS &x, AS_ &a, OP &o, HS &, AS_ &ag, MP &) { f.solve(x, a, o, ag); }, {"check", "initialize", "set", "solve", "get"}, false); break;
        case 4: protocol(c, f, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &ag, MP &) { f.solve(x, o, ag); }, {"check", "initialize", "set", "solve"}, false); break;
        case 5: protocol(c, f, how, [&](HS &x, AS_ &a, OP &o, HS &, AS_ &, MP &) { f.solve(x, a, o); }, {"check", "initialize", "solve", "get"}, false); break;
        case 6: protocol(c, f, how, [&](HS &x, AS_ &a, OP &o, HS &gs, AS_ &ag, MP &) { f.solve(x, a, o, gs, ag); }, {"check", "initialize", "guess", "set", "solve", "get"}, false); break;
        case 7: protocol(c, f, how, [&](HS &x, AS_ &, OP &o, HS &gs, AS_ &ag, MP &) { f.solve(x, o, gs, ag); }, {"check", "initialize", "guess", "set", "solve"}, false); break;
        case 8: protocol(c, f, how, [&](HS &x, AS_ &a, OP &o, HS &gs, AS_ &, MP &) { f.solve(x, a, o, gs); }, {"check", "initialize", "guess", "solve", "get"}, false); break;
        case 9: protocol(c, g, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &, MP &) { g.solve(x, o); }, {"check", "initialize", "solve"}, false); break;
        case 10: protocol(c, g, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &, MP &p) { g.solve(x, o, p); }, {"check", "initialize", "solve"}, true); break;
        case 11: protocol(c, g, how, [&](HS &x, AS_ &, OP &o, HS &gs, AS_ &, MP &) { g.solve(x, o, gs); }, {"check", "initialize", "guess", "solve"}, false); break;
        case 12: protocol(c, s, how, [&](HS &x, AS_ &a, OP &o, HS &, AS_ &ag, MP &) { s.solve(x, a, o, ag); }, {"check", "initialize", "set", "solve", "get"}, false); break;
        case 13: protocol(c, s, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &ag, MP &) { s.solve(x, o, ag); }, {"check", "initialize", "set", "solve"}, false); break;
        case 14: protocol(c, s, how, [&](HS &x, AS_ &a, OP &o, HS &, AS_ &, MP &) { s.solve(x, a, o); }, {"check", "initialize", "solve", "get"}, false); break;
        case 15: protocol(c, s, how, [&](HS &x, AS_ &, OP &o, HS &, AS_ &, MP &p) { s.solve(x, o, p); }, {"check", "initialize", "solve"}, true); break;
    }
}

// which hierarchies a QP solver accepts
class MockQP : public humoto::QPSolverMixin<humoto::Solver<MockParameters>>
{
  public:
    bool reached = false;
  protected:
    void initialize(const humoto::OptimizationProblem &, const humoto::SolutionStructure &) { reached = true; }
    void solveHierarchy(humoto::Solution &s, const humoto::OptimizationProblem &) { s.return_status_ = humoto::SolverStatus::OK; }
};
VH_FAMILY(qp_solver_admission, 800, 16000)
{
    auto &r = c.rng; int n = r.i(1, 4), nl = r.i(0, 4); std::vector<std::vector<Spec>> sp; bool as_qp = r.chance(0.85);
    for (int l = 0; l < nl; ++l) sp.push_back(randomLevel(r, n, 2, l == nl - 1 ? r.chance(0.7) : false, true));
    Problem p; p.build(n, sp); humoto::Solution sol; if (nl) p.opt.form(sol, p.model, p.control);
    bool eq = nl > 0; if (nl) for (auto &s : sp.back()) eq = eq && s.equality();
    bool admit = as_qp && nl >= 1 && nl <= 2 && eq; MockQP q; MockParameters par; par.solve_two_levels_as_qp_ = as_qp;
    bool rej = c.rejects([&] { q.solve(sol, p.opt, par); }, "admission/assert");
    c.check(rej == !admit, admit ? "admission/valid_rejected" : "admission/invalid_accepted", p.describe());
    c.check(q.reached == admit, "admission/reached_solver");
    c.count(admit ? "admitted" : "refused"); c.desc << p.describe(); c.signature(p.describe() + (as_qp ? "q" : "-"));
}
VH_FAMILY(default_parameters, 4, 4)
{
    MockParameters m; c.check(m.crash_on_any_failure_ && m.solve_two_levels_as_qp_, "defaults/base");
    P k; c.check(k.crash_on_any_failure_ && k.solve_two_levels_as_qp_ && k.solution_method_ == P::LU, "defaults/kkt"); c.signature("d"); c.desc << "defaults";
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
