#include "problem.h"
using namespace vp;

// reference: sum of |A x - b|^2 over the objective level
struct Ref { MatrixXd H; VectorXd g; double c; };
static Ref reference(const std::vector<Made> &lvl, int n)
{
    Ref r{MatrixXd::Zero(n, n), VectorXd::Zero(n), 0};
    for (auto &m : lvl)
    {
        const Spec &s = m.hooks->spec;
        for (int i = 0; i < s.m; ++i)
        {
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) r.H(a, b) += s.full(i, a) * s.full(i, b);
            for (int a = 0; a < n; ++a) r.g(a) -= s.full(i, a) * s.rlb(i);
            r.c += s.rlb(i) * s.rlb(i);
        }
    }
    return r;
}
template <class QP> static void compare(vh::Case &c, const QP &qp_, const Problem &p, bool upper, const std::string &key)
{
    const humoto::QPObjective &qp = qp_;
    const auto &lvl = p.levels.back();
    Ref ref = reference(lvl, p.n);
    const MatrixXd &H = qp.getHessian(); const VectorXd &g = qp.getGradient();
    bool all_simple = true;
    for (auto &m : lvl) all_simple = all_simple && m.hooks->spec.simple();
    c.check(H.rows() == p.n && H.cols() == p.n, key + "/size");
    c.nearM(g, ref.g, 1e-10, key + "/gradient");
    if (upper)
    {
        c.nearM(H, ref.H, 1e-10, key + "/hessian");
        c.check(H == H.transpose(), key + "/symmetry");
        VectorXd x = c.rng.gvec(p.n, 2.);
        double direct = 0;
        for (auto &m : lvl) { VectorXd d = m.hooks->spec.full * x - m.hooks->spec.rlb; direct += d.squaredNorm(); }
        double viaqp = x.dot(H * x) + 2 * g.dot(x) + ref.c;
        c.check(std::fabs(direct - viaqp) <= 1e-9 * (1 + std::fabs(direct) + ref.c + H.cwiseAbs().maxCoeff() * x.squaredNorm()), key + "/value");
    }
    else
    {
        MatrixXd a = H.triangularView<Eigen::Lower>(), b = ref.H.triangularView<Eigen::Lower>();
        c.nearM(a, b, 1e-10, key + "/hessian_lower");
    }
    // what the type announces must be true of the matrix
    auto t = qp.getHessianType();
    if (t == humoto::QPObjective::HESSIAN_DIAGONAL)
    {
        MatrixXd off = ref.H; off.diagonal().setZero();
        c.check(off.isZero(0), key + "/announced_diagonal");
        c.count("diagonal_hessians");
    }
    else if (upper) c.check(t == humoto::QPObjective::HESSIAN_GENERIC, key + "/announced_type");
    else c.check(t == humoto::QPObjective::HESSIAN_LOWER_TRIANGULAR, key + "/announced_type");
    c.check(qp.getStatus() == humoto::QPObjective::INITIALIZED, key + "/status");
}

VH_FAMILY(objective_fresh, 6000, 120000)
{
    auto &r = c.rng; int n = r.i(1, 9); bool integer = r.chance(0.3);
    std::vector<std::vector<Spec>> sp;
    int kind = r.i(0, 2);
    if (r.chance(0.6)) sp.push_back(randomLevel(r, n, 4, kind == 0, integer, true, kind == 1 ? std::vector<Body>{A, AS, I} : std::vector<Body>{A, AS}));
    sp.push_back(randomLevel(r, n, 6, true, integer));
    Problem p; p.build(n, sp);
    c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    bool upper = r.chance(0.7);
    if (sp.size() == 1 || kind == 0) { humoto::QPProblem_AB q; p.opt.getQPProblem(q, sol, upper); compare(c, q, p, upper, "objective/AB"); }
    else if (kind == 1) { humoto::QPProblem_ILU_ALU q; bool rej = c.rejects([&] { p.opt.getQPProblem(q, sol, upper); }, "objective/rejected"); if (rej) { c.count("inconsistent_bounds"); return; } compare(c, q, p, upper, "objective/ILU_ALU"); }
    else { humoto::QPProblem_AB_AL q; p.opt.getQPProblem(q, sol, upper); compare(c, q, p, upper, "objective/AB_AL"); }
    for (auto &m : p.levels.back()) c.count("objective_task_" + m.hooks->spec.type());
    c.signature(p.describe() + vh::hashM(reference(p.levels.back(), n).H));
}

// every ordered pair and triple of equality task types, exhaustively over the types
VH_FAMILY(objective_type_tuples, 584, 5840)
{
    auto &r = c.rng;
    std::vector<std::pair<Body, Bnd>> eq; for (Body b : allBodies()) for (Bnd d : eqBnds()) eq.push_back({b, d});
    long k = c.index % 584; std::vector<int> pick;
    if (k < 8) pick = {int(k)}; else if (k < 72) pick = {int((k - 8) / 8), int((k - 8) % 8)};
    else { k -= 72; pick = {int(k / 64), int((k / 8) % 8), int(k % 8)}; }
    int n = r.i(1, 6); std::vector<Spec> lvl;
    for (int t : pick) lvl.push_back(randomSpec(r, eq[t].first, eq[t].second, n, false));
    Problem p; p.build(n, {lvl}); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    humoto::QPProblem_AB q;
    for (int rep = 0; rep < 2; ++rep) { bool upper = rep == 1; p.opt.getQPProblem(q, sol, upper); compare(c, q, p, upper, "objective/tuple"); }
    std::string sig; for (int t : pick) sig += std::to_string(t) + ",";
    c.signature(sig); c.count("type_tuples");
}

// the objective is a sum: permuting tasks, or splitting/duplicating one, changes it accordingly
VH_FAMILY(objective_permutation, 600, 12000)
{
    auto &r = c.rng; int n = r.i(1, 8);
    std::vector<Spec> lvl = randomLevel(r, n, 6, true, true);
    Problem p; p.build(n, {lvl});
    std::vector<Spec> perm = lvl; r.shuffle(perm);
    Problem p2; p2.build(n, {perm});
    humoto::Solution s1, s2; p.opt.form(s1, p.model, p.control); p2.opt.form(s2, p2.model, p2.control);
    humoto::QPProblem_AB q1, q2; p.opt.getQPProblem(q1, s1); p2.opt.getQPProblem(q2, s2);
    const auto &c1 = q1, &c2 = q2;
    c.nearM(c1.getHessian(), c2.getHessian(), 1e-12, "objective/permutation_hessian");
    c.nearM(c1.getGradient(), c2.getGradient(), 1e-12, "objective/permutation_gradient");
    // regularization adds exactly the factor to the diagonal
    double f = r.real(1e-8, 3); MatrixXd before = c1.getHessian();
    q1.regularize(f);
    before.diagonal().array() += f;
    c.nearM(c1.getHessian(), before, 1e-12, "objective/regularize");
    c.desc << p.describe(); c.signature(p.describe() + vh::hashM(c1.getHessian()));
}

// re-forming one problem and re-filling one QP object: nothing of the previous problem remains
VH_FAMILY(objective_reuse, 800, 16000)
{
    auto &r = c.rng; Problem p; humoto::QPProblem_AB_AL q; humoto::Solution sol;
    int rounds = r.i(2, 5); std::string sig;
    for (int k = 0; k < rounds; ++k)
    {
        int n = r.i(1, 8);
        if (k > 0 && r.chance(0.5))
        {   // same tasks, new data
            n = r.chance(0.5) ? p.n : n;
            p.n = n; p.control.set({{"x", n}});
            for (auto &l : p.levels) for (auto &m : l) { Spec s = randomSpec(r, m.hooks->spec.body, m.hooks->spec.bnd, n, false); m.hooks->spec = s; }
        }
        else
        {
            std::vector<std::vector<Spec>> sp;
            if (r.chance(0.5)) sp.push_back(randomLevel(r, n, 3, false, false, true, {A, AS}));
            sp.push_back(randomLevel(r, n, 4, true, false));
            p.build(n, sp);
        }
        p.opt.form(sol, p.model, p.control);
        bool upper = r.chance(0.7);
        p.opt.getQPProblem(q, sol, upper);
        compare(c, q, p, upper, "objective/reuse");
        if (r.chance(0.3)) { q.getHessian().setConstant(7); q.getGradient().setConstant(3); }
        sig += p.describe();
    }
    c.desc << sig; c.signature(sig); c.count("reused_objects", rounds);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
