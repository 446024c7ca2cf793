#include "problem.h"
#include "humoto/kktsolver.h"
using namespace vp;

// containers of results which a client keeps from step to step (or makes anew)
struct Keep
{
    humoto::constraints::ContainerALU all; humoto::QPProblem_AB_AL al; humoto::QPProblem_ILU_ALU ilu; humoto::QPProblem_AB ab; humoto::Violations v; humoto::ActiveSet a; MatrixXd H; VectorXd g;
};
static std::string lower(const MatrixXd &m) { return vh::hashM(MatrixXd(m.triangularView<Eigen::Lower>())); }
template <class C> static std::string bits(const C &c) { return vh::hashM(c.getA()) + vh::hashM(c.getLowerBounds()) + vh::hashM(c.getUpperBounds()); }
static std::string bits(const humoto::QPObjective &o, bool upper) { return (upper ? vh::hashM(o.getHessian()) : lower(o.getHessian())) + vh::hashM(o.getGradient()) + std::to_string(o.getHessianType()) + std::to_string(o.getStatus()); }
// Everything observable about a formed problem, as one string of exact bits.
static std::string snapshot(Problem &p, humoto::Solution &sol, Keep &k, bool upper, bool modify)
{
    std::string s;
    for (std::size_t l = 0; l < p.levels.size(); ++l)
    {
        p.opt[l].getAllConstraints(k.all, sol); s += bits(k.all);
        if (p.opt[l].isEquality() && p.opt[l].getNumberOfConstraints() > 0) { p.opt[l].getObjective(k.H, k.g); s += lower(k.H) + vh::hashM(k.g); }
        for (auto &t : p.opt[l].tasks_) s += std::to_string(t.location_.offset_) + "," + std::to_string(t.location_.length_) + ";";
    }
    if (p.levels.size() <= 2 && p.opt[p.levels.size() - 1].isEquality())
    {
        bool gi = false, eq = true; if (p.levels.size() == 2) for (auto &m : p.levels[0]) { gi = gi || m.hooks->spec.body == GI; eq = eq && m.hooks->spec.equality(); }
        p.opt.getQPProblem(k.al, sol, upper); s += bits(k.al, upper) + vh::hashM(k.al.getEqualities().getA()) + vh::hashM(k.al.getEqualities().getB()) + vh::hashM(k.al.getInequalities().getA()) + vh::hashM(k.al.getInequalities().getLowerBounds());
        if (!gi) try { p.opt.getQPProblem(k.ilu, sol, upper); s += bits(k.ilu, upper) + bits(k.ilu.getGeneralConstraints()) + vh::hashM(k.ilu.getSolutionLowerBounds()) + vh::hashM(k.ilu.getSolutionUpperBounds()); } catch (const std::exception &) { s += "contradictory"; }
        if (eq) { p.opt.getQPProblem(k.ab, sol, upper); s += bits(k.ab, upper) + vh::hashM(k.ab.getEqualities().getA()) + vh::hashM(k.ab.getEqualities().getB()); }
        if (modify) { k.al.getHessian().setConstant(5); k.al.getGradient().setConstant(7); k.ilu.regularize(3); }
    }
    humoto::Solution x = sol; for (int i = 0; i < x.x_.rows(); ++i) x.x_[i] = (i % 3) - 1.0;
    p.opt.computeViolations(k.v, x); p.opt.determineActiveSet(k.a, x); s += std::to_string(k.v.size()) + "/" + std::to_string(k.a.size()) + ":";
    for (std::size_t l = 0; l < k.v.size(); ++l) for (std::size_t i = 0; i < k.v[l].size(); ++i) { std::ostringstream o; o << k.v[l][i] << "/" << k.a[l][i] << " "; s += o.str(); }
    return s;
}

// one problem object with a long history against a fresh one with the same tasks
VH_FAMILY(history_against_fresh, 2500, 50000)
{
    auto &r = c.rng; Problem p; humoto::Solution sol; std::string sig; int rounds = r.i(2, 6); Keep kept;
    for (int k = 0; k < rounds; ++k)
    {
        int n = k > 0 && r.chance(0.5) ? p.n : r.i(1, 6);
        if (k > 0 && r.chance(0.6))
        {   p.n = n; p.control.set({{"x", n}}); for (auto &l : p.levels) for (auto &m : l) { m.hooks->spec = randomSpec(r, m.hooks->spec.body, m.hooks->spec.bnd, n, false); } }
        else { std::vector<std::vector<Spec>> sp; int nl = r.i(1, 3); for (int l = 0; l < nl; ++l) sp.push_back(randomLevel(r, n, 4, l == nl - 1 && r.chance(0.8), false)); p.build(n, sp); }
        std::vector<std::vector<Spec>> sp; for (auto &l : p.levels) { sp.push_back({}); for (auto &m : l) sp.back().push_back(m.hooks->spec); }
        humoto::ActiveSet g; humoto::Solution gs, old;
        switch (r.i(0, 3)) { case 0: p.opt.form(sol, p.model, p.control); break; case 1: p.opt.form(sol, g, p.model, p.control); break;
                             case 2: p.opt.form(sol, gs, p.model, p.control, old); break; default: p.opt.form(sol, gs, g, p.model, p.control, old); }
        Problem f; f.build(n, sp); humoto::Solution fs; f.opt.form(fs, f.model, f.control);
        sol.x_.setZero(); fs.x_.setZero();
        bool upper = r.chance(0.5), modify = r.chance(0.3); Keep fresh; std::string a = snapshot(p, sol, kept, upper, modify), b = snapshot(f, fs, fresh, upper, false);
        c.check(a == b, "history/differs_from_fresh", "round " + std::to_string(k) + " " + p.describe());
        // forming twice changes nothing
        humoto::Solution again; p.opt.form(again, p.model, p.control); again.x_.setZero(); c.check(snapshot(p, again, kept, upper, false) == b, "history/forming_twice", p.describe());
        for (auto &l : p.levels) for (auto &m : l) c.check(m.hooks->nvars_seen == n, "history/structure_given_to_tasks");
        sig += p.describe() + "/"; c.count("rounds");
        if (r.chance(0.3)) { humoto::ActiveSet as; p.opt.initializeActiveSet(as); p.opt.processActiveSet(as); }
        if (r.chance(0.2)) { Made extra = make(randomSpec(r, r.pick(allBodies()), B, n, false)); std::size_t l = r.i(0, p.levels.size() - 1); p.opt.pushTask(extra.ptr, l); p.levels[l].push_back(extra); c.count("tasks_added_later"); }
    }
    c.desc << sig; c.signature(sig);
}

// the stock tasks track the structure of the solution and their own parameters
VH_FAMILY(stock_tasks, 2500, 50000)
{
    auto &r = c.rng; bool selected = r.chance(0.3), whole = r.chance(0.4); double gain = r.real(0.1, 5); std::string id = whole ? "" : "b";
    humoto::IndexVector sel; std::string sig;
    boost::shared_ptr<humoto::TaskZeroVariables> zero(new humoto::TaskZeroVariables(gain, "zero", id));
    boost::shared_ptr<humoto::TaskZeroSelectedVariables> zs; int nsel = r.i(1, 3); sel.resize(nsel); for (int i = 0; i < nsel; ++i) sel[i] = r.i(0, 2);
    zs.reset(new humoto::TaskZeroSelectedVariables(sel, gain, "zero selected"));
    humoto::OptimizationProblem opt; opt.reset(1); if (selected) opt.pushTask(zs, 0); else opt.pushTask(zero, 0);
    Control cp; Mdl mdl; humoto::Solution sol; int rounds = r.i(2, 6); std::vector<std::pair<std::string, int>> parts; humoto::ActiveSet guess; bool with_guess = r.chance(0.4);   // a client feeds the active set back always or never
    for (int k = 0; k < rounds; ++k)
    {
        if (k == 0 || r.chance(0.5)) { parts = {{"a", r.i(1, 3)}, {"b", r.i(1, 4)}, {"c", r.i(1, 3)}}; if (r.chance(0.5)) r.shuffle(parts); }
        if (k > 0 && r.chance(0.4)) { gain = r.real(0.1, 5); zero->setGain(gain); zs->setGain(gain); sig += 'g'; c.count("gain_changed"); }
        if (k > 0 && !selected && r.chance(0.2)) { id = r.pick({std::string(""), std::string("a"), std::string("b"), std::string("c")}); zero->setVariablesID(id); sig += 'v'; }
        cp.set(parts);
        if (with_guess) opt.form(sol, guess, mdl, cp); else opt.form(sol, mdl, cp);
        int n = sol.getNumberOfVariables(); VectorXd w = VectorXd::Zero(n);
        if (selected) for (int i = 0; i < nsel; ++i) w[sel[i]] += gain * gain;
        else { int off = 0, len = n, o = 0; if (!id.empty()) for (auto &p : parts) { if (p.first == id) { off = o; len = p.second; } o += p.second; } for (int i = 0; i < len; ++i) w[off + i] = gain * gain; }
        humoto::QPProblem_AB q; opt.getQPProblem(q, sol); const humoto::QPObjective &ob = q;
        for (auto &p : parts) sig += p.first + std::to_string(p.second);
        c.desc.str(""); c.desc << sig << " gain " << gain << " id '" << id << "'";
        c.nearM(ob.getHessian(), MatrixXd(w.asDiagonal()), 1e-12, std::string("stock/") + (selected ? "selected" : "zero") + "_hessian");
        c.nearM(ob.getGradient(), VectorXd::Zero(n), 0, "stock/gradient");
        if (with_guess) { humoto::ActiveSet as; opt.initializeActiveSet(as); as.set(0, humoto::ConstraintActivationType::EQUALITY); opt.processActiveSet(as); }
    }
    c.signature(sig + id);
}
VH_FAMILY(infeasible_task, 200, 2000)
{
    auto &r = c.rng; humoto::TaskSharedPointer t(new humoto::TaskInfeasibleInequality()); humoto::OptimizationProblem opt; opt.reset(1); opt.pushTask(t, 0); Control cp; Mdl mdl; std::string sig;
    for (int k = 0; k < 4; ++k)
    {
        int n = r.i(1, 6); cp.set({{"x", n}}); humoto::Solution sol; opt.form(sol, mdl, cp); sig += std::to_string(n) + ",";
        for (int j = 0; j < 6; ++j)
        {
            for (int i = 0; i < n; ++i) sol.x_[i] = r.normal() * 3; humoto::Violations v; opt.computeViolations(v, sol); humoto::ActiveSet a; opt.determineActiveSet(a, sol);
            double m = 0; for (std::size_t i = 0; i < v[0].size(); ++i) m = std::max(m, std::fabs(v[0][i]));
            c.check(m > 0, "infeasible/feasible_point_exists"); for (std::size_t i = 0; i < a[0].size(); ++i) c.check(a[0][i] == humoto::ConstraintActivationType::UNDEFINED, "infeasible/activation");
        }
    }
    c.desc << sig; c.signature(sig);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
