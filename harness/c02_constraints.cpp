#include "problem.h"
using namespace vp;

// canonical description of one "row: lb <= a x <= ub"
struct Row { VectorXd a; double lb, ub; };
static bool satisfied(const std::vector<Row> &rows, const VectorXd &x)
{
    for (auto &r : rows) { double v = r.a.dot(x); if (v < r.lb || v > r.ub) return false; }
    return true;
}
static std::vector<Row> reference(const std::vector<Made> &lvl)
{
    std::vector<Row> v;
    for (auto &m : lvl) { const Spec &s = m.hooks->spec; for (int i = 0; i < s.m; ++i) v.push_back({s.full.row(i).transpose(), s.rlb(i), s.rub(i)}); }
    return v;
}
static double clampInf(double v) { return v >= humoto::g_infinity ? INF : v <= -humoto::g_infinity ? -INF : v; }
static bool sameRow(const Row &p, const Row &q) { return p.a == q.a && p.lb == q.lb && p.ub == q.ub; }
static bool sameMultiset(std::vector<Row> p, std::vector<Row> q)
{
    if (p.size() != q.size()) return false;
    for (auto &r : p)
    {
        bool found = false;
        for (std::size_t k = 0; k < q.size(); ++k) if (sameRow(r, q[k])) { q.erase(q.begin() + k); found = true; break; }
        if (!found) return false;
    }
    return true;
}
static std::string rowsStr(const std::vector<Row> &v)
{
    std::ostringstream s; for (auto &r : v) s << r.lb << "<=" << vh::show(r.a.transpose()) << "<=" << r.ub << "; "; return s.str();
}
// probe points: random, and points pushed exactly onto boundaries where the data allows it
static std::vector<VectorXd> probes(vh::Rng &r, const std::vector<Row> &rows, int n, bool integer)
{
    std::vector<VectorXd> v;
    for (int k = 0; k < 12; ++k)
    {
        VectorXd x(n);
        for (int i = 0; i < n; ++i) x[i] = integer ? r.i(-4, 4) : r.normal() * 2;
        if (k % 2 && !rows.empty())
        {   // move one coordinate so that one row sits on its bound
            const Row &w = rows[r.i(0, rows.size() - 1)];
            double t = std::isfinite(w.lb) && (r.chance(0.5) || !std::isfinite(w.ub)) ? w.lb : w.ub;
            int j = r.i(0, n - 1);
            if (w.a[j] != 0 && std::isfinite(t)) { x[j] = 0; x[j] = (t - w.a.dot(x)) / w.a[j]; if (r.chance(0.5)) x[j] += r.pick({-1., 1.}); }
        }
        v.push_back(x);
    }
    return v;
}
static void compareSets(vh::Case &c, const std::vector<Row> &got, const std::vector<Row> &want, int n, bool integer, const std::string &key)
{
    for (auto &r : got) for (int i = 0; i < r.a.size(); ++i) c.check(r.a[i] == r.a[i], key + "/uninitialized");
    // integer data: exact membership agreement
    for (auto &x : probes(c.rng, want, n, integer))
    {
        bool f1 = satisfied(got, x), f2 = satisfied(want, x);
        if (!integer)
        {   // ignore points closer to a boundary than rounding
            bool close = false; for (auto &w : want) { double v = w.a.dot(x); if (std::fabs(v - w.lb) < 1e-8 || std::fabs(v - w.ub) < 1e-8) close = true; }
            if (close) continue;
        }
        c.check(f1 == f2, key + "/feasible_set", "x=" + vh::show(x.transpose()) + " got " + rowsStr(got) + " want " + rowsStr(want));
        c.count(f2 ? "feasible_probes" : "infeasible_probes");
    }
}

struct Gen { bool integer; int n; std::vector<std::vector<Spec>> sp; };
static Gen gen(vh::Rng &r, const std::vector<Body> &bodies, bool consistent, bool eq_only = false)
{
    Gen g; g.integer = r.chance(0.7); g.n = r.i(1, 7);
    g.sp.push_back(randomLevel(r, g.n, 6, eq_only, g.integer, consistent, bodies));
    g.sp.push_back(randomLevel(r, g.n, 2, true, g.integer));
    return g;
}

static void check_AB_AL(vh::Case &c, const humoto::QPProblem_AB_AL &q, const Problem &p, bool integer, const std::string &key)
{
    const auto &E = q.getEqualities(); const auto &L = q.getInequalities();
    std::vector<Row> got, want = reference(p.levels[0]), eq_want, in_want, eq_got, in_got;
    for (auto &w : want) {}
    for (auto &m : p.levels[0])
    {
        const Spec &s = m.hooks->spec;
        for (int i = 0; i < s.m; ++i)
        {
            VectorXd a = s.full.row(i).transpose();
            if (s.equality()) eq_want.push_back({a, s.rlb(i), s.rlb(i)});
            else
            {
                if (std::isfinite(s.rlb(i))) in_want.push_back({a, s.rlb(i), INF});
                if (std::isfinite(s.rub(i))) in_want.push_back({-a, -s.rub(i), INF});
            }
        }
    }
    c.check(E.getA().rows() == (long) eq_want.size() && E.getB().rows() == (long) eq_want.size(), key + "/equality_count");
    c.check(L.getA().rows() == (long) in_want.size() && L.getLowerBounds().rows() == (long) in_want.size(), key + "/inequality_count");
    c.check(E.getA().cols() == p.n && L.getA().cols() == p.n, key + "/columns");
    for (int i = 0; i < E.getA().rows(); ++i) eq_got.push_back({E.getA().row(i).transpose(), E.getB()[i], E.getB()[i]});
    for (int i = 0; i < L.getA().rows(); ++i) in_got.push_back({L.getA().row(i).transpose(), L.getLowerBounds()[i], INF});
    c.check(sameMultiset(eq_got, eq_want), key + "/equalities", "got " + rowsStr(eq_got) + " want " + rowsStr(eq_want));
    c.check(sameMultiset(in_got, in_want), key + "/inequalities", "got " + rowsStr(in_got) + " want " + rowsStr(in_want));
    got = eq_got; got.insert(got.end(), in_got.begin(), in_got.end());
    compareSets(c, got, want, p.n, integer, key);
}

VH_FAMILY(one_sided_form, 3000, 60000)
{
    Gen g = gen(c.rng, allBodies(), c.rng.chance(0.8));
    Problem p; p.build(g.n, g.sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    humoto::QPProblem_AB_AL q; p.opt.getQPProblem(q, sol);
    check_AB_AL(c, q, p, g.integer, "AB_AL");
    for (auto &m : p.levels[0]) c.count("constraint_task_" + m.hooks->spec.type());
    c.signature(p.describe() + vh::hashM(q.getInequalities().getA()) + vh::hashM(q.getEqualities().getA()));
}

static void check_AB(vh::Case &c, const humoto::QPProblem_AB &q, const Problem &p, bool integer, const std::string &key)
{
    const auto &E = q.getEqualities(); std::vector<Row> got, want = reference(p.levels[0]);
    c.check(E.getA().rows() == (long) want.size() && E.getB().rows() == (long) want.size() && E.getA().cols() == p.n, key + "/size");
    for (int i = 0; i < E.getA().rows(); ++i) got.push_back({E.getA().row(i).transpose(), E.getB()[i], E.getB()[i]});
    c.check(sameMultiset(got, want), key + "/equalities", "got " + rowsStr(got) + " want " + rowsStr(want));
    compareSets(c, got, want, p.n, integer, key);
}
VH_FAMILY(equality_form, 1500, 30000)
{
    bool only_eq = c.rng.chance(0.7);
    Gen g = gen(c.rng, allBodies(), true, only_eq);
    bool eq = true; for (auto &s : g.sp[0]) eq = eq && s.equality();
    Problem p; p.build(g.n, g.sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    humoto::QPProblem_AB q;
    if (eq) { p.opt.getQPProblem(q, sol); check_AB(c, q, p, g.integer, "AB"); }
    else c.mustReject([&] { p.opt.getQPProblem(q, sol); }, "AB/inequalities_accepted", "inequalities in an equality-only problem");
    c.signature(p.describe() + (eq ? vh::hashM(q.getEqualities().getA()) : std::string("rejected")));
}

// returns false if the problem was (rightly) rejected
static bool check_ILU_ALU(vh::Case &c, humoto::QPProblem_ILU_ALU &q, const Problem &p, const humoto::Solution &sol, bool integer, const std::string &key)
{
    std::vector<Row> want = reference(p.levels[0]);
    VectorXd lb = VectorXd::Constant(p.n, -INF), ub = VectorXd::Constant(p.n, INF);
    bool any_simple = false, inconsistent = false, gi = false;
    for (auto &m : p.levels[0])
    {
        const Spec &s = m.hooks->spec;
        if (s.body == GI) gi = true;
        if (!s.simple()) continue;
        any_simple = true;
        for (int i = 0; i < s.m; ++i)
        {
            int v = s.idx[i];
            lb[v] = std::max(lb[v], s.rlb[i]); ub[v] = std::min(ub[v], s.rub[i]);
            if (lb[v] > ub[v]) inconsistent = true;
        }
    }
    std::string what;
    bool rejected = c.rejects([&] { p.opt.getQPProblem(q, sol); }, key + "/assert", &what);
    if (gi)
    {   // weighted bounds cannot be expressed as bounds on single variables: refusing is fine, a wrong set is not
        if (rejected) { c.count("weighted_bounds_refused"); return false; }
    }
    else
    {
        c.check(rejected == inconsistent, key + (inconsistent ? "/contradiction_accepted" : "/consistent_rejected"), what);
        if (rejected) { c.count("contradictory_bounds_rejected"); return false; }
    }
    const auto &G = q.getGeneralConstraints(); const auto &S = q.getSimpleBounds();
    std::vector<Row> got, ggot(G.getA().rows()), sgot;
    for (int i = 0; i < G.getA().rows(); ++i) got.push_back(ggot[i] = {G.getA().row(i).transpose(), clampInf(G.getLowerBounds()[i]), clampInf(G.getUpperBounds()[i])});
    for (int i = 0; i < (int) S.getNumberOfConstraints(); ++i)
    {
        VectorXd a = VectorXd::Zero(p.n); unsigned v = S.getIndices()[i];
        c.check(v < (unsigned) p.n, key + "/bound_index"); a[v] = 1;
        Row r{a, clampInf(S.getLowerBounds()[i]), clampInf(S.getUpperBounds()[i])};
        got.push_back(r); sgot.push_back(r);
    }
    c.check(sameMultiset(got, want), key + "/rows", "got " + rowsStr(got) + " want " + rowsStr(want));
    compareSets(c, got, want, p.n, integer, key);
    // bounds on the variables are the intersection of all the simple bounds
    if (any_simple)
    {
        c.check(q.getSolutionLowerBounds().rows() == p.n && q.getSolutionUpperBounds().rows() == p.n, key + "/solution_bounds_size");
        for (int i = 0; i < p.n; ++i)
        {
            c.check(clampInf(q.getSolutionLowerBounds()[i]) == lb[i], key + "/solution_lower_bounds");
            c.check(clampInf(q.getSolutionUpperBounds()[i]) == ub[i], key + "/solution_upper_bounds");
        }
    }
    else c.check(q.getSolutionLowerBounds().rows() == 0 && q.getSolutionUpperBounds().rows() == 0, key + "/phantom_bounds");
    // rows are addressed by the locations the level assigned to the tasks
    for (auto &m : p.levels[0])
    {
        const Spec &s = m.hooks->spec; humoto::Location loc = p.location(0, m);
        c.check((int) loc.length_ == s.m, key + "/location_length");
        for (int i = 0; i < s.m; ++i)
        {
            long at = loc.offset_ + i; if (s.simple()) at -= ggot.size();
            const std::vector<Row> &src = s.simple() ? sgot : ggot;
            c.check(at >= 0 && at < (long) src.size() && sameRow(src[at], Row{s.full.row(i).transpose(), s.rlb[i], s.rub[i]}), key + "/location",
                    "task " + s.type() + " row " + std::to_string(i));
        }
    }
    return true;
}
VH_FAMILY(bounds_and_two_sided_form, 3000, 60000)
{
    Gen g = gen(c.rng, c.rng.chance(0.15) ? allBodies() : c.rng.chance(0.3) ? std::vector<Body>{I} : std::vector<Body>{A, AS, I}, c.rng.chance(0.85));
    Problem p; p.build(g.n, g.sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    humoto::QPProblem_ILU_ALU q;
    bool ok = check_ILU_ALU(c, q, p, sol, g.integer, "ILU_ALU");
    c.signature(p.describe() + (ok ? vh::hashM(q.getGeneralConstraints().getA()) + vh::hashM(q.getSolutionLowerBounds()) : std::string("rejected")));
}

// all the constraints of a level in one container, in the order of the locations; counters of the level
VH_FAMILY(whole_level, 2000, 40000)
{
    Gen g = gen(c.rng, allBodies(), c.rng.chance(0.8));
    Problem p; p.build(g.n, g.sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    const humoto::HierarchyLevel &lvl = p.opt[0];
    humoto::constraints::ContainerALU all; lvl.getAllConstraints(all, sol);
    int total = p.rows(0), eq = 0, simple = 0, onesided = 0;
    c.check((int) all.getA().rows() == total && all.getA().cols() == g.n, "level/size");
    std::vector<bool> used(total, false);
    for (auto &m : p.levels[0])
    {
        const Spec &s = m.hooks->spec; humoto::Location loc = p.location(0, m);
        c.check((int) loc.length_ == s.m && (int) loc.end() <= total, "level/location");
        for (int i = 0; i < s.m; ++i)
        {
            int at = loc.offset_ + i; c.check(!used[at], "level/overlap"); used[at] = true;
            c.nearM(all.getA().row(at), s.full.row(i), 0, "level/row_" + s.type());
            c.check(clampInf(all.getLowerBounds()[at]) == s.rlb[i], "level/lower_" + s.type());
            c.check(clampInf(all.getUpperBounds()[at]) == s.rub[i], "level/upper_" + s.type());
        }
        if (s.equality()) eq += s.m; else onesided += s.bnd == LU ? 2 * s.m : s.m;
        if (s.simple()) simple += s.m;
        c.check(m.ptr->isEquality() == s.equality() && m.ptr->isSimple() == s.simple() && m.ptr->isTwoSidedInequality() == (s.bnd == LU), "level/kind_" + s.type());
        c.check((int) m.ptr->getNumberOfConstraints() == s.m && (int) m.ptr->getNumberOfVariables() == g.n, "level/task_size_" + s.type());
    }
    c.check((int) lvl.getNumberOfConstraints() == total, "level/count");
    c.check((int) lvl.getNumberOfSimpleConstraints() == simple, "level/count_simple");
    c.check((int) lvl.getNumberOfGeneralConstraints() == total - simple, "level/count_general");
    c.check((int) lvl.getNumberOfEqualityConstraints() == eq, "level/count_equality");
    c.check((int) lvl.getNumberOfInequalityConstraints() == total - eq, "level/count_inequality");
    c.check((int) lvl.getNumberOfInequalityConstraintsOneSided() == onesided, "level/count_onesided");
    c.check(lvl.isSimple() == (simple == total) && lvl.isEquality() == (eq == total), "level/kind");
    c.signature(p.describe());
}

// one problem object and one set of QP objects through a sequence of different problems
VH_FAMILY(constraints_reuse, 800, 16000)
{
    auto &r = c.rng; Problem p; humoto::Solution sol; humoto::QPProblem_AB_AL q1; humoto::QPProblem_ILU_ALU q2; humoto::QPProblem_AB q3; std::string sig;
    int rounds = r.i(2, 5);
    for (int k = 0; k < rounds; ++k)
    {
        Gen g = gen(r, {A, AS, I}, true, r.chance(0.3));
        if (r.chance(0.3)) g.sp.erase(g.sp.begin());      // unconstrained problem in between
        p.build(g.n, g.sp); p.opt.form(sol, p.model, p.control); sig += p.describe() + " / ";
        if (p.levels.size() == 1)
        {
            p.opt.getQPProblem(q1, sol); p.opt.getQPProblem(q2, sol); p.opt.getQPProblem(q3, sol);
            c.check(q1.getEqualities().getNumberOfConstraints() == 0 && q1.getInequalities().getNumberOfConstraints() == 0, "reuse/stale_constraints_AB_AL", sig);
            c.check(q2.getGeneralConstraints().getNumberOfConstraints() == 0 && q2.getSimpleBounds().getNumberOfConstraints() == 0
                    && q2.getSolutionLowerBounds().rows() == 0 && q2.getSolutionUpperBounds().rows() == 0, "reuse/stale_constraints_ILU_ALU", sig);
            c.check(q3.getEqualities().getNumberOfConstraints() == 0, "reuse/stale_constraints_AB", sig);
            c.count("unconstrained_after_constrained", k > 0);
            continue;
        }
        p.opt.getQPProblem(q1, sol); check_AB_AL(c, q1, p, g.integer, "reuse/AB_AL");
        check_ILU_ALU(c, q2, p, sol, g.integer, "reuse/ILU_ALU");
        bool eq = true; for (auto &s : g.sp[0]) eq = eq && s.equality();
        if (eq) { p.opt.getQPProblem(q3, sol); check_AB(c, q3, p, g.integer, "reuse/AB"); }
    }
    c.desc << sig; c.signature(sig);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
