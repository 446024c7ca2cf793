#include "problem.h"
using namespace vp;
using humoto::ConstraintActivationType;

struct Expect { ConstraintActivationType::Type act; double lo, up, v; };
static Expect expect(const Spec &s, int i, double product, double blo, double bup)
{
    Expect e; e.lo = e.up = 0;
    if (s.equality()) { e.act = ConstraintActivationType::EQUALITY; e.lo = e.up = product - blo; }
    else
    {
        if (s.bnd == LU || s.bnd == L) e.lo = product - blo;
        if (s.bnd == LU || s.bnd == U) e.up = product - bup;
        if (s.bnd == LU && blo > bup) e.act = ConstraintActivationType::UNDEFINED;
        else if (s.bnd == LU && blo == bup) e.act = ConstraintActivationType::EQUALITY;
        else if ((s.bnd == LU || s.bnd == L) && product <= blo) e.act = ConstraintActivationType::LOWER_BOUND;
        else if ((s.bnd == LU || s.bnd == U) && product >= bup) e.act = ConstraintActivationType::UPPER_BOUND;
        else e.act = ConstraintActivationType::INACTIVE;
    }
    e.v = e.lo < 0 ? e.lo : e.up > 0 ? e.up : 0;
    (void) i;
    return e;
}

// reference decision for every constraint of a level, at a given point
VH_FAMILY(violations_and_activation, 5000, 100000)
{
    auto &r = c.rng; int n = r.i(1, 7); bool integer = r.chance(0.65); bool consistent = r.chance(0.7);
    std::vector<std::vector<Spec>> sp; int nl = r.i(1, 4);
    for (int l = 0; l < nl; ++l) sp.push_back(randomLevel(r, n, 4, false, integer, consistent));
    Problem p; p.build(n, sp); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    for (int k = 0; k < n; ++k) sol.x_[k] = integer ? r.i(-3, 3) : r.normal() * 2;
    const VectorXd x = sol.x_;
    humoto::ActiveSet as; humoto::Violations vi;
    if (r.chance(0.5)) { as.initialize(2, {3, 1}); vi.initialize(2, {3, 1}); }   // recycled objects
    p.opt.determineActiveSet(as, sol); p.opt.computeViolations(vi, sol);
    c.check(sol.x_ == x, "solution_changed");
    c.check(as.size() == sp.size() && vi.size() == sp.size(), "levels");
    std::ostringstream sig;
    for (std::size_t l = 0; l < sp.size(); ++l)
    {
        int rows = p.rows(l);
        c.check((int) as[l].size() == rows && (int) vi[l].size() == rows, "size");
        std::size_t active = 0;
        for (auto &m : p.levels[l])
        {
            const Spec &s = m.hooks->spec; humoto::Location loc = p.location(l, m);
            for (int i = 0; i < s.m; ++i)
            {
                double prod = s.full.row(i).dot(x);
                double blo = s.equality() ? s.rlb[i] : s.lb[i], bup = s.equality() ? s.rub[i] : s.ub[i];
                Expect e = expect(s, i, prod, blo, bup);
                std::size_t at = loc.offset_ + i;
                double tol = integer ? 0. : 1e-11;
                std::string t = s.type();
                c.near(vi[l].getLower(at), e.lo, tol, "violation/lower_" + t);
                c.near(vi[l].getUpper(at), e.up, tol, "violation/upper_" + t);
                c.near(vi[l][at], e.v, tol, "violation/value_" + t);
                bool close = !integer && (std::fabs(prod - blo) < 1e-9 || std::fabs(prod - bup) < 1e-9);
                if (!close) c.check(as[l][at] == e.act, "activation/" + t, "got " + std::to_string(as[l][at]) + " want " + std::to_string(e.act));
                if (as[l][at] == ConstraintActivationType::LOWER_BOUND || as[l][at] == ConstraintActivationType::UPPER_BOUND) ++active;
                static const char *nm[] = {"undefined", "inactive", "lower", "upper", "equality"};
                c.count(std::string("activation_") + nm[e.act]);
                if (integer && e.act != ConstraintActivationType::EQUALITY && (prod == blo || prod == bup)) c.count("exactly_on_a_bound");
                sig << e.act;
            }
        }
        c.check(as[l].countActiveInequalities() == active, "count_active");
    }
    c.signature(p.describe() + sig.str());
}

// feasible <=> no violations (with consistent bounds)
VH_FAMILY(zero_violation_iff_feasible, 1500, 30000)
{
    auto &r = c.rng; int n = r.i(1, 5);
    Problem p; p.build(n, {randomLevel(r, n, 4, false, true)}); c.desc << p.describe();
    humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    std::string sig;
    for (int k = 0; k < 6; ++k)
    {
        for (int i = 0; i < n; ++i) sol.x_[i] = r.i(-2, 2);
        humoto::Violations vi; p.opt.computeViolations(vi, sol);
        bool feas = true;
        for (auto &m : p.levels[0]) { VectorXd v = m.hooks->spec.full * sol.x_; for (int i = 0; i < v.size(); ++i) if (v[i] < m.hooks->spec.rlb[i] || v[i] > m.hooks->spec.rub[i]) feas = false; }
        bool zero = true; for (std::size_t i = 0; i < vi[0].size(); ++i) if (vi[0][i] != 0) zero = false;
        c.check(zero == feas, "violation/iff_feasible");
        c.count(feas ? "feasible_points" : "infeasible_points"); sig += feas ? 'f' : 'i';
    }
    c.signature(p.describe() + sig);
}

// ViolationsConstraints as a container against a plain model
VH_FAMILY(violations_container, 1500, 30000)
{
    auto &r = c.rng;
    struct M { double lo, up; bool known; };
    auto value = [](const M &m) { return m.lo < 0 ? m.lo : m.up > 0 ? m.up : 0.0; };
    auto same = [&](const humoto::ViolationsConstraints &v, const std::vector<M> &m, const std::string &key) {
        c.check(v.size() == m.size(), key + "/size");
        for (std::size_t i = 0; i < m.size(); ++i) if (m[i].known)
        {
            c.check(v.getLower(i) == m[i].lo && v.getUpper(i) == m[i].up, key + "/diff");
            c.check(v[i] == value(m[i]), key + "/value");
        }
    };
    int n = r.i(0, 6); humoto::ViolationsConstraints v; v.initialize(n); std::vector<M> m(n, M{0, 0, false});
    std::string sig = std::to_string(n);
    for (int k = 0; k < 25; ++k)
    {
        int op = r.i(0, 6); sig += char('a' + op);
        if (op == 0) { v.setZero(); for (auto &x : m) x = M{0, 0, true}; }
        if (op == 1 || op == 2)
        {
            int i = r.i(0, n + 1); double lo = r.i(-2, 2), up = r.i(-2, 2);
            if (i < n) { v.set(i, lo, up); m[i] = M{lo, up, true}; }
            else c.mustReject([&] { v.set(i, lo, up); }, "container/set_out_of_range");
        }
        if (op == 3)
        {
            int off = r.i(0, n + 1), len = r.i(0, n + 1); humoto::Location loc(off, len);
            if (off + len <= n) { v.setZero(loc); for (int i = off; i < off + len; ++i) m[i] = M{0, 0, true}; }
            else c.mustReject([&] { v.setZero(loc); }, "container/setzero_out_of_range");
        }
        if (op == 4 || op == 5)
        {
            int off = r.i(0, n + 1), len = r.i(0, n + 1); humoto::Location loc(off, len);
            humoto::ViolationsConstraints o; o.initialize(len); std::vector<M> om;
            for (int i = 0; i < len; ++i) { double lo = r.i(-2, 2), up = r.i(-2, 2); o.set(i, lo, up); om.push_back(M{lo, up, true}); }
            if (op == 4)
            {
                if (off + len <= n) { v.copyTo(loc, o); for (int i = 0; i < len; ++i) m[off + i] = om[i]; }
                else c.mustReject([&] { v.copyTo(loc, o); }, "container/copyto_out_of_range");
            }
            else
            {
                if (off + len <= n)
                {
                    std::vector<M> part(m.begin() + off, m.begin() + off + len);
                    o.copyFrom(v, loc); same(o, part, "container/copyfrom");
                    humoto::ViolationsConstraints w; if (r.chance(0.5)) w.initialize(r.i(0, 5)); w.initialize(v, loc); same(w, part, "container/initialize");
                }
                else { c.mustReject([&] { o.copyFrom(v, loc); }, "container/copyfrom_out_of_range"); c.mustReject([&] { o.initialize(v, loc); }, "container/init_out_of_range"); }
            }
        }
        if (op == 6) { c.mustReject([&] { (void) v[n + r.i(0, 3)]; }, "container/index"); c.mustReject([&] { (void) v.getLower(n); }, "container/index"); c.mustReject([&] { (void) v.getUpper(n); }, "container/index"); }
        same(v, m, "container/state");
    }
    c.desc << sig; c.signature(sig); c.count("container_operations", 25);
}
// ActiveSetConstraints and ActiveSet as containers against plain vectors
VH_FAMILY(active_set_container, 1500, 30000)
{
    auto &r = c.rng; typedef ConstraintActivationType A;
    auto type = [&] { return r.pick({A::UNDEFINED, A::INACTIVE, A::LOWER_BOUND, A::UPPER_BOUND, A::EQUALITY}); };
    auto same = [&](const humoto::ActiveSetConstraints &v, const std::vector<A::Type> &m, const std::string &key) {
        c.check(v.size() == m.size(), key + "/size"); if (v.size() != m.size()) return;
        std::size_t active = 0; for (std::size_t i = 0; i < m.size(); ++i) { c.check(v[i] == m[i], key + "/value"); active += m[i] == A::LOWER_BOUND || m[i] == A::UPPER_BOUND; }
        c.check(v.countActiveInequalities() == active, key + "/count");
    };
    std::vector<std::size_t> sizes; int nl = r.i(1, 3); for (int l = 0; l < nl; ++l) sizes.push_back(r.i(0, 6));
    humoto::ActiveSet set; set.initialize(nl, sizes); c.check(set.size() == static_cast<std::size_t>(nl), "active_set_container/levels");
    std::vector<std::vector<A::Type>> all; for (auto s : sizes) all.push_back(std::vector<A::Type>(s, A::UNDEFINED));
    std::string sig;
    for (int k = 0; k < 25; ++k)
    {
        int l = r.i(0, nl - 1); humoto::ActiveSetConstraints &v = set[l]; std::vector<A::Type> &m = all[l]; int n = m.size(), op = r.i(0, 9); sig += char('a' + op); A::Type t = type();
        if (op == 0) { if (r.chance(0.5)) v.set(t); else set.set(l, t); std::fill(m.begin(), m.end(), t); }
        if (op == 1) { int i = r.i(0, n + 1); if (i < n) v[i] = m[i] = t; else c.mustReject([&] { v[i] = t; }, "active_set_container/index"); }
        if (op == 2 || op == 3) { int k_ = r.i(0, n + 2); if (k_ <= n) { v.shift(k_, t); for (int i = 0; i < n; ++i) m[i] = i + k_ < n ? m[i + k_] : t; c.count("container_shifts"); } else c.mustReject([&] { v.shift(k_, t); }, "active_set_container/shift"); }
        int off = r.i(0, n + 1), len = r.i(0, n + 1); humoto::Location loc(off, len); bool fits = off + len <= n;
        if (op == 4) { if (fits) { v.set(loc, t); std::fill(m.begin() + off, m.begin() + off + len, t); } else c.mustReject([&] { v.set(loc, t); }, "active_set_container/set"); }
        if (op == 5 || op == 6)
        {
            int ol = r.chance(0.7) ? len : r.i(0, n + 2); humoto::ActiveSetConstraints o; std::vector<A::Type> om(ol, t); o.initialize(ol, t); for (int i = 0; i < ol; ++i) if (r.chance(0.6)) o[i] = om[i] = type();
            if (op == 5) { if (fits && ol == len) { v.copyTo(loc, o); std::copy(om.begin(), om.end(), m.begin() + off); } else c.mustReject([&] { v.copyTo(loc, o); }, "active_set_container/copy_to"); }
            else
            {
                std::vector<A::Type> part; if (fits) part.assign(m.begin() + off, m.begin() + off + len);
                if (fits && ol == len) { o.copyFrom(v, loc); same(o, part, "active_set_container/copy_from"); } else c.mustReject([&] { o.copyFrom(v, loc); }, "active_set_container/copy_from");
                if (fits) { humoto::ActiveSetConstraints w; if (r.chance(0.5)) w.initialize(r.i(0, 5)); w.initialize(v, loc); same(w, part, "active_set_container/initialize"); } else c.mustReject([&] { o.initialize(v, loc); }, "active_set_container/initialize");
            }
        }
        if (op == 7) { n = r.i(0, 6); v.initialize(n, t); m.assign(n, t); }
        if (op == 8) { n = r.i(0, 6); v.initialize(n); m.assign(n, A::UNDEFINED); }
        if (op == 9 && r.chance(0.3)) { v.reset(); m.clear(); }
        for (int j = 0; j < nl; ++j) same(set[j], all[j], "active_set_container/state");
    }
    c.mustReject([&] { (void) set[nl]; }, "active_set_container/level"); c.mustReject([&] { set.set(nl + r.i(0, 3), A::INACTIVE); }, "active_set_container/level");
    c.desc << sig; c.signature(sig); c.count("active_set_operations", 25);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
