#include "problem.h"
using namespace vp;

// every way to give a task data of mismatching sizes; returns false if not applicable
static bool corrupt(vh::Rng &r, Spec &s, int way, std::string &what)
{
    auto resized = [&](const VectorXd &v) { int d = r.chance(0.5) || v.size() == 0 ? v.size() + r.i(1, 3) : r.i(0, v.size() - 1); VectorXd w = VectorXd::Zero(d); return w; };
    switch (way)
    {
        case 0: if (s.bnd != LU && s.bnd != L) return false; s.lb = resized(s.lb); what = "lower bounds"; return true;
        case 1: if (s.bnd != LU && s.bnd != U) return false; s.ub = resized(s.ub); what = "upper bounds"; return true;
        case 2: if (s.bnd != B) return false; s.b = resized(s.b); what = "right hand side"; return true;
        case 3: if (s.body != GI) return false; s.gains = resized(s.gains); what = "gains"; return true;
        case 4: if (s.body != A) return false; { int k = r.chance(0.5) ? s.n + r.i(1, 3) : r.i(0, s.n - 1); s.Aloc = MatrixXd::Ones(s.m, k); } what = "columns"; return true;
        case 5: if (s.body != AS) return false; if (r.chance(0.3)) s.Aloc = MatrixXd::Ones(s.m, 0); else s.offset = s.n - s.Aloc.cols() + r.i(1, 3); what = "selected columns"; return true;
        case 6: if (s.body != A && s.body != AS) return false; if (s.bnd == B0) return false; { int k = r.chance(0.5) ? s.m + r.i(1, 2) : s.m - 1; s.Aloc = MatrixXd::Ones(k, s.Aloc.cols()); } what = "rows"; return true;
        case 7: if (!s.simple()) return false; if (s.body == I && s.bnd == B0) return false; { int k = r.chance(0.5) ? s.m + 1 : s.m - 1; std::vector<unsigned> v(k, 0); s.idx = v; } what = "indices"; return true;
    }
    return false;
}

VH_FAMILY(mismatching_sizes, 3200, 32000)
{
    auto &r = c.rng;
    int n = r.i(1, 6); int type = c.index % 20; Body body = allBodies()[type / 5]; Bnd bnd = allBnds()[type % 5];
    int way = (c.index / 20) % 8; std::string what;
    std::vector<std::vector<Spec>> sp; sp.push_back(randomLevel(r, n, 3, false, true)); sp.push_back(randomLevel(r, n, 3, true, true));
    Spec good = randomSpec(r, body, bnd, n, true), bad = good;
    if (!corrupt(r, bad, way, what)) { c.desc << "n/a"; return; }
    int lvl = r.i(0, 1); sp[lvl].insert(sp[lvl].begin() + r.i(0, sp[lvl].size()), bad);
    Problem p; p.build(n, sp); c.desc << good.type() << ": " << what;
    humoto::Solution sol, gs, old; humoto::ActiveSet as;
    auto form = [&] { switch (r.i(0, 3)) { case 0: p.opt.form(sol, p.model, p.control); break; case 1: p.opt.form(sol, as, p.model, p.control); break;
                      case 2: p.opt.form(sol, gs, p.model, p.control, old); break; default: p.opt.form(sol, gs, as, p.model, p.control, old); } };
    c.mustReject(form, "sizes/" + good.type() + "/" + what, "task with mismatching " + what);
    // with the data repaired the same objects work and mean what they should
    for (auto &l : p.levels) for (auto &m : l) if (m.hooks->spec.type() == bad.type() && (m.hooks->spec.Aloc.rows() != m.hooks->spec.m || true)) { Spec &s = m.hooks->spec; if (&l == &p.levels[lvl]) { Spec fresh = randomSpec(r, s.body, s.bnd, n, true); s = fresh; } }
    p.opt.form(sol, p.model, p.control);
    for (std::size_t l = 0; l < 2; ++l)
    {
        humoto::constraints::ContainerALU all; p.opt[l].getAllConstraints(all, sol);
        c.check(all.getA().rows() == p.rows(l), "repaired/size");
        for (auto &m : p.levels[l]) { humoto::Location loc = p.location(l, m); c.nearM(all.getA().block(loc.offset_, 0, loc.length_, n), m.hooks->spec.full, 0, "repaired/rows"); }
    }
    c.signature(good.type() + what + std::to_string(n) + p.describe());
}

VH_FAMILY(malformed_hierarchies, 1200, 12000)
{
    auto &r = c.rng; int n = r.i(1, 6); humoto::Solution sol; int kind = c.index % 8; std::string sig;
    if (kind == 0)
    {   // empty hierarchy, empty level
        Problem p; p.build(n, {}); c.mustReject([&] { p.opt.form(sol, p.model, p.control); }, "hierarchy/no_levels");
        std::vector<std::vector<Spec>> sp(r.i(1, 3)); int hole = r.i(0, sp.size() - 1);
        for (int l = 0; l < (int) sp.size(); ++l) if (l != hole) sp[l] = randomLevel(r, n, 2, true, true);
        p.build(n, sp); sig = p.describe(); c.mustReject([&] { p.opt.form(sol, p.model, p.control); }, "hierarchy/empty_level");
    }
    if (kind == 1)
    {   // only empty tasks on a level
        Spec s = randomSpec(r, r.pick({I, GI}), r.pick(allBnds()), n, true); s.m = 0; s.idx.clear(); s.gains.resize(0); s.b.resize(0); s.lb.resize(0); s.ub.resize(0); s.interpret();
        Problem p; p.build(n, {{s}}); sig = p.describe(); c.mustReject([&] { p.opt.form(sol, p.model, p.control); }, "hierarchy/no_constraints");
    }
    if (kind == 2)
    {   // level out of range
        int nl = r.i(0, 3); humoto::OptimizationProblem o; o.reset(nl); Made m = make(randomSpec(r, A, B, n, true)); int at = nl + r.i(0, 2);
        sig = std::to_string(nl) + ">" + std::to_string(at); c.mustReject([&] { o.pushTask(m.ptr, at); }, "hierarchy/level_out_of_range");
    }
    if (kind == 3)
    {   // an inequality in the objective
        std::vector<Spec> obj = randomLevel(r, n, 3, true, true); obj.insert(obj.begin() + r.i(0, obj.size()), randomSpec(r, r.pick(allBodies()), r.pick({LU, L, U}), n, true));
        std::vector<std::vector<Spec>> sp; if (r.chance(0.5)) sp.push_back(randomLevel(r, n, 2, true, true)); sp.push_back(obj);
        Problem p; p.build(n, sp); p.opt.form(sol, p.model, p.control); sig = p.describe();
        humoto::QPProblem_AB q1; humoto::QPProblem_AB_AL q2; humoto::QPProblem_ILU_ALU q3;
        c.mustReject([&] { p.opt.getQPProblem(q1, sol); }, "hierarchy/inequality_objective"); c.mustReject([&] { p.opt.getQPProblem(q2, sol); }, "hierarchy/inequality_objective");
        c.mustReject([&] { p.opt.getQPProblem(q3, sol, r.chance(0.5)); }, "hierarchy/inequality_objective");
    }
    if (kind == 4)
    {   // more than two levels cannot be a QP
        int nl = r.i(3, 5); std::vector<std::vector<Spec>> sp; for (int l = 0; l < nl; ++l) sp.push_back(randomLevel(r, n, 2, true, true));
        Problem p; p.build(n, sp); p.opt.form(sol, p.model, p.control); sig = p.describe(); humoto::QPProblem_AB q1; humoto::QPProblem_AB_AL q2;
        c.mustReject([&] { p.opt.getQPProblem(q1, sol); }, "hierarchy/too_many_levels"); c.mustReject([&] { p.opt.getQPProblem(q2, sol); }, "hierarchy/too_many_levels");
        humoto::OptimizationProblem none; c.mustReject([&] { none.getQPProblem(q1, sol); }, "hierarchy/no_levels_qp");
    }
    if (kind == 5)
    {   // structure of the solution not initialized
        Problem p; p.build(n, {randomLevel(r, n, 2, true, true)}); p.control.set({}); sig = p.describe();
        c.mustReject([&] { p.opt.form(sol, p.model, p.control); }, "hierarchy/no_structure");
    }
    if (kind == 6)
    {   // active sets of a wrong shape
        Problem p; p.build(n, {randomLevel(r, n, 3, false, true), randomLevel(r, n, 2, true, true)}); p.opt.form(sol, p.model, p.control); sig = p.describe();
        humoto::ActiveSet a; std::vector<std::size_t> cnt{(std::size_t) p.rows(0), (std::size_t) p.rows(1)};
        int w = r.i(0, 2); if (w == 0) cnt.push_back(1); if (w == 1) cnt.pop_back(); if (w == 2) cnt[r.i(0, 1)] -= 1; a.initialize(cnt.size(), cnt);
        c.mustReject([&] { p.opt.processActiveSet(a); }, "hierarchy/active_set_shape");
    }
    if (kind == 7)
    {   // a task declared unmodified whose size does not match the active set it was given
        Spec s = randomSpec(r, r.pick(allBodies()), r.pick({LU, L, U}), n, true); Problem p; p.build(n, {{s}}); humoto::ActiveSet g, a; p.opt.form(sol, g, p.model, p.control);
        p.opt.initializeActiveSet(a); p.opt.processActiveSet(a); sig = p.describe();
        Spec t = s; for (int k = 0; k < 50 && t.m == s.m; ++k) t = randomSpec(r, s.body, s.bnd, n, true);
        if (t.m == s.m) return; t.mark_unmodified = true; p.levels[0][0].hooks->spec = t;
        c.mustReject([&] { p.opt.form(sol, g, p.model, p.control); }, "hierarchy/unmodified_but_resized");
    }
    c.desc << "kind " << kind << " " << sig; c.signature(std::to_string(kind) + sig);
}

// copying into containers which are too small or have another number of variables
VH_FAMILY(container_overflow, 800, 8000)
{
    auto &r = c.rng; int n = r.i(1, 6); Body body = allBodies()[c.index % 4]; Bnd bnd = allBnds()[(c.index / 4) % 5];
    Spec s = randomSpec(r, body, bnd, n, true); Problem p; p.build(n, {{s}}); humoto::Solution sol; p.opt.form(sol, p.model, p.control);
    const humoto::TaskBase &t = *p.levels[0][0].raw(); c.desc << s.type() << ":" << s.m;
    int room = r.i(0, s.m + 2), at = r.i(0, s.m + 2); bool fits = at + s.m <= room;
    humoto::constraints::ContainerALU lu; lu.reset(room, n);
    auto go = [&] { t.copyTo(lu, at); };
    if (fits) { std::size_t next = t.copyTo(lu, at); c.check((int) next == at + s.m, "overflow/next_offset"); c.nearM(lu.getA().block(at, 0, s.m, n), s.full, 0, "overflow/rows"); }
    else c.mustReject(go, "overflow/ALU_" + s.type());
    if (s.equality())
    {
        humoto::constraints::ContainerAB ab; ab.reset(room, n);
        if (fits) { c.check((int) t.copyTo(ab, at) == at + s.m, "overflow/next_offset"); c.nearM(ab.getA().block(at, 0, s.m, n), s.full, 0, "overflow/rows"); }
        else c.mustReject([&] { t.copyTo(ab, at); }, "overflow/AB_" + s.type());
    }
    else
    {
        int need = s.bnd == LU ? 2 * s.m : s.m; bool f2 = at + need <= room; humoto::constraints::ContainerAL al; al.reset(room, n);
        if (f2) c.check((int) t.copyTo(al, at) == at + need, "overflow/next_offset");
        else c.mustReject([&] { t.copyTo(al, at); }, "overflow/AL_" + s.type());
        humoto::constraints::ContainerAB ab; ab.reset(s.m, n); c.mustReject([&] { t.copyTo(ab, 0); }, "overflow/inequality_as_equality_" + s.type());
        MatrixXd H; VectorXd g; c.mustReject([&] { t.getATAandATb(H, g); }, "overflow/inequality_as_objective_" + s.type());
        H.setZero(n, n); g.setZero(n); c.mustReject([&] { t.addATAandATb(H, g); }, "overflow/inequality_as_objective_" + s.type());
    }
    humoto::constraints::ContainerALU other; other.reset(s.m, n + r.i(1, 2)); c.mustReject([&] { t.copyTo(other, 0); }, "overflow/variables_" + s.type());
    c.signature(c.desc.str() + "," + std::to_string(room) + "," + std::to_string(at));
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
