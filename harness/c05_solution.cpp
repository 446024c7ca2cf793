#include "problem.h"
using namespace vp;

struct Part { std::string id; int len; };
typedef std::vector<Part> Layout;
static Layout randomLayout(vh::Rng &r, int pool)
{
    Layout l; std::vector<std::string> ids; for (int k = 0; k < pool; ++k) ids.push_back("part" + std::to_string(k));
    r.shuffle(ids); int k = r.i(1, pool); for (int i = 0; i < k; ++i) l.push_back({ids[i], r.chance(0.1) ? 0 : r.i(1, 5)});
    return l;
}
static int total(const Layout &l) { int n = 0; for (auto &p : l) n += p.len; return n; }
static int offsetOf(const Layout &l, const std::string &id, int &len) { int o = 0; for (auto &p : l) { if (p.id == id) { len = p.len; return o; } o += p.len; } len = 0; return -1; }
static std::string str(const Layout &l) { std::string s; for (auto &p : l) s += p.id + ":" + std::to_string(p.len) + " "; return s; }
static void fill(humoto::SolutionStructure &s, const Layout &l) { s.reset(); for (auto &p : l) s.addSolutionPart(p.id, p.len); }

static void checkStructure(vh::Case &c, const humoto::SolutionStructure &s, const Layout &l, const std::string &key)
{
    c.check((int) s.getNumberOfVariables() == total(l), key + "/count");
    c.check(s.isNonEmpty() == !l.empty(), key + "/nonempty");
    std::vector<int> owner(total(l), 0);
    for (auto &p : l)
    {
        int len, o = offsetOf(l, p.id, len); humoto::Location loc = s.getSolutionPartLocation(p.id);
        c.check((int) loc.offset_ == o && (int) loc.length_ == len, key + "/location", p.id);
        for (int i = 0; i < len; ++i) ++owner[o + i];
    }
    for (int k : owner) c.check(k == 1, key + "/partition");
    humoto::Location u = s.getSolutionPartLocation("no such part"); c.check(u.length_ == 0, key + "/unknown");
}

VH_FAMILY(structure, 1500, 30000)
{
    auto &r = c.rng; Layout l = randomLayout(r, 6); humoto::SolutionStructure s;
    if (r.chance(0.5)) fill(s, randomLayout(r, 6));
    fill(s, l); checkStructure(c, s, l, "structure"); c.desc << str(l);
    int n = total(l), rows = r.i(1, 4); MatrixXd M = r.gmat(rows, n); MatrixXd orig = M;
    const MatrixXd &cM = M;
    for (auto &p : l)
    {
        int len, o = offsetOf(l, p.id, len);
        c.nearM(s.getMatrixPart(p.id, cM), orig.block(0, o, rows, len), 0, "structure/matrix_part");
        auto w = s.getMatrixPart(p.id, M); c.check(w.rows() == rows && w.cols() == len, "structure/matrix_part_size");
        if (len) { w.setConstant(5); orig.block(0, o, rows, len).setConstant(5); c.nearM(M, orig, 0, "structure/matrix_part_write"); }
    }
    humoto::SolutionStructure copy = s; checkStructure(c, copy, l, "structure/copy");
    s.reset(); c.check(s.getNumberOfVariables() == 0 && !s.isNonEmpty(), "structure/reset");
    checkStructure(c, copy, l, "structure/copy_after_reset");
    c.signature(str(l));
}

VH_FAMILY(parts_of_a_solution, 1500, 30000)
{
    auto &r = c.rng; Layout l = randomLayout(r, 5); humoto::SolutionStructure s; fill(s, l); int n = total(l); c.desc << str(l);
    humoto::Solution sol; double v = r.chance(0.3) ? 0.0 : r.coef();
    sol.initialize(s, v); c.check(sol.x_.rows() == n && (n == 0 || (sol.x_.array() == v).all()), "solution/constant");
    checkStructure(c, sol, l, "solution/structure");
    VectorXd x = r.gvec(n); sol.x_ = x; const humoto::Solution &cs = sol;
    c.nearM(cs.get_x(), x, 0, "solution/get_x");
    for (int k = 0; k < 12; ++k)
    {
        auto &p = l[r.i(0, l.size() - 1)]; int len, o = offsetOf(l, p.id, len);
        c.nearM(cs.getSolutionPart(p.id), x.segment(o, len), 0, "solution/part");
        if (r.chance(0.5)) { VectorXd w = r.gvec(len); sol.getSolutionPart(p.id) = w; x.segment(o, len) = w; c.nearM(sol.x_, x, 0, "solution/part_write"); }
        int off = r.i(0, n + 1), ln = r.i(0, n + 1); humoto::Location loc(off, ln);
        if (off + ln <= n)
        {
            c.nearM(cs.getData(loc), x.segment(off, ln), 0, "solution/data");
            VectorXd w = r.gvec(ln); sol.getData(loc) = w; x.segment(off, ln) = w; c.nearM(sol.x_, x, 0, "solution/data_write");
        }
        else { c.mustReject([&] { (void) cs.getData(loc); }, "solution/data_range"); c.mustReject([&] { (void) sol.getData(loc); }, "solution/data_range"); }
    }
    c.check(cs.getSolutionPart("no such part").rows() == 0, "solution/unknown_part");
    // an initialized structure over a vector of another size never reads outside
    if (n > 0)
    {
        sol.x_ = x.head(r.i(0, n - 1));
        for (auto &p : l)
        {
            int len, o = offsetOf(l, p.id, len); if (o + len <= sol.x_.rows()) continue;
            c.mustReject([&] { (void) cs.getSolutionPart(p.id); }, "solution/short_vector");
        }
    }
    c.signature(str(l));
}

// the guess: parts with the same name and length are carried over, wherever they sit; everything else is zero
VH_FAMILY(carry_over, 3000, 60000)
{
    auto &r = c.rng; Layout a = randomLayout(r, 5), b = randomLayout(r, 5);
    if (r.chance(0.4)) { b = a; if (r.chance(0.6)) r.shuffle(b); for (auto &p : b) if (r.chance(0.25)) p.len = r.i(0, 5); if (r.chance(0.3) && b.size() > 1) b.pop_back(); }
    humoto::SolutionStructure sb; humoto::Solution old, guess; fill(sb, b);
    { humoto::SolutionStructure sa; fill(sa, a); old.initialize(sa); }
    old.x_ = r.gvec(total(a)); for (int i = 0; i < old.x_.rows(); ++i) if (old.x_[i] == 0) old.x_[i] = 1;
    c.desc << str(a) << "-> " << str(b);
    VectorXd want = VectorXd::Zero(total(b)); int carried = 0, zeroed = 0;
    for (auto &p : b)
    {
        int la, lb, oa = offsetOf(a, p.id, la), ob = offsetOf(b, p.id, lb);
        if (oa >= 0 && la == lb) { for (int i = 0; i < lb; ++i) want[ob + i] = old.x_[oa + i]; carried += lb > 0; } else zeroed += lb > 0;
    }
    humoto::Solution old_copy = old;
    if (r.chance(0.5)) { humoto::SolutionStructure junk; fill(junk, randomLayout(r, 5)); guess.initialize(junk, 9.0); }
    int how = r.i(0, 2);
    Control cp; std::vector<std::pair<std::string, int>> parts; for (auto &p : b) parts.push_back({p.id, p.len}); cp.set(parts);
    if (how == 0) guess.initialize(sb, old);
    else if (how == 1) cp.guessSolution(guess, old);
    else
    {
        if (total(b) == 0) return;
        Spec s = randomSpec(r, A, B, total(b), true); Made m = make(s); humoto::OptimizationProblem opt; opt.reset(1); opt.pushTask(m.ptr, 0); Mdl mdl;
        humoto::Solution sol; if (r.chance(0.5)) { opt.form(sol, guess, mdl, cp, old); } else { humoto::ActiveSet as; opt.form(sol, guess, as, mdl, cp, old); }
        checkStructure(c, sol, b, "carry/solution_structure"); c.check(sol.x_.rows() == total(b), "carry/solution_size");
    }
    checkStructure(c, guess, b, "carry/structure");
    c.nearM(guess.x_, want, 0, "carry/values");
    c.nearM(old.x_, old_copy.x_, 0, "carry/old_changed");
    c.count("parts_carried", carried); c.count("parts_zeroed", zeroed);
    c.signature(str(a) + ">" + str(b));
}
VH_FAMILY(uninitialized_structure, 50, 500)
{
    Control cp; humoto::Solution s; c.mustReject([&] { cp.initSolutionStructure(s); }, "structure/uninitialized_accepted");
    Layout l = randomLayout(c.rng, 4); std::vector<std::pair<std::string, int>> parts; for (auto &p : l) parts.push_back({p.id, p.len}); cp.set(parts);
    cp.initSolutionStructure(s); checkStructure(c, s, l, "structure/init"); c.check(s.x_.rows() == total(l), "structure/init_size");
    checkStructure(c, cp.getSolutionStructure(), l, "structure/get");
    c.signature(str(l)); c.desc << str(l);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
