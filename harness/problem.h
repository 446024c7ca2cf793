/**
 * Random optimization problems in two forms: real humoto tasks, and a plain
 * dense description  lb <= A x <= ub  which the oracles use.
 */
#pragma once
#include "vh.h"
#include "humoto/humoto.h"

namespace vp
{
    using Eigen::MatrixXd;
    using Eigen::VectorXd;

    enum Body { A, AS, I, GI };
    enum Bnd { LU, L, U, B, B0 };

    inline const char *bodyName(Body b) { static const char *n[] = {"A", "AS", "I", "GI"}; return n[b]; }
    inline const char *bndName(Bnd b) { static const char *n[] = {"LU", "L", "U", "B", "B0"}; return n[b]; }

    const double INF = std::numeric_limits<double>::infinity();

    struct Spec
    {
        Body body;
        Bnd bnd;
        int n, m;
        // what the task is given
        MatrixXd Aloc; int offset; std::vector<unsigned> idx; VectorXd gains; VectorXd b, lb, ub;
        // what it means
        MatrixXd full; VectorXd rlb, rub;
        bool mark_unmodified = false;
        bool equality() const { return bnd == B || bnd == B0; }
        bool simple() const { return body == I || body == GI; }
        std::string type() const { return std::string(bodyName(body)) + bndName(bnd); }

        void interpret()
        {
            full = MatrixXd::Zero(m, n);
            if (body == A) full = Aloc;
            if (body == AS) for (int r = 0; r < m; ++r) for (int k = 0; k < Aloc.cols(); ++k) full(r, offset + k) = Aloc(r, k);
            if (body == I) for (int r = 0; r < m; ++r) full(r, idx[r]) = 1.0;
            if (body == GI) for (int r = 0; r < m; ++r) full(r, idx[r]) = gains[r];
            rlb = VectorXd::Constant(m, -INF); rub = VectorXd::Constant(m, INF);
            if (bnd == LU || bnd == L) rlb = lb;
            if (bnd == LU || bnd == U) rub = ub;
            if (bnd == B) rlb = rub = b;
            if (bnd == B0) rlb = rub = VectorXd::Zero(m);
        }
    };

    // integer data => products and comparisons are exact
    inline double val(vh::Rng &r, bool integer) { return integer ? r.i(-4, 4) : r.coef(); }

    inline Spec randomSpec(vh::Rng &r, Body body, Bnd bnd, int n, bool integer, int max_rows = 5, bool consistent = true)
    {
        Spec s; s.body = body; s.bnd = bnd; s.n = n; s.offset = 0;
        if (body == A || body == AS)
        {
            s.m = r.i(1, max_rows);
            int cols = n;
            if (body == AS) { cols = r.i(1, n); s.offset = r.i(0, n - cols); }
            s.Aloc = MatrixXd(s.m, cols);
            for (int a = 0; a < s.m; ++a) for (int k = 0; k < cols; ++k) s.Aloc(a, k) = val(r, integer);
        }
        else
        {
            s.m = r.i(1, std::min(n, max_rows));
            std::vector<unsigned> all;
            for (int k = 0; k < n; ++k) all.push_back(k);
            r.shuffle(all);
            s.idx.assign(all.begin(), all.begin() + s.m);
            if (r.chance(0.3)) std::sort(s.idx.begin(), s.idx.end());
            if (r.chance(0.15) && s.m > 1) s.idx[s.m - 1] = s.idx[0];   // repeated variable
            s.gains = VectorXd(s.m);
            for (int a = 0; a < s.m; ++a) { s.gains[a] = val(r, integer); if (s.gains[a] == 0 && r.chance(0.8)) s.gains[a] = integer ? 2 : 1.5; }
        }
        s.b = VectorXd(s.m); s.lb = VectorXd(s.m); s.ub = VectorXd(s.m);
        for (int a = 0; a < s.m; ++a)
        {
            s.b[a] = val(r, integer);
            double p = val(r, integer), q = val(r, integer);
            if (p > q) std::swap(p, q);
            if (r.chance(0.15)) q = p;
            if (!consistent && r.chance(0.4)) std::swap(p, q);
            s.lb[a] = p; s.ub[a] = q;
        }
        s.interpret();
        return s;
    }

    struct Hooks
    {
        virtual ~Hooks() {}
        virtual const humoto::ActiveSetConstraints &actual() const = 0;
        virtual humoto::ActiveSetConstraints &guess() = 0;
        Spec spec;
        long formed = 0;
        long nvars_seen = -1;
    };

    template <int b> struct BodyTag {};
    template <int b> struct BndTag {};
    template <class T> void setBody(T &t, const Spec &s, BodyTag<A>) { t.getA() = s.Aloc; }
    template <class T> void setBody(T &t, const Spec &s, BodyTag<AS>) { t.getA() = s.Aloc; t.setOffset(s.offset); }
    template <class T> void setBody(T &t, const Spec &s, BodyTag<I>)
    {
        t.getIndices().resize(s.idx.size());
        for (std::size_t k = 0; k < s.idx.size(); ++k) t.getIndices()[k] = s.idx[k];
    }
    template <class T> void setBody(T &t, const Spec &s, BodyTag<GI>) { setBody(t, s, BodyTag<I>()); t.getIGains() = s.gains; }
    template <class T> void setBnd(T &t, const Spec &s, BndTag<LU>) { t.getLowerBounds() = s.lb; t.getUpperBounds() = s.ub; }
    template <class T> void setBnd(T &t, const Spec &s, BndTag<L>) { t.getLowerBounds() = s.lb; }
    template <class T> void setBnd(T &t, const Spec &s, BndTag<U>) { t.getUpperBounds() = s.ub; }
    template <class T> void setBnd(T &t, const Spec &s, BndTag<B>) { t.getB() = s.b; }
    template <class T> void setBnd(T &, const Spec &, BndTag<B0>) {}

    template <class T, int body, int bnd> class HTask : public T, public Hooks
    {
      public:
        explicit HTask(const Spec &s) : T("task_" + s.type()) { spec = s; }
        const humoto::ActiveSetConstraints &actual() const { return T::getActualActiveSet(); }
        humoto::ActiveSetConstraints &guess() { return T::getActiveSetGuess(); }
      protected:
        void form(const humoto::SolutionStructure &ss, const humoto::Model &, const humoto::ControlProblem &)
        {
            ++formed; nvars_seen = ss.getNumberOfVariables();
            setBody(*static_cast<T *>(this), spec, BodyTag<body>());
            setBnd(*static_cast<T *>(this), spec, BndTag<bnd>());
            if (spec.mark_unmodified) T::markAsUnmodified();
        }
    };

    struct Made
    {
        humoto::TaskSharedPointer ptr;
        Hooks *hooks;
        // location assigned by the level, looked up in its public task list
        const humoto::TaskBase *raw() const { return ptr.get(); }
    };

    inline Made make(const Spec &s)
    {
        Made m; m.hooks = nullptr;
#define VP_MK(bd, bn) if (s.body == bd && s.bnd == bn) { auto *p = new HTask<humoto::Task##bd##bn, bd, bn>(s); m.hooks = p; m.ptr.reset(p); }
#define VP_MK4(bn) VP_MK(A, bn) VP_MK(AS, bn) VP_MK(I, bn) VP_MK(GI, bn)
        VP_MK4(LU) VP_MK4(L) VP_MK4(U) VP_MK4(B) VP_MK4(B0)
#undef VP_MK4
#undef VP_MK
        return m;
    }

    class Control : public humoto::ControlProblem
    {
      public:
        Control() {}
        explicit Control(int n) { set({{"x", n}}); }
        void set(const std::vector<std::pair<std::string, int>> &parts)
        {
            sol_structure_.reset();
            for (auto &p : parts) sol_structure_.addSolutionPart(p.first, p.second);
        }
        void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };
    class Mdl : public humoto::Model
    {
      public:
        void updateState(const humoto::ModelState &) {}
        void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };

    struct Problem
    {
        int n;
        std::vector<std::vector<Made>> levels;    // in the order of pushing
        humoto::OptimizationProblem opt;
        Control control;
        Mdl model;

        void build(int n_, const std::vector<std::vector<Spec>> &spec)
        {
            n = n_; control.set({{"x", n}});
            opt.reset(spec.size());
            levels.clear();
            for (std::size_t l = 0; l < spec.size(); ++l)
            {
                levels.push_back({});
                for (auto &s : spec[l]) { Made m = make(s); levels[l].push_back(m); opt.pushTask(m.ptr, l); }
            }
        }
        humoto::Location location(std::size_t level, const Made &m) const
        {
            for (auto &ti : opt[level].tasks_) if (ti.ptr_.get() == m.ptr.get()) return ti.location_;
            throw std::logic_error("task lost");
        }
        int rows(std::size_t level) const { int k = 0; for (auto &m : levels[level]) k += m.hooks->spec.m; return k; }
        std::string describe() const
        {
            std::ostringstream s; s << "n=" << n;
            for (auto &l : levels) { s << " |"; for (auto &m : l) s << " " << m.hooks->spec.type() << ":" << m.hooks->spec.m; }
            return s.str();
        }
    };

    inline const std::vector<Bnd> &eqBnds() { static std::vector<Bnd> v{B, B0}; return v; }
    inline const std::vector<Bnd> &allBnds() { static std::vector<Bnd> v{LU, L, U, B, B0}; return v; }
    inline const std::vector<Body> &allBodies() { static std::vector<Body> v{A, AS, I, GI}; return v; }

    inline std::vector<Spec> randomLevel(vh::Rng &r, int n, int max_tasks, bool eq_only, bool integer, bool consistent = true,
                                         const std::vector<Body> &bodies = allBodies())
    {
        std::vector<Spec> v;
        int k = r.i(1, max_tasks);
        // a homogeneous level now and then
        bool one_body = r.chance(0.35); Body fixed = r.pick(bodies);
        bool all_simple = r.chance(0.2);
        for (int t = 0; t < k; ++t)
        {
            Body b = one_body ? fixed : r.pick(bodies);
            if (all_simple) { std::vector<Body> sb; for (Body x : bodies) if (x == I || x == GI) sb.push_back(x); if (!sb.empty()) b = r.pick(sb); }
            v.push_back(randomSpec(r, b, eq_only ? r.pick(eqBnds()) : r.pick(allBnds()), n, integer, 5, consistent));
        }
        return v;
    }
}
