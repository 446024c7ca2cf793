#include "problem.h"
using namespace vp;
using humoto::ConstraintActivationType;
typedef ConstraintActivationType::Type T;
static T rt(vh::Rng &r) { return static_cast<T>(r.i(0, 4)); }

// ActiveSetConstraints against a std::vector
VH_FAMILY(active_set_container, 2500, 50000)
{
    auto &r = c.rng; humoto::ActiveSetConstraints a; std::vector<T> m; std::string sig;
    auto same = [&](const humoto::ActiveSetConstraints &x, const std::vector<T> &y, const std::string &key) {
        c.check(x.size() == y.size(), key + "/size");
        std::size_t act = 0;
        for (std::size_t i = 0; i < y.size(); ++i) { c.check(x[i] == y[i], key + "/entry"); act += y[i] == ConstraintActivationType::LOWER_BOUND || y[i] == ConstraintActivationType::UPPER_BOUND; }
        c.check(x.countActiveInequalities() == act, key + "/count_active");
    };
    int ops = 30;
    for (int k = 0; k < ops; ++k)
    {
        int n = m.size(), op = r.i(0, 9); sig += char('a' + op);
        if (op == 0) { int z = r.i(0, 8); T t = rt(r); a.initialize(z, t); m.assign(z, t); }
        if (op == 1) { T t = rt(r); a.set(t); std::fill(m.begin(), m.end(), t); }
        if (op == 2)
        {
            int off = r.i(0, n + 1), len = r.i(0, n + 1); T t = rt(r);
            if (off + len <= n) { a.set(humoto::Location(off, len), t); std::fill(m.begin() + off, m.begin() + off + len, t); }
            else c.mustReject([&] { a.set(humoto::Location(off, len), t); }, "container/set_out_of_range");
        }
        if (op == 3 && n) { int i = r.i(0, n - 1); T t = rt(r); a[i] = t; m[i] = t; }
        if (op == 4 || op == 5)
        {
            int s = r.i(0, n + 1); T t = rt(r);
            if (s <= n)
            {
                a.shift(s, t);
                std::vector<T> q; for (int i = s; i < n; ++i) q.push_back(m[i]); for (int i = 0; i < s; ++i) q.push_back(t);
                m = q; c.count("shifts");
            }
            else c.mustReject([&] { a.shift(s, t); }, "container/shift_out_of_range");
        }
        if (op == 6)
        {
            int off = r.i(0, n + 1), len = r.i(0, n + 1); humoto::ActiveSetConstraints o; o.initialize(len, ConstraintActivationType::INACTIVE); std::vector<T> om(len);
            for (int i = 0; i < len; ++i) { om[i] = rt(r); o[i] = om[i]; }
            if (off + len <= n) { a.copyTo(humoto::Location(off, len), o); std::copy(om.begin(), om.end(), m.begin() + off); }
            else c.mustReject([&] { a.copyTo(humoto::Location(off, len), o); }, "container/copyto_out_of_range");
        }
        if (op == 7)
        {
            int off = r.i(0, n + 1), len = r.i(0, n + 1); humoto::Location loc(off, len); humoto::ActiveSetConstraints o; o.initialize(r.i(0, 6), rt(r));
            if (off + len <= n)
            {
                std::vector<T> part(m.begin() + off, m.begin() + off + len);
                if ((int) o.size() != len) c.mustReject([&] { o.copyFrom(a, loc); }, "container/copyfrom_size");
                else { o.copyFrom(a, loc); same(o, part, "container/copyfrom"); }
                o.initialize(a, loc); same(o, part, "container/initialize_from");
            }
            else { c.mustReject([&] { o.copyFrom(a, loc); }, "container/copyfrom_range"); c.mustReject([&] { o.initialize(a, loc); }, "container/initialize_range"); }
        }
        if (op == 8) { c.mustReject([&] { (void) a[n + r.i(0, 2)]; }, "container/index"); const auto &ca = a; c.mustReject([&] { (void) ca[n]; }, "container/index"); }
        if (op == 9 && r.chance(0.3)) { a.reset(); m.clear(); }
        same(a, m, "container/state");
    }
    c.desc << sig; c.signature(sig); c.count("container_operations", ops);
}

VH_FAMILY(location_arithmetic, 500, 10000)
{
    auto &r = c.rng;
    for (int k = 0; k < 20; ++k)
    {
        std::size_t big = std::numeric_limits<std::size_t>::max();
        std::size_t o = r.chance(0.2) ? big - r.i(0, 3) : r.i(0, 6), l = r.chance(0.2) ? big - r.i(0, 3) : r.i(0, 6), mx = r.i(0, 8);
        humoto::Location a(o, l);
        bool fits = o <= mx && l <= mx && o + l <= mx;
        c.check(a.checkLength(mx) == fits, "location/check_length");
        humoto::Location b; c.check(b.offset_ == 0 && b.length_ == 0, "location/default");
        b.set(o, l); c.check(a == b && !(a != b), "location/equal");
        b.set(o + 1, l); c.check(a != b && !(a == b), "location/differ"); b.set(o, l + 1); c.check(a != b && !(a == b), "location/differ");
        c.check(a.front() == o && a.end() == o + l, "location/ends");
        c.signature(std::to_string(o) + "," + std::to_string(l) + "," + std::to_string(mx));
    }
    c.desc << "offset/length pairs incl. wraparound";
}

// an active set given to the problem reaches the tasks, comes back as a guess, and never leaks between tasks
VH_FAMILY(distribution_and_guess, 4000, 80000)
{
    auto &r = c.rng; int n = r.i(1, 6); std::vector<std::vector<Spec>> sp; int nl = r.i(1, 3);
    for (int l = 0; l < nl; ++l) sp.push_back(randomLevel(r, n, 5, false, true));
    Problem p; p.build(n, sp); c.desc << p.describe();
    humoto::Solution sol, guess_sol, old; humoto::ActiveSet guess; std::string sig = p.describe();
    std::map<const void *, std::vector<T>> actual;      // model of what every task knows
    int rounds = r.i(2, 4);
    for (int k = 0; k < rounds; ++k)
    {
        // some tasks keep their data and declare it, the others change (also in size)
        for (auto &l : p.levels) for (auto &m : l)
        {
            bool keep = k > 0 && r.chance(0.5);
            if (k > 0 && !keep) { Spec s = randomSpec(r, m.hooks->spec.body, m.hooks->spec.bnd, n, true); m.hooks->spec = s; }
            m.hooks->spec.mark_unmodified = keep;
            sig += keep ? 'k' : 'm';
        }
        int how = r.i(0, 1);
        if (how == 0) p.opt.form(sol, guess, p.model, p.control);
        else p.opt.form(sol, guess_sol, guess, p.model, p.control, old);
        c.check(guess.size() == sp.size(), "guess/levels");
        humoto::ActiveSet given; p.opt.initializeActiveSet(given);
        c.check(given.size() == sp.size(), "initialize/levels");
        for (std::size_t l = 0; l < p.levels.size(); ++l)
        {
            c.check((int) guess[l].size() == p.rows(l) && (int) given[l].size() == p.rows(l), "guess/size");
            for (std::size_t i = 0; i < given[l].size(); ++i) given[l][i] = rt(r);
            for (auto &m : p.levels[l])
            {
                const Spec &s = m.hooks->spec; humoto::Location loc = p.location(l, m);
                c.check((int) loc.length_ == s.m, "guess/location");
                for (int i = 0; i < s.m; ++i)
                {
                    T want = s.equality() ? ConstraintActivationType::EQUALITY : ConstraintActivationType::INACTIVE;
                    if (s.mark_unmodified && actual.count(m.hooks)) { want = actual[m.hooks][i]; c.count("guesses_reused"); }
                    else c.count("guesses_default");
                    c.check(guess[l][loc.offset_ + i] == want, "guess/" + s.type(), "round " + std::to_string(k) + " row " + std::to_string(i));
                }
            }
        }
        if (r.chance(0.8))
        {
            p.opt.processActiveSet(given);
            for (std::size_t l = 0; l < p.levels.size(); ++l) for (auto &m : p.levels[l])
            {
                const Spec &s = m.hooks->spec; humoto::Location loc = p.location(l, m); std::vector<T> &a = actual[m.hooks]; a.clear();
                for (int i = 0; i < s.m; ++i) a.push_back(given[l][loc.offset_ + i]);
                c.check((int) m.hooks->actual().size() == s.m, "distribute/size");
                for (int i = 0; i < s.m; ++i) c.check(m.hooks->actual()[i] == a[i], "distribute/" + s.type());
            }
            c.count("active_sets_distributed");
        }
        else if (!actual.empty())
        {   // tasks whose size changed without feedback must not be declared unmodified in this model
            for (auto &l : p.levels) for (auto &m : l) if (actual.count(m.hooks) && (int) actual[m.hooks].size() != m.hooks->spec.m) { c.signature(sig); return; }
        }
    }
    // an active set of a different shape is refused
    humoto::ActiveSet wrong; std::vector<std::size_t> cnt; for (std::size_t l = 0; l < p.levels.size() + 1; ++l) cnt.push_back(1);
    wrong.initialize(cnt.size(), cnt);
    c.mustReject([&] { p.opt.processActiveSet(wrong); }, "distribute/wrong_levels");
    c.signature(sig);
}

// forming alternately with and without a guess, with changing sizes
VH_FAMILY(mixed_forming, 800, 16000)
{
    auto &r = c.rng; int n = r.i(1, 6); Problem p; p.build(n, {randomLevel(r, n, 4, false, true), randomLevel(r, n, 3, true, true)}); c.desc << p.describe();
    humoto::Solution sol, gs, old; humoto::ActiveSet guess; std::string sig = p.describe();
    int rounds = r.i(2, 5);
    for (int k = 0; k < rounds; ++k)
    {
        if (k > 0) for (auto &l : p.levels) for (auto &m : l) if (r.chance(0.6)) m.hooks->spec = randomSpec(r, m.hooks->spec.body, m.hooks->spec.bnd, n, true);
        int how = r.i(0, 3); sig += char('0' + how);
        try
        {
            if (how == 0) p.opt.form(sol, p.model, p.control);
            if (how == 1) p.opt.form(sol, guess, p.model, p.control);
            if (how == 2) p.opt.form(sol, gs, guess, p.model, p.control, old);
            if (how == 3) p.opt.form(sol, gs, p.model, p.control, old);
        }
        catch (const std::exception &e) { c.fail("mixed/forming_rejected", std::string(e.what()) + " " + sig); }
        for (std::size_t l = 0; l < p.levels.size(); ++l) c.check((int) p.opt[l].getNumberOfConstraints() == p.rows(l), "mixed/rows");
        if (how == 1 || how == 2) for (std::size_t l = 0; l < p.levels.size(); ++l) for (auto &m : p.levels[l])
        {
            humoto::Location loc = p.location(l, m);
            for (int i = 0; i < m.hooks->spec.m; ++i) c.check(guess[l][loc.offset_ + i] == (m.hooks->spec.equality() ? ConstraintActivationType::EQUALITY : ConstraintActivationType::INACTIVE), "mixed/guess");
        }
        c.count("formed");
    }
    c.signature(sig);
}

// round trip through the problem: determine at a point, distribute, guess for the unchanged problem
VH_FAMILY(determined_set_round_trip, 1200, 24000)
{
    auto &r = c.rng; int n = r.i(1, 6); Problem p; std::vector<std::vector<Spec>> sp; int nl = r.i(1, 3);
    for (int l = 0; l < nl; ++l) sp.push_back(randomLevel(r, n, 4, false, true));
    p.build(n, sp); c.desc << p.describe();
    humoto::Solution sol; humoto::ActiveSet g0, g1, det; p.opt.form(sol, g0, p.model, p.control);
    for (int i = 0; i < n; ++i) sol.x_[i] = r.i(-3, 3);
    p.opt.determineActiveSet(det, sol); p.opt.processActiveSet(det);
    for (auto &l : p.levels) for (auto &m : l) m.hooks->spec.mark_unmodified = true;
    p.opt.form(sol, g1, p.model, p.control);
    std::string sig = p.describe();
    c.check(g1.size() == det.size(), "roundtrip/levels");
    for (std::size_t l = 0; l < det.size(); ++l)
    {
        c.check(g1[l].size() == det[l].size(), "roundtrip/size");
        for (std::size_t i = 0; i < det[l].size(); ++i) { c.check(g1[l][i] == det[l][i], "roundtrip/entry"); sig += char('0' + det[l][i]); }
    }
    c.signature(sig);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
