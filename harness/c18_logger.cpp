/**
 * Logger: everything logged is recorded as it is given, the output is parsed by an independent
 * reader of Octave assignments, and the two histories are compared (exactly once, in order, names,
 * values). Producers and the output stream are slowed down at random points; the same program is
 * run under ThreadSanitizer, under ASan+UBSan, and with the logger which uses no thread.
 */
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "problem.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "oct.h"
#include <thread>
#include <atomic>
#include <cstdio>
using Eigen::MatrixXd; using Eigen::VectorXd; using humoto::Logger; using humoto::LogEntryName;
static std::ostringstream g_out;
HUMOTO_INITIALIZE_GLOBAL_LOGGER(g_out);

//// output
class SlowBuf : public std::stringbuf      // a stream which takes its time, at random points
{
  public:
    vh::Rng r; int p; long delays = 0, flushes = 0; SlowBuf(uint64_t seed, int p_) : r(seed), p(p_) {}
    void nap() { if (p && r.i(1, 1000) <= p) { ++delays; std::this_thread::sleep_for(std::chrono::microseconds(r.i(0, 300))); } }
    std::streamsize xsputn(const char *s, std::streamsize n) { nap(); return std::stringbuf::xsputn(s, n); }
    int sync() { ++flushes; nap(); return std::stringbuf::sync(); }
};
static std::string slurp(const std::string &f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }

//// logging
static double value(vh::Rng &r)
{
    switch (r.i(0, 9)) { case 0: return 0.0; case 1: return r.i(-1000, 1000); case 2: return r.coef() * 1e-300; case 3: return r.coef() * 1e300; case 4: return r.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e20, 1.0 / 3, -0.1}); default: return r.coef() * std::pow(10.0, r.i(-8, 8)); }
}
static MatrixXd matrix(vh::Rng &r, int rows, int cols) { MatrixXd m(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = value(r); return m; }
static std::string text(vh::Rng &r) { static const char *a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789 _-.,:=[];+*/()"; std::string s; for (int n = r.i(1, r.chance(0.1) ? 300 : 20); n > 0; --n) s += a[r.i(0, 60)]; s[0] = 'x'; s.back() = 'y'; return s; }
static std::string ident(vh::Rng &r) { static const char *a = "abcdefghijklmnopqrstuvwxyz_ABC012"; std::string s(1, 'a' + r.i(0, 25)); for (int n = r.i(0, r.chance(0.05) ? 80 : 6); n > 0; --n) s += a[r.i(0, 32)]; return s; }
// a hierarchical name in all the ways of building it
static LogEntryName name(vh::Rng &r, const std::string &prefix, std::string &want)
{
    LogEntryName n; want = ""; auto append = [&](const std::string &p) { if (!want.empty() && !p.empty()) want += "."; want += p; };
    switch (r.i(0, 2)) { case 0: n = LogEntryName(prefix); break; case 1: n = LogEntryName(prefix.c_str()); break; default: n.add(prefix); } append(prefix);
    for (int k = r.i(prefix.empty() ? 1 : 0, 4); k > 0; --k)
    {
        int w = (want.empty() ? 0 : r.i(0, 4)); std::string p = ident(r);
        if (w == 0) { n.add(p); append(p); } else if (w == 1) { n.add(p.c_str()); append(p); } else if (w == 2) { std::size_t i = r.chance(0.1) ? r.i(0, 1000000) : r.i(0, 12); n.add(i); want += "{" + std::to_string(i + 1) + "}"; } else if (w == 3) n.add(""); else { LogEntryName copy(n); copy.add("other").add(std::size_t(3)); n.add(std::string()); }
        if (r.chance(0.2)) { LogEntryName q = LogEntryName(n); n = q; }
    }
    return n;
}
enum Enum { E0 = 0, E1 = 7, E2 = -3 };
// logs something, and destroys what was logged immediately afterwards
template <class L> static Entry logOne(vh::Rng &r, L &lg, const std::string &prefix, bool raw)
{
    Entry e; LogEntryName n = name(r, prefix, e.name); int rows = r.chance(0.1) ? 0 : (r.chance(0.05) ? r.i(20, 40) : r.i(1, 5)), cols = r.chance(0.05) ? 0 : r.i(1, 5);
    if (raw)
    {
        switch (r.i(0, 4))
        {
            case 0: { e.kind = 'r'; e.s = "% " + text(r); char b[400]; std::snprintf(b, 400, "%s", e.s.c_str()); lg.log(static_cast<const char *>(b)); std::memset(b, 'Z', 399); break; }
            case 1: { e.kind = 'r'; e.s = "% " + text(r); std::string s = e.s; lg.log(s); s.assign(s.size(), 'Z'); break; }
            case 2: { e.kind = 'r'; int k = r.i(-100000, 100000); e.s = std::to_string(k); lg.log(k); k = 0; break; }
            case 3: { e.kind = 'R'; MatrixXd m = matrix(r, std::max(rows, 1), std::max(cols, 1)); e.m = m; lg.log(m); m.setConstant(777); break; }
            default: { e.kind = 'R'; e.m = MatrixXd::Constant(1, 1, value(r)); double v = e.m(0, 0); lg.log(v); v = 777; break; }
        }
        return e;
    }
    switch (r.i(0, 14))
    {
        case 0: { double v = value(r); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); lg.log(n, v); v = 777; break; }
        case 1: { int v = r.i(-100000, 100000); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); lg.log(n, v); v = 777; break; }
        case 2: { std::size_t v = r.i(0, 2000000000); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); lg.log(n, v); v = 777; break; }
        case 3: { bool v = r.chance(0.5); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); lg.log(n, v); v = !v; break; }
        case 4: { Enum v = r.pick({E0, E1, E2}); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); lg.log(n, v); v = E0; break; }
        case 5: { e.kind = 's'; e.s = text(r); std::string s = e.s; lg.log(n, s); s.assign(s.size(), 'Z'); break; }
        case 6: { e.kind = 's'; e.s = text(r); char b[400]; std::snprintf(b, 400, "%s", e.s.c_str()); lg.log(n, static_cast<const char *>(b)); std::memset(b, 'Z', 399); break; }
        case 7: { e.kind = 's'; e.s = "a literal"; lg.log(n, "a literal"); break; }
        case 8: { std::vector<double> v; for (int k = rows; k > 0; --k) v.push_back(value(r)); e.kind = 'v'; e.m = Eigen::Map<VectorXd>(v.data(), v.size()); lg.log(n, v); v.assign(v.size(), 777); break; }
        case 9: { std::vector<Enum> v; e.m.resize(rows, rows ? 1 : 0); for (int k = 0; k < rows; ++k) { v.push_back(r.pick({E0, E1, E2})); e.m(k, 0) = v[k]; } e.kind = 'v'; lg.log(n, v); break; }
        case 10: { MatrixXd m = matrix(r, rows, cols); e.kind = 'm'; e.m = m; lg.log(n, m); m.setConstant(777); break; }
        case 11: { MatrixXd m = matrix(r, rows + 2, cols + 2); e.kind = 'm'; if (r.chance(0.5)) { e.m = m.block(1, 1, rows, cols); lg.log(n, m.block(1, 1, rows, cols)); } else { e.m = m.topRows(2).transpose(); lg.log(n, m.topRows(2).transpose()); } m.setConstant(777); break; }
        case 12: { Eigen::Matrix3d m = matrix(r, 3, 3); e.kind = 'm'; if (r.chance(0.5)) { e.m = m; lg.log(n, m); } else { e.m = m.row(1); lg.log(n, m.row(1)); } m.setConstant(777); break; }
        case 13: { Eigen::VectorXi m(rows); e.m.resize(rows, rows ? 1 : 0); for (int k = 0; k < rows; ++k) e.m(k, 0) = m[k] = r.i(-99999, 99999); e.kind = 'm'; lg.log(n, m); m.setConstant(777); break; }
        default: { Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m = matrix(r, rows, cols); e.kind = 'm'; if (r.chance(0.5)) { e.m = m; lg.log(n, m); } else { VectorXd a = matrix(r, 3, 1); m.setZero(); e.m = a; lg.log(n, a.head(3)); a.setConstant(777); } m.setConstant(777); break; }
    }
    return e;
}
static void nap(vh::Rng &r) { int k = r.i(0, 40); if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.i(0, 2500))); else if (k < 5) std::this_thread::yield(); }

// the output is the history
static void compare(vh::Case &c, const std::string &out, const std::vector<Entry> &want, const std::string &key, const std::string &msg)
{
    Parser p(out);
    for (std::size_t k = 0; k < want.size(); ++k)
    {
        Entry e; e.kind = want[k].kind; bool ok = want[k].kind == 'r' ? p.rawText(e, want[k].s) : want[k].kind == 'R' ? p.rawMatrix(e, want[k].m.rows(), want[k].m.cols()) : p.entry(e); std::string where = msg + ", entry " + std::to_string(k) + " of " + std::to_string(want.size());
        c.check(ok, key + "/unreadable", where + " " + p.error + " expected " + show(want[k])); if (want[k].kind != 'r' && want[k].kind != 'R') c.check(e.name == want[k].name, key + "/name", where + " got " + e.name + " not " + want[k].name);
        c.check(sameValue(e, want[k]), key + "/value", where + " got " + show(e) + " not " + show(want[k])); c.check((e.kind == 's') == (want[k].kind == 's'), key + "/kind", where);
    }
    p.ws(); c.check(p.i == out.size(), key + "/surplus", msg + ": " + out.substr(p.i, 80)); c.count("entries_read", want.size());
}
#ifdef VH_NO_LOG_THREADS
struct Maker { static Logger *make() { return new Logger(); } static Logger *make(std::ostream &o, int) { return new Logger(o); } static Logger *make(const std::string &f, int) { return new Logger(f); } template <class T> static void init(Logger &l, T &t, int) { l.initialize(t); } };
static const bool threaded = false;
#else
struct Maker { static Logger *make() { return new Logger(); } static Logger *make(std::ostream &o, int ms) { return ms < 0 ? new Logger(o) : new Logger(o, ms); } static Logger *make(const std::string &f, int ms) { return ms < 0 ? new Logger(f) : new Logger(f, ms); } template <class T> static void init(Logger &l, T &t, int ms) { if (ms < 0) l.initialize(t); else l.initialize(t, ms); } };
static const bool threaded = true;
#endif
static int pause(vh::Rng &r) { return r.pick({0, 0, 1, 1, 2, 3, -1}); }

// one producer, destroyed at an arbitrary point
VH_FAMILY(single, 1200, 20000)
{
    auto &r = c.rng; SlowBuf buf(r.next(), r.pick({0, 0, 20, 200})); std::ostream os(&buf); if (r.chance(0.3)) os.precision(r.i(1, 5)); std::string file = "single.m"; bool to_file = r.chance(0.3), raw = r.chance(0.3); std::vector<Entry> want; int n = r.chance(0.2) ? r.i(0, 3) : (r.chance(0.1) ? r.i(100, 400) : r.i(1, 40)), ms = pause(r); bool naps = r.chance(0.5); std::ostringstream sig;
    {
        std::unique_ptr<Logger> lg; int late = 0;
        if (threaded && r.chance(0.2)) { late = r.i(0, n); lg.reset(Maker::make()); for (int k = 0; k < late; ++k) want.push_back(logOne(r, *lg, "", raw && r.chance(0.3))); if (to_file) Maker::init(*lg, file, ms); else Maker::init(*lg, os, ms); c.count("logged_before_initialization", late); }
        else if (to_file) lg.reset(Maker::make(file, ms)); else lg.reset(Maker::make(os, ms));
        for (int k = late; k < n; ++k) { want.push_back(logOne(r, *lg, "", raw && r.chance(0.3))); if (naps) nap(r); }
        if (r.chance(0.5)) { std::this_thread::sleep_for(std::chrono::microseconds(r.i(0, 3000))); c.count("destroyed_later"); } else c.count("destroyed_at_once");
    }
    for (auto &e : want) sig << e.kind << e.name; c.desc << n << " entries, pause " << ms << (to_file ? " file" : " stream"); compare(c, to_file ? slurp(file) : buf.str(), want, "single", c.desc.str()); if (to_file) { c.count("files"); std::remove(file.c_str()); }
    c.count("delays", buf.delays); c.signature(sig.str());
}
// the output changes in the course of logging
VH_FAMILY(outputs, 500, 8000)
{
    auto &r = c.rng; std::vector<std::unique_ptr<SlowBuf>> bufs; std::vector<std::unique_ptr<std::ostream>> streams; std::vector<int> kind; std::vector<std::vector<Entry>> want; std::ostringstream sig; int parts = r.i(1, 6); bool global = r.chance(0.4), again = false;
    {
        std::unique_ptr<Logger> own; if (!global) own.reset(Maker::make()); Logger &lg = global ? humoto::g_logger : *own; std::vector<Entry> pending;
        for (int q = 0; q < parts; ++q)
        {
            if (threaded && r.chance(0.25)) { c.mustReject([&] { std::string f = "no/such/directory/file.m"; Maker::init(lg, f, pause(r)); }, "outputs/unwritable"); for (int k = r.i(0, 3); k > 0; --k) pending.push_back(logOne(r, lg, "", false)); c.count("failed_initializations"); }
            else if (threaded && q == 0 && !global && r.chance(0.5)) for (int k = r.i(0, 3); k > 0; --k) pending.push_back(logOne(r, lg, "", false));
            bool f = r.chance(0.5); kind.push_back(f); bufs.emplace_back(new SlowBuf(r.next(), r.pick({0, 20, 200}))); streams.emplace_back(new std::ostream(bufs.back().get())); want.push_back(pending); pending.clear();
            std::string fn = "part" + std::to_string(q) + ".m"; if (f) Maker::init(lg, fn, pause(r)); else Maker::init(lg, *streams.back(), pause(r)); if (q && kind[q - 1] && f) again = true;
            for (int k = r.i(0, 12); k > 0; --k) { if (global && r.chance(0.5)) { Entry e; e.name = "g." + ident(r); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, value(r)); HUMOTO_LOG(e.name, e.m(0, 0)); want.back().push_back(e); if (r.chance(0.3)) { e.kind = 'r'; e.s = "% " + ident(r); HUMOTO_LOG_RAW(e.s); want.back().push_back(e); } } else want.back().push_back(logOne(r, lg, "", r.chance(0.2))); if (r.chance(0.3)) nap(r); }
        }
        if (global) { g_out.str(""); Maker::init(lg, g_out, 1); }
    }
    c.desc << parts << " outputs"; for (int q = 0; q < parts; ++q) { std::string fn = "part" + std::to_string(q) + ".m"; compare(c, kind[q] ? slurp(fn) : bufs[q]->str(), want[q], "outputs", c.desc.str() + ", output " + std::to_string(q)); if (kind[q]) std::remove(fn.c_str()); for (auto &e : want[q]) sig << e.kind << e.name; sig << "|"; }
    c.count("outputs", parts); if (again) c.count("file_after_file"); if (global) c.count("global_logger"); c.signature(sig.str());
}
// more than the writer can keep up with
VH_FAMILY(burst, 24, 400)
{
    auto &r = c.rng; SlowBuf buf(r.next(), r.pick({0, 1, 3})); std::ostream os(&buf); int n = r.i(2000, 30000); std::vector<double> v; { std::unique_ptr<Logger> lg(Maker::make(os, r.pick({0, 2, 20}))); for (int k = 0; k < n; ++k) { v.push_back(r.i(-100000, 100000)); lg->log(LogEntryName("burst").add(static_cast<std::size_t>(k)), v.back()); if (r.i(0, 4000) == 0) std::this_thread::sleep_for(std::chrono::milliseconds(r.i(0, 4))); } }
    std::string out = buf.str(); Parser p(out); for (int k = 0; k < n; ++k) { Entry e; c.check(p.entry(e), "burst/unreadable", p.error + " entry " + std::to_string(k)); c.check(e.name == "burst{" + std::to_string(k + 1) + "}", "burst/name", e.name + " is entry " + std::to_string(k)); c.check(e.m.size() == 1 && e.m(0, 0) == v[k], "burst/value", e.name); } p.ws(); c.check(p.i == out.size(), "burst/surplus"); c.count("burst_entries", n); c.signature(std::to_string(n) + "/" + std::to_string(buf.delays));
}
#ifndef VH_NO_LOG_THREADS
// several producers
VH_FAMILY(producers, 400, 6000)
{
    auto &r = c.rng; SlowBuf buf(r.next(), r.pick({0, 0, 10, 100})); std::ostream os(&buf); int np = r.i(2, 6), n = r.chance(0.1) ? 150 : r.i(1, 40); std::vector<std::vector<Entry>> want(np); std::vector<uint64_t> seeds; for (int k = 0; k < np; ++k) seeds.push_back(r.next()); bool naps = r.chance(0.6), rounds = r.chance(0.3); int ms = pause(r);
    {
        Logger lg(os, ms < 0 ? 2 : ms); std::atomic<int> ready(0);
        for (int round = 0; round < (rounds ? 2 : 1); ++round)
        {
            ready = 0; std::vector<std::thread> th;
            for (int p = 0; p < np; ++p) th.emplace_back([&, p, round] { vh::Rng q(seeds[p] + round); ++ready; while (ready < np) std::this_thread::yield(); for (int k = 0; k < n; ++k) { want[p].push_back(logOne(q, lg, "p" + std::to_string(p) + "_" + std::to_string(round * n + k), false)); if (naps) nap(q); } });
            for (auto &t : th) t.join();
        }
        if (r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.i(0, 3000)));
    }
    std::string out = buf.str(); Parser p(out); std::vector<std::size_t> next(np, 0); std::string order; long switches = 0; c.desc << np << " producers, " << n << " entries, pause " << ms; p.ws();
    while (p.i < out.size())
    {
        Entry e; c.check(p.entry(e), "producers/unreadable", p.error); int who = std::atoi(e.name.c_str() + 1); c.check(e.name[0] == 'p' && who >= 0 && who < np, "producers/name", e.name); c.check(next[who] < want[who].size(), "producers/surplus", e.name); const Entry &w = want[who][next[who]++];
        c.check(e.name == w.name, "producers/order", "got " + e.name + " not " + w.name); c.check(sameValue(e, w), "producers/value", show(e) + " not " + show(w)); if (!order.empty() && order.back() != static_cast<char>('0' + who)) ++switches; order += static_cast<char>('0' + who); p.ws();
    }
    for (int k = 0; k < np; ++k) c.check(next[k] == want[k].size(), "producers/lost", "producer " + std::to_string(k) + " " + std::to_string(next[k]) + " of " + std::to_string(want[k].size()));
    c.count("concurrent_entries", order.size()); c.count("interleavings", switches); c.count("delays", buf.delays); c.signature(order);
}
#endif
//// objects
static Eigen::Vector3d v3(vh::Rng &r) { return matrix(r, 3, 1); }
static void fill(vh::Rng &r, humoto::rigidbody::RigidBodyState &s) { s.position_ = v3(r); s.velocity_ = v3(r); s.acceleration_ = v3(r); s.rpy_ = v3(r); s.angular_velocity_ = v3(r); s.angular_acceleration_ = v3(r); }
template <class T> static void put(const T &o, Logger &lg, const std::string &parent, const std::string &nm) { o.log(lg, LogEntryName(parent), nm); }
VH_FAMILY(objects, 1500, 20000)
{
    auto &r = c.rng; std::ostringstream os; Es want; bool exact = true; std::string parent = r.chance(0.3) ? "" : ident(r), nm = ident(r), p = dot(parent, nm); int w = c.index % 11; c.desc << "object " << w;
    {
        std::unique_ptr<Logger> lp(Maker::make(os, 0)); Logger &lg = *lp;
        using namespace humoto::walking;
        if (w == 0) { humoto::rigidbody::PointMassState s; s.position_ = v3(r); s.velocity_ = v3(r); s.acceleration_ = v3(r); pms(want, p, s); put(s, lg, parent, nm); s.position_.setZero(); }
        if (w == 1) { humoto::rigidbody::RigidBodyState s; fill(r, s); if (r.chance(0.5)) { rbs(want, p, s); put(s, lg, parent, nm); } else { rot(want, p, s); put(static_cast<humoto::rigidbody::RotaryState &>(s), lg, parent, nm); } s.position_.setZero(); }
        if (w == 2) { humoto::rigidbody::RigidBodyPose s; s.position_ = v3(r); s.rpy_ = v3(r); want = {E(p + ".position", s.position_), E(p + ".rpy", s.rpy_)}; put(s, lg, parent, nm); }
        if (w == 3 || w == 4) { StanceFSMParameters q; q.num_steps_ = 3; StanceFiniteStateMachine f(q); f.shiftTime(r.i(0, 3000)); f.current_stance_.total_duration_ms_ = r.i(0, 1000); if (w == 3) { stance(want, p, f.current_stance_); put(f.current_stance_, lg, parent, nm); } else { stance(want, p + ".current_stance", f.current_stance_); want.push_back(N(p + ".ss_states_to_termination", f.ss_states_to_termination_)); want.push_back(N(p + ".current_time", f.current_time_ms_)); want.push_back(N(p + ".is_tds_started", f.is_tds_started_)); f.log(lg, LogEntryName(parent), nm); } }
        if (w == 5) { humoto::wpg04::ModelState s; s.stance_type_ = r.pick({StanceType::DS, StanceType::LSS}); s.next_stance_type_ = r.pick({StanceType::DS, StanceType::RSS}); s.com_state_.position_ = v3(r); s.com_state_.velocity_ = v3(r); s.com_state_.acceleration_ = v3(r); fill(r, s.feet_.getLeft()); fill(r, s.feet_.getRight()); want = {N(p + ".stance_type", s.stance_type_), N(p + ".next_stance_type", s.next_stance_type_)}; pms(want, p + ".com_state", s.com_state_); rbs(want, p + ".left_foot_state", s.feet_.getLeft()); rbs(want, p + ".right_foot_state", s.feet_.getRight()); put(s, lg, parent, nm); }
        if (w == 6) { humoto::pepper_mpc::ModelState s; s.base_mass_ = r.real(1, 9); s.body_mass_ = r.real(1, 9); fill(r, s.base_state_); s.body_state_.position_ = v3(r); s.body_state_.velocity_ = v3(r); s.body_state_.acceleration_ = v3(r); want = {N(p + ".base_mass", s.base_mass_), N(p + ".body_mass", s.body_mass_)}; rbs(want, p + ".base_state", s.base_state_); pms(want, p + ".body_state", s.body_state_); put(s, lg, parent, nm); }
        if (w == 7)
        {
            vp::Problem P; int n = r.i(2, 6); std::vector<std::vector<vp::Spec>> sp{vp::randomLevel(r, n, 3, false, true), vp::randomLevel(r, n, 3, true, true)}; P.build(n, sp); humoto::Solution sol; P.opt.form(sol, P.model, P.control); humoto::QPProblem_AB_AL q_; P.opt.getQPProblem(q_, sol, false); const humoto::QPProblem_AB_AL &q = q_; q.log(lg, LogEntryName(parent), nm); exact = false; c.count("qp_problems");
            want = {E(p + ".objective.H", q.getHessian()), E(p + ".objective.g", q.getGradient()), N(p + ".objective.hessian_type", q.getHessianType()), N(p + ".objective.status", q.getStatus()), E(p + ".constraints.equality_constraints.A", q.getEqualities().getA()), E(p + ".constraints.equality_constraints.b", q.getEqualities().getB()), E(p + ".constraints.inequality_constraints.A", q.getInequalities().getA()), E(p + ".constraints.inequality_constraints.lb", q.getInequalities().getLowerBounds())};
        }
        if (w == 8) { humoto::Solution s; s.x_ = matrix(r, r.i(1, 6), 1); s.return_status_ = r.pick({humoto::SolverStatus::OK, humoto::SolverStatus::OTHER, humoto::SolverStatus::MAX_ITER}); want = {E(p + ".x", s.x_), N(p + ".status", s.return_status_)}; put(s, lg, parent, nm); }
        if (w == 9 || w == 10)
        {
            vp::Problem P; int n = r.i(2, 6), L = r.i(1, 3); std::vector<std::vector<vp::Spec>> sp; for (int l = 0; l < L; ++l) sp.push_back(vp::randomLevel(r, n, 3, false, true)); P.build(n, sp); humoto::Solution sol; P.opt.form(sol, P.model, P.control); sol.x_ = matrix(r, n, 1); for (int k = 0; k < n; ++k) sol.x_[k] = r.i(-3, 3); exact = false;
            if (w == 9)
            {
                P.opt.log(lg, LogEntryName(parent), nm); std::string top = dot(parent, "tasks");
                for (std::size_t l = 0; l < P.levels.size(); ++l) for (std::size_t k = 0; k < P.levels[l].size(); ++k)
                {
                    const vp::Spec &s = P.levels[l][k].hooks->spec; std::size_t at = 0; for (auto &ti : P.opt[l].tasks_) { if (ti.ptr_.get() == P.levels[l][k].ptr.get()) break; ++at; } std::string q = top + "{" + std::to_string(l + 1) + "}{" + std::to_string(at + 1) + "}"; humoto::Location loc = P.location(l, P.levels[l][k]);
                    want.push_back(S(q + ".id", P.levels[l][k].ptr->getDescription())); want.push_back(N(q + ".location.offset", loc.offset_)); want.push_back(N(q + ".location.length", loc.length_)); want.push_back(N(q + ".number_of_variables", n));
                    if (!s.simple()) want.push_back(E(q + ".A", s.Aloc)); if (s.body == vp::AS) want.push_back(N(q + ".offset", s.offset)); if (s.body == vp::GI) want.push_back(E(q + ".Agains", s.gains)); if (s.bnd == vp::LU || s.bnd == vp::L) want.push_back(E(q + ".lb", s.lb)); if (s.bnd == vp::LU || s.bnd == vp::U) want.push_back(E(q + ".ub", s.ub)); if (s.bnd == vp::B) want.push_back(E(q + ".b", s.b));
                }
                c.count("hierarchies");
            }
            else
            {
                humoto::Violations v; P.opt.computeViolations(v, sol); humoto::ActiveSet a; P.opt.initializeActiveSet(a); v.log(lg, LogEntryName(parent), nm); a.log(lg, LogEntryName(parent), nm + "_a");
                for (std::size_t l = 0; l < P.levels.size(); ++l) { std::string q = p + "{" + std::to_string(l + 1) + "}"; std::vector<double> dv, lo, up; for (std::size_t k = 0; k < v[l].size(); ++k) { dv.push_back(v[l][k]); lo.push_back(v[l].getLower(k)); up.push_back(v[l].getUpper(k)); } want.push_back(E(q + ".violations", column(dv))); want.push_back(E(q + ".lower_bound_diff", column(lo))); want.push_back(E(q + ".upper_bound_diff", column(up))); std::vector<int> st; for (std::size_t k = 0; k < a[l].size(); ++k) st.push_back(a[l][k]); want.push_back(E(p + "_a{" + std::to_string(l + 1) + "}", column(st))); }
                exact = true; c.count("violations_and_active_sets");
            }
        }
    }
    std::string out = os.str(); Parser ps(out); std::map<std::string, Entry> got; ps.ws(); long n = 0; while (ps.i < out.size()) { Entry e; c.check(ps.entry(e), "objects/unreadable", ps.error); c.check(got.insert({e.name, e}).second, "objects/twice", e.name); ps.ws(); ++n; }
    for (auto &e : want) { c.check(got.count(e.name), "objects/missing", e.name + " in " + out.substr(0, 300)); c.check(sameValue(got[e.name], e), "objects/value", show(got[e.name]) + " not " + show(e)); }
    if (exact) c.check(got.size() == want.size(), "objects/number", std::to_string(got.size()) + " not " + std::to_string(want.size())); c.count("objects"); c.count("object_entries", n); c.signature(std::to_string(w) + out);
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
