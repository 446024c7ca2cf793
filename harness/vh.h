/**
 * Monitoring harness runtime shared by all the harness programs.
 *
 * MUST be included before any Eigen / boost / humoto header: it redirects the
 * run time assertions of Eigen and boost to exceptions which no oracle takes
 * for a legitimate rejection of an input, and poisons fresh Eigen storage with
 * NaN so that a read of a coefficient nobody wrote shows up in the results.
 */
#pragma once

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vh
{
    // not derived from std::exception on purpose
    struct AssertFailure
    {
        std::string what;
        explicit AssertFailure(const std::string &w) : what(w) {}
    };
    [[noreturn]] inline void assertFailed(const char *expr, const char *file, int line)
    {
        const char *base = std::strrchr(file, '/');
        std::ostringstream s;
        s << "assertion in " << (base ? base + 1 : file) << ": " << expr;
        (void) line;
        throw AssertFailure(s.str());
    }
}
#ifndef VH_NO_EIGEN_ASSERT
#define eigen_assert(x) do { if (!(x)) { ::vh::assertFailed(#x, __FILE__, __LINE__); } } while (false)
#endif
#ifndef VH_NO_EIGEN_NAN
#define EIGEN_INITIALIZE_MATRICES_BY_NAN
#endif
#define BOOST_ENABLE_ASSERT_HANDLER
namespace boost
{
    inline void assertion_failed(char const *expr, char const *, char const *file, long line)
    {
        ::vh::assertFailed(expr, file, line);
    }
    inline void assertion_failed_msg(char const *expr, char const *, char const *, char const *file, long line)
    {
        ::vh::assertFailed(expr, file, line);
    }
}

#include <Eigen/Core>
#include <Eigen/Dense>

namespace vh
{
    // ------------------------------------------------------------------ RNG
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull)
    {
        for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
        return mix(h);
    }

    class Rng
    {
        uint64_t s_; double again_ = 0; std::vector<double> lo_, hi_, past_;
        // a value which has been used before (from the same range), or the given one
        template <class Sign> double recall(double a, double b, double v, const Sign &sign)
        {
            if (again_ == 0) return v;
            if ((next() >> 11) * (1.0 / 9007199254740992.0) < again_) for (int k = 0; k < 4 && !past_.empty(); ++k) { std::size_t j = next() % past_.size(); if (lo_[j] == a && hi_[j] == b) return sign(past_[j]); }
            lo_.push_back(a); hi_.push_back(b); past_.push_back(v); return v;
        }
      public:
        explicit Rng(uint64_t seed) : s_(seed) {}
        // a quarter of the cases repeat values: equal, opposite, parallel inputs are as common as unrelated ones there
        void repetitive() { if (mix(s_ ^ 0x5151) % 4 == 0) again_ = 0.3; }
        void generic() { again_ = 0; }
        uint64_t next() { s_ += 0x9e3779b97f4a7c15ull; return mix(s_); }
        // uniform in [0,1)
        double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        double real(double a, double b) { double v = a + (b - a) * u(); return recall(a, b, v, [](double x) { return x; }); }
        // inclusive range
        int i(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
        bool chance(double p) { return u() < p; }
        template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
        template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
        double normal()
        {
            double a = u(), b = u();
            if (a < 1e-300) a = 1e-300;
            double v = std::sqrt(-2. * std::log(a)) * std::cos(6.283185307179586 * b); return recall(1, -1, v, [&](double x) { return (next() & 1) ? x : -x; });
        }
        // a "typical" coefficient: mostly generic, sometimes 0, +-1, integers, small or large
        double coef(double scale = 1.0)
        {
            double p = u();
            if (p < 0.10) return 0.0;
            if (p < 0.18) return scale * (chance(0.5) ? 1. : -1.);
            if (p < 0.28) return scale * i(-5, 5);
            if (p < 0.32) return scale * normal() * 1e-3;
            if (p < 0.36) return scale * normal() * 30.;
            return scale * normal();      // repeats, too
        }
        Eigen::MatrixXd mat(int r, int c, double scale = 1.0)
        {
            Eigen::MatrixXd m(r, c);
            for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) m(a, b) = coef(scale);
            return m;
        }
        Eigen::MatrixXd gmat(int r, int c, double scale = 1.0)
        {
            Eigen::MatrixXd m(r, c);
            for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) m(a, b) = scale * normal();
            return m;
        }
        Eigen::VectorXd vec(int n, double scale = 1.0) { return mat(n, 1, scale); }
        Eigen::VectorXd gvec(int n, double scale = 1.0) { return gmat(n, 1, scale); }
        template <class T> void shuffle(std::vector<T> &v)
        {
            for (std::size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]);
        }
    };

    // --------------------------------------------------------------- results
    struct CaseAbort {};

    inline std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += ch;
        }
        return o + "\"";
    }

    struct Violation { std::string key, family, msg; long index; };

    struct Results
    {
        std::vector<Violation> violations;
        std::map<std::string, long> counters;
        std::map<std::string, long> cases;       // per family
        std::set<uint64_t> signatures;           // distinct nontrivial cases
        std::map<std::string, std::vector<std::string>> samples;
        long evaluations = 0;
        long checks = 0;
        static Results &get() { static Results r; return r; }
    };

    class Case
    {
      public:
        Rng rng;
        std::string family;
        long index;
        std::ostringstream desc;
        bool want_sample;

        Case(const std::string &f, long i, uint64_t seed, bool s)
            : rng(mix(seed * 0x2545f4914f6cdd1dull) ^ hashStr(f) ^ mix(static_cast<uint64_t>(i) + 77)), family(f), index(i), want_sample(s) { rng.repetitive(); }

        // declares that a case was distinct and nontrivial, identified by what was observed
        // (one entry per case; several calls add up to one signature)
        void signature(const std::string &s) { sigs += "|" + s; }
        std::string sigs;
        void count(const std::string &name, long n = 1) { Results::get().counters[name] += n; }
        void fail(const std::string &key, const std::string &msg)
        {
            Results::get().violations.push_back(Violation{key, family, msg, index});
            throw CaseAbort();
        }
        void check(bool ok, const std::string &key, const std::string &msg = "")
        {
            ++Results::get().checks;
            if (!ok) fail(key, msg + (desc.str().empty() ? "" : " [" + desc.str() + "]"));
        }
        void near(double a, double b, double tol, const std::string &key, const std::string &msg = "")
        {
            ++Results::get().checks;
            double scale = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
            if (!(std::fabs(a - b) <= tol * scale))
            {
                std::ostringstream s;
                s << std::setprecision(17) << msg << " actual=" << a << " expected=" << b;
                fail(key, s.str() + (desc.str().empty() ? "" : " [" + desc.str() + "]"));
            }
        }
        // matrix agreement: same size, no NaN, entrywise within tol * (1 + max abs)
        template <class A, class B>
        void nearM(const A &a_, const B &b_, double tol, const std::string &key, const std::string &msg = "")
        {
            ++Results::get().checks;
            Eigen::MatrixXd a = a_, b = b_;
            std::ostringstream s;
            if (a.rows() != b.rows() || a.cols() != b.cols())
            {
                if (a.size() == 0 && b.size() == 0) return;
                s << msg << " size actual=" << a.rows() << "x" << a.cols() << " expected=" << b.rows() << "x" << b.cols();
                fail(key, s.str() + " [" + desc.str() + "]");
            }
            if (a.size() == 0) return;
            double scale = std::max(1.0, b.cwiseAbs().maxCoeff());
            for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j)
                if (!(std::fabs(a(i, j) - b(i, j)) <= tol * scale))
                {
                    s << std::setprecision(17) << msg << " entry (" << i << "," << j << ") of " << a.rows() << "x" << a.cols()
                      << " actual=" << a(i, j) << " expected=" << b(i, j);
                    fail(key, s.str() + " [" + desc.str() + "]");
                }
        }
        // runs f and tells whether it was rejected by a C++ exception; an assertion
        // (abort in a debug build, undefined behaviour in a release one) is a violation
        template <class F> bool rejects(F f, const std::string &key, std::string *what = nullptr)
        {
            try { f(); return false; }
            catch (const std::exception &e) { if (what) *what = e.what(); return true; }
            catch (const AssertFailure &e) { fail(key, "assertion instead of an exception: " + e.what); }
            return true;
        }
        template <class F> void mustReject(F f, const std::string &key, const std::string &msg = "")
        {
            ++Results::get().checks;
            if (!rejects(f, key)) fail(key, "accepted: " + msg + " [" + desc.str() + "]");
            count("rejections_observed");
        }
    };

    struct Family
    {
        std::string name;
        long quick, thorough;
        std::function<void(Case &)> fn;
    };
    inline std::vector<Family> &families() { static std::vector<Family> f; return f; }
    struct Register
    {
        Register(const std::string &n, long q, long t, std::function<void(Case &)> f) { families().push_back(Family{n, q, t, f}); }
    };
#define VH_FAMILY(ident, quick, thorough) \
    static void ident(vh::Case &c); \
    static vh::Register vh_reg_##ident(#ident, quick, thorough, ident); \
    static void ident(vh::Case &c)

    inline std::string &progressPath() { static std::string p; return p; }
    inline char *progressBuf() { static char b[256]; return b; }
    inline void writeFile(const std::string &path, const char *data, std::size_t n)
    {
        int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { if (::write(fd, data, n) < 0) {} ::close(fd); }
    }
    inline void onTimer(int) { ::_exit(97); }

    template <class M> std::string show(const M &m)
    {
        static const Eigen::IOFormat f(6, Eigen::DontAlignCols, ",", ";", "", "", "[", "]");
        std::ostringstream s; s << m.format(f); return s.str();
    }
    inline std::string bin(double v)   // coarse bucket for signatures
    {
        if (v != v) return "nan";
        if (v == 0) return "0";
        std::ostringstream s; s << (v < 0 ? '-' : '+') << static_cast<int>(std::floor(std::log2(std::fabs(v)) * 4)); return s.str();
    }
    template <class M> std::string hashM(const M &m_)
    {
        Eigen::MatrixXd m = m_;
        uint64_t h = 99;
        for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j)
        {
            double v = m(i, j); uint64_t b; std::memcpy(&b, &v, 8); h = mix(h ^ b);
        }
        std::ostringstream s; s << m.rows() << "x" << m.cols() << ":" << std::hex << h; return s.str();
    }

    inline void dump(const std::string &path, bool finished)
    {
        Results &r = Results::get();
        std::ostringstream o;
        o << "{\"finished\":" << (finished ? "true" : "false") << ",\"evaluations\":" << r.evaluations << ",\"checks\":" << r.checks;
        o << ",\"counters\":{"; bool first = true;
        for (auto &k : r.counters) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
        o << "},\"cases\":{"; first = true;
        for (auto &k : r.cases) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
        o << "},\"signatures\":["; first = true;
        for (auto &k : r.signatures) { o << (first ? "" : ",") << "\"" << std::hex << k << std::dec << "\""; first = false; }
        o << "],\"samples\":{"; first = true;
        for (auto &k : r.samples)
        {
            o << (first ? "" : ",") << jstr(k.first) << ":["; first = false; bool f2 = true;
            for (auto &s : k.second) { o << (f2 ? "" : ",") << jstr(s); f2 = false; }
            o << "]";
        }
        o << "},\"violations\":["; first = true;
        for (auto &v : r.violations)
        {
            o << (first ? "" : ",") << "{\"key\":" << jstr(v.key) << ",\"family\":" << jstr(v.family) << ",\"index\":" << v.index
              << ",\"msg\":" << jstr(v.msg.substr(0, 1500)) << "}"; first = false;
        }
        o << "]}";
        writeFile(path, o.str().data(), o.str().size());
    }

    inline int run(int argc, char **argv)
    {
        uint64_t seed = 1; bool thorough = false; long shard = 0, shards = 1, start = 0, only_index = -1; double scale = 1.0;
        std::string out, only_family;
        for (int k = 1; k + 1 < argc; k += 2)
        {
            std::string a = argv[k], v = argv[k + 1];
            if (a == "--seed") seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--tier") thorough = (v == "thorough");
            else if (a == "--shard") shard = std::atol(v.c_str());
            else if (a == "--shards") shards = std::atol(v.c_str());
            else if (a == "--start") start = std::atol(v.c_str());
            else if (a == "--out") out = v;
            else if (a == "--progress") progressPath() = v;
            else if (a == "--family") only_family = v;
            else if (a == "--index") only_index = std::atol(v.c_str());
            else if (a == "--scale") scale = std::atof(v.c_str());
        }
        std::signal(SIGPROF, onTimer);
        std::signal(SIGALRM, onTimer);

        // round robin over the families, so that every shard sees all of them
        std::vector<std::pair<int, long>> plan;
        {
            long maxn = 0; std::vector<long> n;
            for (auto &f : families()) { long k = static_cast<long>((thorough ? f.thorough : f.quick) * scale + 0.5); if (k < 1) k = 1; n.push_back(k); maxn = std::max(maxn, k); }
            for (long k = 0; k < maxn; ++k) for (std::size_t f = 0; f < n.size(); ++f) if (k < n[f]) plan.push_back({static_cast<int>(f), k});
        }
        int bad = 0;
        for (std::size_t p = start; p < plan.size(); ++p)
        {
            Family &f = families()[plan[p].first]; long idx = plan[p].second;
            if (!only_family.empty()) { if (f.name != only_family || idx != only_index) continue; }
            else if (static_cast<long>((p * 2654435761ull >> 7) % shards) != shard) continue;

            if (!progressPath().empty())
            {
                int n = std::snprintf(progressBuf(), 256, "%zu %s %ld\n", p, f.name.c_str(), idx);
                writeFile(progressPath(), progressBuf(), n);
            }
            struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 60;
            setitimer(ITIMER_PROF, &tv, nullptr);
            alarm(280);

            Results &r = Results::get();
            Case c(f.name, idx, seed, r.samples[f.name].size() < 2);
            try { f.fn(c); }
            catch (const CaseAbort &) { ++bad; }
            catch (const AssertFailure &e) { r.violations.push_back(Violation{"assertion/" + f.name, f.name, e.what + " [" + c.desc.str() + "]", idx}); ++bad; }
            catch (const std::exception &e) { r.violations.push_back(Violation{"exception/" + f.name, f.name, std::string(e.what()) + " [" + c.desc.str() + "]", idx}); ++bad; }
            if (!c.sigs.empty()) r.signatures.insert(hashStr(f.name + c.sigs));
            ++r.evaluations; ++r.cases[f.name];
            if (c.want_sample && !c.desc.str().empty()) r.samples[f.name].push_back("#" + std::to_string(idx) + " " + c.desc.str().substr(0, 600));
            if (!only_family.empty())
                for (auto &v : r.violations) std::cerr << "REPLAY key=" << v.key << " " << v.msg << "\n";
            if (bad >= 20) break;
            // results survive a crash of a later case
            if (!out.empty() && (r.evaluations % 64 == 0)) dump(out, false);
        }
        if (!out.empty()) dump(out, true);
        return bad ? 1 : 0;
    }
}
