// Shared by C18 and C26: what was logged, an independent reader of Octave assignments, and expected entries of common objects.
#pragma once
#include "vh.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using Eigen::MatrixXd; using Eigen::VectorXd;
struct Entry { std::string name; char kind; MatrixXd m; std::string s; };   // kind: m(atrix), v(ector), n(umber), s(tring), r(aw text), R(aw matrix)

//// reading
struct Parser
{
    const std::string &t; std::size_t i = 0; std::string error;
    explicit Parser(const std::string &s) : t(s) {}
    void ws() { while (i < t.size() && std::isspace(static_cast<unsigned char>(t[i]))) ++i; }
    bool lit(char ch) { ws(); if (i < t.size() && t[i] == ch) { ++i; return true; } return false; }
    bool number(double &v)
    {
        ws(); char *e; v = std::strtod(t.c_str() + i, &e); if (e == t.c_str() + i) return false; i = e - t.c_str(); return true;
    }
    bool fail(const std::string &w) { error = w + " at " + std::to_string(i) + ": '" + t.substr(i, 60) + "'"; return false; }
    // name = value;
    bool entry(Entry &e)
    {
        ws(); std::size_t b = i; while (i < t.size() && (std::isalnum(static_cast<unsigned char>(t[i])) || std::strchr("_.{}", t[i]))) ++i;
        e.name = t.substr(b, i - b); if (e.name.empty()) return fail("no name"); if (!lit('=')) return fail("no value"); ws(); if (t.compare(i, 3, "...") == 0) i += 3;
        ws(); if (i >= t.size()) return fail("truncated");
        if (t[i] == '\'') { std::size_t q = t.find('\'', i + 1); if (q == std::string::npos) return fail("string"); e.kind = 's'; e.s = t.substr(i + 1, q - i - 1); i = q + 1; return lit(';') ? true : fail("no end"); }
        if (t[i] == '[')
        {
            ++i; e.kind = 'm'; std::vector<std::vector<double>> rows;
            if (lit(']')) { e.m.resize(0, 0); return lit(';') ? true : fail("no end"); }
            rows.push_back({});
            for (;;) { double v; if (!number(v)) return fail("number"); rows.back().push_back(v); if (lit(',')) continue; if (lit(';')) { rows.push_back({}); continue; } if (lit(']')) break; return fail("matrix"); }
            e.m.resize(rows.size(), rows[0].size()); for (std::size_t k = 0; k < rows.size(); ++k) { if (rows[k].size() != rows[0].size()) return fail("ragged matrix"); for (std::size_t l = 0; l < rows[k].size(); ++l) e.m(k, l) = rows[k][l]; }
            return lit(';') ? true : fail("no end");
        }
        double v; if (!number(v)) return fail("value"); e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); return lit(';') ? true : fail("no end");
    }
    bool rawText(Entry &e, const std::string &want) { ws(); std::size_t n = t.find('\n', i); if (n == std::string::npos) return fail("no line"); e.s = t.substr(i, n - i); (void) want; i = n + 1; return true; }
    bool rawMatrix(Entry &e, int rows, int cols) { e.m.resize(rows, cols); for (int k = 0; k < rows; ++k) for (int l = 0; l < cols; ++l) if (!number(e.m(k, l))) return fail("raw matrix"); return true; }
};
static bool close(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= 1.2e-14 * std::max(std::fabs(a), std::fabs(b));
}
static bool sameValue(const Entry &got, const Entry &want)
{
    if (want.kind == 's' || want.kind == 'r') return got.s == want.s;
    if (want.m.size() == 0) return got.m.size() == 0;
    if (got.m.rows() != want.m.rows() || got.m.cols() != want.m.cols()) return false;
    for (int i = 0; i < got.m.rows(); ++i) for (int j = 0; j < got.m.cols(); ++j) if (!close(got.m(i, j), want.m(i, j))) return false;
    return true;
}
static std::string show(const Entry &e) { return e.name + "=" + (e.kind == 's' || e.kind == 'r' ? "'" + e.s + "'" : vh::show(e.m)); }

//// objects
static Entry E(const std::string &n, const MatrixXd &m) { Entry e; e.name = n; e.kind = 'm'; e.m = m; return e; }
static Entry N(const std::string &n, double v) { Entry e; e.name = n; e.kind = 'n'; e.m = MatrixXd::Constant(1, 1, v); return e; }
static Entry S(const std::string &n, const std::string &v) { Entry e; e.name = n; e.kind = 's'; e.s = v; return e; }
typedef std::vector<Entry> Es;
static std::string dot(const std::string &a, const std::string &b) { return a.empty() ? b : (b.empty() ? a : a + "." + b); }
static void pms(Es &w, const std::string &p, const humoto::rigidbody::PointMassState &s) { w.push_back(E(p + ".position", s.position_)); w.push_back(E(p + ".velocity", s.velocity_)); w.push_back(E(p + ".acceleration", s.acceleration_)); }
static void rot(Es &w, const std::string &p, const humoto::rigidbody::RotaryState &s) { w.push_back(E(p + ".rpy", s.rpy_)); w.push_back(E(p + ".angular_velocity", s.angular_velocity_)); w.push_back(E(p + ".angular_acceleration", s.angular_acceleration_)); }
static void rbs(Es &w, const std::string &p, const humoto::rigidbody::RigidBodyState &s) { pms(w, p, s); rot(w, p, s); }
static void stance(Es &w, const std::string &p, const humoto::walking::Stance &s) { w.push_back(N(p + ".type", s.type_)); w.push_back(N(p + ".subtype", s.subtype_)); w.push_back(N(p + ".previous_nonds_stance_type", s.previous_nonds_stance_type_)); w.push_back(N(p + ".previous_nontds_stance_type", s.previous_nontds_stance_type_)); w.push_back(N(p + ".duration_ms", s.duration_ms_)); w.push_back(N(p + ".total_duration_ms", s.total_duration_ms_)); }
template <class V> static MatrixXd column(const V &v) { MatrixXd m(v.size(), v.size() ? 1 : 0); for (std::size_t k = 0; k < static_cast<std::size_t>(v.size()); ++k) m(k, 0) = static_cast<double>(v[k]); return m; }
