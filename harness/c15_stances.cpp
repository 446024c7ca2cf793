/**
 * Stance schedule: an online monitor compares every observable of the state machine with an
 * explicit timeline of stances generated from the gait parameters.
 */
#include "vh.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace humoto::walking;
typedef StanceType ST;
typedef StanceSubType SS;
struct Entry { ST::Type type, nonds, nontds; SS::Type sub; long start, dur; long steps_left; bool terminal; };
static ST::Type other(ST::Type t) { return t == ST::LSS ? ST::RSS : ST::LSS; }

// the gait, written down as a list
static std::vector<Entry> timeline(const StanceFSMParameters &p, long until)
{
    std::vector<Entry> v; long t = 0; bool stand = p.first_stance_ == ST::DS && p.first_ss_type_ == ST::UNDEFINED; long steps = stand ? 0 : p.num_steps_;
    ST::Type next, nonds; if (p.first_stance_ == ST::DS) { next = p.first_ss_type_; nonds = stand ? ST::UNDEFINED : other(next); } else { next = other(p.first_stance_); nonds = p.first_stance_; }
    auto add = [&](ST::Type type, SS::Type sub, ST::Type nonds_, ST::Type nontds_, long d, long left) { Entry e; e.type = type; e.sub = sub; e.nonds = nonds_; e.nontds = nontds_; e.start = t; e.dur = d; e.steps_left = left; e.terminal = left == 0 && type == ST::DS; v.push_back(e); t += d; };
    add(p.first_stance_, SS::FIRST, nonds, ST::UNDEFINED, p.first_stance_duration_ms_, steps); ST::Type prev = p.first_stance_;
    bool tds = prev != ST::DS || steps > 0;
    if (tds)
    {
        if (prev != ST::DS) nonds = prev;
        for (long k = 0; k < steps; ++k)
        {
            add(ST::TDS, SS::INTERMEDIATE, nonds, prev, p.tds_duration_ms_, steps - k);
            add(next, SS::INTERMEDIATE, nonds, prev, p.ss_duration_ms_, steps - k - 1); prev = nonds = next; next = other(next);
        }
        add(ST::TDS, SS::INTERMEDIATE, nonds, prev, p.tds_duration_ms_, 0); add(ST::DS, SS::LAST, nonds, prev, p.last_stance_duration_ms_, 0);
    }
    prev = ST::DS; while (t <= until) add(ST::DS, SS::INTERMEDIATE, nonds, prev, p.last_stance_duration_ms_, 0);
    add(ST::DS, SS::INTERMEDIATE, nonds, prev, p.last_stance_duration_ms_, 0); add(ST::DS, SS::INTERMEDIATE, nonds, prev, p.last_stance_duration_ms_, 0);
    return v;
}
static std::size_t at(const std::vector<Entry> &v, long t)
{
    if (t == 0) return 0;
    for (std::size_t i = 0; i < v.size(); ++i) if (i && v[i].start == t) return i; else if (v[i].start <= t && t < v[i].start + v[i].dur) return i;
    return v.size();
}
static StanceFSMParameters params(vh::Rng &r, bool zero_ok)
{
    StanceFSMParameters p; auto dur = [&](int lo) { return r.chance(0.3) ? 100 * r.i(lo ? 1 : 0, 9) : (r.chance(0.1) ? r.i(lo, 3) : r.i(lo, 1200)); };
    p.first_stance_ = r.pick({ST::DS, ST::DS, ST::LSS, ST::RSS}); p.first_ss_type_ = r.chance(0.07) ? ST::UNDEFINED : r.pick({ST::LSS, ST::RSS}); if (p.first_stance_ != ST::DS && r.chance(0.5)) p.first_ss_type_ = ST::UNDEFINED;
    p.ss_duration_ms_ = dur(zero_ok ? 0 : 1); p.tds_duration_ms_ = dur(zero_ok ? 0 : 1); p.first_stance_duration_ms_ = dur(zero_ok ? 0 : 1); p.last_stance_duration_ms_ = dur(1); p.num_steps_ = r.chance(0.15) ? 0 : (r.chance(0.05) ? r.i(13, 60) : r.i(2, 12));
    return p;
}
static std::string show(const StanceFSMParameters &p)
{
    std::ostringstream s; s << "first " << p.first_stance_ << "/" << p.first_ss_type_ << " steps " << p.num_steps_ << " durations " << p.first_stance_duration_ms_ << "," << p.ss_duration_ms_ << "," << p.tds_duration_ms_ << "," << p.last_stance_duration_ms_; return s.str();
}
static void same(vh::Case &c, const Stance &s, const Entry &e, const std::string &key, const std::string &msg)
{
    c.check(s.type_ == e.type, key + "/type", msg + " is " + std::to_string(s.type_) + " not " + std::to_string(e.type)); c.check(s.subtype_ == e.sub, key + "/subtype", msg); c.check(s.previous_nonds_stance_type_ == e.nonds, key + "/previous_single_support", msg); c.check(s.previous_nontds_stance_type_ == e.nontds, key + "/previous_stance", msg);
}
static std::string state(const StanceFiniteStateMachine &f) { std::ostringstream s; s << f.is_tds_started_ << " " << f.ss_states_to_termination_ << " " << f.current_time_ms_ << " " << f.current_stance_.type_ << " " << f.current_stance_.subtype_ << " " << f.current_stance_.previous_nonds_stance_type_ << " " << f.current_stance_.previous_nontds_stance_type_ << " " << f.current_stance_.duration_ms_ << " " << f.sfsm_params_.num_steps_; return s.str(); }

static void monitor(vh::Case &c, const StanceFiniteStateMachine &f, const std::vector<Entry> &v, long t, std::size_t i, const std::string &msg)
{
    const Entry &e = v[i]; same(c, f.current_stance_, e, "schedule", msg); c.check(f.current_stance_.duration_ms_ == static_cast<std::size_t>(e.dur), "schedule/duration", msg); c.check(f.current_time_ms_ == static_cast<std::size_t>(t - e.start), "schedule/time", msg + " in stance " + std::to_string(f.current_time_ms_) + " not " + std::to_string(t - e.start)); c.check(f.ss_states_to_termination_ == static_cast<std::size_t>(e.steps_left), "schedule/steps_left", msg); c.count("states_observed");
}
// what is previewed is what follows
static void preview(vh::Case &c, const StanceFiniteStateMachine &f, const std::vector<Entry> &v, long t, std::size_t i, long d)
{
    std::string before = state(f), msg = "preview of " + std::to_string(d) + " at " + std::to_string(t); std::vector<Stance> got = f.previewStances(d); c.check(state(f) == before, "preview/changed", msg);
    std::vector<std::pair<std::size_t, long>> want; long left = d; bool enough = true; std::size_t k = i; long in = t - v[i].start;
    while (left > 0) { long rest = v[k].dur - in; if (left <= rest) { want.push_back({k, left}); left = 0; break; } if (v[k].terminal) { enough = false; break; } want.push_back({k, rest}); left -= rest; ++k; in = 0; }
    bool extra = enough && !want.empty() && v[want.back().first].type == ST::TDS; std::ostringstream gs; for (auto &s : got) gs << s.type_ << ":" << s.duration_ms_ << " "; msg += " got " + gs.str();
    c.check(got.size() == want.size() + extra, "preview/number", msg + "expected " + std::to_string(want.size() + extra));
    for (std::size_t q = 0; q < want.size(); ++q) { same(c, got[q], v[want[q].first], "preview", msg); c.check(got[q].duration_ms_ == static_cast<std::size_t>(want[q].second), "preview/duration", msg); c.check(got[q].total_duration_ms_ == static_cast<std::size_t>(v[want[q].first].dur), "preview/total_duration", msg); }
    if (extra) { same(c, got.back(), v[want.back().first + 1], "preview/after_double_support", msg); c.check(got.back().duration_ms_ == 0, "preview/after_double_support", msg); c.count("previews_ending_in_double_support"); }
    c.count("previews"); c.count("stances_previewed", got.size()); if (!enough) c.count("previews_beyond_the_end"); if (d == 0) c.count("empty_previews");
}
VH_FAMILY(schedule, 6000, 100000)
{
    auto &r = c.rng; StanceFSMParameters p = params(r, r.chance(0.15)); c.desc << show(p); StanceFiniteStateMachine f;
    int way = r.i(0, 2); if (way == 0) f = StanceFiniteStateMachine(p); else { if (way == 2) { f.setParameters(params(r, false)); for (int k = r.i(0, 6); k > 0; --k) f.shiftTime(r.i(1, 2000)); c.count("reused_machines"); } f.setParameters(p); }
    long total = p.first_stance_duration_ms_ + (p.num_steps_ + 1) * (p.ss_duration_ms_ + p.tds_duration_ms_) + p.last_stance_duration_ms_, until = total + r.i(0, 3) * p.last_stance_duration_ms_; auto v = timeline(p, 2 * until + 20000);
    long t = 0; c.check(!f.is_tds_started_, "schedule/tds_flag_initial"); monitor(c, f, v, 0, 0, "initially"); preview(c, f, v, 0, 0, r.i(0, 4000)); std::string seq;
    int mode = r.i(0, 4); long step = r.pick({20L, 40L, 100L, 1L + r.i(1, 400)}), n = 0;
    while (t < until && n++ < 400)
    {
        std::size_t i = at(v, t); long s;
        switch (mode)
        {
            case 0: s = step; break;                                               // control loop
            case 1: s = r.i(0, 50) ? r.i(0, 700) : r.i(0, 9000); break;          // arbitrary
            case 2: s = v[i].start + v[i].dur - t; if (r.chance(0.3)) s += r.i(-1, 1); if (s < 0) s = 0; break;   // exactly to the boundaries, or next to them
            case 3: s = r.i(1, 3) * 1000 + r.i(0, 2000); break;                   // over several stances
            default: s = 1 + r.i(0, 20); if (n > 200) s = until; break;
        }
        bool flag = f.is_tds_started_; f.shiftTime(s); t += s; std::size_t j = at(v, t); std::string msg = "at " + std::to_string(t) + " after a shift of " + std::to_string(s);
        monitor(c, f, v, t, j, msg); seq += static_cast<char>('a' + (j - i > 20 ? 20 : j - i));
        if (s == 0) c.check(f.is_tds_started_ == flag, "schedule/tds_flag", msg);
        else if (t != v[j].start) c.check(!f.is_tds_started_, "schedule/tds_flag", msg); else if (v[j].type == ST::TDS) { c.check(f.is_tds_started_, "schedule/tds_flag", msg); c.count("double_supports_entered"); } else if (v[j].type != ST::DS) c.check(!f.is_tds_started_, "schedule/tds_flag", msg);
        if (t == v[j].start) c.count("exact_boundaries"); if (j > i + 1) c.count("long_shifts"); if (v[j].terminal) c.count("final_stances");
        Stance nx = f.getNextStance(); same(c, nx, v[j + 1], "next", msg); c.check(nx.duration_ms_ == static_cast<std::size_t>(v[j + 1].dur), "next/duration", msg);
        if (r.chance(0.3)) preview(c, f, v, t, j, r.chance(0.3) ? v[j].start + v[j].dur - t + r.i(0, 1) * v[j + 1].dur : (r.chance(0.05) ? 0 : r.i(1, 4000)));
    }
    c.signature(show(p) + seq);
}
// the same time, divided in different ways
VH_FAMILY(division, 3000, 50000)
{
    auto &r = c.rng; StanceFSMParameters p = params(r, r.chance(0.2)); c.desc << show(p); StanceFiniteStateMachine a(p), b(p); long t = r.i(1, 12000), left = t; a.shiftTime(t); std::string parts;
    while (left > 0) { long s = std::min<long>(left, r.pick({1 + r.i(0, 30), 1 + r.i(0, 3000), 100, 0})); b.shiftTime(s); left -= s; parts += std::to_string(s) + ","; if (parts.size() > 4000) { b.shiftTime(left); left = 0; } }
    bool fa = a.is_tds_started_; a.is_tds_started_ = b.is_tds_started_ = false; (void) fa; c.check(state(a) == state(b), "division/state", state(a) + " vs " + state(b)); c.count("divisions"); c.signature(show(p) + "@" + std::to_string(t));
    // stepping over stances one by one visits the list
    StanceFiniteStateMachine d(p); auto v = timeline(p, 1000); for (std::size_t k = 0; k + 1 < v.size(); ++k) { monitor(c, d, v, v[k].start, k, "stance " + std::to_string(k)); d.shiftStance(); } c.count("stances_stepped", v.size());
}
VH_FAMILY(malformed, 1000, 10000)
{
    auto &r = c.rng; StanceFSMParameters p = params(r, false), good = p; int w = c.index % 4; StanceFiniteStateMachine f(good); f.shiftTime(r.i(0, 3000));
    switch (w) { case 0: p.num_steps_ = 1; break; case 1: p.first_stance_ = r.pick({ST::TDS, ST::UNDEFINED}); break; case 2: p.first_stance_ = ST::DS; p.first_ss_type_ = r.pick({ST::DS, ST::TDS}); break; default: break; }
    c.desc << "way " << w << " " << show(p);
    if (w < 3) { c.mustReject([&] { StanceFiniteStateMachine g(p); }, "malformed/constructor"); c.mustReject([&] { f.setParameters(p); }, "malformed/set"); }
    else { c.mustReject([&] { p.getDurationMs(ST::UNDEFINED); }, "malformed/duration"); for (auto t : {ST::DS, ST::TDS, ST::UNDEFINED}) c.mustReject([&] { determineSupportFoot(t); }, "malformed/support"); c.check(determineSupportFoot(ST::LSS) == humoto::LeftOrRight::LEFT && determineSupportFoot(ST::RSS) == humoto::LeftOrRight::RIGHT, "support/foot");
           c.check(p.getDurationMs(ST::DS) == p.last_stance_duration_ms_ && p.getDurationMs(ST::TDS) == p.tds_duration_ms_ && p.getDurationMs(ST::LSS) == p.ss_duration_ms_ && p.getDurationMs(ST::RSS) == p.ss_duration_ms_, "support/duration"); }
    c.signature(c.desc.str());
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
