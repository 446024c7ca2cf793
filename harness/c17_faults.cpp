// C17: faulty configuration input is rejected by exceptions or leaves defaults, and spoils nothing else.
#include "vh.h"
#include "humoto/config_msgpack.h"
#ifdef VH_YAML
#include "humoto/config_yaml.h"
#endif
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"
#include "mp.h"
#include "cfg_classes.h"
using Eigen::MatrixXd; using Eigen::VectorXd; using mp::Tree; using mp::Temp;
typedef fmt::Reader Reader; typedef fmt::Writer Writer;

#ifdef VH_YAML
const bool TYPED = false;   // YAML values have no types: "2" is a number when a number is expected, 1 is a text
#else
const bool TYPED = true;
#endif
typedef std::vector<std::string> Path;
static void leaves(const Tree &t, Path p, std::vector<Path> &out, std::vector<Path> &nodes)
{
    if (t.kind == Tree::MAP && !t.matrix()) { if (!p.empty()) nodes.push_back(p); for (auto &e : t.entries) { Path q = p; q.push_back(e.first.s); leaves(e.second, q, out, nodes); } }
    else out.push_back(p);
}
static Tree *go(Tree &t, const Path &p, std::size_t n) { Tree *x = &t; for (std::size_t i = 0; i < n; ++i) { x = x->find(p[i]); if (!x) return nullptr; } return x; }
static void erase(Tree &t, const Path &p) { Tree *x = go(t, p, p.size() - 1); for (std::size_t i = 0; i < x->entries.size(); ++i) if (x->entries[i].first.s == p.back()) { x->entries.erase(x->entries.begin() + i); return; } }
static std::string show(const Path &p) { std::string s; for (auto &x : p) s += "/" + x; return s; }

/// the reader is still good for another object
template <class T> void stillUsable(vh::Case &c, Reader &q, const Tree &good, const char *cls, const std::string &after)
{
    humoto::wpg04::WalkParameters w; c.check(!c.rejects([&] { w.readConfig(q, "bystander"); }, "usable/other"), "usable/other_section", "a valid section is not read after " + after); c.check(w.step_height_ == 0.625 && w.num_steps_ == 9, "usable/other_values", after);
    T g; c.check(!c.rejects([&] { g.readConfig(q, "good", true); }, "usable/same"), "usable/same_class", "a valid section is not read after " + after); c.check(mp::treeOf(g, "X").same(good), "usable/same_values", after); c.count("readers_reused"); (void) cls;
}
static std::string bystander() { Tree w; { humoto::wpg04::WalkParameters p; p.step_height_ = 0.625; p.num_steps_ = 9; w = mp::treeOf(p, "X"); } return mp::encode(mp::section("bystander", w)); }

template <class T> struct Faults
{
    // each entry in `got` is the one in `t`, or the default
    static bool leavesDefault(const Tree &got, const Tree &dflt, const Path &p, const Tree &sub)
    {
        Tree g = got, d = dflt; Tree *a = go(g, p, p.size()), *b = go(d, p, p.size()); if (!a || !b) return false; if (a->same(*b)) return true;
        // a part of a bigger object, which has defaults of its own
        return a->same(sub);
    }
    static void missing(vh::Case &c, const char *cls)
    {
        auto &r = c.rng; T def; Tree base = mp::treeOf(def, "X"), t = base, other = base, good = base; mp::randomize(r, t, "", false); mp::randomize(r, other, "", false); mp::randomize(r, good, "", false);
        std::vector<Path> ls, ns; leaves(t, Path(), ls, ns); int n = r.i(0, 9); std::vector<Path> gone;
        if (n == 0) gone.push_back(Path()); else if (n <= 2 && !ns.empty()) gone.push_back(r.pick(ns)); else { int k = r.chance(0.6) ? 1 : r.i(1, static_cast<int>(ls.size())); for (int i = 0; i < k; ++i) { Path p = r.pick(ls); if (std::find(gone.begin(), gone.end(), p) == gone.end()) gone.push_back(p); } }
        bool mpc = base.find("subsampling_time_ms") != nullptr; if (mpc && !gone[0].empty()) { t.find("sampling_time_ms")->u = 300; t.find("subsampling_time_ms")->u = 50; if (Tree *x = t.find("tds_sampling_time_ms")) x->u = 200; }
        Tree cut = t; for (auto &p : gone) if (!p.empty()) erase(cut, p); std::string file = bystander(); if (!gone[0].empty()) file += mp::encode(mp::section("S", cut)); file += mp::encode(mp::section("good", good));
        c.desc << cls << " without"; for (auto &p : gone) c.desc << " " << (p.empty() ? std::string("the section") : show(p));
        Temp f("missing.msgpack"); mp::spill(f, file); Temp o("other.msgpack"); mp::spill(o, mp::encode(mp::section("O", other)));
        // strict: rejected
        { Reader q(f); T a; c.mustReject([&] { a.readConfig(q, "S", true); }, "missing/strict", cls); stillUsable<T>(c, q, good, cls, "a rejected section"); }
        if (strictByDefault<T>()) { Reader q(f); T a; c.mustReject([&] { a.readConfig(q, "S"); }, "missing/strict_by_default", cls); c.mustReject([&] { T b(q, "S"); }, "missing/strict_constructor", cls); }
        // relaxed: defaults, whatever the object had before
        { Reader q(f); T a; a.template readConfig<Reader>(o.name, "O"); a.readConfig(q, "S", false); Tree got = mp::treeOf(a, "X");
          if (gone[0].empty()) c.check(got.same(base), "missing/section_default", got.show());
          else { Tree exp = t, rest = got; for (auto &p : gone) { Tree sub; Tree g = got; bool nested = p.size() > 1 || std::find(ns.begin(), ns.end(), p) != ns.end(); if (nested) sub = *go(g, p, p.size()); c.check(nested ? nestedDefault(got, base, t, other, p) : leavesDefault(got, base, p, Tree::str("never")), "missing/default", show(p) + " is " + go(g, p, p.size())->show() + ", default " + go(base, p, p.size())->show()); erase(exp, p); erase(rest, p); } c.check(rest.same(exp), "missing/others", rest.show() + " for " + exp.show()); }
          stillUsable<T>(c, q, good, cls, "a relaxed read"); }
        c.count(gone[0].empty() ? "missing_sections" : "missing_entries"); c.signature(cls + c.desc.str() + mp::encode(t));
    }
    // a nested object has the defaults of its own class or those given by the enclosing one, never what was there before
    static bool nestedDefault(const Tree &got, const Tree &base, const Tree &, const Tree &other, const Path &p)
    {
        Tree g = got, d = base, o = other; Tree *a = go(g, p, p.size()), *b = go(d, p, p.size()), *x = go(o, p, p.size()); if (a->same(*b)) return true; return !anyLeafEqual(*a, *x);
    }
    static bool anyLeafEqual(const Tree &a, const Tree &b)
    {
        if (a.kind == Tree::MAP && !a.matrix()) { for (auto &e : a.entries) if (b.find(e.first.s) && anyLeafEqual(e.second, b.at(e.first.s))) return true; return false; }
        return a.kind == Tree::ARRAY && a.same(b);
    }
    template <class U> static bool strictByDefault() { return !std::is_base_of<humoto::config::RelaxedConfigurableBase, U>::value; }

    // a wrong type or shape at a random place
    static void wrong(vh::Case &c, const char *cls)
    {
        auto &r = c.rng; T def; Tree base = mp::treeOf(def, "X"), t = base, good = base; mp::randomize(r, t, "", false); mp::randomize(r, good, "", false); std::vector<Path> ls, ns; leaves(t, Path(), ls, ns); Path p = r.pick(ls); Tree *x = go(t, p, p.size()); std::string how;
        bool is_int = mp::ends(p.back(), "_ms") || p.back() == "num_steps" || p.back() == "preview_horizon_length", is_enum = p.back().find("stance") != std::string::npos && !is_int && x->numeric(); is_enum = is_enum || p.back() == "motion_mode" || p.back() == "first_ss_type";
        std::vector<Tree> bad; if (TYPED || x->kind != Tree::STR) bad.push_back(Tree::nil()); bad.push_back(Tree::map()); { Tree m = Tree::map(); m.add("rows", Tree::integer(1)); bad.push_back(m); }
        if (x->kind != Tree::STR) bad.push_back(Tree::str("not what is expected")); if (x->kind != Tree::BOOL && (TYPED || x->kind != Tree::STR)) bad.push_back(Tree::boolean(true));
        if (x->kind != Tree::ARRAY) { Tree a = Tree::array(); bad.push_back(a); a.items.push_back(Tree::real(0.5)); bad.push_back(a); } else { bad.push_back(Tree::integer(3)); bad.push_back(Tree::real(0.5)); Tree a = *x; if (!a.items.empty()) { a.items[r.i(0, static_cast<int>(a.items.size()) - 1)] = r.pick({0, 1}) ? Tree::str("x") : Tree::nil(); bad.push_back(a); }
            if (fixedSize<T>(p)) { a = *x; a.items.push_back(Tree::real(1)); bad.push_back(a); a = *x; a.items.pop_back(); bad.push_back(a); a.items.clear(); bad.push_back(a); a.items.resize(1000, Tree::real(1)); bad.push_back(a); } }
        if (is_int || is_enum) bad.push_back(Tree::real(2.5)); if (TYPED && is_int && p.back() != "duration_ms") { bad.push_back(Tree::integer(-1)); bad.push_back(Tree::integer(-300000)); } if (is_enum) { bad.push_back(Tree::integer(1ll << 40)); bad.push_back(Tree::integer(-(1ll << 40))); }
        if ((x->kind == Tree::STR && TYPED) || x->kind == Tree::BOOL) { bad.push_back(Tree::integer(1)); bad.push_back(Tree::real(0.5)); }
        if (x->matrix())
        {
            bool fixed = fixedSize<T>(p); auto with = [&](const char *k, const Tree &v) { Tree m = *x; *m.find(k) = v; bad.push_back(m); }; long rr = x->at("rows").u, cc = x->at("cols").u;
            for (auto k : {"rows", "cols", "data"}) { Tree m = *x; Path q; q.push_back(k); erase(m, q); bad.push_back(m); with(k, Tree::str(TYPED ? "2" : "two")); with(k, Tree::nil()); }
            with("rows", Tree::integer(rr + 1)); with("cols", Tree::integer(0)); with("rows", Tree::integer(-rr)); with("cols", Tree::real(1.5)); with("rows", Tree::integer(1ll << 62)); with("cols", Tree::integer(1ll << 40));
            auto shape = [&](long a, long b) { Tree m = *x; *m.find("rows") = Tree::integer(a); *m.find("cols") = Tree::integer(b); bad.push_back(m); }; shape(-rr, -cc); shape(1ll << 40, 1ll << 40); shape(1ll << 32, 1ll << 32); shape(-1, -(rr * cc));
            if (fixed) { shape(1, rr * cc); shape(rr * cc, 1); if (rr != cc) shape(cc, rr); Tree m = Tree::map(); m.add("rows", Tree::integer(7)); m.add("cols", Tree::integer(5)); Tree a = Tree::array(); a.items.resize(35, Tree::real(0.5)); m.add("data", a); bad.push_back(m); m.find("rows")->u = 0; m.find("data")->items.clear(); bad.push_back(m); }
            { Tree m = *x; m.find("data")->items.push_back(Tree::real(1)); bad.push_back(m); m = *x; m.find("data")->items.pop_back(); bad.push_back(m); m = *x; m.find("data")->items[0] = Tree::str("x"); bad.push_back(m); c.count("wrong_matrices"); }
        }
        *x = r.pick(bad); c.desc << cls << show(p) << " = " << x->show().substr(0, 200); bool strict = r.chance(0.5);
        Temp f("wrong.msgpack"); mp::spill(f, bystander() + mp::encode(mp::section("S", t)) + mp::encode(mp::section("good", good))); Reader q(f); T a; c.mustReject([&] { a.readConfig(q, "S", strict); }, "wrong/accepted", cls); stillUsable<T>(c, q, good, cls, "a rejected section");
        a.readConfig(q, "good", true); c.check(mp::treeOf(a, "X").same(good), "wrong/object_reused"); c.count("wrong_entries"); c.signature(cls + mp::encode(t));
    }
    template <class U> static bool fixedSize(const Path &p) { return !(p.back() == "list" || p.back() == "vector" || p.back() == "square" || p.back() == "x"); }

    // sections made of other things, unknown entries and any order of entries
    static void extra(vh::Case &c, const char *cls)
    {
        auto &r = c.rng; T def; Tree base = mp::treeOf(def, "X"), t = base, good = base; mp::randomize(r, t, "", false); mp::randomize(r, good, "", false); Tree u = t; mess(r, u); Temp f("extra.msgpack"); std::string file;
        if (TYPED) for (int i = 0; i < r.i(0, 3); ++i) file += mp::encode(r.pick({Tree::nil(), Tree::integer(7), Tree::str("S"), Tree::array(), Tree::map(), mp::section("S", Tree::integer(5)), mp::section("S", Tree::str("text")), mp::section("S2", Tree::map())})); c.desc << cls << " in a file with other content";
        file += mp::encode(mp::section("S", u)) + bystander() + mp::encode(mp::section("good", good)); mp::spill(f, file); Reader q(f); T a; a.readConfig(q, "S", r.chance(0.5)); c.check(mp::treeOf(a, "X").same(t), "extra/values"); stillUsable<T>(c, q, good, cls, "unknown entries"); c.count("unknown_content"); c.signature(cls + file);
    }
    static void mess(vh::Rng &r, Tree &t)
    {
        if (t.kind != Tree::MAP) return; for (auto &e : t.entries) mess(r, e.second); int n = r.i(0, 3); for (int i = 0; i < n; ++i) t.add("unknown" + std::to_string(i), r.pick({Tree::nil(), Tree::integer(3), Tree::str("rows"), Tree::map(), Tree::array()}));
        for (std::size_t i = t.entries.size(); i > 1; --i) std::swap(t.entries[i - 1], t.entries[r.i(0, static_cast<int>(i) - 1)]);
    }

    // damaged bytes: rejected, or what the damaged file says
    static void bytes(vh::Case &c, const char *cls)
    {
        auto &r = c.rng; T def; Tree base = mp::treeOf(def, "X"), t = base; mp::randomize(r, t, "", true); std::string s = mp::encode(mp::section("S", t)); if (r.chance(0.3)) s = bystander() + s; std::string o = s; c.desc << cls;
        switch (r.i(0, 6))
        {
            case 0: s.resize(r.i(0, static_cast<int>(s.size()) - 1)); c.desc << " truncated to " << s.size(); c.count("truncated"); break;
            case 1: { int k = r.i(1, 4); for (int i = 0; i < k; ++i) { int a = r.i(0, static_cast<int>(s.size()) - 1); s[a] = static_cast<char>(s[a] ^ (1 << r.i(0, 7))); c.desc << " bit of " << a; } break; }
            case 2: { int k = r.i(1, 4); for (int i = 0; i < k; ++i) { int a = r.i(0, static_cast<int>(s.size()) - 1); s[a] = static_cast<char>(r.i(0, 255)); c.desc << " byte " << a; } break; }
            case 3: { int a = r.i(0, static_cast<int>(s.size()) - 1), n = r.i(1, 20); s.erase(a, n); c.desc << " without " << n << " bytes at " << a; break; }
            case 4: { int a = r.i(0, static_cast<int>(s.size())), n = r.i(1, 20); std::string x; for (int i = 0; i < n; ++i) x += static_cast<char>(r.pick({0x80, 0x90, 0xa0, 0xc0, 0xc1, 0xcb, 0xd3, 0xdb, 0xdd, 0xdf, 0xff, 0x00, 0xc6, 0xc9})); s.insert(a, x); c.desc << " with " << n << " bytes at " << a; break; }
            case 5: { int n = r.i(0, 300); s.clear(); for (int i = 0; i < n; ++i) s += static_cast<char>(r.i(0, 255)); c.desc << " random " << n << " bytes"; break; }
            #ifdef VH_YAML
            default: { int d = r.pick({10, 1000, 20000}); std::string x; for (int i = 0; i < d; ++i) x += r.pick({"[", "{", "a: [", "- ", "{a: "}); s = x + s; c.desc << " nested " << d << " times"; break; }
#else
            default: { int d = r.pick({10, 1000, 20000}); s = std::string(d, r.chance(0.5) ? '\x91' : '\x81') + s; c.desc << " nested " << d << " times"; break; }
#endif
        }
        Temp f("bytes.msgpack"); mp::spill(f, s); bool strict = r.chance(0.5), read = false; T a; c.rejects([&] { Reader q(f); a.readConfig(q, "S", strict); read = true; a.readConfig(q, "S", strict); }, "bytes/assertion");
#ifdef VH_YAML
        damagedText(c, s, a, read, base, strict, s == o);
#else
        std::vector<Tree> roots; bool deep = false, parsed = mp::decode(s, roots, &deep); if (deep) { c.count("deeply_nested"); return; }
        if (read)
        {
            c.count("damaged_but_read"); c.check(parsed, "bytes/accepted", "a file which is not well formed"); const Tree *sec = nullptr; for (auto &x : roots) if (!sec && x.kind == Tree::MAP && !x.entries.empty() && x.entries[0].first.kind == Tree::STR && x.entries[0].first.s == "S" && x.entries[0].second.kind == Tree::MAP) sec = &x.entries[0].second;
            Tree got = mp::treeOf(a, "X"); if (strict) c.check(sec != nullptr, "bytes/strict_without_section"); Tree empty = Tree::map(); agrees(c, got, base, sec ? *sec : empty, strict);
        }
        else { c.count("rejections_observed"); if (!parsed) c.count("malformed_rejected"); }
        if (s == o) c.check(read, "bytes/undamaged");
#endif
        c.signature(cls + s);
    }
#ifdef VH_YAML
    static void damagedText(vh::Case &c, const std::string &s, const T &a, bool read, const Tree &base, bool strict, bool undamaged)
    {
        if (undamaged) c.check(read, "bytes/undamaged"); if (!read) { c.count("rejections_observed"); return; } c.count("damaged_but_read");
        ::YAML::Node doc; try { doc = ::YAML::Load(s); } catch (const ::YAML::Exception &e) { c.fail("bytes/accepted", std::string("a text which is not well formed: ") + e.what()); return; }
        ::YAML::Node sec; if (doc.IsMap()) sec.reset(first(doc, "S")); Tree got = mp::treeOf(a, "X"); if (strict) c.check(sec.IsDefined() && !sec.IsNull(), "bytes/strict_without_section"); agreesText(c, got, base, sec, strict, s);
    }
    static ::YAML::Node first(const ::YAML::Node &n, const std::string &k) { for (auto it = n.begin(); it != n.end(); ++it) if (it->first.IsScalar() && it->first.Scalar() == k) return it->second; return ::YAML::Node(); }
    static void agreesText(vh::Case &c, const Tree &got, const Tree &base, const ::YAML::Node &n, bool strict, const std::string &s)
    {
        for (auto &e : got.entries)
        {
            ::YAML::Node x; bool there = false; if (n.IsMap()) for (auto it = n.begin(); it != n.end() && !there; ++it) if (it->first.IsScalar() && it->first.Scalar() == e.first.s) { x.reset(it->second); there = true; }
            if (!there) { c.check(!strict, "bytes/strict_missing", e.first.s); continue; }
            if (e.second.kind == Tree::MAP && !e.second.matrix()) { agreesText(c, e.second, base, x, strict, s); continue; }
            Tree y, v = e.second; bool ok;
            if (v.matrix()) { ok = true; for (auto k : {"rows", "cols", "data"}) ok = ok && x.IsMap() && mp::typed(first(x, k), v.at(k), y) && y.same(v.at(k)); } else ok = mp::typed(x, v, y) && y.same(v);
            c.check(ok, "bytes/value", e.first.s + " read as " + v.show() + " from " + s.substr(0, 3000)); c.count("damaged_values");
        }
    }
#endif
    static void agrees(vh::Case &c, const Tree &got, const Tree &base, const Tree &file, bool strict)
    {
        for (auto &e : got.entries)
        {
            const Tree *x = nullptr; for (auto &y : file.entries) if (!x && y.first.kind == Tree::STR && y.first.s == e.first.s) x = &y.second;
            if (!x) { c.check(!strict, "bytes/strict_missing", e.first.s); continue; }
            if (e.second.kind == Tree::MAP && !e.second.matrix()) { if (x->kind == Tree::MAP) agrees(c, e.second, base, *x, strict); else c.check(!strict || e.second.entries.empty(), "bytes/strict_not_a_section", e.first.s); continue; }
            if (x->kind == Tree::NIL && x->s == "binary") continue;   // raw bytes where text is expected
            if (x->kind == Tree::MAP && e.second.matrix()) { for (auto k : {"rows", "cols", "data"}) c.check(x->find(k) && x->at(k).same(e.second.at(k)), "bytes/value", e.first.s + " read as " + e.second.show() + " from " + x->show().substr(0, 200)); continue; }
            c.check(e.second.same(*x), "bytes/value", e.first.s + " read as " + e.second.show() + " from " + x->show().substr(0, 200));
        }
    }
};
#define FAMILY(f, q, t) VH_FAMILY(f, q, t) { switch (c.index % cfg::COUNT) { CFG_CLASSES(X_##f) } }
#define X_missing(id, T) case id: Faults<T>::missing(c, #T); break;
#define X_wrong(id, T) case id: Faults<T>::wrong(c, #T); break;
#define X_extra(id, T) case id: Faults<T>::extra(c, #T); break;
#define X_bytes(id, T) case id: Faults<T>::bytes(c, #T); break;
// compiled in parts, in parallel
#if PART == 1
FAMILY(missing, 2500, 40000)
#elif PART == 2
FAMILY(wrong, 4000, 60000)
#elif PART == 3
FAMILY(bytes, 6000, 120000)
#else
FAMILY(extra, 800, 10000)

VH_FAMILY(files, 60, 600)
{
    auto &r = c.rng; humoto::wpg04::WalkParameters w; w.step_height_ = 3; ::mkdir("adir", 0755);
    switch (c.index % 5)
    {
        case 0: c.mustReject([&] { w.readConfig<Reader>("no such file"); }, "files/missing"); c.check(w.step_height_ == 3, "files/changed"); c.mustReject([&] { w.readConfig<Reader>("no such file", false); }, "files/missing_relaxed"); break;
        case 1: { Temp f("empty.msgpack"); mp::spill(f, ""); c.mustReject([&] { w.readConfig<Reader>(f.name); }, "files/empty"); w.step_height_ = 3; w.readConfig<Reader>(f.name, false); c.check(w.step_height_ == humoto::wpg04::WalkParameters().step_height_, "files/empty_defaults"); break; }
        case 2: c.mustReject([&] { w.readConfig<Reader>("adir"); }, "files/directory"); break;
        case 3: { Temp f("other.msgpack"); mp::spill(f, bystander()); c.mustReject([&] { w.readConfig<Reader>(f.name); }, "files/other_section"); Reader q(f); c.check(!q.descend("nothing"), "files/descend"); w.readConfig(q, "bystander"); c.check(w.step_height_ == 0.625, "files/after_descend"); break; }
        default: { Reader q; c.mustReject([&] { w.readConfig(q); }, "files/no_input"); break; }
    }
    c.signature(std::to_string(c.index % 5)); c.count("files"); (void) r;
}

// direct use of the reader
VH_FAMILY(reader, 600, 10000)
{
    auto &r = c.rng; Tree t = Tree::map(); t.add("text", Tree::str("abc")); t.add("number", Tree::real(2.5)); Tree a = Tree::array(); a.items.push_back(Tree::real(1.5)); a.items.push_back(Tree::str("x")); t.add("mixed", a); Tree n = Tree::array(); n.items.resize(3, Tree::real(4.5)); t.add("numbers", n); Tree in = Tree::map(); in.add("number", Tree::real(7.5)); in.add("text", Tree::nil()); t.add("inner", in); Tree m = Tree::map(); m.add("cols", Tree::integer(2)); m.add("rows", Tree::integer(2)); Tree d = Tree::array(); d.items.resize(4, Tree::real(0.5)); m.add("data", d); t.add("matrix", m);
    Temp f("reader.msgpack"); mp::spill(f, mp::encode(mp::section("S", t))); Reader q(f); c.check(q.descend("S"), "reader/section"); int steps = r.i(1, 25);
    for (int i = 0; i < steps; ++i)
    {
        double x = 1; std::string s = "old"; VectorXd v(2); Eigen::Vector2d v2; MatrixXd M; Eigen::Matrix3d M3; std::vector<double> l; int e = 0; bool crash = r.chance(0.5);
        int op = r.i(0, 15); c.desc << op << " ";
        switch (op)
        {
            case 0: c.mustReject([&] { q.readScalar(x, "text", crash); }, "reader/text_as_number"); break;
            case 1: if (TYPED) c.mustReject([&] { q.readScalar(s, "number", crash); }, "reader/number_as_text"); else { q.readScalar(s, "number", crash); c.check(std::atof(s.c_str()) == 2.5, "reader/number_as_text"); } break;
            case 2: c.mustReject([&] { q.readCompound(v, "mixed", crash); }, "reader/mixed"); break;
            case 3: c.mustReject([&] { q.readCompound(v2, "numbers", crash); }, "reader/size"); break;
            case 4: c.mustReject([&] { q.readCompound(v, "number", crash); }, "reader/not_array"); break;
            case 5: c.mustReject([&] { q.readCompound(M3, "matrix", crash); }, "reader/matrix_size"); break;
            case 6: c.mustReject([&] { q.readCompound(M, "inner", crash); }, "reader/not_matrix"); break;
            case 7: c.mustReject([&] { q.readCompound(l, "mixed", crash); }, "reader/mixed_list"); break;
            case 8: c.mustReject([&] { q.readEnum(e, "text", crash); }, "reader/text_as_enum"); break;
            case 9: c.mustReject([&] { q.readScalar(x, "absent", true); }, "reader/absent"); q.readScalar(x, "absent", false); c.check(x == 1, "reader/absent_changed"); break;
            case 10: q.readScalar(x, "number", crash); c.check(x == 2.5, "reader/number", "at the wrong place"); break;
            case 11: q.readCompound(v, "numbers", crash); c.check(v.size() == 3 && v(2) == 4.5, "reader/numbers"); break;
            case 12: q.readCompound(M, "matrix", crash); c.check(M.rows() == 2 && M(1, 1) == 0.5, "reader/matrix"); break;
            case 13: c.check(q.descend("inner"), "reader/inner"); q.readScalar(x, "number", crash); c.check(x == 7.5, "reader/inner_number"); if (r.chance(0.5)) c.mustReject([&] { q.readScalar(x, "text", crash); }, "reader/nil"); q.ascend(); break;
            case 14: c.mustReject([&] { q.readCompound(l, "number", crash); }, "reader/number_as_list"); break;
            default: q.readScalar(s, "text", crash); c.check(s == "abc", "reader/text"); break;
        }
        if (op < 10) c.count("reads_after_rejections");
    }
    c.signature(c.desc.str());
}

// hierarchies of tasks
VH_FAMILY(problems, 500, 8000)
{
    auto &r = c.rng; cfg::Problem p; int levels = r.i(1, 3), id = 0; p.reset(levels); for (int l = 0; l < levels; ++l) for (int k = 0; k < 2; ++k) { std::string cls = r.pick(cfg::Problem::classes()); auto t = p.make(cls); t->setDescription("t" + std::to_string(id++)); p.pushTask(t, l, cls); }
    Tree good = mp::treeOf(p, "P"), t = good; c.check(good.kind == Tree::MAP, "problems/unreadable"); Tree &cn = *t.find("task_class_names"), &ids = *t.find("task_ids"); int l = r.i(0, levels - 1); int way = r.i(0, 11); c.desc << "way " << way; bool reject = true;
    switch (way)
    {
        case 0: cn.items[l].items[r.i(0, 1)] = Tree::str(r.pick({std::string(""), std::string("NoSuchTask"), std::string("taskzerovariables")})); break;
        case 1: ids.items[l].items.pop_back(); break;
        case 2: ids.items.pop_back(); break;
        case 3: cn.items.clear(); ids.items.clear(); break;
        case 4: { Path q; q.push_back("t" + std::to_string(r.i(0, id - 1))); erase(t, q); break; }
        case 5: { Path q; q.push_back(r.pick({std::string("task_ids"), std::string("task_class_names")})); erase(t, q); break; }
        case 6: cn = Tree::str("names"); break;
        case 7: cn.items[l] = Tree::integer(4); break;
        case 8: cn.items[l].items[0] = Tree::nil(); break;
        case 9: ids.items[l].items[0] = Tree::str("t999"); break;
        case 10: cn.items.push_back(Tree::array()); break;
        default: *t.find("t0") = Tree::integer(3); if (good.find("t0")->entries.empty()) reject = false; break;
    }
    Temp f("problem.msgpack"); mp::spill(f, mp::encode(mp::section("P", t)) + mp::encode(mp::section("G", good)) + bystander()); Reader q(f); cfg::Problem z; if (reject) c.mustReject([&] { z.readConfig(q, "P"); }, "problems/accepted"); else c.rejects([&] { z.readConfig(q, "P"); }, "problems/assertion");
    z.readConfig(q, "G"); c.check(mp::treeOf(z, "P").same(good), "problems/reused"); humoto::wpg04::WalkParameters w; w.readConfig(q, "bystander"); c.check(w.step_height_ == 0.625, "problems/bystander"); c.count("problems_rejected"); c.signature(c.desc.str() + mp::encode(t));
}

// parameters which make no sense together
VH_FAMILY(parameters, 300, 3000)
{
    auto &r = c.rng; Tree t; { humoto::wpg04::MPCParameters p; t = mp::treeOf(p, "X"); } int sub = r.pick({0, 7, 30, 200}), s = r.pick({100, 50, 0}), tds = r.pick({100, 70, 210}); t.find("subsampling_time_ms")->u = sub; t.find("sampling_time_ms")->u = s; t.find("tds_sampling_time_ms")->u = tds; Temp f("par.msgpack"); mp::spill(f, mp::encode(mp::section("MPCParameters", t))); c.desc << sub << " " << s << " " << tds;
    humoto::wpg04::MPCParameters p; bool ok = sub && s % sub == 0 && tds % sub == 0; if (ok) { p.readConfig<Reader>(f.name); c.check(p.sampling_time_ms_ == static_cast<std::size_t>(s), "parameters/value"); } else { c.mustReject([&] { p.readConfig<Reader>(f.name); }, "parameters/accepted"); c.mustReject([&] { humoto::wpg04::MPCParameters z(16, s, sub, tds); }, "parameters/constructed"); c.count("inconsistent_parameters"); }
    c.signature(c.desc.str());
}
#endif
int main(int argc, char **argv) { return vh::run(argc, argv); }
