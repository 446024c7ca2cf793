// C16: what is written to a configuration is read back unchanged.
#include "vh.h"
#include "humoto/config_msgpack.h"
#ifdef VH_YAML
#include "humoto/config_yaml.h"
#endif
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"
#include "mp.h"
#include "cfg_classes.h"
using Eigen::MatrixXd; using Eigen::VectorXd; using mp::Tree; using mp::Temp;
typedef fmt::Reader Reader; typedef fmt::Writer Writer;
enum E { E0 = 0, E1 = 1, EM = -7, EB = 100000 };

static double number(vh::Rng &r)
{
    double p = r.u();
    if (p < 0.15) return r.i(-300, 300);
    if (p < 0.25) return r.pick({0., 1., -1., 0.1, 255., 256., 65535., 65536., 4294967295., 4294967296., -128., -129., -32768., -32769., -2147483649., 1e300, 5e-324, 9007199254740993., 1.8e19, -9.2233720368547758e18, 1e19, 1e22});
    return r.normal() * std::pow(10., r.i(-8, 8));
}
#ifdef VH_YAML
const int FIRST_CHAR = 32, LAST_CHAR = 126;   // text, not bytes
#else
const int FIRST_CHAR = 1, LAST_CHAR = 255;
#endif
static std::string name(vh::Rng &r) { int n = r.pick({0, 1, 3, 10, 31, 32, 40, 255, 256, 300}); std::string s; for (int i = 0; i < n; ++i) s += r.chance(0.9) ? static_cast<char>(r.i('a', 'z')) : static_cast<char>(r.i(FIRST_CHAR, LAST_CHAR)); return s; }
template <class A> static bool eq(const A &a, const A &b) { return a == b; }
static bool eq(double a, double b) { return mp::equal(a, b); }
template <class A> static bool eq(const std::vector<A> &a, const std::vector<A> &b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
static bool eqM(const MatrixXd &a, const MatrixXd &b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!eq(a(i, j), b(i, j))) return false; return true; }

// one value of any supported type, which can be written, and read back many times
struct Item
{
    std::string name, what;
    std::function<void(Writer &)> write;
    std::function<std::string(Reader &)> read;   // "" or what differs
};
template <class M> Item matrixItem(const std::string &n, const M &v, const std::string &what)
{
    Item it; it.name = n; std::ostringstream s; s << what << v.rows() << "x" << v.cols(); it.what = s.str();
    it.write = [=](Writer &w) { w.writeCompound(v, n); };
    it.read = [=](Reader &r) { M x; if (M::SizeAtCompileTime == Eigen::Dynamic) x = M(3, M::ColsAtCompileTime == Eigen::Dynamic ? 2 : static_cast<int>(M::ColsAtCompileTime)); x.fill(77); r.readCompound(x, n, true); if (!eqM(x.template cast<double>(), v.template cast<double>())) return "got " + vh::show(x) + " for " + vh::show(v); return std::string(); };
    return it;
}
template <class M> Item rowItem(const std::string &n, const M &v, const std::string &what)
{
    Item it; it.name = n; it.what = what;
    it.write = [=](Writer &w) { w.writeCompound(v, n); };
    it.read = [=](Reader &r) { M x; r.readCompound(x, n, true); return eqM(x, v) ? std::string() : "got " + vh::show(x) + " for " + vh::show(v); };
    return it;
}
template <class T> Item scalarItem(const std::string &n, const T &v, const T &other, const std::string &what)
{
    Item it; it.name = n; it.what = what;
    it.write = [=](Writer &w) { w.writeScalar(v, n); };
    it.read = [=](Reader &r) { T x = other; r.readScalar(x, n, true); if (eq(x, v)) return std::string(); std::ostringstream s; s << std::setprecision(17) << "got " << x << " for " << v; return s.str(); };
    return it;
}
template <class T> Item vectorItem(const std::string &n, const std::vector<T> &v, const std::string &what)
{
    Item it; it.name = n; std::ostringstream s; s << what << v.size(); it.what = s.str();
    it.write = [=](Writer &w) { w.writeCompound(v, n); };
    it.read = [=](Reader &r) { std::vector<T> x(2); r.readCompound(x, n, true); return eq(x, v) ? std::string() : std::string("differs"); };
    return it;
}
static Item make(vh::Rng &r, const std::string &n)
{
    auto dense = [&](int a, int b) { MatrixXd m(a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) m(i, j) = number(r); return m; };
    switch (r.i(0, 21))
    {
        case 0: return scalarItem<double>(n, number(r), 5., "double");
        case 1: return scalarItem<int>(n, r.pick({0, 1, -1, 127, 128, -128, -129, 2147483647, -2147483647}), 5, "int");
        case 2: return scalarItem<std::size_t>(n, r.pick({std::size_t(0), std::size_t(255), std::size_t(65536), std::size_t(1) << 40, ~std::size_t(0)}), 5, "size");
        case 3: return scalarItem<std::ptrdiff_t>(n, r.pick({std::ptrdiff_t(-1), std::ptrdiff_t(1) << 40, -(std::ptrdiff_t(1) << 62), std::ptrdiff_t(7)}), 5, "ptrdiff");
        case 4: { bool b = r.chance(0.5); return scalarItem<bool>(n, b, !b, "bool"); }
        case 5: return scalarItem<std::string>(n, name(r), "other", "string");
        case 6: return scalarItem<unsigned>(n, static_cast<unsigned>(r.next()), 5, "unsigned");
        case 7: { Item it; it.name = n; it.what = "enum"; E e = r.pick({E0, E1, EM, EB}); it.write = [=](Writer &w) { w.writeEnum(e, n); }; it.read = [=](Reader &q) { E x = e == E0 ? E1 : E0; q.readEnum(x, n, true); return x == e ? std::string() : std::string("differs"); }; return it; }
        case 8: return matrixItem<VectorXd>(n, VectorXd(dense(r.pick({0, 1, 2, 15, 16, 40}), 1)), "dynamic vector ");
        case 9: return matrixItem<Eigen::Vector3d>(n, Eigen::Vector3d(dense(3, 1)), "fixed vector ");
        case 10: return matrixItem<Eigen::Matrix<int, -1, 1>>(n, Eigen::Matrix<int, -1, 1>(Eigen::Matrix<int, -1, 1>::Random(r.i(0, 20))), "integer vector ");
        case 11: return matrixItem<MatrixXd>(n, dense(r.i(1, 6), r.i(2, 6)), "dynamic matrix ");
        case 12: return matrixItem<MatrixXd>(n, dense(r.i(0, 5), r.pick({1, 0})), "thin matrix ");
        case 13: return matrixItem<Eigen::Matrix2d>(n, Eigen::Matrix2d(dense(2, 2)), "fixed matrix ");
        case 14: return matrixItem<Eigen::Matrix<double, 2, 3>>(n, Eigen::Matrix<double, 2, 3>(dense(2, 3)), "fixed matrix ");
        case 15: return matrixItem<Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(n, Eigen::Matrix<double, -1, -1, Eigen::RowMajor>(dense(r.i(1, 5), r.i(2, 5))), "row major matrix ");
        case 16: return rowItem<Eigen::Matrix<double, 3, -1>>(n, Eigen::Matrix<double, 3, -1>(dense(3, r.i(1, 6))), "half fixed matrix");
        case 17: { std::vector<double> v(r.pick({0, 1, 3, 16, 40})); for (auto &x : v) x = number(r); return vectorItem<double>(n, v, "list of doubles "); }
        case 18: { std::vector<std::string> v(r.i(0, 5)); for (auto &x : v) x = name(r); return vectorItem<std::string>(n, v, "list of strings "); }
        case 19: { std::vector<std::vector<std::string>> v(r.i(0, 4)); for (auto &y : v) { y.resize(r.i(0, 3)); for (auto &x : y) x = name(r); } return vectorItem<std::vector<std::string>>(n, v, "list of lists "); }
        case 20: { std::vector<std::vector<double>> v(r.i(0, 4)); for (auto &y : v) { y.resize(r.i(0, 3)); for (auto &x : y) x = number(r); } return vectorItem<std::vector<double>>(n, v, "list of lists of doubles "); }
        default: { std::vector<int> v(r.i(0, 20)); for (auto &x : v) x = static_cast<int>(r.next()); return vectorItem<int>(n, v, "list of integers "); }
    }
}

// a node with items and children
struct Node
{
    std::string name; std::vector<Item> items; std::vector<Node> kids;
    void write(Writer &w) const { w.descend(name, items.size() + kids.size()); for (auto &i : items) i.write(w); for (auto &k : kids) k.write(w); w.ascend(); }
};
static Node makeNode(vh::Case &c, const std::string &n, int depth)
{
    auto &r = c.rng; Node d; d.name = n; int k = r.pick({0, 1, 2, 5, 16, 20}); std::set<std::string> used;
    for (int i = 0; i < k; ++i) { std::string s = name(r); if (!used.insert(s).second) continue; d.items.push_back(make(r, s)); c.desc << d.items.back().what << "; "; c.count("entries_written"); }
    if (depth < 3) { int q = r.i(0, 2); for (int i = 0; i < q; ++i) { std::string s = name(r); if (!used.insert(s).second) continue; d.kids.push_back(makeNode(c, s, depth + 1)); c.count("nested_sections"); } }
    return d;
}
static void readNode(vh::Case &c, Reader &r, const Node &n)
{
    c.check(r.descend(n.name), "entries/section_not_found"); auto order = n.items; for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.rng.i(0, static_cast<int>(i) - 1)]);
    std::size_t half = order.size() / 2; for (std::size_t i = 0; i < half; ++i) { std::string e = order[i].read(r); c.check(e.empty(), "entries/value", order[i].what + ": " + e); }
    for (auto &k : n.kids) readNode(c, r, k);
    for (std::size_t i = 0; i < order.size(); ++i) { std::string e = order[i].read(r); c.check(e.empty(), "entries/value", order[i].what + ": " + e); c.count("entries_read"); }
    double missing = 3.25; r.readScalar(missing, "no such entry in this section", false); c.check(missing == 3.25, "entries/missing_changes_value");
    r.ascend();
}
VH_FAMILY(entries, 2500, 40000)
{
    auto &r = c.rng; Temp f("entries.msgpack"); std::vector<Node> roots; std::set<std::string> used; int n = r.i(1, 4);
    { Writer w(f); for (int i = 0; i < n; ++i) { std::string s = name(r); if (!used.insert(s).second) continue; roots.push_back(makeNode(c, s, 0)); w.initRoot(); roots.back().write(w); if (r.chance(0.3)) w.flush(); } w.flush();
      if (r.chance(0.3)) { Reader q(f); for (auto &d : roots) readNode(c, q, d); } }
    Reader q(f); for (std::size_t i = roots.size(); i > 0; --i) readNode(c, q, roots[i - 1]); for (auto &d : roots) readNode(c, q, d);
    if (roots.size() > 1) c.count("several_sections"); c.signature(mp::slurp(f));
}

// the same values in one kind of entry at a time, so that every kind sees every special value
VH_FAMILY(kinds, 2500, 40000)
{
    auto &r = c.rng; Temp f("kinds.msgpack"); Item it = make(r, name(r)); c.desc << it.what; { Writer w(f); w.initRoot(); w.descend("S", 1); it.write(w); w.ascend(); w.flush(); }
    Reader q(f); c.check(q.descend("S"), "kinds/section"); std::string e = it.read(q); c.check(e.empty(), "kinds/value", e); q.ascend();
    c.check(mp::roots(f) == 1, "kinds/file"); c.count("kind " + it.what.substr(0, it.what.find_first_of("0123456789"))); c.signature(it.what + mp::slurp(f));
}

template <class T> struct Objects
{
    static void run(vh::Case &c, const char *cls)
    {
        auto &r = c.rng; T def; Tree base = mp::treeOf(def, "X"); c.check(base.kind == Tree::MAP, "objects/unreadable", cls); Tree t = base; mp::randomize(r, t, "", true);
        c.desc << cls << " " << t.show().substr(0, 400); Temp f("obj.msgpack"), g("obj2.msgpack");
        std::string node = r.chance(0.5) ? "" : "node " + std::to_string(r.i(0, 9)); bool own = node.empty(); if (own) node = cfg::sectionOf<T>();
        // a file made independently of the writer, among other sections
        std::string bytes; if (r.chance(0.5)) bytes += mp::encode(mp::section("other section", base)); bytes += mp::encode(mp::section(node, t)); if (r.chance(0.5)) bytes += mp::encode(mp::section("another section", base)); mp::spill(f, bytes);
        T a; cfg::read(r, a, f, node, own);
        Tree out = mp::treeOf(a, "Y"); c.check(out.same(t), "objects/read", "read back " + out.show());
        c.check(cfg::fields(a, t), "objects/fields", cls); c.count("objects_read");
        // written by the object, into an object which has other values
        switch (r.i(0, 3))
        {
            case 0: if (own) a.template writeConfig<Writer>(g.name); else a.template writeConfig<Writer>(g.name, node); break;
            case 1: { Writer w(g); def.writeConfig(w, "first"); if (own) a.writeConfig(w); else a.writeConfig(w, node); def.writeConfig(w, "last"); break; }
            case 2: { Writer w(g); if (own) a.writeConfig(w); else a.writeConfig(w, node); break; }
            default: { Writer w(g); w.initRoot(); w.descend(node, 0); w.ascend(); w.flush(); } mp::spill(g, mp::encode(mp::section(node, t))); break;
        }
        c.check(mp::roots(g) >= 1, "objects/file", cls); T b; Tree t2 = base; mp::randomize(r, t2, "", true); mp::spill(f, mp::encode(mp::section("pre", t2))); b.template readConfig<Reader>(f.name, "pre"); cfg::read(r, b, g, node, own);
        out = mp::treeOf(b, "Z"); c.check(out.same(t), "objects/round_trip", "read back " + out.show()); c.check(cfg::fields(b, t), "objects/fields", cls); c.count("objects_round_trip"); c.count(std::string("class ") + cls);
        Reader q(g); T d(q, node); c.check(mp::treeOf(d, "C").same(t), "objects/constructor", cls); if (own) { T e(q); c.check(mp::treeOf(e, "C").same(t), "objects/constructor", cls); c.count("constructed"); }
        c.signature(cls + mp::encode(t));
    }
};
VH_FAMILY(objects, 2600, 50000)
{
    switch (c.index % cfg::COUNT)
    {
#define X(id, T) case id: Objects<T>::run(c, #T); break;
        CFG_CLASSES(X)
#undef X
    }
}

// a configuration found through the default prefix, and given directly
VH_FAMILY(files, 100, 1000)
{
    auto &r = c.rng; ::mkdir("config", 0755); humoto::wpg04::WalkParameters a, b, d; a.step_height_ = r.normal(); b.step_height_ = r.normal(); Temp direct("loc.msgpack"), pre("config/loc.msgpack"); bool both = r.chance(0.5);
    b.writeConfig<Writer>(pre.name); if (both) a.writeConfig<Writer>(direct.name); d.readConfig<Reader>(direct.name); c.check(mp::equal(d.step_height_, (both ? a : b).step_height_), "files/location"); c.count(both ? "direct_files" : "prefixed_files");
    // overwritten by a shorter file
    Temp f("over.msgpack"); { Writer w(f); for (int i = 0; i < r.i(2, 5); ++i) a.writeConfig(w, "s" + std::to_string(i)); } b.writeConfig<Writer>(f.name, "t"); c.check(mp::roots(f) == 1, "files/overwritten"); c.signature(std::to_string(d.step_height_));
    c.mustReject([&] { Writer w("no/such/directory/file"); }, "files/unwritable"); c.mustReject([&] { Reader q("no_such_file"); }, "files/missing");
}

// hierarchies of tasks
VH_FAMILY(problems, 400, 8000)
{
    auto &r = c.rng; cfg::Problem p; int levels = r.i(1, 4); p.reset(levels); struct Expect { std::string id, cls; Tree values; }; std::vector<std::vector<Expect>> expect(levels); int id = 0;
    for (int l = 0; l < levels; ++l) { int n = r.i(0, 4); for (int k = 0; k < n; ++k)
    {
        std::string cls = r.pick(cfg::Problem::classes()); humoto::TaskSharedPointer t = p.make(cls); t->setDescription("task" + std::to_string(id++) + (r.chance(0.3) ? " of a long description which needs more than thirty two characters" : ""));
        Tree v = mp::treeOf(*t, t->getDescription()); c.check(v.kind == Tree::MAP, "problems/task_unreadable", cls); mp::randomize(r, v, "", true); if (Tree *ix = v.find("variables_indices")) { ix->items.resize(r.i(0, 20)); for (auto &e : ix->items) e = Tree::integer(r.i(0, 500)); }
        Temp f("task.msgpack"); mp::spill(f, mp::encode(mp::section(t->getDescription(), v))); t->readConfig<Reader>(f.name, t->getDescription()); c.check(mp::treeOf(*t, t->getDescription()).same(v), "problems/task", cls + v.show()); p.pushTask(t, l, cls); expect[l].push_back(Expect{t->getDescription(), cls, v}); c.count("tasks"); c.desc << cls << " in " << l << "; ";
    } }
    if (r.chance(0.2)) { /* empty hierarchies cannot be told from missing ones */ }
    Temp g("problem.msgpack"); std::string node = r.chance(0.5) ? "OptimizationProblem" : "my problem"; p.writeConfig<Writer>(g.name, node); std::string bytes = mp::slurp(g);
    cfg::Problem q; if (r.chance(0.5)) { q.reset(2); q.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables), 1, "TaskZeroVariables"); c.count("problems_reused"); }
    q.readConfig<Reader>(g.name, node); c.check(q.getNumberOfLevels() == static_cast<std::size_t>(levels), "problems/levels");
    for (int l = 0; l < levels; ++l)
    {
        auto ts = q.tasksOf(l), ps = p.tasksOf(l); c.check(ts.size() == expect[l].size() && ps.size() == ts.size(), "problems/number");
        for (std::size_t k = 0; k < ts.size(); ++k)
        {
            std::string d = ts[k]->getDescription(); c.check(d == ps[k]->getDescription(), "problems/order", d); auto e = expect[l].end(); for (auto x = expect[l].begin(); x != expect[l].end(); ++x) if (x->id == d) e = x; c.check(e != expect[l].end(), "problems/description", d);
            c.check(q.classOf(*ts[k]) == e->cls, "problems/class", q.classOf(*ts[k]) + " for " + e->cls); Tree got = mp::treeOf(*ts[k], d); c.check(got.same(e->values), "problems/task_values", got.show() + " for " + e->values.show());
        }
    }
    Temp h("problem2.msgpack"); q.writeConfig<Writer>(h.name, node); c.check(mp::slurp(h) == bytes, "problems/rewritten"); c.signature(bytes); c.count("problems");
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
