// C22: the bridge to RBDL (a stand-in of the library is underneath) against kinematics computed here.
#include "vh.h"
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/rbdl.h"
#include "mp.h"
#include "robot.h"
using namespace robot; typedef humoto::rbdl::SpatialType ST; typedef humoto::rbdl::Model Bridge;

static Robot randomRobot(vh::Rng &r)
{
    Robot m; const int n = r.i(2, 14); const bool many_fixed = r.chance(0.4), base = r.chance(0.3); int style = r.i(0, 2);
    for (int i = 0; i < n; ++i)
    {
        Link l; l.name = (r.chance(0.5) ? "link_" : "Body") + std::to_string(i);
        if (i > 0)
        {
            l.parent = r.chance(0.5) ? i - 1 : r.i(0, i - 1); l.kind = r.chance(many_fixed ? 0.5 : 0.2) ? FIXED : r.pick(std::vector<Kind>{REVOLUTE, REVOLUTE, CONTINUOUS, PRISMATIC});
            if (i == 1 && !base && style == 1) { l.kind = FLOATING; l.parent = 0; } if (i == 1 && !base && style == 2) { l.kind = PLANAR; l.parent = 0; }
            if (r.chance(0.8)) l.xyz = r.gvec(3); if (r.chance(0.6)) l.rpy = Vector3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3));
            l.axis = r.chance(0.5) ? Vector3d(r.pick({Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(0, 0, -1), Vector3d(0, -1, 0)})) : Vector3d(r.gvec(3)); if (l.axis.norm() < 0.1) l.axis = Vector3d(0, 0, 1);
        }
        l.origin = frame(l.rpy, l.xyz);
        if (r.chance(0.85)) { l.inertial = true; l.mass = r.real(0.1, 5); l.com = r.chance(0.2) ? Vector3d(0, 0, 0) : Vector3d(r.gvec(3)); }
        m.links.push_back(l);
    }
    m.floating_root = base; m.number();
    if (m.dof == 0 || m.mass(m.movables()) == 0) { Link l; l.name = "tip"; l.parent = n - 1; l.kind = REVOLUTE; l.axis = Vector3d(0, 1, 0); l.inertial = true; l.mass = 1.5; l.com = Vector3d(0.2, -0.1, 0.4); m.links.push_back(l); m.number(); }
    return m;
}
static VectorXd randomQ(vh::Rng &r, const Robot &m) { VectorXd q(m.dof); for (int i = 0; i < m.dof; ++i) q[i] = r.chance(0.1) ? 0 : r.real(-2.5, 2.5); return q; }

static void loadBridge(vh::Case &c, Bridge &b, const Robot &m, const std::string &file)
{
    humoto::rbdl::ModelParameters p; c.check(p.floating_base_, "parameters/default"); p.floating_base_ = m.floating_root; b.load(p, file);
}
template <ST::Type t, class Tag> static MatrixXd jac(vh::Case &c, const Bridge &b, const Tag &tag)
{
    MatrixXd J; if (c.rng.chance(0.4)) J = c.rng.gmat(c.rng.i(1, 7), c.rng.i(1, 9)); b.getTagJacobian<t>(J, tag); return J;
}
template <class Tag> static void checkJ(vh::Case &c, const Bridge &b, const Tag &tag, const MatrixXd &R, const MatrixXd &P, const std::string &key)
{
    MatrixXd all(6, R.cols()); all << R, P;
    c.nearM(jac<ST::ROTATION>(c, b, tag), R, 1e-8, key + "/rotation"); c.nearM(jac<ST::TRANSLATION>(c, b, tag), P, 1e-8, key + "/translation"); c.nearM(jac<ST::COMPLETE>(c, b, tag), all, 1e-8, key + "/complete");
    c.count("jacobians", 3);
}
static void observe(vh::Case &c, const Bridge &b, const Robot &m, const VectorXd &q)
{
    vh::Rng &r = c.rng; std::vector<T> p = m.fk(q);
    c.check((int)b.getDOFNumber() == m.dof, "dof"); c.near(b.getTagMass(b.getCoMTag()), m.mass(m.movables()), 1e-12, "mass/total"); c.near(b.total_mass_, m.mass(m.movables()), 1e-12, "mass/total");
    for (int k = 0; k < 5; ++k)
    {
        int i = r.i(0, m.links.size() - 1); const std::string &name = m.links[i].name; const bool fixed = !m.movable(i); c.count(fixed ? "fixed_links" : "movable_links");
        MatrixXd R = m.rotationJ(i, q), P = m.pointJ([&](const VectorXd &x) { return Vector3d(m.fk(x)[i].translation()); }, q);
        humoto::rbdl::TagLinkPtr t = b.getLinkTag(name); humoto::rbdl::TagLinkPtr same(new humoto::rbdl::TagLink(t->link_id_)); if (r.chance(0.3)) t = same;
        c.nearM(b.getTagPosition(t), p[i].translation(), 1e-11, "link/position"); c.nearM(b.getTagOrientation(t), p[i].linear(), 1e-11, "link/orientation");
        humoto::rigidbody::RigidBodyPose pose = b.getTagPose(t); c.nearM(pose.position_, p[i].translation(), 1e-11, "link/pose_position");
        c.nearM(frame(pose.rpy_, Vector3d(0, 0, 0)).linear(), p[i].linear(), 1e-7, "link/pose_orientation");
        checkJ(c, b, t, R, P, "link/jacobian");
        c.near(b.getTagMass(t), m.mass(i), 1e-12, "link/mass");
        {   // a point of the link
            Vector3d x = r.chance(0.1) ? Vector3d(0, 0, 0) : Vector3d(r.gvec(3)); humoto::rbdl::TagPointPtr tp = b.getPointTag(name, x); c.check(tp->link_id_ == t->link_id_ && tp->local_position_ == x, "point/tag");
            c.nearM(b.getTagPosition(tp), p[i] * x, 1e-11, "point/position"); c.nearM(b.getTagOrientation(tp), p[i].linear(), 1e-11, "point/orientation");
            pose = b.getTagPose(tp); c.nearM(pose.position_, p[i] * x, 1e-11, "point/pose_position"); c.nearM(frame(pose.rpy_, Vector3d(0, 0, 0)).linear(), p[i].linear(), 1e-7, "point/pose_orientation");
            checkJ(c, b, tp, R, m.pointJ([&](const VectorXd &q2) { return Vector3d(m.fk(q2)[i] * x); }, q), "point/jacobian");
        }
        if (m.mass(i) > 0)
        {   // center of mass of the link
            humoto::rbdl::TagPointPtr tc = b.getLinkCoMTag(name); auto com = [&](const VectorXd &x) { return m.com({i}, x); }; c.nearM(b.getTagPosition(tc), com(q), 1e-11, "link_com/position");
            checkJ(c, b, tc, R, m.pointJ(com, q), "link_com/jacobian");
        }
    }
    {   // center of mass of several links
        std::vector<int> ids; std::vector<int> mv = m.movables(); r.shuffle(mv); int k = r.i(1, mv.size()); mv.resize(k); ids = mv; bool fixed = false;
        if (r.chance(0.4)) for (unsigned i = 0; i < m.links.size(); ++i) if (!m.movable(i) && m.links[i].mass > 0 && r.chance(0.5)) { ids.insert(ids.begin() + r.i(0, ids.size()), i); fixed = true; }
        if (m.mass(ids) > 0)
        {
            std::vector<std::string> names; for (int i : ids) names.push_back(m.links[i].name); humoto::rbdl::TagPartialCoMPtr t = b.getCoMTag(names); auto com = [&](const VectorXd &x) { return m.com(ids, x); };
            c.near(b.getTagMass(t), m.mass(ids), 1e-12, "partial_com/mass"); c.nearM(b.getTagPosition(t), com(q), 1e-11, "partial_com/position");
            MatrixXd J; if (r.chance(0.5)) J = r.gmat(r.i(1, 5), r.i(1, 30)); b.getTagJacobian(J, t); c.nearM(J, m.pointJ(com, q), 1e-8, "partial_com/jacobian"); c.count("partial_coms"); if (fixed) c.count("partial_coms_with_fixed_links");
        }
        std::vector<int> all = m.movables(); auto com = [&](const VectorXd &x) { return m.com(all, x); }; humoto::rbdl::TagCoMPtr t = b.getCoMTag();
        c.nearM(b.getTagPosition(t), com(q), 1e-11, "com/position"); MatrixXd J; if (r.chance(0.5)) J = r.gmat(r.i(1, 5), r.i(1, 30)); b.getTagJacobian(J, t); c.nearM(J, m.pointJ(com, q), 1e-8, "com/jacobian");
    }
    c.count("states");
}

VH_FAMILY(random_robots, 1000, 30000)
{
    vh::Rng &r = c.rng; Robot m = randomRobot(r); const std::string file = "robot.urdf"; mp::spill(file, m.urdf()); standin::urdfOptions().multi_dof = r.i(0, 2);
    c.desc << m.links.size() << " links, " << m.dof << " dof, representation " << standin::urdfOptions().multi_dof << " " << m.urdf();
    boost::shared_ptr<Bridge> b;
    if (m.floating_root && r.chance(0.3)) { b.reset(new Bridge(file)); c.count("loaded_by_constructor"); }
    else if (r.chance(0.3)) { humoto::rbdl::ModelParameters p; p.floating_base_ = m.floating_root; b.reset(new Bridge(p, file)); c.count("loaded_by_constructor"); }
    else
    {
        b.reset(new Bridge());
        if (r.chance(0.3)) { Robot o = randomRobot(r); mp::spill("other.urdf", o.urdf()); loadBridge(c, *b, o, "other.urdf"); VectorXd q = randomQ(r, o); b->update(q); observe(c, *b, o, q); c.count("reloaded"); }
        loadBridge(c, *b, m, file);
    }
    for (int k = r.i(1, 3); k > 0; --k)
    {
        VectorXd q = randomQ(r, m); b->update(q); observe(c, *b, m, q);
        if (r.chance(0.2)) { boost::shared_ptr<Bridge> o(new Bridge(*b)); b = o; observe(c, *b, m, q); c.count("copied"); }
    }
    std::ostringstream s; s << m.urdf(); c.signature(s.str());
    const std::string bad = r.pick({"", "nothing", "link", "Link_0", "robot"});
    c.mustReject([&] { b->getLinkTag(bad); }, "unknown/link", "unknown link '" + bad + "'"); c.mustReject([&] { b->getPointTag(bad, Vector3d(1, 2, 3)); }, "unknown/point", "unknown link '" + bad + "'"); c.mustReject([&] { b->getLinkCoMTag(bad); }, "unknown/link_com", "unknown link '" + bad + "'");
    std::vector<std::string> l; for (int i = r.i(0, 2); i > 0; --i) l.push_back(r.pick(m.links).name); l.insert(l.begin() + r.i(0, l.size()), bad); c.mustReject([&] { b->getCoMTag(l); }, "unknown/com", "unknown link '" + bad + "'");
    // broken files are refused, and the object may be used afterwards
    const int fault = r.i(0, 3); std::string text = m.urdf();
    if (fault == 1) text = text.substr(0, r.i(0, text.size() - 12)); if (fault == 2) { size_t k = text.find("<robot"); text.replace(k, 6, "<motor"); } if (fault == 3) { size_t k = text.find("type=\""); text.insert(k + 6, "un"); }
    if (fault != 0) mp::spill("broken.urdf", text);
    c.mustReject([&] { Bridge x; loadBridge(c, x, m, fault == 0 ? "missing.urdf" : "broken.urdf"); }, "broken_file", "kind of fault " + std::to_string(fault));
    if (r.chance(0.5)) { c.mustReject([&] { loadBridge(c, *b, m, fault == 0 ? "missing.urdf" : "broken.urdf"); }, "broken_file", "kind of fault " + std::to_string(fault)); loadBridge(c, *b, m, file); VectorXd q = randomQ(r, m); b->update(q); observe(c, *b, m, q); c.count("loaded_after_rejection"); }
}

VH_FAMILY(pepper, 40, 600)
{
    vh::Rng &r = c.rng; static const char *files[] = {"pepper_fixedwheels.urdf", "pepper_fixedwheels_roottibia.urdf", "pepper_fixedwheels_roottibia_planar.urdf"}; const int k = r.i(0, 2);
    const std::string file = std::string(VH_REPO) + "/modules/pepper_ik/config/" + files[k]; static Robot robots[3]; if (robots[k].links.empty()) robots[k] = read(file); const Robot &m = robots[k]; c.desc << files[k];
    standin::urdfOptions().multi_dof = r.i(0, 2); Bridge b; humoto::rbdl::ModelParameters p; p.floating_base_ = k != 2; b.load(p, file); VectorXd q = randomQ(r, m); b.update(q); observe(c, b, m, q); std::ostringstream s; s << k << q.transpose(); c.signature(s.str()); c.count("pepper_states");
}

// values computed by other software, given in the tests of the module
VH_FAMILY(reference, 6, 6)
{
    const std::string file = std::string(VH_REPO) + "/modules/pepper_ik/config/pepper_fixedwheels.urdf"; standin::urdfOptions().multi_dof = c.index % 3; Bridge b; b.load(file);
    VectorXd q(21); q << 0.0135554392293566, 0, 0.819715156461154, 0, 0.05, 0, 0, -0.2, 0, -0.04, -0.01, 1.57, 0.12, -1.2217007, -0.52345699, 0, 1.57, -0.12, 1.2217007, 0.52345699, 0; b.update(q);
    c.nearM(b.getTagPosition(b.getCoMTag()), Vector3d(-3.55973666845037e-04, 3.33285472077393e-16, 3.99839620611527e-01), 1e-12, "reference/com");
    Eigen::Matrix<double, 3, 3, Eigen::ColMajor> W; W << 0.5595145248059723, -0.07614323295628561, -0.8253155182147686, -0.7533407849035063, 0.368461959789661, -0.5447140956400262, 0.3455736655651242, 0.9265192886621018, 0.1487980154604107;
    humoto::rbdl::TagLinkPtr t = b.getLinkTag("l_wrist"); Matrix3d O = b.getTagOrientation(t); c.check((O - W).norm() < 1e-12 || (O - W.transpose()).norm() < 1e-12, "reference/orientation");
    MatrixXd J; b.getTagJacobian<ST::ROTATION>(J, t); MatrixXd E(3, 21);
    E << 0, 0, 0, 1, 0, 0.04997916927067833, 0, 0, 0, 0, 0, 0, 0.9987897434705241, 0.1080155669448421, 0.3455736655651241, 0.5595145248059723, 0, 0, 0, 0, 0,
         0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0.1182383632144119, 0.9265192886621018, -0.07614323295628558, 0, 0, 0, 0, 0,
         0, 0, 0, 0, 0, 0.9987502603949663, 0, 0, 0, 0, 0, 0, -0.04918382191417051, -0.9870928663312086, 0.1487980154604107, -0.8253155182147686, 0, 0, 0, 0, 0;
    c.nearM(J, E, 1e-12, "reference/jacobian"); c.signature(std::to_string(c.index)); c.count("references");
}

VH_FAMILY(transforms, 500, 10000)
{
    vh::Rng &r = c.rng; Vector3d t = r.gvec(3); const int n = r.i(1, 8); MatrixXd V = r.gmat(6, n), E(6, n); humoto::rbdl::SpatialTransformWithoutRotation x(t);
    for (int i = 0; i < n; ++i) { Vector3d w = V.block<3, 1>(0, i), v = V.block<3, 1>(3, i); E.col(i) << w, v + w.cross(t); }
    MatrixXd o = r.gmat(8, n + 2); MatrixXd keep = o; const int row = r.i(0, 2), col = r.i(0, 2); const int kind = r.i(0, 2);
    MatrixXd want = keep; const int rows = kind == 0 ? 6 : 3;
    want.block(row, col, rows, n) = kind == 0 ? E : kind == 1 ? MatrixXd(E.bottomRows(3)) : MatrixXd(E.topRows(3));
    if (r.chance(0.5)) { if (kind == 0) x.apply(o.block(row, col, 6, n), V); else if (kind == 1) x.applyGetTranslationPart(o.block(row, col, 3, n), V); else x.applyGetRotationPart(o.block(row, col, 3, n), V); }
    else { if (kind == 0) x.applySelective<ST::COMPLETE>(o.block(row, col, 6, n), V); else if (kind == 1) x.applySelective<ST::TRANSLATION>(o.block(row, col, 3, n), V); else x.applySelective<ST::ROTATION>(o.block(row, col, 3, n), V); }
    c.nearM(o, want, 1e-12, "transform/kind" + std::to_string(kind)); c.count("transforms");
    c.mustReject([&] { x.applySelective<ST::UNDEFINED>(o.block(row, col, 3, n), V); }, "transform/undefined");
    c.check(ST::getNumberOfElements(ST::COMPLETE) == 6 && ST::getNumberOfElements(ST::ROTATION) == 3 && ST::getNumberOfElements(ST::TRANSLATION) == 3, "elements"); c.mustReject([&] { ST::getNumberOfElements(ST::UNDEFINED); }, "elements/undefined");
    std::ostringstream s; s << V; c.signature(s.str());
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
