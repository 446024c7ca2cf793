// C24: tasks of the whole body controller of the robot and the closed loop of inverse kinematics.
#include "pepperik.h"
static Vector3d baseCom(const VectorXd &q) { return bot().com(baseIds(), q); }
static Vector3d bodyCom(const VectorXd &q) { return bot().com(bodyIds(), q); }
static MatrixXd stack(const MatrixXd &a, const MatrixXd &b) { MatrixXd o(a.rows() + b.rows(), a.cols()); o << a, b; return o; }
static VectorXd stack(const VectorXd &a, const VectorXd &b) { VectorXd o(a.size() + b.size()); o << a, b; return o; }
typedef Eigen::Matrix<double, 6, 1> Vector6d;

// what the tasks depend on
struct World
{
    VectorXd q; ik::MotionParameters motion; std::map<std::string, Vector6d> velocity; double dt;
    std::map<std::string, std::pair<Matrix3d, Vector3d>> desired; std::map<std::string, double> sloppy;   // poses and their tolerances
};
struct Want { MatrixXd A; VectorXd b, lo, hi; double tol = 1e-7; };
struct Parameters { double gain = 1, k = 1; int axes = 7; std::string tag; Vector3d rpy = Vector3d(0, 0, 0); VectorXd joints; };
static const std::vector<std::string> &types() { static const std::vector<std::string> t = {"TaskBaseCoMTracking", "TaskBaseOrientation", "TaskBodyCoMTracking", "TaskFixArms", "TaskFixHead", "TaskJointsBounds", "TaskJointsReference", "TaskTagOrientation", "TaskTagAngularVelocity", "TaskTagCompleteVelocity", "TaskTagPose", "TaskTagPose3Dof"}; return t; }

static MatrixXd unit(int joint) { MatrixXd e = MatrixXd::Zero(1, N); e(0, ROOT + joint) = 1; return e; }
static Want expected(const std::string &type, const Parameters &p, const World &w)
{
    Want o; const int foot = bot().find("base_footprint"); std::vector<T> at = bot().fk(w.q); auto rows = [](const MatrixXd &J, const std::vector<int> &r) { MatrixXd o(r.size(), J.cols()); for (std::size_t i = 0; i < r.size(); ++i) o.row(i) = J.row(r[i]); return o; };
    auto pick = [&](const MatrixXd &J, const VectorXd &e, const std::vector<int> &r) { o.A = p.gain * rows(J, r); o.b = p.gain * p.k * rows(e, r); };
    if (type == "TaskBaseCoMTracking") pick(bot().pointJ(baseCom, w.q), w.motion.base_com_position_ - baseCom(w.q), PLANAR_ROOT ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2});
    else if (type == "TaskBaseOrientation") pick(bot().rotationJ(foot, w.q), errorOf(at[foot].linear(), rpyMatrix(w.motion.base_orientation_rpy_)), PLANAR_ROOT ? std::vector<int>{2} : std::vector<int>{0, 1, 2});
    else if (type == "TaskBodyCoMTracking") { std::vector<int> r; for (int i = 0; i < 3; ++i) if (p.axes & (1 << i)) r.push_back(i); pick(bot().pointJ(bodyCom, w.q), w.motion.body_com_position_ - bodyCom(w.q), r); }
    else if (type == "TaskFixArms" || type == "TaskFixHead") { o.A.resize(0, N); for (auto &n : type == "TaskFixArms" ? armNames() : std::vector<std::string>{"HeadYaw", "HeadPitch"}) o.A = stack(o.A, unit(indexOf(n))); o.b = VectorXd::Zero(o.A.rows()); }
    else if (type == "TaskJointsBounds") { o.lo.resize(15); o.hi.resize(15); for (int i = 0; i < 15; ++i) { o.lo[i] = linkOf(i).lower - w.q[ROOT + i]; o.hi[i] = linkOf(i).upper - w.q[ROOT + i]; } }
    else if (type == "TaskJointsReference") { o.A = MatrixXd::Zero(15, N); o.A.rightCols(15) = p.gain * MatrixXd::Identity(15, 15); o.b = p.gain * p.k * (p.joints - w.q.tail(15)); }
    else
    {
        const int tag = bot().find(p.tag); MatrixXd R = bot().rotationJ(tag, w.q), P = bot().pointJ([&](const VectorXd &x) { return Vector3d(bot().fk(x)[tag].translation()); }, w.q); Matrix3d C = at[tag].linear(); Vector3d v(0, 0, 0), om(0, 0, 0), ep(0, 0, 0), er(0, 0, 0);
        if (w.velocity.count(p.tag)) { v = C * w.velocity.at(p.tag).head(3); om = C * w.velocity.at(p.tag).tail(3); }
        if (w.desired.count(p.tag)) { er = errorOf(C, w.desired.at(p.tag).first); ep = w.desired.at(p.tag).second - at[tag].translation(); if (type == "TaskTagPose" || type == "TaskTagPose3Dof") o.tol += w.sloppy.at(p.tag) * (std::fabs(p.gain * p.k)); }
        std::vector<int> all3 = {0, 1, 2}, all6 = {0, 1, 2, 3, 4, 5};
        if (type == "TaskTagOrientation") pick(R, errorOf(C, rpyMatrix(p.rpy)), all3); else if (type == "TaskTagAngularVelocity") pick(R, om, all3); else if (type == "TaskTagCompleteVelocity") pick(stack(R, P), stack(VectorXd(om), VectorXd(v)), all6);
        else { VectorXd e = stack(VectorXd(er), VectorXd(ep)); if (type == "TaskTagPose3Dof") e.segment(2, 3).setZero(); pick(stack(R, P), e, all6); }
    }
    return o;
}

static humoto::TaskSharedPointer construct(const std::string &t, const Parameters &p)
{
    humoto::TaskSharedPointer o; auto is = [&](const char *n) { return t == n; };
    if (is("TaskBaseCoMTracking")) o.reset(new ik::TaskBaseCoMTracking<F>(p.gain, p.k)); if (is("TaskBaseOrientation")) o.reset(new ik::TaskBaseOrientation<F>(p.gain, p.k)); if (is("TaskBodyCoMTracking")) o.reset(new ik::TaskBodyCoMTracking<F>(p.gain, p.k, p.axes));
    if (is("TaskFixArms")) o.reset(new ik::TaskFixArms<F>); if (is("TaskFixHead")) o.reset(new ik::TaskFixHead<F>); if (is("TaskJointsBounds")) o.reset(new ik::TaskJointsBounds<F>); if (is("TaskJointsReference")) o.reset(new ik::TaskJointsReference<F>(p.gain, p.k));
    if (is("TaskTagOrientation")) o.reset(new ik::TaskTagOrientation<F>(p.tag, p.rpy, p.gain, p.k)); if (is("TaskTagAngularVelocity")) o.reset(new ik::TaskTagAngularVelocity<F>(p.tag, p.gain, p.k)); if (is("TaskTagCompleteVelocity")) o.reset(new ik::TaskTagCompleteVelocity<F>(p.tag, p.gain, p.k));
    if (is("TaskTagPose")) o.reset(new ik::TaskTagPose<F>(p.tag, p.gain, p.k)); if (is("TaskTagPose3Dof")) o.reset(new ik::TaskTagPose3Dof<F>(p.tag, p.gain, p.k)); return o;
}
static mp::Tree vec(const VectorXd &v) { mp::Tree t = mp::Tree::array(); for (int i = 0; i < v.size(); ++i) t.items.push_back(mp::Tree::real(v[i])); return t; }
static mp::Tree section(const std::string &t, const Parameters &p)
{
    mp::Tree f = mp::Tree::map(); bool simple = t == "TaskFixArms" || t == "TaskFixHead" || t == "TaskJointsBounds"; if (!simple) f.add("gain", mp::Tree::real(p.gain));
    if (t == "TaskBaseCoMTracking" || t == "TaskBodyCoMTracking" || t == "TaskJointsReference") f.add("k_position_gain", mp::Tree::real(p.k)); if (t == "TaskBaseOrientation" || t == "TaskTagOrientation") f.add("k_orientation_gain", mp::Tree::real(p.k)); if (t == "TaskTagAngularVelocity") f.add("k_angular_velocity_gain", mp::Tree::real(p.k)); if (t == "TaskTagCompleteVelocity") f.add("k_complete_velocity_gain", mp::Tree::real(p.k)); if (t == "TaskTagPose" || t == "TaskTagPose3Dof") f.add("k_pose_gain", mp::Tree::real(p.k));
    if (t == "TaskBodyCoMTracking") f.add("axis_flag", mp::Tree::integer(p.axes)); if (t == "TaskJointsReference") f.add("joint_angles_reference", vec(p.joints)); if (t.substr(0, 7) == "TaskTag") f.add("tag_string_id", mp::Tree::str(p.tag)); if (t == "TaskTagOrientation") f.add("reference_rpy", vec(p.rpy)); return f;
}
static std::string randomTag(vh::Rng &r) { return bot().links[r.i(0, bot().links.size() - 1)].name; }
static VectorXd defaults() { Model::JointAnglesVector d; Desc::getDefaultJointAngles(d); return d; }
static Parameters randomParameters(vh::Rng &r, const World &w)
{
    Parameters p; p.gain = r.chance(0.3) ? 1 : r.chance(0.1) ? 1 + 1e-5 : r.real(0.01, 5); p.k = r.pick({1., 1., 0.1, 2.5, 0.}); p.axes = r.i(1, 7); p.tag = randomTag(r); p.rpy = Vector3d(r.real(-1.4, 1.4), r.real(-1.4, 1.4), r.real(-3, 3)); p.joints = randomJoints(r);
    if (!w.velocity.empty() && r.chance(0.7)) { auto it = w.velocity.begin(); std::advance(it, r.i(0, w.velocity.size() - 1)); p.tag = it->first; } return p;
}
static void judge(vh::Case &c, const humoto::TaskSharedPointer &task, const Model &m, const Wbc &wbc, const std::string &type, const Parameters &p, const World &w, bool repeat)
{
    humoto::OptimizationProblem o; o.reset(2); o.pushTask(task, 0); o.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(1.0)), 1); humoto::Solution sol; for (int i = repeat ? 2 : 1; i > 0; --i) o.form(sol, m, wbc); Want e = expected(type, p, w); const std::string k = type;
    c.check(sol.getNumberOfVariables() == static_cast<std::size_t>(N), k + "/variables");
    if (e.lo.size()) { humoto::QPProblem_ILU_ALU qp; o.getQPProblem(qp, sol); VectorXd l = qp.getSolutionLowerBounds(), u = qp.getSolutionUpperBounds(); c.check(l.size() == N && u.size() == N, k + "/bounds"); c.nearM(l.tail(15), e.lo, 1e-12, k + "/lower"); c.nearM(u.tail(15), e.hi, 1e-12, k + "/upper"); c.check((l.head(ROOT).array() < -1e10).all() && (u.head(ROOT).array() > 1e10).all(), k + "/root"); c.check(qp.getGeneralConstraints().getA().rows() == 0, k + "/constraints"); return; }
    humoto::QPProblem_AB_AL qp; o.getQPProblem(qp, sol); c.check(qp.getInequalities().getA().rows() == 0, k + "/inequalities"); MatrixXd A = qp.getEqualities().getA(); VectorXd b = qp.getEqualities().getB();
    if (type == "TaskFixArms")
    {   // any order
        c.check(A.rows() == e.A.rows() && A.cols() == N && A.cwiseAbs().sum() == e.A.rows() && (A.colwise().sum() - e.A.colwise().sum()).isZero(1e-12) && b.isZero(0), k + "/rows"); return;
    }
    if (type == "TaskFixHead") { c.check(A.rows() == 2 && A.cols() == N && A.cwiseAbs().sum() == 2 && (A.colwise().sum() - e.A.colwise().sum()).isZero(1e-12) && b.isZero(0), k + "/rows"); return; }
    const double sc = std::max(1., std::fabs(p.gain)) * (1 + e.A.cwiseAbs().maxCoeff()); c.nearM(A, e.A, 2e-8 * sc, k + "/A"); c.nearM(b, e.b, e.tol * sc + 1e-10, k + "/b");
    c.count("rows", A.rows()); if (b.norm() > 1e-6) c.count("nonzero_references");
}
static void tags(vh::Case &c, Wbc &wbc, const Model &m, World &w)
{
    vh::Rng &r = c.rng; std::map<std::string, etools::Vector6> v; w.velocity.clear(); for (int k = r.i(0, 3); k > 0; --k) { Vector6d x = r.gvec(6) * r.pick({0.1, 1., 3.}); if (r.chance(0.2)) x.head(3).setZero(); if (r.chance(0.2)) x.tail(3).setZero(); std::string n = randomTag(r); w.velocity[n] = x; v[n] = x; }
    wbc.setTagsVelocity(v); typedef humoto::rbdl::SpatialType ST;
    for (auto &e : w.velocity)
    {
        c.nearM(wbc.getTagVelocityInLocal(e.first, ST::COMPLETE), e.second, 0, "velocity/local"); c.nearM(wbc.getTagVelocityInLocal(e.first, ST::TRANSLATION), e.second.head(3), 0, "velocity/local_translation"); c.nearM(wbc.getTagVelocityInLocal(e.first, ST::ROTATION), e.second.tail(3), 0, "velocity/local_rotation");
        // velocity of the body which is in the origin of the global frame
        const T t = bot().fk(w.q)[bot().find(e.first)]; Vector3d om = t.linear() * e.second.tail(3), o = t.linear() * e.second.head(3) + om.cross(-t.translation()); const double sc = 1 + e.second.norm() * (1 + t.translation().norm());
        c.nearM(wbc.getTagVelocityInGlobal(m, e.first, e.second, ST::ROTATION), om, 1e-11 * sc, "velocity/global_rotation"); c.nearM(wbc.getTagVelocityInGlobal(m, e.first, e.second, ST::TRANSLATION), o, 1e-11 * sc, "velocity/global_translation"); c.nearM(wbc.getTagVelocityInGlobal(m, e.first, e.second, ST::COMPLETE), stack(VectorXd(om), VectorXd(o)), 1e-11 * sc, "velocity/global"); c.count("tag_velocities");
    }
    std::string none = randomTag(r); if (!w.velocity.count(none)) { c.check(wbc.getTagVelocityInLocal(none, ST::COMPLETE).isZero(0), "velocity/unset"); }
    {
        Vector6d x = Vector6d::Zero(); const std::string cam = "CameraTop_optical_frame"; if (r.chance(0.5)) { x = r.gvec(6); v[cam] = x; w.velocity[cam] = x; wbc.setTagsVelocity(v); } else if (w.velocity.count(cam)) x = w.velocity[cam];
        const T t = bot().fk(w.q)[bot().find(cam)]; Vector3d om = t.linear() * x.tail(3), o = t.linear() * x.head(3) - om.cross(Vector3d(t.translation())); c.nearM(wbc.getBaseVelocityInGlobal(m), stack(VectorXd(om), VectorXd(o)), 1e-10 * (1 + x.norm() * (1 + t.translation().norm())), "velocity/base");
    }
    if (r.chance(0.8))
    {
        wbc.computeTagsDesiredPoseInGlobal(m); c.count("desired_poses", w.velocity.size());
        for (auto &e : w.velocity)
        {
            const T t = bot().fk(w.q)[bot().find(e.first)]; Vector3d a = e.second.tail(3) * w.dt; double n = a.norm(); Matrix3d turned = t.linear() * (n > 0 ? Eigen::AngleAxisd(n, a / n).toRotationMatrix() : Matrix3d(Matrix3d::Identity())); Vector3d at = t.translation() + w.dt * t.linear() * e.second.head(3); w.desired[e.first] = {turned, at}; w.sloppy[e.first] = n * n + 1e-8;
            auto it = wbc.tags_desired_pose_global_.find(e.first); c.check(it != wbc.tags_desired_pose_global_.end(), "desired/missing"); if (it == wbc.tags_desired_pose_global_.end()) continue;
            c.nearM(it->second.tail(3), at, 1e-10 * (1 + e.second.norm()), "desired/position"); c.nearM(rpyMatrix(it->second.head(3)), turned, 1e-6 + n * n, "desired/orientation");
        }
    }
    for (auto &e : w.desired) { const T t = bot().fk(w.q)[bot().find(e.first)]; Vector6d x; x << errorOf(t.linear(), e.second.first), e.second.second - t.translation(); Vector6d g = wbc.getTagPoseErrorInGlobal(m, e.first); c.nearM(g.head(3), x.head(3), 1e-6 + w.sloppy[e.first], "pose_error/rotation"); c.nearM(g.tail(3), x.tail(3), 1e-9, "pose_error/translation"); c.count("pose_errors"); }
    std::string other = randomTag(r); if (!w.desired.count(other)) c.check(wbc.getTagPoseErrorInGlobal(m, other).isZero(0), "pose_error/unset");
}

#ifndef VH_LIBRARY
VH_FAMILY(forms, 120, 2500)
{
    vh::Rng &r = c.rng; standin::urdfOptions().multi_dof = r.i(0, 2); static Model m; static int loaded = -1; if (loaded != standin::urdfOptions().multi_dof) { m.loadParameters(urdfFile()); loaded = standin::urdfOptions().multi_dof; }
    ik::WBCParameters wp; wp.control_interval_ms_ = 10; World w; w.dt = 0.01; Wbc wbc(wp); std::ostringstream sig;
    std::vector<std::string> use = types(); r.shuffle(use); use.resize(r.i(2, 5)); std::vector<Parameters> par; std::vector<humoto::TaskSharedPointer> tasks;
    for (int k = 0, n = r.i(1, 3); k < n; ++k)
    {
        State s = randomState(c, randomRoot(r), randomJoints(r)); w.q = coords(s); w.motion = randomMotion(r); m.updateState(s); c.check(wbc.update(m, w.motion) == humoto::ControlProblemStatus::OK, "update"); tags(c, wbc, m, w); sig << w.q.transpose(); c.desc << "q " << w.q.transpose() << " ";
        for (std::size_t i = 0; i < use.size(); ++i)
        {
            const bool fresh = k == 0; if (fresh) { Parameters p = randomParameters(r, w); p.joints = defaults(); par.push_back(p); tasks.push_back(construct(use[i], p)); }
            if (!fresh && r.chance(0.4))
            {   // another configuration of the same task
                Parameters p = randomParameters(r, w); mp::Temp f("task.msgpack"); humoto::config::msgpack::Reader *rd; const bool part = r.chance(0.4);
                if (!part && r.chance(0.5)) { humoto::TaskSharedPointer from = construct(use[i], p); p.joints = defaults(); { humoto::config::msgpack::Writer wr(f.name); from->setDescription("X"); from->writeConfig(wr); wr.flush(); } c.count("configurations_copied"); }
                else
                {
                    mp::Tree t = section(use[i], p); if (part) for (int e = t.entries.size() - 1; e >= 0; --e) if (r.chance(0.4))
                    {   // missing entries have default values
                        const std::string n = t.entries[e].first.s; t.entries.erase(t.entries.begin() + e); if (n == "gain") p.gain = 0; else if (n.substr(0, 2) == "k_") p.k = 0; else if (n == "axis_flag") p.axes = 7; else if (n == "joint_angles_reference") p.joints = defaults(); else if (n == "tag_string_id") p.tag = ""; else if (n == "reference_rpy") p.rpy.setZero(); c.count("defaults");
                    }
                    mp::spill(f, mp::encode(mp::section("X", t)));
                }
                rd = new humoto::config::msgpack::Reader(f.name); tasks[i]->readConfig(*rd, "X", !part); delete rd; par[i] = p; c.count("configurations");
            }
            c.desc << use[i] << " tag " << par[i].tag << " gain " << par[i].gain << " k " << par[i].k << " axes " << par[i].axes << " ";
            if (use[i].substr(0, 7) == "TaskTag" && par[i].tag.empty()) { humoto::OptimizationProblem o; o.reset(1); o.pushTask(tasks[i], 0); humoto::Solution sol; c.mustReject([&] { o.form(sol, m, wbc); }, use[i] + "/no_tag"); continue; }
            judge(c, tasks[i], m, wbc, use[i], par[i], w, r.chance(0.2)); c.count("task_" + use[i]);
        }
    }
    c.signature(sig.str());
    for (int bad : {0, 8, 9, 15, -1}) { humoto::OptimizationProblem o; o.reset(1); o.pushTask(humoto::TaskSharedPointer(new ik::TaskBodyCoMTracking<F>(1, 1, bad)), 0); humoto::Solution sol; c.mustReject([&] { o.form(sol, m, wbc); }, "axes"); }
    { std::string t = r.pick({std::string("TaskTagOrientation"), std::string("TaskTagPose"), std::string("TaskTagPose3Dof"), std::string("TaskTagAngularVelocity"), std::string("TaskTagCompleteVelocity")}); Parameters p; p.tag = "nothing"; humoto::OptimizationProblem o; o.reset(1); o.pushTask(construct(t, p), 0); humoto::Solution sol; c.mustReject([&] { o.form(sol, m, wbc); }, "unknown_tag"); }
}

// lexicographic solution of equality tasks: the first level exactly, the second one in the least squares sense
static VectorXd lexicographic(const MatrixXd &A, const VectorXd &b, const MatrixXd &C, const VectorXd &d)
{
    Eigen::CompleteOrthogonalDecomposition<MatrixXd> ca(A); VectorXd x = ca.solve(b); Eigen::FullPivLU<MatrixXd> lu(A); lu.setThreshold(1e-9); MatrixXd Z = lu.kernel(); if (lu.dimensionOfKernel() == 0) return x; Eigen::HouseholderQR<MatrixXd> qz(Z); MatrixXd Q = qz.householderQ() * MatrixXd::Identity(Z.rows(), Z.cols()); Eigen::CompleteOrthogonalDecomposition<MatrixXd> cc(C * Q); return x + Q * cc.solve(d - C * x);
}
VH_FAMILY(closed_loop, 25, 400)
{
    vh::Rng &r = c.rng; static Model m; static bool loaded = false; if (!loaded) { m.loadParameters(urdfFile()); loaded = true; }
    // where to go: a feasible configuration
    Root to = randomRoot(r); if (!PLANAR_ROOT) to.rpy *= 0.5; VectorXd goal = defaults(); for (int i = 0; i < 15; ++i) goal[i] += r.real(-0.1, 0.1); State g = randomState(c, to, goal); World w; w.q = coords(g); w.dt = 0.01; const int foot = bot().find("base_footprint");
    w.motion.base_com_position_ = baseCom(w.q); w.motion.body_com_position_ = bodyCom(w.q); T tf = bot().fk(w.q)[foot]; double pitch = std::asin(-tf.linear()(2, 0)); w.motion.base_orientation_rpy_ = Vector3d(std::atan2(tf.linear()(2, 1), tf.linear()(2, 2)), pitch, std::atan2(tf.linear()(1, 0), tf.linear()(0, 0)));
    if (std::fabs(pitch) > 1.3) { c.count("discarded"); return; }
    Root from = to; from.position += 0.05 * Vector3d(r.gvec(3)); from.rpy += 0.1 * Vector3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (PLANAR_ROOT) { from.position[2] = 0; from.rpy[0] = from.rpy[1] = 0; } VectorXd start = goal; for (int i = 0; i < 15; ++i) start[i] += r.real(-0.1, 0.1); State s = randomState(c, from, start);
    const int way = r.i(0, 1); std::vector<std::vector<std::string>> levels = way ? std::vector<std::vector<std::string>>{{"TaskBodyCoMTracking"}, {"TaskBaseCoMTracking", "TaskBaseOrientation", "TaskJointsReference"}} : std::vector<std::vector<std::string>>{{"TaskBaseCoMTracking", "TaskBodyCoMTracking", "TaskBaseOrientation"}, {"TaskJointsReference"}}; if (r.chance(0.3)) levels[0].push_back("TaskFixHead"); if (r.chance(0.3)) levels[0].push_back("TaskFixArms");
    Parameters p; p.joints = goal; p.gain = r.pick({1., 0.7, 2.}); p.k = 1; for (auto &l : levels) r.shuffle(l);
    // through a file
    mp::Tree f = mp::Tree::map(), names = mp::Tree::array(), ids = mp::Tree::array(); int id = 0; for (auto &l : levels) { mp::Tree a = mp::Tree::array(), b = mp::Tree::array(); for (auto &n : l) { std::string i = r.chance(0.5) ? n : "id" + std::to_string(id++); a.items.push_back(mp::Tree::str(n)); b.items.push_back(mp::Tree::str(i)); f.add(i, section(n, p)); } names.items.push_back(a); ids.items.push_back(b); }
    f.add("task_class_names", names).add("task_ids", ids); mp::Temp file("hierarchy.msgpack"); mp::spill(file, mp::encode(mp::section("OptimizationProblem", f))); humoto::config::msgpack::Reader reader(file); ik::ConfigurableOptimizationProblem<F> opt; opt.readConfig(reader, true);
    ik::WBCParameters wp; Wbc wbc(wp); humoto::kktsolver::Solver solver; humoto::Solution sol; double before = -1; c.desc << "way " << way << " from " << coords(s).transpose() << " to " << w.q.transpose() << " "; std::ostringstream sig; sig << coords(s).transpose(); c.signature(sig.str());
    for (int it = 0; it < 12; ++it)
    {
        w.q = coords(s); m.updateState(s); wbc.update(m, w.motion); opt.form(sol, m, wbc); c.mustReject([&] { wbc.getNextGeneralizedCoordinates(m); }, "next/not_parsed"); solver.solve(sol, opt);
        MatrixXd A[2]; VectorXd b[2]; for (int l = 0; l < 2; ++l) { A[l].resize(0, N); b[l].resize(0); for (auto &n : levels[l]) { Want e = expected(n, p, w); A[l] = stack(A[l], e.A); b[l] = stack(b[l], e.b); } }
        VectorXd x = sol.x_; c.check(x.size() == N, "loop/size"); if (x.size() != N) return; c.check((A[0] * x - b[0]).norm() < 1e-6 * (1 + x.norm()), "loop/first_level", "residual " + std::to_string((A[0] * x - b[0]).norm()));
        VectorXd y = lexicographic(A[0], b[0], A[1], b[1]); double fx = (A[1] * x - b[1]).squaredNorm(), fy = (A[1] * y - b[1]).squaredNorm(); c.check(fx <= fy + 1e-5 * (1 + fy), "loop/second_level", std::to_string(fx) + " against " + std::to_string(fy));
        State next = wbc.getNextGeneralizedCoordinates(sol, m); c.nearM(next.asVector(), w.q + x, 1e-12, "next/state"); c.mustReject([&] { wbc.getNextGeneralizedCoordinates(sol, m); }, "next/parsed_twice"); c.nearM(coords(static_cast<const Wbc &>(wbc).getNextGeneralizedCoordinates(m)), w.q, 0, "next/current");
        ik::MotionParameters e; m.getStateError(e, w.motion); double err = (w.motion.body_com_position_ - bodyCom(w.q)).norm(); if (!way) err += errorOf(bot().fk(w.q)[foot].linear(), rpyMatrix(w.motion.base_orientation_rpy_)).norm() + (w.motion.base_com_position_ - baseCom(w.q)).head(PLANAR_ROOT ? 2 : 3).norm();
        if (before >= 0) { c.check(err < 0.9 * before + 1e-9, "loop/convergence", std::to_string(err) + " after " + std::to_string(before)); } before = err; s = next; c.count("iterations");
    }
    c.check(before < 1e-8, "loop/converged", std::to_string(before)); c.count("loops_converged");
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
