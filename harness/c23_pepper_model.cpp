// C23: model of the whole body: coordinates, kinematics, limits, commands.
#include "pepperik.h"
static Vector3d baseCom(const VectorXd &q) { return bot().com(baseIds(), q); }
static Vector3d bodyCom(const VectorXd &q) { return bot().com(bodyIds(), q); }
static Vector3d allCom(const VectorXd &q) { return bot().com(bot().movables(), q); }

static void kinematics(vh::Case &c, const Model &m, const VectorXd &q, bool jacobians)
{
    std::vector<T> p = bot().fk(q); const int foot = bot().find("base_footprint"), torso = bot().find("torso"); vh::Rng &r = c.rng;
    c.nearM(m.getState().asVector(), q, 0, "state/vector"); c.nearM(m.getBasePosition(), p[foot].translation(), 1e-11, "base/position"); c.nearM(m.getBaseOrientation(), p[foot].linear(), 1e-11, "base/orientation");
    if (std::fabs(p[foot].linear()(2, 0)) < 0.99) { double yaw = m.getBaseYaw(); c.near(std::remainder(yaw - std::atan2(p[foot].linear()(1, 0), p[foot].linear()(0, 0)), 2 * M_PI), 0, 1e-9, "base/yaw"); c.count("yaws"); }
    c.nearM(m.getBaseCoM(), baseCom(q), 1e-11, "base/com"); c.nearM(m.getBodyCoM(), bodyCom(q), 1e-11, "body/com"); c.nearM(m.getCoM(), allCom(q), 1e-11, "com");
    c.near(m.getBaseMass(), bot().mass(baseIds()), 1e-12, "base/mass"); c.near(m.getBodyMass(), bot().mass(bodyIds()), 1e-12, "body/mass"); c.near(m.getMass(), bot().mass(bot().movables()), 1e-12, "mass"); c.near(m.getMass(), m.getBaseMass() + m.getBodyMass(), 1e-12, "mass/parts");
    {   // the root of the torso is where the description with the root in the torso has it
        Model &w = const_cast<Model &>(m); humoto::rigidbody::RigidBodyPose t = w.getTorsoRootPose(); T tr = frame(t.rpy_, t.position_); c.nearM(tr.linear(), p[torso].linear(), 1e-7, "torso/orientation");
        Vector3d neck = p[bot().find("Neck")].translation(); c.nearM(p[torso].linear().transpose() * (neck - t.position_), Vector3d(-0.038, 0, 0.1699), 1e-9, "torso/position");
    }
    for (int k = 0; k < 3; ++k)
    {
        int i = r.i(0, bot().links.size() - 1); humoto::rbdl::TagLinkPtr t = m.getLinkTag(bot().links[i].name); c.nearM(m.getTagPosition(t), p[i].translation(), 1e-11, "tag/position"); c.nearM(m.getTagOrientation(t), p[i].linear(), 1e-11, "tag/orientation");
        if (jacobians && k == 0) { MatrixXd J, R = bot().rotationJ(i, q); m.getTagOrientationJacobian(J, t); c.nearM(J, R, 1e-8, "tag/jacobian"); MatrixXd E(6, N); E << R, bot().pointJ([&](const VectorXd &x) { return Vector3d(bot().fk(x)[i].translation()); }, q); m.getTagCompleteJacobian(J, t); c.nearM(J, E, 1e-8, "tag/complete_jacobian"); }
    }
    if (jacobians)
    {
        MatrixXd J; m.getBaseCoMJacobian(J); c.nearM(J, bot().pointJ(baseCom, q), 1e-8, "base/jacobian"); m.getBodyCoMJacobian(J); c.nearM(J, bot().pointJ(bodyCom, q), 1e-8, "body/jacobian"); m.getCoMJacobian(J); c.nearM(J, bot().pointJ(allCom, q), 1e-8, "com/jacobian");
        m.getBaseOrientationJacobian(J); c.nearM(J, bot().rotationJ(foot, q), 1e-8, "base/orientation_jacobian"); c.count("jacobians");
    }
    c.count("states");
}
static void coordinates(vh::Case &c, const State &s, const Root &root)
{
    Vector3d p, a; s.getRootPosition(p); s.getRootOrientation(a); c.nearM(p, root.position, 0, "root/position"); c.nearM(rpyMatrix(a), rpyMatrix(root.rpy), 1e-9, "root/orientation");
    // the pose of the root link
    const int child = bot().links[0].children.empty() ? 0 : [&] { for (int i : bot().links[0].children) if (bot().movable(i)) return i; return 0; }(); T t = bot().fk(coords(s))[child];
    c.nearM(t.translation(), root.position, 1e-11, "root/position"); c.nearM(t.linear(), rpyMatrix(root.rpy), 1e-9, "root/orientation"); VectorXd v = s.asVector(); c.nearM(v, coords(s), 0, "root/vector");
}

VH_FAMILY(states, 150, 3000)
{
    vh::Rng &r = c.rng; standin::urdfOptions().multi_dof = r.i(0, 2); Model m; State def;
    if (r.chance(0.3)) { State s = randomState(c, randomRoot(r), randomJoints(r)); m.loadParameters(urdfFile()); m.updateState(s); kinematics(c, m, coords(s), false); }
    m.loadParameters(urdfFile()); if (r.chance(0.2)) kinematics(c, m, coords(m.getState()), false);
    std::ostringstream sig;
    for (int k = r.i(1, 3); k > 0; --k)
    {
        Root root = randomRoot(r); State s = randomState(c, root, randomJoints(r)); coordinates(c, s, root); c.desc << "q " << coords(s).transpose() << " "; sig << coords(s).transpose();
        if (r.chance(0.3))
        {   // through a file
            mp::Temp f("state.msgpack"); { humoto::config::msgpack::Writer w(f.name); s.writeConfig(w); w.flush(); } State o; humoto::config::msgpack::Reader rd(f.name); o.readConfig(rd, true); c.nearM(o.asVector(), s.asVector(), 0, "state/file"); s = o; c.count("states_through_files");
        }
        m.updateState(s); kinematics(c, m, coords(s), k == 1); coordinates(c, m.getState(), root); m.checkCurrentState();
        ik::MotionParameters ref = randomMotion(r), e; m.getStateError(e, ref); VectorXd q = coords(s);
        c.nearM(e.base_com_position_, ref.base_com_position_ - baseCom(q), 1e-11, "error/base"); c.nearM(e.body_com_position_, ref.body_com_position_ - bodyCom(q), 1e-11, "error/body"); c.nearM(e.base_orientation_rpy_, errorOf(bot().fk(q)[bot().find("base_footprint")].linear(), rpyMatrix(ref.base_orientation_rpy_)), 1e-11, "error/orientation");
    }
    c.signature(sig.str());
    if (PLANAR_ROOT)
    {
        State s; Vector3d bad(r.normal(), r.normal(), r.pick({-1., 1e-3, 2.})); c.mustReject([&] { s.setRootPosition(bad); }, "root/height"); Vector3d a(r.chance(0.5) ? 0.1 : 0, 0, r.normal()); if (a[0] == 0) a[1] = -0.2; c.mustReject([&] { s.setRootOrientation(a); }, "root/tilt");
    }
    // a description with other coordinates
    const int other = FEATURES == 32 ? 8 : 32; c.mustReject([&] { Model x; x.loadParameters(urdfFile(other)); }, "wrong_description"); c.mustReject([&] { Model x; x.loadParameters("missing.urdf"); }, "missing_description"); c.mustReject([&] { m.getLinkTag("nothing"); }, "unknown_tag");
    c.mustReject([&] { ik::RobotCommand cmd; Model x; x.loadParameters(urdfFile()); x.getRobotCommand(cmd, 0.01); }, "command/no_saved_state");
}

VH_FAMILY(limits, 300, 6000)
{
    vh::Rng &r = c.rng; static Model m; Model::Constraints k; State def; static bool loaded = false; if (!loaded) { m.loadParameters(urdfFile()); loaded = true; }
    for (int i = 0; i < 15; ++i)
    {   // limits are those of the description of the robot
        const Link &l = linkOf(i); c.near(k.joint_position_bounds_min_[i], l.lower, 1e-9, "limits/lower"); c.near(k.joint_position_bounds_max_[i], l.upper, 1e-9, "limits/upper"); c.near(k.joint_velocity_bounds_[i], l.velocity, 1e-9, "limits/velocity");
    }
    Model::JointAnglesVector d; Desc::getDefaultJointAngles(d); c.nearM(d, def.joint_angles_, 0, "default/angles"); k.checkJointPositions(d);
    static const double angles[15] = {0, 0.06850114982656237, 0, 0.4160023626190753, -0.1975011835036236, 1.639454123287812, 0.12, -1.2217007, -0.52345699, 0, 1.639454123287804, -0.12, 1.2217007, 0.52345699, 0};   // by the order of jointNames()
    for (int i = 0; i < 15; ++i) c.near(d[indexOf(jointNames()[i])], angles[i], 1e-12, "default/angle_of_" + jointNames()[i]);
    Model::JointAnglesVector q = randomJoints(r); k.checkJointPositions(q); const int j = r.i(0, 14); const Link &l = linkOf(j); const double tol = k.error_tol_; c.near(tol, 1e-7, 1e-12, "limits/tolerance");
    std::ostringstream s; s << q.transpose() << j; c.signature(s.str()); c.desc << "joint " << l.joint << " "; c.count("limits");
    auto with = [&](double v) { Model::JointAnglesVector x = q; x[j] = v; return x; };
    k.checkJointPositions(with(l.lower - 0.9 * tol)); k.checkJointPositions(with(l.upper + 0.9 * tol));
    for (double bad : {l.lower - 1.2 * tol, l.upper + 1.2 * tol, l.lower - r.real(0.001, 5), l.upper + r.real(0.001, 5), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()})
    {
        c.mustReject([&] { k.checkJointPositions(with(bad)); }, "limits/position"); State st = def; st.joint_angles_ = with(bad);
        if (std::isfinite(bad)) { m.updateState(st); c.mustReject([&] { m.checkCurrentState(); }, "limits/state"); c.mustReject([&] { m.checkStateTransition(st, 1); }, "limits/transition"); }
    }
    // velocities
    const double dt = r.pick({0.001, 0.01, 0.1, 0.5}); Model::JointAnglesVector from = q, to = q; for (int i = 0; i < 15; ++i) to[i] += r.real(-0.999, 0.999) * linkOf(i).velocity * dt; k.checkJointVelocities(from, to, dt);
    for (double f : {1.001, -1.001, 3., -20.}) { Model::JointAnglesVector x = to; x[j] = from[j] + f * l.velocity * dt; c.mustReject([&] { k.checkJointVelocities(from, x, dt); }, "limits/velocity"); c.count("fast_joints"); }
    Vector3d w; for (int i = 0; i < 3; ++i) w[i] = r.real(-1, 1) * 6.28319; k.checkWheelVelocities(w);
    for (double bad : {6.2832, -6.2832, 7., -100., std::numeric_limits<double>::quiet_NaN()}) { Vector3d x = w; x[r.i(0, 2)] = bad; c.mustReject([&] { k.checkWheelVelocities(x); }, "limits/wheels"); }
    // transitions between states: the root stays, the joints move within the limits
    Root root = randomRoot(r); State a = randomState(c, root, randomJoints(r)), b = a; for (int i = 0; i < 15; ++i) { double v = r.real(-0.99, 0.99) * linkOf(i).velocity * dt; b.joint_angles_[i] = std::min(linkOf(i).upper, std::max(linkOf(i).lower, b.joint_angles_[i] + v)); }
    m.updateState(b); m.checkStateTransition(a, dt); m.checkStateTransition(a, b, dt); c.count("transitions");
    { State x = b; Root o = root; o.position[r.i(0, PLANAR_ROOT ? 1 : 2)] += r.pick({-1., 1e-3, 0.2}); x.setRootPosition(o.position); c.mustReject([&] { m.checkStateTransition(a, x, dt); }, "transition/root_moved"); m.updateState(x); c.mustReject([&] { m.checkStateTransition(a, dt); }, "transition/root_moved"); }
    { State x = b; Root o = root; o.rpy[PLANAR_ROOT ? 2 : r.i(0, 2)] += r.pick({-0.5, 1e-3, 0.2}); x.setRootOrientation(o.rpy); c.mustReject([&] { m.checkStateTransition(a, x, dt); }, "transition/root_turned"); }
    { State x = b; x.joint_angles_[j] = b.joint_angles_[j] > (l.lower + l.upper) / 2 ? l.lower : l.upper; if (std::fabs(x.joint_angles_[j] - a.joint_angles_[j]) > 1.001 * l.velocity * dt) { c.mustReject([&] { m.checkStateTransition(a, x, dt); }, "transition/too_fast"); c.count("fast_transitions"); } }
}

// rolling without slipping: the wheels of a robot which moves with the given velocity of the base
static Vector3d wheels(const Vector3d &v, const Matrix3d &R)
{
    static const double ang[3] = {1.07519348146676, -1.07519348146676, -M_PI}; static const Vector3d pos[3] = {Vector3d(0.09, 0.155, 0), Vector3d(0.09, -0.155, 0), Vector3d(-0.17, 0, 0)}; Vector3d w, local = R.transpose() * v;
    for (int i = 0; i < 3; ++i) { Vector3d at = Vector3d(local[0], local[1], 0) + Vector3d(0, 0, local[2]).cross(pos[i]); w[i] = at.dot(Vector3d(std::sin(ang[i]), -std::cos(ang[i]), 0)) / 0.07; } return w;
}
VH_FAMILY(commands, 400, 8000)
{
    vh::Rng &r = c.rng; static Model m; static bool loaded = false; if (!loaded || r.chance(0.01)) { m.loadParameters(urdfFile()); loaded = true; }
    Root root = randomRoot(r); root.position *= 0.3; const double dt = r.pick({0.005, 0.01, 0.1, 1.}); State a = randomState(c, root, randomJoints(r)), b = a; const double joint_scale = r.pick({0., 0.95, 0.95}); const double fast = r.pick({0.05, 0.3, 1.5});
    for (int i = 0; i < 15; ++i) b.joint_angles_[i] = std::min(linkOf(i).upper, std::max(linkOf(i).lower, b.joint_angles_[i] + r.real(-1, 1) * joint_scale * linkOf(i).velocity * dt));
    Root to = root; to.position += Vector3d(r.real(-1, 1), r.real(-1, 1), 0) * fast * dt; to.rpy[2] += r.real(-1, 1) * fast * dt * 3; b.setRootPosition(to.position); b.setRootOrientation(to.rpy);
    const bool bad_position = r.chance(0.1), bad_velocity = r.chance(0.1); const int j = r.i(0, 14); if (bad_position) b.joint_angles_[j] = linkOf(j).upper + 0.1; if (bad_velocity) { a.joint_angles_[j] = b.joint_angles_[j] + 1.01 * linkOf(j).velocity * dt * (r.chance(0.5) ? 1 : -1); }
    m.updateState(a); m.saveCurrentState(); const T pa = bot().fk(coords(a))[bot().find("base_footprint")], pb = bot().fk(coords(b))[bot().find("base_footprint")];
    if (r.chance(0.3)) m.updateState(randomState(c, randomRoot(r), randomJoints(r)));   // the saved state is kept
    m.updateState(b); VectorXd step = b.joint_angles_ - a.joint_angles_; bool ok = !bad_position; double margin = 1; for (int i = 0; i < 15; ++i) { double u = std::fabs(step[i]) / dt / linkOf(i).velocity; if (u > 1) ok = false; margin = std::min(margin, std::fabs(u - 1)); }
    Vector3d v = (pb.translation() - pa.translation()) / dt; v[2] = errorOf(pa.linear(), pb.linear())[2] / dt; Vector3d w = wheels(v, pb.linear()); for (int i = 0; i < 3; ++i) { if (std::fabs(w[i]) > 6.28319) ok = false; margin = std::min(margin, std::fabs(std::fabs(w[i]) - 6.28319)); }
    std::ostringstream s; s << coords(a).transpose() << coords(b).transpose() << dt; c.signature(s.str()); c.desc << "from " << coords(a).transpose() << " to " << coords(b).transpose() << " in " << dt << " ";
    if (margin < 1e-6) return;
    ik::RobotCommand cmd; if (!ok) { c.mustReject([&] { m.getRobotCommand(cmd, dt); }, "command/beyond_limits"); c.count("refused_commands"); return; }
    m.getRobotCommand(cmd, dt); c.count("commands"); c.nearM(cmd.joint_angles_, b.joint_angles_, 0, "command/joints"); c.nearM(cmd.base_velocities_, v, 1e-9 / dt, "command/base"); c.nearM(cmd.wheel_velocities_, w, 1e-8 / dt, "command/wheels"); c.near(cmd.time_interval_, dt, 0, "command/time");
    // correction of the state by a part of the command
    const double part = r.pick({0., -0.01, 0.3, 1., 1., 1.7}) * dt; State from = r.chance(0.5) ? a : randomState(c, randomRoot(r), randomJoints(r)); const bool given = r.chance(0.5); if (!given) { m.updateState(from); if (part > 0 || r.chance(0.5)) {} }
    auto run = [&] { if (given) m.correct(from, cmd, part); else m.correct(cmd, part); };
    if (!PLANAR_ROOT && part > 0) { c.mustReject(run, "correction/not_implemented"); m.updateState(a); return; }
    run(); State want = from; if (part > 0) { want.root_pose_[0] += v[0] * part; want.root_pose_[1] += v[1] * part; want.root_pose_[ROOT - 1] += v[2] * part; want.joint_angles_ += (b.joint_angles_ - from.joint_angles_) * (part / dt); c.count("corrections"); }
    c.nearM(m.getState().asVector(), coords(want), 1e-9, "correction/state"); kinematics(c, m, coords(m.getState()), false);
    if (part == dt && coords(from) == coords(a)) { c.nearM(m.getState().joint_angles_, b.joint_angles_, 1e-10, "correction/complete_joints"); c.nearM(m.getBasePosition(), pb.translation(), 1e-9, "correction/complete_base"); c.count("complete_corrections"); }
}

template <int A, int B> static void reorder(vh::Case &c, const std::string &fa, const std::string &fb)
{
    Robot ra = read(fa), rb = read(fb); const int roota = ra.dof - 15, rootb = rb.dof - 15; MatrixXd M = c.rng.gmat(c.rng.i(1, 6), rb.dof), O = M; Desc::template reorderJointsColumns<A, B>(M); c.check(M.cols() == ra.dof && M.rows() == O.rows(), "reorder/size");
    for (auto &n : jointNames()) c.nearM(M.col(ra.links[ra.joint(n)].q), O.col(rb.links[rb.joint(n)].q), 0, "reorder/" + n); c.count("reorderings"); (void)roota; (void)rootb;
}
VH_FAMILY(reordering, 30, 300)
{
    typedef ik::ModelFeatures MF; const int W = MF::FIXED_WHEELS, X = W | MF::ROOT_TORSO, Y = W | MF::ROOT_TIBIA, Z = W | MF::ROOT_PLANAR; std::string x = urdfFile(8), y = urdfFile(16), z = urdfFile(32);
    switch (c.rng.i(0, 5)) { case 0: reorder<X, Y>(c, x, y); break; case 1: reorder<Y, X>(c, y, x); break; case 2: reorder<X, Z>(c, x, z); break; case 3: reorder<Z, X>(c, z, x); break; case 4: reorder<Y, Z>(c, y, z); break; default: reorder<Z, Y>(c, z, y); }
    c.signature(std::to_string(c.index));
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
