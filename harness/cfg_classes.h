/** The configurable classes of the project and what their public fields mean. */
#pragma once
namespace cfg
{
    using mp::Tree;
    class Obstacle : public humoto::obstacle_avoidance::ObstacleBase
    {
      public:
        Obstacle() {}
        template <class R> explicit Obstacle(R &r, const std::string &n) { this->readConfig(r, n); }
        template <class R> explicit Obstacle(R &r) { this->readConfig(r); }
        void updateConstraints(const humoto::ControlProblem &, const humoto::Solution &, const double) {}
        void resetConstraints(const humoto::ControlProblem &) {}
    };
    /// every kind of entry, nested twice, with a parent
    class Inner : public humoto::config::ConfigurableBase
    {
#define HUMOTO_CONFIG_SECTION_ID "Inner"
#define HUMOTO_CONFIG_CONSTRUCTOR Inner
#define HUMOTO_CONFIG_ENTRIES \
        HUMOTO_CONFIG_SCALAR_(value) \
        HUMOTO_CONFIG_COMPOUND_(matrix)
#include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        double value_; Eigen::Matrix<double, 2, 3> matrix_;
        Inner() { setDefaults(); }
        void setDefaults() { value_ = 11.5; matrix_ << 1.5, 2.5, 3.5, 4.5, 5.5, 6.5; }
    };
    class Parent : public humoto::config::RelaxedConfigurableBase
    {
#define HUMOTO_CONFIG_SECTION_ID "Parent"
#define HUMOTO_CONFIG_CONSTRUCTOR Parent
#define HUMOTO_CONFIG_ENTRIES \
        HUMOTO_CONFIG_SCALAR_(real) \
        HUMOTO_CONFIG_SCALAR(flag) \
        HUMOTO_CONFIG_COMPOUND(list)
#include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        double real_; bool flag; std::vector<double> list; int finalized_;
        Parent() { finalized_ = 0; setDefaults(); }
        void setDefaults() { real_ = -2.5; flag = true; list.assign(3, 0.5); }
        void finalize() { ++finalized_; }
    };
    class Outer : public Parent
    {
#define HUMOTO_CONFIG_SECTION_ID "Outer"
#define HUMOTO_CONFIG_CONSTRUCTOR Outer
#define HUMOTO_CONFIG_ENTRIES \
        HUMOTO_CONFIG_PARENT_CLASS(Parent) \
        HUMOTO_CONFIG_MEMBER_CLASS(left_, "left") \
        HUMOTO_CONFIG_MEMBER_CLASS(right_, "right") \
        HUMOTO_CONFIG_COMPOUND_(vector) \
        HUMOTO_CONFIG_COMPOUND_(square) \
        HUMOTO_CONFIG_SCALAR_(text) \
        HUMOTO_CONFIG_ENUM(first_stance) \
        HUMOTO_CONFIG_SCALAR_(duration_ms)
#include HUMOTO_CONFIG_DEFINE_ACCESSORS
      public:
        Inner left_, right_; Eigen::VectorXd vector_; Eigen::MatrixXd square_; std::string text_; humoto::walking::StanceType::Type first_stance; std::ptrdiff_t duration_ms_;
        Outer() { setDefaults(); }
        void setDefaults() { Parent::setDefaults(); left_.setDefaults(); right_.setDefaults(); vector_.setConstant(4, 0.25); square_.setConstant(3, 2, 0.75); text_ = "text"; first_stance = humoto::walking::StanceType::TDS; duration_ms_ = 5; }
    };

#define CFG_CLASSES(X) X(0, humoto::rigidbody::PointMassState) X(1, humoto::rigidbody::RotaryState) X(2, humoto::rigidbody::RigidBodyState) X(3, humoto::rigidbody::RigidBodyPose) \
    X(4, humoto::walking::StanceFSMParameters) X(5, humoto::walking::RobotFootParameters) X(6, humoto::wpg04::WalkParameters) X(7, humoto::wpg04::MPCParameters) X(8, humoto::wpg04::ModelState) \
    X(9, humoto::pepper_mpc::RobotParameters) X(10, humoto::pepper_mpc::MotionParameters) X(11, humoto::pepper_mpc::MPCParameters) X(12, humoto::pepper_mpc::ModelState) X(13, humoto::kktsolver::SolverParameters) \
    X(14, cfg::Obstacle) X(15, cfg::Outer) X(16, cfg::Inner) X(17, cfg::Parent) X(18, humoto::Solution)
    const int COUNT = 19;

    template <class T> std::string sectionOf();
#define S(T, n) template <> inline std::string sectionOf<T>() { return n; }
    S(humoto::rigidbody::PointMassState, "PointMassState") S(humoto::rigidbody::RotaryState, "RotaryState") S(humoto::rigidbody::RigidBodyState, "RigidBodyState") S(humoto::rigidbody::RigidBodyPose, "RigidBodyPose")
    S(humoto::walking::StanceFSMParameters, "StanceFSMParameters") S(humoto::walking::RobotFootParameters, "RobotFootParameters") S(humoto::wpg04::WalkParameters, "WalkParameters") S(humoto::wpg04::MPCParameters, "MPCParameters") S(humoto::wpg04::ModelState, "ModelState")
    S(humoto::pepper_mpc::RobotParameters, "RobotParameters") S(humoto::pepper_mpc::MotionParameters, "MotionParameters") S(humoto::pepper_mpc::MPCParameters, "MPCParameters") S(humoto::pepper_mpc::ModelState, "ModelState") S(humoto::kktsolver::SolverParameters, "SolverParameters")
    S(Obstacle, "ObstacleBase") S(Outer, "Outer") S(Inner, "Inner") S(Parent, "Parent") S(humoto::Solution, "Solution")
#undef S

    inline bool same(double a, const Tree &t) { return t.numeric() && mp::equal(a, t.num()); }
    template <class V> bool vec(const V &a, const Tree &t) { if (t.kind != Tree::ARRAY || static_cast<std::size_t>(a.size()) != t.items.size()) return false; for (std::size_t i = 0; i < t.items.size(); ++i) if (!same(a[i], t.items[i])) return false; return true; }
    template <class M> bool mat(const M &a, const Tree &t) { if (!t.matrix() || t.at("rows").num() != a.rows() || t.at("cols").num() != a.cols()) return false; auto &d = t.at("data").items; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!same(a(i, j), d[i * a.cols() + j])) return false; return true; }
#define FV(f) vec(a.f##_, t.at(#f))
#define FN(f) same(static_cast<double>(a.f##_), t.at(#f))
    inline bool fields(const humoto::rigidbody::PointMassState &a, const Tree &t) { return FV(position) && FV(velocity) && FV(acceleration); }
    inline bool fields(const humoto::rigidbody::RotaryState &a, const Tree &t) { return FV(rpy) && FV(angular_velocity) && FV(angular_acceleration); }
    inline bool fields(const humoto::rigidbody::RigidBodyState &a, const Tree &t) { return fields(static_cast<const humoto::rigidbody::PointMassState &>(a), t) && fields(static_cast<const humoto::rigidbody::RotaryState &>(a), t); }
    inline bool fields(const humoto::rigidbody::RigidBodyPose &a, const Tree &t) { return FV(position) && FV(rpy); }
    inline bool fields(const humoto::walking::StanceFSMParameters &a, const Tree &t) { return FN(ss_duration_ms) && FN(tds_duration_ms) && FN(first_stance_duration_ms) && FN(last_stance_duration_ms) && FN(num_steps) && FN(first_stance) && FN(first_ss_type) && FN(last_stance); }
    inline bool closeTo(double a, double b) { return a == b || (a != a && b != b) || (a - a != a - a && b - b != b - b) || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
    inline bool fields(const humoto::walking::RobotFootParameters &a, const Tree &t)
    {
        auto v = [&](const char *n) { return t.at(n).num(); };
        auto is = [](const Eigen::MatrixXd &m, double p, double q, double x, double y) { return closeTo(m(0, 0), p) && closeTo(m(0, 1), q) && closeTo(m(1, 0), x) && closeTo(m(1, 1), y); };
        double l = v("foot_length") / 2, w = v("foot_width") / 2, W = (v("foot_width") + v("feet_dist_default")) / 2, f = v("feet_dist_default") / 2, s = v("max_step_len"), n = v("min_feet_dist"), x = v("max_feet_dist");
        typedef humoto::walking::FootBoundsType B; const auto L = humoto::LeftOrRight::LEFT, R = humoto::LeftOrRight::RIGHT; etools::Matrix2 I = etools::Matrix2::Identity(); etools::Vector2 z = etools::Vector2::Zero();
        return is(a.getSSCoPBounds(), -l, l, -w, w) && is(a.getADSCoPBounds(), -l, l, -W, W) && is(a.getFootBounds(L, B::WITH_RESPECT_TO_SS), -s, s, n, x) && is(a.getFootBounds(R, B::WITH_RESPECT_TO_SS), -s, s, -x, -n)
            && (f - f != 0 || (closeTo(a.getFootPositionFromADS(L, I, z)(1), f) && closeTo(a.getFootPositionFromADS(R, I, z)(1), -f) && closeTo(a.getADSPositionFromFoot(L, I, z)(1), -f) && closeTo(a.getADSPositionFromFoot(R, I, z)(1), f)));
    }
    inline bool fields(const humoto::wpg04::WalkParameters &a, const Tree &t) { return FV(com_velocity) && FV(first_stance_com_velocity) && FV(last_stance_com_velocity) && FN(step_height) && FN(theta_increment) && fields(static_cast<const humoto::walking::StanceFSMParameters &>(a), t); }
    inline bool fields(const humoto::wpg04::MPCParameters &a, const Tree &t) { return FN(preview_horizon_length) && FN(sampling_time_ms) && FN(subsampling_time_ms) && FN(tds_sampling_time_ms) && closeTo(a.getSubsamplingTime(), t.at("subsampling_time_ms").num() / 1000.); }
    inline bool fields(const humoto::wpg04::ModelState &a, const Tree &t) { return FN(stance_type) && FN(next_stance_type) && fields(a.com_state_, t.at("com_state")) && fields(a.feet_.getLeft(), t.at("left_foot_state")) && fields(a.feet_.getRight(), t.at("right_foot_state")); }
    inline bool square(const Eigen::MatrixXd &m, double radius) { double s = radius / std::sqrt(2.); return closeTo(m(0, 0), -s) && closeTo(m(0, 1), s) && closeTo(m(1, 0), -s) && closeTo(m(1, 1), s); }
    inline bool fields(const humoto::pepper_mpc::RobotParameters &a, const Tree &t)
    {
        return FN(base_radius) && FN(max_nominal_base_velocity) && FN(max_nominal_base_acceleration) && FN(max_base_velocity) && FN(max_base_acceleration) && mat(a.body_bounds_, t.at("body_bounds")) && mat(a.getBodyBounds(), t.at("body_bounds"))
            && square(a.getCoPBounds(), t.at("base_radius").num()) && square(a.getNominalBaseVelocityBounds(), t.at("max_nominal_base_velocity").num()) && square(a.getNominalBaseAccelerationBounds(), t.at("max_nominal_base_acceleration").num());
    }
    inline bool fields(const humoto::pepper_mpc::MotionParameters &a, const Tree &t) { return FV(base_velocity) && FV(base_position) && FN(base_angular_velocity) && FN(motion_mode) && FN(duration_ms); }
    inline bool fields(const humoto::pepper_mpc::MPCParameters &a, const Tree &t) { return FN(preview_horizon_length) && FN(sampling_time_ms) && FN(subsampling_time_ms) && closeTo(a.getSubsamplingTime(), t.at("subsampling_time_ms").num() / 1000.) && closeTo(a.getSamplingTime(), t.at("sampling_time_ms").num() / 1000.); }
    inline bool fields(const humoto::pepper_mpc::ModelState &a, const Tree &t) { return FN(base_mass) && FN(body_mass) && fields(a.base_state_, t.at("base_state")) && fields(a.body_state_, t.at("body_state")); }
    inline bool fields(const humoto::kktsolver::SolverParameters &a, const Tree &t) { return a.crash_on_any_failure_ == t.at("crash_on_any_failure").b && a.solve_two_levels_as_qp_ == t.at("solve_two_levels_as_qp").b; }
    inline bool fields(const Inner &a, const Tree &t) { return FN(value) && mat(a.matrix_, t.at("matrix")); }
    inline bool fields(const Parent &a, const Tree &t) { return FN(real) && a.flag == t.at("flag").b && vec(a.list, t.at("list")) && a.finalized_ > 0; }
    inline bool fields(const Outer &a, const Tree &t) { return fields(static_cast<const Parent &>(a), t) && fields(a.left_, t.at("left")) && fields(a.right_, t.at("right")) && FV(vector) && mat(a.square_, t.at("square")) && a.text_ == t.at("text").s && same(a.first_stance, t.at("first_stance")) && FN(duration_ms); }
    inline bool fields(const humoto::Solution &a, const Tree &t) { return FV(x); }
#undef FV
#undef FN

    /// all the ways to read an object
    template <class T> void read(vh::Rng &r, T &a, const std::string &file, const std::string &node, bool own, int strictness = -1)
    {
        typedef fmt::Reader Reader; Reader q(file); int w = r.i(0, 5); bool s = strictness != 0;
        if (own && w < 3 && strictness < 0) { if (w == 0) a.readConfig(q); else if (w == 1) a.template readConfig<Reader>(file); else a.readConfig(q, s); }
        else if (w == 3) a.readConfig(q, node, s); else if (w == 4) a.template readConfig<Reader>(file, node, s); else if (w == 5) a.readConfig(q, node.c_str(), s); else a.readNestedConfig(q, node, s);
    }

    class Problem : public humoto::ConfigurableOptimizationProblem
    {
      protected:
        humoto::TaskSharedPointer getTask(const std::string &n) const
        {
            using namespace humoto::wpg04;
            if (n == "TaskFootstepBounds") return humoto::TaskSharedPointer(new TaskFootstepBounds);
            if (n == "TaskCoMVelocity") return humoto::TaskSharedPointer(new TaskCoMVelocity);
            if (n == "TaskCoPBounds") return humoto::TaskSharedPointer(new TaskCoPBounds);
            if (n == "TaskTerminalConstraint") return humoto::TaskSharedPointer(new TaskTerminalConstraint);
            if (n == "TaskCoPVelocity") return humoto::TaskSharedPointer(new TaskCoPVelocity);
            if (n == "TaskCoPPosition") return humoto::TaskSharedPointer(new TaskCoPPosition);
            return humoto::ConfigurableOptimizationProblem::getTask(n);
        }
      public:
        using humoto::ConfigurableOptimizationProblem::pushTask;
        static const std::vector<std::string> &classes() { static std::vector<std::string> v = {"TaskFootstepBounds", "TaskCoMVelocity", "TaskCoPBounds", "TaskTerminalConstraint", "TaskCoPVelocity", "TaskCoPPosition", "TaskZeroVariables", "TaskZeroSelectedVariables", "TaskInfeasibleInequality"}; return v; }
        humoto::TaskSharedPointer make(const std::string &n) const { return getTask(n); }
        std::vector<humoto::TaskSharedPointer> tasksOf(std::size_t l) const { std::vector<humoto::TaskSharedPointer> v; for (auto &t : this->hierarchy_[l].tasks_) v.push_back(t.ptr_); return v; }
        static std::string classOf(const humoto::TaskBase &t)
        {
            std::string s = typeid(t).name(); std::string best; for (auto &c : classes()) if (s.find(c) != std::string::npos && c.size() > best.size()) best = c; return best;
        }
    };
}
