/**
 * Stand-in for the qpOASES library (not in this sandbox): the part of its
 * interface which the bridge uses, with the meaning given in its manual.
 */
#pragma once
#include "solver_record.h"
#include <cstdio>
#include <string>
#include <vector>
namespace qpOASES
{
    typedef double real_t;
    enum returnValue { TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO, RET_INVALID_ARGUMENTS = 3, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37, RET_MAX_NWSR_REACHED = 64, RET_QP_UNBOUNDED = 61, RET_QP_INFEASIBLE = 62 };
    enum BooleanType { BT_FALSE, BT_TRUE };
    enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED };
    enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
    class MessageHandling { public: static const char *getErrorCodeMessage(const returnValue v) { static thread_local char b[40]; std::snprintf(b, sizeof b, "stand-in message %d", static_cast<int>(v)); return b; } };
    class Options
    {
      public:
        BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests; int enableDriftCorrection, enableCholeskyRefactorisation; BooleanType enableEqualities;
        real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump, initialRamping, finalRamping, initialFarBounds, growFarBounds; SubjectToStatus initialStatusBounds;
        real_t epsFlipping; int numRegularisationSteps; real_t epsRegularisation; int numRefinementSteps; real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin; BooleanType enableInertiaCorrection, enableDropInfeasibles; int dropBoundPriority, dropEqConPriority, dropIneqConPriority;
        Options() { setToDefault(); }
        returnValue setToDefault()
        {
            enableRamping = BT_TRUE; enableFarBounds = BT_TRUE; enableFlippingBounds = BT_TRUE; enableRegularisation = BT_FALSE; enableFullLITests = BT_FALSE; enableNZCTests = BT_TRUE; enableDriftCorrection = 1; enableCholeskyRefactorisation = 0; enableEqualities = BT_FALSE;
            terminationTolerance = 5e6 * 2.221e-16; boundTolerance = 1e6 * 2.221e-16; boundRelaxation = 1e4; epsNum = -1e3 * 2.221e-16; epsDen = 1e3 * 2.221e-16; maxPrimalJump = 1e8; maxDualJump = 1e8; initialRamping = 0.5; finalRamping = 1; initialFarBounds = 1e6; growFarBounds = 1e3; initialStatusBounds = ST_LOWER;
            epsFlipping = 1e3 * 2.221e-16; numRegularisationSteps = 0; epsRegularisation = 1e3 * 2.221e-16; numRefinementSteps = 1; epsIterRef = 1e2 * 2.221e-16; epsLITests = 1e5 * 2.221e-16; epsNZCTests = 3e3 * 2.221e-16; rcondSMin = 1e-14; enableInertiaCorrection = BT_TRUE; enableDropInfeasibles = BT_FALSE; dropBoundPriority = 1; dropEqConPriority = 1; dropIneqConPriority = 1;
            return SUCCESSFUL_RETURN;
        }
        returnValue setToMPC()
        {
            setToDefault(); enableRamping = BT_FALSE; enableFarBounds = BT_TRUE; enableFlippingBounds = BT_FALSE; enableRegularisation = BT_TRUE; enableNZCTests = BT_FALSE; enableDriftCorrection = 0; enableEqualities = BT_TRUE; terminationTolerance = 1e9 * 2.221e-16; initialStatusBounds = ST_INACTIVE; numRegularisationSteps = 1; numRefinementSteps = 0;
            return SUCCESSFUL_RETURN;
        }
    };
    class SubjectTo
    {
      public:
        std::vector<int> status;
        returnValue init(int n) { status.assign(n, ST_UNDEFINED); return n < 0 ? RET_INVALID_ARGUMENTS : SUCCESSFUL_RETURN; }
      protected:
        returnValue put(int i, SubjectToStatus s) { if (i < 0 || i >= static_cast<int>(status.size()) || status[i] == s) return RET_INVALID_ARGUMENTS; status[i] = s; return SUCCESSFUL_RETURN; }
    };
    class Bounds : public SubjectTo
    {
      public:
        returnValue setupBound(int i, SubjectToStatus s) { return put(i, s); }
        returnValue setupAllFree() { for (auto &s : status) s = ST_INACTIVE; return SUCCESSFUL_RETURN; }
        returnValue setupAllLower() { for (auto &s : status) s = ST_LOWER; return SUCCESSFUL_RETURN; }
        returnValue setupAllUpper() { for (auto &s : status) s = ST_UPPER; return SUCCESSFUL_RETURN; }
    };
    class Constraints : public SubjectTo
    {
      public:
        returnValue setupConstraint(int i, SubjectToStatus s) { return put(i, s); }
        returnValue setupAllInactive() { for (auto &s : status) s = ST_INACTIVE; return SUCCESSFUL_RETURN; }
    };
    inline Options &lastOptions() { static Options o; return o; }
    class QProblem
    {
        int n_, m_; Eigen::VectorXd x_, wb_, wc_; Options options_;
        QProblem(const QProblem &); QProblem &operator=(const QProblem &);
      public:
        QProblem(int n, int m, HessianType t = HST_UNKNOWN) : n_(n), m_(m), x_(Eigen::VectorXd::Zero(n)), wb_(Eigen::VectorXd::Zero(n)), wc_(Eigen::VectorXd::Zero(m)) { auto &r = standin::rec(); ++r.created; r.hessian_type = t; }
        ~QProblem() { ++standin::rec().destroyed; }
        returnValue setOptions(const Options &o) { options_ = o; return SUCCESSFUL_RETURN; }
        returnValue init(const real_t *H, const real_t *g, const real_t *A, const real_t *lb, const real_t *ub, const real_t *lbA, const real_t *ubA, int &nWSR, real_t *const cputime = 0, const real_t *const xOpt = 0, const real_t *const yOpt = 0,
                         const Bounds *const gb = 0, const Constraints *const gc = 0, const real_t *const = 0)
        {
            using namespace Eigen; typedef Matrix<double, Dynamic, Dynamic, RowMajor> RM; auto &r = standin::rec(); ++r.calls; lastOptions() = options_; r.limit = nWSR;
            if (!H || !g || (m_ > 0 && !A) || yOpt) return RET_INVALID_ARGUMENTS;
            r.H = Map<const RM>(H, n_, n_); r.g = Map<const VectorXd>(g, n_); r.A = MatrixXd(0, n_); r.lbA = r.ubA = VectorXd(0);
            if (m_ > 0) { r.A = Map<const RM>(A, m_, n_); r.lbA = lbA ? VectorXd(Map<const VectorXd>(lbA, m_)) : VectorXd::Constant(m_, -1e20); r.ubA = ubA ? VectorXd(Map<const VectorXd>(ubA, m_)) : VectorXd::Constant(m_, 1e20); }
            r.bounds_given = lb || ub; r.lb = lb ? VectorXd(Map<const VectorXd>(lb, n_)) : VectorXd::Constant(n_, -1e20); r.ub = ub ? VectorXd(Map<const VectorXd>(ub, n_)) : VectorXd::Constant(n_, 1e20);
            r.has_guess = xOpt; r.guess = xOpt ? VectorXd(Map<const VectorXd>(xOpt, n_)) : VectorXd(); r.has_time = cputime; r.time = cputime ? *cputime : 0;
            r.has_bounds_guess = gb; r.has_constraints_guess = gc; r.bounds_guess = gb ? gb->status : std::vector<int>(); r.constraints_guess = gc ? gc->status : std::vector<int>();
            // a guessed working set must cover all bounds and constraints
            if (gb) { if (static_cast<int>(gb->status.size()) != n_) return RET_INVALID_ARGUMENTS; for (int s : gb->status) if (s == ST_UNDEFINED) return RET_INVALID_ARGUMENTS; }
            if (gc) { if (static_cast<int>(gc->status.size()) != m_) return RET_INVALID_ARGUMENTS; for (int s : gc->status) if (s == ST_UNDEFINED) return RET_INVALID_ARGUMENTS; }
            int it = 0; bool ok = r.force_x ? (x_ = r.fx, true) : standin::solveTwoSided(r.H, r.g, r.A, r.lbA, r.ubA, r.lb, r.ub, x_, wb_, wc_, &it);
            if (r.force_working_set) { wb_ = r.fwb; wc_ = r.fwc; }
            r.wb = wb_; r.wc = wc_; if (cputime) *cputime = 1e-5;
            if (!ok) return RET_INIT_FAILED_INFEASIBILITY;
            if (r.force_iterations >= 0) it = r.force_iterations;
            if (it > nWSR) return RET_MAX_NWSR_REACHED;
            nWSR = it; return r.force_status >= 0 ? static_cast<returnValue>(r.force_status) : SUCCESSFUL_RETURN;
        }
        returnValue getPrimalSolution(real_t *const x) const { for (int i = 0; i < n_; ++i) x[i] = x_[i]; return SUCCESSFUL_RETURN; }
        returnValue getWorkingSetBounds(real_t *w) { for (int i = 0; i < n_; ++i) w[i] = wb_[i]; return SUCCESSFUL_RETURN; }
        returnValue getWorkingSetConstraints(real_t *w) { for (int i = 0; i < m_; ++i) w[i] = wc_[i]; return SUCCESSFUL_RETURN; }
    };
}
