/** Stand-in for the qpmad library (not in this sandbox): the part of its interface which the bridge uses. */
#pragma once
#include "solver_record.h"
namespace qpmad
{
    class SolverParameters
    {
      public:
        enum HessianType { HESSIAN_UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2, HESSIAN_INVERTED_CHOLESKY_FACTOR = 3 } hessian_type_;
        double tolerance_; int max_iter_; bool return_inverted_cholesky_factor_;
        SolverParameters() : hessian_type_(HESSIAN_LOWER_TRIANGULAR), tolerance_(1e-12), max_iter_(-1), return_inverted_cholesky_factor_(false) {}
    };
    class Solver
    {
      public:
        enum ReturnStatus { OK = 0, INFEASIBLE_EQUALITY = 1, INFEASIBLE_INEQUALITY = 2, MAXIMAL_NUMBER_OF_ITERATIONS = 3 };
      private:
        ReturnStatus run(Eigen::VectorXd &x, Eigen::MatrixXd &H, const Eigen::VectorXd &g, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub, const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub, const SolverParameters &p)
        {
            auto &r = standin::rec(); ++r.calls; const int n = H.rows(); r.tolerance = p.tolerance_; r.max_iter = p.max_iter_; r.hessian_type = p.hessian_type_;
            r.H = H.triangularView<Eigen::Lower>(); r.H = Eigen::MatrixXd(r.H.selfadjointView<Eigen::Lower>());
            r.g = g; r.A = A; r.lb = lb; r.ub = ub; r.lbA = Alb; r.ubA = Aub; x.setZero(n);
            int it = 0; Eigen::VectorXd wb, wc; bool ok = r.force_x ? (x = r.fx, true) : standin::solveTwoSided(r.H, r.g, r.A, r.lbA, r.ubA, r.lb, r.ub, x, wb, wc, &it);
            H.setConstant(-1e30);      // the factorization is made in place
            if (!ok) return INFEASIBLE_INEQUALITY;
            if (r.force_iterations >= 0) it = r.force_iterations;
            if (p.max_iter_ >= 0 && it > p.max_iter_) return MAXIMAL_NUMBER_OF_ITERATIONS;
            return r.force_status >= 0 ? static_cast<ReturnStatus>(r.force_status) : OK;
        }
      public:
        ReturnStatus solve(Eigen::VectorXd &x, Eigen::MatrixXd &H, const Eigen::VectorXd &g, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub, const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub)
        { return run(x, H, g, lb, ub, A, Alb, Aub, SolverParameters()); }
        ReturnStatus solve(Eigen::VectorXd &x, Eigen::MatrixXd &H, const Eigen::VectorXd &g, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub, const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub, const SolverParameters &p)
        { return run(x, H, g, lb, ub, A, Alb, Aub, p); }
    };
}
