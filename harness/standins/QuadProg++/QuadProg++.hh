/** Stand-in for the QuadProg++ library (not in this sandbox): the part of its interface which the bridge uses.
 *  min 1/2 x'Gx + g0'x   s.t.  CE' x + ce0 = 0,  CI' x + ci0 >= 0;  returns the value, infinity on failure. */
#pragma once
#include "solver_record.h"
namespace QuadProgpp
{
    namespace Status { enum Status { OK = 0, FAILURE = 1 }; }
    class Solver
    {
      public:
        Status::Status solve(Eigen::MatrixXd &G, const Eigen::VectorXd &g0, const Eigen::MatrixXd &CE, const Eigen::VectorXd &ce0, const Eigen::MatrixXd &CI, const Eigen::VectorXd &ci0, Eigen::VectorXd &x)
        {
            auto &r = standin::rec(); ++r.calls; r.H = G; r.g = g0; r.CE = CE; r.ce0 = ce0; r.CI = CI; r.ci0 = ci0;
            bool ok = r.force_x ? (x = r.fx, true) : refqp::solve(G, g0, CE.transpose(), -ce0, CI.transpose(), -ci0, x);
            G.setConstant(-1e30);      // the factorization is made in place
            return !ok || r.force_status > 0 ? Status::FAILURE : Status::OK;
        }
    };
}
