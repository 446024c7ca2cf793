/**
 * What a stand-in of a QP solver library was given, and what it was told to answer.
 * The stand-ins solve strictly convex problems with refqp and keep a deep copy of everything they get.
 */
#pragma once
#include "refqp.h"
#include <limits>
namespace standin
{
    using Eigen::MatrixXd; using Eigen::VectorXd;
    struct Record
    {
        int calls = 0, created = 0, destroyed = 0;
        MatrixXd H, A, CE, CI; VectorXd g, lb, ub, lbA, ubA, ce0, ci0, guess; bool has_guess = false, has_time = false, has_bounds_guess = false, has_constraints_guess = false, bounds_given = false;
        double time = 0; int limit = 0; std::vector<int> bounds_guess, constraints_guess; double tolerance = 0; int hessian_type = -1, max_iter = 0;
        VectorXd wb, wc;                                  // working set
        // what to do
        int force_status = -1, force_iterations = -1; bool force_working_set = false; double force_return = 0; bool force_x = false; VectorXd fx, fwb, fwc;
    };
    inline Record &rec() { static Record r; return r; }
    // lb <= x <= ub, lbA <= A x <= ubA
    inline bool solveTwoSided(const MatrixXd &H, const VectorXd &g, const MatrixXd &A, const VectorXd &lbA, const VectorXd &ubA, const VectorXd &lb, const VectorXd &ub, VectorXd &x, VectorXd &wb, VectorXd &wc, int *it)
    {
        const int n = H.rows(), m = A.rows(); const double big = 1e18; struct R { VectorXd a; double v; int row, side; }; std::vector<R> e, q; wb = VectorXd::Zero(n); wc = VectorXd::Zero(m);
        auto row = [&](const VectorXd &a, double l, double u, int id) -> bool
        {
            if (l > u) return false;
            if (l == u) { e.push_back({a, l, id, -1}); return true; }
            if (l > -big) q.push_back({a, l, id, -1}); if (u < big) q.push_back({-a, -u, id, 1}); return true;
        };
        for (int i = 0; i < m; ++i) if (!row(A.row(i).transpose(), lbA[i], ubA[i], n + i)) return false;
        if (lb.size()) for (int i = 0; i < n; ++i) if (!row(VectorXd::Unit(n, i), lb[i], ub[i], i)) return false;
        MatrixXd Ce(e.size(), n), C(q.size(), n); VectorXd be(e.size()), d(q.size());
        for (std::size_t i = 0; i < e.size(); ++i) { Ce.row(i) = e[i].a.transpose(); be[i] = e[i].v; (e[i].row < n ? wb[e[i].row] : wc[e[i].row - n]) = -1; }
        for (std::size_t i = 0; i < q.size(); ++i) { C.row(i) = q[i].a.transpose(); d[i] = q[i].v; }
        std::vector<int> act; if (!refqp::solve(H, g, Ce, be, C, d, x, it, &act)) return false;
        for (int k : act) (q[k].row < n ? wb[q[k].row] : wc[q[k].row - n]) = q[k].side;
        return true;
    }
}
