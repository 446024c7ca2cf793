/**
 * A small dense dual active set method (Goldfarb, Idnani), used to drive closed loops.
 * min 1/2 x'Hx + g'x,  Ce x = be,  C x >= d
 */
#pragma once
#include <Eigen/Dense>
#include <vector>
namespace refqp
{
    using Eigen::MatrixXd; using Eigen::VectorXd;
    inline bool solve(const MatrixXd &H, const VectorXd &g, const MatrixXd &Ce, const VectorXd &be, const MatrixXd &C0, const VectorXd &d0, VectorXd &x, int *iterations = nullptr, std::vector<int> *active = nullptr)
    {
        const int n = H.rows(); MatrixXd Hi = H.llt().solve(MatrixXd::Identity(n, n)); x = -Hi * g;
        std::vector<int> act; std::vector<double> u; MatrixXd N(n, 0); int ne = Ce.rows(), it = 0;   // act: -1 for equalities
        auto dirs = [&](const VectorXd &p, VectorXd &z, VectorXd &r)
        {
            if (N.cols() == 0) { z = Hi * p; r.resize(0); return; }
            MatrixXd HN = Hi * N, G = N.transpose() * HN; r = G.ldlt().solve(HN.transpose() * p); z = Hi * p - HN * r;
        };
        auto add = [&](const VectorXd &p, int id, double mu) { N.conservativeResize(n, N.cols() + 1); N.col(N.cols() - 1) = p; act.push_back(id); u.push_back(mu); };
        auto drop = [&](int k) { for (int c = k; c + 1 < N.cols(); ++c) N.col(c) = N.col(c + 1).eval(); N.conservativeResize(n, N.cols() - 1); act.erase(act.begin() + k); u.erase(u.begin() + k); };
        for (int e = 0; e < ne; ++e)
        {
            VectorXd p = Ce.row(e).transpose(), z, r; dirs(p, z, r); double zp = z.dot(p); if (zp < 1e-11 * p.dot(Hi * p)) { if (std::fabs(be(e) - p.dot(x)) < 1e-8 * (1 + std::fabs(be(e)))) continue; return false; }   // dependent, and consistent or not
            double t = (be(e) - p.dot(x)) / zp; x += t * z; for (std::size_t k = 0; k < u.size(); ++k) u[k] -= t * r(k); add(p, -1, t);
        }
        MatrixXd C = C0; VectorXd d = d0; std::vector<bool> skip(C.rows(), false);      // rows of unit length
        for (int k = 0; k < C.rows(); ++k) { double l = C.row(k).norm(); if (l < 1e-12) { if (d(k) > 1e-9) return false; skip[k] = true; } else { C.row(k) /= l; d(k) /= l; } }
        for (it = 0; it < 600; ++it)
        {
            int worst = -1; double v = -1e-9; for (int k = 0; k < C.rows(); ++k) { double s = C.row(k).dot(x) - d(k); if (s < v) { bool a = skip[k]; for (int q : act) a = a || q == k; if (!a) { v = s; worst = k; } } }
            if (iterations) *iterations = it; if (worst < 0) { if (active) { active->clear(); for (int q : act) if (q >= 0) active->push_back(q); } return true; }
            VectorXd p = C.row(worst).transpose(); double up = 0;
            for (int in = 0; in < 600; ++in)
            {
                VectorXd z, r; dirs(p, z, r); double zp = z.dot(p), t1 = 1e300, t2 = 1e300; int l = -1;
                for (std::size_t k = 0; k < act.size(); ++k) if (act[k] >= 0 && r(k) > 1e-12 && u[k] / r(k) < t1) { t1 = u[k] / r(k); l = k; }
                double s = p.dot(x) - d(worst); if (zp > 1e-12) t2 = -s / zp; double t = std::min(t1, t2); if (t > 1e299) { if (s > -1e-7) { skip[worst] = true; break; } return false; }   // violated by rounding only
                if (t2 < 1e299) x += t * z; for (std::size_t k = 0; k < u.size(); ++k) u[k] -= t * r(k); up += t;
                if (t == t2) { add(p, worst, up); break; } drop(l);
            }
        }
        return false;
    }
}
