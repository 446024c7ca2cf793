/**
 * Condensed preview matrices against a step by step simulation.
 */
#include "vh.h"
#include "humoto/humoto.h"
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct M : public humoto::MPC
{
    using humoto::MPC::condense;
    using humoto::MPC::condenseOutput;
    using humoto::MPC::condenseTimeInvariant;
    void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
};

struct Sys
{
    int N, nx, nu, ny;
    std::vector<MatrixXd> A, B, D, E;
    VectorXd x0;
    std::vector<VectorXd> u;
    VectorXd X, Y;        // stacked: states after each step; outputs before each step
    double scale = 1;
    void make(vh::Rng &r, int N_, int nx_, int nu_, int ny_, bool invariant)
    {
        N = N_; nx = nx_; nu = nu_; ny = ny_; A.clear(); B.clear(); D.clear(); E.clear(); u.clear();
        double s = r.pick({0.3, 0.7, 1.0});
        for (int i = 0; i < N; ++i)
        {
            if (i && invariant) { A.push_back(A[0]); B.push_back(B[0]); D.push_back(D[0]); E.push_back(E[0]); }
            else
            {
                A.push_back(r.mat(nx, nx, s)); B.push_back(r.mat(nx, nu)); D.push_back(r.mat(ny, nx)); E.push_back(r.mat(ny, nu));
                if (r.chance(0.1)) A.back().setZero();
                if (r.chance(0.1)) A.back().setIdentity();
            }
            u.push_back(r.gvec(nu));
        }
        x0 = r.gvec(nx); X = VectorXd(N * nx); Y = VectorXd(N * ny);
        VectorXd x = x0;
        // scale: sum of absolute values along the way bounds the rounding errors
        VectorXd ax = x0.cwiseAbs(); scale = std::max(1., ax.maxCoeff());
        for (int i = 0; i < N; ++i)
        {
            Y.segment(i * ny, ny) = D[i] * x + E[i] * u[i];
            scale = std::max(scale, (D[i].cwiseAbs() * ax + E[i].cwiseAbs() * u[i].cwiseAbs()).maxCoeff());
            x = A[i] * x + B[i] * u[i]; ax = A[i].cwiseAbs() * ax + B[i].cwiseAbs() * u[i].cwiseAbs();
            scale = std::max(scale, ax.maxCoeff());
            X.segment(i * nx, nx) = x;
        }
    }
    VectorXd U() const { VectorXd v(N * nu); for (int i = 0; i < N; ++i) v.segment(i * nu, nu) = u[i]; return v; }
    std::string str() const { std::ostringstream s; s << "N=" << N << " nx=" << nx << " nu=" << nu << " ny=" << ny; return s.str(); }
};

static void agree(vh::Case &c, const VectorXd &a, const VectorXd &b, double scale, const std::string &key)
{
    c.nearM(a / scale, b / scale, 1e-12, key);
}
// a future control never moves a past state
template <class Mx> static void causal(vh::Case &c, const Mx &U, int N, int rows, int cols, bool strict, const std::string &key)
{
    for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j)
        c.check((U.block(i * rows, j * cols, rows, cols).array() == 0).all(), key, strict ? "" : "output");
}
static int horizon(vh::Rng &r, long index) { return index % 7 == 0 ? 1 : (index % 7 == 1 ? 2 : r.i(2, 25)); }

// junk left in the results from an earlier, larger or smaller, problem
static MatrixXd junk(vh::Rng &r) { return r.chance(0.5) ? MatrixXd() : r.gmat(r.i(1, 30), r.i(1, 30)); }

VH_FAMILY(dense_time_varying, 3000, 40000)
{
    auto &r = c.rng; Sys s; s.make(r, horizon(r, c.index), r.i(1, 6), r.i(1, 4), r.i(1, 5), false);
    MatrixXd S = junk(r), U = junk(r); M::condense(S, U, s.A, s.B);
    c.desc << s.str();
    c.check(S.rows() == s.N * s.nx && S.cols() == s.nx && U.rows() == s.N * s.nx && U.cols() == s.N * s.nu, "dense/size");
    agree(c, S * s.x0 + U * s.U(), s.X, s.scale, "dense/states"); causal(c, U, s.N, s.nx, s.nu, true, "dense/causal");
    c.count("states_compared", s.N); if (s.N == 1) c.count("single_step_horizons"); c.signature(s.str() + vh::hashM(s.X));
}

VH_FAMILY(dense_time_invariant, 3000, 40000)
{
    auto &r = c.rng; Sys s; s.make(r, horizon(r, c.index), r.i(1, 6), r.i(1, 4), r.i(1, 5), true);
    MatrixXd S = junk(r), U = junk(r), S2, U2; M::condenseTimeInvariant(S, U, s.N, s.A[0], s.B[0]);
    c.desc << s.str();
    c.check(S.rows() == s.N * s.nx && S.cols() == s.nx && U.rows() == s.N * s.nx && U.cols() == s.N * s.nu, "invariant/size");
    agree(c, S * s.x0 + U * s.U(), s.X, s.scale, "invariant/states"); causal(c, U, s.N, s.nx, s.nu, true, "invariant/causal");
    MatrixXd Ox = junk(r), Ou = junk(r); M::condenseOutput(Ox, Ou, s.D[0], s.E[0], S, U);
    c.check(Ox.rows() == s.N * s.ny && Ou.rows() == s.N * s.ny && Ou.cols() == s.N * s.nu, "invariant/output_size");
    agree(c, Ox * s.x0 + Ou * s.U(), s.Y, s.scale, "invariant/outputs"); causal(c, Ou, s.N, s.ny, s.nu, false, "invariant/output_causal");
    c.count("states_compared", s.N); c.count("outputs_compared", s.N); if (s.N == 1) c.count("single_step_horizons");
    c.signature(s.str() + vh::hashM(s.X));
}

template <int nx, int nu, int ny> static void blocks(vh::Case &c)
{
    auto &r = c.rng; Sys s; s.make(r, horizon(r, c.index), nx, nu, ny, r.chance(0.3)); c.desc << "blocks " << s.str();
    etools::GenericBlockMatrix<nx, nx> S; etools::LeftLowerTriangularBlockMatrix<nx, nu> U;
    if (r.chance(0.5)) { S.setZero(r.i(1, 20), r.i(1, 4)); U.setZero(r.i(1, 20)); }
    std::vector<Eigen::Matrix<double, nx, nx>> A(s.A.begin(), s.A.end()); std::vector<Eigen::Matrix<double, nx, nu>> B(s.B.begin(), s.B.end());
    std::vector<Eigen::Matrix<double, ny, nx>> D(s.D.begin(), s.D.end()); std::vector<Eigen::Matrix<double, ny, nu>> E(s.E.begin(), s.E.end());
    if (r.chance(0.3)) M::condense(S, U, s.A, s.B); else M::condense(S, U, A, B);
    c.check(S.getNumberOfRows() == s.N * nx && S.getNumberOfColumns() == nx && U.getNumberOfRows() == s.N * nx && U.getNumberOfColumns() == s.N * nu, "blocks/size");
    agree(c, S.getRaw() * s.x0 + U.getRaw() * s.U(), s.X, s.scale, "blocks/states"); causal(c, U.getRaw(), s.N, nx, nu, true, "blocks/causal");
    { etools::GenericBlockMatrix<nx, nx> S2; etools::GenericBlockMatrix<nx, nu> U2; M::condense(S2, U2, A, B); c.nearM(U2.getRaw(), U.getRaw(), 1e-13, "blocks/generic"); c.nearM(S2.getRaw(), S.getRaw(), 1e-13, "blocks/generic"); }
    etools::GenericBlockMatrix<ny, nx> Ox; etools::LeftLowerTriangularBlockMatrix<ny, nu> Ou;
    if (r.chance(0.5)) { Ox.setZero(r.i(1, 20), r.i(1, 4)); Ou.setZero(r.i(1, 20)); }
    if (r.chance(0.3)) M::condenseOutput(Ox, Ou, s.D, s.E, S, U); else M::condenseOutput(Ox, Ou, D, E, S, U);
    agree(c, Ox.getRaw() * s.x0 + Ou.getRaw() * s.U(), s.Y, s.scale, "blocks/outputs"); causal(c, Ou.getRaw(), s.N, ny, nu, false, "blocks/output_causal");
    c.count("states_compared", s.N); c.count("outputs_compared", s.N); if (s.N == 1) c.count("single_step_horizons");
    // the numbers of matrices have to agree
    if (s.N > 1 && r.chance(0.2))
    {
        auto Bs = s.B; Bs.pop_back(); auto Es = s.E; Es.pop_back(); auto Ds = s.D; Ds.pop_back(); std::vector<MatrixXd> none; MatrixXd a, b;
        c.mustReject([&] { M::condense(S, U, s.A, Bs); }, "counts/blocks"); c.mustReject([&] { M::condense(S, U, none, none); }, "counts/blocks_empty");
        c.mustReject([&] { M::condense(a, b, s.A, Bs); }, "counts/dense"); c.mustReject([&] { M::condense(a, b, none, none); }, "counts/dense_empty");
        M::condense(S, U, s.A, s.B);
        c.mustReject([&] { M::condenseOutput(Ox, Ou, s.D, Es, S, U); }, "counts/output"); c.mustReject([&] { M::condenseOutput(Ox, Ou, Ds, Es, S, U); }, "counts/output");
    }
    c.signature(s.str() + vh::hashM(s.X));
}
VH_FAMILY(block_time_varying, 4000, 60000)
{
    switch (c.index % 6)
    {
        case 0: blocks<3, 1, 2>(c); break;
        case 1: blocks<2, 2, 1>(c); break;
        case 2: blocks<6, 2, 2>(c); break;
        case 3: blocks<3, 3, 3>(c); break;
        case 4: blocks<4, 2, 3>(c); break;
        case 5: blocks<2, 1, 3>(c); break;
    }
}

// the control vector of each step split into several groups
template <int nx, int ny> static void grouped(vh::Case &c)
{
    typedef etools::LeftLowerTriangularBlockMatrix<nx, etools::MatrixBlockSizeType::DYNAMIC> BU;
    typedef etools::LeftLowerTriangularBlockMatrix<ny, etools::MatrixBlockSizeType::DYNAMIC> BO;
    auto &r = c.rng; int groups = r.i(1, 3); std::vector<int> sz; int nu = 0; for (int g = 0; g < groups; ++g) { sz.push_back(r.i(1, 3)); nu += sz.back(); }
    Sys s; s.make(r, horizon(r, c.index), nx, nu, ny, r.chance(0.3)); c.desc << "grouped " << s.str() << " groups=" << groups;
    etools::GenericBlockMatrix<nx, nx> S; std::vector<BU> U(groups); VectorXd x = VectorXd::Zero(s.N * nx);
    std::vector<VectorXd> ug(groups); int off = 0;
    for (int g = 0; g < groups; ++g)
    {
        std::vector<MatrixXd> Bg; for (auto &b : s.B) Bg.push_back(b.middleCols(off, sz[g]));
        U[g].setBlockSize(etools::MatrixBlockSizeType::UNDEFINED, sz[g]);
        M::condense(S, U[g], s.A, Bg); ug[g] = VectorXd(s.N * sz[g]); for (int i = 0; i < s.N; ++i) ug[g].segment(i * sz[g], sz[g]) = s.u[i].segment(off, sz[g]);
        x += U[g].getRaw() * ug[g]; off += sz[g];
    }
    x += S.getRaw() * s.x0; agree(c, x, s.X, s.scale, "grouped/states");
    etools::GenericBlockMatrix<ny, nx> Ox; std::vector<BO> Ou(r.i(0, 3)); M::condenseOutput(Ox, Ou, s.D, s.E, S, U);
    c.check((int) Ou.size() == groups, "grouped/number"); VectorXd y = Ox.getRaw() * s.x0;
    for (int g = 0; g < groups; ++g) { c.check(Ou[g].getNumberOfRows() == s.N * ny && Ou[g].getNumberOfColumns() == s.N * sz[g], "grouped/size"); y += Ou[g].getRaw() * ug[g]; causal(c, Ou[g].getRaw(), s.N, ny, sz[g], false, "grouped/causal"); }
    agree(c, y, s.Y, s.scale, "grouped/outputs"); c.count("grouped_outputs_compared", s.N);
    c.signature(c.desc.str() + vh::hashM(s.X));
}
VH_FAMILY(grouped_controls, 2000, 30000) { switch (c.index % 3) { case 0: grouped<3, 2>(c); break; case 1: grouped<2, 1>(c); break; default: grouped<4, 3>(c); } }

int main(int argc, char **argv) { return vh::run(argc, argv); }
