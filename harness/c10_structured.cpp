/**
 * Block, block diagonal, block triangular, block Kronecker and selection matrices
 * against the dense matrices they stand for.
 */
#include "vh.h"
#include "humoto/humoto.h"
using Eigen::MatrixXd;
using Eigen::VectorXd;
using namespace etools;
typedef MatrixSparsityType::Type Sp;
static const Sp NONE = MatrixSparsityType::NONE, DIAG = MatrixSparsityType::DIAGONAL, LLT = MatrixSparsityType::LEFT_LOWER_TRIANGULAR;

// a dense matrix with the given block structure
static MatrixXd dense(vh::Rng &r, Sp s, int nv, int nh, int br, int bc)
{
    MatrixXd m = r.mat(nv * br, nh * bc);
    for (int i = 0; i < nv; ++i) for (int j = 0; j < nh; ++j)
        if ((s == DIAG && i != j) || (s == LLT && j > i)) m.block(i * br, j * bc, br, bc).setZero();
    return m;
}
// block Kronecker product with an identity, by its definition
static MatrixXd kron(const MatrixXd &m, int br, int bc, int k)
{
    MatrixXd o = MatrixXd::Zero(m.rows() * k, m.cols() * k);
    for (int i = 0; i < m.rows() / br; ++i) for (int j = 0; j < m.cols() / bc; ++j) for (int l = 0; l < k; ++l)
        o.block((i * k + l) * br, (j * k + l) * bc, br, bc) = m.block(i * br, j * bc, br, bc);
    return o;
}
// where a result is put: of any size, often of the right one and never clean
static MatrixXd used(vh::Rng &r, int rows, int cols) { return r.chance(0.6) ? r.gmat(rows, cols) : r.chance(0.3) ? MatrixXd() : r.gmat(r.i(1, 9), r.i(1, 9)); }
static int dim(int t, vh::Rng &r) { return t > 0 ? t : r.i(1, 4); }
static int arg(int t, int v) { return t > 0 ? MatrixBlockSizeType::UNDEFINED : v; }
static void blocks(vh::Rng &r, Sp s, int &nv, int &nh, bool empty_ok = false)
{
    nv = r.i(empty_ok && r.chance(0.05) ? 0 : 1, 6); nh = s == DIAG ? nv : (s == LLT ? r.i(std::min(nv, 1), nv) : r.i(std::min(nv, 1), 6));
}
template <class B> static double at(const B &b) { return b(0, 0); }
static double at(double b) { return b; }
template <class T> static MatrixXd asM(const T &m) { return m; }
static MatrixXd asM(double v) { return MatrixXd::Constant(1, 1, v); }

template <class B> static void timesVector(vh::Case &c, const B &k, const MatrixXd &d, const VectorXd &v, std::false_type) { c.nearM(k * v, d * v, 1e-13, "product/vector"); }
template <class B> static void timesVector(vh::Case &, const B &, const MatrixXd &, const VectorXd &, std::true_type) {}      // does not compile
// sizes, access to blocks, rows and columns, both ways; products with dense matrices
template <class BM, int BR, int BC, Sp S> static void access(vh::Case &c)
{
    auto &r = c.rng; int br = dim(BR, r), bc = dim(BC, r), nv, nh; blocks(r, S, nv, nh, true);
    MatrixXd d = dense(r, S, nv, nh, br, bc);
    BM m(arg(BR, br), arg(BC, bc));
    c.desc << "sparsity=" << S << " " << nv << "x" << nh << " blocks of " << br << "x" << bc;
    int how = r.i(0, 3);
    if (how == 0) m.set(d); else if (how == 1) { BM m2(d, arg(BR, br), arg(BC, bc)); m = m2; }
    else
    {
        if (r.chance(0.5)) m.setZero(r.i(0, 7), r.i(0, 7));     // some history
        if (nv == nh && r.chance(0.5)) { if (how == 2) m.resize(nv); else m.setZero(nv); } else { if (how == 2) m.resize(nv, nh); else m.setZero(nv, nh); }
        if (how == 3) c.check((m.getRaw().array() == 0).all(), "access/zero");
        for (int i = 0; i < nv; ++i) for (int j = 0; j < nh; ++j)
            for (int a = 0; a < br; ++a) for (int b = 0; b < bc; ++b) m.row(i, j, 1)(a, b) = d(i * br + a, j * bc + b);
    }
    const BM &k = m;
    c.nearM(m.getRaw(), d, 0, "access/raw");
    c.check(k.getNumberOfBlocksVertical() == nv && k.getNumberOfBlocksHorizontal() == nh && k.getNumberOfRows() == d.rows() && k.getNumberOfColumns() == d.cols()
            && k.getBlockRowsNum() == br && k.getBlockColsNum() == bc, "access/sizes");
    if (nv == 0 || nh == 0) { c.count("empty_matrices"); return; }
    for (int q = 0; q < 4; ++q)
    {
        int i = r.i(0, nv - 1), j = r.i(0, nh - 1), i0 = r.i(0, nv - 1), j0 = r.i(0, nh - 1), ni = r.i(0, nv - i0), nj = r.i(0, nh - j0);
        c.nearM(asM(k(i, j)), d.block(i * br, j * bc, br, bc), 0, "access/block"); c.nearM(asM(m(i, j)), d.block(i * br, j * bc, br, bc), 0, "access/block");
        if (i < nh) { c.nearM(asM(k(i)), d.block(i * br, i * bc, br, bc), 0, "access/diagonal_block"); c.nearM(asM(m(i)), d.block(i * br, i * bc, br, bc), 0, "access/diagonal_block"); }
        c.nearM(k.row(i), d.middleRows(i * br, br), 0, "access/row"); c.nearM(m.row(i), d.middleRows(i * br, br), 0, "access/row");
        c.nearM(k.row(i, j0), d.middleRows(i * br, br).rightCols(d.cols() - j0 * bc), 0, "access/row_from"); c.nearM(m.row(i, j0), d.middleRows(i * br, br).rightCols(d.cols() - j0 * bc), 0, "access/row_from");
        c.nearM(k.row(i, j0, nj), d.block(i * br, j0 * bc, br, nj * bc), 0, "access/row_part"); c.nearM(m.row(i, j0, nj), d.block(i * br, j0 * bc, br, nj * bc), 0, "access/row_part");
        c.nearM(k.column(j), d.middleCols(j * bc, bc), 0, "access/column"); c.nearM(m.column(j), d.middleCols(j * bc, bc), 0, "access/column");
        c.nearM(k.column(j, i0), d.middleCols(j * bc, bc).bottomRows(d.rows() - i0 * br), 0, "access/column_from"); c.nearM(m.column(j, i0), d.middleCols(j * bc, bc).bottomRows(d.rows() - i0 * br), 0, "access/column_from");
        c.nearM(k.column(j, i0, ni), d.block(i0 * br, j * bc, ni * br, bc), 0, "access/column_part"); c.nearM(m.column(j, i0, ni), d.block(i0 * br, j * bc, ni * br, bc), 0, "access/column_part");
        int row = r.i(0, br - 1); MatrixXd sel(nv, d.cols()); for (int a = 0; a < nv; ++a) sel.row(a) = d.row(a * br + row);
        c.nearM(m.selectRowInBlocksAsMatrix(row), sel, 0, "select/matrix");
        const auto map = m.selectRowInBlocks(row); MatrixXd got = map.getRaw(); c.nearM(got, sel, 0, "select/map");
        c.check(map.getNumberOfBlocksVertical() == nv && map.getNumberOfBlocksHorizontal() == nh && map.getBlockRowsNum() == 1 && map.getBlockColsNum() == bc, "select/sizes");
        c.nearM(asM(map.row(row % nv, j0, nj)), sel.block(row % nv, j0 * bc, 1, nj * bc), 0, "select/row_of_map");
        int kk = r.i(2, 4); MatrixXd ek = used(r, nv * kk, d.cols() * kk); map.getBlockKroneckerProduct(kk).evaluate(ek); c.nearM(ek, kron(sel, 1, bc, kk), 0, "select/kronecker_of_map");
        c.count("selections");
    }
    // writing through an access changes exactly that part
    {
        int i = r.i(0, nv - 1), j = r.i(0, nh - 1); MatrixXd d2 = d, x = r.gmat(br, bc);
        m.row(i, j, 1) = x; d2.block(i * br, j * bc, br, bc) = x; c.nearM(m.getRaw(), d2, 0, "access/write"); m.column(j, i, 1) = d.block(i * br, j * bc, br, bc); c.nearM(m.getRaw(), d, 0, "access/write");
    }
    // products
    {
        MatrixXd x = r.mat(d.cols(), r.i(1, 5)); VectorXd v = r.vec(d.cols());
        c.nearM(k * x, d * x, 1e-13, "product/dense"); timesVector(c, k, d, v, std::integral_constant<bool, S == LLT && BR == 1 && BC == 1>()); c.nearM(k * (x + x), d * (x + x), 1e-13, "product/expression"); c.nearM(k * x.leftCols(1), d * x.leftCols(1), 1e-13, "product/block_expression");
        MatrixXd y = used(r, d.rows(), x.cols()); k.multiplyRight(y, x); c.nearM(y, d * x, 1e-13, "product/into"); c.count("products", 5);
        if (S == DIAG) { c.mustReject([&] { MatrixXd z = k * r.mat(d.cols() + r.i(1, 3), 2); }, "mismatch/dense"); c.mustReject([&] { MatrixXd z = k * r.mat(d.cols() - 1, 2); }, "mismatch/dense"); }
    }
    // Kronecker product with an identity
    {
        int kk = r.i(2, 5); MatrixXd e = kron(d, br, bc, kk);
        c.nearM(k.getBlockKroneckerProduct(kk).evaluate(), e, 0, "kronecker/evaluate");
        MatrixXd o = used(r, e.rows(), e.cols()); k.getBlockKroneckerProduct(kk).evaluate(o); c.nearM(o, e, 0, "kronecker/evaluate_into");
        int p = r.i(0, 3), q = r.i(0, 3); MatrixXd big = r.gmat(e.rows() + p + 2, e.cols() + q + 1), big2 = big; big2.block(p, q, e.rows(), e.cols()) = e;
        k.getBlockKroneckerProduct(kk).evaluate(big.block(p, q, e.rows(), e.cols())); c.nearM(big, big2, 0, "kronecker/evaluate_into_block");
        c.mustReject([&] { k.getBlockKroneckerProduct(r.i(-1, 1)); }, "mismatch/identity"); c.count("kroneckers");
    }
    // wrong sizes
    if (br > 1) c.mustReject([&] { BM z(r.mat(nv * br + r.i(1, br - 1), nh * bc), arg(BR, br), arg(BC, bc)); }, "mismatch/rows");
    if (bc > 1) c.mustReject([&] { BM z(arg(BR, br), arg(BC, bc)); z.set(r.mat(nv * br, nh * bc + r.i(1, bc - 1))); }, "mismatch/columns");
    if (BR > 0) c.mustReject([&] { BM z(br, arg(BC, bc)); }, "mismatch/static");
    if (BR < 0 && BC < 0)
    {
        int f = r.i(1, 3); BM z(MatrixXd(r.mat(nv * br * f, nh * bc * f)), br * f, bc * f); z.setBlockSize(br, bc);
        c.check(z.getNumberOfBlocksVertical() == nv * f && z.getNumberOfBlocksHorizontal() == nh * f && z.getBlockRowsNum() == br && z.getBlockColsNum() == bc, "access/new_block_size");
        c.nearM(asM(z(nv * f - 1, nh * f - 1)), z.getRaw().bottomRightCorner(br, bc), 0, "access/new_block_size"); c.mustReject([&] { z.setBlockSize(0, bc); }, "mismatch/zero_block"); c.count("block_sizes_changed");
    }
    c.signature(c.desc.str() + vh::hashM(d));
}
static const int D = MatrixBlockSizeType::DYNAMIC;
template <int BR, int BC> static void accessAll(vh::Case &c)
{
    switch (c.index % 3)
    {
        case 0: access<GenericBlockMatrix<BR, BC>, BR, BC, NONE>(c); break;
        case 1: access<DiagonalBlockMatrix<BR, BC>, BR, BC, DIAG>(c); break;
        default: access<LeftLowerTriangularBlockMatrix<BR, BC>, BR, BC, LLT>(c);
    }
}
VH_FAMILY(access_1x1, 1500, 20000) { accessAll<1, 1>(c); }
VH_FAMILY(access_2x3, 1500, 20000) { accessAll<2, 3>(c); }
VH_FAMILY(access_3x1, 1500, 20000) { accessAll<3, 1>(c); }
VH_FAMILY(access_1x2, 1500, 20000) { accessAll<1, 2>(c); }
VH_FAMILY(access_dynamic, 3000, 40000) { accessAll<D, D>(c); }
VH_FAMILY(access_mixed, 1500, 20000) { if (c.index % 2) accessAll<D, 2>(c); else accessAll<3, D>(c); }

// interfaces refer to the data of somebody else
template <int BR, int BC> static void interfaces(vh::Case &c)
{
    auto &r = c.rng; int br = dim(BR, r), bc = dim(BC, r), nv, nh; blocks(r, NONE, nv, nh); MatrixXd d = dense(r, NONE, nv, nh, br, bc), ref = d;
    BlockMatrixInterface<BR, BC, NONE> m(d, arg(BR, br), arg(BC, bc)); const ConstBlockMatrixInterface<BR, BC, NONE> k(d, arg(BR, br), arg(BC, bc)); c.desc << nv << "x" << nh << " blocks of " << br << "x" << bc;
    int i = r.i(0, nv - 1), j = r.i(0, nh - 1); MatrixXd x = r.gmat(br, bc); ref.block(i * br, j * bc, br, bc) = x; m.column(j, i, 1) = x;
    c.nearM(d, ref, 0, "interface/write"); c.nearM(k.getRaw(), ref, 0, "interface/view"); c.nearM(k.column(j), ref.middleCols(j * bc, bc), 0, "interface/column");
    MatrixXd v = r.mat(d.cols(), 2); c.nearM(m * v, ref * v, 1e-13, "interface/product"); c.nearM(k * v, ref * v, 1e-13, "interface/product");
    m.setZero(nv + 1, nh); c.check(d.rows() == (nv + 1) * br && (d.array() == 0).all() && m.getNumberOfBlocksVertical() == nv + 1, "interface/set_zero");
    if (br > 1) { MatrixXd bad = r.mat(nv * br + 1, nh * bc); c.mustReject([&] { ConstBlockMatrixInterface<BR, BC, NONE> z(bad, arg(BR, br), arg(BC, bc)); }, "interface/mismatch"); }
    c.count("interfaces"); c.signature(c.desc.str() + vh::hashM(ref));
}
VH_FAMILY(interfaces_, 2000, 30000) { switch (c.index % 4) { case 0: interfaces<2, 3>(c); break; case 1: interfaces<1, 3>(c); break; case 2: interfaces<4, 2>(c); break; default: interfaces<D, D>(c); } }

// block diagonal with other block matrices, both sides
template <class Other, int A, int B, int C, Sp S> static void diagonal(vh::Case &c)
{
    auto &r = c.rng;
    {   // diagonal (A x B blocks) times other (B x C blocks)
        int a = dim(A, r), b = dim(B, r), k = dim(C, r), n = r.i(1, 5), h = S == DIAG ? n : (S == LLT ? r.i(1, n) : r.i(1, 5));
        MatrixXd x = dense(r, DIAG, n, n, a, b), y = dense(r, S, n, h, b, k); DiagonalBlockMatrix<A, B> X(x, arg(A, a), arg(B, b)); typename Other::template T<B, C> Y(y, arg(B, b), arg(C, k));
        c.desc << "n=" << n << " h=" << h << " " << a << "x" << b << "x" << k; MatrixXd o = used(r, x.rows(), y.cols()); X.multiplyRight(o, Y); c.nearM(o, x * y, 1e-13, "product/diagonal_block");
        typename Other::template T<B, C> bad(dense(r, S, n + 1, h, b, k), arg(B, b), arg(C, k)); c.mustReject([&] { MatrixXd z; X.multiplyRight(z, bad); }, "mismatch/diagonal_block");
        c.signature(c.desc.str() + vh::hashM(y));
    }
    {   // other (A x B blocks) times diagonal (B x C blocks)
        int a = dim(A, r), b = dim(B, r), k = dim(C, r), n = r.i(1, 5), v = S == DIAG ? n : (S == LLT ? r.i(n, n + 3) : r.i(1, 5));
        MatrixXd x = dense(r, S, v, n, a, b), y = dense(r, DIAG, n, n, b, k); typename Other::template T<A, B> X(x, arg(A, a), arg(B, b)); DiagonalBlockMatrix<B, C> Y(y, arg(B, b), arg(C, k));
        MatrixXd o = used(r, x.rows(), y.cols()); Y.multiplyLeft(o, X.getRaw()); c.nearM(o, x * y, 1e-13, "product/block_diagonal"); MatrixXd z = r.mat(r.i(1, 4), n * b); o = used(r, z.rows(), y.cols()); Y.multiplyLeft(o, z); c.nearM(o, z * y, 1e-13, "product/dense_diagonal");
        c.mustReject([&] { Y.multiplyLeft(o, r.mat(2, n * b + 1)); }, "mismatch/dense_diagonal"); c.mustReject([&] { Y.multiplyLeft(o, r.mat(2, n * b - 1)); }, "mismatch/dense_diagonal");
    }
    c.count("diagonal_products", 3);
}
struct G { template <int a, int b> using T = GenericBlockMatrix<a, b>; };
struct Dg { template <int a, int b> using T = DiagonalBlockMatrix<a, b>; };
struct L { template <int a, int b> using T = LeftLowerTriangularBlockMatrix<a, b>; };
template <int A, int B, int C> static void diagonalAll(vh::Case &c) { switch (c.index % 3) { case 0: diagonal<G, A, B, C, NONE>(c); break; case 1: diagonal<Dg, A, B, C, DIAG>(c); break; default: diagonal<L, A, B, C, LLT>(c); } }
VH_FAMILY(diagonal_products, 3000, 40000) { switch ((c.index / 3) % 4) { case 0: diagonalAll<2, 3, 2>(c); break; case 1: diagonalAll<1, 2, 3>(c); break; case 2: diagonalAll<3, 1, 1>(c); break; default: diagonalAll<D, D, D>(c); } }
// the operators
template <int A, int B, int C> static void ops(vh::Case &c)
{
    auto &r = c.rng; int a = dim(A, r), b = dim(B, r), k = dim(C, r), n = r.i(1, 5), v = r.i(1, 5), h = r.i(1, 5); c.desc << n << " " << v << " " << h << " " << a << "x" << b << "x" << k;
    MatrixXd x = dense(r, NONE, v, n, a, b), xl = dense(r, LLT, n + 1, n, a, b), y = dense(r, DIAG, n, n, b, k), w = dense(r, DIAG, n, n, a, b), q = dense(r, NONE, n, h, b, k), ql = dense(r, LLT, n, std::min(n, h), b, k);
    GenericBlockMatrix<A, B> X(x, arg(A, a), arg(B, b)); LeftLowerTriangularBlockMatrix<A, B> XL(xl, arg(A, a), arg(B, b)); DiagonalBlockMatrix<B, C> Y(y, arg(B, b), arg(C, k)); DiagonalBlockMatrix<A, B> W(w, arg(A, a), arg(B, b));
    GenericBlockMatrix<B, C> Q(q, arg(B, b), arg(C, k)); LeftLowerTriangularBlockMatrix<B, C> QL(ql, arg(B, b), arg(C, k));
    c.nearM(X * Y, x * y, 1e-13, "operator/generic_diagonal"); c.nearM(XL * Y, xl * y, 1e-13, "operator/triangular_diagonal"); c.nearM(W * Y, w * y, 1e-13, "operator/diagonal_diagonal");
    c.nearM(W * Q, w * q, 1e-13, "operator/diagonal_generic"); c.nearM(W * QL, w * ql, 1e-13, "operator/diagonal_triangular"); c.count("operators", 5); c.signature(c.desc.str() + vh::hashM(x) + vh::hashM(q));
}
VH_FAMILY(operators, 3000, 40000) { switch (c.index % 4) { case 0: ops<2, 3, 2>(c); break; case 1: ops<1, 2, 3>(c); break; case 2: ops<3, 1, 2>(c); break; default: ops<2, 2, 1>(c); } }

// Kronecker products with block diagonal matrices and vectors
template <class Kr, int A, int B, int DR, int DC, Sp S> static void kronProducts(vh::Case &c)
{
    auto &r = c.rng; int a = dim(A, r), b = dim(B, r), nv, nh; blocks(r, S, nv, nh); int k = DR > 0 ? DR / b : r.i(2, 4), dr = b * k, dc = dim(DC, r);
    if (DR > 0 && (DR % b || k < 2)) return;
    MatrixXd x = dense(r, S, nv, nh, a, b), y = dense(r, DIAG, nh, nh, dr, dc), e = kron(x, a, b, k); c.desc << "sparsity=" << S << " k=" << k << " " << nv << "x" << nh << " blocks of " << a << "x" << b << " times blocks of " << dr << "x" << dc;
    typename Kr::template T<A, B> X(x, arg(A, a), arg(B, b)); DiagonalBlockMatrix<DR, DC> Y(y, arg(DR, dr), arg(DC, dc));
    c.nearM(X.getBlockKroneckerProduct(k) * Y, e * y, 1e-13, "kronecker/times_diagonal");
    MatrixXd o = used(r, e.rows(), y.cols()); X.getBlockKroneckerProduct(k).multiplyRight(o, Y); c.nearM(o, e * y, 1e-13, "kronecker/times_diagonal_into");
    DiagonalBlockMatrix<DR, DC> bad(dense(r, DIAG, nh + 1, nh + 1, dr, dc), arg(DR, dr), arg(DC, dc)); c.mustReject([&] { MatrixXd z = X.getBlockKroneckerProduct(k) * bad; }, "mismatch/kronecker_blocks");
    c.mustReject([&] { MatrixXd z = X.getBlockKroneckerProduct(k + 1) * Y; }, "mismatch/kronecker_size"); c.count("kronecker_products"); if (DR < 0) c.count("kronecker_products_dynamic");
    c.signature(c.desc.str() + vh::hashM(x) + vh::hashM(y));
}
template <int A, int B, int DR, int DC> static void kronAll(vh::Case &c)
{
    switch (c.index % 3) { case 0: kronProducts<G, A, B, DR, DC, NONE>(c); break; case 1: kronProducts<Dg, A, B, DR, DC, DIAG>(c); break; default: kronProducts<L, A, B, DR, DC, LLT>(c); }
}
VH_FAMILY(kronecker_products, 4500, 60000)
{
    switch ((c.index / 3) % 8)
    {
        case 0: kronAll<1, 1, 2, 2>(c); break; case 1: kronAll<1, 1, 3, 2>(c); break; case 2: kronAll<1, 1, D, D>(c); break; case 3: kronAll<3, 1, 2, 3>(c); break;
        case 4: kronAll<2, 3, 6, 1>(c); break; case 5: kronAll<1, 2, 4, 3>(c); break; case 6: kronAll<2, 2, D, D>(c); break; default: kronAll<D, D, D, D>(c);
    }
}
template <class Kr, int A, int B, Sp S> static void kronVector(vh::Case &c)
{
    auto &r = c.rng; int a = dim(A, r), b = dim(B, r), nv, nh, k = r.i(2, 5); blocks(r, S, nv, nh); MatrixXd x = dense(r, S, nv, nh, a, b), e = kron(x, a, b, k); VectorXd v = r.vec(e.cols());
    c.desc << "k=" << k << " " << nv << "x" << nh << " blocks of " << a << "x" << b; typename Kr::template T<A, B> X(x, arg(A, a), arg(B, b));
    c.nearM(X.getBlockKroneckerProduct(k) * v, e * v, 1e-13, "kronecker/times_vector"); c.count("kronecker_vectors"); c.signature(c.desc.str() + vh::hashM(x));
    int row = r.i(0, a - 1); MatrixXd sel(nv, x.cols()); for (int i = 0; i < nv; ++i) sel.row(i) = x.row(i * a + row);
    c.nearM(X.selectRowInBlocks(row).getBlockKroneckerProduct(k) * v, kron(sel, 1, b, k) * v, 1e-13, "select/kronecker_times_vector");
}
VH_FAMILY(kronecker_vectors, 3000, 40000)
{
    switch (c.index % 8)
    {
        case 0: kronVector<G, 1, 1, NONE>(c); break; case 1: kronVector<G, 2, 3, NONE>(c); break; case 2: kronVector<G, 3, 1, NONE>(c); break; case 3: kronVector<G, D, D, NONE>(c); break;
        case 4: kronVector<Dg, 1, 1, DIAG>(c); break; case 5: kronVector<Dg, 2, 2, DIAG>(c); break; case 6: kronVector<Dg, 3, 2, DIAG>(c); break; default: kronVector<Dg, D, D, DIAG>(c);
    }
}
// block diagonal times a Kronecker product of a lower triangular matrix
template <int DR, int DC> static void kronLeft(vh::Case &c)
{
    auto &r = c.rng; int k = DC > 0 ? DC : r.i(2, 4), dr = DR > 0 ? DR : (r.chance(0.5) ? k : r.i(1, 5)), nv, nh; blocks(r, LLT, nv, nh); if (r.chance(0.5)) nh = nv;
    MatrixXd x = dense(r, LLT, nv, nh, 1, 1), y = dense(r, DIAG, nv, nv, dr, k), e = kron(x, 1, 1, k); c.desc << "k=" << k << " " << nv << "x" << nh << " after blocks of " << dr << "x" << k;
    LeftLowerTriangularBlockMatrix<1, 1> X(x); DiagonalBlockMatrix<DR, DC> Y(y, arg(DR, dr), arg(DC, k));
    c.nearM(Y * X.getBlockKroneckerProduct(k), y * e, 1e-13, "kronecker/after_diagonal"); c.mustReject([&] { MatrixXd z = Y * X.getBlockKroneckerProduct(k + 1); }, "mismatch/kronecker_left");
    c.count("kronecker_left_products"); if (dr != k || nv != nh) c.count("kronecker_left_nonsquare"); c.signature(c.desc.str() + vh::hashM(x) + vh::hashM(y));
}
VH_FAMILY(kronecker_left, 2000, 30000) { switch (c.index % 4) { case 0: kronLeft<2, 2>(c); break; case 1: kronLeft<3, 2>(c); break; case 2: kronLeft<2, 3>(c); break; default: kronLeft<D, D>(c); } }
// product of a matrix with a Kronecker product of a matrix and an identity, and selections
VH_FAMILY(selections, 3000, 40000)
{
    auto &r = c.rng; int m = r.i(1, 12), n = r.i(1, 6), step = r.i(1, m), first = r.i(0, m - 1); MatrixXd x = r.mat(m, n), sel(0, n); c.desc << m << "x" << n << " step " << step << " from " << first;
    for (int i = first; i < m; i += step) { sel.conservativeResize(sel.rows() + 1, n); sel.row(sel.rows() - 1) = x.row(i); }
    c.nearM(selectRows(x, step, first), sel, 0, "select/rows"); SelectionMatrix s(step, first); c.nearM(s * x, sel, 0, "select/selection_matrix"); c.count("selections", 2);
    c.signature(c.desc.str() + vh::hashM(x));
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
