/**
 * Dense matrix helpers and unit conversions against their definitions, written with plain loops.
 */
#include "vh.h"
#include "humoto/humoto.h"
using Eigen::MatrixXd;
using Eigen::VectorXd;
using namespace etools;

// where a result is put: of any size, often of the right one and never clean
static MatrixXd used(vh::Rng &r, int rows, int cols) { return r.chance(0.5) ? r.gmat(rows, cols) : r.chance(0.5) ? MatrixXd() : r.gmat(r.i(1, 12), r.i(1, 12)); }
static MatrixXd ata(const MatrixXd &a)
{
    MatrixXd o = MatrixXd::Zero(a.cols(), a.cols());
    for (int i = 0; i < a.cols(); ++i) for (int j = 0; j < a.cols(); ++j) for (int k = 0; k < a.rows(); ++k) o(i, j) += a(k, i) * a(k, j);
    return o;
}
static MatrixXd lower(const MatrixXd &m) { MatrixXd o = MatrixXd::Zero(m.rows(), m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j <= i && j < m.cols(); ++j) o(i, j) = m(i, j); return o; }
static MatrixXd upper(const MatrixXd &m) { MatrixXd o = MatrixXd::Zero(m.rows(), m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = i + 1; j < m.cols(); ++j) o(i, j) = m(i, j); return o; }

VH_FAMILY(gram, 4000, 60000)
{
    auto &r = c.rng; int m = r.i(0, 9), n = r.i(1, 9), before = r.i(0, 4), after = r.i(0, 4); MatrixXd a = r.mat(m, n), e = ata(a); c.desc << m << "x" << n << " offset " << before << " size " << before + n + after;
    MatrixXd o = used(r, n, n); getATA(o, a); c.check(o.rows() == n && o.cols() == n, "gram/size"); c.nearM(lower(o), lower(e), 1e-13, "gram/lower");
    if (r.chance(0.3)) { convertLLTtoSymmetric(o); c.nearM(o, e, 1e-13, "gram/symmetric"); c.count("symmetric"); }
    int N = before + n + after; MatrixXd big = MatrixXd::Zero(N, N); big.block(before, before, n, n) = e;
    o = used(r, N, N); getATA(o, a, before, N); c.check(o.rows() == N && o.cols() == N, "gram_offset/size"); c.nearM(lower(o), lower(big), 1e-13, "gram_offset/lower");
    convertLLTtoSymmetric(o); c.nearM(o, big, 1e-13, "gram_offset/symmetric"); c.count("offsets");
    { MatrixXd base = r.gmat(n, n), s = base; addATA(s, a); c.nearM(lower(s), lower(base + e), 1e-13, "gram_add/lower"); c.nearM(upper(s), upper(base), 0, "gram_add/upper_touched"); }
    { MatrixXd base = r.gmat(N, N), s = base; addATA(s, a, before); c.nearM(lower(s), lower(base + big), 1e-13, "gram_add_offset/lower"); c.nearM(upper(s), upper(base), 0, "gram_add_offset/upper_touched"); }
    { MatrixXd s = r.gmat(n, n), t = s; convertLLTtoSymmetric(t); c.nearM(lower(t), lower(s), 0, "symmetric/lower"); c.nearM(t, t.transpose(), 0, "symmetric/symmetric"); }
    c.signature(c.desc.str() + vh::hashM(a));
}
template <int R, int C> static void diagFixed(vh::Case &c)
{
    auto &r = c.rng; typedef Eigen::Matrix<double, R, C> T; std::vector<T> v; int n = r.i(0, 5), rows = 0, cols = 0; MatrixXd e = MatrixXd::Zero(n * R, n * C);
    for (int i = 0; i < n; ++i) { T t = r.mat(R, C); v.push_back(t); e.block(rows, cols, R, C) = t; rows += R; cols += C; }
    c.nearM(makeBlockDiagonal(v), e, 0, "block_diagonal/fixed"); MatrixXd col; concatenateMatricesVertically(col, v); MatrixXd ec(n * R, n ? C : 0); for (int i = 0; i < n; ++i) ec.middleRows(i * R, R) = v[i];
    c.check(col.rows() == n * R && (n == 0 || col.cols() == C), "concatenate/fixed_size"); c.nearM(col, ec, 0, "concatenate/fixed"); c.count("fixed_sizes");
}
VH_FAMILY(block_diagonal, 3000, 40000)
{
    auto &r = c.rng; std::vector<MatrixXd> v; int n = r.i(0, 6), R = 0, C = 0; c.desc << n << " blocks:"; for (int i = 0; i < n; ++i) { v.push_back(r.mat(r.chance(0.1) ? 0 : r.i(1, 4), r.chance(0.1) ? 0 : r.i(1, 4))); R += v[i].rows(); C += v[i].cols(); c.desc << " " << v[i].rows() << "x" << v[i].cols(); }
    if (n && (!R || !C)) { v.push_back(r.mat(2, 3)); R += 2; C += 3; }
    MatrixXd e = MatrixXd::Zero(R, C); int i0 = 0, j0 = 0; for (auto &m : v) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) e(i0 + i, j0 + j) = m(i, j); i0 += m.rows(); j0 += m.cols(); }
    MatrixXd o = makeBlockDiagonal(v); c.check(o.rows() == R && o.cols() == C, "block_diagonal/size"); c.nearM(o, e, 0, "block_diagonal/list");
    MatrixXd m = r.mat(r.i(1, 4), r.i(1, 4)); int k = r.i(0, 6); e = MatrixXd::Zero(k * m.rows(), k * m.cols()); for (int q = 0; q < k; ++q) for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) e(q * m.rows() + i, q * m.cols() + j) = m(i, j);
    c.nearM(makeBlockDiagonal(m, k), e, 0, "block_diagonal/copies"); c.nearM(makeBlockDiagonal(m.transpose(), k), e.transpose(), 0, "block_diagonal/copies_of_expression"); if (k > 1) c.count("copies");
    diagFixed<2, 3>(c); diagFixed<3, 3>(c); diagFixed<1, 1>(c); diagFixed<2, 1>(c); c.signature(c.desc.str() + vh::hashM(o));
}
VH_FAMILY(concatenate, 4000, 60000)
{
    auto &r = c.rng; int n = r.i(0, 7), C = r.i(1, 5), R = 0; std::vector<MatrixXd> v; double pe = r.pick({0., 0.2, 0.5, 0.9}); int empties = 0; c.desc << "vertical:";
    for (int i = 0; i < n; ++i)
    {
        bool empty = r.chance(pe); v.push_back(empty ? (r.chance(0.5) ? MatrixXd() : (r.chance(0.5) ? MatrixXd(0, r.i(0, 6)) : MatrixXd(r.i(0, 4), 0))) : r.mat(r.i(1, 4), C)); empties += empty; if (!empty) R += v[i].rows(); c.desc << " " << v[i].rows() << "x" << v[i].cols();
        if (empty && i && v[i - 1].size() == 0) c.count("consecutive_empty");
    }
    MatrixXd e(R, R ? C : 0); int i0 = 0; for (auto &m : v) if (m.size()) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < C; ++j) e(i0 + i, j) = m(i, j); i0 += m.rows(); }
    MatrixXd o = used(r, R, R ? C : 0); concatenateMatricesVertically(o, v); c.check(o.rows() == e.rows() && o.cols() == e.cols(), "concatenate/size"); c.nearM(o, e, 0, "concatenate/vertical");
    if (n - empties >= 1) { auto w = v; w.insert(w.begin() + r.i(0, n), r.mat(r.i(1, 3), C + r.i(1, 2))); c.mustReject([&] { concatenateMatricesVertically(o, w); }, "concatenate/mismatch"); }
    // horizontally
    int h = r.i(1, 5); auto part = [&]() -> MatrixXd { return r.chance(0.25) ? MatrixXd(0, r.chance(0.5) ? 0 : r.i(1, 3)) : r.mat(h, r.i(1, 4)); };
    MatrixXd a = part(), b = part(), d = part(); auto cat = [&](std::vector<MatrixXd> p) { int cols = 0; bool any = false; for (auto &x : p) if (x.rows()) { cols += x.cols(); any = true; } MatrixXd q(any ? h : 0, cols); int j = 0; for (auto &x : p) if (x.rows()) { q.middleCols(j, x.cols()) = x; j += x.cols(); } return q; };
    o = used(r, h, std::max<int>(1, a.cols() + b.cols())); concatenateMatricesHorizontally(o, a, b); c.nearM(o, cat({a, b}), 0, "concatenate/horizontal"); o = used(r, h, std::max<int>(1, a.cols() + b.cols() + d.cols())); concatenateMatricesHorizontally(o, a, b, d); c.nearM(o, cat({a, b, d}), 0, "concatenate/horizontal3");
    if (a.rows() == 0 || b.rows() == 0 || d.rows() == 0) c.count("horizontal_empty");
    if (a.rows() && b.rows()) { MatrixXd x = r.mat(h + r.i(1, 2), 2); c.mustReject([&] { concatenateMatricesHorizontally(o, a, x); }, "concatenate/mismatch_horizontal"); c.mustReject([&] { concatenateMatricesHorizontally(o, a, x, b); }, "concatenate/mismatch_horizontal"); c.mustReject([&] { concatenateMatricesHorizontally(o, a, b, x); }, "concatenate/mismatch_horizontal"); }
    c.signature(c.desc.str() + vh::hashM(o));
}
VH_FAMILY(removal, 4000, 60000)
{
    auto &r = c.rng; int m = r.i(1, 7), n = r.i(1, 7); MatrixXd a = r.mat(m, n); c.desc << m << "x" << n;
    { int k = r.i(0, m - 1); MatrixXd o = a, e(m - 1, n); for (int i = 0, q = 0; i < m; ++i) if (i != k) e.row(q++) = a.row(i); removeRow(o, k); c.check(o.rows() == m - 1 && o.cols() == n, "remove/row_size", "row " + std::to_string(k)); c.nearM(o, e, 0, "remove/row", "row " + std::to_string(k)); }
    { int k = r.i(0, n - 1); MatrixXd o = a, e(m, n - 1); for (int i = 0, q = 0; i < n; ++i) if (i != k) e.col(q++) = a.col(i); removeColumn(o, k); c.check(o.rows() == m && o.cols() == n - 1, "remove/column_size", "column " + std::to_string(k)); c.nearM(o, e, 0, "remove/column", "column " + std::to_string(k)); if (k > m) c.count("columns_beyond_rows"); }
    { MatrixXd o = a; int k = m + r.i(0, 3); c.mustReject([&] { removeRow(o, k); }, "remove/row_range", "row " + std::to_string(k) + " of " + std::to_string(m)); c.nearM(o, a, 0, "remove/row_range_changed"); }
    { MatrixXd o = a; int k = n + r.i(0, 3); c.mustReject([&] { removeColumn(o, k); }, "remove/column_range", "column " + std::to_string(k) + " of " + std::to_string(n)); c.nearM(o, a, 0, "remove/column_range_changed"); }
    // several in a row
    { MatrixXd o = a; std::vector<int> left; for (int i = 0; i < m; ++i) left.push_back(i); int times = r.i(0, m); for (int q = 0; q < times; ++q) { int k = r.i(0, static_cast<int>(left.size()) - 1); removeRow(o, k); left.erase(left.begin() + k); } MatrixXd e(left.size(), n); for (std::size_t i = 0; i < left.size(); ++i) e.row(i) = a.row(left[i]); c.nearM(o, e, 0, "remove/rows"); }
    c.count("removals", 2); c.signature(c.desc.str() + vh::hashM(a));
}
VH_FAMILY(kronecker_identity, 3000, 40000)
{
    auto &r = c.rng; int br = r.i(1, 4), bc = r.i(1, 4), nv = r.i(0, 4), nh = r.i(1, 4), k = r.i(1, 5); MatrixXd a = r.mat(nv * br, nh * bc), e = MatrixXd::Zero(a.rows() * k, a.cols() * k); c.desc << nv << "x" << nh << " blocks of " << br << "x" << bc << " identity " << k;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) for (int l = 0; l < k; ++l) e((i / br * k + l) * br + i % br, (j / bc * k + l) * bc + j % bc) = a(i, j);
    c.nearM(multiplyBlockKroneckerIdentity(a, br, bc, k), e, 0, "kronecker/function"); if (br > 1) { MatrixXd bad = r.mat(nv * br + r.i(1, br - 1), nh * bc); c.mustReject([&] { multiplyBlockKroneckerIdentity(bad, br, bc, k); }, "kronecker/rows"); } if (bc > 1) { MatrixXd bad = r.mat(nv * br, nh * bc + r.i(1, bc - 1)); c.mustReject([&] { multiplyBlockKroneckerIdentity(bad, br, bc, k); }, "kronecker/columns"); }
    c.count("kroneckers"); c.signature(c.desc.str() + vh::hashM(a));
}
VH_FAMILY(geometry, 4000, 60000)
{
    auto &r = c.rng; Eigen::Vector3d v = r.vec(3), w = r.vec(3), cr(v(1) * w(2) - v(2) * w(1), v(2) * w(0) - v(0) * w(2), v(0) * w(1) - v(1) * w(0)); CrossProductMatrix x(v); Matrix3 xm = x.eval();
    c.desc << vh::show(v.transpose()) << " " << vh::show(w.transpose());
    c.nearM(xm * w, cr, 1e-13, "cross/matrix"); c.nearM(x * w, cr, 1e-13, "cross/right"); c.nearM(CrossProductMatrix::eval(v), xm, 0, "cross/static"); c.nearM(xm, -xm.transpose(), 0, "cross/skew"); MatrixXd m = r.mat(r.i(1, 5), 3); c.nearM(m * x, m * xm, 1e-13, "cross/left");
    Matrix3 m3 = r.mat(3, 3); c.nearM(m3 * x, m3 * xm, 1e-13, "cross/left3");
    // a rigid motion of a set of points
    int n = r.i(1, 6), d = r.i(2, 3); MatrixXd p = r.mat(d, n), rot = r.mat(d, d); VectorXd t = r.vec(d); MatrixXd e(d, n); for (int j = 0; j < n; ++j) for (int i = 0; i < d; ++i) { e(i, j) = t(i); for (int k = 0; k < d; ++k) e(i, j) += rot(i, k) * p(k, j); } c.nearM(transform(p, rot, t), e, 1e-13, "transform/points");
    { Matrix2x4 q = r.mat(2, 4); Matrix2 R2 = r.mat(2, 2); Vector2 t2 = r.vec(2); Matrix2x4 s = transform(q, R2, t2); for (int j = 0; j < 4; ++j) c.nearM(s.col(j), R2 * q.col(j) + t2, 1e-13, "transform/fixed"); }
    MatrixXd u = r.mat(r.i(1, 4), r.i(1, 4)); unsetMatrix(u); for (int i = 0; i < u.size(); ++i) c.check(u.data()[i] != u.data()[i], "unset/nan");
    c.count("crosses"); c.count("transforms"); c.signature(c.desc.str());
}
VH_FAMILY(conversions, 3000, 40000)
{
    auto &r = c.rng; using namespace humoto; double a = r.normal() * std::pow(10., r.i(-3, 3)); c.desc << a; const double pi = 3.14159265358979323846;
    c.near(convertDegreesToRadians(a), a * pi / 180, 1e-13, "convert/radians"); c.near(convertRadiansToDegrees(a), a * 180 / pi, 1e-13, "convert/degrees"); c.near(convertRadiansToDegrees(convertDegreesToRadians(a)), a, 1e-13, "convert/roundtrip");
    double s = getEncircledSquareSide(std::fabs(a)); c.near(s * std::sqrt(2.), 2 * std::fabs(a), 1e-13, "convert/square");
    long ms = r.chance(0.2) ? r.i(0, 3) : r.i(0, 100000000); c.near(convertMillisecondToSecond(ms), ms * 1e-3, 1e-15, "time/seconds"); c.check(convertSecondToMillisecond(convertMillisecondToSecond(ms)) == static_cast<std::size_t>(ms), "time/roundtrip");
    double frac = r.real(-0.49, 0.49); if (ms + frac >= 0) c.check(convertSecondToMillisecond((ms + frac) / 1000.) == static_cast<std::size_t>(ms), "time/rounding"); double up = r.real(0.01, 0.99); c.check(truncateSecondToMillisecond((ms + up) / 1000.) == static_cast<std::size_t>(ms), "time/truncation");
    double x = r.coef(), tol = std::pow(10., r.i(-12, 0)); c.check(isApproximatelyEqual(x, x + 0.5 * tol, tol) && isApproximatelyEqual(x + 0.5 * tol, x, tol) && !isApproximatelyEqual(x, x + 2 * tol + 1e-9 * std::fabs(x), tol) && !isApproximatelyEqual(x + 2 * tol + 1e-9 * std::fabs(x), x, tol), "convert/approximately_equal");
    std::size_t o = r.i(0, 20), l = r.i(0, 20), m = r.i(0, 40); Location L(o, l), K; c.check(K.offset_ == 0 && K.length_ == 0 && L.front() == o && L.end() == o + l && L.checkLength(m) == (o + l <= m), "location/range"); K.set(o, l); c.check(K == L && !(K != L), "location/equal"); K.set(o + 1, l); c.check(K != L && !(K == L), "location/different"); K.set(o, l + 1); c.check(K != L && !(K == L), "location/different");
    c.count("conversions"); c.signature(c.desc.str() + std::to_string(ms));
}
template <class T> static void sz(vh::Case &c, int rows, int cols) { c.check(T::RowsAtCompileTime == rows && T::ColsAtCompileTime == cols, "types/size", std::to_string(rows) + "x" + std::to_string(cols)); c.count("types"); }
VH_FAMILY(types, 1, 1)
{
#define ROW(n) sz<Matrix##n##x2>(c, n, 2);
    sz<Vector2>(c, 2, 1); sz<Vector3>(c, 3, 1); sz<Vector4>(c, 4, 1); sz<Vector5>(c, 5, 1); sz<Vector6>(c, 6, 1); sz<Vector7>(c, 7, 1); sz<Vector8>(c, 8, 1); sz<Vector9>(c, 9, 1); sz<Vector10>(c, 10, 1);
    sz<Matrix2>(c, 2, 2); sz<Matrix3>(c, 3, 3); sz<Matrix4>(c, 4, 4); sz<Matrix5>(c, 5, 5); sz<Matrix6>(c, 6, 6); sz<Matrix7>(c, 7, 7); sz<Matrix8>(c, 8, 8); sz<Matrix9>(c, 9, 9); sz<Matrix10>(c, 10, 10);
#define T(a, b) sz<Matrix##a##x##b>(c, a, b);
    T(1,2) T(1,3) T(1,4) T(1,5) T(1,6) T(1,7) T(1,8) T(1,9) T(1,10) T(2,3) T(2,4) T(2,5) T(2,6) T(2,7) T(2,8) T(2,9) T(2,10)
    T(3,2) T(3,4) T(3,5) T(3,6) T(3,7) T(3,8) T(3,9) T(3,10) T(4,2) T(4,3) T(4,5) T(4,6) T(4,7) T(4,8) T(4,9) T(4,10)
    T(5,2) T(5,3) T(5,4) T(5,6) T(5,7) T(5,8) T(5,9) T(5,10) T(6,2) T(6,3) T(6,4) T(6,5) T(6,7) T(6,8) T(6,9) T(6,10)
    T(7,2) T(7,3) T(7,4) T(7,5) T(7,6) T(7,8) T(7,9) T(7,10) T(8,2) T(8,3) T(8,4) T(8,5) T(8,6) T(8,7) T(8,9) T(8,10)
    T(9,2) T(9,3) T(9,4) T(9,5) T(9,6) T(9,7) T(9,8) T(9,10) T(10,2) T(10,3) T(10,4) T(10,5) T(10,6) T(10,7) T(10,8) T(10,9)
    c.signature("all");
}
int main(int argc, char **argv) { return vh::run(argc, argv); }
