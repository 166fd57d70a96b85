// M04 (rref, rank) and M05 (determinant, inverse) over an exact ordered field, and with a rounding tolerance.
#include "blas_common.hpp"
namespace symrt {
// Contracts used in place of two functions whose own behaviour is decided elsewhere (M03 norms, V03 absolute value):
// with epsilon 0 the norm only enters the elimination multiplied by zero.
inline Sc abs(const Sc &a) { return a.isc() ? (a < Sc(0) ? -a : a) : sabs(a); }
inline bool stub_norm = true;
template<size_t N, size_t M>
Sc mars(const Mat<N, M> &m) {
    if (!stub_norm) return A::mars<Sc, N, M>(m);
    return Sc(1);
}
}    // namespace symrt

// Leibniz determinant of rows r[0..k), columns c[0..k)
template<class G>
Sc minor_of(const G &g, const std::vector<size_t> &r, const std::vector<size_t> &c) {
    size_t k = r.size();
    if (k == 0) return Sc(1);
    if (k == 1) return g(r[0], c[0]);
    Sc s(0);
    for (size_t x = 0; x < k; ++x) {
        std::vector<size_t> rr(r.begin() + 1, r.end()), cc;
        for (size_t y = 0; y < k; ++y)
            if (y != x) cc.push_back(c[y]);
        Sc t = g(r[0], c[x]) * minor_of(g, rr, cc);
        s = (x % 2) ? s - t : s + t;
    }
    return s;
}
template<size_t N>
Sc detof(const Mat<N, N> &m) {
    std::vector<size_t> id;
    for (size_t i = 0; i < N; ++i) id.push_back(i);
    return minor_of([&](size_t i, size_t j) { return m.arrays[i][j]; }, id, id);
}
// R is the reduced row echelon form of m: shape, every row of m is a combination of rows of R, and rank m is full
template<size_t N, size_t M>
size_t check_rref(const Mat<N, M> &m, const Mat<N, M> &R) {
    std::vector<size_t> piv;
    size_t r = 0;
    for (; r < N; ++r) {
        size_t j = piv.empty() ? 0 : piv.back() + 1;
        for (size_t q = 0; q < j; ++q) eq(R.arrays[r][q], Sc(0), "zeros left of the pivot");
        while (j < M && symrt::decide(Sc::eq(R.arrays[r][j], Sc(0)))) ++j;
        if (j == M) break;
        piv.push_back(j);
    }
    for (size_t i = r; i < N; ++i)
        for (size_t j = 0; j < M; ++j) eq(R.arrays[i][j], Sc(0), "zero rows come last");
    for (size_t k = 0; k < r; ++k)
        for (size_t i = 0; i < N; ++i) eq(R.arrays[i][piv[k]], Sc(i == k ? 1 : 0), "pivot columns are unit columns");
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j) {
            Sc s(0);
            for (size_t k = 0; k < r; ++k) s = s + m.arrays[i][piv[k]] * R.arrays[k][j];
            eq(s, m.arrays[i][j], "the rows of the matrix are combinations of the rows of its echelon form");
        }
    // some minor of order r on the pivot columns does not vanish
    Bool any(r == 0);
    for (size_t mask = 0; mask < ((size_t)1 << N); ++mask) {
        std::vector<size_t> rows;
        for (size_t i = 0; i < N; ++i)
            if (mask >> i & 1) rows.push_back(i);
        if (rows.size() != r || r == 0) continue;
        any = any | !Sc::eq(minor_of([&](size_t i, size_t j) { return m.arrays[i][j]; }, rows, piv), Sc(0));
    }
    check(any, "the echelon form has no more rows than the rank of the matrix");
    return r;
}
template<size_t N, size_t M>
void rref_real() {
    auto m = vmat<N, M>("a");
    auto R = A::rref(m);
    size_t r = check_rref(m, R);
    reach("rank " + std::to_string(r));
}
template<size_t N, size_t M>
void rank_real() {
    auto m = vmat<N, M>("a");
    size_t k = A::rank(m);
    auto R = A::rref(m);
    size_t r = check_rref(m, R);
    check(Bool(k == r), "rank counts the non-zero rows of the echelon form");
    auto R0 = A::rref(m, Sc(0));
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j) eq(R0.arrays[i][j], R.arrays[i][j], "explicit zero tolerance");
    reach("rank " + std::to_string(k));
}
template<size_t N>
void det_real() {
    auto m = vmat<N, N>("a");
    Sc d = A::det(m);
    eq(d, detof(m), "determinant");
    reach("det");
}
template<size_t N>
void inv_real() {
    auto m = vmat<N, N>("a");
    Mat<N, N> v = {};
    bool thrown = throws([&] { v = A::inverse(m); });
    if (thrown) {
        eq(detof(m), Sc(0), "only singular matrices are rejected");
        reach("singular");
        return;
    }
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) {
            Sc s(0), t(0);
            for (size_t k = 0; k < N; ++k) {
                s = s + m.arrays[i][k] * v.arrays[k][j];
                t = t + v.arrays[i][k] * m.arrays[k][j];
            }
            eq(s, Sc(i == j ? 1 : 0), L("A*inverse(A)", i, j));
            eq(t, Sc(i == j ? 1 : 0), L("inverse(A)*A", i, j));
        }
    reach("inverted");
}
// integer entries scaled by a power of two, with the epsilon of double: the tolerance must neither swallow
// genuine pivots nor let vanishing ones through (every nonzero pivot is at least scale/bound^N)
template<size_t N, size_t M>
Mat<N, M> imat(long lo, long hi, Sc scale) {
    Mat<N, M> m = {};
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j) m.arrays[i][j] = symrt::ivar(nm("a", i, j), lo, hi) * scale;
    return m;
}
Sc p2(int e) { return e >= 0 ? Sc::rat((__int128)1 << e, 1) : Sc::rat(1, (__int128)1 << -e); }
template<size_t N, size_t M, int E>
void rref_tol() {
    symrt::eps_value = p2(-52);
    symrt::stub_norm = false;
    auto m = imat<N, M>(-3, 3, p2(E));
    auto R = A::rref(m);
    size_t r = check_rref(m, R);
    check(Bool(A::rank(m) == r), "rank");
    reach("rank " + std::to_string(r));
}
template<size_t N, int E>
void inv_tol() {
    symrt::eps_value = p2(-52);
    symrt::stub_norm = false;
    auto m = imat<N, N>(-3, 3, p2(E));
    Sc dd = detof(m);
    eq(A::det(m), dd, "determinant");
    Mat<N, N> v = {};
    bool thrown = throws([&] { v = A::inverse(m); });
    if (thrown) {
        eq(dd, Sc(0), "only singular matrices are rejected");
        reach("singular");
        return;
    }
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) {
            Sc s(0);
            for (size_t k = 0; k < N; ++k) s = s + m.arrays[i][k] * v.arrays[k][j];
            eq(s, Sc(i == j ? 1 : 0), L("A*inverse(A)", i, j));
        }
    reach("inverted");
}
template<size_t N, size_t M>
void regr(string o = "") {
    string n = std::to_string(N) + "x" + std::to_string(M);
    add_case("rref/" + n, "mode=real div=check " + o, rref_real<N, M>);
    if (N * M < 9) add_case("rank/" + n, "mode=real div=check " + o, rank_real<N, M>);
}
template<size_t N>
void regd(string o = "") {
    string n = std::to_string(N);
    add_case("det/" + n, "mode=real div=check reach=det " + o, det_real<N>);
    add_case("inverse/" + n, "mode=real div=check reach=inverted,singular " + o, inv_real<N>);
}
int main(int c, char **v) {
#ifdef PART_RREF
    regr<1, 1>();
    regr<1, 2>();
    regr<2, 1>();
    regr<1, 3>();
    regr<3, 1>();
    regr<2, 2>();
    regr<2, 3>();
    regr<3, 2>();
    regr<3, 3>("shard=7 weight=5");
    add_case("rref_tol/2x2_0", "mode=real div=check", rref_tol<2, 2, 0>);
    add_case("rref_tol/2x2_-60", "mode=real div=check", rref_tol<2, 2, -60>);
    add_case("rref_tol/1x3_-60", "mode=real div=check", rref_tol<1, 3, -60>);
#ifdef THOROUGH
    regr<1, 4>();
    regr<4, 1>();
    regr<2, 4>();
    regr<4, 2>("shard=7 weight=5");
    regr<3, 4>("shard=7 weight=5");
    add_case("rref_tol/2x2_30", "mode=real div=check", rref_tol<2, 2, 30>);
    add_case("rref_tol/2x3_0", "mode=real div=check shard=7", rref_tol<2, 3, 0>);
#endif
#endif
#ifdef PART_INV
    regd<1>();
    regd<2>();
    regd<3>("shard=7 weight=5");
    add_case("inverse_tol/1_-60", "mode=real div=check", inv_tol<1, -60>);
    add_case("inverse_tol/2_0", "mode=real div=check", inv_tol<2, 0>);
    add_case("inverse_tol/2_-60", "mode=real div=check", inv_tol<2, -60>);
#ifdef THOROUGH
    regd<4>("shard=9 weight=5");
    add_case("inverse_tol/2_40", "mode=real div=check", inv_tol<2, 40>);
#endif
#endif
    return symrt::run_main(c, v);
}
