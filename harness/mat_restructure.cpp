// M02: restructuring matrices.
#include "blas_common.hpp"
#define EACH                         \
    for (size_t i = 0; i < N; ++i)   \
        for (size_t j = 0; j < M; ++j)
template<size_t N, size_t M>
void transposes() {
    auto a = vmat<N, M>("a");
    auto t = A::transpose(a);
    static_assert(decltype(t)::column_size == M && decltype(t)::row_size == N);
    EACH eq(t.arrays[j][i], a.arrays[i][j], L("transpose", i, j));
    auto tt = A::transpose(t);
    EACH eq(tt.arrays[i][j], a.arrays[i][j], L("transpose twice", i, j));
    auto c = cmat<N, M>("c");
    auto h = A::hermitian(c);
    EACH eq(h.arrays[j][i], c.arrays[i][j].real(), -c.arrays[i][j].imag(), L("hermitian", i, j));
    auto hr = A::hermitian(a);
    EACH eq(hr.arrays[j][i], a.arrays[i][j], L("hermitian of real", i, j));
    reach("transpose");
}
template<size_t N, size_t M, size_t R, size_t C>
void rep1(const Mat<N, M> &a) {
    auto r = A::repmat<R, C>(a);
    static_assert(decltype(r)::column_size == N * R && decltype(r)::row_size == M * C);
    for (size_t i = 0; i < N * R; ++i)
        for (size_t j = 0; j < M * C; ++j) eq(r.arrays[i][j], a.arrays[i % N][j % M], L("repmat", i, j));
}
template<size_t N, size_t M>
void repmats() {
    auto a = vmat<N, M>("a");
    rep1<N, M, 1, 1>(a);
    rep1<N, M, 1, 3>(a);
    rep1<N, M, 2, 1>(a);
    rep1<N, M, 2, 2>(a);
    rep1<N, M, 3, 2>(a);
    reach("repmat");
}
template<size_t N, size_t M>
void swaps() {
    auto m = vmat<N, M>("a");
    for (size_t a = 0; a < N; ++a)
        for (size_t b = 0; b < N; ++b) {
            auto r = A::swaprow(m, a, b);
            EACH eq(r.arrays[i][j], m.arrays[i == a ? b : i == b ? a : i][j], L("swaprow", a, b) + L("", i, j));
        }
    for (size_t a = 0; a < M; ++a)
        for (size_t b = 0; b < M; ++b) {
            auto r = A::swapcol(m, a, b);
            EACH eq(r.arrays[i][j], m.arrays[i][j == a ? b : j == b ? a : j], L("swapcol", a, b) + L("", i, j));
        }
    reach("swap");
}
template<size_t N, size_t M, size_t P>
void cat1() {
    auto a = vmat<N, M>("a");
    auto b = vmat<N, P>("b");
    auto h = A::horzcat(a, b);
    static_assert(decltype(h)::column_size == N && decltype(h)::row_size == M + P);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M + P; ++j)
            eq(h.arrays[i][j], j < M ? a.arrays[i][j] : b.arrays[i][j - M], L("horzcat", i, j));
    auto c = vmat<M, N>("c");
    auto d = vmat<P, N>("d");
    auto v = A::vertcat(c, d);
    static_assert(decltype(v)::column_size == M + P && decltype(v)::row_size == N);
    for (size_t i = 0; i < M + P; ++i)
        for (size_t j = 0; j < N; ++j)
            eq(v.arrays[i][j], i < M ? c.arrays[i][j] : d.arrays[i - M][j], L("vertcat", i, j));
}
template<size_t N, size_t M>
void cats() {
    cat1<N, M, 1>();
    cat1<N, M, 2>();
    cat1<N, M, 3>();
    cat1<N, M, M>();
    reach("cat");
}
template<size_t N, size_t M, size_t P, size_t Q>
void sub1(const Mat<N, M> &m) {
    if constexpr (P <= N && Q <= M) {
        for (size_t a = 0; a <= N + 1; ++a)
            for (size_t b = 0; b <= M + 1; ++b) {
                string l = "submat " + std::to_string(P) + "x" + std::to_string(Q) + L(" at ", a, b);
                if (a + P > N || b + Q > M) {
                    expect_throw([&] { A::submat<P, Q>(m, a, b); }, l);
                    continue;
                }
                auto s = A::submat<P, Q>(m, a, b);
                static_assert(decltype(s)::column_size == P && decltype(s)::row_size == Q);
                for (size_t i = 0; i < P; ++i)
                    for (size_t j = 0; j < Q; ++j) eq(s.arrays[i][j], m.arrays[a + i][b + j], l);
            }
        for (size_t o : {(size_t)1 << 20, (size_t)1 << 32, (size_t)1 << 63}) {
            expect_throw([&] { A::submat<P, Q>(m, o, 0); }, "submat far out of range");
            expect_throw([&] { A::submat<P, Q>(m, 0, o); }, "submat far out of range");
        }
    }
}
template<size_t N, size_t M>
void subs() {
    auto m = vmat<N, M>("a");
    sub1<N, M, 1, 1>(m);
    sub1<N, M, 1, 2>(m);
    sub1<N, M, 2, 1>(m);
    sub1<N, M, 2, 2>(m);
    sub1<N, M, 3, 2>(m);
    sub1<N, M, 2, 3>(m);
    sub1<N, M, N, M>(m);
    sub1<N, M, 1, M>(m);
    sub1<N, M, N, 1>(m);
    reach("submat");
}
template<size_t N, size_t M, size_t P>
void resh1(const Mat<N, M> &m) {
    if constexpr (P <= N * M) {
        if constexpr ((N * M) % P == 0) {
            constexpr size_t Q = N * M / P;
            auto r = A::reshape<P, Q>(m);
            static_assert(decltype(r)::column_size == P && decltype(r)::row_size == Q);
            for (size_t k = 0; k < N * M; ++k)
                eq(r.arrays[k / Q][k % Q], m.arrays[k / M][k % M], "reshape keeps the row-major order");
        }
        resh1<N, M, P + 1>(m);
    }
}
template<size_t N, size_t M>
void reshapes() {
    resh1<N, M, 1>(vmat<N, M>("a"));
    auto v = vvec<N>("v");
    auto c = A::as_column(v);
    auto r = A::as_row(v);
    static_assert(decltype(c)::column_size == N && decltype(c)::row_size == 1);
    static_assert(decltype(r)::column_size == 1 && decltype(r)::row_size == N);
    for (size_t i = 0; i < N; ++i) {
        eq(c.arrays[i][0], v.array[i], L("as_column", i));
        eq(r.arrays[0][i], v.array[i], L("as_row", i));
    }
    reach("reshape");
}
template<size_t N, size_t M>
void reg() {
    string n = std::to_string(N) + "x" + std::to_string(M);
    add_case("transpose/" + n, "mode=real", transposes<N, M>);
    add_case("repmat/" + n, "mode=real", repmats<N, M>);
    add_case("swap/" + n, "mode=real", swaps<N, M>);
    add_case("cat/" + n, "mode=real", cats<N, M>);
    add_case("submat/" + n, "mode=real", subs<N, M>);
    add_case("reshape/" + n, "mode=real", reshapes<N, M>);
}
int main(int c, char **v) {
    reg<1, 1>();
    reg<1, 2>();
    reg<2, 1>();
    reg<2, 2>();
    reg<2, 3>();
    reg<3, 2>();
    reg<3, 3>();
    reg<1, 5>();
    reg<5, 1>();
    reg<3, 4>();
    reg<4, 3>();
    reg<4, 4>();
#ifdef THOROUGH
    reg<2, 5>();
    reg<5, 2>();
    reg<5, 5>();
    reg<6, 4>();
    reg<4, 6>();
#endif
    return symrt::run_main(c, v);
}
