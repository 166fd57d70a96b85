// M01: matrix operators, elementwise application, access, equality, generators.
#include "blas_common.hpp"
struct Wr {
    Sc v;
    Wr() = default;
    explicit Wr(const Sc &s) : v(s * Sc(3) + Sc(1)) {}
};
#define EACH                         \
    for (size_t i = 0; i < N; ++i)   \
        for (size_t j = 0; j < M; ++j)
template<size_t N, size_t M>
void ops() {
    auto a = vmat<N, M>("a"), b = vmat<N, M>("b"), c = vmat<N, M>("c");
    Sc s = symrt::var("s");
    const auto a0 = a, b0 = b;
    auto r1 = a + s;
    auto r2 = s + a;
    auto r3 = a + b;
    auto r4 = a * s;
    auto r5 = s * a;
    auto r6 = a * b;
    auto r7 = s / a;
    auto r8 = a / b;
    auto r9 = a + a;
    auto e1 = A::elementwise([](Sc x) { return x * x + Sc(7); }, a);
    auto e2 = A::elementwise([](Sc x, Sc y) { return x - Sc(2) * y; }, a, b);
    auto e3 = A::elementwise([](Sc x, Sc y, Sc z) { return x * y - z; }, a, b, c);
    auto ca = A::cast<Wr>(a);
    auto g = A::generate<N, M>([&](auto i, auto j) { return s * Sc(i) + Sc(j); });
    auto f = A::fill<N, M>(s);
    EACH {
        Sc x = a.arrays[i][j], y = b.arrays[i][j], z = c.arrays[i][j];
        eq(r1.arrays[i][j], x + s, L("m+s", i, j));
        eq(r2.arrays[i][j], s + x, L("s+m", i, j));
        eq(r3.arrays[i][j], x + y, L("m+n", i, j));
        eq(r4.arrays[i][j], x * s, L("m*s", i, j));
        eq(r5.arrays[i][j], s * x, L("s*m", i, j));
        eq(r6.arrays[i][j], x * y, L("m*n", i, j));
        eq(r7.arrays[i][j], s / x, L("s/m", i, j));
        eq(r8.arrays[i][j], x / y, L("m/n", i, j));
        eq(r9.arrays[i][j], x + x, L("m+m", i, j));
        eq(e1.arrays[i][j], x * x + Sc(7), L("elementwise1", i, j));
        eq(e2.arrays[i][j], x - y - y, L("elementwise2", i, j));
        eq(e3.arrays[i][j], y * x - z, L("elementwise3", i, j));
        eq(ca.arrays[i][j].v, x * Sc(3) + Sc(1), L("cast", i, j));
        eq(g.arrays[i][j], s * Sc(i) + Sc(j), L("generate", i, j));
        eq(f.arrays[i][j], s, L("fill", i, j));
        eq(a.arrays[i][j], a0.arrays[i][j], "operand untouched");
        eq(b.arrays[i][j], b0.arrays[i][j], "operand untouched");
    }
    reach("ops");
}
template<size_t N, size_t M>
void equality() {
    auto a = vmat<N, M>("a"), b = vmat<N, M>("b");
    Bool all(true);
    EACH all = all & Sc::eq(a.arrays[i][j], b.arrays[i][j]);
    bool e = (a == b);
    check(e ? all : !all, "m==n iff all elements equal");
    reach(e ? "equal" : "different");
}
template<size_t N, size_t M>
void inequality() {
    auto a = vmat<N, M>("a"), b = vmat<N, M>("b");
    Bool all(true);
    EACH all = all & Sc::eq(a.arrays[i][j], b.arrays[i][j]);
    bool e = (a != b);
    check(e ? !all : all, "m!=n iff some element differs");
    reach(e ? "different" : "equal");
}
template<size_t N, size_t M>
void access() {
    auto a = vmat<N, M>("a");
    const auto k = a;
    check(Bool(Mat<N, M>::column_size == N && Mat<N, M>::row_size == M), "sizes");
    for (size_t i = 0; i < N; ++i) {
        auto r = k.row(i);
        static_assert(decltype(r)::size == M);
        for (size_t j = 0; j < M; ++j) {
            eq(r.array[j], a.arrays[i][j], L("row", i, j));
            eq(k[i][j], a.arrays[i][j], L("m[i][j] const", i, j));
            eq(a[i][j], k.arrays[i][j], L("m[i][j]", i, j));
        }
    }
    for (size_t j = 0; j < M; ++j) {
        auto c = k.column(j);
        static_assert(decltype(c)::size == N);
        for (size_t i = 0; i < N; ++i) eq(c.array[i], a.arrays[i][j], L("column", i, j));
    }
    for (size_t o : {(size_t)0, (size_t)1, (size_t)2, (size_t)7, (size_t)1 << 20, (size_t)1 << 32, ~(size_t)0 - N - M}) {
        expect_throw([&] { k.row(N + o); }, "row index past the end");
        expect_throw([&] { k.column(M + o); }, "column index past the end");
    }
    expect_throw([&] { k.row(~(size_t)0); }, "row index past the end");
    expect_throw([&] { k.column(~(size_t)0); }, "column index past the end");
    Sc s = symrt::var("s");
    for (size_t p = 0; p < N; ++p)
        for (size_t q = 0; q < M; ++q) {
            auto c = k;
            c[p][q] = s;
            EACH eq(c.arrays[i][j], (i == p && j == q) ? s : k.arrays[i][j], "write one element");
        }
    reach("access");
}
template<size_t N, size_t M>
void complexes() {
    auto a = cmat<N, M>("a");
    auto c = A::conj(a);
    auto r = A::real(a);
    auto m = A::imag(a);
    EACH {
        eq(c.arrays[i][j], a.arrays[i][j].real(), -a.arrays[i][j].imag(), L("conj", i, j));
        eq(r.arrays[i][j], a.arrays[i][j].real(), L("real", i, j));
        eq(m.arrays[i][j], a.arrays[i][j].imag(), L("imag", i, j));
    }
    reach("complex");
}
template<size_t N>
void ident() {
    auto g = A::get_identity<Sc, N>();
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) {
            eq(g.arrays[i][j], Sc(i == j ? 1 : 0), L("identity", i, j));
            eq(A::identity<Sc, N>.arrays[i][j], Sc(i == j ? 1 : 0), L("identity constant", i, j));
        }
    reach("identity");
}
template<size_t N, size_t M>
void reg() {
    string n = std::to_string(N) + "x" + std::to_string(M);
    add_case("ops/" + n, "mode=real", ops<N, M>);
    add_case("eq/" + n, "mode=real", equality<N, M>);
    add_case("ne/" + n, "mode=real", inequality<N, M>);
    add_case("access/" + n, "mode=real", access<N, M>);
    add_case("complex/" + n, "mode=real", complexes<N, M>);
}
int main(int c, char **v) {
    reg<1, 1>();
    reg<1, 2>();
    reg<2, 1>();
    reg<2, 2>();
    reg<2, 3>();
    reg<3, 2>();
    reg<3, 3>();
    reg<1, 5>();
    reg<5, 1>();
    reg<3, 4>();
    reg<4, 3>();
    reg<4, 4>();
    reg<5, 2>();
#ifdef THOROUGH
    reg<2, 5>();
    reg<5, 5>();
    reg<6, 4>();
    reg<4, 7>();
    reg<8, 8>();
#endif
    add_case("identity/1", "mode=real", ident<1>);
    add_case("identity/2", "mode=real", ident<2>);
    add_case("identity/3", "mode=real", ident<3>);
    add_case("identity/4", "mode=real", ident<4>);
    add_case("identity/5", "mode=real", ident<5>);
    add_case("identity/8", "mode=real", ident<8>);
    return symrt::run_main(c, v);
}
