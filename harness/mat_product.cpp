// M03: products, trace and norms.
#include "blas_common.hpp"
template<size_t N, size_t M, size_t P>
void products() {
    auto a = vmat<N, M>("a");
    auto b = vmat<M, P>("b");
    auto c = A::matmul(a, b);
    static_assert(decltype(c)::column_size == N && decltype(c)::row_size == P);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < P; ++j) {
            Sc s(0);
            for (size_t k = 0; k < M; ++k) s = s + a.arrays[i][k] * b.arrays[k][j];
            eq(c.arrays[i][j], s, L("matmul", i, j));
        }
    auto u = vvec<N>("u");
    auto um = A::vectmatmul(u, a);
    static_assert(decltype(um)::size == M);
    for (size_t j = 0; j < M; ++j) {
        Sc s(0);
        for (size_t k = 0; k < N; ++k) s = s + u.array[k] * a.arrays[k][j];
        eq(um.array[j], s, L("vectmatmul", j));
    }
    auto w = vvec<M>("w");
    auto mw = A::matvectmul(a, w);
    static_assert(decltype(mw)::size == N);
    for (size_t i = 0; i < N; ++i) {
        Sc s(0);
        for (size_t k = 0; k < M; ++k) s = s + a.arrays[i][k] * w.array[k];
        eq(mw.array[i], s, L("matvectmul", i));
    }
    reach("products");
}
template<size_t N, size_t M, size_t P>
void cproducts() {
    auto a = cmat<N, M>("a");
    auto b = cmat<M, P>("b");
    auto c = A::matmul(a, b);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < P; ++j) {
            Sc re(0), im(0);
            for (size_t k = 0; k < M; ++k) {
                const auto &x = a.arrays[i][k];
                const auto &y = b.arrays[k][j];
                re = re + x.real() * y.real() - x.imag() * y.imag();
                im = im + x.real() * y.imag() + x.imag() * y.real();
            }
            eq(c.arrays[i][j], re, im, L("complex matmul", i, j));
        }
    reach("products");
}
template<size_t N, size_t M, size_t P, size_t Q>
void kr() {
    auto a = vmat<N, M>("a");
    auto b = vmat<P, Q>("b");
    auto c = A::kron(a, b);
    static_assert(decltype(c)::column_size == N * P && decltype(c)::row_size == M * Q);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j)
            for (size_t k = 0; k < P; ++k)
                for (size_t l = 0; l < Q; ++l)
                    eq(c.arrays[i * P + k][j * Q + l], a.arrays[i][j] * b.arrays[k][l], "kron");
    reach("kron");
}
template<size_t N>
void tr() {
    auto a = vmat<N, N>("a");
    Sc s(0);
    for (size_t i = 0; i < N; ++i) s = s + a.arrays[i][i];
    eq(A::trace(a), s, "trace");
    reach("trace");
}
// norms: the greatest absolute row / column sum
template<size_t N, size_t M>
void norm_r() {
    auto a = vmat<N, M>("a");
    Sc r = A::mars(a);
    Bool hit(false);
    for (size_t i = 0; i < N; ++i) {
        Sc s(0);
        for (size_t j = 0; j < M; ++j) s = s + sabs(a.arrays[i][j]);
        check(Sc::le(s, r), "mars bounds every absolute row sum");
        hit = hit | Sc::eq(s, r);
    }
    check(hit, "mars is one of the absolute row sums");
    reach("mars");
}
template<size_t N, size_t M>
void norm_c() {
    auto a = vmat<N, M>("a");
    Sc r = A::macs(a);
    Bool hit(false);
    for (size_t j = 0; j < M; ++j) {
        Sc s(0);
        for (size_t i = 0; i < N; ++i) s = s + sabs(a.arrays[i][j]);
        check(Sc::le(s, r), "macs bounds every absolute column sum");
        hit = hit | Sc::eq(s, r);
    }
    check(hit, "macs is one of the absolute column sums");
    reach("macs");
}
template<size_t N, size_t M, size_t P>
void reg() {
    string n = std::to_string(N) + "x" + std::to_string(M) + "x" + std::to_string(P);
    add_case("mul/" + n, "mode=real", products<N, M, P>);
    add_case("cmul/" + n, "mode=real", cproducts<N, M, P>);
}
template<size_t N, size_t M, size_t P, size_t Q>
void regk() {
    add_case("kron/" + std::to_string(N) + std::to_string(M) + std::to_string(P) + std::to_string(Q), "mode=real", kr<N, M, P, Q>);
}
template<size_t N, size_t M>
void regn() {
    string n = std::to_string(N) + "x" + std::to_string(M);
    add_case("mars/" + n, "mode=real", norm_r<N, M>);
    add_case("macs/" + n, "mode=real", norm_c<N, M>);
}
int main(int c, char **v) {
    reg<1, 1, 1>();
    reg<1, 3, 1>();
    reg<3, 1, 2>();
    reg<2, 2, 2>();
    reg<2, 3, 4>();
    reg<4, 3, 2>();
    reg<3, 3, 3>();
    reg<4, 4, 4>();
    reg<1, 5, 2>();
    reg<2, 6, 1>();
    regk<1, 1, 1, 1>();
    regk<1, 2, 3, 1>();
    regk<2, 2, 2, 2>();
    regk<2, 3, 3, 2>();
    regk<3, 2, 1, 4>();
    regk<3, 1, 2, 3>();
    add_case("trace/1", "mode=real", tr<1>);
    add_case("trace/2", "mode=real", tr<2>);
    add_case("trace/3", "mode=real", tr<3>);
    add_case("trace/4", "mode=real", tr<4>);
    add_case("trace/7", "mode=real", tr<7>);
    regn<1, 1>();
    regn<1, 2>();
    regn<2, 1>();
    regn<2, 2>();
    regn<1, 4>();
    regn<4, 1>();
    regn<2, 3>();
    regn<3, 2>();
    regn<3, 3>();
#ifdef THOROUGH
    reg<5, 5, 5>();
    reg<5, 2, 6>();
    reg<8, 3, 8>();
    regk<3, 3, 3, 3>();
    regk<2, 4, 4, 3>();
    regn<2, 4>();
    regn<4, 2>();
    regn<3, 4>();
#endif
    return symrt::run_main(c, v);
}
