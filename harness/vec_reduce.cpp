// V03: reductions and complex-aware componentwise functions on vectors.
#include "blas_common.hpp"
template<size_t N>
void products() {
    auto a = vvec<N>("a"), b = vvec<N>("b");
    Sc d(0), s(0);
    for (size_t i = 0; i < N; ++i) {
        d = d + a.array[i] * b.array[i];
        s = s + a.array[i];
    }
    eq(A::dot(a, b), d, "dot");
    eq(A::dot(b, a), d, "dot is symmetric");
    eq(A::sum(a), s, "sum");
    auto c = A::conj(a);
    for (size_t i = 0; i < N; ++i) eq(c.array[i], a.array[i], L("conj of real", i));
    reach("products");
}
template<size_t N>
void complex_products() {
    auto a = cvec<N>("a"), b = cvec<N>("b");
    Sc re(0), im(0), sr(0), si(0);
    for (size_t i = 0; i < N; ++i) {
        Sc x = a.array[i].real(), y = a.array[i].imag(), u = b.array[i].real(), v = b.array[i].imag();
        // (x+iy)(u-iv)
        re = re + x * u + y * v;
        im = im + y * u - x * v;
        sr = sr + x;
        si = si + y;
    }
    eq(A::dot(a, b), re, im, "complex dot conjugates the second argument");
    eq(A::sum(a), sr, si, "complex sum");
    auto c = A::conj(a);
    auto r = A::real(a);
    auto m = A::imag(a);
    for (size_t i = 0; i < N; ++i) {
        eq(c.array[i], a.array[i].real(), -a.array[i].imag(), L("conj", i));
        eq(r.array[i], a.array[i].real(), L("real", i));
        eq(m.array[i], a.array[i].imag(), L("imag", i));
    }
    reach("complex");
}
template<size_t N>
void abs_real() {
    auto a = vvec<N>("a");
    auto r = A::abs(a);
    for (size_t i = 0; i < N; ++i) eq(r.array[i], sabs(a.array[i]), L("abs", i));
    reach("abs");
}
template<size_t N>
void abs_complex() {
    auto a = cvec<N>("a");
    auto r = A::abs(a);
    for (size_t i = 0; i < N; ++i) {
        Sc x = a.array[i].real(), y = a.array[i].imag();
        // |x+iy| = sqrt(x^2+y^2) with sqrt uninterpreted
        eq(r.array[i], symrt::sqrt(x * x + y * y), L("abs of complex", i));
    }
    reach("abs");
}
template<size_t N>
void extremes() {
    auto a = vvec<N>("a");
    Sc lo = A::min(a);
    Bool one(false);
    for (size_t i = 0; i < N; ++i) {
        check(Sc::le(lo, a.array[i]), L("min is a lower bound", i));
        one = one | Sc::eq(lo, a.array[i]);
    }
    check(one, "min is one of the components");
    reach("min");
}
template<size_t N>
void extremes2() {
    auto a = vvec<N>("a");
    Sc hi = A::max(a);
    Bool one(false);
    for (size_t i = 0; i < N; ++i) {
        check(Sc::le(a.array[i], hi), L("max is an upper bound", i));
        one = one | Sc::eq(hi, a.array[i]);
    }
    check(one, "max is one of the components");
    reach("max");
}
template<size_t N>
void min_idx() {
    auto a = vvec<N>("a");
    size_t k = A::min_index(a);
    check(Bool(k < N), "min_index in range");
    if (k >= N) return;
    for (size_t i = 0; i < N; ++i)
        check(i < k ? Sc::lt(a.array[k], a.array[i]) : Sc::le(a.array[k], a.array[i]),
              "min_index is the first index of the least component");
    reach(L("min_index", k));
}
template<size_t N>
void max_idx() {
    auto a = vvec<N>("a");
    size_t k = A::max_index(a);
    check(Bool(k < N), "max_index in range");
    if (k >= N) return;
    for (size_t i = 0; i < N; ++i)
        check(i < k ? Sc::lt(a.array[i], a.array[k]) : Sc::le(a.array[i], a.array[k]),
              "max_index is the first index of the greatest component");
    reach(L("max_index", k));
}
template<size_t N>
void reg() {
    string n = std::to_string(N);
    add_case("products/" + n, "mode=real", products<N>);
    add_case("complex/" + n, "mode=real", complex_products<N>);
    add_case("cabs/" + n, "mode=real", abs_complex<N>);
}
template<size_t N>
void reg2() {
    string n = std::to_string(N);
    add_case("abs/" + n, "mode=real", abs_real<N>);
    add_case("min/" + n, "mode=real", extremes<N>);
    add_case("max/" + n, "mode=real", extremes2<N>);
    add_case("min_index/" + n, "mode=real", min_idx<N>);
    add_case("max_index/" + n, "mode=real", max_idx<N>);
}
int main(int c, char **v) {
    reg<1>();
    reg<2>();
    reg<3>();
    reg<4>();
    reg<5>();
    reg<6>();
    reg<7>();
    reg<8>();
    reg<11>();
    reg<16>();
    reg2<1>();
    reg2<2>();
    reg2<3>();
    reg2<4>();
    reg2<5>();
    reg2<6>();
    reg2<7>();
#ifdef THOROUGH
    reg2<8>();
    reg2<9>();
    reg2<10>();
    reg<33>();
#endif
    return symrt::run_main(c, v);
}
