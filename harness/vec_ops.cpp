// V01: vector operators and elementwise application act component by component.
#include "blas_common.hpp"
struct Wr {
    Sc v;
    Wr() = default;
    explicit Wr(const Sc &s) : v(s * Sc(3) + Sc(1)) {}
};
template<size_t N>
void ops() {
    auto a = vvec<N>("a"), b = vvec<N>("b"), c = vvec<N>("c");
    Sc s = symrt::var("s");
    const auto a0 = a, b0 = b;
    auto r1 = a + s;
    auto r2 = s + a;
    auto r3 = a + b;
    auto r4 = a * s;
    auto r5 = s * a;
    auto r6 = a * b;
    auto r7 = s / a;
    auto r8 = a / b;
    auto r9 = a + a;
    auto r10 = a * a;
    for (size_t i = 0; i < N; ++i) {
        Sc x = a.array[i], y = b.array[i];
        eq(r1.array[i], x + s, L("v+s", i));
        eq(r2.array[i], s + x, L("s+v", i));
        eq(r3.array[i], x + y, L("v+w", i));
        eq(r4.array[i], x * s, L("v*s", i));
        eq(r5.array[i], s * x, L("s*v", i));
        eq(r6.array[i], x * y, L("v*w", i));
        eq(r7.array[i], s / x, L("s/v", i));
        eq(r8.array[i], x / y, L("v/w", i));
        eq(r9.array[i], x + x, L("v+v", i));
        eq(r10.array[i], x * x, L("v*v", i));
        eq(a.array[i], a0.array[i], "operand untouched");
        eq(b.array[i], b0.array[i], "operand untouched");
    }
    reach("ops");
    auto e1 = A::elementwise([](Sc x) { return x * x + Sc(7); }, a);
    auto e2 = A::elementwise([](Sc x, Sc y) { return x - Sc(2) * y; }, a, b);
    auto e3 = A::elementwise([](Sc x, Sc y, Sc z) { return x * y - z; }, a, b, c);
    auto e4 = A::elementwise([](Sc x, Sc y) { return Wr(x - y); }, a, b);
    auto ca = A::cast<Wr>(a);
    for (size_t i = 0; i < N; ++i) {
        Sc x = a.array[i], y = b.array[i], z = c.array[i];
        eq(e1.array[i], x * x + Sc(7), L("elementwise1", i));
        eq(e2.array[i], x - y - y, L("elementwise2", i));
        eq(e3.array[i], y * x - z, L("elementwise3", i));
        eq(e4.array[i].v, (x - y) * Sc(3) + Sc(1), L("elementwise->other type", i));
        eq(ca.array[i].v, x * Sc(3) + Sc(1), L("cast", i));
    }
    reach("elementwise");
}
template<size_t N>
void equality() {
    auto a = vvec<N>("a"), b = vvec<N>("b");
    Bool all(true);
    for (size_t i = 0; i < N; ++i) all = all & Sc::eq(a.array[i], b.array[i]);
    bool e = (a == b);
    check(e ? all : !all, "v==w iff all components equal");
    reach(e ? "equal" : "different");
}
template<size_t N>
void inequality() {
    auto a = vvec<N>("a"), b = vvec<N>("b");
    Bool all(true);
    for (size_t i = 0; i < N; ++i) all = all & Sc::eq(a.array[i], b.array[i]);
    bool e = (a != b);
    check(e ? !all : all, "v!=w iff some component differs");
    reach(e ? "different" : "equal");
}
template<size_t N>
void access() {
    auto a = vvec<N>("a");
    const auto k = a;
    size_t i = 0;
    for (auto &x : a) {
        eq(x, k.array[i], L("iteration", i));
        ++i;
    }
    check(Bool(i == N), "iteration visits size elements");
    i = 0;
    for (auto it = k.cbegin(); it != k.cend(); ++it, ++i) eq(*it, a.array[i], L("const iteration", i));
    check(Bool(i == N && Vec<N>::size == N), "size");
    for (i = 0; i < N; ++i) {
        eq(a[i], k.array[i], L("operator[]", i));
        eq(k[i], k.array[i], L("operator[] const", i));
    }
    Sc s = symrt::var("s");
    for (size_t w = 0; w < N; ++w) {
        auto c = k;
        c[w] = s;
        for (i = 0; i < N; ++i) eq(c.array[i], i == w ? s : k.array[i], L("write", w, i));
    }
    reach("access");
}
template<size_t N>
void reg() {
    string n = std::to_string(N);
    add_case("ops/" + n, "mode=real", ops<N>);
    add_case("eq/" + n, "mode=real", equality<N>);
    add_case("ne/" + n, "mode=real", inequality<N>);
    add_case("access/" + n, "mode=real", access<N>);
}
int main(int c, char **v) {
    reg<1>();
    reg<2>();
    reg<3>();
    reg<4>();
    reg<5>();
    reg<6>();
    reg<7>();
    reg<8>();
    reg<11>();
    reg<16>();
#ifdef THOROUGH
    reg<9>();
    reg<10>();
    reg<12>();
    reg<13>();
    reg<31>();
    reg<32>();
    reg<33>();
#endif
    return symrt::run_main(c, v);
}
