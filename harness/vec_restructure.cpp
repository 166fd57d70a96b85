// V02: restructuring and generating vectors (rotate, slice, concat, iota, linspace, fill, generate, accumulate).
#include "blas_common.hpp"
template<size_t N>
void rotate_all() {
    auto a = vvec<N>("a");
    const int top = 3 * (int)N + 2;
    for (int n = -top; n <= top; ++n) {
        auto r = A::rotate(a, n);
        for (size_t i = 0; i < N; ++i) {
            long k = ((long)i + n) % (long)N;
            if (k < 0) k += N;
            eq(r.array[i], a.array[k], "rotate by " + std::to_string(n) + " component " + std::to_string(i));
        }
        auto back = A::rotate(r, -n);
        for (size_t i = 0; i < N; ++i) eq(back.array[i], a.array[i], L("rotate back", i));
    }
    // far away amounts (positive: the amount is reduced modulo the size)
    for (long n : {1000003L, 2147483647L, 65536L, -40001L}) {
        auto r = A::rotate(a, (int)n);
        for (size_t i = 0; i < N; ++i) {
            long k = ((long)i + n) % (long)N;
            if (k < 0) k += N;
            eq(r.array[i], a.array[k], "rotate by " + std::to_string(n));
        }
    }
    reach("rotate");
}
template<size_t N, size_t M>
void slice1(const Vec<N> &a) {
    if constexpr (M <= N) {
        for (size_t st = 0; st + M <= N; ++st) {
            auto s = A::slice<M>(a, st);
            static_assert(decltype(s)::size == M);
            for (size_t i = 0; i < M; ++i) eq(s.array[i], a.array[i + st], "slice at " + std::to_string(st));
        }
        auto s0 = A::slice<M>(a);
        for (size_t i = 0; i < M; ++i) eq(s0.array[i], a.array[i], "slice from the start");
        slice1<N, M + 1>(a);
    }
}
template<size_t N>
void slices() {
    auto a = vvec<N>("a");
    slice1<N, 1>(a);
    reach("slice");
}
template<size_t N, size_t M>
void concat1() {
    auto a = vvec<N>("a");
    auto b = vvec<M>("b");
    auto c = A::concat(a, b);
    static_assert(decltype(c)::size == N + M);
    for (size_t i = 0; i < N; ++i) eq(c.array[i], a.array[i], L("concat", i));
    for (size_t i = 0; i < M; ++i) eq(c.array[N + i], b.array[i], L("concat", N + i));
    auto sa = A::slice<N>(c, 0);
    auto sb = A::slice<M>(c, N);
    for (size_t i = 0; i < N; ++i) eq(sa.array[i], a.array[i], "slice of concat");
    for (size_t i = 0; i < M; ++i) eq(sb.array[i], b.array[i], "slice of concat");
}
template<size_t N>
void concats() {
    concat1<N, 1>();
    concat1<N, 2>();
    concat1<N, 3>();
    concat1<N, 5>();
    concat1<N, N>();
    reach("concat");
}
template<size_t N>
void generators() {
    Sc s = symrt::var("s"), t = symrt::var("t");
    auto io = A::iota<N>(s);
    auto io0 = A::iota<N, Sc>();
    auto f = A::fill<N>(s);
    auto g = A::generate<N>([&](auto i) { return s * Sc(i) + t; });
    for (size_t i = 0; i < N; ++i) {
        eq(io.array[i], s + Sc(i), L("iota", i));
        eq(io0.array[i], Sc(i), L("iota default start", i));
        eq(f.array[i], s, L("fill", i));
        eq(g.array[i], s * Sc(i) + t, L("generate", i));
    }
    reach("generate");
    if constexpr (N >= 2) {
        auto l = A::linspace<N>(s, t);
        eq(l.array[0], s, "linspace starts at min");
        eq(l.array[N - 1], t, "linspace ends at max");
        for (size_t i = 0; i < N; ++i)
            eq(l.array[i] * Sc(N - 1), s * Sc(N - 1 - i) + t * Sc(i), L("linspace", i));
        reach("linspace");
    }
}
template<size_t N>
void accumulates() {
    auto a = vvec<N>("a");
    Sc s = symrt::var("s");
    // a non-commutative, non-associative operation: order and the position of the accumulator matter
    auto op = [](Sc r, Sc x) { return r * Sc(3) - x * (r + Sc(2)); };
    Sc want = s;
    for (size_t i = 0; i < N; ++i) want = op(want, a.array[i]);
    eq(A::accumulate(a, s, op), want, "accumulate folds from the first element");
    // accumulator of another type
    auto cnt = A::accumulate(a, (size_t)5, [](size_t r, Sc) { return r * 2 + 1; });
    size_t w = 5;
    for (size_t i = 0; i < N; ++i) w = w * 2 + 1;
    check(Bool(cnt == w), "accumulate calls the operation once per element");
    std::vector<Sc> seen;
    A::accumulate(a, 0, [&](int r, Sc x) {
        seen.push_back(x);
        return r;
    });
    check(Bool(seen.size() == N), "accumulate visits every element");
    for (size_t i = 0; i < seen.size() && i < N; ++i) eq(seen[i], a.array[i], L("accumulate order", i));
    reach("accumulate");
}
template<size_t N>
void make() {
    Sc s = symrt::var("s"), t = symrt::var("t"), u = symrt::var("u");
    auto v = A::make_vector(s, t, u);
    static_assert(decltype(v)::size == 3);
    eq(v.array[0], s, "make_vector");
    eq(v.array[1], t, "make_vector");
    eq(v.array[2], u, "make_vector");
    A::vector w {{s, t}};
    static_assert(decltype(w)::size == 2);
    eq(w.array[0], s, "aggregate");
    eq(w.array[1], t, "aggregate");
    reach("make");
}
template<size_t N>
void reg() {
    string n = std::to_string(N);
    add_case("rotate/" + n, "mode=real", rotate_all<N>);
    add_case("slice/" + n, "mode=real", slices<N>);
    add_case("concat/" + n, "mode=real", concats<N>);
    add_case("generate/" + n, "mode=real", generators<N>);
    add_case("accumulate/" + n, "mode=real", accumulates<N>);
}
int main(int c, char **v) {
    reg<1>();
    reg<2>();
    reg<3>();
    reg<4>();
    reg<5>();
    reg<6>();
    reg<7>();
    reg<8>();
    reg<11>();
#ifdef THOROUGH
    reg<9>();
    reg<10>();
    reg<12>();
    reg<16>();
    reg<17>();
#endif
    add_case("make", "mode=real", make<3>);
    return symrt::run_main(c, v);
}
