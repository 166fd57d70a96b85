// The extension fields of the pairing curves with their real parameters, every coefficient symbolic.
#include "tower_common.hpp"
#if defined(BLS381) || defined(BLS377)
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#elif defined(ALTBN)
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#elif defined(MNT4)
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#elif defined(MNT6)
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
#elif defined(EDW)
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#endif
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
namespace fl = nil::crypto3::algebra::fields;

#if defined(BLS381)
using Base = fl::bls12_fq<381>;
#define NAME_ "bls12_381"
#elif defined(BLS377)
using Base = fl::bls12_fq<377>;
#define NAME_ "bls12_377"
#elif defined(ALTBN)
using Base = fl::alt_bn128_base_field<254>;
#define NAME_ "alt_bn128"
#elif defined(MNT4)
using Base = fl::mnt4_base_field<298>;
#define NAME_ "mnt4"
#elif defined(MNT6)
using Base = fl::mnt6_base_field<298>;
#define NAME_ "mnt6"
#else
using Base = fl::edwards_base_field<183>;
#define NAME_ "edwards"
#endif
using T = Base::value_type;
using W = std::vector<T>;

namespace {
T k(long v) { return v < 0 ? T(0) - T((unsigned long)-v) : T((unsigned long)v); }
// the published towers
Tower<T> tower() {
    Tower<T> t;
#if defined(BLS381)
    t.deg = {2, 3, 2};
    t.tau = {{k(-1)}, {k(1), k(1)}, {k(0), k(0), k(1), k(0), k(0), k(0)}};
#elif defined(BLS377)
    t.deg = {2, 3, 2};
    t.tau = {{k(-5)}, {k(0), k(1)}, {k(0), k(0), k(1), k(0), k(0), k(0)}};
#elif defined(ALTBN)
    t.deg = {2, 3, 2};
    t.tau = {{k(-1)}, {k(9), k(1)}, {k(0), k(0), k(1), k(0), k(0), k(0)}};
#elif defined(MNT4)
    t.deg = {2, 2};
    t.tau = {{k(17)}, {k(0), k(1)}};
#elif defined(MNT6)
    t.deg = {3, 2};
    t.tau = {{k(5)}, {k(0), k(1), k(0)}};
#else
    t.deg = {3, 2};
    t.tau = {{k(61)}, {k(0), k(1), k(0)}};
#endif
    return t;
}
size_t t_dim(size_t lv);
const std::string ID = "mode=ident timeout=120 btimeout=30 modp=1";

template<class V>
V mk(const std::string &n) { return make<T, V>(n); }
template<class V>
void keep(const V &a, const W &a0, const std::string &l) { same(flat<T>(a), a0, l + " changes an operand"); }

template<class V, class U, class = void>
struct has_left : std::false_type {};
template<class V, class U>
struct has_left<V, U, std::void_t<decltype(std::declval<U>() * std::declval<V>())>> : std::true_type {};
// multiplication by an element of a subfield, where the class offers it
template<class V, class U>
void scalar(const std::string &nm, size_t lv) {
    if constexpr (has_left<V, U>::value)
        add_case(nm, ID, [=] {
            auto t = tower();
            V a = mk<V>("a");
            U s = mk<U>("s");
            W x = flat<T>(a), z = flat<T>(s), sv = t.zero(lv);
            std::copy(z.begin(), z.end(), sv.begin());
            W m = t.mul(lv, sv, x);
            same(flat<T>(s * a), m, "s * a for an element s of a subfield");
            same(flat<T>(a * s), m, "a * s for an element s of a subfield");
            keep(a, x, "multiplication");
        });
}
template<class V>
void ring(const std::string &nm, size_t lv) {
    const std::string P = std::string(NAME_) + "/" + nm + "/";
    using U = std::decay_t<decltype(V().data[0])>;
#if defined(PART_RING)
    add_case(P + "linear", ID, [=] {
        auto t = tower();
        V a = mk<V>("a"), b = mk<V>("b");
        W x = flat<T>(a), y = flat<T>(b), s = t.add(x, y), d = t.sub(x, y);
        check(x.size() == t.dim(lv), "number of coefficients");
        same(flat<T>(a + b), s, "a + b");
        same(flat<T>(a - b), d, "a - b");
        same(flat<T>(-a), t.sub(t.zero(lv), x), "-a");
        same(flat<T>(a.doubled()), t.add(x, x), "a.doubled()");
        V c = a;
        c += b;
        same(flat<T>(c), s, "a += b");
        c = a;
        c -= b;
        same(flat<T>(c), d, "a -= b");
        c = a;
        c += c;
        same(flat<T>(c), t.add(x, x), "a += a");
        c = a;
        c -= c;
        same(flat<T>(c), t.zero(lv), "a -= a");
        V e(a);
        same(flat<T>(e), x, "copy");
        V f;
        f = b;
        same(flat<T>(f), y, "assignment");
        keep(a, x, "addition");
        keep(b, y, "addition");
        same(flat<T>(V::zero()), t.zero(lv), "zero()");
        same(flat<T>(V::one()), t.one(lv), "one()");
    });
    add_case(P + "mul", ID, [=] {
        auto t = tower();
        V a = mk<V>("a"), b = mk<V>("b");
        W x = flat<T>(a), y = flat<T>(b), m = t.mul(lv, x, y);
        same(flat<T>(a * b), m, "a * b");
        V c = a;
        c *= b;
        same(flat<T>(c), m, "a *= b");
        keep(a, x, "multiplication");
        keep(b, y, "multiplication");
    });
    add_case(P + "square", ID, [=] {
        auto t = tower();
        V a = mk<V>("a");
        W x = flat<T>(a), m = t.mul(lv, x, x);
        same(flat<T>(a.squared()), m, "a.squared()");
        same(flat<T>(a * a), m, "a * a");
        V c = a;
        c *= c;
        same(flat<T>(c), m, "a *= a");
        keep(a, x, "squaring");
    });
    scalar<V, U>(P + "scalar", lv);
    if constexpr (!std::is_same_v<U, T>) {
        using U2 = std::decay_t<decltype(U().data[0])>;
        scalar<V, U2>(P + "scalar2", lv);
        if constexpr (!std::is_same_v<U2, T>) scalar<V, T>(P + "scalar3", lv);
    }
#endif
#if defined(PART_INV)
    if (t_dim(lv) <= 6) add_case(P + "inverse", ID + " feas=skip", [=] {
        auto t = tower();
        V a = mk<V>("a");
        W x = flat<T>(a);
        mp::assume_invertible() = true;    // that only zero has no inverse is decided in tower_small.cpp
        V i = a.inversed();
        same(t.mul(lv, flat<T>(i), x), t.one(lv), "a * a.inversed() is not one");
        keep(a, x, "inversion");
    });
#endif
#if defined(PART_FROB)
    for (size_t e = 0; e <= 2 * t_dim(lv); e++)
        add_case(P + "frobenius" + std::to_string(e), ID, [=] {
            auto t = tower();
            V a = mk<V>("a");
            W x = flat<T>(a), r = x;
            auto p = Int<512>(Base::modulus);
            auto g = t.frob_consts(p);
            for (size_t i = 0; i < e; i++) r = t.frob(lv, r, g);
            same(flat<T>(a.Frobenius_map(e)), r, "Frobenius_map is not the power with exponent p^k");
            keep(a, x, "Frobenius_map");
        });
    add_case(P + "frobenius_roots", ID, [=] {
        // the reference constants define a field automorphism, and the extension is a field
        auto t = tower();
        auto p = Int<512>(Base::modulus);
        auto g = t.frob_consts(p);
        W c = g[lv - 1], w = t.one(lv - 1);
        size_t n = t.deg[lv - 1];
        // norm-like power: tau^((q-1)/n) has order exactly n, q the order of the subfield
        // (tau^((p-1)/n))^(1+p+...+p^(d-1)) = tau^((q-1)/n)
        W f = c, acc = t.one(lv - 1);
        for (size_t i = 0; i < t.dim(lv - 1); i++) {
            acc = t.mul(lv - 1, acc, f);
            f = t.frob(lv - 1, f, g);
        }
        for (size_t i = 1; i <= n; i++) {
            w = t.mul(lv - 1, w, acc);
            bool one = true;
            W o = t.one(lv - 1);
            for (size_t j = 0; j < w.size(); j++) one = one && w[j] == o[j];
            check(one == (i == n), "the generator's power is not an n-th power residue");
        }
        // and the code reduces by it
        V u;
        W uf = t.zero(lv);
        uf[t.dim(lv - 1)] = T(1);
        size_t pos = 0;
        u = unflat<T, V>(uf, pos);
        V r = V::one();
        for (size_t i = 0; i < n; i++) r = r * u;
        W tv = t.zero(lv);
        std::copy(t.tau[lv - 1].begin(), t.tau[lv - 1].end(), tv.begin());
        same(flat<T>(r), tv, "the generator's power is not the published non-residue");
    });
#endif
}
size_t t_dim(size_t lv) {
    auto t = tower();
    return t.dim(lv);
}
#if defined(PART_INV12)
// Inversion in the twelfth-degree field, given that inversion in the sixth-degree field (decided by the case
// fp6_3over2/inverse) returns the inverse: fresh coefficients v with t * v = 1.
Relations<T> *inv_rel;
fl::fp6_3over2<Base>::value_type some_inverse(const fl::fp6_3over2<Base>::value_type &a) {
    using F6 = fl::fp6_3over2<Base>::value_type;
    auto t = tower();
    W x = flat<T>(a);
    if (rt().replay) {
        bool z = true;
        for (auto &q : x) z = z && q == T(0);
        symrt::assume(Bool(!z));
        auto e = Int<2400>(1u);
        for (int i = 0; i < 6; i++) e = e * Int<2400>(Base::modulus);
        size_t pos = 0;
        return unflat<T, F6>(t.pow(2, x, e - Int<2400>(2u)), pos);
    }
    static int n = 0;
    F6 v = make<T, F6>("inv" + std::to_string(n++));
    W z = t.sub(t.mul(2, x, flat<T>(v)), t.one(2));
    for (auto &q : z) inv_rel->add(q);
    return v;
}
}
template<>
constexpr fl::fp6_3over2<Base>::value_type fl::fp6_3over2<Base>::value_type::inversed() const {
    return this ? some_inverse(*this) : *this;
}
namespace {
template<class V>
void inverse12() {
    add_case(std::string(NAME_) + "/fp12/inverse", ID, [] {
        auto t = tower();
        Relations<T> rel;
        inv_rel = &rel;
        V a = mk<V>("a");
        W x = flat<T>(a);
        V i = a.inversed();
        W m = t.mul(3, flat<T>(i), x), o = t.one(3);
        for (size_t j = 0; j < m.size(); j++) check(rel.eq(m[j], o[j]), "a * a.inversed() is not one");
        keep(a, x, "inversion");
    });
}
#endif
#if defined(PART_SQRTP)
template<class F>
void sqrtp(const std::string &nm) {
    add_case(std::string(NAME_) + "/" + nm + "/sqrt_parameters", ID, [=] {
        // what the square root needs of the parameters (sqrt_group.cpp shows that it then is a square root)
        using PP = typename F::extension_policy;
        using X = Int<1600>;
        auto t = tower();
        X q(1u);
        for (size_t i = 0; i < t.dim(1); i++) q = q * X(Base::modulus);
        q = q - X(1u);
        check(X(PP::t) % X(2u) == X(1u), "t is even");
        check((X(PP::t) << (unsigned)PP::s) == q, "2^s t is not the order of the multiplicative group");
        check(X(PP::t_minus_1_over_2) + X(PP::t_minus_1_over_2) + X(1u) == X(PP::t), "t_minus_1_over_2 is not (t - 1) / 2");
#if !defined(EDW)
        check(X(PP::group_order_minus_one_half) == q / X(2u), "group_order_minus_one_half is not (q - 1) / 2");
#endif
        W z;
        for (auto &c : PP::nqr_to_t) z.push_back(T(c));
        for (size_t i = 1; i < PP::s; i++) z = t.mul(1, z, z);
        W o = t.one(1);
        for (size_t i = 0; i < z.size(); i++) check(z[i] == T(0) - o[i], "nqr_to_t is not the t-th power of a non-square");
    });
}
#endif
#if defined(PART_CYC)
template<class V>
V build(const W &f) {
    size_t pos = 0;
    return unflat<T, V>(f, pos);
}
// an element of the subgroup of order Phi_n(p), n the degree of the extension
template<class V>
V cyclotomic(const Tower<T> &t, size_t lv, const std::string &n, Relations<T> &rel) {
    auto g = t.frob_consts(Int<512>(Base::modulus));
    size_t d = t.dim(lv);
    auto fr = [&](W x, size_t k) {
        for (size_t i = 0; i < k; i++) x = t.frob(lv, x, g);
        return x;
    };
    V a = mk<V>(n);
    W x = flat<T>(a);
    if (rt().replay) {
        for (size_t i = 0; i < x.size(); i++) x[i] = x[i] + k(3 * i * i + 7 * i + 2);
        x = t.mul(lv, fr(x, d / 2), flat<T>(build<V>(x).inversed()));
        if (d % 6 == 0) x = t.mul(lv, fr(x, d / 6), x);
        a = build<V>(x);
    }
    W z = t.sub(t.mul(lv, fr(x, d / 2), x), t.one(lv));
    for (auto &q : z) rel.add(q);
    if (d % 6 == 0) {
        z = t.sub(t.mul(lv, fr(x, d / 3), x), fr(x, d / 6));
        for (auto &q : z) rel.add(q);
    }
    return a;
}
template<class V>
void cyclo(const std::string &nm, size_t lv) {
    const std::string P = std::string(NAME_) + "/" + nm + "/";
    add_case(P + "unitary_inverse", ID, [=] {
        auto t = tower();
        Relations<T> rel;
        V a = cyclotomic<V>(t, lv, "a", rel);
        W x = flat<T>(a), m = t.mul(lv, flat<T>(a.unitary_inversed()), x), o = t.one(lv);
        for (size_t i = 0; i < m.size(); i++) check(rel.eq(m[i], o[i]), "unitary_inversed is not the inverse of a cyclotomic element");
        keep(a, x, "unitary_inversed");
    });
    add_case(P + "cyclotomic_square", ID, [=] {
        auto t = tower();
        Relations<T> rel;
        V a = cyclotomic<V>(t, lv, "a", rel);
        W x = flat<T>(a), m = flat<T>(a.cyclotomic_squared()), o = t.mul(lv, x, x);
        for (size_t i = 0; i < m.size(); i++) check(rel.eq(m[i], o[i]), "cyclotomic_squared is not the square of a cyclotomic element");
        keep(a, x, "cyclotomic_squared");
    });
}
#endif

#if defined(PART_SPARSE)
template<class V>
V with(const std::vector<std::pair<size_t, T>> &c) {
    W f(flat<T>(V()).size(), T(0));
    for (auto &q : c) f[q.first] = q.second;
    size_t pos = 0;
    return unflat<T, V>(f, pos);
}
template<class V, class U>
void put(V &v, size_t i, const U &u) { v.data[i / v.data[0].data.size()].data[i % v.data[0].data.size()] = u; }
#endif

struct Init {
    Init() {
#if defined(MNT4)
        using F2 = fl::fp2<Base>::value_type;
        using F4 = fl::fp4<Base>::value_type;
        ring<F2>("fp2", 1);
#if defined(PART_SQRTP)
        sqrtp<fl::fp2<Base>>("fp2");
#endif
        ring<F4>("fp4", 2);
#if defined(PART_CYC)
        cyclo<F4>("fp4", 2);
#endif
#if defined(PART_SPARSE)
        add_case("mnt4/fp4/mul_by_023", ID, [] {
            auto t = tower();
            F4 a = mk<F4>("a");
            W y = {fresh<T>("b0"), T(0), fresh<T>("b2"), fresh<T>("b3")};
            size_t pos = 0;
            F4 b = unflat<T, F4>(y, pos);
            same(flat<T>(a.mul_by_023(b)), t.mul(2, flat<T>(a), y), "mul_by_023 is not multiplication by the sparse element");
        });
#endif
#elif defined(MNT6) || defined(EDW)
        using F3 = fl::fp3<Base>::value_type;
        using F6 = fl::fp6_2over3<Base>::value_type;
        ring<F3>("fp3", 1);
#if defined(PART_SQRTP)
        sqrtp<fl::fp3<Base>>("fp3");
#endif
        ring<F6>("fp6_2over3", 2);
#if defined(PART_CYC)
        cyclo<F6>("fp6_2over3", 2);
#endif
#if defined(PART_SPARSE)
        add_case(std::string(NAME_) + "/fp6_2over3/mul_by_2345", ID, [] {
            auto t = tower();
            F6 a = mk<F6>("a");
            W y = {T(0), T(0), fresh<T>("b2"), fresh<T>("b3"), fresh<T>("b4"), fresh<T>("b5")};
            size_t pos = 0;
            F6 b = unflat<T, F6>(y, pos);
            same(flat<T>(a.mul_by_2345(b)), t.mul(2, flat<T>(a), y), "mul_by_2345 is not multiplication by the sparse element");
        });
#endif
#else
        using F2 = fl::fp2<Base>::value_type;
        using F6 = fl::fp6_3over2<Base>::value_type;
        using F12 = fl::fp12_2over3over2<Base>::value_type;
        ring<F2>("fp2", 1);
#if defined(PART_SQRTP)
        sqrtp<fl::fp2<Base>>("fp2");
#endif
        ring<F6>("fp6_3over2", 2);
        ring<F12>("fp12_2over3over2", 3);
#if defined(PART_CYC)
        cyclo<F12>("fp12", 3);
#endif
#if defined(PART_INV12)
        inverse12<F12>();
#endif
#if defined(PART_SPARSE)
        add_case(std::string(NAME_) + "/fp12/mul_by_045", ID, [] {
            auto t = tower();
            F12 a = mk<F12>("a");
            F2 l0 = mk<F2>("l0"), lw = mk<F2>("lw"), lv = mk<F2>("lv");
            F12 b = F12::zero();
            put(b, 0, lw);
            put(b, 4, l0);
            put(b, 5, lv);
            same(flat<T>(a.mul_by_045(l0, lw, lv)), t.mul(3, flat<T>(a), flat<T>(b)), "mul_by_045 is not multiplication by the sparse element");
        });
        add_case(std::string(NAME_) + "/fp12/mul_by_024", ID, [] {
            auto t = tower();
            F12 a = mk<F12>("a");
            F2 l0 = mk<F2>("l0"), lw = mk<F2>("lw"), lv = mk<F2>("lv");
            F12 b = F12::zero();
            put(b, 0, l0);
            put(b, 4, lw);
            put(b, 2, lv);
            same(flat<T>(a.mul_by_024(l0, lw, lv)), t.mul(3, flat<T>(a), flat<T>(b)), "mul_by_024 is not multiplication by the sparse element");
        });
#if !defined(BLS377)
        add_case(std::string(NAME_) + "/fp2/mul_by_u", ID, [] {
            auto t = tower();
            F2 a = mk<F2>("a");
            T b = fresh<T>("b");
            W x = flat<T>(a);
            same(flat<T>(a.mul_x()), t.mul(1, x, {T(0), T(1)}), "mul_x is not multiplication by u");
            same(flat<T>(a.mul_Fp_0(b)), t.mul(1, x, {b, T(0)}), "mul_Fp_0 is not multiplication by b");
            same(flat<T>(a.mul_Fp_1(b)), t.mul(1, x, {T(0), b}), "mul_Fp_1 is not multiplication by b u");
        });
#endif
#if defined(ALTBN)
        add_case(std::string(NAME_) + "/fp2/mul_xi", ID, [] {
            auto t = tower();
            F2 a = mk<F2>("a");
            same(flat<T>(a.mul_xi()), t.mul(1, flat<T>(a), {T(9), T(1)}), "mul_xi is not multiplication by 9 + u");
        });
#endif
#endif
#endif
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
