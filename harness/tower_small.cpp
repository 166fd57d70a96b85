// The real extension-field classes over small primes, bit-precise: every element, every special case.
#include "tower_common.hpp"
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
namespace fl = nil::crypto3::algebra::fields;

namespace nil { namespace crypto3 { namespace algebra { namespace fields {
template<unsigned P>
struct small : public field<8> {
    typedef field<8> policy_type;
    constexpr static const unsigned modulus_value = P;
    constexpr static const std::size_t modulus_bits = 8, number_bits = 8;
    typedef policy_type::integral_type integral_type;
    typedef policy_type::extended_integral_type extended_integral_type;
    constexpr static const integral_type modulus = P;
    constexpr static const integral_type group_order_minus_one_half = (P - 1) / 2;
    typedef policy_type::modular_backend modular_backend;
    constexpr static const modular_params_type modulus_params = modulus.backend();
    typedef boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<
        modular_backend, boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
        modular_type;
    typedef typename detail::element_fp<params<small<P>>> value_type;
    constexpr static const std::size_t value_bits = modulus_bits;
    constexpr static const std::size_t arity = 1;
};
namespace detail {
template<unsigned P>
struct k2;    // non-residue, 2-adicity and odd part of p^2-1, (non-residue)^t, xi
#define K2(P, NR, S, TT, Q0, Q1, X0, X1)                                                              \
    template<>                                                                                      \
    struct k2<P> {                                                                                  \
        static constexpr unsigned nr = NR, s = S, t = TT, q0 = Q0, q1 = Q1, x0 = X0, x1 = X1;              \
    };
K2(3, 2, 3, 1, 1, 1, 0, 1)
K2(5, 2, 3, 3, 0, 2, 1, 2)
K2(7, 3, 4, 3, 3, 6, 1, 1)
K2(11, 2, 3, 15, 4, 6, 1, 1)
K2(13, 2, 3, 21, 0, 10, 0, 1)
K2(17, 3, 5, 9, 0, 13, 1, 2)
K2(251, 2, 3, 1, 0, 0, 0, 1)
template<unsigned P>
struct k3;
template<>
struct k3<7> { static constexpr unsigned nr = 3, s = 1, t = 171, q0 = 6; };
template<>
struct k3<13> { static constexpr unsigned nr = 2, s = 2, t = 549, q0 = 8; };
template<>
struct k3<19> { static constexpr unsigned nr = 2, s = 1, t = 3429, q0 = 18; };

template<unsigned P>
class fp2_extension_params<fields::small<P>> : public params<fields::small<P>> {
    typedef params<fields::small<P>> policy_type;
public:
    using field_type = fields::fp2<fields::small<P>>;
    typedef typename policy_type::integral_type integral_type;
    typedef typename policy_type::extended_integral_type extended_integral_type;
    constexpr static const integral_type modulus = policy_type::modulus;
    typedef fields::small<P> non_residue_field_type;
    typedef typename non_residue_field_type::value_type non_residue_type;
    typedef fields::small<P> underlying_field_type;
    typedef typename underlying_field_type::value_type underlying_type;
    constexpr static const std::size_t s = k2<P>::s;
    constexpr static const extended_integral_type t = k2<P>::t;
    constexpr static const extended_integral_type t_minus_1_over_2 = (k2<P>::t - 1) / 2;
    constexpr static const std::array<integral_type, 2> nqr_to_t = {k2<P>::q0, k2<P>::q1};
    constexpr static const extended_integral_type group_order_minus_one_half = (P * P - 1) / 2;
    constexpr static const non_residue_type non_residue = non_residue_type(k2<P>::nr);
};
template<unsigned P>
class fp3_extension_params<fields::small<P>> : public params<fields::small<P>> {
    typedef params<fields::small<P>> policy_type;
public:
    using field_type = fields::fp3<fields::small<P>>;
    typedef typename policy_type::integral_type integral_type;
    typedef typename policy_type::extended_integral_type extended_integral_type;
    constexpr static const integral_type modulus = policy_type::modulus;
    typedef fields::small<P> non_residue_field_type;
    typedef typename non_residue_field_type::value_type non_residue_type;
    typedef fields::small<P> underlying_field_type;
    typedef typename underlying_field_type::value_type underlying_type;
    constexpr static const std::size_t s = k3<P>::s;
    constexpr static const extended_integral_type t = k3<P>::t;
    constexpr static const extended_integral_type t_minus_1_over_2 = (k3<P>::t - 1) / 2;
    constexpr static const std::array<integral_type, 3> nqr_to_t = {k3<P>::q0, 0, 0};
    constexpr static const extended_integral_type group_order_minus_one_half = (P * P * P - 1) / 2;
    constexpr static const non_residue_type non_residue = non_residue_type(k3<P>::nr);
};
#define UPPER(CLS, UND, NRF, NRV)                                                     \
    template<unsigned P>                                                             \
    class CLS<fields::small<P>> : public params<fields::small<P>> {                   \
        typedef params<fields::small<P>> policy_type;                                 \
    public:                                                                         \
        using field_type = fields::UND<fields::small<P>>;                             \
        typedef typename policy_type::integral_type integral_type;                   \
        typedef typename policy_type::extended_integral_type extended_integral_type; \
        constexpr static const integral_type modulus = policy_type::modulus;         \
        typedef NRF non_residue_field_type;                                          \
        typedef typename non_residue_field_type::value_type non_residue_type;        \
        typedef fields::UND<fields::small<P>> underlying_field_type;                   \
        typedef typename underlying_field_type::value_type underlying_type;          \
        constexpr static const non_residue_type non_residue = NRV;                    \
    };
UPPER(fp4_extension_params, fp2, fields::small<P>, non_residue_type(k2<P>::nr))
UPPER(fp6_2over3_extension_params, fp3, fields::small<P>, non_residue_type(k3<P>::nr))
UPPER(fp6_3over2_extension_params, fp2, fields::fp2<fields::small<P>>, non_residue_type(k2<P>::x0, k2<P>::x1))
UPPER(fp12_2over3over2_extension_params, fp6_3over2, fields::fp2<fields::small<P>>, non_residue_type(k2<P>::x0, k2<P>::x1))
}
}}}}
using namespace nil::crypto3::algebra;

namespace {
const std::string BVO = "mode=bv timeout=200 btimeout=60 ";
std::string str(unsigned n) { return std::to_string(n); }
template<unsigned P>
using T_ = typename fl::small<P>::value_type;
template<class T>
Bool vzero(const std::vector<T> &v) {
    Bool r(true);
    for (auto &x : v) r = r & T::modular_type::beq(x.data, typename T::modular_type(0u));
    return r;
}
template<class T>
Bool veq(const std::vector<T> &v, const std::vector<T> &w) {
    Bool r(true);
    for (size_t i = 0; i < v.size(); i++) r = r & T::modular_type::beq(v[i].data, w[i].data);
    return r;
}
template<class V>
struct pol;
template<template<class> class E, class P>
struct pol<E<P>> { typedef P type; };
// the non-square of the parameters (its square root is shown not to exist by the case is_not_square)
template<class T, class V>
V nonsquare() {
    using P = typename pol<V>::type;
    if constexpr (std::is_same_v<T, V>) return T(fl::detail::k2<V::field_type::modulus_value>::nr);
    else {
        std::vector<T> f;
        for (auto &c : P::nqr_to_t) f.push_back(T(c));
        size_t pos = 0;
        return unflat<T, V>(f, pos);
    }
}

template<class T, class V>
void compare(const std::string &nm, const std::string &o) {
#if defined(PART_CMP)
    add_case(nm + "/compare", BVO + o, [] {
        V a = make<T, V>("a"), b = make<T, V>("b");
        Bool e = veq(flat<T>(a), flat<T>(b));
        if (a == b) check(e, "a == b holds for different elements");
        else check(!e, "a == b fails for equal elements");
        if (a != b) check(!e, "a != b holds for equal elements");
        else check(e, "a != b fails for different elements");
        Bool z = vzero(flat<T>(a)), u = veq(flat<T>(a), flat<T>(V::one()));
        if (a.is_zero()) check(z, "is_zero() holds for a non-zero element");
        else check(!z, "is_zero() fails for zero");
        if (a.is_one()) check(u, "is_one() holds for another element");
        else check(!u, "is_one() fails for one");
    });
#endif
}
template<class T, class V>
void inverse(const std::string &nm, const std::string &o) {
#if defined(PART_INV)
    add_case(nm + "/inverse", BVO + o, [] {
        V a = make<T, V>("a");
        assume(!vzero(flat<T>(a)));
        V i = a.inversed();    // inverts no zero of the prime field on the way
        same(flat<T>(i * a), flat<T>(V::one()), "a * a.inversed() is not one");
    });
#endif
}
template<class T, class V>
void roots(const std::string &nm, const std::string &o) {
#if defined(PART_SQRT)
    add_case(nm + "/sqrt", BVO + "maxpaths=3000 " + o, [] {
        V r0 = make<T, V>("r");
        V a = r0 * r0;
        V r = a.sqrt();
        same(flat<T>(r * r), flat<T>(a), "the square of a.sqrt() is not a");
    });
    add_case(nm + "/is_square", BVO + "maxpaths=3000 " + o, [] {
        V r = make<T, V>("r");
        V a = r * r;
        check(a.is_square(), "is_square() fails for a square");
    });
    add_case(nm + "/is_not_square", BVO + "maxpaths=3000 " + o, [] {
        // a non-square times a non-zero square
        V r = make<T, V>("r"), q = nonsquare<T, V>();
        assume(!vzero(flat<T>(r)));
        V a = r * r * q;
        check(!a.is_square(), "is_square() holds for a non-square");
    });
#endif
}
template<class T, class V>
void unitary(const std::string &nm, const std::string &o, std::function<void(const V &)> cyclo) {
#if defined(PART_CYC)
    add_case(nm + "/unitary_inverse", BVO + o, [=] {
        V a = make<T, V>("a");
        cyclo(a);
        same(flat<T>(a.unitary_inversed() * a), flat<T>(V::one()), "unitary_inversed is not the inverse of a cyclotomic element");
    });
    add_case(nm + "/cyclotomic_squared", BVO + o, [=] {
        V a = make<T, V>("a");
        cyclo(a);
        same(flat<T>(a.cyclotomic_squared()), flat<T>(a * a), "cyclotomic_squared is not the square of a cyclotomic element");
    });
#endif
}

template<unsigned P>
struct Fields {
    using T = typename fl::small<P>::value_type;
    using F2 = typename fl::fp2<fl::small<P>>::value_type;
    using F3 = typename fl::fp3<fl::small<P>>::value_type;
    using F4 = typename fl::fp4<fl::small<P>>::value_type;
    using F62 = typename fl::fp6_2over3<fl::small<P>>::value_type;
    using F63 = typename fl::fp6_3over2<fl::small<P>>::value_type;
    using F12 = typename fl::fp12_2over3over2<fl::small<P>>::value_type;
    static std::string n(const char *s) { return std::string("F") + str(P) + "/" + s; }
};
// the prime-field wrapper against integer arithmetic
template<unsigned P>
void base_field() {
#if defined(PART_BASE)
    using T = typename Fields<P>::T;
    using I = Int<24>;
    using R = typename T::modular_type;
    auto rep = [](const T &x) { return x.data.template convert_to<I>(); };
    auto red = [](const I &x) { return x % I(P); };
    const std::string N = "F" + str(P) + "/element/", O = BVO;
    auto is = [=](const T &x, const I &v, const char *l) {
        I r = rep(x);
        check(I::blt(r, I(P)), "a residue is not reduced");
        check(I::beq(r, red(v)), l);
    };
    add_case(N + "arithmetic", O, [=] {
        T a = fresh<T>("a"), b = fresh<T>("b");
        I x = rep(a), y = rep(b), q(P);
        is(a + b, x + y, "a + b");
        is(a - b, x + q - y, "a - b");
        is(a * b, x * y, "a * b");
        is(-a, q - x, "-a");
        is(a.doubled(), x + x, "doubled");
        is(a.squared(), x * x, "squared");
        T c = a;
        c += b;
        is(c, x + y, "a += b");
        c = a;
        c -= b;
        is(c, x + q - y, "a -= b");
        c = a;
        c *= b;
        is(c, x * y, "a *= b");
        c = a;
        c += c;
        is(c, x + x, "a += a");
        c = a;
        c -= c;
        is(c, I(0u), "a -= a");
        c = a;
        c *= c;
        is(c, x * x, "a *= a");
        is(a, x, "an operation changes its operand");
        is(b, y, "an operation changes its operand");
    });
    add_case(N + "step", O, [=] {
        T a = fresh<T>("a");
        I x = rep(a), q(P), one(1u);
        T c = a, d = c++;
        is(c, x + one, "a++");
        is(d, x, "value of a++");
        c = a;
        d = ++c;
        is(c, x + one, "++a");
        is(d, x + one, "value of ++a");
        c = a;
        d = c--;
        is(c, x + q - one, "a--");
        is(d, x, "value of a--");
        c = a;
        d = --c;
        is(c, x + q - one, "--a");
        is(d, x + q - one, "value of --a");
    });
    add_case(N + "order", O, [=] {
        T a = fresh<T>("a"), b = fresh<T>("b");
        I x = rep(a), y = rep(b);
        Bool lt = I::blt(x, y), gt = I::blt(y, x);
        if (a < b) check(lt, "a < b");
        else check(!lt, "a < b");
        if (a > b) check(gt, "a > b");
        else check(!gt, "a > b");
        if (a <= b) check(!gt, "a <= b");
        else check(gt, "a <= b");
        if (a >= b) check(!lt, "a >= b");
        else check(lt, "a >= b");
    });
    add_case(N + "construct", O, [=] {
        auto v = isym<16>("v");
        T a(v);
        is(a, I(v), "construction from an integer");
        is(T::zero(), I(0u), "zero()");
        is(T::one(), I(1u), "one()");
        T e;
        is(e, I(0u), "default construction");
        T b = a;
        T c(std::move(b));
        is(c, I(v), "copy");
        for (unsigned k : {0u, 1u, P - 1, P, P + 1, 2 * P + 3, 1000u}) {
            is(T(k), I(k), "construction from an unsigned integer");
            is(T((unsigned char)k), I(k & 255), "construction from a small unsigned integer");
            is(a + k, I(v) + I(k), "a + integer");
            is(a * k, red(I(v)) * I(k), "a * integer");
            is(k + a, I(v) + I(k), "integer + a");
            is(k * a, red(I(v)) * I(k), "integer * a");
            is(a - k, I(v) + I(1000 * P) - I(k), "a - integer");
            is(k - a, I(k) + I(P) - red(I(v)), "integer - a");
        }
        is(T(-1), I(P - 1), "construction from -1");
        is(T(-5), I(5 * P - 5), "construction from -5");
    });
    add_case(N + "pow", O, [=] {
        T a = fresh<T>("a");
        I x = rep(a), r(1u);
        for (unsigned e = 0; e <= 6; e++) {
            is(a.pow(e), r, "a.pow(e)");
            is(a.pow(Int<8>(e)), r, "a.pow(e)");
            r = red(r * x);
        }
    });
    add_case(N + "fermat", O, [=] {
        T a = fresh<T>("a");
        is(a.pow(T::modulus), rep(a), "a.pow(p) is not a");
    });
#endif
}
#define CASES2(P) compare<Fields<P>::T, Fields<P>::F2>(Fields<P>::n("fp2"), ""); inverse<Fields<P>::T, Fields<P>::F2>(Fields<P>::n("fp2"), ""); \
    roots<Fields<P>::T, Fields<P>::F2>(Fields<P>::n("fp2"), "cube=r_0");
#define CASES1(P) compare<Fields<P>::T, Fields<P>::T>(Fields<P>::n("fp"), ""); inverse<Fields<P>::T, Fields<P>::T>(Fields<P>::n("fp"), ""); \
    roots<Fields<P>::T, Fields<P>::T>(Fields<P>::n("fp"), "");
#define CASES3(P) compare<Fields<P>::T, Fields<P>::F3>(Fields<P>::n("fp3"), ""); inverse<Fields<P>::T, Fields<P>::F3>(Fields<P>::n("fp3"), ""); \
    roots<Fields<P>::T, Fields<P>::F3>(Fields<P>::n("fp3"), "cube=r_0");
#define UP(P, F, N) compare<Fields<P>::T, Fields<P>::F>(Fields<P>::n(N), ""); inverse<Fields<P>::T, Fields<P>::F>(Fields<P>::n(N), "");
struct Init {
    Init() {
        CASES1(5) CASES1(7) CASES1(13) CASES1(17)
        CASES2(3) CASES2(5) CASES2(7)
        UP(7, F3, "fp3")
#ifdef THOROUGH
        CASES2(13)
        roots<Fields<7>::T, Fields<7>::F3>("F7/fp3", "cube=r_0,r_1");
        UP(13, F3, "fp3") UP(17, F2, "fp2")
#endif
        base_field<7>();
        base_field<13>();
        base_field<17>();
#ifdef THOROUGH
        base_field<251>();
        CASES1(251)
#endif
        UP(5, F4, "fp4")
        compare<Fields<7>::T, Fields<7>::F62>("F7/fp6_2over3", "");
        compare<Fields<5>::T, Fields<5>::F63>("F5/fp6_3over2", "");
        compare<Fields<5>::T, Fields<5>::F12>("F5/fp12", "");
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
