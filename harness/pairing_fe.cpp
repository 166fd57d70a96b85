// Final exponentiation.  GT is replaced by the group it is isomorphic to, Z/(p^k - 1) written additively: an element
// is its discrete logarithm, multiplication adds, the Frobenius map multiplies by p.  The real final exponentiation,
// with the real curve parameters, runs on a symbolic logarithm.
#include "tower_common.hpp"
#if defined(P_BLS)
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
constexpr int K = 12;
namespace { typedef nil::crypto3::algebra::fields::bls12_base_field<381> Base; }
#define ELEMENT element_fp12_2over3over2
#define EXTENSION fp12_2over3over2
#elif defined(P_MNT4)
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
constexpr int K = 4;
namespace { typedef nil::crypto3::algebra::fields::mnt4_base_field<298> Base; }
#define ELEMENT element_fp4
#define EXTENSION fp4
#elif defined(P_MNT6)
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
constexpr int K = 6;
namespace { typedef nil::crypto3::algebra::fields::mnt6_base_field<298> Base; }
#define ELEMENT element_fp6_2over3
#define EXTENSION fp6_2over3
#else
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
constexpr int K = 6;
namespace { typedef nil::crypto3::algebra::fields::edwards_base_field<183> Base; }
#define ELEMENT element_fp6_2over3
#define EXTENSION fp6_2over3
#endif

namespace {
typedef Int<9400> Big;
template<class I>
Big big(const I &i) {
    std::ostringstream o;
    o << i;
    return Big(o.str().c_str());
}
struct Ctx {
    Big p = big(Base::modulus), N, pk[13], phi;
    std::string n;
    Ctx() {
        pk[0] = Big(1u);
        for (int i = 1; i <= 12; i++) pk[i] = i <= K ? pk[i - 1] * p : pk[i % K];
        N = pk[K] - Big(1u);
        for (int i = 0; i <= 12; i++) pk[i] = i == K || i == 2 * K || i == 3 * K ? Big(1u) : pk[i];
        phi = K == 12 ? pk[4] - pk[2] + Big(1u) : K == 4 ? pk[2] + Big(1u) : pk[2] - p + Big(1u);
        n = str(N);
    }
    static std::string str(const Big &b) {
        std::ostringstream o;
        o << b;
        return o.str();
    }
};
Ctx &ctx() {
    static Ctx c;
    return c;
}
bool numeric = false;
// logarithm: a constant, or c k for the symbolic k (then id is the term)
struct Lg {
    Big v;
    uint32_t id = 0;
    static Lg num(const Big &b) {
        Lg r;
        r.v = b % ctx().N;
        return r;
    }
    uint32_t term() const { return id ? id : rt().node("fc " + ctx().n + " " + Ctx::str(v)); }
    friend Lg operator+(const Lg &a, const Lg &b) {
        if (!a.id && !b.id) return num(a.v + b.v);
        Lg r;
        r.id = rt().node("fadd " + ctx().n + " " + S(a.term()) + " " + S(b.term()));
        return r;
    }
    friend Lg operator*(const Big &c, const Lg &a) {
        if (!a.id) return num(c * a.v);
        Lg r;
        r.id = rt().node("fmul " + ctx().n + " " + S(num(c).term()) + " " + S(a.id));
        return r;
    }
    Lg operator-() const {
        if (!id) return num(ctx().N - v);
        Lg r;
        r.id = rt().node("fsub " + ctx().n + " " + S(num(Big(0u)).term()) + " " + S(id));
        return r;
    }
    static Bool eq(const Lg &a, const Lg &b) {
        if (!a.id && !b.id) return Bool(a.v == b.v);
        return Bool::of(rt().node("feq " + ctx().n + " " + S(a.term()) + " " + S(b.term())));
    }
    static Lg sym() {
        if (rt().replay) return num(rt().values.count("k") ? Big(rt().values["k"].c_str()) : Big(1u));
        Lg r;
        r.id = rt().node("fvar " + ctx().n + " k");
        return r;
    }
};
struct G {
    Lg l;
    typedef G underlying_type;
    G() = default;
    explicit G(const Lg &x) : l(x) {}
    static G one() { return G(); }
    static G zero() { return G(); }
    friend G operator*(const G &a, const G &b) { return G(a.l + b.l); }
    G &operator*=(const G &b) { return *this = *this * b; }
    G squared() const { return *this * *this; }
    G &square_inplace() { return *this = squared(); }
    G inversed() const { return G(-l); }
    G unitary_inversed() const { return Frobenius_map(K / 2); }
    G Frobenius_map(std::size_t i) const { return G(ctx().pk[i % K] * l); }
    // these formulas are only meant for the subgroup of order Phi_k(p)
    void cyclotomic() const { check(Lg::eq(ctx().phi * l, Lg()), "a cyclotomic formula is applied outside the cyclotomic subgroup"); }
    G cyclotomic_squared() const {
        cyclotomic();
        return squared();
    }
    template<class I>
    G cyclotomic_exp(const I &e) const {
        cyclotomic();
        return G(big(e) * l);
    }
    template<class I>
    G pow(const I &e) const { return G(big(e) * l); }
    bool operator==(const G &o) const { return decide(Lg::eq(l, o.l)); }
    bool operator!=(const G &o) const { return !(*this == o); }
};
}    // namespace
typedef nil::crypto3::algebra::fields::EXTENSION<Base> PolicyField;
typedef PolicyField::extension_policy Policy;
namespace nil { namespace crypto3 { namespace algebra { namespace fields { namespace detail {
template<>
class ELEMENT<Policy> : public G {
public:
    typedef PolicyField field_type;
    using G::G;
    ELEMENT() = default;
    ELEMENT(const G &g) : G(g) {}
    // Miller values are not built from coordinates here
    template<class A, class B>
    ELEMENT(const A &, const B &) {
        throw std::logic_error("coordinates");
    }
    static ELEMENT one() { return G(); }
    static ELEMENT zero() { return G(); }
    friend ELEMENT operator*(const ELEMENT &a, const ELEMENT &b) { return G(a.l + b.l); }
    ELEMENT &operator*=(const ELEMENT &b) { return *this = *this * b; }
    ELEMENT squared() const { return G::squared(); }
    ELEMENT inversed() const { return G::inversed(); }
    ELEMENT unitary_inversed() const { return G::unitary_inversed(); }
    ELEMENT Frobenius_map(std::size_t i) const { return G::Frobenius_map(i); }
    ELEMENT cyclotomic_squared() const { return G::cyclotomic_squared(); }
    template<class I>
    ELEMENT cyclotomic_exp(const I &e) const { return G::cyclotomic_exp(e); }
    template<class I>
    ELEMENT pow(const I &e) const { return G::pow(e); }
    template<class... A>
    ELEMENT mul_by_045(const A &...) const { throw std::logic_error("coordinates"); }
    template<class... A>
    ELEMENT mul_by_024(const A &...) const { throw std::logic_error("coordinates"); }
    template<class... A>
    ELEMENT mul_by_023(const A &...) const { throw std::logic_error("coordinates"); }
    template<class... A>
    ELEMENT mul_by_2345(const A &...) const { throw std::logic_error("coordinates"); }
};
}}}}}
#if defined(P_BLS)
#include <nil/crypto3/algebra/pairing/bls12.hpp>
typedef nil::crypto3::algebra::curves::bls12<381> C;
#elif defined(P_MNT4)
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
typedef nil::crypto3::algebra::curves::mnt4<298> C;
#elif defined(P_MNT6)
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
typedef nil::crypto3::algebra::curves::mnt6<298> C;
#else
#include <nil/crypto3/algebra/pairing/edwards.hpp>
typedef nil::crypto3::algebra::curves::edwards<183> C;
#endif
#include <nil/crypto3/algebra/algorithms/pair.hpp>
namespace alg = nil::crypto3::algebra;
static_assert(std::is_base_of_v<G, typename C::gt_type::value_type>, "GT is replaced");

namespace {
typedef typename C::gt_type::value_type V;
const char *OPT = "mode=ident poly=1 modp=1 feas=skip timeout=60";
struct R {
    R() {
        add_case("exponent", OPT, [] {
            Big r = big(C::scalar_field_type::modulus), N = ctx().N, one(1u), zero(0u);
            check(N % r == zero, "the group order divides p^k - 1");
            Big co = N / r;
            // the exponent that the real code applies, from the element of logarithm one
            V g(G(Lg::num(one)));
            Big e = alg::final_exponentiation<C>(g).l.v;
            check(e % co == zero, "the final exponentiation multiplies logarithms by a multiple of (p^k - 1)/r");
            Big m = (e / co) % r;
            check(m != zero, "the final exponentiation is not the constant map");
            Lg k = Lg::sym();
            Lg o = alg::final_exponentiation<C>(V(G(k))).l;
            check(Lg::eq(o, e * k), "the final exponentiation is a power map");
            check(Lg::eq(r * o, Lg()), "the final exponentiation lands in the group of r-th roots of unity");
        });
        add_case("parameters", OPT, [] {
            typedef alg::pairing::detail::pairing_params<C> PP;
            Big r = big(C::scalar_field_type::modulus), t = big(PP::ate_loop_count);
            Big p = ctx().p % r;
#if defined(P_EDW)
            p = r - p;    // there is no sign: the loop computes the inverse of the pairing for the loop count p
#else
            if (PP::ate_is_loop_count_neg) p = r - p;
#endif
            check(t % r == p, "the loop count is p modulo the group order");
            typedef typename C::template g2_type<> G2;
            typedef typename C::template g1_type<> G1;
            typedef typename G2::field_type::value_type F2;
            typedef typename F2::underlying_type F1;
            F2 tw = PP::twist;
#if defined(P_BLS)
            std::vector<F1> want{F1::one(), F1::one()};
#elif defined(P_MNT4)
            std::vector<F1> want{F1::zero(), F1::one()};
#else
            std::vector<F1> want{F1::zero(), F1::one(), F1::zero()};
#endif
            for (size_t i = 0; i < want.size(); i++) check(Bool(tw.data[i] == want[i]), "the twist is the element that w is a root of");
            F2 x = make<F1, F2>("x");
            std::vector<F2> l, q;
#if defined(P_BLS)
            l = {F2(PP::twist_coeff_b) * x};
            q = {F1(G1::params_type::b) * tw * x};
#elif defined(P_EDW)
            l = {G2::value_type::mul_by_a(x), G2::value_type::mul_by_d(x)};
            q = {F1(G1::params_type::a) * tw * x, F1(G1::params_type::d) * tw * x};
#else
            l = {F2(PP::twist_coeff_a) * x, F2(PP::twist_coeff_b) * x};
            q = {F1(G1::params_type::a) * (tw * tw) * x, F1(G1::params_type::b) * (tw * tw * tw) * x};
#endif
            for (size_t j = 0; j < l.size(); j++)
                for (size_t i = 0; i < want.size(); i++)
                    check(eqq(l[j].data[i], q[j].data[i]), "the second group's curve is the twist of the first group's");
        });
        // the factors by which Miller values may be off: the subfield F_p^(k/2), resp. the field of the twist, and w
        add_case("killed", OPT, [] {
            // logarithms of the subfield of q elements are the multiples of N / (q - 1)
            Big sub = K == 12 ? ctx().pk[2] - Big(1u) : ctx().pk[K / 2] - Big(1u);
            Lg k = Lg::sym(), o = alg::final_exponentiation<C>(V(G((ctx().N / sub) * k))).l;
            check(Lg::eq(o, Lg()), "the final exponentiation sends the field of the twist to one");
            // w^(k/2)'s square lies in the subfield of q = p^(k/2) elements
            Big s2 = ctx().pk[K / 2] - Big(1u);
            Lg w = alg::final_exponentiation<C>(V(G((ctx().N / (s2 + s2)) * k))).l;
            check(Lg::eq(w, Lg()), "the final exponentiation sends the square roots of subfield elements to one");
        });
    }
} r;
}    // namespace
int main(int c, char **v) {
    return run_main(c, v);
}
