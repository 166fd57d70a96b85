// Square roots in the quadratic and cubic extension classes, the multiplicative group of the field replaced by the
// cyclic group Z/n, n = 2^s * t (an element is its discrete logarithm): any 2-adicity, every element.
#include "tower_common.hpp"
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
namespace fl = nil::crypto3::algebra::fields;
using E = Int<24>;

namespace {
struct Unsupported : std::runtime_error {
    Unsupported() : std::runtime_error("an operation outside the multiplicative group") {}
};
// first coordinate: the logarithm; zero: the field's zero
struct Lg {
    E e;
    bool zero_ = true;
    constexpr Lg() = default;
    constexpr Lg(E x, bool z) : e(x), zero_(z) {}
    constexpr explicit Lg(unsigned x) : e(x), zero_(false) {}
    static constexpr Lg zero() { return Lg(E(0u), true); }
    static constexpr Lg one() { return Lg(E(0u), false); }
    constexpr bool operator==(const Lg &o) const { return zero_ == o.zero_ && (zero_ || e == o.e); }
    constexpr bool operator!=(const Lg &o) const { return !(*this == o); }
    bool is_zero() const { return zero_; }
    Lg no() const { throw Unsupported(); }
    Lg operator+(const Lg &) const { return no(); }
    Lg operator-(const Lg &) const { return no(); }
    Lg operator*(const Lg &) const { return no(); }
    Lg &operator+=(const Lg &) { throw Unsupported(); }
    Lg &operator-=(const Lg &) { throw Unsupported(); }
    Lg operator-() const { return no(); }
    Lg squared() const { return no(); }
    Lg doubled() const { return no(); }
    Lg inversed() const { return no(); }
};
template<unsigned S_, unsigned T_>
struct lp {    // parameters of a field with 2^S * T + 1 elements
    static constexpr unsigned S = S_, TT = T_, n = (1u << S_) * T_;
    typedef E integral_type;
    constexpr static const E modulus = E(3u);
    typedef Lg non_residue_type;
    typedef Lg underlying_type;
    constexpr static const Lg non_residue = Lg(1u);
    constexpr static const std::size_t s = S_;
    constexpr static const E t = E(T_);
    constexpr static const E t_minus_1_over_2 = E((T_ - 1) / 2);
    constexpr static const E group_order_minus_one_half = E(n / 2);
};
template<unsigned S, unsigned T>
struct lp2 : lp<S, T> {
    struct field_type { typedef lp2 extension_policy; };
    constexpr static const std::array<Lg, 2> nqr_to_t = {Lg(T * (S > 1 ? 3 : 1)), Lg::zero()};
};
template<unsigned S, unsigned T>
struct lp3 : lp<S, T> {
    struct field_type { typedef lp3 extension_policy; };
    constexpr static const std::array<Lg, 3> nqr_to_t = {Lg(T * (S > 1 ? 3 : 1)), Lg::zero(), Lg::zero()};
};
template<class P, class V>
V times(const V &a, const V &b) {
    V r = V::zero();
    if (a.data[0].zero_ || b.data[0].zero_) return r;
    r.data[0] = Lg((a.data[0].e + b.data[0].e) % E(P::n), false);
    return r;
}
}    // namespace
namespace nil { namespace crypto3 { namespace algebra { namespace fields { namespace detail {
#define GROUP(CLS, ...)                                                                             \
    template<>                                                                                     \
    constexpr CLS<__VA_ARGS__> CLS<__VA_ARGS__>::operator*(const CLS<__VA_ARGS__> &b) const {      \
        return this ? times<__VA_ARGS__>(*this, b) : b;                                             \
    }                                                                                              \
    template<>                                                                                     \
    constexpr CLS<__VA_ARGS__> &CLS<__VA_ARGS__>::operator*=(const CLS<__VA_ARGS__> &b) {          \
        if (this) *this = times<__VA_ARGS__>(*this, b);                                             \
        return *this;                                                                              \
    }                                                                                              \
    template<>                                                                                     \
    constexpr CLS<__VA_ARGS__> CLS<__VA_ARGS__>::squared() const {                                 \
        return this ? times<__VA_ARGS__>(*this, *this) : *this;                                     \
    }
#define GROUPS(X) X(1, 1) X(1, 5) X(2, 3) X(3, 1) X(3, 7) X(4, 3) X(5, 9) X(6, 5) X(7, 3)
#define G2(S, T) GROUP(element_fp2, lp2<S, T>) GROUP(element_fp3, lp3<S, T>)
GROUPS(G2)
}}}}}
namespace {
template<class P, class V>
void roots(const std::string &nm) {
    const std::string O = "mode=bv timeout=100 btimeout=30 maxpaths=400", N = nm + "/s" + S(P::S) + "t" + S(P::TT) + "/";
    auto elem = [] {
        E k = isym<24>("k");
        if (rt().replay) k = k % E(P::n);
        assume(E::blt(k, E(P::n)));
        V a = V::zero();
        a.data[0] = Lg(k, false);
        return a;
    };
    add_case(N + "sqrt", O, [=] {
        V r0 = elem();
        V a = times<P>(r0, r0);
        V r = a.sqrt();
        check(!Bool(r.data[0].zero_), "the square root of a non-zero square is zero");
        V q = times<P>(r, r);
        check(E::beq(q.data[0].e, a.data[0].e), "the square of a.sqrt() is not a");
    });
    add_case(N + "is_square", O, [=] {
        V a = elem();
        bool odd = mp::bit_test(a.data[0].e, 0);
        if (a.is_square()) check(!Bool(odd), "is_square() holds for a non-square");
        else check(Bool(odd), "is_square() fails for a square");
    });
    add_case(N + "zero", "mode=bv", [=] {
        check(Bool(V::zero().sqrt().is_zero()), "the square root of zero is not zero");
        check(Bool(V::zero().is_square()), "zero is not a square");
    });
}
struct Init {
    Init() {
        using namespace fl::detail;
#define R(S, T) roots<lp2<S, T>, element_fp2<lp2<S, T>>>("fp2"); roots<lp3<S, T>, element_fp3<lp3<S, T>>>("fp3");
        GROUPS(R)
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
