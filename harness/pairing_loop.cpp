// Miller loops.  The real precomputations, Miller loops and pair()/pair_reduced() run over a symbolic field, a symbolic
// twist and a symbolic loop count; the reference multiplies the textbook lines (conics for Edwards) through multiples
// of Q computed by the affine group law.  Values are compared as elements of GT modulo the factors that the final
// exponentiation sends to one: the subfield over which Q is defined, and w.
#include "symfield.hpp"
#include <boost/multiprecision/number.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/wnaf.hpp>
#include <vector>
#include <iostream>
using namespace symrt;

namespace {
bool concrete = false;
// E: an element of the field that the G2 coordinates live in
struct E {
    Sf v;
    typedef E underlying_type;
    E() = default;
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    E(I i) : v(i) {}
    E(const Sf &x) : v(x) {}
    // an element of the subfield
    E(const E &a, const E &b) : v(a.v + b.v * eta1()) {}
    E(const E &a, const E &b, const E &c) : v(a.v + b.v * eta1() + c.v * eta2()) {}
    static Sf eta1() { return fvar("eta1"); }
    static Sf eta2() { return fvar("eta2"); }
    friend E operator+(const E &a, const E &b) { return E(a.v + b.v); }
    friend E operator-(const E &a, const E &b) { return E(a.v - b.v); }
    friend E operator*(const E &a, const E &b) { return E(a.v * b.v); }
    E operator-() const { return E(-v); }
    E &operator+=(const E &b) { return *this = *this + b; }
    E &operator-=(const E &b) { return *this = *this - b; }
    E &operator*=(const E &b) { return *this = *this * b; }
    E doubled() const { return *this + *this; }
    E squared() const { return *this * *this; }
    E &square_inplace() { return *this = squared(); }
    // kept as a fraction, so that identities are decided over the integers with the divisors inverted
    E inversed() const {
        if (rt().replay || concrete) return E(v.inversed());
        Sf r;
        r.s.id = rt().node("finv " + Sf::P(field_p()) + " " + S(v.fterm(field_p())));
        return E(r);
    }
    friend bool operator==(const E &a, const E &b) { return a.v == b.v; }
    friend bool operator!=(const E &a, const E &b) { return a.v != b.v; }
    bool is_zero() const { return v.is_zero(); }
    static E zero() { return E(0); }
    static E one() { return E(1); }
    friend std::ostream &operator<<(std::ostream &o, const E &e) { return o << e.v; }
};
Bool eq(const E &a, const E &b) { return Sf::feqq(a.v, b.v); }
struct Loop {
    std::vector<int> b;
    Loop() = default;
    Loop(const Loop &) = default;
    template<class T>
    Loop(const T &) {}
};
}    // namespace
namespace boost { namespace multiprecision {
    inline bool bit_test(const Loop &l, long i) { return i < (long)l.b.size() && l.b[i]; }
}}

#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>

namespace {
#if !defined(TOP)
#if defined(THOROUGH)
#define TOP 4
#else
#define TOP 3
#endif
#endif
constexpr int BITS = TOP + 1;
E xi, ca, cb;    // twist; coefficients of the curve Q lies on
struct MF {
    typedef E value_type;
    typedef Loop integral_type;
    typedef Loop extended_integral_type;
    constexpr static const std::size_t modulus_bits = BITS;
    constexpr static const std::size_t number_bits = BITS;
};
struct Aff {
    typedef MF field_type;
    E X, Y, Z;
};
struct Pt {
    typedef MF field_type;
    E X, Y, Z;
    bool inf = false;
    Pt() = default;
    Pt(const E &x, const E &y) : X(x), Y(y), Z(E(1)) {}
    bool is_zero() const { return inf; }
    Aff to_affine() const { return inf ? Aff{E(0), E(1), E(1)} : Aff{X, Y, E(1)}; }
    static E mul_by_a(const E &e) { return ca * e; }
    static E mul_by_d(const E &e) { return cb * e; }
    static Pt zero() {
        Pt p;
        p.inf = true;
        return p;
    }
};
template<class C>
struct Gr {
    typedef Pt value_type;
    typedef MF field_type;
};
template<>
struct Gr<nil::crypto3::algebra::curves::coordinates::affine> {
    typedef Aff value_type;
    typedef MF field_type;
};
// GT: a fraction of polynomials in w modulo w^D - twist
#if defined(P_BLS)
constexpr int D = 6;
#else
constexpr int D = 2;
#endif
struct Gt {
    typedef E underlying_type;
    E n[D], d[D];
    bool frac = false;
    Gt() {
        d[0] = E(1);
    }
    Gt(const E &a, const E &b) : Gt() {
        n[0] = a;
        n[1] = b;
    }
    static Gt one() {
        Gt r;
        r.n[0] = E(1);
        return r;
    }
    static Gt zero() { return Gt(); }
    static bool isc(const E &e, int v) { return !e.v.s.id && e.v.s.n == v && e.v.s.d == 1; }
    static void pm(const E *a, const E *b, E *r) {
        E t[2 * D - 1];
        for (int i = 0; i < D; i++)
            for (int j = 0; j < D; j++)
                if (!isc(a[i], 0) && !isc(b[j], 0)) t[i + j] = t[i + j] + a[i] * b[j];
        for (int i = 0; i < D; i++) r[i] = i + D < 2 * D - 1 && !isc(t[i + D], 0) ? t[i] + xi * t[i + D] : t[i];
    }
    friend Gt operator*(const Gt &a, const Gt &b) {
        Gt r;
        pm(a.n, b.n, r.n);
        pm(a.d, b.d, r.d);
        return r;
    }
    Gt &operator*=(const Gt &b) { return *this = *this * b; }
    Gt squared() const { return *this * *this; }
    Gt inversed() const {
        Gt r;
        for (int i = 0; i < D; i++) {
            r.n[i] = d[i];
            r.d[i] = n[i];
        }
        return r;
    }
#if defined(P_BLS)
    // multiplication by b + a w^3 + c w^5 (checked for the real tower by F03)
    Gt mul_by_045(const E &a, const E &b, const E &c) const {
        Gt l;
        l.n[0] = b;
        l.n[3] = a;
        l.n[5] = c;
        return *this * l;
    }
#endif
    Gt &square_inplace() { return *this = squared(); }
    Gt mul_by_023(const Gt &o) const { return *this * o; }
    Gt mul_by_2345(const Gt &o) const { return *this * o; }
    // the final exponentiation is not run here (pairing_fe.cpp)
    static Gt fe() { throw std::runtime_error("an operation of the final exponentiation"); }
    Gt Frobenius_map(std::size_t) const { return fe(); }
    template<class N>
    Gt cyclotomic_exp(const N &) const { return fe(); }
    template<class N>
    Gt pow(const N &) const { return fe(); }
    Gt cyclotomic_squared() const { return fe(); }
    Gt unitary_inversed() const { return fe(); }
    // a == b
    static Bool same(const Gt &a, const Gt &b) {
        E l[D], r[D];
        pm(a.n, b.d, l);
        pm(b.n, a.d, r);
        Bool k(true);
        for (int i = 0; i < D; i++) k = k & eq(l[i], r[i]);
        return k;
    }
    // a == c b for some c of the subfield, or of the subfield times w^(D/2)
    static Bool killed(const Gt &a, const Gt &b) {
        E l[D], r[D];
        pm(a.n, b.d, l);
        pm(b.n, a.d, r);
        Bool any(false);
        for (int s = 0; s < 2; s++) {
            Bool k(true);
            for (int i = 0; i < D; i++)
                for (int j = i + 1; j < D; j++) k = k & eq(l[i] * r[j], l[j] * r[i]);
            any = any | k;
            E t[D];
            for (int i = 0; i < D; i++) t[i] = i < D / 2 ? xi * r[i + D / 2] : r[i - D / 2];
            for (int i = 0; i < D; i++) r[i] = t[i];
        }
        return any;
    }
    // in the subfield or the subfield times w^(D/2)
    Bool trivial() const {
        Bool any(false);
        for (int s = 0; s < 2; s++) {
            Bool k(true);
            for (int i = 0; i < D; i++)
                if (i != s * (D / 2)) k = k & eq(n[i], E(0));
            Bool k2(false);
            for (int q = 0; q < 2; q++) {
                Bool m(true);
                for (int i = 0; i < D; i++)
                    if (i != q * (D / 2)) m = m & eq(d[i], E(0));
                k2 = k2 | m;
            }
            any = any | (k & k2);
        }
        return any;
    }
};
struct GtF {
    typedef Gt value_type;
};
struct MCurve {
    typedef MF base_field_type;
    typedef MF scalar_field_type;
    template<class C = int>
    using g1_type = Gr<C>;
    template<class C = int>
    using g2_type = Gr<C>;
    typedef GtF gt_type;
};
}    // namespace
#define CRYPTO3_ALGEBRA_CURVES_BLS12_HPP
#define CRYPTO3_ALGEBRA_CURVES_JUBJUB_HPP
#define CRYPTO3_ALGEBRA_CURVES_MNT4_HPP
#define CRYPTO3_ALGEBRA_CURVES_MNT6_HPP
#define CRYPTO3_ALGEBRA_CURVES_EDWARDS_HPP
#define CRYPTO3_ALGEBRA_PAIRING_BLS12_381_BASIC_PARAMS_HPP
#define CRYPTO3_ALGEBRA_PAIRING_MNT4_298_PAIRING_PARAMS_HPP
#define CRYPTO3_ALGEBRA_PAIRING_MNT6_298_PAIRING_PARAMS_HPP
#define CRYPTO3_ALGEBRA_PAIRING_EDWARDS_183_PAIRING_PARAMS_HPP
namespace nil { namespace crypto3 { namespace algebra {
    namespace curves {
        template<std::size_t>
        struct bls12 : MCurve {};
        template<std::size_t>
        struct mnt4 : MCurve {};
        template<std::size_t>
        struct mnt6 : MCurve {};
        template<std::size_t>
        struct edwards : MCurve {};
        struct jubjub {};
    }
    namespace pairing { namespace detail {
        struct mock_params {
            typedef Loop integral_type;
            typedef Loop extended_integral_type;
            typedef E g2_field_type_value;
            constexpr static const std::size_t integral_type_max_bits = BITS;
            static inline Loop ate_loop_count, final_exponent, final_exponent_z, final_exponent_last_chunk_abs_of_w0,
                final_exponent_last_chunk_w1;
            static inline bool ate_is_loop_count_neg = false, final_exponent_is_z_neg = false,
                               final_exponent_last_chunk_is_w0_neg = false;
            static inline E &twist = xi, &twist_coeff_a = ca, &twist_coeff_b = cb;
        };
        template<typename CurveType>
        class pairing_params : public mock_params {};
    }}
}}}
#if defined(P_BLS)
#include <nil/crypto3/algebra/pairing/bls12.hpp>
typedef nil::crypto3::algebra::curves::bls12<381> C;
#elif defined(P_MNT4)
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
typedef nil::crypto3::algebra::curves::mnt4<298> C;
#elif defined(P_MNT6)
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
typedef nil::crypto3::algebra::curves::mnt6<298> C;
#else
#include <nil/crypto3/algebra/pairing/edwards.hpp>
typedef nil::crypto3::algebra::curves::edwards<183> C;
#endif
#include <nil/crypto3/algebra/algorithms/pair.hpp>
namespace alg = nil::crypto3::algebra;
using Params = alg::pairing::detail::mock_params;
using Policy = alg::pairing::pairing_policy<C>;

#if !defined(P_EDW)
#define SW 1
#endif
namespace {
int thin = 0;    // 1: only y of Q and the coordinates of P are symbolic; 2: only the coordinates of P
E in(const std::string &n) {
    if (concrete) {
        uint64_t h = 1469598103934665603ull;
        for (char c : n) h = (h ^ (uint64_t)c) * 1099511628211ull;
        return E(Sf::cst(h % ((1ull << 61) - 1)));
    }
    if (thin) {
        if (n == "qx" || n == "sx") return E(n == "qx" ? 3 : 7);
        if (n == "a") return E(2);
        if (n == "twist") return E(5);
        if (thin > 1 && (n == "qy" || n == "sy")) return E(n == "qy" ? 11 : 13);
    }
    return E(fvar(n));
}
void curve_setup(bool conc = false) {
    field_mode() = (1ull << 61) - 1;
    concrete = conc;
    xi = in("twist");
#if SW
    ca = in("a");
#else
    ca = xi;    // the twist of a curve with a = 1
#endif
    cb = in("b");
}
// the lines through multiples of Q, evaluated at P
struct Ref {
    E x, y, px, py, U, V, W;
    Gt f = Gt::one();
    Ref(const Pt &P, const Pt &Q) : x(Q.X), y(Q.Y), px(P.X), py(P.Y), U(Q.X), V(Q.Y), W(E(1)) {}
#if SW
    // slope M / N at a point (X0, Y0) in units of Z0:  line  (M X0 - N Y0) - M (twisted px) + N (twisted py)
    void line(const E &c, const E &m, const E &n) {
        Gt l;
#if defined(P_BLS)
        // untwisting is (x, y) -> (x w^-2, y w^-3):  l w^6
        l.n[0] = xi * py * n;
        l.n[3] = c;
        l.n[5] = -(m * px);
#else
        // l w twist
        l.n[0] = c - m * xi * px;
        l.n[1] = xi * py * n;
#endif
        f = f * l;
    }
    void dbl() {
        E two = E(2), U2 = U * U, V2 = V * V, W2 = W * W;
#if defined(P_BLS)
        E M = E(3) * U2;
#else
        E M = E(3) * U2 + ca * W2 * W2;
#endif
        f = f * f;
        E n = two * V * W * W2;
        line(M * U - two * V2, M * W2, n);
        E S = E(4) * U * V2, nu = M * M - two * S;
        W = two * V * W;
        V = M * (S - nu) - E(8) * V2 * V2;
        U = nu;
    }
    void add() {
        E W2 = W * W, H = x * W2 - U, r = y * W2 * W - V, n = W * H;
        line(r * x - n * y, r, n);
        E H2 = H * H, nu = r * r - H2 * H - E(2) * U * H2;
        V = r * (U * H2 - nu) - V * H2 * H;
        U = nu;
        W = n;
    }
#else
    // (U/W, V/W): the conic  z (1 + y) + c x y + e x  through the points given by two rows of conditions
    void conic(const E *p, const E *q) {
        E z = p[1] * q[2] - p[2] * q[1], c = p[2] * q[0] - p[0] * q[2], e = p[0] * q[1] - p[1] * q[0];
        // at (px / w, py), times w
        Gt l;
        l.n[0] = px * (c * py + e);
        l.n[1] = z * (E(1) + py);
        f = f * l;
    }
    void dbl() {
        E W2 = W * W, U2 = U * U, V2 = V * V;
        // homogenised: row (W^2 + V W, U V, U W); tangent direction from the curve with d eliminated
        E dx = -(W2 - ca * U2) * U, dy = (W2 - V2) * V;    // times 1/W^3
        E p[3] = {W2 + V * W, U * V, U * W};
        E q[3] = {dy * W, U * dy + V * dx, dx * W};
        f = f * f;
        conic(p, q);
        E s = ca * U2 + V2, t = E(2) * W2 - s;
        E nx = E(2) * U * V * t, ny = (V2 - ca * U2) * s;
        W = s * t;
        U = nx;
        V = ny;
    }
    void add() {
        E p[3] = {W * W + V * W, U * V, U * W};
        E q[3] = {E(1) + y, x * y, x};
        conic(p, q);
        E k = V * y + ca * U * x, l = U * y - V * x;
        E nx = (U * V + x * y * W * W) * l, ny = (U * V - x * y * W * W) * k;
        // x3 = (x1 y1 + x2 y2)/(y1 y2 + a x1 x2), y3 = (x1 y1 - x2 y2)/(x1 y2 - y1 x2)
        W = k * l * W;
        U = nx;
        V = ny;
    }
#endif
};
// loop count: top bit at the given position, the rest symbolic
std::vector<int> bits;
void loop_setup(int top) {
    bits.assign(top + 1, 0);
    bits[top] = 1;
    for (int i = 0; i < top; i++) {
        if (rt().replay) bits[i] = rt().values["n" + std::to_string(i)] == "1";
        else bits[i] = decide(Bool::of(rt().node("bvar n" + std::to_string(i))));
    }
    Params::ate_loop_count.b = bits;
}
Pt point(const std::string &n, bool on) {
    Pt r(in(n + "x"), in(n + "y"));
#if defined(P_BLS)
    if (on) cb = r.Y * r.Y - r.X * r.X * r.X;
#endif
    return r;
}
Gt reference(const Pt &P, const Pt &Q) {
    Ref r(P, Q);
    for (int i = (int)bits.size() - 2; i >= 0; i--) {
        r.dbl();
        if (bits[i]) r.add();
    }
    return Params::ate_is_loop_count_neg ? r.f.inversed() : r.f;
}
Gt miller(const Pt &P, const Pt &Q) {
    return alg::miller_loop<C>(alg::precompute_g1<C>(P), alg::precompute_g2<C>(Q));
}
// every factor of f nonzero at one concrete input
void alive(const Gt &f) {
    bool n = false, d = false;
    for (int i = 0; i < D; i++) {
        if (f.n[i].v.s.id || f.d[i].v.s.id) throw std::logic_error("a concrete input with a symbolic result");
        n = n || !eq(f.n[i], E(0)).v;
        d = d || !eq(f.d[i], E(0)).v;
    }
    check(n && d, "the Miller value is not identically zero");
}
struct FE {
    static Gt process(const Gt &a) { return a * a * Gt(in("fe0"), in("fe1")); }
};
struct Policy2 : Policy {
    typedef FE final_exponentiation;
};
const char *OPT = "mode=ident poly=1 modp=1 feas=skip fork=both timeout=120";
#if defined(P_BLS)
constexpr int FULL = 2;    // loop counts up to this many steps: everything symbolic
#else
constexpr int FULL = 1;
#endif
#if defined(P_EDW)
constexpr int SIGNS = 1;    // the Edwards loop count is positive; there is no sign
#else
constexpr int SIGNS = 2;
#endif
struct R {
    R() {
        for (int neg = 0; neg < SIGNS; neg++)
            for (int top = 1; top <= TOP; top++) {
                std::string s = std::string(neg ? "/neg" : "/pos") + "/bits" + std::to_string(top + 1);
                add_case("miller" + s, OPT, [=] {
                    Params::ate_is_loop_count_neg = neg;
                    thin = top <= FULL ? 0 : top == 2 ? 1 : 2;
                    loop_setup(top);
                    for (int c = 0; c < 2; c++) {
                        curve_setup(c == 0);
                        Pt Q = point("q", true), P = point("p", false);
                        Gt f = miller(P, Q);
                        if (concrete) {
                            if (!rt().replay) alive(f);
                        } else
                            check(Gt::killed(f, reference(P, Q)),
                                  "miller_loop(P, Q) is the product of the lines through the multiples of Q, evaluated at P");
                    }
                });
                if (top <= 3)
                    add_case("double" + s, OPT, [=] {
                        Params::ate_is_loop_count_neg = neg;
                        loop_setup(top);
                        thin = top > 1 || neg ? 2 : 0;
                        curve_setup();
                        Pt Q1 = point("q", true), P1 = point("p", false), P2 = point("r", false), Q2 = point("s", false);
                        auto g1 = alg::precompute_g1<C>(P1), g2 = alg::precompute_g1<C>(P2);
                        auto h1 = alg::precompute_g2<C>(Q1), h2 = alg::precompute_g2<C>(Q2);
                        check(Gt::same(alg::double_miller_loop<C>(g1, h1, g2, h2),
                                       alg::miller_loop<C>(g1, h1) * alg::miller_loop<C>(g2, h2)),
                              "double_miller_loop is the product of the two Miller loops");
                    });
                add_case("identity1" + s, OPT, [=] {
                    Params::ate_is_loop_count_neg = neg;
                    thin = top <= FULL ? 0 : top == 2 ? 1 : 2;
                    loop_setup(top);
                    for (int c = 0; c < 2; c++) {
                        curve_setup(c == 0);
                        Pt Q = point("q", true);
                        Gt f = miller(Pt::zero(), Q);
                        if (concrete) {
                            if (!rt().replay) alive(f);
                        } else
                            check(f.trivial(), "the Miller value of the identity of G1 is sent to one");
                    }
                });
            }
        add_case("compose", OPT, [] {
            Params::ate_is_loop_count_neg = false;
            thin = 1;
            loop_setup(2);
            curve_setup();
            Pt Q = point("q", true), P = point("p", false);
            Gt m = miller(P, Q);
            check(Gt::same(alg::pair<C>(P, Q), m), "pair is the Miller loop of the precomputations");
            check(Gt::same(alg::pair_reduced<C, Policy2>(P, Q), FE::process(m)),
                  "pair_reduced is the final exponentiation of the Miller loop");
            check(Gt::same(alg::final_exponentiation<C, Policy2>(m), FE::process(m)), "final_exponentiation");
        });
        for (int w = 1; w < 4; w++)
            add_case("identity2/" + std::to_string(w), OPT, [w] {
                Params::ate_is_loop_count_neg = false;
                loop_setup(2);
                curve_setup();
                Pt Q = w & 1 ? Pt::zero() : point("q", true), P = w & 2 ? Pt::zero() : point("p", false);
                check(alg::pair<C>(P, Q).trivial(), "the Miller value of the identity is sent to one");
                struct Id {
                    static Gt process(const Gt &a) { return a; }
                };
                struct Policy3 : Policy {
                    typedef Id final_exponentiation;
                };
                check(alg::pair_reduced<C, Policy3>(P, Q).trivial(), "pairing with the identity gives one");
            });
    }
} r;
}    // namespace
int main(int c, char **v) {
    return run_main(c, v);
}
