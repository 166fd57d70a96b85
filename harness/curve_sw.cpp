// Short Weierstrass curve elements: y^2 = x^3 + a x + b, every coordinate system, against chord and tangent.
#include "curve_common.hpp"
#if defined(JAC)
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#elif defined(JAC0)
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#elif defined(JACM3)
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#elif defined(PROJ)
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#elif defined(PROJM3)
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#else
#define AFF 1
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#endif
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>

namespace {
using form = cv::forms::short_weierstrass;
struct Params {
    using field_type = Fld;
    template<class C>
    using group_type = Grp<Params>;
    inline static Sf a, b;
    inline static std::array<Sf, 2> zero_fill = {Sf(0), Sf(0)};
    inline static std::array<Sf, 2> one_fill = {Sf(0), Sf(0)};
};
using AffE = cd::curve_element<Params, form, cv::coordinates::affine>;
using ProjE = cd::curve_element<Params, form, cv::coordinates::projective>;
#if defined(JAC)
#define KIND_ "jacobian"
using coord = cv::coordinates::jacobian;
#elif defined(JAC0)
#define KIND_ "jacobian_a4_0"
using coord = cv::coordinates::jacobian_with_a4_0;
#elif defined(JACM3)
#define KIND_ "jacobian_a4_minus_3"
using coord = cv::coordinates::jacobian_with_a4_minus_3;
#elif defined(PROJ)
#define KIND_ "projective"
using coord = cv::coordinates::projective;
#elif defined(PROJM3)
#define KIND_ "projective_a4_minus_3"
using coord = cv::coordinates::projective_with_a4_minus_3;
#else
#define KIND_ "affine"
using coord = cv::coordinates::affine;
#endif
using E = cd::curve_element<Params, form, coord>;
#if defined(JAC) || defined(JAC0) || defined(JACM3)
constexpr int WX = 2, WY = 3;
#else
constexpr int WX = 1, WY = 1;
#endif
#if defined(JAC0)
#define FIXA 0
#elif defined(JACM3) || defined(PROJM3)
#define FIXA -3
#endif

Sf pw(const Sf &z, int k) { return k == 1 ? z : k == 2 ? z * z : z * z * z; }
struct Pt {
    bool inf = true;
    Sf x, y;
};
E lift(const Pt &p, const Sf &z) {
#ifdef AFF
    return p.inf ? E() : E(p.x, p.y);
#else
    return E(p.x * pw(z, WX), p.y * pw(z, WY), z);
#endif
}
// chord and tangent
Pt oracle_add(const Pt &p, const Pt &q) {
    if (p.inf) return q;
    if (q.inf) return p;
    Pt r;
    Sf l;
    if (p.x != q.x) {
        l = (q.y - p.y) * (q.x - p.x).inversed();
    } else {
        if (!(p.y == q.y)) return r;
        if (p.y.is_zero()) return r;
        l = (Sf(3) * p.x * p.x + Params::a) * (p.y + p.y).inversed();
    }
    r.inf = false;
    r.x = l * l - p.x - q.x;
    r.y = l * (p.x - r.x) - p.y;
    return r;
}
Pt neg(Pt p) {
    if (!p.inf) p.y = -p.y;
    return p;
}
void expect(const E &r, const Pt &o, const std::string &l) {
#ifdef AFF
    if (o.inf) {
        same(r.X, Params::zero_fill[0], l + ": x of the point at infinity");
        same(r.Y, Params::zero_fill[1], l + ": y of the point at infinity");
    } else {
        same(r.X, o.x, l + ": x");
        same(r.Y, o.y, l + ": y");
    }
#else
    if (o.inf) same(r.Z, Sf(0), l + ": the sum is the point at infinity");
    else {
        check(!Sf::feq(r.Z, Sf(0)), l + ": the sum is not the point at infinity");
        same(r.X, o.x * pw(r.Z, WX), l + ": x");
        same(r.Y, o.y * pw(r.Z, WY), l + ": y");
    }
#endif
}
template<class T, class = void>
struct has_sub_assign : std::false_type {};
template<class T>
struct has_sub_assign<T, std::void_t<decltype(std::declval<T &>() -= std::declval<const T &>())>> : std::true_type {};
template<class T>
void sub_assign(T &t, const T &u) {
    if constexpr (has_sub_assign<T>::value) t -= u;
    else t = t - u;
}
enum { GEN, SAME, OPP, LINF, RINF, BINF };
struct In {
    Pt p, q;
    E P, Q;
};
E infinity(const std::string &n) {
#ifdef AFF
    return E();
#else
#if defined(JAC) || defined(JAC0) || defined(JACM3)
    Sf t = fvar("t" + n);
    return E(t * t, t * t * t, Sf(0));    // every (X, Y, 0) satisfying the curve equation
#else
    return E(Sf(0), nz("t" + n), Sf(0));
#endif
#endif
}
// Two points of one curve.  Generic field: a rational parametrisation of all pairs with distinct x and distinct y;
// small primes: all pairs of points of all curves.
In inputs(int kind, bool small, bool zone) {
    In r;
    auto coef = [&] {
#ifdef FIXA
        Params::a = Sf(FIXA);
#else
        Params::a = fvar("a");
#endif
    };
    coef();
    Sf x1 = fvar("x1");
    r.p.inf = false;
    r.p.x = x1;
    if (small) {
        Params::b = fvar("b");
        assume(!Sf::feq(Sf(4) * Params::a * Params::a * Params::a + Sf(27) * Params::b * Params::b, Sf(0)));
        r.p.y = fvar("y1");
        assume(Sf::feq(r.p.y * r.p.y, (x1 * x1 + Params::a) * x1 + Params::b));
        if (kind == GEN) {
            r.q.inf = false;
            r.q.x = fvar("x2");
            r.q.y = fvar("y2");
            assume(Sf::feq(r.q.y * r.q.y, (r.q.x * r.q.x + Params::a) * r.q.x + Params::b));
        }
    } else if (kind == GEN) {
        Sf x2 = fvar("x2"), m = nz("m");
        assume(!Sf::feq(x1, x2));
        Sf dx = x2 - x1;
        r.p.y = ((x1 * x1 + x1 * x2 + x2 * x2 + Params::a) * m.inversed() - m * dx) * Sf(2).inversed();
        r.q.inf = false;
        r.q.x = x2;
        r.q.y = r.p.y + m * dx;
        Params::b = r.p.y * r.p.y - (x1 * x1 + Params::a) * x1;
    } else {
        r.p.y = fvar("y1");
        Params::b = r.p.y * r.p.y - (x1 * x1 + Params::a) * x1;
    }
    if (kind == SAME) r.q = r.p;
    if (kind == OPP) r.q = neg(r.p);
#ifdef AFF
    // (0, 0) or (0, 1) encodes the point at infinity; curves through that point cannot be represented
    assume(!Sf::feq(Params::b, Params::zero_fill[1]));
#endif
    Sf z1 = Sf(1), z2 = Sf(1);
#ifndef AFF
    z1 = nz("z1");
    if (!zone) z2 = nz("z2");
#endif
    r.P = lift(r.p, z1);
    r.Q = r.q.inf ? E() : lift(r.q, z2);
    if (kind == LINF || kind == BINF) {
        r.q = kind == BINF ? Pt() : r.p;
        r.Q = kind == BINF ? infinity("2") : (zone ? lift(r.p, Sf(1)) : r.P);
        r.p = Pt();
        r.P = infinity("1");
    }
    if (kind == RINF) {
        r.q = Pt();
        r.Q = infinity("2");
    }
    return r;
}
const char *kname[] = {"distinct", "equal", "opposite", "left_infinity", "right_infinity", "both_infinity"};

void add_cases(int marker) {
    static const auto set = [](int m) { Params::zero_fill = {Sf(0), Sf(m)}; };
    std::string KIND = KIND_ + std::string(marker ? "_marker01" : "");
    for (int kind = GEN; kind <= BINF; kind++) {
        std::string k = kname[kind];
        auto primes = kind == GEN ? quick_primes({5}, {7}) : quick_primes({5, 7}, {11, 13});
        both(KIND + "/add/" + k, primes, "", "", [=](bool small) {
            set(marker);
            In i = inputs(kind, small, false);
            Pt o = oracle_add(i.p, i.q);
            E s = i.P + i.Q;
            expect(s, o, "P+Q");
            E t = i.P;
            t += i.Q;
            expect(t, o, "P+=Q");
            reach("done");
        });
        both(KIND + "/sub/" + k, primes, "", "", [=](bool small) {
            set(marker);
            In i = inputs(kind, small, false);
            Pt o = oracle_add(i.p, neg(i.q));
            E s = i.P - i.Q;
            expect(s, o, "P-Q");
            E t = i.P;
            sub_assign(t, i.Q);
            expect(t, o, "P-=Q");
            expect(-i.P, neg(i.p), "-P");
            reach("done");
        });
#ifndef AFF
        both(KIND + "/mixed_add/" + k, primes, "", "", [=](bool small) {
            set(marker);
            In i = inputs(kind, small, true);
            Pt o = oracle_add(i.p, i.q);
            i.P.mixed_add(i.Q);
            expect(i.P, o, "mixed_add");
            reach("done");
        });
#endif
        if (kind == SAME || kind == BINF)
            both(KIND + "/double/" + k, primes, "", "", [=](bool small) {
            set(marker);
                In i = inputs(kind, small, false);
                Pt o = oracle_add(i.p, i.p);
                E s = i.P;
                s.double_inplace();
                expect(s, o, "2P");
                // in place on an aliased operand
                E t = i.P;
                t += t;
                expect(t, o, "P+=P");
                E u = i.P;
                sub_assign(u, u);
                expect(u, Pt(), "P-=P");
                reach("done");
            });
    }
}
// a < = > b on the path: the boolean the real code returned against the condition it decides
void iff(bool got, const Bool &want, const std::string &l) { check(got ? want : !want, l); }
template<class T, class = void>
struct has_to_projective : std::false_type {};
template<class T>
struct has_to_projective<T, std::void_t<decltype(std::declval<const T &>().to_projective())>> : std::true_type {};

template<class T, class F>
void with_projective(const T &t, F f) {
    if constexpr (has_to_projective<T>::value) f(t.to_projective());
}
// equality, the zero test, the curve test, constructors and conversions between coordinate systems
void add_repr_cases(int marker) {
    static const auto set = [](int m) { Params::zero_fill = {Sf(0), Sf(m)}; };
    std::string KIND = KIND_ + std::string(marker ? "_marker01" : "");
    auto primes = quick_primes({5, 7}, {11, 13});
    auto curve = [] {
#ifdef FIXA
        Params::a = Sf(FIXA);
#else
        Params::a = fvar("a");
#endif
        Params::b = fvar("b");
    };
    auto notmarker = [](const Pt &p) {
#ifdef AFF
        assume(!(Sf::feq(p.x, Params::zero_fill[0]) & Sf::feq(p.y, Params::zero_fill[1])));
#endif
    };
    both(KIND + "/equality", primes, "", "", [=](bool small) {
        set(marker);
        Pt p{false, fvar("x1"), fvar("y1")}, q{false, fvar("x2"), fvar("y2")};
        notmarker(p);
        notmarker(q);
        E P = lift(p, nz("z1")), Q = lift(q, nz("z2"));
        Bool eq = Sf::feqq(p.x, q.x) & Sf::feqq(p.y, q.y);
        iff(P == Q, eq, "P == Q iff same coordinates");
        iff(P != Q, !eq, "P != Q iff different coordinates");
        reach("done");
    });
    both(KIND + "/equality/scaled", primes, "", "", [=](bool small) {
        set(marker);
        Pt p{false, fvar("x1"), fvar("y1")};
        notmarker(p);
        E P = lift(p, nz("z1")), Q = lift(p, nz("z2"));
        check(P == Q, "two representations of a point are equal");
        check(!(P != Q), "two representations of a point are equal (!=)");
        Q = lift(neg(p), nz("z3"));
        iff(P == Q, Sf::feqq(p.y, Sf(0)), "P == -P iff y = 0");
        reach("done");
    });
    both(KIND + "/equality/infinity", primes, "", "", [=](bool small) {
        set(marker);
        Pt p{false, fvar("x1"), fvar("y1")};
        notmarker(p);
        E P = lift(p, nz("z1")), O = infinity("1"), O2 = infinity("2");
        check(O == O2, "O == O");
        check(!(O != O2), "not O != O");
        check(!(P == O), "P == O only for O");
        check(!(O == P), "O == P only for O");
        check(P != O, "P != O");
        check(O.is_zero(), "O.is_zero()");
        check(!P.is_zero(), "P.is_zero() only for O");
        check(E::zero().is_zero(), "zero() is O");
        check((-O).is_zero(), "-O is O");
        check(E() == O, "the default element is O");
        check(E::zero() == O, "zero() == O");
        Params::one_fill = {p.x, p.y};
        check(E::one() == P, "one() is the generator of the parameters");
        E A;
        A = P;
        check(A == P, "assignment");
        reach("done");
    });
#ifndef AFF
    both(KIND + "/well_formed", primes, "", "", [=](bool small) {
        set(marker);
        curve();
        Pt p{false, fvar("x1"), fvar("y1")};
        E P = lift(p, nz("z1"));
        iff(P.is_well_formed(), Sf::feqq(p.y * p.y, (p.x * p.x + Params::a) * p.x + Params::b),
            "is_well_formed iff the point satisfies the curve equation");
        check(infinity("1").is_well_formed(), "O is well formed");
        reach("done");
    });
    both(KIND + "/to_affine", primes, "", "", [=](bool small) {
        set(marker);
        Pt p{false, fvar("x1"), fvar("y1")};
        E P = lift(p, nz("z1"));
        AffE A = P.to_affine();
        same(A.X, p.x, "to_affine: x");
        same(A.Y, p.y, "to_affine: y");
        A = infinity("1").to_affine();
        check(A.is_zero(), "to_affine of O is O");
        reach("done");
    });
#endif
    if constexpr (has_to_projective<E>::value)
        both(KIND + "/to_projective", primes, "", "", [=](bool small) {
            set(marker);
            Pt p{false, fvar("x1"), fvar("y1")};
            notmarker(p);
            E P = lift(p, nz("z1"));
            with_projective(P, [&](const ProjE &A) {
                check(!Sf::feq(A.Z, Sf(0)), "to_projective of a finite point is finite");
                same(A.X, p.x * A.Z, "to_projective: x");
                same(A.Y, p.y * A.Z, "to_projective: y");
            });
            with_projective(infinity("1"), [&](const ProjE &A) { check(A.is_zero(), "to_projective of O is O"); });
            reach("done");
        });
}
struct Init {
    Init() {
#ifdef REPR
        add_repr_cases(0);
#ifdef AFF
        add_repr_cases(1);
#endif
#else
        add_cases(0);
#ifdef AFF
        add_cases(1);
#endif
#endif
    }
} init_;
}    // namespace
struct Curve {};
int main(int argc, char **argv) { return run_main(argc, argv); }
