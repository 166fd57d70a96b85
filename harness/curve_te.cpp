// Edwards family and Montgomery curve elements, every coordinate system, against the affine group laws.
//   TEAFF, TEINV, TEEXT  twisted Edwards  a x^2 + y^2 = 1 + d x^2 y^2
//   EDINV                Edwards          x^2 + y^2 = c^2 (1 + d x^2 y^2)
//   MONT                 Montgomery       B y^2 = x^3 + A x^2 + x, and the maps to and from twisted Edwards
#include "curve_common.hpp"
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#if defined(EDINV)
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp>
#endif

namespace {
struct Params;
}
struct Curve {
    template<class Coordinates, class Form>
    struct g1_type {
        using params_type = Params;
        using value_type = cd::curve_element<Params, Form, Coordinates>;
    };
};
namespace {
template<class F, class C>
struct Grp2 {
    using curve_type = Curve;
    using params_type = Params;
    using field_type = Fld;
};
struct Params {
    using field_type = Fld;
#if defined(EDINV)
    using group_type = Grp2<cv::forms::edwards, void>;
    using affine_params = Params;
    static std::array<Sf, 2> zero_affine() { return {Sf(0), c}; }
#else
    template<class C>
    using group_type = Grp2<void, C>;
#endif
    inline static Sf a, d, A, B, c = Sf(1);
    // the marker of the neutral element, (0, 0) or (0, 1); Edwards: (X, Y, Z)
#if defined(EDINV)
    inline static std::array<Sf, 3> zero_fill = {Sf(1), Sf(0), Sf(0)};
    inline static std::array<Sf, 3> one_fill = {Sf(1), Sf(0), Sf(0)};
#else
    inline static std::array<Sf, 2> zero_fill = {Sf(0), Sf(1)};
    inline static std::array<Sf, 2> one_fill = {Sf(0), Sf(1)};
#endif
};
using TeAff = cd::curve_element<Params, cv::forms::twisted_edwards, cv::coordinates::affine>;
using TeInv = cd::curve_element<Params, cv::forms::twisted_edwards, cv::coordinates::inverted>;
using TeExt = cd::curve_element<Params, cv::forms::twisted_edwards, cv::coordinates::extended_with_a_minus_1>;
using Mont = cd::curve_element<Params, cv::forms::montgomery, cv::coordinates::affine>;
#if defined(TEAFF)
#define KIND_ "twisted_edwards_affine"
using E = TeAff;
#elif defined(TEINV)
#define KIND_ "twisted_edwards_inverted"
using E = TeInv;
#define INV 1
#elif defined(TEEXT)
#define KIND_ "twisted_edwards_extended"
using E = TeExt;
#elif defined(EDINV)
#define KIND_ "edwards_inverted"
using E = cd::curve_element<Params, cv::forms::edwards, cv::coordinates::inverted>;
#define INV 1
#else
#define MONT 1
#define KIND_ "montgomery_affine"
using E = Mont;
#endif

// neutral element of the Edwards forms: (0, c)
struct Pt {
    bool inf = true;    // Montgomery: the point at infinity
    Sf x, y;
};
Pt O() {
#ifdef MONT
    return Pt();
#else
    return Pt{false, Sf(0), Params::c};
#endif
}
E lift(const Pt &p, const Sf &z) {
#if defined(MONT)
    return p.inf ? E() : E(p.x, p.y);
#elif defined(TEAFF)
    return E(p.x, p.y);
#elif defined(TEEXT)
    return E(p.x * z, p.y * z, p.x * p.y * z, z);
#else
    return E(z * p.x.inversed(), z * p.y.inversed(), z);
#endif
}
E infinity(const std::string &n) {
#if defined(INV)
    return E(nz("t" + n), Sf(0), Sf(0));
#elif defined(TEEXT)
    return lift(O(), nz("t" + n));
#elif defined(TEAFF)
    return n == "2" ? E() : E(Sf(0), Sf(1));
#else
    return E();
#endif
}
Pt neg(Pt p) {
#ifdef MONT
    if (!p.inf) p.y = -p.y;
#else
    p.x = -p.x;
#endif
    return p;
}
#ifdef MONT
Pt oracle_add(const Pt &p, const Pt &q) {
    if (p.inf) return q;
    if (q.inf) return p;
    Pt r;
    Sf l;
    if (p.x != q.x) {
        l = (q.y - p.y) * (q.x - p.x).inversed();
    } else {
        if (!(p.y == q.y)) return r;
        if (p.y.is_zero()) return r;
        l = (Sf(3) * p.x * p.x + Sf(2) * Params::A * p.x + Sf(1)) * (Params::B * (p.y + p.y)).inversed();
    }
    r.inf = false;
    r.x = Params::B * l * l - Params::A - p.x - q.x;
    r.y = l * (p.x - r.x) - p.y;
    return r;
}
#else
Pt te_add(const Pt &p, const Pt &q) {
    Sf l = Params::d * p.x * q.x * p.y * q.y;
    assume(!Sf::feq(Sf(1) + l, Sf(0)));
    assume(!Sf::feq(Sf(1) - l, Sf(0)));
    Pt r;
    r.inf = false;
    r.x = (p.x * q.y + p.y * q.x) * (Params::c * (Sf(1) + l)).inversed();
    r.y = (p.y * q.y - Params::a * p.x * q.x) * (Params::c * (Sf(1) - l)).inversed();
    return r;
}
// inverted coordinates have no representation of the points of order 2 and 4: sums are neutral or have xy != 0
Pt oracle_add(const Pt &p, const Pt &q) {
    Pt r = te_add(p, q);
#ifdef INV
    assume((Sf::feq(r.x, Sf(0)) & Sf::feq(r.y, Params::c)) | (!Sf::feq(r.x, Sf(0)) & !Sf::feq(r.y, Sf(0))));
#endif
    return r;
}
#endif
void expect(const E &r, const Pt &o, const std::string &l) {
#if defined(MONT)
    check(r.is_zero() == o.inf, l + ": O exactly when the sum is O");
    if (!o.inf) {
        same(r.X, o.x, l + ": x");
        same(r.Y, o.y, l + ": y");
    }
#elif defined(TEAFF)
    if (r.X == Params::zero_fill[0] && r.Y == Params::zero_fill[1]) {
        same(o.x, Sf(0), l + ": O only when the sum is O");
        same(o.y, Sf(1), l + ": O only when the sum is O (y)");
    } else {
        same(r.X, o.x, l + ": x");
        same(r.Y, o.y, l + ": y");
    }
#elif defined(TEEXT)
    check(!Sf::feq(r.Z, Sf(0)), l + ": Z is not zero");
    same(r.X, o.x * r.Z, l + ": x");
    same(r.Y, o.y * r.Z, l + ": y");
    same(r.T * r.Z, r.X * r.Y, l + ": T = XY/Z");
#else
    if (o.x == Sf(0)) {
        same(r.Y, Sf(0), l + ": neutral (Y)");
        same(r.Z, Sf(0), l + ": neutral (Z)");
    } else {
        check(!Sf::feq(r.Z, Sf(0)), l + ": not neutral");
        same(r.X * o.x, r.Z, l + ": x");
        same(r.Y * o.y, r.Z, l + ": y");
    }
#endif
}
Bool on_curve(const Pt &p) {
#ifdef MONT
    return Sf::feqq(Params::B * p.y * p.y, ((p.x + Params::A) * p.x + Sf(1)) * p.x);
#else
    Sf xx = p.x * p.x, yy = p.y * p.y;
    return Sf::feqq(Params::a * xx + yy, Params::c * Params::c * (Sf(1) + Params::d * xx * yy));
#endif
}
Bool nonsingular() {
#ifdef MONT
    return !Sf::feq(Params::B * (Params::A * Params::A - Sf(4)), Sf(0));
#else
    return !Sf::feq(Params::a * Params::d * (Params::a - Params::d) * Params::c, Sf(0));
#endif
}
enum { GEN, SAME, OPP, LINF, RINF, BINF };
struct In {
    Pt p, q;
    E P, Q;
    In() : P(O_()), Q(O_()) {}
    static E O_() { return E::zero(); }
};
// coefficients and one or two points.  Generic field: points are free and the coefficients are solved for (a = -1
// and the Edwards form: conic parametrisation of all pairs); small primes: everything free subject to the equations
void points(Pt &p, Pt &q, bool two, bool small) {
    p.inf = q.inf = false;
#ifdef MONT
    if (small) {
        Params::A = fvar("A");
        Params::B = fvar("B");
        assume(nonsingular());
        p.x = fvar("x1");
        p.y = fvar("y1");
        assume(on_curve(p));
        if (two) {
            q.x = fvar("x2");
            q.y = fvar("y2");
            assume(on_curve(q));
        }
        return;
    }
    p.x = fvar("x1");
    p.y = fvar("y1");
    Sf r1 = (p.x * p.x + Sf(1)) * p.x;
    if (two) {
        q.x = fvar("x2");
        q.y = fvar("y2");
        Sf r2 = (q.x * q.x + Sf(1)) * q.x;
        // B y^2 - A x^2 = x^3 + x
        Sf det = q.y * q.y * p.x * p.x - p.y * p.y * q.x * q.x;
        assume(!Sf::feq(det, Sf(0)));
        Sf di = det.inversed();
        Params::B = (r2 * p.x * p.x - r1 * q.x * q.x) * di;
        Params::A = (p.y * p.y * r2 - q.y * q.y * r1) * di;
        assume(!Sf::feq(q.x, p.x));
    } else {
        assume(!Sf::feq(p.x, Sf(0)));
        Params::B = nz("B");
        Params::A = (Params::B * p.y * p.y - r1) * (p.x * p.x).inversed();
    }
    assume(!Sf::feq(Params::B, Sf(0)));
#else
#if defined(EDINV)
    Params::c = small && (two || field_mode() > 7) ? Sf(1) : nz("c");
    Params::a = Sf(1);
#elif defined(TEEXT)
    Params::a = Sf(-1);
#endif
    if (small) {
#if !defined(EDINV) && !defined(TEEXT)
        Params::a = fvar("a");
        assume(is_square_small(Params::a));
#endif
        Params::d = fvar("d");
        assume(nonsingular());
        assume(!is_square_small(Params::d));
        p.x = fvar("x1");
        p.y = fvar("y1");
        assume(on_curve(p));
        if (two) {
            q.x = fvar("x2");
            q.y = fvar("y2");
            assume(on_curve(q));
        }
#ifdef INV
        assume(!Sf::feq(p.x * p.y, Sf(0)));
        if (two) assume(!Sf::feq(q.x * q.y, Sf(0)));
#endif
        return;
    }
#if defined(EDINV) || defined(TEEXT)
    Sf c = Params::c, ci = c.inversed();
    if (two) {
        // everything free subject to the equations: the formulas that are identities in x1, y1, x2, y2, d are
        // settled without them
        p.x = nz("x1");
        p.y = nz("y1");
        q.x = nz("x2");
        q.y = nz("y2");
        Params::d = nz("d");
        assume(!Sf::feq(p.x * p.x, q.x * q.x));
        assume(on_curve(p));
        assume(on_curve(q));
    } else {
        p.x = c * nz("x1");
        p.y = c * nz("y1");
        Sf x = p.x * ci, y = p.y * ci;
        Params::d = (Params::a * x * x + y * y - Sf(1)) * (x * x * y * y).inversed() * ci * ci * ci * ci;
    }
#else
    p.x = nz("x1");
    p.y = nz("y1");
    Sf s = p.x * p.x, t = p.y * p.y;
    if (two) {
        q.x = nz("x2");
        q.y = nz("y2");
        Sf u = q.x * q.x, v = q.y * q.y;
        // a s - d s t = 1 - t ; a u - d u v = 1 - v
        Sf det = s * u * (t - v);
        assume(!Sf::feq(det, Sf(0)));
        Sf di = det.inversed();
        Params::a = (t * s * (Sf(1) - v) - u * v * (Sf(1) - t)) * di;
        Params::d = (s * (Sf(1) - v) - u * (Sf(1) - t)) * di;
    } else {
        Params::a = fvar("a");
        Params::d = (Params::a * s + t - Sf(1)) * (s * t).inversed();
    }
#endif
    assume(nonsingular());
#endif
}
In inputs(int kind, bool small, bool zone) {
    In r;
    points(r.p, r.q, kind == GEN, small);
    if (kind == SAME) r.q = r.p;
    if (kind == OPP) r.q = neg(r.p);
    Sf z1 = Sf(1), z2 = Sf(1);
#if !defined(MONT) && !defined(TEAFF)
    z1 = nz("z1");
    if (!zone) z2 = nz("z2");
#endif
    r.P = lift(r.p, z1);
    if (kind == LINF || kind == BINF) {
        r.q = kind == BINF ? O() : r.p;
        r.Q = kind == BINF ? infinity("2") : lift(r.p, z2);
        r.p = O();
        r.P = infinity("1");
    } else if (kind == RINF) {
        r.q = O();
        r.Q = infinity("2");
    } else
        r.Q = lift(r.q, z2);
    return r;
}
const char *kname[] = {"distinct", "equal", "opposite", "left_neutral", "right_neutral", "both_neutral"};
void set(int marker) {
#if defined(EDINV)
    Params::zero_fill = {Sf(marker), Sf(0), Sf(0)};
#else
    Params::zero_fill = {Sf(0), Sf(marker)};
#endif
}
std::vector<uint64_t> primes_for(int kind) {
#if defined(TEEXT)
    // a = -1 is a square
    return kind == GEN ? quick_primes({5}, {13}) : quick_primes({5}, {13});
#elif defined(MONT)
    return kind == GEN ? quick_primes({5}, {7}) : quick_primes({5, 7}, {11, 13});
#elif defined(INV)
    return kind == GEN ? quick_primes({7}, {11}) : quick_primes({7}, {11, 13});
#else
    return kind == GEN ? quick_primes({5, 7}, {11}) : quick_primes({5, 7}, {11, 13});
#endif
}
void add_cases(int marker) {
    std::string KIND = KIND_ + std::string(marker ? "" : "_marker00");
    for (int kind = GEN; kind <= BINF; kind++) {
#ifdef INV
        if (!marker && kind < OPP) continue;    // the marker matters for O only
#endif
        std::string k = kname[kind];
        auto primes = primes_for(kind);
        both(KIND + "/add/" + k, primes, "", "", [=](bool small) {
            set(marker);
            In i = inputs(kind, small, false);
            Pt o = oracle_add(i.p, i.q);
            E s = i.P + i.Q;
            expect(s, o, "P+Q");
            E t = i.P;
            t += i.Q;
            expect(t, o, "P+=Q");
            reach("done");
        });
        both(KIND + "/sub/" + k, primes, "", "", [=](bool small) {
            set(marker);
            In i = inputs(kind, small, false);
            Pt o = oracle_add(i.p, neg(i.q));
            E s = i.P - i.Q;
            expect(s, o, "P-Q");
            E t = i.P;
            t -= i.Q;
            expect(t, o, "P-=Q");
            expect(-i.P, neg(i.p), "-P");
            reach("done");
        });
#if !defined(MONT) && !defined(TEAFF)
        both(KIND + "/mixed_add/" + k, primes, "", "", [=](bool small) {
            set(marker);
            In i = inputs(kind, small, true);
            Pt o = oracle_add(i.p, i.q);
#if defined(TEEXT)
            // the dedicated formulas assume points of odd order: P - Q is neutral or has xy != 0
            if (kind == GEN || kind == OPP) {
                Pt d = te_add(i.p, neg(i.q));
                assume((Sf::feq(d.x, Sf(0)) & Sf::feq(d.y, Sf(1))) | !Sf::feq(d.x * d.y, Sf(0)));
                assume((Sf::feq(o.x, Sf(0)) & Sf::feq(o.y, Sf(1))) | !Sf::feq(o.x * o.y, Sf(0)));
            }
#endif
            i.P.mixed_add(i.Q);
            expect(i.P, o, "mixed_add");
            reach("done");
        });
#endif
        if (kind == SAME || kind == BINF)
            both(KIND + "/double/" + k, primes, "", "", [=](bool small) {
                set(marker);
                In i = inputs(kind, small, false);
                Pt o = oracle_add(i.p, i.p);
                E s = i.P;
                s.double_inplace();
                expect(s, o, "2P");
                E t = i.P;
                t += t;
                expect(t, o, "P+=P");
                E u = i.P;
                u -= u;
                expect(u, O(), "P-=P");
                reach("done");
            });
    }
}
void iff(bool got, const Bool &want, const std::string &l) { check(got ? want : !want, l); }
void free_curve() {
#ifdef MONT
    Params::A = fvar("A");
    Params::B = fvar("B");
#else
    Params::a = Sf(1);
#if defined(TEEXT)
    Params::a = Sf(-1);
#elif !defined(EDINV)
    Params::a = fvar("a");
#endif
    Params::d = fvar("d");
    Params::c = Sf(1);
#endif
}
// a finite point, anywhere in the plane, that the coordinates can represent and that is not a marker of O
Pt anywhere(const std::string &n) {
    Pt p{false, fvar("x" + n), fvar("y" + n)};
#if defined(INV)
    assume(!Sf::feq(p.x * p.y, Sf(0)));
#elif !defined(MONT)
    assume(!(Sf::feq(p.x, Sf(0)) & Sf::feq(p.y, Sf(1))));
    assume(!(Sf::feq(p.x, Sf(0)) & Sf::feq(p.y, Sf(0))));
#endif
    return p;
}
void add_repr_cases(int marker) {
    std::string KIND = KIND_ + std::string(marker ? "" : "_marker00");
    auto primes = quick_primes({5, 7}, {11, 13});
    both(KIND + "/equality", primes, "", "", [=](bool small) {
        set(marker);
        Pt p = anywhere("1"), q = anywhere("2");
        E P = lift(p, nz("z1")), Q = lift(q, nz("z2"));
        Bool eq = Sf::feqq(p.x, q.x) & Sf::feqq(p.y, q.y);
        iff(P == Q, eq, "P == Q iff same coordinates");
        iff(P != Q, !eq, "P != Q iff different coordinates");
        reach("done");
    });
    both(KIND + "/equality/scaled", primes, "", "", [=](bool small) {
        set(marker);
        Pt p = anywhere("1");
        E P = lift(p, nz("z1")), Q = lift(p, nz("z2"));
        check(P == Q, "two representations of a point are equal");
        check(!(P != Q), "two representations of a point are equal (!=)");
        Q = lift(neg(p), nz("z3"));
#ifdef MONT
        iff(P == Q, Sf::feqq(p.y, Sf(0)), "P == -P iff y = 0");
#else
        iff(P == Q, Sf::feqq(p.x, Sf(0)), "P == -P iff x = 0");
#endif
        reach("done");
    });
    both(KIND + "/equality/neutral", primes, "", "", [=](bool small) {
        set(marker);
        Params::c = Sf(1);
        Pt p = anywhere("1");
        E P = lift(p, nz("z1")), N = infinity("1"), N2 = infinity("2");
        check(N == N2, "O == O");
        check(!(N != N2), "not O != O");
        check(!(P == N), "P == O only for O");
        check(!(N == P), "O == P only for O");
        check(P != N, "P != O");
        check(N.is_zero(), "O.is_zero()");
        check(!P.is_zero(), "P.is_zero() only for O");
        check(E::zero().is_zero(), "zero() is O");
        check((-N).is_zero(), "-O is O");
        check((-E::zero()).is_zero(), "-zero() is O");
        check(E() == N, "the default element is O");
#if defined(EDINV)
        E G = lift(p, Sf(1));
        Params::one_fill = {G.X, G.Y, G.Z};
#else
        Params::one_fill = {p.x, p.y};
#endif
        check(E::one() == P, "one() is the generator of the parameters");
        E C = N;
        C = P;
        check(C == P, "assignment");
        C = N;
        check(C == N, "assignment of O");
        reach("done");
    });
    both(KIND + "/well_formed", primes, "", "", [=](bool small) {
        set(marker);
        free_curve();
        Pt p = anywhere("1");
        E P = lift(p, nz("z1"));
        iff(P.is_well_formed(), on_curve(p), "is_well_formed iff the point satisfies the curve equation");
        check(infinity("1").is_well_formed(), "O is well formed");
        reach("done");
    });
#if defined(TEEXT)
    both(KIND + "/well_formed/T", primes, "", "", [=](bool small) {
        set(marker);
        free_curve();
        Pt p = anywhere("1");
        E P = lift(p, nz("z1"));
        P.T = fvar("t1");
        Bool ok = on_curve(p) & Sf::feqq(P.T * P.Z, P.X * P.Y);
        if (P.is_well_formed()) check(ok, "well formed only with T = XY/Z on the curve");
        reach("done");
    });
#endif
    both(KIND + "/to_affine", primes, "", "", [=](bool small) {
        set(marker);
        Params::c = Sf(1);
        Pt p = anywhere("1");
        E P = lift(p, nz("z1"));
        auto R = P.to_affine();
        same(R.X, p.x, "to_affine: x");
        same(R.Y, p.y, "to_affine: y");
        check(infinity("1").to_affine().is_zero(), "to_affine of O is O");
        reach("done");
    });
#if defined(TEAFF)
    both(KIND + "/to_extended", primes, "", "", [=](bool small) {
        set(marker);
        Pt p = anywhere("1");
        TeExt R = TeAff(p.x, p.y).to_extended_with_a_minus_1();
        check(!Sf::feq(R.Z, Sf(0)), "to_extended: Z is not zero");
        same(R.X, p.x * R.Z, "to_extended: x");
        same(R.Y, p.y * R.Z, "to_extended: y");
        same(R.T * R.Z, R.X * R.Y, "to_extended: T = XY/Z");
        check(infinity("1").to_extended_with_a_minus_1().is_zero(), "to_extended of O is O");
        check(E().to_extended_with_a_minus_1().is_zero(), "to_extended of zero() is O");
        reach("done");
    });
    both(KIND + "/to_inverted", primes, "", "", [=](bool small) {
        set(marker);
        Pt p = anywhere("1");
        assume(!Sf::feq(p.x * p.y, Sf(0)));
        TeInv R = TeAff(p.x, p.y).to_inverted();
        check(!Sf::feq(R.Z, Sf(0)), "to_inverted: not neutral");
        same(R.X * p.x, R.Z, "to_inverted: x");
        same(R.Y * p.y, R.Z, "to_inverted: y");
        check(infinity("1").to_inverted().is_zero(), "to_inverted of O is O");
        reach("done");
    });
#endif
#if defined(TEINV)
    both(KIND + "/from_affine_coordinates", primes, "", "", [=](bool small) {
        set(marker);
        Pt p = anywhere("1");
        E R(p.x, p.y);
        same(R.X * p.x, R.Z, "inverted(x, y): x");
        same(R.Y * p.y, R.Z, "inverted(x, y): y");
        check(!Sf::feq(R.Z, Sf(0)), "inverted(x, y): not neutral");
        reach("done");
    });
#endif
}
#ifdef MONT
// the birational maps between B y^2 = x^3 + A x^2 + x and a x^2 + y^2 = 1 + d x^2 y^2 (a square, d not)
void coefficients(bool small, bool root) {
    Params::c = Sf(1);
    Params::a = fvar("a");
    Params::d = fvar("d");
    assume(!Sf::feq(Params::a * Params::d * (Params::a - Params::d), Sf(0)));
    if (small) {
        assume(is_square_small(Params::a));
        assume(!is_square_small(Params::d));
    }
    Sf di = (Params::a - Params::d).inversed();
    Params::A = Sf(2) * (Params::a + Params::d) * di;
    Params::B = Sf(4) * di;
    if (root) {
        Sf s = nz("s");
        Params::B = Params::B * (s * s).inversed();
    }
}
Bool te_on_curve(const TeAff &P) {
    Sf xx = P.X * P.X, yy = P.Y * P.Y;
    return Sf::feqq(Params::a * xx + yy, Sf(1) + Params::d * xx * yy);
}
void same_te(const TeAff &P, const TeAff &Q, const std::string &l) {
    if (P.is_zero() || Q.is_zero())
        check(P.is_zero() && Q.is_zero(), l + ": both neutral");
    else {
        same(P.X, Q.X, l + ": x");
        same(P.Y, Q.Y, l + ": y");
    }
}
void same_m(const Mont &P, const Mont &Q, const std::string &l) {
    check(P.is_zero() == Q.is_zero(), l + ": both O or both finite");
    if (!P.is_zero() && !Q.is_zero()) {
        same(P.X, Q.X, l + ": x");
        same(P.Y, Q.Y, l + ": y");
    }
}
void map_cases(int marker) {
    std::string sfx = marker ? "" : "_marker00";
    for (int root = 0; root < 2; root++) {
        std::string n = root ? "/scaled" : "/plain";
        auto body_m = [=](bool small) {
            set(marker);
            coefficients(small, root);
            Sf x = fvar("x1"), y = fvar("y1");
            if (small) {
                assume(on_curve(Pt{false, x, y}));
            } else {
                // a = (1 - y^2 + d x^2 y^2) / x^2 is the constraint; here: solve for a with a rational pair
                Sf k = nz("k");    // y = k x
                y = k * x;
                // B k^2 x = x^2 + A x + 1 with B = 4/(a-d), A = 2(a+d)/(a-d)
                assume(!Sf::feq(x, Sf(0)) & !Sf::feq(x, Sf(1)) & !Sf::feq(x, Sf(-1)));
                // 4 k^2 x = (a-d)(x^2+1) + 2(a+d)x = a (x+1)^2 - d (x-1)^2
                Params::a = (Sf(4) * k * k * x + Params::d * (x - Sf(1)) * (x - Sf(1))) *
                            ((x + Sf(1)) * (x + Sf(1))).inversed();
                assume(!Sf::feq(Params::a * Params::d * (Params::a - Params::d), Sf(0)));
                Sf di = (Params::a - Params::d).inversed();
                Params::A = Sf(2) * (Params::a + Params::d) * di;
                Params::B = Sf(4) * di;
            }
            Mont P(x, y);
            TeAff T = P.to_twisted_edwards();
            check(te_on_curve(T), "to_twisted_edwards: the image is on the twisted Edwards curve");
            check(!T.is_zero(), "to_twisted_edwards: only O maps to the neutral element");
            same_m(T.to_montgomery(), P, "to_montgomery after to_twisted_edwards");
            check(Mont().to_twisted_edwards().is_zero(), "to_twisted_edwards of O");
            reach("done");
        };
        auto body_t = [=](bool small) {
            set(marker);
            coefficients(small, root);
            Sf x = fvar("x1"), y = fvar("y1");
            assume(!(Sf::feq(x, Sf(0)) & Sf::feq(y, Sf(1))));
            assume(te_on_curve(TeAff(x, y)));
            TeAff T(x, y);
            Mont P = T.to_montgomery();
            check(!P.is_zero(), "to_montgomery: only the neutral element maps to O");
            check(on_curve(Pt{false, P.X, P.Y}), "to_montgomery: the image is on the Montgomery curve");
            same_te(P.to_twisted_edwards(), T, "to_twisted_edwards after to_montgomery");
            check(TeAff(Sf(0), Sf(1)).to_montgomery().is_zero(), "to_montgomery of the neutral element");
            check(TeAff().to_montgomery().is_zero(), "to_montgomery of zero()");
            reach("done");
        };
        if (!root)
            add_case("birational" + sfx + "/montgomery_to_edwards" + n + "/generic", "mode=real timeout=60 btimeout=10",
                     [=] { field_mode() = 0; body_m(false); });
        for (uint64_t p : quick_primes({5, 7}, {11, 13})) {
            add_case("birational" + sfx + "/montgomery_to_edwards" + n + "/F" + std::to_string(p),
                     "mode=bv timeout=200 btimeout=60", [=] { field_mode() = p; body_m(true); });
            add_case("birational" + sfx + "/edwards_to_montgomery" + n + "/F" + std::to_string(p),
                     "mode=bv timeout=200 btimeout=60", [=] { field_mode() = p; body_t(true); });
        }
        for (uint64_t p : quick_primes({5}, {7}))
            add_case("birational" + sfx + "/homomorphism" + n + "/F" + std::to_string(p), "mode=bv timeout=200 btimeout=60",
                     [=] {
                         field_mode() = p;
                         set(marker);
                         coefficients(true, root);
                         Pt a{false, fvar("x1"), fvar("y1")}, b{false, fvar("x2"), fvar("y2")};
                         assume(on_curve(a));
                         assume(on_curve(b));
                         Mont P(a.x, a.y), Q(b.x, b.y);
                         TeAff l = (P + Q).to_twisted_edwards(), r = P.to_twisted_edwards() + Q.to_twisted_edwards();
                         same_te(l, r, "the map is a homomorphism");
                         reach("done");
                     });
    }
}
#endif
struct Init {
    Init() {
#ifdef REPR
#ifdef MAPS
        map_cases(1);
        map_cases(0);
#else
        add_repr_cases(1);
        add_repr_cases(0);
#endif
#else
        add_cases(1);
#if defined(TEAFF) || defined(TEINV) || defined(EDINV)
        add_cases(0);
#endif
#endif
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
