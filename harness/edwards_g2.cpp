// The second group of the Edwards pairing curve: inverted coordinates over the cubic extension, on the twist of the
// curve, against the affine Edwards law x^2 a' + y^2 = 1 + d' x^2 y^2 with (x, y) = (Z/X, Z/Y).
#include "tower_common.hpp"
#include <nil/crypto3/algebra/curves/edwards.hpp>
using namespace nil::crypto3::algebra::curves;
namespace {
typedef edwards<183>::g2_type<> G;
typedef G::value_type E;
typedef E::underlying_field_value_type V;
typedef std::decay_t<decltype(std::declval<V &>().data[0])> T;
using M = T::modular_type::backend_type;
const std::string OPT = "mode=ident timeout=20 btimeout=2 feas=skip modp=1";
V small(const std::string &n) { return V(make<T, T>(n), T(0), T(0)); }
// the published twist: u^3 = 61, a' = u, d' = d u
V twist_a() { return V(T(0), T(1), T(0)); }
V twist_d() {
    using R = T::modular_type;
    return V(T(0), T(R(boost::multiprecision::number<R::backend_type::B>("0x64536D55979879327CF1306BB5A6277D254EF9776CE70"))), T(0));
}
V curve(const V &X, const V &Y, const V &Z) {
    V x = X * X, y = Y * Y, z = Z * Z;
    return z * (x + twist_a() * y) - x * y - twist_d() * z * z;
}
struct Pt {
    V X, Y, Z;
};
// coordinates: '3' all three components, '1' the prime field only
Pt point(const std::string &n, char x, char y, char z) {
    auto v = [&](char c, const std::string &s) { return c == '3' ? make<T, V>(s + n) : c == '1' ? small(s + n) : V::one(); };
    return {v(x, "X"), v(y, "Y"), v(z, "Z")};
}
// for the statements about points of the twist only: a replay whose values are off the twist uses the base point
Pt on_twist(Pt p) {
    if (rt().replay && !(curve(p.X, p.Y, p.Z) == V::zero())) {
        E g = E::one();
        V l = p.X.is_zero() ? V::one() : p.X;
        p = {g.X * l, g.Y * l, g.Z * l};
    }
    return p;
}
E elem(const Pt &p) { return E(p.X, p.Y, p.Z); }
// the coordinates of r equal (numerator/denominator) of x and y, given in inverted coordinates of the operands
void equal(Relations<T> &rel, const V &a, const V &b, const std::string &l) {
    auto f = flat<T>(a), g = flat<T>(b);
    for (size_t i = 0; i < f.size(); i++) check(rel.eq(f[i], g[i]), l);
}
void expect_sum(const E &r, const Pt &p, const Pt &q, const std::string &l) {
    Relations<T> none;
    V zz = p.Z * q.Z, xx = p.X * q.X, yy = p.Y * q.Y, k = twist_d() * zz * zz;
    // x3 = zz (X1 Y2 + Y1 X2) / (xx yy + k)   y3 = zz (xx - a' yy) / (xx yy - k)
    equal(none, r.Z * (xx * yy + k), r.X * (zz * (p.X * q.Y + p.Y * q.X)), l + ": x");
    equal(none, r.Z * (xx * yy - k), r.Y * (zz * (xx - twist_a() * yy)), l + ": y");
}
void expect_double(const E &r, const Pt &p, const std::string &l) {
    Relations<T> rel;
    for (auto &f : flat<T>(r.Z * curve(p.X, p.Y, p.Z))) rel.add(f);
    V zz = p.Z * p.Z, xx = p.X * p.X, yy = p.Y * p.Y, k = twist_d() * zz * zz, xy = p.X * p.Y;
    equal(rel, r.Z * (xx * yy + k), r.X * (zz * (xy + xy)), l + ": x");
    equal(rel, r.Z * (xx * yy - k), r.Y * (zz * (xx - twist_a() * yy)), l + ": y");
}
void same(const E &a, const V &X, const V &Y, const V &Z, const std::string &l) {
    Relations<T> none;
    equal(none, a.X, X, l + ": X");
    equal(none, a.Y, Y, l + ": Y");
    equal(none, a.Z, Z, l + ": Z");
}
struct Init {
    Init() {
        // operands: P over the cubic extension and Q over the prime field, and the other way round, with and without Z
        struct Shape {
            const char *n, *p, *q;
        };
#ifdef THOROUGH
        std::vector<Shape> shapes = {{"ext_base", "331", "111"}, {"base_ext", "111", "331"}, {"x_ext", "313", "311"}, {"y_ext", "131", "133"}, {"ext_ext", "33-", "33-"}, {"ext_ext_z", "331", "331"}, {"all", "333", "333"}};
        std::vector<const char *> points = {"33-", "111", "131", "311", "331", "333"};
#else
        std::vector<Shape> shapes = {{"ext_base", "331", "111"}, {"base_ext", "111", "331"}, {"x_ext", "311", "31-"}, {"y_ext", "131", "13-"}, {"ext_ext", "33-", "33-"}};
        std::vector<const char *> points = {"33-", "111", "131", "311"};
#endif
        for (auto sh : shapes) {
            std::string n = sh.n;
            auto in = [=](Pt &p, Pt &q) {
                p = point("1", sh.p[0], sh.p[1], sh.p[2]);
                q = point("2", sh.q[0], sh.q[1], sh.q[2]);
            };
            add_case("add/" + n, OPT, [=] {
                Pt p, q;
                in(p, q);
                E P = elem(p), Q = elem(q);
                expect_sum(P + Q, p, q, "P + Q");
                same(P, p.X, p.Y, p.Z, "the left operand is unchanged");
                same(Q, q.X, q.Y, q.Z, "the right operand is unchanged");
            });
            add_case("add_inplace/" + n, OPT, [=] {
                Pt p, q;
                in(p, q);
                E P = elem(p), Q = elem(q);
                E &r = (P += Q);
                expect_sum(P, p, q, "P += Q");
                check(Bool(&r == &P), "P += Q returns P");
            });
            add_case("sub/" + n, OPT, [=] {
                Pt p, q;
                in(p, q);
                E P = elem(p), Q = elem(q);
                E R = P - Q;
                P -= Q;
                q.X = -q.X;
                expect_sum(R, p, q, "P - Q");
                q.X = -q.X;
                Pt m{-q.X, q.Y, q.Z};
                expect_sum(P, p, m, "P -= Q");
            });
            if (sh.q[2] == '-')
                add_case("mixed_add/" + n, OPT, [=] {
                    Pt p, q;
                    in(p, q);
                    E P = elem(p);
                    P.mixed_add(elem(q));
                    expect_sum(P, p, q, "mixed_add");
                });
        }
        for (const char *s : points) {
            std::string n = s, k = n == "33-" ? "ext" : n == "111" ? "base" : n == "131" ? "y_ext" : n == "311" ? "x_ext" : n == "331" ? "ext_z" : "all";
            add_case("double/" + k, OPT, [=] {
                Pt p = on_twist(point("1", n[0], n[1], n[2]));
                E P = elem(p);
                P.double_inplace();
                expect_double(P, p, "doubling");
            });
            add_case("add_equal/" + k, OPT, [=] {
                Pt p = on_twist(point("1", n[0], n[1], n[2]));
                E P = elem(p), Q = P;
                expect_double(P + Q, p, "P + P");
                E A = P;
                A += A;
                expect_double(A, p, "P += P");
                V l = small("l");
                Q = E(p.X * l, p.Y * l, p.Z * l);    // another representation of P
                check(P == Q, "representations of one point are equal");
                check(!(P != Q), "representations of one point are equal (!=)");
            });
            add_case("neg/" + k, OPT, [=] {
                Pt p = point("1", n[0], n[1], n[2]);
                E P = elem(p), N = -P;
                same(N, -p.X, p.Y, p.Z, "-P");
                E S = P + N;
                check(S.is_zero(), "P + (-P) is neutral");
                check(S == E::zero(), "P + (-P) is neutral");
                P -= P;
                check(P.is_zero(), "P -= P is neutral");
            });
            add_case("neutral/" + k, OPT, [=] {
                Pt p = point("1", n[0], n[1], n[2]);
                E P = elem(p), O = E::zero(), O2(small("t"), V::zero(), V::zero());
                if (P.is_zero()) return;
                check(O.is_zero(), "zero() is neutral");
                check(O2.is_zero(), "(t, 0, 0) is neutral");
                check(O == O2, "neutral elements are equal");
                check(!(P == O), "P is not O");
                check(!(O2 == P), "P is not O");
                same(P + O, p.X, p.Y, p.Z, "P + O");
                same(O2 + P, p.X, p.Y, p.Z, "O + P");
                same(P - O2, p.X, p.Y, p.Z, "P - O");
                same(O - P, -p.X, p.Y, p.Z, "O - P");
                E A = P;
                A += O2;
                same(A, p.X, p.Y, p.Z, "P += O");
                A = O;
                A += P;
                same(A, p.X, p.Y, p.Z, "O += P");
                A = O2;
                A -= P;
                same(A, -p.X, p.Y, p.Z, "O -= P");
                A = P;
                A.mixed_add(O);
                same(A, p.X, p.Y, p.Z, "P mixed O");
                A = O;
                A.mixed_add(P);
                same(A, p.X, p.Y, p.Z, "O mixed P");
                A = O2;
                A.double_inplace();
                check(A.is_zero(), "2 O");
                check((O + O2).is_zero(), "O + O");
            });
            add_case("convert/" + k, OPT, [=] {
                Pt p = point("1", n[0], n[1], n[2]);
                E P = elem(p);
                Relations<T> none;
                boost::multiprecision::assume_invertible() = true;    // the coordinates of a point other than O are not zero
                E A = P.to_affine();
                equal(none, A.X * p.X, p.Z, "to_affine: x");
                equal(none, A.Y * p.Y, p.Z, "to_affine: y");
                E S = P.to_projective();
                equal(none, S.X * p.Z, p.X, "to_projective: X");
                equal(none, S.Y * p.Z, p.Y, "to_projective: Y");
                check(S.Z == V::one(), "to_projective: Z is one");
            });
            add_case("well_formed/" + k, OPT + " fork=both", [=] {
                Pt p = point("1", n[0], n[1], n[2]);
                E P = elem(p);
                if (P.is_zero()) return;
                bool ok;
                std::vector<boost::multiprecision::mpdetail::EqRecord> log;
                boost::multiprecision::mpdetail::eqlog() = &log;
                ok = P.is_well_formed();
                boost::multiprecision::mpdetail::eqlog() = nullptr;
                auto pub = flat<T>(curve(p.X, p.Y, p.Z));
                const char *L = "is_well_formed accepts exactly the points of the twist";
                if (rt().replay) {
                    bool on = true;
                    for (auto &e : pub) on = on && e == T(0);
                    Pt q = on_twist(p);    // and a point of the twist
                    check(Bool(on == ok && elem(q).is_well_formed()), L);
                    return;
                }
                auto term = [](const T &t) { return t.data.backend().term(); };
                auto cons = [](uint32_t t, uint32_t l) { return rt().node("fcons " + M::ms() + " " + S(t) + " " + S(l)); };
                auto rel = [](uint32_t a, uint32_t b, uint32_t l) { return Bool::of(rt().node("frel " + M::ms() + " " + S(a) + " " + S(b) + " " + S(l))); };
                uint32_t l = rt().node("fnil " + M::ms());
                for (auto &e : log)
                    if (e.result) l = cons(rt().node("fsub " + M::ms() + " " + S(e.a) + " " + S(e.b)), l);
                if (ok) {
                    for (auto &e : pub) check(rel(term(e), term(T(0)), l), L);
                } else {
                    for (auto &e : pub) l = cons(term(e), l);
                    Bool any(false);
                    for (auto &e : log)
                        if (!e.result) any = any | rel(e.a, e.b, l);
                    check(any, L);
                }
            });
        }
        add_case("generator", OPT, [=] {
            typedef edwards<183>::scalar_field_type F;
            E g = E::one();
            check(Bool(g.is_well_formed() && E::zero().is_well_formed()), "the generator is on the twist");
            check(Bool(!g.is_zero() && E().is_zero()), "the generator is not neutral");
            check(Bool((F::modulus * g).is_zero()), "the order of the generator is the group order");
            check(Bool((F::modulus - F::integral_type(1u)) * g == -g), "the order of the generator is the group order");
        });
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
