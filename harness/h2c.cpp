// Hashing to the groups of bls12-381: the simplified SWU map and the isogenies, for every field element.
#define BOOST_DISABLE_ASSERTS
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include "tower_common.hpp"
#include <nil/crypto3/algebra/curves/bls12.hpp>
using namespace nil::crypto3::algebra;
typedef curves::bls12_381 C;
typedef C::g1_type<> G1;
typedef C::g2_type<> G2;
typedef G1::value_type P1;
typedef G2::value_type P2;
typedef P1::field_type::value_type T;
typedef P2::field_type::value_type V;
using M = T::modular_type::backend_type;
typedef mp::number<M::B> Integer;
namespace {
namespace md = boost::multiprecision::mpdetail;
const std::string OPT = "mode=mix modp=1 timeout=30 btimeout=5";
bool symbolic = false;    // squares and roots are those the case provides
struct Asked {
    std::vector<T> arg;
    bool square;
};
std::vector<Asked> asked;
std::vector<std::vector<T>> sqrt_args, sqrt_roots;
unsigned roots = 0;
std::vector<T> list(const T &a) { return {a}; }
std::vector<T> list(const V &a) { return {a.data[0], a.data[1]}; }
T from(const T *, const std::vector<T> &a) { return a[0]; }
V from(const V *, const std::vector<T> &a) { return V(a[0], a[1]); }
bool is_sym(const std::vector<T> &a) {
    for (auto &c : a)
        if (c.data.backend().id) return true;
    return false;
}
bool native_square(const T &a) { return a.is_zero() || a.pow((T::modulus - Integer(1u)) / Integer(2u)) == T::one(); }
T norm(const T &a) { return a; }
T norm(const V &a) { return a.data[0] * a.data[0] + a.data[1] * a.data[1]; }
bool native_square(const V &a) { return native_square(norm(a)); }
T native_root(const T &a) { return a.pow((T::modulus + Integer(1u)) / Integer(4u)); }
V native_root(const V &a) {
    T n = native_root(norm(a)), h = T(2).inversed(), d = (a.data[0] + n) * h;
    if (!native_square(d)) d = (a.data[0] - n) * h;
    T x = native_root(d);
    if (x.is_zero()) return V(T(0), native_root(-a.data[0]));
    return V(x, a.data[1] * h * x.inversed());
}
template<class F>
bool provided_square(const F &a) {
    auto l = list(a);
    if (!symbolic || (!is_sym(l) && !rt().replay)) return native_square(a);
    bool b = rt().replay ? rt().values["square" + S(asked.size())] == "1" : decide(Bool::of(rt().node("bvar square" + S(asked.size()))));
    asked.push_back({l, b});
    return b;
}
template<class F>
F provided_root(const F &a) {
    auto l = list(a);
    if (!symbolic) return native_root(a);
    F r = make<T, F>("root" + S(roots++));
    // not a point of order two
    Bool z(true);
    for (auto &c : list(r)) z = z & T::modular_type::beq(c.data, T(0).data);
    assume(!z);
    sqrt_args.push_back(l);
    sqrt_roots.push_back(list(r));
    return r;
}
}    // namespace
template<>
constexpr bool T::is_square() const {
    if (__builtin_is_constant_evaluated()) return true;
    return provided_square(*this);
}
template<>
constexpr T T::sqrt() const {
    if (__builtin_is_constant_evaluated()) return *this;
    return provided_root(*this);
}
template<>
constexpr bool V::is_square() const {
    if (__builtin_is_constant_evaluated()) return true;
    return provided_square(*this);
}
template<>
constexpr V V::sqrt() const {
    if (__builtin_is_constant_evaluated()) return *this;
    return provided_root(*this);
}
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
namespace {
namespace cd = nil::crypto3::algebra::curves::detail;
void eq(const T &a, const T &b, const std::string &l) { check(T::modular_type::beq(a.data, b.data), l); }
Bool eqb(const std::vector<T> &a, const std::vector<T> &b) {
    Bool r(true);
    for (size_t i = 0; i < a.size(); i++) r = r & T::modular_type::beq(a[i].data, b[i].data);
    return r;
}
void eql(const std::vector<T> &a, const std::vector<T> &b, const std::string &l) {
    for (size_t i = 0; i < a.size(); i++) eq(a[i], b[i], l);
}
Bool odd(const T &a) {
    Integer x = a.data.template convert_to<Integer>();
    if (!x.backend().id) return Bool(mp::bit_test(x, 0));
    return Bool::of(rt().node("ibit " + std::to_string(M::B::bits) + " " + S(x.backend().id) + " 0"));
}
Bool sgn(const std::vector<T> &a) {
    Bool r = odd(a[0]);
    if (a.size() == 2) r = r | (T::modular_type::beq(a[0].data, T(0).data) & odd(a[1]));
    return r;
}
Bool same(const Bool &a, const Bool &b) { return (a & b) | (!a & !b); }
template<class G>
struct pub;
template<>
struct pub<G1> {
    static T fe(const char *s) { return T(T::modular_type(Integer(s))); }
    static T a() { return fe("0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"); }
    static T b() { return fe("0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"); }
    static T z() { return T(11); }
    static T curve_b() { return T(4); }
    // the points of the kernel of the isogeny, up to sign
    static std::vector<std::pair<T, T>> kernel() {
        return {{fe("0xd7f2d0d03ae035321eed4c1479d13251abf0e9a96479623eb5380b575e319851fb5e5a8b43b9c1a46880f54bf2b2f7c"),
                 fe("0x59e4a8d101f0c51d351b3877c5197f07d08511978f9492dacd907f783f756008f967f1556f49e19032b4ecc3f415b40")},
                {fe("0x105249b4cac630ce5aa18e6c1189a18c82019b4e12e491fbac012c259ca3a67f638560b8bb416af02a4724385ed0fc8e"),
                 fe("0x1923e831e21a455d62ea044b16561a8a0631cdc6e47899e4638354895f4648dca18024ae43587b2125898a8b15312e2a")},
                {fe("0x10ef325dd1e98bdf0d97a4c6b7f968ed7f31f2fbff088acb39d5319cfc261ea18773405f325612742f0c5d90634bcf4"),
                 fe("0xeb3efc0a8592166adb221f4b9158d9ff0d160ce6a2cc1a280b3ec28c01870fa13ca7cddd7ba78f6cd54fe36375cd5fd")},
                {fe("0x140d41735b10ce710727cd9356905701a2b866b803baa468948b7f423ddcc560c9a8f1cd5f8ed4297c37464fb8bfe4a7"),
                 fe("0xdf4b0aa4097bb74ca3d1ed53ee02a7f26cc3caeed5ea50b84886a1e987a6fd65359b2845b348d5f4fac4a7611e9d869")},
                {fe("0x1665a9c648e78314490a94f654d9b1039ab85847223bfaed9aa54f0f07736d122d1ceca1ac0e9123e753fde16e97c3d7"),
                 fe("0x209f905ca78f41caa785024278ad0c8fcfac9fb6742de8684d972c14045cdd04a93a072eaf883a50b3c6484c456d56c")}};
    }
    // the image of (0, 1): quotients of the constant coefficients of the published isogeny
    static T x0() { return fe("0x11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7") * fe("0x8ca8d548cff19ae18b2e62f4bd3fa6f01d5ef4ba35b48ba9c9588617fc8ac62b558d681be343df8993cf9fa40d21b1c").inversed(); }
    static T y0() { return fe("0x90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33") * fe("0x16112c4c3a9c98b252181140fad0eae9601a6de578980be6eec3232b5be72e7a07f3688ef60c206d01479253b03663c1").inversed(); }
};
template<>
struct pub<G2> {
    static V fe(const char *s, const char *t) { return V(pub<G1>::fe(s), pub<G1>::fe(t)); }
    static V a() { return V(T(0), T(240)); }
    static V b() { return V(T(1012), T(1012)); }
    static V z() { return V(-T(2), -T(1)); }
    static V curve_b() { return V(T(4), T(4)); }
    // the points of the kernel are not over the field: any y will do
    static std::vector<std::pair<V, V>> kernel() { return {{V(-T(6), T(6)), V::one()}}; }
    static V x0() {
        const char *c = "0x5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6";
        return fe(c, c) * V(T(0), -T(72)).inversed();
    }
    static V y0() {
        const char *c = "0x1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706";
        return fe(c, c) * V(-T(432), -T(432)).inversed();
    }
};
template<class G>
void cases(const std::string &n) {
    typedef typename G::value_type P;
    typedef std::decay_t<decltype(P().X)> F;
    typedef pub<G> K;
    auto gx = [](const F &x) { return x * x * x + K::a() * x + K::b(); };
    add_case("sswu/" + n, OPT, [=] {
        F u = make<T, F>("u");
        symbolic = true;
        mp::inverse_of_zero_is_zero() = true;
        P r = cd::m2c_simple_swu<G>::process(u);
        symbolic = false;
        eql(list(r.Z), list(F::one()), "the result is affine");
        check(Bool(sqrt_args.size() >= 1), "a square root is taken");
        if (sqrt_args.empty()) return;
        // the root is one of the right-hand side at the result
        auto g = list(gx(r.X));
        Bool any(false), sign(false);
        for (size_t i = 0; i < sqrt_args.size(); i++) {
            std::vector<T> neg;
            for (auto &c : sqrt_roots[i]) neg.push_back(-c);
            any = any | (eqb(sqrt_args[i], g) & (eqb(list(r.Y), sqrt_roots[i]) | eqb(list(r.Y), neg)));
        }
        check(any, "y is a square root of x^3 + A x + B at the result");
        check(same(sgn(list(r.Y)), sgn(list(u))), "the sign of y is the sign of u");
        // the argument is a square: it was found to be one, or differs from one found not to be a square by the
        // non-square Z (times a square)
        F w = K::z() * K::z() * K::z() * u * u * u * u * u * u;
        if (!asked.empty()) {
            Bool ok(false);
            for (auto &q : asked) {
                if (q.square) ok = ok | eqb(q.arg, g);
                else ok = ok | eqb(g, list(w * from((const F *)nullptr, q.arg)));
            }
            check(ok, "the square root of a square is taken");
            // x is the first candidate when its right-hand side is a square, the second otherwise
            F d = K::z() * K::z() * u * u * u * u + K::z() * u * u, x = r.X * K::a() * d, e = -K::b() * (d + F::one());
            if (asked[0].square) eql(list(x), list(e), "x is the first candidate");
            else eql(list(x), list(K::z() * u * u * e), "x is the second candidate");
        } else {
            check(Bool(is_sym(g) == false), "whether the candidate is a square is decided");
            // the exceptional case: B / (Z A)
            eql(list(r.X * K::z() * K::a()), list(K::b()), "x in the exceptional case");
            check(Bool(native_square(gx(r.X))), "the square root of a square is taken in the exceptional case");
        }
    });
    add_case("iso/" + n, OPT, [=] {
        F x = make<T, F>("x"), y = make<T, F>("y");
        F k = F::one();
        for (auto &c : K::kernel()) k = k * (x - c.first);
        // the norm of an element that is not zero is not zero
        for (F d : {k * k, k * k * k, k * k * k * k * k}) assume(eqb(list(d), list(F::zero())) | !eqb({norm(d)}, {T::zero()}));
        P r = cd::iso_map<G>::process(P(x, y, F::one()));
        Bool in = eqb(list(k * k), list(F::zero())) | eqb(list(k * k * k), list(F::zero()));
        if (r.is_zero()) {
            check(in, "only points of the kernel go to the neutral element");
            return;
        }
        check(!in, "the points of the kernel go to the neutral element");
        P s = cd::iso_map<G>::process(P(x, F::one(), F::one()));
        eql(list(r.Z), list(F::one()), "the image is affine");
        eql(list(r.X), list(s.X), "x of the image does not depend on y");
        eql(list(r.Y), list(y * s.Y), "y of the image is y times a function of x");
        eql(list(s.X * s.X * s.X + K::curve_b()), list(s.Y * s.Y * gx(x)), "the image of a point of the isogenous curve is on the curve");
    });
    add_case("constants/" + n, OPT, [=] {
        check(Bool(!native_square(K::z())), "Z is not a square");
        P r = cd::iso_map<G>::process(P(F::zero(), F::one(), F::one()));
        eql(list(r.X), list(K::x0()), "the published isogeny");
        eql(list(r.Y), list(K::y0()), "the published isogeny");
        for (auto &c : K::kernel())
            for (int neg = 0; neg < 2; neg++)
                check(Bool(cd::iso_map<G>::process(P(c.first, neg ? -c.second : c.second, F::one())).is_zero()),
                      "the points of the kernel go to the neutral element");
        for (unsigned i = 0; i < 6; i++) {
            F u = F::zero();
            mp::inverse_of_zero_is_zero() = true;
            for (unsigned j = 0; j < i; j++) u = u + K::z();
            P m = cd::map_to_curve<G>::process(u), e = cd::iso_map<G>::process(cd::m2c_simple_swu<G>::process(u));
            check(Bool(m == e && m.is_well_formed() && !m.is_zero()), "map_to_curve is the isogeny after the simplified SWU map");
        }
    });
}
struct Init {
    Init() {
#ifdef PART_G1
        cases<G1>("g1");
#else
        cases<G2>("g2");
#endif
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
