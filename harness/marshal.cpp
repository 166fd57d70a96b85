// Serialization: the ZCash encoding of bls12-381 points and the bincode encoding of field elements and points.
// The digits of a symbolic integer are a token that only import_bits turns back into the integer.
#define BOOST_DISABLE_ASSERTS
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include "tower_common.hpp"
#include <boost/assert.hpp>
#include <boost/concept/assert.hpp>
#include <boost/range/concepts.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
using namespace nil::crypto3::algebra;
typedef curves::bls12_381 C;
typedef C::g1_type<>::value_type P1;
typedef C::g2_type<>::value_type P2;
typedef P1::field_type::value_type T;
typedef P2::field_type::value_type V;
using M = T::modular_type::backend_type;
typedef boost::multiprecision::number<M::B> Integer;
namespace {
// the argument of the square root and the root it returns (either one)
std::vector<T> sqrt_arg;
std::vector<T> sqrt_root;
V provided_root(const V &a) {
    sqrt_arg = {a.data[0], a.data[1]};
    return V(sqrt_root[0], sqrt_root[1]);
}
}    // namespace
// the root of an element of the quadratic extension (F05) is the one the case provides
template<>
constexpr V V::sqrt() const {
    if (__builtin_is_constant_evaluated()) return *this;
    return provided_root(*this);
}
#include <nil/crypto3/algebra/marshalling.hpp>
typedef nil::marshalling::curve_element_serializer<C> Z;
typedef nil::marshalling::bincode::curve<curves::bls12<381>> B;
namespace {
namespace md = boost::multiprecision::mpdetail;
const std::string OPT = "mode=mix timeout=20 btimeout=5";
void tokens(std::vector<unsigned> sizes) {
    if (rt().replay) return;
    md::tokens().on = true;
    md::tokens().sizes = sizes;
}
void roots(const std::vector<T> &y) {
    bool minus = rt().replay ? rt().values["other_root"] == "1" : decide(Bool::of(rt().node("bvar other_root")));
    sqrt_root.clear();
    sqrt_arg.clear();
    for (auto &c : y) sqrt_root.push_back(minus ? -c : c);
    md::sqrt_hook() = [](const void *a, void *r) {
        T t;
        t.data = *(const T::modular_type *)a;
        sqrt_arg = {t};
        *(T::modular_type *)r = sqrt_root[0].data;
    };
}
// y > (p - 1) / 2
bool large(const T &y) {
    Integer h = (T::modulus - Integer(1u)) / Integer(2u);
    return y.data.template convert_to<Integer>() > h;
}
bool zero(const T &y) { return y.data.template convert_to<Integer>() == Integer(0u); }
template<class It>
T decode(It first, It last) {    // big-endian
    std::vector<uint8_t> v(first, last);
    Integer x;
    boost::multiprecision::import_bits(x, v.begin(), v.end(), 8, true);
    return T(typename T::modular_type(x));
}
void eq(const T &a, const T &b, const std::string &l) { check(T::modular_type::beq(a.data, b.data), l); }
Bool eqb(const T &a, const T &b) { return T::modular_type::beq(a.data, b.data); }
std::vector<unsigned> sizes(bool all) {
    if (all) return {48, 47, 2, 1, 0};
    return {48, 46};
}
template<class P>
struct side;
template<>
struct side<P1> {
    static constexpr unsigned n = 1;
    static T coord(const std::vector<T> &c) { return c[0]; }
    static std::vector<T> list(const T &c) { return {c}; }
    template<class R>
    static P1 from(const R &o) { return Z::octets_to_g1_point(o); }
    static bool sign(const std::vector<T> &y) { return large(y[0]); }
};
template<>
struct side<P2> {
    static constexpr unsigned n = 2;
    static V coord(const std::vector<T> &c) { return V(c[0], c[1]); }
    static std::vector<T> list(const V &c) { return {c.data[0], c.data[1]}; }
    template<class R>
    static P2 from(const R &o) { return Z::octets_to_g2_point(o); }
    static bool sign(const std::vector<T> &y) { return zero(y[1]) ? large(y[0]) : large(y[1]); }
};
template<class P>
P point(std::vector<T> &x, std::vector<T> &y, unsigned z) {
    const unsigned n = side<P>::n;
    for (unsigned i = 0; i < n; i++) x.push_back(make<T, T>("x" + S(i)));
    for (unsigned i = 0; i < n; i++) y.push_back(make<T, T>("y" + S(i)));
    auto X = side<P>::coord(x), Y = side<P>::coord(y);
    auto Zc = decltype(X)::one();
    for (unsigned i = 1; i < z; i++) Zc = Zc + decltype(X)::one();
    // on the curve, x^3 + 4 is zero exactly when y is
    if (n == 1 && !rt().replay) {
        Bool a = eqb(x[0] * x[0] * x[0], -T(4)), b = eqb(y[0], T(0));
        assume((a & b) | (!a & !b));
        assume(!eqb(x[0], T(0)) | !b);
    }
    return P(X * Zc.squared(), Y * Zc.squared() * Zc, Zc);
}
// coordinates in the order of the encoding: x_{n-1} .. x_0 y_{n-1} .. y_0
template<class O>
void layout(const O &o, uint8_t flags, const std::vector<T> &x, const std::vector<T> &y, const std::string &l) {
    check(Bool((o[0] & 0xE0) == flags), l + ": the flag bits");
    std::vector<uint8_t> v(o.begin(), o.end());
    v[0] &= 0x1F;
    std::vector<T> want(x.rbegin(), x.rend());
    want.insert(want.end(), y.rbegin(), y.rend());
    if (v.size() != want.size() * 48) want.resize(v.size() / 48);
    for (size_t i = 0; i < want.size(); i++) eq(decode(v.begin() + 48 * i, v.begin() + 48 * (i + 1)), want[i], l + ": coordinate " + std::to_string(i) + " of the encoding");
}
template<class P>
void same(const P &r, const std::vector<T> &x, const std::vector<T> &y, const std::string &l) {
    auto X = side<P>::list(r.X), Y = side<P>::list(r.Y), Zl = side<P>::list(r.Z);
    for (unsigned i = 0; i < side<P>::n; i++) {
        eq(X[i], x[i], l + ": x");
        eq(Y[i], y[i], l + ": y");
        eq(Zl[i], T(i == 0 ? 1 : 0), l + ": z");
    }
}
// the square root is taken of x^3 + 4 (x^3 + 4 (1 + u))
template<class P>
void root_of(const P &r) {
    auto X = r.X;
    auto w = side<P>::list(X * X * X);
    for (size_t i = 0; i < w.size() && i < sqrt_arg.size(); i++) eq(sqrt_arg[i], w[i] + T(4), "the square root is taken of x^3 + b");
}
template<class P>
void zcash(const std::string &n, std::vector<unsigned> sz, unsigned z) {
    add_case("compressed/" + n, OPT, [=] {
        tokens(sz);
        std::vector<T> x, y;
        P p = point<P>(x, y, z);
        roots(y);
        auto o = Z::point_to_octets_compress(p);
        check(Bool(o.size() == 48 * side<P>::n), "length of the encoding");
        bool s = side<P>::sign(y);
        layout(o, 0x80 | (s ? 0x20 : 0), x, {}, "compressed");
        auto o2 = o;
        P r = side<P>::from(o);
        check(Bool(o == o2), "the input of the decoder is unchanged");
        same(r, x, y, "decoded");
        if (!sqrt_arg.empty()) root_of<P>(r);
    });
    add_case("uncompressed/" + n, OPT, [=] {
        tokens(sz);
        std::vector<T> x, y;
        P p = point<P>(x, y, z);
        auto o = Z::point_to_octets(p);
        check(Bool(o.size() == 96 * side<P>::n), "length of the encoding");
        layout(o, 0, x, y, "uncompressed");
        auto o2 = o;
        P r = side<P>::from(o);
        check(Bool(o == o2), "the input of the decoder is unchanged");
        same(r, x, y, "decoded");
    });
}
template<class P>
void infinity(const std::string &n) {
    add_case("infinity/" + n, OPT, [=] {
        tokens({48, 46});
        md::sqrt_hook() = [](const void *a, void *r) { *(T::modular_type *)r = *(const T::modular_type *)a; };
        sqrt_root = {T(1), T(0)};
        typedef decltype(P().X) F;
        F X = make<T, F>("x"), Y = make<T, F>("y");
        for (P p : {P(), P::zero(), P(X, Y, F::zero())}) {
            auto c = Z::point_to_octets_compress(p);
            auto u = Z::point_to_octets(p);
            bool ok = c[0] == 0xC0 && u[0] == 0x40;
            for (size_t i = 1; i < c.size(); i++) ok = ok && !c[i];
            for (size_t i = 1; i < u.size(); i++) ok = ok && !u[i];
            check(Bool(ok), "the encoding of the point at infinity");
            check(Bool(side<P>::from(c).is_zero()), "decoding the compressed point at infinity");
            check(Bool(side<P>::from(u).is_zero()), "decoding the uncompressed point at infinity");
        }
    });
}
// bincode: little-endian, the components of an extension in order
template<class F>
void field_case(const std::string &n, std::vector<unsigned> sz) {
    typedef typename F::value_type E;
    typedef nil::marshalling::bincode::field<F> BF;
    typedef std::decay_t<decltype(flat<typename E::underlying_type_of_harness>(std::declval<E>())[0])> U;
}
template<class F, class U>
void bincode_field(const std::string &n, std::vector<unsigned> sz) {
    typedef typename F::value_type E;
    typedef nil::marshalling::bincode::field<F> BF;
    typedef typename U::modular_type::backend_type MU;
    typedef boost::multiprecision::number<typename MU::B> I;
    constexpr size_t chunks = (F::modulus_bits + 7) / 8;
    add_case("bincode/" + n, OPT, [=] {
        tokens(sz);
        E e = make<U, E>("e");
        auto want = flat<U>(e);
        size_t len = chunks * want.size();
        check(Bool(BF::get_element_size() == len && BF::field_octets_num == len), "size of the encoding");
        std::vector<uint8_t> buf(len, 0xA5);    // the buffer holds something else before
        size_t w = BF::field_element_to_bytes(e, buf.begin(), buf.end());
        check(Bool(w == len), "number of bytes written");
        for (size_t i = 0; i < want.size(); i++) {
            I x;
            boost::multiprecision::import_bits(x, buf.begin() + i * chunks, buf.begin() + (i + 1) * chunks, 8, false);
            check(U::modular_type::beq(typename U::modular_type(x), want[i].data), "component " + std::to_string(i) + " of the encoding");
        }
        auto r = BF::field_element_from_bytes(buf.begin(), buf.end());
        check(Bool(r.first), "the encoding of an element is accepted");
        auto got = flat<U>(r.second);
        for (size_t i = 0; i < want.size(); i++) check(U::modular_type::beq(got[i].data, want[i].data), "decoded component " + std::to_string(i));
    });
    if (flat<U>(E::one()).size() <= 2)
        add_case("bincode_any/" + n, OPT, [=] {
            // any bytes: accepted exactly when every component is below the modulus
            tokens(sz);
            size_t k = flat<U>(E::one()).size();
            std::vector<uint8_t> buf(chunks * k, 0);
            bool below = true;
            std::vector<I> xs;
            for (size_t i = 0; i < k; i++) {
                I x = isym<MU::B::bits>("n" + std::to_string(i));
                xs.push_back(x);
                boost::multiprecision::export_bits(x, buf.begin() + i * chunks, 8, false);
                below = below && x < I(typename MU::B(MU::m()));
            }
            auto copy = buf;
            auto r = BF::field_element_from_bytes(buf.begin(), buf.end());
            check(Bool(buf == copy), "the input of the decoder is unchanged");
            check(Bool(r.first == below), "accepted exactly when below the modulus");
            auto got = flat<U>(r.second);
            for (size_t i = 0; i < k; i++) check(U::modular_type::beq(got[i].data, typename U::modular_type(xs[i])), "decoded component " + std::to_string(i));
        });
}
// the curve-level functions are the ones above
template<class G, class P>
void bincode_point(const std::string &n) {
    add_case("bincode_point/" + n, OPT, [=] {
        tokens({48, 46});
        std::vector<T> x, y;
        P p = point<P>(x, y, 1);
        roots(y);
        const size_t len = 48 * side<P>::n;
        check(Bool(B::element_size<G>() == len), "size of the encoding");
        std::vector<uint8_t> buf(len, 0xA5);
        size_t w = B::point_to_bytes<G>(p, buf.begin(), buf.end());
        check(Bool(w == len), "number of bytes written");
        auto o = Z::point_to_octets_compress(p);
        layout(buf, 0x80 | (side<P>::sign(y) ? 0x20 : 0), x, {}, "bincode");
        P r;
        if constexpr (std::is_same_v<P, P1>) r = B::g1_point_from_bytes(buf.begin(), buf.end());
        else r = B::g2_point_from_bytes(buf.begin(), buf.end());
        same(r, x, y, "decoded");
        std::fill(buf.begin(), buf.end(), 0xA5);
        B::point_to_bytes<G>(P(), buf.begin(), buf.end());
        bool ok = buf[0] == 0xC0;
        for (size_t i = 1; i < len; i++) ok = ok && !buf[i];
        check(Bool(ok), "the encoding of the point at infinity");
    });
}
template<class F, class U>
void curve_field(const std::string &n, std::vector<unsigned> sz) {
    typedef typename F::value_type E;
    add_case("bincode_curve/" + n, OPT, [=] {
        tokens(sz);
        E e = make<U, E>("e");
        size_t len = B::element_size<F>();
        check(Bool(len == (F::modulus_bits + 7) / 8 * F::arity), "size of the encoding");
        std::vector<uint8_t> buf(len, 0xA5), ref(len, 0x5A);
        size_t w = B::field_element_to_bytes<F>(e, buf.begin(), buf.end());
        check(Bool(w == len), "number of bytes written");
        auto r = B::field_element_from_bytes<F>(buf.begin(), buf.end());
        check(Bool(r.first), "the encoding of an element is accepted");
        auto got = flat<U>(r.second), want = flat<U>(e);
        for (size_t i = 0; i < want.size(); i++) check(U::modular_type::beq(got[i].data, want[i].data), "decoded component " + std::to_string(i));
    });
}
typedef C::base_field_type FP;
typedef C::scalar_field_type FR;
typedef C::g2_type<>::field_type FP2;
typedef C::gt_type GT;
struct Init {
    Init() {
#ifdef PART_ZCASH
        zcash<P1>("g1", sizes(true), 1);
        zcash<P1>("g1_z", sizes(false), 3);
        infinity<P1>("g1");
        infinity<P2>("g2");
#ifdef THOROUGH
        zcash<P2>("g2", {48, 47, 1, 0}, 1);
#else
        zcash<P2>("g2", {48, 1, 0}, 1);
#endif
        zcash<P2>("g2_z", {48}, 2);
#else
        bincode_field<FP, T>("fp", sizes(true));
        bincode_field<FP2, T>("fp2", {48, 47, 1, 0});
        bincode_field<FR, FR::value_type>("fr", {32, 31, 30, 2, 1, 0});
        bincode_field<GT, T>("gt", {47});
        // other degrees and modulus lengths
        bincode_field<fields::mnt4<298>, fields::mnt4<298>::value_type>("mnt4_fp", {38, 37, 1, 0});
        bincode_field<fields::fp4<fields::mnt4<298>>, fields::mnt4<298>::value_type>("mnt4_fp4", {38, 37});
        bincode_field<fields::secp_k1_base_field<256>, fields::secp_k1_base_field<256>::value_type>("secp256k1", {32, 31, 1, 0});
        bincode_point<C::g1_type<>, P1>("g1");
        bincode_point<C::g2_type<>, P2>("g2");
        curve_field<FP, T>("fp", {48, 30});
        curve_field<FR, FR::value_type>("fr", {32, 30});
        curve_field<GT, T>("gt", {47});
#endif
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
