// The named curves: the equation their elements accept, the generator, its order, and the neutral element, against the
// published domain parameters.
#include "tower_common.hpp"
#if defined(PART_PAIRING)
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#elif defined(PART_SECP)
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#else
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#include <nil/crypto3/algebra/curves/curve25519.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#endif
using namespace nil::crypto3::algebra::curves;

namespace {
typedef Int<1100> Big;
template<class I>
Big big(const I &i) {
    std::ostringstream o;
    o << i;
    return Big(o.str().c_str());
}
template<class V, class = void>
struct base_of {
    typedef V type;
};
template<class V>
struct base_of<V, std::void_t<decltype(std::declval<V &>().data.size())>> : base_of<std::decay_t<decltype(std::declval<V &>().data[0])>> {};
template<class T>
T lit(const char *s) {
    using R = typename T::modular_type;
    bool neg = *s == '-';
    T r(R(mp::number<typename R::backend_type::B>(s + neg)));
    return neg ? -r : r;
}
// published coefficients as elements of the coordinate field
template<class V>
V elem(std::vector<const char *> c) {
    using T = typename base_of<V>::type;
    std::vector<T> f;
    for (auto *s : c) f.push_back(lit<T>(s));
    while (f.size() < flat<T>(V::one()).size()) f.push_back(T::zero());
    size_t pos = 0;
    return unflat<T, V>(f, pos);
}
struct Pub {
    const char *p, *r;
    std::vector<const char *> x = {}, y = {};    // the published generator
};
enum Form { SW, TE, MG };
template<class V>
V poly(Form f, const V &x, const V &y, const V &a, const V &b) {
    if (f == SW) return x * x * x + a * x + b - y * y;
    if (f == TE) return a * x * x + y * y - V::one() - b * x * x * y * y;
    return x * x * x + a * x * x + x - b * y * y;
}
const char *OPT = "mode=ident feas=skip fork=both timeout=60 btimeout=1";
struct Log {
    std::vector<boost::multiprecision::mpdetail::EqRecord> v;
    Log() { boost::multiprecision::mpdetail::eqlog() = &v; }
    ~Log() { boost::multiprecision::mpdetail::eqlog() = nullptr; }
};
// P: an element class with affine coordinates given to its constructor
template<class G>
using Coefs = std::function<std::vector<typename G::field_type::value_type>()>;
template<class P, class = void>
struct has_equation : std::false_type {};
template<class P>
struct has_equation<P, std::void_t<decltype(std::declval<const P &>().is_well_formed())>> : std::true_type {};
template<class G>
void equation(const std::string &name, Form f, Coefs<G> coefs) {
    using P = typename G::value_type;
    using V = typename P::field_type::value_type;
    if constexpr (has_equation<P>::value)
    add_case(name + "/equation", OPT, [=] {
        using T = typename base_of<V>::type;
        using M = typename T::modular_type::backend_type;
        V x = make<T, V>("x"), y = make<T, V>("y");
        P pt(x, y);
        if (pt.is_zero()) return;
        bool ok;
        std::vector<boost::multiprecision::mpdetail::EqRecord> log;
        {
            Log l;
            ok = pt.is_well_formed();
            log = l.v;
        }
        auto c = coefs();
        auto pub = flat<T>(poly(f, x, y, c[0], c[1]));
        const char *L = "is_well_formed accepts exactly the points of the published curve";
        if (rt().replay) {
            bool on = true;
            for (auto &e : pub) on = on && e == T(0);
            check(Bool(on == ok), L);
            return;
        }
        auto term = [](const T &t) { return t.data.backend().term(); };
        auto nil = [] { return rt().node("fnil " + M::ms()); };
        auto cons = [](uint32_t t, uint32_t l) { return rt().node("fcons " + M::ms() + " " + S(t) + " " + S(l)); };
        auto diff = [](uint32_t a, uint32_t b) { return rt().node("fsub " + M::ms() + " " + S(a) + " " + S(b)); };
        auto rel = [](uint32_t a, uint32_t b, uint32_t l) { return Bool::of(rt().node("frel " + M::ms() + " " + S(a) + " " + S(b) + " " + S(l))); };
        uint32_t l = nil();
        for (auto &e : log)
            if (e.result) l = cons(diff(e.a, e.b), l);
        if (ok) {
            for (auto &e : pub) check(rel(term(e), term(T(0)), l), L);
        } else {
            for (auto &e : pub) l = cons(term(e), l);
            Bool any(false);
            for (auto &e : log)
                if (!e.result) any = any | rel(e.a, e.b, l);
            check(any, L);
        }
    });
}
template<class G>
void generator(const std::string &name, Pub pub) {
    using P = typename G::value_type;
    add_case(name + "/generator", OPT, [=] {
        using F = typename P::field_type;
        using S = typename G::params_type::scalar_field_type;
        Big r = big(S::modulus);
        check(Bool(big(F::modulus) == Big(pub.p)), "the base field has the published modulus");
        check(Bool(r == Big(pub.r)), "the scalar field's modulus is the published group order");
        P g = P::one(), z = P::zero();
        check(Bool(z.is_zero()), "zero() is the neutral element");
        check(Bool(!g.is_zero()), "the generator is not the neutral element");
        if (!pub.x.empty()) {
            using V = typename F::value_type;
            V x = elem<V>(pub.x), y = elem<V>(pub.y);
            const char *L = "one() is the published base point";
            if constexpr (std::is_constructible_v<P, V, V>)
                check(Bool(g == P(x, y)), L);
            else
                check(Bool(g == P(x, y, x * y, V::one())), L);
        }
        if constexpr (has_equation<P>::value) {
            check(Bool(z.is_well_formed()), "zero() is well formed");
            check(Bool(g.is_well_formed()), "the generator is on the curve");
        }
        check(Bool(z + g == g && g + z == g && (g - g).is_zero() && -z == z), "zero() is neutral");
        P q = S::modulus * g;
        check(Bool(q.is_zero() && q == z), "the order of the generator is the published group order");
        check(Bool((S::modulus - typename S::integral_type(1u)) * g == -g), "the order of the generator is the published group order");
    });
}
#define COEF(V, A, B) [] { return std::vector<V>{A, B}; }

struct R {
    R() {
        typedef coordinates::affine A;
#if defined(PART_PAIRING)
        {
            Pub p{"0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", {"1"}, {"2"}};
            typedef alt_bn128<254> C;
            typedef C::g1_type<A> E;
            typedef C::g1_type<>::field_type::value_type V;
            equation<E>("alt_bn128_254/g1", SW, COEF(V, V::zero(), elem<V>({"3"})));
            equation<C::g1_type<>>("alt_bn128_254/g1/default", SW, COEF(V, V::zero(), elem<V>({"3"})));
            generator<E>("alt_bn128_254/g1/affine", p);
            generator<C::g1_type<>>("alt_bn128_254/g1", p);
            p.x = {"10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634"};
            p.y = {"8495653923123431417604973247489272438418190587263600148770280649306958101930", "4082367875863433681332203403145435568316851327593401208105741076214120093531"};
            typedef C::g2_type<>::field_type::value_type W;
            auto c2 = COEF(W, W::zero(), elem<W>({"3"}) * elem<W>({"9", "1"}).inversed());
            equation<C::g2_type<A>>("alt_bn128_254/g2", SW, c2);
            equation<C::g2_type<>>("alt_bn128_254/g2/default", SW, c2);
            generator<C::g2_type<>>("alt_bn128_254/g2", p);
        }
        {
            Pub p{"0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", {"0x17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB"}, {"0x8B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1"}};
            typedef bls12<381> C;
            typedef C::g1_type<>::field_type::value_type V;
            equation<C::g1_type<A>>("bls12_381/g1", SW, COEF(V, V::zero(), elem<V>({"4"})));
            equation<C::g1_type<>>("bls12_381/g1/default", SW, COEF(V, V::zero(), elem<V>({"4"})));
            generator<C::g1_type<A>>("bls12_381/g1/affine", p);
            generator<C::g1_type<>>("bls12_381/g1", p);
            p.x = {"0x24AA2B2F08F0A91260805272DC51051C6E47AD4FA403B02B4510B647AE3D1770BAC0326A805BBEFD48056C8C121BDB8", "0x13E02B6052719F607DACD3A088274F65596BD0D09920B61AB5DA61BBDC7F5049334CF11213945D57E5AC7D055D042B7E"};
            p.y = {"0xCE5D527727D6E118CC9CDC6DA2E351AADFD9BAA8CBDD3A76D429A695160D12C923AC9CC3BACA289E193548608B82801", "0x606C4A02EA734CC32ACD2B02BC28B99CB3E287E85A763AF267492AB572E99AB3F370D275CEC1DA1AAA9075FF05F79BE"};
            typedef C::g2_type<>::field_type::value_type W;
            equation<C::g2_type<A>>("bls12_381/g2", SW, COEF(W, W::zero(), (elem<W>({"4", "4"}))));
            equation<C::g2_type<>>("bls12_381/g2/default", SW, COEF(W, W::zero(), (elem<W>({"4", "4"}))));
            generator<C::g2_type<>>("bls12_381/g2", p);
        }
        {
            Pub p{"0x1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001", "0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001"};
            typedef bls12<377> C;
            typedef C::g1_type<>::field_type::value_type V;
            equation<C::g1_type<A>>("bls12_377/g1", SW, COEF(V, V::zero(), elem<V>({"1"})));
            equation<C::g1_type<>>("bls12_377/g1/default", SW, COEF(V, V::zero(), elem<V>({"1"})));
            generator<C::g1_type<A>>("bls12_377/g1/affine", p);
            generator<C::g1_type<>>("bls12_377/g1", p);
            typedef C::g2_type<>::field_type::value_type W;
            equation<C::g2_type<A>>("bls12_377/g2", SW, COEF(W, W::zero(), (elem<W>({"0", "1"}).inversed())));
            equation<C::g2_type<>>("bls12_377/g2/default", SW, COEF(W, W::zero(), (elem<W>({"0", "1"}).inversed())));
            generator<C::g2_type<>>("bls12_377/g2", p);
        }
        {
            Pub p{"0x3bcf7bcd473a266249da7b0548ecaeec9635d1330ea41a9e35e51200e12c90cd65a71660001", "0x3bcf7bcd473a266249da7b0548ecaeec9635cf44194fb494c07925d6ad3bb4334a400000001"};
            typedef mnt4<298> C;
            typedef C::g1_type<>::field_type::value_type V;
#define MNT4B "0x3545a27639415585ea4d523234fc3edd2a2070a085c7b980f4e9cd21a515d4b0ef528ec0fd5"
            auto c1 = COEF(V, elem<V>({"2"}), elem<V>({MNT4B}));
            equation<C::g1_type<A>>("mnt4_298/g1", SW, c1);
            equation<C::g1_type<>>("mnt4_298/g1/default", SW, c1);
            generator<C::g1_type<A>>("mnt4_298/g1/affine", p);
            generator<C::g1_type<>>("mnt4_298/g1", p);
            typedef C::g2_type<>::field_type::value_type W;
            // u^2 = 17; the twist by u
            auto c2 = COEF(W, elem<W>({"34"}), (elem<W>({"0", MNT4B}) * elem<W>({"17"})));
            equation<C::g2_type<A>>("mnt4_298/g2", SW, c2);
            equation<C::g2_type<>>("mnt4_298/g2/default", SW, c2);
            generator<C::g2_type<>>("mnt4_298/g2", p);
        }
        {
            Pub p{"0x3bcf7bcd473a266249da7b0548ecaeec9635cf44194fb494c07925d6ad3bb4334a400000001", "0x3bcf7bcd473a266249da7b0548ecaeec9635d1330ea41a9e35e51200e12c90cd65a71660001"};
            typedef mnt6<298> C;
            typedef C::g1_type<>::field_type::value_type V;
#define MNT6B "0xd68c7b1dc5dd042e957b71c44d3d6c24e683fc09b420b1a2d263fde47ddba59463d0c65282"
            auto c1 = COEF(V, elem<V>({"11"}), elem<V>({MNT6B}));
            equation<C::g1_type<A>>("mnt6_298/g1", SW, c1);
            equation<C::g1_type<>>("mnt6_298/g1/default", SW, c1);
            generator<C::g1_type<A>>("mnt6_298/g1/affine", p);
            generator<C::g1_type<>>("mnt6_298/g1", p);
            typedef C::g2_type<>::field_type::value_type W;
            // u^3 = 5; the twist by u
            auto c2 = COEF(W, (elem<W>({"0", "0", "11"})), (elem<W>({MNT6B}) * elem<W>({"5"})));
            equation<C::g2_type<A>>("mnt6_298/g2", SW, c2);
            equation<C::g2_type<>>("mnt6_298/g2/default", SW, c2);
            generator<C::g2_type<>>("mnt6_298/g2", p);
        }
        {
            const char *a = "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001", *b = "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001";
            typedef pallas::g1_type<>::field_type::value_type V;
            typedef vesta::g1_type<>::field_type::value_type W;
            equation<pallas::g1_type<A>>("pallas/g1", SW, COEF(V, V::zero(), elem<V>({"5"})));
            equation<pallas::g1_type<>>("pallas/g1/default", SW, COEF(V, V::zero(), elem<V>({"5"})));
            generator<pallas::g1_type<A>>("pallas/g1/affine", Pub{a, b});
            generator<pallas::g1_type<>>("pallas/g1", Pub{a, b});
            equation<vesta::g1_type<A>>("vesta/g1", SW, COEF(W, W::zero(), elem<W>({"5"})));
            equation<vesta::g1_type<>>("vesta/g1/default", SW, COEF(W, W::zero(), elem<W>({"5"})));
            generator<vesta::g1_type<A>>("vesta/g1/affine", Pub{b, a});
            generator<vesta::g1_type<>>("vesta/g1", Pub{b, a});
        }
#elif defined(PART_SECP)
#define CURVE(name, C, a, b, ...)                                                                            \
    {                                                                                                        \
        Pub p{__VA_ARGS__};                                                                                  \
        typedef C::g1_type<>::field_type::value_type V;                                                      \
        equation<C::g1_type<A>>(name, SW, COEF(V, elem<V>({a}), elem<V>({b})));                        \
        equation<C::g1_type<>>(name "/default", SW, COEF(V, elem<V>({a}), elem<V>({b})));              \
        generator<C::g1_type<A>>(name "/affine", p);                                                   \
        generator<C::g1_type<>>(name, p);                                                              \
    }
        CURVE("secp160k1", secp_k1<160>, "0", "7", "0xfffffffffffffffffffffffffffffffeffffac73", "0x100000000000000000001b8fa16dfab9aca16b6b3")
        CURVE("secp192k1", secp_k1<192>, "0", "3", "0xfffffffffffffffffffffffffffffffffffffffeffffee37", "0xfffffffffffffffffffffffe26f2fc170f69466a74defd8d", {"0xdb4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d"}, {"0x9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d"})
        CURVE("secp224k1", secp_k1<224>, "0", "5", "0xfffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "0x10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7", {"0xa1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c"}, {"0x7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5"})
        CURVE("secp256k1", secp_k1<256>, "0", "7", "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", {"0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"}, {"0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"})
        CURVE("secp160r1", secp_r1<160>, "-3", "0x1C97BEFC54BD7A8B65ACF89F81D4D4ADC565FA45", "0xffffffffffffffffffffffffffffffff7fffffff", "0x100000000000000000001f4c8f927aed3ca752257")
        CURVE("secp192r1", secp_r1<192>, "-3", "0x64210519E59C80E70FA7E9AB72243049FEB8DEECC146B9B1", "0xfffffffffffffffffffffffffffffffeffffffffffffffff", "0xffffffffffffffffffffffff99def836146bc9b1b4d22831", {"0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012"}, {"0x07192b95ffc8da78631011ed6b24cdd573f977a11e794811"})
        CURVE("secp224r1", secp_r1<224>, "-3", "0xB4050A850C04B3ABF54132565044B0B7D7BFD8BA270B39432355FFB4", "0xffffffffffffffffffffffffffffffff000000000000000000000001", "0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d", {"0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21"}, {"0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"})
        CURVE("secp256r1", secp_r1<256>, "-3", "0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B", "0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", {"0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"}, {"0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"})
        CURVE("secp384r1", secp_r1<384>, "-3", "0xB3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF",
              "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973", {"0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"}, {"0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"})
        CURVE("secp521r1", secp_r1<521>, "-3", "0x51953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00",
              "0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409", {"0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"}, {"0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"})
#else
        {
            Pub p{"0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", "0x60c89ce5c263405370a08b6d0302b0bab3eedb83920ee0a677297dc392126f1"};
            typedef babyjubjub C;
            typedef C::g1_type<>::field_type::value_type V;
            equation<C::g1_type<A>>("babyjubjub/twisted_edwards", TE, COEF(V, elem<V>({"168700"}), elem<V>({"168696"})));
            generator<C::g1_type<A>>("babyjubjub/twisted_edwards", p);
            equation<C::g1_type<A, forms::montgomery>>("babyjubjub/montgomery", MG, COEF(V, elem<V>({"168698"}), elem<V>({"1"})));
            generator<C::g1_type<A, forms::montgomery>>("babyjubjub/montgomery", p);
        }
        {
            Pub p{"0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", "0xe7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7"};
            typedef jubjub C;
            typedef C::g1_type<>::field_type::value_type V;
            equation<C::g1_type<A>>("jubjub/twisted_edwards", TE, COEF(V, elem<V>({"-1"}), elem<V>({"-10240"}) * elem<V>({"10241"}).inversed()));
            generator<C::g1_type<A>>("jubjub/twisted_edwards", p);
            equation<C::g1_type<A, forms::montgomery>>("jubjub/montgomery", MG, COEF(V, elem<V>({"40962"}), elem<V>({"1"})));
            generator<C::g1_type<A, forms::montgomery>>("jubjub/montgomery", p);
        }
        {
            Pub p{"0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", {"0x216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"}, {"0x6666666666666666666666666666666666666666666666666666666666666658"}};
            typedef ed25519 C;
            typedef C::g1_type<>::field_type::value_type V;
            equation<C::g1_type<A, forms::twisted_edwards>>("ed25519/affine", TE, COEF(V, elem<V>({"-1"}), elem<V>({"-121665"}) * elem<V>({"121666"}).inversed()));
            generator<C::g1_type<A, forms::twisted_edwards>>("ed25519/affine", p);
            generator<C::g1_type<>>("ed25519", p);
            equation<curve25519::g1_type<A, forms::montgomery>>("curve25519", MG, COEF(V, elem<V>({"486662"}), elem<V>({"1"})));
            p.x = {"9"};
            p.y = {"0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9"};
            generator<curve25519::g1_type<A, forms::montgomery>>("curve25519", p);
        }
        {
            Pub p{"0x40d5fc9d2a395b138b924ed6342d41b6eb690b80000001", "0x10357f274a8e56c4e2e493b92e12cc1de5532780000001"};
            typedef edwards<183> C;
            typedef C::g1_type<>::field_type::value_type V;
            equation<C::g1_type<A>>("edwards_183/affine", TE, COEF(V, elem<V>({"1"}), elem<V>({"0x64536D55979879327CF1306BB5A6277D254EF9776CE70"})));
            generator<C::g1_type<A>>("edwards_183/affine", p);
            generator<C::g1_type<>>("edwards_183", p);
        }
#endif
    }
} r;
}    // namespace
int main(int c, char **v) {
    return run_main(c, v);
}
