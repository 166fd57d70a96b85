// Scalar multiplication.  scalar_mul.hpp only uses the group operations of its operand, so its result is a word in the
// base point: running it with the free group on one generator (the integers) as the operand gives the multiple it
// computes in every group.  The scalar is symbolic; REAL instead runs it on curve elements over a small field.
#include "curve_common.hpp"
#if defined(REAL)
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#endif
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
namespace mp = boost::multiprecision;

template<unsigned W>
using Int = mp::number<mp::backends::cpp_int_modular_backend<W>>;
template<unsigned W>
Int<W> isym(const std::string &n) {
    Int<W> r;
    if (rt().replay) {
        auto it = rt().values.find(n);
        return it == rt().values.end() ? r : Int<W>(it->second.c_str());
    }
    r.backend().id = rt().node("ivar " + std::to_string(W) + " " + n);
    return r;
}
// residues
using P61 = mp::backends::cpp_int_modular_backend<61>;
constexpr mp::backends::modular_params<P61> mersenne = Int<61>(((uint64_t)1 << 61) - 1).backend();
using Res = mp::number<mp::backends::modular_adaptor<P61, mp::backends::modular_params_ct<P61, mersenne>>>;
struct ScalarField;
struct Scalar {
    using field_type = ScalarField;
    Res data;
    bool is_zero() const { return data.is_zero(); }
};
struct ScalarField {
    using value_type = Scalar;
    static constexpr std::size_t value_bits = 61, modulus_bits = 61, arity = 1;
    using integral_type = Int<61>;
    using modular_type = Res;
};

namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
// the integers as a group; `n` counts copies of the base point
struct Zcoord {
    symrt::Bool one;
    bool is_one() const { return symrt::decide(one); }
};
template<bool Mixed>
struct free_group;
template<bool Mixed>
struct free_group_type {
    using value_type = free_group<Mixed>;
    using field_type = ::Fld;
    using curve_type = ::Curve;
    static constexpr std::size_t value_bits = 61;
};
struct fg_base {
    uint64_t w[10] = {};
    Zcoord Z;
    bool operator==(const fg_base &o) const {
        for (int i = 0; i < 10; i++)
            if (w[i] != o.w[i]) return false;
        return true;
    }
    void acc(const fg_base &o) {
        unsigned __int128 c = 0;
        for (int i = 0; i < 10; i++) {
            c += (unsigned __int128)w[i] + o.w[i];
            w[i] = (uint64_t)c;
            c >>= 64;
        }
        Z.one = symrt::Bool(false);
    }
    void negate() {
        unsigned __int128 c = 1;
        for (int i = 0; i < 10; i++) {
            c += (uint64_t)~w[i];
            w[i] = (uint64_t)c;
            c >>= 64;
        }
    }
};
template<>
struct free_group<false> : fg_base {
    using group_type = free_group_type<false>;
    using field_type = ::ScalarField;
    static free_group zero() { return free_group(); }
    static free_group one() { free_group r; r.w[0] = 1; return r; }
    bool is_zero() const { return *this == zero(); }
    bool is_well_formed() const { return true; }
    bool operator!=(const free_group &o) const { return !(*this == o); }
    void double_inplace() { auto t = *this; acc(t); }
    free_group &operator+=(const free_group &o) { auto t = o; acc(t); return *this; }
    free_group operator+(const free_group &o) const { free_group r = *this; r.acc(o); return r; }
    free_group operator-() const { free_group r = *this; r.negate(); return r; }
    free_group &operator-=(const free_group &o) { acc(-o); return *this; }
    free_group operator-(const free_group &o) const { return *this + -o; }
};
template<>
struct free_group<true> : fg_base {
    using group_type = free_group_type<true>;
    using field_type = ::ScalarField;
    static free_group zero() { return free_group(); }
    static free_group one() { free_group r; r.w[0] = 1; return r; }
    bool is_zero() const { return *this == zero(); }
    bool is_well_formed() const { return true; }
    bool operator!=(const free_group &o) const { return !(*this == o); }
    void double_inplace() { auto t = *this; acc(t); }
    free_group &operator+=(const free_group &o) { auto t = o; acc(t); return *this; }
    free_group operator+(const free_group &o) const { free_group r = *this; r.acc(o); return r; }
    free_group operator-() const { free_group r = *this; r.negate(); return r; }
    free_group &operator-=(const free_group &o) { acc(-o); return *this; }
    free_group operator-(const free_group &o) const { return *this + -o; }
    void mixed_add(const free_group &o) {
        symrt::check(o.Z.one, "mixed addition of an operand whose Z is not one");
        auto t = o;
        acc(t);
    }
};
}}}}}
using FreeMixed = cd::free_group<true>;
using FreePlain = cd::free_group<false>;

namespace {
template<unsigned W, class G>
Bool counts(const G &g, const Int<W> &k) {
    Int<W> c(0u);
    for (int i = 9; i >= 0; i--)
        if constexpr (W > 64) c = (c << 64) | Int<W>(g.w[i]);
        else if (i == 0) c = Int<W>(g.w[0]);
    for (int i = 0; i < 10; i++)
        if (i * 64 >= (int)W && g.w[i]) return Bool(false);
    if (W < 64 && (g.w[0] >> (W < 64 ? W : 0))) return Bool(false);
    return Int<W>::beq(c, k);
}
template<class G>
G base(bool one) {
    G b = G::one();
    b.Z.one = Bool(one);
    return b;
}
template<class G>
void same_base(const G &b, const G &b0) { check(b == b0, "the base point is changed"); }
template<class N>
std::string str(N n) { return std::to_string(n); }
Scalar ssym(const std::string &n, uint64_t lim) {
    Scalar s;
    if (rt().replay) {
        auto it = rt().values.find(n);
        s.data = it == rt().values.end() ? Res() : Res(Int<61>(it->second.c_str()));
    } else
        s.data = Res(mp::backends::modular_adaptor<P61, mp::backends::modular_params_ct<P61, mersenne>>::sym(
            rt().node("fvar " + mp::backends::modular_adaptor<P61, mp::backends::modular_params_ct<P61, mersenne>>::ms() + " " + n)));
    assume(Res::blt(s.data, Res(lim)));
    return s;
}
template<class G>
void widths(const std::string &g, bool mixed) {
    using namespace nil::crypto3::algebra::curves::detail;
    for (int one = 0; one <= (mixed ? 1 : 0); one++) {
        std::string nm = g + (one ? "_z1" : "");
        // every scalar below 2^W
#ifdef THOROUGH
        constexpr unsigned W = 11;
#else
        constexpr unsigned W = 8;
#endif
        add_case(nm + "/all_scalars", "mode=bv timeout=120 maxpaths=40000", [=] {
            auto k = isym<W>("k");
            G b = base<G>(one), b0 = b;
            check(counts<W>(b * k, k), "k * P is not the k-th multiple");
            same_base(b, b0);
        });
        add_case(nm + "/scalar_left", "mode=bv timeout=120 maxpaths=4000", [=] {
            auto k = isym<6>("k");
            G b = base<G>(one), b0 = b;
            check(counts<6>(k * b, k), "k * P is not the k-th multiple");
            same_base(b, b0);
        });
        add_case(nm + "/field_scalar", "mode=bv timeout=120 maxpaths=4000", [=] {
            auto k = ssym("k", 32);
            G b = base<G>(one), b0 = b;
            auto K = k.data.template convert_to<Int<61>>();
            check(counts<61>(b * k, K), "P * k is not the k-th multiple");
            check(counts<61>(k * b, K), "k * P is not the k-th multiple");
            check(counts<61>(b * k.data, K), "P * k.data is not the k-th multiple");
            same_base(b, b0);
        });
        add_case(nm + "/inplace", "mode=bv timeout=120 maxpaths=4000", [=] {
            auto k = ssym("k", 64);
            G b = base<G>(one), b0 = b;
            auto K = k.data.template convert_to<Int<61>>();
            b *= k;
            check(counts<61>(b, K), "P *= k is not the k-th multiple");
        });
        add_case(nm + "/inplace_high", "mode=bv timeout=120 maxpaths=4000", [=] {
            // scalars next to the modulus, and with a window of free bits above bit 32
            auto k = isym<5>("k");
            for (uint64_t hi : {(uint64_t)1 << 60, ((uint64_t)1 << 60) + ((uint64_t)1 << 31), (uint64_t)0x155555555ull}) {
                Int<61> K = (Int<61>(k) << 33) + Int<61>(hi);
                Scalar s;
                s.data = Res(K);
                assume(Int<61>::blt(K, Int<61>(((uint64_t)1 << 61) - 1)));
                G b = base<G>(one);
                b *= s;
                check(counts<61>(b, K), "P *= k is not the k-th multiple");
            }
        });
        // windows of free bits in wide scalars over fixed patterns
        auto window = [=](auto w, unsigned pos, int pat) {
            constexpr unsigned WW = decltype(w)::value;
            add_case(nm + "/wide" + str(WW) + "_bit" + str(pos) + "_pattern" + str(pat), "mode=bv timeout=120 maxpaths=400", [=] {
                auto v = isym<4>("v");
                Int<WW> c(0u);
                for (unsigned i = 0; i < WW; i++)
                    if ((i < pos || i >= pos + 4) && ((pat == 1 && i % 3 == 0) || (pat == 2 && i % 64 == 63) || pat == 3))
                        c = c + (Int<WW>(1u) << i);
                Int<WW> k = c + (Int<WW>(v) << pos);
                G b = base<G>(one), b0 = b;
                check(counts<WW>(b * k, k), "k * P is not the k-th multiple");
                same_base(b, b0);
            });
        };
        for (int pat = 0; pat < 4; pat++) {
            for (unsigned pos : {28u, 60u}) window(std::integral_constant<unsigned, 64>(), pos, pat);
            for (unsigned pos : {0u, 62u, 125u, 252u}) window(std::integral_constant<unsigned, 256>(), pos, pat);
            for (unsigned pos : {254u, 508u}) window(std::integral_constant<unsigned, 512>(), pos, pat);
        }
    }
}
#if defined(REAL)
using form = cv::forms::short_weierstrass;
template<class P>
struct CurveGrp {
    using curve_type = Curve;
    using params_type = P;
    using field_type = Fld;
    using value_type = cd::curve_element<P, form, cv::coordinates::affine>;
    static constexpr std::size_t value_bits = 64;
};
struct Params {
    using field_type = Fld;
    template<class C>
    using group_type = CurveGrp<Params>;
    inline static Sf a, b;
    inline static std::array<Sf, 2> zero_fill = {Sf(0), Sf(0)};
    inline static std::array<Sf, 2> one_fill = {Sf(0), Sf(0)};
};
template<class C, int WX, int WY>
void real(const std::string &nm) {
    using E = cd::curve_element<Params, form, C>;
    for (int z1 = 0; z1 <= (WX ? 1 : 0); z1++)
        for (uint64_t p : quick_primes({5}, {7}))
        for (int b : {1, 2})    // over F_5: 9 points, and 4 points with one of order two
            add_case("curve/" + nm + (z1 ? "_z1" : "") + "/F" + std::to_string(p) + "_b" + std::to_string(b),
                     "mode=bv timeout=200 btimeout=60 maxpaths=20000", [=] {
                field_mode() = p;
                Sf x = fvar("x"), y = fvar("y");
                Params::a = Sf(1);
                Params::b = Sf(b);
                assume(Sf::feq(y * y, x * x * x + x + Sf(b)));
                E P;
                if constexpr (WX == 0) P = E(x, y);
                else {
                    Sf z = z1 ? Sf(1) : nz("z");
                    Sf zx = WX == 2 ? z * z : z, zy = WY == 3 ? z * z * z : z;
                    P = E(x * zx, y * zy, z);
                }
                E P0 = P, sum;
                auto k = isym<3>("k");
                E r = P * k;
                for (unsigned i = 0; i < 8; i++) {
                    if (decide(Int<3>::beq(k, Int<3>(i)))) {
                        check(r == sum, "k * P differs from the repeated sum");
                        break;
                    }
                    sum = sum + P;
                }
                check(P == P0, "the base point is changed");
            });
}
#endif
struct Init {
    Init() {
#if defined(REAL)
        real<cv::coordinates::affine, 0, 0>("affine");
        real<cv::coordinates::jacobian, 2, 3>("jacobian");
        real<cv::coordinates::projective, 1, 1>("projective");
        return;
#endif
        widths<FreeMixed>("mixed", true);
        widths<FreePlain>("plain", false);
    }
} init_;
}    // namespace
struct Curve {};
int main(int argc, char **argv) { return run_main(argc, argv); }
