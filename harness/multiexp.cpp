// Multi-exponentiation, fixed-base tables and windowed NAF.  The code only uses the group operations of its bases, so
// the result is a word in them: running it on the free abelian group (integer vectors, one coordinate per base) gives the
// combination it computes in every commutative group.  The scalars are symbolic.
#include "curve_common.hpp"
#include <boost/assert.hpp>
#include <nil/crypto3/algebra/curves/params.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
namespace mp = boost::multiprecision;
namespace al = nil::crypto3::algebra;

template<unsigned W>
using Int = mp::number<mp::backends::cpp_int_modular_backend<W>>;
template<unsigned W>
Int<W> isym(const std::string &n) {
    Int<W> r;
    if (rt().replay) {
        auto it = rt().values.find(n);
        return it == rt().values.end() ? r : Int<W>(it->second.c_str());
    }
    r.backend().id = rt().node("ivar " + std::to_string(W) + " " + n);
    return r;
}
using P61 = mp::backends::cpp_int_modular_backend<61>;
constexpr mp::backends::modular_params<P61> mersenne = Int<61>(((uint64_t)1 << 61) - 1).backend();
using Res = mp::number<mp::backends::modular_adaptor<P61, mp::backends::modular_params_ct<P61, mersenne>>>;
struct ScalarField;
struct Scalar {
    using field_type = ScalarField;
    using integral_type = Int<61>;
    Res data;
    static Scalar zero() { return Scalar(); }
    static Scalar one() { return Scalar{Res(1u)}; }
    bool is_zero() const { return data.is_zero(); }
    bool operator==(const Scalar &o) const { return data == o.data; }
    bool operator!=(const Scalar &o) const { return !(data == o.data); }
    Scalar operator*(const Scalar &o) const { return Scalar{data * o.data}; }
};
struct ScalarField {
    using value_type = Scalar;
    static constexpr std::size_t value_bits = 61, modulus_bits = 61, arity = 1;
    using integral_type = Int<61>;
    using modular_type = Res;
};
constexpr int N = 9;
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
struct lattice;
struct lattice_group {
    using value_type = lattice;
    using field_type = ::Fld;
    using curve_type = ::Curve;
    static constexpr std::size_t value_bits = 61;
};
struct lattice {
    using group_type = lattice_group;
    using field_type = ::ScalarField;
    std::array<__int128, N> w {};
    static lattice zero() { return lattice(); }
    static lattice unit(int i) {
        lattice r;
        r.w[i] = 1;
        return r;
    }
    static lattice one() { return unit(0); }
    bool is_zero() const { return *this == zero(); }
    bool is_well_formed() const { return true; }
    bool operator==(const lattice &o) const { return w == o.w; }
    bool operator!=(const lattice &o) const { return !(w == o.w); }
    void double_inplace() { for (auto &c : w) c += c; }
    lattice &operator+=(const lattice &o) {
        for (int i = 0; i < N; i++) w[i] += o.w[i];
        return *this;
    }
    lattice operator+(const lattice &o) const { lattice r = *this; r += o; return r; }
    lattice operator-() const { lattice r; for (int i = 0; i < N; i++) r.w[i] = -w[i]; return r; }
    lattice &operator-=(const lattice &o) { return *this += -o; }
    lattice operator-(const lattice &o) const { return *this + -o; }
    lattice to_projective() const { return *this; }
};
}    // namespace detail
template<>
struct wnaf_params<detail::lattice_group> {
    constexpr static const std::array<std::size_t, 4> wnaf_window_table = {2, 5, 7, 9};
};
}}}}
using G = nil::crypto3::algebra::curves::detail::lattice;
using LGrp = nil::crypto3::algebra::curves::detail::lattice_group;

namespace {
// the coordinate equals the scalar
template<class I>
Bool is(__int128 w, const I &k) {
    if (w < 0 || (w >> 60) >= 2) return Bool(false);
    return Int<61>::beq(Int<61>((uint64_t)w), Int<61>(k));
}
// B free bits at bit `pos` of a scalar, the other bits from `rest`
Scalar scalar(const std::string &n, unsigned B, unsigned pos, uint64_t rest) {
    uint64_t mask = (((uint64_t)1 << B) - 1) << pos;
    Int<61> v;
    if (B == 1) v = Int<61>(isym<1>(n));
    else if (B == 2) v = Int<61>(isym<2>(n));
    else if (B == 3) v = Int<61>(isym<3>(n));
    else if (B == 4) v = Int<61>(isym<4>(n));
    else if (B == 5) v = Int<61>(isym<5>(n));
    else if (B == 6) v = Int<61>(isym<6>(n));
    else if (B == 8) v = Int<61>(isym<8>(n));
    Int<61> k = (v << pos) + Int<61>(rest & ~mask);
    return Scalar{Res(k)};
}
Int<61> val(const Scalar &s) { return s.data.template convert_to<Int<61>>(); }
struct Case {
    std::vector<Scalar> s;
    std::vector<G> g;
    Case(int n, unsigned B, unsigned pos = 0, std::vector<uint64_t> rest = {}) {
        for (int i = 0; i < n; i++) {
            s.push_back(scalar("k" + std::to_string(i), B, pos, rest.empty() ? 0 : rest[i % rest.size()]));
            g.push_back(G::unit(i));
        }
    }
    void expect(const G &r, const char *l = "the result is not the sum of the multiples") const {
        Bool ok(true);
        for (int i = 0; i < N; i++)
            if (i < (int)s.size()) ok = ok & is(r.w[i], val(s[i]));
            else ok = ok & Bool(r.w[i] == 0);
        check(ok, l);
        for (size_t i = 0; i < g.size(); i++) check(Bool(g[i] == G::unit(i)), "the bases are changed");
    }
};
const char *OPT = "mode=bv timeout=60 maxpaths=20000";
template<class M>
void method(const std::string &m, bool big) {
    auto add = [&](const std::string &n, auto f) { add_case(m + "/" + n, OPT, f); };
    auto run = [=](const Case &c, int chunks = 1) { return al::multiexp<M>(c.g.begin(), c.g.end(), c.s.begin(), c.s.end(), chunks); };
#ifdef THOROUGH
    const int T = 1;
#else
    const int T = 0;
#endif
    // all scalars below 2^B
    for (auto [n, B] : std::vector<std::pair<int, int>> {{1, T ? 8 : 6}, {2, T ? 5 : big ? 4 : 3}, {3, T ? 3 : 2}, {4, T ? 2 : 1}, {6, 1}, {8, 1}})
            if (n < 8 || T || big)
        add("all/" + std::to_string(n) + "x" + std::to_string(B) + "bit", [=] {
            Case c(n, B);
            c.expect(run(c));
        });
    // free bits in wide scalars: far apart (20 bits and more), next to each other, and next to the modulus
    std::vector<std::vector<uint64_t>> pats = {
        {0x155555555555555ull, 0x0123456789abcdull, 3},
        {((uint64_t)1 << 60) + 5, 1, 0x3ffff},
        {((uint64_t)1 << 61) - 9, ((uint64_t)1 << 61) - 10, ((uint64_t)1 << 60) - 1},
        {7, (uint64_t)1 << 40, 0xfffffffffull}};
    for (size_t p = 0; p < pats.size(); p++)
        for (unsigned pos : {0u, 30u, 57u})
            for (int n : {1, 2, 3, 4})
                if (n < 4 || T)
                    add("wide/pattern" + std::to_string(p) + "_bit" + std::to_string(pos) + "_" + std::to_string(n), [=] {
                        Case c(n, n < 3 || T ? 2 : 1, pos, pats[p]);
                        if (pos == 57)
                            for (auto &s : c.s) assume(Int<61>::blt(val(s), Int<61>(((uint64_t)1 << 61) - 1)));
                        c.expect(run(c));
                    });
    // splitting into chunks
    for (int n : {1, 3, 4, 6})
        for (int ch : {1, 2, 3, 4, 5, 7})
            if (ch <= n + 1)
                add("chunks/" + std::to_string(n) + "_in_" + std::to_string(ch), [=] {
                    Case c(n, 1, 1, {1, 4, 0});
                    c.expect(run(c, ch));
                });
    // scalars zero and one treated separately
    for (auto [n, B] : std::vector<std::pair<int, int>> {{1, 3}, {2, 2}, {3, T ? 2 : 1}, {4, T ? 2 : 1}})
        for (int ch : {1, 2})
            add("mixed/" + std::to_string(n) + "x" + std::to_string(B) + "bit_in_" + std::to_string(ch), [=] {
                Case c(n, B);
                c.expect(al::multiexp_with_mixed_addition<M>(c.g.begin(), c.g.end(), c.s.begin(), c.s.end(), ch));
            });
    add("empty", [=] {
        Case c(0, 1);
        c.expect(run(c));
        c.expect(al::multiexp_with_mixed_addition<M>(c.g.begin(), c.g.end(), c.s.begin(), c.s.end(), 1));
    });
    // the same base more than once
    add("repeated_bases", [=] {
        Case c(3, 2);
        auto g = c.g;
        g[1] = g[0];
        G r = al::multiexp<M>(g.begin(), g.end(), c.s.begin(), c.s.end(), 1);
        check(is(r.w[0], val(c.s[0]) + val(c.s[1])) & is(r.w[2], val(c.s[2])) & Bool(r.w[1] == 0), "the result is not the sum of the multiples");
    });
}
template<int S>
void tables() {
    for (int w = 1; w <= 4; w++) {
        std::string nm = "table/" + std::to_string(S) + "bit_window" + std::to_string(w);
        add_case(nm, OPT, [=] {
            auto t = al::get_window_table<LGrp>(S, w, G::one());
            Scalar s{Res(Int<61>(isym<S>("k")))};
            G r = al::windowed_exp<LGrp, ScalarField>(S, w, t, s);
            check(is(r.w[0], val(s)), "windowed_exp is not the multiple of the base");
        });
        add_case(nm + "/batch", OPT, [=] {
            auto t = al::get_window_table<LGrp>(S, w, G::one());
            std::vector<Scalar> v;
            v.push_back(Scalar{Res(Int<61>(isym<S>("k")))});
            v.push_back(Scalar::zero());
            v.push_back(Scalar{Res(Int<61>(isym<2>("l")) + Int<61>((uint64_t)((1 << S) - 4)))});
            if (S < 3) v.pop_back();
            auto r = al::batch_exp<LGrp, ScalarField>(S, w, t, v);
            check(Bool(r.size() == v.size()), "batch_exp: the number of results");
            for (size_t i = 0; i < v.size(); i++) check(is(r[i].w[0], val(v[i])), "batch_exp is not the multiple of the base");
        });
        if (S >= 4) add_case(nm + "/batch_coeff", OPT, [=] {
            auto t = al::get_window_table<LGrp>(S, w, G::one());
            std::vector<Scalar> v;
            for (int i = 0; i < 2; i++) v.push_back(Scalar{Res(Int<61>(isym<2>("k" + std::to_string(i))))});
            Scalar c{Res(Int<61>(isym<2>("c")) + Int<61>((uint64_t)(S > 5 ? 4 : 1)))};
            auto r = al::batch_exp_with_coeff<LGrp, ScalarField>(S, w, t, c, v);
            check(Bool(r.size() == v.size()), "batch_exp_with_coeff: the number of results");
            for (size_t i = 0; i < v.size(); i++) check(is(r[i].w[0], val(c) * val(v[i])), "batch_exp_with_coeff is not the multiple of the base");
        });
    }
}
void wnaf_wide() {
    for (int w = 1; w <= 4; w++)
        for (unsigned pos : {0u, 29u, 56u})
            for (uint64_t rest : {(uint64_t)0x155555555555555ull, (uint64_t)0x1fffffffffffffffull, (uint64_t)1 << 60})
                add_case("wnaf/wide_window" + std::to_string(w) + "_bit" + std::to_string(pos) + "_" + std::to_string(rest & 3), OPT, [=] {
                    uint64_t mask = (uint64_t)15 << pos;
                    Int<61> k = (Int<61>(isym<4>("k")) << pos) + Int<61>(rest & ~mask);
                    G r = al::fixed_window_wnaf_exp(w, G::one(), k);
                    check(is(r.w[0], k), "fixed_window_wnaf_exp is not the multiple of the base");
                });
}
template<unsigned W>
void wnaf() {
    for (int w = 1; w <= 5; w++)
        add_case("wnaf/fixed_window" + std::to_string(w) + "_" + std::to_string(W) + "bit", OPT, [=] {
            auto k = isym<W>("k");
            G r = al::fixed_window_wnaf_exp(w, G::one(), k);
            check(is(r.w[0], k), "fixed_window_wnaf_exp is not the multiple of the base");
        });
    for (int bits = 1; bits <= (int)W + 2; bits++)
        add_case("wnaf/opt_" + std::to_string(W) + "bit_" + std::to_string(bits), OPT, [=] {
            auto k = isym<W>("k");
            G r = al::opt_window_wnaf_exp(G::one(), k, bits);
            check(is(r.w[0], k), "opt_window_wnaf_exp is not the multiple of the base");
        });
}
struct Init {
    Init() {
#if defined(PART_METHODS)
        method<al::policies::multiexp_method_naive_plain>("naive", false);
        method<al::policies::multiexp_method_BDLO12>("BDLO12", true);
        method<al::policies::multiexp_method_bos_coster>("bos_coster", false);
#else
        tables<1>();
        tables<4>();
        tables<5>();
        tables<6>();
#ifdef THOROUGH
        tables<8>();
        wnaf<9>();
#else
        wnaf<7>();
#endif
        wnaf_wide();
#endif
    }
} init_;
}    // namespace
struct Curve {};
int main(int argc, char **argv) { return run_main(argc, argv); }
