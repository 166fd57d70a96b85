// Powers.  fields::detail::power and the cyclotomic exponentiations only multiply, square and invert: run with a
// group element that counts copies of the base, they give the exponent they compute in every group.
#include "tower_common.hpp"
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
namespace fl = nil::crypto3::algebra::fields;

namespace {
struct Unsupported : std::runtime_error {
    Unsupported() : std::runtime_error("an operation outside the multiplicative group") {}
};
constexpr int L = 18;    // 64-bit limbs of the counter
struct Cn {
    typedef Cn underlying_type;
    uint64_t w[L] = {};
    bool zero_ = false;
    constexpr Cn() = default;
    static constexpr Cn zero() {
        Cn r;
        r.zero_ = true;
        return r;
    }
    static constexpr Cn one() { return Cn(); }
    constexpr bool operator==(const Cn &o) const {
        if (zero_ != o.zero_) return false;
        for (int i = 0; i < L; i++)
            if (w[i] != o.w[i]) return false;
        return true;
    }
    constexpr bool operator!=(const Cn &o) const { return !(*this == o); }
    void acc(const Cn &o) {
        unsigned __int128 c = 0;
        for (int i = 0; i < L; i++) {
            c += (unsigned __int128)w[i] + o.w[i];
            w[i] = (uint64_t)c;
            c >>= 64;
        }
    }
    Cn minus() const {
        Cn r;
        unsigned __int128 c = 1;
        for (int i = 0; i < L; i++) {
            c += (uint64_t)~w[i];
            r.w[i] = (uint64_t)c;
            c >>= 64;
        }
        return r;
    }
    Cn no() const { throw Unsupported(); }
    Cn operator+(const Cn &) const { return no(); }
    Cn operator-(const Cn &) const { return no(); }
    Cn operator*(const Cn &) const { return no(); }
    Cn operator-() const { return no(); }
    Cn squared() const { return no(); }
    Cn doubled() const { return no(); }
    Cn inversed() const { return no(); }
};
// a plain group element
struct Word {
    Cn c;
    static Word one() { return Word(); }
    static Word zero() {
        Word r;
        r.c = Cn::zero();
        return r;
    }
    bool is_one() const { return c == Cn::one(); }
    bool is_zero() const { return c.zero_; }
    Word squared() const { return *this * *this; }
    Word operator*(const Word &o) const {
        Word r = *this;
        r.c.acc(o.c);
        return r;
    }
    Word &operator*=(const Word &o) { return *this = *this * o; }
    Word inversed() const {
        Word r;
        r.c = c.minus();
        return r;
    }
    bool operator==(const Word &o) const { return c == o.c; }
    bool operator!=(const Word &o) const { return !(c == o.c); }
};
template<unsigned N>
struct ep {
    struct field_type { typedef ep extension_policy; };
    typedef unsigned integral_type;
    constexpr static const unsigned modulus = 3;
    struct non_residue_field_type { typedef Cn value_type; };
    typedef Cn non_residue_type;
    typedef Cn underlying_type;
    constexpr static const Cn non_residue = Cn();
};
template<class V>
V times(const V &a, const V &b) {
    V r = a;
    r.data[0].acc(b.data[0]);
    return r;
}
template<class V>
V inv(const V &a) {
    V r = a;
    r.data[0] = a.data[0].minus();
    return r;
}
}    // namespace
namespace nil { namespace crypto3 { namespace algebra { namespace fields { namespace detail {
#define GROUP(CLS, ...)                                                                             \
    template<>                                                                                     \
    CE CLS<__VA_ARGS__> CLS<__VA_ARGS__>::operator*(const CLS<__VA_ARGS__> &b) const {             \
        return this ? times(*this, b) : b;                                                          \
    }                                                                                              \
    template<>                                                                                     \
    CE CLS<__VA_ARGS__> &CLS<__VA_ARGS__>::operator*=(const CLS<__VA_ARGS__> &b) {                 \
        if (this) *this = times(*this, b);                                                          \
        return *this;                                                                              \
    }                                                                                              \
    template<>                                                                                     \
    CE CLS<__VA_ARGS__> CLS<__VA_ARGS__>::inversed() const {                                       \
        return this ? inv(*this) : *this;                                                          \
    }                                                                                              \
    template<>                                                                                     \
    CE CLS<__VA_ARGS__> CLS<__VA_ARGS__>::squared() const {                                        \
        return this ? times(*this, *this) : *this;                                                  \
    }
#define CYCLO(CLS, CU, ...)                                                                         \
    template<>                                                                                     \
    CU CLS<__VA_ARGS__> CLS<__VA_ARGS__>::unitary_inversed() const {                               \
        return this ? inv(*this) : *this;                                                          \
    }                                                                                              \
    template<>                                                                                     \
    CLS<__VA_ARGS__> CLS<__VA_ARGS__>::cyclotomic_squared() const { return times(*this, *this); }
#define CE constexpr
GROUP(element_fp2, ep<2>)
GROUP(element_fp3, ep<3>)
GROUP(element_fp4, ep<4>)
GROUP(element_fp6_2over3, ep<6>)
GROUP(element_fp6_3over2, ep<6>)
#undef CE
#define CE
GROUP(element_fp12_2over3over2, ep<12>)
CYCLO(element_fp4, , ep<4>)
CYCLO(element_fp6_2over3, constexpr, ep<6>)
CYCLO(element_fp12_2over3over2, , ep<12>)
}}}}}
namespace {
template<unsigned W>
Bool counts(const Cn &g, const Int<W> &k) {
    if (g.zero_) return Bool(false);
    Int<W> c(0u);
    for (int i = L - 1; i >= 0; i--)
        if constexpr (W > 64) c = (c << 64) | Int<W>(g.w[i]);
        else if (i == 0) c = Int<W>(g.w[0]);
    for (int i = 0; i < L; i++)
        if (i * 64 >= (int)W && g.w[i]) return Bool(false);
    if (W < 64 && (g.w[0] >> (W < 64 ? W : 0))) return Bool(false);
    return Int<W>::beq(c, k);
}
// f(exponent) -> counter
template<class F>
void exponents(const std::string &nm, F f, bool brief = false) {
#ifdef THOROUGH
    constexpr unsigned W = 10;
#else
    constexpr unsigned W = 7;
#endif
    add_case(nm + "/all_exponents", "mode=bv timeout=120 maxpaths=40000", [=] {
        auto e = isym<W>("e");
        check(counts<W>(f(e), e), "the result is not the power with that exponent");
    });
    auto window = [=](auto w, unsigned pos, int pat) {
        constexpr unsigned WW = decltype(w)::value;
        add_case(nm + "/wide" + std::to_string(WW) + "_bit" + std::to_string(pos) + "_pattern" + std::to_string(pat), "mode=bv timeout=120 maxpaths=400", [=] {
            auto v = isym<4>("v");
            Int<WW> c(0u);
            for (unsigned i = 0; i < WW; i++)
                if ((i < pos || i >= pos + 4) && ((pat == 1 && i % 3 == 0) || (pat == 2 && i % 64 == 63) || pat == 3))
                    c = c + (Int<WW>(1u) << i);
            Int<WW> k = c + (Int<WW>(v) << pos);
            check(counts<WW>(f(k), k), "the result is not the power with that exponent");
        });
    };
    for (int pat = brief ? 1 : 0; pat < (brief ? 2 : 4); pat++) {
        for (unsigned pos : {28u, 60u}) window(std::integral_constant<unsigned, 64>(), pos, pat);
        for (unsigned pos : {0u, 62u, 252u}) window(std::integral_constant<unsigned, 256>(), pos, pat);
#ifdef THOROUGH
        for (unsigned pos : {254u, 1020u}) window(std::integral_constant<unsigned, 1024>(), pos, pat);
#endif
    }
}
template<class V>
V gen() {
    V r = V::one();
    r.data[0].w[0] = 1;
    return r;
}
template<class V>
void pows(const std::string &nm) {
    exponents(nm + "/pow", [](const auto &e) { return gen<V>().pow(e).data[0]; }, true);
}
template<class V>
void cyc(const std::string &nm) {
    exponents(nm + "/cyclotomic_exp", [](const auto &e) { return gen<V>().cyclotomic_exp(e).data[0]; }, true);
}
struct Init {
    Init() {
        using namespace fl::detail;
        exponents("power", [](const auto &e) {
            Word g;
            g.c.w[0] = 1;
            return power(g, e).c;
        });
        pows<element_fp2<ep<2>>>("fp2");
        pows<element_fp3<ep<3>>>("fp3");
        pows<element_fp4<ep<4>>>("fp4");
        pows<element_fp6_2over3<ep<6>>>("fp6_2over3");
        pows<element_fp6_3over2<ep<6>>>("fp6_3over2");
        pows<element_fp12_2over3over2<ep<12>>>("fp12");
        cyc<element_fp4<ep<4>>>("fp4");
        cyc<element_fp6_2over3<ep<6>>>("fp6_2over3");
        cyc<element_fp12_2over3over2<ep<12>>>("fp12");
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
