// random_element: the element is a bijective image of its uniform draws.
#include <boost/random/uniform_int_distribution.hpp>
#include "tower_common.hpp"
namespace {
// a draw: a value of [lo, hi] the case provides
struct Source {
    virtual ~Source() {}
    virtual void draw(const void *gen, const void *lo, const void *hi, void *out) = 0;
};
Source *source = nullptr;
}    // namespace
namespace boost { namespace random {
    // the distribution of the absent library's integers: any value from the first to the last, both included
    template<unsigned B, mp::expression_template_option ET>
    class uniform_int_distribution<mp::number<mp::backends::cpp_int_modular_backend<B>, ET>> {
    public:
        typedef mp::number<mp::backends::cpp_int_modular_backend<B>, ET> result_type;
        typedef result_type input_type;
        struct param_type {
            typedef uniform_int_distribution distribution_type;
            result_type lo, hi;
            explicit param_type(const result_type &l = 0, const result_type &h = 0) : lo(l), hi(h) {}
            result_type a() const { return lo; }
            result_type b() const { return hi; }
        };
        explicit uniform_int_distribution(const result_type &l = 0, const result_type &h = 0) : p(l, h) {}
        explicit uniform_int_distribution(const param_type &q) : p(q) {}
        result_type a() const { return p.lo; }
        result_type b() const { return p.hi; }
        result_type min() const { return p.lo; }
        result_type max() const { return p.hi; }
        param_type param() const { return p; }
        void param(const param_type &q) { p = q; }
        void reset() {}
        template<class G>
        result_type operator()(G &g) const { return (*this)(g, p); }
        template<class G>
        result_type operator()(G &g, const param_type &q) const {
            result_type r;
            source->draw(&g, &q.lo, &q.hi, &r);
            return r;
        }
    private:
        param_type p;
    };
}}
#include <nil/crypto3/algebra/random_element.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
using namespace nil::crypto3::algebra;
namespace {
struct Gen {
    typedef unsigned result_type;
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return 1; }
    unsigned operator()() { return 0; }
};
template<class F, bool ext>
struct bottom_ { typedef F type; };
template<class F>
struct bottom : bottom_<F, false> {};
template<class F>
struct bottom_<F, true> { typedef typename bottom_<typename F::underlying_field_type, is_extended_field<typename F::underlying_field_type>::value>::type type; };
template<class F>
using Bottom = typename bottom_<F, is_extended_field<F>::value>::type;
// every value of the range
template<class I>
struct Any : Source {
    std::string tag;
    const void *gen;
    I last;
    bool all = true;
    std::vector<I> draws;
    Any(const std::string &t, const void *g, const I &l) : tag(t), gen(g), last(l) {}
    void draw(const void *g, const void *lo, const void *hi, void *out) override {
        const I &l = *(const I *)lo, &h = *(const I *)hi;
        check(Bool(g == gen), "draws come from the generator that is passed");
        check(Bool(!(h < l)), "the range of a draw is not empty");
        all = all && h - l == last;
        I x = isym<I::backend_type::bits>(tag + S(draws.size()));
        assume(!I::blt(x, l) & !I::blt(h, x));
        draws.push_back(x);
        *(I *)out = x;
    }
};
template<class F>
void field(const std::string &n) {
    typedef typename F::value_type V;
    typedef typename Bottom<F>::value_type T;
    typedef typename Bottom<F>::integral_type I;
    add_case("field/" + n, "mode=mix timeout=20 btimeout=5", [] {
        Gen g;
        Any<I> a("a", &g, T::modulus - I(1u)), b("b", &g, T::modulus - I(1u));
        source = &a;
        std::vector<T> x = flat<T>(random_element<F>(g));
        source = &b;
        std::vector<T> y = flat<T>(random_element<F>(g));
        check(Bool(a.draws.size() == x.size() && b.draws.size() == y.size()), "one draw for each component");
        // different draws give different elements; there are as many draws as elements, so each is as likely
        Bool e(true), d(true);
        for (size_t i = 0; i < x.size(); i++) e = e & T::modular_type::beq(x[i].data, y[i].data);
        for (size_t i = 0; i < x.size() && i < a.draws.size() && i < b.draws.size(); i++)
            d = d & I::beq(a.draws[i], b.draws[i]);
        check(!e | d, "different draws give different elements");
        check(Bool(a.all && b.all), "a draw takes as many values as the field has");
    });
}
// a value of the range with some free bits
template<class I>
struct Window : Source {
    const void *gen;
    I last, base, value;
    std::vector<unsigned> bits;
    unsigned count = 0;
    void draw(const void *g, const void *lo, const void *hi, void *out) override {
        const I &l = *(const I *)lo, &h = *(const I *)hi;
        check(Bool(g == gen), "draws come from the generator that is passed");
        check(Bool(l == I(0u) && h == last), "a draw takes as many values as the group has elements");
        check(Bool(count++ == 0), "one draw for a point");
        value = base;
        for (unsigned k : bits)
            if (rt().replay ? rt().values["bit" + S(k)] == "1" : decide(Bool::of(rt().node("bvar bit" + S(k))))) value = value + (I(1u) << k);
        *(I *)out = value;
    }
};
template<class G>
void group(const std::string &n) {
    typedef typename G::value_type P;
    typedef typename G::curve_type::scalar_field_type F;
    typedef typename F::integral_type I;
    unsigned len = 0;
    for (I m = F::modulus; m > I(0u); m = m / I(2u)) len++;
    std::vector<std::vector<unsigned>> w = {{0, 1, 2, 3}, {len / 2, len / 2 + 1, len / 2 + 2}, {len - 4, len - 3, len - 2}};
    for (size_t i = 0; i < w.size(); i++)
        add_case("group/" + n + "/" + S(i), "mode=mix timeout=20 btimeout=5", [=] {
            Gen g;
            Window<I> s;
            s.gen = &g;
            s.last = F::modulus - I(1u);
            s.base = i == 0 ? I(0u) : F::modulus / I(3u);
            for (unsigned k : w[i]) if (mp::bit_test(s.base, k)) s.base = s.base - (I(1u) << k);
            s.bits = w[i];
            source = &s;
            P x = random_element<G>(g), y = P::zero(), t = P::one();
            for (unsigned k = 0; k < len; k++, t = t + t)
                if (mp::bit_test(s.value, k)) y = y + t;
            check(Bool(x == y), "the point is the drawn multiple of the generator");
        });
}
struct Init {
    Init() {
        field<fields::bls12_fq<381>>("bls12-381 base");
        field<fields::bls12_fr<381>>("bls12-381 scalar");
        field<curves::bls12_381::g2_type<>::field_type>("bls12-381 quadratic");
        field<curves::bls12_381::gt_type>("bls12-381 target");
        field<curves::mnt4_298::g2_type<>::field_type>("mnt4-298 quadratic");
        field<curves::mnt4_298::gt_type>("mnt4-298 target");
        field<curves::mnt6_298::g2_type<>::field_type>("mnt6-298 cubic");
        field<curves::mnt6_298::gt_type>("mnt6-298 target");
        field<curves::edwards_183::scalar_field_type>("edwards-183 scalar");
        field<curves::secp256k1::base_field_type>("secp256k1 base");
        group<curves::bls12_381::g1_type<>>("bls12-381 g1");
        group<curves::bls12_381::g2_type<>>("bls12-381 g2");
        group<curves::edwards_183::g1_type<>>("edwards-183 g1");
        group<curves::secp256k1::g1_type<>>("secp256k1");
    }
} init_;
}    // namespace
int main(int argc, char **argv) { return run_main(argc, argv); }
