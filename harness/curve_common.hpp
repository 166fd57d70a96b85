// Common set-up for the curve_element harnesses: mock curve parameters over the symbolic field Sf.
#pragma once
#include "symfield.hpp"
#include <boost/multiprecision/number.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/forms.hpp>

using namespace symrt;
namespace cv = nil::crypto3::algebra::curves;
namespace cd = nil::crypto3::algebra::curves::detail;

struct Fld {
    using value_type = Sf;
    struct integral_type {};
    static constexpr std::size_t value_bits = 64;
};
struct Curve;
template<class P>
struct Grp {
    using curve_type = Curve;
    using params_type = P;
    using field_type = Fld;
};
// run `f` under generic-field and small-prime interpretations
inline std::vector<uint64_t> quick_primes(std::vector<uint64_t> q, std::vector<uint64_t> t) {
#ifdef THOROUGH
    q.insert(q.end(), t.begin(), t.end());
#endif
    return q;
}
template<class F>
void both(const std::string &name, const std::vector<uint64_t> &primes, const std::string &gopts,
          const std::string &bopts, F f) {
    add_case(name + "/generic", "mode=real timeout=60 btimeout=10 " + gopts, [=] {
        field_mode() = 0;
        f(false);
    });
    for (uint64_t p : primes)
        add_case(name + "/F" + std::to_string(p), "mode=bv timeout=200 btimeout=60 " + bopts, [=] {
            field_mode() = p;
            f(true);
        });
}
inline Sf nz(const std::string &n) {
    Sf v = fvar(n);
    assume(!Sf::feq(v, Sf(0)));
    return v;
}
inline void same(const Sf &a, const Sf &b, const std::string &l) { check(Sf::feqq(a, b), l); }
// for primes: symbolic quadratic-residuosity through a square-root variable / Euler's criterion
inline Bool is_square_small(const Sf &v) {
    uint64_t p = field_mode();
    Bool r(false);
    for (uint64_t x = 0; x <= p / 2; x++) r = r | Sf::feq(v, Sf::cst(x * x % p));
    return r;
}
