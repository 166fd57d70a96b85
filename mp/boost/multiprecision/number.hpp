// Stand-in for the crypto3-multiprecision package, which this repository needs but does not contain.
// Integers and residues are either concrete (fixed-size limbs, usable in constant expressions) or symbolic
// terms of the driver.  Only the documented mathematical meaning of each operation is modelled.
#pragma once
#include "../../../harness/symrt.hpp"
#include <array>
#include <cassert>
#include <climits>
#include <cstddef>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <iostream>
#include <iterator>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/functional/hash.hpp>
#include <boost/config.hpp>

namespace boost { namespace multiprecision {

enum expression_template_option { et_off = 0, et_on = 1 };
template<class Backend>
struct expression_template_default { static const expression_template_option value = et_off; };
template<class Backend, expression_template_option ET = expression_template_default<Backend>::value>
class number;
template<class T>
struct is_number : std::false_type {};
template<class B, expression_template_option ET>
struct is_number<number<B, ET>> : std::true_type {};

namespace mpdetail {
// comparisons of symbolic residues, in order, when a harness asks for them
struct EqRecord {
    uint32_t a, b;
    bool result;
};
inline std::vector<EqRecord> *&eqlog() {
    static std::vector<EqRecord> *l = nullptr;
    return l;
}

// square roots of residues, when a harness supplies them: called with pointers to the argument and to the root
inline std::function<void(const void *, void *)> &sqrt_hook() {
    static std::function<void(const void *, void *)> f;
    return f;
}
// The digits of symbolic integers: export_bits of one writes a token, import_bits of a token gives the integer back.
// Tokens differ from one another; their length is a number of significant digits the value can have.
struct Tokens {
    bool on = false;
    std::vector<unsigned> sizes;    // significant digits to consider, in descending order
    std::map<std::vector<uint64_t>, uint32_t> table;    // little-endian digits, most significant one not zero -> term
    std::map<std::pair<uint32_t, std::size_t>, std::vector<uint64_t>> memo;
    unsigned junk = 0;
    const std::vector<uint64_t> &token(uint32_t term, std::size_t n) {
        auto &t = memo[{term, n}];
        if (t.empty()) {
            uint64_t k = memo.size();
            for (std::size_t j = 0; j < n; j++) t.push_back(j + 1 == n ? (k % 2 ? 0x17 : 0x19) : j ? 1 + (k * 37 + j * 11) % 255 : k);
            if (n == 1) t[0] = k;
            table[t] = term;
        }
        return t;
    }
};
inline Tokens &tokens() {
    static Tokens t;
    return t;
}

// little-endian unsigned integer of K 32-bit limbs
template<std::size_t K>
struct big {
    uint32_t w[K] = {};
    constexpr bool zero() const {
        for (std::size_t i = 0; i < K; i++)
            if (w[i]) return false;
        return true;
    }
    constexpr bool bit(std::size_t i) const { return i / 32 < K && ((w[i / 32] >> (i % 32)) & 1); }
    constexpr std::size_t len() const {    // number of significant bits
        for (std::size_t i = K; i-- > 0;)
            if (w[i]) {
                std::size_t n = 0;
                for (uint32_t x = w[i]; x; x >>= 1) n++;
                return i * 32 + n;
            }
        return 0;
    }
};
template<std::size_t A, std::size_t B>
constexpr big<A> resize(const big<B> &x) {
    big<A> r;
    for (std::size_t i = 0; i < A && i < B; i++) r.w[i] = x.w[i];
    return r;
}
template<std::size_t A, std::size_t B>
constexpr int cmp(const big<A> &x, const big<B> &y) {
    for (std::size_t i = (A > B ? A : B); i-- > 0;) {
        uint32_t a = i < A ? x.w[i] : 0, b = i < B ? y.w[i] : 0;
        if (a != b) return a < b ? -1 : 1;
    }
    return 0;
}
template<std::size_t K>
constexpr big<K> add(const big<K> &x, const big<K> &y) {
    big<K> r;
    uint64_t c = 0;
    for (std::size_t i = 0; i < K; i++) {
        c += (uint64_t)x.w[i] + y.w[i];
        r.w[i] = (uint32_t)c;
        c >>= 32;
    }
    return r;
}
template<std::size_t K>
constexpr big<K> sub(const big<K> &x, const big<K> &y) {
    big<K> r;
    uint64_t c = 0;
    for (std::size_t i = 0; i < K; i++) {
        uint64_t t = (uint64_t)x.w[i] - y.w[i] - c;
        r.w[i] = (uint32_t)t;
        c = (t >> 32) & 1;
    }
    return r;
}
template<std::size_t R, std::size_t A, std::size_t B>
constexpr big<R> mul(const big<A> &x, const big<B> &y) {
    big<R> r;
    for (std::size_t i = 0; i < A && i < R; i++) {
        if (!x.w[i]) continue;
        uint64_t c = 0;
        for (std::size_t j = 0; i + j < R; j++) {
            c += (uint64_t)r.w[i + j] + (j < B ? (uint64_t)x.w[i] * y.w[j] : 0);
            r.w[i + j] = (uint32_t)c;
            c >>= 32;
            if (j >= B && !c) break;
        }
    }
    return r;
}
template<std::size_t K>
constexpr big<K> shl(const big<K> &x, std::size_t n) {
    big<K> r;
    std::size_t q = n / 32, s = n % 32;
    for (std::size_t i = K; i-- > q;) {
        uint64_t v = (uint64_t)x.w[i - q] << s;
        if (s && i > q) v |= x.w[i - q - 1] >> (32 - s);
        r.w[i] = (uint32_t)v;
    }
    return r;
}
template<std::size_t K>
constexpr big<K> shr(const big<K> &x, std::size_t n) {
    big<K> r;
    std::size_t q = n / 32, s = n % 32;
    for (std::size_t i = 0; i + q < K; i++) {
        uint64_t v = x.w[i + q] >> s;
        if (s && i + q + 1 < K) v |= (uint64_t)x.w[i + q + 1] << (32 - s);
        r.w[i] = (uint32_t)v;
    }
    return r;
}
// quotient and remainder (Knuth, algorithm D)
template<std::size_t A, std::size_t B>
constexpr void divmod(const big<A> &x, const big<B> &m, big<A> &q, big<B> &r) {
    q = big<A>();
    std::size_t ml = (m.len() + 31) / 32, xl = (x.len() + 31) / 32;
    if (ml == 0) throw std::overflow_error("division by zero");
    if (cmp(x, m) < 0) {
        r = resize<B>(x);
        return;
    }
    if (ml == 1) {
        uint64_t c = 0;
        for (std::size_t i = A; i-- > 0;) {
            c = (c << 32) | x.w[i];
            q.w[i] = (uint32_t)(c / m.w[0]);
            c %= m.w[0];
        }
        r = big<B>();
        r.w[0] = (uint32_t)c;
        return;
    }
    std::size_t s = ml * 32 - m.len();
    big<A + 1> u = shl(resize<A + 1>(x), s);
    big<B> v = shl(m, s);
    for (std::size_t j = xl - ml + 1; j-- > 0;) {
        uint64_t num = ((uint64_t)u.w[j + ml] << 32) | u.w[j + ml - 1];
        uint64_t qh = num / v.w[ml - 1], rh = num % v.w[ml - 1];
        while (qh >> 32 || qh * v.w[ml - 2] > ((rh << 32) | u.w[j + ml - 2])) {
            qh--;
            rh += v.w[ml - 1];
            if (rh >> 32) break;
        }
        int64_t borrow = 0;
        uint64_t carry = 0;
        for (std::size_t i = 0; i < ml; i++) {
            carry += qh * v.w[i];
            int64_t t = (int64_t)u.w[i + j] - (int64_t)(uint32_t)carry + borrow;
            u.w[i + j] = (uint32_t)t;
            borrow = t >> 32;
            carry >>= 32;
        }
        int64_t t = (int64_t)u.w[j + ml] - (int64_t)carry + borrow;
        u.w[j + ml] = (uint32_t)t;
        if (t < 0) {
            qh--;
            uint64_t c = 0;
            for (std::size_t i = 0; i < ml; i++) {
                c += (uint64_t)u.w[i + j] + v.w[i];
                u.w[i + j] = (uint32_t)c;
                c >>= 32;
            }
            u.w[j + ml] += (uint32_t)c;
        }
        q.w[j] = (uint32_t)qh;
    }
    r = resize<B>(shr(u, s));
}
template<std::size_t B, std::size_t A>
constexpr big<B> modred(const big<A> &x, const big<B> &m) {
    big<A> q;
    big<B> r;
    divmod(x, m, q, r);
    return r;
}
template<std::size_t K>
constexpr big<K> mulmod(const big<K> &a, const big<K> &b, const big<K> &m) {
    return modred<K>(mul<2 * K>(a, b), m);
}
template<std::size_t K>
std::string hex(const big<K> &x) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (std::size_t i = K * 8; i-- > 0;) {
        uint32_t v = (x.w[i / 8] >> (4 * (i % 8))) & 15;
        if (s.empty() && !v && i) continue;
        s += d[v];
    }
    return "0x" + s;
}
template<std::size_t K>
constexpr big<K> parse(const char *s) {
    big<K> r;
    if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
        for (s += 2; *s; s++) {
            char c = *s;
            if (c == '\'') continue;
            uint32_t v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10;
            r = shl(r, 4);
            r.w[0] |= v;
        }
    } else {
        for (; *s; s++) {
            if (*s == '\'') continue;
            uint64_t c = (uint64_t)(*s - '0');
            for (std::size_t i = 0; i < K; i++) {
                c += (uint64_t)r.w[i] * 10;
                r.w[i] = (uint32_t)c;
                c >>= 32;
            }
        }
    }
    return r;
}
template<std::size_t K, class I>
constexpr big<K> fromint(I v) {
    big<K> r;
    unsigned __int128 u = (unsigned __int128)v;
    for (std::size_t i = 0; i < K && i < 4; i++) {
        r.w[i] = (uint32_t)u;
        u >>= 32;
    }
    if (v < I(0))
        for (std::size_t i = 4; i < K; i++) r.w[i] = 0xffffffffu;
    return r;
}
constexpr std::size_t limbs(std::size_t bits) { return (bits + 31) / 32; }
template<std::size_t K>
constexpr big<K> trunc(big<K> x, std::size_t bits) {
    for (std::size_t i = 0; i < K; i++) {
        if (i * 32 >= bits) x.w[i] = 0;
        else if (bits - i * 32 < 32) x.w[i] &= (1u << (bits - i * 32)) - 1;
    }
    return x;
}
}    // namespace mpdetail

// ------------------------------------------------------------------ unsigned integers of fixed width
namespace backends {
template<unsigned Bits, int = 0>
struct cpp_int_modular_backend {
    static constexpr std::size_t K = mpdetail::limbs(Bits);
    static constexpr unsigned bits = Bits;
    mpdetail::big<K> v;
    uint32_t id = 0;    // symbolic bit-vector term of width Bits
    constexpr cpp_int_modular_backend() = default;
    constexpr cpp_int_modular_backend(const mpdetail::big<K> &x) : v(x) {}
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    constexpr cpp_int_modular_backend(I x) : v(mpdetail::trunc(mpdetail::fromint<K>(x), Bits)) {}
    template<unsigned B2>
    constexpr cpp_int_modular_backend(const cpp_int_modular_backend<B2> &o);
    uint32_t term() const {
        if (id) return id;
        return symrt::rt().node("ic " + std::to_string(Bits) + " " + mpdetail::hex(v));
    }
};
template<unsigned Bits, int X>
template<unsigned B2>
constexpr cpp_int_modular_backend<Bits, X>::cpp_int_modular_backend(const cpp_int_modular_backend<B2> &o)
    : v(mpdetail::trunc(mpdetail::resize<K>(o.v), Bits)) {
    if (o.id) id = symrt::rt().node("icast " + std::to_string(Bits) + " " + symrt::S(o.id));
}

template<class Backend>
struct modular_params {
    Backend mod;
    constexpr modular_params() = default;
    constexpr modular_params(const Backend &m) : mod(m) {}
    template<class N, typename = decltype(std::declval<N>().backend())>
    constexpr modular_params(const N &m) : mod(m.backend()) {}
    constexpr const Backend &get_mod() const { return mod; }
};
template<class Backend, const modular_params<Backend> &P>
struct modular_params_ct {
    static constexpr const modular_params<Backend> &params = P;
};
// residues
template<class Backend, class StorageType>
struct modular_adaptor {
    using B = Backend;
    static constexpr std::size_t K = Backend::K;
    mpdetail::big<K> v;
    uint32_t id = 0;    // symbolic residue
    static constexpr const mpdetail::big<K> &m() { return StorageType::params.mod.v; }
    static std::string ms() {
        static const std::string s = mpdetail::hex(m());
        return s;
    }
    constexpr modular_adaptor() = default;
    constexpr modular_adaptor(const mpdetail::big<K> &x) : v(x) {}
    template<unsigned B2>
    constexpr modular_adaptor(const cpp_int_modular_backend<B2> &x, const modular_params<Backend> &)
        : v(mpdetail::modred<K>(x.v, m())) {
        if (x.id) id = symrt::rt().node("ffromi " + ms() + " " + symrt::S(x.id));
    }
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    constexpr modular_adaptor(I x, const modular_params<Backend> &) : v(of(x)) {}
    template<class B2, class S2>
    constexpr modular_adaptor(const modular_adaptor<B2, S2> &x, const modular_params<Backend> &)
        : v(mpdetail::modred<K>(x.v, m())) {
        if (x.id) {
            if constexpr (std::is_same_v<modular_adaptor<B2, S2>, modular_adaptor>) id = x.id;
            else symrt::fatal("conversion between symbolic residues of different moduli");
        }
    }
    template<typename I>
    static constexpr mpdetail::big<K> of(I x) {
        if (x < I(0)) {
            unsigned __int128 u = (unsigned __int128)0 - (unsigned __int128)x;
            auto r = mpdetail::modred<K>(mpdetail::fromint<4>(u), m());
            return r.zero() ? r : mpdetail::sub(m(), r);
        }
        return mpdetail::modred<K>(mpdetail::fromint<4>((unsigned __int128)x), m());
    }
    uint32_t term() const {
        if (id) return id;
        return symrt::rt().node("fc " + ms() + " " + mpdetail::hex(v));
    }
    static modular_adaptor sym(uint32_t id) {
        modular_adaptor r;
        r.id = id;
        return r;
    }
};
}    // namespace backends

template<unsigned Bits, expression_template_option ET>
class number<backends::cpp_int_modular_backend<Bits>, ET> {
public:
    using backend_type = backends::cpp_int_modular_backend<Bits>;
    using self_type = number;
    using value_type = number;
private:
    backend_type b;
    static constexpr std::size_t K = backend_type::K;
    static number node2(const char *op, const number &x, const number &y) {
        number r;
        r.b.id = symrt::rt().node(std::string(op) + " " + std::to_string(Bits) + " " + symrt::S(x.b.term()) + " " +
                                  symrt::S(y.b.term()));
        return r;
    }
    static number raw(const mpdetail::big<K> &v) {
        number r;
        r.b.v = mpdetail::trunc(v, Bits);
        return r;
    }
    static constexpr number mk(const mpdetail::big<K> &v) {
        number r;
        r.b.v = mpdetail::trunc(v, Bits);
        return r;
    }
public:
    constexpr number() = default;
    constexpr number(const backend_type &x) : b(x) {}
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    constexpr number(I x) : b(x) {}
    template<unsigned B2, expression_template_option E2>
    constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : b(o.backend()) {}
    template<class BB, class S2, expression_template_option E2>
    explicit constexpr number(const number<backends::modular_adaptor<BB, S2>, E2> &o)
        : b(o.template convert_to<number>().backend()) {}
    explicit number(const char *s) : b(mpdetail::parse<K>(s)) {}
    constexpr const backend_type &backend() const { return b; }
    constexpr backend_type &backend() { return b; }
    constexpr bool sym() const { return b.id != 0; }

    friend constexpr number operator+(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("iadd", x, y);
        return mk(mpdetail::add(x.b.v, y.b.v));
    }
    friend constexpr number operator-(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("isub", x, y);
        return mk(mpdetail::sub(x.b.v, y.b.v));
    }
    friend constexpr number operator*(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("imul", x, y);
        return mk(mpdetail::mul<K>(x.b.v, y.b.v));
    }
    friend constexpr number operator/(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("idiv", x, y);
        mpdetail::big<K> q, r;
        mpdetail::divmod(x.b.v, y.b.v, q, r);
        return mk(q);
    }
    friend constexpr number operator%(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("imod", x, y);
        mpdetail::big<K> q, r;
        mpdetail::divmod(x.b.v, y.b.v, q, r);
        return mk(r);
    }
    friend constexpr number operator&(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("iand", x, y);
        number r;
        for (std::size_t i = 0; i < K; i++) r.b.v.w[i] = x.b.v.w[i] & y.b.v.w[i];
        return r;
    }
    friend constexpr number operator|(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("ior", x, y);
        number r;
        for (std::size_t i = 0; i < K; i++) r.b.v.w[i] = x.b.v.w[i] | y.b.v.w[i];
        return r;
    }
    friend constexpr number operator^(const number &x, const number &y) {
        if (x.b.id || y.b.id) return node2("ixor", x, y);
        number r;
        for (std::size_t i = 0; i < K; i++) r.b.v.w[i] = x.b.v.w[i] ^ y.b.v.w[i];
        return r;
    }
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    friend constexpr number operator<<(const number &x, I n) {
        if (x.b.id) {
            number r;
            r.b.id = symrt::rt().node("ishl " + std::to_string(Bits) + " " + symrt::S(x.b.id) + " " + std::to_string(n));
            return r;
        }
        return mk(mpdetail::shl(x.b.v, (std::size_t)n));
    }
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    friend constexpr number operator>>(const number &x, I n) {
        if (x.b.id) {
            number r;
            r.b.id = symrt::rt().node("ishr " + std::to_string(Bits) + " " + symrt::S(x.b.id) + " " + std::to_string(n));
            return r;
        }
        return mk(mpdetail::shr(x.b.v, (std::size_t)n));
    }
    constexpr number &operator+=(const number &y) { return *this = *this + y; }
    constexpr number &operator-=(const number &y) { return *this = *this - y; }
    constexpr number &operator*=(const number &y) { return *this = *this * y; }
    constexpr number &operator/=(const number &y) { return *this = *this / y; }
    constexpr number &operator%=(const number &y) { return *this = *this % y; }
    constexpr number &operator&=(const number &y) { return *this = *this & y; }
    constexpr number &operator|=(const number &y) { return *this = *this | y; }
    template<typename I>
    constexpr number &operator<<=(I n) { return *this = *this << n; }
    template<typename I>
    constexpr number &operator>>=(I n) { return *this = *this >> n; }
    constexpr number &operator++() { return *this += number(1u); }
    constexpr number &operator--() { return *this -= number(1u); }
    static symrt::Bool beq(const number &x, const number &y) {
        if (!x.b.id && !y.b.id) return symrt::Bool(mpdetail::cmp(x.b.v, y.b.v) == 0);
        return symrt::Bool::of(node2("ieq", x, y).b.id);
    }
    static symrt::Bool blt(const number &x, const number &y) {
        if (!x.b.id && !y.b.id) return symrt::Bool(mpdetail::cmp(x.b.v, y.b.v) < 0);
        return symrt::Bool::of(node2("ilt", x, y).b.id);
    }
    friend constexpr bool operator==(const number &x, const number &y) {
        if (x.b.id || y.b.id) return symrt::decide(beq(x, y));
        return mpdetail::cmp(x.b.v, y.b.v) == 0;
    }
    friend constexpr bool operator<(const number &x, const number &y) {
        if (x.b.id || y.b.id) return symrt::decide(blt(x, y));
        return mpdetail::cmp(x.b.v, y.b.v) < 0;
    }
    friend constexpr bool operator!=(const number &x, const number &y) { return !(x == y); }
    friend constexpr bool operator>(const number &x, const number &y) { return y < x; }
    friend constexpr bool operator<=(const number &x, const number &y) { return !(y < x); }
    friend constexpr bool operator>=(const number &x, const number &y) { return !(x < y); }
    constexpr bool is_zero() const { return *this == number(0u); }
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    explicit constexpr operator I() const {
        if (b.id) symrt::fatal("conversion of a symbolic integer to a machine integer");
        uint64_t r = b.v.w[0];
        if constexpr (K > 1) r |= (uint64_t)b.v.w[1] << 32;
        return (I)r;
    }
    template<class T>
    constexpr T convert_to() const { return static_cast<T>(*this); }
    friend std::ostream &operator<<(std::ostream &os, const number &x) {
        return x.b.id ? os << "t" << x.b.id : os << mpdetail::hex(x.b.v);
    }
};

template<class Backend, class StorageType, expression_template_option ET>
class number<backends::modular_adaptor<Backend, StorageType>, ET> {
public:
    using backend_type = backends::modular_adaptor<Backend, StorageType>;
    using self_type = number;
    using value_type = number;
private:
    backend_type b;
    static constexpr std::size_t K = backend_type::K;
    static number node2(const char *op, const number &x, const number &y) {
        return number(backend_type::sym(symrt::rt().node(std::string(op) + " " + backend_type::ms() + " " +
                                                         symrt::S(x.b.term()) + " " + symrt::S(y.b.term()))));
    }
    constexpr bool k(unsigned c) const {
        if (b.id) return false;
        for (std::size_t i = 1; i < K; i++)
            if (b.v.w[i]) return false;
        return b.v.w[0] == c;
    }
public:
    constexpr number() = default;
    constexpr number(const backend_type &x) : b(x) {}
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    constexpr number(I x) : b(backend_type::of(x)) {}
    template<typename I>
    constexpr number(const I &x, const backends::modular_params<Backend> &p) : b(conv(x, p)) {}
    template<typename I>
    static constexpr backend_type conv(const I &x, const backends::modular_params<Backend> &p) {
        if constexpr (std::is_integral_v<I>) return backend_type(x, p);
        else return backend_type(x.backend(), p);
    }
    template<unsigned B2, expression_template_option E2>
    constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o)
        : b(o.backend(), StorageType::params) {}
    constexpr const backend_type &backend() const { return b; }
    constexpr backend_type &backend() { return b; }
    constexpr bool sym() const { return b.id != 0; }

    friend constexpr number operator+(const number &x, const number &y) {
        if (x.b.id || y.b.id) {
            if (x.k(0)) return y;
            if (y.k(0)) return x;
            return node2("fadd", x, y);
        }
        auto s = mpdetail::add(mpdetail::resize<K + 1>(x.b.v), mpdetail::resize<K + 1>(y.b.v));
        auto m = mpdetail::resize<K + 1>(backend_type::m());
        if (mpdetail::cmp(s, m) >= 0) s = mpdetail::sub(s, m);
        return number(backend_type(mpdetail::resize<K>(s)));
    }
    friend constexpr number operator-(const number &x, const number &y) {
        if (x.b.id || y.b.id) {
            if (y.k(0)) return x;
            return node2("fsub", x, y);
        }
        if (mpdetail::cmp(x.b.v, y.b.v) >= 0) return number(backend_type(mpdetail::sub(x.b.v, y.b.v)));
        return number(backend_type(mpdetail::sub(backend_type::m(), mpdetail::sub(y.b.v, x.b.v))));
    }
    friend constexpr number operator*(const number &x, const number &y) {
        if (x.b.id || y.b.id) {
            if (x.k(0) || y.k(0)) return number(0u);
            if (x.k(1)) return y;
            if (y.k(1)) return x;
            return node2("fmul", x, y);
        }
        return number(backend_type(mpdetail::mulmod(x.b.v, y.b.v, backend_type::m())));
    }
    constexpr number operator-() const { return number(0u) - *this; }
    constexpr number &operator+=(const number &y) { return *this = *this + y; }
    constexpr number &operator-=(const number &y) { return *this = *this - y; }
    constexpr number &operator*=(const number &y) { return *this = *this * y; }
    static symrt::Bool beq(const number &x, const number &y, bool query = false) {
        if (!x.b.id && !y.b.id) return symrt::Bool(mpdetail::cmp(x.b.v, y.b.v) == 0);
        if (!query && x.b.id == y.b.id) return symrt::Bool(true);
        return symrt::Bool::of(node2("feq", x, y).b.id);
    }
    static symrt::Bool blt(const number &x, const number &y) {
        if (!x.b.id && !y.b.id) return symrt::Bool(mpdetail::cmp(x.b.v, y.b.v) < 0);
        return symrt::Bool::of(node2("flt", x, y).b.id);
    }
    friend constexpr bool operator==(const number &x, const number &y) {
        if (x.b.id || y.b.id) {
            bool r = symrt::decide(beq(x, y));
            if (mpdetail::eqlog()) mpdetail::eqlog()->push_back({x.b.term(), y.b.term(), r});
            return r;
        }
        return mpdetail::cmp(x.b.v, y.b.v) == 0;
    }
    friend constexpr bool operator<(const number &x, const number &y) {
        if (x.b.id || y.b.id) return symrt::decide(blt(x, y));
        return mpdetail::cmp(x.b.v, y.b.v) < 0;
    }
    friend constexpr bool operator!=(const number &x, const number &y) { return !(x == y); }
    friend constexpr bool operator>(const number &x, const number &y) { return y < x; }
    friend constexpr bool operator<=(const number &x, const number &y) { return !(y < x); }
    friend constexpr bool operator>=(const number &x, const number &y) { return !(x < y); }
    constexpr bool is_zero() const { return *this == number(0u); }
    // the canonical representative
    template<class T>
    constexpr T convert_to() const {
        if constexpr (std::is_integral_v<T>) {
            if (b.id) symrt::fatal("conversion of a symbolic residue to a machine integer");
            return (T)number<Backend>(Backend(b.v));
        } else {
            number<Backend> r{Backend(b.v)};
            if (b.id)
                r.backend().id = symrt::rt().node("ifromf " + std::to_string(Backend::bits) + " " + symrt::S(b.id) + " " + backend_type::ms());
            return T(r);
        }
    }
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    explicit constexpr operator I() const { return convert_to<I>(); }
    friend std::ostream &operator<<(std::ostream &os, const number &x) {
        return x.b.id ? os << "t" << x.b.id : os << mpdetail::hex(x.b.v);
    }
};

using uint128_t = number<backends::cpp_int_modular_backend<128>>;

// ------------------------------------------------------------------ functions
template<unsigned Bits, expression_template_option ET>
constexpr bool bit_test(const number<backends::cpp_int_modular_backend<Bits>, ET> &x, std::size_t i) {
    if (i >= Bits) return false;
    if (x.backend().id)
        return symrt::decide(symrt::Bool::of(symrt::rt().node("ibit " + std::to_string(Bits) + " " +
                                                              symrt::S(x.backend().id) + " " + std::to_string(i))));
    return x.backend().v.bit(i);
}
template<unsigned Bits, expression_template_option ET>
constexpr std::size_t msb(const number<backends::cpp_int_modular_backend<Bits>, ET> &x) {
    if (x.backend().id) {
        for (std::size_t i = Bits; i-- > 0;)
            if (bit_test(x, i)) return i;
    } else if (!x.backend().v.zero())
        return x.backend().v.len() - 1;
    throw std::domain_error("No bits were set in the operand.");
}
template<class B, class S, expression_template_option ET>
constexpr bool bit_test(const number<backends::modular_adaptor<B, S>, ET> &x, std::size_t i) {
    return bit_test(x.template convert_to<number<B>>(), i);
}
template<class B, class S, expression_template_option ET>
constexpr std::size_t msb(const number<backends::modular_adaptor<B, S>, ET> &x) {
    return msb(x.template convert_to<number<B>>());
}
template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
constexpr bool bit_test(I x, std::size_t i) { return i < sizeof(I) * 8 && ((x >> i) & 1); }
template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
constexpr std::size_t msb(I x) {
    if (!x) throw std::domain_error("No bits were set in the operand.");
    std::size_t n = 0;
    while (x >>= 1) n++;
    return n;
}

// x^e; the exponent's bits decide the sequence of multiplications
template<class B, class S, expression_template_option ET, class E>
constexpr number<backends::modular_adaptor<B, S>, ET> powm(const number<backends::modular_adaptor<B, S>, ET> &x,
                                                          const E &e) {
    number<backends::modular_adaptor<B, S>, ET> r(1u);
    if (e == E(0u)) return r;
    for (std::size_t i = msb(e) + 1; i-- > 0;) {
        r = r * r;
        if (bit_test(e, i)) r = r * x;
    }
    return r;
}
// multiplicative inverse; the inverse of zero does not exist
inline bool &assume_invertible() {
    static bool b = false;
    return b;
}
// the code under test uses the convention that the inverse of zero is zero
inline bool &inverse_of_zero_is_zero() {
    static bool b = false;
    return b;
}
template<class B, class S, expression_template_option ET>
constexpr number<backends::modular_adaptor<B, S>, ET> inverse_mod(const number<backends::modular_adaptor<B, S>, ET> &x) {
    using N = number<backends::modular_adaptor<B, S>, ET>;
    using M = backends::modular_adaptor<B, S>;
    if (!__builtin_is_constant_evaluated() && inverse_of_zero_is_zero() && x == N(0u)) return N(0u);
    if (x.backend().id) {
        if (assume_invertible()) symrt::assume(!N::beq(x, N(0u)));
        else symrt::check(!N::beq(x, N(0u)), "a zero field element is inverted");
        return N(M::sym(symrt::rt().node("finv " + M::ms() + " " + symrt::S(x.backend().id))));
    }
    if (x.backend().v.zero()) {
        if (assume_invertible()) symrt::assume(symrt::Bool(false));
        if (symrt::rt().replay) {
            symrt::check(symrt::Bool(false), "a zero field element is inverted");
            std::printf("REPLAY-VIOLATION\n");
            std::fflush(stdout);
            _exit(1);
        }
        symrt::check(symrt::Bool(false), "a zero field element is inverted");
        return x;
    }
    number<B> e(B(mpdetail::sub(M::m(), mpdetail::fromint<M::K>(2))));
    return powm(x, e);
}
// a square root of a quadratic residue, zero for a non-residue (as the callers assume)
template<class B, class S, expression_template_option ET>
constexpr number<backends::modular_adaptor<B, S>, ET> ressol(const number<backends::modular_adaptor<B, S>, ET> &x) {
    using N = number<backends::modular_adaptor<B, S>, ET>;
    using M = backends::modular_adaptor<B, S>;
    if (!__builtin_is_constant_evaluated() && mpdetail::sqrt_hook()) {
        N r;
        mpdetail::sqrt_hook()(&x, &r);
        return r;
    }
    if (x.backend().id) {
        uint32_t r = symrt::rt().node("fsqrt " + M::ms() + " " + symrt::S(x.backend().id));
        return N(M::sym(r));
    }
    number<B> p{B(M::m())}, h = (p - number<B>(1u)) >> 1;
    if (x.is_zero()) return x;
    if (!(powm(x, h) == N(1u))) return N(0u);
    // Tonelli-Shanks
    number<B> q = p - number<B>(1u);
    std::size_t s = 0;
    while (!bit_test(q, 0)) {
        q = q >> 1;
        s++;
    }
    N z(2u);
    while (powm(z, h) == N(1u)) z = z + N(1u);
    N c = powm(z, q), r = powm(x, (q + number<B>(1u)) >> 1), t = powm(x, q);
    std::size_t m = s;
    while (!(t == N(1u))) {
        std::size_t i = 0;
        N u = t;
        while (!(u == N(1u))) {
            u = u * u;
            i++;
        }
        N b = c;
        for (std::size_t j = 0; j + i + 1 < m; j++) b = b * b;
        r = r * b;
        c = b * b;
        t = t * c;
        m = i;
    }
    return r;
}
template<unsigned Bits, expression_template_option ET>
number<backends::cpp_int_modular_backend<Bits>, ET> gcd(number<backends::cpp_int_modular_backend<Bits>, ET> a,
                                                       number<backends::cpp_int_modular_backend<Bits>, ET> b) {
    while (!b.is_zero()) {
        auto t = a % b;
        a = b;
        b = t;
    }
    return a;
}
// big-endian (msv_first) or little-endian chunks of `chunk` bits, all significant chunks, at least one
template<unsigned Bits, expression_template_option ET, class Out>
Out export_bits(const number<backends::cpp_int_modular_backend<Bits>, ET> &x, Out out, unsigned chunk,
                bool msv_first = true) {
    if (x.backend().id && mpdetail::tokens().on) {
        using N = number<backends::cpp_int_modular_backend<Bits>, ET>;
        auto &tk = mpdetail::tokens();
        std::size_t n = 0;
        if (chunk != 8) symrt::fatal("symbolic digits of other than 8 bits");
        for (unsigned s : tk.sizes) {
            if (s * 8 > Bits + 7) continue;
            // at least s significant digits; the last size considered is assumed
            auto less = s ? N::blt(x, N(1u) << (8 * (s - 1))) : symrt::Bool(false);
            if (s == tk.sizes.back()) symrt::assume(!less);
            else if (symrt::decide(less)) continue;
            n = s;
            break;
        }
        symrt::assume(8 * n >= Bits ? symrt::Bool(true) : N::blt(x, N(1u) << (8 * n)));
        std::vector<uint64_t> d(1, 0);
        if (n) d = tk.token(x.backend().id, n);
        for (std::size_t i = 0; i < d.size(); i++) *out++ = d[msv_first ? d.size() - 1 - i : i];
        return out;
    }
    std::size_t n = x.is_zero() ? 1 : (msb(x) / chunk + 1);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t j = msv_first ? n - 1 - i : i;
        uint64_t v = 0;
        for (unsigned b = 0; b < chunk; b++)
            if (bit_test(x, j * chunk + b)) v |= (uint64_t)1 << b;
        *out++ = v;
    }
    return out;
}
template<unsigned Bits, expression_template_option ET, class It>
number<backends::cpp_int_modular_backend<Bits>, ET> &import_bits(number<backends::cpp_int_modular_backend<Bits>, ET> &x,
                                                               It i, It j, unsigned chunk = 0, bool msv_first = true) {
    using N = number<backends::cpp_int_modular_backend<Bits>, ET>;
    if (!chunk) chunk = CHAR_BIT * sizeof(typename std::iterator_traits<It>::value_type);
    std::vector<uint64_t> c;
    for (; i != j; ++i) c.push_back((uint64_t)*i & (chunk == 64 ? ~(uint64_t)0 : (((uint64_t)1 << chunk) - 1)));
    if (mpdetail::tokens().on) {
        if (chunk != 8) symrt::fatal("symbolic digits of other than 8 bits");
        auto d = c;
        if (msv_first) std::reverse(d.begin(), d.end());
        while (!d.empty() && !d.back()) d.pop_back();
        auto &tk = mpdetail::tokens();
        if (!d.empty() && !tk.table.empty()) {
            auto it = tk.table.find(d);
            // digits that are no token are those of some integer nothing is known about
            uint32_t t = it != tk.table.end() ? it->second : symrt::rt().node("ivar " + std::to_string(Bits) + " junk" + std::to_string(tk.junk++));
            N r(0u);
            r.backend().id = t;
            return x = r;
        }
    }
    N r(0u);
    for (std::size_t k = 0; k < c.size(); k++) r = (r << chunk) | N(msv_first ? c[k] : c[c.size() - 1 - k]);
    return x = r;
}

template<class B, class S, expression_template_option ET>
std::size_t hash_value(const number<backends::modular_adaptor<B, S>, ET> &x) {
    std::size_t h = x.backend().id;
    for (auto w : x.backend().v.w) boost::hash_combine(h, w);
    return h;
}
}}    // namespace boost::multiprecision

template<class B, boost::multiprecision::expression_template_option E>
struct std::hash<boost::multiprecision::number<B, E>> {
    std::size_t operator()(const boost::multiprecision::number<B, E> &x) const {
        std::size_t h = x.backend().id;
        for (auto w : x.backend().v.w) boost::hash_combine(h, w);
        return h;
    }
};
#include "literals.hpp"
