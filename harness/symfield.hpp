// Sf: a symbolic element of a field, usable as field_type::value_type of the curve templates.
// Two interpretations, chosen per case with field_mode():
//   0  generic field: rational functions over the integers (driver mode=real); a native replay computes in
//      F_p with p = 2^61-1, into which every identity and every rational model maps
//   p  the prime field F_p (driver mode=bv): bit-precise, every element, every special case
#pragma once
#include "symscalar.hpp"
#include <cassert>

namespace symrt {

inline uint64_t &field_mode() {
    static uint64_t p = 0;
    return p;
}
inline uint64_t field_p() {
    if (field_mode()) return field_mode();
    return rt().replay ? (((uint64_t)1 << 61) - 1) : 0;
}
struct Sf {
    Sc s;

    constexpr Sf() = default;
    template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    constexpr Sf(I v) : s(v) {}
    constexpr Sf(const Sc &v) : s(v) {}

    static uint64_t mulm(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)((unsigned __int128)a * b % p); }
    static uint64_t powm(uint64_t a, uint64_t e, uint64_t p) {
        uint64_t r = 1 % p;
        for (; e; e >>= 1, a = mulm(a, a, p))
            if (e & 1) r = mulm(r, a, p);
        return r;
    }
    // constant -> residue
    static uint64_t red(__int128 v, uint64_t p) {
        __int128 m = v % (__int128)p;
        return (uint64_t)(m < 0 ? m + (__int128)p : m);
    }
    uint64_t val(uint64_t p) const {
        uint64_t n = red(s.n, p);
        if (s.d != 1) n = mulm(n, powm(red(s.d, p), p - 2, p), p);
        return n;
    }
    static std::string P(uint64_t p) { return std::to_string(p); }
    uint32_t fterm(uint64_t p) const { return s.id ? s.id : rt().node("fc " + P(p) + " " + std::to_string(val(p))); }
    static Sf cst(uint64_t v) {
        Sf r;
        r.s.n = v;
        return r;
    }
    static Sf bin(char op, const Sf &a, const Sf &b) {
        uint64_t p = field_p();
        if (!p) {
            Sf r;
            switch (op) {
                case '+': r.s = a.s + b.s; break;
                case '-': r.s = a.s - b.s; break;
                default: r.s = a.s * b.s;
            }
            return r;
        }
        if (!a.s.id && !b.s.id) {
            uint64_t x = a.val(p), y = b.val(p);
            if (op == '*') return cst(mulm(x, y, p));
            return cst((uint64_t)(((unsigned __int128)x + (op == '+' ? y : p - y)) % p));
        }
        auto k = [&](const Sf &u, uint64_t v) { return !u.s.id && u.val(p) == v; };
        if (op == '+' && k(a, 0)) return b;
        if (op != '*' && k(b, 0)) return a;
        if (op == '*' && (k(a, 0) || k(b, 0))) return cst(0);
        if (op == '*' && k(a, 1)) return b;
        if (op == '*' && k(b, 1)) return a;
        Sf r;
        r.s.id = rt().node(std::string(op == '+' ? "fadd " : op == '-' ? "fsub " : "fmul ") + P(p) + " " +
                           S(a.fterm(p)) + " " + S(b.fterm(p)));
        return r;
    }
    friend Sf operator+(const Sf &a, const Sf &b) { return bin('+', a, b); }
    friend Sf operator-(const Sf &a, const Sf &b) { return bin('-', a, b); }
    friend Sf operator*(const Sf &a, const Sf &b) { return bin('*', a, b); }
    Sf operator-() const { return bin('-', Sf(0), *this); }
    Sf &operator+=(const Sf &b) { return *this = *this + b; }
    Sf &operator-=(const Sf &b) { return *this = *this - b; }
    Sf &operator*=(const Sf &b) { return *this = *this * b; }
    Sf doubled() const { return *this + *this; }
    Sf squared() const { return *this * *this; }
    static Bool feq(const Sf &a, const Sf &b, bool query = false) {
        uint64_t p = field_p();
        if (!p) return query ? Sc::eqq(a.s, b.s) : Sc::eq(a.s, b.s);
        if (!a.s.id && !b.s.id) return Bool(a.val(p) == b.val(p));
        if (!query && a.s.id == b.s.id) return Bool(true);
        return Bool::of(rt().node("feq " + P(p) + " " + S(a.fterm(p)) + " " + S(b.fterm(p))));
    }
    static Bool feqq(const Sf &a, const Sf &b) { return feq(a, b, true); }
    friend bool operator==(const Sf &a, const Sf &b) { return decide(feq(a, b)); }
    friend bool operator!=(const Sf &a, const Sf &b) { return !decide(feq(a, b)); }
    bool is_zero() const { return *this == Sf(0); }
    bool is_one() const { return *this == Sf(1); }
    // inversion of zero is reported: the library's inverse_mod has no answer for it
    Sf inversed() const {
        uint64_t p = field_p();
        check(!feq(*this, Sf(0)), "a zero field element is inverted");
        if (rt().replay && rt().failed) {
            std::printf("REPLAY-VIOLATION\n");
            std::fflush(stdout);
            _exit(1);
        }
        Sf r;
        if (!p) {
            r.s = Sc(1) / s;
            return r;
        }
        if (!s.id) return cst(powm(val(p), p - 2, p));
        r.s.id = rt().node("finv " + P(p) + " " + S(s.id));
        return r;
    }
    template<typename I>
    Sf pow(const I &e) const {
        Sf r(1), b = *this;
        for (I k = e; k; k >>= 1, b = b * b)
            if (k & 1) r = r * b;
        return r;
    }
    // a square root, when one exists
    Sf sqrt() const;
    static Sf zero() { return Sf(0); }
    static Sf one() { return Sf(1); }
    friend std::ostream &operator<<(std::ostream &os, const Sf &a) { return os << a.s; }
};
template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
Sf operator*(const I &a, const Sf &b) { return Sf(a) * b; }
template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
Sf operator*(const Sf &a, const I &b) { return a * Sf(b); }
template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
Sf operator+(const Sf &a, const I &b) { return a + Sf(b); }
template<typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
Sf operator-(const Sf &a, const I &b) { return a - Sf(b); }

inline Sf fvar(const std::string &name) {
    uint64_t p = field_p();
    if (rt().replay) {
        auto it = rt().values.find(name);
        if (it == rt().values.end()) return Sf(0);
        return Sf::cst(Sf(var(name)).val(p));
    }
    Sf r;
    r.s.id = p ? rt().node("fvar " + Sf::P(p) + " " + name) : rt().node("rvar " + name);
    return r;
}
inline Sf Sf::sqrt() const {
    uint64_t p = field_p();
    if (!s.id && p) {
        if (p < 100000) {
            for (uint64_t r = 0; r <= p / 2; r++)
                if (mulm(r, r, p) == val(p)) return cst(r);
        } else {
            uint64_t r = powm(val(p), (p + 1) / 4, p);    // p = 3 mod 4
            if (mulm(r, r, p) == val(p)) return cst(r);
        }
        check(Bool(false), "square root of a non-square");
        return cst(0);
    }
    if (p) {
        // the smaller root
        Sf r;
        r.s.id = rt().node("fsqrt " + P(p) + " " + S(s.id));
        check(feq(r * r, *this), "square root of a non-square");
        return r;
    }
    static int k = 0;
    Sf r = fvar("root" + std::to_string(k++));
    assume(feq(r * r, *this));
    return r;
}
}    // namespace symrt
using symrt::Sf;
