// a small prime field for the demonstrations
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <ostream>
#include <boost/multiprecision/number.hpp>
#include <boost/multiprecision/cpp_int.hpp>
template<uint64_t p>
struct Fp {
    uint64_t v = 0;
    constexpr Fp() = default;
    constexpr Fp(long x) : v(x < 0 ? p - (uint64_t)(-x) % p : (uint64_t)x % p) { v %= p; }
    static constexpr Fp zero() { return Fp(0); }
    static constexpr Fp one() { return Fp(1); }
    constexpr bool is_zero() const { return v == 0; }
    constexpr bool is_one() const { return v == 1; }
    constexpr bool operator==(const Fp &o) const { return v == o.v; }
    constexpr bool operator!=(const Fp &o) const { return v != o.v; }
    constexpr Fp operator+(const Fp &o) const { return Fp((long)((v + o.v) % p)); }
    constexpr Fp operator-(const Fp &o) const { return Fp((long)((v + p - o.v) % p)); }
    constexpr Fp operator*(const Fp &o) const { return Fp((long)(v * o.v % p)); }
    constexpr Fp operator-() const { return Fp((long)((p - v) % p)); }
    constexpr Fp &operator+=(const Fp &o) { return *this = *this + o; }
    constexpr Fp &operator-=(const Fp &o) { return *this = *this - o; }
    constexpr Fp &operator*=(const Fp &o) { return *this = *this * o; }
    constexpr Fp squared() const { return *this * *this; }
    constexpr Fp doubled() const { return *this + *this; }
    constexpr Fp pow(uint64_t e) const {
        Fp r(1), b = *this;
        for (; e; e >>= 1, b = b * b)
            if (e & 1) r = r * b;
        return r;
    }
    constexpr Fp inversed() const { return pow(p - 2); }
    constexpr Fp sqrt() const {
        for (uint64_t i = 0; i < p; i++)
            if (i * i % p == v) return Fp((long)i);
        return Fp(0);
    }
    friend constexpr Fp operator*(int a, const Fp &b) { return Fp(a) * b; }
    friend std::ostream &operator<<(std::ostream &o, const Fp &a) { return o << a.v; }
};
template<uint64_t p>
struct Field {
    using value_type = Fp<p>;
    static constexpr std::size_t arity = 1, value_bits = 64, modulus_bits = 64;
    using integral_type = uint64_t;
    using modular_type = uint64_t;
    static constexpr uint64_t modulus = p;
};
