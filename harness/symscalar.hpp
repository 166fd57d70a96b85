// Sc: a symbolic element of an ordered field (interpreted over the reals by the driver), usable as the
// element type T of the BLAS templates.  Constants are exact rationals and fold natively.
#pragma once
#include "symrt.hpp"
#include <cmath>
#include <complex>
#include <limits>
#include <ostream>
#include <type_traits>

namespace symrt {

struct Sc {
    __int128 n = 0;    // value n/d when id == 0
    __int128 d = 1;
    uint32_t id = 0;

    constexpr Sc() = default;
    template<typename I, std::enable_if_t<std::is_integral_v<I> || std::is_enum_v<I>, int> = 0>
    constexpr Sc(I v) : n((__int128)v) {}
    template<typename F, std::enable_if_t<std::is_floating_point_v<F>, long> = 0>
    constexpr Sc(F v) {
        // exact dyadic rational
        __int128 den = 1;
        int guard = 0;
        while (v != (F)(__int128)v && guard++ < 110) {
            v *= 2;
            den *= 2;
        }
        n = (__int128)v;
        d = den;
        norm();
    }
    static Sc of(uint32_t id) {
        Sc r;
        r.id = id;
        return r;
    }
    static constexpr Sc rat(__int128 n, __int128 d) {
        Sc r;
        r.n = n;
        r.d = d;
        r.norm();
        return r;
    }
    static constexpr __int128 iabs(__int128 x) { return x < 0 ? -x : x; }
    static constexpr __int128 gcd(__int128 a, __int128 b) {
        a = iabs(a);
        b = iabs(b);
        while (b) {
            __int128 t = a % b;
            a = b;
            b = t;
        }
        return a;
    }
    constexpr void norm() {
        if (d < 0) {
            n = -n;
            d = -d;
        }
        if (n == 0) {
            d = 1;
            return;
        }
        __int128 g = gcd(n, d);
        if (g > 1) {
            n /= g;
            d /= g;
        }
    }
    constexpr bool isc() const { return id == 0; }
    static std::string i128(__int128 v) {
        if (v == 0) return "0";
        bool neg = v < 0;
        unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
        std::string s;
        while (u) {
            s.insert(s.begin(), char('0' + (int)(u % 10)));
            u /= 10;
        }
        return neg ? "-" + s : s;
    }
    uint32_t term() const {
        if (id) return id;
        return rt().node("rc " + i128(n) + "/" + i128(d));
    }
    // constant folding; ok=false on overflow or division by zero
    static constexpr bool fold(char op, const Sc &a, const Sc &b, Sc &r) {
        __int128 x = 0, y = 0, z = 0;
        switch (op) {
            case '+':
            case '-':
                if (__builtin_mul_overflow(a.n, b.d, &x) || __builtin_mul_overflow(b.n, a.d, &y)) return false;
                if (op == '+' ? __builtin_add_overflow(x, y, &z) : __builtin_sub_overflow(x, y, &z)) return false;
                if (__builtin_mul_overflow(a.d, b.d, &y)) return false;
                r = rat(z, y);
                return true;
            case '*':
                if (__builtin_mul_overflow(a.n, b.n, &x) || __builtin_mul_overflow(a.d, b.d, &y)) return false;
                r = rat(x, y);
                return true;
            default:
                if (b.n == 0) return false;
                if (__builtin_mul_overflow(a.n, b.d, &x) || __builtin_mul_overflow(a.d, b.n, &y)) return false;
                r = rat(x, y);
                return true;
        }
    }
    constexpr bool isk(int k) const { return id == 0 && d == 1 && n == k; }
    static constexpr Sc bin(char op, const char *name, const Sc &a, const Sc &b) {
        if (a.isc() && b.isc()) {
            Sc r;
            if (fold(op, a, b, r)) return r;
        }
        if (op == '+' && a.isk(0)) return b;
        if ((op == '+' || op == '-') && b.isk(0)) return a;
        if (op == '*' && (a.isk(0) || b.isk(0))) return Sc(0);
        if (op == '*' && a.isk(1)) return b;
        if ((op == '*' || op == '/') && b.isk(1)) return a;
        return symbin(name, a, b);
    }
    static Sc symbin(const char *name, const Sc &a, const Sc &b) {
        if (rt().replay) {
            if (b.isk(0) && name[1] == 'd') {
                check(Bool(!rt().div_checked), "division by zero");
                if (rt().div_checked) {
                    std::printf("REPLAY-VIOLATION\n");
                    std::fflush(stdout);
                    _exit(1);
                }
            }
            fatal(std::string("constant overflow or division by zero in ") + name);
        }
        return of(node2(name, a.term(), b.term()));
    }
    friend constexpr Sc operator+(const Sc &a, const Sc &b) { return bin('+', "radd", a, b); }
    friend constexpr Sc operator-(const Sc &a, const Sc &b) { return bin('-', "rsub", a, b); }
    friend constexpr Sc operator*(const Sc &a, const Sc &b) { return bin('*', "rmul", a, b); }
    friend constexpr Sc operator/(const Sc &a, const Sc &b) { return bin('/', "rdiv", a, b); }
    friend constexpr Sc operator-(const Sc &a) { return Sc(0) - a; }
    friend constexpr Sc operator+(const Sc &a) { return a; }
    constexpr Sc &operator+=(const Sc &b) { return *this = *this + b; }
    constexpr Sc &operator-=(const Sc &b) { return *this = *this - b; }
    constexpr Sc &operator*=(const Sc &b) { return *this = *this * b; }
    constexpr Sc &operator/=(const Sc &b) { return *this = *this / b; }
    constexpr Sc &operator++() { return *this += Sc(1); }
    constexpr Sc &operator--() { return *this -= Sc(1); }
    constexpr Sc operator++(int) {
        Sc t = *this;
        ++*this;
        return t;
    }
    constexpr Sc operator--(int) {
        Sc t = *this;
        --*this;
        return t;
    }
    static constexpr bool clt(const Sc &a, const Sc &b) {
        // exact comparison of rationals via long-hand when products overflow
        __int128 x = 0, y = 0;
        if (!__builtin_mul_overflow(a.n, b.d, &x) && !__builtin_mul_overflow(b.n, a.d, &y)) return x < y;
        return (long double)a.n / (long double)a.d < (long double)b.n / (long double)b.d;
    }
    static Bool eq(const Sc &a, const Sc &b) {
        if (a.isc() && b.isc()) return Bool(a.n == b.n && a.d == b.d);
        if (a.id == b.id) return Bool(true);
        return Bool::of(node2("req", a.term(), b.term()));
    }
    // for assertions: always a query unless both sides are constants
    static Bool eqq(const Sc &a, const Sc &b) {
        if (a.isc() && b.isc()) return Bool(a.n == b.n && a.d == b.d);
        return Bool::of(node2("req", a.term(), b.term()));
    }
    static Bool lt(const Sc &a, const Sc &b) {
        if (a.isc() && b.isc()) return Bool(clt(a, b));
        if (a.id == b.id) return Bool(false);
        return Bool::of(node2("rlt", a.term(), b.term()));
    }
    static Bool le(const Sc &a, const Sc &b) { return !lt(b, a); }
    static constexpr bool ceq(const Sc &a, const Sc &b) {
        if (a.isc() && b.isc()) return a.n == b.n && a.d == b.d;
        return decide(eq(a, b));
    }
    static constexpr bool cltb(const Sc &a, const Sc &b) {
        if (a.isc() && b.isc()) return clt(a, b);
        return decide(lt(a, b));
    }
    friend constexpr bool operator==(const Sc &a, const Sc &b) { return ceq(a, b); }
    friend constexpr bool operator!=(const Sc &a, const Sc &b) { return !ceq(a, b); }
    friend constexpr bool operator<(const Sc &a, const Sc &b) { return cltb(a, b); }
    friend constexpr bool operator>(const Sc &a, const Sc &b) { return cltb(b, a); }
    friend constexpr bool operator<=(const Sc &a, const Sc &b) { return !cltb(b, a); }
    friend constexpr bool operator>=(const Sc &a, const Sc &b) { return !cltb(a, b); }
    friend constexpr bool operator!(const Sc &a) { return ceq(a, Sc(0)); }
    explicit constexpr operator bool() const { return !ceq(*this, Sc(0)); }
    static Sc ite(const Bool &c, const Sc &a, const Sc &b) {
        if (!c.id) return c.v ? a : b;
        return of(node3("rite", c.id, a.term(), b.term()));
    }
    friend std::ostream &operator<<(std::ostream &os, const Sc &a) {
        if (a.id) return os << "t" << a.id;
        return os << i128(a.n) << "/" << i128(a.d);
    }
};

// fork-free helpers for specifications
inline Sc sabs(const Sc &a) {
    if (a.isc()) return Sc::clt(a, Sc(0)) ? -a : a;
    return Sc::of(node1("rabs", a.id));
}
inline Sc smin(const Sc &a, const Sc &b) { return Sc::ite(Sc::lt(b, a), b, a); }
inline Sc smax(const Sc &a, const Sc &b) { return Sc::ite(Sc::lt(a, b), b, a); }
// uninterpreted real functions (with contracts supplied by the driver): used for sqrt of T
inline Sc uf1(const char *name, const Sc &a) {
    if (rt().replay) fatal(std::string("uninterpreted function in replay: ") + name);
    return Sc::of(rt().node(std::string("ruf ") + name + " " + S(a.term())));
}

// machine epsilon reported for Sc: 0 models an exact ordered field, 2^-52 the epsilon of double
inline Sc eps_value = Sc(0);
inline Sc var(const std::string &name) {
    if (rt().replay) {
        auto it = rt().values.find(name);
        if (it == rt().values.end()) return Sc(0);
        std::string v = it->second;
        auto p = v.find('/');
        auto parse = [](const std::string &s) {
            __int128 r = 0;
            bool neg = false;
            for (char c : s) {
                if (c == '-') neg = true;
                else if (c >= '0' && c <= '9') r = r * 10 + (c - '0');
            }
            return neg ? -r : r;
        };
        if (p == std::string::npos) return Sc::rat(parse(v), 1);
        return Sc::rat(parse(v.substr(0, p)), parse(v.substr(p + 1)));
    }
    return Sc::of(rt().node("rvar " + name));
}
// integer-valued variable in [lo, hi]
inline Sc ivar(const std::string &name, long lo, long hi) {
    if (rt().replay) return var(name);
    return Sc::of(rt().node("rivar " + name + " " + std::to_string(lo) + " " + std::to_string(hi)));
}
}    // namespace symrt

template<>
struct std::numeric_limits<symrt::Sc> {
    static constexpr bool is_specialized = true;
    static constexpr bool is_signed = true;
    static constexpr bool is_integer = false;
    static constexpr bool is_exact = false;
    static constexpr bool has_infinity = false;
    static constexpr bool has_quiet_NaN = false;
    static constexpr int digits = 53;
    static constexpr int radix = 2;
    static symrt::Sc epsilon() { return symrt::eps_value; }
    static constexpr symrt::Sc min() { return symrt::Sc::rat(1, (__int128)1 << 100); }
    static constexpr symrt::Sc round_error() { return symrt::Sc(0); }
    static constexpr symrt::Sc max() { return symrt::Sc::rat((__int128)1 << 100, 1); }
    static constexpr symrt::Sc lowest() { return symrt::Sc::rat(-((__int128)1 << 100), 1); }
};
// complex numbers over Sc: like std::complex<double>, implicitly constructible from any scalar
template<>
struct std::complex<symrt::Sc> {
    using Sc = symrt::Sc;
    using value_type = Sc;
    Sc re_, im_;
    constexpr complex(const Sc &r = Sc(0), const Sc &i = Sc(0)) : re_(r), im_(i) {}
    template<typename I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>
    constexpr complex(I r) : re_(r), im_(0) {}
    constexpr Sc real() const { return re_; }
    constexpr Sc imag() const { return im_; }
    constexpr void real(const Sc &v) { re_ = v; }
    constexpr void imag(const Sc &v) { im_ = v; }
    complex &operator=(const Sc &v) {
        re_ = v;
        im_ = Sc(0);
        return *this;
    }
    complex &operator+=(const Sc &v) {
        re_ += v;
        return *this;
    }
    complex &operator-=(const Sc &v) {
        re_ -= v;
        return *this;
    }
    complex &operator*=(const Sc &v) {
        re_ *= v;
        im_ *= v;
        return *this;
    }
    complex &operator/=(const Sc &v) {
        re_ /= v;
        im_ /= v;
        return *this;
    }
    complex &operator+=(const complex &b) {
        re_ += b.re_;
        im_ += b.im_;
        return *this;
    }
    complex &operator-=(const complex &b) {
        re_ -= b.re_;
        im_ -= b.im_;
        return *this;
    }
    complex &operator*=(const complex &b) {
        Sc r = re_ * b.re_ - im_ * b.im_;
        im_ = re_ * b.im_ + im_ * b.re_;
        re_ = r;
        return *this;
    }
    complex &operator/=(const complex &b) {
        Sc n = b.re_ * b.re_ + b.im_ * b.im_;
        Sc r = (re_ * b.re_ + im_ * b.im_) / n;
        im_ = (im_ * b.re_ - re_ * b.im_) / n;
        re_ = r;
        return *this;
    }
};
namespace symrt {
// real square root: uninterpreted for the solver, native double arithmetic in replay
inline Sc sqrt(const Sc &a) {
    if (a.isc()) return Sc(std::sqrt((double)((long double)a.n / (long double)a.d)));
    return uf1("sqrt", a);
}
}    // namespace symrt
template<>
struct std::hash<symrt::Sc> {
    size_t operator()(const symrt::Sc &a) const { return a.id ? a.id : (size_t)a.n; }
};
