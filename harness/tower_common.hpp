// Extension-field towers: flattening of elements, and independent reference arithmetic on coefficient vectors.
#pragma once
#include "symrt.hpp"
#include <boost/multiprecision/number.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <nil/crypto3/multiprecision/wnaf.hpp>
#include <array>
#include <vector>
#include <functional>
using namespace symrt;
namespace mp = boost::multiprecision;

template<unsigned W>
using Int = mp::number<mp::backends::cpp_int_modular_backend<W>>;
template<unsigned W>
Int<W> isym(const std::string &n) {
    Int<W> r;
    if (rt().replay) {
        auto it = rt().values.find(n);
        return it == rt().values.end() ? r : Int<W>(it->second.c_str());
    }
    r.backend().id = rt().node("ivar " + std::to_string(W) + " " + n);
    return r;
}

// T: base field element (element_fp<...>); R: its residue
template<class T>
T fresh(const std::string &n) {
    using R = typename T::modular_type;
    using B = typename R::backend_type;
    if (rt().replay) {
        auto it = rt().values.find(n);
        if (it == rt().values.end()) return T(0);
        return T(R(mp::number<typename B::B>(it->second.c_str())));
    }
    return T(R(B::sym(rt().node("fvar " + B::ms() + " " + n))));
}
template<class V, class T>
struct is_base : std::is_same<V, T> {};
template<class T, class V>
V make(const std::string &n) {
    if constexpr (std::is_same_v<V, T>) return fresh<T>(n);
    else {
        V v;
        for (size_t i = 0; i < v.data.size(); i++)
            v.data[i] = make<T, std::decay_t<decltype(v.data[0])>>(n + "_" + std::to_string(i));
        return v;
    }
}
template<class T, class V>
void flat(const V &v, std::vector<T> &o) {
    if constexpr (std::is_same_v<V, T>) o.push_back(v);
    else
        for (auto &d : v.data) flat<T>(d, o);
}
template<class T, class V>
std::vector<T> flat(const V &v) {
    std::vector<T> o;
    flat<T>(v, o);
    return o;
}
template<class T, class V>
V unflat(const std::vector<T> &f, size_t &pos) {
    if constexpr (std::is_same_v<V, T>) return f[pos++];
    else {
        V v;
        for (size_t i = 0; i < v.data.size(); i++) v.data[i] = unflat<T, std::decay_t<decltype(v.data[0])>>(f, pos);
        return v;
    }
}
template<class T>
Bool eqq(const T &a, const T &b) {
    return T::modular_type::beq(a.data, b.data, true);
}
// a == b for all values at which every polynomial of rel vanishes
template<class T>
struct Relations {
    using M = typename T::modular_type::backend_type;
    std::vector<T> r;
    int list = 0;
    void add(const T &a) {
        if (rt().replay) {
            check(a == T(0), "the generated input satisfies the assumption");
            return;
        }
        if (!list) list = rt().node("fnil " + M::ms());
        list = rt().node("fcons " + M::ms() + " " + S(a.data.backend().term()) + " " + S(list));
    }
    Bool eq(const T &a, const T &b) {
        if (rt().replay || !list || (!a.data.backend().id && !b.data.backend().id)) return eqq(a, b);
        return Bool::of(rt().node("frel " + M::ms() + " " + S(a.data.backend().term()) + " " + S(b.data.backend().term()) + " " + S(list)));
    }
};
// a tower F_p = K_0 < K_1 < ... given by degrees and the element of K_(i-1) that the generator's n-th power equals
template<class T>
struct Tower {
    using V = std::vector<T>;
    std::vector<size_t> deg;
    std::vector<V> tau;
    size_t dim(size_t lv) const {
        size_t d = 1;
        for (size_t i = 0; i < lv; i++) d *= deg[i];
        return d;
    }
    static V add(const V &a, const V &b) {
        V r(a);
        for (size_t i = 0; i < r.size(); i++) r[i] = r[i] + b[i];
        return r;
    }
    static V sub(const V &a, const V &b) {
        V r(a);
        for (size_t i = 0; i < r.size(); i++) r[i] = r[i] - b[i];
        return r;
    }
    static V part(const V &a, size_t i, size_t d) { return V(a.begin() + i * d, a.begin() + (i + 1) * d); }
    V zero(size_t lv) const { return V(dim(lv), T(0)); }
    V one(size_t lv) const {
        V r = zero(lv);
        r[0] = T(1);
        return r;
    }
    V mul(size_t lv, const V &a, const V &b) const {
        if (lv == 0) return V{a[0] * b[0]};
        size_t n = deg[lv - 1], d = dim(lv - 1);
        std::vector<V> c(2 * n - 1, zero(lv - 1));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) c[i + j] = add(c[i + j], mul(lv - 1, part(a, i, d), part(b, j, d)));
        V r;
        for (size_t i = 0; i < n; i++) {
            V x = c[i];
            if (i + n < c.size()) x = add(x, mul(lv - 1, c[i + n], tau[lv - 1]));
            r.insert(r.end(), x.begin(), x.end());
        }
        return r;
    }
    template<class E>
    V pow(size_t lv, const V &a, const E &e) const {
        V r = one(lv);
        if (e == E(0u)) return r;
        for (size_t i = mp::msb(e) + 1; i-- > 0;) {
            r = mul(lv, r, r);
            if (mp::bit_test(e, i)) r = mul(lv, r, a);
        }
        return r;
    }
    // x -> x^p: the generator g of level lv goes to g * tau^((p-1)/n), coefficients recursively
    V frob(size_t lv, const V &a, const std::vector<V> &g) const {
        if (lv == 0) return a;
        size_t n = deg[lv - 1], d = dim(lv - 1);
        V r, w = one(lv - 1);
        for (size_t i = 0; i < n; i++) {
            V x = mul(lv - 1, frob(lv - 1, part(a, i, d), g), w);
            r.insert(r.end(), x.begin(), x.end());
            w = mul(lv - 1, w, g[lv - 1]);
        }
        return r;
    }
    template<class E>
    std::vector<V> frob_consts(const E &p) const {
        std::vector<V> g;
        for (size_t lv = 1; lv <= deg.size(); lv++) {
            E q = (p - E(1u)) / E(deg[lv - 1]);
            check((p - E(1u)) % E(deg[lv - 1]) == E(0u), "the degree of the extension divides p - 1");
            g.push_back(pow(lv - 1, tau[lv - 1], q));
        }
        return g;
    }
};
template<class T>
void same(const std::vector<T> &a, const std::vector<T> &b, const std::string &l) {
    for (size_t i = 0; i < a.size(); i++) check(eqq(a[i], b[i]), l);
}
