#pragma once
#include "symscalar.hpp"
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>

namespace A = nil::crypto3::algebra;
using symrt::add_case;
using symrt::assume;
using symrt::Bool;
using symrt::check;
using symrt::reach;
using symrt::sabs;
using symrt::Sc;
using std::size_t;
using std::string;
template<size_t N>
using Vec = A::vector<Sc, N>;
template<size_t N, size_t M>
using Mat = A::matrix<Sc, N, M>;
using Cx = std::complex<Sc>;

inline string L(const string &a, size_t i) { return a + "[" + std::to_string(i) + "]"; }
inline string L(const string &a, size_t i, size_t j) {
    return a + "[" + std::to_string(i) + "][" + std::to_string(j) + "]";
}
inline string nm(const string &a, size_t i) { return a + "_" + std::to_string(i); }
inline string nm(const string &a, size_t i, size_t j) { return a + "_" + std::to_string(i) + "_" + std::to_string(j); }

template<size_t N>
Vec<N> vvec(const string &n) {
    Vec<N> v = {};
    for (size_t i = 0; i < N; ++i) v.array[i] = symrt::var(nm(n, i));
    return v;
}
template<size_t N, size_t M>
Mat<N, M> vmat(const string &n) {
    Mat<N, M> m = {};
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j) m.arrays[i][j] = symrt::var(nm(n, i, j));
    return m;
}
template<size_t N>
A::vector<Cx, N> cvec(const string &n) {
    A::vector<Cx, N> v = {};
    for (size_t i = 0; i < N; ++i) v.array[i] = Cx(symrt::var(nm(n + "r", i)), symrt::var(nm(n + "i", i)));
    return v;
}
template<size_t N, size_t M>
A::matrix<Cx, N, M> cmat(const string &n) {
    A::matrix<Cx, N, M> m = {};
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j)
            m.arrays[i][j] = Cx(symrt::var(nm(n + "r", i, j)), symrt::var(nm(n + "i", i, j)));
    return m;
}
inline void eq(const Sc &a, const Sc &b, const string &l) { check(Sc::eqq(a, b), l); }
inline void eq(const Cx &a, const Cx &b, const string &l) {
    check(Sc::eqq(a.real(), b.real()), l + ".re");
    check(Sc::eqq(a.imag(), b.imag()), l + ".im");
}
inline void eq(const Cx &a, const Sc &re, const Sc &im, const string &l) {
    check(Sc::eqq(a.real(), re), l + ".re");
    check(Sc::eqq(a.imag(), im), l + ".im");
}
// run f, expect it to throw / not to throw
template<class F>
bool throws(F &&f) {
    try {
        f();
    } catch (...) {
        return true;
    }
    return false;
}
template<class F>
void expect_throw(F &&f, const string &l) {
    check(Bool(throws(f)), l + " must be rejected");
}
