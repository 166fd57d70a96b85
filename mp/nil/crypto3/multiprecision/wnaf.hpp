#pragma once
#include <boost/multiprecision/number.hpp>
namespace boost { namespace multiprecision {
// signed-digit expansion with window w: sum of digit[i]*2^i equals the scalar, non-zero digits are odd and
// smaller than 2^w in absolute value
template<class N>
std::vector<long> find_wnaf(std::size_t w, const N &scalar) {
    constexpr unsigned bits = std::decay_t<decltype(scalar.backend())>::bits;
    using W = number<backends::cpp_int_modular_backend<bits + 32>>;
    std::vector<long> res(bits + 1, 0);
    W c(scalar);
    for (std::size_t j = 0; !c.is_zero(); j++) {
        long u = 0;
        if (bit_test(c, 0)) {
            for (std::size_t i = 0; i <= w; i++)
                if (bit_test(c, i)) u |= 1L << i;
            if (u > (1L << w)) u -= 1L << (w + 1);
            if (u > 0) c -= W((uint64_t)u);
            else c += W((uint64_t)-u);
        }
        res.at(j) = u;
        c >>= 1;
    }
    return res;
}
}}
