// Stand-in for a header the repository includes and does not contain: the sign of a field element
// (RFC 9380, section 4.1).
#pragma once
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename FieldParams>
    inline bool sgn0(const fields::detail::element_fp<FieldParams> &e) {
        typedef typename fields::detail::element_fp<FieldParams>::integral_type integral_type;
        return boost::multiprecision::bit_test(e.data.template convert_to<integral_type>(), 0);
    }
    template<typename FieldParams>
    inline bool sgn0(const fields::detail::element_fp2<FieldParams> &e) {
        return sgn0(e.data[0]) || (e.data[0].is_zero() && sgn0(e.data[1]));
    }
}}}}}
