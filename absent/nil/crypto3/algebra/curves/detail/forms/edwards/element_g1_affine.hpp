// Stand-in for a header that forms/edwards/inverted/element_g1.hpp includes and that the repository does not contain.
// Only what to_affine() names: a point (x, y) of the affine plane.
#pragma once
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename CurveParams, typename Form, typename Coordinates>
    class curve_element;
    template<typename CurveParams>
    class curve_element<CurveParams, forms::edwards, coordinates::affine> {
        using field_value_type = typename CurveParams::field_type::value_type;
    public:
        field_value_type X, Y;
        constexpr curve_element(const field_value_type &x, const field_value_type &y) : X(x), Y(y) {}
        constexpr static curve_element zero() { return curve_element(CurveParams::zero_affine()[0], CurveParams::zero_affine()[1]); }
        constexpr bool is_zero() const { return X == CurveParams::zero_affine()[0] && Y == CurveParams::zero_affine()[1]; }
    };
}}}}}
