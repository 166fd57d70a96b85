"""What each check runs.  'harnesses': files of harness/ (optionally with extra compiler flags)."""
CHECKS = {}


def add(pid, **kw):
    CHECKS[pid] = kw


REAL = 'element types are an exact ordered field (the reals, interpreted by z3); rounding of float/double is outside'
BLAS_ASSUME = ['element types are an exact ordered field (the reals, interpreted by z3) and the complex numbers over it; rounding of float and double is outside',
               'sqrt (absolute value of complex numbers) is the nonnegative root, known only by its square']
VU, MU = 'vector/{math,operators,utility,vector}.hpp: ', 'matrix/{math,operators,utility,matrix}.hpp: '
SEL = 'sizes are template parameters: those not listed are outside'
add('V01', harnesses=['vec_ops'], functions=[VU + 'operators + - * / == !=, elementwise, cast, operator[], at, iterators'],
    bounds='vector sizes 1 to 8, 11, 16 (thorough also 9, 10, 12, 13, 31 to 33); all component values', outside=SEL, assumptions=BLAS_ASSUME)
add('V02', harnesses=['vec_restructure'], functions=[VU + 'rotate, slice, cat, fill, iota, linspace, generate, accumulate, make_vector'],
    bounds='vector sizes 1 to 8, 11 (thorough to 17); all component values; rotations by every amount up to several sizes either way and far amounts; every slice that fits', outside=SEL, assumptions=BLAS_ASSUME)
add('V03', harnesses=['vec_reduce'], functions=[VU + 'dot, sum, min, max, min_index, max_index, abs, conj, real, imag, elementwise'],
    bounds='vector sizes 1 to 8, 11, 16 (thorough to 33); all component values, real and complex', outside=SEL, assumptions=BLAS_ASSUME)
add('M01', harnesses=['mat_ops'], functions=[MU + 'operators, elementwise, cast, real, imag, conj, row, column, fill, generate, get_identity'],
    bounds='thirteen shapes up to 5x2 and 4x4 (thorough to 8x8); all element values; row and column indices inside, at the end and far past it', outside=SEL, assumptions=BLAS_ASSUME)
add('M02', harnesses=['mat_restructure'], functions=[MU + 'transpose, hermitian, repmat, swaprow, swapcol, horzcat, vertcat, submat, reshape, as_row, as_column'],
    bounds='twelve shapes up to 4x4 (thorough to 6x4); all element values; every submatrix offset, in and out of range, including offsets that wrap around', outside=SEL, assumptions=BLAS_ASSUME)
add('M03', harnesses=['mat_product'], functions=[MU + 'matmul, kron, trace, macs, mars; vector/matrix products'],
    bounds='ten product shapes up to 4x4x4 (thorough 8x3x8), Kronecker products of small shapes, traces to 7; all element values', outside=SEL, assumptions=BLAS_ASSUME)
ELIM_ASSUME = BLAS_ASSUME[:1] + ['with a rounding tolerance: the elements are small integers times a power of two, and numeric_limits reports a floating-point epsilon']
add('M04', harnesses=[('mat_elim', ['-DPART_RREF'])], functions=[MU + 'rref, rref with tolerance, rank'],
    bounds='shapes up to 3x3 (thorough 4x2, 2x4, 3x4), all element values, every pivoting path; explicit tolerance and power-of-two scaling for 1x3, 2x2 (thorough 2x3)', outside=SEL + '; accumulation of rounding errors', assumptions=ELIM_ASSUME)
add('M05', harnesses=[('mat_elim', ['-DPART_INV'])], functions=[MU + 'det, inverse'],
    bounds='sizes 1 to 3 (thorough 4), all element values, every pivoting path', outside=SEL + '; accumulation of rounding errors', assumptions=ELIM_ASSUME)

FORMS = 'curves/detail/forms/'
SWK = [['-DJAC'], ['-DJAC0'], ['-DJACM3'], ['-DPROJ'], ['-DPROJM3']]
CURVE_ASSUME = [
    'field_type::value_type is a stand-in (harness/symfield.hpp): in generic cases the rational functions over Q, in '
    'F<p> cases the prime field of p elements; the curve element classes and formulas are the real ones',
    'a prime for which a coefficient or a step count coincides with the right one modulo every small prime tried and '
    'over Q does not exist for the generic cases; special cases are covered for the small primes only',
    'native replay of a generic counterexample computes modulo 2^61-1']
CURVE_OUT = ('coordinates of the concrete curves (255 to 512 bits) are not enumerated: they are covered by the generic '
             'cases (identities over every field of large characteristic) plus the special-case structure seen in the small fields; '
             'points off the curve; __ZKLLVM__ branches; scalar multiplication (another property)')
add('C01', harnesses=[('curve_sw', ['-DAFF'])], functions=[FORMS + 'short_weierstrass/element_g1_affine.hpp: operator+, +=, unary -, -, -=, double_inplace, add'],
    bounds='all points and curves: generic characteristic (rational parametrisation of all pairs on all curves); every point, pair and curve over F_5, F_7 (pairs: F_5; thorough F_7; thorough also F_11, F_13); both encodings of O',
    outside=CURVE_OUT, assumptions=CURVE_ASSUME)
add('C02', harnesses=[('curve_sw', k) for k in SWK[:3]], functions=[FORMS + 'short_weierstrass/jacobian{,_with_a4_0,_with_a4_minus_3}/: element_g1.hpp operator+, +=, -, -=, double_inplace, mixed_add; add_2007_bl, dbl_*, madd_2007_bl'],
    bounds='as C01; every non-zero Z of both operands (mixed addition: Z2 = 1)', outside=CURVE_OUT, assumptions=CURVE_ASSUME)
add('C03', harnesses=[('curve_sw', k) for k in SWK[3:]], functions=[FORMS + 'short_weierstrass/projective{,_with_a4_minus_3}/: element_g1.hpp operator+, +=, -, -=, double_inplace, mixed_add; add_1998_cmo_2, dbl_2007_bl'],
    bounds='as C01; every non-zero Z of both operands (mixed addition: Z2 = 1)', outside=CURVE_OUT, assumptions=CURVE_ASSUME)
add('C04', harnesses=[('curve_te', ['-D' + k]) for k in ('TEAFF', 'TEINV', 'TEEXT', 'EDINV')],
    functions=[FORMS + 'twisted_edwards/{element_g1_affine.hpp,inverted/*,extended_with_a_minus_1/*}', FORMS + 'edwards/inverted/*'],
    bounds='complete curves (a a square, d not) over F_5 or F_7 (thorough to 13) with every point, plus generic characteristic; every non-zero Z; inverted coordinates and the dedicated mixed formulas: operands and sums neutral or with xy != 0 (points of odd order)',
    outside=CURVE_OUT + '; incomplete Edwards curves; points of order 2 and 4 where the coordinates cannot represent them',
    assumptions=CURVE_ASSUME + ['forms/edwards/inverted/element_g1.hpp includes a header the repository does not contain; absent/ supplies a two-coordinate struct for it'])
add('C05', harnesses=[('curve_te', ['-DMONT']), ('curve_te', ['-DMONT', '-DREPR', '-DMAPS'])],
    functions=[FORMS + 'montgomery/element_g1_affine.hpp: operators, double_inplace, add, to_twisted_edwards', FORMS + 'twisted_edwards/element_g1_affine.hpp: to_montgomery'],
    bounds='generic characteristic and F_5, F_7 (thorough 11, 13): every curve with B(A^2-4) != 0, every point; maps: a square, d non-square, scaled and unscaled B',
    outside=CURVE_OUT, assumptions=CURVE_ASSUME)
add('C06', harnesses=[('curve_sw', k + ['-DREPR']) for k in [['-DAFF']] + SWK] + [('curve_te', ['-D' + k, '-DREPR']) for k in ('TEAFF', 'TEINV', 'TEEXT', 'EDINV', 'MONT')],
    functions=[FORMS + '*/: operator==, !=, is_zero, is_well_formed, zero, one, operator=, to_affine, to_projective, to_inverted, to_extended_with_a_minus_1'],
    bounds='every point of the plane and every scaling: generic characteristic and F_5, F_7 (thorough 11, 13)', outside=CURVE_OUT, assumptions=CURVE_ASSUME)
add('C07', harnesses=['scalar_mul', ('scalar_mul', ['-DREAL'])],
    functions=['curves/detail/scalar_mul.hpp: scalar_mul (with and without mixed addition), operator* (integer, residue, field element; both orders), operator*='],
    bounds='all scalars of 8 bits (thorough 11); 4 free bits at positions 28 and 60 of 64, 0, 62, 125, 252 of 256, 254 and 508 of 512 bits over four bit patterns; field scalars below 32/64 and near 2^60; curve elements: all points of two curves over F_5 (thorough F_7), all scalars below 8',
    outside='multiplication by std::size_t; scalars outside the windows',
    assumptions=['boost::multiprecision is a stand-in (mp/): msb, bit_test, is_zero have their documented meaning',
                 'the operand obeys the group laws (C01-C06)'])

EL = 'fields/detail/element/'
TOW = ['BLS381', 'BLS377', 'ALTBN', 'MNT4', 'MNT6', 'EDW']
FASSUME = ['boost::multiprecision is a stand-in (mp/): residues, their sums, products and inverses have their mathematical meaning',
           'the real parameters are used for the six pairing-friendly base fields; every coefficient is a variable']


def towers(*parts, curves=TOW):
    return [('tower', ['-D' + c, '-DPART_' + p]) for c in curves for p in parts]


add('F01', harnesses=[('tower_small', ['-DPART_BASE'])], functions=[EL + 'fp.hpp: every operator, pow, construction', EL + 'operations.hpp'],
    bounds='every pair of elements of F_7, F_13, F_17 (thorough 251); integers up to 16 bits', outside='inversion, square root (F03, F05); arithmetic of the multiprecision library',
    assumptions=FASSUME[:1])
add('F02', harnesses=towers('RING') + [('tower_small', ['-DPART_CMP'])],
    functions=[EL + '{fp2,fp3,fp4,fp6_2over3,fp6_3over2,fp12_2over3over2}.hpp: +, -, *, +=, -=, *=, unary -, doubled, squared, scalar products, ==, !=, is_zero, is_one, zero, one'],
    bounds='every element over the base fields of bls12-381, bls12-377, alt_bn128, mnt4-298, mnt6-298, edwards-183 (polynomial identities modulo p); comparison: every element over F_3 to F_7',
    outside='fields for which the repository defines no such extension; bn128 (its header does not compile)', assumptions=FASSUME)
add('F03', harnesses=towers('INV') + towers('INV12', curves=TOW[:3]) + [('tower_small', ['-DPART_INV'])],
    functions=[EL + '*.hpp: inversed'],
    bounds='every invertible element over the six real base fields (fp12: given an inverse in fp6); no division by zero: every non-zero element of F_{7^3}, F_{5^4}, F_{p^2} (p up to 7; thorough F_{13^3}, F_{17^2})',
    outside='that the sixth- and twelfth-degree inversions never invert a zero intermediate value', assumptions=FASSUME)
add('F04', harnesses=towers('FROB', 'CYC'),
    functions=[EL + '*.hpp: Frobenius_map, unitary_inversed, cyclotomic_squared', 'fields/detail/extension_params/**: non_residue, Frobenius_coeffs_c1, Frobenius_coeffs_c2'],
    bounds='every element (of the cyclotomic subgroup where required) over the six real base fields; powers 0 to twice the degree',
    outside='Frobenius powers beyond twice the degree', assumptions=FASSUME + ['cyclotomic elements are those with x^(p^(n/2)) x = 1 and, for 6 | n, x^(p^(n/3)) x = x^(p^(n/6)); an equation is proved when it is a linear combination of these relations'])
add('F05', harnesses=['sqrt_group', ('tower_small', ['-DPART_SQRT'])] + towers('SQRTP'),
    functions=[EL + 'fp2.hpp, ' + EL + 'fp3.hpp: sqrt, is_square', EL + 'fp.hpp: sqrt, is_square', 'extension_params: s, t, t_minus_1_over_2, nqr_to_t, group_order_minus_one_half'],
    bounds='every element in cyclic groups of order 2^s t, s up to 7; every element of F_{3^2}, F_{5^2}, F_{7^2} and of F_5 to F_17 (thorough F_{13^2}, F_{7^3}); parameters of the six real base fields (constants)',
    outside='sqrt of a non-square (documented not to be called); sqrt of the fourth-, sixth- and twelfth-degree fields (no implementation)',
    assumptions=FASSUME[:1] + ['in the group cases multiplication in the extension is the group operation (F02) and an element is its discrete logarithm'])
add('F06', harnesses=['exponent'], functions=['fields/detail/exponentiation.hpp: power', EL + '*.hpp: pow, cyclotomic_exp'],
    bounds='all exponents of 7 bits (thorough 10); 4 free bits at positions 28 and 60 of 64, 0, 62 and 252 of 256 bits over four bit patterns (thorough: also 1024 bits)',
    outside='exponents outside the windows; negative exponents', assumptions=['multiplication, squaring, cyclotomic squaring and inversion obey their laws (F02-F04)',
    'boost::multiprecision is a stand-in (mp/): msb, bit_test and find_wnaf have their documented meaning'])
add('F07', harnesses=towers('SPARSE', curves=['BLS381', 'BLS377', 'ALTBN', 'MNT4', 'MNT6', 'EDW']),
    functions=[EL + 'fp12_2over3over2.hpp: mul_by_045, mul_by_024', EL + 'fp4.hpp: mul_by_023', EL + 'fp6_2over3.hpp: mul_by_2345', EL + 'fp2.hpp: mul_x, mul_Fp_0, mul_Fp_1, mul_xi'],
    bounds='every element over the six real base fields', outside='mul_by_u helpers of fp2 on curves with a different non-residue', assumptions=FASSUME)

PF = 'pairing/'
PC = ['BLS', 'MNT4', 'MNT6', 'EDW']
add('R01', harnesses=[('pairing_loop', ['-DP_' + c]) for c in PC],
    functions=['algorithms/pair.hpp: pair, pair_reduced, miller_loop, double_miller_loop, precompute_g1, precompute_g2, final_exponentiation',
               PF + 'forms/short_weierstrass/{jacobian_with_a4_0,projective}/, ' + PF + '{mnt4,mnt6}/298/, ' + PF + 'edwards/183/: ate_precompute_g1, ate_precompute_g2, ate_miller_loop, ate_double_miller_loop'],
    bounds='every loop count of 2 to 4 bits (thorough 5), both signs; every point P; every point Q, twist and curve for loop counts of up to 3 bits (bls12) or 2 bits (the others), all y of Q on a fixed x and twist for 3 bits, '
           'one Q for 4 and 5 bits; two Miller loops: loop counts up to 4 bits; identities modulo 2^61-1',
    outside='the concrete loop counts (63 to 149 bits): each further bit repeats the steps that are covered; affine ate and Tate loops and alt_bn128 (do not compile at the commit); '
            'bls12-377 (its parameters do not compile); the final exponentiation (R02); miller_loop called directly with a precomputed identity of G2; loop intermediates that vanish',
    assumptions=['the field of the coordinates is an arbitrary field; GT is its extension by a root w of the twist, held as a fraction of polynomials in w (fractions so that inversions need no formula)',
                 'the reference multiplies the textbook tangents and chords (conics for Edwards) through multiples of Q computed by the affine law; values are compared up to factors of the subfield and w^(k/2), which R02 shows the final exponentiation removes',
                 'polynomial equations are decided on their expanded normal form'])
add('R02', harnesses=[('pairing_fe', ['-DP_' + c]) for c in PC],
    functions=[PF + '{forms/short_weierstrass/jacobian_with_a4_0,mnt4/298,mnt6/298,edwards/183}/final_exponentiation.hpp: process and its chunks',
               PF + 'detail/*/params.hpp: ate_loop_count and sign, final_exponent_*, twist, twist_coeff_a, twist_coeff_b', 'curves/detail/edwards/element_g2.hpp: mul_by_a, mul_by_d'],
    bounds='every element of GT (its logarithm modulo p^k - 1 is the variable) with the real parameters of bls12-381, mnt4-298, mnt6-298, edwards-183', outside='alt_bn128, bls12-377 (do not compile at the commit)',
    assumptions=['the multiplicative group of the field of p^k elements is cyclic, the Frobenius map raises to the power p, and multiplication, inversion, powers and cyclotomic operations are those of the field (F02-F06)'])
add('P01', harnesses=[('params', ['-DPART_' + c]) for c in ('PAIRING', 'SECP', 'EDWARDS')],
    functions=['curves/detail/*/params.hpp and curves/detail/*/*/params.hpp of alt_bn128-254, bls12-377/381, mnt4-298, mnt6-298, pallas, vesta, secp_k1 (4), secp_r1 (6), babyjubjub, jubjub, curve25519, ed25519, edwards-183',
               'zero, one, is_zero, is_well_formed, operator==, operator-, operator+, scalar multiplication of the element classes instantiated with these parameters'],
    bounds='is_well_formed: all coordinates in the base field; base point: its coordinates, its order and the neutral element are closed terms (no free variable)',
    outside='is_well_formed of affine short-Weierstrass elements (there is none); coordinate systems other than affine and the default one of each curve (C02-C04 show them equal); bn128, NIST names (files absent)',
    assumptions=['residues are those of the stand-in for the absent multiprecision library', 'acceptance is followed through the residue comparisons is_well_formed makes: an accepting path must have compared a multiple of the published equation'])
MX = 'the group operations of a base form a commutative group (C01-C05); the code under test only uses these, so the free abelian group decides every group'
add('X01', harnesses=[('multiexp', ['-DPART_METHODS'])],
    functions=['multiexp/multiexp.hpp: multiexp, multiexp_with_mixed_addition', 'multiexp/policies.hpp: multiexp_method_naive_plain, multiexp_method_BDLO12, multiexp_method_bos_coster: process', 'multiexp/inner_product.hpp (through multiexp)'],
    bounds='up to 8 bases; every scalar of 6 bits (1 base), 3-4 (2), 2 (3), 1 (4 to 8) (thorough 8, 5, 3, 2, 1); 61-bit scalars with a window of 2 free bits at bits 0, 30 and 57 over four patterns for up to 3 bases; 1 to 7 chunks',
    outside='USE_MIXED_ADDITION (does not compile at the commit: mixed_add returns nothing, batch_to_special is not declared); chunk count zero; inputs of different length (asserted)',
    assumptions=[MX, 'scalars are residues of the stand-in modulo 2^61-1'])
add('X02', harnesses=[('multiexp', ['-DPART_TABLES'])],
    functions=['multiexp/multiexp.hpp: get_window_table, windowed_exp, batch_exp, batch_exp_with_coeff', 'wnaf.hpp: fixed_window_wnaf_exp, opt_window_wnaf_exp'],
    bounds='tables: every scalar of 1, 4, 5, 6 bits (thorough 8), windows 1 to 4; wNAF: every scalar of 7 bits (thorough 9), windows 1 to 5, and 61-bit scalars with 4 free bits; every declared bit length up to two more',
    outside='get_exp_window_size (a table lookup on a concrete count); batch_to_special (no group provides its helper); find_wnaf belongs to the absent multiprecision library',
    assumptions=[MX, 'find_wnaf returns odd digits below 2^window in absolute value whose weighted sum is the scalar (stand-in)'])
add('C08', harnesses=['edwards_g2'], functions=['curves/detail/edwards/element_g2.hpp: all operations', 'curves/detail/edwards/183/params.hpp: constants of the second group'],
    bounds='all coordinates in the prime field on both sides, one operand at a time over the whole cubic extension, both with Z = 1 (thorough: both operands over the whole extension with free Z); polynomial identities modulo the 183-bit prime; doubling and sums of equal points: points of the twist',
    outside='the two-argument constructor (documented to take inverted coordinates); points of order 2 and 4, which inverted coordinates cannot represent',
    assumptions=['the cubic extension is the one of F01-F03; residues are those of the stand-in for the absent multiprecision library',
                 'a doubling is proved when the difference from the affine law is a linear combination of the components of Z times the equation of the twist'])
TOK = ['the digits of a symbolic integer are an opaque token that only import_bits turns back into the integer (the code under test copies bytes and only changes the three top bits of the first one); export_bits writes the significant octets only, as documented',
       'the square root returns either root, of the argument checked to be x^3 + b (F05); assertions are compiled out']
add('B01', harnesses=[('marshal', ['-DPART_ZCASH'])], functions=['curves/detail/marshalling.hpp: point_to_octets_compress, point_to_octets, octets_to_g1_point, octets_to_g2_point and their helpers'],
    bounds='every coordinate of bls12-381 whose encoding has 0, 1, 2, 47 or 48 significant octets (G2: 0, 1, 48; thorough also 47), Z of 1, 2 and 3, both square roots, the identity',
    outside='input that is not an encoding of a point (rejected by assertions only)', assumptions=TOK)
add('B02', harnesses=[('marshal', ['-DPART_BINCODE'])], functions=['marshalling.hpp: bincode::field<F>::field_element_to_bytes, field_element_from_bytes, get_element_size; bincode::curve<bls12_381>: all'],
    bounds='every element of the base, scalar, quadratic and target fields of bls12-381, of mnt4-298 (base and quartic) and of secp256k1, by number of significant octets (0, 1, 2, full, full minus one or two); any integer of the width of the modulus as input',
    outside='input with bits beyond the width of the modulus in its last octet', assumptions=TOK)
add('H01', harnesses=[('h2c', ['-DPART_G1']), ('h2c', ['-DPART_G2'])],
    functions=['curves/detail/h2c/h2c_m2c.hpp: m2c_simple_swu::process, m2c_simple_swu_zeroAB::process', 'curves/detail/h2c/h2c_iso_map.hpp: iso_map::process of both groups'],
    bounds='every element of the base field and of its quadratic extension, either square root, either outcome of each square test; isogeny: every x and y; the published constants and map_to_curve at 0, Z, .., 5Z are closed terms',
    outside='the headers of the suites and of sgn0, which the repository includes and does not contain (stand-ins after RFC 9380); hashing octets to field elements',
    assumptions=['the square test and the square root mean what they say (F05); the root of a non-zero value is not zero', 'residues are those of the stand-in for the absent multiprecision library; the inverse of zero is zero there, as SWU needs',
                 'the norm of a non-zero element of the quadratic extension is not zero (p is 3 modulo 4)'])
add('N01', harnesses=['random'], functions=['random_element.hpp: random_element (three overloads)'],
    bounds='fields: every value of every draw, ten fields of degree 1 to 12; groups: windows of 3 or 4 free bits at the bottom, middle and top of the scalar, four groups',
    outside='the quality of the generator; uniformity of the distribution class itself',
    assumptions=['uniform_int_distribution(lo, hi) of the absent library returns any value from lo to hi inclusive, each as likely (stand-in)'])
