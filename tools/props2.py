# loaded by props.py
F = R + 'curves/detail/forms/'
SW = F + 'short_weierstrass/'
NOTE = ('Generic characteristic decided over the rational functions; every special case over small prime fields; the concrete 255-bit fields are not enumerated. '
        'The field is a stand-in for the absent multiprecision library.')
WHY = 'The repository\'s curve tests need the multiprecision library and do not run here; in general they sample a handful of fixed points per curve and miss the rare relations between operands. '
prop('C01', 'Affine Weierstrass points add by chord and tangent, in every special case',
     'For every short Weierstrass curve and all its affine points P and Q, P+Q, P+=Q, P-Q, P-=Q, -P and doubling give the '
     'chord-and-tangent result: distinct points, equal points, opposite points, points of order two (doubling gives the '
     'point at infinity), and the point at infinity on either side or both, for either encoding of it, (0,0) or (0,1). '
     'No division by zero occurs, and a point may be combined with itself in place.',
     'all points, all curves: generic characteristic and every point over small prime fields', WHY,
     [SW + 'element_g1_affine.hpp'], [('operators, add, double_inplace', 'short_weierstrass/element_g1_affine.hpp')], note=NOTE)
prop('C02', 'Jacobian points (three variants) add, double and mixed-add like the affine group',
     'For every curve, all points and every choice of non-zero Z, the Jacobian representations (general a, a = 0, a = -3) of '
     'P+Q, P+=Q, P-Q, P-=Q, -P, 2P and mixed addition (second operand with Z = 1) represent the affine chord-and-tangent '
     'result, including equal and opposite operands, points of order two and the point at infinity in any of its '
     'representations on either side.',
     'all points, all Z, all curves: generic characteristic and every point over small prime fields', WHY,
     [SW + 'jacobian/', SW + 'jacobian_with_a4_0/', SW + 'jacobian_with_a4_minus_3/'],
     [('add, double, mixed_add', 'short_weierstrass/jacobian*/element_g1.hpp'), ('formulas', 'short_weierstrass/jacobian*/{add,dbl,madd}_*.hpp')], note=NOTE)
prop('C03', 'Projective points (two variants) add, double and mixed-add like the affine group',
     'For every curve, all points and every non-zero Z, the homogeneous projective representations (general a and a = -3) '
     'of P+Q, P+=Q, P-Q, -P, 2P and mixed addition (second operand with Z = 1) represent the affine '
     'chord-and-tangent result, including equal and opposite operands, points of order two and the point at infinity '
     'on either side.',
     'all points, all Z, all curves: generic characteristic and every point over small prime fields', WHY,
     [SW + 'projective/', SW + 'projective_with_a4_minus_3/'],
     [('add, double, mixed_add', 'short_weierstrass/projective*/element_g1.hpp'), ('formulas', 'short_weierstrass/projective*/{add,dbl}_*.hpp')], note=NOTE)
prop('C04', 'Edwards-family points add by the Edwards law in every coordinate system',
     'For complete (twisted) Edwards curves, affine, extended and inverted coordinates give for P+Q, P+=Q, P-Q, P-=Q, -P, '
     '2P and mixed addition exactly the Edwards addition law, for distinct, equal and opposite operands and the neutral '
     'element on either side in either of its encodings; extended results keep T = XY/Z and Z non-zero. Inverted coordinates and the '
     'dedicated mixed formulas are covered for points of odd order, which is all they can represent.',
     'all points, all scalings, all complete curves: generic characteristic and every point over small prime fields', WHY,
     [F + 'twisted_edwards/', F + 'edwards/'],
     [('operators', 'twisted_edwards/*/element_g1*.hpp'), ('formulas', 'twisted_edwards/*/{add,dbl,madd}_2008_*.hpp, edwards/inverted/*_2007_bl.hpp')], note=NOTE)
prop('C05', 'Montgomery points add correctly and map faithfully to and from twisted Edwards',
     'For every Montgomery curve and all affine points, addition, subtraction, negation and doubling follow the '
     'chord-and-tangent law, including points of order two and the point at infinity. The maps between Montgomery and twisted Edwards points with '
     'corresponding coefficients send points of one curve to points of the other, are mutually inverse, respect the group '
     'operation, and map the point at infinity and the point of order two correctly, without dividing by zero.',
     'all points and curves: generic characteristic and every point over small prime fields; scaled coefficients B', WHY,
     [F + 'montgomery/element_g1_affine.hpp', F + 'twisted_edwards/element_g1_affine.hpp'],
     [('operators, to_twisted_edwards', 'montgomery/element_g1_affine.hpp'), ('to_montgomery', 'twisted_edwards/element_g1_affine.hpp')], note=NOTE)
prop('C06', 'Point equality, validity and conversions are independent of representation',
     'In every form and coordinate system two points compare equal exactly when they are the same affine point, whatever '
     'their scaling; the neutral element equals only itself and is recognised in each representation; a point is reported well formed '
     'exactly when its affine coordinates satisfy the curve equation (and T = XY/Z for extended coordinates). zero() and one() are the neutral element and the generator; '
     'conversions to affine, projective, inverted and extended coordinates preserve the point, the neutral one included.',
     'every point of the plane and every scaling factor: generic characteristic and small prime fields', WHY,
     [F], [('operator==, is_zero, is_well_formed, to_*', 'curves/detail/forms/*/element_g1*.hpp')], note=NOTE)
prop('C07', 'Multiplying a point by a scalar gives exactly that multiple of the point',
     'For every group element and every non-negative scalar of any width, given as an integer on either side or as a scalar-field element, '
     'the product is the sum of that many copies of the element: zero gives the neutral element, one the element itself. In-place '
     'multiplication agrees with it. The operand is left unchanged, and mixed addition is only used with an operand '
     'whose Z coordinate is one.',
     'every scalar of up to 8 bits (thorough 11), windows of 4 free bits at the ends and around word boundaries of 64-, 256- and 512-bit scalars over four bit patterns; every group',
     'The tests never multiply a point; a wrong bit order, a lost top bit or a truncated loop counter shows only for particular scalars.',
     [R + 'curves/detail/scalar_mul.hpp'],
     [('scalar_mul, operator*, operator*=', 'curves/detail/scalar_mul.hpp')],
     note='Bounded scalar windows; the group is the free group on one generator (a word in the operand), so the result holds in every group. crypto3-multiprecision is absent: msb and bit_test are modelled by their meaning. Multiplication by a machine integer (size_t) is outside.')

FE = R + 'fields/detail/element/'
TF = ('The repository\'s field tests need the multiprecision library and do not run here; they also compare a handful of fixed elements per field, '
      'so a wrong term or constant that only shows for other elements or powers passes. ')
FN = 'The multiprecision library is absent and modelled by exact residue arithmetic. '
prop('F01', 'Prime-field elements behave as integers modulo the prime under every operator',
     'For all field elements and integers, the operators +, -, *, their in-place forms (also with the element itself as operand), negation, doubling, squaring, '
     'prefix and postfix increment and decrement, and mixed operations with machine integers on either side give the integer result reduced modulo the prime; '
     'ordering comparisons follow the canonical representatives; construction from any integer reduces it; pow(e) is the e-fold product and x^p = x; operands are not changed.',
     'every pair of elements of several small prime fields, integers up to 16 bits', TF,
     [FE + 'fp.hpp', FE + 'operations.hpp'], [('element_fp', 'fields/detail/element/fp.hpp'), ('mixed operators', 'fields/detail/element/operations.hpp')],
     note='Every element of small prime fields; ' + FN)
prop('F02', 'Extension-field arithmetic is polynomial arithmetic modulo the fixed polynomial',
     'For every extension field of the pairing curves (degrees 2, 3, 4, 6 and 12) and all elements, sum, difference, negation, doubling, product, square, products with elements of every subfield, '
     'and the in-place forms (also with the element itself as operand) equal polynomial arithmetic modulo the published irreducible polynomial, on every coefficient. zero() and one() are the neutral elements. '
     'Two elements compare equal exactly when all coefficients agree. Operands are not changed.',
     'every element over the real base fields of six curves; comparisons over small fields', TF,
     [FE], [('operator*, squared, mul_by_non_residue', 'fields/detail/element/*.hpp'), ('non_residue', 'fields/detail/extension_params/')],
     note=FN + 'Polynomial identities with every coefficient a variable, decided modulo the real prime.')
prop('F03', 'The inverse of a field element times the element is one in every field',
     'For every non-zero element of every prime and extension field, the inverse times the element is one; computing it inverts no zero of a subfield and does not change the element.',
     'every invertible element over the real base fields; every non-zero element of small fields', TF,
     [FE], [('inversed', 'fields/detail/element/*.hpp')],
     note=FN + 'Identity modulo the real prime where the divisors do not vanish; vanishing divisors are excluded for small fields up to degree 4.')
prop('F04', 'Frobenius maps and cyclotomic shortcuts equal the powers they stand for',
     'For every element of every extension field and every k, Frobenius_map(k) is the power with exponent p^k. For every element of the cyclotomic subgroup, unitary_inversed is its inverse and cyclotomic_squared its square. '
     'The non-residues of the parameters are the published ones and make the extensions fields.',
     'every element over the real base fields; k up to twice the degree', TF,
     [FE, R + 'fields/detail/extension_params/'],
     [('Frobenius_map, unitary_inversed, cyclotomic_squared', 'fields/detail/element/*.hpp'), ('Frobenius_coeffs_c1, Frobenius_coeffs_c2', 'fields/detail/extension_params/*/*.hpp')],
     note=FN + 'All Frobenius constants of six curves are covered because every coefficient is a variable.')
prop('F05', 'Square roots and the square test are right for every square and non-square',
     'For every square of a prime, quadratic or cubic extension field, zero included, sqrt() terminates with an element whose square is the argument. is_square() holds exactly for the squares. The parameters of the square root '
     '(2-adicity, odd part, power of a non-square, half the group order) fit the field.',
     'every element: groups of every 2-adicity up to 7, small fields, parameters of the real fields', TF + 'The number of rounds of the square root depends on the element; rare elements need all rounds.',
     [FE + 'fp2.hpp', FE + 'fp3.hpp', FE + 'fp.hpp', R + 'fields/detail/extension_params/'],
     [('sqrt, is_square', 'fields/detail/element/{fp,fp2,fp3}.hpp')],
     note=FN + 'The prime-field square root is the library\'s ressol and only its use is decided here.')
prop('F06', 'Raising to a power gives exactly that power for every exponent',
     'For every base and every non-negative exponent of any width, the generic power, pow of every extension field, and cyclotomic_exp of the fields that have one give the product of exactly that many copies of the base; exponent zero gives one.',
     'all exponents of 7 bits (thorough 10), windows of free bits in 64- and 256-bit exponents (thorough 1024)', TF + 'A lost top bit or a truncated counter shows only for particular exponents.',
     [R + 'fields/detail/exponentiation.hpp', FE],
     [('power', 'fields/detail/exponentiation.hpp'), ('pow, cyclotomic_exp', 'fields/detail/element/*.hpp')],
     note='Bounded exponent windows; the base is a free generator, so the result holds in every group. msb, bit_test and find_wnaf of the absent library are modelled by their meaning.')
prop('F07', 'Sparse multiplications of the pairing fields equal the full product',
     'For every element and every sparse operand, mul_by_045, mul_by_024, mul_by_023, mul_by_2345 and the multiplications by u, by a base-field element and by the sextic non-residue equal the product with the full element that has '
     'these coefficients in the stated places and zeros elsewhere.',
     'every element over the real base fields of six curves', TF,
     [FE], [('mul_by_045, mul_by_024', 'fields/detail/element/fp12_2over3over2.hpp'), ('mul_by_023', 'fields/detail/element/fp4.hpp'), ('mul_by_2345', 'fields/detail/element/fp6_2over3.hpp')],
     note=FN + 'Polynomial identities modulo the real prime.')
PA = R + 'pairing/'
prop('R01', 'Miller loops multiply the textbook lines through multiples of Q, at P',
     'For every supported pairing (bls12, mnt4, mnt6, edwards), all points P and Q, and every loop count, positive or negative, miller_loop(precompute_g1(P), precompute_g2(Q)) equals, up to factors that the final exponentiation sends to one, '
     'the product (with the usual squarings) of the tangents and chords through the multiples of Q evaluated at P. double_miller_loop equals the product of two Miller loops. pair composes precomputation and Miller loop, '
     'pair_reduced adds the final exponentiation, and both give the identity of GT when either point is the identity.',
     'every loop count up to 4 bits (thorough 5), both signs, every P; every Q, twist and curve for short loop counts',
     'The pairing tests need the absent multiprecision library and do not run; they compare intermediate values of one pair of points per curve.',
     [PA, R + 'algorithms/pair.hpp'],
     [('doubling and addition steps', 'pairing/**/ate_precompute_g2.hpp'), ('Miller loop', 'pairing/**/ate_miller_loop.hpp, ate_double_miller_loop.hpp'), ('pair, pair_reduced', 'algorithms/pair.hpp')],
     note='The real pairing code over an arbitrary field, twist and loop count; bounded loop lengths. Polynomial identities modulo 2^61-1.')
prop('R02', 'The final exponentiation is a non-trivial power onto the r-th roots of unity',
     'For every element f of GT of each supported pairing, final_exponentiation(f) is f raised to one fixed exponent, which is a multiple of (p^k-1)/r that is not a multiple of p^k-1; so the result is an r-th root of unity, elements of the subfield '
     '(the factors Miller values may be off by) go to one, and the map is not constant. Cyclotomic shortcuts are used only inside the cyclotomic subgroup. The loop count is p modulo r, and the curve of the second group is the stated twist of the first.',
     'every element of GT, real parameters of bls12-381, mnt4-298, mnt6-298 and edwards-183',
     'The pairing tests need the absent multiprecision library and do not run; a wrong exponent still gives a plausible element for each sampled input.',
     [PA], [('final exponentiation', 'pairing/**/final_exponentiation.hpp'), ('parameters', 'pairing/detail/*/params.hpp')],
     note='The logarithm of the element modulo p^k-1 is the variable and every operation acts on it with the real modulus, so the result holds for all elements.')
prop('P01', 'Named curves have their published equation, base point and order',
     'For every named curve that compiles at the commit, is_well_formed of an element with affine coordinates (x, y) holds exactly when (x, y) satisfies the published equation, for all x and y; the base field has the published modulus; zero() is the neutral element '
     'and is well formed; one() is the published base point, is well formed, and has exactly the published order: modulus * one() is zero and (modulus-1) * one() is -one().',
     'all coordinates of the base field, 21 named curves in each form and default coordinate system',
     'A membership test that accepts a point off the curve for rare coordinates is invisible to a test that feeds it generators.',
     [R + 'curves/detail'], [('parameters', 'curves/detail/*/params.hpp'), ('membership', 'curves/detail/forms/**/element_g1*.hpp: is_well_formed')])
prop('X01', 'Multi-exponentiation returns the sum of the scalar multiples',
     'For every commutative group, all bases and all scalars, multiexp with each method (naive_plain, BDLO12, bos_coster) and multiexp_with_mixed_addition, for every number of chunks from one up, return the sum over i of scalar[i] times base[i]; '
     'this includes the empty sum, scalars that are all zero or one, equal scalars, scalars of very different length and repeated bases. The inputs are not changed, and nothing is read out of bounds.',
     'up to 8 bases and 7 chunks, all short scalars, windows of free bits in 61-bit scalars',
     'The multiexp test needs the absent multiprecision library and does not run; it compares methods with each other on random scalars, which are never zero, equal or short.',
     [R + 'multiexp'], [('methods', 'multiexp/policies.hpp'), ('chunks and zero/one scalars', 'multiexp/multiexp.hpp')])
prop('X02', 'Fixed-base tables and windowed NAF compute the scalar multiple',
     'For every commutative group, base, window size and scalar below 2^scalar_size, windowed_exp over get_window_table(scalar_size, window, g) returns the multiple of g, batch_exp does so for each element of its input, batch_exp_with_coeff for each element times the coefficient; '
     'fixed_window_wnaf_exp and opt_window_wnaf_exp return the multiple of the base for every window and every stated bit length.',
     'all scalars up to 7 bits, windows 1 to 5, windows of free bits in 61-bit scalars',
     'No existing test covers the tables or the wNAF code; a wrong last, partial window shows only for sizes that are not multiples of the window.',
     [R + 'multiexp/multiexp.hpp', R + 'wnaf.hpp'], [('tables', 'multiexp/multiexp.hpp: get_window_table, windowed_exp'), ('wNAF', 'wnaf.hpp')])
prop('C08', 'The second Edwards group: inverted coordinates over the cubic extension',
     'For all points of the second group of the Edwards pairing curve, addition, subtraction, mixed addition, doubling and negation give the point of the affine Edwards law of the twist, also when the operands are equal, opposite or neutral, '
     'and the other operand is unchanged; equality identifies exactly the representations of one point; conversion to affine coordinates keeps the point; is_well_formed accepts exactly the representations of points of the twist; the base point is on the twist and has the group order.',
     'all coordinates over the cubic extension of the 183-bit prime field',
     'The existing curve test needs the absent multiprecision library; it compares a handful of points.',
     [R + 'curves/detail/edwards'], [('element class', 'curves/detail/edwards/element_g2.hpp'), ('parameters', 'curves/detail/edwards/183/params.hpp')])
prop('B01', 'BLS12-381 points: the ZCash encoding round-trips and has the stated layout',
     'For every point of either group of bls12-381, in any Jacobian representation, the compressed encoding is the big-endian x coordinate (for the second group x1 then x0) with the compression bit set and the sign bit set exactly when y is the larger root; '
     'the uncompressed one is x then y with these bits clear; the identity is its flag bit and zeros. Decoding an encoding gives the affine point again, with Z = 1, whatever root the square root returns, and leaves its input unchanged.',
     'all coordinates, by number of significant octets', 'No existing test covers serialization; short coordinates and the choice of the root depend on rare values.',
     [R + 'curves/detail/marshalling.hpp'], [('encoding', 'curves/detail/marshalling.hpp: point_to_octets*'), ('decoding', 'curves/detail/marshalling.hpp: octets_to_g*_point')])
prop('B02', 'bincode: field elements and points round-trip through bytes of fixed length',
     'For every field and element, field_element_to_bytes fills the whole output with the little-endian components in order, whatever it held before, and field_element_from_bytes returns the element with true. For any input bytes the flag is true exactly when every component is below the modulus. '
     'The curve-level functions of bls12-381 do the same for field elements and give the compressed encoding for points; the size functions state the number of bytes written.',
     'all elements, by number of significant octets', 'No existing test covers serialization; an element with a leading zero octet turns up once in 256 random ones.',
     [R + 'marshalling.hpp'], [('fields', 'marshalling.hpp: bincode::field'), ('bls12-381', 'marshalling.hpp: bincode::curve')])
prop('H01', 'Hashing to BLS12-381: SWU map, isogeny and their signs',
     'For every field element u of either base field of bls12-381, the simplified SWU map returns an affine point (x, y) with y^2 = x^3 + A x + B whose y has the sign of u, x being the first candidate exactly when its right-hand side is a square '
     'and B/(Z A) in the exceptional case, whatever root the square root returns. The isogeny takes every point of the isogenous curve to a point of the curve, y by a factor depending on x only, exactly the points of its kernel to the neutral element, and is the published one; map_to_curve composes the two.',
     'every element of the base field and its quadratic extension', 'No existing test runs it; exceptional inputs (u = 0, kernel points, x0 = 0) are never hit by samples.',
     [R + 'curves/detail/h2c'], [('SWU', 'curves/detail/h2c/h2c_m2c.hpp'), ('isogeny', 'curves/detail/h2c/h2c_iso_map.hpp')])
prop('N01', 'Random elements are uniform',
     'random_element of a prime or extension field is a bijective image of independent uniform draws, one for each component, so that each element is as likely as any other and zero is not special; random_element of a curve group is the drawn scalar, from 0 to the group order minus one, times the base point. '
     'All draws come from the generator that is passed.',
     'every value of every draw (fields); 2 to 4 free bits of the scalar (groups)', 'A bias of one value in 2^255 cannot be seen in samples.',
     [R + 'random_element.hpp'], [('fields and groups', 'random_element.hpp')])
prop('S01', 'Scalar roots, logarithm and exponential reach the stated accuracy',
     'For every finite non-negative floating-point argument the square root, n-th root, exponential and logarithm terminate and return a value within a few units in the last place of the true one.',
     'every finite double', 'The tests evaluate a handful of arguments; termination of an iteration to a fixed point depends on rounding.',
     [R + 'scalar/math.hpp'], [('sqrt, nthroot, exponentiate, log', 'scalar/math.hpp')],
     na='The functions iterate to a fixed point of IEEE double arithmetic; the number of iterations is not bounded by the code and the accuracy claim is about transcendental functions. '
        'The exact-field terms used here do not model rounding, and bit-blasted double division and multiplication over tens of iterations are out of reach of the available solvers. '
        'The known non-termination for 0, infinity and NaN is described in DESIGN.md.')
prop('T01', 'Number-theory helpers: totients, factorization, discrete structure',
     'For every input integer the number-theoretic helpers return the mathematically defined function.', 'every integer in range',
     'No stable test builds them.', [R + 'totient.hpp', R + 'primes.hpp'], [('totients', 'totient.hpp'), ('primes and factorization', 'primes.hpp')],
     na='These headers include boost/multiprecision number-theory headers (modular reduction, primality, inverse) of the crypto3 fork that is absent from this sandbox; the code cannot be compiled to '
        'an executable form here, and a stand-in would replace nearly all of the code the property is about.')
