"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'include/nil/crypto3/algebra/'
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), state=None, observe=None,
         technique='symbolic execution of the compiled templates, z3 decides every path', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over),
                  state=state, observe=observe, technique=technique, note=note, na=na))


TESTS = 'The existing tests are a few compile-time assertions on fixed small matrices and vectors of double or int; '

prop('V01', 'Vector arithmetic, equality and elementwise maps act component by component',
     'For every vector size and all component values, the sum, product and quotient operators (vector with vector, and '
     'scalar with vector in either order) and an arbitrary elementwise map or element cast yield exactly the vector '
     'whose i-th component is the operation on the i-th components, and leave their operands unchanged. Two vectors '
     'compare equal exactly when all their components are equal, and unequal otherwise. Indexing and iteration '
     'visit exactly the components in order, and writing one component changes no other.',
     'all component values and scalars; vector sizes 1-8, 11, 16 (thorough: up to 33)',
     TESTS + 'one size and one value per operator; a wrong index, bound or operand order shows only at other sizes or values.',
     [R + 'vector/operators.hpp', R + 'vector/utility.hpp', R + 'vector/vector.hpp'],
     [('operators via elementwise', 'vector/operators.hpp'), ('elementwise, cast', 'vector/utility.hpp')],
     note='Bounded: sizes 1-16 (33 thorough); every real component value. Elements are an exact ordered field, so rounding of floating point is outside.')
prop('V02', 'Rotating, slicing, joining and generating vectors place every element right',
     'For every vector size, rotation by any amount (negative, zero, or beyond the size) puts component (i+n) mod size '
     'at position i; a slice holds the consecutive components from its start; concatenation holds the first operand '
     'followed by the second. Consecutive, constant and index-generated vectors hold the prescribed values, an evenly '
     'spaced vector starts at its minimum, ends at its maximum and has equal steps. Accumulation folds the operation '
     'once per component, from the first to the last, starting from the initial value.',
     'all component values; sizes 1-8 and 11 (thorough 17); rotations within three sizes either way and selected far ones; every slice length and start',
     TESTS + 'slices of one vector and one generated vector; rotation, concatenation, linspace and accumulation order are not tested at all.',
     [R + 'vector/utility.hpp'],
     [('rotate, slice, concat', 'vector/utility.hpp'), ('iota, linspace, fill, generate, accumulate', 'vector/utility.hpp')],
     note='Bounded: sizes, slice starts and rotation amounts enumerated as stated, component values symbolic. linspace for size 1 (division by zero by definition) is outside.')
prop('V03', 'Vector reductions: dot product, sum, extremes, magnitudes, complex parts',
     'For all component values the dot product is the sum of each left component times the conjugate of the right one, '
     'and the sum adds every component exactly once. The minimum and maximum are bounds attained by some component, '
     'and their index functions give the first position that attains them. Conjugation, real part, imaginary part and '
     'absolute value act on each component, for real and complex element types.',
     'all real and complex component values; sizes 1-16 for sums and products, 1-7 (thorough 10) where the code compares components',
     TESTS + 'one integer sum; ties, complex elements and the position of extremes are never exercised.',
     [R + 'vector/math.hpp', R + 'scalar/math.hpp'],
     [('dot, sum, min, max, min_index, max_index', 'vector/math.hpp'), ('conj, abs', 'scalar/math.hpp')],
     note='Bounded sizes, all real component values; square root is uninterpreted (shared by code and specification); floating rounding outside.')
prop('M01', 'Matrix arithmetic, equality, access and generators act element by element',
     'For every matrix shape and all element values, the sum, product and quotient operators with matrices and scalars, '
     'elementwise maps, casts and conjugate/real/imaginary parts give the matrix of elementwise results; two matrices are equal '
     'exactly when all elements are. Row and column access return the addressed row or column and reject any index '
     'past the end with an exception. Constant, index-generated and identity matrices hold the prescribed elements.',
     'all element values; 13 shapes up to 5x2 / 4x4 (thorough to 8x8); every in-range row and column index and out-of-range indices up to the largest size value',
     TESTS + 'one 3x3 matrix; non-square shapes, out-of-range access and most operators are not tested.',
     [R + 'matrix/operators.hpp', R + 'matrix/utility.hpp', R + 'matrix/matrix.hpp', R + 'matrix/math.hpp'],
     [('operators', 'matrix/operators.hpp'), ('elementwise, generate, fill, identity', 'matrix/utility.hpp'),
      ('row, column', 'matrix/matrix.hpp')],
     note='Bounded shapes, all real element values; rounding outside.')
prop('M02', 'Restructuring a matrix moves every element to its place',
     'For every shape, transposition exchanges rows and columns, the Hermitian transpose also conjugates, repetition '
     'tiles the matrix, exchanging two rows or two columns changes exactly those, horizontal and vertical joining '
     'place the operands side by side, and reshaping preserves row-major order. A submatrix is the addressed block and '
     'any block that does not fit is rejected with an exception. Vectors convert to one-row and one-column matrices '
     'with their components in order.',
     'all element values; 12 shapes up to 4x4 including rows and columns (thorough 6x4), all row/column pairs, all block positions, all factorizations for reshape',
     TESTS + 'one horizontal join of identities and one 2x2 submatrix; nothing non-square, no exceptions.',
     [R + 'matrix/utility.hpp', R + 'matrix/math.hpp'],
     [('repmat, swaprow, swapcol, horzcat, vertcat, submat, reshape, as_row, as_column', 'matrix/utility.hpp'),
      ('transpose, hermitian', 'matrix/math.hpp')],
     note='Bounded shapes and positions as stated, all real/complex element values; memory errors are detected by the address sanitizer on every explored path.')
prop('M03', 'Matrix products, trace and norms equal their definitions',
     'For all element values and conforming shapes, the matrix product, vector-matrix and matrix-vector products and the '
     'Kronecker product equal their defining sums of products, over real and complex elements. The trace is the sum of the '
     'diagonal. The row-sum and column-sum norms are the greatest sum of absolute values over the rows and over the columns.',
     'all element values; products of 10 shape triples up to 4x4x4, Kronecker products up to 6x6, norms up to 3x3 (thorough 5x5x5, 8x3x8, 3x4)',
     TESTS + 'one 3x3 self-product; other shapes, Kronecker products, trace and norms are untested.',
     [R + 'matrix/math.hpp'],
     [('matmul, vectmatmul, matvectmul, kron, trace, macs, mars', 'matrix/math.hpp')],
     note='Bounded shapes, all real element values; rounding outside.')
prop('M04', 'Row reduction yields the reduced echelon form and the exact rank',
     'For every matrix the computed reduced row echelon form has unit pivot columns, zeros left of each pivot, zero rows '
     'last, and the same row space as the matrix, and the rank equals its number of nonzero rows; this includes zero, '
     'rank-deficient, wide and tall matrices and an explicitly given tolerance. No elimination step divides by zero. '
     'With a rounding tolerance in effect, matrices of small integers scaled by any power of two are still reduced exactly.',
     'all real element values for shapes up to 3x3 (thorough 4x2, 2x4, 3x4) with tolerance zero; integer entries in [-3,3] scaled by 1 and 2^-60 with the tolerance of double',
     TESTS + 'one 3x3 matrix of rank 2; pivot exchanges, zero columns, non-square and degenerate inputs are not reached.',
     [R + 'matrix/math.hpp'],
     [('gauss_jordan_impl: pivot search, elimination, rank', 'matrix/math.hpp')],
     note='Bounded shapes, every real matrix of those shapes with exact arithmetic (machine epsilon 0), plus scaled small-integer matrices with epsilon 2^-52; rounding errors of the arithmetic itself are outside. abs is summarised by its definition and, with epsilon 0, the norm by a constant (both decided in V03/M03).')
prop('M05', 'Determinant and inverse are exact and singular matrices are rejected',
     'For every square matrix the determinant equals the alternating sum over permutations, including its sign and '
     'including singular matrices. The inverse multiplied with the matrix on either side gives the identity, and an '
     'exception is raised exactly when the determinant is zero. With a rounding tolerance in effect this also holds for '
     'matrices of small integers scaled by a power of two.',
     'all real matrices of size 1-3 (thorough 4); integer entries in [-3,3] scaled by 1 and 2^-60 for size 2 with the tolerance of double',
     TESTS + 'the inverse of the identity and of one 2x2 matrix; the determinant is never tested.',
     [R + 'matrix/math.hpp'],
     [('gauss_jordan_impl determinant, inverse', 'matrix/math.hpp')],
     note='Bounded sizes, every real matrix with exact arithmetic; same summaries and exclusions as M04.')


def main():
    exec(open(os.path.join(HERE, 'tools', 'props2.py')).read(), globals()) if os.path.exists(
        os.path.join(HERE, 'tools', 'props2.py')) else None
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']:
                anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=anchors)) + '\n')
    m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[],
             notes='Every check compiles its harnesses from /repo/include on each run; see DESIGN.md.')
    for p in P:
        if p['na']:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        else:
            m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt run.py %s --tier quick' % p['id'],
                                    thorough_cmd='python3-vt run.py %s --tier thorough' % p['id'],
                                    technique=p['technique'], level='model_checking', level_note=p['note']))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
