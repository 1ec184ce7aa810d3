"""The catalogue of properties: source of properties.jsonl, MANIFEST.json and of what each check runs.

After an edit run `python3 tools/gen.py`."""
import os

WIT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness')
SPECS = {}

AI = ('abstract interpretation of the compiler IR of the templates (flow- and path-sensitive, trace-partitioned; exact '
      'rational-function / sign / linear-inequality value domain, field-sensitive memory); no execution, no solver')
TY = 'type-level witnesses: static assertions and programs that must (not) compile, decided by two C++ front ends'

A_INT = 'integer values are unbounded mathematical integers (overflow of user values is not modelled)'
A_REAL = 'float and double are real numbers (rounding is not modelled; NaN and infinities are excluded)'
A_MATH = ('sin, cos, acos, sqrt are uninterpreted functions with the identities sin^2+cos^2=1, double angle, '
          'sqrt(x)^2=x, cos(acos(x))=x')
A_ALLOC = 'allocation by operator new succeeds'
A_INST = 'the template is analysed for the instantiations the witness unit lists (dimensions and value types)'


def P(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=AI, rule='',
      assumptions=(), note='', steps=None, na=None):
    if steps is None:
        steps = []
        for f in ('%s.cpp' % pid, '%s.types.cpp' % pid):
            if os.path.exists(os.path.join(WIT, f)):
                steps.append(('types' if '.types.' in f else 'absint', f))
    if technique == AI and any(k == 'types' for k, _ in steps):
        technique = AI + '; plus ' + TY if any(k == 'absint' for k, _ in steps) else TY
    if na is None and not steps:
        na = 'machinery not built yet'
    SPECS[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, state=state, observe=observe,
                      technique=technique, rule=rule, assumptions=list(assumptions), note=note,
                      steps=steps, na=na, level='other')


R_AI = ('every obligation of the witness unit is discharged on every abstract path through the current nytl code; an '
        'expectation the domain cannot decide is split and its false branch is reported with the function and line')

# --------------------------------------------------------------------------- flags
P('F01', 'Flag sets behave as bit sets over the enumeration',
  'Combining, intersecting, toggling, inverting and comparing flag sets, in every mix of single enumeration values and '
  'flag sets, gives exactly the bit-wise result on the underlying values. Compound assignments modify only their left '
  'operand and return it; a default constructed flag set is empty.',
  ['inputs'], 'all pairs of bit patterns', 'The flags test combines four literal values of one enumeration; nothing '
  'covers all bit patterns or every operand mix.',
  ['nytl/flags.hpp', 'nytl/fwd/flags.hpp'], [('Flags operators and NYTL_FLAG_OPS', 'nytl/flags.hpp')],
  observe=['value() / conversion to the underlying type'], rule=R_AI,
  assumptions=['bit patterns are compared bit by bit as symbolic boolean vectors'],
  note='Complete for all bit patterns of a 32 bit enumeration.')

# --------------------------------------------------------------------------- span
P('P01', 'Spans and their sub-views denote exactly the requested elements',
  'A span constructed from a pointer and size, an iterator range, an array or a container refers to exactly these elements '
  'without copying. First, last and sub views with run-time or compile-time bounds, byte views, iterators, element access, size '
  'and emptiness agree with it for every size, offset and count that is in range.',
  ['inputs'], 'all sizes, all in-range offsets and counts, dynamic and fixed extents',
  'The span test builds a handful of views of small literal arrays and checks single elements.',
  ['nytl/span.hpp', 'nytl/fwd/span.hpp'], [('span constructors, first/last/subspan, as_bytes', 'nytl/span.hpp')],
  observe=['data(), size(), begin(), end(), operator[]'], rule=R_AI, assumptions=[A_INT, A_INST],
  note='Sizes, offsets and counts are symbolic, so every length is covered; element types int and byte, extents dynamic, 4, 5 and 7.')
P('P03', 'Spans compare by value in lexicographical order',
  'Two spans are equal exactly when they have the same size and equal elements. The ordering comparisons are the lexicographical '
  'order of the elements, consistent with each other and with equality.',
  ['inputs'], 'all element values, sizes up to 3 in every combination, fixed and dynamic extents',
  'No test compares spans of different sizes or with a common prefix.',
  ['nytl/span.hpp'], [('comparison operators', 'nytl/span.hpp')], observe=['== != < <= > >='],
  rule=R_AI, assumptions=[A_INT, 'sizes up to 3 (ten size pairs); element values are unrestricted'])

# --------------------------------------------------------------------------- vec
P('V01', 'Vector arithmetic and equality are component-wise',
  'Addition, subtraction, negation and scaling of vectors act on each component independently, in the common value type of both operands. '
  'Assignment forms compute the same result in place, return their left operand and are correct when an operand aliases it. '
  'Two vectors are equal exactly when all components are.',
  ['inputs'], 'all component values, dimensions 1 to 5, int, float, double and mixed operands',
  'vec tests compare a few literal vectors; no test covers aliasing or all dimensions.',
  ['nytl/vec.hpp', 'nytl/vecOps.hpp', 'nytl/vec2.hpp', 'nytl/vec3.hpp'], [('operators', 'nytl/vecOps.hpp')],
  observe=['operator[] of the result'], rule=R_AI, assumptions=[A_REAL, A_INT, A_INST])
P('V02', 'Vector element access is bounds-safe and exact',
  'Element access, iteration, front, back, data and the named members all denote the same contiguous components in order, which are constant when the vector is. Checked access '
  'throws an out-of-range error exactly for indices that are not smaller than the dimension, as does plain indexing of two and three '
  'dimensional vectors. Conversion keeps the leading components and value-initialises added ones, '
  'and never happens unless it is asked for.',
  ['inputs'], 'all indices, all component values', 'Tests access valid indices of literal vectors; the throwing branch is sampled at most once.',
  ['nytl/vec.hpp', 'nytl/vec2.hpp', 'nytl/vec3.hpp'], [('at, operator[], conversion operator', 'nytl/vec.hpp')],
  observe=['references returned by access functions, thrown std::out_of_range'], rule=R_AI, assumptions=[A_REAL, A_INST],
  note='Indices are symbolic.')
P('V03', 'Vector products, norms, distances and normals obey their definitions',
  'Sum, product, dot and cross product, length, distance, normalisation, mirroring, angles and 2D normals equal their mathematical '
  'definition for all operands, including operands of different value types. Angles stay defined when rounding pushes the cosine out of range.',
  ['inputs'], 'all component values, dimensions 2 to 5', 'Tests check a few literal vectors with an epsilon.',
  ['nytl/vecOps.hpp'], [('dot, cross, length, normalize, angle, mirror, lnormal/rnormal', 'nytl/vecOps.hpp')],
  observe=['returned values'], rule=R_AI, assumptions=[A_REAL, A_INT, A_MATH, A_INST])
P('V04', 'Component-wise vector functions apply to every component',
  'The component-wise minimum, maximum, product, quotient, absolute value, clamping, rounding and ordering functions and operators apply the scalar operation '
  'to every pair of components and to nothing else. In-place forms equal the copying forms.',
  ['inputs'], 'all component values, dimensions 2 to 4', 'Tests sample one literal per function or none at all.',
  ['nytl/vecOps.hpp'], [('vec::cw and vec::operators', 'nytl/vecOps.hpp')], observe=['operator[] of the result'], rule=R_AI,
  assumptions=[A_REAL, A_INT, A_INST])

P('V05', 'Angles and lengths are computed inside the domain of the functions',
  'Computing lengths, angles, quaternion interpolation, Euler angles and the quaternion of a matrix never applies a square root or an inverse cosine or sine to a value '
  'outside of its domain, and the conversion of a matrix never divides by zero. This holds for arbitrary operands: also when rounding has pushed a cosine beyond 1 or '
  'a quaternion or matrix is only nearly normalised.',
  ['inputs'], 'all vectors, quaternions and matrices, without assuming that they are normalised', 'Tests sample well-conditioned literals, where rounding does not leave the domain.',
  ['nytl/vecOps.hpp', 'nytl/quaternion.hpp'], [('length, angle, angleNormed', 'nytl/vecOps.hpp'), ('fromMat, slerp, eulerAngles', 'nytl/quaternion.hpp')],
  observe=['arguments of sqrt, acos and asin', 'divisors'],
  rule='at every call of sqrt, acos or asin the argument is inside the domain of the function under the path condition alone (linear arithmetic, or a positive semidefinite '
       'quadratic form); nothing is assumed about the operands', assumptions=[A_REAL, A_INST])

P('V06', 'Vector, matrix and number functions keep the precision of their operands',
  'No value is narrowed on its way from the components of the operands to a result: double precision is never rounded to single precision or to integers, also when only '
  'one operand has the larger precision, and 64 bit integers are neither cut to fewer bits nor computed with in floating point.', ['inputs'],
  'all vectors, matrices, rects and numbers', 'Tests use small, exactly representable values.',
  ['nytl/vec.hpp', 'nytl/vecOps.hpp', 'nytl/mat.hpp', 'nytl/matOps.hpp', 'nytl/math.hpp', 'nytl/approx.hpp', 'nytl/approxVec.hpp', 'nytl/rectOps.hpp'],
  [('vector functions and operators', 'nytl/vecOps.hpp'), ('matrix functions and operators', 'nytl/matOps.hpp'), ('number functions', 'nytl/math.hpp'), ('Approx', 'nytl/approx.hpp')],
  observe=['every conversion on the way to the result'],
  rule='every conversion instruction (fptrunc, fptosi, truncation of a 64 bit value, sitofp of a 64 bit value) that is reached while an operation is evaluated '
       'on arbitrary operands is a violation', assumptions=[A_INST])
P('V07', 'Vectors and matrices follow the algebra of their number type',
  'The value type of every result is the type of the component expression: sums, differences, products and quotients of vectors and matrices of physical quantities, points or '
  'builtin numbers of different precision have the type, and therefore the unit and range, that the same expression of components has. Operations ask no more of the number type than '
  'the component expression does.', ['programs'], 'quantities with units, affine points, builtin numbers and mixtures; dimensions 2 to 4', 'Tests only use builtin numbers.',
  ['nytl/vec.hpp', 'nytl/vecOps.hpp', 'nytl/mat.hpp', 'nytl/matOps.hpp'],
  [('vector operators', 'nytl/vec.hpp'), ('vector functions', 'nytl/vecOps.hpp'), ('matrix operators', 'nytl/mat.hpp')], observe=['types of the results, which programs compile'], technique=TY,
  rule='static assertions hold in clang and gcc')
P('K01', 'Operations declared constexpr can be evaluated by the compiler',
  'Vector, matrix, rect, simplex, flag, span and number operations that are declared constexpr (and call nothing of the standard library that is not) are usable in constant expressions, '
  'where they produce the same results and reach no undefined behaviour.', ['programs'],
  'the listed operations for vectors of dimension 2 to 5, integer matrices, rects, spans over static arrays', 'Tests evaluate everything at run time.',
  ['nytl/vec.hpp', 'nytl/vec2.hpp', 'nytl/vec3.hpp', 'nytl/vecOps.hpp', 'nytl/mat.hpp', 'nytl/matOps.hpp', 'nytl/rectOps.hpp', 'nytl/simplex.hpp', 'nytl/flags.hpp', 'nytl/span.hpp', 'nytl/math.hpp'],
  [('constexpr functions', 'nytl/vecOps.hpp'), ('constexpr functions', 'nytl/mat.hpp'), ('constexpr functions', 'nytl/rectOps.hpp'), ('constexpr functions', 'nytl/span.hpp')],
  observe=['which programs compile'], technique=TY, rule='static assertions whose operands are computed by the constant evaluators of clang and gcc hold')
# --------------------------------------------------------------------------- mat
P('M01', 'Matrix arithmetic and products follow linear algebra',
  'Addition, subtraction, scaling, matrix-matrix and matrix-vector products, assignment forms and equality compute the textbook result for '
  'all element values and for square and non-square shapes. Assignment forms are correct when the operands alias each other.',
  ['inputs'], 'all element values for the listed shapes', 'mat tests multiply a few literal matrices; aliasing is never tested.',
  ['nytl/mat.hpp', 'nytl/matOps.hpp'], [('operators', 'nytl/mat.hpp')], observe=['elements of the result'], rule=R_AI,
  assumptions=[A_REAL, A_INT, A_INST])
P('M02', 'Matrix rows, columns, transpose and identity denote the right elements',
  'Reading and writing rows and columns, transposing, filling, the identity matrix and the symmetry test use exactly the elements '
  'their names say, for every shape, including writing a column that is taken from the same matrix.',
  ['inputs'], 'all element values for shapes 2x2 to 4x4', 'Tests check one or two literals.',
  ['nytl/mat.hpp', 'nytl/matOps.hpp'], [('row, col, transpose, identity, symmetric', 'nytl/mat.hpp')], observe=['elements'], rule=R_AI,
  assumptions=[A_REAL, A_INST])
P('M03', 'Matrix element access is bounds-safe and exact',
  'Checked access to rows and elements throws an out-of-range error exactly when the row or column does not exist and otherwise denotes the '
  'element at that position, for const and non-const matrices. Conversion keeps the common upper left part and value-initialises the rest, '
  'and never happens unless it is asked for.',
  ['inputs'], 'all row and column indices, all element values', 'Only valid positions are used in tests.',
  ['nytl/mat.hpp'], [('at, operator[], conversion operator', 'nytl/mat.hpp')], observe=['references, std::out_of_range'], rule=R_AI,
  assumptions=[A_REAL, A_INST])
P('M04', 'Row echelon forms are correct for every matrix',
  'The (reduced) row echelon functions return a matrix of that form with the same rank and the same solutions, for all matrices including '
  'singular, zero and non-square ones. Pivoting only exchanges rows and brings the largest candidate to the position; copying forms leave their operand unchanged.',
  ['inputs'], 'all matrices of shapes 2x2, 2x3, 3x2 and families of 3x3 and 3x4 matrices', 'Tests reduce two literal matrices; singular cases are not covered.',
  ['nytl/matOps.hpp'], [('rowEcholon, reducedRowEcholon, pivot', 'nytl/matOps.hpp')], observe=['elements of the result'], rule=R_AI,
  assumptions=[A_REAL, A_INST, '3x3 and 3x4 matrices only with the zero patterns listed in the witness unit'])
P('M05', 'LU decomposition and determinants are correct for every matrix',
  'The decomposition of any square matrix yields a unit lower triangular, an upper triangular and a permutation matrix whose product '
  'reproduces it, and the sign of that permutation. Determinants and invertibility, also of integer matrices, equal the algebraic definition.',
  ['inputs'], 'all square matrices up to 4x4 (determinants of decompositions up to 3x3)', 'Tests decompose one literal; the permuting and singular branches are mostly unvisited.',
  ['nytl/matOps.hpp'], [('luDecomp, determinant, invertible', 'nytl/matOps.hpp')], observe=['lower, upper, perm, sign, determinant'], rule=R_AI,
  assumptions=[A_REAL, A_INST])
P('M06', 'Solving and inverting give solutions and inverses',
  'Solving with a decomposition or with triangular factors returns a vector that satisfies the system of equations for every right-hand side. '
  'The inverse of every invertible matrix is a two-sided inverse.',
  ['inputs'], 'all invertible matrices up to 3x3, all right-hand sides', 'Tests solve literal systems, mostly without row exchanges.',
  ['nytl/matOps.hpp'], [('luEvaluate, inverse', 'nytl/matOps.hpp')], observe=['returned vector / matrix'], rule=R_AI,
  assumptions=[A_REAL, A_INST])

# --------------------------------------------------------------------------- rect
RECT_F = ['nytl/rect.hpp', 'nytl/rectOps.hpp']
P('R01', 'Rect containment decides membership of every point',
  'A point is contained in a rect exactly when it lies between its begin and end, borders included, in every dimension. The strict variant '
  'excludes the borders.', ['inputs'], 'all points and rects, dimensions 1 to 4, integer, floating point and mixed types',
  'rect tests check a few literal points.', RECT_F, [('contains, containsReal', 'nytl/rectOps.hpp')], observe=['returned bool'],
  rule=R_AI, assumptions=[A_REAL, A_INT, A_INST])
P('R02', 'Rect intersection tests are exact and symmetric',
  'Two rects of non-negative size are reported as intersecting exactly when they share a point, and as really intersecting exactly when more than '
  'their outlines meet; the order of the arguments does not matter. This includes rects that contain, cross or merely touch each other.',
  ['inputs'], 'all pairs of rects, dimensions 1 to 4', 'Tests sample a few overlapping literals, no cross-shaped overlap.',
  RECT_F, [('intersects, intersectsReal', 'nytl/rectOps.hpp')], observe=['returned bool'], rule=R_AI, assumptions=[A_REAL, A_INT, A_INST])
P('R03', 'Rect intersection is exactly the common area',
  'The intersection of two rects of non-negative size begins at the larger begin and ends at the smaller end in every dimension, so it contains exactly the points both '
  'contain. Disjoint rects give an empty rect at the origin.', ['inputs'], 'all pairs of rects, dimensions 1 to 3', 'Tests sample a few literals.',
  RECT_F, [('intersection', 'nytl/rectOps.hpp')], observe=['position and size of the result'], rule=R_AI, assumptions=[A_REAL, A_INT, A_INST])
P('R04', 'Rect difference partitions the remaining area',
  'The difference of two rects of positive size consists of non-empty, pairwise non-overlapping rects inside the first that do not overlap the second and together cover '
  'everything of the first outside of the second. Subtracting a rect from itself leaves nothing, subtracting a non-overlapping one leaves the first rect.',
  ['inputs'], 'all pairs of rects, dimensions 1 to 3', 'One test checks one literal constellation out of 81 in 2D.',
  RECT_F, [('difference', 'nytl/rectOps.hpp')], observe=['returned vector of rects'], rule=R_AI, assumptions=[A_REAL, A_INT, A_INST, A_ALLOC])
P('R05', 'Rect and simplex basics: size, center, equality and conversion',
  'The size of a rect is the product of its extents, its center lies half way in every dimension, and two rects are equal exactly when position '
  'and size are. Converting rects and simplices between dimensions and value types has to be asked for, and converts every component and point, value-initialising added ones.',
  ['inputs'], 'all rects and simplices of the listed dimensions', 'Conversions between dimensions are not tested.',
  RECT_F + ['nytl/simplex.hpp'], [('size, center, operators', 'nytl/rectOps.hpp'), ('conversion operators', 'nytl/simplex.hpp')],
  observe=['position, size, points()'], rule=R_AI, assumptions=[A_REAL, A_INT, A_INST])

# --------------------------------------------------------------------------- quaternion
QF = ['nytl/quaternion.hpp']
P('Q01', 'Quaternion arithmetic is the Hamilton algebra',
  'Products, sums, differences, scaling, conjugation, dot product, norm and equality of quaternions follow the Hamilton algebra for all operands. '
  'Normalising gives a unit quaternion of the same direction, and the identity instead of a division by zero for the zero quaternion.',
  ['inputs'], 'all quaternions', 'There is no test for quaternions.', QF, [('operators, dot, norm, normalized, conjugated', 'nytl/quaternion.hpp')],
  observe=['components'], rule=R_AI, assumptions=[A_REAL, A_MATH])
P('Q02', 'Quaternions rotate vectors and convert to and from rotation matrices',
  'Applying a unit quaternion to a vector is the rotation it represents: it preserves lengths, composes with the product and is reversed by the '
  'conjugate. The matrix of a unit quaternion performs the same rotation, and converting that matrix back gives the same rotation.',
  ['inputs'], 'all unit quaternions and vectors, all branches of the matrix conversion', 'There is no test for quaternions.',
  QF, [('apply, toMat, fromMat', 'nytl/quaternion.hpp')], observe=['returned vector, matrix, quaternion'], rule=R_AI, assumptions=[A_REAL, A_MATH])
P('Q03', 'Quaternions from axis and angle or yaw, pitch, roll',
  'The quaternion of a unit axis and an angle rotates by that angle around that axis. The quaternion of yaw, pitch and roll is the product of the '
  'rotations around y, x and z.', ['inputs'], 'all axes and angles', 'There is no test for quaternions.',
  QF, [('axisAngle, yxz', 'nytl/quaternion.hpp')], observe=['components'], rule=R_AI, assumptions=[A_REAL, A_MATH])
P('Q04', 'Spherical interpolation follows the shorter arc',
  'Interpolating between two unit quaternions gives unit quaternions on the great arc through both, with an angle that grows linearly along the '
  'shorter way. It starts at the first and ends at the second orientation; nearly equal inputs are interpolated linearly and normalised.',
  ['inputs'], 'all pairs of unit quaternions except the switch-over band, all parameters', 'There is no test for quaternions.',
  QF, [('slerp', 'nytl/quaternion.hpp')], observe=['components'], rule=R_AI,
  assumptions=[A_REAL, A_MATH, 'cosine of the angle outside of [0.99, 0.99999], where the switch to linear interpolation may lie'])
P('Q05', 'Euler angles of a quaternion reproduce its rotation',
  'For every rotation sequence the three extracted angles, composed in that sequence, reproduce the rotation of the unit quaternion whenever the '
  'middle angle is not degenerate. The sequences that start and end with the same axis also reproduce every rotation around that axis alone.', ['inputs'], 'all non-degenerate unit quaternions, all twelve sequences', 'There is no test for quaternions.',
  QF, [('eulerAngles', 'nytl/quaternion.hpp')], observe=['returned angles'], rule=R_AI,
  assumptions=[A_REAL, A_MATH, 'degenerate middle angles (gimbal lock) are excluded'])

# --------------------------------------------------------------------------- transform
XF = ['nytl/transform.hpp']
P('X01', 'Projection matrices map the view volume to the documented clip volume',
  'The orthographic, frustum and perspective functions, including the reversed-depth and infinite variants, map the corners of the given view volume to the corners of the clip '
  'volume and the near and far plane to the documented depths.', ['inputs'], 'all view volumes', 'There is no test for transforms.',
  XF, [('ortho, frustum*, perspective*', 'nytl/transform.hpp')], observe=['matrix applied to corner points'], rule=R_AI, assumptions=[A_REAL, A_MATH])
P('X02', 'Transforms keep the requested precision',
  'Computing a transform, rotation or quaternion operation in double precision never passes a value through single precision. The value type of a transform is the one of its arguments, and its size is 4x4 unless another is requested.',
  ['inputs'], 'all inputs of every transform function', 'Tests compare with an epsilon far above single precision.',
  XF + QF, [('all transform functions', 'nytl/transform.hpp')], observe=['every conversion on the way to the result'],
  rule='every value that flows into the result was never rounded to a type of less precision: an fptrunc (or an int conversion) in the dataflow is tracked as a '
       'precision taint', assumptions=[A_REAL, A_INST])
P('X03', 'Rotation and orientation matrices rotate as specified',
  'Rotation matrices and rotate rotate counter-clockwise by the angle, in 3D around the given unit axis, and agree with the axis-angle quaternion. Orientation '
  'matrices are rotations that map the first unit vector to the second; the base of a unit direction is orthonormal and never divides by zero.',
  ['inputs'], 'all unit axes and vectors, all angles', 'There is no test for transforms.', XF + QF,
  [('rotateMat, rotate, orientMat, base', 'nytl/transform.hpp')], observe=['matrix elements'], rule=R_AI,
  assumptions=[A_REAL, A_MATH, 'orientMat: from is not the opposite of to'])
P('X04', 'View matrices, scaling, translation and flipping',
  'View matrices map the viewer position to the origin and its orientation to the axes without mirroring. Scaling, translating, rotating and flipping in place equal '
  'multiplication by the corresponding matrix from the left, and transforming a position divides by the homogeneous coordinate.',
  ['inputs'], 'all positions, orientations and matrices', 'There is no test for transforms.', XF,
  [('lookAt, translate, scale, rotate, flip*, multPos', 'nytl/transform.hpp')], observe=['matrix elements'], rule=R_AI,
  assumptions=[A_REAL, A_MATH, 'lookAt: up is not parallel to the view direction'])

# --------------------------------------------------------------------------- math
P('N01', 'Number mappings and interpolation helpers are exact',
  'Mapping signed to unsigned numbers is a bijection on the whole range that its counterpart reverses, and pairing numbers enumerates the diagonals. Angle conversion, linear '
  'and smooth interpolation, clamping and factorials equal their definitions, including their end points; the constants are the numbers they are named after.',
  ['inputs'], 'all numbers in range', 'Only a few literals are tested.', ['nytl/math.hpp'],
  [('mapUnsigned, unmapUnsigned, pair, mix, smoothstep, clampStore', 'nytl/math.hpp')], observe=['returned values'], rule=R_AI,
  assumptions=[A_REAL, A_INT])
P('A01', 'Approximate comparison is symmetric and component-wise',
  'A value approximately equals another exactly when their distance is below the scaled epsilon, in either operand order, and the negated comparison is its exact opposite. Complex '
  'numbers, vectors and matrices compare every component; different dimensions never match.',
  ['inputs'], 'all values and epsilons, vectors up to dimension 3, matrices up to two elements', 'Tests use literals far from the border.',
  ['nytl/approx.hpp', 'nytl/approxVec.hpp'], [('approx, operators', 'nytl/approx.hpp')], observe=['== and !='], rule=R_AI, assumptions=[A_REAL, A_INST])


# --------------------------------------------------------------------------- spans, types
P('P02', 'Spans never cast away const, reinterpret elements or mix sizes',
  'A span is only constructible from ranges whose elements may be accessed through it: constants are never made mutable, elements never reinterpreted as another '
  'type or base class, and fixed sizes only come from ranges of that size. Every allowed construction, conversion, deduction and byte view compiles and has the documented type, also in constant expressions.',
  ['programs'], 'all source and target kinds the witness enumerates, two compilers', 'A test can only contain programs that compile.',
  ['nytl/span.hpp'], [('constructor constraints, deduction guides', 'nytl/span.hpp')], observe=['which programs compile'],
  technique=TY, rule='every static assertion holds and every program marked as ill-formed is rejected, by clang and gcc')
P('T01', 'String parameters are always null-terminated',
  'A string parameter made from a literal, a standard string or nothing views the same characters without copying and its character after the last is the terminator. The '
  'pointer it gives is never null.', ['inputs'], 'all ways of construction; short, long, empty strings and strings with embedded terminators', 'There is no test for string parameters.',
  ['nytl/stringParam.hpp'], [('BasicStringParam', 'nytl/stringParam.hpp')], observe=['data, size, c_str'], rule=R_AI, assumptions=[A_INST])
P('T02', 'Function traits describe every kind of callable exactly',
  'The signature, return type and argument types of function types, pointers, references, member functions, lambdas and function objects are extracted exactly, whatever their qualifiers. '
  'Types that cannot be called, and callables whose signature is ambiguous, are never described.',
  ['programs'], 'all kinds of callables and qualifiers', 'The test covers a handful of kinds.', ['nytl/functionTraits.hpp'],
  [('FunctionTraits', 'nytl/functionTraits.hpp')], observe=['member types'], technique=TY, rule='static assertions hold in clang and gcc')
P('T03', 'Template utilities answer for every type',
  'Testing whether an expression is valid gives the correct answer for every type without a compile error, and the pack utilities select the documented type.',
  ['programs'], 'the type kinds the witness enumerates', 'The test covers a handful of types.', ['nytl/tmpUtil.hpp'],
  [('validExpression, LastType, Variadic, templatize', 'nytl/tmpUtil.hpp')], observe=['which programs compile'], technique=TY, rule='static assertions hold in clang and gcc')
P('T04', 'Non-copyable and non-movable classes stay so',
  'A class derived from the non-copyable base can be moved but never copied, one derived from the non-movable base neither, also indirectly and as a member. The bases '
  'cannot be instantiated, cost no space and make nothing throw.', ['programs'], 'all construction and assignment forms', 'A test cannot contain a program that must not compile.',
  ['nytl/nonCopyable.hpp'], [('NonCopyable, NonMovable', 'nytl/nonCopyable.hpp')], observe=['which programs compile'], technique=TY,
  rule='static assertions hold and ill-formed programs are rejected, in clang and gcc')
P('T05', 'Operands that do not fit each other are rejected by the compiler',
  'Operations on vectors, matrices, rects, simplices, spans, flags and transforms do not compile for operands of different dimension or for dimensions the result cannot have, where they would read or write '
  'outside of a value or drop components. The same operations with matching operands compile.', ['programs'], 'all pairs of a well-formed and an ill-formed program the witness enumerates, two compilers',
  'A test can only contain programs that compile.', ['nytl/transform.hpp', 'nytl/mat.hpp', 'nytl/simplex.hpp', 'nytl/approx.hpp'],
  [('static assertions, constraints', 'nytl/transform.hpp'), ('operator*', 'nytl/mat.hpp')], observe=['which programs compile'], technique=TY,
  rule='every ill-formed program is rejected, and the same program with matching operands accepted, by clang and gcc')
P('G01', 'Headers are self-contained and can be used in many units',
  'Every header compiles on its own, twice, together with all others in any order and with the forward declarations. Nothing a header defines breaks linking when several '
  'units include it.', ['programs', 'configurations'], 'all headers, clang and gcc', 'Tests include few headers, in one order, from one unit each.',
  ['nytl/fwd.hpp', 'nytl/fwd/vec.hpp'], [('all headers', 'nytl')], observe=['compiler and linker'], steps=[('headers', '')],
  technique='front-end analysis of generated units and linkage analysis of the definitions in their compiler IR',
  rule='each generated unit is accepted by both compilers and no definition in a header has strong external linkage')

P('G02', 'No hidden shared state',
  'The effect and the result of every operation depend on nothing but its arguments and the objects these refer to: operations on different objects never influence each other, also when they run in '
  'different threads or nested in each other, and results do not depend on the locale, the environment or earlier calls. Operations on const objects change nothing, so any number of threads may use them at once. '
  'The only exception are warnings on the standard error stream.', ['schedules', 'histories'], 'all operations of all headers, all schedules and call histories',
  'Tests run in one thread and call every operation a few times.', ['nytl/callback.hpp', 'nytl/utf.hpp', 'nytl/matOps.hpp'], [('all headers', 'nytl')], observe=['results of operations on unrelated objects'],
  steps=[('effects', '')], technique='effect analysis over the type-checked syntax trees of all headers, templates and their instantiations included',
  rule='no variable of the library with static or thread storage can change or is initialized from the arguments of the first call, no field is mutable, no cast drops const, no function refers to a changeable '
       'variable of the program other than std::cerr or calls a function of the C or C++ library that uses state of the process',
  assumptions=['the types and functions of the user have no hidden state themselves', 'functions of the C and C++ library other than those listed in nsa/effects.py have no effects outside of their arguments (errno aside)'])

P('E01', 'Operations that promise not to throw never end the program',
  'Clearing callbacks, disconnecting, destroying callbacks, connections and guards, moving unique connections, and the operations on connection ids, flag sets, spans and simplices that are declared not to throw can '
  'never be reached by an exception, which would end the program. This holds although functions, values and connectables of the user throw anything wherever they are allowed to, and although memory may be exhausted. '
  'Code that relies on these promises keeps compiling.', ['inputs', 'faults', 'programs'], 'all call paths out of the functions that may not throw, for all kinds of signatures, ids and connectables',
  'Tests throw at few points, and never from all of them.', ['nytl/connection.hpp', 'nytl/recursiveCallback.hpp', 'nytl/scope.hpp'],
  [('UniqueConnectionT, disconnect, clear, removeOld, ScopeGuard', 'nytl/connection.hpp')], observe=['end of the program'], steps=[('unwind', 'E01.noexcept.cpp'), ('types', 'E01.types.cpp')],
  technique='interprocedural exception-flow analysis over LLVM IR (least fixed point of "may throw" over the call graph, then reachability of the terminating landing pads), and static assertions',
  rule='from no call that may throw inside a function that may not throw, or that such a function reaches, the unwind edges lead to std::terminate or out of the function; calls through pointers, of unknown functions '
       'and of operator new may throw; the declared promises hold as static assertions in clang and gcc',
  assumptions=[A_INST, 'the operations set, get and removed and the copies of ids of the user do not throw, destructors of the user do not throw', 'writing to std::cerr does not throw (the program did not enable its exceptions)',
               'functions of the standard library that are declared noexcept do not throw'])

P('D01', 'Vectors, matrices, rects, simplices, quaternions and flags are plain data',
  'The memory of a value is exactly its components in the documented order (matrices row by row, rects position then size, quaternions x, y, z, w), without padding, larger alignment or hidden members, so it may be '
  'copied as bytes or handed to other programs and devices. Braces initialise the components in this order; empty braces give zeros, the identity quaternion or no flags. Copying and destroying values needs no code and '
  'cannot fail.', ['inputs', 'programs'], 'all component values, dimensions 1 to 16, all kinds of component types', 'Tests access components through the members of the types only.',
  ['nytl/vec.hpp', 'nytl/mat.hpp', 'nytl/rect.hpp', 'nytl/quaternion.hpp', 'nytl/flags.hpp', 'nytl/simplex.hpp'], [('Vec, Mat, Rect, Simplex, Quaternion, Flags', 'nytl/vec.hpp')], observe=['memory of values'],
  rule=R_AI, assumptions=[A_INST])

# --------------------------------------------------------------------------- bytes
BF = ['nytl/bytes.hpp']
P('B01', 'Buffer operations stay inside the buffer and advance by what they handle',
  'Reading from or writing to a buffer of fixed size never touches memory outside of it and refuses values that do not fit. It advances the buffer by exactly the size of the '
  'value or range; copies do not advance, and growing buffers grow by exactly that size.', ['inputs'], 'all buffer sizes, range lengths and skip distances', 'There is no test for byte buffers.',
  BF, [('write, read, skip, copy, bytes', 'nytl/bytes.hpp')], observe=['buffer position and size, every memory access'], rule=R_AI + '; every memory access is checked against the bounds of its object',
  assumptions=['the library is compiled with a checking NYTL_BYTES_ASSERT that throws, as its documentation suggests', A_ALLOC, A_INST])
P('B02', 'What is written to a buffer is read back unchanged',
  'Values, structures, vectors and ranges written to a fixed or growing buffer and read in the same order give equal values, with any gap skipped in between. Bytes of the buffer that were not '
  'written to keep their value.', ['inputs'], 'all values, all buffer sizes and range lengths', 'There is no test for byte buffers.', BF,
  [('write, read, copy', 'nytl/bytes.hpp')], observe=['values read back'], rule=R_AI, assumptions=[A_ALLOC, A_INST])
P('B03', 'Only values that are their bytes are handled as bytes',
  'Values can be viewed, written or read as bytes only when copying these bytes copies the value: owning, virtual, non-trivially copyable and prohibited types are rejected at compile time. Ranges '
  'denote their elements, never the handle, and constants are only readable.', ['programs'], 'the type kinds the witness enumerates', 'A test cannot contain a program that must not compile.', BF,
  [('BytesConvertible, bytes, read, write constraints', 'nytl/bytes.hpp')], observe=['which programs compile'], technique=TY,
  rule='static assertions hold and ill-formed programs are rejected, in clang and gcc')

# --------------------------------------------------------------------------- scope, clone
P('S01', 'Scope guards run exactly once, exactly on their way of leaving',
  'A scope guard calls its function exactly once when its scope is left in any way, a success guard exactly when no new exception leaves the scope and an exception guard exactly when one does, unless '
  'released before. This also holds in scopes entered while other exceptions unwind.', ['histories', 'inputs'], 'all ways of leaving, all numbers of exceptions already in flight', 'The test has only a few shapes of unwinding.',
  ['nytl/scope.hpp'], [('ScopeGuard, SuccessGuard, ExceptionGuard', 'nytl/scope.hpp')], observe=['calls of the function'], rule=R_AI, assumptions=[A_INST])
P('S02', 'Guard destructors never let an exception escape',
  'When the function of a guard throws anything while its scope is left, with or without an exception in flight, the exception does not leave the destructor and the program is not terminated. The other guards '
  'of the scope still run.', ['histories', 'fault_sequences'], 'all guards, all kinds of exceptions, all ways of leaving', 'The test throws one type from one guard.', ['nytl/scope.hpp'],
  [('guard destructors', 'nytl/scope.hpp')], observe=['control flow after the scope'], rule=R_AI + '; a path that reaches std::terminate is a violation', assumptions=[A_INST])
P('L01', 'Cloning copies the whole object as its actual type',
  'Cloning through any base of a cloneable hierarchy, including multiple inheritance and intermediate classes, gives a new object of the actual type, copied exactly once, that is independent of the '
  'original and destroyed completely. A copy that fails leaks nothing.', ['inputs', 'histories'], 'the shapes of hierarchies the witness enumerates, all values', 'The test clones one hierarchy.', ['nytl/clone.hpp'],
  [('Cloneable, DeriveCloneable, clone', 'nytl/clone.hpp')], observe=['the copy, its type and values, allocations'], rule=R_AI, assumptions=[A_INST])
P('L02', 'Clone-moving moves the whole object as its actual type',
  'Clone-moving through any base gives a new object of the actual type into which every member was moved exactly once, without copies. Cloneable types can be clone-moved, too, and the result '
  'is destroyed completely.', ['inputs', 'histories'], 'the shapes of hierarchies the witness enumerates, all values', 'The test moves one hierarchy.', ['nytl/clone.hpp'],
  [('CloneMovable, DeriveCloneMovable, cloneMove', 'nytl/clone.hpp')], observe=['the copy, its type and values, moves and allocations'], rule=R_AI, assumptions=[A_INST])

# --------------------------------------------------------------------------- utf
P('U01', 'UTF-8 strings are counted and indexed by characters',
  'Counting gives the number of characters of a valid UTF-8 string, and indexing gives exactly the bytes of that character, zero-terminated or as a reference to its first byte together with its size. '
  'Positions behind the last character are refused.', ['inputs'], 'all strings of up to four (indexing: three) characters, every sequence of encoded lengths and all code points', 'The test indexes one literal string.',
  ['nytl/utf.hpp'], [('charCount, nth', 'nytl/utf.hpp')], observe=['returned count, bytes, reference, size'], rule=R_AI,
  assumptions=['bytes are symbolic bit patterns'])

P('U02', 'Conversions between UTF-8, UTF-16 and UTF-32 keep the text',
  'Converting a valid text between UTF-8, UTF-16 and UTF-32, in each of the six directions, gives the encoding of exactly the same code points in the same order. '
  'This includes zero characters inside of the text, characters outside of the basic plane and texts that are not zero-terminated.',
  ['inputs'], 'all texts of up to two characters with every code point, all combinations of encoded lengths for up to four characters', 'The test converts one literal.',
  ['nytl/utf.hpp'], [('toUtf8, toUtf16, toUtf32', 'nytl/utf.hpp')], observe=['every element of the returned string'], rule=R_AI,
  assumptions=['the conversion facets of the standard library convert as the standard says (witness/codecvt.hpp)', A_ALLOC])

# --------------------------------------------------------------------------- printing
P('O01', 'Printing writes every component once, in order',
  'Printing a vector, matrix, rect or approximate value writes the given delimiters and every component unchanged, exactly once and in order, and returns the stream. Matrices apply the requested width to '
  'every value and to nothing else, and leave width and precision of the stream as they were.',
  ['inputs'], 'all component values, the listed dimensions and delimiters', 'There are no tests of printing.',
  ['nytl/vecOps.hpp', 'nytl/matOps.hpp', 'nytl/rectOps.hpp', 'nytl/approx.hpp'],
  [('print, operator<<', 'nytl/vecOps.hpp'), ('print, operator<<', 'nytl/matOps.hpp'), ('print, operator<<', 'nytl/rectOps.hpp')],
  observe=['what is inserted into the stream, with the width at that time'], rule=R_AI,
  assumptions=[A_REAL, 'the inserters of the standard library are modelled by a stream that records (witness/stream.hpp)', 'insertions do not throw'])

# --------------------------------------------------------------------------- connections
P('C07', 'Unique connections disconnect exactly once',
  'A unique connection disconnects the connection it owns exactly once, when it is destroyed, replaced or explicitly disconnected, never before and never after it was moved from or released. Moving transfers '
  'the ownership, and a failure to disconnect never escapes destruction or assignment.', ['histories', 'inputs'], 'all ids, all ownership transfers the witness enumerates', 'The test covers one destruction and one move.',
  ['nytl/connection.hpp'], [('UniqueConnectionT', 'nytl/connection.hpp')], observe=['calls of disconnect on the connectable'], rule=R_AI, assumptions=[A_INST])
P('C08', 'Connections are plain values; tracked connections observe removal',
  'Copying or destroying connections never disconnects, and disconnecting twice has no effect. All copies of a tracked connection, and only these, report to be unconnected as soon as its function is '
  'removed in any way or the callback is destroyed.', ['histories', 'inputs'], 'all ways of removal, both kinds of callbacks, also during a call', 'Tests observe the removal in one order.',
  ['nytl/connection.hpp', 'nytl/callback.hpp', 'nytl/recursiveCallback.hpp'], [('ConnectionT, TrackedConnectionID', 'nytl/connection.hpp')],
  observe=['connected() of all copies'], rule=R_AI, assumptions=[A_ALLOC])
P('C09', 'Callbacks and connections have the documented interface and ownership',
  'Callbacks have an identity and cannot be copied or moved, connections are copyable values and unique connections move-only. Connections of different id kinds never mix and both kinds of callbacks '
  'have the same interface and result types.', ['programs'], 'all construction and assignment forms', 'A test cannot contain a program that must not compile.',
  ['nytl/callback.hpp', 'nytl/recursiveCallback.hpp', 'nytl/connection.hpp'], [('class interfaces', 'nytl/callback.hpp')], observe=['which programs compile'], technique=TY,
  rule='static assertions hold and ill-formed programs are rejected, in clang and gcc')

# --------------------------------------------------------------------------- callbacks
HI = ('abstract interpretation of the compiler IR driven by a most-general client: every sequence of client operations is followed, the '
      'abstract states at the loop heads of the client are canonicalised (counters reduced to their order, unreachable memory dropped) and '
      'joined until a fixpoint is reached, so histories of any length are covered; no execution, no solver')
A_HIST = ['fewer than 2^61 registrations and calls happen on one callback',
          'registered functions and connection ids behave as docs/callback.md asks (ids and destructors of functions do not access the callback)',
          'two states with equal 128-bit fingerprints are taken for equal', A_ALLOC]
R_HI = ('every expectation of the client holds in every canonical state that any history reaches, no path reads, writes or frees memory it must not; '
        'a violation names the history, the nytl function and the line')
CB = ['nytl/callback.hpp', 'nytl/recursiveCallback.hpp']


BOUND = {'C01': 'callback (8,1), recursive (4,1); thorough also callback (12,1), recursive (9,1)',
         'C02': 'callback (8,1), recursive (4,1) and (3,2); thorough also recursive (3,3) and (4,2)',
         'C05': 'recursive (4,1) and (3,2); thorough also (3,3)',
         'C06': 'callback (8,1), recursive (4,1); thorough also recursive (3,2) and (5,1)'}
BOUND['C03'] = BOUND['C04'] = BOUND['C02']
BOUND['C10'] = BOUND['C06']


def C(pid, title, statement, over, text, why, mech, observe, extra=()):
    P(pid, title, statement, over, text, why, CB, mech,
      state=[('subs_', 'the stored subscriptions', 'nytl/recursiveCallback.hpp'), ('iterationCount_', 'active calls', 'nytl/recursiveCallback.hpp'),
             ('subID_, callID_', 'latest ids of registrations and calls', 'nytl/recursiveCallback.hpp')],
      observe=observe, technique=HI, rule=R_HI,
      assumptions=['bounded are the entries stored at one time and the depth of nested calls, not the number of operations: (entries, depth) ' + BOUND[pid]] +
      A_HIST + list(extra))


C('C01', 'Calls run every registered function once, in order',
  'Calling a callback calls every function that is registered at this moment exactly once, in the order of registration, with the given arguments, and returns one result per function in this order. An exception '
  'of a function is passed on unchanged, ends this call and leaves the callback usable. The subscription list of a plain callback holds exactly the registered functions in this order.', ['histories', 'fault_sequences'], 'all histories of registrations, removals, calls and exceptions', 'Tests call a few fixed sequences.',
  [('call, subscriptions', 'nytl/callback.hpp'), ('call', 'nytl/recursiveCallback.hpp')], ['which functions run in which order, results, exceptions, the listed functions'])
C('C02', 'Disconnecting removes exactly the given function',
  'Disconnecting returns true exactly if the id belongs to a function that is registered and was not removed before, and afterwards exactly this function is not registered any more. Every other '
  'function stays as it is; default ids are refused.', ['histories'], 'all histories, for the recursive callback also from inside of (nested) calls', 'Tests disconnect in a few fixed situations.',
  [('disconnect, clear, removeOld', 'nytl/recursiveCallback.hpp'), ('disconnect', 'nytl/callback.hpp')], ['result of disconnect, later results of disconnect'])
C('C03', 'Connection ids see their removal exactly once',
  'removed() is called exactly once for every registration, when its function is removed for good or the callback is destroyed, and the stored id is not used afterwards. set() is called only with '
  'negative values and only after the function was formally removed during a call.', ['histories', 'fault_sequences'], 'all histories, including removal during (nested) calls that end with exceptions', 'Tests count removals in single situations.',
  [('removed, set', 'docs/callback.md'), ('removeOld', 'nytl/recursiveCallback.hpp')], ['calls of set, get, removed on the stored ids'])
C('C04', 'Functions are never destroyed while they run and never leaked',
  'A function that removes itself or the whole callback content while it runs stays intact until no call runs any more, also with nested calls and exceptions. Then it is destroyed, registered functions are '
  'kept, and nothing is leaked or used after it was freed.', ['histories', 'fault_sequences'], 'all histories with (nested) calls, removals and exceptions', 'Tests and sanitizers see only the sequences they run.',
  [('iterationCount_, removeOld, successGuard', 'nytl/recursiveCallback.hpp')], ['lifetime of the registered function objects, memory accesses'])
C('C05', 'Recursive calls run exactly the functions registered at their start',
  'A call of a recursive callback calls exactly the functions that were registered when it started, even if they are removed meanwhile; functions added meanwhile are not called by it. Nested calls follow the same '
  'rule with their own start.', ['histories', 'fault_sequences'], 'all histories of operations from inside and outside of calls', 'Tests nest in a few fixed ways.',
  [('call, callID_, last_', 'nytl/recursiveCallback.hpp')], ['which functions run, in which order and how often'])
C('C06', 'Registrations have unique ids and work in every form',
  'Every registration gets a new positive id greater than all before, and its connection refers to this callback and registration; functions that ask for it are passed their own connection. The operator forms do '
  'the same (assignment removes all functions before), and empty functions are refused with std::invalid_argument without effect.', ['histories'], 'all histories, all forms of registration, also from inside of calls',
  'Tests look at a few ids.', [('add, operator+=, operator=, emplace', 'nytl/recursiveCallback.hpp'), ('add', 'nytl/callback.hpp')], ['returned connections, exceptions, which functions run'])
C('C10', 'A failed registration leaves the callback unchanged',
  'When registering a function fails because memory cannot be allocated or the connection id cannot be created, the callback is as before: no entry is added, all registered functions are still called and nothing is leaked.',
  ['histories', 'fault_sequences'], 'all histories, failure of every single allocation of a registration', 'Tests never run out of memory.',
  [('add, emplace', 'nytl/recursiveCallback.hpp'), ('add', 'nytl/callback.hpp')], ['which functions run after a failed registration'])
SPECS['C10']['assumptions'].remove(A_ALLOC)
P('C11', 'Every function receives the arguments as they were passed',
  'Arguments passed by value reach every called function as intact copies, reference arguments refer to the very object that was passed, and move-only arguments and results work. The call operator and functions with '
  'connection parameter behave alike.', ['inputs'], 'all values, all kinds of parameter passing, plain and tracked callbacks of both kinds', 'Tests pass integers.', CB, [('call, passArg', 'nytl/recursiveCallback.hpp')],
  observe=['arguments received, the object of the caller'], rule=R_AI, assumptions=[A_INST])

# --------------------------------------------------------------------------- not applicable
P('N02', 'Floating point results are accurate to a few units in the last place',
  'Results of the vector, matrix, quaternion and transform operations in float or double differ from the exact result only by a bound on the rounding that fits the operation. Decompositions and normalisation '
  'stay accurate for badly scaled operands.', ['inputs'], 'all finite operands', 'Tests compare a few values with a tolerance.', ['nytl/vecOps.hpp', 'nytl/matOps.hpp', 'nytl/quaternion.hpp', 'nytl/transform.hpp'],
  [('arithmetic', 'nytl/vecOps.hpp')], observe=['returned numbers'],
  na='the claimed checks decide the formulas over the real numbers; a sound static bound on rounding needs ranges of the operands, which a library without callers does not have (results are unbounded for '
     'cancelling operands), and the library documents no error bound to compare with')
P('N03', 'Integer arithmetic on user values does not overflow',
  'Sums, products, dot products, determinants and sizes computed from integer vectors, matrices and rects are computed without overflow whenever the result is representable.', ['inputs'], 'all integer operands',
  'Tests use small numbers.', ['nytl/vecOps.hpp', 'nytl/matOps.hpp', 'nytl/rectOps.hpp'], [('arithmetic', 'nytl/vecOps.hpp')], observe=['returned numbers'],
  na='depends on the magnitudes the caller passes, which nothing in the source bounds; the library computes in the type of the elements by design (the mapping functions for which it does promise '
     'overflow freedom are decided in N01)')
P('C12', 'Callbacks stay usable after more than 2^63 registrations or calls',
  'When the counter of registrations or calls wraps around, ids are still unique and calls still run exactly the functions registered at their start.', ['histories'], 'histories of more than 2^63 operations',
  'No test can run that long.', ['nytl/callback.hpp', 'nytl/recursiveCallback.hpp'], [('emplace, call', 'nytl/recursiveCallback.hpp')], observe=['ids'],
  na='the code itself only warns that it is wrong then (ids start again at 1 and may collide); the history analysis reduces counters to their order, which is exactly what a wrap-around destroys')
