# The properties.  prop(id, title, statement, quantifier text, why tests cannot, files, mechanism, bounds, ...)
MX, VE, QU = 'vmmlib/matrix.hpp', 'vmmlib/vector.hpp', 'vmmlib/quaternion.hpp'
REAL = ('numeric identities are decided over exact reals: IEEE rounding, overflow and underflow are outside',)
FPA = ('floating point is bit-precise IEEE-754 (z3 floating-point theory)',)

prop('C01', 'Element addressing is column-major and agrees across all accessors',
     'Element (r, c) of an M x N matrix is the (c*M + r)-th stored scalar: m(r,c), at(r,c), m[r][c], pointer conversion and forward '
     'and reverse iteration all designate that one scalar for reading and writing, and likewise for vector components via v(i), at(i), v[i], '
     'x/y/z/w, sub-vectors and iterators. A write changes exactly that element and nothing else; reads change nothing.',
     'every row/column index in range, every element bit pattern and written value, const and non-const access',
     'the tests look at a few literal matrices through one or two accessors; they do not compare all accessors for every index and value',
     [MX, VE], [('operator(), at, operator[], begin/end, rbegin/rend, operator T*', MX), ('operator(), at, operator[], x..w, r..a, get_sub_vector, iterators', VE)],
     'sizes 1x5..5x1, 2x3, 3x2, 4x4, 6x7 (thorough 8x5, 9x10), vectors 1..5, 17 (33); float, double, int, uint8',
     observe=['element values through public accessors'], assume=FPA)

prop('C02', 'Bounds-checked access: throws exactly when out of range, never out of bounds',
     'With VMMLIB_SAFE_ACCESSORS, every element, row, column, sub-matrix, minor and component access throws if and only if the index designates '
     'nothing in the object, for the whole range of the index type. A rejected access changes nothing, an accepted one has its effect, and no '
     'call reads or writes memory outside the object.',
     'every 64-bit (or int) index value, every element value',
     'out-of-range behaviour depends on each of 2^64 indices, including wrap-around sums; the tests try none or a single literal',
     [MX, VE], [('range checks in operator(), at, operator[], get_/set_row, get_/set_column, get_/set_sub_matrix, get_minor', MX), ('range checks of at / operator()', VE)],
     'sizes up to 4x4 and 6x5 (thorough 6x7); all 2^64 index values symbolic; memory safety decided for every load and store')

prop('C03', 'Construction, assignment and conversion put every element where the source says',
     'Constructing, assigning, setting or converting a matrix or vector (from scalars, pointers, iterators, initializer values, another size or element type, std::vector) '
     'copies each source element, converted to the element type, to its position; the elements the source does not provide are zero (matrices of other size), '
     'kept (partial vector sets), and the default matrix is the identity or zero. Named constants, zero/identity functors and homogeneous vector conversions have their documented values, and the source is never changed.',
     'every element value (all bit patterns for copies), every pair of sizes and types in the bounds',
     'tests use one literal per constructor; size-changing and type-changing conversions are hardly exercised',
     [MX, VE], [('constructors, operator=, set, cast_from', MX), ('constructors, operator=, set, iter_set, static constants', VE)],
     'matrices up to 4x4, 6x7 (thorough 9x10), vectors up to 4, 9 (17); float, double, int, uint8')

prop('C04', 'Rows, columns, blocks, transpose, direct sum and diagonal go where they belong',
     'Extracting, replacing and rearranging parts of a matrix (rows, columns, sub-matrices at any offset, transpose, direct sum, diagonal) moves every element to '
     'its mathematical position, leaves all other elements and the source unchanged, and transposing twice is the identity.',
     'every element bit pattern, every valid row/column index and block offset',
     'the tests use literal square matrices and offsets; index mix-ups on non-square shapes or other offsets stay invisible',
     [MX], [('get_row, set_row, get_column, set_column, get_sub_matrix, set_sub_matrix, transpose, transpose_to, transposed, direct_sum, diag', MX)],
     'shapes up to 5x2 / 4x4, 6x7, 7x8 (thorough 9x10, 12x11), float, double, int, uint8')

prop('C05', 'Equality, tolerance equality and ordering mean what they say for every value',
     'Matrices, vectors, quaternions and boxes compare equal exactly when all their elements do, != is the negation, and < compares component-wise; tolerance '
     'comparison holds exactly when every element difference is within the tolerance and never for a NaN. The row/column sign-insensitive comparison holds exactly when each '
     'row (column) agrees with its counterpart or its negation, and functor comparison consults the functor for each pair.',
     'every pair of operands, including NaN, infinities, signed zeros, and every tolerance',
     'a comparison that ignores an element or mishandles NaN or order only shows for particular operand pairs',
     [MX, VE, QU, 'vmmlib/aabb.hpp', 'vmmlib/util.hpp'], [('operator==, operator!=, equals, is_akin, operator<', MX), ('comparisons', VE), ('comparisons', QU)],
     'sizes 2x2, 2x3, 3x2, 4x4, vectors 1, 3, 4; float/double bit-precise, int, uint8')

prop('C06', 'Vector arithmetic is component-wise and alias-safe',
     'Each of + - * / between vectors and with a scalar, its compound form, unary minus, negate, product and the reciprocals give in every component the result of the scalar '
     'operation on the operand components, infinities, NaN and signed zeros included, also when an operand aliases the target. Operands other than the target are unchanged.',
     'every component value, every scalar, aliased and distinct operands',
     'tests use literal operands; aliasing and single-component errors need all components symbolic',
     [VE], [('operator+ - * / and compound forms, negate, product, reciprocal, sqrt_elementwise', VE)],
     'vectors of 1..5 components and 9 (thorough 17), float, double, int, uint8; special values from { 0, -0, 1, -2, 4, inf, -inf, NaN } bit for bit', assume=REAL)

prop('C07', 'Matrix element-wise arithmetic is exact per element and alias-safe',
     'Sum, difference, scalar product and quotient, unary minus and negate of matrices, and their compound forms, give in every element the result of the scalar operation on '
     'the operand elements, infinities, NaN and signed zeros included, also when an operand aliases the target. Operands other than the target are unchanged.',
     'every element value, every scalar, aliased and distinct operands',
     'tests use literal operands of one shape',
     [MX], [('operator+ - * / and compound forms, negate', MX)],
     'shapes 1x5..4x4, 6x7 (thorough 10x11), float, double, int; special values from { 0, -0, 1, -2, 4, inf, -inf, NaN } bit for bit', assume=REAL)

prop('C08', 'Matrix products equal their defining sums for all operands',
     'Matrix times matrix (also compound and with itself), matrix times vector, homogeneous transform of a smaller vector, tensor, Kronecker and Khatri-Rao products and the covariance product equal '
     'the sums that define them, element by element, and propagate infinities and NaN like these sums. Operands that are not the target are unchanged.',
     'every element value of both operands, square and non-square shapes',
     'the tests multiply a few literal, mostly square matrices',
     [MX], [('multiply, operator*, operator*=, tensor, kronecker_product, khatri_rao_product, symmetric_covariance', MX)],
     'shapes up to 4x4 and 1x5x1 / 5x1x5, 6x7x8 (thorough 9x10x11), float, double, int; special values from { 0, -0, 1, -2, 4, inf, -inf, NaN } bit for bit', assume=REAL)

prop('C09', 'Determinant, minors, cofactors, adjugate, definiteness match their definitions',
     'The determinant of a 1x1 to 4x4 matrix is the Leibniz sum, a minor removes exactly its row and column, cofactors carry the alternating sign, and the adjugate is the transposed cofactor matrix with '
     'adj(M)*M = M*adj(M) = det(M)*I. Positive-definiteness of a 3x3 matrix is decided by its leading principal minors against the limit, and none of these changes the matrix.',
     'every element value',
     'the polynomial identities hold for all matrices; tests evaluate them at a handful of literals',
     [MX], [('compute_determinant, det, get_minor, get_cofactors, get_adjugate, is_positive_definite', MX)],
     '1x1..4x4 (minors also of 5x5), float, double, int', assume=REAL)

prop('C10', 'Inverse succeeds exactly when |det| exceeds the tolerance, and then inverts',
     'inverse() of a 2x2, 3x3 or 4x4 matrix returns true exactly when the absolute value of the determinant is above the tolerance, and then both products of matrix and result are the identity. '
     'The matrix itself is unchanged.',
     'every non-singular or singular matrix, every tolerance',
     'tests invert a few literals; a wrong cofactor sign or a wrong singularity test shows only for others',
     [MX], [('inverse', MX)], '2x2, 3x3, 4x4; float, double', assume=REAL)

prop('C11', 'Extrema, counts, sums, norms, clamping and thresholds follow their definitions',
     'Minimum/maximum searches return the first extremal element or its value over all elements, non-zero counts and thresholds compare magnitudes, sums and products run over all elements (or exactly the paired rows/columns), norms are the non-negative roots of their sums, '
     'and clamping, unit vectors and component-wise min/max treat each component on its own.',
     'every element value (infinities included for extrema), every threshold and range',
     'which element is extremal, negative, tied or at the border varies over all inputs; tests use single literals',
     [MX, VE], [('get_min/max, get_abs_min/max, nnz, threshold, sum_*, columnwise_sum, frobenius_norm, p_norm', MX), ('find_min/max, find_*_index, clamp, is_unit_vector, product, norm, manhattan', VE)],
     'matrices up to 4x4, 6x7 and 8x7 (thorough 11x13), vectors up to 4, 6; float, double, int, uint8, int8',
     assume=REAL + FPA)

prop('C12', 'Vector geometry: dot, cross, lengths, normalisation, triangle normals, rotation',
     'dot, cross, (squared) length and distance equal their definitions; normalising keeps the direction and gives unit length (zero stays zero) and returns the former length. '
     'Triangle normals are the unit vector along (b-a)x(c-a), rotating about a unit axis is the right-handed rotation, and operands are unchanged.',
     'every component value, every angle and unit axis',
     'tests use literals, often axis-aligned, where sign and component errors cancel',
     [VE], [('dot, cross, length, distance, normalize, compute_normal, rotate', VE)], 'vectors of 2..5, 7 (thorough 16) components, float, double, int',
     assume=REAL + ('sin and cos enter only through sin^2 + cos^2 = 1 and the addition theorems',))

prop('C13', 'Planes and spheres: signed distances, projections and plane construction',
     'The distance to a plane is n.x + w and to a sphere |x - center| - radius; projecting onto a plane moves along the normal onto it and onto a sphere gives the point radius away from the center towards the original. '
     'A plane computed from three points has a unit normal along (c-a)x(b-a) and contains the three points.',
     'every plane, sphere and point; every non-degenerate triangle',
     'tests use single axis-aligned literals or none at all',
     [VE], [('distance_to_plane, project_point_onto_plane, distance_to_sphere, project_point_onto_sphere, compute_plane', VE)],
     'float and double', assume=REAL)

prop('C14', 'Quaternion algebra follows Hamilton for every operand, also aliased',
     'Products of quaternions (and with a vector as pure quaternion) are Hamilton\'s, sums, differences and scalings are component-wise, conjugate and inverse satisfy q*inverse(q) = inverse(q)*q = 1, and dot, abs and normalisation follow the '
     'component formulas, also for the compound forms with the quaternion itself as operand. Dividing by zero throws and changes nothing, the zero quaternion stays zero when normalised. Constructors and named constants set the stated components; other operands are unchanged.',
     'every component value, aliased and distinct operands',
     'non-commutative sign errors only show for generic operands',
     [QU], [('operator* + - /, conjugate, inverse, normalize, dot, cross, set', QU)], 'float, double', assume=REAL)

prop('C15', 'Unit quaternions and rotation matrices describe the same rotation',
     'The matrix of a unit quaternion is orthonormal with determinant 1 and maps every vector v to q v q*; quaternion products become matrix products. '
     'Converting a rotation matrix, or the upper left part of a larger one, to a quaternion gives the rotation\'s quaternion up to sign, in every branch; writing the matrix into a larger one leaves its other elements alone.',
     'every unit quaternion, every vector',
     'the conversion has four branches with different formulas; tests hit one or two of them at literals',
     [QU], [('Quaternion( Matrix ), get_rotation_matrix', QU)], 'float, double; 3x3 and 4x4 matrices',
     assume=REAL)

prop('C16', 'Spherical interpolation runs uniformly along the shorter arc with unit length',
     'slerp(t, p, q) of unit quaternions has unit length, starts at p, ends at q or -q, and its angle to p grows linearly with t along the shorter great arc; nearly equal operands are joined by the normalised chord. Operands are unchanged.',
     'every t in [0,1], every pair of unit quaternions',
     'correctness over the whole parameter range and both signs of the dot product cannot be sampled by a few literals',
     [QU], [('Quaternion::slerp', QU)], 'float, double; cos of the angle below 0.9999 for the arc branch',
     assume=REAL + ('sin, cos, acos by their contracts (inverse functions, addition theorems)',))

prop('C17', '4x4 transforms: rotation, scaling and translation compose on the stated side',
     'Matrices created or applied for rotation about an axis, scaling and translation act on column vectors as stated: rotate/scale/apply methods multiply on the right, pre-rotations on the left, and setting or reading the translation touches exactly that column. '
     'A matrix assembled from a rotation block and a translation maps p to R p + t.',
     'every matrix, angle, unit axis, scale and translation',
     'tests check a few identity-based literals where multiplication side and sign of the angle are indistinguishable',
     [MX], [('rotate*, pre_rotate*, scale*, set_translation, get_translation, create_*, apply_*', MX)], '4x4, float, double',
     assume=REAL + ('sin and cos enter only through sin^2 + cos^2 = 1 and the addition theorems',))

prop('C18', 'Frustum matrices map the view volume onto the cube; frustum edits are exact',
     'The perspective and orthographic matrices of a frustum map its eight corners to the corners of the cube [-1,1]^3 and have the documented form in all sixteen elements. Setting it from a field of view, moving the near plane (same pyramid), '
     'jittering, storing and converting change exactly the six values as stated; width and height are the extents.',
     'every frustum with non-zero extents, every field of view below 180 degrees, near plane and jitter',
     'tests compare one literal symmetric frustum; off-axis and left/right, top/bottom mix-ups cancel there',
     ['vmmlib/frustum.hpp'], [('compute_matrix, compute_ortho_matrix, set_perspective, adjust_near, apply_jitter, get_width, get_height', 'vmmlib/frustum.hpp')],
     'float and double, all six frustum values symbolic', assume=REAL + ('tan enters as sin / cos with sin^2 + cos^2 = 1',))

prop('C19', 'Frustum culling: NONE only behind a plane, FULL only inside all planes',
     'After setup from any projection matrix or from eight frustum corners, a sphere or box is reported invisible exactly when it lies behind one of the six clip planes, fully visible exactly when it lies in front of all of them, and partially visible otherwise. '
     'Setup and tests leave their arguments unchanged.',
     'every projection matrix with proper planes, every frustum given by corners, every sphere and box (bounds in any order)',
     'visibility depends on the position relative to six planes at once; tests try a few literal spheres with one matrix',
     ['vmmlib/frustum_culler.hpp', VE], [('setup, test_sphere, test_aabb', 'vmmlib/frustum_culler.hpp')],
     'spheres: arbitrary 4x4 matrix, arbitrary frustum corners; boxes: six axis-aligned planes with any position, one pair of planes with any normal (the rest not cutting), normals (2,3,6)/7 with all signs; float and double',
     assume=REAL, opts={'branch_ms': 2000})

prop('C20', 'Bounding boxes: containment, hull by merging, emptiness and arithmetic',
     'A box contains exactly the points within its three closed ranges, is empty exactly when an extent is not positive, and merging with a box or point gives the component-wise hull, so that nothing contained before is lost; an empty box is neutral. '
     'Setters, box-scalar arithmetic, center and dimension follow the component formulas and touch nothing else.',
     'every pair of boxes and every point, including degenerate and inverted ranges',
     'a lost or mixed-up component only shows for points and boxes on a particular side',
     ['vmmlib/aabb.hpp'], [('isIn, isIn2d, isEmpty, merge, setEmpty, getCenter, getDimension, operators', 'vmmlib/aabb.hpp')],
     'float, double, int; comparisons bit-precise for all values but NaN, arithmetic over the reals', assume=REAL + FPA)

prop('C21', 'Ray-sphere intersection: hit exactly when met, at the nearest parameter',
     'test_sphere is true exactly when the ray (origin plus a non-negative multiple of the normalised direction) meets the sphere, and then reports the smallest such parameter (the exit point when the origin is inside); '
     'without a hit the output parameter is not touched, and ray and sphere are unchanged.',
     'every ray and sphere: in front, behind, inside, tangential, missed',
     'the sign cases (behind, inside, tangent) interact; tests try few literals',
     ['vmmlib/intersection.hpp'], [('Intersection::test_sphere', 'vmmlib/intersection.hpp')],
     'float and double, arbitrary origin, direction and sphere', assume=REAL)

prop('C22', 'The low pass filter is the weighted mean of exactly the last M values',
     'After any number of additions the filtered value is the stated exponentially weighted combination of the last M values (newest first), forgets older ones completely, passes a constant unchanged and, for factors in [0,1], stays within the range of these values; '
     'a changed factor holds from the next addition on. For integer values each step of the combination is truncated towards zero.',
     'every sequence of values (longer than the window), every smoothing factor',
     'window wrap-around and forgetting need histories longer than the window with independent values',
     ['vmmlib/lowpass_filter.hpp'], [('add, get, set_smooth_factor', 'vmmlib/lowpass_filter.hpp')],
     'window 1..5, up to 7 additions, float, double, Vector<3>; int with |x| <= 1000 and factors 0, 1/4, 1/2, 1', over=('inputs', 'histories'), assume=REAL)

prop('C23', 'Quantisation picks the nearest code and dequantisation restores the value',
     'Quantising to an unsigned integer type maps the range to all codes, each value within the range to the nearest one, values outside to the end codes, and keeps the order; to a signed type with a symmetric range zero is code 0 and the error is below 1.5 steps. '
     'Quantising and dequantising over the same range restores every element of the matrix within half a step (unsigned), and never leaves the range.',
     'every element value and range (finite, positive extent; signed codes: symmetric range)',
     'rounding and clamping at the ends depend on where the value lies between two codes',
     [MX, VE], [('quantize_to, quantize, dequantize', MX), ('Vector::scale_to', VE)], 'shapes up to 2x2, in-range values up to 5x4 (thorough 7x8), vectors up to 4 and 9, 8, 16 and 32 bit signed and unsigned codes, float and double', assume=REAL)

prop('C24', 'Stream and raw file output: order, round trip, format state, paths',
     'write_to_stream writes the elements row by row, separated by blanks, and read_from_stream reads exactly these back, also several objects from one stream. operator<< prints each type in its documented layout, element order and field format, and leaves flags, precision and width of the stream as they were. '
     'write_to_raw and write_csv_file write directory/name (slash and suffix added when missing) with the elements column by column resp. as printed; read_from_raw restores them, and changes and leaks nothing when there is no file.',
     'every element value, every decimal stream state, every directory and file name in the bounds',
     'tests print or write one literal object with the default stream state and compare nothing',
     [MX, VE], [('write_to_stream, read_from_stream, write_to_raw, read_from_raw, write_csv_file, operator<<', MX), ('write_to_stream, read_from_stream, operator<<', VE),
                ('operator<<', QU), ('operator<<', 'vmmlib/aabb.hpp'), ('operator<<', 'vmmlib/frustum.hpp'), ('operator<<( Visibility )', 'vmmlib/frustum_culler.hpp')],
     'matrices up to 4x4, 7x6 (thorough 10x11), vectors up to 5, float, double, int, unsigned, uint8 (files); names up to 5 (7) characters, directories up to 3',
     assume=('formatting and parsing of a single number (num_put, num_get) and file system calls are modelled: what is printed is a sequence of characters and ( value, precision, width, flags ); replay uses real string streams and files',))

prop('C25', 'QR decomposition: A = Q R with orthonormal Q and upper triangular R',
     'For a matrix with independent columns qr_decompose_gram_schmidt returns an upper triangular R with positive diagonal and a Q whose first columns are orthonormal, with Q R = A; the unused columns of Q and everything below the diagonal of R are zero and A is unchanged.',
     'every matrix with linearly independent columns in the bounds',
     'no test of the suite calls it on more than one literal; a sign, index or order mix-up shows only in general position',
     ['vmmlib/qr_decomposition.hpp'], [('qr_decompose_gram_schmidt', 'vmmlib/qr_decomposition.hpp')],
     'every 1x1, 2x1, 4x1, 2x2, 3x2 matrix; 3x3, 4x3, 4x4, 5x2 as a fixed orthonormal basis times every upper triangular matrix with positive diagonal; float, double', assume=REAL)

prop('C26', 'Convolution equals its defining sum with the border values extended',
     'convolve(kernel) replaces every element by the sum over the kernel, its middle element (rows/2, columns/2) placed on the element, of kernel element times the original matrix element there, '
     'with row and column indices outside the matrix moved to its border. The kernel is unchanged and no access leaves either matrix.',
     'every matrix, kernel and shape in the bounds',
     'border clamping on non-square shapes and kernels larger than the matrix is not covered by literals',
     [MX], [('Matrix::convolve', MX)], 'shapes up to 5x5 with kernels up to 5x5, 7x8 with 5x3 (thorough 10x11 with 7x5), float, double, int', assume=REAL)

prop('C27', 'Random fill stays in [-1,1], is reproducible, and perturbation is exactly +-p',
     'set_random fills every element from its own draw with a value in [-1,1], reaching the ends at the extreme draws; a non-negative seed seeds the generator, so the same seed gives the same elements, a negative seed does not. '
     'perturb adds plus or minus the stated amount to every component, each sign from its own draw.',
     'every sequence of values rand() may return, every seed, every perturbation',
     'a run of rand() never shows the extreme draws, and tests cannot tell independent from shared draws',
     [MX, VE], [('Matrix::set_random', MX), ('Vector::set_random, Vector::perturb', VE)], 'matrices up to 3x2, vectors up to 4, float and double; rand() replaced by an arbitrary sequence in [0, RAND_MAX]', assume=REAL)

prop('C28', 'Scalar helpers: pythag, sign transfer, magnitude order, tolerance',
     'pythag(a,b) is the non-negative root of a^2+b^2 and neither overflows nor underflows while that root can be represented, sign(a,b) has the magnitude of a and the sign of b, the abs comparators order by magnitude, and scalar equals holds exactly when the operands differ by less than the float epsilon.',
     'every pair of scalars',
     'tests do not call them',
     ['vmmlib/math.hpp', 'vmmlib/util.hpp'], [('pythag, sign, squared, abs_less, abs_greater', 'vmmlib/math.hpp'), ('equals', 'vmmlib/util.hpp')],
     'float and double; sign and comparators also short, int, int64', assume=REAL + FPA)

prop('C29', 'Discrete cosine basis is orthonormal: its transpose restores every signal',
     'After set_dct, element (i, j) of an M x N matrix is sqrt((i ? 2 : 1) / M) * cos(pi (2j + 1) i / 2M), whatever the matrix held before; for M = N multiplying a signal with it gives the DCT-II '
     'coefficients, and multiplying those with the transpose restores the signal.',
     'every signal with components in [-100, 100], every previous content, at each size in the bounds',
     'the suite never calls it; a wrong weight or angle shows only for particular rows, sizes and signals',
     [MX], [('Matrix::set_dct', MX)], 'square 1..8 (thorough 11, 12, 16), 3x5 and 5x2; float and double',
     assume=REAL + ('cosines of the (input-independent) angles are taken from the host libm; the signal is the symbolic part; tolerances 1e-5 per element and 1e-2 per signal component of up to 100',))

prop('C30', 'Boost.LA traits address the element by row and column, checked at run time',
     'matrix_traits gives rows = M and cols = N and reads and writes the element at the stated row and column, vector_traits the stated component, both for static and run-time indices and '
     'without touching any other element; a run-time index outside the matrix or vector asserts before anything is accessed.',
     'every element bit pattern, every run-time row, column and component (all 2^32 values of each), every static index',
     'the suite never includes the traits; swapped indices show only for non-symmetric or non-square matrices',
     ['vmmlib/matrix_traits.hpp', 'vmmlib/vector_traits.hpp'],
     [('matrix_traits', 'vmmlib/matrix_traits.hpp'), ('vector_traits', 'vmmlib/vector_traits.hpp')],
     '2x3, 3x2, 4x4, 1x5, 5x1 (thorough 5x7), vectors 1, 3, 4, 7; float, double, int, uint8',
     assume=('the headers of Boost.LA are not shipped with Boost any more: harness/boost/la declares the primary templates and BOOST_ASSERT (throwing)',))

prop('C31', 'Threads may share operands: operations write only what they are given',
     'Threads that read shared vectors, matrices, quaternions, frusta, cullers, boxes, filters and rays and write only to objects of their own never race: no operation keeps '
     'writable state of its own, changes an operand it takes as const (not even for the time of the call), or initialises shared data lazily without a guard. '
     'Each thread therefore gets the result it gets alone, under every schedule.',
     'every schedule (a step that writes nothing shared commutes with every step of another thread, so one symbolic run of a thread decides all interleavings of any number of them) and every value of the operands',
     'the suite is single threaded, where a scratch buffer kept between calls or an operand changed and restored is invisible',
     [MX, VE, QU, 'vmmlib/frustum.hpp', 'vmmlib/frustum_culler.hpp', 'vmmlib/aabb.hpp', 'vmmlib/intersection.hpp', 'vmmlib/lowpass_filter.hpp', 'vmmlib/util.hpp', 'vmmlib/qr_decomposition.hpp'],
     [('all operations listed under C01-C28 except random numbers and files', 'vmmlib'), ('static constants ZERO, ONE, IDENTITY, DEFAULT, UNIT_X ...: written before main only', 'vmmlib')],
     'one call of some 300 operations at 1-3 sizes and types each; loops and paths to their end; set_random, perturb and file access (which use process-wide state by design) are outside',
     over=('schedules', 'inputs'), observe=['absence of data races'], assume=REAL + ('a counterexample is confirmed by ThreadSanitizer on two native threads',))

prop('C32', 'Operations leave no memory behind, whichever way they end',
     'Every block an operation allocates is free again when the operation is over: after a normal return, after an early return (a singular matrix, a file that cannot be opened) and after '
     'an exception for a rejected index. Repeating any operation therefore never grows the process, and nothing is freed twice or used after it was freed.',
     'every value of the operands, every index (all 2^64 values), every path through the operation',
     'a block that is not freed changes no result; the suite counts no allocations and hardly takes the early exits',
     [MX, VE, QU, 'vmmlib/lowpass_filter.hpp', 'vmmlib/aabb.hpp', 'vmmlib/qr_decomposition.hpp', 'vmmlib/exception.hpp'],
     [('sum_rows, sum_columns, read_from_raw, write_to_raw, write_csv_file: the operations that allocate', MX), ('all other operations: none does', 'vmmlib')],
     'two calls of some 300 operations at 1-3 sizes and types each; what stays allocated after the first call and does not grow in the second is no leak',
     observe=['number of live heap blocks'], assume=REAL)

prop('C33', 'Version macros order every pair of releases',
     'VMMLIB_VERSION_GT, GE, LT and LE say whether the version of the library is newer, equal or newer, older, equal or older than the given major, minor and patch number, comparing major, '
     'then minor, then patch. For every pair of releases exactly one of older, same and newer holds, and each macro is a single operand of the expression it is used in.',
     'every major, minor and patch number of the library and of the request (all 2^32 values of each of the six)',
     'the suite never uses the macros, and with the one version it is built as most comparisons cannot even be reached',
     ['vmmlib/version.in.hpp'],
     [('VMMLIB_VERSION_GT / GE / LT / LE', 'vmmlib/version.in.hpp')],
     'no bound on the numbers; the three numbers the build fills in are symbolic',
     assume=('the arguments are primary expressions (the macros do not parenthesise them)',))

NOT_APPLICABLE = []
