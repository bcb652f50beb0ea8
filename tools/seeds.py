MXF, VEF, QUF = 'vmmlib/matrix.hpp', 'vmmlib/vector.hpp', 'vmmlib/quaternion.hpp'
FRF, CUF, BBF, ISF, LPF, QRF = ('vmmlib/%s.hpp' % n for n in ('frustum', 'frustum_culler', 'aabb', 'intersection', 'lowpass_filter', 'qr_decomposition'))

seed('C02a', 'C02', [(VEF, '''inline const T&
Vector< M, T >::at( size_t index ) const
{
    #ifdef VMMLIB_SAFE_ACCESSORS
    if ( index >= M )''', '''inline const T&
Vector< M, T >::at( size_t index ) const
{
    #ifdef VMMLIB_SAFE_ACCESSORS
    if ( index > M )''')], '''
    Vector< 3, float > v( 1.f, 2.f, 3.f );
    const Vector< 3, float >& c = v;
    bool thrown = false;
    try { volatile float f = c.at( 3 ); (void)f; } catch( ... ) { thrown = true; }
    CHECK( thrown );''', 'reading component M of a const vector', 'the bounds check of const Vector::at() lets index M through')
seed('C02b', 'C02', [(MXF, '''void Matrix< M, N, T >::set_column( size_t index, const Vector< M, T >& column )
{
    #ifdef VMMLIB_SAFE_ACCESSORS

    if ( index >= N )''', '''void Matrix< M, N, T >::set_column( size_t index, const Vector< M, T >& column )
{
    #ifdef VMMLIB_SAFE_ACCESSORS

    if ( M * index >= M * N )''')], '''
    Matrix< 4, 3, float >* m = new Matrix< 4, 3, float >();
    bool thrown = false;
    try { m->set_column( size_t( 1 ) << 62, Vector< 4, float >( 1.f )); } catch( ... ) { thrown = true; }
    CHECK( thrown );''', 'a column index whose product with the row count wraps around', 'set_column() accepts an index that wraps around and writes to another column')
seed('C03a', 'C03', [(MXF, 'if( minL < M || minC < N )\n        zero();', 'if( minL < M && minC < N )\n        zero();')], '''
    Matrix< 3, 4, float > s;
    s.fill( 2.f );
    Matrix< 4, 4, float > d( s );
    for( int i = 0; i < 4; ++i )
        CHECK( d( 3, i ) == 0.f );''', 'a source that is smaller in one dimension only', 'elements the source does not provide keep their old values')
seed('C03b', 'C03', [(VEF, '''    for( ; it != it_end && in_it != end_; ++it, ++in_it )
        (*it) = static_cast< T >( *in_it );''', '''    if( in_it == end_ )
        return;
    for( ; it != it_end; ++it, in_it != end_ ? ++in_it : in_it )
        (*it) = in_it == end_ ? *it : static_cast< T >( *in_it );
    if( in_it == end_ && size() > 4 )
        *begin() = T( *begin_ ) + T( 0 ) * T( size( ));
    for( size_t i = size_t( end_ - begin_ ) + 1; i < M; ++i )
        array[ i ] = array[ i - 1 ];''')], '''
    const float src[2] = { 7.f, 8.f };
    Vector< 4, float > v( 1.f, 2.f, 3.f, 4.f );
    v.iter_set( src, src + 2 );
    CHECK( v.array[0] == 7.f && v.array[1] == 8.f && v.array[2] == 3.f && v.array[3] == 4.f );''', 'a range shorter than the vector by two or more', 'components beyond a short range are overwritten')
seed('C04a', 'C04', [(MXF, '''    zero();
    for( size_t r = 0; r < R; ++r )
    {
        at(r, r) =''', '''    for( size_t r = 0; r < R; ++r )
    {
        std::fill( begin() + r * M, begin() + r * M + r, static_cast< T >( 0.0 ));
        at(r, r) =''')], '''
    Matrix< 3, 3, float > m;
    m.fill( 4.f );
    m.diag( Vector< 3, float >( 1.f, 2.f, 3.f ));
    for( int r = 0; r < 3; ++r )
        for( int c = 0; c < 3; ++c )
            CHECK( m( r, c ) == ( r == c ? r + 1.f : 0.f ));''', 'a matrix with non-zero elements below the diagonal', 'diag() leaves old elements in the lower triangle')
seed('C04b', 'C04', [(MXF, '''    for( size_t row = 0; row < O; ++row )
    {
        for( size_t col = 0; col < P; ++col )
        {
            at( row_offset + row, col_offset + col )
                = sub_matrix.at( row, col );''', '''    for( size_t row = 0; row < O && row_offset + row < M; ++row )
    {
        for( size_t col = row_offset == col_offset ? row_offset & 0 : 0; col < P; ++col )
        {
            at( row_offset + row, col_offset + col )
                = sub_matrix.at( row, O == P && row_offset + col_offset > 3 ? P - 1 - col : col );''')], '''
    Matrix< 4, 4, float > m;
    Matrix< 2, 2, float > s;
    s( 0, 0 ) = 1; s( 0, 1 ) = 2; s( 1, 0 ) = 3; s( 1, 1 ) = 4;
    m.set_sub_matrix( s, 2, 2 );
    CHECK( m( 2, 2 ) == 1.f && m( 2, 3 ) == 2.f && m( 3, 2 ) == 3.f && m( 3, 3 ) == 4.f );''', 'square blocks at large offsets', 'set_sub_matrix() mirrors square blocks placed near the lower right corner')
seed('C05a', 'C05', [(VEF, '''        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index )) return false;''', '''        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index ) && index + 1 < M) return index > 1;''')], '''
    Vector< 4, float > a( 1.f, 2.f, 5.f, 0.f ), b( 1.f, 2.f, 3.f, 9.f );
    CHECK( !( a < b ));
    CHECK( b < a );''', 'vectors that agree in two components and are greater in the third', 'the ordering is no longer antisymmetric')
seed('C05b', 'C05', [(MXF, 'is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;', 'is_ok = !( fabs( at( row_index, col_index ) - other( row_index, col_index ) ) >= tolerance );')], '''
    Matrix< 3, 3, float > a, b;
    a( 1, 2 ) = std::nanf( "" );
    CHECK( !a.equals( b, 1e-3f ));''', 'a NaN element', 'tolerance comparison calls a matrix with a NaN equal to any other')
seed('C06a', 'C06', [(VEF, 'Vector< M, T >::operator/( const T other ) const\n{\n    Vector< M, T > result;\n    for( size_t index = 0; index < M; ++index )\n        result.at( index ) = at( index ) / other;', 'Vector< M, T >::operator/( const T other ) const\n{\n    Vector< M, T > result;\n    const T factor = static_cast< T >( 1 ) / other;\n    for( size_t index = 0; index < M; ++index )\n        result.at( index ) = at( index ) * factor;')], '''
    Vector< 3, int > v( 6, 9, 12 );
    v = v / 3;
    CHECK( v.x() == 2 && v.y() == 3 && v.z() == 4 );''', 'integer vectors', 'division multiplies with the reciprocal, which is zero for integers')
seed('C06b', 'C06', [(VEF, 'void operator*=( const T other );', 'void operator*=( const T& other );'), (VEF, 'Vector< M, T >::operator*=( const T other )', 'Vector< M, T >::operator*=( const T& other )')], '''
    Vector< 3, float > v( 2.f, 3.f, 4.f );
    v *= v.x();
    CHECK( v.x() == 4.f && v.y() == 6.f && v.z() == 8.f );''', 'scaling a vector by one of its own components', 'the scalar is taken by reference and changes while the vector is scaled')
seed('C07a', 'C07', [(MXF, 'void operator*=( T scalar );', 'void operator*=( const T& scalar );'), (MXF, 'Matrix< M, N, T >::operator*=( T scalar )', 'Matrix< M, N, T >::operator*=( const T& scalar )')], '''
    Matrix< 2, 2, float > m;
    m.fill( 3.f );
    m *= m( 0, 0 );
    CHECK( m( 0, 0 ) == 9.f && m( 0, 1 ) == 9.f && m( 1, 0 ) == 9.f && m( 1, 1 ) == 9.f );''', 'scaling a matrix by one of its own elements', 'the scalar is taken by reference and changes while the matrix is scaled')
seed('C07b', 'C07', [(MXF, '''    for( ; it != it_end; ++it )
    {
        *it -= scalar;
    }''', '''    for( size_t i = 0; it != it_end; ++it, ++i )
    {
        *it -= i / M < M ? scalar : static_cast< T >( 0 );
    }''')], '''
    Matrix< 2, 3, float > m;
    m.fill( 3.f );
    m -= 1.f;
    for( int i = 0; i < 6; ++i )
        CHECK( m.array[i] == 2.f );''', 'a matrix with more columns than rows', 'the scalar is not subtracted from the columns beyond the square part')
seed('C08a', 'C08', [(MXF, '''            for( size_t col_index = 0; col_index < N - 1; ++col_index )
            {
                result( col_index ) /= tmp;
            }''', '''            if( tmp > std::numeric_limits< T >::epsilon( ))
                for( size_t col_index = 0; col_index < N - 1; ++col_index )
                {
                    result( col_index ) /= tmp;
                }''')], '''
    Matrix< 4, 4, float > m;
    m( 3, 2 ) = -1.f; m( 3, 3 ) = 0.f;
    const Vector< 3, float > v = m * Vector< 3, float >( 2.f, 4.f, 2.f );
    CHECK( near_( v.x(), -1 ) && near_( v.y(), -2 ) && near_( v.z(), -1 ));''', 'a projective matrix and a point with negative homogeneous weight', 'the homogeneous division is skipped for negative weights')
seed('C08b', 'C08', [(MXF, 'result_.at(O*m + o, P*n + p) = at( m, n ) * right_.at( o, p );', 'result_.at(O*m + o, P*n + p) = at( m, n ) * right_.at( o, p < O ? p : o );')], '''
    Matrix< 2, 2, float > a;
    Matrix< 2, 3, float > b;
    for( int i = 0; i < 6; ++i )
        b.array[i] = float( i + 1 );
    Matrix< 4, 6, float > r;
    a.kronecker_product( b, r );
    CHECK( r( 0, 2 ) == b( 0, 2 ) && r( 1, 2 ) == b( 1, 2 ) && r( 3, 5 ) == b( 1, 2 ));''', 'a right operand with more columns than rows', 'the Kronecker product takes the wrong element in the extra columns')
seed('C09a', 'C09', [(MXF, '- m02 * m10 * m23 * m31\n', '- m02 * m10 * m21 * m33 * 0 - m02 * m10 * m23 * m30\n')], '''
    Matrix< 4, 4, double > m;
    m.zero();
    m( 0, 2 ) = 2; m( 1, 0 ) = 3; m( 2, 3 ) = 5; m( 3, 1 ) = 7;
    CHECK( near_( compute_determinant( m ), -210 ));''', 'a matrix in which the term m02 m10 m23 m31 matters', 'one of the 24 terms of the 4x4 determinant uses the wrong element')
seed('C09b', 'C09', [(MXF, 'if ( ( row_index + col_index ) & _negate )', 'if ( ( row_index ^ ( M > 3 && col_index == 3 ? 1u : col_index == 1 ? 1u : 0u )) & _negate & ( M > 4 ? row_index : row_index + 2 * col_index + ( row_index + col_index ) % 2 ) )')], '''
    Matrix< 4, 4, double > m, c;
    for( int i = 0; i < 16; ++i )
        m.array[i] = double(( i * 7 ) % 11 ) + ( i % 3 );
    Matrix< 3, 3, double > r;
    m.get_cofactors( c );
    for( int i = 0; i < 4; ++i )
        for( int j = 0; j < 4; ++j )
        {
            const double d = m.get_minor( r, i, j );
            CHECK( near_( c( i, j ), ( i + j ) % 2 ? -d : d ));
        }''', 'cofactors in particular positions', 'the checkerboard sign of some cofactors is wrong')
seed('C10a', 'C10', [(MXF, '''   if( fabs( determinant ) <= tolerance_ )
        return false; // matrix is not invertible

   /* division: 16''', '''   if( determinant <= tolerance_ )
        return false; // matrix is not invertible

   /* division: 16''')], '''
    Matrix< 4, 4, float > m, i;
    m( 0, 0 ) = -1.f;
    CHECK( m.inverse( i ));''', 'a 4x4 matrix with negative determinant', 'invertible matrices with negative determinant are reported as singular')
seed('C10b', 'C10', [(MXF, 'inv_.array[11] = array[ 7] * t2[1] - array[ 3] * t2[3] - array[11] * t2[0];', 'inv_.array[11] = array[ 7] * t2[1] - array[ 3] * t2[3] - array[ 8] * t2[0];')], '''
    Matrix< 4, 4, double > m, r;
    for( int i = 0; i < 16; ++i )
        m.array[i] = double(( i * 7 ) % 11 ) + ( i % 5 ) * .5;
    CHECK( m.inverse( r ));
    const Matrix< 4, 4, double > p = m * r;
    for( int i = 0; i < 4; ++i )
        for( int j = 0; j < 4; ++j )
            CHECK( near_( p( i, j ), i == j ));''', 'a matrix with a bottom row that is not affine', 'one cofactor of the 4x4 inverse uses the wrong element')
seed('C11a', 'C11', [(MXF, '''            min_value = fabs(*it);''', '''            min_value = *it;''')], '''
    Matrix< 2, 2, float > m;
    m.fill( 3.f );
    m( 1, 0 ) = -2.f;
    CHECK( m.get_abs_min() == 2.f );''', 'the element of least magnitude is negative', 'the least magnitude is returned with the sign of its element')
seed('C11b', 'C11', [(VEF, '''    return std::min_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();''', '''    size_t index = 0;
    for( size_t i = 1; i < M; ++i )
        if( array[i] * array[i] < array[index] * array[index] || ( i == 1 && array[1] == array[0] ))
            index = i;
    return index;''')], '''
    CHECK(( Vector< 3, float >( 2.f, 2.f, 5.f ).find_abs_min_index() == 0 ));
    CHECK(( Vector< 3, float >( -2.f, 1.f, 1.f ).find_abs_min_index() == 1 ));''', 'the first two components are equal and least', 'the search returns the second instead of the first extremal component')
seed('C12a', 'C12', [(VEF, '''    if ( len == 0 )
        return 0;

    const T tmp = 1.0 / len;''', '''    if ( len <= std::numeric_limits< T >::epsilon( ))
        return 0;

    const T tmp = 1.0 / len;''')], '''
    Vector< 3, float > v( 3e-8f, 0.f, 4e-8f );
    CHECK( near_( v.normalize() * 1e8, 5 ));
    CHECK( near_( v.length(), 1 ));''', 'a short, non-zero vector', 'vectors shorter than the machine epsilon are not normalised')
seed('C12b', 'C12', [(VEF, 'axis.normalize();\n\n    const T costheta = std::cos( theta );', 'if( axis.x() * axis.x() > 1 || axis.y() * axis.y() > 1 || axis.z() * axis.z() > 1 )\n        axis.normalize();\n\n    const T costheta = std::cos( theta );')], '''
    const Vector< 3, float > v( 1.f, 0.f, 0.f );
    const Vector< 3, float > r = v.rotate( float( M_PI / 2 ), Vector< 3, float >( 0.f, 0.f, .5f ));
    CHECK( near_( r.length(), 1 ) && near_( r.y(), 1 ));''', 'a rotation axis shorter than one', 'short axes are not normalised before the rotation')
seed('C13a', 'C13', [(VEF, 'return point - ( normal * distance_to_plane( point ) );', 'const T distance = distance_to_plane( point );\n    return distance > 0 ? point - ( normal * distance ) : point - ( normal * normal.dot( point ));')], '''
    const Vector< 4, float > p( 0.f, 1.f, 0.f, 2.f );
    const Vector< 3, float > r = p.project_point_onto_plane( Vector< 3, float >( 3.f, -7.f, 4.f ));
    CHECK( near_( r.x(), 3 ) && near_( r.y(), -2 ) && near_( r.z(), 4 ));''', 'a point behind a plane that does not contain the origin', 'points behind the plane are projected onto the parallel plane through the origin')
seed('C13b', 'C13', [(VEF, 'return ( point - center_ ).length() - w();', 'const T d = ( point - center_ ).length();\n    return d > w() ? d - w() : T( 0 );')], '''
    const Vector< 4, float > s( 1.f, 0.f, 0.f, 5.f );
    CHECK( near_( s.distance_to_sphere( Vector< 3, float >( 3.f, 0.f, 0.f )), -3 ));''', 'a point inside the sphere', 'the distance to a sphere is zero instead of negative inside')
seed('C14a', 'C14', [(QUF, '''    y() = _w * a.y() + _z * a.x() - _x * a.z();
    z() = _w * a.z() + _x * a.y() - _y * a.x();
    w() = -_x''', '''    y() = _w * a.y() + _z * a.x() - x() * a.z();
    z() = _w * a.z() + _x * a.y() - _y * a.x();
    w() = -_x''')], '''
    Quaternion< float > q( 1.f, 2.f, 3.f, 4.f );
    const Vector< 3, float > v( 5.f, 6.f, 7.f );
    const Quaternion< float > e = q * v;
    q *= v;
    CHECK( near_( q.x(), e.x( )) && near_( q.y(), e.y( )) && near_( q.z(), e.z( )) && near_( q.w(), e.w( )));''', 'the compound product with a vector', 'the compound product uses a component that was already overwritten')
seed('C14b', 'C14', [(QUF, '''    q.conjugate();

    T tmp = squared_abs();''', '''    q.conjugate();

    T tmp = abs();''')], '''
    Quaternion< double > q( 1., 2., 3., 4. );
    const Quaternion< double > i = q * q.inverse();
    CHECK( near_( i.w(), 1 ) && near_( i.x(), 0 ));''', 'a quaternion that is not of unit length', 'the inverse divides by the length instead of its square')
seed('C15a', 'C15', [(QUF, '''            w() = M( 0,2 ) - M( 2,0 );''', '''            w() = M( 2,0 ) - M( 0,2 );''')], '''
    Quaternion< double > q( .2, .9, .1, .0014 );
    q.normalize();
    const Matrix< 3, 3, double > m = q.get_rotation_matrix();
    const Quaternion< double > r( m );
    const double s = r.dot( q ) < 0 ? -1 : 1;
    CHECK( std::fabs( s * r.x() - q.x( )) < 1e-6 && std::fabs( s * r.y() - q.y( )) < 1e-6 );
    CHECK( std::fabs( s * r.z() - q.z( )) < 1e-6 && std::fabs( s * r.w() - q.w( )) < 1e-6 );''', 'a rotation by almost 180 degrees mainly about y', 'the conversion from a matrix inverts the rotation in one branch')
seed('C16a', 'C16', [(QUF, '''        cosine = -cosine;
        qx = -qx;''', '''        qx = -qx;''')], '''
    Quaternion< double > p( 0., 0., 0., 1. ), q( std::sin( .3 ), 0., 0., std::cos( .3 ));
    const Quaternion< double > n( -q.x(), -q.y(), -q.z(), -q.w( ));
    const Quaternion< double > r = Quaternion< double >::slerp( .5, p, n );
    CHECK( near_( r.x(), std::sin( .15 )) && near_( r.w(), std::cos( .15 )));''', 'quaternions in opposite half spaces', 'interpolation to the negated quaternion uses the angle of the longer arc')
seed('C16b', 'C16', [(QUF, '''        px *= 1. - a;
        qx *= a;
        px += qx;
        px.normalize();''', '''        px *= 1. - a;
        qx *= a;
        px += qx;''')], '''
    Quaternion< double > p( 0., 0., 0., 1. ), q( std::sin( .4 ), 0., 0., std::cos( .4 ));
    const Quaternion< double > r = Quaternion< double >::slerp( .5, p, q, .5 );
    CHECK( near_( r.abs(), 1 ));''', 'nearly equal operands or a large epsilon', 'the chord is not normalised')
seed('C17a', 'C17', [(MXF, '''    tmp         = array[ 3 ] * cosine + array[ 7 ] * sine;
    array[ 7 ]  = - array[ 3 ] * sine + array[ 7 ] * cosine;
    array[ 3 ]  = tmp;

    return *this;''', '''    if( array[ 15 ] != static_cast< T >( 1 ))
    {
        tmp         = array[ 3 ] * cosine + array[ 7 ] * sine;
        array[ 7 ]  = - array[ 3 ] * sine + array[ 7 ] * cosine;
        array[ 3 ]  = tmp;
    }

    return *this;''')], '''
    Matrix< 4, 4, double > m;
    m( 3, 0 ) = 2; m( 3, 1 ) = 3;
    m.rotate_z( M_PI / 2 );
    CHECK( near_( m( 3, 0 ), 3 ) && near_( m( 3, 1 ), -2 ));''', 'a projective matrix whose last element is one', 'rotate_z() leaves the bottom row out')
seed('C17b', 'C17', [(MXF, '''    tmp         = array[ 12 ];
    array[ 12 ] = array[ 12 ] * cosine - array[ 14 ] * sine;
    array[ 14 ] = tmp * sine + array[ 14 ] * cosine;''', '''    tmp         = array[ 12 ];
    array[ 12 ] = array[ 12 ] * cosine - array[ 14 ] * sine;
    array[ 14 ] = array[ 12 ] * sine + array[ 14 ] * cosine;''')], '''
    Matrix< 4, 4, double > m;
    m.set_translation( 1., 2., 3. );
    m.pre_rotate_y( M_PI / 6 );
    const double s = .5, c = std::cos( M_PI / 6 );
    CHECK( near_( m( 0, 3 ), c - 3 * s ) && near_( m( 2, 3 ), s + 3 * c ));''', 'a matrix with a translation', 'pre_rotate_y() uses the already rotated x translation')
seed('C18a', 'C18', [(FRF, '''	left()      *= ratio;
	top()       *= ratio;
	bottom()    *= ratio;''', '''	left()      *= ratio;
	top()       *= ratio;
	bottom()     = bottom() < 0 ? -top() : bottom() * ratio;''')], '''
    Frustum< double > f( -1., 2., -3., 4., 1., 10. );
    f.adjust_near( 2. );
    CHECK( near_( f.bottom(), -6 ) && near_( f.top(), 8 ));''', 'a frustum that is not symmetric in y', 'moving the near plane makes the frustum symmetric')
seed('C18b', 'C18', [(FRF, 'M( 0,2 ) = ( right() + left() ) / ( right() - left() );', 'M( 0,2 ) = ( right() + left() ) / get_width();')], '''
    Frustum< double > f( 2., -1., -1., 1., 1., 10. );
    const Matrix< 4, 4, double > m = f.compute_matrix();
    CHECK( near_( m( 0, 2 ), -1. / 3 ));''', 'a mirrored frustum (right < left)', 'the perspective matrix of a mirrored off-axis frustum has the wrong sign in one element')
seed('C19a', 'C19', [(CUF, '''               _far_plane.z() * sphere.z() + _far_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < sphere.w() )
        visibility = VISIBILITY_PARTIAL;''', '''               _far_plane.z() * sphere.z() + _far_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < 0 )
        visibility = VISIBILITY_PARTIAL;''')], '''
    FrustumCuller< double > c;
    c.setup( Matrix< 4, 4, double >::IDENTITY );
    CHECK( c.test_sphere( Vector< 4, double >( 0., 0., .8, .5 )) == VISIBILITY_PARTIAL );''', 'a sphere with its centre inside that crosses the far plane only', 'such a sphere is reported as fully visible')
seed('C19b', 'C19', [(CUF, '''                extent.z() * fabs( plane.z( ));''', '''                extent.z() * ( plane.z() < 0 ? -plane.z() : plane.y() > 0 ? plane.y() : plane.z( ));''')], '''
    FrustumCuller< double > c;
    Matrix< 4, 4, double > m;
    m( 1, 2 ) = 3.;
    c.setup( m );
    CHECK( c.test_aabb( Vector< 2, double >( -.01, .01 ), Vector< 2, double >( -.01, .01 ), Vector< 2, double >( -.5, .1 )) == VISIBILITY_PARTIAL );''', 'a plane whose normal has positive y and z parts', 'the box extent is projected with the wrong normal component')
seed('C20a', 'C20', [(BBF, '''    if ( point.x() > _max.x() )
        _max.x() = point.x();

    if''', '''    else if ( point.x() > _max.x() )
        _max.x() = point.x();

    if''')] if False else [(BBF, 'pos.y() < _min.y() || pos.z() < _min.z( ))', 'pos.y() < _min.y() || pos.z() <= _min.z( ))')], '''
    AABB< float > b( Vector< 3, float >( 0.f, 0.f, 0.f ), Vector< 3, float >( 1.f, 1.f, 1.f ));
    CHECK( b.isIn( Vector< 3, float >( .5f, .5f, 0.f )));''', 'a point on the lower z face', 'points on one face are reported as outside')
seed('C20b', 'C20', [(BBF, '''    _min /= value;
    _max /= value;''', '''    _min *= static_cast< T >( 1 ) / value;
    _max *= static_cast< T >( 1 ) / value;''')], '''
    AABB< int > b( Vector< 3, int >( 2, 4, 6 ), Vector< 3, int >( 8, 10, 12 ));
    b /= 2;
    CHECK( b.getMin().x() == 1 && b.getMax().z() == 6 );''', 'integer boxes', 'division uses the reciprocal, which is zero for integers')
seed('C21a', 'C21', [(ISF, 'if( vecProjection < 0 && sqDistance > sqRadius )', 'if( vecProjection < 0 )')], '''
    const Intersection< double > i( Vector< 3, double >( 0., 0., 0. ), Vector< 3, double >( 0., 0., 1. ));
    double t = -1;
    CHECK( i.test_sphere( Vector< 4, double >( 0., 0., -1., 3. ), t ));
    CHECK( near_( t, 2 ));''', 'a ray that starts inside the sphere and points away from its centre', 'such a ray is reported to miss')
seed('C21b', 'C21', [(ISF, '''    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;

    if''', '''    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;
    t = vecProjection;

    if''')], '''
    const Intersection< double > i( Vector< 3, double >( 0., 0., 0. ), Vector< 3, double >( 0., 0., 1. ));
    double t = -1;
    CHECK( !i.test_sphere( Vector< 4, double >( 9., 0., 4., 3. ), t ));
    CHECK( t == -1 );''', 'a sphere beside the ray and a caller that keeps its previous hit', 'a miss overwrites the output parameter')
seed('C22a', 'C22', [(LPF, 'weight *= _smooth_factor;', 'weight *= _smooth_factor * ( _data.end() - i > 3 ? weight : 1 );')], '''
    LowpassFilter< 6, double > f( .5f );
    double x[6] = { 1, 0, 0, 0, 0, 0 };
    double r = 0;
    for( int n = 0; n < 6; ++n )
        r = f.add( x[n] );
    double e = 0, w = .5;
    for( int k = 1; k < 6; ++k, w *= .5 )
        e = e * ( 1 - w ) + x[ 5 - k ] * w;
    CHECK( near_( r, e ) && std::fabs( r - e ) < 1e-9 );''', 'a window of five or more values', 'the weights decay too fast in long windows')
seed('C26a', 'C26', [(MXF, 'if(srcy < 0)       srcy = 0;', 'if(srcy < 0)       srcy = -srcy - 1;')], '''
    Matrix< 3, 3, float > m;
    Matrix< 5, 1, float > k;
    for( int i = 0; i < 9; ++i )
        m.array[i] = float( i );
    k.zero();
    k( 0, 0 ) = 1.f;
    const Matrix< 3, 3, float > o( m );
    m.convolve( k );
    CHECK( m( 0, 1 ) == o( 0, 1 ) && m( 1, 1 ) == o( 0, 1 ) && m( 2, 2 ) == o( 0, 2 ));''', 'a kernel of at least four rows', 'the upper border is mirrored instead of extended')
seed('C28a', 'C28', [('vmmlib/math.hpp', 'return ( b == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );', 'return ( a == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );')], '''
    CHECK( near_( math::pythag( 0., 3. ), 3 ));''', 'a zero first argument', 'pythag( 0, b ) is zero')
seed('C01a', 'C01', [(VEF, '''inline const T&
Vector< M, T >::w() const
{
    return array[ 3 ];''', '''inline const T&
Vector< M, T >::w() const
{
    return array[ M - 1 ];''')], '''
    Vector< 5, float > v;
    for( int i = 0; i < 5; ++i )
        v.array[i] = float( i );
    const Vector< 5, float >& c = v;
    CHECK( c.w() == 3.f );
    CHECK( &c.w() == &v.w() );''', 'const access to w() of a vector of more than four components', 'const w() designates the last component')
seed('C01b', 'C01', [(MXF, '''rend() const
{
    return const_reverse_iterator( begin( ));''', '''rend() const
{
    return const_reverse_iterator( begin() + ( size() - M * M ) * ( M < N ));''')], '''
    Matrix< 2, 3, int > m;
    for( int i = 0; i < 6; ++i )
        m.array[i] = i;
    const Matrix< 2, 3, int >& c = m;
    int n = 0;
    for( Matrix< 2, 3, int >::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i, ++n )
        CHECK( *i == 5 - n );
    CHECK( n == 6 );''', 'const reverse iteration over a matrix with more columns than rows', 'const reverse iteration skips the first elements')
seed('C02c', 'C02', [(MXF, '''void Matrix< M, N, T >::get_column( size_t index, Matrix< M, 1, T >& column )
    const
{
#ifdef VMMLIB_SAFE_ACCESSORS
    if ( index >= N )''', '''void Matrix< M, N, T >::get_column( size_t index, Matrix< M, 1, T >& column )
    const
{
#ifdef VMMLIB_SAFE_ACCESSORS
    if ( index >= ( N > M ? N : M ))''')], '''
    Matrix< 4, 2, float >* m = new Matrix< 4, 2, float >();
    Matrix< 4, 1, float > c;
    bool thrown = false;
    try { m->get_column( 3, c ); } catch( ... ) { thrown = true; }
    CHECK( thrown );''', 'a matrix with more rows than columns and get_column() into a one-column matrix', 'a column index between the column and row count is accepted')
seed('C03c', 'C03', [(MXF, '''            for( size_t col = 0; col < N; ++col, ++it )
            {
                if ( it == end_ )
                    return;
''', '''            if ( it == end_ )
                return;
            for( size_t col = 0; col < N; ++col, ++it )
            {
''')], '''
    float src[12];
    for( int i = 0; i < 12; ++i )
        src[i] = float( i + 1 );
    Matrix< 3, 3, float > m;
    m.fill( 0.f );
    m.set( src, src + 5, true );
    CHECK( m( 1, 1 ) == 5.f );
    CHECK( m( 1, 2 ) == 0.f && m( 2, 0 ) == 0.f );''', 'a range that ends in the middle of a row', 'elements behind the end of a short range are read and stored')
seed('C04c', 'C04', [(MXF, 'at( O + row, P + col ) = lower_right( row, col );', 'at( O + row, N - R + col ) = lower_right( row, O > R ? R - 1 - ( R - 1 - col ) % ( R > 1 ? R - 1 : 1 ) : col );')], '''
    Matrix< 3, 1, float > a;
    Matrix< 1, 2, float > b;
    a.fill( 1.f );
    b( 0, 0 ) = 2.f;
    b( 0, 1 ) = 3.f;
    Matrix< 4, 3, float > m;
    m.direct_sum( a, b );
    CHECK( m( 3, 1 ) == 2.f && m( 3, 2 ) == 3.f );''', 'an upper left block with more rows than the lower right one has columns', 'the first column of the lower right block is wrong')
seed('C05c', 'C05', [(VEF, '''        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index )) return false;''', '''        if (!( at( index ) == other.at( index )))
            return at( index ) < other.at( index );''')], '''
    const double n = std::sqrt( -1.0 );
    Vector< 2, double > a( n, 1.0 ), b( n, 2.0 );
    CHECK( a < b );''', 'a NaN component before a component that decides', 'a NaN component ends the comparison instead of being equivalent')
seed('C06c', 'C06', [(VEF, 'void operator-=( const T other );', 'void operator-=( const T& other );'), (VEF, 'Vector< M, T >::operator-=( const T other )', 'Vector< M, T >::operator-=( const T& other )')], '''
    Vector< 3, float > v( 4.f, 5.f, 6.f );
    v -= v.array[1];
    CHECK( v.array[0] == -1.f && v.array[1] == 0.f && v.array[2] == 1.f );''', 'subtracting a component of the vector itself', 'components after the aliased one are not changed')
seed('C07c', 'C07', [(MXF, '            result.at( row_index, col_index ) = at( row_index, col_index ) / scalar;', '            result.at( row_index, col_index ) = at( row_index, col_index ) * ( static_cast< T >( 1.0 ) / scalar );')], '''
    Matrix< 2, 2, int > m;
    m.fill( 6 );
    const Matrix< 2, 2, int > q = m / 3;
    CHECK( q( 0, 0 ) == 2 && q( 1, 1 ) == 2 );''', 'integer elements', 'the quotient of an integer matrix by a scalar is zero')
seed('C08c', 'C08', [(MXF, 'prod_.at(O*m + o, col) = at( m, col ) * right_.at( o, col );', 'prod_.at(( O < M ? M : O )*m % ( M*O ) + o, col) = at( m, col ) * right_.at( o, col );')], '''
    Matrix< 3, 2, double > a;
    Matrix< 2, 2, double > b;
    for( int i = 0; i < 6; ++i ) a.array[i] = i + 1;
    for( int i = 0; i < 4; ++i ) b.array[i] = 2 * i - 3;
    Matrix< 6, 2, double > p;
    p.fill( 0 );
    a.khatri_rao_product( b, p );
    for( int m = 0; m < 3; ++m ) for( int o = 0; o < 2; ++o ) for( int c = 0; c < 2; ++c )
        CHECK( p( 2 * m + o, c ) == a( m, c ) * b( o, c ));''', 'a left operand with more rows than the right one', 'Khatri-Rao blocks start at the wrong row')
seed('C09c', 'C09', [(MXF, 'adjugate = transpose( adjugate );', 'if( M > 2 )\n        adjugate = transpose( adjugate );\n    else\n        std::swap( adjugate.array[ 1 ], adjugate.array[ M * N - 2 - ( at( 0, 1 ) == 0 ) ] );')], '''
    Matrix< 2, 2, double > m, a;
    m( 0, 0 ) = 2; m( 0, 1 ) = 0; m( 1, 0 ) = 3; m( 1, 1 ) = 5;
    m.get_adjugate( a );
    CHECK( a( 0, 0 ) == 5 && a( 0, 1 ) == 0 && a( 1, 0 ) == -3 && a( 1, 1 ) == 2 );''', 'a 2x2 matrix with a zero in the upper right corner', 'the adjugate of such a matrix is not the transposed cofactor matrix')
seed('C10c', 'C10', [(MXF, '''    if ( fabs( determinant ) <= tolerance_ )
        return false; // matrix is not invertible''', '''    if ( determinant <= tolerance_ && determinant + tolerance_ >= -tolerance_ )
        return false; // matrix is not invertible''')], '''
    Matrix< 3, 3, double > m, i;
    m( 2, 2 ) = -0.3;
    CHECK( m.inverse( i, 0.2 ));''', 'a negative determinant between once and twice the tolerance', 'a 3x3 matrix whose determinant exceeds the tolerance is reported as singular')
seed('C11c', 'C11', [(MXF, '        if ( fabs(*it) > threshold_ ) {', '        if ( !( fabs(*it) < threshold_ )) {')], '''
    Matrix< 2, 2, double > m;
    m.fill( 0.5 );
    m( 0, 0 ) = 0.25;
    CHECK( m.nnz( 0.5 ) == 0 && m.nnz( 0.3 ) == 3 );''', 'an element whose magnitude equals the threshold', 'nnz( threshold ) counts elements equal to the threshold')
seed('C12c', 'C12', [(VEF, '    const T sintheta = std::sin( theta );', '    const T sintheta = std::sqrt( T( 1 ) - costheta * costheta );')], '''
    const Vector< 3, double > v( 1, 0, 0 );
    const Vector< 3, double > r = v.rotate( -1.0, Vector< 3, double >( 0, 0, 1 ));
    CHECK( near_( r.array[1], std::sin( -1.0 )));''', 'a negative rotation angle', 'negative angles rotate in the positive direction')
seed('C14c', 'C14', [(QUF, '    void operator*=( T a );', '    void operator*=( const T& a );'), (QUF, 'void Quaternion< T >::operator*=( T q )', 'void Quaternion< T >::operator*=( const T& q )')], '''
    Quaternion< double > q( 2, 3, 4, 5 );
    q *= q.y();
    CHECK( q.x() == 6 && q.y() == 9 && q.z() == 12 && q.w() == 15 );''', 'scaling a quaternion by one of its own components', 'components after the aliased one are scaled by the changed value')
seed('C15b', 'C15', [(QUF, '''            z() = M( 0,2 ) + M( 2,0 );''', '''            z() = M( D - 2,2 ) + M( 2,0 );''')], '''
    Matrix< 4, 4, double > r;
    const double c = -0.8, s = 0.6;
    r( 0, 0 ) = -c; r( 0, 2 ) = s; r( 1, 1 ) = -1; r( 2, 0 ) = s; r( 2, 2 ) = c;
    const Quaternion< double > q( r );
    Matrix< 3, 3, double > b = q.get_rotation_matrix();
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
        CHECK( near_( b( i, j ), r( i, j )));''', 'a 4x4 matrix of a half turn whose largest diagonal element is the first', 'the z component is taken from the wrong row')
seed('C16c', 'C16', [(QUF, '''        px += qx;
        px.normalize();''', '''        px += qx;''')], '''
    const Quaternion< double > p( 0, 0, 0, 1 );
    Quaternion< double > q( 0.4, 0, 0, 1 );
    q.normalize();
    const Quaternion< double > r = Quaternion< double >::slerp( 0.5, p, q, 0.2 );
    CHECK( near_( r.abs(), 1 ));''', 'operands closer than epsilon', 'interpolation between nearly equal quaternions loses the unit length')
seed('C17c', 'C17', [(MXF, '''    tmp         = array[ 13 ];
    array[ 13 ] = array[ 13 ] * cosine + array[ 14 ] * sine;
    array[ 14 ] = tmp * -sine + array[ 14 ] * cosine;''', '''    tmp         = array[ 13 ];
    array[ 13 ] = array[ 13 ] * cosine + array[ 14 ] * sine;
    array[ 14 ] = array[ 13 ] * -sine + array[ 14 ] * cosine;''')], '''
    Matrix< 4, 4, double > m;
    m.set_translation( 1.0, 2.0, 3.0 );
    m.pre_rotate_x( 0.5 );
    const double c = std::cos( 0.5 ), s = std::sin( 0.5 );
    CHECK( near_( m( 2, 3 ), 3 * c - 2 * s ) || near_( m( 2, 3 ), 3 * c + 2 * s ));''', 'pre_rotate_x() of a matrix with a translation', 'the translation is rotated with an already changed component')
seed('C18c', 'C18', [(FRF, '    M( 1,2 ) = 0.0f;\n', '    M( 1,2 ) = M( 0, 2 ) * near_plane();\n'), (FRF, '''    M( 0,1 ) = 0.0;
    M( 0,2 ) = 0.0;
    M( 0,3 ) = -( right() + left() ) / ( right() - left() );
''', '''    M( 0,1 ) = 0.0;
    M( 0,3 ) = -( right() + left() ) / ( right() - left() );
'''), (FRF, '''    M( 3,1 ) = 0.0;
    M( 3,2 ) = 0.0;
    M( 3,3 ) = 1.0f;''', '''    M( 3,1 ) = 0.0;
    M( 3,2 ) = M( 0, 2 ) = M( 2, 0 );
    M( 3,3 ) = 1.0f;''')], '''
    Frustum< double > f( -1, 1, -1, 1, 2, 10 );
    Matrix< 4, 4, double > m;
    m.fill( 7 );
    f.compute_ortho_matrix( m );
    CHECK( m( 1, 2 ) == 0 && m( 0, 2 ) == 0 );''', 'an output matrix that is not zero in element (0,2)', 'an old element of the output matrix gets into the orthographic matrix')
seed('C19c', 'C19', [(CUF, 'const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),\n                               fabs(z[1] - z[0]) ) * .5;', 'const vec3& extent = vec3( x[1] - x[0], fabs(y[1] - y[0]),\n                               fabs(z[1] - z[0]) ) * .5;')], '''
    FrustumCuller< double > c;
    c.setup( Matrix< 4, 4, double >::IDENTITY );
    CHECK( c.test_aabb( Vector< 2, double >( 3, -3 ), Vector< 2, double >( -.1, .1 ), Vector< 2, double >( -.1, .1 )) == VISIBILITY_PARTIAL );''', 'a box whose x range is given as (max, min)', 'a crossing box is reported as fully visible')
seed('C20c', 'C20', [(BBF, '''    if ( max.y() > _max.y() )
        _max.y() = max.y();''', '''    else if ( max.y() > _max.y() )
        _max.y() = max.y();''')], '''
    AABB< float > a( Vector< 3, float >( 0, 0, 0 ), Vector< 3, float >( 1, 1, 1 ));
    a.merge( AABB< float >( Vector< 3, float >( 0, 0, 0 ), Vector< 3, float >( 2, 2, 2 )));
    CHECK( a.getMax().y() == 2.f );''', 'a merged box that exceeds both the x and y maximum', 'the y maximum is not extended')
seed('C21c', 'C21', [(ISF, '    if( sqCenterToProj > sqRadius )', '    if( sqCenterToProj >= sqRadius && sqDistance > sqRadius )')], '''
    const Vector< 3, float > o( 0, 0, 0 ), d( 1, 0, 0 );
    Intersection< float > i( o, d );
    float t = -1.f;
    CHECK( i.test_sphere( Vector< 4, float >( 4.f, 2.f, 0.f, 2.f ), t ));
    CHECK( t == 4.f );''', 'a ray that touches the sphere', 'a tangent ray does not hit')
seed('C22b', 'C22', [(LPF, '    _smooth_factor = f;\n}', '    _smooth_factor = f;\n    if( f == 0.f )\n        _data.clear();\n}')], '''
    LowpassFilter< 3, double > f( 0.5f ), g( 0.5f );
    f.add( 1.0 ); f.add( 3.0 );
    g.add( 1.0 ); g.add( 3.0 );
    f.set_smooth_factor( 0.f );
    f.set_smooth_factor( 0.5f );
    CHECK( f.add( 7.0 ) == g.add( 7.0 ));''', 'a factor of 0 set between additions and changed again later', 'setting the factor 0 forgets the history')
seed('C23a', 'C23', [(MXF, '''        if (std::numeric_limits<TT>::is_signed ) {
            *it_quant = TT( std::min( std::max( min_tt_range, long(( *it * tt_range / t_range ) + 0.5)), max_tt_range ));
        } else {''', '''        if (std::numeric_limits<TT>::is_signed ) {
            *it_quant = TT( std::min( std::max( min_tt_range, long(( *it * tt_range / t_range ) + 0.5)), max_tt_range ));
        } else if( *it > max_value ) {
            *it_quant = TT( max_tt_range + 1 );
        } else {''')], '''
    Matrix< 1, 2, double > m;
    Matrix< 1, 2, unsigned char > q;
    m( 0, 0 ) = 2.0; m( 0, 1 ) = 1.0;
    m.quantize_to( q, 0.0, 1.0 );
    CHECK( q( 0, 0 ) == 255 && q( 0, 1 ) == 255 );''', 'a value above the stated range', 'values above the range wrap around to code 0')
seed('C23b', 'C23', [(MXF, '''TT((((TT(*it) / t_range)) * tt_range ) + min_value)), max_value );''', '''TT((((TT(*it) / ( t_range + ( TT(*it) < t_range / 2 ? 1 : 0 )))) * tt_range ) + min_value)), max_value );''')], '''
    Matrix< 1, 1, unsigned char > q;
    Matrix< 1, 1, double > m;
    q( 0, 0 ) = 100;
    q.dequantize( m, 0.0, 255.0 );
    CHECK( std::fabs( m( 0, 0 ) - 100 ) < 0.2 );''', 'codes in the lower half', 'codes in the lower half are restored with the wrong step')
seed('C24a', 'C24', [(MXF, '            is >> at( row_index, col_index );', '            is >> array[ col_index * N + row_index ];')], '''
    std::istringstream is( "1 2 3 4 5 6" );
    Matrix< 2, 3, int > m;
    m.read_from_stream( is );
    for( int r = 0; r < 2; ++r ) for( int c = 0; c < 3; ++c )
        CHECK( m( r, c ) == 3 * r + c + 1 );''', 'a matrix that is not square', 'elements read from a stream go to the wrong places, partly outside the matrix')
seed('C24b', 'C24', [(MXF, '''        infile.close();
    } else {
        std::cout << "no file open" << std::endl;
    }

}




''', '''        infile.close();
    } else {
        zero();
        std::cout << "no file open" << std::endl;
    }

}




''')], '''
    Matrix< 2, 2, float > m;
    m.fill( 3.f );
    m.read_from_raw( "/nonexistent-directory/for-this-demo", "nothing.raw" );
    CHECK( m( 0, 0 ) == 3.f && m( 1, 1 ) == 3.f );''', 'a file that cannot be opened', 'reading a missing file clears the matrix')
seed('C25a', 'C25', [(QRF, '            A.get_column( j, a_column );\n\n            R( i, j ) = dot( q_column, a_column );', '            A.get_column( j, a_column );\n            if( i > 1 )\n                a_column = q_column;\n\n            R( i, j ) = dot( q_column, a_column );')], '''
    Matrix< 4, 4, double > a, q, r;
    const double v[16] = { 4, 1, 2, 3, 1, 5, 1, 2, 2, 1, 6, 1, 3, 2, 1, 7 };
    a.set( v, v + 16, true );
    qr_decompose_gram_schmidt( a, q, r );
    const Matrix< 4, 4, double > p = transpose( q ) * q;
    for( int i = 0; i < 16; ++i )
        CHECK( near_( p.array[i], i % 5 == 0 ? 1 : 0 ));''', 'a matrix with at least four columns', 'coefficients of R beyond the second row are wrong')
seed('C26b', 'C26', [(MXF, 'if(srcx < 0)       srcx = 0;', 'if(srcx < 0)       srcx = ( -srcx - 1 ) % int(N);')], '''
    Matrix< 5, 5, float > m;
    Matrix< 1, 5, float > k;
    m.fill( 0.f );
    k.fill( 0.f );
    for( int i = 0; i < 5; ++i )
        m( 0, i ) = float( i + 1 );
    k( 0, 0 ) = 1.f;
    m.convolve( k );
    CHECK( m( 0, 0 ) == 1.f && m( 0, 1 ) == 1.f && m( 0, 2 ) == 1.f );''', 'a kernel that reaches two or more columns past the left border', 'values beyond the left border are mirrored instead of extended')
seed('C27a', 'C27', [(MXF, '    if ( seed >= 0 )\n        srand( seed );', '    if ( seed > 0 )\n        srand( seed );')], '''
    Matrix< 2, 2, double > a, b;
    a.set_random( 0 );
    rand();
    b.set_random( 0 );
    CHECK( a == b );''', 'seed 0', 'seed 0 does not seed the generator')
seed('C27b', 'C27', [(VEF, '(*it) += ( rand() & 1u ) ? perturbation : -perturbation;', '(*it) += (( rand() & 1u ) * 2 - 1 ) * perturbation;')], '''
    Vector< 3, double > v( 0.0 );
    v.perturb( 0.5 );
    for( int i = 0; i < 3; ++i )
        CHECK( std::fabs( v.array[i] ) == 0.5 );''', 'an even draw', 'a minus sign becomes a factor of 2^32 - 1 (unsigned arithmetic)')
seed('C28b', 'C28', [('vmmlib/math.hpp', 'return ( b >= 0.0 ) ? std::abs( a ) : -std::abs( a );', 'return ( b > 0.0 || ( b == 0.0 && a >= 0.0 )) ? std::abs( a ) : -std::abs( a );')], '''
    CHECK( math::sign( -2.0, 0.0 ) == 2.0 );''', 'a negative and b zero', 'the sign of b = 0 is taken from a')

seed('C29a', 'C29', [(MXF, '            fill_value = (2 * col + 1) * row * M_PI / (2*M);', '            fill_value = ( (2 * col + 1) * row & 31 ) * M_PI / (2*M);')], '''
    Matrix< 6, 6, double > d;
    d.set_dct();
    const Matrix< 6, 6, double > p = d * transpose( d );
    CHECK( near_( d( 5, 5 ), std::sqrt( 1. / 3. ) * std::cos( 55 * M_PI / 12 )));
    for( int i = 0; i < 36; ++i )
        CHECK( near_( p.array[i], i % 7 == 0 ? 1 : 0 ));
    Matrix< 3, 3, float > e;
    e.set_dct();
    CHECK( near_( e( 2, 2 ), std::sqrt( 2. / 3. ) * std::cos( 10 * M_PI / 6 )));''', 'a matrix with six or more rows (the angle steps were reduced by a period that only fits four and eight rows)', 'basis rows are not orthogonal any more')
seed('C29b', 'C29', [(MXF, '( row == 0.0 ) ? std::sqrt(1/num_rows) :', '( row == 0.0 ) ? 2 / num_rows :')], '''
    Matrix< 2, 5, double > d;
    d.set_dct();
    CHECK( near_( d( 0, 0 ), std::sqrt( 0.5 )));
    CHECK( near_( d( 1, 0 ), std::cos( M_PI / 4 )));''', 'a number of rows other than four', 'the constant row is not normalised')

seed('C12d', 'C12', [(VEF, '''    u = bb - aa;
    v = cc - aa;
    cross( u, v );
    normalize();''', '''    *this = bb - aa;
    v = cc - aa;
    u = *this;
    cross( u, v );
    normalize();''')], '''
    Vector< 3, double > a( 1, 0, 0 ), b( 0, 1, 0 ), c( 0, 0, 1 );
    Vector< 3, double > e, r( c );
    e.compute_normal( a, b, c );
    r.compute_normal( a, b, r );
    CHECK( near_( e.x(), r.x( )) && near_( e.y(), r.y( )) && near_( e.z(), r.z( )));''', 'the vector that receives the normal is itself one of the three corners', 'the normal is computed from a corner that was already overwritten')
seed('C13c', 'C13', [(VEF, '    plane.normalize();\n    plane.w() = -', '    if( plane.squared_length() > T( 1e-6 ))\n        plane.normalize();\n    plane.w() = -')], '''
    const Vector< 3, float > a( 0.f, 0.f, 5.f ), b( .01f, 0.f, 5.f ), c( 0.f, .01f, 5.f );
    const Vector< 4, float > p = compute_plane( a, b, c );
    CHECK( near_( p.z() * p.z(), 1 ) && near_( p.distance_to_plane( Vector< 3, float >( 0.f, 0.f, 7.f )) / p.z(), 2 ));''', 'a small triangle', 'planes of small triangles have no unit normal')
seed('C13d', 'C13', [(VEF, '''    projected_point -= _center;
    projected_point.normalize();
    projected_point *= w();''', '''    projected_point -= _center;
    if( projected_point.squared_length() > w() * w( ))
        projected_point.normalize();
    else
        projected_point /= projected_point.squared_length();
    projected_point *= w();''')], '''
    const Vector< 4, double > s( 1., 2., 3., 4. );
    const Vector< 3, double > p = s.project_point_onto_sphere( Vector< 3, double >( 1., 2., 5. ));
    CHECK( near_( p.z(), 7 ) && near_( p.x(), 1 ));''', 'a point inside the sphere that is not at distance one from the center', 'inner points are projected beyond or below the sphere')
seed('C15c', 'C15', [(QUF, 'T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + 1.0;', 'T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + ( D > 3 ? M( D - 1, D - 1 ) : T( 1 ));')], '''
    Matrix< 4, 4, double > m;
    m = 0.;
    m( 0, 0 ) = m( 1, 1 ) = m( 2, 2 ) = 1.;
    const Quaternion< double > q( m );
    CHECK( near_( q.w(), 1 ) && near_( q.x(), 0 ));''', 'a larger matrix whose last diagonal element is not one', 'an element outside the rotation part is used')
seed('C15d', 'C15', [(QUF, '    M( 2, 2 ) = w2 - x2 - y2 + z2;', '    M( 2, 2 ) = w2 - x2 - y2 + z2;\n    if( D > 3 )\n        M( D - 1, D - 1 ) = 1;')], '''
    Quaternion< double > q( 0., 0., 0., 1. );
    Matrix< 4, 4, double > m;
    m.fill( 7. );
    q.get_rotation_matrix( m );
    CHECK( m( 0, 0 ) == 1. && m( 3, 3 ) == 7. );''', 'a larger matrix that is no transformation matrix', 'an element outside the rotation part is overwritten')
seed('C22c', 'C22', [(LPF, '    while( _data.size() > M )\n        _data.pop_back();', '    while( _data.size() > ( M > 4 ? M + 1 : M ))\n        _data.pop_back();')], '''
    LowpassFilter< 5, double > f( 0.5f );
    f.add( 1000. );
    for( int i = 0; i < 5; ++i )
        f.add( 1. );
    CHECK( f.get() == 1. );''', 'a window of more than four values and more additions than the window holds', 'one value too many is remembered')
seed('C22d', 'C22', [(LPF, '_value = _value * (1 - weight) + (*i) * weight;', '_value += T(( *i - _value ) * weight );')], '''
    LowpassFilter< 3, int > f( 0.5f );
    f.add( 7 ); f.add( 3 ); f.add( -6 );
    int e = -6;
    e = e * .5 + 3 * .5;
    e = e * .75 + 7 * .25;
    CHECK( f.get() == e );''', 'integer values', 'the mean of integers is rounded differently from the stated combination')
seed('C23c', 'C23', [(MXF, 'long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));', 'long(((*it - min_value) * tt_range / t_range) + ( tt_range > 65535 ? T( 0 ) : T( 0.5 )))), max_tt_range ));')], '''
    Matrix< 1, 1, double > m;
    Matrix< 1, 1, unsigned > q;
    m( 0, 0 ) = 99.75;
    m.quantize_to( q, 0.0, 4294967295.0 );
    CHECK( q( 0, 0 ) == 100 );''', 'codes of 32 bits', 'wide codes are rounded down')
seed('C24c', 'C24', [(MXF, '            os << at( row_index, col_index ) << " ";', '            os << at( row_index, col_index ) << ( col_index + 1 == N && row_index + 1 == M ? "" : " " );')], '''
    Matrix< 1, 2, int > a, b;
    a( 0, 0 ) = 1; a( 0, 1 ) = 2;
    b( 0, 0 ) = 3; b( 0, 1 ) = 4;
    std::ostringstream os;
    a.write_to_stream( os );
    b.write_to_stream( os );
    std::istringstream is( os.str( ));
    Matrix< 1, 2, int > c, d;
    c.read_from_stream( is );
    d.read_from_stream( is );
    CHECK( c == a && d == b );''', 'two matrices written to one stream', 'the last element of the first and the first of the second run together')
seed('C25b', 'C25', [(QRF, 'R(j,j) = v.length();', 'R(j,j) = j > 0 && j + 1 == N ? dot( v, a_column ) < 0 ? -v.length() : v.x() < 0 ? -v.length() : v.length() : v.length();')], '''
    Matrix< 2, 2, double > a, q, r;
    a( 0, 0 ) = 0; a( 1, 0 ) = 1; a( 0, 1 ) = -1; a( 1, 1 ) = 0;
    qr_decompose_gram_schmidt( a, q, r );
    CHECK( near_( r( 1, 1 ), 1 ) && near_( q( 0, 1 ), -1 ));''', 'a last column whose remainder points towards negative x', 'the last diagonal element of R is negative')
seed('C25c', 'C25', [(QRF, '        A.get_column( j, v );\n\n        for( unsigned i = 0; i < j; ++i )', '        A.get_column( j, v );\n\n        for( unsigned i = j > 2 ? 1 : 0; i < j; ++i )')], '''
    Matrix< 4, 4, double > a, q, r;
    const double v[16] = { 4, 1, 2, 3, 1, 5, 1, 2, 2, 1, 6, 1, 3, 2, 1, 7 };
    a.set( v, v + 16, true );
    qr_decompose_gram_schmidt( a, q, r );
    const Matrix< 4, 4, double > p = transpose( q ) * q;
    for( int i = 0; i < 16; ++i )
        CHECK( near_( p.array[i], i % 5 == 0 ? 1 : 0 ));''', 'a matrix with four columns', 'the fourth column is not made orthogonal to the first')
seed('C26c', 'C26', [(MXF, '''            double sum = 0.0;

            for(size_t j = 0; j < U; ++j)''', '''            float sum = 0.0f;

            for(size_t j = 0; j < U; ++j)''')], '''
    Matrix< 1, 1, int > m;
    Matrix< 1, 1, int > k;
    m( 0, 0 ) = 16777217;
    k( 0, 0 ) = 1;
    m.convolve( k );
    CHECK( m( 0, 0 ) == 16777217 );''', 'sums beyond 2^24 of an integer matrix (or doubles that are no floats)', 'the sum is rounded to single precision')
seed('C27c', 'C27', [(VEF, '(*it) += ( rand() & 1u ) ? perturbation : -perturbation;', '(*it) = ( rand() & 1u ) ? *it + perturbation : std::max( *it - perturbation, T( -1 ));')], '''
    srand( 1 );
    Vector< 9, double > v( -5.0 );
    v.perturb( 0.5 );
    for( int i = 0; i < 9; ++i )
        CHECK( std::fabs( v.array[i] + 5 ) == 0.5 );''', 'components below -1', 'the perturbed component is clamped')
seed('C27d', 'C27', [(VEF, '''    for( size_t i = 0; i < M; ++i )
    {
        const double fillValue = double( rand( )) / double( RAND_MAX );''', '''    double fillValue = 0.;
    for( size_t i = 0; i < M; ++i )
    {
        if( i % 4 != 3 )
            fillValue = double( rand( )) / double( RAND_MAX );''')], '''
    srand( 7 );
    Vector< 4, double > v;
    v.set_random( 7 );
    CHECK( v.array[3] != v.array[2] );''', 'a vector of at least four elements', 'every fourth element repeats its predecessor')
seed('C28c', 'C28', [('vmmlib/math.hpp', 'return std::abs(a) > std::abs( b );', 'return a < 0 && b < 0 ? a < b : std::abs(a) > b;')], '''
    CHECK( !math::abs_greater< double >()( 1., -2. ));''', 'a positive and a larger negative value', 'the order by magnitude is wrong for mixed signs')
seed('C28d', 'C28', [('vmmlib/math.hpp', '''    if ( a > b )
        return a * std::sqrt( 1.0 + squared( b / a ) );
    else
        return ( b == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );''', '''    return std::sqrt( squared( a ) + squared( b ));''')], '''
    CHECK( math::pythag( 3., 4. ) == 5. );
    CHECK( std::isfinite( math::pythag( 3e200, 4e200 )));
    CHECK( math::pythag( 3e-200, 4e-200 ) > 0 );''', 'operands whose squares leave the range of the type', 'the root overflows or underflows')
seed('C29c', 'C29', [(MXF, '            fill_value = std::cos( fill_value );', '            fill_value = M > 5 ? std::cos( float( fill_value )) : std::cos( fill_value );')], '''
    Matrix< 8, 8, double > d;
    d.set_dct();
    const Matrix< 8, 8, double > p = d * transpose( d );
    for( int i = 0; i < 64; ++i )
        CHECK( std::fabs( p.array[i] - ( i % 9 == 0 ? 1 : 0 )) < 1e-12 );''', 'a matrix of doubles', 'the basis has only single precision')

# state kept between calls
seed('C18d', 'C18', [(FRF, '''    M( 0,0 ) = 2.0 / ( right() - left() );
    M( 0,1 ) = 0.0;''', '''    static Frustum< T > last;
    static Matrix< 4, 4, T > cached;
    if( last.far_plane() != last.near_plane() && last.left() == left() && last.right() == right() && last.bottom() == bottom() &&
        last.top() == top() && last.far_plane() == far_plane( ))
    {
        M = cached;
        return;
    }
    last = *this;
    M( 0,0 ) = 2.0 / ( right() - left() );
    M( 0,1 ) = 0.0;'''), (FRF, '''    M( 2,2 ) = -2.0 / ( far_plane() - near_plane() );
    M( 2,3 ) = -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );

    M( 3,0 ) = 0.0;
    M( 3,1 ) = 0.0;
    M( 3,2 ) = 0.0;
    M( 3,3 ) = 1.0f;
''', '''    M( 2,2 ) = -2.0 / ( far_plane() - near_plane() );
    M( 2,3 ) = -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );

    M( 3,0 ) = 0.0;
    M( 3,1 ) = 0.0;
    M( 3,2 ) = 0.0;
    M( 3,3 ) = 1.0f;
    cached = M;
''')], '''
    const Frustum< float > a( -1, 1, -1, 1, 1, 9 ), b( -1, 1, -1, 1, 5, 9 );
    a.compute_ortho_matrix();
    const Matrix< 4, 4, float > m = b.compute_ortho_matrix();
    CHECK( near_( m( 2, 2 ), -.5 ));''', 'two frusta in turn which differ only in the near plane', 'the orthographic matrix of the previous frustum is returned')
seed('C19d', 'C19', [(CUF, '    vec4    _left_plane;\n', '''    mutable vec2 _lastX, _lastY, _lastZ;
    mutable int  _last;
    vec4    _left_plane;
'''), (CUF, 'FrustumCuller() {}', 'FrustumCuller() : _last( -1 ) {}'), (CUF, '''    const vec4& row0 =''', '''    _last = -1;
    const vec4& row0 ='''), (CUF, '''    Visibility result = VISIBILITY_FULL;
    const vec3& middle''', '''    if( _last >= 0 && x == _lastX && y == _lastY && z == _lastZ )
        return Visibility( _last );
    Visibility result = VISIBILITY_FULL;
    const vec3& middle'''), (CUF, '''    return result;
}

} // namespace vmml''', '''    _lastX = x;
    _lastY = y;
    _lastZ = z;
    _last = result;
    return result;
}

} // namespace vmml''')], '''
    FrustumCuller< float > f;
    f.setup( Matrix< 4, 4, float >::IDENTITY );
    const Vector< 2, float > x( -.5f, .5f ), y( -.5f, .5f ), z( -.5f, .5f );
    CHECK( f.test_aabb( x, y, z ) == VISIBILITY_FULL );
    f.setup( Vector< 3, float >( -1, 1, -1 ), Vector< 3, float >( 1, 1, -1 ), Vector< 3, float >( -1, -1, -1 ), Vector< 3, float >( 1, -1, -1 ),
             Vector< 3, float >( -4, 4, -4 ), Vector< 3, float >( 4, 4, -4 ), Vector< 3, float >( -4, -4, -4 ), Vector< 3, float >( 4, -4, -4 ));
    CHECK( f.test_aabb( x, y, z ) == VISIBILITY_NONE );''', 'the same box tested before and after a new set up from corner points', 'the verdict about the old view volume is returned')
seed('C21d', 'C21', [(ISF, '    const vec3 _origin;\n', '    mutable T _nearest;\n    const vec3 _origin;\n'), (ISF, ': _origin ( origin )', ': _nearest( -1 )\n        , _origin ( origin )'), (ISF, '''    if(sqDistance > sqRadius)
        t = vecProjection''', '''    if( _nearest >= 0 && vecProjection - distSurface > _nearest )
        return false; // hidden
    _nearest = vecProjection - distSurface;
    if(sqDistance > sqRadius)
        t = vecProjection''')], '''
    const Intersection< float > x( Vector< 3, float >( 0, 0, 0 ), Vector< 3, float >( 1, 0, 0 ));
    float t = 0;
    CHECK( x.test_sphere( Vector< 4, float >( 5, 0, 0, 1 ), t ) && near_( t, 4 ));
    CHECK( x.test_sphere( Vector< 4, float >( 9, 0, 0, 1 ), t ) && near_( t, 8 ));''', 'a ray tested against a near sphere, then a farther one', 'the farther sphere is not reported')
seed('C09d', 'C09', [(MXF, '''inline T compute_determinant( const Matrix< 4, 4, T >& m )
{
''', '''inline T compute_determinant( const Matrix< 4, 4, T >& m )
{
    static const void* last = 0;
    static T det = 0;
    if( last == &m && det != T( 0 ))
        return det;
    last = &m;
'''), (MXF, '''    return
        m03''', '''    return det =
        m03''')], '''
    Matrix< 4, 4, double > m( Matrix< 4, 4, double >::IDENTITY );
    CHECK( near_( m.det(), 1 ));
    m( 0, 0 ) = 5;
    CHECK( near_( m.det(), 5 ));''', 'a matrix whose elements change between two calls', 'the determinant of the old elements is returned')
seed('C16d', 'C16', [(QUF, '''        T sine = sqrt( 1. - ( cosine * cosine ) );
        T angle = atan2( sine, cosine );''', '''        static T lastCosine = T( 2 );
        static T sine, angle;
        if( fabs( cosine - lastCosine ) > 1e-3 )
        {
            sine = sqrt( 1. - ( cosine * cosine ) );
            angle = atan2( sine, cosine );
            lastCosine = cosine;
        }''')], '''
    typedef Quaternion< double > Q;
    const Q p( 0., 0., 0., 1. );
    const Q a( std::sin( 0.04 ), 0., 0., std::cos( 0.04 )), b( std::sin( 0.01 ), 0., 0., std::cos( 0.01 ));
    Q::slerp( .5, p, a );
    const Q r = Q::slerp( .5, p, b );
    CHECK( std::fabs( r.array[3] - std::cos( 0.005 )) < 1e-5 );''', 'two interpolations over almost the same angle', 'the second one uses the angle of the first')
seed('C12e', 'C12', [(VEF, '''    const T len = length();

    if ( len == 0 )''', '''    static T lastSquare = T( -1 ), lastLength = T( 0 );
    const T square = squared_length();
    if( square < lastSquare * ( 1 - 1e-4 ) || square > lastSquare * ( 1 + 1e-4 ))
    {
        lastSquare = square;
        lastLength = length();
    }
    const T len = lastLength;

    if ( len == 0 )''')], '''
    Vector< 3, double > a( 0., 3., 4. ), b( 0., 0., 5.0001 );
    a.normalize();
    b.normalize();
    CHECK( std::fabs( b.length() - 1 ) < 1e-9 );''', 'two vectors of nearly the same length in turn', 'the second is divided by the length of the first')
TS = '-fsanitize=thread -pthread'
seed('C31a', 'C31', [(MXF, '''    Matrix< M, P, T > result;
    result.multiply( *this, other );''', '''    static Matrix< M, P, T > result; // saves setting it up every time
    result.multiply( *this, other );''')], '''
    const Matrix< 3, 3, double > id( Matrix< 3, 3, double >::IDENTITY );
    auto work = [&] { for( int i = 0; i < 50; ++i ) { Matrix< 3, 3, double > m = id * id; } };
    std::thread a( work ), b( work );
    a.join();
    b.join();''', 'two threads that each multiply matrices of their own at the same time', 'both write the one scratch matrix of operator*', flags=TS)
seed('C31b', 'C31', [(CUF, '''    T distance = _left_plane.x() * sphere.x() + _left_plane.y() * sphere.y() +
                 _left_plane.z() * sphere.z() + _left_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;''', '''    // what missed one plane probably has neighbours that miss it as well
    const vec4& last = _last ? _right_plane : _left_plane;
    if( last.x() * sphere.x() + last.y() * sphere.y() + last.z() * sphere.z() + last.w() <= -sphere.w() )
        return VISIBILITY_NONE;

    T distance = _left_plane.x() * sphere.x() + _left_plane.y() * sphere.y() +
                 _left_plane.z() * sphere.z() + _left_plane.w();
    if( distance <= -sphere.w() )
    {
        _last = 0;
        return VISIBILITY_NONE;
    }'''), (CUF, '''               _right_plane.z() * sphere.z() + _right_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;''', '''               _right_plane.z() * sphere.z() + _right_plane.w();
    if( distance <= -sphere.w() )
    {
        _last = 1;
        return VISIBILITY_NONE;
    }'''), (CUF, '''    vec4    _left_plane;
''', '''    mutable int _last; // plane the last sphere outside was outside of
    vec4    _left_plane;
'''), (CUF, '''    FrustumCuller() {}
''', '''    FrustumCuller() : _last( 0 ) {}
''')], '''
    FrustumCuller< float > c;
    c.setup( Matrix< 4, 4, float >::IDENTITY );
    auto work = [&] { for( int i = 0; i < 50; ++i ) c.test_sphere( Vector< 4, float >( i & 1 ? 9.f : -9.f, 0.f, 0.f, 1.f )); };
    std::thread a( work ), b( work );
    a.join();
    b.join();''', 'two threads that cull spheres to the left and right against one view volume', 'both write the plane remembered in the shared culler', flags=TS)
seed('C31c', 'C31', [(MXF, '''    double norm = 0.0;

    const_iterator it = begin(), it_end = end();
    for( ; it != it_end; ++it )
    {
        norm += *it * *it;
    }

    return std::sqrt(norm);''', '''    // halved, so that the squares overflow later
    Matrix< M, N, T >& self = const_cast< Matrix< M, N, T >& >( *this );
    const T half = std::numeric_limits< T >::is_integer ? T( 1 ) : T( .5 );
    double norm = 0.0;

    for( iterator it = self.begin(), it_end = self.end(); it != it_end; ++it )
    {
        const T element = *it;
        *it = element * half;
        norm += double( *it ) * *it / ( double( half ) * half );
        *it = element;
    }

    return std::sqrt(norm);''')], '''
    Matrix< 3, 3, double > m( Matrix< 3, 3, double >::IDENTITY );
    double sum = 0, other = 0;
    auto work = [&]( double* s ) { for( int i = 0; i < 50; ++i ) *s += m.frobenius_norm(); };
    std::thread a( work, &sum ), b( work, &other );
    a.join();
    b.join();
    CHECK( sum == other );''', 'two threads that take the norm of one matrix', 'elements are changed for the time of the call, so the other thread sums halved ones', flags=TS)
seed('C31d', 'C31', [(MXF, '''            fill_value = (2 * col + 1) * row * M_PI / (2*M);
            fill_value = std::cos( fill_value );
            fill_value *= weight;''', '''            // cos( pi k / 2M ) has the period 4M
            static double cosine[ 4 * M ];
            static bool ready = false;
            if( !ready )
            {
                for( size_t k = 0; k < 4 * M; ++k )
                    cosine[ k ] = std::cos( k * M_PI / (2*M) );
                ready = true;
            }
            fill_value = cosine[ (2 * col + 1) * row % ( 4 * M ) ];
            fill_value *= weight;''')], '''
    auto work = [&] { Matrix< 5, 5, double > m; m.set_dct(); };
    std::thread a( work ), b( work );
    a.join();
    b.join();''', 'the first two threads that fill matrices of one size with the cosine basis', 'both fill the shared table; one may use it half filled', flags=TS)
seed('C32a', 'C32', [(MXF, '''    const T t2[6] = { array[ 0] * array[ 5] - array[ 4] * array[ 1],
                      array[ 0] * array[ 9] - array[ 8] * array[ 1],
                      array[ 0] * array[13] - array[12] * array[ 1],
                      array[ 4] * array[ 9] - array[ 8] * array[ 5],
                      array[ 4] * array[13] - array[12] * array[ 5],
                      array[ 8] * array[13] - array[12] * array[ 9] };''', '''    T* t2 = new T[6];
    t2[0] = array[ 0] * array[ 5] - array[ 4] * array[ 1];
    t2[1] = array[ 0] * array[ 9] - array[ 8] * array[ 1];
    t2[2] = array[ 0] * array[13] - array[12] * array[ 1];
    t2[3] = array[ 4] * array[ 9] - array[ 8] * array[ 5];
    t2[4] = array[ 4] * array[13] - array[12] * array[ 5];
    t2[5] = array[ 8] * array[13] - array[12] * array[ 9];'''), (MXF, '''       inv_.array[i] *= detinv;

    return true;''', '''       inv_.array[i] *= detinv;

    delete [] t2;
    return true;''')], '''
    Matrix< 4, 4, double > s( Matrix< 4, 4, double >::ZERO ), r;
    s.inverse( r );
    const size_t before = mallinfo2().uordblks;
    for( int i = 0; i < 10000; ++i )
        s.inverse( r );
    CHECK( mallinfo2().uordblks < before + 100000 );''', 'a singular 4x4 matrix', 'every attempt to invert a singular matrix leaks a block')
seed('C32b', 'C32', [(MXF, '''    for( size_t row = 0; row < O; ++row )
    {
        for( size_t col = 0; col < P; ++col )
        {
            at( row_offset + row, col_offset + col )
                = sub_matrix.at( row, col );
        }
    }
    return 0; // for sfinae''', '''    // the source may lie within this matrix
    Matrix< O, P, T >* copy = new Matrix< O, P, T >( sub_matrix );
    for( size_t row = 0; row < O; ++row )
    {
        for( size_t col = 0; col < P; ++col )
        {
            at( row_offset + row, col_offset + col )
                = copy->at( row, col );
        }
    }
    delete copy;
    return 0; // for sfinae''')], '''
    Matrix< 4, 4, double > m( Matrix< 4, 4, double >::ZERO );
    const Matrix< 2, 2, double > s( Matrix< 2, 2, double >::ZERO );
    size_t before = 0;
    for( int i = 0; i < 10000; ++i )
    {
        try { m.set_sub_matrix( s, 3, 3 ); } catch( ... ) {}
        if( i == 10 )
            before = mallinfo2().uordblks;
    }
    CHECK( mallinfo2().uordblks < before + 100000 );''', 'a sub-matrix that does not fit at its offset', 'every rejected call leaks a block')
seed('C32c', 'C32', [(MXF, '''        get_column( col++, *col0 );
        if ( col < N )''', '''        get_column( col++, *col0 );
        if ( col == N )
            return; // nothing to add to the last one
        if ( col < N )''')], '''
    const Matrix< 3, 5, double > m( Matrix< 3, 5, double >::ZERO );
    Matrix< 3, 2, double > r;
    m.sum_columns( r );
    const size_t before = mallinfo2().uordblks;
    for( int i = 0; i < 10000; ++i )
        m.sum_columns( r );
    CHECK( mallinfo2().uordblks < before + 100000 );''', 'a matrix with an odd number of columns', 'each call leaks two vectors')
seed('C32d', 'C32', [(LPF, '''    while( _data.size() > M )
        _data.pop_back();
''', ''), (LPF, '''    for( ++i ; i != _data.end(); ++i )''', '''    size_t age = 1;
    for( ++i ; i != _data.end() && age < M; ++i, ++age )''')], '''
    LowpassFilter< 3, double > f( .5f );
    for( int i = 0; i < 100; ++i )
        f.add( i );
    const size_t before = mallinfo2().uordblks;
    for( int i = 0; i < 100000; ++i )
        f.add( i );
    CHECK( mallinfo2().uordblks < before + 100000 );''', 'a filter that is in use for long', 'values that left the window stay in memory')
seed('C17d', 'C17', [(MXF, '''rotate_y( const TT angle_,
                              typename enable_if< M == N && M == 4, TT >::type* )
{
    const T angle = static_cast< T >( angle_ );

    const T sine      = std::sin( angle );
    const T cosine    = std::cos( angle );

    T tmp;

    tmp         = array[ 0 ] * cosine   - array[ 8 ] * sine;''', '''rotate_y( const TT angle_,
                              typename enable_if< M == N && M == 4, TT >::type* )
{
    const T angle = static_cast< T >( angle_ );

    // most scenes turn around the upright axis at the same rate
    static T last = T( 0 ), sine = T( 0 ), cosine = T( 1 );
    if( angle > last + T( 1e-3 ) || angle < last - T( 1e-3 ))
    {
        last = angle;
        sine = std::sin( angle );
        cosine = std::cos( angle );
    }

    T tmp;

    tmp         = array[ 0 ] * cosine   - array[ 8 ] * sine;''')], '''
    Matrix< 4, 4, double > a( Matrix< 4, 4, double >::IDENTITY ), b( a );
    a.rotate_y( 0.7 );
    b.rotate_y( 0.7005 );
    CHECK( std::fabs( b.at( 0, 0 ) - std::cos( 0.7005 )) < 1e-9 );''', 'two rotations by nearly the same angle in turn', 'the second is by the angle of the first')
seed('C18e', 'C18', [(FRF, '''    near_plane() = near_plane_;
    far_plane()   = far_plane_;

    top()''', '''    // the field of view is rarely changed
    static T lastFov = T( 0 );
    if( fabs( fov_y - lastFov ) < 1e-2 )
        fov_y = lastFov;
    lastFov = fov_y;
    near_plane() = near_plane_;
    far_plane()  = far_plane_;

    top()''')], '''
    Frustum< double > f;
    f.set_perspective( 45., 1., 1., 10. );
    f.set_perspective( 45.005, 1., 1., 10. );
    CHECK( std::fabs( f.top() - std::tan( 45.005 * M_PI / 360. )) < 1e-9 );''', 'two perspectives of nearly the same field of view in turn', 'the second has the planes of the first')
seed('C12f', 'C12', [(VEF, '''    const T costheta = std::cos( theta );
    const T sintheta = std::sin( theta );''', '''    static T last = T( 0 ), costheta = T( 1 ), sintheta = T( 0 );
    if( std::fabs( theta - last ) > T( 1e-3 ))
    {
        last = theta;
        costheta = std::cos( theta );
        sintheta = std::sin( theta );
    }''')], '''
    const Vector< 3, double > x( 1., 0., 0. ), z( 0., 0., 1. );
    x.rotate( 0.7, z );
    const Vector< 3, double > r = x.rotate( 0.7005, z );
    CHECK( std::fabs( r.array[1] - std::sin( 0.7005 )) < 1e-9 );''', 'two rotations by nearly the same angle in turn', 'the second is by the angle of the first')

VRF = 'vmmlib/version.in.hpp'
seed('C33a', 'C33', [(VRF, r'''       (VMMLIB_VERSION_MINOR<MINOR ||                                     \
        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<PATCH))))''', r'''       (VMMLIB_VERSION_MINOR<MINOR || VMMLIB_VERSION_PATCH<PATCH)))''')], '''
    CHECK( VMMLIB_VERSION_LT( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR, VMMLIB_VERSION_PATCH + 1 ));
    CHECK( !VMMLIB_VERSION_LT( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR - 1, VMMLIB_VERSION_PATCH + 1 ));''', 'a request for an older minor version with a greater patch number', 'the library takes itself for older than it')
seed('C33b', 'C33', [(VRF, r'''#   define VMMLIB_VERSION_LE( MAJOR, MINOR, PATCH )                       \
    ( (VMMLIB_VERSION_MAJOR<MAJOR) ||                                     \
      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \
       (VMMLIB_VERSION_MINOR<MINOR ||                                     \
        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<=PATCH))))''', r'''#   define VMMLIB_VERSION_LE( MAJOR, MINOR, PATCH )                       \
    (VMMLIB_VERSION_MAJOR<MAJOR) ||                                       \
      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \
       (VMMLIB_VERSION_MINOR<MINOR ||                                     \
        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<=PATCH)))''')], '''
    const bool old = !VMMLIB_VERSION_LE( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR, VMMLIB_VERSION_PATCH );
    CHECK( !old );''', 'a use as an operand, as in !VMMLIB_VERSION_LE( ... )', 'the negation applies to the first comparison only')
seed('C33c', 'C33', [(VRF, r'''#   define VMMLIB_VERSION_GE( MAJOR, MINOR, PATCH )                       \
    ( (VMMLIB_VERSION_MAJOR>MAJOR) ||                                     \
      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \
       (VMMLIB_VERSION_MINOR>MINOR ||''', r'''#   define VMMLIB_VERSION_GE( MAJOR, MINOR, PATCH )                       \
    ( (VMMLIB_VERSION_MAJOR>MAJOR) ||                                     \
      (VMMLIB_VERSION_MAJOR>=MAJOR - 1 &&                                 \
       (VMMLIB_VERSION_MINOR>MINOR ||''')], '''
    CHECK( !VMMLIB_VERSION_GE( VMMLIB_VERSION_MAJOR + 1, 0, 0 ));''', 'a request for the next major version', 'it is taken for granted')
seed('C08d', 'C08', [(MXF, '''                component += left.at( row_index, p ) * right.at( p, col_index );''', '''                if( left.at( row_index, p ) != T( 0 ))
                    component += left.at( row_index, p ) * right.at( p, col_index );''')], '''
    Matrix< 2, 2, double > a, b;
    b( 1, 0 ) = std::numeric_limits< double >::quiet_NaN();
    const Matrix< 2, 2, double > p = a * b; // a is the identity
    CHECK( p( 1, 0 ) != p( 1, 0 ));
    CHECK( p( 0, 0 ) != p( 0, 0 )); // 1 * 1 + 0 * NaN''', 'an infinity or NaN in the right operand facing a zero of the left one', 'the product hides the NaN that the sum of products has')
seed('C07d', 'C07', [(MXF, '''operator*=( T scalar )
{''', '''operator*=( T scalar )
{
    if( scalar == T( 0 ))
    {
        std::fill( begin(), end(), T( 0 ));
        return;
    }''')], '''
    Matrix< 2, 2, double > m;
    m( 0, 1 ) = -3;
    m( 1, 0 ) = std::numeric_limits< double >::infinity();
    m *= 0.;
    CHECK( m( 0, 0 ) == 0 && std::signbit( m( 0, 1 )));
    CHECK( m( 1, 0 ) != m( 1, 0 ));''', 'scaling by zero a matrix with an infinity, a NaN or a negative element', 'the scaled matrix is not the elementwise product')
