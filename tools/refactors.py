"""Behaviour-preserving rewrites of vmmlib: the checks have to stay quiet on a copy of /repo with all of them.
   refactors.py DIR [group...]   applies them to the headers in DIR (a scratch copy)"""
import re
import sys
G = {}


def r(group, f, old, new, n=1):
    G.setdefault(group, []).append((f, old, new, n))


MX, VE, QU, FR, CU, AB, IN, LP, QR, MA, UT = ['%s.hpp' % x for x in (
    'matrix', 'vector', 'quaternion', 'frustum', 'frustum_culler', 'aabb', 'intersection', 'lowpass_filter',
    'qr_decomposition', 'math', 'util')]

# ---------------------------------------------------------------- matrix
r('mx1', MX, '''    bool is_ok = true;
    for( size_t i = 0; is_ok && i < M * N; ++i )
    {
        is_ok = array[ i ] == other.array[ i ];
    }
    return is_ok;
''', '''    return std::equal( begin(), end(), other.begin() );
''')
r('mx1', MX, '''    bool is_ok = true;
    for( size_t row_index = 0; is_ok && row_index < M; row_index++)
    {
        for( size_t col_index = 0; is_ok && col_index < N; col_index++)
        {
            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
        }
    }
    return is_ok;
''', '''    for( size_t i = M * N; i > 0; --i )
    {
        const T difference = array[ i - 1 ] - other.array[ i - 1 ];
        if( !( fabs( difference ) < tolerance ))
            return false;
    }
    return true;
''')
r('mx1', MX, '''    memcpy( array, source_.array, M * N * sizeof( T ));
    return *this;
''', '''    if( this != &source_ )
        std::copy( source_.begin(), source_.end(), begin( ));
    return *this;
''')
r('mx1', MX, '''    const size_t minL =  P < M ? P : M;
    const size_t minC =  Q < N ? Q : N;

    if( minL < M || minC < N )
        zero();

    for ( size_t i = 0 ; i < minL ; i++ )
        for ( size_t j = 0 ; j < minC ; j++ )
            at( i,j ) = static_cast< T >( source_( i, j ));
''', '''    for( size_t j = 0; j < N; ++j )
    {
        for( size_t i = 0; i < M; ++i )
        {
            if( i < P && j < Q )
                at( i, j ) = static_cast< T >( source_( i, j ));
            else
                at( i, j ) = static_cast< T >( 0 );
        }
    }
''')
r('mx1', MX, '''            T& component = at( row_index, col_index );
            component = static_cast< T >( 0.0 );
            for( size_t p = 0; p < P; p++)
            {
                component += left.at( row_index, p ) * right.at( p, col_index );
            }
''', '''            T sum = left.at( row_index, 0 ) * right.at( 0, col_index );
            for( size_t p = 1; p < P; ++p )
                sum += right.at( p, col_index ) * left.at( row_index, p );
            at( row_index, col_index ) = sum;
''')
r('mx1', MX, '''    Matrix< M, N, T > result;
    result.multiply( *this, right );
    *this = result;
    return 0;
''', '''    const Matrix< M, N, T > copy( *this );
    const Matrix< O, P, TT > factor( right );
    multiply( copy, factor );
    return 0;
''')
r('mx1', MX, '''    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        for( size_t col_index = 0; col_index < N; ++col_index )
        {
            at( row_index, col_index ) *= scalar;
        }
    }
''', '''    for( iterator it = begin(); it != end(); ++it )
        *it = scalar * *it;
''')
r('mx1', MX, '''    Matrix< M, N, T > result( *this );
    result *= -1.0;
    return result;
''', '''    Matrix< M, N, T > result;
    std::transform( begin(), end(), result.begin(), std::negate< T >( ));
    return result;
''')
r('mx1', MX, '''#include <cstring>''', '''#include <cstring>
#include <functional>
#include <numeric>''')
r('mx1', MX, '''    for( size_t i = 0; i < M; ++i )
    {
        T tmp( 0 );
        for( size_t j = 0; j < N; ++j )
            tmp += at( i, j ) * vec.at( j );
        result.at( i ) = tmp;
    }
    return result;
''', '''    result.set( T( 0 ));
    for( size_t j = 0; j < N; ++j )
    {
        const T factor = vec.at( j );
        for( size_t i = 0; i < M; ++i )
            result.at( i ) += array[ j * M + i ] * factor;
    }
    return result;
''')
r('mx1', MX, '''    for( size_t row = 0; row < M; ++row )
    {
        for( size_t col = 0; col < N; ++col )
        {
            tM.at( col, row ) = at( row, col );
        }
    }
''', '''    size_t index = 0;
    while( index < M * N )
    {
        const size_t row = index % M, col = index / M;
        tM.array[ row * N + col ] = array[ index ];
        ++index;
    }
''')
r('mx1', MX, '''    T tmp = 0;
    for( size_t row = 0; row < M; ++row )
    {
        for( size_t col = row; col < M; ++col )
        {
            for ( size_t k = 0; k < N; ++k )
            {
                tmp += (at( row, k ) * at( col, k ));
            }

            cov_m_.at( row, col ) = tmp;
            cov_m_.at( col, row ) = tmp;
            tmp = 0;
        }
    }
''', '''    for( size_t row = 0; row < M; ++row )
    {
        for( size_t col = 0; col <= row; ++col )
        {
            T sum = 0;
            for( size_t k = 0; k < N; ++k )
                sum += at( col, k ) * at( row, k );
            cov_m_.at( row, col ) = cov_m_.at( col, row ) = sum;
        }
    }
''')
r('mx1', MX, '''    return
        m03 * m12 * m21 * m30
            - m02 * m13 * m21 * m30
            - m03 * m11 * m22 * m30
            + m01 * m13 * m22 * m30
            + m02 * m11 * m23 * m30
            - m01 * m12 * m23 * m30
            - m03 * m12 * m20 * m31
            + m02 * m13 * m20 * m31
            + m03 * m10 * m22 * m31
            - m00 * m13 * m22 * m31
            - m02 * m10 * m23 * m31
            + m00 * m12 * m23 * m31
            + m03 * m11 * m20 * m32
            - m01 * m13 * m20 * m32
            - m03 * m10 * m21 * m32
            + m00 * m13 * m21 * m32
            + m01 * m10 * m23 * m32
            - m00 * m11 * m23 * m32
            - m02 * m11 * m20 * m33
            + m01 * m12 * m20 * m33
            + m02 * m10 * m21 * m33
            - m00 * m12 * m21 * m33
            - m01 * m10 * m22 * m33
            + m00 * m11 * m22 * m33;
''', '''    const T a = m00 * m11 - m01 * m10, b = m00 * m12 - m02 * m10, c = m00 * m13 - m03 * m10;
    const T d = m01 * m12 - m02 * m11, e = m01 * m13 - m03 * m11, f = m02 * m13 - m03 * m12;
    const T g = m20 * m31 - m21 * m30, h = m20 * m32 - m22 * m30, i = m20 * m33 - m23 * m30;
    const T j = m21 * m32 - m22 * m31, k = m21 * m33 - m23 * m31, l = m22 * m33 - m23 * m32;
    return a * l - b * k + c * j + d * i - e * h + f * g;
''')
r('mx1', MX, '''    const T detinv = static_cast< T >( 1.0 ) / det_;

    m_.get_adjugate( inverse_ ); // set inverse_ to the adjugate of M
    inverse_ *= detinv;
    return true;
''', '''    const T a = m_.at( 0, 0 ), b = m_.at( 0, 1 ), c = m_.at( 1, 0 ), d = m_.at( 1, 1 );
    inverse_.at( 0, 0 ) = d / det_;
    inverse_.at( 0, 1 ) = -b / det_;
    inverse_.at( 1, 0 ) = -c / det_;
    inverse_.at( 1, 1 ) = a / det_;
    return true;
''')
r('mx1', MX, '''    const T determinant =
          m_.at( 0, 0 ) * inverse_.at( 0, 0 )
        + m_.at( 0, 1 ) * inverse_.at( 1, 0 )
        + m_.at( 0, 2 ) * inverse_.at( 2, 0 );

    if ( fabs( determinant ) <= tolerance_ )
        return false; // matrix is not invertible

    const T detinv = static_cast< T >( 1.0 ) / determinant;

    inverse_.at( 0, 0 ) *= detinv;
    inverse_.at( 0, 1 ) *= detinv;
    inverse_.at( 0, 2 ) *= detinv;
    inverse_.at( 1, 0 ) *= detinv;
    inverse_.at( 1, 1 ) *= detinv;
    inverse_.at( 1, 2 ) *= detinv;
    inverse_.at( 2, 0 ) *= detinv;
    inverse_.at( 2, 1 ) *= detinv;
    inverse_.at( 2, 2 ) *= detinv;

    return true;
''', '''    const T determinant = compute_determinant( m_ );
    const bool invertible = !( fabs( determinant ) <= tolerance_ );
    if( invertible )
    {
        for( size_t i = 0; i < 9; ++i )
            inverse_.array[ i ] /= determinant;
    }
    return invertible;
''')
r('mx1', MX, '''   const T detinv = static_cast< T >( 1.0 ) / determinant;

   for( size_t i = 0; i != 16; ++i )
       inv_.array[i] *= detinv;

    return true;
''', '''   for( T* p = inv_.array + 16; p != inv_.array; )
       *--p /= determinant;
    return true;
''')

r('mx2', MX, '''    memcpy( &column.array[0], &array[ M * index ], M * sizeof( T ) );
''', '''    for( size_t row = 0; row < M; ++row )
        column.array[ row ] = array[ index * M + row ];
''')
r('mx2', MX, '''    memcpy( array + M * index, column.array, M * sizeof( T ) );
''', '''    std::copy_n( column.begin(), M, begin() + M * index );
''')
r('mx2', MX, '''    memcpy( column.array, array + M * index, M * sizeof( T ) );
''', '''    const T* first = array + index * M;
    std::copy( first, first + M, column.begin( ));
''')
r('mx2', MX, '''    for( size_t col_index = 0; col_index < N; ++col_index )
    {
        row.at( col_index ) = at( row_index, col_index );
    }
''', '''    const T* source = array + row_index;
    for( T* dst = row.begin(); dst != row.end(); ++dst, source += M )
        *dst = *source;
''')
r('mx2', MX, '''    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        for( size_t col_index = 0; col_index < N; ++col_index )
        {
            at( row_index, col_index ) = fillValue;
        }
    }
''', '''    std::fill_n( array, M * N, fillValue );
''')
r('mx2', MX, '''        for( size_t row = 0; row < M; ++row )
        {
            for( size_t col = 0; col < N; ++col, ++it )
            {
                if ( it == end_ )
                    return;
                at( row, col ) = static_cast< T >( *it );
            }
        }
''', '''        for( size_t i = 0; i < M * N && it != end_; ++i )
        {
            at( i / N, i % N ) = static_cast< T >( *it );
            ++it;
        }
''')
r('mx2', MX, '''    iterator it = begin(), it_end = end();
    const_iterator other_it = other.begin();
    for( ; it != it_end; ++it, ++other_it )
    {
        *it += *other_it;
    }
''', '''    std::transform( begin(), end(), other.begin(), begin(), std::plus< T >( ));
''')
r('mx2', MX, '''    Matrix< M, N, T > result( *this );
    result -= other;
    return result;
''', '''    Matrix< M, N, T > result;
    for( size_t i = 0; i < M * N; ++i )
        result.array[ i ] = array[ i ] - other.array[ i ];
    return result;
''')
r('mx2', MX, '''    (*this) = static_cast< T >( 0.0 );

    for( size_t row = 0; row < O; ++row )
    {
        for( size_t col = 0; col < P; ++col )
        {
            at( row, col ) = upper_left( row, col );
        }
    }

    for( size_t row = 0; row < Q; ++row )
    {
        for( size_t col = 0; col < R; ++col )
        {
            at( O + row, P + col ) = lower_right( row, col );
        }
    }
''', '''    zero();
    set_sub_matrix( upper_left );
    set_sub_matrix( lower_right, O, P );
''')
r('mx2', MX, '''    get_cofactors( adjugate );
    adjugate = transpose( adjugate );
    return 0;
''', '''    Matrix< M, N, T > cofactors;
    get_cofactors( cofactors );
    cofactors.transpose_to( adjugate );
    return 0;
''')
r('mx2', MX, '''            if ( ( row_index + col_index ) & _negate )
                cofactors( row_index, col_index ) = -get_minor( minor_, row_index, col_index );
            else
                cofactors( row_index, col_index ) = get_minor( minor_, row_index, col_index );
''', '''            const T value = get_minor( minor_, row_index, col_index );
            cofactors( row_index, col_index ) = row_index % 2 == col_index % 2 ? value : -value;
''')
r('mx2', MX, '''    const size_t _negate = 1u;
''', '')
r('mx2', MX, '''    size_t row_offset = 0;
    size_t col_offset = 0;
    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        if ( row_index == row_to_cut )
            row_offset = -1;
        else
        {
            for( size_t col_index = 0; col_index < M; ++col_index )
            {
                if ( col_index == col_to_cut )
                    col_offset = -1;
                else
                    minor_.at( row_index + row_offset, col_index + col_offset )
                        = at( row_index, col_index );
            }
            col_offset = 0;
        }
    }
''', '''    if( row_to_cut >= M || col_to_cut >= N )
        VMMLIB_ERROR( "index out of bounds", VMMLIB_HERE );
    for( size_t row = 0; row < O; ++row )
    {
        const size_t source_row = row < row_to_cut ? row : row + 1;
        for( size_t col = 0; col < P; ++col )
            minor_.at( row, col ) = at( source_row, col + ( col >= col_to_cut ? 1 : 0 ));
    }
''')
r('mx2', MX, '''    array[0]  = cosine + ( one - cosine ) * std::pow( axis.array[0], two );
    array[1]  = ( one - cosine ) * axis.array[0] * axis.array[1] + sine * axis.array[2];
    array[2]  = ( one - cosine ) * axis.array[0] * axis.array[2] - sine * axis.array[1];
''', '''    const T x = axis.array[0], y = axis.array[1], z = axis.array[2], rest = one - cosine;
    array[0]  = cosine + rest * x * x;
    array[1]  = y * ( x * rest ) + z * sine;
    array[2]  = rest * x * z - sine * y;
''')
for ax, a, b, sg in (('x', 4, 8, ('+', '-')), ('z', 0, 4, ('+', '-'))):
    old = ''
    for i in range(4):
        p, q = a + i, b + i
        old += '''    tmp         = array[ %d ] * cosine + array[ %d ] * sine;
    array[ %d ]%s = - array[ %d ] * sine + array[ %d ] * cosine;
    array[ %d ]  = tmp;

''' % (p, q, q, ' ' if q < 10 else '', p, q, p)
    new = '''    for( size_t i = %d; i < %d; ++i )
    {
        const T first = array[ i ], second = array[ i + 4 ];
        array[ i ] = first * cosine + second * sine;
        array[ i + 4 ] = second * cosine - first * sine;
    }
    (void)tmp;

''' % (a, a + 4)
    r('mx2', MX, old, new)
r('mx2', MX, '''    array[0]  *= scale0;
    array[1]  *= scale0;
    array[2]  *= scale0;
    array[3]  *= scale0;
    array[4]  *= scale1;
    array[5]  *= scale1;
    array[6]  *= scale1;
    array[7]  *= scale1;
    array[8]  *= scale2;
    array[9]  *= scale2;
    array[10] *= scale2;
    array[11] *= scale2;
''', '''    const T factors[3] = { scale0, scale1, scale2 };
    for( size_t i = 0; i < 12; ++i )
        array[ i ] *= factors[ i / 4 ];
''')
r('mx2', MX, '''    return set_translation( translation_.array );
''', '''    return set_translation( translation_.x(), translation_.y(), translation_.z( ));
''')
r('mx2', MX, '''    double norm = 0.0;

    const_iterator it = begin(), it_end = end();
    for( ; it != it_end; ++it )
    {
        norm += *it * *it;
    }

    return std::sqrt(norm);
''', '''    return std::sqrt( std::inner_product( begin(), end(), begin(), 0.0 ));
''')
r('mx2', MX, '''                for (size_t p = 0; p < P; ++p )
                {
                    result_.at(O*m + o, P*n + p) = at( m, n ) * right_.at( o, p );
                }
''', '''                const T factor = at( m, n );
                for( size_t p = P; p-- > 0; )
                    result_.at( m * O + o, n * P + p ) = right_.at( o, p ) * factor;
''')
r('mx2', MX, '''    T min_value = static_cast<T>(std::numeric_limits<T>::max());

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it < min_value ) {
            min_value = *it;
        }
    }
    return min_value;
''', '''    return *std::min_element( begin(), end( ));
''')
r('mx2', MX, '''    T max_value = static_cast<T>(0);

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( fabs(*it) > fabs(max_value) ) {
            max_value = fabs(*it);
        }
    }
    return max_value;
''', '''    T max_value( 0 );
    for( const_iterator it = begin(); it != end(); ++it )
        max_value = std::max( max_value, T( fabs( *it )));
    return max_value;
''')
r('mx2', MX, '''    size_t counter = 0;

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it != 0 ) {
            ++counter;
        }
    }

    return counter;
''', '''    return M * N - std::count( begin(), end(), T( 0 ));
''')
r('mx2', MX, '''    for( ; it != it_end; ++it)
    {
        if ( fabs(*it) > threshold_ ) {
            ++counter;
        }
    }

    return counter;
''', '''    const T limit = threshold_;
    while( it != it_end )
    {
        const T magnitude = fabs( *it++ );
        counter += magnitude > limit;
    }
    return counter;
''')
r('mx2', MX, '''            *it_quant = TT( std::min( std::max( min_tt_range, long(( *it * tt_range / t_range ) + 0.5)), max_tt_range ));
''', '''            long code = static_cast< long >( 0.5 + *it * tt_range / t_range );
            if( code > max_tt_range )
                code = max_tt_range;
            else if( code < min_tt_range )
                code = min_tt_range;
            *it_quant = static_cast< TT >( code );
''')
r('mx2', MX, '''        T value = 0;
        for ( size_t m = 0; m < M; ++m )
        {
            value += at( m, n );
        }
        summed_columns_.at( n ) = value;
''', '''        const T* column = array + n * M;
        summed_columns_.at( n ) = std::accumulate( column, column + M, T( 0 ));
''')
r('mx2', MX, '''    zero();
    for( size_t r = 0; r < R; ++r )
    {
        at(r, r) = static_cast< T >( diag_values_.at(r) );
    }
    return 0;
''', '''    for( size_t row = 0; row < M; ++row )
        for( size_t col = 0; col < N; ++col )
            at( row, col ) = row == col ? static_cast< T >( diag_values_.at( row )) : static_cast< T >( 0 );
    return 0;
''')
r('mx2', MX, '''            fill_value = (2 * col + 1) * row * M_PI / (2*M);
            fill_value = std::cos( fill_value );
            fill_value *= weight;
            at( row, col ) = static_cast< T >( fill_value )  ;
''', '''            const double angle = M_PI / num_rows * ( col + 0.5 ) * row;
            at( row, col ) = static_cast< T >( weight * std::cos( angle ));
''')
r('mx2', MX, '''            fillValue = rand();
            fillValue /= RAND_MAX;
            at( row, col ) = -1.0 + 2.0 * static_cast< double >( fillValue )  ;
''', '''            const double draw = double( rand( )) / RAND_MAX;
            at( row, col ) = 2.0 * draw - 1.0;
''')
r('mx2', MX, '''        char* data = new char[ len_data ];
''', '''        std::vector< char > buffer( len_data );
        char* data = &buffer[0];
''')
r('mx2', MX, '''        delete[] data;
''', '')
r('mx2', MX, '''    row_type* row0 = new row_type;
    row_type* row1 = new row_type;

    other.zero();

    for ( size_t row = 0; row < M; ++row )
    {
        get_row( row++, *row0 );
        if ( row < M )
        {
            get_row( row, *row1 );
            *row0 += *row1;
            other.set_row( row/2 , *row0 );
        }
    }

    delete row0;
    delete row1;
''', '''    for( size_t row = 0; row < M / 2; ++row )
    {
        const row_type sum = get_row( 2 * row ) + get_row( 2 * row + 1 );
        other.set_row( row, sum );
    }
''')
r('mx2', MX, '''                int srcy = y_ - U/2 + j;

                // Extending border values
                if(srcy < 0)       srcy = 0;
                if(srcy >= int(M)) srcy = M-1;
''', '''                const int srcy = std::max( 0, std::min( int( M ) - 1, int( y_ ) + int( j ) - int( U / 2 )));
''')
r('mx2', MX, '''        for( size_t col_index = 0; col_index < N; ++col_index )
        {
            is >> at( row_index, col_index );
        }
''', '''        for( size_t col_index = 0; col_index < N; ++col_index )
        {
            T value = at( row_index, col_index );
            is >> value;
            at( row_index, col_index ) = value;
        }
''')
r('mx2', MX, '''    double sum = 0.0;

    const_iterator it = begin(), it_end = end();
    for( ; it != it_end; ++it )
    {
        sum += *it;
    }

    return sum;
''', '''    double sum = 0.0;
    for( size_t i = 0; i < size(); i++ )
        sum = array[ i ] + sum;
    return sum;
''')


r('ve', VE, '''#include <vmmlib/vmmlib_config.hpp>''', '''#include <functional>
#include <numeric>
#include <vmmlib/vmmlib_config.hpp>''')
r('ve', VE, '''    for( iterator it = begin(), it_end = end(); it != it_end; ++it )
    {
        *it = _a;
    }
''', '''    std::fill( begin(), end(), _a );
''')
r('ve', VE, '''    const Vector< 3, T > cb = b - c;
    const Vector< 3, T > ba = a - b;

    Vector< 4, T > plane( cb.cross( ba ), 0 );
    plane.normalize();
    plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
    return plane;
''', '''    Vector< 3, T > n = ( b - c ).cross( a - b );
    n.normalize();
    return Vector< 4, T >( n.x(), n.y(), n.z(), -n.dot( a ));
''')
r('ve', VE, '''    memcpy( array, values, M * sizeof( T ));
''', '''    std::copy( values, values + M, array );
''')
r('ve', VE, '''    Vector< M, T > result;
    for( size_t index = 0; index < M; ++index )
        result.at( index ) = at( index ) / other.at( index );
    return result;
''', '''    Vector< M, T > result( *this );
    result /= other;
    return result;
''')
r('ve', VE, '''    Vector< M, T > result;
    for( size_t index = 0; index < M; ++index )
        result.at( index ) = at( index ) - other.at( index );
    return result;
''', '''    Vector< M, T > result;
    std::transform( begin(), end(), other.begin(), result.begin(), std::minus< T >( ));
    return result;
''')
r('ve', VE, '''    for( size_t index = 0; index < M; ++index )
        at( index ) *= other.at( index );
''', '''    iterator it = begin();
    const_iterator rhs = other.begin();
    while( it != end( ))
        *it++ *= *rhs++;
''')
r('ve', VE, '''    for( size_t index = 0; index < M; ++index )
        array[ index ] = -array[ index ];
    return *this;
''', '''    std::transform( begin(), end(), begin(), std::negate< T >( ));
    return *this;
''')
r('ve', VE, '''    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();
    array[ 0 ] = x_;
    array[ 1 ] = y_;
    array[ 2 ] = z_;
''', '''    T product[ 3 ];
    for( size_t i = 0; i < 3; ++i )
    {
        const size_t j = ( i + 1 ) % 3, k = ( i + 2 ) % 3;
        product[ i ] = aa.array[ j ] * bb.array[ k ] - aa.array[ k ] * bb.array[ j ];
    }
    std::copy( product, product + 3, array );
''')
r('ve', VE, '''    T tmp = 0.0;
    for( size_t index = 0; index < M; ++index )
        tmp += at( index ) * other.at( index );
    return tmp;
''', '''    return std::inner_product( begin(), end(), other.begin(), T( 0 ));
''')
r('ve', VE, '''    const T tmp = 1.0 / len;
    (*this) *= tmp;
    return len;
''', '''    *this /= len;
    return len;
''')
r('ve', VE, '''    T _squared_length = 0.0;
    for( const_iterator it = begin(), it_end = end(); it != it_end; ++it )
        _squared_length += (*it) * (*it);

    return _squared_length;
''', '''    return dot( *this );
''')
r('ve', VE, '''    Vector< M, T > tmp( *this );
    tmp -= other;
    return tmp.squared_length();
''', '''    T sum = 0;
    for( size_t i = 0; i < M; ++i )
    {
        const T d = other.array[ i ] - array[ i ];
        sum += d * d;
    }
    return sum;
''')
r('ve', VE, '''    axis.normalize();

    const T costheta = std::cos( theta );
    const T sintheta = std::sin( theta );

    return Vector< 3, T >(
''', '''    axis.normalize();

    const T costheta = std::cos( theta );
    const T sintheta = std::sin( theta );
    if( M == 3 )
    {
        // Rodrigues
        const Vector< 3, T > k( axis );
        const Vector< 3, T > v( x(), y(), z( ));
        return v * costheta + k.cross( v ) * sintheta + k * ( k.dot( v ) * ( 1 - costheta ));
    }

    return Vector< 3, T >(
''')
r('ve', VE, '''    const Vector< 3, T >& _center = get_sub_vector< 3 >( 0 );
    Vector< 3, T > projected_point( point );
    projected_point -= _center;
    projected_point.normalize();
    projected_point *= w();
    return _center + projected_point;
''', '''    const Vector< 3, T > centre( x(), y(), z( ));
    const Vector< 3, T > direction = vmml::normalize( Vector< 3, T >( point - centre ));
    return direction * w() + centre;
''')
r('ve', VE, '''    const Vector< 3, T >& normal = get_sub_vector< 3 >( 0 );
    return normal.dot( point ) + w();
''', '''    return x() * point.x() + y() * point.y() + z() * point.z() + w();
''')
r('ve', VE, '''    return std::equal( begin(), end(), other.begin( ));
''', '''    size_t index = 0;
    while( index < M && array[ index ] == other.array[ index ] )
        ++index;
    return index == M;
''')
r('ve', VE, '''    for( size_t index = 0; index < M; ++index )
        if( !( fabs( at( index ) - other( index ) ) < tolerance ))
            return false;
    return true;
''', '''    bool same = true;
    for( size_t index = 0; index < M; ++index )
        same = same && fabs( other( index ) - at( index )) < tolerance;
    return same;
''')
r('ve', VE, '''    for(size_t index = 0; index < M; ++index )
    {
        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index )) return false;
    }
    return false;
''', '''    return std::lexicographical_compare( begin(), end(), other.begin(), other.end( ));
''')
r('ve', VE, '''    const T w_reci = static_cast< T >( 1.0 ) / source_( M );
    iterator it = begin(), it_end = end();
    for( size_t index = 0; it != it_end; ++it, ++index )
        *it = source_( index ) * w_reci;
    return 0;
''', '''    for( size_t index = 0; index < M; ++index )
        at( index ) = source_( index ) / source_( M );
    return 0;
''')
r('ve', VE, '''    if( this != &other )
        memcpy( array, other.array, M * sizeof( T ) );
    return *this;
''', '''    for( size_t i = 0; i < M; ++i )
        array[ i ] = other.array[ i ];
    return *this;
''')
r('ve', VE, '''        if( array[i] < min )
            array[i] = min;
        if( array[i] > max )
            array[i] = max;
''', '''        T& value = array[ i ];
        value = value < min ? min : value > max ? max : value;
''')
r('ve', VE, '''    T range       = max_value-min_value;
    T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );

    for( size_t index = 0; index < M; ++index )
    {
        result_.at( index )
            = static_cast< TT >( ( at( index ) - min_value ) * scale );
    }
''', '''    const T top = static_cast< T >( std::numeric_limits< TT >::max( ));
    for( size_t index = 0; index < M; ++index )
    {
        const T fraction = ( at( index ) - min_value ) / ( max_value - min_value );
        result_.at( index ) = static_cast< TT >( fraction * top );
    }
''')
r('ve', VE, '''    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
''', '''    size_t best = 0;
    for( size_t i = 1; i < M; ++i )
        if( vmml::math::abs_less< T >()( array[ best ], array[ i ] ))
            best = i;
    return best;
''')
r('ve', VE, '''    const_iterator it = begin(), it_end = end();
    bool one = false;
    for( ; it != it_end; ++it )
    {
        if ( *it == 1.0 )
        {
            if ( one )
                return false;
            one = true;
        }
        else if ( *it != 0.0 )
        {
            return false;
        }
    }
    return one;
''', '''    return std::count( begin(), end(), T( 1 )) == 1 && std::count( begin(), end(), T( 0 )) == long( M - 1 );
''')
r('ve', VE, '''        (*it) += ( rand() & 1u ) ? perturbation : -perturbation;
''', '''        const bool up = rand() % 2 != 0;
        if( up )
            *it += perturbation;
        else
            *it -= perturbation;
''')
r('ve', VE, '''        T& v = *it;
        if ( v == static_cast< T >( 0 ) )
            v = std::numeric_limits< T >::max();
        else
            v = static_cast< T >( 1.0 ) / v;
''', '''        *it = *it != 0 ? T( 1 ) / *it : std::numeric_limits< T >::max();
''')
r('ve', VE, '''        norm_v += *it * *it;
    }

    return std::sqrt(norm_v);
''', '''        const double value = *it;
        norm_v += value * value;
    }
    return std::pow( norm_v, 0.5 );
''')
r('ve', VE, '''        const double fillValue = double( rand( )) / double( RAND_MAX );
        at( i ) = -1.0 + 2.0 * fillValue;
''', '''        at( i ) = ( 2.0 * rand() - RAND_MAX ) / RAND_MAX;
''')


# ---------------------------------------------------------------- quaternion
r('qu', QU, '''    x() = x_;
    y() = y_;
    z() = z_;
    w() = w_;
''', '''    const T v[4] = { x_, y_, z_, w_ };
    std::copy( v, v + 4, super::array );
''')
r('qu', QU, '''    T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + 1.0;

    // very small traces may introduce a big numerical error
    if( trace > QUATERNION_TRACE_EPSILON )
    {
        T s = 0.5 / sqrt( trace );
        x() = M( 2, 1 ) - M( 1, 2 );
        x() *= s;

        y() = M( 0, 2 ) - M( 2, 0 );
        y() *= s;

        z() = M( 1, 0 ) - M( 0, 1 );
        z() *= s;

        w() = 0.25 / s;
    }
    else
''', '''    const T diagonal = M( 2, 2 ) + M( 1, 1 ) + M( 0, 0 );
    const T trace = 1 + diagonal;

    // very small traces may introduce a big numerical error
    if( !( trace <= QUATERNION_TRACE_EPSILON ))
    {
        const T root = sqrt( trace );
        const T s = T( 0.5 ) / root;
        set( ( M( 2, 1 ) - M( 1, 2 )) * s, ( M( 0, 2 ) - M( 2, 0 )) * s, ( M( 1, 0 ) - M( 0, 1 )) * s, root / 2 );
    }
    else
''')
r('qu', QU, '''        Vector< 3, T > diag( M( 0, 0 ), M( 1, 1 ), M( 2, 2 ) );
        size_t largest = diag.find_max_index();
''', '''        size_t largest = 0;
        if( M( 1, 1 ) > M( 0, 0 ))
            largest = 1;
        if( M( 2, 2 ) > M( largest, largest ))
            largest = 2;
''')
r('qu', QU, '''            T s = 0.5 / sqrt( 1.0 + M( 1,1 ) - M( 0,0 ) - M( 2,2 ) );
            x() = M( 0,1 ) + M( 1,0 );
            x() *= s;

            y() = 0.25 / s;

            z() = M( 1,2 ) + M( 2,1 );
            z() *= s;

            w() = M( 0,2 ) - M( 2,0 );
            w() *= s;
''', '''            const T root = sqrt( 1.0 - M( 2,2 ) + M( 1,1 ) - M( 0,0 ));
            const T s = 1 / ( 2 * root );
            w() = s * ( M( 0,2 ) - M( 2,0 ));
            x() = s * ( M( 1,0 ) + M( 0,1 ));
            y() = T( 0.5 ) * root;
            z() = s * ( M( 2,1 ) + M( 1,2 ));
''')
r('qu', QU, '''    (*this) = super::ZERO;
}
''', '''    set( 0, 0, 0, 0 );
}
''')
r('qu', QU, '''    (*this) = IDENTITY;
''', '''    set( 0, 0, 0, 1 );
''')
r('qu', QU, '''    return ( w() == a && x() == 0 && y() == 0 && z() == 0 );
''', '''    if( x() != 0 || y() != 0 || z() != 0 )
        return false;
    return w() == a;
''')
r('qu', QU, '''    return ( w() != a || x() != 0 || y() != 0 || z() != 0 );
''', '''    return !( *this == a );
''')
r('qu', QU, '''    return (
        w() == rhs.w() &&
        x() == rhs.x() &&
        y() == rhs.y() &&
        z() == rhs.z()
        );
''', '''    return std::equal( array, array + 4, rhs.array );
''')
r('qu', QU, '''    if( fabsf( w() - a.w() ) > delta ||
        fabsf( x() - a.x() ) > delta ||
        fabsf( y() - a.y() ) > delta ||
        fabsf( z() - a.z() ) > delta
        )
        return false;
    return true;
''', '''    for( size_t i = 0; i < 4; ++i )
        if( fabsf( array[ i ] - a.array[ i ] ) > delta )
            return false;
    return true;
''')
r('qu', QU, '''    x() = -x();
    y() = -y();
    z() = -z();
''', '''    for( size_t i = 0; i < 3; ++i )
        array[ i ] = -array[ i ];
''')
r('qu', QU, '''    return Quaternion< T > ( -x(), -y(), -z(), w() );
''', '''    Quaternion< T > q( *this );
    q.conjugate();
    return q;
''')
r('qu', QU, '''    return x() * x() + y() * y() + z() * z() + w() * w();
''', '''    return dot( *this );
''')
r('qu', QU, '''    Quaternion< T > q( *this );
    q.conjugate();

    T tmp = squared_abs();
    tmp = static_cast< T >( 1.0 ) / tmp;
    return q * tmp;
''', '''    const T norm2 = squared_abs();
    return Quaternion< T >( -x() / norm2, -y() / norm2, -z() / norm2, w() / norm2 );
''')
r('qu', QU, '''    T len = abs();
    if( len == 0.0 )
        return 0.0;
    len = 1.0f / len;
    this->operator*=( len );
    return len;
''', '''    const T len = abs();
    if( len > 0 )
    {
        const T inv = T( 1 ) / len;
        x() *= inv;
        y() *= inv;
        z() *= inv;
        w() *= inv;
        return inv;
    }
    return 0;
''')
r('qu', QU, '''    return Quaternion( x() + rhs.x(), y() + rhs.y(), z() + rhs.z(), w() + rhs.w() );
''', '''    Quaternion< T > ret( rhs );
    ret += *this;
    return ret;
''')
r('qu', QU, '''    return Quaternion( x() - rhs.x(), y() - rhs.y(), z() - rhs.z(), w() - rhs.w() );
''', '''    Quaternion< T > ret( *this );
    ret -= rhs;
    return ret;
''')
r('qu', QU, '''    #if 0
    Quaternion< T > orig( *this );
    x() = orig.w() * a.x() + orig.x() * a.w() + orig.y() * a.z() - orig.z() * a.y();
    y() = orig.w() * a.y() + orig.y() * a.w() + orig.z() * a.x() - orig.x() * a.z();
    z() = orig.w() * a.z() + orig.z() * a.w() + orig.x() * a.y() - orig.y() * a.x();
    w() = orig.w() * a.w() - orig.x() * a.x() - orig.y() * a.y() - orig.z() * a.z();
    #else
''', '''    #if 1
    const Quaternion< T > orig( *this ), a( q );
    x() = orig.w() * a.x() + orig.x() * a.w() + orig.y() * a.z() - orig.z() * a.y();
    y() = orig.w() * a.y() + orig.y() * a.w() + orig.z() * a.x() - orig.x() * a.z();
    z() = orig.w() * a.z() + orig.z() * a.w() + orig.x() * a.y() - orig.y() * a.x();
    w() = orig.w() * a.w() - orig.x() * a.x() - orig.y() * a.y() - orig.z() * a.z();
    #else
''')
r('qu', QU, '''    return Quaternion( -x(), -y(), -z(), -w() );
''', '''    return *this * T( -1 );
''')
r('qu', QU, '''    array[ 0 ] += q.array[ 0 ];
    array[ 1 ] += q.array[ 1 ];
    array[ 2 ] += q.array[ 2 ];
    array[ 3 ] += q.array[ 3 ];
''', '''    std::transform( array, array + 4, q.array, array, std::plus< T >( ));
''')
r('qu', QU, '''    if ( a_ == 0.0 )
    {
        VMMLIB_ERROR( "Division by zero.", VMMLIB_HERE );
    }
    a_ = 1.0 / a_;
    return Quaternion( x() * a_, y() * a_, z() * a_, w() * a_ );
''', '''    Quaternion q( *this );
    q /= a_;
    return q;
''')
r('qu', QU, '''    array[ 0 ] *= q;
    array[ 1 ] *= q;
    array[ 2 ] *= q;
    array[ 3 ] *= q;
''', '''    *this = *this * q;
''')
r('qu', QU, '''    return Quaternion( w() * a.x() + y() * a.z() - z() * a.y(),
                       w() * a.y() + z() * a.x() - x() * a.z(),
                       w() * a.z() + x() * a.y() - y() * a.x(),
                       -x() * a.x() - y() * a.y() - z() * a.z( ));
''', '''    const Vector< 3, T > v( x(), y(), z( ));
    Vector< 3, T > c = v.cross( a );
    c += a * w();
    return Quaternion( c.x(), c.y(), c.z(), -v.dot( a ));
''')
r('qu', QU, '''    T _x = x();
    T _y = y();
    T _z = z();
    T _w = w();

    x() = _w * a.x() + _y * a.z() - _z * a.y();
    y() = _w * a.y() + _z * a.x() - _x * a.z();
    z() = _w * a.z() + _x * a.y() - _y * a.x();
    w() = -_x * a.x() - _y * a.y() - _z * a.z();
''', '''    *this *= Quaternion( a, 0 );
''')
r('qu', QU, '''    return w() * q.w() + x() * q.x() + y() * q.y() + z() * q.z();
''', '''    return std::inner_product( array, array + 4, q.array, T( 0 ));
''')
r('qu', QU, '''#include <algorithm>
''', '''#include <algorithm>
#include <numeric>
#include <functional>
''')
r('qu', QU, '''    T w2 = w() * w();
    T x2 = x() * x();
    T y2 = y() * y();
    T z2 = z() * z();
    T wx''', '''    T w2 = std::pow( w(), 2 );
    const T xx = x(), yy = y(), zz = z();
    T x2 = xx * xx;
    T y2 = yy * yy;
    T z2 = zz * zz;
    T wx''')
r('qu', QU, '''    M( 0, 0 ) = w2 + x2 - y2 - z2;
    M( 0, 1 ) = 2. * (xy - wz);
    M( 0, 2 ) = 2. * (xz + wy);
    M( 1, 0 ) = 2. * (xy + wz);
    M( 1, 1 ) = w2 - x2 + y2 - z2;
''', '''    M( 1, 1 ) = w2 + y2 - ( x2 + z2 );
    M( 0, 0 ) = ( w2 + x2 ) - ( y2 + z2 );
    M( 0, 1 ) = ( xy - wz ) + ( xy - wz );
    M( 1, 0 ) = 2. * xy + 2. * wz;
    M( 0, 2 ) = 2. * xz + 2. * wy;
''')
r('qu', QU, '''    T cosine = px.dot( qx );

    // check if inverted rotation is needed
    if ( cosine < 0.0 )
    {
        cosine = -cosine;
        qx = -qx;
    }

    const T abs_cos = static_cast< T >( fabs(cosine) );
    const T one_x   = static_cast< T >( 1. - epsilon );
    if( abs_cos < one_x )
    {
        // standard slerp
        T sine = sqrt( 1. - ( cosine * cosine ) );
        T angle = atan2( sine, cosine );
        T coeff1 = std::sin( ( 1.0 - a ) * angle) / sine;
        T coeff2 = std::sin( a * angle ) / sine;

        qx *= coeff2;
        px *= coeff1;

        px += qx;
    }
    else
    {
        // linear interpolation for very small angles
        px *= 1. - a;
        qx *= a;
        px += qx;
        px.normalize();
    }

    return px;
''', '''    const T dotted = px.dot( qx );
    // the shorter way round
    const bool flip = dotted < 0;
    const T cosine = flip ? -dotted : dotted;
    if( flip )
        qx *= T( -1 );

    const T one_x = static_cast< T >( 1. - epsilon );
    if( !( cosine < one_x ))
        return ( px * ( 1 - a ) + qx * a ).get_normalized();

    const T sine = sqrt( 1. - cosine * cosine );
    const T angle = atan2( sine, cosine );
    return px * ( std::sin( ( 1.0 - a ) * angle ) / sine ) + qx * ( std::sin( a * angle ) / sine );
''')

# ---------------------------------------------------------------- frustum, culler
r('fr', FR, '''    left()      = static_cast< T > ( values[0] );
    right()     = static_cast< T > ( values[1] );
    bottom()    = static_cast< T > ( values[2] );
    top()       = static_cast< T > ( values[3] );
    near_plane() = static_cast< T > ( values[4] );
    far_plane()  = static_cast< T > ( values[5] );
''', '''    for( size_t i = 0; i < 6; ++i )
        array[ i ] = static_cast< T >( values[ i ] );
''')
r('fr', FR, '''    memcpy( array, source_.array, 6 * sizeof( T ) );
    return *this;
''', '''    std::copy( source_.array, source_.array + 6, array );
    return *this;
''')
r('fr', FR, '''    left()      = _left;
    right()     = _right;
    bottom()    = _bottom;
    top()       = _top;
    near_plane() = _near;
    far_plane()  = _far;
''', '''    T* p = array;
    *p++ = _left;
    *p++ = _right;
    *p++ = _bottom;
    *p++ = _top;
    *p++ = _near;
    *p = _far;
''')
r('fr', FR, '''	if( new_near == near_plane() )
		return;

	const T ratio = new_near / near_plane();
	right()     *= ratio;
	left()      *= ratio;
	top()       *= ratio;
	bottom()    *= ratio;
	near_plane()  = new_near;
''', '''    if( new_near != near_plane() )
    {
        const T old = near_plane();
        for( size_t i = 0; i < 4; ++i )
            array[ i ] = array[ i ] * new_near / old;
        near_plane() = new_near;
    }
''')
r('fr', FR, '''    near_plane() = near_plane_;
    far_plane()   = far_plane_;

    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane_;
    bottom()    = - top();

    left()      = bottom() * aspect_ratio;
    right()     = top() * aspect_ratio;
''', '''    const T half_angle = fov_y * M_PI / 360.0;
    const T half_height = near_plane_ * std::tan( half_angle );
    const T half_width = aspect_ratio * half_height;
    set( -half_width, half_width, -half_height, half_height, near_plane_, far_plane_ );
''')
r('fr', FR, '''    M( 0,0 ) = 2.0 * near_plane() / ( right() - left() );
    M( 0,1 ) = 0.0;
    M( 0,2 ) = ( right() + left() ) / ( right() - left() );
    M( 0,3 ) = 0.0;

    M( 1,0 ) = 0.0;
    M( 1,1 ) = 2.0 * near_plane() / ( top() - bottom() );
    M( 1,2 ) = ( top() + bottom() ) / ( top() - bottom() );
    M( 1,3 ) = 0.0;

    M( 2,0 ) = 0.0;
    M( 2,1 ) = 0.0;
''', '''    const T width = right() - left();
    const T height = top() - bottom();
    M.zero();
    M( 0,0 ) = ( near_plane() + near_plane( )) / width;
    M( 0,2 ) = ( left() + right( )) / width;
    M( 1,1 ) = near_plane() * 2 / height;
    M( 1,2 ) = bottom() / height + top() / height;
''')
r('fr', FR, '''    M( 2,2 ) = -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );
    M( 2,3 ) = -2.0 * far_plane() * near_plane() / ( far_plane() - near_plane() );

    M( 3,0 ) = 0.0;
    M( 3,1 ) = 0.0;
    M( 3,2 ) = -1.0;
    M( 3,3 ) =  0.0;
''', '''    M( 2,2 ) = ( far_plane() + near_plane() ) / ( near_plane() - far_plane() );
    M( 2,3 ) = 2 * far_plane() * near_plane() / ( near_plane() - far_plane() );
    M( 3,2 ) = -1;
''')
r('fr', FR, '''    M( 0,0 ) = 2.0 / ( right() - left() );
    M( 0,1 ) = 0.0;
    M( 0,2 ) = 0.0;
    M( 0,3 ) = -( right() + left() ) / ( right() - left() );
''', '''    M = Matrix< 4, 4, T >::IDENTITY;
    const T inv_width = 1 / ( right() - left() );
    M( 0,0 ) = 2 * inv_width;
    M( 0,3 ) = -( right() + left() ) * inv_width;
''')
r('fr', FR, '''    left()   = left() + jitter_.x();
    right()  = right() + jitter_.x();
    bottom() = bottom() + jitter_.y();
    top()    = top() + jitter_.y();
''', '''    const T dx = jitter_[ 0 ];
    const T dy = jitter_[ 1 ];
    bottom() += dy;
    top() += dy;
    left() += dx;
    right() += dx;
''')
r('cu', CU, '''    const vec4& row0 = proj_modelview.get_row( 0 );
    const vec4& row1 = proj_modelview.get_row( 1 );
    const vec4& row2 = proj_modelview.get_row( 2 );
    const vec4& row3 = proj_modelview.get_row( 3 );

    _left_plane   = row3 + row0;
    _right_plane  = row3 - row0;
    _bottom_plane = row3 + row1;
    _top_plane    = row3 - row1;
    _near_plane   = row3 + row2;
    _far_plane    = row3 - row2;

    _normalize_plane( _left_plane );
    _normalize_plane( _right_plane );
    _normalize_plane( _bottom_plane );
    _normalize_plane( _top_plane );
    _normalize_plane( _near_plane );
    _normalize_plane( _far_plane );
''', '''    vec4* planes[3][2] = {{ &_left_plane, &_right_plane }, { &_bottom_plane, &_top_plane }, { &_near_plane, &_far_plane }};
    for( size_t axis = 0; axis < 3; ++axis )
    {
        for( size_t i = 0; i < 4; ++i )
        {
            planes[ axis ][ 0 ]->array[ i ] = proj_modelview( 3, i ) + proj_modelview( axis, i );
            planes[ axis ][ 1 ]->array[ i ] = proj_modelview( 3, i ) - proj_modelview( axis, i );
        }
        _normalize_plane( *planes[ axis ][ 0 ] );
        _normalize_plane( *planes[ axis ][ 1 ] );
    }
''')
r('cu', CU, '''    _left_plane   = compute_plane( c, a, e );
    _right_plane  = compute_plane( f, b, d );
    _bottom_plane = compute_plane( h, d, c );
    _top_plane    = compute_plane( a, b, f );
    _near_plane   = compute_plane( b, a, c );
    _far_plane    = compute_plane( g, e, f );
''', '''    _far_plane    = compute_plane( g, e, f );
    _near_plane   = compute_plane( a, c, b );
    _top_plane    = compute_plane( b, f, a );
    _bottom_plane = compute_plane( d, c, h );
    _right_plane  = compute_plane( b, d, f );
    _left_plane   = compute_plane( a, e, c );
''')
r('cu', CU, '''    const vec3& v3 = plane.template get_sub_vector< 3 >();
    const T len_i = 1.0 / v3.length();
    plane.x() *= len_i;
    plane.y() *= len_i;
    plane.z() *= len_i;
    plane.w() *= len_i;
''', '''    T sq = 0;
    for( size_t i = 0; i < 3; ++i )
        sq += plane.array[ i ] * plane.array[ i ];
    plane /= T( std::sqrt( sq ));
''')
s6 = '''    T distance = _left_plane.x() * sphere.x() + _left_plane.y() * sphere.y() +
                 _left_plane.z() * sphere.z() + _left_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < sphere.w() )
        visibility = VISIBILITY_PARTIAL;
'''
for nm in ('right', 'bottom', 'top', 'near', 'far'):
    s6 += '''    distance = _%s_plane.x() * sphere.x() + _%s_plane.y() * sphere.y() +
               _%s_plane.z() * sphere.z() + _%s_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < sphere.w() )
        visibility = VISIBILITY_PARTIAL;
''' % (nm, nm, nm, nm)
r('cu', CU, s6, '''    const vec4* planes[] = { &_far_plane, &_near_plane, &_top_plane, &_bottom_plane, &_right_plane, &_left_plane };
    const vec3 center = sphere.template get_sub_vector< 3 >();
    const T radius = sphere.w();
    for( const vec4* plane : planes )
    {
        const T distance = plane->template get_sub_vector< 3 >().dot( center ) + plane->w();
        if( distance + radius <= 0 )
            return VISIBILITY_NONE;
        if( distance < radius )
            visibility = VISIBILITY_PARTIAL;
    }
''')
r('cu', CU, '''    if( d - n >= 0 )
        return VISIBILITY_FULL;
    if( d + n > 0 )
        return VISIBILITY_PARTIAL;
    return VISIBILITY_NONE;
''', '''    if( d <= -n && d < n )
        return VISIBILITY_NONE;
    return d < n ? VISIBILITY_PARTIAL : VISIBILITY_FULL;
''')
a6 = ''
for nm in ('left', 'right', 'bottom', 'top', 'near', 'far'):
    a6 += '''    switch( _test_aabb( _%s_plane, middle, extent ))
    {
        case VISIBILITY_FULL: break;
        case VISIBILITY_PARTIAL: result = VISIBILITY_PARTIAL; break;
        case VISIBILITY_NONE: return VISIBILITY_NONE;
    }
''' % nm
r('cu', CU, a6, '''    const vec4* planes[] = { &_left_plane, &_right_plane, &_bottom_plane, &_top_plane, &_near_plane, &_far_plane };
    for( int i = 0; i < 6; ++i )
    {
        const Visibility v = _test_aabb( *planes[ i ], middle, extent );
        if( v == VISIBILITY_NONE )
            return v;
        if( v != VISIBILITY_FULL )
            result = v;
    }
''')
r('cu', CU, '''    const vec3& middle = vec3( x[0] + x[1], y[0] + y[1], z[0] + z[1] ) * .5;
    const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),
                               fabs(z[1] - z[0]) ) * .5;
''', '''    const vec3 middle( ( x[0] + x[1] ) / 2, ( y[0] + y[1] ) / 2, ( z[0] + z[1] ) / 2 );
    const vec3 extent( std::max( x[0], x[1] ) - middle.x(), std::max( y[0], y[1] ) - middle.y(),
                       std::max( z[0], z[1] ) - middle.z( ));
''')
# ---------------------------------------------------------------- aabb, intersection, filter, qr, math, util
r('ab', AB, '''    _max = _min = Vector< 3, T >( cx, cy, cz );
    _max += size;
    _min -= size;
''', '''    set( cx, cy, cz, size );
''')
r('ab', AB, '''    if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.z() > _max.z() ||
         pos.x() < _min.x() || pos.y() < _min.y() || pos.z() < _min.z( ))
    {
        return false;
    }
    return true;
''', '''    for( size_t i = 0; i < 3; ++i )
        if( pos[ i ] < _min[ i ] || _max[ i ] < pos[ i ] )
            return false;
    return true;
''')
r('ab', AB, '''    if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.x() < _min.x() ||
         pos.y() < _min.y( ))
    {
        return false;
    }
    return true;
''', '''    const bool outside_x = pos.x() > _max.x() || pos.x() < _min.x();
    const bool outside_y = pos.y() > _max.y() || pos.y() < _min.y();
    return !outside_x && !outside_y;
''')
r('ab', AB, '''    Vector< 3, T > center( cx, cy, cz );
    _min = center - size;
    _max = center + size;
''', '''    _min.set( cx - size, cy - size, cz - size );
    _max.set( cx + size, cy + size, cz + size );
''')
r('ab', AB, '''    AABB result = *this;
    result *= value;
    return result;
''', '''    return AABB( _min * value, _max * value );
''')
r('ab', AB, '''    AABB result = *this;
    result -= value;
    return result;
''', '''    AABB result;
    result._min = _min - value;
    result._max = _max - value;
    return result;
''')
r('ab', AB, '''    return _min != other._min || _max != other._max;
''', '''    return !( *this == other );
''')
r('ab', AB, '''    return _min + ( ( _max - _min ) * 0.5f );
''', '''    return ( _min + _max ) * 0.5f;
''')
r('ab', AB, '''    const Vector< 3, T >& min = aabb.getMin();
    const Vector< 3, T >& max = aabb.getMax();
    if ( min.x() < _min.x() )
        _min.x() = min.x();
    if ( min.y() < _min.y() )
        _min.y() = min.y();
    if ( min.z() < _min.z() )
        _min.z() = min.z();
    if ( max.x() > _max.x() )
        _max.x() = max.x();
    if ( max.y() > _max.y() )
        _max.y() = max.y();
    if ( max.z() > _max.z() )
        _max.z() = max.z();
''', '''    for( size_t i = 0; i < 3; ++i )
    {
        _min[ i ] = std::min( _min[ i ], aabb._min[ i ] );
        _max[ i ] = std::max( _max[ i ], aabb._max[ i ] );
    }
''')
r('ab', AB, '''    if ( point.x() < _min.x() )
        _min.x() = point.x();
    if ( point.y() < _min.y() )
        _min.y() = point.y();
    if ( point.z() < _min.z() )
        _min.z() = point.z();
''', '''    _min.x() = point.x() < _min.x() ? point.x() : _min.x();
    _min.y() = point.y() < _min.y() ? point.y() : _min.y();
    _min.z() = point.z() < _min.z() ? point.z() : _min.z();
''')
r('ab', AB, '''    return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
             _min.z() >=  _max.z( ));
''', '''    const Vector< 3, T >& lo = getMin();
    const Vector< 3, T >& hi = getMax();
    if( lo.x() < hi.x() && lo.y() < hi.y( ))
        return lo.z() >= hi.z();
    return true;
''')
r('ab', AB, '''    return AABB( Vector< 3, T >::ZERO, Vector< 3, T >::ONE );
''', '''    return AABB( Vector< 3, T >( T( 0 )), Vector< 3, T >( T( 1 )));
''')
r('in', IN, '''    const vec3 center = vec3(sphere.x(), sphere.y(), sphere.z());
    const T radius = sphere.w();

    const vec3 centerVec = center - _origin;
    const T vecProjection = centerVec.dot(_direction);

    const T sqDistance = centerVec.squared_length();
    const T sqRadius = radius * radius;
''', '''    T sqDistance = 0, vecProjection = 0;
    for( size_t i = 0; i < 3; ++i )
    {
        const T delta = sphere[ i ] - _origin[ i ];
        sqDistance += delta * delta;
        vecProjection += delta * _direction[ i ];
    }
    const T sqRadius = std::pow( sphere.w(), 2 );
''')
r('in', IN, '''    if( vecProjection < 0 && sqDistance > sqRadius )
        return false;
''', '''    const bool outside = sqDistance > sqRadius;
    if( outside && vecProjection < 0 )
        return false;
''')
r('in', IN, '''    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;

    if( sqCenterToProj > sqRadius )
        return false;

    /** Distance from the sphere center to the surface along the ray direction*/
    const T distSurface = sqrt( sqRadius - sqCenterToProj );

    if(sqDistance > sqRadius)
        t = vecProjection - distSurface;
    else
        t = vecProjection + distSurface;

    return true;
''', '''    const T discriminant = sqRadius - ( sqDistance - vecProjection * vecProjection );
    if( discriminant < 0 )
        return false;
    const T distSurface = sqrt( discriminant );
    t = vecProjection + ( outside ? -distSurface : distSurface );
    return true;
''')
r('lp', LP, '''    while( _data.size() > M )
        _data.pop_back();

    // update
    typename std::deque< T >::const_iterator i = _data.begin();
    _value = *i;
    double weight = _smooth_factor;

    for( ++i ; i != _data.end(); ++i )
    {
        _value = _value * (1 - weight) + (*i) * weight;
        weight *= _smooth_factor;
    }

    return _value;
''', '''    if( _data.size() > M )
        _data.resize( M );

    _value = _data.front();
    double weight = _smooth_factor;
    for( size_t k = 1; k < _data.size(); ++k )
    {
        const T& sample = _data[ k ];
        _value = _value * (1 - weight) + sample * weight;
        weight = weight * _smooth_factor;
    }
    return _value;
''')
r('qr', QR, '''    Vector< M, T >  v;
    for( unsigned j = 0; j < N; ++j )
    {
        A.get_column( j, v );

        for( unsigned i = 0; i < j; ++i )
        {
            Q.get_column( i, q_column );
            A.get_column( j, a_column );

            R( i, j ) = dot( q_column, a_column );
            v -= q_column * R(i,j);
        }
        R(j,j) = v.length();
        Q.set_column( j, v / R(j,j) );
    }
''', '''    for( size_t j = 0; j < N; ++j )
    {
        a_column = A_.get_column( j );
        Vector< M, T > rest = a_column;
        for( size_t i = 0; i < j; ++i )
        {
            T projection = 0;
            for( size_t k = 0; k < M; ++k )
                projection += Q( k, i ) * A_( k, j );
            for( size_t k = 0; k < M; ++k )
                rest( k ) -= projection * Q( k, i );
            R( i, j ) = projection;
        }
        const T norm = rest.length();
        for( size_t k = 0; k < M; ++k )
            Q( k, j ) = rest( k ) / norm;
        R( j, j ) = norm;
    }
''')
r('ma', MA, '''    return ( a == 0.0 ) ? 0.0 : a * a;
''', '''    return a * a;
''')
r('ma', MA, '''    if ( a > b )
        return a * std::sqrt( 1.0 + squared( b / a ) );
    else
        return ( b == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );
''', '''    const T hi = a < b ? b : a;
    const T lo = a < b ? a : b;
    if( hi == 0 )
        return 0;
    const T ratio = lo / hi;
    return hi * std::sqrt( 1 + ratio * ratio );
''')
r('ma', MA, '''    return ( b >= 0.0 ) ? std::abs( a ) : -std::abs( a );
''', '''    const T magnitude = a < 0 ? -a : a;
    if( b >= 0 )
        return magnitude;
    return -magnitude;
''')
r('ma', UT, '''    return fabs( arg0 - arg1 ) < std::numeric_limits< float >::epsilon();
''', '''    const auto difference = arg0 - arg1;
    const float eps = std::numeric_limits< float >::epsilon();
    return difference < eps && difference > -eps;
''')
r('mx3', MX, '''    const double num_rows = M;
    double fill_value = 0.0f;
    for( size_t row = 0; row < M; ++row )
    {
        // to receive orthonormality
        const double weight = ( row == 0.0 ) ? std::sqrt(1/num_rows) :
                                               std::sqrt(2/num_rows);
        for( size_t col = 0; col < N; ++col )
        {
            fill_value = (2 * col + 1) * row * M_PI / (2*M);
            fill_value = std::cos( fill_value );
            fill_value *= weight;
            at( row, col ) = static_cast< T >( fill_value )  ;
        }
    }
''', '''    const double step = M_PI / M;
    for( size_t col = 0; col < N; ++col )
        array[ col * M ] = static_cast< T >( 1.0 / std::sqrt( double( M )));
    for( size_t col = 0; col < N; ++col )
        for( size_t row = 1; row < M; ++row )
            array[ col * M + row ] = static_cast< T >( std::sqrt( 2.0 / M ) * std::cos( step * row * ( col + 0.5 )));
''')

# ---------------------------------------------------------------- other styles (on their own: sty)
r('sty', AB, '''    const Vector< 3, T >& min = aabb.getMin();
    const Vector< 3, T >& max = aabb.getMax();

    if ( min.x() < _min.x() )
        _min.x() = min.x();
    if ( min.y() < _min.y() )
        _min.y() = min.y();
    if ( min.z() < _min.z() )
        _min.z() = min.z();

    if ( max.x() > _max.x() )
        _max.x() = max.x();
    if ( max.y() > _max.y() )
        _max.y() = max.y();
    if ( max.z() > _max.z() )
        _max.z() = max.z();
''', '''    const auto lower = []( T& current, const T& candidate ) { if( candidate < current ) current = candidate; };
    const auto raise = []( T& current, const T& candidate ) { current = std::max( { current, candidate } ); };
    const Vector< 3, T > corners[2] = { aabb.getMin(), aabb.getMax() };
    size_t i = 3;
    while( i-- > 0 )
    {
        lower( _min[ i ], corners[0][ i ] );
        raise( _max[ i ], corners[1][ i ] );
    }
''')
r('sty', LP, '''    typename std::deque< T >::const_iterator i = _data.begin();
    _value = *i;
    double weight = _smooth_factor;

    for( ++i ; i != _data.end(); ++i )
    {
        _value = _value * (1 - weight) + (*i) * weight;
        weight *= _smooth_factor;
    }
''', '''    double weight = 1.0;
    _value = _data.front();
    std::for_each( std::next( _data.begin( )), _data.end(), [ this, &weight ]( const T& sample )
    {
        weight *= _smooth_factor;
        _value = _value * (1 - weight) + sample * weight;
    } );
''')
r('sty', VE, '''    T tmp = 0.0;
    for( size_t index = 0; index < M; ++index )
        tmp += at( index ) * other.at( index );

    return tmp;
''', '''    std::array< T, M > products;
    std::transform( begin(), end(), other.begin(), products.begin(), std::multiplies< T >( ));
    return std::accumulate( products.begin(), products.end(), T( 0 ));
''')
r('sty', VE, '''    T result = at( 0 );
    for( size_t i = 1; i < M; ++i )
        result *= at( i );
    return result;
''', '''    return std::accumulate( begin() + 1, end(), at( 0 ), std::multiplies< T >( ));
''')
r('sty', VE, '''    for( size_t i = 0; i < M; ++i )
    {
        if( array[i] < min )
            array[i] = min;
        if( array[i] > max )
            array[i] = max;
    }
''', '''    const T lower( min ), upper( max );
    for( T& component : array )
    {
        if( !( component < lower ) && !( component > upper ))
            continue;
        component = component < lower ? ( lower > upper ? upper : lower ) : upper;
    }
''')
r('sty', MX, '''    size_t counter = 0;

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it != 0 ) {
            ++counter;
        }
    }

    return counter;
''', '''    return std::count_if( begin(), end(), []( const T& element ) { return element != 0; } );
''')
r('sty', MX, '''    T max_value = std::numeric_limits<T>::lowest();

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it > max_value ) {
            max_value = *it;
        }
    }
    return max_value;
''', '''    return *std::minmax_element( begin(), end( )).second;
''')
r('sty', MX, '''    for ( size_t n = 0; n < N; ++n )
    {
        T value = 0;
        for ( size_t m = 0; m < M; ++m )
        {
            value += at( m, n );
        }
        summed_columns_.at( n ) = value;
    }
''', '''    std::vector< T > sums;
    sums.reserve( N );
    for( const T* column = array; column != array + M * N; column += M )
        sums.push_back( std::accumulate( column, column + M, T( 0 )));
    std::copy( sums.begin(), sums.end(), summed_columns_.begin( ));
''')
r('sty', MX, '''        char* data = new char[ len_data ];
        iterator  it = begin(),
''', '''        std::unique_ptr< char[] > buffer( new char[ len_data ] );
        char* data = buffer.get();
        iterator  it = begin(),
''')
r('sty', MX, '''        delete[] data;
        infile.close();
    } else {
        std::cout << "no file open" << std::endl;
''', '''    } else {
        std::cout << "no file open" << std::endl;
''')
r('sty', CU, '''    _normalize_plane( _left_plane );
    _normalize_plane( _right_plane );
    _normalize_plane( _bottom_plane );
    _normalize_plane( _top_plane );
    _normalize_plane( _near_plane );
    _normalize_plane( _far_plane );
''', '''    for( vec4* plane : { &_far_plane, &_near_plane, &_top_plane, &_bottom_plane, &_right_plane, &_left_plane } )
        _normalize_plane( *plane );
''')
r('sty', MX, '''        const std::ios::fmtflags flags = os.flags();
        const int                prec  = os.precision();

        os.setf( std::ios::right, std::ios::adjustfield );
        os.precision( 5 );
''', '''        struct Format
        {
            explicit Format( std::ostream& stream ) : out( stream ), flags( stream.flags( )), prec( stream.precision( )) {}
            ~Format() { out.precision( prec ); out.flags( flags ); }
            std::ostream& out;
            const std::ios::fmtflags flags;
            const std::streamsize prec;
        } format( os );

        os << std::right << std::setprecision( 5 );
''')
r('sty', MX, '''        os.precision( prec );
        os.flags( flags );
        return os;
''', '''        return os;
''')
r('sty', IN, '''    if( vecProjection < 0 && sqDistance > sqRadius )
        return false;

    /** Squared distance from sphere center to the projection */
    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;

    if( sqCenterToProj > sqRadius )
        return false;
''', '''    const T sqCenterToProj = sqDistance - vecProjection * vecProjection;
    const bool outside = sqDistance > sqRadius;
    if(( outside && vecProjection < 0 ) || sqCenterToProj > sqRadius )
        return false;
''')
r('sty', MX, '''    for( size_t row = 0; row < M; ++row )
    {
        for( size_t col = 0; col < N; ++col )
        {
            tM.at( col, row ) = at( row, col );
        }
    }
''', '''    size_t index = 0;
    for( const T& element : *this )
    {
        tM.array[ ( index % M ) * N + index / M ] = element;
        ++index;
    }
''')


def main():
    d = sys.argv[1]
    sel = sys.argv[2:] or sorted(set(G) - {'sty'})
    for g in sel:
        for f, old, new, n in G[g]:
            p = '%s/vmmlib/%s' % (d, f)
            s = open(p).read()
            pat = r'(?:[ \t]*\n)+'.join(re.escape(l) for l in old.split('\n') if l) + ('\n' if old.endswith('\n') else '')
            k = len(re.findall(pat, s))
            if k < 1:
                print('NOT FOUND %s %s: %s' % (g, f, old[:80]))
                continue
            open(p, 'w').write(re.sub(pat, lambda m: new, s, count=n))


if __name__ == '__main__':
    main()
