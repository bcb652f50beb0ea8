// text and raw output and input
//@ variant release -DNDEBUG
//@ flags -include vp_noextern.h
#include "vu.h"
#include "vp_stream.h"
#include "vp_files.h"
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/quaternion.hpp>
#ifdef VP_NATIVE
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>
#endif
using namespace vmml;

// ---------------------------------------------------------------- write_to_stream, read_from_stream
static const int DEF = int( std::ios_base::skipws | std::ios_base::dec );
template< class C > struct shape { static size_t rows() { return C::ROWS; } static size_t cols() { return C::COLS; } };
template< size_t M, class T > struct shape< Vector< M, T > > { static size_t rows() { return M; } static size_t cols() { return 1; } };
template< class C > struct elem { typedef typename C::value_type type; };
template< size_t M, class T > struct elem< Vector< M, T > > { typedef T type; };

static void exact( vps::out& o ) { vps::os( o ).precision( 17 ); }

// row r, column c of a column-major array
template< class C > static size_t at( size_t r, size_t c ) { return c * shape< C >::rows() + r; }

template< class C > static void wts()
{
    typedef typename elem< C >::type T;
    const size_t R = shape< C >::rows(), K = shape< C >::cols();
    C m;
    T a[ R * K ];
    for( size_t i = 0; i < R * K; ++i )
        a[i] = m.array[i] = vp::inf_< T >( "m", int( i ));
    vps::out o;
    exact( o );
    m.write_to_stream( vps::os( o ));
    static vps::list e;
    e.n = 0;
    for( size_t r = 0; r < R; ++r )
        for( size_t c = 0; c < K; ++c )
        {
            e.val( a[ at< C >( r, c ) ], 17, 0, DEF );
            e.ch( ' ' );
        }
    vps::expect( o, e, "write_to_stream() writes the elements row by row, each followed by a blank" );
    for( size_t i = 0; i < R * K; ++i )
        vp::eq( m.array[i], a[i], "write_to_stream() leaves the elements alone", int( i ));

    // what was written is read back
    vps::in s;
    vps::feed( s, o );
    C b;
    for( size_t i = 0; i < R * K; ++i )
        b.array[i] = vp::inf_< T >( "b", int( i ));
    b.read_from_stream( vps::is( s ));
    for( size_t i = 0; i < R * K; ++i )
        vp::eq( b.array[i], a[i], "read_from_stream() restores what write_to_stream() wrote", int( i ));
    vp::check( !vps::is( s ).fail(), "reading what was written succeeds" );
}

// reads row by row, exactly the elements, any white space between them
template< class C > static void rfs()
{
    typedef typename elem< C >::type T;
    const size_t R = shape< C >::rows(), K = shape< C >::cols();
    static vps::list l;
    l.n = 0;
    T a[ 64 ];
    for( size_t i = 0; i <= R * K; ++i )
    {
        a[i] = vp::inf_< T >( "v", int( i ));
        l.val( a[i], 17, 0, DEF );
        l.ch( i % K == K - 1 ? '\n' : i % 2 ? '\t' : ' ' );
    }
    vps::in s;
    vps::feed( s, l );
    C m;
    m.read_from_stream( vps::is( s ));
    for( size_t r = 0; r < R; ++r )
        for( size_t c = 0; c < K; ++c )
            vp::eq( m.array[ at< C >( r, c ) ], a[ r * K + c ], "read_from_stream() reads row by row", int( r * K + c ));
    T next = T( 0 );
    vps::is( s ) >> next;
    vp::check( next == a[ R * K ], "read_from_stream() reads exactly the elements" );
}

// two objects one after the other
template< class C, class D > static void seq()
{
    typedef typename elem< C >::type T;
    typedef typename elem< D >::type U;
    C m, m2;
    D n, n2;
    T a[ 64 ];
    U b[ 64 ];
    const size_t A = shape< C >::rows() * shape< C >::cols(), B = shape< D >::rows() * shape< D >::cols();
    for( size_t i = 0; i < A; ++i )
        a[i] = m.array[i] = vp::inf_< T >( "m", int( i ));
    for( size_t i = 0; i < B; ++i )
        b[i] = n.array[i] = vp::inf_< U >( "n", int( i ));
    vps::out o;
    exact( o );
    m.write_to_stream( vps::os( o ));
    n.write_to_stream( vps::os( o ));
    vps::in s;
    vps::feed( s, o );
    m2.read_from_stream( vps::is( s ));
    n2.read_from_stream( vps::is( s ));
    for( size_t i = 0; i < A; ++i )
        vp::eq( m2.array[i], a[i], "two objects in one stream: the first", int( i ));
    for( size_t i = 0; i < B; ++i )
        vp::eq( n2.array[i], b[i], "two objects in one stream: the second", int( i ));
}

// ---------------------------------------------------------------- operator<<
struct state { int flags; int prec; };
// any stream state in which numbers are decimal
static state arbitrary( std::ostream& s )
{
    state a;
    const int adj = int( vp_pick( "adjust", -1, 4 )), fl = int( vp_pick( "float", -1, 3 ));
    a.flags = int( vp_i32( "flags", -1 ));
    const int other = int( std::ios_base::boolalpha | std::ios_base::showpos | std::ios_base::skipws | std::ios_base::unitbuf | std::ios_base::uppercase | std::ios_base::showpoint );
    a.flags &= other;
    a.flags |= int( std::ios_base::dec );
    a.flags |= adj == 1 ? int( std::ios_base::left ) : adj == 2 ? int( std::ios_base::right ) : adj == 3 ? int( std::ios_base::internal ) : 0;
    a.flags |= fl == 1 ? int( std::ios_base::fixed ) : fl == 2 ? int( std::ios_base::scientific ) : 0;
    a.prec = int( vp_i32( "prec", -1 ) & 15 );
    s.flags( std::ios_base::fmtflags( a.flags ));
    s.precision( a.prec );
    return a;
}
static void restored( std::ostream& s, const state& a )
{
    vp::check( int( s.flags( )) == a.flags, "printing restores the format flags" );
    vp::check( s.precision() == a.prec, "printing restores the precision" );
    vp::check( s.width() == 0, "printing leaves no field width" );
}
static int right( const state& a ) { return ( a.flags & ~int( std::ios_base::adjustfield )) | int( std::ios_base::right ); }

template< size_t M, size_t N, class T > static void prm()
{
    Matrix< M, N, T > m;
    T a[ M * N ];
    for( size_t i = 0; i < M * N; ++i )
        a[i] = m.array[i] = vp::inf_< T >( "m", int( i ));
    vps::out o;
    std::ostream& s = vps::os( o );
    const state st = arbitrary( s );
    std::ostream& q = s << m;
    vp::check( &q == &s, "operator<< returns its stream" );
    static vps::list e;
    e.n = 0;
    for( size_t r = 0; r < M; ++r )
    {
        e.ch( '|' );
        for( size_t c = 0; c < N; ++c )
        {
            e.val( a[ c * M + r ], 5, 10, right( st ));
            e.ch( ' ' );
        }
        e.ch( '|' );
        e.ch( '\n' );
    }
    vps::expect( o, e, "a matrix is printed row by row in columns of width 10 with 5 digits" );
    restored( s, st );
}

template< size_t M, class T > static void vect( vps::list& e, const T* a, const state& st )
{
    e.text( "[ " );
    for( size_t i = 0; i < M; ++i )
    {
        e.val( a[i], 5, 10, right( st ));
        e.ch( ' ' );
    }
    e.ch( ']' );
}

template< size_t M, class T > static void prv()
{
    Vector< M, T > v;
    T a[ M ];
    vu::vec( v, a, "v" );
    vps::out o;
    std::ostream& s = vps::os( o );
    const state st = arbitrary( s );
    s << v;
    static vps::list e;
    e.n = 0;
    vect< M >( e, a, st );
    vps::expect( o, e, "a vector is printed in brackets in columns of width 10 with 5 digits" );
    restored( s, st );
}

template< class T > static void prq()
{
    Quaternion< T > v;
    T a[ 4 ];
    for( int i = 0; i < 4; ++i )
        a[i] = v.array[i] = vp::inf_< T >( "q", i );
    vps::out o;
    std::ostream& s = vps::os( o );
    const state st = arbitrary( s );
    s << v;
    static vps::list e;
    e.n = 0;
    for( int i = 0; i < 4; ++i )
    {
        e.text( i ? ", " : "(" );
        e.val( a[i], st.prec, 0, st.flags );
    }
    e.text( ") " );
    vps::expect( o, e, "a quaternion is printed as (x, y, z, w) in the format of the stream" );
    restored( s, st );
}

template< class T > static void pra()
{
    T a[3], b[3];
    Vector< 3, T > lo, hi;
    vu::vec( lo, a, "lo" );
    vu::vec( hi, b, "hi" );
    const AABB< T > box( lo, hi );
    vps::out o;
    std::ostream& s = vps::os( o );
    const state st = arbitrary( s );
    s << box;
    static vps::list e;
    e.n = 0;
    vect< 3 >( e, a, st );
    e.text( " - " );
    vect< 3 >( e, b, st );
    vps::expect( o, e, "a box is printed as minimum - maximum" );
    restored( s, st );
}

template< class T > static void prf()
{
    T a[6];
    for( int i = 0; i < 6; ++i )
        a[i] = vp::inf_< T >( "f", i );
    const Frustum< T > f( a[0], a[1], a[2], a[3], a[4], a[5] );
    vps::out o;
    std::ostream& s = vps::os( o );
    const state st = arbitrary( s );
    s << f;
    static vps::list e;
    e.n = 0;
    e.ch( '[' );
    for( int i = 0; i < 6; ++i )
    {
        if( i )
            e.ch( ' ' );
        e.val( a[i], 5, 10, right( st ));
    }
    e.ch( ']' );
    vps::expect( o, e, "a frustum is printed as left, right, bottom, top, near, far" );
    restored( s, st );
}

VP_FP( visibility )
{
    const uint64_t k = vp_pick( "v", -1, 3 );
    vps::out o;
    std::ostream& s = vps::os( o );
    s << ( k == 0 ? VISIBILITY_NONE : k == 1 ? VISIBILITY_PARTIAL : VISIBILITY_FULL );
    static vps::list e;
    e.n = 0;
    e.text( k == 0 ? "not visible      " : k == 1 ? "partially visible" : "fully visible    " );
    vps::expect( o, e, "a visibility is printed in words" );
}

VP_FP( wts23f ) { wts< Matrix< 2, 3, float > >(); }
VP_FP( wts32d ) { wts< Matrix< 3, 2, double > >(); }
VP_FP( wts14i ) { wts< Matrix< 1, 4, int > >(); }
VP_FP( wts22u ) { wts< Matrix< 2, 2, unsigned > >(); }
VP_FP( wts3f ) { wts< Vector< 3, float > >(); }
VP_FP( wts5d ) { wts< Vector< 5, double > >(); }
VP_FP( wts2i ) { wts< Vector< 2, int > >(); }
VP_FP( rfs32f ) { rfs< Matrix< 3, 2, float > >(); }
VP_FP( rfs24d ) { rfs< Matrix< 2, 4, double > >(); }
VP_FP( rfs33i ) { rfs< Matrix< 3, 3, int > >(); }
VP_FP( rfs4f ) { rfs< Vector< 4, float > >(); }
VP_FP( rfs1d ) { rfs< Vector< 1, double > >(); }
VP_FP( seqmv ) { seq< Matrix< 2, 3, float >, Vector< 3, double > >(); }
VP_FP( seqvm ) { seq< Vector< 2, int >, Matrix< 2, 2, float > >(); }
VP_FP( prm23f ) { prm< 2, 3, float >(); }
VP_FP( prm32d ) { prm< 3, 2, double >(); }
VP_FP( prm44f ) { prm< 4, 4, float >(); }
VP_FP( prm13i ) { prm< 1, 3, int >(); }
VP_FP( prv3f ) { prv< 3, float >(); }
VP_FP( prv4d ) { prv< 4, double >(); }
VP_FP( prv1i ) { prv< 1, int >(); }
VP_FP( prqf ) { prq< float >(); }
VP_FP( prqd ) { prq< double >(); }
VP_FP( praf ) { pra< float >(); }
VP_FP( pri ) { pra< int >(); }
VP_FP( prff ) { prf< float >(); }
VP_FP( prfd ) { prf< double >(); }

// ---------------------------------------------------------------- files
struct names { char dir[8]; size_t nd; char name[8]; size_t nn; char path[32]; };
// an arbitrary directory name ( "", a, aa, a/, a/a, ... ) and file name; path is where the file should be
static void arbitrary( names& n, size_t nd, size_t nn, const char* suffix )
{
    n.nd = nd;
    for( size_t i = 0; i < n.nd; ++i )
    {
        const uint8_t c = vp_i8( "dir", int( i ));
        vp::assume( c == 'a' || ( c == '/' && i > 0 && n.dir[ i - 1 ] != '/' ));
        n.dir[i] = char( c );
    }
    n.dir[ n.nd ] = 0;
    n.nn = nn;
    for( size_t i = 0; i < n.nn; ++i )
    {
        const uint8_t c = vp_i8( "name", int( i ));
        vp::assume(( c >= 'a' && c <= 'z' ) || c == '.' );
        n.name[i] = char( c );
    }
    n.name[ n.nn ] = 0;
    size_t k = 0;
    for( size_t i = 0; i < n.nd; ++i )
        n.path[ k++ ] = n.dir[i];
    if( n.nd > 0 && n.dir[ n.nd - 1 ] != '/' )
        n.path[ k++ ] = '/';
    for( size_t i = 0; i < n.nn; ++i )
        n.path[ k++ ] = n.name[i];
    const bool has = n.nn >= 3 && n.name[ n.nn - 3 ] == suffix[0] && n.name[ n.nn - 2 ] == suffix[1] && n.name[ n.nn - 1 ] == suffix[2];
    if( !has )
    {
        n.path[ k++ ] = '.';
        for( int i = 0; i < 3; ++i )
            n.path[ k++ ] = suffix[i];
    }
    n.path[k] = 0;
}
static bool was( const char* path, const char* want )
{
    size_t i = 0;
    for( ; want[i]; ++i )
        if( path[i] != want[i] )
            return false;
    return path[i] == 0;
}

template< size_t M, size_t N, class T > static void wraw( size_t nd, size_t nn )
{
    Matrix< M, N, T > m;
    T a[ M * N ];
    for( size_t i = 0; i < M * N; ++i )
        a[i] = m.array[i] = vp::in< T >( "m", int( i ));
    names n;
    arbitrary( n, nd, nn, "raw" );
    scratch s;
#ifdef VP_NATIVE
    directories( n.dir );
    std::cout.setstate( std::ios::failbit );
    m.write_to_raw( n.dir, n.name );
    std::cout.clear();
    const std::string c = content( n.path );
    vp::check( c != "?", "write_to_raw() writes directory/name, with the suffix raw" );
    vp::check( c.size() == sizeof( a ) && !memcmp( c.data(), a, sizeof( a )), "the file holds the elements column by column" );
#else
    const uint64_t before = vp_live();
    m.write_to_raw( n.dir, n.name );
    vp::check( was( vps::g_file.path, n.path ), "write_to_raw() writes directory/name, with the suffix raw" );
    vp::check( vps::g_file.len == int( sizeof( a )), "the file holds the elements column by column" );
    for( size_t i = 0; i < M * N; ++i )
    {
        T x;
        memcpy( &x, vps::g_file.data + i * sizeof( T ), sizeof( T ));
        vp::check( memcmp( &x, a + i, sizeof( T )) == 0, "the file holds the elements column by column" );
    }
    vp::check( vp_live() == before, "write_to_raw() frees its memory" );
#endif
}

template< size_t M, size_t N, class T > static void rraw( size_t nd, size_t nn )
{
    names n;
    arbitrary( n, nd, nn, "raw" );
    vp::assume( n.nn >= 3 && n.name[ n.nn - 3 ] == 'r' && n.name[ n.nn - 2 ] == 'a' && n.name[ n.nn - 1 ] == 'w' );
    T a[ M * N ];
    Matrix< M, N, T > m, b;
    for( size_t i = 0; i < M * N; ++i )
        a[i] = vp::in< T >( "m", int( i ));
    for( size_t i = 0; i < M * N; ++i )
        b.array[i] = m.array[i] = vp::in< T >( "old", int( i ));
    const bool there = vp_pick( "there", -1, 2 ) != 0;
    scratch s;
    const std::string d( n.dir ), f( n.name );
#ifdef VP_NATIVE
    directories( n.dir );
    if( there )
        std::ofstream( n.path ).write( (const char*)a, sizeof( a ));
#else
    vps::g_file.can = there;
    memcpy( vps::g_file.data, a, sizeof( a ));
    vps::g_file.len = int( sizeof( a ));
#endif
    std::cout.setstate( std::ios::failbit );
    const uint64_t before = vp_live();
    m.read_from_raw( d, f );
    const uint64_t after = vp_live();
    std::cout.clear();
    vp::check( after == before, "read_from_raw() frees its memory" );
#ifndef VP_NATIVE
    vp::check( was( vps::g_file.path, n.path ), "read_from_raw() reads directory/name" );
#endif
    for( size_t i = 0; i < M * N; ++i )
        vp::check( memcmp( m.array + i, ( there ? a : b.array ) + i, sizeof( T )) == 0,
                   there ? "read_from_raw() restores the elements" : "without a file the matrix stays as it is" );
}

template< size_t M, size_t N, class T > static void csv( size_t nd, size_t nn )
{
    Matrix< M, N, T > m;
    T a[ M * N ];
    for( size_t i = 0; i < M * N; ++i )
        a[i] = m.array[i] = vp::inf_< T >( "m", int( i ));
    names n;
    arbitrary( n, nd, nn, "csv" );
    static vps::list e;
    e.n = 0;
    for( size_t r = 0; r < M; ++r )
    {
        e.ch( '|' );
        for( size_t c = 0; c < N; ++c )
        {
            e.val( a[ c * M + r ], 5, 10, DEF | int( std::ios_base::right ));
            e.ch( ' ' );
        }
        e.ch( '|' );
        e.ch( '\n' );
    }
    e.ch( '\n' );
    scratch s;
#ifdef VP_NATIVE
    directories( n.dir );
    m.write_csv_file( n.dir, n.name );
    const std::string c = content( n.path );
    vp::check( c != "?", "write_csv_file() writes directory/name, with the suffix csv" );
    vp::check( c == vps::render( e ), "the file holds the printed matrix" );
#else
    m.write_csv_file( n.dir, n.name );
    vp::check( was( vps::g_file.path, n.path ), "write_csv_file() writes directory/name, with the suffix csv" );
    vps::out* o = 0;
    vps::expect( *o, e, "the file holds the printed matrix" );
#endif
}

VP_FP( wraw23f03 ) { wraw< 2, 3, float >( 0, 3 ); }
VP_FP( wraw32d14 ) { wraw< 3, 2, double >( 1, 4 ); }
VP_FP( wraw22b35 ) { wraw< 2, 2, uint8_t >( 3, 5 ); }
VP_FP( wraw14i21 ) { wraw< 1, 4, int >( 2, 1 ); }
VP_FP( wraw11f32 ) { wraw< 1, 1, float >( 3, 2 ); }
VP_FP( rraw23f23 ) { rraw< 2, 3, float >( 2, 3 ); }
VP_FP( rraw32d04 ) { rraw< 3, 2, double >( 0, 4 ); }
VP_FP( rraw22b35 ) { rraw< 2, 2, uint8_t >( 3, 5 ); }
VP_FP( csv22f14 ) { csv< 2, 2, float >( 1, 4 ); }
VP_FP( csv12d33 ) { csv< 1, 2, double >( 3, 3 ); }
VP_FP( csv21i01 ) { csv< 2, 1, int >( 0, 1 ); }
VP_FP( wraw56f37 ) { wraw< 5, 6, float >( 3, 7 ); }
VP_FP( rraw65f37 ) { rraw< 6, 5, float >( 3, 7 ); }
VP_FP( prm67f ) { prm< 6, 7, float >(); }
VP_FP( wts76d ) { wts< Matrix< 7, 6, double > >(); }
VPT_FP( wts1011d ) { wts< Matrix< 10, 11, double > >(); }
VP_FP( prm11d ) { prm< 1, 1, double >(); }
VP_FP( prm21d ) { prm< 2, 1, double >(); }
VP_FP( prm22d ) { prm< 2, 2, double >(); }
VP_FP( prm33d ) { prm< 3, 3, double >(); }
VP_FP( prm14d ) { prm< 1, 4, double >(); }
VP_FP( prm41d ) { prm< 4, 1, double >(); }
VP_FP( wts11f ) { wts< Matrix< 1, 1, float > >(); }
VP_FP( wts31f ) { wts< Matrix< 3, 1, float > >(); }
VP_FP( wts33f ) { wts< Matrix< 3, 3, float > >(); }
VP_FP( wts24f ) { wts< Matrix< 2, 4, float > >(); }
VP_FP( wts42f ) { wts< Matrix< 4, 2, float > >(); }
