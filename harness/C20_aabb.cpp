// axis aligned bounding box
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/aabb.hpp>
using namespace vmml;

template< class T > static void box( AABB< T >& b, T (&mn)[3], T (&mx)[3], const char* n, const char* x )
{
    Vector< 3, T > a, c;
    vu::vecnn( a, mn, n );
    vu::vecnn( c, mx, x );
    b = AABB< T >( a, c );
}
template< class T > static void is( const AABB< T >& b, const T (&mn)[3], const T (&mx)[3], const char* l )
{
    for( int i = 0; i < 3; ++i )
    {
        vp::eq( b.getMin().array[i], mn[i], l, i );
        vp::eq( b.getMax().array[i], mx[i], l, 3 + i );
    }
}
template< class T > static bool inside( const T (&mn)[3], const T (&mx)[3], const T (&p)[3], int n )
{
    bool r = true;
    for( int i = 0; i < n; ++i )
        r = r & ( p[i] >= mn[i] ) & ( p[i] <= mx[i] );
    return r;
}

template< class T > static void access()
{
    T mn[3], mx[3], p[3], q[3];
    AABB< T > b;
    box( b, mn, mx, "min", "max" );
    is( b, mn, mx, "AABB( min, max )" );
    Vector< 3, T > v, w;
    vu::vecnn( v, p, "p" );
    vu::vecnn( w, q, "q" );
    AABB< T > c( b );
    c.setMin( v );
    is( c, p, mx, "setMin() sets exactly the minimum" );
    c = b;
    c.setMax( v );
    is( c, mn, p, "setMax() sets exactly the maximum" );
    c.set( w, v );
    is( c, q, p, "set( min, max )" );
    c = b;
    c.getMin() = v;
    c.getMax() = w;
    is( c, p, q, "getMin() / getMax() give access" );
    is( b, mn, mx, "copies are independent" );
    vu::same( v, p, "operand unchanged" );
}

template< class T > static void contains()
{
    T mn[3], mx[3], p[3];
    AABB< T > b;
    box( b, mn, mx, "min", "max" );
    Vector< 3, T > v;
    vu::vecnn( v, p, "p" );
    vp::check( b.isIn( v ) == inside( mn, mx, p, 3 ), "isIn() exactly when within all three ranges" );
    vp::check( b.isIn2d( v ) == inside( mn, mx, p, 2 ), "isIn2d() exactly when within the x and y range" );
    vp::check( b.isEmpty() == (( mn[0] >= mx[0] ) | ( mn[1] >= mx[1] ) | ( mn[2] >= mx[2] )),
               "isEmpty() exactly when an extent is not positive" );
    is( b, mn, mx, "queries leave the box unchanged" );
    vu::same( v, p, "operand unchanged" );
}

template< class T > static void merges()
{
    T mn[3], mx[3], on[3], ox[3], en[3], ex[3];
    AABB< T > b, o;
    box( b, mn, mx, "min", "max" );
    box( o, on, ox, "omin", "omax" );
    for( int i = 0; i < 3; ++i )
    {
        en[i] = on[i] < mn[i] ? on[i] : mn[i];
        ex[i] = ox[i] > mx[i] ? ox[i] : mx[i];
    }
    b.merge( o );
    is( b, en, ex, "merge( box ) is the hull of both" );
    is( o, on, ox, "operand unchanged" );
}
template< class T > static void merge_in()
{
    T mn[3], mx[3], on[3], ox[3], p[3];
    AABB< T > b, o;
    box( b, mn, mx, "min", "max" );
    box( o, on, ox, "omin", "omax" );
    Vector< 3, T > v;
    vu::vecnn( v, p, "p" );
    vp::assume( inside( mn, mx, p, 3 ) | inside( on, ox, p, 3 ));
    b.merge( o );
    vp::check( b.isIn( v ), "a point of either box is in the merged box" );
}
template< class T > static void merge_self()
{
    T mn[3], mx[3];
    AABB< T > b;
    box( b, mn, mx, "min", "max" );
    b.merge( b );
    is( b, mn, mx, "merging a box with itself" );
}
template< class T > static void merge_point()
{
    T mn[3], mx[3], p[3], en[3], ex[3];
    AABB< T > b;
    box( b, mn, mx, "min", "max" );
    Vector< 3, T > v;
    vu::vecnn( v, p, "p" );
    for( int i = 0; i < 3; ++i )
    {
        en[i] = p[i] < mn[i] ? p[i] : mn[i];
        ex[i] = p[i] > mx[i] ? p[i] : mx[i];
    }
    b.merge( v );
    is( b, en, ex, "merge( point ) is the hull of box and point" );
    vp::check( b.isIn( v ), "the merged point is in the box" );
    vu::same( v, p, "operand unchanged" );
}

template< class T > static void ordered( AABB< T >& b, T (&mn)[3], T (&mx)[3] )
{
    for( int i = 0; i < 3; ++i )
    {
        b.getMin().array[i] = mn[i] = vp::inf_< T >( "min", i );
        b.getMax().array[i] = mx[i] = vp::inf_< T >( "max", i );
        vp::assume( mn[i] <= mx[i] );
    }
}
template< class T > static void empty()
{
    T p[3];
    AABB< T > o;
    vp::check( o.isEmpty(), "AABB() is empty" );
    Vector< 3, T > v;
    vu::vec( v, p, "p" );
    vp::check( !o.isIn( v ), "nothing is in an empty box" );
    o.merge( v );
    is( o, p, p, "an empty box merged with a point is the point" );
    AABB< T > u = AABB< T >::makeUnitBox();
    const T z[3] = { T( 0 ), T( 0 ), T( 0 ) }, one[3] = { T( 1 ), T( 1 ), T( 1 ) };
    is( u, z, one, "makeUnitBox()" );
}
template< class T > static void set_empty()
{
    T mn[3], mx[3], p[3];
    AABB< T > b;
    box( b, mn, mx, "min", "max" );
    Vector< 3, T > v;
    vu::vec( v, p, "p" );
    b.setEmpty();
    vp::check( b.isEmpty(), "setEmpty()" );
    vp::check( !b.isIn( v ), "nothing is in an emptied box" );
}
template< class T > static void merge_empty()
{
    T mn[3], mx[3];
    AABB< T > b, c;
    ordered( b, mn, mx );
    b.merge( c );
    is( b, mn, mx, "merging an empty box changes nothing" );
}
template< class T > static void empty_merge()
{
    T mn[3], mx[3];
    AABB< T > b, c;
    ordered( b, mn, mx );
    c.setEmpty();
    c.merge( b );
    is( c, mn, mx, "an empty box merged with a box is that box" );
    is( b, mn, mx, "operand unchanged" );
}

template< class T > static void arith()
{
    T mn[3], mx[3], en[3], ex[3];
    AABB< T > b;
    for( int i = 0; i < 3; ++i )
    {
        b.getMin().array[i] = mn[i] = vp::mod< T >( "min", i );
        b.getMax().array[i] = mx[i] = vp::mod< T >( "max", i );
    }
    const T s = vp::mod< T >( "s" );
    AABB< T > c( b );
#define OP( op, lab ) \
    for( int i = 0; i < 3; ++i ) { en[i] = mn[i] op s; ex[i] = mx[i] op s; } \
    is( b op s, en, ex, "box " lab " value" ); \
    is( b, mn, mx, "the left operand is unchanged" ); \
    c = b; c op##= s; is( c, en, ex, "box " lab "= value" );
    OP( +, "+" )
    OP( -, "-" )
    OP( *, "*" )
    if( s != T( 0 ))
    {
        OP( /, "/" )
    }
#undef OP
    for( int i = 0; i < 3; ++i )
    {
        vp::eq( b.getDimension().array[i], T( mx[i] - mn[i] ), "getDimension() is max - min", i );
    }
}

// the operand is a component or corner of the box itself
template< class T > static void arith_alias()
{
    T mn[3], mx[3];
    AABB< T > b;
    for( int i = 0; i < 3; ++i )
    {
        b.getMin().array[i] = mn[i] = vp::mod< T >( "min", i );
        b.getMax().array[i] = mx[i] = vp::mod< T >( "max", i );
    }
    const uint64_t how = vp_pick( "op", -1, 4 ), k = vp_pick( "k", -1, 3 );
    const bool hi = vp_bool( "hi", -1 );
    const T s = hi ? mx[k] : mn[k];
    const T& r = hi ? b.getMax().array[k] : b.getMin().array[k];
    if( how == 3 )
        vp::assume( s != T( 0 ));
    switch( how )
    {
      case 0: b += r; break;
      case 1: b -= r; break;
      case 2: b *= r; break;
      default: b /= r; break;
    }
    for( int i = 0; i < 3; ++i )
    {
        mn[i] = how == 0 ? mn[i] + s : how == 1 ? mn[i] - s : how == 2 ? mn[i] * s : mn[i] / s;
        mx[i] = how == 0 ? mx[i] + s : how == 1 ? mx[i] - s : how == 2 ? mx[i] * s : mx[i] / s;
    }
    is( b, mn, mx, "box op= component of the box" );
}
template< class T > static void merge_corner()
{
    T mn[3], mx[3];
    AABB< T > b;
    box( b, mn, mx, "min", "max" );
    const bool hi = vp_bool( "hi", -1 );
    b.merge( hi ? b.getMax() : b.getMin( ));
    for( int i = 0; i < 3; ++i )
    {
        const T p = hi ? mx[i] : mn[i];
        mx[i] = p > mx[i] ? p : mx[i];
        mn[i] = p < mn[i] ? p : mn[i];
    }
    is( b, mn, mx, "merging a box with its own corner" );
}

template< class T > static void center()
{
    T mn[3], mx[3], c[3];
    AABB< T > b;
    for( int i = 0; i < 3; ++i )
    {
        b.getMin().array[i] = mn[i] = vp::mod< T >( "min", i );
        b.getMax().array[i] = mx[i] = vp::mod< T >( "max", i );
        c[i] = vp::mod< T >( "c", i );
    }
    for( int i = 0; i < 3; ++i )
        vp::eq( b.getCenter().array[i] * T( 2 ), T( mn[i] + mx[i] ), "getCenter() is the middle of the box", i );
    is( b, mn, mx, "center and dimension leave the box unchanged" );
    const T s = vp::mod< T >( "size" );
    const T en[3] = { c[0] - s, c[1] - s, c[2] - s }, ex[3] = { c[0] + s, c[1] + s, c[2] + s };
    is( AABB< T >( c[0], c[1], c[2], s ), en, ex, "AABB( center, size )" );
    AABB< T > d( b );
    d.set( c[0], c[1], c[2], s );
    is( d, en, ex, "set( center, size )" );
}

// a box that was queried before answers later queries like a new box of the same corners
template< class T > static void reuse()
{
    T mn[3], mx[3], on[3], ox[3], p[3];
    AABB< T > b, o;
    box( b, mn, mx, "min", "max" );
    box( o, on, ox, "omin", "omax" );
    Vector< 3, T > v;
    vu::vecnn( v, p, "p" );
    const T s = vp::mod< T >( "s" );
    b.getCenter();
    b.getDimension();
    b.isEmpty();
    switch( vp_pick( "op", -1, 9 ))
    {
      case 0: b.setMin( v ); break;
      case 1: b.setMax( v ); break;
      case 2: b.set( v, o.getMin( )); break;
      case 3: b.set( p[0], p[1], p[2], s ); break;
      case 4: b.merge( v ); break;
      case 5: b += s; break;
      case 6: b -= s; break;
      case 7: b *= s; break;
      default: b = o; break;
    }
    const AABB< T > f( Vector< 3, T >( b.getMin().array[0], b.getMin().array[1], b.getMin().array[2] ),
                       Vector< 3, T >( b.getMax().array[0], b.getMax().array[1], b.getMax().array[2] ));
    for( int i = 0; i < 3; ++i )
    {
        vp::eq( b.getCenter().array[i], f.getCenter().array[i], "a box used before: getCenter()", i );
        vp::eq( b.getDimension().array[i], f.getDimension().array[i], "a box used before: getDimension()", i );
    }
    vp::check( b.isEmpty() == f.isEmpty(), "a box used before: isEmpty()" );
    vp::check( b == f, "a box used before: ==" );
}

VP_REAL( reusef ) { reuse< float >(); }
VP_REAL( reused ) { reuse< double >(); }
VP_REAL( aliasf ) { arith_alias< float >(); }
VP_REAL( aliasi ) { arith_alias< int >(); }
VP_FP( cornerf ) { merge_corner< float >(); }
VP_FP( accessf ) { access< float >(); }
VP_FP( accessd ) { access< double >(); }
VP_FP( containsf ) { contains< float >(); }
VP_FP( containsd ) { contains< double >(); }
VP_FP( containsi ) { contains< int >(); }
VP_FP( mergef ) { merges< float >(); }
VP_FP( merged ) { merges< double >(); }
VP_FP( mergei ) { merges< int >(); }
VP_REAL( minf ) { merge_in< float >(); }
VP_REAL( mind ) { merge_in< double >(); }
VP_FP( mini ) { merge_in< int >(); }
VP_FP( selff ) { merge_self< float >(); }
VP_FP( selfd ) { merge_self< double >(); }
VP_FP( memptyf ) { merge_empty< float >(); }
VP_FP( memptyd ) { merge_empty< double >(); }
VP_FP( emergef ) { empty_merge< float >(); }
VP_FP( emerged ) { empty_merge< double >(); }
VP_FP( sempf ) { set_empty< float >(); }
VP_FP( sempd ) { set_empty< double >(); }
VP_FP( pointf ) { merge_point< float >(); }
VP_FP( pointd ) { merge_point< double >(); }
VP_FP( emptyf ) { empty< float >(); }
VP_FP( emptyd ) { empty< double >(); }
VP_REAL( arithf ) { arith< float >(); }
VP_REAL( arithd ) { arith< double >(); }
VP_REAL( arithi ) { arith< int >(); }
VP_REAL( centerf ) { center< float >(); }
VP_REAL( centerd ) { center< double >(); }
