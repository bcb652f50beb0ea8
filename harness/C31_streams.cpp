// threads that print and parse through streams of their own: the objects printed are shared
//@ keep stores
//@ variant release -DNDEBUG
//@ flags -include vp_noextern.h
#include "vu.h"
#include "vp_stream.h"
#include <vmmlib/vmmlib.hpp>
using namespace vmml;

template< class C > static void streaming( const C& c )
{
    vp::threads( [&] {
        vps::out o;
        vps::os( o ) << c;
        c.write_to_stream( vps::os( o ));
    } );
}
template< class C > static void printing( const C& c )
{
    vp::threads( [&] {
        vps::out o;
        vps::os( o ) << c;
    } );
}
template< class C > static void reading( const C& c )
{
    vp::threads( [&] {
        vps::out o;
        vps::in i;
        vps::os( o ) << c;
        C r;
        vps::feed( i, o );
        r.read_from_stream( vps::is( i ));
    } );
}

VP_FP( osm ) { Matrix< 2, 2, float > m; float a[2][2]; vu::mat( m, a, "m" ); streaming( m ); }
VP_FP( osv ) { Vector< 3, double > v; double a[3]; vu::vec( v, a, "v" ); streaming( v ); }
VP_FP( ism ) { Matrix< 2, 2, float > m; float a[2][2]; vu::mat( m, a, "m" ); reading( m ); }
VP_FP( isv ) { Vector< 3, double > v; double a[3]; vu::vec( v, a, "v" ); reading( v ); }
VP_FP( osq ) { Quaternion< double > q; for( int i = 0; i < 4; ++i ) q.array[i] = vp::inf_< double >( "q", i ); printing( q ); }
VP_FP( osf ) { Frustum< float > f; for( int i = 0; i < 6; ++i ) f.array[i] = vp::inf_< float >( "f", i ); printing( f ); }
VP_FP( osb ) { Vector< 3, float > v; float a[3]; vu::vec( v, a, "v" ); const AABB< float > b( v, v ); printing( b ); }
