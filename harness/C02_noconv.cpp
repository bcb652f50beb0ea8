// the configuration without conversion operators: Vector::operator[] is checked like at()
//@ flags -DVMMLIB_NO_CONVERSION_OPERATORS
#include "vu.h"
using namespace vmml;

template< size_t M, class T > static void vec_noconv()
{
    Vector< M, T > v;
    T a[M];
    vu::vecany( v, a, "v" );
    const Vector< M, T >& cv = v;
    const size_t i = vp::in< uint64_t >( "i" );
    const T n = vp::in< T >( "n" );
    bool thrown;
    T got = T();
    const uint64_t how = vp_pick( "how", -1, 3 );
    if( how == 0 ) VP_THROWS( thrown, got = v[ i ] );
    else if( how == 1 ) VP_THROWS( thrown, got = cv[ i ] );
    else VP_THROWS( thrown, v[ i ] = n );
    vp::check( thrown == !( i < M ), "operator[] throws exactly when the component does not exist" );
    for( size_t k = 0; k < M; ++k )
        vp::eq( v.array[ k ], how == 2 && k == i ? n : a[ k ], "no other component changes", int( k ));
    if( how < 2 && i < M )
        vp::eq( got, a[ i ], "the component read" );
}

VP_FP( nc4f ) { vec_noconv< 4, float >(); }
VP_FP( nc3i ) { vec_noconv< 3, int >(); }
VP_FP( nc5d ) { vec_noconv< 5, double >(); }
