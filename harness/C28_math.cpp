// scalar helpers
//@ variant release -DNDEBUG
//@ opt range absfp=2
#include "vu.h"
#include <vmmlib/math.hpp>
#include <vmmlib/util.hpp>
using namespace vmml;

template< class T > static void pyth()
{
    const T a = vp::inf_< T >( "a" ), b = vp::inf_< T >( "b" );
    const T r = math::pythag( a, b );
    vp::check( r >= T( 0 ), "pythag() >= 0" );
    vp::eq( r * r, a * a + b * b, "pythag() squared is the sum of squares" );
    vp::eq( math::squared( a ), a * a, "squared()" );
}
template< class T > static void signs()
{
    const T a = vp::nn< T >( "a" ), b = vp::nn< T >( "b" );
    const T m = a < T( 0 ) ? -a : a;
    const T r = math::sign( a, b );
    vp::check( r == ( b >= T( 0 ) ? m : -m ), "sign( a, b ) is |a| with the sign of b" );
    const T n = b < T( 0 ) ? -b : b;
    vp::check( math::abs_less< T >()( a, b ) == ( m < n ), "abs_less" );
    vp::check( math::abs_greater< T >()( a, b ) == ( m > n ), "abs_greater" );
}
// whole numbers: the lowest value has no magnitude of its type
template< class T > static void isigns()
{
    const T a = vp::in< T >( "a" ), b = vp::in< T >( "b" );
    vp::assume( ( a != std::numeric_limits< T >::min( )) & ( b != std::numeric_limits< T >::min( )));
    const T m = a < 0 ? -a : a, n = b < 0 ? -b : b;
    vp::check( math::sign( a, b ) == ( b >= 0 ? m : -m ), "sign( a, b ) of whole numbers" );
    vp::check(( math::abs_less< T >()( a, b ) != 0 ) == ( m < n ), "abs_less of whole numbers" );
    vp::check(( math::abs_greater< T >()( a, b ) != 0 ) == ( m > n ), "abs_greater of whole numbers" );
}
VP_FP( signi ) { isigns< int >(); }
VP_FP( signl ) { isigns< int64_t >(); }
VP_FP( signs ) { isigns< short >(); }
template< class T > static void eqs()
{
    const T a = vp::nn< T >( "a" ), b = vp::nn< T >( "b" );
    const T d = a - b;
    vp::check( vmml::equals( a, b ) == (( d < T( std::numeric_limits< float >::epsilon( ))) &
                                        ( d > -T( std::numeric_limits< float >::epsilon( )))),
               "equals( a, b ) exactly when they differ by less than the float epsilon" );
}
VP_REAL( pythf ) { pyth< float >(); }
VP_REAL( pythd ) { pyth< double >(); }
VP_FP( signf ) { signs< float >(); }
VP_FP( signd ) { signs< double >(); }
VP_FP( eqf ) { eqs< float >(); }
VP_FP( eqd ) { eqs< double >(); }

// without destructive underflow or overflow: whenever the root itself can be represented
template< class T > static void range()
{
    const T a = vp::inf_< T >( "a" ), b = vp::inf_< T >( "b" );
    const T big = std::numeric_limits< T >::max() / T( 2 );
    const T m = vp::absv( a ), n = vp::absv( b ), h = m > n ? m : n;
    vp::assume( h <= big );
    const T r = math::pythag( a, b );
    vp::check( r >= h, "pythag() is no less than the magnitude of either operand, however small" );
    vp::check( r <= h + h || h < std::numeric_limits< T >::min(), "pythag() does not overflow while the root can be represented" );
}
VP_FP( rangef ) { range< float >(); }
VP_FP( ranged ) { range< double >(); }
