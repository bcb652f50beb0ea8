// stand-in for the header of Boost.LA (not shipped with Boost any more): the primary template that vmmlib specialises
#pragma once
#ifndef VP_BOOST_LA
#define VP_BOOST_LA
#define BOOST_STATIC_ASSERT( x ) static_assert( x, #x )
#define BOOST_ASSERT( x ) (( x ) ? (void)0 : boost::assertion_failed( #x ))
namespace boost
{
struct asserted {};
inline void assertion_failed( const char* ) { throw asserted(); }
}
#endif
namespace boost
{
namespace la { template< class T > struct matrix_traits; }
}
