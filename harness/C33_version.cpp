// version macros: the order of releases.  The template the build fills in is included as it is; the numbers become symbolic
//@ variant release -DNDEBUG
#include "vu.h"
#include <vmmlib/version.in.hpp>
#undef VMMLIB_VERSION_MAJOR
#undef VMMLIB_VERSION_MINOR
#undef VMMLIB_VERSION_PATCH
#define VMMLIB_VERSION_MAJOR a[0]
#define VMMLIB_VERSION_MINOR a[1]
#define VMMLIB_VERSION_PATCH a[2]

// -1, 0, 1: a is older, the same, newer
static int order( const int* a, const int* b )
{
    for( int i = 0; i < 3; ++i )
        if( a[i] != b[i] )
            return a[i] < b[i] ? -1 : 1;
    return 0;
}
static void draw( int* v, const char* n ) { for( int i = 0; i < 3; ++i ) v[i] = vp::in< int >( n, i ); }

VP_FP( order )
{
    int a[3], b[3];
    draw( a, "have" );
    draw( b, "asked" );
    const int o = order( a, b );
    vp::check( ( VMMLIB_VERSION_GT( b[0], b[1], b[2] )) == ( o > 0 ), "VMMLIB_VERSION_GT: newer than the given version" );
    vp::check( ( VMMLIB_VERSION_GE( b[0], b[1], b[2] )) == ( o >= 0 ), "VMMLIB_VERSION_GE: the given version or newer" );
    vp::check( ( VMMLIB_VERSION_LT( b[0], b[1], b[2] )) == ( o < 0 ), "VMMLIB_VERSION_LT: older than the given version" );
    vp::check( ( VMMLIB_VERSION_LE( b[0], b[1], b[2] )) == ( o <= 0 ), "VMMLIB_VERSION_LE: the given version or older" );
}
// a macro stays one operand of what surrounds it
VP_FP( operand )
{
    int a[3], b[3];
    draw( a, "have" );
    draw( b, "asked" );
    const bool flag = vp::in< bool >( "flag" );
    const int o = order( a, b );
    const bool not_gt = !VMMLIB_VERSION_GT( b[0], b[1], b[2] ), and_gt = flag && VMMLIB_VERSION_GT( b[0], b[1], b[2] ) && flag;
    vp::check( not_gt == ( o <= 0 ), "!VMMLIB_VERSION_GT" );
    vp::check( and_gt == ( flag && !( o <= 0 )), "flag && VMMLIB_VERSION_GT && flag" );
    const bool not_ge = !VMMLIB_VERSION_GE( b[0], b[1], b[2] ), and_ge = flag && VMMLIB_VERSION_GE( b[0], b[1], b[2] ) && flag;
    vp::check( not_ge == ( o < 0 ), "!VMMLIB_VERSION_GE" );
    vp::check( and_ge == ( flag && !( o < 0 )), "flag && VMMLIB_VERSION_GE && flag" );
    const bool not_lt = !VMMLIB_VERSION_LT( b[0], b[1], b[2] ), and_lt = flag && VMMLIB_VERSION_LT( b[0], b[1], b[2] ) && flag;
    vp::check( not_lt == ( o >= 0 ), "!VMMLIB_VERSION_LT" );
    vp::check( and_lt == ( flag && !( o >= 0 )), "flag && VMMLIB_VERSION_LT && flag" );
    const bool not_le = !VMMLIB_VERSION_LE( b[0], b[1], b[2] ), and_le = flag && VMMLIB_VERSION_LE( b[0], b[1], b[2] ) && flag;
    vp::check( not_le == ( o > 0 ), "!VMMLIB_VERSION_LE" );
    vp::check( and_le == ( flag && !( o > 0 )), "flag && VMMLIB_VERSION_LE && flag" );
}
