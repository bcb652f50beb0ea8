// memory: files, also when they cannot be opened
//@ variant release -DNDEBUG
//@ flags -DVP_BALANCE -include vp_noextern.h
#include "vu.h"
#include "vp_files.h"
#include <vmmlib/vmmlib.hpp>
using namespace vmml;

template< size_t M, size_t N, class T > static void files()
{
    Matrix< M, N, T > m;
    T a[M][N];
    vu::mat( m, a, "m" );
    const bool there = vp_pick( "there", -1, 2 ) != 0;
    const uint64_t what = vp_pick( "what", -1, 3 );
    scratch s;
    const std::string d( "x" ), f( "f.raw" ), c( "f.csv" );
#ifdef VP_NATIVE
    if( there )
    {
        directories( d );
        std::ofstream( "x/f.raw" ).write( (const char*)a, sizeof( a ));
    }
#else
    vps::g_file.can = there;
    vps::g_file.len = int( sizeof( a ));
#endif
    std::cout.setstate( std::ios::failbit );
    switch( what )
    {
      case 0: vp::threads( [&] { m.write_to_raw( d, f ); } ); break;
      case 1: vp::threads( [&] { m.read_from_raw( d, f ); } ); break;
      default: vp::threads( [&] { m.write_csv_file( d, c ); } );
    }
    std::cout.clear();
}
VP_FP( fl23f ) { files< 2, 3, float >(); }
VP_FP( fl32d ) { files< 3, 2, double >(); }
VP_FP( fl14b ) { files< 1, 4, uint8_t >(); }
