// a scratch directory for the harnesses that write files; symbolically the one modelled file
#ifndef VP_FILES_H
#define VP_FILES_H
#include "vp_stream.h"
#ifdef VP_NATIVE
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>
#endif
#ifdef VP_NATIVE
static int rm_( const char* p, const struct stat*, int, struct FTW* ) { return ::remove( p ); }
struct scratch
{
    char d[64];
    scratch() { strcpy( d, "/tmp/vps_XXXXXX" ); if( !mkdtemp( d ) || chdir( d )) std::_Exit( 3 ); }
    ~scratch() { if( !chdir( "/" )) nftw( d, rm_, 8, FTW_DEPTH | FTW_PHYS ); }
};
static void directories( const std::string& d )
{
    for( size_t i = 1; i <= d.size(); ++i )
        if( i == d.size() || d[i] == '/' )
            mkdir( d.substr( 0, i ).c_str(), 0700 );
}
static std::string content( const char* path )
{
    std::ifstream f( path, std::ios::binary );
    std::ostringstream o;
    o << f.rdbuf();
    return f ? o.str() : std::string( "?" );
}
#else
struct scratch { scratch() { vps::g_file.len = 0; vps::g_file.plen = 0; vps::g_file.exists = false; vps::g_file.can = true; vps::g_out.n = 0;
    vps::fake( vpo__ZSt4cout, sizeof( vpo__ZSt4cout ), vps::g_vt_os ); }};
#endif
#endif
