// Shared helpers for the harnesses: arbitrary vectors / matrices next to plain arrays the oracle works on.
#ifndef VU_H
#define VU_H
#include "vp.h"
#include <vmmlib/matrix.hpp>
#include <vmmlib/vector.hpp>

namespace vu
{
using vmml::Matrix;
using vmml::Vector;

// arbitrary finite elements; a[] is the reference copy
template< size_t M, class T > inline void vec( Vector< M, T >& v, T (&a)[M], const char* n )
{
    for( size_t i = 0; i < M; ++i )
        v.array[i] = a[i] = vp::inf_< T >( n, int( i ));
}
// the same with int elements of moderate size
template< size_t M, class T > inline void vecmod( Vector< M, T >& v, T (&a)[M], const char* n )
{
    for( size_t i = 0; i < M; ++i )
        v.array[i] = a[i] = vp::mod< T >( n, int( i ));
}
template< size_t M, size_t N, class T > inline void matmod( Matrix< M, N, T >& m, T (&a)[M][N], const char* n )
{
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            m.array[ c * M + r ] = a[r][c] = vp::mod< T >( n, int( r * N + c ));
}
// arbitrary elements that are numbers or infinities
template< size_t M, class T > inline void vecnn( Vector< M, T >& v, T (&a)[M], const char* n )
{
    for( size_t i = 0; i < M; ++i )
        v.array[i] = a[i] = vp::nn< T >( n, int( i ));
}
// arbitrary bit patterns
template< size_t M, class T > inline void vecany( Vector< M, T >& v, T (&a)[M], const char* n )
{
    for( size_t i = 0; i < M; ++i )
        v.array[i] = a[i] = vp::in< T >( n, int( i ));
}
// a[row][col], library storage is column major
template< size_t M, size_t N, class T > inline void mat( Matrix< M, N, T >& m, T (&a)[M][N], const char* n )
{
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            m.array[ c * M + r ] = a[r][c] = vp::inf_< T >( n, int( r * N + c ));
}
template< size_t M, size_t N, class T > inline void matnn( Matrix< M, N, T >& m, T (&a)[M][N], const char* n )
{
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            m.array[ c * M + r ] = a[r][c] = vp::nn< T >( n, int( r * N + c ));
}
template< size_t M, size_t N, class T > inline void matany( Matrix< M, N, T >& m, T (&a)[M][N], const char* n )
{
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            m.array[ c * M + r ] = a[r][c] = vp::in< T >( n, int( r * N + c ));
}
template< size_t M, class T > inline void same( const Vector< M, T >& v, const T (&a)[M], const char* l )
{
    for( size_t i = 0; i < M; ++i )
        vp::eq( v.array[i], a[i], l, int( i ));
}
template< size_t M, size_t N, class T > inline void same( const Matrix< M, N, T >& m, const T (&a)[M][N], const char* l )
{
    for( size_t r = 0; r < M; ++r )
        for( size_t c = 0; c < N; ++c )
            vp::eq( m.array[ c * M + r ], a[r][c], l, int( r * N + c ));
}
}
#endif
