// planes (normal xyz, distance w) and spheres (center xyz, radius w)
//@ variant release -DNDEBUG
#include "vu.h"
using namespace vmml;

template< class T > static void plane_fn()
{
    Vector< 4, T > p;
    Vector< 3, T > x;
    T a[4], b[3];
    vu::vec( p, a, "plane" );
    vu::vec( x, b, "point" );
    const T d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3];
    vp::eq( p.distance_to_plane( x ), d, "distance_to_plane() is n . x + w" );
    const Vector< 3, T > r = p.project_point_onto_plane( x );
    for( size_t i = 0; i < 3; ++i )
        vp::eq( r.array[i], b[i] - d * a[i], "project_point_onto_plane() is x - distance * n", int( i ));
    // for a unit normal the projection lies on the plane
    const T q = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
    if( q == T( 1 ))
    {
        T e = a[3];
        for( size_t i = 0; i < 3; ++i )
            e += a[i] * r.array[i];
        vp::eq( e, T( 0 ), "the projected point lies on the plane" );
    }
    vu::same( p, a, "plane unchanged" );
    vu::same( x, b, "point unchanged" );
}

template< class T > static void plane_of()
{
    Vector< 3, T > p, q, r;
    T a[3], b[3], c[3];
    vu::vec( p, a, "a" );
    vu::vec( q, b, "b" );
    vu::vec( r, c, "c" );
    const T u[3] = { b[0] - a[0], b[1] - a[1], b[2] - a[2] }, w[3] = { c[0] - a[0], c[1] - a[1], c[2] - a[2] };
    const T e[3] = { w[1] * u[2] - w[2] * u[1], w[2] * u[0] - w[0] * u[2], w[0] * u[1] - w[1] * u[0] };
    const T q2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
    vp::assume( q2 != T( 0 ));
    const T l = std::sqrt( q2 );
    const Vector< 4, T > pl = compute_plane( p, q, r );
    // the convention the frustum culler builds on: the side from which a, b, c run clockwise is positive
    for( size_t i = 0; i < 3; ++i )
        vp::eq( pl.array[i] * l, e[i], "compute_plane(): unit normal along ( c - a ) x ( b - a )", int( i ));
    vp::eq( pl.array[3] * l, -( e[0] * a[0] + e[1] * a[1] + e[2] * a[2] ), "compute_plane(): a lies on the plane" );
    vp::eq( pl.array[3] * l, -( e[0] * b[0] + e[1] * b[1] + e[2] * b[2] ), "compute_plane(): b lies on the plane" );
    vp::eq( pl.array[3] * l, -( e[0] * c[0] + e[1] * c[1] + e[2] * c[2] ), "compute_plane(): c lies on the plane" );
}

template< class T > static void sphere_fn()
{
    Vector< 4, T > s;
    Vector< 3, T > x;
    T a[4], b[3];
    vu::vec( s, a, "sphere" );
    vu::vec( x, b, "point" );
    const T d[3] = { b[0] - a[0], b[1] - a[1], b[2] - a[2] };
    const T q = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
    const T l = std::sqrt( q );
    vp::eq( s.distance_to_sphere( x ), l - a[3], "distance_to_sphere() is |x - center| - radius" );
    vp::assume( q != T( 0 ));
    const Vector< 3, T > r = s.project_point_onto_sphere( x );
    for( size_t i = 0; i < 3; ++i )
        vp::eq(( r.array[i] - a[i] ) * l, d[i] * a[3], "project_point_onto_sphere(): radius away from the center towards x", int( i ));
    vu::same( s, a, "sphere unchanged" );
    vu::same( x, b, "point unchanged" );
}

VP_REAL( planef ) { plane_fn< float >(); }
VP_REAL( planed ) { plane_fn< double >(); }
VP_REAL( ofd ) { plane_of< double >(); }
VP_REAL( off ) { plane_of< float >(); }
VP_REAL( spheref ) { sphere_fn< float >(); }
VP_REAL( sphered ) { sphere_fn< double >(); }
