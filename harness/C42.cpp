// C42: bounding boxes
//@ entry=points quick=3 thorough=4 real
//@ entry=boxes quick=1 thorough=1 real
//@ entry=single quick=1 thorough=1 real
//@ entry=floats quick=2 thorough=3
//@ bounds: up to 3 (thorough 4) points with any real coordinates and unions of two boxes built from up to 2 points each; float boxes over any non-NaN float values of 2 (thorough 3) points
//@ assume: no NaN coordinates
#include "oracle.h"
#include "flut/math/vec3.hpp"
#include "flut/math/bounding_box.hpp"
using namespace flut; using namespace flut::math;
typedef vec3_< double > V; typedef bounding_box_< double > B;
static V pt() { double a = vp_real( -1e6, 1e6, "x" ), b = vp_real( -1e6, 1e6, "y" ), c = vp_real( -1e6, 1e6, "z" ); return V( a, b, c ); }
// the box holds every point, and every face touches one
template< typename BB, typename VV > static void tight( const BB& b, const std::vector< VV >& p )
{
	for ( int k = 0; k < 3; ++k ) { int lo = 0, hi = 0; for ( auto& v : p ) { vp_assert( b.lower_bounds[ k ] <= v[ k ], "no point lies below the box" ); vp_assert( v[ k ] <= b.upper_bounds[ k ], "no point lies above the box" ); lo = vp_or( lo, b.lower_bounds[ k ] == v[ k ] ); hi = vp_or( hi, b.upper_bounds[ k ] == v[ k ] ); } vp_assert( lo, "the lower bound touches a point" ); vp_assert( hi, "the upper bound touches a point" ); }
}
VP_ENTRY( points ) { bool from = vp_choice( 2 ) != 0; size_t n = 1 + vp_choice( (unsigned)vp_param( 0 ) ); std::vector< V > p; for ( size_t i = 0; i < n; ++i ) p.push_back( pt() ); B b; if ( from ) b = B( p[ 0 ] ); for ( size_t i = from ? 1 : 0; i < n; ++i ) { B& r = ( b += p[ i ] ); vp_assert( &r == &b, "adding returns the box" ); } tight( b, p ); vp_reach( n > 1 ? "many" : "one" ); }
VP_ENTRY( boxes )
{
	std::vector< V > p; size_t n = vp_choice( 3 ), m = vp_choice( 3 ); if ( n + m == 0 ) return; B a, b; for ( size_t i = 0; i < n; ++i ) { p.push_back( pt() ); a += p.back(); } for ( size_t i = 0; i < m; ++i ) { p.push_back( pt() ); b += p.back(); } V bl = b.lower_bounds, bu = b.upper_bounds; B& r = ( a += b ); vp_assert( &r == &a, "adding returns the box" ); tight( a, p ); for ( int k = 0; k < 3; ++k ) vp_assert( vp_and( b.lower_bounds[ k ] == bl[ k ], b.upper_bounds[ k ] == bu[ k ] ), "the added box is left alone" ); B c = a; a += c; for ( int k = 0; k < 3; ++k ) vp_assert( vp_and( c.lower_bounds[ k ] == a.lower_bounds[ k ], c.upper_bounds[ k ] == a.upper_bounds[ k ] ), "adding itself changes nothing" ); vp_reach( n && m ? "union" : "one empty" );
}
VP_ENTRY( single ) { V p = pt(), q = pt(); B b( p ), c( p, q ); for ( int k = 0; k < 3; ++k ) { vp_assert( vp_and( b.lower_bounds[ k ] == p[ k ], b.upper_bounds[ k ] == p[ k ] ), "one point" ); vp_assert( vp_and( c.lower_bounds[ k ] == p[ k ], c.upper_bounds[ k ] == q[ k ] ), "given corners" ); } vp_reach( "end" ); }
static float fl( const char* n ) { uint32_t u = (uint32_t)vp_sym_bits( 32, n ); float f; memcpy( &f, &u, 4 ); vp_assume( f == f ); return f; }
VP_ENTRY( floats ) { bounding_box_< float > b; std::vector< vec3_< float > > p; for ( long i = 0; i < vp_param( 0 ); ++i ) { float a = fl( "a" ), c = fl( "b" ), d = fl( "c" ); vp_assume( vp_and( vp_and( a - a == 0, c - c == 0 ), d - d == 0 ) ); p.push_back( vec3_< float >( a, c, d ) ); b += p.back(); } tight( b, p ); vp_reach( "end" ); }
