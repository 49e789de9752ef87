// C27: interpolation
//@ entry=keyed quick=4 thorough=6 real
//@ entry=indexed quick=4 thorough=7 real
//@ entry=far quick=4 thorough=7 real
//@ entry=piecewise quick=3 thorough=6 real
//@ entry=piecewise_range quick=1;2;4 thorough=1;2;4;8 real
//@ entry=stored quick=3 thorough=5 real
//@ entry=spline quick=1 thorough=1 real
//@ entry=spline_alpha quick=1 thorough=1 real
//@ entry=spline_path quick=5 thorough=7 real
//@ entry=spline_length quick=4 thorough=8 real
//@ bounds: 1 to 4 samples (thorough 6-7) with any strictly increasing real keys and any real values, any key; nine keys far outside; piecewise linear functions with up to 3 intervals and any range, and 1, 2, 4 intervals with any function values (thorough 8); splines with any real control points (one dimension), any monotone points for the uniform parametrisation (alpha 1), paths of 5 control points (thorough 7)
//@ assume: storage interpolation is only asked for before the last frame (its own check); exact real arithmetic, floating-point rounding is outside
#include "oracle.h"
#include "flut/system/types.hpp"
#include <algorithm>
#include "flut/buffer/interpolation.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/storage.hpp"
namespace flut { inline double distance( double a, double b ) { return a < b ? b - a : a - b; } }
#include "flut/math/catmull_rom.hpp"
using namespace flut;
static double sc( const char* n ) { return vp_real( -1000, 1000, n ); }
VP_ENTRY( keyed )
{
	unsigned n = 1 + vp_choice( vp_param( 0 ) ); std::vector< std::pair< double, double > > s; for ( unsigned i = 0; i < n; ++i ) { double k = sc( "k" ), v = sc( "v" ); if ( i ) vp_assume( k > s[ i - 1 ].first + ( vp_symbolic() ? 0 : 1e-6 ) ); s.push_back( { k, v } ); }
	unsigned j = vp_choice( n ); vp_assert( vp_near( interpolated_value( s, s[ j ].first ), s[ j ].second ), "exact at a sample" ); double x = sc( "x" ), r = interpolated_value( s, x );
	if ( x <= s[ 0 ].first ) { vp_assert( r == s[ 0 ].second, "the first sample before the range" ); vp_reach( "before" ); return; } if ( x >= s[ n - 1 ].first ) { vp_assert( vp_near( r, s[ n - 1 ].second ), "the last sample after the range" ); vp_reach( "after" ); return; }
	for ( unsigned i = 1; i < n; ++i ) if ( x < s[ i ].first ) { double a = s[ i - 1 ].second, b = s[ i ].second, d = s[ i ].first - s[ i - 1 ].first; vp_assert( vp_near( ( r - a ) * d, ( b - a ) * ( x - s[ i - 1 ].first ) ), "on the straight line between the neighbours" ); double e = vp_symbolic() ? 0 : 1e-6; vp_assert( vp_or( vp_and( r >= a - e, r <= b + e ), vp_and( r <= a + e, r >= b - e ) ), "between the neighbours" ); vp_reach( "between" ); return; }
}
VP_ENTRY( indexed )
{
	unsigned n = 1 + vp_choice( vp_param( 0 ) ); std::vector< double > v; for ( unsigned i = 0; i < n; ++i ) v.push_back( sc( "v" ) ); unsigned j = vp_choice( n ); vp_assert( vp_near( interpolated_value( v, double( j ) ), v[ j ] ), "exact at a sample" ); double x = vp_real( -3, n + 2, "x" ), r = interpolated_value( v, x );
	if ( x <= 0 ) { vp_assert( vp_near( r, v[ 0 ] ), "the first sample before the range" ); vp_reach( "before" ); return; } if ( x >= n - 1 ) { vp_assert( vp_near( r, v[ n - 1 ] ), "the last sample after the range" ); vp_reach( "after" ); return; }
	for ( unsigned i = 1; i < n; ++i ) if ( x < i ) { double a = v[ i - 1 ], b = v[ i ]; vp_assert( vp_near( r, a + ( b - a ) * ( x - ( i - 1.0 ) ) ), "on the straight line between the neighbours" ); vp_reach( "between" ); return; }
}
// keys far outside
VP_ENTRY( far )
{
	static const double F[] = { 100, 65536, 65536.5, 2147483648.0, 4294967296.0, 4294967296.25, 4294967297.0, 1e12, 1e18 }; unsigned n = 1 + vp_choice( vp_param( 0 ) ); std::vector< double > v; std::vector< std::pair< double, double > > s; for ( unsigned i = 0; i < n; ++i ) { v.push_back( sc( "v" ) ); s.push_back( { i * 1.0, v.back() } ); } double x = F[ vp_choice( 9 ) ]; vp_assert( vp_near( interpolated_value( v, x ), v[ n - 1 ] ) && vp_near( interpolated_value( s, x ), v[ n - 1 ] ), "the last sample far after the range" ); vp_assert( vp_near( interpolated_value( v, -x ), v[ 0 ] ) && vp_near( interpolated_value( s, -x ), v[ 0 ] ), "the first sample far before the range" ); vp_reach( "end" );
}
// any range, an arbitrary quadratic function
VP_ENTRY( piecewise )
{
	int n = 1 + vp_choice( vp_param( 0 ) ); double lo = sc( "lo" ), w = vp_real( 0.5, 100, "w" ), a = sc( "a" ), b = vp_real( -10, 10, "b" ); int calls = 0; math::regular_piecewise_linear_function< double > f( lo, lo + w, n, [&]( double x ) { ++calls; return a + b * x; } );
	vp_assert( calls == n + 1, "the function is sampled once per grid point" ); unsigned j = vp_choice( n + 1 ); double g = lo + j * ( w / n ); vp_assert( vp_near( f( g ), a + b * g, 1e-4 ), "exact at a grid point" ); vp_reach( "end" );
}
VP_ENTRY( piecewise_range )
{
	int n = vp_param( 0 ); std::vector< double > v; for ( int i = 0; i <= n; ++i ) v.push_back( sc( "v" ) ); double lo = vp_choice( 2 ) ? -2 : 3, st = vp_choice( 2 ) ? 0.5 : 4; int k = 0; math::regular_piecewise_linear_function< double > f( lo, lo + n * st, n, [&]( double x ) { vp_assert( x == lo + k * st, "the grid points are sampled in order" ); return v[ k++ ]; } );
	unsigned j = vp_choice( n + 1 ); vp_assert( vp_near( f( lo + j * st ), v[ j ] ), "exact at a grid point" ); double x = vp_real( lo, lo + n * st, "x" ), r = f( x ); for ( int i = 1; i <= n; ++i ) if ( x <= lo + i * st ) { double a = v[ i - 1 ], b = v[ i ]; vp_assert( vp_near( ( r - a ) * st, ( b - a ) * ( x - ( lo + ( i - 1 ) * st ) ) ), "on the straight line between grid points" ); vp_reach( "between" ); return; }
}
VP_ENTRY( stored )
{
	unsigned n = 2 + vp_choice( vp_param( 0 ) - 1 ); storage< double > s; s.add_channel( "a" ); s.add_channel( "b" ); std::vector< double > v[ 2 ]; for ( unsigned i = 0; i < n; ++i ) { s.add_frame(); for ( int c = 0; c < 2; ++c ) { double x = sc( "v" ); v[ c ].push_back( x ); s( i, c ) = x; } }
	unsigned c = vp_choice( 2 ), j = vp_choice( n - 1 ); vp_assert( vp_near( s.get_interpolated_value( double( j ), c ), v[ c ][ j ] ), "exact at a frame" ); double x = vp_real( 0, n - 1.0, "x" ); vp_assume( x < n - 1.0 ); double r = s.get_interpolated_value( x, c ); for ( unsigned i = 1; i < n; ++i ) if ( x <= i ) { double a = v[ c ][ i - 1 ], b = v[ c ][ i ]; vp_assert( vp_near( r, a + ( b - a ) * ( x - ( i - 1.0 ) ) ), "on the straight line between frames" ); vp_reach( "between" ); return; }
}
VP_ENTRY( spline )
{
	double p[ 4 ]; for ( double& x : p ) x = sc( "p" ); catmull_rom_segment< double > s( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] ); vp_assert( vp_near( s( 0.0 ), p[ 1 ] ), "a segment starts in its second point" ); vp_assert( vp_near( s( 1.0 ), p[ 2 ] ), "a segment ends in its third point" ); double t = vp_real( -2, 3, "t" ), t2 = t * t, t3 = t2 * t;
	double h = ( 2 * t3 - 3 * t2 + 1 ) * p[ 1 ] + ( t3 - 2 * t2 + t ) * ( p[ 2 ] - p[ 0 ] ) / 2 + ( 3 * t2 - 2 * t3 ) * p[ 2 ] + ( t3 - t2 ) * ( p[ 3 ] - p[ 1 ] ) / 2; vp_assert( vp_near( s( t ), h, 1e-6 ), "a segment is the Hermite curve with central-difference tangents" ); vp_reach( "end" );
}
VP_ENTRY( spline_alpha )
{
	double a = vp_real( -100, 100, "p" ), g = vp_real( 1, 10, "g" ), h = vp_real( 1, 10, "g" ), i = vp_real( 1, 10, "g" ); catmull_rom_segment_alpha< double > s( a, a + g, a + g + h, a + g + h + i, 1.0f ); vp_assert( vp_near( s( 0.0f ), a + g, 1e-4 ), "starts in its second point" ); vp_assert( vp_near( s( 1.0f ), a + g + h, 1e-4 ), "ends in its third point" ); float t = (float)vp_real( 0, 1, "t" ); vp_assert( vp_near( s( t ), a + g + h * t, 1e-3 ), "points on a line, parametrised by distance, give the line" ); vp_reach( "end" );
}
VP_ENTRY( spline_path )
{
	unsigned n = 4 + vp_choice( vp_param( 0 ) - 3 ); std::vector< double > p, t; for ( unsigned i = 0; i < n; ++i ) p.push_back( sc( "p" ) ); for ( unsigned i = 0; i + 2 < n; ++i ) { double x = sc( "t" ); if ( i ) vp_assume( x > t[ i - 1 ] + ( vp_symbolic() ? 0 : 1e-3 ) ); t.push_back( x ); } catmull_rom< double, double > c( p, t ); for ( unsigned i = 0; i + 2 < n; ++i ) vp_assert( vp_near( c( t[ i ] ), p[ i + 1 ], 1e-5 ), "the path passes every inner control point at its time" ); vp_reach( "end" );
}
VP_ENTRY( spline_length ) { double a = sc( "a" ), v = vp_real( 0, 10, "v" ); auto f = [&]( double t ) { return a + v * t; }; double l = compute_spline_length( f, 1.0f, 3.0f, (int)vp_param( 0 ) ); vp_assert( vp_near( l, 2 * v, 1e-5 ), "the length of a straight line" ); vp_reach( "end" ); }
// longer series
//@ entry=keyed_long quick=40 thorough=40 real
//@ entry=indexed_long quick=40 thorough=40 real
//@ entry=piecewise_long quick=64 thorough=64 real
//@ entry=stored_long quick=40 thorough=40 real
//@ entry=spline_long quick=30 thorough=30 real
//@ bounds: 40 samples at uneven given keys with any values, any key; 64 intervals; 40 frames; paths of 30 control points
VP_ENTRY( keyed_long )
{
	unsigned n = vp_param( 0 ); std::vector< std::pair< double, double > > s; for ( unsigned i = 0; i < n; ++i ) s.push_back( { i * 2.0 + ( i % 3 ) * 0.5 - 7, sc( "v" ) } ); double x = sc( "x" ), r = interpolated_value( s, x );
	if ( x <= s[ 0 ].first ) { vp_assert( r == s[ 0 ].second, "the first sample before the range" ); vp_reach( "before" ); return; } if ( x >= s[ n - 1 ].first ) { vp_assert( vp_near( r, s[ n - 1 ].second ), "the last sample after the range" ); vp_reach( "after" ); return; }
	for ( unsigned i = 1; i < n; ++i ) if ( x <= s[ i ].first ) { double a = s[ i - 1 ].second, b = s[ i ].second, d = s[ i ].first - s[ i - 1 ].first; vp_assert( vp_near( ( r - a ) * d, ( b - a ) * ( x - s[ i - 1 ].first ) ), "on the straight line between the neighbours" ); vp_reach( "between" ); return; }
}
VP_ENTRY( indexed_long )
{
	unsigned n = vp_param( 0 ); std::vector< double > v; for ( unsigned i = 0; i < n; ++i ) v.push_back( sc( "v" ) ); double x = vp_real( -3, n + 2, "x" ), r = interpolated_value( v, x );
	if ( x <= 0 ) { vp_assert( vp_near( r, v[ 0 ] ), "the first sample before the range" ); return; } if ( x >= n - 1 ) { vp_assert( vp_near( r, v[ n - 1 ] ), "the last sample after the range" ); return; }
	for ( unsigned i = 1; i < n; ++i ) if ( x <= i ) { double a = v[ i - 1 ], b = v[ i ]; vp_assert( vp_near( r, a + ( b - a ) * ( x - ( i - 1.0 ) ) ), "on the straight line between the neighbours" ); vp_reach( "between" ); return; }
}
VP_ENTRY( piecewise_long )
{
	int n = vp_param( 0 ); std::vector< double > v; for ( int i = 0; i <= n; ++i ) v.push_back( sc( "v" ) ); double lo = -3, st = 0.5; int k = 0; math::regular_piecewise_linear_function< double > f( lo, lo + n * st, n, [&]( double ) { return v[ k++ ]; } ); vp_assert( k == n + 1, "one sample per grid point" );
	double x = vp_real( lo, lo + n * st, "x" ), r = f( x ); for ( int i = 1; i <= n; ++i ) if ( x <= lo + i * st ) { double a = v[ i - 1 ], b = v[ i ]; vp_assert( vp_near( ( r - a ) * st, ( b - a ) * ( x - ( lo + ( i - 1 ) * st ) ) ), "on the straight line between grid points" ); vp_reach( "between" ); return; }
}
VP_ENTRY( stored_long )
{
	unsigned n = vp_param( 0 ); storage< double > s; s.add_channel( "a" ); s.add_channel( "b" ); s.add_channel( "c" ); std::vector< double > v[ 3 ]; for ( unsigned i = 0; i < n; ++i ) { s.add_frame(); for ( int c = 0; c < 3; ++c ) { double x = sc( "v" ); v[ c ].push_back( x ); s( i, c ) = x; } }
	unsigned c = vp_choice( 3 ); double x = vp_real( 0, n - 1.0, "x" ); vp_assume( x < n - 1.0 ); double r = s.get_interpolated_value( x, c ); for ( unsigned i = 1; i < n; ++i ) if ( x <= i ) { double a = v[ c ][ i - 1 ], b = v[ c ][ i ]; vp_assert( vp_near( r, a + ( b - a ) * ( x - ( i - 1.0 ) ) ), "on the straight line between frames" ); vp_reach( "between" ); return; }
}
VP_ENTRY( spline_long )
{
	unsigned n = vp_param( 0 ); std::vector< double > p, t; for ( unsigned i = 0; i < n; ++i ) p.push_back( sc( "p" ) ); for ( unsigned i = 0; i + 2 < n; ++i ) t.push_back( i * 1.5 + ( i % 2 ) * 0.25 - 4 ); catmull_rom< double, double > c( p, t ); for ( unsigned i = 0; i + 2 < n; ++i ) vp_assert( vp_near( c( t[ i ] ), p[ i + 1 ], 1e-5 ), "the path passes every inner control point at its time" );
	unsigned j = vp_choice( n - 3 ); double u = vp_real( 0, 1, "u" ), d = t[ j + 1 ] - t[ j ]; catmull_rom_segment< double > s( p[ j ], p[ j + 1 ], p[ j + 2 ], p[ j + 3 ] ); vp_assume( u < 1 ); vp_assert( vp_near( c( t[ j ] + u * d ), s( u ), 1e-4 ), "in between the path is the segment" ); vp_reach( "end" );
}
//@ entry=again quick=5 thorough=7 real
//@ bounds: every sequence of 5 (7) reads at 4 positions of one series (results do not depend on earlier reads)
VP_ENTRY( again )
{
	std::vector< double > v; std::vector< std::pair< double, double > > s; for ( int i = 0; i < 4; ++i ) { v.push_back( sc( "v" ) ); s.push_back( { i * 1.0, v.back() } ); } storage< double > st; st.add_channel( "a" ); for ( double x : v ) { st.add_frame(); st( st.frame_size() - 1, 0 ) = x; }
	for ( long i = vp_param( 0 ); i > 0; --i ) { static const double X[] = { 0.25, 1, 2.5, 7 }; unsigned k = vp_choice( 4 ); double x = X[ k ], e = k == 0 ? v[ 0 ] + ( v[ 1 ] - v[ 0 ] ) * 0.25 : k == 1 ? v[ 1 ] : k == 2 ? ( v[ 2 ] + v[ 3 ] ) / 2 : v[ 3 ]; vp_assert( vp_near( interpolated_value( v, x ), e ), "the same position reads the same value" ); vp_assert( vp_near( interpolated_value( s, x ), e ), "the same key reads the same value" ); if ( k < 3 ) vp_assert( vp_near( st.get_interpolated_value( x, 0 ), e ), "the same frame time reads the same value" ); } vp_reach( "again" );
}
