// C25: averages, medians, index sorting, regression, polynomials, differences
//@ entry=averages quick=3 thorough=5 real
//@ entry=means quick=4 thorough=6 real
//@ entry=medians quick=4 thorough=5
//@ entry=medians_real quick=3 thorough=4 real
//@ entry=indices quick=4 thorough=5
//@ entry=searching quick=4 thorough=5
//@ entry=top quick=4 thorough=5 real
//@ entry=regression quick=4 thorough=5 real
//@ entry=regression_steps quick=5 thorough=7 real
//@ entry=regression_best quick=3 thorough=4 real
//@ entry=polynomials quick=1 thorough=1 real
//@ entry=differences quick=4 thorough=8 real
//@ entry=covariance quick=2,3 thorough=3,3;2,4 real
//@ entry=views quick=4 thorough=6
//@ bounds: sequences of up to 4 elements (thorough 5), regression over up to 4 points with any x (thorough 5) and 5 points in steps (thorough 7), covariance of 2 channels and 3 frames; polynomials up to degree 4; all real values (exact) and all 32-bit integers
//@ assume: exact real arithmetic, floating-point rounding is outside; no overflow in integer averages
#include "oracle.h"
#include "flut/container_tools.hpp"
#include "flut/math/average.hpp"
#include "flut/math/linear_regression.hpp"
#include "flut/math/delta.hpp"
#include "flut/storage.hpp"
#include "flut/buffer/data_algorithms.hpp"
using namespace flut;
static double sc( const char* n ) { return vp_real( -1000, 1000, n ); }
static std::vector< double > reals( unsigned n, const char* nm ) { std::vector< double > v( n ); for ( auto& x : v ) x = sc( nm ); return v; }
static std::vector< int > ints( unsigned n, const char* nm, int lim = 1000 ) { std::vector< int > v( n ); for ( auto& x : v ) x = vp_range( -lim, lim, nm ); return v; }
VP_ENTRY( averages )
{
	unsigned n = vp_choice( vp_param( 0 ) + 1 ); math::average_< double > a; vp_assert( a.empty() && a.get() == 0, "an empty average is zero" ); double sv = 0, sw = 0;
	for ( unsigned i = 0; i < n; ++i ) { double v = sc( "v" ), w = 1; if ( vp_choice( 2 ) ) { w = vp_real( 0, 100, "w" ); a.add( v, w ); } else a.add( v ); sv += v * w; sw += w; }
	if ( sw > 0 ) { vp_assume( sw > 0.01 ); double g = a.get(); vp_assert( vp_near( g * sw, sv ), "the weighted average is the weighted sum over the total weight" ); vp_assert( !a.empty(), "not empty" ); vp_reach( "average" ); } else vp_assert( a.get() == 0 && a.empty(), "no weight" );
	a.reset(); vp_assert( a.empty() && a.get() == 0, "reset" ); double u = sc( "u" ); a.add( u ); vp_assert( vp_near( a.get(), u ), "reset forgets the past" );
}
VP_ENTRY( means ) { unsigned n = 1 + vp_choice( vp_param( 0 ) ); auto v = reals( n, "v" ); double s = 0; for ( double x : v ) s += x; vp_assert( vp_near( average( v ) * n, s ) && vp_near( average( v.begin(), v.end() ) * n, s ), "average of a container" ); vp_reach( "end" ); }
template< typename T > static void med( const std::vector< T >& v )
{
	unsigned n = v.size(); auto c = v; T m = median( v ); int same = 1; for ( unsigned i = 0; i < n; ++i ) same &= ( v[ i ] == c[ i ] ); vp_assert( same, "the input is unchanged" ); std::vector< T > s( v ); for ( unsigned i = 0; i < n; ++i ) for ( unsigned j = 0; j + 1 < n - i; ++j ) { T a = s[ j ], b = s[ j + 1 ]; bool sw = b < a; s[ j ] = sw ? b : a; s[ j + 1 ] = sw ? a : b; }
	if ( n % 2 ) { vp_assert( m == s[ n / 2 ], "the median is the middle element" ); vp_reach( "odd" ); } else { vp_assert( m == ( s[ n / 2 - 1 ] + s[ n / 2 ] ) / T( 2 ), "the median is the mean of the two middle elements" ); vp_reach( "even" ); }
	auto o = sorted_copy( v ); vp_assert( o.size() == n, "sorted copy has all elements" ); int r = 1; for ( unsigned i = 0; i < n; ++i ) r &= ( o[ i ] == s[ i ] ); vp_assert( r, "sorted copy" );
}
VP_ENTRY( medians ) { med( ints( 1 + vp_choice( vp_param( 0 ) ), "v" ) ); }
VP_ENTRY( medians_real ) { med( reals( 1 + vp_choice( vp_param( 0 ) ), "v" ) ); }
VP_ENTRY( indices )
{
	unsigned n = vp_choice( vp_param( 0 ) + 1 ); std::vector< int > v( n ); for ( auto& x : v ) x = vp_int( "v" ); auto ix = sort_indices( v ); vp_assert( ix.size() == n, "one index per element" ); unsigned seen = 0; for ( unsigned i = 0; i < n; ++i ) { vp_assert( ix[ i ] < n, "index in range" ); seen |= 1u << ix[ i ]; if ( i ) vp_assert( v[ ix[ i - 1 ] ] <= v[ ix[ i ] ], "the indices order the values" ); } vp_assert( seen == ( 1u << n ) - 1, "the indices are a permutation" ); vp_reach( "end" );
}
VP_ENTRY( searching )
{
	unsigned n = vp_choice( vp_param( 0 ) + 1 ); std::vector< int > v( n ); for ( auto& x : v ) x = vp_int( "v" ); int k = vp_int( "k" ); unsigned f = n; for ( unsigned i = n; i-- > 0; ) f = v[ i ] == k ? i : f; const auto& cv = v;
	vp_assert( find_index( v, k ) == ( f == n ? no_index : index_t( f ) ), "index of the first equal element" ); vp_assert( flut::find( v, k ) - v.begin() == f && flut::find( cv, k ) - cv.begin() == f, "find the first equal element" ); vp_assert( flut::find_if( v, [k]( int x ) { return x == k; } ) - v.begin() == f && flut::find_if( cv, [k]( int x ) { return x == k; } ) - cv.begin() == f, "find by predicate" );
	if ( n ) { vp_assert( back_index( v ) == n - 1, "last index" ); int lo = v[ 0 ], hi = v[ 0 ]; for ( int x : v ) { lo = x < lo ? x : lo; hi = x > hi ? x : hi; } vp_assert( *flut::min_element( v ) == lo && *flut::min_element( cv ) == lo && *flut::max_element( v ) == hi && *flut::max_element( cv ) == hi, "smallest and largest element" ); vp_reach( "some" ); }
}
VP_ENTRY( top )
{
	unsigned n = 1 + vp_choice( vp_param( 0 ) ), c = 1 + vp_choice( n ); auto v = reals( n, "v" ); double t = top_average( v, c ); std::vector< double > s( v ); for ( unsigned i = 0; i < n; ++i ) for ( unsigned j = 0; j + 1 < n - i; ++j ) { double a = s[ j ], b = s[ j + 1 ]; s[ j ] = b < a ? b : a; s[ j + 1 ] = b < a ? a : b; } double sum = 0; for ( unsigned i = 0; i < c; ++i ) sum += s[ i ]; vp_assert( vp_near( t * c, sum ), "average of the first elements in order" ); vp_reach( "end" );
}
VP_ENTRY( regression )
{
	unsigned n = 2 + vp_choice( vp_param( 0 ) - 1 ); auto x = reals( n, "x" ); double o = sc( "o" ), k = vp_real( -10, 10, "k" ); std::vector< double > y; for ( double v : x ) y.push_back( o + k * v ); for ( unsigned i = 1; i < n; ++i ) vp_assume( x[ i ] > x[ i - 1 ] + 0.01 );
	auto f = linear_regression( x, y ); double s = f.slope(); vp_assert( vp_near( s, k, 1e-3 ), "slope of points on a line" ); vp_assert( vp_near( f.offset(), o, 1e-3 ), "offset of points on a line" ); double u = sc( "u" ); vp_assert( vp_near( f( u ), f.offset() + f.slope() * u ), "a linear function" ); vp_reach( "end" );
}
VP_ENTRY( regression_steps )
{
	unsigned n = 2 + vp_choice( vp_param( 0 ) - 1 ); double b = sc( "b" ), st = vp_real( 0.1, 10, "step" ) * ( vp_choice( 2 ) ? -1 : 1 ), o = sc( "o" ), k = vp_real( -10, 10, "k" ); std::vector< double > y; for ( unsigned i = 0; i < n; ++i ) y.push_back( o + k * ( b + i * st ) ); auto f = linear_regression( b, st, y ); vp_assert( vp_near( f.slope(), k, 1e-3 ), "slope of points on a line" ); vp_assert( vp_near( f.offset(), o, 1e-3 ), "offset of points on a line" ); vp_reach( "end" );
}
// the normal equations: residuals sum to zero, also weighted with x
VP_ENTRY( regression_best )
{
	unsigned n = vp_param( 0 ); auto y = reals( n, "y" ); std::vector< double > x; static const double S[][ 5 ] = { { 0, 1, 2, 3, 4 }, { -1, 0.5, 3, 8, 9 }, { 5, 2, 1, -7, 0 } }; unsigned c = vp_choice( 3 ); for ( unsigned i = 0; i < n; ++i ) x.push_back( S[ c ][ i ] ); auto f = linear_regression( x, y ); double r = 0, q = 0; for ( unsigned i = 0; i < n; ++i ) { double e = y[ i ] - f.offset() - f.slope() * x[ i ]; r += e; q += e * x[ i ]; } vp_assert( vp_near( r, 0, 1e-3 ), "residuals sum to zero" ); vp_assert( vp_near( q, 0, 1e-2 ), "residuals are orthogonal to x" ); vp_reach( "end" );
	if ( c == 0 ) { auto g = linear_regression( 0.0, 1.0, y ); vp_assert( vp_near( g.offset(), f.offset(), 1e-5 ) && vp_near( g.slope(), f.slope(), 1e-5 ), "both forms of regression agree" ); }
}
VP_ENTRY( polynomials )
{
	double a = sc( "a" ), b = sc( "b" ), c = sc( "c" ), d = sc( "d" ), e = sc( "e" ), x = vp_real( -10, 10, "x" ); linear_function< double > l( a, b ); vp_assert( vp_near( l( x ), a + b * x ), "linear function" ); vp_assert( l.offset() == a && l.slope() == b, "offset and slope" ); quadratic_function< double > q( a, b, c ); vp_assert( vp_near( q( x ), a + b * x + c * x * x ), "quadratic function" ); cubic_function< double > k( a, b, c, d ); vp_assert( vp_near( k( x ), a + b * x + c * x * x + d * x * x * x ), "cubic function" );
	polynomial< double, 4 > p( a, b, c, d, e ); vp_assert( vp_near( p( x ), a + b * x + c * x * x + d * x * x * x + e * x * x * x * x ), "polynomial of degree 4" ); vp_assert( p[ 0 ] == a && p[ 3 ] == d && p[ 4 ] == e, "coefficients" ); p[ 2 ] = x; vp_assert( p[ 2 ] == x && p[ 1 ] == b, "setting a coefficient" ); polynomial< double, 2 > z; vp_assert( z( x ) == 0, "default" );
	if ( b > 0.01 || b < -0.01 ) { vp_assert( vp_near( l( intersect_y( l, c ) ), c ), "intersection" ); vp_reach( "intersect" ); }
}
VP_ENTRY( differences ) { double first = sc( "first" ), last = first, sum = 0; delta< double > d( first ); unsigned n = vp_choice( vp_param( 0 ) + 1 ); for ( unsigned i = 0; i < n; ++i ) { double v = sc( "v" ), r = d( v ); vp_assert( vp_near( r, v - last ), "difference with the previous value" ); last = v; sum += r; } vp_assert( vp_near( sum, last - first ), "differences telescope" ); vp_reach( "end" ); }
VP_ENTRY( covariance )
{
	unsigned nc = vp_param( 0 ), nf = vp_param( 1 ); storage< double > s; static const char* L[] = { "a", "b", "c" }; std::vector< std::vector< double > > v( nf ); for ( unsigned c = 0; c < nc; ++c ) s.add_channel( L[ c ] ); for ( unsigned f = 0; f < nf; ++f ) { s.add_frame(); for ( unsigned c = 0; c < nc; ++c ) { double x = sc( "x" ); v[ f ].push_back( x ); s( f, c ) = x; } }
	auto m = compute_channel_means( s ); vp_assert( m.size() == nc, "one mean per channel" ); std::vector< double > mm; for ( unsigned c = 0; c < nc; ++c ) { double t = 0; for ( unsigned f = 0; f < nf; ++f ) t += v[ f ][ c ]; mm.push_back( t / nf ); vp_assert( vp_near( m[ c ] * nf, t ), "channel mean" ); }
	auto cv = compute_covariance( s ); for ( unsigned i = 0; i < nc; ++i ) for ( unsigned j = 0; j < nc; ++j ) { double t = 0; for ( unsigned f = 0; f < nf; ++f ) t += ( v[ f ][ i ] - mm[ i ] ) * ( v[ f ][ j ] - mm[ j ] ); vp_assert( vp_near( cv( i, j ) * nf, t ), "covariance" ); vp_assert( vp_near( cv( i, j ), cv( j, i ) ), "covariance is symmetric" ); } vp_reach( "end" );
}
VP_ENTRY( views )
{
	unsigned n = vp_choice( vp_param( 0 ) + 1 ); std::vector< int > v( n ); for ( auto& x : v ) x = vp_int( "v" ); int k = vp_int( "k" ); std::vector< int > e; for ( int x : v ) if ( x < k ) e.push_back( x ); auto w = make_view_if( v, [k]( int x ) { return x < k; } ); std::vector< int > g; for ( auto it = w.begin(); it != w.end(); ++it ) { g.push_back( *it ); vp_assert( g.size() <= n, "a view ends" ); } vp_assert( g.size() == e.size(), "a view shows the matching elements" ); int r = 1; for ( unsigned i = 0; i < e.size(); ++i ) r &= ( g[ i ] == e[ i ] ); vp_assert( r, "a view keeps the order" );
	if ( !e.empty() ) { auto it = w.begin(); auto old = it++; vp_assert( *old == e[ 0 ] && ( e.size() == 1 ? it == w.end() : *it == e[ 1 ] ), "postfix increment" ); vp_reach( "some" ); }
}
// longer sequences: known values around a few arbitrary ones
//@ entry=medians_long quick=20,1 thorough=24,2
//@ entry=indices_long quick=20,1 thorough=24,2
//@ entry=averages_long quick=40 thorough=80 real
//@ entry=regression_long quick=20 thorough=40 real
//@ entry=views_long quick=20,3 thorough=30,5
//@ bounds: sequences of 1 to 20 (thorough 24) elements with 1 (thorough 2) arbitrary elements at any position class; averages over 40 (80) arbitrary values; regressions over up to 20 (40) points on any line
static std::vector< int > pattern( unsigned n, unsigned f )
{
	std::vector< int > v( n ); for ( unsigned i = 0; i < n; ++i ) v[ i ] = int( ( i * 37 + 11 ) % 64 ) * 5 - 150;
	for ( unsigned k = 0; k < f; ++k ) v[ ( n * ( 2 * k + 1 ) ) / ( 2 * f ) ] = vp_range( -1000, 1000, "v" );
	return v;
}
VP_ENTRY( medians_long ) { unsigned n = vp_param( 0 ) - vp_choice( 2 ); auto v = pattern( n, vp_param( 1 ) ); med( v ); vp_reach( "end" ); }
VP_ENTRY( indices_long )
{
	unsigned n = vp_param( 0 ) - vp_choice( 2 ); auto v = pattern( n, vp_param( 1 ) ); auto ix = sort_indices( v ); vp_assert( ix.size() == n, "one index per element" ); std::vector< int > seen( n ); for ( unsigned i = 0; i < n; ++i ) { vp_assert( ix[ i ] < n, "index in range" ); ++seen[ ix[ i ] ]; if ( i ) vp_assert( v[ ix[ i - 1 ] ] <= v[ ix[ i ] ], "the indices order the values" ); } for ( int s : seen ) vp_assert( s == 1, "the indices are a permutation" );
	int k = v[ n / 2 ]; unsigned f = n; for ( unsigned i = n; i-- > 0; ) f = v[ i ] == k ? i : f; vp_assert( find_index( v, k ) == f, "index of the first equal element" ); vp_reach( "end" );
}
VP_ENTRY( averages_long )
{
	unsigned n = vp_param( 0 ); auto v = reals( n, "v" ); double s = 0, sw = 0, t = 0; math::average_< double > a; for ( unsigned i = 0; i < n; ++i ) { s += v[ i ]; double w = 1 + i % 3; t += v[ i ] * w; sw += w; a.add( v[ i ], w ); } vp_assert( vp_near( average( v ) * n, s ), "average of a container" ); vp_assert( vp_near( a.get() * sw, t ), "the weighted average is the weighted sum over the total weight" );
	storage< double > st; st.add_channel( "a" ); st.add_channel( "b" ); for ( unsigned i = 0; i < n; ++i ) { st.add_frame(); st( i, 0 ) = v[ i ]; st( i, 1 ) = v[ n - 1 - i ]; } auto m = compute_channel_means( st ); vp_assert( m.size() == 2 && vp_near( m[ 0 ] * n, s ) && vp_near( m[ 1 ] * n, s ), "channel mean" ); vp_reach( "end" );
}
VP_ENTRY( regression_long )
{
	unsigned n = vp_param( 0 ) - vp_choice( 2 ); double o = sc( "o" ), k = vp_real( -10, 10, "k" ); std::vector< double > x, y; for ( unsigned i = 0; i < n; ++i ) { x.push_back( double( ( i * 7 ) % 41 ) - 12 ); y.push_back( o + k * x[ i ] ); } auto f = linear_regression( x, y ); vp_assert( vp_near( f.slope(), k, 1e-3 ) && vp_near( f.offset(), o, 1e-3 ), "line through points on a line" );
	std::vector< double > z; for ( unsigned i = 0; i < n; ++i ) z.push_back( o + k * ( -3 + i * 0.5 ) ); auto g = linear_regression( -3.0, 0.5, z ); vp_assert( vp_near( g.slope(), k, 1e-3 ) && vp_near( g.offset(), o, 1e-3 ), "line through equidistant points" ); vp_reach( "end" );
}
VP_ENTRY( views_long )
{
	unsigned n = vp_param( 0 ); auto v = pattern( n, vp_param( 1 ) ); int k = 10; std::vector< int > e; for ( int x : v ) if ( x < k ) e.push_back( x ); auto w = make_view_if( v, [k]( int x ) { return x < k; } ); std::vector< int > g; for ( auto& x : w ) { g.push_back( x ); vp_assert( g.size() <= n, "a view ends" ); } vp_assert( g.size() == e.size(), "a view shows the matching elements" ); int r = 1; for ( unsigned i = 0; i < e.size(); ++i ) r &= ( g[ i ] == e[ i ] ); vp_assert( r, "a view keeps the order" ); vp_reach( "end" );
}
//@ entry=indices_equal quick=80 thorough=200
//@ bounds: index sorts, medians and top averages of 80 (thorough 200) values that are all equal, all equal but one at any of three places, or of two alternating values (the values arbitrary)
VP_ENTRY( indices_equal )
{
	unsigned n = (unsigned)vp_param( 0 ) - vp_choice( 2 ), k = vp_choice( 5 ); int a = vp_range( -1000, 1000, "a" ), b = vp_range( -1000, 1000, "b" ); std::vector< int > v( n, a ); if ( k < 3 ) v[ k == 0 ? 0 : k == 1 ? n / 2 : n - 1 ] = b; else if ( k == 3 ) for ( unsigned i = 1; i < n; i += 2 ) v[ i ] = b;
	auto ix = sort_indices( v ); vp_assert( ix.size() == n, "one index per element" ); std::vector< int > seen( n ); for ( unsigned i = 0; i < n; ++i ) { vp_assert( ix[ i ] < n, "index in range" ); ++seen[ ix[ i ] ]; if ( i ) vp_assert( v[ ix[ i - 1 ] ] <= v[ ix[ i ] ], "the indices order the values" ); } for ( int s : seen ) vp_assert( s == 1, "the indices are a permutation" );
	int m = median( v ), e = k == 3 ? ( n % 2 ? a : ( a + b ) / 2 ) : a; vp_assert( m == e, "the median of equal values" ); auto s = sorted_copy( v ); vp_assert( s.size() == n && s[ 0 ] == ( k < 4 && b < a ? b : a ) && s[ n - 1 ] == ( k < 4 && b > a ? b : a ), "sorted copy" ); vp_reach( "equal" );
}
//@ entry=instances quick=5 thorough=6 real
//@ bounds: every sequence of 5 (6) values added to two averages and two difference operators in any order
VP_ENTRY( instances )
{
	math::average a[ 2 ]; delta< double > d[ 2 ] = { delta< double >( 1 ), delta< double >( 2 ) }; double last[ 2 ] = { 1, 2 }, sum[ 2 ] = { 0, 0 }; int n[ 2 ] = { 0, 0 }; for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 2 ); double v = sc( "v" ); vp_assert( vp_near( d[ w ]( v ), v - last[ w ] ), "every difference has its own previous value" ); last[ w ] = v; a[ w ].add( v ); sum[ w ] += v; ++n[ w ]; for ( int k = 0; k < 2; ++k ) { if ( n[ k ] ) vp_assert( vp_near( a[ k ].get() * n[ k ], sum[ k ], 1e-5 ), "every average has its own values" ); else vp_assert( a[ k ].get() == 0, "an empty average" ); } std::vector< double > m; m.push_back( v ); m.push_back( v + 1 ); if ( w ) m.push_back( v + 7 ); vp_assert( vp_near( median( m ), w ? v + 1 : v + 0.5 ), "the median of these values" ); vp_assert( vp_near( average( m ) * (double)m.size(), w ? 3 * v + 8 : 2 * v + 1, 1e-5 ), "the average of these values" ); vp_assert( vp_near( top_average( m, 1 + w ), w ? v + 0.5 : v ), "the average of the smallest" ); } vp_reach( "instances" );
}
