// C44: random numbers
//@ entry=repeat quick=3 thorough=5 real
//@ entry=range quick=3 thorough=6 real
//@ entry=range_float quick=3 thorough=6 real
//@ entry=global quick=3 thorough=5 real
//@ entry=many quick=60 thorough=60 real
//@ bounds: any two seeds, all sequences of 3 (thorough 5) uniform and normal numbers mixed, before and after any reseeding; any range within [-2000,2000]; 60 numbers in sequence
//@ assume: the standard random engine and distributions are modelled (stubs/random): the numbers of a seed are arbitrary but fixed; exact real arithmetic
#include "oracle.h"
#include "flut/math/random.hpp"
using namespace flut;
static unsigned seed( const char* n ) { unsigned s = (unsigned)vp_int( n ); return s; }
static double e() { return vp_symbolic() ? 0 : 1e-9; }
VP_ENTRY( repeat )
{
	unsigned s = seed( "s" ), other = seed( "o" ); math::random_number_generator a( s ), b( other ); unsigned used = vp_choice( 4 ); if ( used == 1 ) b.uni< double >(); if ( used == 2 ) b.norm( 1.0, 2.0 ); if ( used == 3 ) { b.norm( 0.0, 1.0 ); b.uni( 0.0f, 1.0f ); } b.seed( s );
	for ( long k = vp_param( 0 ); k > 0; --k ) { double x, y; if ( vp_choice( 2 ) ) { x = a.uni( 2.0, 5.0 ); y = b.uni( 2.0, 5.0 ); } else { x = a.norm( 1.0, 3.0 ); y = b.norm( 1.0, 3.0 ); } vp_assert( x == y, "the same seed gives the same numbers" ); } vp_reach( "end" );
	math::random_number_generator c, d( 123 ); vp_assert( c.uni( 0.0, 1.0 ) == d.uni( 0.0, 1.0 ), "the default seed" ); math::random_number_generator f( a ); vp_assert( f.uni( 0.0, 8.0 ) == a.uni( 0.0, 8.0 ), "a copy continues the sequence" );
}
VP_ENTRY( range )
{
	math::random_number_generator a( seed( "s" ) ), b( a ), z( a ); double lo = vp_real( -1000, 1000, "lo" ), w = vp_real( 0, 1000, "w" ); for ( long k = vp_param( 0 ); k > 0; --k ) { double x = a.uni( lo, lo + w ), u = b.uni< double >(); vp_assert( vp_and( x >= lo - e(), x <= lo + w + e() ), "uniform numbers lie in the range" ); vp_assert( vp_and( u >= 0, u <= 1 ), "the default range is 0 to 1" ); vp_assert( vp_near( x, lo + u * w ), "the range only scales the numbers" ); }
	double m = vp_real( -1000, 1000, "m" ), d = vp_real( 0.001, 100, "d" ); double n = a.norm( m, d ), s = b.norm( 0.0, 1.0 ); vp_assert( vp_near( n, m + d * s, 1e-4 ), "normal numbers are the mean plus the deviation times a standard one" ); vp_reach( "end" );
}
VP_ENTRY( range_float ) { math::random_number_generator a( seed( "s" ) ); float lo = (float)vp_real( -1000, 1000, "lo" ), w = (float)vp_real( 0, 1000, "w" ); float t = vp_symbolic() ? 0 : 1e-3f; for ( long k = vp_param( 0 ); k > 0; --k ) { float x = a.uni( lo, lo + w ); vp_assert( vp_and( x >= lo - t, x <= lo + w + t ), "uniform numbers lie in the range" ); } vp_reach( "end" ); }
VP_ENTRY( global )
{
	auto& g = math::random_number_generator::global_instance(); vp_assert( &g == &math::random_number_generator::global_instance(), "one global generator" ); math::random_number_generator first( 123 ); vp_assert( rand_uni( 0.0, 1.0 ) == first.uni( 0.0, 1.0 ), "the global generator starts with the default seed" ); unsigned s = seed( "s" ); g.seed( s ); math::random_number_generator b( s ); double lo = vp_real( -1000, 1000, "lo" ), w = vp_real( 0, 1000, "w" ), d = vp_real( 0.001, 100, "d" );
	for ( long k = vp_param( 0 ); k > 0; --k ) if ( vp_choice( 2 ) ) { double x = rand_uni( lo, lo + w ); vp_assert( x == b.uni( lo, lo + w ), "the global functions use the global generator" ); vp_assert( vp_and( x >= lo - e(), x <= lo + w + e() ), "uniform numbers lie in the range" ); } else vp_assert( rand_norm( lo, d ) == b.norm( lo, d ), "the global functions use the global generator" ); vp_reach( "end" );
}
VP_ENTRY( many ) { unsigned s = seed( "s" ); math::random_number_generator a( s ), b( s ); int n = (int)vp_param( 0 ); std::vector< double > v; for ( int i = 0; i < n; ++i ) { v.push_back( i % 4 == 3 ? a.norm( 1.0, 2.0 ) : a.uni( -1.0, 1.0 ) ); if ( i % 4 != 3 ) vp_assert( vp_and( v[ i ] >= -1, v[ i ] <= 1 ), "uniform numbers lie in the range" ); } a.seed( s ); for ( int i = 0; i < n; ++i ) { double x = i % 4 == 3 ? a.norm( 1.0, 2.0 ) : a.uni( -1.0, 1.0 ), y = i % 4 == 3 ? b.norm( 1.0, 2.0 ) : b.uni( -1.0, 1.0 ); vp_assert( x == v[ i ] && y == v[ i ], "the same seed gives the same numbers" ); } vp_reach( "end" ); }
