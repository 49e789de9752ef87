// C41: integer ranges enumerate exactly their integers
//@ entry=plain quick=5 thorough=9
//@ entry=plain_unsigned quick=5 thorough=9
//@ entry=stepped quick=9 thorough=20
//@ entry=stepped_down quick=9 thorough=20
//@ entry=stepped_unsigned quick=9 thorough=20
//@ entry=from_range quick=9 thorough=20
//@ entry=long_range quick=100 thorough=100
//@ bounds: ranges of up to 5 (thorough 9) integers starting at any value of the type; stepped ranges spanning up to 9 (thorough 20) integers with steps 1..5 and -5..-1, starting anywhere more than 1000 away from the ends of the type; one plain range of 100 integers
//@ assume: a step is not zero and points from the begin to the end of the range or the range is empty in that direction
#include "oracle.h"
#include "flut/math/irange.hpp"
using namespace flut;
template< typename R, typename T > static void walk( const R& r, T b, long n, T s )
{
	long k = 0; for ( auto v : r ) { vp_assert( k < n, "the range ends" ); if ( k >= n ) return; vp_assert( v == T( b + T( k ) * s ), "values come in order" ); ++k; } vp_assert( k == n, "all values are enumerated" );
	auto it = r.begin(); auto e = r.end(); vp_assert( e - it == T( n ), "the distance is the number of values" ); k = 0; while ( it != e && k < n ) { vp_assert( *it == T( b + T( k ) * s ), "values" ); auto same = it; vp_assert( same == it && !( same != it ), "equal iterators" ); T old = it++; vp_assert( old == T( b + T( k ) * s ), "postfix increment gives the old value" ); ++k; vp_assert( !( same == it ) && same != it && it - same == T( 1 ), "advanced by one" ); } vp_assert( k == n && it == e, "the end is reached" );
	it = r.begin(); if ( n ) { T nw = ++it; vp_assert( nw == T( b + s ) && *it == nw, "prefix increment gives the new value" ); vp_reach( "some" ); } else vp_reach( "empty" );
}
template< typename T > static void plain( T b, T lim, long m ) { long n = (long)vp_choice( (unsigned)m + 1 ); vp_assume( b <= T( lim - T( n ) ) ); walk( irange< T >( b, T( b + T( n ) ) ), b, n, T( 1 ) ); walk( make_irange( b, T( b + T( n ) ) ), b, n, T( 1 ) ); walk( make_irange( T( n ) ), T( 0 ), n, T( 1 ) ); irange< T > d; vp_assert( !( d.begin() != d.end() ), "a default range is empty" ); }
VP_ENTRY( plain ) { plain< int >( vp_int(), INT32_MAX, vp_param( 0 ) ); }
VP_ENTRY( plain_unsigned ) { plain< size_t >( vp_u64(), SIZE_MAX, vp_param( 0 ) ); }
static long count( long span, long s ) { return ( span + s - 1 ) / s; }
VP_ENTRY( stepped ) { int b = vp_int(); vp_assume( vp_and( b > INT32_MIN + 1000, b < INT32_MAX - 1000 ) ); int span = (int)vp_choice( (unsigned)vp_param( 0 ) + 1 ), s = 1 + (int)vp_choice( 5 ); walk( irange_step< int >( b, b + span, s ), b, count( span, s ), s ); walk( make_irange( b, b + span, s ), b, count( span, s ), s ); if ( s == 1 ) walk( irange_step< int >( b, b + span ), b, span, 1 ); }
VP_ENTRY( stepped_down ) { int b = vp_int(); vp_assume( vp_and( b > INT32_MIN + 1000, b < INT32_MAX - 1000 ) ); int span = (int)vp_choice( (unsigned)vp_param( 0 ) + 1 ), s = 1 + (int)vp_choice( 5 ); walk( irange_step< int >( b, b - span, -s ), b, count( span, s ), -s ); walk( make_irange( b, b - span, -s ), b, count( span, s ), -s ); }
VP_ENTRY( stepped_unsigned ) { uint64_t b = vp_u64(); vp_assume( b < UINT64_MAX - 1000 ); unsigned span = vp_choice( (unsigned)vp_param( 0 ) + 1 ), s = 1 + vp_choice( 5 ); walk( irange_step< uint64_t >( b, b + span, s ), b, count( span, s ), (uint64_t)s ); }
VP_ENTRY( from_range ) { int b = vp_int(); vp_assume( vp_and( b > INT32_MIN + 1000, b < INT32_MAX - 1000 ) ); int span = (int)vp_choice( (unsigned)vp_param( 0 ) + 1 ), s = 1 + (int)vp_choice( 5 ); irange< int > r( b, b + span ); walk( make_irange( r, s ), b, count( span, s ), s ); if ( s == 1 ) walk( irange_step< int >( r ), b, span, 1 ); }
VP_ENTRY( long_range ) { int b = vp_range( -100000, 100000 ); int n = (int)vp_param( 0 ); walk( make_irange( b, b + n ), b, n, 1 ); walk( make_irange( b, b + n, 7 ), b, count( n, 7 ), 7 ); }
