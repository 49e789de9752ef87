// C06: prefix, suffix and slice operations follow their definition
//@ entry=ends quick=5,3 thorough=7,4 jobs=3
//@ entry=slices quick=6 thorough=12
//@ entry=longs quick=520 thorough=520
//@ bounds: texts of length 0..5 (7) against texts of length 0..3 (4) and longer ones, all bytes; slices of texts of length 0..6 (12) with every n within the text, both signs; 520-byte texts with arbitrary bytes at the ends
#include "oracle.h"
#include "flut/string_tools.hpp"
using namespace flut;
static bool at( const string& s, size_t p, const string& t ) { if ( p + t.size() > s.size() ) return false; int r = 1; for ( size_t i = 0; i < t.size(); ++i ) r &= s[ p + i ] == t[ i ]; return r; }
static void check( const string& a, const string& b )
{
	vp_assert( str_begins_with( a, b ) == at( a, 0, b ), "begins with compares the first characters" );
	vp_assert( str_ends_with( a, b ) == ( b.size() <= a.size() && at( a, a.size() - b.size(), b ) ), "ends with compares the last characters" );
	size_t f = string::npos; for ( size_t i = a.size() + 1; i-- > 0; ) if ( i + b.size() <= a.size() && at( a, i, b ) ) f = i;
	vp_assert( in_str( a, b ) == f, "in_str finds the first occurrence" );
	vp_reach( "ends" );
}
VP_ENTRY( ends )
{
	string a = vp_str_upto( vp_param( 0 ), "a" ); string b = vp_str_upto( vp_param( 1 ), "b" );
	check( a, b ); check( b, a );
}
static void check_slices( const string& s, int n )
{
	int z = (int)s.size();
	string l = left_str( s, n ), r = right_str( s, n ), dl = left_str( s, -n ), dr = right_str( s, -n );
	if ( n > 0 ) {
		vp_assert( vp_same( l, s.substr( 0, n ) ), "left n characters" );
		vp_assert( vp_same( r, s.substr( z - n ) ), "right n characters" );
		vp_assert( vp_same( dl, s.substr( 0, z - n ) ), "negative n drops from the right end" );
		vp_assert( vp_same( dr, s.substr( n ) ), "negative n drops from the left end" );
		vp_assert( vp_same( l + dr, s ), "left slice and its complement give the text" );
		vp_assert( vp_same( dl + r, s ), "right slice and its complement give the text" );
		vp_reach( "slice" );
	}
	else vp_assert( l.empty() && r.empty(), "zero characters" );
	vp_assert( vp_same( l + mid_str( s, n ), s ), "middle to the end complements the left slice" );
	for ( int k = 0; n + k <= z; ++k ) vp_assert( vp_same( mid_str( s, n, k ), s.substr( n, k ) ), "middle slice" );
}
VP_ENTRY( slices ) { string s = vp_str_upto( vp_param( 0 ) ); int n = vp_choice( s.size() + 1 ); check_slices( s, n ); }
VP_ENTRY( longs )
{
	size_t n = vp_param( 0 ); string f( n, 'x' ); string a = vp_str( 2 ) + f + vp_str( 3 );
	check( a, a.substr( 0, 2 ) ); check( a, a.substr( a.size() - 2 ) ); check( a, vp_str( 2 ) );
	string c = a; c[ 0 ] = vp_char(); c[ c.size() - 1 ] = vp_char();
	vp_assert( str_begins_with( a, c ) == ( c[ 0 ] == a[ 0 ] && c.back() == a.back() ), "begins with equal length" );
	vp_assert( str_ends_with( a, c ) == ( c[ 0 ] == a[ 0 ] && c.back() == a.back() ), "ends with equal length" );
	check_slices( a, (int)n / 2 ); check_slices( a, (int)a.size() ); vp_reach( "long" );
}
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of 3 calls with 7 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "abcab", "abcxb", "ab", "b", "", "cab" }; std::vector< string > v( t, t + 6 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s, v[ vp_choice( (unsigned)v.size() ) ] ); check_slices( s, (int)s.size() / 2 ); } vp_reach( "again" );
}
