// C13: sorted vector stays sorted and finds exactly its elements
//@ entry=insert_find quick=5 thorough=6 jobs=8
//@ entry=history quick=5 thorough=6 jobs=8
//@ entry=stable quick=4 thorough=5 jobs=4
//@ entry=text quick=3,2 thorough=4,2 jobs=4
//@ bounds: every sequence of 5 (thorough 6) insertions of arbitrary 32-bit values followed by a search for an arbitrary value; every history of 5 (6) insertions and erasures; 4 (5) keyed elements with payload (insertion order of equal elements); 3 (4) strings of at most 2 bytes
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/sorted_vector.hpp"
using namespace flut;
template< typename T > static size_t occurrences( const std::vector< T >& v, const T& x ) { size_t n = 0; for ( auto& e : v ) n += ( e == x ); return n; }
template< typename T > static void check( sorted_vector< T >& s, const std::vector< T >& in, const T& x )
{
	const sorted_vector< T >& c = s;
	vp_assert( s.size() == in.size() && s.empty() == in.empty(), "holds as many elements as were inserted and not erased" );
	std::vector< T > got( s.begin(), s.end() );
	for ( size_t i = 1; i < got.size(); ++i ) vp_assert( !( got[ i ] < got[ i - 1 ] ), "elements are in non-decreasing order" );
	for ( auto& e : in ) vp_assert( occurrences( got, e ) == occurrences( in, e ), "holds exactly the inserted elements" );
	size_t n = occurrences( in, x );
	auto it = s.find( x ); auto ct = c.find( x );
	vp_assert( ( it != s.end() ) == ( n > 0 ) && ( ct != c.end() ) == ( n > 0 ), "find succeeds exactly for elements that are there" );
	if ( n > 0 ) vp_assert( *it == x && *ct == x, "find gives an equal element" );
	if ( !in.empty() ) vp_assert( s.front() == got.front() && s.back() == got.back(), "front and back are smallest and largest" );
	vp_assert( s.size() == in.size(), "searching changes nothing" );
	vp_reach( n > 0 ? "found" : "missing" );
}
VP_ENTRY( insert_find )
{
	int n = vp_param( 0 ); sorted_vector< int > s; std::vector< int > in;
	for ( int i = 0; i < n; ++i ) { int v = vp_int( "v" ); auto it = s.insert( v ); in.push_back( v ); vp_assert( it != s.end() && *it == v, "insert returns the position of the new element" ); }
	check( s, in, vp_int( "x" ) );
}
VP_ENTRY( history )
{
	int n = vp_param( 0 ); sorted_vector< int > s; std::vector< int > in;
	for ( int i = 0; i < n; ++i )
	{
		int v = vp_int( "v" );
		if ( vp_choice( 2 ) ) { s.insert( v ); in.push_back( v ); }
		else { auto it = s.find( v ); if ( it != s.end() ) { s.erase( it ); size_t k = 0; while ( k < in.size() && in[ k ] != v ) ++k; vp_assert( k < in.size(), "only elements that were inserted are found" ); in.erase( in.begin() + k ); } }
	}
	check( s, in, vp_int( "x" ) );
	s.clear(); vp_assert( s.empty() && s.begin() == s.end(), "clear removes everything" );
}
struct item { int key; int seq; bool operator<( const item& o ) const { return key < o.key; } bool operator==( const item& o ) const { return key == o.key; } };
VP_ENTRY( stable )
{
	int n = vp_param( 0 ); sorted_vector< item > s;
	for ( int i = 0; i < n; ++i ) { item e{ vp_int( "k" ), i }; s.insert( e ); }
	auto it = s.begin(); for ( auto nx = it; ++nx != s.end(); ++it ) vp_assert( it->key < nx->key || ( it->key == nx->key && it->seq < nx->seq ), "sorted, equal elements in insertion order" );
	vp_assert( s.size() == (size_t)n, "all elements present" ); vp_reach( "end" );
}
VP_ENTRY( text )
{
	int n = vp_param( 0 ); sorted_vector< string > s; std::vector< string > in;
	for ( int i = 0; i < n; ++i ) { string v = vp_str_upto( vp_param( 1 ), "v" ); s.insert( v ); in.push_back( v ); }
	check( s, in, vp_str_upto( vp_param( 1 ), "x" ) );
}
//@ entry=many quick=60 thorough=60 jobs=4
//@ entry=many_equal quick=60 thorough=60 jobs=2
//@ bounds: 60 elements inserted in mixed, ascending or descending order plus an arbitrary one and a search for an arbitrary value; 60 elements with few distinct keys
VP_ENTRY( many )
{
	int n = vp_param( 0 ); sorted_vector< int > s; std::vector< int > in; unsigned k = vp_choice( 3 ); for ( int i = 0; i < n; ++i ) { int v = k == 0 ? i * 37 % 101 * 3 : k == 1 ? i * 3 : -i * 3; s.insert( v ); in.push_back( v ); }
	int v = vp_int( "v" ); auto it = s.insert( v ); vp_assert( *it == v, "position of the new element" ); size_t pos = it - s.begin(); in.push_back( v ); { std::vector< int > got( s.begin(), s.end() ), w = in; std::sort( w.begin(), w.end() ); int ok = 1; for ( size_t i = 0; i < w.size(); ++i ) ok &= got[ i ] == w[ i ]; vp_assert( got.size() == w.size() && ok, "sorted and complete" ); }
	int x = vp_int( "x" ); bool there = false; for ( int e : in ) there |= e == x; auto f = s.find( x ); vp_assert( ( f != s.end() ) == there, "find succeeds exactly for elements that are there" ); if ( there ) vp_assert( *f == x, "find gives an equal element" ); s.erase( s.begin() + pos ); vp_assert( s.size() == in.size() - 1, "one element is erased" ); { std::vector< int > got( s.begin(), s.end() ), w = in; w.pop_back(); std::sort( w.begin(), w.end() ); int ok = 1; for ( size_t i = 0; i < w.size(); ++i ) ok &= got[ i ] == w[ i ]; vp_assert( ok, "the others stay" ); } vp_reach( "end" );
}
VP_ENTRY( many_equal )
{
	int n = vp_param( 0 ); sorted_vector< item > s; int a = vp_int( "a" ), b = vp_int( "b" ); for ( int i = 0; i < n; ++i ) { item e{ i % 5 == 0 ? a : i % 3 == 0 ? b : 7, i }; auto it = s.insert( e ); vp_assert( it->key == e.key && it->seq == i, "position of the new element" ); } vp_assert( s.size() == (size_t)n, "all elements present" ); auto it = s.begin(); for ( auto nx = it; ++nx != s.end(); ++it ) vp_assert( it->key < nx->key || ( it->key == nx->key && it->seq < nx->seq ), "sorted, equal elements in insertion order" ); vp_reach( "end" );
}
//@ entry=large quick=300 thorough=1100 jobs=4
//@ bounds: 300 (thorough 1100) elements inserted in mixed, ascending or descending order, equal or not, then every search value next to or at any of five places
VP_ENTRY( large )
{
	int n = vp_param( 0 ); sorted_vector< int > s; std::vector< int > in; unsigned k = vp_choice( 4 ); for ( int i = 0; i < n; ++i ) { int v = k == 0 ? i * 37 % 1009 * 3 : k == 1 ? i * 3 : k == 2 ? -i * 3 : i * 7 % 5 * 3; auto it = s.insert( v ); vp_assert( *it == v, "position of the new element" ); in.push_back( v ); } std::sort( in.begin(), in.end() ); vp_assert( s.size() == in.size(), "all elements present" ); size_t j = 0; for ( int e : s ) vp_assert( e == in[ j++ ], "sorted and complete" );
	const auto& c = s; int x = in[ (size_t)vp_choice( 5 ) * ( n - 1 ) / 4 ] + (int)vp_range( -3, 3, "x" ); bool there = std::binary_search( in.begin(), in.end(), x ); auto f = s.find( x ); auto g = c.find( x ); vp_assert( ( f != s.end() ) == there && ( g != c.end() ) == there, "find succeeds exactly for elements that are there" ); if ( there ) vp_assert( *f == x && *g == x, "find gives an equal element" ); vp_reach( there ? "found" : "missing" );
}
//@ entry=own_elements quick=4 thorough=5
//@ bounds: every sequence of 4 (5) insertions of a new text or of one of the vector's own elements, and copies
VP_ENTRY( own_elements )
{
	sorted_vector< string > s; std::vector< string > in; string n[ 3 ] = { "m", vp_str( 1, "n" ), "a long text that needs its own memory" }; for ( long i = vp_param( 0 ); i > 0; --i ) { if ( in.empty() || vp_choice( 2 ) ) { const string& q = n[ vp_choice( 3 ) ]; s.insert( q ); in.push_back( q ); } else { size_t p = vp_choice( 2 ) ? 0 : in.size() - 1; string q = *( s.begin() + p ); auto it = s.insert( *( s.begin() + p ) ); vp_assert( *it == q, "an own element is inserted again" ); in.push_back( q ); } } check( s, in, n[ 1 ] ); sorted_vector< string > c( s ); c.insert( "z" ); const sorted_vector< string >& r = s; s = r; check( s, in, n[ 0 ] ); vp_reach( "own" );
}
