// C12: flat map behaves as a map under any history
//@ entry=history quick=5 thorough=6 jobs=8
//@ entry=insertions quick=6 thorough=8 jobs=4
//@ entry=string_keys quick=4,2 thorough=4,3 jobs=4
//@ entry=int_keys quick=3 thorough=3 jobs=4
//@ bounds: every history of 5 (thorough 6) operations out of indexed write, indexed read, checked write, checked read, erase, clear, with arbitrary 32-bit keys and values; 6 (8) insertions with arbitrary keys; histories of 4 operations with arbitrary string keys of at most 2 (3) bytes; histories of 3 operations with int keys in -9..9
#include "oracle.h"
#include "flut/string_tools.hpp"
using namespace flut;
// 32-bit key with a constant text form, so that error messages do not multiply the paths
struct tag { int v; bool operator==( const tag& o ) const { return v == o.v; } };
namespace flut { template<> struct string_cast< tag, void > { static string to( const tag& ) { return "tag"; } }; }
#include "flut/flat_map.hpp"
template< typename K > struct model {
	std::vector< K > k; std::vector< int > v;
	size_t at( const K& x ) const { for ( size_t i = 0; i < k.size(); ++i ) if ( k[ i ] == x ) return i; return k.size(); }
};
template< typename K > void check_state( flat_map< K, int >& m, const model< K >& o )
{
	const flat_map< K, int >& c = m;
	vp_assert( m.size() == o.k.size() && m.empty() == o.k.empty(), "size is the number of distinct keys" );
	size_t i = 0; int same = 1;
	for ( auto it = m.begin(); it != m.end(); ++it, ++i ) same &= ( it->first == o.k[ i ] ) & ( it->second == o.v[ i ] );
	vp_assert( same, "keys stand in order of first insertion with the value last assigned" );
	vp_assert( size_t( c.cend() - c.cbegin() ) == o.k.size() && size_t( c.end() - c.begin() ) == o.k.size(), "iteration covers every key once" );
	if ( !o.k.empty() ) vp_assert( m.front().second == o.v.front() && m.back().second == o.v.back(), "front and back are the first and last entries" );
}
template< typename K > void probe( flat_map< K, int >& m, const model< K >& o, const K& key )
{
	const flat_map< K, int >& c = m; size_t p = o.at( key ); bool in = p < o.k.size();
	vp_assert( size_t( m.find( key ) - m.begin() ) == p, "find gives the position of the key, or the end" );
	vp_assert( size_t( c.find( key ) - c.begin() ) == p, "const find gives the position of the key, or the end" );
	vp_assert( c.count( key ) == ( in ? 1u : 0u ), "count is one for present keys and zero for absent ones" );
	vp_assert( c.has_key( key ) == in, "membership agrees with the contents" );
	bool t1 = false, t2 = false, t3 = false; int v1 = 0, v2 = 0, v3 = 0;
	try { v1 = m.at( key ); } catch ( std::exception& ) { t1 = true; }
	try { v2 = c.at( key ); } catch ( std::exception& ) { t2 = true; }
	try { v3 = c[ key ]; } catch ( std::exception& ) { t3 = true; }
	vp_assert( t1 == !in && t2 == !in && t3 == !in, "checked look-up fails exactly for absent keys" );
	if ( in ) vp_assert( v1 == o.v[ p ] && v2 == o.v[ p ] && v3 == o.v[ p ], "look-up returns the value last assigned" );
	vp_assert( m.size() == o.k.size(), "checked look-up adds nothing" );
	vp_reach( in ? "present" : "absent" );
}
template< typename K, typename G > void run( int n, G gen )
{
	flat_map< K, int > m; model< K > o;
	for ( int i = 0; i < n; ++i )
	{
		unsigned op = vp_choice( 6 );
		if ( op == 5 ) { m.clear(); o.k.clear(); o.v.clear(); continue; }
		K key = gen(); size_t p = o.at( key ); bool in = p < o.k.size();
		if ( op == 0 ) { int v = vp_int( "v" ); m[ key ] = v; if ( in ) o.v[ p ] = v; else { o.k.push_back( key ); o.v.push_back( v ); } }
		else if ( op == 1 ) { int v = m[ key ]; vp_assert( v == ( in ? o.v[ p ] : 0 ), "indexing gives the value, or a default for an absent key" ); if ( !in ) { o.k.push_back( key ); o.v.push_back( 0 ); } }
		else if ( op == 2 ) { int v = vp_int( "v" ); bool t = false; try { m.at( key ) = v; } catch ( std::exception& ) { t = true; } vp_assert( t == !in, "checked write fails exactly for absent keys" ); if ( in ) o.v[ p ] = v; }
		else if ( op == 3 ) probe( m, o, key );
		else { auto it = m.find( key ); vp_assert( ( it != m.end() ) == in, "find reports presence" ); if ( in ) { m.erase( it ); o.k.erase( o.k.begin() + p ); o.v.erase( o.v.begin() + p ); } }
	}
	check_state( m, o );
	flat_map< K, int > m2( m ); probe( m2, o, gen() );
	vp_reach( "end" );
}
VP_ENTRY( history ) { run< tag >( vp_param( 0 ), []() { return tag{ vp_int( "k" ) }; } ); }
VP_ENTRY( int_keys ) { run< int >( vp_param( 0 ), []() { return vp_range( -9, 9, "k" ); } ); }
VP_ENTRY( string_keys ) { int n = vp_param( 1 ); run< string >( vp_param( 0 ), [n]() { return vp_str_upto( n, "k" ); } ); }
VP_ENTRY( insertions )
{
	int n = vp_param( 0 ); flat_map< int, int > m; model< int > o;
	for ( int i = 0; i < n; ++i ) { int k = vp_int( "k" ), v = vp_int( "v" ); m[ k ] = v; size_t p = o.at( k ); if ( p < o.k.size() ) o.v[ p ] = v; else { o.k.push_back( k ); o.v.push_back( v ); } }
	check_state( m, o ); vp_reach( "end" );
}
//@ entry=many quick=300 thorough=300 jobs=4
//@ entry=many_text quick=40 thorough=40 jobs=2
//@ bounds: maps of 300 keys followed by three operations with arbitrary keys; 40 keys of up to 40 characters
VP_ENTRY( many )
{
	int n = vp_param( 0 ); flat_map< tag, int > m; model< tag > o; for ( int i = 0; i < n; ++i ) { int k = i * 7919 % 1009, v = vp_int( "v" ); m[ tag{ k } ] = v; o.k.push_back( tag{ k } ); o.v.push_back( v ); }
	check_state( m, o ); for ( int i = 0; i < n; i += n / 4 ) { int v = vp_int( "w" ); m[ o.k[ i ] ] = v; o.v[ i ] = v; } for ( int i = n - 1; i > 0; i -= n / 3 ) { m.erase( m.find( o.k[ i ] ) ); o.k.erase( o.k.begin() + i ); o.v.erase( o.v.begin() + i ); }
	tag a{ vp_int( "a" ) }; int v = vp_int( "v" ); m[ a ] = v; size_t p = o.at( a ); if ( p < o.k.size() ) o.v[ p ] = v; else { o.k.push_back( a ); o.v.push_back( v ); } check_state( m, o ); probe( m, o, a ); probe( m, o, o.k.back() ); probe( m, o, o.k[ n / 2 ] ); const flat_map< tag, int > c( m ); m.clear(); vp_assert( c.size() == o.k.size() && c.has_key( o.k[ 1 ] ), "a copy is independent" ); vp_reach( "end" );
}
VP_ENTRY( many_text )
{
	int n = vp_param( 0 ); flat_map< string, int > m; model< string > o; for ( int i = 0; i < n; ++i ) { string k = string( i * 2, 'k' ) + ( i % 5 == 0 ? vp_str( 1, "k" ) : string( 1, '_' ) ); int v = vp_int( "v" ); size_t p = o.at( k ); m[ k ] = v; if ( p < o.k.size() ) o.v[ p ] = v; else { o.k.push_back( k ); o.v.push_back( v ); } } check_state( m, o ); probe( m, o, o.k[ n - 1 ] ); probe( m, o, string( 10, 'k' ) + vp_str( 1, "q" ) ); vp_reach( "end" );
}
//@ entry=own_keys quick=4 thorough=5
//@ bounds: every sequence of 4 (5) insertions, look-ups through the map's own keys and erasures
VP_ENTRY( own_keys )
{
	flat_map< string, int > m; model< string > o; string n[ 3 ] = { "a", vp_str( 1, "n" ) + "x", "a long key that needs its own memory" }; for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned k = vp_choice( 3 ); int v = vp_int( "v" ); size_t p = o.at( n[ k ] ); switch ( vp_choice( 3 ) ) { case 0: m[ n[ k ] ] = v; if ( p == o.k.size() ) { o.k.push_back( n[ k ] ); o.v.push_back( v ); } else o.v[ p ] = v; break; case 1: if ( p < o.k.size() ) { m[ ( m.begin() + p )->first ] = v; o.v[ p ] = v; m.at( m.back().first ) = v; o.v.back() = v; } break; case 2: if ( p < o.k.size() ) { m.erase( m.find( ( m.begin() + p )->first ) ); o.k.erase( o.k.begin() + p ); o.v.erase( o.v.begin() + p ); } break; } } check_state( m, o ); const flat_map< string, int >& r = m; flat_map< string, int > c( m ); m = r; check_state( m, o ); c[ n[ 0 ] ] = 1; c.clear(); check_state( m, o ); vp_reach( "own" );
}
