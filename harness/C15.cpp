// C15: dynamic array copies, moves and assigns by value
//@ entry=history quick=3,3 thorough=4,3 jobs=8
//@ entry=indices quick=6 thorough=12 jobs=2
//@ entry=elements quick=3 thorough=5 jobs=2
//@ bounds: every history of 3 (thorough 4) operations (construct, copy, move, copy-assign, move-assign incl. self, fill, write) over three arrays of 0..3 arbitrary elements; arrays of 0..6 (12) elements with every 64-bit index; arrays of strings of 0..3 (5) elements
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/dynarray.hpp"
using namespace flut;
typedef std::vector< int > mod;
static void same( const dynarray< int >& a, const mod& m, const char* msg )
{
	vp_assert( a.size() == m.size() && size_t( a.end() - a.begin() ) == m.size() && size_t( a.cend() - a.cbegin() ) == m.size(), "size is the number of elements" );
	size_t i = 0; int ok = 1; for ( const int& e : a ) { ok &= ( e == m[ i ] ) & ( a[ i ] == m[ i ] ); ++i; }
	vp_assert( i == m.size(), "iteration visits every element once" ); vp_assert( ok, msg );
	if ( !m.empty() ) vp_assert( a.data() == a.begin() && &a[ 0 ] == a.data(), "elements are contiguous" );
}
VP_ENTRY( history )
{
	int n = vp_param( 0 ), len = vp_param( 1 ); dynarray< int > a[ 3 ]; mod m[ 3 ]; bool moved[ 3 ] = { false, false, false };
	for ( int i = 0; i < 2; ++i ) { size_t s = vp_choice( len + 1 ); int v = vp_int( "v" ); a[ i ] = dynarray< int >( s, v ); m[ i ] = mod( s, v ); for ( size_t k = 0; k < s; ++k ) { int e = vp_int( "e" ); a[ i ][ k ] = e; m[ i ][ k ] = e; } }
	for ( int i = 0; i < n; ++i )
	{
		unsigned op = vp_choice( 6 ), x = vp_choice( 3 ), y = op < 4 ? vp_choice( 3 ) : 0;
		if ( op < 4 && moved[ y ] ) return;
		if ( op == 0 ) { a[ x ] = a[ y ]; m[ x ] = m[ y ]; moved[ x ] = false; }
		else if ( op == 1 ) { dynarray< int > t( a[ y ] ); same( t, m[ y ], "a copy has the same elements" ); if ( t.size() > 0 ) { t[ 0 ] = vp_int( "t" ); } a[ x ] = a[ y ]; mod c = m[ y ]; m[ x ] = c; moved[ x ] = false; }
		else if ( op == 2 ) { if ( x == y ) return; a[ x ] = std::move( a[ y ] ); m[ x ] = m[ y ]; moved[ x ] = false; moved[ y ] = true; }
		else if ( op == 3 ) { dynarray< int > t( std::move( a[ y ] ) ); same( t, m[ y ], "moving transfers the elements" ); m[ y ].clear(); moved[ y ] = true; }
		else if ( op == 4 ) { if ( moved[ x ] ) return; int v = vp_int( "f" ); a[ x ].assign( v ); for ( auto& e : m[ x ] ) e = v; }
		else { if ( moved[ x ] || m[ x ].empty() ) return; int v = vp_int( "w" ); size_t k = m[ x ].size() - 1; a[ x ].at( k ) = v; m[ x ][ k ] = v; }
		for ( int k = 0; k < 3; ++k ) { if ( !moved[ k ] ) same( a[ k ], m[ k ], "every array has its own elements" ); else { const dynarray< int >& c = a[ k ]; long s = 0; for ( const int& e : c ) s += e & 1; vp_assert( size_t( c.end() - c.begin() ) == c.size(), "a moved-from array is valid" ); } }
	}
	vp_reach( "end" );
}
VP_ENTRY( indices )
{
	size_t n = vp_choice( vp_param( 0 ) + 1 ); int v = vp_int( "v" ); dynarray< int > a( n, v ); const dynarray< int >& c = a; same( a, mod( n, v ), "filled construction sets every element" );
	uint64_t i = vp_u64( "i" ); bool t = false, u = false; int x = 0, y = 0;
	try { x = a.at( i ); } catch ( std::exception& ) { t = true; }
	try { y = c.at( i ); } catch ( std::exception& ) { u = true; }
	vp_assert( t == !( i < n ) && u == t, "checked access fails exactly outside the array" ); if ( !t ) vp_assert( x == v && y == v, "checked access gives the element" );
	dynarray< int > b( n ); vp_assert( b.size() == n, "sized construction" ); for ( size_t k = 0; k < n; ++k ) b[ k ] = (int)k; size_t k = 0; for ( int& e : b ) { vp_assert( e == (int)k, "iteration is in order" ); ++k; }
	dynarray< int > z; vp_assert( z.size() == 0 && z.begin() == z.end(), "default construction is empty" ); vp_reach( t ? "outside" : "inside" );
}
VP_ENTRY( elements )
{
	size_t n = vp_choice( vp_param( 0 ) + 1 ); string s = vp_str( 20, "s" ); dynarray< string > a( n, s ); dynarray< string > b( a ), d; for ( size_t i = 0; i < n; ++i ) a[ i ][ 0 ] = vp_char( "w" );
	for ( size_t i = 0; i < n; ++i ) vp_assert( vp_same( b[ i ], s ), "a copy is independent" );
	d = b; b = dynarray< string >( 2, string( "x" ) ); vp_assert( d.size() == n && b.size() == 2, "assignment takes the size" ); for ( size_t i = 0; i < n; ++i ) vp_assert( vp_same( d[ i ], s ), "an assigned array is independent" );
	const dynarray< string >& self = d; d = self; vp_assert( d.size() == n, "self-assignment keeps the size" ); for ( size_t i = 0; i < n; ++i ) vp_assert( vp_same( d[ i ], s ), "self-assignment keeps the elements" );
	vp_reach( "end" );
}
//@ entry=large quick=1000 thorough=1000
//@ entry=self quick=3 thorough=5
//@ bounds: arrays of 1000 arbitrary elements copied, moved, assigned and filled; self assignment of arrays of 0..3 (5) elements by copy and by move
static mod mk( size_t n, dynarray< int >& a ) { mod m; a = dynarray< int >( n, 0 ); for ( size_t i = 0; i < n; ++i ) { m.push_back( i % 10 ? (int)i : vp_int( "e" ) ); a[ i ] = m[ i ]; } return m; }
VP_ENTRY( large )
{
	size_t n = vp_param( 0 ); dynarray< int > a, b; mod m = mk( n, a ), w = mk( n / 3, b ); dynarray< int > c( a ); same( c, m, "a copy has the same elements" ); dynarray< int > d; d = a; same( d, m, "an assigned array has the same elements" ); d = b; same( d, w, "smaller" ); d = a; same( d, m, "larger again" ); c[ n - 1 ] = vp_int( "w" ); c[ 0 ] = 5; same( a, m, "independent" ); same( d, m, "independent" ); dynarray< int > e( std::move( d ) ); same( e, m, "moving transfers the elements" ); vp_assert( size_t( d.end() - d.begin() ) == d.size(), "a moved-from array is valid" ); b = std::move( e ); same( b, m, "moving transfers the elements" ); int v = vp_int( "f" ); b.assign( v ); same( b, mod( n, v ), "filling sets every element" ); uint64_t i = vp_u64( "i" ); bool t = false; try { (void)a.at( i ); } catch ( std::exception& ) { t = true; } vp_assert( t == ( i >= n ), "checked access fails exactly outside the array" ); vp_reach( "end" );
}
VP_ENTRY( self )
{
	dynarray< int > a; mod m = mk( vp_choice( vp_param( 0 ) + 1 ), a ); dynarray< int >& r = a; if ( vp_choice( 2 ) ) { dynarray< int >& x = ( a = r ); vp_assert( &x == &a, "assignment returns the array" ); same( a, m, "self-assignment keeps the elements" ); } else { dynarray< int >& x = ( a = std::move( r ) ); vp_assert( &x == &a, "assignment returns the array" ); vp_assert( size_t( a.end() - a.begin() ) == a.size(), "still valid" ); } dynarray< int > b, c( b ); vp_assert( c.size() == 0, "an empty copy" ); c = a; c = b; vp_assert( c.size() == 0, "assigned empty" ); a = dynarray< int >(); vp_assert( a.size() == 0 && a.begin() == a.end(), "assigned an empty temporary" ); vp_reach( "end" );
}
//@ entry=assign_long quick=40 thorough=100
//@ bounds: copies, assignments and fills of arrays of 1..40 (thorough 100) elements onto arrays of the same, a smaller and a larger size, with one arbitrary element at any place
VP_ENTRY( assign_long )
{
	static const int sizes[] = { 1, 2, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33 }; unsigned w = vp_choice( 14 ); size_t n = w < 13 ? sizes[ w ] : vp_param( 0 ), at = vp_choice( 3 ); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; dynarray< int > a( n ); mod m( n ); for ( size_t i = 0; i < n; ++i ) a[ i ] = m[ i ] = (int)( i * 7 + 3 ); a[ at ] = m[ at ] = vp_int( "v" );
	size_t o = vp_choice( 4 ); o = o == 0 ? n : o == 1 ? n - 1 : o == 2 ? n + 1 : 2 * n; dynarray< int > b( o, -1 ), c( a ), d( o, -2 ), e; b = a; same( a, m, "the source of an assignment is unchanged" ); same( b, m, "assigned" ); same( c, m, "copied" ); d = std::move( c ); same( d, m, "moved" ); e = d; same( e, m, "assigned to an empty array" ); const auto& self = e; e = self; same( e, m, "assigned to itself" );
	b[ at ] = 5; a[ n - 1 ] = 6; same( d, m, "independent" ); int v = vp_int( "f" ); d.assign( v ); same( d, mod( n, v ), "filled" ); same( e, m, "independent" ); same( dynarray< int >( n, v ), mod( n, v ), "filled construction" ); vp_reach( "long" );
}
