// C33: memoization
//@ entry=unary quick=4 thorough=6
//@ entry=binary quick=3 thorough=4
//@ entry=text quick=3 thorough=4
//@ entry=failing quick=4 thorough=5
//@ entry=recursive quick=7 thorough=10
//@ bounds: all histories of 4 calls with any 32-bit arguments (thorough 6), 3 calls with two arguments (thorough 4), 4 (5) calls of which any may fail; 3 calls with string arguments up to 1 byte (thorough 4), any function (each new argument gets an arbitrary value)
#include "oracle.h"
#include <map>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <functional>
#include "flut/memoize.hpp"
using namespace flut;
VP_ENTRY( unary )
{
	std::vector< std::pair< int, int > > calls; memoize< int( int ) > f( [&]( int x ) { int r = vp_int( "r" ); calls.push_back( { x, r } ); return r; } );
	for ( long k = vp_param( 0 ); k > 0; --k ) { int x = vp_int( "x" ); size_t before = calls.size(); int known = 0, val = 0; for ( auto& c : calls ) { int e = c.first == x; known |= e; val = e ? c.second : val; } int r = f( x ); if ( known ) { vp_assert( calls.size() == before, "a known argument calls nothing" ); vp_assert( r == val, "a known argument gives the known value" ); vp_reach( "known" ); } else { vp_assert( calls.size() == before + 1, "a new argument calls the function once" ); vp_assert( calls.back().first == x && calls.back().second == r, "a new argument gives the function's value" ); vp_reach( "new" ); } }
}
VP_ENTRY( binary )
{
	struct C { int a; unsigned char b; int r; }; std::vector< C > calls; memoize< int( int, unsigned char ) > f( [&]( int a, unsigned char b ) { int r = vp_int( "r" ); calls.push_back( { a, b, r } ); return r; } );
	for ( long k = vp_param( 0 ); k > 0; --k ) { int a = vp_int( "a" ); unsigned char b = vp_sym_u8( "b" ); size_t before = calls.size(); int known = 0, val = 0; for ( auto& c : calls ) { int e = vp_and( c.a == a, c.b == b ); known |= e; val = e ? c.r : val; } int r = f( a, b ); if ( known ) { vp_assert( calls.size() == before && r == val, "known arguments give the known value without a call" ); vp_reach( "known" ); } else { vp_assert( calls.size() == before + 1 && calls.back().a == a && calls.back().b == b && calls.back().r == r, "new arguments call the function once" ); vp_reach( "new" ); } }
}
VP_ENTRY( text )
{
	std::vector< std::pair< std::string, int > > calls; memoize< int( std::string ) > f( [&]( std::string x ) { int r = vp_int( "r" ); calls.push_back( { x, r } ); return r; } );
	for ( long k = vp_param( 0 ); k > 0; --k ) { std::string x = vp_str_upto( 1, "x" ); size_t before = calls.size(); int known = 0, val = 0; for ( auto& c : calls ) { int e = vp_same( c.first, x ); known |= e; val = e ? c.second : val; } int r = f( x ); if ( known ) vp_assert( calls.size() == before && r == val, "a known text gives the known value without a call" ); else vp_assert( calls.size() == before + 1 && vp_same( calls.back().first, x ) && calls.back().second == r, "a new text calls the function once" ); vp_reach( "end" ); }
}
// a call that fails is not remembered
VP_ENTRY( failing )
{
	std::vector< int > ok; int calls = 0; bool fail = false; memoize< int( int ) > f( [&]( int x ) -> int { ++calls; if ( fail ) throw std::runtime_error( "no" ); ok.push_back( x ); return x * 2 + 1; } ); for ( long k = vp_param( 0 ); k > 0; --k ) { int x = vp_range( 0, 1000, "x" ); fail = vp_choice( 2 ) != 0; bool known = false; for ( int o : ok ) known = known || o == x; int before = calls, r = 0; bool t = false; try { r = f( x ); } catch ( std::exception& ) { t = true; } vp_assert( t == ( fail && !known ), "a failure is passed on, for arguments that are not known" ); vp_assert( calls == before + !known, "an argument is known only after a call that succeeded" ); if ( !t ) vp_assert( r == x * 2 + 1, "the value" ); vp_reach( t ? "failed" : "value" ); }
}
VP_ENTRY( recursive ) { int n = (int)vp_param( 0 ), calls = 0; unsigned x = vp_choice( n ); memoize< long( int ) >* p = nullptr; memoize< long( int ) > f( [&]( int k ) -> long { ++calls; return k < 2 ? k : ( *p )( k - 1 ) + ( *p )( k - 2 ); } ); p = &f; long a = 0, b = 1; for ( unsigned i = 0; i < x; ++i ) { long c = a + b; a = b; b = c; } vp_assert( f( x ) == a, "a recursive function gives its value" ); vp_assert( calls == ( x < 2 ? 1 : (int)x + 1 ), "every argument is computed once" ); int before = calls; vp_assert( f( x ) == a && calls == before, "and never again" ); vp_reach( "end" ); }
//@ entry=many quick=34 thorough=100
//@ entry=many_text quick=35 thorough=50
//@ bounds: 34 (thorough 100) given arguments followed by two calls with arbitrary ones; 35 (thorough 50) texts of up to 40 characters
VP_ENTRY( many )
{
	int n = (int)vp_param( 0 ); std::vector< std::pair< int, int > > calls; memoize< int( int ) > f( [&]( int x ) { int r = vp_int( "r" ); calls.push_back( { x, r } ); return r; } ); for ( int i = 0; i < n; ++i ) { int x = ( i * 37 % 128 ) * 1000; int r = f( x ); vp_assert( (int)calls.size() == i + 1 && calls.back().first == x && calls.back().second == r, "a new argument calls the function once" ); }
	for ( int i = 0; i < n; ++i ) { vp_assert( f( ( i * 37 % 128 ) * 1000 ) == calls[ i ].second && (int)calls.size() == n, "a known argument gives the known value" ); } for ( int k = 0; k < 2; ++k ) { int x = vp_int( "x" ); size_t before = calls.size(); int known = 0, val = 0; for ( auto& c : calls ) { int e = c.first == x; known |= e; val = e ? c.second : val; } int r = f( x ); vp_assert( calls.size() == before + !known, "only a new argument calls the function" ); vp_assert( r == ( known ? val : calls.back().second ), "the value of the argument" ); vp_reach( "end" ); }
}
VP_ENTRY( many_text )
{
	int n = (int)vp_param( 0 ), calls = 0; memoize< int( std::string, std::string ) > f( [&]( std::string a, std::string b ) { ++calls; return (int)( a.size() * 100 + b.size() * 10 ) + ( a.empty() ? 0 : a.back() - 'a' ); } ); auto a = [&]( int i ) { return std::string( i * 2, 'q' ) + char( 'a' + i % 3 ); }; for ( int r = 0; r < 2; ++r ) for ( int i = 0; i < n; ++i ) for ( int j = 0; j < 2; ++j ) { int v = f( a( i ), std::string( j, 'z' ) ); vp_assert( v == ( i * 2 + 1 ) * 100 + j * 10 + i % 3, "the value of the arguments" ); vp_assert( calls == ( r ? n * 2 : i * 2 + j + 1 ), "every argument is computed once" ); }
	std::string s = a( n / 2 ); s[ n - 2 ] = (char)vp_sym_u8( "c" ); int before = calls; f( s, "" ); vp_assert( calls == before + ( s[ n - 2 ] != 'q' ), "texts that differ in one character are different arguments" ); vp_reach( "end" );
}
//@ entry=instances quick=5 thorough=6
//@ bounds: every sequence of 5 (6) calls on two memoized functions of the same type and a copy of the first, with three arguments, one arbitrary
VP_ENTRY( instances )
{
	int calls[ 2 ] = { 0, 0 }, a[ 3 ] = { 3, vp_range( 10, 1000, "x" ), 4 }; memoize< int( int ) > f( [&]( int x ) { ++calls[ 0 ]; return x * 2; } ), g( [&]( int x ) { ++calls[ 1 ]; return x * 3 + 1; } ); bool known[ 3 ][ 3 ] = {}; std::unique_ptr< memoize< int( int ) > > c;
	for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 3 ), k = vp_choice( 3 ); if ( w == 2 && !c ) { c.reset( new memoize< int( int ) >( f ) ); for ( int j = 0; j < 3; ++j ) known[ 2 ][ j ] = known[ 0 ][ j ]; } int* n = &calls[ w == 1 ]; int before = *n, r = w == 0 ? f( a[ k ] ) : w == 1 ? g( a[ k ] ) : ( *c )( a[ k ] ); vp_assert( r == ( w == 1 ? a[ k ] * 3 + 1 : a[ k ] * 2 ), "every function gives its own values" ); vp_assert( *n == before + ( known[ w ][ k ] ? 0 : 1 ), "every function remembers its own arguments" ); known[ w ][ k ] = true; } vp_reach( "instances" );
}
