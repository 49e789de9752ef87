// C14: dictionary look-ups are inverse and total where promised
//@ entry=table quick=5,1 thorough=5,2 jobs=4
//@ entry=names quick=3,3 thorough=4,3 jobs=4
//@ entry=one_shot quick=3,2 thorough=4,2 jobs=4
//@ entry=enums quick=3 thorough=4 jobs=2
//@ bounds: every table of 0..5 entries with arbitrary int elements in -9..9 and names of 0..1 (thorough 2) arbitrary bytes; every table of 0..3 (4) entries with names of 0..3 bytes; every looked-up element and name of the same kind; one-shot tables of 3 (4) entries with names without NUL
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/dictionary.hpp"
using namespace flut;
typedef std::pair< int, string > ent;
template< size_t... I > struct seq {};
static dictionary< int > make( const std::vector< ent >& v )
{
	switch ( v.size() ) {
	case 0: return dictionary< int >();
	case 1: return dictionary< int >( { v[ 0 ] } );
	case 2: return dictionary< int >( { v[ 0 ], v[ 1 ] } );
	case 3: return make_dictionary< int >( { v[ 0 ], v[ 1 ], v[ 2 ] } );
	case 4: return dictionary< int >( { v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] } );
	default: return make_dictionary< int >( { v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ] } );
	}
}
static void check( dictionary< int >& d, const std::vector< ent >& v, int e, const string& s, int def )
{
	size_t pe = 0, ps = 0; while ( pe < v.size() && !( v[ pe ].first == e ) ) ++pe; while ( ps < v.size() && !( v[ ps ].second == s ) ) ++ps;
	bool t = false; string n; try { n = d( e ); } catch ( std::exception& ) { t = true; }
	vp_assert( t == ( pe == v.size() ), "looking up an element fails exactly when it is missing" );
	if ( !t ) vp_assert( vp_same( n, v[ pe ].second ), "an element gives the name of the first pair with it" );
	bool u = false; int x = 0; try { x = d( s ); } catch ( std::exception& ) { u = true; }
	vp_assert( u == ( ps == v.size() ), "looking up a name fails exactly when it is missing" );
	if ( !u ) vp_assert( x == v[ ps ].first, "a name gives the element of the first pair with it" );
	int y = d( s, def ); vp_assert( y == ( ps == v.size() ? def : v[ ps ].first ), "a missing name gives the default, a present one its element" );
	vp_reach( t ? "no element" : "element" ); vp_reach( u ? "no name" : "name" );
}
static void run( int n, int len )
{
	std::vector< ent > v; unsigned k = vp_choice( n + 1 );
	for ( unsigned i = 0; i < k; ++i ) { int e = vp_range( -9, 9, "e" ); v.push_back( ent( e, vp_str_upto( len, "n" ) ) ); }
	dictionary< int > d = make( v ); int e = vp_range( -9, 9, "q" ); string s = vp_str_upto( len, "s" ); int def = vp_int( "def" );
	check( d, v, e, s, def );
	for ( auto& p : v ) { int y = d( p.second, def ); size_t i = 0; while ( v[ i ].second != p.second ) ++i; vp_assert( y == v[ i ].first, "look-ups leave the table alone" ); }
}
VP_ENTRY( table ) { run( vp_param( 0 ), vp_param( 1 ) ); }
VP_ENTRY( names ) { run( vp_param( 0 ), vp_param( 1 ) ); }
VP_ENTRY( enums )
{
	enum fruit { no_fruit, apple, pear, other }; int n = vp_param( 0 );
	fruit f[ 5 ]; char c[ 5 ]; for ( int i = 0; i < 5; ++i ) { f[ i ] = (fruit)vp_range( 0, 3, "f" ); c[ i ] = vp_char( "c" ); }
	dictionary< fruit > d = n == 3 ? dictionary< fruit >( { { f[ 0 ], string( 1, c[ 0 ] ) }, { f[ 1 ], string( 1, c[ 1 ] ) }, { f[ 2 ], string( 1, c[ 2 ] ) } } ) : dictionary< fruit >( { { f[ 0 ], string( 1, c[ 0 ] ) }, { f[ 1 ], string( 1, c[ 1 ] ) }, { f[ 2 ], string( 1, c[ 2 ] ) }, { f[ 3 ], string( 1, c[ 3 ] ) } } );
	char q = vp_char( "q" ); fruit r = d( string( 1, q ), no_fruit ); fruit e = no_fruit; for ( int i = n; i-- > 0; ) if ( c[ i ] == q ) e = f[ i ];
	vp_assert( r == e, "a name gives its first element or the default" );
	for ( int i = 0; i < n; ++i ) { string s = d( f[ i ] ); int k = 0; while ( f[ k ] != f[ i ] ) ++k; vp_assert( s.size() == 1 && s[ 0 ] == c[ k ], "an element gives its first name" ); }
	vp_reach( "end" );
}
VP_ENTRY( one_shot )
{
	int n = vp_param( 0 ), len = vp_param( 1 ); string nm[ 4 ]; int e[ 4 ];
	for ( int i = 0; i < 4; ++i ) { nm[ i ] = vp_str_nz( vp_choice( i < n ? len + 1 : 1 ), "n" ); e[ i ] = vp_int( "e" ); }
	string s = vp_str_upto( len, "s" ); bool t = false; int r = 0;
	try { r = n == 3 ? lookup< int >( s, { { nm[ 0 ].c_str(), e[ 0 ] }, { nm[ 1 ].c_str(), e[ 1 ] }, { nm[ 2 ].c_str(), e[ 2 ] } } ) : lookup< int >( s, { { nm[ 0 ].c_str(), e[ 0 ] }, { nm[ 1 ].c_str(), e[ 1 ] }, { nm[ 2 ].c_str(), e[ 2 ] }, { nm[ 3 ].c_str(), e[ 3 ] } } ); }
	catch ( std::exception& ) { t = true; }
	int k = 0; while ( k < n && !( nm[ k ] == s ) ) ++k;
	vp_assert( t == ( k == n ), "one-shot look-up fails exactly for a missing name" ); if ( !t ) vp_assert( r == e[ k ], "one-shot look-up gives the first match" );
	vp_reach( t ? "missing" : "found" );
}
//@ entry=many quick= jobs=2
//@ bounds: tables of 40 entries with long names, arbitrary elements and an arbitrary byte in every seventh name
VP_ENTRY( many )
{
	string nm[ 40 ]; int e[ 40 ]; for ( int i = 0; i < 40; ++i ) { nm[ i ] = "name" + string( i % 20, 'x' ) + std::to_string( i / 2 * 2 ); if ( i % 7 == 3 ) nm[ i ] += vp_char( "n" ); e[ i ] = i % 9 == 4 ? vp_range( -9, 9, "e" ) : i % 31; }
	dictionary< int > d( { { e[ 0 ], nm[ 0 ] }, { e[ 1 ], nm[ 1 ] }, { e[ 2 ], nm[ 2 ] }, { e[ 3 ], nm[ 3 ] }, { e[ 4 ], nm[ 4 ] }, { e[ 5 ], nm[ 5 ] }, { e[ 6 ], nm[ 6 ] }, { e[ 7 ], nm[ 7 ] }, { e[ 8 ], nm[ 8 ] }, { e[ 9 ], nm[ 9 ] }, { e[ 10 ], nm[ 10 ] }, { e[ 11 ], nm[ 11 ] }, { e[ 12 ], nm[ 12 ] }, { e[ 13 ], nm[ 13 ] }, { e[ 14 ], nm[ 14 ] }, { e[ 15 ], nm[ 15 ] }, { e[ 16 ], nm[ 16 ] }, { e[ 17 ], nm[ 17 ] }, { e[ 18 ], nm[ 18 ] }, { e[ 19 ], nm[ 19 ] }, { e[ 20 ], nm[ 20 ] }, { e[ 21 ], nm[ 21 ] }, { e[ 22 ], nm[ 22 ] }, { e[ 23 ], nm[ 23 ] }, { e[ 24 ], nm[ 24 ] }, { e[ 25 ], nm[ 25 ] }, { e[ 26 ], nm[ 26 ] }, { e[ 27 ], nm[ 27 ] }, { e[ 28 ], nm[ 28 ] }, { e[ 29 ], nm[ 29 ] }, { e[ 30 ], nm[ 30 ] }, { e[ 31 ], nm[ 31 ] }, { e[ 32 ], nm[ 32 ] }, { e[ 33 ], nm[ 33 ] }, { e[ 34 ], nm[ 34 ] }, { e[ 35 ], nm[ 35 ] }, { e[ 36 ], nm[ 36 ] }, { e[ 37 ], nm[ 37 ] }, { e[ 38 ], nm[ 38 ] }, { e[ 39 ], nm[ 39 ] } } ); std::vector< ent > v; for ( int i = 0; i < 40; ++i ) v.push_back( ent( e[ i ], nm[ i ] ) ); int def = vp_int( "def" ); unsigned k = vp_choice( 3 ); string s = k == 0 ? nm[ 39 ] : k == 1 ? nm[ 4 ] + vp_char( "q" ) : "name" + string( 5, 'x' ) + "14"; check( d, v, vp_range( -9, 40, "q" ), s, def ); check( d, v, e[ 39 ], nm[ 38 ], def ); for ( auto& c : nm ) for ( char x : c ) vp_assume( x != 0 );
	bool t = false; int r = 0; try { r = lookup< int >( s, { { nm[ 0 ].c_str(), e[ 0 ] }, { nm[ 1 ].c_str(), e[ 1 ] }, { nm[ 2 ].c_str(), e[ 2 ] }, { nm[ 3 ].c_str(), e[ 3 ] }, { nm[ 4 ].c_str(), e[ 4 ] }, { nm[ 5 ].c_str(), e[ 5 ] }, { nm[ 6 ].c_str(), e[ 6 ] }, { nm[ 7 ].c_str(), e[ 7 ] }, { nm[ 8 ].c_str(), e[ 8 ] }, { nm[ 9 ].c_str(), e[ 9 ] }, { nm[ 10 ].c_str(), e[ 10 ] }, { nm[ 11 ].c_str(), e[ 11 ] }, { nm[ 12 ].c_str(), e[ 12 ] }, { nm[ 13 ].c_str(), e[ 13 ] }, { nm[ 14 ].c_str(), e[ 14 ] }, { nm[ 15 ].c_str(), e[ 15 ] }, { nm[ 16 ].c_str(), e[ 16 ] }, { nm[ 17 ].c_str(), e[ 17 ] }, { nm[ 18 ].c_str(), e[ 18 ] }, { nm[ 19 ].c_str(), e[ 19 ] }, { nm[ 20 ].c_str(), e[ 20 ] }, { nm[ 21 ].c_str(), e[ 21 ] }, { nm[ 22 ].c_str(), e[ 22 ] }, { nm[ 23 ].c_str(), e[ 23 ] }, { nm[ 24 ].c_str(), e[ 24 ] }, { nm[ 25 ].c_str(), e[ 25 ] }, { nm[ 26 ].c_str(), e[ 26 ] }, { nm[ 27 ].c_str(), e[ 27 ] }, { nm[ 28 ].c_str(), e[ 28 ] }, { nm[ 29 ].c_str(), e[ 29 ] }, { nm[ 30 ].c_str(), e[ 30 ] }, { nm[ 31 ].c_str(), e[ 31 ] }, { nm[ 32 ].c_str(), e[ 32 ] }, { nm[ 33 ].c_str(), e[ 33 ] }, { nm[ 34 ].c_str(), e[ 34 ] }, { nm[ 35 ].c_str(), e[ 35 ] }, { nm[ 36 ].c_str(), e[ 36 ] }, { nm[ 37 ].c_str(), e[ 37 ] }, { nm[ 38 ].c_str(), e[ 38 ] }, { nm[ 39 ].c_str(), e[ 39 ] } } ); } catch ( std::exception& ) { t = true; } int p = 0; while ( p < 40 && nm[ p ] != s ) ++p; vp_assert( t == ( p == 40 ), "one-shot look-up fails exactly for a missing name" ); if ( !t ) vp_assert( r == e[ p ], "one-shot look-up gives the first match" ); vp_reach( "end" );
}
//@ entry=instances quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 (5) look-ups in three tables of the same type that share some names and elements, one name arbitrary
VP_ENTRY( instances )
{
	string x = vp_str( 1, "x" ); std::vector< ent > v[ 3 ]; v[ 0 ] = { { 1, "one" }, { 2, x }, { 3, "three" } }; v[ 1 ] = { { 5, "one" }, { 1, "uno" } }; v[ 2 ] = { { 2, "three" } }; dictionary< int > d[ 3 ] = { make( v[ 0 ] ), make( v[ 1 ] ), make( v[ 2 ] ) }; const char* q[] = { "one", "uno", "three" };
	for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 3 ), k = vp_choice( 3 ); check( d[ w ], v[ w ], (int)k + 1, vp_choice( 2 ) ? string( q[ k ] ) : x, -7 ); } vp_reach( "instances" );
}
