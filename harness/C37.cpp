// C37: INI text written to a file reads back as the same groups
//@ entry=one_group quick=3,3 thorough=3,5 jobs=8
//@ entry=groups quick=2,2 thorough=3,2 jobs=8
//@ entry=main_items quick=2,2 thorough=3,2 jobs=4
//@ entry=comments quick=4 thorough=6 jobs=8
//@ entry=text quick=7 thorough=8 jobs=8
//@ bounds: a group with a name and a key of 1..3 and a value of 0..3 (thorough 5) arbitrary bytes; 2 (3) groups of up to 2 items; up to 2 (3) items outside groups followed by a group; comment and blank lines of every kind between items; every text of 0..7 (8) characters over [ ] = # a newline space is read safely and as defined
//@ assume: group names, keys and values contain no line break or zero byte; group names and keys are not empty; keys contain no =, do not start with [ or #, and keys and values neither start nor end with blanks (the format has no quoting); a key occurs once per group
#include "tree.h"
#include "flut/prop_node_tools.hpp"
using namespace flut;
static bool blank( char c ) { return c == ' ' || ( c >= 9 && c <= 13 ); }
static string word( size_t lo, size_t hi, const char* bad, const char* nm )
{
	size_t n = lo + vp_choice( unsigned( hi - lo + 1 ) ); string s = vp_str( n, nm ); size_t bn = strlen( bad );
	for ( size_t i = 0; i < n; ++i ) { vp_assume( vp_and( s[ i ] != 0, vp_and( s[ i ] != '\n', s[ i ] != '\r' ) ) ); vp_assume( !vp_in_set( s[ i ], bad, bn ) ); }
	if ( n > 0 ) { vp_assume( !vp_in_set( s[ 0 ], " \t\n\v\f\r", 6 ) ); vp_assume( !vp_in_set( s[ n - 1 ], " \t\n\v\f\r", 6 ) ); }
	return s;
}
static string nm( size_t n ) { string s = word( 1, n, "=", "k" ); vp_assume( !vp_in_set( s[ 0 ], "[#", 2 ) ); return s; }
static string gr( size_t n ) { string s = vp_str( 1 + vp_choice( (unsigned)n ), "g" ); for ( char c : s ) vp_assume( vp_and( c != 0, vp_and( c != '\n', c != '\r' ) ) ); return s; }
static void round_trip( const node& n )
{
	prop_node p = to_prop( n ); save_ini( p, path( "f.ini" ) ); vp_assert( same_tree( p, n ), "saving leaves the tree alone" ); prop_node q; bool t = false; try { q = load_ini( path( "f.ini" ) ); } catch ( std::exception& ) { t = true; }
	vp_assert( !t, "the saved file loads without error" ); vp_assert( same_tree( q, n ), "the file reads back as the same groups, keys and values in order" ); vp_reach( "end" );
}
VP_ENTRY( one_group ) { node n; node& g = n.add( gr( vp_param( 0 ) ) ); g.add( nm( vp_param( 0 ) ) ).v = word( 0, vp_param( 1 ), "", "v" ); round_trip( n ); }
VP_ENTRY( groups ) { node n; for ( int i = 0; i < vp_param( 0 ); ++i ) { node& g = n.add( gr( 1 ) ); unsigned m = 1 + vp_choice( vp_param( 1 ) ); for ( unsigned k = 0; k < m; ++k ) { string key = nm( 1 ); vp_assume( !g.has( key ) ); g.add( key ).v = word( 0, 1, "", "v" ); } } round_trip( n ); }
VP_ENTRY( main_items ) { node n; unsigned m = vp_choice( vp_param( 0 ) + 1 ); for ( unsigned k = 0; k < m; ++k ) { string key = nm( 1 ); vp_assume( !n.has( key ) ); n.add( key ).v = word( 1, vp_param( 1 ), "", "v" ); } node& g = n.add( "group" ); g.add( nm( 1 ) ).v = word( 0, 1, "", "v" ); round_trip( n ); }
VP_ENTRY( comments )
{
	string s; node n; node* g = &n; char k = 'a'; for ( int i = 0; i < vp_param( 0 ); ++i )
	{
		unsigned op = vp_choice( 6 );
		if ( op == 0 ) { s += "#" + word( 0, 1, "", "c" ) + "\n"; vp_reach( "comment" ); }
		else if ( op == 1 ) { s += vp_choice( 2 ) ? " \n" : "\n"; }
		else if ( op == 2 ) { string v = vp_str_of( 1, "xy#[", "v" ); s += string( 1, k ) + " = " + v + "\n"; g->add( string( 1, k ) ).v = v; ++k; }
		else if ( op == 3 ) { s += string( "[G" ) + k + "]\n"; g = &n.add( string( "G" ) + k ); ++k; }
		else if ( op == 4 ) { s += string( 1, k ) + "=1\r\n"; g->add( string( 1, k ) ).v = "1"; ++k; }
		else s += " # x = 1\n";
	}
	vp_file_write( "c.ini", s ); prop_node q; bool t = false; try { q = load_ini( path( "c.ini" ) ); } catch ( std::exception& ) { t = true; } vp_assert( !t && same_tree( q, n ), "comment and blank lines affect no other line" );
}
static string trim( const string& s ) { size_t a = 0, b = s.size(); while ( a < b && blank( s[ a ] ) ) ++a; while ( b > a && blank( s[ b - 1 ] ) ) --b; return s.substr( a, b - a ); }
VP_ENTRY( text )
{
	string s = vp_str_of_upto( vp_param( 0 ), "[]=#a\n ", "s" ); vp_file_write( "t.ini", s ); node n; node* g = &n; bool bad = false; size_t p = 0;
	while ( p < s.size() && !bad )
	{
		size_t e = p; while ( e < s.size() && s[ e ] != '\n' ) ++e; string l = trim( s.substr( p, e - p ) ); p = e + 1;
		if ( l.empty() || l[ 0 ] == '#' ) continue;
		if ( l.size() > 2 && l[ 0 ] == '[' && l.back() == ']' ) { g = &n.add( l.substr( 1, l.size() - 2 ) ); continue; }
		size_t q = l.find( '=' ); if ( q == string::npos ) { bad = true; break; }
		node& c = g->child( trim( l.substr( 0, q ) ) ); c = node(); c.v = trim( l.substr( q + 1 ) );
	}
	prop_node q; bool t = false; try { q = load_ini( path( "t.ini" ) ); } catch ( std::exception& ) { t = true; }
	vp_assert( t == bad, "a line that is no group, comment or key/value pair is an error, nothing else is" ); if ( !t ) vp_assert( same_tree( q, n ), "groups, keys and values of the text" ); vp_reach( t ? "error" : "loaded" );
}
//@ entry=many quick=30,10 thorough=30,10 jobs=4
//@ entry=long_lines quick=1100 thorough=1100 jobs=4
//@ bounds: 30 groups of up to 10 items each; names, keys and values of up to 1100 characters with 3 arbitrary characters in each
static string stretch( size_t n, const string& s ) { string r( n, 'w' ); for ( size_t i = 0; i < s.size(); ++i ) r[ s.size() == 1 ? n / 2 : i * ( n - 1 ) / ( s.size() - 1 ) ] = s[ i ]; return r; }
VP_ENTRY( many ) { node n; int m = (int)vp_param( 0 ), k = (int)vp_param( 1 ); for ( int i = 0; i < m; ++i ) { node& g = n.add( "group " + std::to_string( i * 7 % 31 ) ); for ( int j = 0; j < 1 + i % k; ++j ) g.add( "key_" + std::to_string( j ) + ( j == 1 ? ".x" : "" ) ).v = i == m / 2 && j == 0 ? word( 1, 1, "", "v" ) : j % 3 == 2 ? string() : "value " + std::to_string( i * j ) + " [x] = #"; } round_trip( n ); }
VP_ENTRY( long_lines ) { size_t l = vp_param( 0 ); node n; node& g = n.add( stretch( l / 2, word( 3, 3, "[]=#;", "g" ) ) ); g.add( "first" ).v = stretch( l, word( 3, 3, "", "v" ) ); g.add( stretch( l, word( 3, 3, "[]=#;", "k" ) ) ).v = "x"; n.add( "last" ).add( "a" ).v = "b"; round_trip( n ); }
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of saving and loading 3 (4) out of 4 trees under the same file name
VP_ENTRY( again )
{
	string x = word( 1, 1, "", "v" ); for ( long i = vp_param( 0 ); i > 0; --i ) { node n; unsigned k = vp_choice( 4 ); if ( k == 0 ) n.add( "g" ).add( "k" ).v = x; else if ( k == 1 ) { n.add( "a" ).v = x; node& c = n.add( "g" ); c.add( "b" ).v = "1"; c.add( "c" ).v = string( 60, 'q' ) + x; } else if ( k == 2 ) { node& c = n.add( "g" ); c.add( "b" ).v = "2"; node& d = n.add( "h" ); d.add( "b" ).v = "3"; } else n.add( "h" ).add( "k" ).v = "y"; round_trip( n ); } vp_reach( "again" );
}
