// C05: splitting, trimming and key/value parsing partition the text correctly
//@ entry=split quick=6 thorough=7 jobs=4
//@ entry=trim quick=7 thorough=9 jobs=2
//@ entry=sides quick=6 thorough=7 jobs=2
//@ entry=keyval quick=7 thorough=8 jobs=3
//@ entry=longs quick=1100 thorough=1100 jobs=2
//@ bounds: every NUL-free text of length 0..6 or 7 (thorough 7..9) with every separator set of 1 or 2 non-NUL characters (trim: the default set and a set of one arbitrary character); texts with a filler of 1100 bytes around 3 arbitrary bytes
#include "oracle.h"
#include "flut/string_tools.hpp"
using namespace flut;
static bool in( char c, const string& set ) { bool r = false; for ( char x : set ) r |= ( c == x ); return r; }
static string seps() { return vp_str_nz( 1 + vp_choice( 2 ), "sep" ); }
static string text() { return vp_str_nz( vp_choice( vp_param( 0 ) + 1 ), "s" ); }
static void check_split( const string& s, const string& sep )
{
	std::vector< string > e; string cur;
	for ( char c : s ) { if ( in( c, sep ) ) { if ( !cur.empty() ) e.push_back( cur ); cur.clear(); } else cur += c; }
	if ( !cur.empty() ) e.push_back( cur );
	auto r = split_str( s, sep );
	vp_assert( r.size() == e.size(), "as many parts as maximal runs" );
	for ( size_t i = 0; i < e.size(); ++i ) vp_assert( vp_same( r[ i ], e[ i ] ), "parts are the maximal runs in order" );
	vp_reach( "split" ); if ( e.size() > 1 ) vp_reach( "several parts" );
}
static string orc_trim( const string& s, const string& set, bool left ) { size_t b = 0, e = s.size(); if ( left ) while ( b < e && in( s[ b ], set ) ) ++b; while ( e > b && in( s[ e - 1 ], set ) ) --e; return s.substr( b, e - b ); }
static void check_trim( const string& s, const string& set, bool dflt )
{
	vp_assert( vp_same( dflt ? trim_str( s ) : trim_str( s, set.c_str() ), orc_trim( s, set, true ) ), "trimming removes exactly leading and trailing characters" );
	vp_assert( vp_same( dflt ? trim_right_str( s ) : trim_right_str( s, set.c_str() ), orc_trim( s, set, false ) ), "right trimming removes exactly trailing characters" );
	vp_reach( "trim" );
}
static void check_sides( const string& s, const string& sep )
{
	size_t f = 0; while ( f < s.size() && !in( s[ f ], sep ) ) ++f;
	vp_assert( vp_same( left_of_str( s, sep ), s.substr( 0, f ) ), "left part stops at the first delimiter" );
	size_t l = s.size(); while ( l > 0 && !in( s[ l - 1 ], sep ) ) --l;
	vp_assert( vp_same( right_of_str( s, sep ), s.substr( l ) ), "right part starts after the last delimiter" );
	vp_reach( "sides" );
}
VP_ENTRY( split ) { string sep = seps(); check_split( text(), sep ); }
VP_ENTRY( trim ) { if ( vp_choice( 2 ) ) check_trim( text(), " \t\r\n\f\v", true ); else { string set = vp_str_nz( 1 ); check_trim( text(), set, false ); } }
VP_ENTRY( sides ) { string sep = seps(); check_sides( text(), sep ); }
VP_ENTRY( keyval )
{
	string s = text(); bool dflt = vp_choice( 2 ) == 0; string sep = dflt ? string( "=" ) : vp_str_nz( 1 + vp_choice( 2 ), "sep" );
	auto kv = dflt ? make_key_value_str( s ) : make_key_value_str( s, sep );
	size_t f = 0; while ( f < s.size() && !in( s[ f ], sep ) ) ++f;
	const string ws = " \t\r\n\f\v";
	vp_assert( vp_same( kv.first, orc_trim( s.substr( 0, f ), ws, true ) ), "key is the trimmed text before the first separator" );
	vp_assert( vp_same( kv.second, f < s.size() ? orc_trim( s.substr( f + 1 ), ws, true ) : string() ), "value is the trimmed text after the first separator" );
	vp_reach( "keyval" );
}
VP_ENTRY( longs )
{
	string f( vp_param( 0 ), 'x' ), m = vp_str_nz( 3 ), s; unsigned k = vp_choice( 3 );
	s = k == 0 ? m + f : k == 1 ? f + m : f + m + f;
	check_split( s, " ,x" ); check_split( s, ";" ); check_trim( s, " \t\r\n\f\v", true ); check_sides( s, "=." );
	vp_reach( "long" );
}
//@ entry=many quick=130 thorough=160
//@ bounds: texts of 130 (thorough 160) parts of all lengths up to that number, with two arbitrary bytes in front, in the middle or at the end
VP_ENTRY( many )
{
	string f; for ( long i = 0; i < vp_param( 0 ); ++i ) f += string( i % 2 ? 1 : i, char( 'a' + i % 26 ) ) + ( i % 3 ? "," : ", ;" ); string m = vp_str_nz( 2 ); unsigned k = vp_choice( 3 ); string s = k == 0 ? m + f : k == 1 ? f + m + f : f + m; check_split( s, ", ;" ); check_sides( s, "%=" ); check_trim( "  \t" + s + string( 40, ' ' ) + "\n", " \t\r\n\f\v", true ); string big( 300, 'k' ); auto kv = make_key_value_str( big + "  = " + s + "=" + big + string( 30, '\t' ) ); vp_assert( kv.first == big, "long key" ); string v = s + "=" + big; vp_assert( vp_same( kv.second, orc_trim( v, " \t\r\n\f\v", true ) ), "long value" ); vp_reach( "many" );
}
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of 3 calls with 8 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "a, b;c", "a,xb;c", "  ab ", "  cb ", "k=v=w", "a b c d e f", "" }; std::vector< string > v( t, t + 7 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check_split( s, vp_choice( 2 ) ? ", ;" : "=" ); check_trim( s, " \t\r\n\f\v", true ); check_sides( s, "=,x" ); auto kv = make_key_value_str( s ); size_t f = 0; while ( f < s.size() && s[ f ] != '=' ) ++f; vp_assert( vp_same( kv.first, orc_trim( s.substr( 0, f ), " \t\r\n\f\v", true ) ), "key" ); } vp_reach( "again" );
}
