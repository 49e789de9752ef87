// C09: glob matching decides exactly the glob language
//@ entry=glob quick=5,4 thorough=6,5 jobs=6
//@ entry=glob_any quick=5,5 thorough=4,3 jobs=4
//@ entry=matcher quick=4,5 thorough=4,6 jobs=6
//@ entry=longs quick=100 thorough=100
//@ bounds: texts of length 0..5 (thorough 6) against patterns of length 0..4 (5) over the characters a B / \ . * ?, and of length 0..3 over all bytes except NUL and [; multi-pattern lists of up to 5 (6) characters; long texts
//@ assume: C library fnmatch is modelled in rt/models.cpp (with FNM_NOESCAPE, FNM_PATHNAME, FNM_PERIOD and case folding flags); sampled paths are replayed on the real one
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/pattern_matcher.hpp"
using namespace flut;
// dynamic programming over pattern and text
static bool orc( const string& t, const string& p )
{
	std::vector< int > m( t.size() + 1, 0 ); m[ 0 ] = 1;
	for ( char c : p ) {
		if ( c == '*' ) { for ( size_t i = 1; i <= t.size(); ++i ) m[ i ] = m[ i ] | m[ i - 1 ]; }
		else { bool any = c == '?'; for ( size_t i = t.size(); i > 0; --i ) m[ i ] = m[ i - 1 ] & ( any ? 1 : ( t[ i - 1 ] == c ) ); m[ 0 ] = 0; }
	}
	return m[ t.size() ] != 0;
}
static void check( const string& t, const string& p )
{
	bool r = pattern_match( t, p ), e = orc( t, p );
	vp_assert( r == e, "a text matches exactly when the pattern can produce it" );
	if ( r ) vp_reach( "match" ); else vp_reach( "no match" );
}
VP_ENTRY( glob ) { string p = vp_str_of_upto( vp_param( 1 ), "aB/\\.*?", "p" ); check( vp_str_of_upto( vp_param( 0 ), "aAB/\\.", "t" ), p ); }
VP_ENTRY( glob_any )
{
	string p = vp_str_nz( vp_choice( vp_param( 1 ) + 1 ), "p" ), t = vp_str_nz( vp_choice( vp_param( 0 ) + 1 ), "t" );
	for ( char c : p ) vp_assume( c != '[' );
	check( t, p );
}
VP_ENTRY( matcher )
{
	string p = vp_str_of_upto( vp_param( 1 ), "a*?;", "p" ), t = vp_str_of_upto( vp_param( 0 ), "ab", "t" );
	pattern_matcher m( p, ";" ); bool e = false; string cur;
	for ( char c : p ) { if ( c == ';' ) { if ( !cur.empty() ) e |= orc( t, cur ); cur.clear(); } else cur += c; }
	if ( !cur.empty() ) e |= orc( t, cur );
	bool r = m( t );
	vp_assert( r == e, "a list accepts exactly what one of its patterns accepts" );
	vp_reach( "list" );
}
VP_ENTRY( longs ) { string f( vp_param( 0 ), 'x' ); string t = f + vp_str_nz( 1, "t" ) + f; check( t, f + "?" + f ); check( t, "*" + vp_str_of( 1, "ab.x", "p" ) + "x*" ); check( t, "x*" + f ); check( t, f ); vp_reach( "long" ); }
//@ entry=many quick=200 thorough=200
//@ entry=find quick=4 thorough=6
//@ bounds: lists of 200 patterns of which any one may match; searching 0..4 (6) texts for the first match
VP_ENTRY( many )
{
	long n = vp_param( 0 ), at = (long)vp_choice( 4 ) * ( n - 1 ) / 3; string p; for ( long i = 0; i < n; ++i ) p += ( i ? ";" : "" ) + string( i == at ? "k?" + std::to_string( i ) + "*" : "p" + string( i, 'q' ) + "*" ); pattern_matcher m( p ); string c = vp_str_nz( 1 ); string t = "k" + c + std::to_string( at ) + c; vp_assert( m( t ), "any pattern of the list counts" ); string u = "z" + c + "z"; vp_assert( !m( u ), "no pattern matches" ); string w = "p" + c + "q"; bool e = n > 0 && at != 0; vp_assert( m( w ) == ( e || c[ 0 ] == 'q' ), "prefix pattern" ); vp_reach( "many" );
}
VP_ENTRY( find )
{
	size_t n = vp_choice( (unsigned)vp_param( 0 ) + 1 ); std::vector< string > v; for ( size_t i = 0; i < n; ++i ) v.push_back( vp_str_of( 1, "abc" ) ); pattern_matcher m( "a;c*" ); auto it = m.find_match( v.begin(), v.end() ); size_t e = 0; while ( e < n && v[ e ][ 0 ] == 'b' ) ++e; vp_assert( it == v.begin() + e, "the first match is found" ); pattern_matcher none; vp_assert( none.find_match( v.begin(), v.end() ) == v.end() && !none( string( "a" ) ) && !none( string() ), "no pattern matches nothing" ); prop_node pn; pn.set_value( string( "b;x?" ) ); pattern_matcher q( pn ); vp_assert( q( string( "b" ) ) && q( string( "xy" ) ) && !q( string( "b;x?" ) ) && !q( string( "a" ) ), "list from a property" ); vp_reach( e < n ? "found" : "none" );
}

//@ entry=matcher_any quick=2,3 thorough=3,4 jobs=4
//@ bounds: multi-pattern lists of up to 3 (4) characters of any byte except NUL and [
VP_ENTRY( matcher_any )
{
	string p = vp_str_nz( 1 + vp_choice( vp_param( 1 ) ), "p" ), t = vp_str_nz( vp_choice( vp_param( 0 ) + 1 ), "t" ); for ( char c : p ) vp_assume( c != '[' ); pattern_matcher m( p ); bool e = false; string cur;
	for ( char c : p ) { if ( c == ';' ) { if ( !cur.empty() ) e |= orc( t, cur ); cur.clear(); } else cur += c; } if ( !cur.empty() ) e |= orc( t, cur ); vp_assert( m( t ) == e, "any characters in a list" ); vp_reach( "any" );
}
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of 3 calls with 9 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "abcd", "abxd", "a*d", "a?cd", "", "*", "?bcd", "?" }; std::vector< string > v( t, t + 8 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s, v[ vp_choice( (unsigned)v.size() - 1 ) ] ); } vp_reach( "again" );
}
//@ entry=forms quick=2 thorough=3 jobs=4
//@ bounds: the same list of up to 2 (3) characters of any byte except NUL and [ around a separator, given as text, C string, property value and with other separators; subjects given directly, by pointer and by iterator
VP_ENTRY( forms )
{
	size_t n = 1 + vp_choice( (unsigned)vp_param( 0 ) ); string p = vp_str_nz( n, "p" ); for ( char c : p ) vp_assume( vp_and( c != '[', c != ';' ) ); unsigned k = vp_choice( 4 ); string l = k == 0 ? p + ";b" : k == 1 ? "b;" + p : k == 2 ? "b;" + p + ";c d" : p; string t = vp_choice( 3 ) == 0 ? string( "c d" ) : vp_str_nz( 1, "t" ); if ( vp_choice( 2 ) ) t = t + "b";
	bool e = orc( t, p ) || ( k < 3 && orc( t, "b" ) ) || ( k == 2 && orc( t, "c d" ) ); prop_node pn; pn.set_value( l ); prop_node top; top.set( "key", l ); pattern_matcher a( l ), b( l.c_str() ), c( pn ), d = top.get< pattern_matcher >( "key" ); vp_assert( a( t ) == e, "list as text" ); vp_assert( b( t ) == e, "list as C string" ); vp_assert( c( t ) == e, "list as property" ); vp_assert( d( t ) == e, "list read from a property" );
	vp_assert( a( &t ) == e, "subject by pointer" ); std::vector< string > v( 1, t ); vp_assert( a( v.begin() ) == e, "subject by iterator" ); vp_assert( ( a.find_match( v.begin(), v.end() ) == v.begin() ) == e, "searching one text" ); if ( k == 3 ) { bool sep = false; for ( char x : p ) sep |= x == ',' || x == ' '; if ( !sep ) { string w = "b," + p + " c"; pattern_matcher o( w, ", " ); vp_assert( o( t ) == ( e || t == "b" || t == "c" ), "other separators" ); pattern_matcher o2( w.c_str(), ", " ); vp_assert( o2( t ) == ( e || t == "b" || t == "c" ), "other separators in a C string" ); vp_reach( "other" ); } } vp_reach( "forms" );
}
