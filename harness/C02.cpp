// C02: unquoting and escape decoding are safe on malformed text
//@ entry=unquote_any quick=7 thorough=8 jobs=3 time=100
//@ entry=unquote_tail quick=20,5 thorough=20,6 jobs=3 time=100
//@ entry=decode_any quick=5 thorough=6
//@ bounds: unquoting: every byte string of length 0..7 (thorough 8) and every 5-byte (6) tail behind a 20-byte quoted prefix in an exactly sized buffer; decoding: every buffer of 1..5 (6) bytes, exactly sized
#include "oracle.h"
#include "flut/string_tools.hpp"
using namespace flut;

static void check( const string& s )
{
	string u = try_unquoted( s );
	vp_assert( u.size() <= s.size(), "unquoting never invents characters" );
	if ( s.empty() || s.front() != '"' || s.back() != '"' ) {
		vp_assert( vp_same( u, s ), "text without both quotes is returned unchanged" );
		vp_reach( "unchanged" );
	}
	else {
		// decoded content up to the first unescaped quote (or the end)
		string e; size_t i = 1;
		while ( i < s.size() && s[ i ] != '"' ) { size_t used; e += orc_decode( s, i, used ); i += used; }
		vp_assert( vp_same( u, e ), "unquoting decodes the text between the quotes" );
		vp_reach( "unquoted" );
	}
}
VP_ENTRY( unquote_any ) { check( vp_str_upto( vp_param( 0 ) ) ); }
VP_ENTRY( unquote_tail )
{
	string s = string( 1, '"' ) + string( vp_param( 0 ), 'x' ) + vp_str( vp_param( 1 ) );
	check( string( s.data(), s.size() ) );
}
VP_ENTRY( decode_any )
{
	size_t n = 1 + vp_choice( vp_param( 0 ) );
	string s = vp_str( n );
	exact_buf b( s, false );
	int len = -1;
	char c = decode_char( b.p, n, &len );
	vp_assert( len >= 1, "at least one character is consumed" );
	vp_assert( len <= (int)n, "no more than the buffer is consumed" );
	size_t used; char e = orc_decode( s, 0, used );
	vp_assert( c == e, "the decoded character is the documented one" );
	if ( s[ 0 ] != '\\' || n == 1 ) { vp_assert( len == 1, "an ordinary character is one long" ); vp_reach( "ordinary" ); }
	else if ( e != '?' ) { vp_assert( len == (int)used, "a valid escape is consumed entirely" ); vp_reach( "escape" ); }
	else vp_reach( "invalid" );
}
VP_ENTRY( decode_empty ) { int len = 0; char c = 'x'; vp_assert( vp_throws( [ & ] { decode_char( &c, 0, &len ); } ), "an empty buffer is rejected" ); vp_reach( "empty" ); }
//@ entry=decode_empty quick=
//@ entry=unquote_long quick=3000 thorough=3000
//@ bounds: 3 arbitrary bytes in the middle and at the end of a quoted text of 3000 bytes with escapes in it
VP_ENTRY( unquote_long ) { string f; while ( f.size() < (size_t)vp_param( 0 ) ) f += f.size() % 3 ? "\\n" : "ab\\\\"; string m = vp_str( 3 ); bool mid = vp_choice( 2 ) != 0; check( "\"" + f + m + ( mid ? f + "\"" : string() ) ); }
//@ entry=again quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 calls with 7 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "\"a\\nb\"", "\"a\\1b\"", "plain", "\"xxxx\"", "\"", "\"ax\\" }; std::vector< string > v( t, t + 6 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s ); } vp_reach( "again" );
}
