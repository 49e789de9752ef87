// C01: quoting round-trips every string
//@ entry=single quick=
//@ entry=roundtrip quick=4 thorough=5 jobs=4 time=60
//@ entry=roundtrip_long quick=40;300;2000 thorough=40;300;2000
//@ bounds: every byte string of length 0..4 (thorough 0..5); strings of 40, 300 and 2000 bytes with two adjacent arbitrary bytes at the start, middle or end
#include "vp.h"
#include "flut/string_tools.hpp"
using namespace flut;

static bool is_ctrl( char c ) { return (unsigned char)c < 32; }

static void check( const string& s )
{
	string q = quoted( s );
	vp_assert( q.size() >= 2 + s.size(), "quoted form is not shorter than the text plus quotes" );
	vp_assert( vp_and( q.front() == '"', q.back() == '"' ), "quoted form starts and ends with a quote" );
	// every backslash escapes what follows; no bare quote, no control character
	size_t i = 1;
	while ( i + 1 < q.size() ) {
		vp_assert( !is_ctrl( q[ i ] ), "quoted form has no control character" );
		vp_assert( q[ i ] != '"', "quoted form has no unescaped quote" );
		if ( q[ i ] == '\\' ) {
			++i;
			vp_assert( i + 1 < q.size(), "quoted form has no unescaped backslash" );
		}
		++i;
	}
	string u = try_unquoted( q );
	vp_assert( vp_same( u, s ), "unquoting the quoted form returns the original" );

	bool need = needs_quotes( s );
	int special = 0;
	for ( char c : s ) special |= ( (unsigned char)c <= 32 ) | ( c == '"' ) | ( c == '\\' );
	vp_assert( need == ( special != 0 ), "quotes are needed exactly for space, control, quote or backslash" );
	string t = try_quoted( s );
	vp_assert( vp_same( t, need ? q : s ), "as-needed quoting quotes exactly when needed" );
	vp_assert( vp_same( try_unquoted( t ), s ), "unquoting the as-needed quoted form returns the original" );
	vp_reach( "checked" );
}

VP_ENTRY( roundtrip )
{
	check( vp_str_upto( vp_param( 0 ), "s" ) );
}

// long texts: one or two arbitrary bytes at arbitrary places in a long filler
VP_ENTRY( roundtrip_long )
{
	size_t n = vp_param( 0 );
	string s( n, 'x' );
	size_t pos = vp_choice( 3 ) * ( n - 2 ) / 2;
	s[ pos ] = vp_char(); s[ pos + 1 ] = vp_char();
	check( s );
}

VP_ENTRY( single )
{
	char c = vp_char();
	string e = encode_char( c );
	vp_assert( e.size() >= 1, "encoded character is not empty" );
	int plain = (unsigned char)c >= 32 && c != '"' && c != '\\';
	if ( plain ) { vp_assert( e.size() == 1 && e[ 0 ] == c, "ordinary characters encode to themselves" ); vp_reach( "plain" ); }
	else {
		vp_assert( e.size() >= 2 && e[ 0 ] == '\\', "special characters are escaped" );
		int len = -1;
		char d = decode_char( e.c_str(), e.size(), &len );
		vp_assert( d == c, "decoding an escape gives back the character" );
		vp_assert( len == (int)e.size(), "decoding consumes the whole escape" );
		vp_reach( "escaped" );
	}
}
//@ entry=again quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 calls with 7 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "a\"c\nb", "a\\ccb", "plain", "a cccb", "", "a\"\"\"\"" }; std::vector< string > v( t, t + 6 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s ); } vp_reach( "again" );
}
