// C04: typed extraction reads exactly the values in the text
//@ entry=ints quick=5 thorough=7 jobs=4
//@ entry=ints_any quick=4 thorough=5 jobs=3
//@ entry=mixed quick=4 thorough=5 jobs=4
//@ entry=scan quick=6 thorough=7 jobs=4
//@ entry=lists quick=5,3 thorough=7,4 jobs=3
//@ entry=wide quick=
//@ entry=reals quick=5 thorough=6 jobs=2
//@ bounds: texts of length 0..5 (thorough 7) over digits, signs, space, comma, letter, and of length 0..4 (5) over all non-NUL bytes; up to 4 extractions of int/unsigned/short/long/string; numbers with up to 19 digits for the wide types; decimal numbers d.dd for double
//@ assume: strtol/strtoul/strtod are modelled in rt/models.cpp after their C definition; sampled paths are replayed on the real ones
#include "oracle.h"
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
using namespace flut;
static const char* ws = " \t\r\n\f\v";
static bool dig( char c ) { return c >= '0' && c <= '9'; }
// integer starting at p (white space allowed in front); returns false when there is none
static bool orc_int( const string& t, size_t& p, long& v )
{
	size_t q = p; while ( q < t.size() && orc_in( t[ q ], ws ) ) ++q;
	bool neg = false; if ( q < t.size() && ( t[ q ] == '-' || t[ q ] == '+' ) ) { neg = t[ q ] == '-'; ++q; }
	if ( q >= t.size() || !dig( t[ q ] ) ) return false;
	v = 0; while ( q < t.size() && dig( t[ q ] ) ) v = v * 10 + ( t[ q++ ] - '0' );
	if ( neg ) v = -v; p = q; return true;
}
static void skip( const string& t, size_t& p, const char* d ) { while ( p < t.size() && orc_in( t[ p ], d ) ) ++p; }
template< typename T > void seq( const string& t, const char* d )
{
	exact_buf b( t ); char_stream s( b.p, d ); size_t p = 0; skip( t, p, d );
	for ( int k = 0; k < 4; ++k ) {
		vp_assert( s.eof() == ( p == t.size() ), "end is reported exactly when only delimiters remain" );
		vp_assert( s.good() == ( p != t.size() ), "good exactly when something remains" );
		long e; T v = T( 77 ); s >> v;
		if ( orc_int( t, p, e ) ) { skip( t, p, d ); vp_assert( !s.fail(), "extraction of a number succeeds" ); vp_assert( v == (T)e, "extracted number is the one in the text" ); vp_reach( "number" ); }
		else { vp_assert( s.fail(), "extraction fails when there is no number" ); vp_reach( "fail" ); return; }
	}
}
VP_ENTRY( ints ) { string t = vp_str_of_upto( vp_param( 0 ), "09-+ ,a" ); switch ( vp_choice( 4 ) ) { case 0: seq< int >( t, ws ); break; case 1: seq< int >( t, "," ); break; case 2: seq< long >( t, ws ); break; case 3: seq< unsigned int >( t, ws ); } }
VP_ENTRY( ints_any ) { string t = vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ); switch ( vp_choice( 3 ) ) { case 0: seq< int >( t, ws ); break; case 1: seq< short >( t, ws ); break; case 2: seq< long long >( t, ws ); } }
VP_ENTRY( mixed )
{
	bool any = vp_choice( 2 ) != 0; string t = any ? vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ) : vp_str_of_upto( vp_param( 0 ), "7- \na;" ); exact_buf b( t ); char_stream s( b.p ); size_t p = 0; skip( t, p, ws );
	for ( int k = 0; k < 3; ++k ) {
		vp_assert( s.eof() == ( p == t.size() ), "end is reported exactly when only delimiters remain" );
		if ( any || vp_choice( 2 ) ) {
			size_t q = p; while ( q < t.size() && !orc_in( t[ q ], ws ) ) ++q;
			string w = "?"; s >> w; vp_assert( vp_same( w, t.substr( p, q - p ) ), "extracted word is the one in the text" );
			if ( q == p ) { vp_assert( s.fail(), "no word at the end" ); return; }
			vp_assert( !s.fail(), "word extraction succeeds" ); p = q; skip( t, p, ws ); vp_reach( "word" );
		}
		else {
			long e; int v; s >> v;
			if ( !orc_int( t, p, e ) ) { vp_assert( s.fail(), "extraction fails when there is no number" ); return; }
			skip( t, p, ws ); vp_assert( !s.fail() && v == e, "extracted number is the one in the text" ); vp_reach( "mixed number" );
		}
	}
}
VP_ENTRY( scan )
{
	string t = vp_str_of_upto( vp_param( 0 ), "7- a" ); int a = -1, b = -1, c = -1; size_t p = 0; long e[ 3 ]; int n = 0; skip( t, p, ws );
	while ( n < 3 && orc_int( t, p, e[ n ] ) ) { ++n; skip( t, p, ws ); }
	int r = scan_str( t, a, b, c );
	vp_assert( r == n, "the number of variables read is returned" );
	if ( n > 0 ) vp_assert( a == e[ 0 ], "first value" ); if ( n > 1 ) vp_assert( b == e[ 1 ], "second value" ); if ( n > 2 ) { vp_assert( c == e[ 2 ], "third value" ); vp_reach( "three" ); }
	int a2 = -1; long l2 = -1; r = scan_str( t, a2, l2 ); vp_assert( r == ( n > 2 ? 2 : n ), "as many as requested" );
	string w; int i2 = -1; p = 0; skip( t, p, ws ); size_t q = p; while ( q < t.size() && !orc_in( t[ q ], ws ) ) ++q;
	string ew = t.substr( p, q - p ); long ev; int en = 0; if ( q > p ) { en = 1; p = q; skip( t, p, ws ); if ( orc_int( t, p, ev ) ) en = 2; }
	r = scan_str( t, w, i2 ); vp_assert( r == en, "word and number count" ); if ( en > 0 ) vp_assert( vp_same( w, ew ), "word value" ); if ( en > 1 ) vp_assert( i2 == ev, "number after word" );
}
VP_ENTRY( lists )
{
	unsigned d = vp_choice( 2 ); const char* dl = d ? ", " : ws; string t = vp_str_of_upto( vp_param( 0 ), d ? "07,- a" : "07- \na" ); size_t max = vp_choice( vp_param( 1 ) + 1 ); bool all = max == (size_t)vp_param( 1 );
	std::vector< long > e; size_t p = 0; long v; skip( t, p, dl );
	while ( ( all || e.size() < max ) && p < t.size() && orc_int( t, p, v ) ) { e.push_back( v ); skip( t, p, dl ); }
	auto r = str_to_vec< int >( t, all ? no_index : max, dl );
	vp_assert( r.size() == e.size(), "list has every value up to the maximum" );
	for ( size_t i = 0; i < e.size(); ++i ) vp_assert( r[ i ] == e[ i ], "list values" );
	if ( e.size() > 1 ) vp_reach( "list" );
}
VP_ENTRY( wide )
{
	// range limits of the types, with arbitrary leading digits
	string d = vp_str_of( 2, "0123456789" ); bool neg = vp_choice( 2 ); long hi = ( d[ 0 ] - '0' ) * 10 + ( d[ 1 ] - '0' );
	{ string t = ( neg ? "-" : "" ) + d + "3456789012345678"; exact_buf b( t ); char_stream s( b.p ); long v; s >> v; long e = hi * 10000000000000000 + 3456789012345678; vp_assert( v == ( neg ? -e : e ) && !s.fail() && s.eof(), "long" ); char_stream s2( b.p ); long long w; s2 >> w; vp_assert( w == ( neg ? -e : e ), "long long" ); }
	{ string t = ( neg ? "-" : "" ) + string( "0" ) + d + "3456789"; exact_buf b( t ); char_stream s( b.p ); int v; s >> v; long e = hi * 10000000 + 3456789; vp_assert( v == ( neg ? -e : e ), "int" ); }
	if ( !neg ) { string t = "1844674407370955" + d + "15"; exact_buf b( t ); char_stream s( b.p ); unsigned long v; s >> v; unsigned long e = hi <= 16 ? 18446744073709550015ull + hi * 100ull : 0; if ( hi <= 15 ) vp_assert( v == e, "unsigned long" ); char_stream s2( b.p ); unsigned long long w; s2 >> w; if ( hi <= 15 ) vp_assert( w == e, "unsigned long long" ); }
	{ string t = "4294967" + d + "5 " + d + "9"; exact_buf b( t ); char_stream s( b.p ); unsigned v; s >> v; unsigned short u; s >> u; if ( hi <= 29 ) vp_assert( v == 4294967005u + (unsigned)hi * 10, "unsigned int" ); vp_assert( u == hi * 10 + 9, "unsigned short" ); vp_assert( s.eof() && !s.fail(), "end" ); }
	{ string t = ( neg ? "-327" : "327" ) + d.substr( 0, 1 ) + "x"; exact_buf b( t ); char_stream s( b.p ); short v; s >> v; long e = 3270 + ( d[ 0 ] - '0' ); if ( e <= 32767 ) vp_assert( v == ( neg ? -e : e ), "short" ); vp_assert( !s.eof() && s.peekc() == 'x', "rest remains" ); }
	vp_reach( "wide" );
}
VP_ENTRY( reals )
{
	// [-]d.d[d] followed by anything
	string t; bool neg = vp_choice( 2 ); if ( neg ) t = "-"; string a = vp_str_of( 1, "0459" ), f = vp_str_of( vp_choice( 3 ), "025" ); t += a; if ( !f.empty() ) t += "." + f;
	unsigned tail = vp_choice( 4 ); const char* tails[] = { "", " 3", "\n", "x" }; string full = t + tails[ tail ];
	double e = a[ 0 ] - '0', sc = 1; for ( char c : f ) { sc *= 10; e = e * 10 + ( c - '0' ); } e = e / sc; if ( neg ) e = -e;
	exact_buf b( full ); { char_stream s( b.p ); double v = 99; s >> v; vp_assert( v == e, "double value" ); vp_assert( !s.fail(), "double read" ); vp_assert( s.eof() == ( tail == 0 || tail == 2 ), "end after double" ); if ( tail == 1 ) { int n; s >> n; vp_assert( n == 3 && s.eof(), "next value" ); } }
	{ char_stream s( b.p ); float v = 99; s >> v; vp_assert( v == (float)e, "float value" ); }
	{
		static const struct { const char* t; double v; } x[] = { { "1e5", 1e5 }, { "2.5E-1", 0.25 }, { "-3e+2", -300 }, { ".5", 0.5 }, { "-.25", -0.25 }, { "5.", 5 }, { "+1.5", 1.5 }, { "1.25e10", 1.25e10 }, { "16777216", 16777216 }, { "1e-3", 1e-3 }, { "0.000001", 1e-6 }, { "123456.75", 123456.75 } };
		auto& c = x[ vp_choice( 12 ) ]; string w = string( c.t ) + tails[ tail ]; exact_buf o( w ); { char_stream s( o.p ); double v = 99; s >> v; vp_assert( v == c.v && !s.fail() && s.eof() == ( tail == 0 || tail == 2 ), "double with exponent" ); } { char_stream s( o.p ); float v = 99; s >> v; vp_assert( v == (float)c.v && !s.fail() && s.eof() == ( tail == 0 || tail == 2 ), "float with exponent" ); if ( tail == 1 ) { int n = 0; s >> n; vp_assert( n == 3 && s.eof(), "next value" ); } }
		if ( tail == 0 ) { bool ok = from_str< double >( w ) == c.v && from_str< float >( w ) == (float)c.v; vp_assert( ok, "number text to value" ); }
	}
	vp_reach( "real" );
}
//@ entry=lists_long quick=300 thorough=300
//@ entry=sequence_long quick=300 thorough=300
//@ bounds: lists and extraction sequences of 300 numbers and words with one arbitrary digit anywhere in one of the last three, any maximum around the length
VP_ENTRY( lists_long )
{
	long n = vp_param( 0 ), at = vp_choice( 2 ) ? n - 1 : n / 2; string t; std::vector< int > e; for ( long i = 0; i < n; ++i ) { int v = (int)( i * i * 37 % 100003 ) * ( i % 2 ? -1 : 1 ); string s = std::to_string( v ); if ( i == at ) { string d = vp_str_of( 1, "0123456789" ); s += d; v = v * 10 + ( v < 0 ? -1 : 1 ) * ( d[ 0 ] - '0' ); } e.push_back( v ); t += s + ( i % 5 ? " " : "\n\t" ); }
	long max = n - 2 + (long)vp_choice( 4 ); bool all = max == n + 1; auto r = str_to_vec< int >( t, all ? no_index : (size_t)max ); if ( !all && max < n ) e.resize( max ); vp_assert( r.size() == e.size(), "list has every value up to the maximum" ); for ( size_t i = 0; i < e.size(); ++i ) vp_assert( r[ i ] == e[ i ], "list values" ); vp_reach( "list" );
}
VP_ENTRY( sequence_long )
{
	long n = vp_param( 0 ); string t, d = vp_str_of( 1, "0123456789" ); for ( long i = 0; i < n; ++i ) t += i % 3 == 0 ? "w" + string( i, 'x' ) + " " : i == n - 1 || i == n - 2 ? "-4" + d + "2\n" : std::to_string( i * 1001 ) + ( i % 2 ? "  " : "\n" );
	exact_buf b( t ); char_stream s( b.p ); for ( long i = 0; i < n; ++i ) { vp_assert( s.good() && !s.eof(), "more to read" ); if ( i % 3 == 0 ) { string w; s >> w; vp_assert( w == "w" + string( i, 'x' ), "word" ); } else { long v = 0; s >> v; vp_assert( v == ( i == n - 1 || i == n - 2 ? -( 402 + 10L * ( d[ 0 ] - '0' ) ) : i * 1001 ), "number" ); } vp_assert( !s.fail(), "read" ); } vp_assert( s.eof(), "end" ); vp_reach( "end" );
}
