// C11: integer, boolean and enum values survive conversion to text and back
//@ entry=round_int quick=1 thorough=2 jobs=3
//@ entry=round_long quick=1 thorough=2 jobs=3
//@ entry=round_small quick=2 thorough=4
//@ entry=texts quick=4 thorough=6 jobs=4
//@ entry=limits quick=
//@ bounds: values of every digit count (int 1..9, long 1..18, both signs) with every window of 1 arbitrary digit (thorough 2), all 4-digit small values in thorough, exact type limits, texts of length 0..4 (6) over all non-NUL bytes
//@ assume: iostream formatting and parsing of integers is modelled in stubs/vp_iosimpl.h; sampled paths are replayed on libstdc++
#include "oracle.h"
#include "flut/string_tools.hpp"
using namespace flut;
enum class fruit { apple = 3, pear = -2, plum = 100000 };
enum plain_enum { e0, e1, e2 };
// a value with n digits of which a window of `k` is arbitrary, as number and as canonical text
static string digits( unsigned n, bool neg, uint64_t& v )
{
	string t; v = 0; unsigned k = vp_param( 0 ), w = n > k ? vp_choice( n - k + 1 ) : 0;
	for ( unsigned i = 0; i < n; ++i ) {
		char c = '1' + ( i * 7 + n ) % 9;
		if ( i >= w && i < w + k ) { c = vp_char( "d" ); vp_assume( vp_and( c >= ( i == 0 && n > 1 ? '1' : '0' ), c <= '9' ) ); }
		t += c; v = v * 10 + (unsigned)( c - '0' );
	}
	if ( neg ) { vp_assume( t[ 0 ] != '0' ); t = "-" + t; }
	return t;
}
template< typename T > void both( const string& t, T v )
{
	T r = from_str< T >( t ); vp_assert( r == v, "text converts to the denoted value" );
	string s = to_str( v ); vp_assert( vp_same( s, t ), "value converts to its canonical text" );
	vp_assert( string_is< T >( t ), "canonical text is convertible" );
}
VP_ENTRY( round_int )
{
	unsigned n = 1 + vp_choice( 9 ); bool neg = vp_choice( 2 ); uint64_t u; string t = digits( n, neg, u ); int v = neg ? -(int)(long)u : (int)(long)u;
	switch ( vp_choice( 3 ) ) { case 0: both< int >( t, v ); break; case 1: if ( !neg ) both< unsigned >( t, (unsigned)v ); break; case 2: both< fruit >( t, (fruit)v ); } vp_reach( "int" );
}
VP_ENTRY( round_long )
{
	unsigned n = 1 + vp_choice( 18 ); bool neg = vp_choice( 2 ); uint64_t u; string t = digits( n, neg, u ); long v = neg ? -(long)u : (long)u;
	switch ( vp_choice( 4 ) ) { case 0: both< long >( t, v ); break; case 1: both< long long >( t, v ); break; case 2: if ( !neg ) both< unsigned long >( t, (unsigned long)v ); break; case 3: if ( !neg ) both< unsigned long long >( t, (unsigned long long)v ); } vp_reach( "long" );
}
VP_ENTRY( round_small )
{
	unsigned n = 1 + vp_choice( 4 ); bool neg = vp_choice( 2 ); uint64_t u; string t = digits( n, neg, u ); long v = neg ? -(long)u : (long)u;
	both< short >( t, (short)v ); if ( !neg ) both< unsigned short >( t, (unsigned short)v );
	bool b = vp_bool(); vp_assert( from_str< bool >( to_str( b ) ) == b, "boolean survives" );
	plain_enum pe = (plain_enum)vp_choice( 3 ); vp_assert( from_str< plain_enum >( to_str( pe ) ) == pe, "enum survives" );
	string s = vp_str( 3 ); vp_assert( vp_same( to_str( s ), s ) && vp_same( from_str< string >( s ), s ), "text converts to itself" );
	vp_reach( "small" );
}
VP_ENTRY( texts )
{
	string t = vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ); size_t p = 0; while ( p < t.size() && orc_in( t[ p ], " \t\r\n\f\v" ) ) ++p;
	bool neg = false; if ( p < t.size() && ( t[ p ] == '-' || t[ p ] == '+' ) ) { neg = t[ p ] == '-'; ++p; }
	bool ok = p < t.size() && t[ p ] >= '0' && t[ p ] <= '9'; long v = 0; while ( p < t.size() && t[ p ] >= '0' && t[ p ] <= '9' ) v = v * 10 + ( t[ p++ ] - '0' );
	if ( neg ) v = -v;
	vp_assert( string_is< long >( t ) == ok, "convertible exactly when the text starts with a number" );
	vp_assert( string_is< long long >( t ) == ok && string_is< unsigned long >( t ) == ok && string_is< unsigned long long >( t ) == ok, "convertible exactly when the text starts with a number" );
	if ( ok ) { vp_assert( from_str< long >( t ) == v && from_str< long long >( t ) == v, "value of the text" ); vp_assert( from_str< unsigned long >( t ) == (unsigned long)v, "unsigned value of the text" ); vp_reach( "number" ); }
	else { vp_assert( vp_throws( [ & ] { from_str< long >( t ); } ) && vp_throws( [ & ] { from_str< unsigned long long >( t ); } ), "text that does not start with a number is rejected" ); vp_reach( "rejected" ); }
	if ( ok ) vp_assert( string_is< int >( t ) && string_is< fruit >( t ), "a number is convertible" ); vp_assert( from_str< int >( t ) == ( ok ? (int)v : 0 ) && from_str< short >( t ) == ( ok ? (short)v : 0 ) && from_str< fruit >( t ) == (fruit)( ok ? (int)v : 0 ), "value of the text in the narrower types" );
	if ( !ok ) vp_assert( !string_is< int >( t ), "text that is no number is not convertible to the narrower types" );
}
VP_ENTRY( limits )
{
	char d = '0' + vp_choice( 10 ); bool in = d <= '7', in8 = d <= '8', in5 = d <= '5';
	vp_assert( string_is< long >( string( "922337203685477580" ) + d ) == in, "largest long" ); vp_assert( string_is< long >( string( "-922337203685477580" ) + d ) == in8, "smallest long" );
	if ( in ) vp_assert( from_str< long >( string( "922337203685477580" ) + d ) == 9223372036854775800l + ( d - '0' ), "near the largest long" );
	if ( in8 ) vp_assert( from_str< long long >( string( "-922337203685477580" ) + d ) == -9223372036854775800ll - ( d - '0' ), "near the smallest long" );
	vp_assert( string_is< unsigned long >( string( "1844674407370955161" ) + d ) == in5, "largest unsigned long" );
	if ( in5 ) vp_assert( from_str< unsigned long long >( string( "1844674407370955161" ) + d ) == 18446744073709551610ull + (unsigned)( d - '0' ), "near the largest unsigned long" );
	if ( in ) vp_assert( from_str< int >( string( "214748364" ) + d ) == 2147483640 + ( d - '0' ), "near the largest int" );
	if ( in8 ) vp_assert( vp_same( to_str( (int)( -2147483640 - ( d - '0' ) ) ), string( "-214748364" ) + d ), "near the smallest int" );
	vp_reach( "limits" );
}
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of 3 (4) conversions of 6 numbers in 8 types, one of them with arbitrary digits (results do not depend on earlier calls)
VP_ENTRY( again )
{
	char c = vp_char( "c" ); vp_assume( vp_and( c >= '0', c <= '9' ) ); for ( long i = vp_param( 0 ); i > 0; --i ) { long v = 0; switch ( vp_choice( 6 ) ) { case 0: v = 12345; break; case 1: v = 7; break; case 2: v = 0; break; case 3: v = 7777; break; case 4: v = 31000 + ( c - '0' ); break; case 5: v = 12; break; } string t = std::to_string( v );
		switch ( vp_choice( 8 ) ) { case 0: both< int >( t, (int)v ); break; case 1: both< unsigned >( t, (unsigned)v ); break; case 2: both< long >( t, v ); break; case 3: both< unsigned long >( t, (unsigned long)v ); break; case 4: both< short >( t, (short)v ); break; case 5: both< long long >( t, v ); break; case 6: both< string >( t, t ); break; case 7: both< bool >( v & 1 ? "1" : "0", ( v & 1 ) != 0 ); break; } } vp_reach( "again" );
}
