// C29: optional values
//@ entry=integers quick=1 thorough=1
//@ entry=doubles quick=1 thorough=1
//@ entry=strings quick=3 thorough=5
//@ entry=text_int quick=4 thorough=5
//@ entry=text_stream quick=3 thorough=4
//@ entry=text_double quick=1 thorough=1
//@ bounds: all int and size_t values except the reserved one, all doubles except NaN, all strings up to 3 bytes (thorough 5); reading from any text of up to 4 characters of digits, signs, blanks and letters (thorough 5)
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/math/math.hpp"
#include "flut/math/optional.hpp"
#include <sstream>
using namespace flut;
template< typename T > static void history( T a, T b )
{
	optional< T > e; vp_assert( !e, "a new optional is empty" ); optional< T > o( a ); vp_assert( o && *o == a, "constructed from a value" ); auto& r = ( e = b ); vp_assert( &r == &e && e && *e == b, "assigned a value" ); e = a; vp_assert( e && *e == a, "assigned again" ); optional< T > c( o ), n; vp_assert( c && *c == a, "copy" ); c = optional< T >(); vp_assert( !c && o && *o == a, "made empty again" ); o = n; vp_assert( !o, "copy of an empty one" ); vp_reach( "end" );
}
VP_ENTRY( integers ) { int a = vp_int( "a" ), b = vp_int( "b" ); vp_assume( a != INT32_MIN ); vp_assume( b != INT32_MIN ); history< int >( a, b ); size_t s = vp_u64( "s" ), t = vp_u64( "t" ); vp_assume( s != SIZE_MAX ); vp_assume( t != SIZE_MAX ); history< size_t >( s, t ); }
VP_ENTRY( doubles ) { double a = vp_sym_double( "a" ), b = vp_sym_double( "b" ); vp_assume( a == a ); vp_assume( b == b ); history< double >( a, b ); uint32_t u = vp_uint( "f" ); float f; memcpy( &f, &u, 4 ); vp_assume( f == f ); history< float >( f, 1.5f ); }
VP_ENTRY( strings )
{
	std::string a = vp_str_upto( vp_param( 0 ), "a" ), b = vp_str_upto( 2, "b" ); optional< std::string > e; vp_assert( !e, "a new optional is empty" ); optional< std::string > o( a ); vp_assert( o && vp_same( *o, a ), "constructed from a value" ); e = b; vp_assert( e && vp_same( *e, b ), "assigned a value" ); std::string m( a ); e = std::move( m ); vp_assert( e && vp_same( *e, a ), "assigned a moved value" ); std::string t( b ); optional< std::string > v( std::move( t ) ); vp_assert( v && vp_same( *v, b ), "constructed from a temporary" ); optional< std::string > c( e ); vp_assert( c && vp_same( *c, a ), "copy" ); c = b; vp_assert( e && vp_same( *e, a ), "copies are independent" ); vp_reach( "end" );
}
// the integer at the start of s (after blanks), or none
static bool lead_int( const std::string& s, long& v ) { size_t i = 0; while ( i < s.size() && s[ i ] == ' ' ) ++i; bool neg = false; if ( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) neg = s[ i++ ] == '-'; if ( i >= s.size() || s[ i ] < '0' || s[ i ] > '9' ) return false; v = 0; while ( i < s.size() && s[ i ] >= '0' && s[ i ] <= '9' ) v = v * 10 + ( s[ i++ ] - '0' ); if ( neg ) v = -v; return true; }
VP_ENTRY( text_int )
{
	std::string s = vp_str_of_upto( vp_param( 0 ), "09 -+x", "s" ); long v = 0; bool ok = lead_int( s, v ); optional_int o, p( 77 ); { char_stream str( s.c_str() ); str >> o; } { char_stream str( s.c_str() ); str >> p; } if ( ok ) { vp_assert( o && *o == v && p && *p == v, "a number in the text makes it present" ); vp_reach( "number" ); } else { vp_assert( !o && p && *p == 77, "no number leaves it unchanged" ); vp_reach( "none" ); }
}
VP_ENTRY( text_stream )
{
	std::string s = vp_str_of_upto( vp_param( 0 ), "09 -+x", "s" ); long v = 0; bool ok = lead_int( s, v ); optional_int o, p( 77 ); { std::stringstream str( s ); str >> o; } { std::stringstream str( s ); str >> p; } if ( ok ) { vp_assert( o && *o == v && p && *p == v, "a number in the text makes it present" ); vp_reach( "number" ); } else { vp_assert( !o && p && *p == 77, "no number leaves it unchanged" ); vp_reach( "none" ); }
}
VP_ENTRY( text_double ) { static const char* T[] = { "1.5", " -2e3x", "", "abc", "-", " .25 7" }; static const double V[] = { 1.5, -2000, 0, 0, 0, .25 }; static const bool K[] = { true, true, false, false, false, true }; unsigned k = vp_choice( 6 ); optional_double o, p( 7.0 ); { char_stream str( T[ k ] ); str >> o; } { char_stream str( T[ k ] ); str >> p; } if ( K[ k ] ) vp_assert( o && *o == V[ k ] && *p == V[ k ], "a number in the text" ); else vp_assert( !o && p && *p == 7.0, "no number leaves it unchanged" ); vp_reach( "end" ); }
//@ entry=own quick=3 thorough=5
//@ bounds: assigning an optional its own value, itself and a copy, for all strings up to 3 (5) bytes and all ints
VP_ENTRY( own )
{
	std::string a = vp_str_upto( vp_param( 0 ), "a" ); optional< std::string > o( a ); o = *o; vp_assert( o && vp_same( *o, a ), "its own value" ); const optional< std::string >& r = o; o = r; vp_assert( o && vp_same( *o, a ), "itself" ); optional< std::string > c( o ), n; o = n; vp_assert( !o && c && vp_same( *c, a ), "a copy is independent" ); n = c; vp_assert( n && vp_same( *n, a ), "assigned from another" ); n = n; vp_assert( n && vp_same( *n, a ), "itself again" ); int i = vp_int( "i" ); vp_assume( i != INT32_MIN ); optional< int > p( i ), q; p = *p; const optional< int >& s = p; p = s; vp_assert( p && *p == i, "an own int" ); p = q; vp_assert( !p, "emptied" ); vp_reach( "own" );
}
