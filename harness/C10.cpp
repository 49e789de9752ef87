// C10: string hashing is the same at compile time and run time, and is FNV-1a
//@ entry=hashes quick=4 thorough=8
//@ entry=longs quick=4200 thorough=4200
//@ bounds: every NUL-free byte string of length 0..4 (thorough 8), 4200-byte strings with arbitrary bytes at the start, middle and end
#include "oracle.h"
#include "flut/hash.hpp"
using flut::hash_t;
static hash_t orc( const std::string& s ) { uint64_t h = 14695981039346656037ull; for ( char c : s ) { h ^= (uint64_t)(uint8_t)c; h *= 1099511628211ull; } return h; }
static void check( const std::string& s )
{
	hash_t e = orc( s ); exact_buf b( s );
	vp_assert( flut::hash( b.p ) == e, "run-time hash of a C string is FNV-1a" );
	vp_assert( flut::hash( s ) == e, "run-time hash of a string is FNV-1a" );
	vp_assert( flut::hash_constexpr( b.p ) == e, "compile-time hash function is FNV-1a" );
	vp_assert( operator""_hash( b.p, s.size() ) == e, "hash literal is FNV-1a" );
	vp_reach( "hash" );
}
VP_ENTRY( hashes ) { check( vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ) ); 
	static_assert( flut::hash_constexpr( "" ) == 14695981039346656037ull, "basis" ); }
VP_ENTRY( longs ) { std::string f( vp_param( 0 ) / 2, 'x' ); check( vp_str_nz( 1 ) + f + vp_str_nz( 1 ) + f + vp_str_nz( 1 ) ); vp_reach( "long" ); }
// evaluated by the compiler: compile-time results are compared with the run-time definition
VP_ENTRY( literals )
{
	constexpr hash_t a = flut::hash_constexpr( "" ), b = flut::hash_constexpr( "a" ), c = flut::hash_constexpr( "foobar" ), d = flut::hash_constexpr( "\x80\xff\x7f" );
	constexpr unsigned long long e = "\xc3\xa9t\xc3\xa9"_hash;
	vp_assert( a == orc( "" ), "literal hash" ); vp_assert( b == orc( "a" ), "literal hash" ); vp_assert( c == orc( "foobar" ), "literal hash" ); vp_assert( d == orc( "\x80\xff\x7f" ), "literal hash" ); vp_assert( e == orc( "\xc3\xa9t\xc3\xa9" ), "literal hash" );
	vp_assert( b == 0xaf63dc4c8601ec8cull && c == 0x85944171f73967e8ull, "published FNV-1a test vectors" );
	vp_reach( "literals" );
}
//@ entry=literals quick=
//@ entry=again quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 calls with 6 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "abc", "abd", "a", "", "abcabc" }; std::vector< std::string > v( t, t + 5 ); v.push_back( std::string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const std::string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s ); } vp_reach( "again" );
}
//@ entry=in_place quick=3 thorough=4
//@ bounds: every sequence of 3 (4) overwrites of one buffer with an arbitrary byte in between hashes
VP_ENTRY( in_place )
{
	char b[ 8 ] = "abcdef"; std::string s( b ); for ( long i = vp_param( 0 ); i > 0; --i ) { size_t at = vp_choice( 6 ); char c = vp_str_nz( 1, "c" )[ 0 ]; b[ at ] = c; s[ at ] = c; hash_t e = orc( b ); if ( vp_choice( 2 ) ) vp_assert( flut::hash( b ) == e, "hash of a changed buffer" ); else vp_assert( flut::hash( s ) == e, "hash of a changed text" ); vp_assert( flut::hash_constexpr( b ) == e, "compile-time function on a changed buffer" ); } vp_reach( "in place" );
}
