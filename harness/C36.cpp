// C36: identifier tidying
//@ entry=tidy quick=5 thorough=7
//@ entry=decorated quick=3 thorough=5
//@ entry=any_bytes quick=4 thorough=6
//@ bounds: all identifiers up to 5 characters of {m,_,:,a,B,7} (thorough 7) and up to 4 arbitrary bytes (thorough 6); decorations around names up to 3 characters (thorough 5)
#include "oracle.h"
#include "flut/system_tools.hpp"
using namespace flut;
static std::string strip( std::string s, bool left ) { size_t e = s.size(); while ( e > 0 && s[ e - 1 ] == '_' ) --e; size_t b = 0; if ( left ) while ( b < e && s[ b ] == '_' ) ++b; return s.substr( b, e - b ); }
static std::string oracle( const std::string& s ) { size_t p = std::string::npos; for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] == ':' ) p = i; if ( p != std::string::npos ) return strip( s.substr( p + 1 ), true ); if ( s.size() >= 2 && s[ 0 ] == 'm' && s[ 1 ] == '_' ) return strip( s.substr( 2 ), false ); return strip( s, true ); }
VP_ENTRY( tidy ) { std::string s = vp_str_of_upto( vp_param( 0 ), "m_:aB7", "s" ); std::string t = tidy_identifier( s ); vp_assert( vp_same( t, oracle( s ) ), "tidying removes exactly scopes, member prefix and underscores" ); vp_reach( t.empty() ? "empty" : "name" ); }
VP_ENTRY( any_bytes ) { std::string s = vp_str_upto( vp_param( 0 ), "s" ); vp_assert( vp_same( tidy_identifier( s ), oracle( s ) ), "tidying removes exactly scopes, member prefix and underscores" ); vp_reach( "end" ); }
VP_ENTRY( decorated )
{
	std::string s = vp_str_of( 1 + vp_choice( (unsigned)vp_param( 0 ) ), "m_aB7", "s" ); vp_assume( vp_and( s[ 0 ] != '_', s[ s.size() - 1 ] != '_' ) ); if ( s.size() == 1 ) vp_assume( s[ 0 ] != 'm' ); if ( s.size() > 1 ) vp_assume( !vp_and( s[ 0 ] == 'm', s[ 1 ] == '_' ) ); vp_assert( vp_same( tidy_identifier( s ), s ), "a bare name is kept" ); vp_assert( vp_same( tidy_identifier( "_" + s ), s ) && vp_same( tidy_identifier( s + "_" ), s ) && vp_same( tidy_identifier( "__" + s + "_" ), s ), "underscores are removed" ); vp_assert( vp_same( tidy_identifier( "m_" + s ), s ) && vp_same( tidy_identifier( "m_" + s + "_" ), s ), "the member prefix is removed" ); vp_assert( vp_same( tidy_identifier( "ns::" + s ), s ) && vp_same( tidy_identifier( "a::b::" + s + "_" ), s ) && vp_same( tidy_identifier( "x::_" + s ), s ), "scopes are removed" ); vp_reach( "end" );
}
//@ entry=long_names quick=60,5 thorough=60,5
//@ bounds: names of 60 characters with 5 arbitrary ones, with 0..3 decorations
VP_ENTRY( long_names )
{
	size_t n = vp_param( 0 ); int k = (int)vp_param( 1 ); std::string s( n, 'w' ); for ( int i = 0; i < k; ++i ) s[ i + 1 < k ? i * n / k : n - 1 ] = vp_str_of( 1, "m_:aB7", "s" )[ 0 ]; static const char* P[] = { "", "m_", "_", "scope::inner_::", "___", "a:m_", "m__" }; static const char* Q[] = { "", "_", "___", "::" }; std::string d = P[ vp_choice( 7 ) ] + s + Q[ vp_choice( 4 ) ]; vp_assert( vp_same( tidy_identifier( d ), oracle( d ) ), "tidying removes exactly scopes, member prefix and underscores" ); vp_reach( "end" );
}
//@ entry=again quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 calls with 7 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "m_abc_", "a::bc_", "__abc_", "m_", "", "a:m_b" }; std::vector< std::string > v( t, t + 6 ); v.push_back( std::string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const std::string& s = v[ vp_choice( (unsigned)v.size() ) ]; vp_assert( vp_same( tidy_identifier( s ), oracle( s ) ), "tidying does not depend on earlier calls" ); } vp_reach( "again" );
}
