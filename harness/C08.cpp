// C08: file-name string helpers partition the name
//@ entry=names quick=7 thorough=9 jobs=4
//@ entry=names_any quick=5 thorough=6 jobs=4
//@ entry=longs quick=1100 thorough=1100
//@ bounds: every text of length 0..7 (thorough 9) over / \ . a b, every byte string of length 0..5 (6), 1100-byte names with arbitrary bytes at the interesting places
#include "oracle.h"
#include "flut/string_tools.hpp"
using namespace flut;
static void check( const string& s )
{
	size_t i = s.size(); while ( i > 0 && s[ i - 1 ] != '/' && s[ i - 1 ] != '\\' ) --i;
	string folder = s.substr( 0, i ), name = s.substr( i );
	vp_assert( vp_same( get_filename_folder( s ), folder ), "folder is the text up to and including the last separator" );
	vp_assert( vp_same( get_filename_without_folder( s ), name ), "name is the text after the last separator" );
	vp_assert( vp_same( get_filename_folder( s ) + get_filename_without_folder( s ), s ), "folder and name partition the text" );
	size_t d = name.size(); while ( d > 0 && name[ d - 1 ] != '.' ) --d;
	string ext = d > 0 ? name.substr( d ) : string();
	vp_assert( vp_same( get_filename_ext( s ), ext ), "extension is what follows the last dot of the name" );
	string w = get_filename_without_ext( s );
	if ( d == 0 ) { vp_assert( vp_same( w, s ), "nothing is removed without extension" ); vp_reach( "none" ); }
	else if ( ext.empty() ) vp_assert( vp_same( w, s ) || vp_same( w + ".", s ), "at most the trailing dot is removed" );
	else { vp_assert( vp_same( w + "." + ext, s ), "exactly the dot and the extension are removed" ); vp_reach( "ext" ); }
}
VP_ENTRY( names ) { check( vp_str_of_upto( vp_param( 0 ), "/\\.ab" ) ); }
VP_ENTRY( names_any ) { check( vp_str_upto( vp_param( 0 ) ) ); }
VP_ENTRY( longs ) { string f( vp_param( 0 ), 'x' ); check( vp_str( 1 ) + f + vp_str( 2 ) + f + vp_str( 2 ) ); vp_reach( "long" ); }
//@ entry=again quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 calls with 8 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "a/b.c", "a/bxc", "a.b/c", "/x", "", "a/b/", "xab.c" }; std::vector< string > v( t, t + 7 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s ); } vp_reach( "again" );
}
