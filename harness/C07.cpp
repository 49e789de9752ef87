// C07: path decomposition and composition are consistent
//@ entry=decompose quick=6 thorough=8 jobs=4
//@ entry=decompose_any quick=4 thorough=6 jobs=2
//@ entry=modify quick=5,2 thorough=7,2 jobs=4
//@ entry=join quick=4,3 thorough=6,4 jobs=2
//@ entry=longs quick=1100 thorough=1100
//@ bounds: every path of length 0..6 (thorough 8) over the characters / \ . a b and every byte string of length 0..4 (6); replacement names/extensions of length 0..2; joins of 0..4 and 0..3 bytes; paths of 2200 bytes with arbitrary bytes at the interesting places
#include "oracle.h"
#include "flut/system/path.hpp"
using namespace flut;
struct parts { string dir, name, stem, ext; bool has_sep, has_dot; size_t sep; };
static parts orc( const string& s )
{
	parts p; size_t i = s.size(); while ( i > 0 && s[ i - 1 ] != '/' && s[ i - 1 ] != '\\' ) --i;
	p.has_sep = i > 0; p.sep = i; p.dir = i > 0 ? s.substr( 0, i - 1 ) : string(); p.name = s.substr( i );
	size_t d = p.name.size(); while ( d > 0 && p.name[ d - 1 ] != '.' ) --d;
	p.has_dot = d > 0; p.ext = d > 0 ? p.name.substr( d ) : string(); p.stem = d > 0 ? p.name.substr( 0, d - 1 ) : p.name;
	return p;
}
static void check( const string& s )
{
	path p( s ); parts e = orc( s );
	vp_assert( vp_same( p.filename().str(), e.name ), "file name is what follows the last separator" );
	vp_assert( vp_same( p.parent_path().str(), e.dir ), "parent is what precedes the last separator" );
	vp_assert( vp_same( p.extension().str(), e.ext ), "extension is what follows the last dot of the file name" );
	vp_assert( vp_same( p.stem().str(), e.stem ), "stem is the file name without extension" );
	vp_assert( p.has_parent_path() == e.has_sep, "parent present exactly when there is a separator" );
	vp_assert( p.has_filename() == !e.name.empty(), "file name present exactly when not empty" );
	vp_assert( p.empty() == s.empty(), "empty" );
	vp_assert( vp_same( p.str(), s ) && vp_same( p.string(), s ), "queries leave the path alone" );
	path q( s ); q.make_preferred(); vp_assert( q.str().size() == s.size(), "normalising keeps the length" );
	for ( size_t i = 0; i < s.size(); ++i ) vp_assert( q.str()[ i ] == ( s[ i ] == '/' || s[ i ] == '\\' ? path::preferred_separator() : s[ i ] ), "normalising changes only separators" );
	vp_reach( "decompose" ); if ( e.has_sep && e.has_dot ) vp_reach( "both" );
}
static void check_modify( const string& s, const string& x )
{
	parts e = orc( s ); string base = s.substr( 0, e.sep );
	path a( s ); path& ra = a.replace_extension( path( x ) ); vp_assert( &ra == &a, "returns itself" );
	vp_assert( vp_same( a.str(), base + e.stem + ( x.empty() ? string() : "." + x ) ), "replacing the extension changes only the extension" );
	path b( s ); b.replace_extension(); vp_assert( vp_same( b.str(), base + e.stem ), "removing the extension removes only the extension" );
	path c( s ); c.replace_filename( path( x ) ); vp_assert( vp_same( c.str(), base + x ), "replacing the file name changes only the file name" );
	path d( s ); d.remove_filename(); vp_assert( vp_same( d.str(), e.dir ), "removing the file name leaves the parent" );
	vp_reach( "modify" );
}
static void check_join( const string& a, const string& b )
{
	bool need = !a.empty() && a.back() != '/' && a.back() != '\\';
	string e = need ? a + path::preferred_separator() + b : a + b;
	vp_assert( vp_same( ( path( a ) / path( b ) ).str(), e ), "joining paths inserts one separator where needed" );
	vp_assert( vp_same( ( path( a ) / b ).str(), e ), "joining a text inserts one separator where needed" );
	if ( b.find( char( 0 ) ) == string::npos ) vp_assert( vp_same( ( path( a ) / b.c_str() ).str(), e ), "joining a C string inserts one separator where needed" );
	path p( a ); p /= path( b ); vp_assert( vp_same( p.str(), e ), "appending a path inserts one separator where needed" );
	path q( a ); q /= b; vp_assert( vp_same( q.str(), e ), "appending a text inserts one separator where needed" );
	vp_assert( vp_same( ( path( a ) + b ).str(), a + b ) && vp_same( ( a + path( b ) ).str(), a + b ), "concatenation inserts nothing" );
	vp_assert( ( path( a ) == path( b ) ) == vp_same( a, b ) && ( path( a ) != path( b ) ) == !vp_same( a, b ), "equality is equality of text" );
	vp_reach( "join" );
}
VP_ENTRY( decompose ) { check( vp_str_of_upto( vp_param( 0 ), "/\\.ab" ) ); }
VP_ENTRY( decompose_any ) { check( vp_str_upto( vp_param( 0 ) ) ); }
VP_ENTRY( modify ) { string s = vp_str_of_upto( vp_param( 0 ), "/\\.a" ); check_modify( s, vp_str_of_upto( vp_param( 1 ), "/.b" ) ); }
VP_ENTRY( join ) { string s = vp_str_upto( vp_param( 0 ) ); check_join( s, vp_str_upto( vp_param( 1 ) ) ); }
VP_ENTRY( longs )
{
	string f( vp_param( 0 ), 'x' ); string s = vp_str( 1 ) + f + vp_str( 2 ) + f + vp_str( 1 );
	check( s ); check_modify( s, "ext" ); check_join( s, "next" ); vp_reach( "long" );
}
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of 3 calls with 8 different arguments, one of them with an arbitrary character (results do not depend on earlier calls)
VP_ENTRY( again )
{
	const char* t[] = { "a/b.c", "a/bxc", "a.b/c", "/x", "", "a/b/", "xab.c" }; std::vector< string > v( t, t + 7 ); v.push_back( string( "a\"" ) + vp_str_nz( 1, "x" ) + "\\1b" ); for ( long i = vp_param( 0 ); i > 0; --i ) { const string& s = v[ vp_choice( (unsigned)v.size() ) ]; check( s ); check_modify( s, "e" ); check_join( s, v[ vp_choice( (unsigned)v.size() ) ] ); } vp_reach( "again" );
}
//@ entry=own quick=2 thorough=4
//@ bounds: every path of up to 2 (4) characters of a, dot and separators, joined with, assigned from and compared with itself
VP_ENTRY( own )
{
	string a = vp_str_of_upto( vp_param( 0 ), "a./\\", "a" ); bool need = !a.empty() && a.back() != '/' && a.back() != '\\'; string e = need ? a + path::preferred_separator() + a : a + a; path p( a ); p /= p; vp_assert( vp_same( p.str(), e ), "appending a path to itself" ); path q( a ); q /= q.str(); vp_assert( vp_same( q.str(), e ), "appending its own text" ); path r( a ); r = r / r; vp_assert( vp_same( r.str(), e ), "joining with itself" ); const path& s = r; r = s; vp_assert( vp_same( r.str(), e ) && r == s, "self assignment" ); path f( a ), g( f.filename() ), h( f.parent_path() ); path k( a ); k = k.filename(); vp_assert( k == g, "replacing a path by its own file name" ); path l( a ); l = l.parent_path(); vp_assert( l == h, "replacing a path by its own parent" ); vp_reach( "own" );
}
