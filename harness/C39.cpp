// C39: file system helpers create and copy what they report
//@ entry=directories quick=0 thorough=0
//@ entry=directory_faults quick=0 thorough=0 jobs=8
//@ entry=unique quick=4 thorough=6 jobs=8
//@ entry=unique_faults quick=3 thorough=4 jobs=8
//@ entry=copying quick=2 thorough=4
//@ entry=copying_large quick=1 thorough=1
//@ entry=queries quick=1 thorough=1
//@ entry=loading quick=3 thorough=5
//@ entry=current quick=1 thorough=1
//@ bounds: paths of 1..4 levels with and without trailing separator in every state (nothing, file, folder, socket) of every level, with any subset of folder creations failing; unique folders with up to 4 (thorough 6) candidate names in any state and 0..5 attempts, with any subset of creations failing; copies of any content up to 2 bytes (thorough 4) and of 20000 bytes onto nothing, a file, a folder, a missing folder, itself and a full device, with a readable or missing source
//@ assume: the file system changes only through the calls made; the source of a copy is not a folder
#include "oracle.h"
#include "flut/system/path.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static std::string content( const std::string& n ) { std::string s; vp_assert( vp_file_read( n, s ), "the file is still there" ); return s; }
static const char* LEVELS[] = { "a", "a/b.c", "a/b.c/d", "a/b.c/d/e f" };
// any state of the first levels; below something that is not a folder there is nothing
static void world( int n ) { for ( int i = 0; i < n; ++i ) { unsigned k = vp_choice( 4 ); if ( k == 0 ) return; vp_fs_make( LEVELS[ i ], (int)k - 1 ); if ( k == 1 ) vp_file_write( LEVELS[ i ], "keep" ); if ( k != 2 ) return; } }
static void make( bool faults )
{
	int n = 1 + (int)vp_choice( 4 ); world( n ); int before[ 4 ]; for ( int i = 0; i < 4; ++i ) before[ i ] = vp_fs_kind( LEVELS[ i ] ); std::string p = LEVELS[ n - 1 ]; if ( vp_choice( 2 ) ) p += "/"; vp_fs_faults( faults ); bool r = create_directories( path( p ) ); vp_fs_faults( 0 ); int after = vp_fs_kind( LEVELS[ n - 1 ] );
	vp_assert( r == ( before[ n - 1 ] < 0 && after == 1 ), "success is reported exactly when the folder was created" ); bool blocked = false; for ( int i = 0; i < n; ++i ) { if ( before[ i ] == 0 || before[ i ] == 2 ) blocked = true; if ( before[ i ] >= 0 ) vp_assert( vp_fs_kind( LEVELS[ i ] ) == before[ i ], "what existed is left alone" ); if ( before[ i ] == 0 ) vp_assert( content( LEVELS[ i ] ) == "keep", "files are left alone" ); }
	if ( !faults && !blocked ) vp_assert( after == 1, "the folder exists with all its parents" ); if ( r ) { vp_assert( folder_exists( path( LEVELS[ n - 1 ] ) ), "the folder exists" ); vp_reach( "created" ); } else vp_reach( "not created" ); for ( int i = n; i < 4; ++i ) vp_assert( vp_fs_kind( LEVELS[ i ] ) < 0, "nothing else is created" );
}
VP_ENTRY( directories ) { make( false ); }
VP_ENTRY( directory_faults ) { make( true ); }
static void unique( bool faults )
{
	bool deep = vp_choice( 2 ) != 0; std::string base = deep ? "top/run" : "run"; if ( deep && vp_choice( 2 ) ) vp_fs_make( "top", 1 ); bool top = !deep || vp_fs_kind( "top" ) == 1; std::vector< std::string > names; int m = (int)vp_param( 0 ); for ( int i = 0; i < m; ++i ) names.push_back( i ? base + " (" + std::to_string( i ) + ")" : base ); std::vector< int > before; for ( auto& s : names ) { unsigned k = top ? vp_choice( 3 ) : 0; if ( k ) vp_fs_make( s, k == 1 ? 0 : 1 ); before.push_back( vp_fs_kind( s ) ); }
	int tries = (int)vp_choice( (unsigned)m + 1 ); vp_fs_faults( faults ); std::string r; bool thrown = false; try { r = create_unique_folder( path( base ), tries ).str(); } catch ( std::exception& ) { thrown = true; } vp_fs_faults( 0 ); int first = -1; for ( int i = 0; i < tries; ++i ) if ( before[ i ] < 0 ) { first = i; break; }
	for ( int i = 0; i < m; ++i ) if ( before[ i ] >= 0 ) { vp_assert( vp_fs_kind( names[ i ] ) == before[ i ], "what existed is left alone" ); vp_assert( thrown || r != names[ i ], "an existing name is never returned" ); }
	if ( !faults ) vp_assert( thrown == ( first < 0 ), "running out of names is an error" ); if ( !thrown ) { int at = -1; for ( int i = 0; i < tries; ++i ) if ( names[ i ] == r ) at = i; vp_assert( at >= 0 && before[ at ] < 0 && vp_fs_kind( r ) == 1, "the returned folder is new and exists" ); if ( !faults ) vp_assert( at == first, "the first free name is used" ); int fresh = 0; for ( int i = 0; i < m; ++i ) if ( before[ i ] < 0 && vp_fs_kind( names[ i ] ) >= 0 ) ++fresh; vp_assert( fresh == 1, "one folder is created" ); vp_reach( at ? "numbered" : "plain" ); } else vp_reach( "none left" );
}
VP_ENTRY( unique ) { unique( false ); }
VP_ENTRY( unique_faults ) { unique( true ); }
static void copies( const std::string& data, const std::string& old )
{
	bool src = vp_choice( 2 ) != 0; if ( src ) vp_file_write( "from", data ); unsigned k = vp_choice( 6 ); std::string to = k == 4 ? "from" : k == 5 ? "/dev/full" : k == 3 ? "none/to" : "to"; if ( k == 1 ) vp_file_write( "to", old ); if ( k == 2 ) vp_fs_make( "to", 1 ); bool over = vp_choice( 2 ) != 0; bool r = copy_file( path( "from" ), path( to ), over );
	bool exists = k == 1 || k == 2 || ( k == 4 && src ) || k == 5; bool can = k == 0 || k == 1 || k == 4 || ( k == 5 && data.empty() ); vp_assert( r == ( src && can && ( over || !exists ) ), "success is reported exactly when the copy was made" ); if ( src ) vp_assert( vp_same( content( "from" ), data ), "the source is left alone" ); else if ( k != 4 || !r ) vp_assert( vp_fs_kind( "from" ) < 0, "no source appears" );
	if ( r && k != 5 ) { vp_assert( vp_same( content( to ), data ), "the copy has the contents of the source" ); vp_reach( k == 1 ? "replaced" : "copied" ); } else { vp_reach( "refused" ); if ( k == 1 ) vp_assert( vp_same( content( "to" ), old ), "the target is left alone" ); if ( k == 0 || k == 3 ) vp_assert( vp_fs_kind( to ) < 0, "no target appears" ); if ( k == 2 ) vp_assert( vp_fs_kind( "to" ) == 1, "the folder is left alone" ); }
}
VP_ENTRY( copying ) { copies( vp_str_upto( vp_param( 0 ), "data" ), vp_str_upto( 2, "old" ) ); }
VP_ENTRY( copying_large ) { std::string d( 20000, 'q' ); for ( size_t i = 0; i < d.size(); i += 7 ) d[ i ] = (char)( i * 31 ); copies( d, "x" ); }
VP_ENTRY( queries )
{
	unsigned k = vp_choice( 4 ); if ( k ) vp_fs_make( "n.m", (int)k - 1 ); path p( "n.m" ); vp_assert( exists( p ) == ( k != 0 ), "exists" ); vp_assert( folder_exists( p ) == ( k == 2 ), "only a folder is a folder" ); if ( k != 2 ) vp_assert( file_exists( p ) == ( k == 1 ), "only a file is a file" ); vp_assert( !exists( path( "other" ) ) && !file_exists( path( "other" ) ) && !folder_exists( path( "other" ) ), "nothing else exists" ); if ( k < 2 ) { bool r = flut::remove( p ); vp_assert( r == ( k == 1 ), "removing reports whether there was a file" ); vp_assert( !exists( p ) && !file_exists( p ), "and removes it" ); } vp_reach( k ? "there" : "missing" );
}
VP_ENTRY( loading )
{
	bool have = vp_choice( 2 ) != 0; std::string d = vp_str_upto( vp_param( 0 ), "d" ); if ( have ) vp_file_write( "f", d ); error_code ec; std::string s = load_string( path( "f" ), &ec ); vp_assert( ec.ok() == have, "a missing file is reported" ); if ( have ) vp_assert( vp_same( s, d ), "the contents are loaded" ); else vp_assert( s.empty() && !ec.message().empty(), "nothing is loaded" ); bool t = false; std::string u; try { u = load_string( path( "f" ) ); } catch ( std::exception& ) { t = true; } vp_assert( t == !have, "a missing file throws" ); if ( have ) vp_assert( vp_same( u, d ), "the contents are loaded" ); vp_reach( have ? "loaded" : "missing" );
}
VP_ENTRY( current ) { path c = current_path(); vp_fs_make( "sub", 1 ); current_path( path( "sub" ) ); vp_assert( current_path().str() == c.str() + "/sub", "the current folder" ); vp_file_write( "x", "1" ); current_path( c ); vp_assert( vp_fs_kind( "sub/x" ) == 0, "relative names" ); vp_assert( current_path() == c, "back again" ); vp_reach( "end" ); }
