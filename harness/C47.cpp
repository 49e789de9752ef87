// C47: merging and including property files
//@ entry=merging quick=2,2 thorough=3,2 jobs=8
//@ entry=merging_long quick=40 thorough=40
//@ entry=including quick=3 thorough=4 jobs=8
//@ entry=nested quick=1 thorough=1
//@ entry=loops quick=1 thorough=1
//@ entry=wrong quick=1 thorough=1
//@ bounds: merging trees of up to 2 and 2 (thorough 3 and 2) children with any 1-byte keys and values, with and without overwriting, and trees of 40 children; files with up to 3 (4) items out of plain values, includes, merging includes and groups with an include inside, in the same or another folder, any directive name of two; includes inside included files; files that include themselves directly or in a circle; missing or unsuitable files
#include "tree.h"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static void merge( node& n, const node& o, bool over ) { for ( auto& e : o.c ) { size_t i = n.find( e.first ); if ( i == n.c.size() ) n.c.push_back( e ); else if ( over ) n.c[ i ].second = e.second; } }
static node some( unsigned m ) { node n; unsigned k = vp_choice( m + 1 ); for ( unsigned i = 0; i < k; ++i ) { node& c = n.add( vp_str( 1, "k" ) ); unsigned f = vp_choice( 4 ); if ( f & 1 ) c.v = vp_str( 1, "v" ); if ( f & 2 ) c.add( "sub" ).v = vp_str( 1, "s" ); } return n; }
static void merged( node a, const node& b, bool over ) { prop_node p = to_prop( a ), q = to_prop( b ); p.set_value( std::string( "own" ) ); a.v = "own"; merge_prop_nodes( p, q, over ); merge( a, b, over ); vp_assert( same_tree( p, a ), over ? "merging replaces equal keys and appends the others" : "merging keeps equal keys and appends the others" ); vp_assert( same_tree( q, b ), "the merged tree is left alone" ); vp_reach( over ? "overwrite" : "keep" ); }
VP_ENTRY( merging ) { node a = some( vp_param( 0 ) ), b = some( vp_param( 1 ) ); merged( a, b, vp_choice( 2 ) != 0 ); }
VP_ENTRY( merging_long ) { node a, b; int n = (int)vp_param( 0 ); for ( int i = 0; i < n; ++i ) { a.add( "key" + std::to_string( i * 5 % 17 ) ).v = "a" + std::to_string( i ); node& c = b.add( "key" + std::to_string( i * 3 % 23 ) ); c.v = "b"; c.add( "x" ).v = "y"; } a.c[ n / 2 ].first[ 3 ] = (char)vp_sym_u8( "k" ); merged( a, b, vp_choice( 2 ) != 0 ); }
static std::string text( const node& n, int depth = 0 ) { std::string s; for ( auto& e : n.c ) { s += e.first; if ( !e.second.v.empty() ) s += " = " + e.second.v; s += "\n"; if ( !e.second.c.empty() ) s += "{\n" + text( e.second, depth + 1 ) + "}\n"; } return s; }
static std::string val( const char* nm ) { return vp_str_of( 1, "xyz", nm ); }
static std::string read( const std::string& f, const std::string& dir, prop_node& p ) { try { p = load_file_with_include( path( f ), dir ); return ""; } catch ( std::exception& e ) { return std::string( "error: " ) + e.what(); } }
static node group( unsigned n ) { node g; for ( unsigned i = 0; i < n; ++i ) g.add( std::string( 1, (char)( 'a' + i ) ) ).v = val( "g" ); return g; }
VP_ENTRY( including )
{
	std::string dir = vp_choice( 2 ) ? "INCLUDE" : "use_file", folder = vp_choice( 2 ) ? "fo/" : "", sub = vp_choice( 2 ) ? "s/" : ""; node main, e; if ( !folder.empty() ) vp_fs_make( "fo", 1 ); if ( !sub.empty() ) vp_fs_make( folder + "s", 1 );
	node inner = group( vp_choice( 3 ) ); inner.v = inner.c.empty() ? "q" : ""; node file; file.add( "root" ) = inner; vp_file_write( folder + sub + "inc file.prop", text( file ) );
	auto inc = [&]( bool m ) { node n; n.add( "file" ).v = '"' + sub + "inc file.prop\""; if ( m ) n.add( "merge_children" ).v = "1"; return n; }; std::vector< size_t > merges;
	// expected: includes are resolved from first to last
	for ( long k = vp_param( 0 ); k > 0; --k ) switch ( vp_choice( 5 ) )
	{
	case 0: { node v; v.v = val( "v" ); main.add( k % 2 ? "a" : "b" ) = v; e.add( k % 2 ? "a" : "b" ) = v; break; }
	case 1: main.add( dir ) = inc( false ); e.add( "root" ) = inner; break;
	case 2: main.add( dir ) = inc( true ); e.add( dir ); break;
	case 3: { node g; g.v = "1"; g.add( "b" ).v = "z"; node r = g; g.add( dir ) = inc( true ); merge( r, inner, false ); main.add( "group" ) = g; e.add( "group" ) = r; break; }
	case 4: { node g; g.add( dir ) = inc( false ); g.add( "after" ).v = "2"; node r; r.add( "root" ) = inner; r.add( "after" ).v = "2"; main.add( "group2" ) = g; e.add( "group2" ) = r; break; }
	}
	for ( size_t i = 0; i < e.c.size(); ) if ( e.c[ i ].first == dir ) { e.c.erase( e.c.begin() + i ); merge( e, inner, false ); i = 0; vp_reach( "merged" ); } else ++i;
	vp_file_write( folder + "main.prop", text( main ) ); prop_node p; std::string r = read( folder + "main.prop", dir, p ); vp_assert( r.empty(), "the files load without error" ); vp_assert( p.count_unaccessed() > 0 && !p.is_accessed(), "nothing counts as read" ); vp_assert( same_tree( p, e ), "includes are replaced by what they include" ); vp_reach( "end" );
}
VP_ENTRY( nested )
{
	vp_fs_make( "d1", 1 ); vp_fs_make( "d1/d2", 1 ); std::string v = val( "v" ); unsigned m = vp_choice( 2 ); std::string x = m ? "; merge_children = 1" : ""; vp_file_write( "m.prop", "top { first = 1; INCLUDE { file = d1/a.prop" + x + " }; last = 2 }" ); vp_file_write( "d1/a.prop", "aa { INCLUDE { file = d2/b.xml }; p = 3 }" ); vp_file_write( "d1/d2/b.xml", "<bb><INCLUDE file='../c.prop'/><k>" + v + "</k></bb>" ); vp_file_write( "d1/c.prop", "cc = 5" );
	vp_file_write( "d1/d2/../c.prop", "cc = 5" ); prop_node p; std::string r = read( "m.prop", "INCLUDE", p ); vp_assert( r.empty(), "included files may include others relative to themselves" ); node bb; bb.add( "cc" ).v = "5"; bb.add( "k" ).v = v; node aa; aa.add( "bb" ) = bb; aa.add( "p" ).v = "3"; node e; node& t = e.add( "top" ); t.add( "first" ).v = "1"; if ( !m ) t.add( "aa" ) = aa; t.add( "last" ).v = "2"; if ( m ) merge( t, aa, false ); vp_assert( same_tree( p, e ), "the resulting tree" ); vp_reach( "end" );
}
VP_ENTRY( loops ) { unsigned k = vp_choice( 3 ); std::string v = val( "v" ); vp_file_write( "a.prop", "r { INCLUDE { file = " + std::string( k ? "b.prop" : "a.prop" ) + ( k == 2 ? "; merge_children = 1" : "" ) + " }; x = " + v + " }" ); vp_file_write( "b.prop", "q { INCLUDE { file = a.prop } }" ); prop_node p; std::string r = read( "a.prop", "INCLUDE", p ); vp_assert( !r.empty(), "including in a circle is an error" ); vp_assert( p.empty(), "nothing is loaded" ); vp_reach( "end" ); }
VP_ENTRY( wrong ) { unsigned k = vp_choice( 5 ); std::string v = val( "v" ); static const char* INC[] = { "file = none.prop", "file = two.prop", "file = empty.prop", "nofile = one.prop", "file = one.prop" }; vp_file_write( "two.prop", "a = 1; b = " + v ); vp_file_write( "empty.prop", "" ); vp_file_write( "one.prop", "a = " + v ); vp_file_write( "m.prop", std::string( "r { INCLUDE { " ) + INC[ k ] + " } }" ); prop_node p; std::string r = read( "m.prop", "INCLUDE", p ); vp_assert( r.empty() == ( k == 4 ), "an include without a file with one root is an error" ); if ( k == 4 ) { node e; e.add( "r" ).add( "a" ).v = v; vp_assert( same_tree( p, e ), "the tree" ); } vp_reach( k == 4 ? "good" : "error" ); vp_assert( !read( "missing.prop", "INCLUDE", p ).empty(), "a missing file is an error" ); }
//@ entry=itself quick=3 thorough=4
//@ bounds: merging a tree of up to 3 (4) different keys with itself, with a copy, and twice with the same tree
VP_ENTRY( itself )
{
	node n; unsigned k = vp_choice( (unsigned)vp_param( 0 ) + 1 ); for ( unsigned i = 0; i < k; ++i ) { node& c = n.add( std::string( 1 + i, 'k' ) ); c.v = vp_str( 1, "v" ); if ( i % 2 ) c.add( "sub" ).v = "a long value that needs its own memory"; } bool over = vp_choice( 2 ) != 0; prop_node p = to_prop( n ); merge_prop_nodes( p, p, over ); vp_assert( same_tree( p, n ), "merging a tree with itself changes nothing" ); prop_node q( p ); merge_prop_nodes( p, q, over ); merge_prop_nodes( p, q, !over ); vp_assert( same_tree( p, n ) && same_tree( q, n ), "merging an equal tree changes nothing" ); prop_node e; merge_prop_nodes( e, p, over ); merge_prop_nodes( e, p, over ); vp_assert( same_tree( e, n ), "merging twice is merging once" ); vp_reach( "itself" );
}
