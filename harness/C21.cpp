// C21: property text written to a file reads back as the same tree
//@ entry=one_value quick=1,3 thorough=2,4 jobs=8
//@ entry=one_key quick=3,1 thorough=4,1 jobs=4
//@ entry=siblings quick=2,1 thorough=3,1 jobs=8
//@ entry=nested quick=1,1,3 thorough=1,1,4 jobs=8
//@ entry=both quick=1,2 thorough=1,3 jobs=4
//@ entry=shapes quick=4 thorough=6 jobs=8
//@ entry=merge quick=2,2 thorough=3,3 jobs=4
//@ entry=long_text quick=1100 thorough=1100
//@ bounds: every single property with a key of a letter and 0..1 (thorough 2) arbitrary bytes and a value of 0..3 (4) arbitrary bytes; keys of up to 4 (5) bytes; two siblings (3) and up to 3 (4) levels of nesting with arbitrary one-byte values; value plus children; every tree shape with up to 4 (6) nodes; both layouts; merges of trees with up to 2 (3) children; values of 1100 bytes with 3 arbitrary ones
//@ assume: keys start with an ASCII letter; the root itself has no value (the format has no place for it)
#include "tree.h"
#include "flut/prop_node_tools.hpp"
using namespace flut;
static string key( int n ) { char c = vp_char( "k" ); vp_assume( vp_or( vp_and( c >= 'a', c <= 'z' ), vp_and( c >= 'A', c <= 'Z' ) ) ); return string( 1, c ) + vp_str_upto( n, "k" ); }
static void round_trip( const node& n )
{
	bool readable = vp_choice( 2 ); prop_node p = to_prop( n ); bool ok = save_prop( p, path( "f.prop" ), readable ); vp_assert( ok, "saving succeeds" ); vp_assert( same_tree( p, n ), "saving leaves the tree alone" );
	prop_node q; bool t = false; try { q = load_prop( path( "f.prop" ) ); } catch ( std::exception& ) { t = true; } vp_assert( !t, "the saved file loads without error" );
	vp_assert( same_tree( q, n ), readable ? "the readable layout reads back as the same tree" : "the compact layout reads back as the same tree" );
	prop_node r; try { r = load_file( path( "f.prop" ) ); } catch ( std::exception& ) { t = true; } vp_assert( !t && same_tree( r, n ), "load_file reads the same tree" );
	vp_reach( readable ? "readable" : "compact" );
}
VP_ENTRY( one_value ) { node n; n.add( key( vp_param( 0 ) ) ).v = vp_str_upto( vp_param( 1 ), "v" ); round_trip( n ); }
VP_ENTRY( one_key ) { node n; n.add( key( vp_param( 0 ) ) ).v = vp_str_upto( vp_param( 1 ), "v" ); round_trip( n ); }
VP_ENTRY( siblings ) { node n; for ( int i = 0; i < vp_param( 0 ); ++i ) n.add( key( 0 ) ).v = vp_str_upto( vp_param( 1 ), "v" ); n.add( "last" ); round_trip( n ); }
VP_ENTRY( nested ) { node n; node* c = &n; for ( int i = 0; i < vp_param( 2 ); ++i ) { c = &c->add( key( vp_param( 0 ) * ( i == 1 ) ) ); } c->v = vp_str_upto( vp_param( 1 ), "v" ); n.add( "z" ).v = vp_str( 1, "v" ); round_trip( n ); }
VP_ENTRY( both ) { node n; node& c = n.add( key( 0 ) ); c.v = vp_str_upto( vp_param( 0 ), "v" ); c.add( key( 0 ) ).v = vp_str_upto( vp_param( 1 ), "v" ); n.add( "b" ).v = "1"; round_trip( n ); }
static void shape( node& n, int& left ) { while ( left > 0 && vp_choice( 2 ) ) { --left; node& c = n.add( string( 1, char( 'a' + left ) ) ); unsigned v = vp_choice( 3 ); c.v = v == 0 ? "" : v == 1 ? "x y" : "7"; shape( c, left ); } }
VP_ENTRY( shapes ) { node n; int left = vp_param( 0 ); shape( n, left ); round_trip( n ); }
VP_ENTRY( long_text ) { node n; string s( vp_param( 0 ), 'a' ); for ( size_t i = 0; i < s.size(); ++i ) s[ i ] = char( 'a' + i % 26 ); s[ 0 ] = vp_char( "c" ); s[ s.size() / 2 ] = vp_char( "c" ); s[ s.size() - 1 ] = vp_char( "c" ); n.add( "key" ).v = s; n.add( "next" ).v = "1"; round_trip( n ); }
VP_ENTRY( merge )
{
	node a, b; unsigned na = vp_choice( vp_param( 0 ) + 1 ), nb = vp_choice( vp_param( 1 ) + 1 ); bool over = vp_choice( 2 );
	for ( unsigned i = 0; i < na; ++i ) { string k = vp_str( 1, "k" ); vp_assume( !a.has( k ) ); node& c = a.add( k ); c.v = vp_str( 1, "v" ); if ( i == 0 ) c.add( "sub" ).v = "1"; }
	for ( unsigned i = 0; i < nb; ++i ) { string k = vp_str( 1, "m" ); vp_assume( !b.has( k ) ); node& c = b.add( k ); c.v = vp_str( 1, "w" ); if ( i == 1 ) c.add( "sub2" ).v = "2"; }
	prop_node p = to_prop( a ), q = to_prop( b ); merge_prop_nodes( p, q, over );
	node e = a; for ( auto& o : b.c ) { size_t i = e.find( o.first ); if ( i == e.c.size() ) e.c.push_back( o ); else if ( over ) e.c[ i ].second = o.second; }
	vp_assert( same_tree( p, e ), "merging adds exactly the missing keys and replaces existing ones only when asked" ); vp_assert( same_tree( q, b ), "merging leaves the other tree alone" ); vp_reach( over ? "overwrite" : "keep" );
}
//@ entry=wide quick=80 thorough=80
//@ entry=tall quick=30 thorough=30
//@ entry=merge_many quick=30 thorough=30
//@ bounds: trees with 80 children with long keys and values, with 30 levels, and merges of 30 children, each with one arbitrary byte
VP_ENTRY( wide ) { node n; int m = vp_param( 0 ); for ( int i = 0; i < m; ++i ) { node& c = n.add( ( i % 2 ? "key" : "a key with = signs, number " ) + std::to_string( i ) ); c.v = i % 3 == 0 ? string( i * 11, 'v' ) : i % 3 == 1 ? "two words" : ""; if ( i % 5 == 0 ) { c.add( "in" ).v = "{ }"; c.add( "in2" ).v = string( 1, char( i + 1 ) ); } } n.c[ vp_choice( 3 ) * ( m - 1 ) / 2 ].second.v = vp_str( 1, "v" ) + " end"; round_trip( n ); }
VP_ENTRY( tall ) { node n; node* c = &n; int m = vp_param( 0 ); for ( int i = 0; i < m; ++i ) { if ( i % 3 == 1 ) c->add( "before" ).v = "x" + std::to_string( i ); c = &c->add( "level" + std::to_string( i ) ); if ( i % 4 == 2 ) c->v = "value " + std::to_string( i ); } c->v = vp_str( 2, "v" ); n.add( "after" ).v = "last"; round_trip( n ); }
VP_ENTRY( merge_many )
{
	node a, b; bool over = vp_choice( 2 ); int m = vp_param( 0 ); for ( int i = 0; i < m; ++i ) { a.add( "k" + std::to_string( i ) ).v = "a" + std::to_string( i ); node& c = b.add( "k" + std::to_string( i * 2 ) ); c.v = "b" + std::to_string( i ); if ( i % 3 == 0 ) c.add( "s" ).v = "t"; } string k = "k" + vp_str( 1, "k" ); vp_assume( !b.has( k ) ); b.add( k ).v = vp_str( 1, "v" ); prop_node p = to_prop( a ), q = to_prop( b ); merge_prop_nodes( p, q, over ); node e = a; for ( auto& o : b.c ) { size_t i = e.find( o.first ); if ( i == e.c.size() ) e.c.push_back( o ); else if ( over ) e.c[ i ].second = o.second; } vp_assert( same_tree( p, e ), "merging adds exactly the missing keys and replaces existing ones only when asked" ); vp_assert( same_tree( q, b ), "merging leaves the other tree alone" ); vp_reach( over ? "overwrite" : "keep" );
}
//@ entry=saving quick=2 thorough=3
//@ bounds: saving 0..2 (3) properties to a new file, an existing file, a missing folder, a folder or a full device
VP_ENTRY( saving )
{
	node n; unsigned m = vp_choice( (unsigned)vp_param( 0 ) + 1 ); for ( unsigned i = 0; i < m; ++i ) n.add( string( 1, char( 'a' + i ) ) ).v = vp_str_of( 1, "xyz", "v" ); unsigned k = vp_choice( 5 ); string f = k == 3 ? "none/f.prop" : k == 4 ? "/dev/full" : "f.prop"; if ( k == 1 ) vp_file_write( f, "old = 1\n and more of this than what replaces it" ); if ( k == 2 ) vp_fs_make( f, 1 );
	bool r = save_prop( to_prop( n ), path( f ), vp_choice( 2 ) != 0 ); bool can = k < 2 || ( k == 4 && m == 0 ); vp_assert( r == can, "success is reported exactly when the file was written" ); if ( r && k < 2 ) { vp_assert( same_tree( load_prop( path( f ) ), n ), "and reads back" ); vp_reach( "saved" ); } else vp_reach( "refused" );
}
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of saving and loading 3 (4) out of 5 trees under the same file name (what is read is what was last saved)
VP_ENTRY( again )
{
	string x = vp_str( 1, "v" ); for ( long i = vp_param( 0 ); i > 0; --i ) { node n; unsigned k = vp_choice( 5 ); if ( k == 0 ) n.add( "a" ).v = x; else if ( k == 1 ) { node& c = n.add( "a" ); c.add( "b" ).v = "1"; c.add( "c" ).v = string( 60, 'q' ) + x; } else if ( k == 2 ) { node& c = n.add( "a" ); c.add( "b" ).v = "2"; c.add( "c" ).v = string( 60, 'q' ) + "z"; } else if ( k == 3 ) n.add( "z" ).add( "y" ).v = "x y"; round_trip( n ); } vp_reach( "again" );
}
