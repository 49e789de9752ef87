// C38: XML files round-trip property trees
//@ entry=leaf quick=2,3 thorough=2,4 jobs=8
//@ entry=inner quick=3 thorough=4 jobs=8
//@ entry=shapes quick=5 thorough=6 jobs=8
//@ entry=hand_written quick=2 thorough=3
//@ entry=wrong quick=6 thorough=7 jobs=8
//@ entry=wrong_tail quick=4 thorough=5 jobs=8
//@ entry=cut quick=1 thorough=1
//@ entry=missing quick=1 thorough=1
//@ bounds: a root and a leaf with names of 1..2 and a value of 0..3 bytes (thorough 4); a node with both a value of 1..3 bytes (thorough 4) and children; all trees of up to 5 nodes (thorough 6) with and without values; attributes with values of up to 2 bytes (thorough 3); every text of up to 6 characters (thorough 7) over < > / = a " ' & ; blank and every text of up to 4 (5) characters over a larger set after an opening tag is read safely; every prefix of a document
//@ assume: names start with a letter and contain letters, digits, - or _; values have no NUL byte and are not all blanks; values of nodes that also have children have no blanks at the ends; there is one root
#include "tree.h"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static bool read( prop_node& q ) { try { q = load_xml( path( "f.xml" ) ); return true; } catch ( std::exception& ) { return false; } }
static void round_trip( const node& n )
{
	prop_node p = to_prop( n ), q, r; save_xml( p, path( "f.xml" ) ); vp_assert( same_tree( p, n ), "saving leaves the tree alone" ); bool ok = read( q ); vp_assert( ok, "the saved file loads without error" ); vp_assert( same_tree( q, n ), "the file reads back as an equal tree" ); error_code ec; r = load_xml( path( "f.xml" ), &ec ); vp_assert( ec.ok() && same_tree( r, n ), "no error is reported" ); vp_assert( same_tree( load_file( path( "f.xml" ) ), n ), "the extension selects the format" ); vp_reach( "end" );
}
static std::string name( size_t n, const char* nm ) { std::string s = vp_str_of( 1, "aZ_", nm ); for ( size_t k = vp_choice( (unsigned)n ); k > 0; --k ) s += vp_str_of( 1, "a9-_", nm ); return s; }
static int blank( char c ) { return vp_in_set( c, " \t\n\v\f\r", 6 ); }
static std::string value( size_t lo, size_t hi, bool trimmed ) { size_t n = lo + vp_choice( unsigned( hi - lo + 1 ) ); std::string s = vp_str_nz( n, "v" ); if ( n ) { int all = 1; for ( char c : s ) all &= blank( c ); vp_assume( !all ); if ( trimmed ) vp_assume( !vp_or( blank( s[ 0 ] ), blank( s[ n - 1 ] ) ) ); } return s; }
VP_ENTRY( leaf ) { node n; node& r = n.add( name( vp_param( 0 ), "r" ) ); if ( vp_choice( 2 ) ) r.v = value( 0, vp_param( 1 ), false ); else r.add( name( vp_param( 0 ), "k" ) ).v = value( 0, vp_param( 1 ), false ); round_trip( n ); }
VP_ENTRY( inner ) { node n; node& r = n.add( "root" ); r.v = value( 1, vp_param( 0 ), true ); node& c = r.add( "c" ); if ( vp_choice( 2 ) ) { c.v = "x"; r.add( "d" ).v = value( 1, 1, true ); } else c.add( "e" ).v = " y"; vp_reach( "value and children" ); round_trip( n ); }
static void grow( node& n, unsigned& left, char& k ) { while ( left > 0 && vp_choice( 2 ) ) { --left; node& c = n.add( std::string( 1, (char)( vp_choice( 2 ) ? 'a' : k++ ) ) ); if ( vp_choice( 2 ) ) c.v = vp_str_of( 1, "x<&;", "v" ); grow( c, left, k ); } }
VP_ENTRY( shapes ) { node n; node& r = n.add( "root" ); unsigned left = (unsigned)vp_param( 0 ) - 1; char k = 'b'; grow( r, left, k ); round_trip( n ); }
VP_ENTRY( hand_written )
{
	std::string v = vp_str_nz( vp_choice( (unsigned)vp_param( 0 ) + 1 ), "v" ); for ( char c : v ) vp_assume( !vp_in_set( c, "\"&", 2 ) ); prop_node q; static const char* HEAD[] = { "", "<?xml version=\"1.0\"?>\n", "<!-- c <x> -->\n", "\n<!DOCTYPE x>\n" }; std::string h = HEAD[ vp_choice( 4 ) ];
	vp_file_write( "f.xml", h + "<r a=\"" + v + "\" b = '2'>\n\t<c/>\n <!-- no --> <d x='&lt;&#65;&amp;'>t</d>\n</r>\n" ); bool ok = read( q ); vp_assert( ok, "attributes are read" ); node n; node& r = n.add( "r" ); r.add( "a" ).v = v; r.add( "b" ).v = "2"; r.add( "c" ); node& d = r.add( "d" ); d.v = "t"; d.add( "x" ).v = "<A&"; vp_assert( same_tree( q, n ), "attributes and elements become children in order" ); vp_reach( "end" );
}
static void attempt( const std::string& s )
{
	vp_file_write( "f.xml", s ); prop_node q; bool ok = read( q ); error_code ec; prop_node r; bool t = false; try { r = load_xml( path( "f.xml" ), &ec ); } catch ( std::exception& ) { t = true; } vp_assert( !t, "an error code replaces the exception" ); vp_assert( ec.ok() == ok, "both ways report the same" ); if ( ok ) vp_assert( r == q, "and read the same" ); else vp_assert( r.empty() && !r.has_value(), "nothing is read from a malformed text" ); vp_assert( q.size() <= 1, "one root" ); vp_reach( ok ? "well-formed" : "malformed" );
	if ( ok && !q.empty() ) { prop_node c; save_xml( q, path( "g.xml" ) ); vp_reach( "tree" ); }
}
VP_ENTRY( wrong ) { attempt( vp_str_of_upto( vp_param( 0 ), "<>/=a\"'&; ", "s" ) ); }
VP_ENTRY( wrong_tail ) { static const char* HEAD[] = { "<a>", "<a b", "<a b='", "<a>&", "<!", "<?", "<![CDATA[", "<!--", "<!DOCTYPE", "<a>&#", "<a>t</", "<a><b/>" }; attempt( HEAD[ vp_choice( 12 ) ] + vp_str_of_upto( vp_param( 0 ), "<>/=a\"'&;! -]?[#1x", "s" ) ); }
VP_ENTRY( cut ) { std::string s = "<?xml version='1.0'?><!-- c --><r a=\"1&lt;\"><![CDATA[x]]><b>t&#x41;</b><c d='e'/><?p i?></r>"; size_t n = vp_choice( (unsigned)s.size() + 1 ); prop_node q; vp_file_write( "f.xml", s.substr( 0, n ) ); bool ok = read( q ); if ( n == s.size() ) { vp_assert( ok && q.size() == 1 && q.begin()->first == "r", "complete" ); vp_reach( "complete" ); } else if ( n > 32 ) { vp_assert( !ok, "a cut document is an error" ); vp_reach( "cut" ); } }
VP_ENTRY( missing ) { error_code ec; prop_node q = load_xml( path( "none.xml" ), &ec ); vp_assert( !ec.ok() && q.empty(), "a missing file is an error" ); bool t = false; try { load_xml( path( "none.xml" ) ); } catch ( std::exception& ) { t = true; } vp_assert( t, "a missing file throws" ); vp_reach( "end" ); }
//@ entry=wide quick=100 thorough=100 jobs=2
//@ entry=deep quick=40 thorough=40 jobs=2
//@ entry=long_value quick=1100 thorough=1100 jobs=4
//@ entry=entities quick=2 thorough=3 jobs=4
//@ bounds: 100 children with names of up to 20 characters, 40 levels, one arbitrary character each; values of 1100 characters with 3 arbitrary ones; values made of 2 (3) pieces that look like entities or markup
static node& plain( node& n, const std::string& k, const std::string& v ) { node& c = n.add( k ); c.v = v; return c; }
VP_ENTRY( wide ) { node n; node& r = n.add( "root-node" ); int m = (int)vp_param( 0 ); for ( int i = 0; i < m; ++i ) { node& c = plain( r, std::string( 1 + i * 7 % 19, 'k' ) + "_" + std::to_string( i % 13 ), i == m / 2 ? value( 1, 1, false ) : i % 4 == 3 ? "" : "v" + std::to_string( i ) ); if ( i % 5 == 0 ) for ( int j = 0; j < i % 3 + 1; ++j ) plain( c, "sub", std::to_string( j ) ); } round_trip( n ); }
VP_ENTRY( deep ) { node n; node* p = &n.add( "root" ); int m = (int)vp_param( 0 ); for ( int i = 0; i < m; ++i ) { p = &p->add( "level" + std::to_string( i ) ); if ( i == m - 1 || i == m / 2 ) p->v = value( 1, 1, true ); } round_trip( n ); }
VP_ENTRY( long_value ) { size_t l = vp_param( 0 ); std::string s( l, 'w' ), t = vp_str_nz( 3, "v" ); s[ 0 ] = t[ 0 ]; s[ l / 2 ] = t[ 1 ]; s[ l - 1 ] = t[ 2 ]; node n; node& r = n.add( "root" ); plain( r, std::string( l, 'n' ), s ); plain( r, "b", "next" ); round_trip( n ); }
VP_ENTRY( entities ) { static const char* E[] = { "&lt;", "&amp;", "&#65;", "&", "<", "</root>", "<!--", "]]>", "&quot;", "'", "a", "&#x;", "\xc3\xa9" }; std::string s; for ( long k = vp_param( 0 ); k > 0; --k ) s += E[ vp_choice( 13 ) ]; node n; node& r = n.add( "root" ); if ( vp_choice( 2 ) ) plain( r, "a", s ); else r.v = s; round_trip( n ); }
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of saving and loading 3 (4) out of 4 trees under the same file name
VP_ENTRY( again )
{
	std::string x = value( 1, 1, true ); for ( long i = vp_param( 0 ); i > 0; --i ) { node n; unsigned k = vp_choice( 4 ); node& r = n.add( k == 3 ? "other" : "root" ); if ( k == 0 ) r.v = x; else if ( k == 1 ) { r.add( "a" ).v = x; node& c = r.add( "g" ); c.add( "b" ).v = "1"; c.add( "c" ).v = std::string( 60, 'q' ) + x; } else if ( k == 2 ) { r.add( "a" ).v = "1"; r.add( "a" ).v = "2"; } else r.add( "k" ).add( "a" ).v = "y"; round_trip( n ); } vp_reach( "again" );
}
