// C22: parsing property text is safe on arbitrary input
//@ entry=any_text quick=6 thorough=7 jobs=8
//@ entry=alphabet quick=7 thorough=8 jobs=8
//@ entry=well_formed quick=3 thorough=4 jobs=8
//@ entry=values quick=3 thorough=4 jobs=8
//@ entry=comments quick=3,2 thorough=4,3 jobs=8
//@ entry=quoted_text quick=4 thorough=5 jobs=4
//@ entry=truncated quick=1 thorough=1 jobs=2
//@ entry=deep quick=40 thorough=40
//@ bounds: every text of 0..6 (thorough 7) arbitrary bytes and of 0..7 (8) characters over a = { } % " newline space backslash; every well-formed text of up to 3 (4) items with every combination of nesting, equal or different keys, separators, blanks and quoting of the harness; unquoted values of up to 3 (4) and quoted values of up to 4 (5) arbitrary characters; comments with arbitrary bytes before, between and after items; every truncation of a sample text
#include "tree.h"
#include "flut/prop_node_tools.hpp"
using namespace flut;
static void parse( const string& s, prop_node& p, bool& err ) { exact_buf b( s ); err = false; try { p = parse_prop( b.p ); } catch ( std::exception& ) { err = true; } }
static size_t count( const prop_node& p ) { size_t n = 0; for ( auto& e : p ) { vp_assert( !e.first.empty(), "every property has a name" ); n += 1 + count( e.second ); } return n; }
static void safe( const string& s ) { prop_node p; bool err; parse( s, p, err ); if ( !err ) { vp_assert( count( p ) <= s.size(), "no more properties than characters" ); vp_assert( !p.has_value(), "the root has no value" ); } else vp_reach( "error" ); vp_reach( "parsed" ); prop_node q; bool e2; parse( s, q, e2 ); vp_assert( err == e2 && ( err || p == q ), "parsing twice gives the same tree" ); }
VP_ENTRY( any_text ) { safe( vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ) ); }
VP_ENTRY( alphabet ) { safe( vp_str_of_upto( vp_param( 0 ), "a={}%\"\n \\" ) ); }
static void expect( const string& s, const node& n, const char* msg ) { prop_node p; bool err; parse( s, p, err ); vp_assert( !err, "well-formed text is accepted" ); vp_assert( same_tree( p, n ), msg ); }
static unsigned sepk, keyq, space, brace, same; // style of one text
static string sep() { unsigned k = sepk; return k == 0 ? "\n" : k == 1 ? ";" : "\r\n\t"; }
static void item( string& s, node& n, int& left, int depth )
{
	string k( 1, char( 'a' + ( same ? 0 : left ) ) ); --left; bool q = keyq; s += q ? "\"" + k + "\"" : k; node& c = n.add( k ); unsigned kind = vp_choice( depth > 0 ? 3 : 1 );
	if ( kind != 1 ) { string v = vp_str_of( 1, "x7-.", "v" ); s += space ? " = " : "="; bool vq = vp_choice( 2 ); s += vq ? "\"" + v + " \"" : v; c.v = vq ? v + " " : v; }
	if ( kind != 0 ) { if ( kind == 2 || brace ) s += sep(); s += "{"; if ( space ) s += sep(); while ( left > 0 && vp_choice( 2 ) ) { item( s, c, left, depth - 1 ); } s += "}"; }
	s += sep();
}
VP_ENTRY( well_formed ) { string s; node n; int left = vp_param( 0 ); sepk = vp_choice( 3 ); keyq = vp_choice( 2 ); space = vp_choice( 2 ); brace = vp_choice( 2 ); same = vp_choice( 2 ); if ( vp_choice( 2 ) ) s = "\n "; while ( left > 0 && vp_choice( 2 ) ) item( s, n, left, 2 ); expect( s, n, "the tree has exactly the keys, values and nesting of the text, in order" ); vp_reach( "end" ); }
VP_ENTRY( values )
{
	size_t m = 1 + vp_choice( vp_param( 0 ) ); string v = vp_str_nz( m, "v" ); for ( char c : v ) vp_assume( !vp_in_set( c, "={}%;'\"\\\n\r\t\v", 12 ) ); vp_assume( !vp_in_set( v[ 0 ], " \f", 2 ) ); vp_assume( !vp_in_set( v[ m - 1 ], " \f", 2 ) );
	node n; n.add( "key" ).v = v; n.add( "next" ).v = "1"; expect( "key = " + v + "\nnext=1\n", n, "an unquoted value reads as it stands" ); expect( "key=" + v + " ; next = 1", n, "an unquoted value reads as it stands" ); vp_reach( "end" );
}
VP_ENTRY( quoted_text )
{
	string v = vp_str_nz( vp_choice( vp_param( 0 ) + 1 ), "v" ); for ( char c : v ) vp_assume( c != '"' && c != '\\' ); node n; n.add( "key" ).v = v; n.add( "next" ).v = "1"; expect( "key = \"" + v + "\"\nnext=1\n", n, "a quoted value reads literally" );
	node m; node& g = m.add( "g" ); g.add( "key" ).v = v; m.add( "next" ).v = "1"; expect( "g { key = \"" + v + "\" } next=1\n", m, "a quoted value reads literally inside a group" ); vp_reach( "end" );
}
VP_ENTRY( comments )
{
	string s; node n; int k = 0; for ( int i = 0; i < vp_param( 0 ); ++i )
	{
		unsigned op = vp_choice( 4 ); string c; if ( op < 3 ) { c = "%" + vp_str_nz( vp_choice( vp_param( 1 ) + 1 ), "c" ); for ( char x : c ) vp_assume( x != '\n' && x != '\r' ); }
		string key( 1, char( 'a' + k ) );
		if ( op == 0 ) s += c + "\n"; else if ( op == 1 ) { s += key + "=1 " + c + "\n"; n.add( key ).v = "1"; ++k; } else if ( op == 2 ) { string q( 1, char( 'p' + k ) ); s += key + " {" + c + "\n" + q + " = 2\n}\n"; n.add( key ).add( q ).v = "2"; ++k; } else { s += key + " = \"%x\"\n"; n.add( key ).v = "%x"; ++k; }
	}
	expect( s, n, "comments are ignored up to the end of their line only" ); vp_reach( "end" );
}
VP_ENTRY( truncated ) { string s = "a = 1\nb { c = \"x\\ty\" d = 2\n e { f = 3 } }\n% note\ng = 'z'\n"; safe( s.substr( 0, vp_choice( unsigned( s.size() + 1 ) ) ) ); string t = s; t[ vp_choice( (unsigned)t.size() ) ] = vp_char( "x" ); for ( char c : t ) vp_assume( c != 0 ); safe( t ); }
VP_ENTRY( deep ) { string s; node n; node* c = &n; int d = vp_param( 0 ); for ( int i = 0; i < d; ++i ) { s += "k {"; c = &c->add( "k" ); } char x = vp_char( "x" ); vp_assume( x > 32 && !orc_in( x, "={}%;'\"\\" ) ); s += "v=" + string( 1, x ) + "\n"; c->add( "v" ).v = string( 1, x ); for ( int i = 0; i < d; ++i ) s += "}"; expect( s, n, "nesting depth" ); vp_reach( "end" ); }
//@ entry=many_items quick=130 thorough=130
//@ bounds: a well-formed text of 130 items with groups, comments and long values and one arbitrary value byte
VP_ENTRY( many_items )
{
	string s; node n; int m = vp_param( 0 ); unsigned at = vp_choice( 3 ); for ( int i = 0; i < m; ++i ) { string k = "name_" + string( i, 'n' ) + std::to_string( i ); string v = "v" + string( i * 3, 'w' ); if ( i == (int)at * ( m - 1 ) / 2 ) { char x = vp_char( "x" ); vp_assume( vp_and( x > 32, !vp_in_set( x, "={}%;'\"\\", 8 ) ) ); v += x; v += "z"; } if ( i % 4 == 3 ) { s += k + "\n{\n\t" + k + " = " + v + "% comment " + string( i, '-' ) + "\n\t\"quoted key\" = \"" + v + " = {} \"\n\tsub { }\n}\n"; node& c = n.add( k ); c.add( k ).v = v; c.add( "quoted key" ).v = v + " = {} "; c.add( "sub" ); } else { s += k + ( i % 2 ? "=" : "  =  " ) + v + ( i % 3 ? "\n" : ";\r\n" ); n.add( k ).v = v; } if ( i % 5 == 0 ) s += "% " + string( i * 4, '#' ) + " a = b { \"\n\n"; } expect( s, n, "the tree has exactly the keys, values and nesting of the text" ); vp_reach( "end" );
}
//@ entry=gaps quick=1 thorough=2 jobs=8
//@ bounds: a property with an optional value and a group, quoted or not, with each of seven kinds of white space or comment in any one (thorough any two) of the eight gaps between its tokens
VP_ENTRY( gaps )
{
	static const char* gap[] = { "", " ", "  ", "\n", "\t ", " \n ", " % {x=1}\n", "\r\n\r\n" }; string g[ 8 ]; unsigned base = vp_choice( 2 ); for ( auto& x : g ) x = gap[ base ]; for ( int i = 0; i < vp_param( 0 ); ++i ) g[ vp_choice( 8 ) ] = gap[ vp_choice( 8 ) ];
	static const char* quote[] = { "", "\"", "'" }; string q = quote[ vp_choice( 3 ) ], r = quote[ vp_choice( 3 ) ], v = vp_str_of( 1, "x7-.", "v" ); bool val = vp_choice( 2 );
	string s = g[ 0 ] + q + "ab" + q; node n; node& a = n.add( "ab" ); if ( val ) { s += g[ 1 ] + "=" + g[ 2 ] + r + v + "y" + r; a.v = v + "y"; } s += g[ 3 ] + "{" + g[ 4 ] + q + "c" + q + g[ 1 ] + "=" + g[ 2 ] + r + v + r + g[ 5 ] + "}" + g[ 6 ] + "d=" + v + ( g[ 7 ].empty() || g[ 7 ][ 0 ] == ' ' ? ";" : "" ) + g[ 7 ] + "e=2"; a.add( "c" ).v = v; n.add( "d" ).v = v; n.add( "e" ).v = "2";
	if ( g[ 7 ] == gap[ 4 ] ) return; expect( s, n, "white space and comments between tokens mean nothing" ); vp_reach( val ? "value and group" : "group" );
}
