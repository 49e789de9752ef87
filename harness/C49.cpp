// C49: formatted and printed text is complete
//@ entry=formatted quick=4 thorough=6
//@ entry=formatted_long quick=1 thorough=1
//@ entry=formatted_pieces quick=130 thorough=600
//@ entry=vectors quick=3 thorough=5
//@ entry=trees quick=4 thorough=5 jobs=8
//@ entry=trees_long quick=40 thorough=40
//@ entry=precision quick=3 thorough=5
//@ bounds: formatting any text of up to 4 (thorough 6) bytes and numbers in -2..11 with width, sign and padding; results of 250..260, 510..514, 1020..1028, 3000 and 9000 characters; two texts of 0..130 (600) characters; vectors of up to 3 (5) texts of up to 2 bytes; property trees of up to 4 (5) nodes of every shape with arbitrary 1-byte keys and values, trees of 40 levels or children
//@ assume: printf-style conversion of single numbers is modelled in rt/models.cpp; sampled paths are replayed on libc
#include "tree.h"
#include <sstream>
#include "flut/string_tools.hpp"
#include "flut/container_tools.hpp"
using namespace flut;
VP_ENTRY( formatted )
{
	std::string s = vp_str_nz( vp_choice( (unsigned)vp_param( 0 ) + 1 ), "s" ); int n = (int)vp_conc( (uint32_t)vp_range( -2, 11, "n" ) ); std::string d = std::to_string( n ); vp_assert( vp_same( stringf( "%s", s.c_str() ), s ), "a text" ); vp_assert( vp_same( stringf( "<%s|%d>%%", s.c_str(), n ), "<" + s + "|" + d + ">%" ), "text and number" ); std::string p( d.size() < 6 ? 6 - d.size() : 0, ' ' ); vp_assert( vp_same( stringf( "%6d/%-6d/", n, n ), p + d + "/" + d + p + "/" ), "width" ); if ( n >= 0 ) vp_assert( vp_same( stringf( "%04d", n ), std::string( 4 - d.size(), '0' ) + d ), "padding" ); std::string f = "plain"; vp_assert( stringf( "plain" ) == f && stringf( "" ).empty(), "no arguments" ); vp_reach( "end" );
}
VP_ENTRY( formatted_long )
{
	static const int L[] = { 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 510, 511, 512, 513, 514, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 3000, 9000 }; std::string a( L[ vp_choice( 27 ) ], 'q' ); for ( size_t i = 0; i < a.size(); i += 7 ) a[ i ] = (char)( 'a' + i % 26 ); a[ a.size() / 2 ] = vp_str_nz( 1, "m" )[ 0 ]; a[ a.size() - 1 ] = vp_str_nz( 1, "e" )[ 0 ]; vp_assert( vp_same( stringf( "%s", a.c_str() ), a ), "a long text is complete" ); vp_assert( vp_same( stringf( "%d%s", 5, a.c_str() ), "5" + a ), "and the arguments are used once" ); vp_assert( vp_same( stringf( a.size() < 1000 ? "%s%d" : "%s.%d", a.c_str(), 7 ), a + ( a.size() < 1000 ? "7" : ".7" ) ), "and what follows it" ); vp_reach( "end" );
}
VP_ENTRY( formatted_pieces ) { int m = (int)vp_param( 0 ); int i = (int)vp_conc( vp_range( 0, m, "i" ) ); std::string a( i, 'a' ), b( m - i / 2, 'b' ); vp_assert( stringf( "%s-%s-%d", a.c_str(), b.c_str(), i ) == a + "-" + b + "-" + std::to_string( i ), "pieces of any length" ); vp_reach( "end" ); }
VP_ENTRY( vectors ) { unsigned n = vp_choice( (unsigned)vp_param( 0 ) + 1 ); std::vector< std::string > v; std::string e; for ( unsigned i = 0; i < n; ++i ) { v.push_back( vp_str_upto( 2, "v" ) ); e += ( i ? "\t" : "" ) + v[ i ]; } std::ostringstream s; s << v; vp_assert( vp_same( s.str(), e + "\n" ), "a vector is printed as its elements in order" ); std::vector< int > w( n ); e.clear(); for ( unsigned i = 0; i < n; ++i ) { w[ i ] = (int)i * 7 - 5; e += ( i ? "\t" : "" ) + std::to_string( w[ i ] ); } std::ostringstream t; t << w; vp_assert( t.str() == e + "\n", "numbers" ); vp_reach( "end" ); }
static size_t width( const node& n, size_t depth ) { size_t w = 0; for ( auto& e : n.c ) { w = std::max( w, depth * 2 + e.first.size() ); w = std::max( w, width( e.second, depth + 1 ) ); } return w; }
static std::string lines( const node& n, size_t depth, size_t w ) { std::string s; for ( auto& e : n.c ) { std::string k = std::string( depth * 2, ' ' ) + e.first; s += k + std::string( k.size() < w ? w - k.size() : 0, ' ' ); if ( !e.second.v.empty() || e.second.c.empty() ) s += " = " + e.second.v; s += "\n" + lines( e.second, depth + 1, w ); } return s; }
static void printed( const node& n ) { prop_node p = to_prop( n ); std::ostringstream s; s << p; vp_assert( vp_same( s.str(), lines( n, 0, width( n, 0 ) ) ), "every key and value is printed once, in order, indented and aligned" ); vp_assert( same_tree( p, n ), "printing leaves the tree alone" ); vp_reach( "end" ); }
static void grow( node& n, unsigned& left ) { while ( left > 0 && vp_choice( 2 ) ) { --left; node& c = n.add( vp_choice( 2 ) ? "key" : vp_str( 1, "k" ) ); if ( vp_choice( 2 ) ) c.v = vp_str( 1, "v" ); grow( c, left ); } }
VP_ENTRY( trees ) { node n; unsigned left = (unsigned)vp_param( 0 ); grow( n, left ); printed( n ); }
VP_ENTRY( trees_long ) { int m = (int)vp_param( 0 ); node n; node* p = &n; bool deep = vp_choice( 2 ) != 0; for ( int i = 0; i < m; ++i ) { node& c = p->add( std::string( 1 + i * 7 % 19, 'k' ) ); if ( i % 3 ) c.v = vp_str( 1, "v" ) + std::string( i, 'v' ); if ( deep ) p = &c; else if ( i % 4 == 0 ) c.add( "sub" ).v = "x"; } printed( n ); }
VP_ENTRY( precision ) { int last = to_str_precision(); for ( long k = vp_param( 0 ); k > 0; --k ) { int p = vp_int( "p" ); int r = set_to_str_precision( p ); vp_assert( r == last, "setting the precision returns the previous one" ); vp_assert( to_str_precision() == p, "the precision that was set" ); last = p; } vp_reach( "end" ); }
//@ entry=again quick=3 thorough=4 jobs=4
//@ bounds: every sequence of printing and formatting 3 (4) out of 6 trees and texts (what is printed does not depend on earlier calls)
VP_ENTRY( again )
{
	std::string x = vp_str_nz( 1, "x" ); for ( long i = vp_param( 0 ); i > 0; --i ) { node n; switch ( vp_choice( 6 ) ) { case 0: n.add( "k" ).v = x; printed( n ); break; case 1: n.add( "a longer key" ).add( "b" ).v = x; printed( n ); break; case 2: n.add( "k" ).v = "1"; n.add( "kk" ).add( "c" ).add( "d" ); printed( n ); break; case 3: vp_assert( vp_same( stringf( "%s-%d", x.c_str(), 7 ), x + "-7" ), "formatting" ); break; case 4: { std::string l( 300, 'l' ); vp_assert( vp_same( stringf( "%s%s", l.c_str(), x.c_str() ), l + x ), "formatting a long text" ); break; } case 5: vp_assert( vp_same( stringf( "" ), "" ), "an empty format" ); break; } } vp_reach( "again" );
}
