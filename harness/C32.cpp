// C32: version numbers
//@ entry=print quick=50 thorough=299
//@ entry=round_trip quick=9,99,1 thorough=99,999,3
//@ entry=large quick=1 thorough=1
//@ entry=parse_missing quick=1 thorough=1
//@ bounds: printing: each number in turn up to 50 (thorough 299); round trip: major, minor, patch up to 9 and build up to 99 (thorough 99 and 999); any printable postfix up to 1 character (thorough 3) plus fixed longer ones; all non-negative int values for the major version
#include "oracle.h"
#include "flut/system/version.hpp"
using namespace flut;
VP_ENTRY( print )
{
	int m = (int)vp_param( 0 ), a = 1, b = 20, c = 3, d = 0; int x = vp_range( 0, m, "x" ); switch ( vp_choice( 4 ) ) { case 0: a = x; break; case 1: b = x; d = 45; break; case 2: c = x; break; case 3: d = x; break; } std::string p; if ( vp_choice( 2 ) ) p = "beta"; version v( a, b, c, d, p ); vp_assert( v.major == a && v.minor == b && v.patch == c && v.build == d && v.postfix == p, "construction" );
	std::string e = std::to_string( a ) + "." + std::to_string( b ) + "." + std::to_string( c ); if ( d > 0 ) { e += "." + std::to_string( d ); vp_reach( "build" ); } if ( !p.empty() ) e += " " + p; vp_assert( vp_same( v.to_str(), e ), "printing" ); version w( a, b, c ); vp_assert( w.build == 0 && w.postfix.empty(), "default build and postfix" ); std::stringstream str; str << v; vp_assert( vp_same( str.str(), e ), "streaming" );
}
static void trip( int a, int b, int c, int d, const std::string& p ) { version v( a, b, c, d, p ); version w( v.to_str() ); vp_assert( w.major == a && w.minor == b && w.patch == c, "parsing gives back the version number" ); vp_assert( w.build == d, "parsing gives back the build" ); vp_assert( vp_same( w.postfix, p ), "parsing gives back the postfix" ); vp_assert( vp_same( w.to_str(), v.to_str() ), "printing again gives the same text" ); }
VP_ENTRY( round_trip )
{
	int m = (int)vp_param( 0 ), n = (int)vp_param( 1 ), a = vp_range( 0, m, "a" ), b = vp_range( 0, m, "b" ), c = vp_range( 0, m, "c" ), d = vp_range( 0, n, "d" ); std::string p; switch ( vp_choice( 3 ) ) { case 0: break; case 1: { size_t l = 1 + vp_choice( (unsigned)vp_param( 2 ) ); p = vp_str( l, "p" ); for ( char ch : p ) vp_assume( vp_and( ch > ' ', ch < 127 ) ); break; } case 2: p = "release candidate 1"; break; } trip( a, b, c, d, p ); vp_reach( "end" );
}
VP_ENTRY( large ) { static const int L[] = { 2147483647, 1000000, 20170131 }; int x = L[ vp_choice( 3 ) ]; unsigned k = vp_choice( 4 ); trip( k == 0 ? x : 1, k == 1 ? x : 2, k == 2 ? x : 3, k == 3 ? x : 0, vp_choice( 2 ) ? "x" : "" ); vp_reach( "end" ); }
VP_ENTRY( parse_missing ) { version v( "1.2.3" ); vp_assert( v.major == 1 && v.minor == 2 && v.patch == 3 && v.build == 0 && v.postfix.empty(), "no build and no postfix" ); version w( "4.5.6.7" ); vp_assert( w.major == 4 && w.minor == 5 && w.patch == 6 && w.build == 7 && w.postfix.empty(), "build and no postfix" ); version x( "4.5.6 rc1" ); vp_assert( x.patch == 6 && x.build == 0 && x.postfix == "rc1", "postfix and no build" ); version y( "4.5.6-rc1" ); vp_assert( y.patch == 6 && y.build == 0 && y.postfix == "-rc1", "postfix directly after the patch number" ); vp_reach( "end" ); }
