// C50: angles keep their meaning across units
//@ entry=conversion quick=1 thorough=1 real
//@ entry=arithmetic quick=1 thorough=1 real
//@ entry=comparison quick=1 thorough=1
//@ entry=trigonometry quick=1 thorough=1 real
//@ entry=widths quick=1 thorough=1
//@ entry=text quick=1 thorough=1
//@ bounds: all real angle values in [-1000,1000] degrees or radians and factors in [-10,10]; all floats and doubles except NaN for comparison and mixed widths; text with integer values in -99..99
//@ assume: exact real arithmetic except where stated, with the library's value of pi; angles of one unit are compared as numbers
#include "oracle.h"
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/angle.hpp"
using namespace flut; using namespace flut::math;
typedef degree_< double > D; typedef radian_< double > R;
static int about( double a, double b, double tol ) { double e = a - b; return vp_and( e <= tol, e >= 0 - tol ); }
VP_ENTRY( conversion )
{
	double d = vp_real( -1000, 1000, "d" ), pi = constants< double >::pi(); D g = deg( d ); R r = rad( d );
	vp_assert( vp_near( g.deg_value(), d ) && vp_near( g.value, d ) && vp_near( r.rad_value(), d ) && vp_near( r.value, d ), "a value stays the same in its own unit" );
	vp_assert( about( g.rad_value(), d * pi / 180, 1e-9 ), "180 degrees are pi radians" ); vp_assert( about( r.deg_value(), d * 180 / pi, 1e-6 ), "pi radians are 180 degrees" );
	R a( g ); D b( r ); vp_assert( about( a.value, d * pi / 180, 1e-9 ) && about( b.value, d * 180 / pi, 1e-6 ), "constructing an angle in the other unit converts it" );
	R c; D e; c = g; e = r; vp_assert( about( c.value, d * pi / 180, 1e-9 ) && about( e.value, d * 180 / pi, 1e-6 ), "assigning an angle to the other unit converts it" );
	D h; h = g; R k; k = r; vp_assert( vp_near( h.value, d ) && vp_near( k.value, d ), "assigning an angle to its own unit keeps it" );
	vp_assert( about( g.radian().value, d * pi / 180, 1e-9 ) && about( r.degree().value, d * 180 / pi, 1e-6 ) && vp_near( g.degree().value, d ) && vp_near( r.radian().value, d ), "copies in a unit" );
	vp_assert( about( g.radian().deg_value(), d, 1e-6 ) && about( r.degree().rad_value(), d, 1e-6 ) && about( D( R( g ) ).value, d, 1e-6 ) && about( R( D( r ) ).value, d, 1e-6 ), "converting back gives the angle" );
	vp_assert( about( deg_to_rad( d ), d * pi / 180, 1e-9 ) && about( rad_to_deg( d ), d * 180 / pi, 1e-6 ) && about( rad_to_deg( deg_to_rad( d ) ), d, 1e-6 ), "plain values convert the same way" );
	vp_assert( D().value == 0 && R().value == 0, "no angle" ); vp_reach( "end" );
}
VP_ENTRY( arithmetic )
{
	double d = vp_real( -1000, 1000, "d" ), e = vp_real( -1000, 1000, "e" ), k = vp_real( -10, 10, "k" ), pi = constants< double >::pi(); D g = deg( d ), h = deg( e ); D s = deg( d ); D& t = ( s += h );
	vp_assert( vp_near( s.value, d + e ) && vp_near( ( g + h ).value, d + e ) && &t == &s, "sum" ); s = g; D& u = ( s -= h ); vp_assert( vp_near( s.value, d - e ) && vp_near( ( g - h ).value, d - e ) && &u == &s, "difference" ); vp_assert( vp_near( ( -g ).value, 0 - d ), "negation" );
	s = g; D& w = ( s *= k ); vp_assert( vp_near( s.value, d * k ) && vp_near( ( g * k ).value, d * k ) && vp_near( ( k * g ).value, d * k ) && &w == &s, "scaling" );
	vp_assume( k != 0 ); s = g; D& x = ( s /= k ); vp_assert( vp_near( s.value * k, d ) && vp_near( ( g / k ).value * k, d ) && &x == &s, "division" ); if ( d != 0 ) vp_assert( vp_near( ( k / g ).value * d, k ), "division by an angle" );
	R r = rad( e ); s = g; s += r; vp_assert( about( s.value, d + e * 180 / pi, 1e-6 ), "adding an angle in the other unit converts it" ); s = g; s -= r; vp_assert( about( s.value, d - e * 180 / pi, 1e-6 ), "subtracting an angle in the other unit converts it" ); vp_reach( "end" );
}
VP_ENTRY( comparison )
{
	double d = vp_sym_double( "d" ), e = vp_sym_double( "e" ); vp_assume( vp_and( d == d, e == e ) ); D g = deg( d ), h = deg( e ); vp_assert( ( g < h ) == ( d < e ), "less" ); vp_assert( ( g > h ) == ( d > e ), "greater" ); vp_assert( ( g <= h ) == ( d <= e ), "at most" ); vp_assert( ( g >= h ) == ( d >= e ), "at least" ); vp_assert( ( g == h ) == ( d == e ), "equal" ); vp_assert( ( g != h ) == ( d != e ), "different" );
	R r = rad( d ), q = rad( e ); vp_assert( ( r < q ) == ( d < e ) && ( r > q ) == ( d > e ) && ( r == q ) == ( d == e ), "radians" ); vp_reach( "end" );
}
VP_ENTRY( trigonometry )
{
	double d = vp_real( -1000, 1000, "d" ); D g = deg( d ); R r = rad( d ); double s = std::sin( g.rad_value() ), c = std::cos( g.rad_value() ); vp_assert( vp_near( math::sin( g ), s ) && vp_near( math::cos( g ), c ), "degrees" ); vp_assert( vp_near( math::sin( r ), std::sin( d ) ) && vp_near( math::cos( r ), std::cos( d ) ), "radians" ); vp_assert( vp_near( math::sin( g.radian() ), s ) && vp_near( math::cos( g.radian() ), c ), "the unit does not matter" ); vp_reach( "end" );
}
VP_ENTRY( widths )
{
	float f = (float)vp_sym_double( "f" ); double d = vp_sym_double( "d" ); vp_assume( vp_and( f == f, d == d ) ); degreef a( f ); D b( a ); vp_assert( b.value == (double)f, "a float angle as double" ); vp_assert( (float)a == f && (double)a == (double)f, "the plain value" ); D g = deg( d ); vp_assert( (double)g == d, "the plain value" ); R r = rad( d ); vp_assert( (double)r == d && ( d != 0 || (float)r == 0 ), "the plain value" );
	vp_assert( ( 90_degf ).value == 90.f && ( 2.5_degf ).value == 2.5f && ( 3_radf ).value == 3.f && ( 0.25_radf ).value == 0.25f, "literals" ); double t = ( 180_degf ).rad_value() - constants< float >::pi(); vp_assert( t < 1e-6 && t > -1e-6, "half a turn" ); vp_reach( "end" );
}
VP_ENTRY( text )
{
	int v = (int)vp_range( -99, 99, "v" ); typedef angle_< angle_unit::degrees, int > I; I a( v ); std::string s = to_str( a.value ); std::ostringstream o; o << a; vp_assert( o.str() == s, "printing gives the value" ); char_stream c( s.c_str() ); I b( 7 ); c >> b; vp_assert( b.value == v, "reading gives the value" ); std::istringstream i( s ); I d( 7 ); i >> d; vp_assert( d.value == v, "reading gives the value" ); vp_reach( "end" );
}
