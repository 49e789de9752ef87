// C24: vector, quaternion and transform algebra
//@ entry=vectors quick=1 thorough=1 real
//@ entry=products quick=1 thorough=1 real
//@ entry=lengths quick=1 thorough=1 real
//@ entry=vectors4 quick=1 thorough=1 real
//@ entry=quats quick=1 thorough=1 real
//@ entry=rotation quick=1 thorough=1 real
//@ entry=composition quick=1 thorough=1 real
//@ entry=transforms quick=1 thorough=1 real
//@ entry=transforms_compose quick=1 thorough=1 real
//@ entry=normalizing quick=1 thorough=1 real
//@ entry=axis_angle quick=1 thorough=1 real
//@ entry=euler quick=0;1;2;3;4;5 thorough=0;1;2;3;4;5 real
//@ entry=directions quick=0,0;1,0;2,0;0,1;1,1;2,1 thorough=0,0;1,0;2,0;0,1;1,1;2,1 real
//@ entry=directions_special quick=0,1;1,2;2,0;1,0;2,1;0,2 thorough=0,1;1,2;2,0;1,0;2,1;0,2 real
//@ entry=directions_mixed quick=1 thorough=1 real
//@ entry=directions_rounded quick=4 thorough=6
//@ entry=to_axis_angle quick=1 thorough=1 real
//@ entry=precision quick=1 thorough=1
//@ entry=rotation_vector quick=1 thorough=1 real
//@ entry=euler_single quick=0;1;2 thorough=0;1;2 real
//@ entry=euler_angles quick=0,0,1;0,0,2;0,0,3;0,1,2;0,2,3;0,1,3;1,0,1;1,0,2;1,0,3;1,1,2;1,2,3;1,1,3;2,0,1;2,0,2;2,0,3;2,1,2;2,2,3;2,1,3 thorough=0,0,1;0,0,2;0,0,3;0,1,2;0,2,3;0,1,3;1,0,1;1,0,2;1,0,3;1,1,2;1,2,3;1,1,3;2,0,1;2,0,2;2,0,3;2,1,2;2,2,3;2,1,3 real
//@ entry=euler_inverse quick=1 thorough=1 real
//@ entry=euler_mixed quick=1 thorough=1 real
//@ entry=axes quick=0,1;0,2;0,3;1,2;2,3;1,3;1,0;2,0;3,0;2,1;3,2;3,1 thorough=0,1;0,2;0,3;1,2;2,3;1,3;1,0;2,0;3,0;2,1;3,2;3,1 real
//@ entry=axes_mixed quick=1 thorough=1 real
//@ entry=properties quick=1 thorough=1 jobs=2
//@ entry=angles quick=1 thorough=1 real
//@ entry=matrices quick=1 thorough=1
//@ bounds: all real component values (unit length where a rotation is required); all angles (sine and cosine any point of the unit circle), all six Euler orders
//@ assume: exact real arithmetic, floating-point rounding is outside; sine and cosine of one angle are any pair with s*s+c*c=1
#include "oracle.h"
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
using namespace flut; using namespace flut::math;
typedef vec3_< double > V; typedef quat_< double > Q; typedef transform_< double > X;
static double sc( const char* n ) { return vp_real( -1000, 1000, n ); }
static V vec( const char* n ) { double a = sc( n ), b = sc( n ), c = sc( n ); return V( a, b, c ); }
static Q qua( const char* n ) { double w = vp_real( -10, 10, n ), a = vp_real( -10, 10, n ), b = vp_real( -10, 10, n ), c = vp_real( -10, 10, n ); return Q( w, a, b, c ); }
static double n2( const Q& q ) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
// unit quaternion: in replay the recorded components are normalised
static Q unit( const char* n ) { Q q = qua( n ); if ( vp_symbolic() ) vp_assume( n2( q ) == 1 ); else { double l = std::sqrt( n2( q ) ); vp_assume( l > 1e-6 ); q = Q( q.w / l, q.x / l, q.y / l, q.z / l ); } return q; }
static V unit3( const char* n ) { double a = vp_real( -1, 1, n ), b = vp_real( -1, 1, n ), c = vp_real( -1, 1, n ), l = a * a + b * b + c * c; if ( vp_symbolic() ) vp_assume( l == 1 ); else { l = std::sqrt( l ); vp_assume( l > 1e-6 ); a /= l; b /= l; c /= l; } return V( a, b, c ); }
static bool eq( const V& a, double x, double y, double z ) { return vp_and( vp_and( vp_near( a.x, x ), vp_near( a.y, y ) ), vp_near( a.z, z ) ); }
static bool eq( const V& a, const V& b ) { return eq( a, b.x, b.y, b.z ); }
static bool eq( const Q& a, double w, double x, double y, double z ) { return vp_and( vp_and( vp_near( a.w, w ), vp_near( a.x, x ) ), vp_and( vp_near( a.y, y ), vp_near( a.z, z ) ) ); }
static bool eq( const Q& a, const Q& b ) { return eq( a, b.w, b.x, b.y, b.z ); }
static bool eq( const vec4_<double>& a, double x, double y, double z, double w ) { return vp_and( vp_and( vp_near( a.x, x ), vp_near( a.y, y ) ), vp_and( vp_near( a.z, z ), vp_near( a.w, w ) ) ); }
static bool eq( const X& a, const X& b ) { return vp_and( eq( a.p, b.p ), eq( a.q, b.q ) ); }
VP_ENTRY( vectors )
{
	V a = vec( "a" ), b = vec( "b" ); double s = sc( "s" );
	vp_assert( eq( a + b, a.x + b.x, a.y + b.y, a.z + b.z ), "sum" ); vp_assert( eq( a - b, a.x - b.x, a.y - b.y, a.z - b.z ), "difference" ); vp_assert( eq( -a, 0 - a.x, 0 - a.y, 0 - a.z ), "negation" );
	vp_assert( eq( a * s, a.x * s, a.y * s, a.z * s ) && eq( s * a, a.x * s, a.y * s, a.z * s ), "scaling" ); vp_assert( eq( a * b, a.x * b.x, a.y * b.y, a.z * b.z ), "masking" );
	V c = a; V& r1 = ( c += b ); vp_assert( &r1 == &c && eq( c, a + b ), "in-place sum" ); V& r2 = ( c -= b ); vp_assert( &r2 == &c && eq( c, a ), "in-place difference" ); c *= s; vp_assert( eq( c, a * s ), "in-place scaling" ); c = a; c *= b; vp_assert( eq( c, a * b ), "in-place masking" );
	if ( s > 0.01 || s < -0.01 ) { vp_assert( eq( a / s, a.x / s, a.y / s, a.z / s ), "division" ); c = a; V& r3 = ( c /= s ); vp_assert( &r3 == &c && eq( c, a.x / s, a.y / s, a.z / s ), "in-place division" ); vp_reach( "divide" ); }
	vp_assert( ( a == b ) == ( a.x == b.x && a.y == b.y && a.z == b.z ) && ( a != b ) == !( a == b ), "equality" ); V d; vp_assert( d.x == 0 && d.y == 0 && d.z == 0 && d.is_null() && d == V::zero(), "default" ); V u( s ); vp_assert( u == V( s, s, s ) && u == V::uniform( s ), "uniform" );
	vp_assert( a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 ), "null test" ); vp_assert( a[ 0 ] == a.x && a[ 1 ] == a.y && a[ 2 ] == a.z && a.end() - a.begin() == 3 && *a.begin() == a.x, "element access" ); d.set( a.x, a.y, a.z ); vp_assert( d == a, "set" ); d.clear(); vp_assert( d.is_null(), "clear" );
	vp_assert( V::unit_x() == V( 1, 0, 0 ) && V::unit_y() == V( 0, 1, 0 ) && V::unit_z() == V( 0, 0, 1 ) && V::neg_unit_x() == V( -1, 0, 0 ) && V::neg_unit_y() == V( 0, -1, 0 ) && V::neg_unit_z() == V( 0, 0, -1 ) && V::unit( 0 ) == V::unit_x() && V::unit( 1 ) == V::unit_y() && V::unit( 2 ) == V::unit_z(), "axes" ); vp_reach( "end" );
}
VP_ENTRY( products )
{
	V a = vec( "a" ), b = vec( "b" ), c = vec( "c" ); double s = sc( "s" ); V k = cross_product( a, b ); vp_assert( vp_near( dot_product( a, b ), a.x * b.x + a.y * b.y + a.z * b.z ), "dot product" ); vp_assert( vp_near( dot_product( a, b ), dot_product( b, a ) ) && vp_near( dot_product( a * s + c, b ), s * dot_product( a, b ) + dot_product( c, b ), 1e-5 ), "dot product is symmetric and linear" );
	vp_assert( eq( k, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x ), "cross product" ); vp_assert( eq( cross_product( b, a ), -k ), "cross product is anti-symmetric" ); if ( vp_symbolic() ) { vp_assert( dot_product( k, a ) == 0 && dot_product( k, b ) == 0, "cross product is orthogonal" ); vp_assert( dot_product( k, k ) == dot_product( a, a ) * dot_product( b, b ) - dot_product( a, b ) * dot_product( a, b ), "Lagrange identity" ); vp_assert( eq( cross_product( a, cross_product( b, c ) ), b * dot_product( a, c ) - c * dot_product( a, b ) ), "triple product" ); }
	vp_assert( cross_product( V::unit_x(), V::unit_y() ) == V::unit_z() && cross_product( V::unit_y(), V::unit_z() ) == V::unit_x(), "right-handed" ); vp_reach( "end" );
}
VP_ENTRY( lengths )
{
	V a = vec( "a" ), b = vec( "b" ); double q = a.x * a.x + a.y * a.y + a.z * a.z; vp_assert( vp_near( squared_length( a ), q ) && vp_near( a.squared_length(), q ), "squared length" ); double l = length( a ); vp_assert( l >= 0 && vp_near( l * l, q ), "length" ); double m = a.length(); vp_assert( m >= 0 && vp_near( m * m, q ), "member length" );
	double d = distance( a, b ); V e = a - b; vp_assert( d >= 0 && vp_near( d * d, e.x * e.x + e.y * e.y + e.z * e.z ), "distance" );
	if ( l > 1e-6 ) { V n = normalized( a ), w = a; vp_assert( vp_near( n.x * n.x + n.y * n.y + n.z * n.z, 1 ), "normalized length" ); vp_assert( eq( n * l, a ), "normalizing keeps the direction" ); normalize( w ); vp_assert( eq( w, n ), "in-place normalizing" ); vp_assert( eq( a.normalized(), n ), "member normalizing" ); vp_reach( "normal" ); }
	V z = normalized( V::zero() ); vp_assert( z.is_null(), "the null vector stays null" );
}
VP_ENTRY( vectors4 )
{
	vec4_<double> a( sc( "a" ), sc( "b" ), sc( "c" ), sc( "d" ) ), b( sc( "e" ), sc( "f" ), sc( "g" ), sc( "h" ) ); double s = sc( "s" );
	vp_assert( eq( a + b, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ), "sum" ); vp_assert( eq( a - b, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ), "difference" ); vp_assert( eq( -a, 0 - a.x, 0 - a.y, 0 - a.z, 0 - a.w ), "negation" ); vp_assert( eq( a * s, a.x * s, a.y * s, a.z * s, a.w * s ) && eq( s * a, a.x * s, a.y * s, a.z * s, a.w * s ), "scaling" );
	auto c = a; c += b; vp_assert( eq( c, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ), "in-place sum" ); c -= b; vp_assert( eq( c, a.x, a.y, a.z, a.w ), "in-place difference" ); c *= s; vp_assert( eq( c, a.x * s, a.y * s, a.z * s, a.w * s ), "in-place scaling" );
	if ( s > 0.01 || s < -0.01 ) { vp_assert( eq( a / s, a.x / s, a.y / s, a.z / s, a.w / s ), "division" ); c = a; c /= s; vp_assert( eq( c, a.x / s, a.y / s, a.z / s, a.w / s ), "in-place division" ); vp_reach( "divide" ); }
	double q = a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w, l = a.length(); vp_assert( vp_near( a.squared_length(), q ) && l >= 0 && vp_near( l * l, q ), "length" ); vp_assert( a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 && a.w == 0 ), "null test" ); vp_assert( a[ 0 ] == a.x && a[ 1 ] == a.y && a[ 2 ] == a.z && a[ 3 ] == a.w, "element access" );
	vp_assert( eq( vec4_<double>::unit_x(), 1, 0, 0, 0 ) && eq( vec4_<double>::unit_y(), 0, 1, 0, 0 ) && eq( vec4_<double>::unit_z(), 0, 0, 1, 0 ) && eq( vec4_<double>::unit_w(), 0, 0, 0, 1 ) && vec4_<double>::zero().is_null(), "axes" );
}
VP_ENTRY( quats )
{
	Q a = qua( "a" ), b = qua( "b" ), c = qua( "c" ); Q p = a * b; vp_assert( eq( p * c, a * ( b * c ) ), "multiplication is associative" ); vp_assert( vp_near( n2( p ), n2( a ) * n2( b ) ), "norms multiply" ); Q i = Q::identity(), d; vp_assert( eq( i, 1, 0, 0, 0 ) && eq( d, 1, 0, 0, 0 ), "identity" ); vp_assert( eq( a * i, a ) && eq( i * a, a ), "identity is neutral" );
	vp_assert( eq( -a, a.w, 0 - a.x, 0 - a.y, 0 - a.z ), "conjugate" ); vp_assert( eq( a * -a, n2( a ), 0, 0, 0 ) && eq( -a * a, n2( a ), 0, 0, 0 ), "a quaternion times its conjugate is its norm" ); vp_assert( eq( -p, -b * -a ), "the conjugate of a product" ); vp_assert( eq( Q( 0, 1, 0, 0 ) * Q( 0, 0, 1, 0 ), 0, 0, 0, 1 ) && eq( Q( 0, 0, 1, 0 ) * Q( 0, 0, 0, 1 ), 0, 1, 0, 0 ) && eq( Q( 0, 0, 0, 1 ) * Q( 0, 1, 0, 0 ), 0, 0, 1, 0 ), "ij=k" );
	Q e; e.set( a.w, a.x, a.y, a.z ); vp_assert( eq( e, a ), "set" ); double l = length( a ); vp_assert( l >= 0 && vp_near( l * l, n2( a ) ), "length" ); vp_reach( "end" );
}
VP_ENTRY( rotation )
{
	Q q = unit( "q" ); V v = vec( "v" ), u = vec( "u" ), r = q * v, s = q * u; vp_assert( vp_near( dot_product( r, s ), dot_product( v, u ) ), "rotation preserves dot products" ); vp_assert( vp_near( dot_product( r, r ), dot_product( v, v ) ), "rotation preserves lengths" ); vp_assert( eq( -q * r, v ), "the conjugate undoes the rotation" ); vp_assert( eq( cross_product( r, s ), q * cross_product( v, u ) ), "rotation preserves orientation" );
	Q p = q * Q( 0, v.x, v.y, v.z ) * -q; vp_assert( eq( r, p.x, p.y, p.z ), "rotation is conjugation" ); V ax( q.x, q.y, q.z ); vp_assert( eq( q * ax, ax ), "the axis stays in place" ); vp_assert( eq( Q::identity() * v, v ), "the identity leaves vectors alone" ); if ( vp_symbolic() ) vp_assert( is_normalized( q ), "unit test" ); vp_reach( "end" );
}
VP_ENTRY( composition ) { Q a = unit( "a" ), b = unit( "b" ); V v = vec( "v" ); vp_assert( eq( ( a * b ) * v, a * ( b * v ) ), "multiplication composes rotations" ); Q f = quat_from_quats( a, b ); vp_assert( eq( a * f, b ), "the rotation between two quaternions" ); vp_reach( "end" ); }
VP_ENTRY( transforms )
{
	X t( vec( "p" ), unit( "q" ) ); V v = vec( "v" ); V m = t.transform( v ); vp_assert( eq( m, t.p + t.q * v ) && eq( t * v, m ), "transforming a point" ); vp_assert( eq( t.inv_transform( m ), v ), "the inverse transform undoes the transform" ); X i = t.inverse(); vp_assert( eq( i.transform( m ), v ), "the inverse undoes the transform" ); vp_assert( eq( -t, i ), "negation is the inverse" );
	X id = X::identity(); vp_assert( eq( t * i, id ) && eq( i * t, id ), "a transform times its inverse" ); vp_assert( eq( t * id, t ) && eq( id * t, t ), "the identity is neutral" ); Q o = unit( "o" ); vp_assert( eq( t.transform( o ), t.q * o ) && eq( t * o, t.q * o ) && eq( t.inv_transform( t * o ), o ), "transforming an orientation" );
	X tp( t.p ), tq( t.q ); vp_assert( eq( tp.p, t.p ) && eq( tp.q, Q::identity() ) && eq( tq.p, V::zero() ) && eq( tq.q, t.q ), "constructors" ); vp_reach( "end" );
}
VP_ENTRY( transforms_compose ) { X a( vec( "p" ), unit( "a" ) ), b( vec( "r" ), unit( "b" ) ); V v = vec( "v" ); X c = a * b; vp_assert( eq( c.transform( v ), a.transform( b.transform( v ) ) ), "transforms compose" ); vp_assert( eq( a.transform( b ), c ), "composition by name" ); vp_assert( eq( a.inv_transform( c ), b ), "inverse composition" ); vp_reach( "end" ); }
VP_ENTRY( normalizing )
{
	Q q = qua( "q" ); vp_assume( n2( q ) > 1e-10 ); Q n = normalized( q ), w = q; Q& r = normalize( w ); double l = length( q ); vp_assert( &r == &w && eq( w, n ), "in place and by value agree" ); vp_assert( vp_near( n2( n ), 1 ), "normalized length" ); vp_assert( eq( Q( n.w * l, n.x * l, n.y * l, n.z * l ), q ), "normalizing keeps the direction" ); vp_reach( "end" ); 
}
VP_ENTRY( axis_angle )
{
	V a = unit3( "a" ), v = vec( "v" ); double t = vp_real( -10, 10, "t" ); Q q = quat_from_axis_angle( a, rad( t ) ); vp_assert( vp_near( n2( q ), 1 ), "unit quaternion" ); vp_assert( eq( q * a, a ), "the axis stays in place" );
	double c = std::cos( 0.5 * t ), s = std::sin( 0.5 * t ); vp_assert( eq( q, c, s * a.x, s * a.y, s * a.z ), "half-angle formula" ); double C = c * c - s * s, S = 2 * s * c; vp_assert( eq( q * v, v * C + cross_product( a, v ) * S + a * ( dot_product( a, v ) * ( 1 - C ) ) ), "Rodrigues' rotation" ); vp_reach( "end" );
}
VP_ENTRY( euler )
{
	static const euler_order O[] = { euler_order::xyz, euler_order::xzy, euler_order::yxz, euler_order::yzx, euler_order::zxy, euler_order::zyx }; static const int P[][ 3 ] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	long k = vp_param( 0 ); double t[ 3 ]; for ( double& x : t ) x = vp_real( -10, 10, "t" ); Q r[ 3 ]; for ( int i = 0; i < 3; ++i ) r[ i ] = quat_from_axis_angle( V::unit( i ), rad( t[ i ] ) );
	Q q = quat_from_euler( rad( t[ 0 ] ), rad( t[ 1 ] ), rad( t[ 2 ] ), O[ k ] ); Q e = r[ P[ k ][ 0 ] ] * r[ P[ k ][ 1 ] ] * r[ P[ k ][ 2 ] ]; vp_assert( eq( q, e ), "Euler angles are rotations about the axes in the given order" ); vp_assert( vp_near( n2( q ), 1 ), "unit quaternion" ); vp_assert( eq( quat_from_euler( vec3_< radian_< double > >( rad( t[ 0 ] ), rad( t[ 1 ] ), rad( t[ 2 ] ) ), O[ k ] ), e ), "the vector form uses the order" ); if ( k == 0 ) vp_assert( eq( quat_from_euler( rad( t[ 0 ] ), rad( t[ 1 ] ), rad( t[ 2 ] ) ), e ), "the default order is xyz" ); vp_reach( "end" );
}
VP_ENTRY( directions )
{
	long k = vp_param( 0 ); V a = V::unit( k ), b = unit3( "b" ); double d = a.x * b.x + a.y * b.y + a.z * b.z; vp_assume( vp_and( d > -0.999999, d < 0.999999 ) ); if ( vp_param( 1 ) ) { V c = a; a = b; b = c; } Q q = quat_from_directions( a, b ); V r = q * a; int e = vp_and( vp_and( vp_near( r.x, b.x, 1e-5 ), vp_near( r.y, b.y, 1e-5 ) ), vp_near( r.z, b.z, 1e-5 ) ); vp_assert( e, "the rotation takes the first direction to the second" ); vp_assert( vp_near( n2( q ), 1, 1e-5 ), "unit quaternion" ); vp_reach( "end" );
}
// any direction in a coordinate plane to itself and to its opposite
static void circle( double& c, double& s ) { c = vp_real( -1, 1, "c" ); s = vp_real( -1, 1, "s" ); if ( vp_symbolic() ) vp_assume( c * c + s * s == 1 ); else { double l = std::sqrt( c * c + s * s ); vp_assume( l > 1e-6 ); c /= l; s /= l; } }
static void special( const V& a )
{
	bool o = vp_choice( 2 ) != 0; Q q = quat_from_directions( a, o ? -a : a ); V r = q * a, b = o ? -a : a; int e = vp_and( vp_and( vp_near( r.x, b.x, 1e-4 ), vp_near( r.y, b.y, 1e-4 ) ), vp_near( r.z, b.z, 1e-4 ) ); vp_assert( e, o ? "the rotation takes a direction to its opposite" : "the rotation takes a direction to itself" ); vp_assert( vp_near( n2( q ), 1, 1e-5 ), "unit quaternion" ); vp_reach( o ? "opposite" : "same" );
}
VP_ENTRY( directions_special ) { double c, s, m[ 3 ] = { 0, 0, 0 }; circle( c, s ); vp_assume( vp_and( c >= s, c + s >= 0 ) ); if ( vp_choice( 2 ) ) c = 0 - c; m[ vp_param( 0 ) ] = c; m[ vp_param( 1 ) ] = s; special( V( m[ 0 ], m[ 1 ], m[ 2 ] ) ); }
// directions with components +-2/3, 2/3, 1/3 in every order
VP_ENTRY( directions_mixed ) { double t = vp_real( 0, 1, "third" ); if ( vp_symbolic() ) vp_assume( t * 3 == 1 ); else t = 1.0 / 3; unsigned i = vp_choice( 3 ); double m[ 3 ]; for ( unsigned k = 0; k < 3; ++k ) { m[ k ] = ( k == i ? 1 : 2 ) * t; if ( vp_choice( 2 ) ) m[ k ] = 0 - m[ k ]; } special( V( m[ 0 ], m[ 1 ], m[ 2 ] ) ); }
// directions that are equal or opposite up to rounding (bit-precise, on small integer vectors)
VP_ENTRY( directions_rounded )
{
	static const double F[] = { 1, 3, 7, 0.1, -1, -3, -7, -0.1 }; int n = (int)vp_param( 0 ), m = 2 * n + 1; double x = (int)vp_choice( m ) - n, y = (int)vp_choice( m ) - n, z = (int)vp_choice( m ) - n, f = F[ vp_choice( 8 ) ]; if ( x == 0 && y == 0 && z == 0 ) return; V a( x, y, z ), b = a * f; Q q = quat_from_directions( a, b ); V r = normalized( q * a ) - normalized( b ); double e = r.x * r.x + r.y * r.y + r.z * r.z; vp_assert( e < 1e-12, "directions on one line up to rounding" ); vp_reach( f < 0 ? "opposite" : "same" );
}
VP_ENTRY( to_axis_angle )
{
	Q q = unit( "q" ); double l2 = q.x * q.x + q.y * q.y + q.z * q.z; vp_assume( l2 > 1e-4 ); auto aa = axis_angle_from_quat( q ); V a = aa.first; double h = 0.5 * aa.second.rad_value(); vp_assert( vp_near( dot_product( a, a ), 1 ), "the axis has unit length" );
	double c = std::cos( h ), s = std::sin( h ); vp_assert( vp_near( c, q.w, 1e-9 ), "the angle gives back the real part" ); int e = vp_and( vp_and( vp_near( s * a.x, q.x, 1e-9 ), vp_near( s * a.y, q.y, 1e-9 ) ), vp_near( s * a.z, q.z, 1e-9 ) ); vp_assert( e, "axis and angle give back the rotation" ); vp_reach( "end" );
	auto id = axis_angle_from_quat( Q::identity() ); vp_assert( id.second.rad_value() == 0 && vp_near( dot_product( id.first, id.first ), 1 ), "no rotation" );
}
// double precision is kept (bit-precise, on fixed rotations)
VP_ENTRY( precision )
{
	static const double C[ 4 ] = { 0.6, 0.48, 0.64, 0.0 }; unsigned i = vp_choice( 3 ); double x = C[ i ], y = C[ ( i + 1 ) % 3 ], z = C[ ( i + 2 ) % 3 ]; if ( vp_choice( 2 ) ) y = -y; if ( vp_choice( 2 ) ) z = -z; auto aa = axis_angle_from_quat( Q( 0, x, y, z ) ); auto ok = []( double d ) { return d < 1e-12 && d > -1e-12; }; vp_assert( ok( aa.first.x - x ) && ok( aa.first.y - y ) && ok( aa.first.z - z ) && ok( aa.second.rad_value() - constants<double>::pi() ), "axis and angle have the precision of the rotation" );
	V r = rotation_vector_from_quat( Q( 0, x, y, z ) ); double p = constants<double>::pi(); vp_assert( ok( r.x - x * p ) && ok( r.y - y * p ) && ok( r.z - z * p ), "the rotation vector has the precision of the rotation" ); vp_reach( "end" );
}
VP_ENTRY( rotation_vector )
{
	Q q = unit( "q" ); double l2 = q.x * q.x + q.y * q.y + q.z * q.z; vp_assume( l2 > 1e-4 ); if ( vp_choice( 2 ) ) vp_assume( q.w > -0.1 ); else vp_assume( q.w <= -0.1 ); auto aa = axis_angle_from_quat( q ); V r = rotation_vector_from_quat( q ), a = aa.first; double t = aa.second.rad_value(); vp_assert( eq( r, a * t ), "the rotation vector is the axis times the angle" ); vp_assert( rotation_vector_from_quat( Q::identity() ).is_null(), "no rotation" ); vp_reach( "end" );
}
static double angle_of( const Q& q, long k ) { return k == 0 ? pitch( q ).rad_value() : k == 1 ? yaw( q ).rad_value() : roll( q ).rad_value(); }
// pitch, yaw and roll of a rotation about one axis
VP_ENTRY( euler_single )
{
	long k = vp_param( 0 ); double c = vp_real( -1, 1, "c" ), s = vp_real( -1, 1, "s" ), m[ 3 ] = { 0, 0, 0 }; if ( vp_symbolic() ) vp_assume( c * c + s * s == 1 ); else { double l = std::sqrt( c * c + s * s ); vp_assume( l > 1e-6 ); c /= l; s /= l; } m[ k ] = s; Q q( c, m[ 0 ], m[ 1 ], m[ 2 ] ); double t = angle_of( q, k ); auto e = euler_from_quat( q ); vp_assert( vp_near( std::cos( t ), c * c - s * s, 1e-9 ), "cosine of the angle" ); vp_assert( vp_near( std::sin( t ), 2 * s * c, 1e-9 ), "sine of the angle" );
	vp_assert( vp_near( e[ k ].rad_value(), t ), "Euler angles are pitch, yaw and roll" ); vp_reach( "end" );
}
// each angle is that of a rotated axis seen along the angle's own axis
static void euler_of( const Q& q, long k ) { V r = q * V::unit( ( k + 1 ) % 3 ); double x = r[ ( k + 1 ) % 3 ], y = r[ ( k + 2 ) % 3 ]; vp_assume( x * x + y * y > 1e-4 ); double t = angle_of( q, k ), c = std::cos( t ), s = std::sin( t ); vp_assert( vp_near( c * y, s * x, 1e-9 ), "the angle of the rotated axis" ); vp_assert( c * x + s * y > 0, "the side of the rotated axis" ); auto e = euler_from_quat( q ); vp_assert( vp_near( e[ k ].rad_value(), t ), "Euler angles are pitch, yaw and roll" ); vp_reach( "end" ); }
VP_ENTRY( euler_angles ) { double c, s, m[ 4 ] = { 0, 0, 0, 0 }; circle( c, s ); m[ vp_param( 1 ) ] = c; m[ vp_param( 2 ) ] = s; euler_of( Q( m[ 0 ], m[ 1 ], m[ 2 ], m[ 3 ] ), vp_param( 0 ) ); }
// rotations with components +-4/5, 2/5, 2/5, 1/5 in every order
static bool fifths( double* m ) { double f = vp_real( 0, 1, "fifth" ); if ( vp_symbolic() ) vp_assume( f * 5 == 1 ); else f = 0.2; unsigned i = vp_choice( 4 ), j = vp_choice( 4 ); if ( i == j ) return false; for ( unsigned k = 0; k < 4; ++k ) m[ k ] = ( k == i ? 4 : k == j ? 1 : 2 ) * f; for ( unsigned k = 1; k < 4; ++k ) if ( vp_choice( 2 ) ) m[ k ] = 0 - m[ k ]; return true; }
// rebuilding a rotation from its Euler angles
VP_ENTRY( euler_inverse )
{
	double c, s, m[ 3 ] = { 0, 0, 0 }; circle( c, s ); unsigned k = vp_choice( 4 ); bool single = k < 3; if ( single ) m[ k ] = s; Q q( c, m[ 0 ], m[ 1 ], m[ 2 ] ); if ( !single ) { double h = vp_real( 0, 1, "half" ); if ( vp_symbolic() ) vp_assume( h * 2 == 1 ); else h = 0.5; q = Q( h, h, h, h ); }
	auto e = euler_from_quat( q ); Q r = quat_from_euler( e ); int same = vp_near( r.w * q.w + r.x * q.x + r.y * q.y + r.z * q.z, 1, 1e-6 ), neg = vp_near( r.w * q.w + r.x * q.x + r.y * q.y + r.z * q.z, -1, 1e-6 ); if ( single ) vp_assume( s * s < 0.4999 ); vp_assert( vp_or( same, neg ), single ? "Euler angles rebuild a rotation of less than a quarter turn about one axis" : "Euler angles rebuild any rotation" ); vp_reach( "end" );
}
VP_ENTRY( euler_mixed ) { double m[ 4 ]; if ( fifths( m ) ) euler_of( Q( m[ 0 ], m[ 1 ], m[ 2 ], m[ 3 ] ), vp_choice( 3 ) ); }
static void axes_of( const Q& q )
{
	V x = q * V::unit_x(), y = q * V::unit_y(), z = q * V::unit_z(); Q r = quat_from_axes( x, y, z ); int p = vp_and( vp_near( r.w * q.x, q.w * r.x ), vp_near( r.w * q.y, q.w * r.y ) ); p = vp_and( p, vp_near( r.w * q.z, q.w * r.z ) ); p = vp_and( p, vp_near( r.x * q.y, q.x * r.y ) ); p = vp_and( p, vp_near( r.x * q.z, q.x * r.z ) ); p = vp_and( p, vp_near( r.y * q.z, q.y * r.z ) );
	vp_assert( p, "the axes of a rotation give the rotation" ); vp_assert( vp_near( n2( r ), 1 ), "unit quaternion" );
}
// rotations whose quaternion has two components, on the whole circle
VP_ENTRY( axes )
{
	long i = vp_param( 0 ), j = vp_param( 1 ); double m[ 4 ] = { 0, 0, 0, 0 }, c = vp_real( -1, 1, "c" ), s = vp_real( -1, 1, "s" ); if ( vp_symbolic() ) vp_assume( c * c + s * s == 1 ); else { double l = std::sqrt( c * c + s * s ); vp_assume( l > 1e-6 ); c /= l; s /= l; } vp_assume( vp_and( c >= s, c + s >= 0 ) ); m[ i ] = c; m[ j ] = s; axes_of( Q( m[ 0 ], m[ 1 ], m[ 2 ], m[ 3 ] ) ); vp_reach( "end" );
}
VP_ENTRY( axes_mixed ) { double m[ 4 ]; if ( fifths( m ) ) { axes_of( Q( m[ 0 ], m[ 1 ], m[ 2 ], m[ 3 ] ) ); vp_reach( "end" ); } }
VP_ENTRY( angles )
{
	double d = vp_real( -1000, 1000, "d" ), k = vp_real( -10, 10, "k" ), pi = constants<double>::pi(); degree_<double> g = deg( d ); vp_assert( vp_near( g.rad_value(), d * ( pi / 180 ), 1e-9 ) || vp_symbolic(), "degrees to radians" ); vp_assert( vp_near( g.deg_value(), d ), "degrees stay degrees" ); radian_<double> r = rad( d ); vp_assert( vp_near( r.rad_value(), d ), "radians stay radians" );
	double e = g.rad_value() - d * pi / 180; vp_assert( e <= 1e-9 && e >= -1e-9, "180 degrees are pi radians" ); double f = r.deg_value() - d * 180 / pi; vp_assert( f <= 1e-6 && f >= -1e-6, "pi radians are 180 degrees" ); double b = g.radian().deg_value() - d; vp_assert( b <= 1e-6 && b >= -1e-6, "conversion to radians and back" ); double b2 = r.degree().rad_value() - d; vp_assert( b2 <= 1e-6 && b2 >= -1e-6, "conversion to degrees and back" );
	degree_<double> h = deg( k ), s = deg( d ); s += h; vp_assert( vp_near( s.value, d + k ) && vp_near( ( g + h ).value, d + k ), "sum" ); s = deg( d ); s -= h; vp_assert( vp_near( s.value, d - k ) && vp_near( ( g - h ).value, d - k ), "difference" ); vp_assert( vp_near( ( g * k ).value, d * k ) && vp_near( ( k * g ).value, d * k ) && vp_near( ( -g ).value, 0 - d ), "scaling" );
	vp_assert( ( g < h ) == ( d < k ) && ( g > h ) == ( d > k ) && ( g <= h ) == ( d <= k ) && ( g >= h ) == ( d >= k ) && ( g == h ) == ( d == k ) && ( g != h ) == ( d != k ), "comparison" ); vp_reach( "end" );
}
// vectors, quaternions and transforms in property trees
VP_ENTRY( properties )
{
	typedef vec3_< int > W; typedef quat_< int > R; typedef transform_< int > T; int c[ 7 ]; for ( int i = 0; i < 7; ++i ) c[ i ] = i % 2 ? (int)vp_range( -9, 9, "c" ) : 10 * ( i + 1 ) + (int)vp_range( 0, 9, "c" ); W v( c[ 0 ], c[ 1 ], c[ 2 ] ); R q( c[ 3 ], c[ 4 ], c[ 5 ], c[ 6 ] ); prop_node p; p.set( "v", v ).set( "q", q ); T t( v, q ); p.set( "t", t );
	vp_assert( p[ "v" ].size() == 3 && p[ "v" ].get< int >( "x" ) == c[ 0 ] && p[ "v" ].get< int >( "y" ) == c[ 1 ] && p[ "v" ].get< int >( "z" ) == c[ 2 ], "the components of a vector" ); vp_assert( p[ "q" ].size() == 4 && p[ "q" ].get< int >( "w" ) == c[ 3 ] && p[ "q" ].get< int >( "x" ) == c[ 4 ] && p[ "q" ].get< int >( "y" ) == c[ 5 ] && p[ "q" ].get< int >( "z" ) == c[ 6 ], "the components of a quaternion" );
	vp_assert( p.get< W >( "v" ) == v, "a vector reads back" ); R r = p.get< R >( "q" ); vp_assert( r.w == q.w && r.x == q.x && r.y == q.y && r.z == q.z, "a quaternion reads back" ); T u = p.get< T >( "t" ); vp_assert( u.p == v && u.q.w == q.w && u.q.x == q.x && u.q.y == q.y && u.q.z == q.z, "a transform reads back" );
	prop_node n; n.set_value( std::string( "7 -8 9" ) ); vp_assert( n.get< W >() == W( 7, -8, 9 ), "a vector from text" ); prop_node m; m.set( "y", c[ 1 ] ); vp_assert( m.get< W >() == W( 0, c[ 1 ], 0 ), "missing components are zero" ); vp_reach( "end" );
}
VP_ENTRY( matrices )
{
	int c[ 9 ]; for ( int& x : c ) x = vp_int( "c" ); mat33_<int> m = mat33_from_axes( vec3_<int>( c[ 0 ], c[ 1 ], c[ 2 ] ), vec3_<int>( c[ 3 ], c[ 4 ], c[ 5 ] ), vec3_<int>( c[ 6 ], c[ 7 ], c[ 8 ] ) ); int r = 1; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r &= ( m[ i ][ j ] == c[ j * 3 + i ] ); vp_assert( r, "the axes are the columns" ); vp_reach( "end" );
}

//@ entry=polar quick=1 thorough=1 real
//@ bounds: polar coordinates with any radius up to 100 and any angles up to 7 radians
VP_ENTRY( polar )
{
	double r = vp_real( 0, 100, "r" ), i = vp_real( -7, 7, "i" ), a = vp_real( -7, 7, "a" ); V v = vec3_from_polar( r, rad( i ), rad( a ) ); vp_assert( vp_near( v.y, r * std::cos( i ) ), "height from the inclination" ); vp_assert( vp_near( v.z, r * std::sin( i ) * std::cos( a ) ) && vp_near( v.x, r * std::sin( i ) * std::sin( a ) ), "position from the azimuth" ); vp_assert( vp_near( v.x * v.x + v.y * v.y + v.z * v.z, r * r ), "at the distance of the radius" ); vp_reach( "end" );
}
