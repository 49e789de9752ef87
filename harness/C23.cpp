// C23: scalar helpers respect their documented ranges
//@ entry=clamp_int quick=1 thorough=1
//@ entry=clamp_double quick=1 thorough=1
//@ entry=clamp_float quick=1 thorough=1
//@ entry=soft quick=1 thorough=1 real
//@ entry=soft_order quick=1 thorough=1 real time=60
//@ entry=wrap_real quick=3 thorough=12 real
//@ entry=wave quick=9 thorough=60 real
//@ entry=integers quick=1 thorough=1
//@ entry=signs quick=1 thorough=1
//@ entry=bounds_int quick=1 thorough=1
//@ entry=bounds_real quick=1 thorough=1 real
//@ entry=bounds_text quick=1 thorough=1
//@ entry=bounds_text_real quick=1 thorough=1
//@ entry=roots quick=1 thorough=1 real
//@ entry=tolerance quick=1 thorough=1 real
//@ bounds: all 32/64-bit integers; all IEEE floats and doubles except NaN for clamping, sign and comparisons; all reals in [-1000,1000] for soft clamping (any limits, any boundary share in [0,1/2]), ; wrapping in 9 ranges of values up to 3 (thorough 12) spans outside; the square wave in [-9,9] (thorough 60); bounds read from property text with integers in -99..99
//@ assume: limits are ordered; real-number entries are exact (no rounding)
#include "oracle.h"
#include "flut/prop_node.hpp"
#include "flut/math/math.hpp"
#include "flut/math/bounds.hpp"
using namespace flut;
template< typename T > static void clamps( T v, T lo, T hi )
{
	T r = math::clamped( v, lo, hi ), w = v; T& rr = math::clamp( w, lo, hi ); vp_assert( &rr == &w && w == r, "clamping in place gives the same value" );
	vp_assert( vp_and( r >= lo, r <= hi ), "the clamped value is inside the limits" );
	if ( v < lo ) { vp_assert( r == lo, "a value below is moved to the lower limit" ); vp_reach( "below" ); } else if ( v > hi ) { vp_assert( r == hi, "a value above is moved to the upper limit" ); vp_reach( "above" ); } else { vp_assert( r == v, "a value inside is unchanged" ); vp_reach( "inside" ); }
	bool in = vp_and( v >= lo, v <= hi ); vp_assert( math::is_between( v, lo, hi ) == in, "is_between" ); bounds< T > b( lo, hi ); vp_assert( b.is_within( v ) == in, "containment" ); T u = v; T& br = b.clamp( u ); vp_assert( &br == &u && u == r, "bounds clamp to the same value" );
	vp_assert( b.lower == lo && b.upper == hi, "bounds keep their limits" );
	T x = v; T& sx = math::set_if_smaller( x, lo ); vp_assert( &sx == &x && x == ( lo < v ? lo : v ), "set if smaller" ); T y = v; T& sy = math::set_if_bigger( y, hi ); vp_assert( &sy == &y && y == ( hi > v ? hi : v ), "set if bigger" );
}
VP_ENTRY( clamp_int ) { int v = vp_int( "v" ), lo = vp_int( "lo" ), hi = vp_int( "hi" ); vp_assume( lo <= hi ); clamps< int >( v, lo, hi ); }
VP_ENTRY( clamp_double ) { double v = vp_sym_double( "v" ), lo = vp_sym_double( "lo" ), hi = vp_sym_double( "hi" ); vp_assume( lo <= hi ); vp_assume( v == v ); clamps< double >( v, lo, hi ); }
static float any_float( const char* n ) { uint32_t u = vp_uint( n ); float f; memcpy( &f, &u, 4 ); return f; }
VP_ENTRY( clamp_float ) { float v = any_float( "v" ), lo = any_float( "lo" ), hi = any_float( "hi" ); vp_assume( lo <= hi ); vp_assume( v == v ); clamps< float >( v, lo, hi ); }
VP_ENTRY( soft )
{
	double v = vp_real( -1000, 1000, "v" ), lo = vp_real( -1000, 1000, "lo" ), hi = vp_real( -1000, 1000, "hi" ), b = vp_real( 0, 0.5, "b" ); vp_assume( lo < hi );
	double r = math::soft_clamped( v, lo, hi, b ), w = v; double rr = math::soft_clamp( w, lo, hi, b ); vp_assert( w == r && rr == r, "in place and by value agree" );
	vp_assert( vp_and( r >= lo, r <= hi ), "the soft-clamped value is inside the limits" ); double m = b * ( hi - lo ); if ( v >= lo + m && v <= hi - m ) { vp_assert( r == v, "values away from the limits are unchanged" ); vp_reach( "unchanged" ); } else vp_reach( "moved" );
	bounds< double > bo( lo, hi ); double u = v; bo.soft_clamp( u, b ); vp_assert( u == r, "bounds soft-clamp to the same value" );
}
VP_ENTRY( soft_order ) { double v = vp_real( -100, 100, "v" ), w = vp_real( -100, 100, "w" ); static const double B[] = { 0.125, 0.25, 0.5 }; double b = B[ vp_choice( 3 ) ]; vp_assume( v <= w ); double rv = math::soft_clamped( v, -1.0, 3.0, b ), rw = math::soft_clamped( w, -1.0, 3.0, b ); vp_assert( rv <= rw + ( vp_symbolic() ? 0 : 1e-9 ), "soft clamping keeps the order of values" ); vp_reach( "end" ); }
VP_ENTRY( wrap_real )
{
	static const double R[][ 2 ] = { { 0, 1 }, { -1, 1 }, { -180, 180 }, { 0, 360 }, { 5, 7.5 }, { -10, -4 }, { 0, 6.25 }, { -0.5, 0.25 }, { 100, 101 } };
	unsigned k = vp_choice( 9 ); double lo = R[ k ][ 0 ], hi = R[ k ][ 1 ], sp = hi - lo; int n = (int)vp_param( 0 ); double v = vp_real( lo - n * sp, hi + n * sp, "v" ); double r = math::wrapped( v, lo, hi ), w = v; double& rr = math::wrap( w, lo, hi ); vp_assert( &rr == &w && w == r, "in place and by value agree" );
	double e = vp_symbolic() ? 0 : 1e-7, q = ( r - v ) / ( hi - lo ), f = floor( q + 0.5 ) - q; vp_assert( r >= lo - e && r <= hi + e, "the wrapped value is inside the range" ); vp_assert( f <= e && f >= -e, "the wrapped value differs by a multiple of the range" );
	if ( v > lo && v < hi ) { vp_assert( vp_near( r, v ), "a value inside is unchanged" ); vp_reach( "inside" ); } else vp_reach( "wrapped" );
}
VP_ENTRY( wave )
{
	double v = vp_real( -vp_param( 0 ), vp_param( 0 ), "v" ), r = math::square_wave( v ); vp_assert( r == 1 || r == -1, "the square wave is 1 or -1" ); double ph = v - 2 * floor( v / 2 ), e = vp_symbolic() ? 0 : 1e-9; if ( ph > e && ph < 1 - e ) { vp_assert( r == 1, "first half of the period" ); vp_reach( "high" ); } if ( ph > 1 + e && ph < 2 - e ) { vp_assert( r == -1, "second half of the period" ); vp_reach( "low" ); }
	if ( vp_symbolic() ) { if ( ph == 0 ) vp_assert( r == 1, "start of the period" ); if ( ph == 1 ) vp_assert( r == -1, "middle of the period" ); vp_assert( math::square_wave( v + 2 ) == r, "period 2" ); }
}
template< typename T > static bool pow2( T v ) { for ( unsigned i = 0; i < sizeof( T ) * 8; ++i ) if ( v == ( T( 1 ) << i ) ) return true; return false; }
VP_ENTRY( integers )
{
	uint32_t a = vp_uint( "a" ); uint64_t b = vp_u64( "b" ); int c = vp_int( "c" );
	int n = 0; for ( int i = 0; i < 32; ++i ) n += ( a >> i ) & 1; vp_assert( math::is_power_of_two( a ) == ( n == 1 ), "a power of two has one bit" ); int m = 0; for ( int i = 0; i < 64; ++i ) m += ( b >> i ) & 1; vp_assert( math::is_power_of_two( b ) == ( m == 1 ), "a 64-bit power of two has one bit" );
	if ( c > 0 && c < 0x40000000 ) { int p = 0; for ( int i = 0; i < 31; ++i ) p |= ( c == ( 1 << i ) ); vp_assert( math::is_power_of_two( c ) == ( p != 0 ), "signed power of two" ); }
	vp_assert( math::is_even( a ) == ( a % 2 == 0 ) && math::is_odd( a ) == ( a % 2 == 1 ), "parity" ); vp_assert( math::is_even( c ) == ( c % 2 == 0 ) && math::is_odd( c ) == ( c % 2 != 0 ), "signed parity" ); vp_assert( math::is_even( b ) != math::is_odd( b ), "every number is even or odd" ); vp_reach( "end" );
}
VP_ENTRY( signs )
{
	int i = vp_int( "i" ); vp_assert( math::sign( i ) == ( i < 0 ? -1 : 1 ), "sign of an integer" ); double d = vp_sym_double( "d" ); vp_assume( d == d ); double s = math::sign( d ); vp_assert( s == ( d < 0 ? -1.0 : 1.0 ), "sign of a double" );
	int x = vp_range( -1000, 1000, "x" ); vp_assert( math::squared( x ) == x * x && math::cubed( x ) == x * x * x, "powers" ); vp_reach( "end" );
}
VP_ENTRY( bounds_int )
{
	int v = vp_range( -100000, 100000, "v" ), lo = vp_range( -100000, 100000, "lo" ), hi = vp_range( -100000, 100000, "hi" ); vp_assume( lo <= hi ); bounds< int > b( lo, hi ); int x = b.get_violation( v ), c = math::clamped( v, lo, hi );
	vp_assert( x == v - c, "the violation is the signed distance to the clamped value" ); vp_assert( ( x == 0 ) == b.is_within( v ) && ( x < 0 ) == ( v < lo ) && ( x > 0 ) == ( v > hi ), "the sign of the violation tells the side" ); vp_assert( b.range() == hi - lo, "range" ); bounds< int > n = -b; vp_assert( n.lower == -hi && n.upper == -lo && n.is_within( -v ) == b.is_within( v ), "inverted bounds" );
	bounds< int > one( v ); vp_assert( one.lower == v && one.upper == v, "single value" ); bounds< double > d( b ); vp_assert( d.lower == lo && d.upper == hi, "conversion" ); vp_reach( x < 0 ? "below" : x > 0 ? "above" : "within" );
}
VP_ENTRY( bounds_real )
{
	double v = vp_real( -1000, 1000, "v" ), lo = vp_real( -1000, 1000, "lo" ), hi = vp_real( -1000, 1000, "hi" ); vp_assume( lo <= hi ); bounds< double > b( lo, hi ); double x = b.get_violation( v ), c = v; b.clamp( c ); vp_assert( vp_near( x, v - c ), "the violation is the signed distance to the clamped value" ); vp_assert( ( x == 0 ) == b.is_within( v ), "no violation exactly inside" ); vp_assert( vp_near( b.range(), hi - lo ), "range" ); vp_reach( "end" );
}
VP_ENTRY( bounds_text )
{
	int a = vp_range( -99, 99, "a" ), b = vp_range( -99, 99, "b" ); prop_node p; p.set_value( to_str( a ) + ".." + to_str( b ) ); bounds< int > x( p ); vp_assert( x.lower == a && x.upper == b, "limits from text" ); prop_node q; q.set_value( to_str( a ) ); bounds< int > y( q ); vp_assert( y.lower == a && y.upper == a, "single value from text" );
	prop_node r; bool lo = vp_choice( 2 ), hi = vp_choice( 2 ), alt = vp_choice( 2 ); if ( lo ) r.set( alt ? "min" : "lower", a ); if ( hi ) r.set( alt ? "max" : "upper", b ); if ( !lo && !hi ) { bool t = false; try { bounds< int > z( r ); } catch ( std::exception& ) { t = true; } vp_assert( t, "no bounds is an error" ); } else { bounds< int > z( r ); vp_assert( z.lower == ( lo ? a : constants< int >::lowest() ) && z.upper == ( hi ? b : constants< int >::max() ), "limits from properties" ); } vp_reach( "end" );
}

VP_ENTRY( bounds_text_real )
{
	prop_node r; bool lo = vp_choice( 2 ), hi = vp_choice( 2 ), alt = vp_choice( 2 ); int a = (int)vp_choice( 3 ) * 7 - 9; if ( lo ) r.set( alt ? "min" : "lower", to_str( a ) ); if ( hi ) r.set( alt ? "max" : "upper", to_str( a + 1 ) ); if ( !lo && !hi ) return; bounds< double > z( r ); bounds< float > f( r );
	vp_assert( z.lower == ( lo ? a : -std::numeric_limits< double >::max() ) && z.upper == ( hi ? a + 1 : std::numeric_limits< double >::max() ), "a missing limit excludes no double" ); vp_assert( f.lower == ( lo ? a : -std::numeric_limits< float >::max() ) && f.upper == ( hi ? a + 1 : std::numeric_limits< float >::max() ), "a missing limit excludes no float" ); vp_reach( "end" );
}
VP_ENTRY( roots )
{
	double v = vp_real( -1000, 1000, "v" ); double r = math::signed_sqrt( v ); vp_assert( vp_near( r < 0 ? -r * r : r * r, v ), "the signed root squares to the value with its sign" ); vp_assert( v < 0 ? r < 0 : r >= 0, "the signed root has the sign of the value" );
	if ( v > 0.001 ) { double i = math::invsqrt( v ); vp_assert( i > 0 && vp_near( i * i * v, 1 ), "inverse square root" ); vp_reach( "positive" ); } else vp_reach( "other" );
	if ( v > 0.001 || v < -0.001 ) vp_assert( vp_near( math::inv( v ) * v, 1 ), "inverse" );
}
VP_ENTRY( tolerance )
{
	double a = vp_real( -1000, 1000, "a" ), b = vp_real( -1000, 1000, "b" ), e = vp_real( 0, 0.5, "e" ); double d = a < b ? b - a : a - b, m = ( a < 0 ? -a : a ) * e; bool r = math::equals( a, b, e ); vp_assert( math::equals( a, a, e ) && math::equals( a, a ), "a number equals itself" );
	double s = vp_symbolic() ? 0 : 1e-9; if ( d < m - s ) { vp_assert( r, "a difference within the tolerance is accepted" ); vp_reach( "within" ); } if ( d > m + s ) { vp_assert( !r, "a difference beyond the tolerance is not accepted" ); vp_reach( "beyond" ); }
}
