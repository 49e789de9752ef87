// C26: filters and delayers
//@ entry=recurrence1 quick=3 thorough=5 real
//@ entry=recurrence2 quick=4 thorough=6 real
//@ entry=recurrence3 quick=5 thorough=7 real
//@ entry=lowpass quick=1 thorough=1 real
//@ entry=lowpass_cutoff quick=1 thorough=1 real
//@ entry=delay_grid quick=2,1,4;2,2,7;3,2,9;5,4,11;3,4,13 thorough=2,1,8;2,2,12;3,2,14;5,4,40;3,4,30;4,1,12;8,2,30 real
//@ entry=smooth_grid quick=2,1,5;2,2,8;3,2,10;5,4,24 thorough=2,1,9;2,2,14;3,2,18;5,4,40;4,4,30;8,1,20 real
//@ entry=delay_any quick=2,4;3,5 thorough=2,6;3,7;5,7 real
//@ entry=smooth_any quick=2,4;3,5 thorough=2,6;3,7;5,7 real
//@ entry=smooth_steps quick=2,4;3,5 thorough=2,5;3,6 real
//@ bounds: filters of order 1 to 3 with any coefficients, any signal of up to 5 samples (thorough 7); low-pass design for every cut-off (any tangent in [1/20,20]); delay lines of resolution 2, 3 and 5 with any signal of up to 13 samples at 1, 2 or 4 samples per window, and up to 5 samples with arbitrary time steps up to the window (thorough: resolution up to 8, 40 samples, 7 arbitrary steps)
//@ assume: exact real arithmetic, floating-point rounding is outside
#include "oracle.h"
#include "flut/system/types.hpp"
#include "flut/filter.hpp"
#include "flut/math/delayer.hpp"
using namespace flut;
static double sc( const char* n ) { return vp_real( -100, 100, n ); }
template< int N > static void rec()
{
	unsigned len = vp_param( 0 ); iir_filter< double, N > f; vp_assert( f() == 0, "a filter starts at zero" ); f.b0_ = vp_real( -4, 4, "b" ); double b[ N ], a[ N ]; for ( int i = 0; i < N; ++i ) { f.b_[ i ] = b[ i ] = vp_real( -4, 4, "b" ); f.a_[ i ] = a[ i ] = vp_real( -4, 4, "a" ); }
	std::vector< double > x, y; for ( unsigned t = 0; t < len; ++t ) { double v = sc( "x" ), e = f.b0_ * v; for ( int i = 0; i < N; ++i ) if ( (int)t > i ) e += b[ i ] * x[ t - 1 - i ] + a[ i ] * y[ t - 1 - i ]; double r = f( v ); vp_assert( vp_near( r, e, 1e-6 ), "the output obeys the difference equation" ); vp_assert( f() == r, "the last output can be read again" ); x.push_back( v ); y.push_back( e ); }
	vp_reach( "end" );
}
VP_ENTRY( recurrence1 ) { rec< 1 >(); }
VP_ENTRY( recurrence2 ) { rec< 2 >(); iir_filter< double, 2 > f; f.b0_ = sc( "p" ); f.b_[ 0 ] = sc( "q" ); double u = sc( "u" ), v = sc( "v" ); double a = f( u ), b = f( v ); vp_assert( vp_near( f.velocity(), b - a ), "velocity is the change of the output" ); }
VP_ENTRY( recurrence3 ) { rec< 3 >(); }
static double ratio() { double r = vp_real( 0.01, 0.49, "ratio" ), t = std::tan( constants< double >::pi() * r ); vp_assume( vp_and( t >= 0.05, t <= 20 ) ); return r; }
VP_ENTRY( lowpass )
{
	auto f = make_lowpass_butterworth_2nd_order( ratio() ); auto g = f; double c = sc( "c" ); for ( int i = 0; i < 2; ++i ) f.x_[ i ] = f.y_[ i ] = c; vp_assert( vp_near( f( c ), c ), "a constant signal passes unchanged" ); vp_assert( vp_near( f( c ), c ), "a constant signal keeps passing" );
	g.x_[ 0 ] = 0 - c; g.x_[ 1 ] = c; vp_assert( vp_near( g( c ), 0 ), "the highest frequency is blocked" ); vp_reach( "end" );
}
VP_ENTRY( lowpass_cutoff )
{
	double r = ratio(), t = std::tan( constants< double >::pi() * r ); auto f = make_lowpass_butterworth_2nd_order( r ); double d = 1 + t * t, C = ( 1 - t * t ) / d, S = 2 * t / d, C2 = 2 * C * C - 1, S2 = 2 * S * C; // response at the cut-off frequency
	double nr = f.b0_ + f.b_[ 0 ] * C + f.b_[ 1 ] * C2, ni = f.b_[ 0 ] * S + f.b_[ 1 ] * S2, dr = 1 - f.a_[ 0 ] * C - f.a_[ 1 ] * C2, di = f.a_[ 0 ] * S + f.a_[ 1 ] * S2; double e = 2 * ( nr * nr + ni * ni ) - ( dr * dr + di * di ); vp_assert( vp_and( e <= 1e-6, e >= -1e-6 ), "half of the power at the cut-off frequency" ); vp_reach( "end" );
}
static double at( const std::vector< double >& v, long i, double init ) { return i < 1 ? init : v[ i - 1 ]; }
static float window() { static const float W[] = { 1, 0.5f, 4 }; return W[ vp_choice( 3 ) ]; }
// k equal time steps per window
template< int N > static void grid( int k, int len )
{
	double init = sc( "init" ); float win = window(); delayer< double, N > d( ( N - 1 ) * win, init ); vp_assert( vp_near( d(), init ), "starts with the initial value" ); std::vector< double > w; float dt = win / k; for ( int j = 1; j <= len; ++j ) { double v = sc( "v" ); double r = d( v, dt ); if ( j % k == 0 ) w.push_back( v ); long m = j / k; double u = double( j % k ) / k; vp_assert( vp_near( r, u * at( w, m - N + 2, init ) + ( 1 - u ) * at( w, m - N + 1, init ), 1e-4 ), "the output is the signal one delay ago" ); vp_assert( vp_near( d(), r, 1e-4 ), "reading changes nothing" ); }
	vp_reach( "end" );
}
VP_ENTRY( delay_grid ) { int n = vp_param( 0 ), k = vp_param( 1 ), l = vp_param( 2 ); n == 2 ? grid< 2 >( k, l ) : n == 3 ? grid< 3 >( k, l ) : n == 4 ? grid< 4 >( k, l ) : n == 5 ? grid< 5 >( k, l ) : grid< 8 >( k, l ); }
template< int N > static void sgrid( int k, int len )
{
	double init = sc( "init" ), sum = 0; float win = window(); smooth_delayer< double, N > d( ( N - 0.5f ) * win, init ); vp_assert( vp_near( d(), init ), "starts with the initial value" ); std::vector< double > w; float dt = win / k; for ( int j = 1; j <= len; ++j ) { double v = sc( "v" ); sum += v; double r = d( v, dt ); if ( j % k == 0 ) { w.push_back( sum / k ); sum = 0; } long m = j / k; double u = double( j % k ) / k; vp_assert( vp_near( r, u * at( w, m - N + 2, init ) + ( 1 - u ) * at( w, m - N + 1, init ), 1e-4 ), "the output is the smoothed signal one delay ago" ); vp_assert( vp_near( d(), r, 1e-4 ), "reading changes nothing" ); }
	vp_reach( "end" );
}
VP_ENTRY( smooth_grid ) { int n = vp_param( 0 ), k = vp_param( 1 ), l = vp_param( 2 ); n == 2 ? sgrid< 2 >( k, l ) : n == 3 ? sgrid< 3 >( k, l ) : n == 4 ? sgrid< 4 >( k, l ) : n == 5 ? sgrid< 5 >( k, l ) : sgrid< 8 >( k, l ); }
// arbitrary time steps: a constant signal is reproduced, an offset of the signal is an offset of the output
template< typename D, bool steps > static void any( float delay, int len )
{
	double init = sc( "init" ), c = sc( "c" ), k = sc( "k" ), lo = init, hi = init; float win = steps ? 0.5f : window(); D a( delay * win, init ), b( delay * win, init + c ), s( delay * win, k );
	for ( int j = 0; j < len; ++j ) { static const double T[] = { 0.25, 0.625, 1 }; double t = steps ? T[ vp_choice( 3 ) ] : vp_real( 0, 1, "dt" ), v = sc( "v" ); float dt = (float)( t * win ); lo = v < lo ? v : lo; hi = v > hi ? v : hi; double x = a( v, dt ), y = b( v + c, dt ); vp_assert( vp_near( y, x + c, 1e-3 ), "an offset of the signal is an offset of the output" ); vp_assert( vp_near( s( k, dt ), k, 1e-3 ), "a constant signal is reproduced" ); double e = vp_symbolic() ? 0 : 1e-3; if ( steps ) vp_assert( vp_and( x >= lo - e, x <= hi + e ), "the output stays within the range of the signal" ); }
	vp_reach( "end" );
}
VP_ENTRY( delay_any ) { int n = vp_param( 0 ), l = vp_param( 1 ); if ( n == 2 ) any< delayer< double, 2 >, false >( 1, l ); else if ( n == 3 ) any< delayer< double, 3 >, false >( 2, l ); else any< delayer< double, 5 >, false >( 4, l ); }
template< bool steps > static void sany() { int n = vp_param( 0 ), l = vp_param( 1 ); if ( n == 2 ) any< smooth_delayer< double, 2 >, steps >( 1.5f, l ); else if ( n == 3 ) any< smooth_delayer< double, 3 >, steps >( 2.5f, l ); else any< smooth_delayer< double, 5 >, steps >( 4.5f, l ); }
VP_ENTRY( smooth_any ) { sany< false >(); }
VP_ENTRY( smooth_steps ) { sany< true >(); }
// long signals
//@ entry=recurrence_long quick=60 thorough=60 real
//@ entry=delay_long quick=5,4,200;8,2,160;3,4,100 thorough=5,4,200;8,2,160;3,4,100 real
//@ entry=smooth_long quick=5,4,200;8,2,160;3,4,100 thorough=5,4,200;8,2,160;3,4,100 real
//@ bounds: windows of length 1, 1/2 and 4; second-order filter with given coefficients over any signal of 60 samples; delay lines over any signal of 200 samples
VP_ENTRY( recurrence_long )
{
	unsigned len = vp_param( 0 ); iir_filter< double, 2 > f; double b[ 2 ] = { 0.75, -0.5 }, a[ 2 ] = { 0.5, 0.25 }; f.b0_ = 0.5; for ( int i = 0; i < 2; ++i ) { f.b_[ i ] = b[ i ]; f.a_[ i ] = a[ i ]; } std::vector< double > x, y; for ( unsigned t = 0; t < len; ++t ) { double v = sc( "x" ), e = f.b0_ * v; for ( int i = 0; i < 2; ++i ) if ( (int)t > i ) e += b[ i ] * x[ t - 1 - i ] + a[ i ] * y[ t - 1 - i ]; double r = f( v ); vp_assert( vp_near( r, e, 1e-6 ), "the output obeys the difference equation" ); x.push_back( v ); y.push_back( e ); } vp_reach( "end" );
}
VP_ENTRY( delay_long ) { int n = vp_param( 0 ), k = vp_param( 1 ), l = vp_param( 2 ); n == 3 ? grid< 3 >( k, l ) : n == 5 ? grid< 5 >( k, l ) : grid< 8 >( k, l ); }
VP_ENTRY( smooth_long ) { int n = vp_param( 0 ), k = vp_param( 1 ), l = vp_param( 2 ); n == 3 ? sgrid< 3 >( k, l ) : n == 5 ? sgrid< 5 >( k, l ) : sgrid< 8 >( k, l ); }

//@ entry=ramp_delay quick=3,12;5,18 thorough=2,12;3,20;5,30;8,40 real
//@ entry=ramp_smooth quick=3,12;5,18 thorough=2,12;3,20;5,30;8,40 real
//@ bounds: the delay of a ramp with any time step between 0.2 and 0.9 windows, over 18 (thorough 40) samples
// a steadily rising signal comes out delayed by the set delay, up to one time step
template< typename D > static void ramp( float delay, float win, int len )
{
	float dt = (float)vp_real( 0.2, 0.9, "dt" ); D d( delay * win, 0.0 ); double t = 0, e = vp_symbolic() ? 0 : 1e-3; for ( int j = 1; j <= len; ++j ) { t += dt; double r = d( t, dt ); if ( t > ( delay + 1.5f ) * win ) { double x = r - ( t - delay * win ); vp_assert( x <= dt + e && x >= -dt - e, "the signal is delayed by the delay, within one time step" ); vp_reach( "delayed" ); } }
}
VP_ENTRY( ramp_delay ) { int n = vp_param( 0 ), l = vp_param( 1 ); n == 2 ? ramp< delayer< double, 2 > >( 1, 1, l ) : n == 3 ? ramp< delayer< double, 3 > >( 2, 1, l ) : n == 5 ? ramp< delayer< double, 5 > >( 4, 1, l ) : ramp< delayer< double, 8 > >( 7, 1, l ); }
VP_ENTRY( ramp_smooth ) { int n = vp_param( 0 ), l = vp_param( 1 ); n == 2 ? ramp< smooth_delayer< double, 2 > >( 1.5f, 1, l ) : n == 3 ? ramp< smooth_delayer< double, 3 > >( 2.5f, 1, l ) : n == 5 ? ramp< smooth_delayer< double, 5 > >( 4.5f, 1, l ) : ramp< smooth_delayer< double, 8 > >( 7.5f, 1, l ); }
//@ entry=instances quick=6 thorough=8 real
//@ entry=redesign quick=1 thorough=1 real
//@ bounds: every order of 6 (8) samples over two filters with given coefficients and two delay lines; two low-pass designs after each other
VP_ENTRY( instances )
{
	iir_filter< double, 2 > f[ 2 ]; const double B[] = { 0.5, -0.25, 2, 0.75, -1 }; std::vector< double > x[ 2 ], y[ 2 ]; for ( int w = 0; w < 2; ++w ) { double s = w ? 1 : -0.5; f[ w ].b0_ = B[ 0 ] * s; f[ w ].b_[ 0 ] = B[ 1 ] * s; f[ w ].b_[ 1 ] = B[ 2 ] * s; f[ w ].a_[ 0 ] = B[ 3 ] * s; f[ w ].a_[ 1 ] = B[ 4 ] * s; } delayer< double, 2 > d[ 2 ] = { delayer< double, 2 >( 1.0f, 1.0 ), delayer< double, 2 >( 1.0f, 2.0 ) }; smooth_delayer< double, 2 > g[ 2 ] = { smooth_delayer< double, 2 >( 1.5f, 1.0 ), smooth_delayer< double, 2 >( 1.5f, 2.0 ) }; int cnt[ 2 ] = { 0, 0 };
	for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 2 ); double v = sc( "x" ), s = w ? 1 : -0.5, e = B[ 0 ] * s * v; size_t t = x[ w ].size(); for ( size_t k = 0; k < 2; ++k ) if ( t > k ) e += B[ 1 + k ] * s * x[ w ][ t - 1 - k ] + B[ 3 + k ] * s * y[ w ][ t - 1 - k ]; vp_assert( vp_near( f[ w ]( v ), e, 1e-6 ), "every filter has its own history" ); x[ w ].push_back( v ); y[ w ].push_back( e ); double c = w + 1.0; vp_assert( vp_near( d[ w ]( c, 0.25f ), c, 1e-6 ), "every delay line has its own samples" ); vp_assert( vp_near( g[ w ]( c, 0.25f ), c, 1e-6 ), "every smooth delay line has its own samples" ); if ( t ) vp_assert( vp_near( f[ w ].velocity(), y[ w ][ t ] - y[ w ][ t - 1 ], 1e-6 ), "velocity" ); } vp_reach( "instances" );
}
VP_ENTRY( redesign )
{
	auto first = make_lowpass_butterworth_2nd_order( vp_choice( 2 ) ? 0.25 : 0.1 ); double r = ratio(), t = std::tan( constants< double >::pi() * r ); auto f = make_lowpass_butterworth_2nd_order( r ); double d = 1 + t * t, C = ( 1 - t * t ) / d, S = 2 * t / d, C2 = 2 * C * C - 1, S2 = 2 * S * C; double nr = f.b0_ + f.b_[ 0 ] * C + f.b_[ 1 ] * C2, ni = f.b_[ 0 ] * S + f.b_[ 1 ] * S2, dr = 1 - f.a_[ 0 ] * C - f.a_[ 1 ] * C2, di = f.a_[ 0 ] * S + f.a_[ 1 ] * S2; double e = 2 * ( nr * nr + ni * ni ) - ( dr * dr + di * di ); vp_assert( vp_and( e <= 1e-6, e >= -1e-6 ), "half of the power at the cut-off frequency of the second design" ); vp_assert( first() == 0, "unused" ); vp_reach( "end" );
}
