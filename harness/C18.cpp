// C18: circular frame buffer returns the most recent frames
//@ entry=ring quick=4,9,2 thorough=6,18,3 jobs=8
//@ entry=checked quick=3,7 thorough=4,12 jobs=8
//@ entry=channels quick=3,3 thorough=4,5 jobs=4
//@ entry=interpolate quick=3,5 thorough=4,9 real jobs=2
//@ bounds: buffers of 1..4 (thorough 6) frames and 1..2 (3) channels after 0..9 (18) added frames with arbitrary 64-bit values; checked access with every 64-bit frame and channel number; channels added to buffers of 1..3 (4) frames
//@ assume: the buffer holds at least one frame; interpolation over real numbers
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
using namespace flut;
typedef int64_t val;
template< typename F > static bool rejected( F f ) { try { f(); return false; } catch ( std::exception& ) { return true; } }
typedef circular_frame_buffer< val, string > buf;
static void fill( buf& b, size_t n, size_t c, std::vector< std::vector< val > >& h )
{
	for ( size_t f = 0; f < n; ++f )
	{
		vp_assert( b.add_frame() == f + 1 && b.frame_size() == f + 1, "adding a frame counts it" );
		h.push_back( std::vector< val >() );
		for ( size_t k = 0; k < c; ++k ) { val v = vp_i64( "v" ); h.back().push_back( v ); if ( ( f + k ) % 3 == 0 ) b[ k ] = v; else if ( ( f + k ) % 3 == 1 ) b( f, k ) = v; else b.reverse( 0, k ) = v; }
	}
}
VP_ENTRY( ring )
{
	size_t cap = 1 + vp_choice( vp_param( 0 ) ), n = vp_choice( vp_param( 1 ) + 1 ), c = 1 + vp_choice( vp_param( 2 ) );
	buf b( c, cap ); const buf& k = b; std::vector< std::vector< val > > h; fill( b, n, c, h );
	vp_assert( b.channel_size() == c && b.frame_size() == n && !b.empty(), "sizes" );
	for ( size_t f = n > cap ? n - cap : 0; f < n; ++f ) for ( size_t i = 0; i < c; ++i )
	{
		val v = h[ f ][ i ]; size_t back = n - 1 - f;
		vp_assert( b( f, i ) == v && k( f, i ) == v, "a recent frame gives the value written in it" );
		vp_assert( b.at( f, i ) == v && k.at( f, i ) == v, "checked access gives the value written in it" );
		vp_assert( b.reverse( back, i ) == v && k.reverse( back, i ) == v, "access relative to the latest frame" );
		if ( back == 0 ) vp_assert( b[ i ] == v && k[ i ] == v, "access to the latest frame" );
	}
	vp_reach( n > cap ? "wrapped" : n == cap ? "full" : "partial" );
}
VP_ENTRY( checked )
{
	size_t cap = 1 + vp_choice( vp_param( 0 ) ), n = vp_choice( vp_param( 1 ) + 1 ), c = 1 + vp_choice( 2 ); buf b( c, cap ); const buf& k = b; std::vector< std::vector< val > > h; fill( b, n, c, h );
	uint64_t f = vp_u64( "f" ), i = vp_u64( "i" ); vp_assume( f < ( uint64_t( 1 ) << 62 ) ); bool ok = f < n && f + cap >= n && i < c; val x = 0, y = 0;
	bool t = rejected( [&]() { x = b.at( f, i ); } ), u = rejected( [&]() { y = k.at( f, i ); } );
	vp_assert( t == !ok && u == !ok, "checked access succeeds exactly for recent frames and existing channels" );
	if ( ok ) vp_assert( x == h[ f ][ i ] && y == x, "checked access gives the value" ); vp_reach( ok ? "accepted" : "rejected" );
}
VP_ENTRY( channels )
{
	size_t cap = 1 + vp_choice( vp_param( 0 ) ), n = vp_param( 1 ); buf b( 0, cap ); std::vector< string > l;
	for ( int i = 0; i < 2; ++i ) { string q = vp_str( 1, "l" ); size_t p = 0; while ( p < l.size() && l[ p ] != q ) ++p; bool in = p < l.size(); if ( vp_choice( 2 ) ) { vp_assert( b.find_or_add_channel( q ) == p, "find or add" ); if ( !in ) l.push_back( q ); } else { bool t = rejected( [&]() { b.add_channel( q ); } ); vp_assert( t == in, "adding a present channel is rejected" ); if ( !in ) l.push_back( q ); } }
	vp_assert( b.channel_size() == l.size(), "channels" ); for ( size_t i = 0; i < l.size(); ++i ) vp_assert( b.find_channel( l[ i ] ) == i && vp_same( b.get_label( i ), l[ i ] ), "labels" );
	std::vector< std::vector< val > > h; fill( b, n, l.size(), h );
	for ( size_t f = n > cap ? n - cap : 0; f < n; ++f ) for ( size_t i = 0; i < l.size(); ++i ) vp_assert( b.at( f, i ) == h[ f ][ i ], "recent frames keep their values" );
	size_t c2 = 1 + vp_choice( 3 ); val z2 = vp_i64( "z" ); b.resize_buffer( c2, z2 ); for ( size_t f = 0; f < c2; ++f ) for ( size_t i = 0; i < l.size(); ++i ) vp_assert( b( f, i ) == z2, "resizing resets the contents" ); vp_assert( b.channel_size() == l.size(), "resizing keeps the channels" ); val z = vp_i64( "z" ); if ( !l.empty() ) { b.resize_buffer( c2, l.size() + 1, z ); for ( size_t f = 0; f < c2; ++f ) for ( size_t i = 0; i <= l.size(); ++i ) vp_assert( b( f, i ) == z, "resizing resets the contents" ); }
	vp_reach( "end" );
}
VP_ENTRY( interpolate )
{
	size_t cap = 2 + vp_choice( vp_param( 0 ) ), n = vp_choice( vp_param( 1 ) + 1 ); circular_frame_buffer< double, string > b( 1, cap ); std::vector< double > h;
	for ( size_t f = 0; f < n; ++f ) { b.add_frame(); double v = vp_real( -1000, 1000, "v" ); h.push_back( v ); b[ index_t( 0 ) ] = v; }
	size_t f = vp_choice( (unsigned)n + 2 ); double p = vp_real( 0, 1, "p" ), r = 0; bool ok = f + 1 < n && f + cap >= n; bool t = rejected( [&]() { r = b.get_interpolated_value( f, 0, p ); } );
	vp_assert( t == !ok, "interpolation is possible exactly between two recent frames" ); if ( ok ) vp_assert( vp_near( r, h[ f ] + p * ( h[ f + 1 ] - h[ f ] ) ), "interpolation is linear between the two frames" ); vp_reach( ok ? "value" : "rejected" );
}
//@ entry=ring_large quick=70,300,12 thorough=70,300,12 jobs=2
//@ bounds: buffers of 70 frames and 12 channels after 300 added frames
VP_ENTRY( ring_large )
{
	size_t cap = vp_param( 0 ), n = vp_param( 1 ) - vp_choice( 3 ) * 28, c = vp_param( 2 ); buf b( c, cap ); const buf& k = b; std::vector< std::vector< val > > h; fill( b, n, c, h ); for ( size_t f = n > cap ? n - cap : 0; f < n; ++f ) for ( size_t i = 0; i < c; ++i ) { val v = h[ f ][ i ]; vp_assert( b( f, i ) == v && k.at( f, i ) == v && b.at( f, i ) == v, "a recent frame gives the value written in it" ); vp_assert( b.reverse( n - 1 - f, i ) == v && k.reverse( n - 1 - f, i ) == v, "access relative to the latest frame" ); } for ( size_t i = 0; i < c; ++i ) vp_assert( b[ i ] == h[ n - 1 ][ i ] && k[ i ] == h[ n - 1 ][ i ], "access to the latest frame" ); uint64_t f = vp_u64( "f" ); vp_assume( f < ( uint64_t( 1 ) << 62 ) ); bool t = rejected( [&]() { (void)k.at( f, c - 1 ); } ); vp_assert( t == !( f < n && f + cap >= n ), "checked access succeeds exactly for recent frames" ); vp_reach( n > cap ? "wrapped" : "partial" );
}
//@ entry=interleaved quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 (5) finds, additions, renames, frames and writes of two channels on two buffers of 2 frames
VP_ENTRY( interleaved )
{
	string n[ 2 ] = { vp_str( 1, "n" ) + "a", "b" }; buf b[ 2 ] = { buf( 0, 2 ), buf( 0, 2 ) }; std::vector< string > l[ 2 ]; std::vector< val > d[ 2 ]; bool open[ 2 ] = { false, false }; auto at = []( const std::vector< string >& v, const string& q ) { size_t p = 0; while ( p < v.size() && !( v[ p ] == q ) ) ++p; return p; }; auto look = [&]( int w, const string& q ) { size_t p = at( l[ w ], q ); vp_assert( b[ w ].find_channel( q ) == ( p < l[ w ].size() ? p : no_index ), "finding a channel" ); };
	for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 2 ), op = vp_choice( 4 ); const string& q = n[ vp_choice( 2 ) ]; size_t p = at( l[ w ], q ); bool in = p < l[ w ].size(); if ( op == 0 ) look( w, q ); else if ( op == 1 ) { if ( !open[ w ] ) { vp_assert( b[ w ].find_or_add_channel( q ) == p, "find or add" ); if ( !in ) { l[ w ].push_back( q ); d[ w ].push_back( 0 ); } } } else if ( op == 2 ) { if ( !in && !l[ w ].empty() ) { b[ w ].set_label( 0, q ); l[ w ][ 0 ] = q; } } else if ( !l[ w ].empty() ) { b[ w ].add_frame(); open[ w ] = true; for ( size_t k = 0; k < l[ w ].size(); ++k ) { d[ w ][ k ] = vp_i64( "v" ); b[ w ][ k ] = d[ w ][ k ]; } } }
	for ( int w = 0; w < 2; ++w ) { for ( auto& q : n ) look( w, q ); if ( open[ w ] ) for ( size_t k = 0; k < l[ w ].size(); ++k ) vp_assert( b[ w ][ k ] == d[ w ][ k ], "every buffer keeps its own values" ); } vp_reach( "interleaved" );
}
