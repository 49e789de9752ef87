// C17: frame storage and table keep every cell value under growth
//@ entry=storage_history quick=4 thorough=5 jobs=8
//@ entry=storage_resize quick=3,3 thorough=4,4 jobs=4
//@ entry=storage_labels quick=4 thorough=5 jobs=4
//@ entry=table_history quick=4 thorough=5 jobs=8
//@ entry=table_labels quick=4 thorough=5 jobs=4
//@ entry=written quick=2 thorough=3 jobs=2
//@ bounds: every history of 4 (thorough 5) operations (add frame, add channel with default or with data, resize, write, clear) on storages that start with 0..2 frames and 0..2 channels; every resize between sizes 0..3 (4) squared; every history of 4 (5) operations on tables; 4 (5) label operations with labels of one arbitrary byte; arbitrary 64-bit cell values and indices
#include "oracle.h"
#include <iomanip>
#include "flut/string_tools.hpp"
#include "flut/container_tools.hpp"
#include "flut/storage.hpp"
#include "flut/table.hpp"
using namespace flut;
typedef int64_t val;
template< typename F > static bool rejected( F f ) { try { f(); return false; } catch ( std::exception& ) { return true; } }
struct grid {
	size_t r = 0, c = 0; std::vector< std::vector< val > > d;
	void grow( size_t nr, size_t nc, val v ) { d.resize( nr ); for ( auto& x : d ) x.resize( nc, v ); r = nr; c = nc; }
};
typedef storage< val, string > sto;
static void check( sto& s, const grid& g )
{
	const sto& k = s;
	vp_assert( s.frame_size() == g.r && s.channel_size() == g.c, "number of frames and channels" );
	vp_assert( s.data().size() == g.r * g.c && s.empty() == ( g.r * g.c == 0 ), "number of cells" );
	vp_assert( s.labels().size() == g.c, "one label per channel" );
	int ok = 1, ok2 = 1; for ( size_t f = 0; f < g.r; ++f ) for ( size_t c = 0; c < g.c; ++c ) { ok &= ( s( f, c ) == g.d[ f ][ c ] ) & ( k( f, c ) == g.d[ f ][ c ] ); ok2 &= ( s.at( f, c ) == g.d[ f ][ c ] ) & ( k.at( f, c ) == g.d[ f ][ c ] ); }
	vp_assert( ok, "every cell reads back the value last written or its default" ); vp_assert( ok2, "checked access refers to the same cells" );
	if ( g.r * g.c > 0 ) for ( size_t c = 0; c < g.c; ++c ) vp_assert( s[ c ] == g.d[ g.r - 1 ][ c ] && k[ c ] == g.d[ g.r - 1 ][ c ], "channel access refers to the latest frame" );
}
static string name( size_t i ) { return string( 1, char( 'a' + i ) ); }
static void step( sto& s, grid& g, size_t& names )
{
	unsigned op = vp_choice( 7 );
	if ( op == 0 ) { val v = vp_i64( "v" ); s.add_frame( v ); g.grow( g.r + 1, g.c, v ); }
	else if ( op == 1 ) { std::vector< val > d; for ( size_t i = 0; i < g.c; ++i ) d.push_back( vp_i64( "d" ) ); s.add_frame( d ); g.grow( g.r + 1, g.c, 0 ); g.d.back() = d; d.push_back( 1 ); vp_assert( rejected( [&]() { s.add_frame( d ); } ), "a frame of the wrong size is rejected" ); }
	else if ( op == 2 ) { val v = vp_i64( "v" ); size_t i = s.add_channel( name( names++ ), v ); vp_assert( i == g.c, "add_channel returns the new channel" ); g.grow( g.r, g.c + 1, v ); }
	else if ( op == 3 ) { size_t n = vp_choice( (unsigned)g.r + 2 ); std::vector< val > d; for ( size_t i = 0; i < n; ++i ) d.push_back( vp_i64( "d" ) ); size_t i = s.add_channel( name( names++ ), d ); vp_assert( i == g.c, "add_channel returns the new channel" ); g.grow( std::max( g.r, n ), g.c + 1, 0 ); for ( size_t k = 0; k < n; ++k ) g.d[ k ][ g.c - 1 ] = d[ k ]; }
	else if ( op == 4 ) { size_t r = g.r + vp_choice( 2 ), c = g.c + vp_choice( 2 ); val v = vp_i64( "v" ); s.resize( r, c, v ); g.grow( r, c, v ); }
	else if ( op == 5 ) { if ( g.r * g.c == 0 ) return; size_t r = vp_choice( (unsigned)g.r ), c = vp_choice( (unsigned)g.c ); val v = vp_i64( "w" ); s( r, c ) = v; g.d[ r ][ c ] = v; }
	else { s.clear(); g = grid(); names = 0; }
}
VP_ENTRY( storage_history )
{
	size_t r = vp_choice( 3 ), c = vp_choice( 3 ), names = 0; val v = vp_i64( "v" ); sto s( r, c, v ); grid g; g.grow( r, c, v );
	for ( size_t i = 0; i < r; ++i ) for ( size_t k = 0; k < c; ++k ) { val w = vp_i64( "w" ); s.at( i, k ) = w; g.d[ i ][ k ] = w; }
	for ( int i = 0; i < vp_param( 0 ); ++i ) step( s, g, names );
	check( s, g ); vp_reach( "end" );
}
VP_ENTRY( storage_resize )
{
	size_t n = vp_param( 0 ) + 1, m = vp_param( 1 ) + 1, r = vp_choice( n ), c = vp_choice( n ), r2 = vp_choice( m ), c2 = vp_choice( m ); val v = vp_i64( "v" ), w = vp_i64( "w" ); sto s( r, c, v ); grid g; g.grow( r, c, v );
	for ( size_t i = 0; i < r; ++i ) for ( size_t k = 0; k < c; ++k ) { val x = vp_i64( "w" ); s( i, k ) = x; g.d[ i ][ k ] = x; }
	bool t = rejected( [&]() { s.resize( r2, c2, w ); } ); vp_assert( t == ( r2 < r || c2 < c ), "resizing is rejected exactly when it shrinks" ); if ( !t ) g.grow( r2, c2, w ); check( s, g );
	uint64_t a = vp_u64( "a" ), b = vp_u64( "b" ); val x = 0; bool u = rejected( [&]() { x = s.at( a, b ); } ); vp_assert( u == !( a < g.r && b < g.c ), "checked access is rejected exactly outside" );
	vp_reach( t ? "shrink" : "grow" ); vp_reach( u ? "outside" : "inside" );
}
VP_ENTRY( storage_labels )
{
	size_t r = vp_choice( 3 ); sto s( r, 0 ); grid g; g.grow( r, 0, 0 ); std::vector< string > l;
	for ( int i = 0; i < vp_param( 0 ); ++i )
	{
		string q = vp_str( 1, "l" ); size_t p = 0; while ( p < l.size() && l[ p ] != q ) ++p; bool in = p < l.size(); val v = vp_i64( "v" ); unsigned op = vp_choice( 6 );
		vp_assert( s.find_channel( q ) == ( in ? p : no_index ), "finding a channel" );
		if ( op == 0 ) { bool t = rejected( [&]() { s.add_channel( q, v ); } ); vp_assert( t == in, "adding a present channel is rejected" ); if ( !t ) { l.push_back( q ); g.grow( g.r, g.c + 1, v ); } }
		else if ( op == 1 ) { vp_assert( s.find_or_add_channel( q, v ) == p, "find or add" ); if ( !in ) { l.push_back( q ); g.grow( g.r, g.c + 1, v ); } }
		else if ( op == 2 ) { if ( g.r == 0 ) return; s[ q ] = v; if ( !in ) { l.push_back( q ); g.grow( g.r, g.c + 1, 0 ); } g.d[ g.r - 1 ][ p ] = v; }
		else if ( op == 3 ) { const sto& k = s; val x = 0; bool t = rejected( [&]() { x = k( q ); } ); vp_assert( t == !( in && g.r > 0 ), "const access by label is rejected exactly for a missing label" ); if ( !t ) vp_assert( x == g.d[ g.r - 1 ][ p ], "access by label gives the cell of the latest frame" ); }
		else if ( op == 5 ) { std::vector< val > d( vp_choice( (unsigned)g.r + 2 ), v ); bool t = rejected( [&]() { s.add_channel( q, d ); } ); vp_assert( t == in, "adding a present channel with data is rejected" ); if ( !t ) { l.push_back( q ); g.grow( std::max( g.r, d.size() ), g.c + 1, 0 ); for ( size_t k = 0; k < d.size(); ++k ) g.d[ k ][ p ] = v; } }
		else { if ( l.empty() ) return; size_t k = vp_choice( (unsigned)l.size() ); bool t = rejected( [&]() { s.set_label( k, q ); } ); vp_assert( t == in, "renaming to a present label is rejected" ); if ( !t ) l[ k ] = q; }
	}
	check( s, g ); for ( size_t i = 0; i < l.size(); ++i ) vp_assert( vp_same( s.get_label( i ), l[ i ] ) && s.find_channel( l[ i ] ) == i, "labels" ); vp_reach( "end" );
}
typedef table< val, string > tab;
static void check( tab& t, const grid& g )
{
	const tab& k = t; vp_assert( t.row_size() == g.r && t.column_size() == g.c, "number of rows and columns" );
	int ok = 1; for ( size_t f = 0; f < g.r; ++f ) for ( size_t c = 0; c < g.c; ++c ) ok &= ( t( f, c ) == g.d[ f ][ c ] ) & ( k( f, c ) == g.d[ f ][ c ] );
	vp_assert( ok, "every table cell reads back the value last written or its default" );
}
VP_ENTRY( table_history )
{
	size_t r = vp_choice( 3 ), c = vp_choice( 3 ), rn = 0, cn = 0; tab s( r, c ); grid g; g.grow( r, c, 0 );
	for ( size_t i = 0; i < r; ++i ) for ( size_t k = 0; k < c; ++k ) { val w = vp_i64( "w" ); s( i, k ) = w; g.d[ i ][ k ] = w; }
	for ( int i = 0; i < vp_param( 0 ); ++i )
	{
		unsigned op = vp_choice( 4 ); val v = vp_i64( "v" );
		if ( op == 0 ) { vp_assert( s.add_row( name( rn++ ), v ) == g.r, "add_row returns the new row" ); g.grow( g.r + 1, g.c, v ); }
		else if ( op == 1 ) { vp_assert( s.add_column( name( cn++ ), v ) == g.c, "add_column returns the new column" ); g.grow( g.r, g.c + 1, v ); }
		else if ( op == 2 ) { size_t nr = g.r + vp_choice( 2 ), nc = g.c + vp_choice( 2 ); s.resize( nr, nc ); g.grow( nr, nc, 0 ); if ( nr > 0 ) vp_assert( rejected( [&]() { s.resize( nr - 1, nc ); } ), "shrinking is rejected" ); }
		else { if ( g.r * g.c == 0 ) return; size_t a = vp_choice( (unsigned)g.r ), b = vp_choice( (unsigned)g.c ); s( a, b ) = v; g.d[ a ][ b ] = v; }
	}
	check( s, g ); uint64_t a = vp_u64( "a" ), b = vp_u64( "b" ); val x = 0; bool u = rejected( [&]() { x = s( a, b ); } ); vp_assert( u == !( a < g.r && b < g.c ), "access is rejected exactly outside" ); vp_reach( "end" );
}
static size_t pos( const std::vector< string >& l, const string& q ) { size_t p = 0; while ( p < l.size() && l[ p ] != q ) ++p; return p; }
VP_ENTRY( table_labels )
{
	tab s; grid g; std::vector< string > rl, cl;
	for ( int i = 0; i < vp_param( 0 ); ++i )
	{
		unsigned op = vp_choice( 5 ); val v = vp_i64( "v" ); string q = vp_str( 1, "l" );
		if ( op == 0 ) { size_t p = pos( rl, q ); bool t = rejected( [&]() { s.add_row( q, v ); } ); vp_assert( t == ( p < rl.size() ), "adding a present row is rejected" ); if ( !t ) { rl.push_back( q ); g.grow( g.r + 1, g.c, v ); } }
		else if ( op == 1 ) { size_t p = pos( cl, q ); bool t = rejected( [&]() { s.add_column( q, v ); } ); vp_assert( t == ( p < cl.size() ), "adding a present column is rejected" ); if ( !t ) { cl.push_back( q ); g.grow( g.r, g.c + 1, v ); } }
		else if ( op == 2 ) { string q2 = vp_str( 1, "m" ); size_t p = pos( rl, q ), p2 = pos( cl, q2 ); s( q, q2 ) = v; if ( p == rl.size() ) { rl.push_back( q ); g.grow( g.r + 1, g.c, 0 ); } if ( p2 == cl.size() ) { cl.push_back( q2 ); g.grow( g.r, g.c + 1, 0 ); } g.d[ p ][ p2 ] = v; }
		else if ( op == 3 ) { string q2 = vp_str( 1, "m" ); const tab& k = s; size_t p = pos( rl, q ), p2 = pos( cl, q2 ); val x = 0; bool t = rejected( [&]() { x = k( q, q2 ); } ); vp_assert( t == !( p < rl.size() && p2 < cl.size() ), "const access by label is rejected exactly for missing labels" ); if ( !t ) vp_assert( x == g.d[ p ][ p2 ], "access by label gives the cell" ); }
		else { size_t p = pos( rl, q ); vp_assert( s.get_or_add_row( q, v ) == p, "get or add row" ); if ( p == rl.size() ) { rl.push_back( q ); g.grow( g.r + 1, g.c, v ); } string q2 = vp_str( 1, "m" ); size_t p2 = pos( cl, q2 ); vp_assert( s.get_or_add_column( q2, v ) == p2, "get or add column" ); if ( p2 == cl.size() ) { cl.push_back( q2 ); g.grow( g.r, g.c + 1, v ); } }
	}
	check( s, g ); for ( size_t i = 0; i < rl.size(); ++i ) vp_assert( s.row_labels().find( rl[ i ] ) == i && vp_same( s.row_labels()[ i ], rl[ i ] ), "row labels" ); for ( size_t i = 0; i < cl.size(); ++i ) vp_assert( s.col_labels().find( cl[ i ] ) == i && vp_same( s.col_labels()[ i ], cl[ i ] ), "column labels" ); vp_reach( "end" );
}
// text output lists labels and cells in order
VP_ENTRY( written )
{
	int n = 1 + (int)vp_choice( vp_param( 0 ) ); storage< int, string > s; table< int > t; string es, et = "Row"; std::vector< int > v;
	for ( int i = 0; i < n; ++i ) { string l = vp_str( 1, "l" ); vp_assume( s.find_channel( l ) == no_index ); s.add_channel( l ); t.add_column( l ); es += l + ( i + 1 < n ? "\t" : "\n" ); et += "\t" + l; }
	et += "\n"; for ( int f = 0, frames = (int)vp_choice( 3 ); f < frames; ++f ) { s.add_frame(); t.add_row( name( f ) ); et += name( f ); for ( int i = 0; i < n; ++i ) { int x = vp_range( 0, 9, "x" ); s[ i ] = x; t( f, i ) = x; es += string( 1, char( '0' + x ) ) + ( i + 1 < n ? "\t" : "\n" ); et += "\t" + string( 1, char( '0' + x ) ); } et += "\n"; }
	std::ostringstream o, p; o << s; p << t; vp_assert( vp_same( o.str(), es ), "storage text" ); vp_assert( vp_same( p.str(), et ), "table text" ); vp_reach( "end" );
}
//@ entry=storage_large quick=70,20 thorough=130,20
//@ entry=table_large quick=70,20 thorough=130,20
//@ entry=interpolated quick=4,2 thorough=6,3 real
//@ entry=bundles quick=1 thorough=1
//@ bounds: storages and tables grown to 70 x 20 (thorough 130 x 20) cells of arbitrary values in several ways, with arbitrary late writes; interpolation in storages of up to 4 (6) frames and 2 (3) channels at any real position; vectors and rotations written as channels
VP_ENTRY( storage_large )
{
	size_t R = vp_param( 0 ), C = vp_param( 1 ), names = 0; unsigned how = vp_choice( 3 ); sto s; grid g; auto cell = [&]() { for ( size_t i = 0; i < g.r; ++i ) for ( size_t k = 0; k < g.c; ++k ) { val w = ( i * k ) % 7 ? val( i * 1000 + k ) : vp_i64( "w" ); s( i, k ) = w; g.d[ i ][ k ] = w; } };
	val v = vp_i64( "v" ); if ( how == 0 ) { for ( size_t k = 0; k < C; ++k ) { s.add_channel( "c" + std::to_string( names++ ), v ); g.grow( g.r, g.c + 1, v ); } for ( size_t i = 0; i < R; ++i ) { s.add_frame( v + (val)i ); g.grow( g.r + 1, g.c, v + (val)i ); } } else if ( how == 1 ) { for ( size_t i = 0; i < R; ++i ) { s.add_frame( v ); g.grow( g.r + 1, g.c, v ); } for ( size_t k = 0; k < C; ++k ) { s.add_channel( "c" + std::to_string( names++ ), v + (val)k ); g.grow( g.r, g.c + 1, v + (val)k ); if ( k == C / 2 ) cell(); } } else { s.resize( R / 2, C / 2, v ); g.grow( R / 2, C / 2, v ); cell(); s.resize( R, C, v + 1 ); g.grow( R, C, v + 1 ); }
	check( s, g ); cell(); check( s, g ); std::vector< val > d; for ( size_t i = 0; i < R + 5; ++i ) d.push_back( i % 6 ? (val)i : vp_i64( "d" ) ); s.add_channel( "data", d ); g.grow( R + 5, g.c + 1, 0 ); for ( size_t i = 0; i < R + 5; ++i ) g.d[ i ][ g.c - 1 ] = d[ i ]; s[ "data" ] = v; g.d[ g.r - 1 ][ g.c - 1 ] = v; check( s, g ); const sto& k = s; vp_assert( k( "data" ) == v, "access by label" ); uint64_t a = vp_u64( "a" ), b = vp_u64( "b" ); bool u = rejected( [&]() { (void)s.at( a, b ); } ); vp_assert( u == !( a < g.r && b < g.c ), "checked access is rejected exactly outside" ); vp_reach( "end" );
}
VP_ENTRY( table_large )
{
	size_t R = vp_param( 0 ), C = vp_param( 1 ); tab t; grid g; val v = vp_i64( "v" ); bool rows = vp_choice( 2 ) != 0; for ( int pass = 0; pass < 2; ++pass ) if ( rows == ( pass == 0 ) ) for ( size_t i = 0; i < R; ++i ) { t.add_row( "r" + std::to_string( i ), v + (val)i ); g.grow( g.r + 1, g.c, v + (val)i ); } else for ( size_t i = 0; i < C; ++i ) { t.add_column( "c" + std::to_string( i ), v - (val)i ); g.grow( g.r, g.c + 1, v - (val)i ); if ( g.r ) { t( 0, i ) = v; g.d[ 0 ][ i ] = v; t( g.r - 1, i ) = 7; g.d[ g.r - 1 ][ i ] = 7; } }
	check( t, g ); val w = vp_i64( "w" ); t( "r" + std::to_string( R - 2 ), "c" + std::to_string( C - 1 ) ) = w; g.d[ R - 2 ][ C - 1 ] = w; t( "new", "c3" ) = w; g.grow( R + 1, C, 0 ); g.d[ R ][ 3 ] = w; check( t, g ); t.resize( R + 10, C + 3 ); g.grow( R + 10, C + 3, 0 ); check( t, g ); vp_assert( t.row_labels().find( "new" ) == R && t.col_labels().find( "c3" ) == 3, "labels" ); vp_reach( "end" );
}
VP_ENTRY( interpolated )
{
	size_t n = 2 + vp_choice( vp_param( 0 ) - 1 ), c = 1 + vp_choice( vp_param( 1 ) ); storage< double, string > s( n, c ); std::vector< std::vector< double > > h( n ); for ( size_t i = 0; i < n; ++i ) for ( size_t k = 0; k < c; ++k ) { h[ i ].push_back( vp_real( -1000, 1000, "v" ) ); s( i, k ) = h[ i ][ k ]; } size_t f = vp_choice( (unsigned)n ), k = vp_choice( (unsigned)c ); double w = vp_real( 0, 1, "w" ); vp_assume( w < 1 ); double r = 0; bool t = rejected( [&]() { r = s.get_interpolated_value( (double)f + w, k ); } ); vp_assert( t == !( f + 1 < n ), "interpolation needs two frames" ); if ( !t ) vp_assert( vp_near( r, h[ f ][ k ] + w * ( h[ f + 1 ][ k ] - h[ f ][ k ] ) ), "interpolation is linear between the frames" ); vp_reach( t ? "outside" : "between" );
}
VP_ENTRY( bundles ) { storage< val, string > s( 1, 0 ); val x = vp_i64(), y = vp_i64(), z = vp_i64(), w = vp_i64(); write_storage( s, string( "v" ), math::vec3_< val >( x, y, z ) ); write_storage( s, string( "q" ), math::quat_< val >( w, x, y, z ) ); const char* l[] = { "v.x", "v.y", "v.z", "q.w", "q.x", "q.y", "q.z" }; val e[] = { x, y, z, w, x, y, z }; vp_assert( s.channel_size() == 7, "channels" ); for ( int i = 0; i < 7; ++i ) vp_assert( s.find_channel( l[ i ] ) == (size_t)i && s( 0, i ) == e[ i ], "components" ); s.add_frame(); write_storage( s, string( "v" ), math::vec3_< val >( z, x, y ) ); vp_assert( s.channel_size() == 7 && s( 1, 0 ) == z && s( 1, 1 ) == x && s( 1, 2 ) == y && s( 0, 0 ) == x, "the latest frame is written" ); vp_reach( "end" ); }
//@ entry=interleaved quick=4 thorough=5 jobs=8
//@ bounds: every sequence of 4 (5) finds, writes by label, renames and clears of two labels on two storages and on two tables (look-ups do not depend on earlier ones)
VP_ENTRY( interleaved )
{
	string n[ 2 ] = { vp_str( 1, "n" ) + "a", "b" }; sto s[ 2 ]; std::vector< string > l[ 2 ]; std::vector< val > d[ 2 ]; for ( auto& x : s ) x.add_frame(); typedef table< val, string > tb; tb t[ 2 ]; std::vector< string > tl[ 2 ]; std::vector< val > td[ 2 ]; bool tables = vp_choice( 2 ) != 0;
	auto at = []( const std::vector< string >& v, const string& q ) { size_t p = 0; while ( p < v.size() && !( v[ p ] == q ) ) ++p; return p; };
	for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 2 ), op = vp_choice( tables ? 2 : 4 ); const string& q = n[ vp_choice( 2 ) ]; val v = vp_i64( "v" ); if ( tables ) { size_t p = at( tl[ w ], q ); if ( op == 0 ) { if ( p < tl[ w ].size() ) vp_assert( static_cast< const tb& >( t[ w ] )( "r", q ) == td[ w ][ p ], "a table cell by label" ); } else { t[ w ]( "r", q ) = v; if ( p == tl[ w ].size() ) { tl[ w ].push_back( q ); td[ w ].push_back( v ); } else td[ w ][ p ] = v; } continue; }
		size_t p = at( l[ w ], q ); bool in = p < l[ w ].size(); if ( op == 0 ) { vp_assert( s[ w ].find_channel( q ) == ( in ? p : no_index ), "finding a channel" ); if ( in ) vp_assert( static_cast< const sto& >( s[ w ] )( q ) == d[ w ][ p ], "a cell by label" ); } else if ( op == 1 ) { s[ w ][ q ] = v; if ( in ) d[ w ][ p ] = v; else { l[ w ].push_back( q ); d[ w ].push_back( v ); } } else if ( op == 2 ) { if ( !in && !l[ w ].empty() ) { s[ w ].set_label( 0, q ); l[ w ][ 0 ] = q; } } else { s[ w ].clear(); s[ w ].add_frame(); l[ w ].clear(); d[ w ].clear(); } }
	for ( int w = 0; w < 2; ++w ) for ( auto& q : n ) { if ( tables ) { size_t p = at( tl[ w ], q ); if ( p < tl[ w ].size() ) vp_assert( static_cast< const tb& >( t[ w ] )( "r", q ) == td[ w ][ p ], "a table cell by label" ); } else { size_t p = at( l[ w ], q ); vp_assert( s[ w ].find_channel( q ) == ( p < l[ w ].size() ? p : no_index ), "finding a channel" ); if ( p < l[ w ].size() ) vp_assert( s[ w ][ q ] == d[ w ][ p ], "a cell by label" ); } } vp_reach( "interleaved" );
}
//@ entry=own_cells quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 (5) additions of frames, channels, rows and columns whose default or label is a cell or label of the storage or table itself, and copies
VP_ENTRY( own_cells )
{
	sto s; grid g; s.add_channel( "a" ); g.grow( 0, 1, 0 ); val f = vp_i64( "f" ); s.add_frame( f ); g.grow( 1, 1, f ); table< val, string > t; grid h; t.add_row( "r0" ); t.add_column( "c0", f ); h.grow( 1, 1, f ); bool tab_ = vp_choice( 2 ) != 0; size_t names = 1;
	for ( long i = vp_param( 0 ); i > 0; --i ) { string nm = string( 1, char( 'b' + names ) ) + " with a long label text"; ++names; unsigned op = vp_choice( 4 ); if ( tab_ ) { val v = h.d[ h.r - 1 ][ h.c - 1 ]; if ( op == 0 ) { t.add_row( nm, t( h.r - 1, h.c - 1 ) ); h.grow( h.r + 1, h.c, v ); } else if ( op == 1 ) { t.add_column( nm, t( h.r - 1, h.c - 1 ) ); h.grow( h.r, h.c + 1, v ); } else if ( op == 2 ) { vp_assert( t.get_or_add_row( t.row_labels()[ h.r - 1 ], t( 0, 0 ) ) == h.r - 1, "an own row label" ); } else { val w = vp_i64( "w" ); t( h.r - 1, 0 ) = w; h.d[ h.r - 1 ][ 0 ] = w; } continue; }
		val v = g.d[ g.r - 1 ][ g.c - 1 ]; if ( op == 0 ) { s.add_frame( s( g.r - 1, g.c - 1 ) ); g.grow( g.r + 1, g.c, v ); } else if ( op == 1 ) { s.add_channel( nm, s( g.r - 1, g.c - 1 ) ); g.grow( g.r, g.c + 1, v ); } else if ( op == 2 ) vp_assert( s.find_or_add_channel( s.get_label( g.c - 1 ), s( 0, 0 ) ) == g.c - 1, "an own label" ); else { std::vector< val > d; for ( size_t c = 0; c < g.c; ++c ) d.push_back( g.d[ 0 ][ c ] ); s.add_frame( d ); g.grow( g.r + 1, g.c, 0 ); g.d.back() = d; } }
	if ( tab_ ) { vp_assert( t.row_size() == h.r && t.column_size() == h.c, "table size" ); int ok = 1; for ( size_t r = 0; r < h.r; ++r ) for ( size_t c = 0; c < h.c; ++c ) ok &= t( r, c ) == h.d[ r ][ c ]; vp_assert( ok, "table cells" ); } else { check( s, g ); sto c( s ); c.add_channel( "zz" ); c.add_frame( 1 ); const sto& k = s; s = k; check( s, g ); } vp_reach( "own" );
}
