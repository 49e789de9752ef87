// C45: debug output
//@ entry=columns quick=4 thorough=6 jobs=8
//@ entry=sequence quick=12 thorough=40
//@ entry=nothing quick=1 thorough=1
//@ entry=function quick=4 thorough=9
//@ bounds: all sequences of 4 (thorough 6) values under any labels of 0 or 1 bytes; 12 (40) rounds of 3 labels; functions sampled at 2..5 (10) points of given ranges
//@ assume: values are not the reserved value (lowest float); numbers are printed by the C++ library
#include "oracle.h"
#include <iomanip>
#include "flut/system/debug_storage.hpp"
#include "flut/debug_tools.hpp"
using namespace flut;
static std::vector< std::vector< std::string > > read( const char* n )
{
	std::string s; vp_assert( vp_file_read( n, s ), "the output file is written at the end" ); std::vector< std::vector< std::string > > r; std::vector< std::string > row; std::string c; for ( char ch : s ) { if ( ch == '\t' || ch == '\n' ) { row.push_back( c ); c.clear(); if ( ch == '\n' ) { r.push_back( row ); row.clear(); } } else c += ch; } vp_assert( c.empty() && row.empty(), "lines are complete" ); return r;
}
static const char* LABEL[] = { "a", "speed.x", "b c" };
static std::string text( float v ) { std::ostringstream s; s << v; return s.str(); }
struct expect
{
	std::vector< std::string > cols; std::vector< std::vector< int > > rows; // value index per column, -1 if missing
	void write( const std::string& l, int v ) { size_t c = 0; while ( c < cols.size() && !vp_same( cols[ c ], l ) ) ++c; if ( c == cols.size() ) { cols.push_back( l ); for ( auto& r : rows ) r.push_back( -1 ); } if ( rows.empty() || rows.back()[ c ] >= 0 ) rows.push_back( std::vector< int >( cols.size(), -1 ) ); rows.back()[ c ] = v; }
	void check( const char* file, float( *val )( int ) ) const
	{
		auto f = read( file ); vp_assert( f.size() == rows.size() + 1, "one line per frame after the labels" ); vp_assert( f[ 0 ].size() == cols.size(), "one column per label" ); for ( size_t c = 0; c < cols.size(); ++c ) vp_assert( vp_same( f[ 0 ][ c ], cols[ c ] ), "labels in order of first use" );
		for ( size_t r = 0; r < rows.size(); ++r ) { vp_assert( f[ r + 1 ].size() == cols.size(), "every line has a value for every label" ); for ( size_t c = 0; c < cols.size(); ++c ) if ( rows[ r ][ c ] >= 0 ) vp_assert( f[ r + 1 ][ c ] == text( val( rows[ r ][ c ] ) ), "every value is in its column and frame" ); }
	}
};
static std::string any_label() { std::string s = vp_str( vp_choice( 2 ), "l" ); for ( char c : s ) vp_assume( !vp_in_set( c, "\t\n\r", 3 ) ); return s; }
static float value( int k ) { return k * 1.5f - 2; }
VP_ENTRY( columns ) { if ( vp_choice( 2 ) ) set_debug_output( path( "out.txt" ) ); else { set_debug_output( path( "wrong.txt" ) ); set_debug_output( path( "out.txt" ) ); } expect e; int n = 1 + (int)vp_choice( (unsigned)vp_param( 0 ) ); for ( int k = 0; k < n; ++k ) { std::string l = any_label(); write_debug( l, value( k ) ); e.write( l, k ); } vp_run_atexit(); e.check( "out.txt", value ); vp_assert( vp_fs_kind( "wrong.txt" ) < 0 && vp_fs_kind( "debug.txt" ) < 0, "no other file is written" ); vp_reach( "end" ); }
VP_ENTRY( sequence ) { bool named = vp_choice( 2 ) != 0; if ( named ) set_debug_output( path( "out.txt" ) ); expect e; int k = 0; for ( long i = 0; i < vp_param( 0 ); ++i ) for ( int l = 0; l < 3; ++l ) if ( ( i * 3 + l ) % 5 != 2 ) { write_debug( LABEL[ l ], value( k ) ); e.write( LABEL[ l ], k++ ); } vp_run_atexit(); e.check( named ? "out.txt" : "debug.txt", value ); vp_reach( "end" ); }
VP_ENTRY( nothing ) { set_debug_output( path( "out.txt" ) ); vp_run_atexit(); vp_assert( vp_fs_kind( "out.txt" ) < 0 && vp_fs_kind( "debug.txt" ) < 0, "without values no file is written" ); vp_reach( "end" ); }
static double twice( double x ) { return 2 * x + 1; }
VP_ENTRY( function )
{
	int n = 2 + (int)vp_choice( (unsigned)vp_param( 0 ) ); double lo = vp_choice( 2 ) ? -1 : 0, w = vp_choice( 2 ) ? 3 : 0.5; output_function( path( "f.txt" ), lo, lo + w, &twice, n ); auto f = read( "f.txt" ); vp_assert( (int)f.size() == n, "one line per sample" ); for ( int i = 0; i < n; ++i ) { vp_assert( f[ i ].size() == 2, "argument and value" ); double x = std::stod( f[ i ][ 0 ] ), y = std::stod( f[ i ][ 1 ] ), q = lo + w * i / ( n - 1 ); auto near = []( double a, double b ) { double d = a - b; return d < 1e-5 && d > -1e-5; }; vp_assert( near( x, q ), "equally spaced arguments" ); vp_assert( near( y, twice( q ) ), "the value of the function" ); } vp_reach( "end" );
}

//@ entry=special quick=3 thorough=4
//@ bounds: sequences of 3 (4) special values (zero of both signs, infinities, NaN, the largest and smallest floats but the reserved one) under 2 labels
static float special_value( int k ) { static const float S[] = { 0.0f, -0.0f, std::numeric_limits< float >::infinity(), -std::numeric_limits< float >::infinity(), std::numeric_limits< float >::quiet_NaN(), std::numeric_limits< float >::max(), std::numeric_limits< float >::min(), -3.402823e+38f, 1e-45f }; return S[ k ]; }
VP_ENTRY( special ) { set_debug_output( path( "out.txt" ) ); expect e; for ( long i = 0; i < vp_param( 0 ); ++i ) { int k = (int)vp_choice( 9 ); const char* l = LABEL[ vp_choice( 2 ) ]; write_debug( l, special_value( k ) ); e.write( l, k ); } vp_run_atexit(); e.check( "out.txt", special_value ); vp_reach( "end" ); }
