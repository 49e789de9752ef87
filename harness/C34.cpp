// C34: timers, stopwatch, profiler
//@ entry=timer_units quick=1 thorough=1
//@ entry=timer_seconds quick=1 thorough=1
//@ entry=timer_clock quick=3 thorough=5
//@ entry=watch quick=4 thorough=5 jobs=8
//@ entry=sections quick=7 thorough=9 jobs=8
//@ entry=sections_clock quick=6 thorough=8 jobs=8
//@ entry=profile_report quick=5 thorough=6 jobs=8
//@ bounds: elapsed times up to 2^50 ns (any value for the integer units; 9 values from 0 to 1000 h for seconds, minutes and hours); any clock advance at every reading (16 bits); stopwatch histories of 4 measures (thorough 5) of 2 names with 0..2 steps of 125 ms in between; profiler histories of 7 section starts and ends (thorough 9; 6 and 8 with an arbitrary clock) of 3 names with any advance in between; reports with 0..2 ms steps for histories of 5 (thorough 6)
#include "oracle.h"
#include "flut/timer.hpp"
#include "flut/stopwatch.hpp"
#include "flut/system/profiler.hpp"
#include "flut/system/assert.hpp"
using namespace flut;
static int64_t any_time( const char* n ) { uint64_t d = vp_u64( n ); vp_assume( d < ( (uint64_t)1 << 50 ) ); return (int64_t)d; }
//@ entry=timer_long quick=1 thorough=1
VP_ENTRY( timer_long ) { static const int64_t D[] = { 3, 30, 300, 3650 }; int64_t d = D[ vp_choice( 4 ) ] * 86400; vp_clock_freeze( 1 ); timer t; vp_clock_advance( d * 1000000000 ); vp_assert( t.milliseconds() == d * 1000 && t.microseconds() == d * 1000000 && t.nanoseconds() == d * 1000000000 && t.ticks() > 0, "long times in integer units" ); vp_assert( t.seconds() == (double)d && t.hours() == d / 3600.0, "long times in seconds and hours" ); vp_reach( "end" ); }
VP_ENTRY( timer_units )
{
	vp_clock_freeze( 1 ); timer t; vp_assert( t.nanoseconds() == 0 && t.ticks() == 0, "a new timer starts at zero" ); int64_t d = any_time( "d" ); vp_clock_advance( d ); vp_assert( t.nanoseconds() == d, "nanoseconds" ); vp_assert( t.microseconds() == d / 1000, "microseconds" ); vp_assert( t.milliseconds() == d / 1000000, "milliseconds" ); vp_assert( t.nanoseconds() == d, "reading does not change the time" ); t.reset(); vp_assert( t.nanoseconds() == 0 && t.seconds() == 0 && t.milliseconds() == 0, "reset" ); int64_t e = any_time( "e" ); vp_clock_advance( e ); vp_assert( t.nanoseconds() == e, "since the reset" ); vp_reach( "end" );
}
VP_ENTRY( timer_seconds )
{
	static const int64_t N[] = { 0, 1, 1500000000, 60000000000, 90000000000, 3600000000000, 5400000000000, 3600000000000000, 999999999 }; vp_clock_freeze( 1 ); timer t; int64_t d = N[ vp_choice( 9 ) ]; vp_clock_advance( d ); double s = d * 1e-9; auto near = []( double a, double b ) { double e = a - b; if ( e < 0 ) e = -e; return e <= 1e-9 * ( b + 1e-9 ) ; }; vp_assert( near( t.seconds(), s ), "seconds" ); vp_assert( near( t.minutes(), s / 60 ), "minutes" ); vp_assert( near( t.hours(), s / 3600 ), "hours" ); vp_reach( "end" );
}
VP_ENTRY( timer_clock )
{
	vp_clock_freeze( 0 ); int64_t a0 = vp_clock_value(); timer t; int64_t a1 = vp_clock_value(); int64_t last = 0; for ( long k = vp_param( 0 ); k > 0; --k ) { int64_t b0 = vp_clock_value(), r = 0; if ( vp_choice( 2 ) ) { a0 = b0; t.reset(); a1 = vp_clock_value(); last = 0; continue; } r = vp_choice( 2 ) ? t.nanoseconds() : t.ticks(); int64_t b1 = vp_clock_value(); vp_assert( vp_and( r >= 0, vp_and( r <= b1 - a0, r >= b0 - a1 ) ), "a reading lies between the instants before and after it" ); vp_assert( r >= last, "time does not go back" ); last = r; vp_reach( "read" ); }
}
VP_ENTRY( watch )
{
	vp_clock_freeze( 1 ); stopwatch w; auto wait = [] { int64_t d = (int64_t)vp_conc( (uint64_t)vp_range( 0, 2, "wait" ) ); vp_clock_advance( d * 125000000 ); return d; }; if ( vp_choice( 2 ) ) { wait(); w.start_first_measure(); vp_reach( "restarted" ); }
	static const char* N[] = { "a", "b" }; int64_t sum[ 2 ] = { 0, 0 }; int first = -1; bool used[ 2 ] = { false, false }; int64_t all = 0; for ( long k = vp_param( 0 ); k > 0; --k ) { int64_t d = wait(); int i = (int)vp_choice( 2 ); w.add_measure( N[ i ] ); sum[ i ] += d; all += d; if ( first < 0 ) first = i; used[ i ] = true; }
	prop_node r = w.get_report(); vp_assert( r.size() == 1 + used[ 0 ] + used[ 1 ], "one entry per name and one for the overhead" ); double total = 0; for ( auto& p : r ) total += std::stod( p.second.get_value() ); vp_assert( total > all * .125 - 1e-9 && total < all * .125 + 1e-9, "the measures add up to the time since the start" ); for ( int i = 0; i < 2; ++i ) { auto* c = r.try_get_child( N[ i ] ); vp_assert( ( c != nullptr ) == used[ i ], "every name is reported" ); if ( c ) { double v = std::stod( c->get_value() ); vp_assert( v == sum[ i ] * .125, "equal names are summed" ); } } vp_assert( r.begin()->first == N[ first ], "in order of first use" ); vp_assert( std::stod( r.get_child( "internal" ).get_value() ) == 0, "no time passed inside" ); vp_reach( "end" );
}
// what the profiler has to account for: a tree of sections
struct node { const char* name; int parent; int64_t lo, hi, o0, o1; };
static const char* NAMES[] = { "alpha", "beta", "gamma" };
static int acquire( std::vector< node >& t, const char* n, int parent ) { for ( size_t i = 1; i < t.size(); ++i ) if ( t[ i ].parent == parent && t[ i ].name == n ) return (int)i; t.push_back( { n, parent, 0, 0, 0, 0 } ); return (int)t.size() - 1; }
static int64_t arrive( std::vector< node >& t, int i ) { profiler& p = profiler::instance(); std::vector< int > way; for ( int k = i; k > 0; k = t[ k ].parent ) way.push_back( k ); int64_t r = 0; for ( size_t k = way.size(); k > 0; --k ) r = p.start_section( t[ way[ k - 1 ] ].name )->total_time; for ( size_t k = way.size(); k > 0; --k ) p.end_section(); return r; }
VP_ENTRY( sections )
{
	vp_clock_freeze( 1 ); profiler& p = profiler::instance(); p.reset(); vp_clock_advance( any_time( "d" ) ); p.reset(); std::vector< node > t; t.push_back( { "TOTAL", -1, 0, 0, 0, 0 } ); int cur = 0; std::vector< int64_t > inside( 1 );
	auto step = [&] { int64_t d = any_time( "d" ); vp_clock_advance( d ); for ( auto& x : inside ) x += d; }; auto up = [&] { p.end_section(); t[ cur ].lo += inside.back(); inside.pop_back(); cur = t[ cur ].parent; };
	for ( long k = vp_param( 0 ); k > 0; --k ) { step(); unsigned c = vp_choice( cur > 0 ? 4 : 3 ); if ( c < 3 ) { cur = acquire( t, NAMES[ c ], cur ); auto* s = p.start_section( NAMES[ c ] ); vp_assert( s->name == NAMES[ c ] && s->total_time == t[ cur ].lo, "a section is found again under its parent" ); inside.push_back( 0 ); } else up(); if ( inside.size() > 3 ) vp_reach( "nested" ); }
	step(); while ( cur > 0 ) up(); int64_t top = 0; for ( size_t i = 1; i < t.size(); ++i ) { vp_assert( arrive( t, (int)i ) == t[ i ].lo, "a section has the time spent in it" ); if ( t[ i ].parent == 0 ) top += t[ i ].lo; int64_t ex = t[ i ].lo; for ( auto& c : t ) if ( c.parent == (int)i ) ex -= c.lo; vp_assert( ex >= 0, "exclusive times are not negative" ); } vp_assert( top <= inside[ 0 ], "the sections fit in the total" ); vp_reach( "end" );
}
VP_ENTRY( sections_clock )
{
	vp_clock_freeze( 0 ); profiler& p = profiler::instance(); p.reset(); std::vector< node > t; t.push_back( { "TOTAL", -1, 0, 0, 0, 0 } ); int cur = 0;
	auto up = [&] { int64_t b0 = vp_clock_value(); p.end_section(); int64_t b1 = vp_clock_value(); t[ cur ].lo += b0 - t[ cur ].o1; t[ cur ].hi += b1 - t[ cur ].o0; cur = t[ cur ].parent; };
	for ( long k = vp_param( 0 ); k > 0; --k ) { unsigned c = vp_choice( cur > 0 ? 3 : 2 ); if ( c < 2 ) { cur = acquire( t, NAMES[ c ], cur ); t[ cur ].o0 = vp_clock_value(); auto* s = p.start_section( NAMES[ c ] ); t[ cur ].o1 = vp_clock_value(); vp_assert( s->name == NAMES[ c ] && s->total_time >= t[ cur ].lo && s->total_time <= t[ cur ].hi, "accumulated time" ); } else up(); }
	while ( cur > 0 ) up(); vp_clock_freeze( 1 ); for ( size_t i = 1; i < t.size(); ++i ) { int64_t v = arrive( t, (int)i ); vp_assert( v >= t[ i ].lo && v <= t[ i ].hi, "a section has the time spent in it" ); } vp_reach( "end" );
}
static void verify( const prop_node& pn, std::vector< node >& t, int i, double root )
{
	double ms = 0, rel = 0, ex = 0; std::string v = pn.get_value(); const char* c = v.c_str(); char* e; ms = strtod( c, &e ); vp_assert( e != c && e[ 0 ] == 'm' && e[ 1 ] == 's', "time in ms" ); c = e + 2; rel = strtod( c, &e ); vp_assert( e != c && *e == '%', "relative time" ); c = e + 1; while ( *c == ' ' || *c == '(' ) ++c; ex = strtod( c, &e ); vp_assert( e != c && *e == '%', "exclusive time" );
	int64_t own = t[ i ].lo; size_t n = 0; double last = 1e300; for ( size_t k = 1; k < t.size(); ++k ) if ( t[ k ].parent == i ) { own -= t[ k ].lo; ++n; auto* q = pn.try_get_child( t[ k ].name ); vp_assert( q != nullptr, "every section is reported under its parent" ); if ( q ) verify( *q, t, (int)k, root ); } vp_assert( pn.size() == n, "and only once" );
	auto near = []( double a, double b, double tol ) { double d = a - b; if ( d < 0 ) d = -d; return d <= tol; }; vp_assert( near( ms, (double)t[ i ].lo, .5 ), "reported time" ); vp_assert( near( rel, 100. * t[ i ].lo / root, .006 ), "reported share of the total" ); vp_assert( near( ex, 100. * own / root, .006 ), "reported exclusive share" ); for ( auto& q : pn ) { double w = strtod( q.second.get_value().c_str(), nullptr ); vp_assert( w <= last, "longest first" ); last = w; }
}
VP_ENTRY( profile_report )
{
	vp_clock_freeze( 1 ); profiler& p = profiler::instance(); p.reset(); std::vector< node > t; t.push_back( { "TOTAL", -1, 0, 0, 0, 0 } ); int cur = 0; auto step = [&]( int lo ) { int64_t d = (int64_t)vp_conc( (uint64_t)vp_range( lo, 2, "wait" ) ); vp_clock_advance( d * 1000000 ); for ( int i = cur; i >= 0; i = t[ i ].parent ) t[ i ].lo += d; }; step( 1 );
	for ( long k = vp_param( 0 ); k > 0; --k ) { unsigned c = vp_choice( cur > 0 ? 3 : 2 ); if ( c < 2 ) { cur = acquire( t, NAMES[ c ], cur ); p.start_section( NAMES[ c ] ); step( 0 ); } else { p.end_section(); cur = t[ cur ].parent; } } while ( cur > 0 ) { p.end_section(); cur = t[ cur ].parent; }
	prop_node r = p.report(); vp_assert( r.size() == 1 && r.begin()->first == "TOTAL", "one total" ); verify( r.get_child( "TOTAL" ), t, 0, (double)t[ 0 ].lo ); vp_reach( "end" );
}
//@ entry=watch_long quick=60,20 thorough=60,20
//@ entry=sections_long quick=20,12 thorough=20,12
//@ bounds: stopwatch with 60 measures of 20 names; profiler with 20 sections side by side and 12 deep, visited twice with any advance of the clock
VP_ENTRY( watch_long )
{
	vp_clock_freeze( 1 ); stopwatch w; int n = (int)vp_param( 0 ), m = (int)vp_param( 1 ); std::vector< std::string > names; for ( int i = 0; i < m; ++i ) names.push_back( "measure_" + std::to_string( i ) ); std::vector< int64_t > sum( m ); unsigned skew = vp_choice( 3 ); for ( int k = 0; k < n; ++k ) { int64_t d = ( k * 7 + skew ) % 5; vp_clock_advance( d * 125000000 ); int i = k * 3 % m; w.add_measure( names[ i ] ); sum[ i ] += d; }
	prop_node r = w.get_report(); vp_assert( (int)r.size() == m + 1, "one entry per name and one for the overhead" ); int k = 0; for ( auto& p : r ) { if ( k < m ) { int i = k * 3 % m; vp_assert( p.first == names[ i ], "in order of first use" ); vp_assert( std::stod( p.second.get_value() ) == sum[ i ] * .125, "equal names are summed" ); } ++k; } vp_reach( "end" );
}
VP_ENTRY( sections_long )
{
	vp_clock_freeze( 1 ); profiler& p = profiler::instance(); p.reset(); int n = (int)vp_param( 0 ), m = (int)vp_param( 1 ); static std::vector< std::string > names; names.clear(); for ( int i = 0; i < n + m; ++i ) names.push_back( "section_" + std::to_string( i ) ); std::vector< node > t; t.push_back( { "TOTAL", -1, 0, 0, 0, 0 } ); int cur = 0; auto step = [&] { int64_t d = any_time( "d" ); vp_assume( d < ( (int64_t)1 << 40 ) ); vp_clock_advance( d ); for ( int i = cur; i >= 0; i = t[ i ].parent ) t[ i ].lo += d; };
	auto down = [&]( int i ) { cur = acquire( t, names[ i ].c_str(), cur ); p.start_section( names[ i ].c_str() ); }; auto up = [&] { p.end_section(); cur = t[ cur ].parent; }; for ( int r = 0; r < 2; ++r ) { for ( int i = 0; i < n; ++i ) { down( i ); step(); if ( i % 3 == 0 ) { down( n ); step(); up(); down( i + 1 ); up(); } up(); } for ( int i = 0; i < m; ++i ) { down( n + i ); step(); } while ( cur > 0 ) { up(); step(); } }
	for ( size_t i = 1; i < t.size(); ++i ) vp_assert( arrive( t, (int)i ) == t[ i ].lo, "a section has the time spent in it" ); vp_reach( "end" );
}

//@ entry=watch_overhead quick=16 thorough=40
//@ bounds: stopwatch with 16 (thorough 40) measures and a clock that advances by 1/8 s at every reading
VP_ENTRY( watch_overhead )
{
	// the time between measures, and the time spent inside the stopwatch, are all in the report
	int n = (int)vp_param( 0 ); vp_clock_step( 125000000 ); int64_t a0 = vp_clock_value(); stopwatch w; if ( vp_choice( 2 ) ) { vp_clock_advance( 875000000 ); a0 = vp_clock_value(); w.start_first_measure(); } int64_t a1 = vp_clock_value(), b0 = 0; unsigned skew = vp_choice( 3 ); int64_t outside = 0;
	for ( int k = 0; k < n; ++k ) { int64_t d = ( k * 7 + skew ) % 5; vp_clock_advance( d * 125000000 ); outside += d; b0 = vp_clock_value(); w.add_measure( k % 3 ? "a" : "b" ); } int64_t b1 = vp_clock_value(); vp_clock_advance( 1000000000 );
	double x = 1.0 / 3; string before = to_str( x ); int prec = to_str_precision(); prop_node r = w.get_report(); vp_assert( to_str( x ) == before, "a report leaves the precision of numbers alone" ); double total = 0; for ( auto& p : r ) total += std::stod( p.second.get_value() ); vp_assert( total >= ( b0 - a1 ) * 1e-9 - 1e-4 && total <= ( b1 - a0 ) * 1e-9 + 1e-4, "measures and overhead add up to the time since the start" ); double in = std::stod( r.get_child( "internal" ).get_value() ); vp_assert( in >= 0 && in <= ( b1 - a0 - outside * 125000000 ) * 1e-9 + 1e-4, "the overhead is no more than the time inside" ); prop_node q = w.get_report( 2 ); vp_assert( q.size() == r.size() && to_str( x ) == before && to_str_precision() == prec, "with other decimals" ); vp_clock_freeze( 1 ); vp_reach( "end" );
}
//@ entry=watches quick=5 thorough=6 jobs=4
//@ bounds: every order of 5 (6) measures of 2 names over two stopwatches
VP_ENTRY( watches )
{
	vp_clock_freeze( 1 ); stopwatch w[ 2 ]; static const char* N[] = { "a", "b" }; std::vector< std::pair< int, int64_t > > m[ 2 ]; int64_t at[ 2 ] = { 0, 0 }, now = 0; for ( long k = vp_param( 0 ); k > 0; --k ) { vp_clock_advance( 125000000 * k ); now += k; unsigned j = vp_choice( 2 ); int i = (int)vp_choice( 2 ); w[ j ].add_measure( N[ i ] ); size_t p = 0; while ( p < m[ j ].size() && m[ j ][ p ].first != i ) ++p; if ( p == m[ j ].size() ) m[ j ].push_back( { i, 0 } ); m[ j ][ p ].second += now - at[ j ]; at[ j ] = now; }
	int old = to_str_precision(); for ( int j = 0; j < 2; ++j ) { prop_node r = w[ j ].get_report(); vp_assert( r.size() == m[ j ].size() + 1, "one entry per name and one for the overhead" ); size_t p = 0; for ( auto& c : r ) { if ( p < m[ j ].size() ) { double v = std::stod( c.second.get_value() ); vp_assert( c.first == N[ m[ j ][ p ].first ] && v > m[ j ][ p ].second * .125 - 1e-6 && v < m[ j ][ p ].second * .125 + 1e-6, "every stopwatch has its own measures" ); } ++p; } vp_assert( to_str_precision() == old, "a report leaves the precision as it was" ); set_to_str_precision( old = 3 + j ); } vp_reach( "watches" );
}
