// C30: log messages reach exactly the interested sinks
//@ entry=history quick=3 thorough=4 jobs=8
//@ entry=levels quick=2 thorough=3 jobs=4
//@ entry=texts quick=2 thorough=4
//@ entry=formatted quick=3 thorough=5
//@ entry=long_text quick=1 thorough=1
//@ entry=streams quick=2 thorough=4
//@ entry=files quick=2 thorough=3
//@ bounds: all histories of 3 steps (thorough 4) out of creating a sink, destroying, removing or adding one again, setting one level and setting the global level, with up to 3 sinks, any levels (symbolic), followed by a message at every level by every function; all message texts up to 2 bytes (thorough 4), formatted arguments up to 3 bytes (thorough 5), formatted texts of 1020..1027, 2047, 2048 and 3000 characters
#include "oracle.h"
#include "flut/system/log.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log_sink.hpp"
#include <sstream>
#include <memory>
using namespace flut;
static int tick = 0;
struct rec : public log::sink
{
	rec( log::level l ) : log::sink( l ), count( 0 ), order( 0 ), lev( 0 ) {}
	virtual void send_log_message( log::level l, const std::string& m ) override { ++count; order = ++tick; lev = (int)l; text = m; }
	int count, order, lev; std::string text;
};
static log::level any_level( const char* n, int hi = 7 ) { return (log::level)vp_range( 1, hi, n ); }
static void send( unsigned f, log::level l, const std::string& t )
{
	switch ( f )
	{
	case 0: log::message( l, t ); break;
	case 1: log::messagef( l, "%s", t.c_str() ); break;
	case 2: switch ( (int)l ) { case 1: log::trace( t ); break; case 2: log::debug( t ); break; case 3: log::info( t ); break; case 4: log::warning( t ); break; case 5: log::error( t ); break; case 6: log::critical( t ); break; } break;
	case 3: switch ( (int)l ) { case 1: log::tracef( "%s", t.c_str() ); break; case 2: log::debugf( "%s", t.c_str() ); break; case 3: log::infof( "%s", t.c_str() ); break; case 4: log::warningf( "%s", t.c_str() ); break; case 5: log::errorf( "%s", t.c_str() ); break; case 6: log::criticalf( "%s", t.c_str() ); break; } break;
	}
}
// the sinks that are registered, in order, with their levels
struct entry { rec* s; int lev; bool on; };
static void check( std::vector< entry >& order, std::vector< entry >& all, unsigned f, int l )
{
	for ( auto& e : all ) e.s->count = 0; tick = 0; send( f, (log::level)l, "msg" ); int expected = 0;
	for ( auto& e : all ) vp_assert( e.s->count <= 1, "no message arrives twice" );
	for ( auto& e : order ) { bool want = e.lev <= l; vp_assert( e.s->count == ( want ? 1 : 0 ), "a registered sink gets the message exactly when its level allows it" ); if ( e.s->count ) { vp_assert( e.s->order == ++expected, "sinks are called in registration order" ); vp_assert( e.s->lev == l && e.s->text == "msg", "text and level arrive" ); vp_reach( "delivered" ); } else vp_reach( "filtered" ); }
	for ( auto& e : all ) { bool in = false; for ( auto& o : order ) if ( o.s == e.s ) in = true; if ( !in ) { vp_assert( e.s->count == 0, "a removed sink gets nothing" ); vp_reach( "removed" ); } }
}
static void report( std::vector< entry >& order ) { int lo = 7; for ( auto& e : order ) if ( e.lev < lo ) lo = e.lev; if ( lo < 7 ) { vp_assert( (int)log::get_global_log_level() == lo, "the global level is the lowest level" ); vp_reach( "global level" ); } }
VP_ENTRY( history )
{
	std::vector< std::unique_ptr< rec > > own; std::vector< entry > order, all; auto lev = [&]( rec* s, int l ) { for ( auto& e : order ) if ( e.s == s ) e.lev = l; for ( auto& e : all ) if ( e.s == s ) e.lev = l; };
	auto create = [&] { int l = any_level( "l" ); own.emplace_back( new rec( (log::level)l ) ); vp_assert( own.back()->get_log_level() == l, "own level" ); order.push_back( { own.back().get(), l, true } ); all.push_back( order.back() ); }; create();
	for ( long k = vp_param( 0 ); k > 0; --k ) switch ( vp_choice( 6 ) )
	{
	case 0: if ( own.size() < 3 ) create(); break;
	case 1: if ( !all.empty() ) { size_t i = vp_choice( (unsigned)all.size() ); rec* s = all[ i ].s; for ( size_t j = 0; j < order.size(); ++j ) if ( order[ j ].s == s ) { order.erase( order.begin() + j ); break; } all.erase( all.begin() + i ); for ( size_t j = 0; j < own.size(); ++j ) if ( own[ j ].get() == s ) { own.erase( own.begin() + j ); break; } vp_reach( "destroyed" ); } break;
	case 2: if ( !all.empty() ) { size_t i = vp_choice( (unsigned)all.size() ); log::remove_sink( all[ i ].s ); for ( size_t j = 0; j < order.size(); ++j ) if ( order[ j ].s == all[ i ].s ) { order.erase( order.begin() + j ); break; } } break;
	case 3: if ( !all.empty() ) { size_t i = vp_choice( (unsigned)all.size() ); log::add_sink( all[ i ].s ); bool in = false; for ( auto& o : order ) if ( o.s == all[ i ].s ) in = true; if ( !in ) { order.push_back( all[ i ] ); vp_reach( "added again" ); } else vp_reach( "added twice" ); } break;
	case 4: if ( !all.empty() ) { size_t i = vp_choice( (unsigned)all.size() ); int l = any_level( "s" ); all[ i ].s->set_log_level( (log::level)l ); vp_assert( all[ i ].s->get_log_level() == l, "a level that was set" ); lev( all[ i ].s, l ); } break;
	case 5: { int l = any_level( "g" ); log::set_global_log_level( (log::level)l ); for ( auto& e : order ) { vp_assert( e.s->get_log_level() == l, "the global level is set on every registered sink" ); lev( e.s, l ); } break; }
	}
	int l = vp_range( 1, 6, "m" ); { int lo = 7; for ( auto& e : order ) if ( e.lev < lo ) lo = e.lev; if ( lo < 7 ) vp_assert( log::test_log_level( (log::level)l ) == ( l >= lo ), "a level is logged exactly when a registered sink wants it" ); } switch ( vp_choice( 2 ) ) { case 0: check( order, all, 0, l ); break; case 1: check( order, all, 1, l ); break; } report( order );
}
VP_ENTRY( levels )
{
	std::vector< std::unique_ptr< rec > > own; std::vector< entry > order; for ( long k = vp_param( 0 ); k > 0; --k ) { int l = any_level( "l" ); own.emplace_back( new rec( (log::level)l ) ); order.push_back( { own.back().get(), l, true } ); }
	unsigned f = vp_choice( 4 ); int l = 1 + (int)vp_choice( 6 ); check( order, order, f, l ); for ( auto& e : order ) for ( int m = 1; m <= 6; ++m ) vp_assert( e.s->test_log_level( (log::level)m ) == ( m >= e.lev ), "level test of a sink" );
	bool any = false; for ( auto& e : order ) if ( e.lev <= l ) any = true; if ( any ) vp_assert( log::test_log_level( (log::level)l ), "the level test never suppresses a message that a sink wants" );
}
VP_ENTRY( texts )
{
	rec s( log::trace_level ), t( log::error_level ); std::string a = vp_str_upto( vp_param( 0 ), "a" ), b = vp_str_upto( 1, "b" ); log::info( a, b, 42, "x", 'c' ); std::string e = a + b + "42xc"; vp_assert( s.count == 1 && vp_same( s.text, e ) && t.count == 0, "the text is the arguments in order" ); log::critical( a ); vp_assert( s.count == 2 && vp_same( s.text, a ) && t.count == 1 && vp_same( t.text, a ), "text" ); log::error(); vp_assert( s.text.empty() && s.count == 3, "a message without arguments" ); log::log_string( log::debug_level, b ); vp_assert( s.count == 4 && vp_same( s.text, b ) && t.count == 2, "a plain text" ); vp_reach( "end" );
}
VP_ENTRY( formatted )
{
	rec s( log::trace_level ); std::string a = vp_str_nz( vp_choice( (unsigned)vp_param( 0 ) + 1 ), "a" ); int n = vp_range( -9, 15, "n" ); log::warningf( "%s=%d %%", a.c_str(), n ); std::string e = a + "=" + std::to_string( n ) + " %"; vp_assert( s.count == 1 && vp_same( s.text, e ), "formatted text" ); vp_reach( "end" );
}
VP_ENTRY( long_text )
{
	rec s( log::trace_level ), t( log::trace_level ); static const int L[] = { 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 3000 }; std::string a( L[ vp_choice( 11 ) ], 'q' ); a[ 0 ] = 'a'; a[ a.size() - 1 ] = 'z'; log::infof( "%s.%d", a.c_str(), 7 ); vp_assert( s.count == 1 && vp_same( s.text, a + ".7" ), "a long formatted text is complete" ); vp_assert( vp_same( t.text, s.text ), "for all sinks" ); log::message( log::info_level, a ); vp_assert( vp_same( s.text, a ), "a long text is complete" ); vp_reach( "end" );
}
VP_ENTRY( streams )
{
	std::stringstream o; log::stream_sink s( log::info_level, o ); std::string a = vp_str_upto( vp_param( 0 ), "a" ); log::debug( "no" ); vp_assert( o.str().empty(), "filtered" ); log::info( a ); log::trace( "no" ); log::error( "e" ); vp_assert( vp_same( o.str(), a + "\ne\n" ), "a stream sink writes one line per message" ); vp_reach( "end" );
}
static std::string content() { std::string s; vp_assert( vp_file_read( "log.txt", s ), "the file exists" ); return s; }
VP_ENTRY( files )
{
	std::string n = "log.txt", a = vp_str_upto( vp_param( 0 ), "a" ); { log::file_sink s( log::warning_level, path( n ) ); vp_assert( s.good(), "open" ); log::info( "no" ); log::warning( a ); vp_assert( vp_same( content(), a + "\n" ), "a file sink writes at once" ); log::criticalf( "%d", 5 ); } log::critical( "no" ); vp_assert( vp_same( content(), a + "\n5\n" ), "a file sink writes one line per message" ); vp_reach( "end" );
}
// many sinks
//@ entry=many quick=40 thorough=40
//@ bounds: 40 sinks of given levels, three of them of any level, with one removed and one added again
VP_ENTRY( many )
{
	std::vector< std::unique_ptr< rec > > own; std::vector< entry > order, all; unsigned n = (unsigned)vp_param( 0 ); for ( unsigned i = 0; i < n; ++i ) { int l = i == 1 || i == n - 1 ? (int)any_level( "l" ) : 1 + (int)( i * 5 % 7 ); own.emplace_back( new rec( (log::level)l ) ); order.push_back( { own.back().get(), l, true } ); } all = order;
	unsigned r = vp_choice( 3 ) * ( n - 1 ) / 2; log::remove_sink( order[ r ].s ); entry e = order[ r ]; order.erase( order.begin() + r ); int l = vp_range( 1, 6, "m" ); check( order, all, 0, l ); report( order ); log::add_sink( e.s ); order.push_back( e ); check( order, all, 1, l ); report( order ); while ( own.size() > n / 2 ) { for ( size_t j = 0; j < order.size(); ++j ) if ( order[ j ].s == own.back().get() ) { order.erase( order.begin() + j ); break; } own.pop_back(); all.pop_back(); } check( order, all, 0, l ); report( order );
}
//@ entry=macros quick=1 thorough=3
//@ bounds: the variable-logging and call-tracing macros with texts of 1 (thorough 3) arbitrary characters and arbitrary levels
VP_ENTRY( macros )
{
	int l = any_level( "l" ); rec r( (log::level)l ); std::string a = vp_str( vp_param( 0 ), "a" ); char b = (char)vp_range( 1, 127, "b" ); int calls = 0; auto fn = [&] { ++calls; }; bool want = l <= 1;
	flut_logvar( a ); vp_assert( r.count == want && ( !want || vp_same( r.text, "a=" + a ) ), "one variable" );
	flut_logvar2( a, b ); vp_assert( r.count == 2 * want && ( !want || vp_same( r.text, "a=" + a + "\tb=" + b ) ), "two variables" );
	flut_logvar3( b, a, 7 ); vp_assert( r.count == 3 * want && ( !want || vp_same( r.text, std::string( "b=" ) + b + "\ta=" + a + "\t7=7" ) ), "three variables" );
	flut_logvar4( b, a, b, 7 ); vp_assert( r.count == 4 * want && ( !want || vp_same( r.text, std::string( "b=" ) + b + "\ta=" + a + "\tb=" + b + "\t7=7" ) ), "four variables" );
	flut_trace_call( fn() ); vp_assert( calls == 1 && r.count == 6 * want && ( !want || r.text == "<-- fn()" ), "a traced call is made once" ); vp_reach( want ? "logged" : "quiet" );
}
//@ entry=series quick=3 thorough=4 jobs=4
//@ bounds: every series of 3 (4) messages by any of the four functions at three levels, with short, arbitrary and 1100-character texts, to two sinks
VP_ENTRY( series )
{
	rec s( log::trace_level ), t( log::error_level ); std::string x = vp_str_nz( 1, "x" ), lng( 1100, 'q' ); static const int L[] = { 1, 4, 6 }; int cs = 0, ct = 0; for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned f = vp_choice( 4 ); int l = L[ vp_choice( 3 ) ]; unsigned k = vp_choice( 3 ); const std::string m = k == 0 ? std::string( "m" ) : k == 1 ? x + std::to_string( i ) : lng + x; send( f, (log::level)l, m ); ++cs; vp_assert( s.count == cs && s.lev == l && vp_same( s.text, m ), "every message of a series arrives" ); if ( l >= 5 ) { ++ct; vp_assert( vp_same( t.text, m ), "text" ); } vp_assert( t.count == ct, "only its levels arrive" ); } vp_reach( "series" );
}
