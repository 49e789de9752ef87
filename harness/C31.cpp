// C31: test framework counters
//@ entry=history quick=4 thorough=6
//@ entry=reset_after_failure quick=3 thorough=5
//@ entry=logging quick=3 thorough=4
//@ bounds: all histories of 4 results, resets and reports (thorough 6), any result values; logged text for up to 3 results (thorough 4)
#include "oracle.h"
#include "flut/system/test_framework.hpp"
#include "flut/system/log.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log_sink.hpp"
using namespace flut;
VP_ENTRY( history )
{
	test_framework t; int n = 0, f = 0, p = 0; auto ok = [&] { vp_assert( t.num_tests == n && t.num_failed == f && t.num_passed == p, "the counters count every result once" ); vp_assert( t.num_tests == t.num_passed + t.num_failed, "tests are passed plus failed" ); }; ok();
	for ( long k = vp_param( 0 ); k > 0; --k ) switch ( vp_choice( 4 ) ) {
	case 0: { bool r = vp_bool( "r" ); bool q = t.test( "name", r ); vp_assert( q == r, "the result is returned" ); ++n; p += r; f += !r; ok(); break; }
	case 1: { t.show_passed = !t.show_passed; bool r = vp_bool( "r" ); bool q = t.test( "name", r, "text" ); vp_assert( q == r, "the result is returned" ); ++n; p += r; f += !r; ok(); break; }
	case 2: { int r = t.report(); vp_assert( ( r != 0 ) == ( f > 0 ), "the report signals failure exactly when a test failed" ); ok(); vp_reach( r ? "failed" : "passed" ); break; }
	case 3: if ( f > 0 ) break; t.reset(); n = f = p = 0; ok(); vp_reach( "reset" ); break; }
	int r = t.report(); vp_assert( ( r != 0 ) == ( f > 0 ), "the final report signals failure exactly when a test failed" );
}
VP_ENTRY( reset_after_failure )
{
	test_framework t; int f = 0; for ( long k = vp_param( 0 ); k > 0; --k ) { bool r = vp_bool( "r" ); t.test( "name", r ); f += !r; } vp_assume( f > 0 ); t.reset(); vp_assert( t.num_tests == 0 && t.num_passed == 0 && t.num_failed == 0, "resetting after a failure sets all counters to zero" ); vp_assert( t.report() == 0, "no failure is reported after a reset" ); vp_reach( "reset after failure" );
}
struct count_sink : public log::sink { count_sink() : log::sink( log::trace_level ), errors( 0 ), others( 0 ) {} virtual void send_log_message( log::level l, const std::string& m ) override { ( l >= log::error_level ? errors : others )++; last = m; } int errors, others; std::string last; };
VP_ENTRY( logging )
{
	count_sink s; test_framework t; t.show_passed = vp_choice( 2 ); int f = 0, p = 0; for ( long k = vp_param( 0 ); k > 0; --k ) { bool r = vp_choice( 2 ); t.test( "name", r, "message" ); f += !r; p += r; vp_assert( s.errors == f && s.others == ( t.show_passed ? p : 0 ), "every failure is logged as an error" ); if ( !r ) vp_assert( s.last.find( "name" ) != std::string::npos && s.last.find( "message" ) != std::string::npos, "the failure names the test" ); }
	t.report(); if ( f ) vp_assert( s.errors == f + 1, "a failing report is an error" ); else vp_assert( s.errors == 0, "a passing report is no error" ); vp_assert( s.last == "Test results: " + std::to_string( f + p ) + " performed, " + std::to_string( f ) + " failed, " + std::to_string( p ) + " passed", "the report text" ); vp_assert( &test_framework::get_instance() == &test_framework::get_instance(), "one shared instance" ); vp_reach( "end" );
}
//@ entry=many quick=100 thorough=300
//@ bounds: 100 results (thorough 300) of which 6 are arbitrary
VP_ENTRY( many ) { test_framework t; int f = 0, n = (int)vp_param( 0 ); for ( int i = 0; i < n; ++i ) { bool r = i % 10 == 3 ? vp_bool( "r" ) : i % 7 != 2 || i < n / 2; t.test( "name", r ); f += !r; } vp_assert( t.num_tests == n && t.num_failed == f && t.num_passed == n - f, "the counters count every result once" ); vp_assert( ( t.report() != 0 ) == ( f > 0 ), "the report signals failure exactly when a test failed" ); vp_reach( "end" ); }
