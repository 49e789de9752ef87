// C46: error codes, error macros and interrupt requests
//@ entry=codes quick=4 thorough=6
//@ entry=raising quick=3 thorough=5
//@ entry=interrupts quick=5 thorough=8
//@ entry=files quick=3 thorough=4
//@ bounds: all histories of 4 (thorough 6) settings with any code and any message up to 2 bytes; any condition and message up to 3 (5) bytes; all histories of 5 (8) requests and queries of 2 objects; reading a missing, malformed or good XML, property or text file with any value up to 3 (4) characters, with and without an error code
#include "oracle.h"
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/error_code.hpp"
#include "flut/interruptible.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
VP_ENTRY( codes )
{
	error_code ec; int code = 0; std::string msg; auto ok = [&] { vp_assert( ec.code() == code, "the code that was set" ); vp_assert( vp_same( ec.message(), msg ), "the message that was set" ); vp_assert( ec.error() == ( code != 0 ) && ec.ok() == ( code == 0 ), "zero is the only code that is no error" ); }; ok();
	for ( long k = vp_param( 0 ); k > 0; --k ) { switch ( vp_choice( 7 ) ) {
	case 0: { code = vp_int( "c" ); msg = vp_str_upto( 1, "m" ); error_code& r = ec.set( code, msg ); vp_assert( &r == &ec, "returns itself" ); break; }
	case 1: code = vp_int( "c" ); msg.clear(); ec.set( code ); break;
	case 2: { msg = vp_str_upto( 2, "m" ); code = -1; bool r = try_set_error( &ec, msg ); vp_assert( r, "an error is stored where there is a place for it" ); break; }
	case 3: { bool r = try_set_error( nullptr, "x" ); vp_assert( !r, "without a place nothing is stored" ); break; }
	case 4: ec = no_error(); code = 0; msg.clear(); break;
	case 5: msg = vp_str_upto( 1, "m" ); ec = flut::error( msg ); code = -1; break;
	case 6: { error_code f( vp_int( "c" ), "other" ); error_code g( ec ); f = g; vp_assert( f.code() == code && vp_same( f.message(), msg ), "a copy" ); break; } } ok(); vp_reach( code ? "error" : "ok" ); }
}
static int thrown( int k, bool c, const std::string& m, std::string& what )
{
	try { switch ( k ) { case 0: flut_error_if( c, m ); break; case 1: flut_validate( !c ); break; case 2: flut_validate_msg( !c, m ); break; case 3: if ( c ) flut_error( m ); break; } } catch ( flut::exception& e ) { what = e.what(); return 1; } catch ( ... ) { return 2; } return 0;
}
VP_ENTRY( raising )
{
	bool c = vp_bool( "c" ); std::string m = vp_str_nz( vp_choice( (unsigned)vp_param( 0 ) + 1 ), "m" ), w; int k = (int)vp_choice( 4 ); int r = thrown( k, c, m, w ); vp_assert( r == ( c ? 1 : 0 ), "an error is raised exactly when the condition says so" );
	if ( c ) { if ( k == 0 || k == 3 ) vp_assert( vp_same( w, m ), "the message" ); else { vp_assert( !w.empty(), "a message" ); if ( k == 2 ) { size_t f = w.find( m ); vp_assert( f != std::string::npos, "the message contains the text" ); } } vp_reach( "raised" ); } else vp_reach( "not raised" );
}
struct task : public interruptible { void interrupt() const override { ++count; interruptible::interrupt(); } mutable int count = 0; };
VP_ENTRY( interrupts )
{
	interruptible a; task b; bool ia = false, ib = false; int n = 0; vp_assert( !a.test_interrupt_flag() && !b.test_interrupt_flag(), "nothing is interrupted at first" ); for ( long k = vp_param( 0 ); k > 0; --k ) { unsigned op = vp_sym_u8( "op" ); if ( op < 80 ) { a.interrupt(); ia = true; } else if ( op < 160 ) { const interruptible& r = b; r.interrupt(); ib = true; ++n; } vp_assert( a.test_interrupt_flag() == ia && b.test_interrupt_flag() == ib, "a request is seen by its own object and stays" ); vp_assert( b.count == n, "a derived object handles its requests" ); } vp_reach( "end" );
}
VP_ENTRY( files )
{
	static const char* F[] = { "f.xml", "f.prop", "f.txt" }; unsigned k = vp_choice( 3 ), st = vp_choice( 3 ); if ( k > 0 && st == 2 ) return; std::string v = vp_str_of_upto( vp_param( 0 ), "xyz", "v" ); if ( st ) vp_file_write( F[ k ], k == 0 ? "<a>" + v + ( st == 1 ? "</a>" : "<" ) : k == 1 ? "a = \"" + v + "\"" : v ); error_code ec; bool t = false; std::string s;
	prop_node p; try { if ( k == 0 ) p = load_xml( path( F[ k ] ), &ec ); else if ( k == 1 ) p = load_prop( path( F[ k ] ), &ec ); else s = load_string( path( F[ k ] ), &ec ); } catch ( std::exception& ) { t = true; } vp_assert( !t, "an error code replaces the exception" ); vp_assert( ec.ok() == ( st == 1 ), "an error is stored exactly when reading failed" ); if ( ec.error() ) vp_assert( !ec.message().empty() && p.empty() && s.empty(), "with a message and without a result" ); else vp_assert( vp_same( k == 2 ? s : p.get< std::string >( "a" ), v ), "the contents" );
	try { if ( k == 0 ) load_xml( path( F[ k ] ) ); else if ( k == 1 ) load_prop( path( F[ k ] ) ); else load_string( path( F[ k ] ) ); } catch ( std::exception& ) { t = true; } vp_assert( t == ( st != 1 ), "without an error code it is an exception" ); vp_reach( st == 1 ? "read" : "failed" );
}
