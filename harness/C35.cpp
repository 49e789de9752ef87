// C35: factories
//@ entry=history quick=3,3 thorough=4,3;3,4
//@ entry=arguments quick=1 thorough=1
//@ entry=default_name quick=1 thorough=1
//@ bounds: all histories of 3 registrations of 3 classes under any names up to 2 bytes (thorough 4 registrations, or 3 bytes), looked up by any name up to 2 bytes; any argument values
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/system_tools.hpp"
#include "flut/factory.hpp"
using namespace flut;
struct base { base( int v, const std::string& t ) : value( v ), text( t ) {} virtual ~base() {} virtual int id() const = 0; int value; std::string text; };
struct alpha : base { using base::base; int id() const override { return 0; } };
struct beta : base { using base::base; int id() const override { return 1; } };
struct gamma_t : base { gamma_t( int v, const std::string& t ) : base( v + 1, t ) {} int id() const override { return 2; } };
typedef factory< base, int, std::string > fact;
static void look( const fact& f, const std::string& n, int id )
{
	vp_assert( f.has_type( n ) == ( id >= 0 ), "the membership query agrees with the registrations" ); auto t = f.try_create( n, 5, "x" ); vp_assert( ( t != nullptr ) == ( id >= 0 ), "trying to create gives an object exactly for a registered name" ); if ( t ) { vp_assert( t->id() == id && t->value == ( id == 2 ? 6 : 5 ) && t->text == "x", "the last registered type is created from the arguments" ); vp_reach( "created" ); }
	bool thrown = false; std::unique_ptr< base > c; try { c = f.create( n, 7, "y" ); } catch ( std::exception& ) { thrown = true; } vp_assert( thrown == ( id < 0 ), "creating an unregistered name is an error" ); if ( c ) vp_assert( c->id() == id && c->value == ( id == 2 ? 8 : 7 ) && c->text == "y", "create" ); else vp_reach( "unknown" );
	thrown = false; try { auto d = f( n, 9, "z" ); vp_assert( d && d->id() == id && d->value == ( id == 2 ? 10 : 9 ), "call operator" ); } catch ( std::exception& ) { thrown = true; } vp_assert( thrown == ( id < 0 ), "calling with an unregistered name is an error" ); thrown = false; try { auto& g = f[ n ]; auto e = g( 3, "w" ); vp_assert( e && e->id() == id, "access to the create function" ); } catch ( std::exception& ) { thrown = true; } vp_assert( thrown == ( id < 0 ), "accessing an unregistered name is an error" );
}
VP_ENTRY( history )
{
	fact f; vp_assert( f.empty(), "a new factory is empty" ); std::vector< std::pair< std::string, int > > regs; unsigned n = vp_choice( (unsigned)vp_param( 0 ) + 1 ); for ( unsigned k = 0; k < n; ++k ) { std::string s = vp_str_upto( vp_param( 1 ) - 1, "n" ); unsigned c = vp_choice( 3 ); if ( c == 0 ) f.register_class< alpha >( s ); else if ( c == 1 ) f.register_class< beta >( s ); else f.register_class< gamma_t >( s ); regs.push_back( { s, (int)c } ); vp_assert( !f.empty(), "not empty" ); }
	std::string q = vp_str_upto( vp_param( 1 ) - 1, "q" ); int id = -1; for ( auto& r : regs ) if ( vp_same( r.first, q ) ) id = r.second; look( f, q, id );
}
VP_ENTRY( arguments ) { fact f; f.register_class< alpha >( "a" ); f.register_class< gamma_t >( "g" ); int v = vp_int( "v" ); vp_assume( v < 2147483647 ); std::string t = vp_str_upto( 2, "t" ); auto p = f.create( "a", v, t ), q = f( "g", v, t ); vp_assert( p->value == v && vp_same( p->text, t ) && q->value == v + 1 && vp_same( q->text, t ), "objects are built from the given arguments" ); auto r = f.create( "a", v, t ); vp_assert( r.get() != p.get(), "every call creates a new object" ); vp_reach( "end" ); }
VP_ENTRY( default_name ) { fact f; f.register_class< alpha >(); f.register_class< beta >(); vp_assert( f.has_type( "alpha" ) && f.has_type( "beta" ) && !f.has_type( "gamma_t" ), "the default name is the class name" ); vp_assert( f.create( "beta", 1, "" )->id() == 1, "create by class name" ); vp_reach( "end" ); }
//@ entry=many quick=130 thorough=130
//@ bounds: 130 registrations under given names of up to 30 characters, one under an arbitrary name, looked up by an arbitrary and every given name
VP_ENTRY( many )
{
	fact f; int n = (int)vp_param( 0 ); std::vector< std::pair< std::string, int > > regs; auto reg = [&]( const std::string& s, int c ) { if ( c == 0 ) f.register_class< alpha >( s ); else if ( c == 1 ) f.register_class< beta >( s ); else f.register_class< gamma_t >( s ); regs.push_back( { s, c } ); }; auto nm = [&]( int i ) { return std::string( i * 11 % 30, 'n' ) + char( 'a' + i % 26 ); }; for ( int i = 0; i < n; ++i ) reg( nm( i ), i % 3 ); std::string s = nm( n / 2 ); s[ s.size() - 1 ] = (char)vp_sym_u8( "c" ); reg( s, (int)vp_choice( 3 ) ); std::string q = nm( n / 2 ); q[ s.size() - 1 ] = (char)vp_sym_u8( "d" );
	int id = -1; for ( auto& r : regs ) if ( vp_same( r.first, q ) ) id = r.second; look( f, q, id ); for ( int i = 0; i < n; i += 4 ) { id = -1; for ( auto& r : regs ) if ( vp_same( r.first, nm( i ) ) ) id = r.second; auto c = f.create( nm( i ), 3, "s" ); vp_assert( c->id() == id, "the last registered type is created" ); } vp_reach( "end" );
}
//@ entry=instances quick=4 thorough=5
//@ bounds: every sequence of 4 (5) registrations and look-ups in two factories of the same type with two names
VP_ENTRY( instances )
{
	fact f[ 2 ]; int id[ 2 ][ 2 ] = { { -1, -1 }, { -1, -1 } }; std::string n[ 2 ] = { "name", vp_str( 1, "n" ) }; for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 2 ), k = vp_choice( 2 ), op = vp_choice( 3 ); if ( op == 0 ) { f[ w ].register_class< alpha >( n[ k ] ); id[ w ][ k ] = 0; } else if ( op == 1 ) { f[ w ].register_class< beta >( n[ k ] ); id[ w ][ k ] = 1; } else look( f[ w ], n[ k ], id[ w ][ k ] ); } for ( int w = 0; w < 2; ++w ) for ( int k = 0; k < 2; ++k ) look( f[ w ], n[ k ], id[ w ][ k ] ); fact c( f[ 0 ] ); c.register_class< gamma_t >( "gg" ); vp_assert( !f[ 0 ].has_type( "gg" ), "a copy is independent" ); vp_reach( "instances" );
}
