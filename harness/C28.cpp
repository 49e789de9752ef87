// C28: flags are independent
//@ entry=word quick=3 thorough=4
//@ entry=byte quick=3 thorough=4
//@ entry=wide quick=2 thorough=3
//@ entry=forms quick=1 thorough=1
//@ entry=compile_time quick=3 thorough=4
//@ bounds: all histories of 3 operations (thorough 4; 64-bit storage 2, thorough 3) on any flags of 8-, 32- and 64-bit storage, any starting flags; list forms with any 3 flags; compile-time forms with 4 fixed flags of 32-bit storage
#include "oracle.h"
#include "flut/flag_set.hpp"
using namespace flut;
enum class F : int { first = 0 };
template< typename S > static void check( const flag_set< F, S >& f, uint64_t m, unsigned bits ) { int r = 1; for ( unsigned i = 0; i < bits; ++i ) { r &= ( f.get( F( i ) ) == ( ( m >> i & 1 ) != 0 ) ); r &= ( f( F( i ) ) == ( ( m >> i & 1 ) != 0 ) ); } vp_assert( r, "every flag reads as last set or cleared" ); vp_assert( f.any() == ( m != 0 ), "any flag" ); }
template< typename S > static void history( unsigned bits )
{
	flag_set< F, S > f; uint64_t m = 0; check( f, m, bits ); int n = (int)vp_param( 0 );
	for ( int k = 0; k < n; ++k )
	{
		unsigned x = (unsigned)vp_range( 0, (int)bits - 1, "flag" ); uint64_t b = 1ull << x;
		switch ( vp_choice( 6 ) ) {
		case 0: { auto& r = f.set( F( x ) ); vp_assert( &r == &f, "chaining" ); m |= b; vp_reach( "set" ); break; }
		case 1: { bool v = vp_bool( "v" ); f.set( F( x ), v ); m = ( m & ~b ) | ( v ? b : 0 ); vp_reach( "assign" ); break; }
		case 2: { f.clear( F( x ) ); m &= ~b; vp_reach( "clear" ); break; }
		case 3: { f.clear(); m = 0; break; }
		case 5: { std::initializer_list< F > none; f.set( none ); check( f, m, bits ); f.clear( none ); check( f, m, bits ); unsigned y = (unsigned)vp_range( 0, (int)bits - 1, "second flag" ); if ( vp_choice( 2 ) ) { auto& r = f.set( { F( x ), F( y ) } ); vp_assert( &r == &f, "chaining" ); m |= b | 1ull << y; } else { auto& r = f.clear( { F( x ), F( y ) } ); vp_assert( &r == &f, "chaining" ); m &= ~( b | 1ull << y ); vp_reach( "list" ); } break; }
		case 4: { flag_set< F, S > g( f ); g.set( F( x ) ); check( f, m, bits ); f = g; m |= b; g.clear(); vp_reach( "copy" ); break; }
		}
		check( f, m, bits );
	}
}
VP_ENTRY( word ) { history< unsigned int >( 32 ); }
VP_ENTRY( byte ) { history< unsigned char >( 8 ); }
VP_ENTRY( wide ) { history< uint64_t >( 64 ); }
VP_ENTRY( forms )
{
	unsigned a = (unsigned)vp_range( 0, 31, "a" ), b = (unsigned)vp_range( 0, 31, "b" ), c = (unsigned)vp_range( 0, 31, "c" ); flag_set< F > f{ F( a ), F( b ) }; uint64_t m = ( 1ull << a ) | ( 1ull << b ); check( f, m, 32 ); f.set( { F( b ), F( c ) } ); m |= 1ull << c; check( f, m, 32 ); f.clear( { F( a ), F( c ) } ); m &= ~( ( 1ull << a ) | ( 1ull << c ) ); check( f, m, 32 ); vp_reach( "end" );
}
template< int I > static void ct( flag_set< F >& f, uint64_t& m )
{
	switch ( vp_choice( 3 ) ) { case 0: f.template set< F( I ) >(); m |= 1ull << I; break; case 1: { bool v = vp_bool( "v" ); f.template set< F( I ) >( v ); m = ( m & ~( 1ull << I ) ) | ( uint64_t( v ) << I ); break; } case 2: f.template clear< F( I ) >(); m &= ~( 1ull << I ); break; }
	vp_assert( f.template get< F( I ) >() == ( ( m >> I & 1 ) != 0 ), "compile-time read" ); check( f, m, 32 );
}
VP_ENTRY( compile_time ) { flag_set< F > f; uint64_t m = 0; int n = (int)vp_param( 0 ); for ( int k = 0; k < n; ++k ) switch ( vp_choice( 4 ) ) { case 0: ct< 0 >( f, m ); break; case 1: ct< 1 >( f, m ); break; case 2: ct< 17 >( f, m ); break; case 3: ct< 31 >( f, m ); break; } vp_reach( "end" ); }
