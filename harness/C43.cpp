// C43: cloning owned objects
//@ entry=single quick=1 thorough=1
//@ entry=vectors quick=4 thorough=8
//@ entry=texts quick=2 thorough=3
//@ bounds: any values; vectors of up to 4 (thorough 8) owned objects, objects owning memory of their own
//@ assume: owned pointers are not null and the dynamic type equals the static type
#include "oracle.h"
#include "flut/memory_tools.hpp"
static int live; struct obj { int v; obj( int x ) : v( x ) { ++live; } obj( const obj& o ) : v( o.v ) { ++live; } ~obj() { --live; } };
typedef std::unique_ptr< obj > P;
VP_ENTRY( single ) { int x = vp_int(), y = vp_int(); { P a( new obj( x ) ); P b = flut::clone( a ); vp_assert( a && b && a.get() != b.get(), "a new object" ); vp_assert( live == 2, "one copy is made" ); vp_assert( a->v == x && b->v == x, "equal" ); b->v = y; vp_assert( a->v == x, "the original is independent" ); a.reset(); vp_assert( b->v == y && live == 1, "the copy outlives the original" ); } vp_assert( live == 0, "nothing leaks" ); vp_reach( "end" ); }
VP_ENTRY( vectors )
{
	size_t n = vp_choice( (unsigned)vp_param( 0 ) + 1 ); { std::vector< P > a; std::vector< int > v; for ( size_t i = 0; i < n; ++i ) { v.push_back( vp_int() ); a.emplace_back( new obj( v[ i ] ) ); } std::vector< P > b = flut::clone( a ); vp_assert( b.size() == n && a.size() == n, "size" ); vp_assert( live == int( 2 * n ), "one copy each" ); for ( size_t i = 0; i < n; ++i ) { vp_assert( b[ i ] && b[ i ].get() != a[ i ].get(), "new objects" ); vp_assert( a[ i ]->v == v[ i ] && b[ i ]->v == v[ i ], "equal, in order" ); } for ( size_t i = 0; i < n; ++i ) a[ i ]->v = ~v[ i ]; for ( size_t i = 0; i < n; ++i ) vp_assert( b[ i ]->v == v[ i ], "independent" ); a.clear(); vp_assert( live == int( n ), "owned separately" ); for ( size_t i = 0; i < n; ++i ) vp_assert( b[ i ]->v == v[ i ], "the copies outlive the originals" ); } vp_assert( live == 0, "nothing leaks" ); vp_reach( n ? "some" : "empty" );
}
VP_ENTRY( texts ) { std::vector< std::unique_ptr< std::string > > a; std::vector< std::string > v; for ( long i = 0; i < vp_param( 0 ); ++i ) { std::string s = vp_str_upto( 2, "s" ) + std::string( i * 20, 'x' ); v.push_back( s ); a.emplace_back( new std::string( s ) ); } auto b = flut::clone( a ); a.clear(); vp_assert( b.size() == v.size(), "size" ); for ( size_t i = 0; i < v.size(); ++i ) vp_assert( vp_same( *b[ i ], v[ i ] ), "equal" ); vp_reach( "end" ); }
