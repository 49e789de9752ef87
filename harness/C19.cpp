// C19: circular deque behaves as a double-ended queue
//@ entry=history quick=8,3 thorough=10,4 jobs=8
//@ entry=grow quick=6,4 thorough=9,5 jobs=8
//@ entry=reserve quick=5,3,6 thorough=7,4,8 jobs=8
//@ entry=iterate quick=4,3 thorough=6,4 jobs=2
//@ entry=elements quick=4 thorough=6 jobs=2
//@ bounds: every history of 8 (thorough 10) pushes and pops at either end with initial capacity 0..3 (4) and arbitrary 64-bit values; every history of 6 (9) pushes from every rotation of a full buffer of 1..4 (5); reserve at every point of 5 (7) operations to capacities of up to 6 (8)
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/circular_deque.hpp"
using namespace flut;
typedef int64_t val; typedef circular_deque< val > deq; typedef std::vector< val > mod;
template< typename F > static bool rejected( F f ) { try { f(); return false; } catch ( std::exception& ) { return true; } }
static void check( deq& d, const mod& m )
{
	const deq& c = d; vp_assert( d.size() == m.size() && d.empty() == m.empty() && d.capacity() >= m.size(), "size" );
	int ok = 1; for ( size_t i = 0; i < m.size(); ++i ) ok &= ( d[ i ] == m[ i ] ) & ( c[ i ] == m[ i ] );
	vp_assert( ok, "indexing gives the elements in order" );
	if ( m.empty() ) { vp_assert( rejected( [&]() { d.front(); } ) && rejected( [&]() { d.back(); } ) && rejected( [&]() { c.front(); } ) && rejected( [&]() { c.back(); } ), "an empty deque has no front or back" ); vp_reach( "empty" ); }
	else vp_assert( d.front() == m.front() && c.front() == m.front() && d.back() == m.back() && c.back() == m.back(), "front and back are the first and last elements" );
	size_t i = 0; ok = 1; for ( auto it = d.begin(); it != d.end(); ++it, ++i ) ok &= i < m.size() && ( *it == m[ i ] ); vp_assert( i == m.size() && ok, "iteration gives the elements in order" );
	i = 0; ok = 1; for ( auto it = c.begin(); it != c.end(); ++it, ++i ) ok &= i < m.size() && ( *it == m[ i ] ); vp_assert( i == m.size() && ok, "const iteration gives the elements in order" );
}
static void step( deq& d, mod& m, unsigned kinds )
{
	unsigned op = vp_choice( kinds );
	if ( op == 0 ) { val v = vp_i64( "v" ); d.push_back( v ); m.push_back( v ); }
	else if ( op == 1 ) { val v = vp_i64( "v" ); d.push_front( v ); m.insert( m.begin(), v ); }
	else if ( op == 2 ) { bool t = rejected( [&]() { d.pop_back(); } ); vp_assert( t == m.empty(), "popping is rejected exactly when empty" ); if ( !t ) m.pop_back(); }
	else if ( op == 3 ) { bool t = rejected( [&]() { d.pop_front(); } ); vp_assert( t == m.empty(), "popping is rejected exactly when empty" ); if ( !t ) m.erase( m.begin() ); }
	else { d.clear(); m.clear(); }
}
VP_ENTRY( history ) { deq d( vp_choice( vp_param( 1 ) + 1 ) ); mod m; for ( int i = 0; i < vp_param( 0 ); ++i ) { step( d, m, 4 ); if ( !m.empty() ) { const deq& c = d; vp_assert( d.back() == m.back() && c.back() == m.back() && d.front() == m.front(), "ends" ); } } check( d, m ); vp_reach( "end" ); }
VP_ENTRY( grow )
{
	size_t cap = 1 + vp_choice( vp_param( 1 ) ), rot = vp_choice( (unsigned)cap ); deq d( cap ); mod m;
	for ( size_t i = 0; i < rot; ++i ) { d.push_back( 1 ); d.pop_front(); }
	for ( size_t i = 0; i < cap; ++i ) { val v = vp_i64( "v" ); d.push_back( v ); m.push_back( v ); }
	vp_assert( d.full() && d.capacity() == cap, "full" );
	for ( int i = 0; i < vp_param( 0 ); ++i ) step( d, m, 2 ); check( d, m ); vp_reach( "end" );
}
VP_ENTRY( reserve ) { deq d( vp_choice( vp_param( 1 ) + 1 ) ); mod m; for ( int i = 0; i < vp_param( 0 ); ++i ) step( d, m, 5 ); size_t n = vp_choice( vp_param( 2 ) + 1 ), was = d.capacity(); d.reserve( n ); vp_assert( d.capacity() >= n && d.capacity() >= was, "reserve gives the capacity" ); check( d, m ); step( d, m, 4 ); check( d, m ); vp_reach( "end" ); }
VP_ENTRY( iterate )
{
	deq d( vp_choice( vp_param( 1 ) + 1 ) ); mod m; for ( int i = 0; i < vp_param( 0 ); ++i ) step( d, m, 4 );
	vp_assert( size_t( d.end() - d.begin() ) == m.size(), "distance" ); vp_assert( d.end() - (int)m.size() == d.begin() && d.begin() + (int)m.size() == d.end() && !( d.begin() + (int)m.size() != d.end() ), "iterator distance and arithmetic agree" ); auto it = d.begin(); for ( size_t i = 0; i < m.size(); ++i ) { auto o = it++; vp_assert( *o == m[ i ], "postfix increment gives the old position" ); vp_assert( *( d.begin() + (int)i ) == m[ i ] && *( d.end() - int( m.size() - i ) ) == m[ i ], "iterator arithmetic" ); }
	size_t k = 0; for ( val& v : d ) { v = (val)k++; } for ( size_t i = 0; i < m.size(); ++i ) vp_assert( d[ i ] == (val)i, "iterators give access to the elements" );
	deq c( d ); if ( !m.empty() ) { d.pop_front(); vp_assert( c.size() == m.size() && c.front() == 0, "a copy is independent" ); } vp_reach( "end" );
}
VP_ENTRY( elements )
{
	circular_deque< string > d; std::vector< string > m; for ( int i = 0; i < vp_param( 0 ); ++i ) { unsigned op = vp_choice( 4 ); string s = vp_str( i % 2 ? 20 : 1, "s" ); if ( op == 0 ) { d.push_back( s ); m.push_back( s ); } else if ( op == 1 ) { d.push_front( s ); m.insert( m.begin(), s ); } else if ( !m.empty() ) { if ( op == 2 ) { d.pop_back(); m.pop_back(); } else { d.pop_front(); m.erase( m.begin() ); } } }
	if ( !m.empty() && vp_choice( 2 ) ) { string f = m.front(); d.push_back( d.front() ); m.push_back( f ); } vp_assert( d.size() == m.size(), "size" ); for ( size_t i = 0; i < m.size(); ++i ) vp_assert( vp_same( d[ i ], m[ i ] ), "elements" ); vp_reach( "end" );
}
//@ entry=large quick=300 thorough=300 jobs=2
//@ bounds: histories of 300 pushes and pops in four fixed patterns with arbitrary values and initial capacities of 0, 1, 7 and 16
VP_ENTRY( large )
{
	static const size_t caps[] = { 0, 1, 7, 16 }; deq d( caps[ vp_choice( 4 ) ] ); mod m; unsigned pat = vp_choice( 4 ); auto front = [&]() { val v = vp_i64( "v" ); d.push_front( v ); m.insert( m.begin(), v ); }; auto back = [&]() { val v = vp_i64( "v" ); d.push_back( v ); m.push_back( v ); };
	for ( int i = 0; i < vp_param( 0 ); ++i ) { if ( pat == 0 ) back(); else if ( pat == 1 ) { if ( i % 5 == 4 ) { d.pop_front(); m.erase( m.begin() ); } else back(); } else if ( pat == 2 ) { if ( i % 3 ) front(); else back(); } else { if ( i % 4 == 3 ) { d.pop_back(); m.pop_back(); } else if ( i % 4 == 1 ) back(); else front(); } if ( i % 23 == 22 ) { if ( i > 40 ) d.reserve( d.capacity() + 3 ); check( d, m ); } } check( d, m ); while ( !m.empty() ) { vp_assert( d.front() == m.front() && d.back() == m.back(), "ends" ); d.pop_front(); m.erase( m.begin() ); if ( m.empty() ) break; d.pop_back(); m.pop_back(); } check( d, m ); vp_reach( "end" );
}
//@ entry=any_index quick=4,2 thorough=7,4 jobs=4
//@ bounds: any 64-bit index within the deque after 4 (thorough 7) operations
VP_ENTRY( any_index )
{
	deq d( vp_choice( vp_param( 1 ) + 1 ) ); const deq& c = d; mod m; for ( int i = 0; i < vp_param( 0 ); ++i ) step( d, m, 4 ); if ( m.empty() ) return; uint64_t i = vp_u64( "i" ); vp_assume( i < m.size() ); val w = vp_i64( "w" ); vp_assert( d[ i ] == m[ i ] && c[ i ] == m[ i ], "indexing gives the element at that position" ); d[ i ] = w; m[ i ] = w; check( d, m ); vp_reach( "end" );
}
//@ entry=own_elements quick=5 thorough=6 jobs=4
//@ bounds: every sequence of 5 (6) pushes of the deque's own front, back or middle element, pops and new values, starting from capacities 0..3
VP_ENTRY( own_elements )
{
	deq d( vp_choice( 4 ) ); mod m; d.push_back( 5 ); m.push_back( 5 ); for ( long i = vp_param( 0 ); i > 0; --i ) { if ( m.empty() ) { d.push_front( 9 ); m.push_back( 9 ); continue; } switch ( vp_choice( 6 ) ) { case 0: { val v = m.front(); d.push_back( d.front() ); m.push_back( v ); break; } case 1: { val v = m.back(); d.push_front( d.back() ); m.insert( m.begin(), v ); break; } case 2: { val v = m[ m.size() / 2 ]; d.push_back( d[ m.size() / 2 ] ); m.push_back( v ); break; } case 3: d.pop_front(); m.erase( m.begin() ); break; case 4: { val v = vp_i64( "v" ); d.push_back( v ); m.push_back( v ); break; } case 5: { val v = m.front(); d.push_front( d.front() ); m.insert( m.begin(), v ); break; } } } check( d, m ); deq c( d ); d = c; check( d, m ); const deq& r = d; d = r; check( d, m ); vp_reach( "own" );
}
