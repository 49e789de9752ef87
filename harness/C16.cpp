// C16: channel labels and their index always agree
//@ entry=history quick=3 thorough=4 jobs=8
//@ entry=construct quick=4 thorough=6 jobs=2
//@ entry=swaps quick=4 thorough=5 jobs=4
//@ entry=empty_label quick=4 thorough=5 jobs=4
//@ entry=unlabelled quick=4 thorough=8
//@ bounds: every history of 4 operations (add, set at any position, grow, clear) starting from a header constructed with 0..2 labels or 0..2 unnamed channels, labels of one arbitrary byte; construction with 0..4 (6) labels; 4 (5) renames on a three-channel header; 4 (5) additions, renames and growths with empty and other labels
//@ assume: channels made by size or growth alone have no label until one is set; labels given at construction are distinct
#include "oracle.h"
#include "flut/string_tools.hpp"
#include "flut/buffer/data_header.hpp"
using namespace flut;
struct model {
	std::vector< string > l; std::vector< bool > named;
	index_t find( const string& s ) const { for ( size_t i = 0; i < l.size(); ++i ) if ( named[ i ] && l[ i ] == s ) return i; return no_index; }
};
static string lab() { return vp_str( 1, "l" ); }
static void check( const data_header< string >& h, const model& m )
{
	vp_assert( h.size() == m.l.size() && size_t( h.end() - h.begin() ) == m.l.size(), "size is the number of channels" );
	size_t i = 0; for ( auto& s : h ) { vp_assert( vp_same( s, m.l[ i ] ) && vp_same( h[ i ], m.l[ i ] ), "labels stand where they were put" ); ++i; }
	for ( i = 0; i < m.l.size(); ++i ) if ( m.named[ i ] ) vp_assert( h.find( m.l[ i ] ) == i, "finding a label gives the position where it stands" );
	string q = lab(); index_t e = m.find( q ); vp_assert( h.find( q ) == e, "finding any text gives its position, or absence" ); vp_reach( e == no_index ? "absent" : "present" );
}
template< typename F > static bool rejected( F f ) { try { f(); return false; } catch ( std::exception& ) { return true; } }
static void step( data_header< string >& h, model& m )
{
	unsigned op = vp_choice( 4 );
	if ( op == 0 ) { string s = lab(); bool dup = m.find( s ) != no_index; index_t r = 0; bool t = rejected( [&]() { r = h.add( s ); } ); vp_assert( t == dup, "adding is rejected exactly for a present label" ); if ( !t ) { vp_assert( r == m.l.size(), "add returns the new position" ); m.l.push_back( s ); m.named.push_back( true ); } else vp_reach( "duplicate add" ); }
	else if ( op == 1 ) { string s = lab(); size_t i = vp_choice( (unsigned)m.l.size() + 1 ); bool bad = i >= m.l.size() || m.find( s ) != no_index; index_t r = 0; bool t = rejected( [&]() { r = h.set( i, s ); } ); vp_assert( t == bad, "setting is rejected exactly for a present label or a missing channel" ); if ( !t ) { vp_assert( r == i, "set returns the position" ); m.l[ i ] = s; m.named[ i ] = true; } else vp_reach( "rejected set" ); }
	else if ( op == 2 ) { size_t n = m.l.size() + vp_choice( 2 ); h.resize( n ); m.l.resize( n ); m.named.resize( n ); if ( n > 0 ) { bool t = rejected( [&]() { h.resize( n - 1 ); } ); vp_assert( t, "shrinking is rejected" ); } }
	else { h.clear(); m.l.clear(); m.named.clear(); }
}
static bool distinct( const std::vector< string >& v ) { for ( size_t i = 0; i < v.size(); ++i ) for ( size_t j = 0; j < i; ++j ) if ( v[ i ] == v[ j ] ) return false; return true; }
static data_header< string > start( unsigned k, model& m )
{
	if ( k == 0 ) return data_header< string >();
	if ( k <= 2 ) { m.l.resize( k ); m.named.resize( k ); return data_header< string >( k ); }
	std::vector< string > v; for ( unsigned i = 2; i < k; ++i ) v.push_back( lab() );
	vp_assume( distinct( v ) ); m.l = v; m.named.resize( v.size(), true ); return data_header< string >( v );
}
VP_ENTRY( history ) { model m; data_header< string > h = start( vp_choice( 5 ), m ); for ( int i = 0; i < vp_param( 0 ); ++i ) step( h, m ); check( h, m ); data_header< string > c( h ); check( c, m ); }
VP_ENTRY( construct )
{
	unsigned n = vp_choice( vp_param( 0 ) + 1 ); std::vector< string > v; for ( unsigned i = 0; i < n; ++i ) v.push_back( lab() ); vp_assume( distinct( v ) );
	model m; m.l = v; m.named.resize( n, true ); data_header< string > h( v ); check( h, m );
	if ( n == 3 ) { data_header< string > g{ v[ 0 ], v[ 1 ], v[ 2 ] }; check( g, m ); }
	string s = lab(); bool dup = m.find( s ) != no_index; bool t = rejected( [&]() { h.add( s ); } ); vp_assert( t == dup, "a label given at construction cannot be added again" ); if ( !t ) { m.l.push_back( s ); m.named.push_back( true ); } check( h, m );
}
VP_ENTRY( swaps )
{
	model m; data_header< string > h = start( 0, m ); for ( int i = 0; i < 3; ++i ) { string s( 1, char( 'a' + i ) ); h.add( s ); m.l.push_back( s ); m.named.push_back( true ); }
	for ( int i = 0; i < vp_param( 0 ); ++i ) { string s = lab(); size_t k = vp_choice( 3 ); bool dup = m.find( s ) != no_index; bool t = rejected( [&]() { h.set( k, s ); } ); vp_assert( t == dup, "renaming is rejected exactly for a present label" ); if ( !t ) m.l[ k ] = s; }
	check( h, m );
}
// the empty text is a label like any other
VP_ENTRY( empty_label )
{
	static const char* L[] = { "", "a", "b" }; model m; data_header< string > h = start( vp_choice( 3 ), m ); for ( int i = 0; i < vp_param( 0 ); ++i ) { string s = L[ vp_choice( 3 ) ]; size_t n = m.l.size(), k = vp_choice( (unsigned)n + 2 ); bool dup = m.find( s ) != no_index; if ( k < n ) { bool t = rejected( [&]() { h.set( k, s ); } ); vp_assert( t == dup, "renaming is rejected exactly for a present label" ); if ( !t ) { m.l[ k ] = s; m.named[ k ] = true; } } else if ( k == n ) { bool t = rejected( [&]() { h.add( s ); } ); vp_assert( t == dup, "adding is rejected exactly for a present label" ); if ( !t ) { m.l.push_back( s ); m.named.push_back( true ); } } else { h.resize( n + 1 ); m.l.emplace_back(); m.named.push_back( false ); } }
	check( h, m ); for ( auto s : L ) vp_assert( h.find( s ) == m.find( s ), "finding a label gives the position where it stands, or absence" );
}
VP_ENTRY( unlabelled ) { size_t n = vp_choice( vp_param( 0 ) + 1 ); data_header< void > h( n ); vp_assert( h.size() == n, "size" ); vp_assert( h.add() == n && h.size() == n + 1 && h.get_label( n ) == n, "channels are numbered" ); vp_reach( "end" ); }
//@ entry=many quick=140 thorough=140 jobs=2
//@ entry=long_labels quick=4 thorough=4 jobs=4
//@ bounds: headers of 140 channels with one arbitrary label among them, renamed, grown and cleared; histories of 4 additions and renames with labels of up to 20 bytes of which one is arbitrary
VP_ENTRY( many )
{
	int n = vp_param( 0 ); model m; data_header< string > h; std::vector< string > v; for ( int i = 0; i < n; ++i ) v.push_back( "ch" + std::to_string( i * 7 ) ); bool ctor = vp_choice( 2 ) != 0; if ( ctor ) h = data_header< string >( v ); else for ( auto& s : v ) vp_assert( h.add( s ) == m.l.size() + size_t( &s - &v[ 0 ] ), "add returns the new position" ); m.l = v; m.named.resize( n, true );
	string q = "ch7" + vp_str( 1, "l" ); index_t at = m.find( q ); vp_assert( h.find( q ) == at, "finding any text gives its position, or absence" ); size_t k = vp_choice( 3 ) * ( n - 1 ) / 2; bool t = rejected( [&]() { h.set( k, q ); } ); vp_assert( t == ( at != no_index ), "renaming is rejected exactly for a present label" ); if ( !t ) m.l[ k ] = q; h.resize( n + 30 ); m.l.resize( n + 30 ); m.named.resize( n + 30 ); string r = "new"; vp_assert( h.set( n + 29, r ) == index_t( n + 29 ), "set returns the position" ); m.l[ n + 29 ] = r; m.named[ n + 29 ] = true; vp_assert( rejected( [&]() { h.add( r ); } ) && rejected( [&]() { h.set( 0, r ); } ), "present labels are rejected" ); data_header< string > c( h ); check( c, m ); h.clear(); vp_assert( h.size() == 0 && h.find( r ) == no_index && h.find( v[ 1 ] ) == no_index, "clearing forgets every label" ); vp_assert( h.add( v[ 5 ] ) == 0 && h.find( v[ 5 ] ) == 0, "labels can be used again" ); check( c, m );
}
static string lab2() { static const char* p[] = { "", "abcdefghijklmnopqrs", "x" }; return p[ vp_choice( 3 ) ] + vp_str( 1, "l" ); }
VP_ENTRY( long_labels )
{
	model m; data_header< string > h; for ( int i = 0; i < vp_param( 0 ); ++i ) { string s = lab2(); bool dup = m.find( s ) != no_index; if ( m.l.empty() || vp_choice( 2 ) ) { bool t = rejected( [&]() { h.add( s ); } ); vp_assert( t == dup, "adding is rejected exactly for a present label" ); if ( !t ) { m.l.push_back( s ); m.named.push_back( true ); } } else { size_t k = vp_choice( (unsigned)m.l.size() ); bool t = rejected( [&]() { h.set( k, s ); } ); vp_assert( t == dup, "renaming is rejected exactly for a present label" ); if ( !t ) m.l[ k ] = s; } } for ( size_t i = 0; i < m.l.size(); ++i ) vp_assert( h.find( m.l[ i ] ) == i && vp_same( h[ i ], m.l[ i ] ), "finding a label gives the position where it stands" ); string q = lab2(); vp_assert( h.find( q ) == m.find( q ), "finding any text gives its position, or absence" ); vp_reach( "end" );
}
//@ entry=interleaved quick=4 thorough=5 jobs=8
//@ bounds: every sequence of 4 (5) finds, adds, sets and clears of three labels (one arbitrary byte each) on two headers (a find does not depend on earlier finds)
VP_ENTRY( interleaved )
{
	string n[ 3 ] = { vp_str( 1, "n" ), "bb", "" }; vp_assume( n[ 0 ] != "b" ); n[ 2 ] = n[ 0 ] + "c"; data_header< string > h[ 2 ]; model m[ 2 ]; auto seen = [&]( int w, int k ) { vp_assert( h[ w ].find( n[ k ] ) == m[ w ].find( n[ k ] ), "finding a label gives where it stands now" ); };
	for ( long i = vp_param( 0 ); i > 0; --i ) { unsigned w = vp_choice( 2 ), op = vp_choice( 4 ); if ( op == 3 ) { h[ w ].clear(); m[ w ] = model(); continue; } unsigned k = vp_choice( 3 ); if ( op == 0 ) seen( w, k ); else if ( m[ w ].find( n[ k ] ) == no_index ) { if ( op == 1 ) { h[ w ].add( n[ k ] ); m[ w ].l.push_back( n[ k ] ); m[ w ].named.push_back( true ); } else if ( !m[ w ].l.empty() ) { size_t p = k % m[ w ].l.size(); h[ w ].set( p, n[ k ] ); m[ w ].l[ p ] = n[ k ]; } } } unsigned k = vp_choice( 3 ); seen( 0, k ); seen( 1, k ); vp_reach( "interleaved" );
}
