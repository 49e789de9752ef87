// C48: unread properties are reported; variables are initialised by name
//@ entry=tracking quick=3 thorough=4 jobs=8
//@ entry=reporting quick=4 thorough=4 jobs=8
//@ entry=fresh quick=1 thorough=1
//@ entry=changed quick=1 thorough=1
//@ entry=growing quick=5 thorough=9
//@ entry=variables quick=2 thorough=3
//@ entry=stored quick=1 thorough=1
//@ bounds: a tree of 7 nodes on 3 levels with arbitrary 1-byte values, all histories of 3 (thorough 4) reads by every reading function, then the report at every log level; nodes made and values changed in every way; 5 (9) properties added after up to 2 reads; variables of several types with properties present or missing, integers in -99..99 and texts up to 2 (3) bytes
#include "tree.h"
#include "flut/prop_node_tools.hpp"
#include "flut/system/log_sink.hpp"
using namespace flut;
static const char* LEAF[] = { "a", "b", "g.c", "g.h.d" };
struct rec : public log::sink { rec() : log::sink( log::trace_level ), levels( true ) {} virtual void send_log_message( log::level l, const std::string& m ) override { lines.push_back( m ); if ( l != want ) levels = false; } std::vector< std::string > lines; log::level want; bool levels; };
static prop_node tree( std::string* v ) { prop_node p; for ( int i = 0; i < 4; ++i ) { v[ i ] = vp_str_of( 1, "xyz", "v" ); p.set_delimited( LEAF[ i ], v[ i ] ); } p.clear_accessed_recursively(); return p; }
// read one leaf by one of the reading functions
static void touch( const prop_node& p, int i, const std::string& v )
{
	const prop_node* n = &p; std::string k = LEAF[ i ]; std::string got = v; switch ( vp_choice( 5 ) )
	{
	case 0: got = p.get_delimited< std::string >( k ); break;
	case 1: { auto* c = p.try_get_child_delimited( k ); vp_assert( c != nullptr, "the node exists" ); got = c->get< std::string >(); break; }
	case 2: { size_t d; while ( ( d = k.find( '.' ) ) != std::string::npos ) { n = &n->get_child( k.substr( 0, d ) ); k = k.substr( d + 1 ); } got = n->get< std::string >( k, "default" ); break; }
	case 3: { size_t d; while ( ( d = k.find( '.' ) ) != std::string::npos ) { n = &( *n )[ k.substr( 0, d ) ]; k = k.substr( d + 1 ); } got = n->get_any< std::string >( { "none", k } ); break; }
	case 4: { size_t d; while ( ( d = k.find( '.' ) ) != std::string::npos ) { n = &n->get_child( k.substr( 0, d ) ); k = k.substr( d + 1 ); } for ( auto& e : *n ) if ( e.first == k ) got = e.second.get_value(); break; }
	}
	vp_assert( vp_same( got, v ), "the value" );
}
struct state { bool root, a, b, g, c, h, d; };
static void mark( state& s, int i ) { s.root = true; if ( i == 0 ) s.a = true; if ( i == 1 ) s.b = true; if ( i >= 2 ) s.g = true; if ( i == 2 ) s.c = true; if ( i == 3 ) s.h = s.d = true; }
VP_ENTRY( tracking )
{
	std::string v[ 4 ]; prop_node p = tree( v ); state s = {}; vp_assert( p.count_unaccessed() == 7, "at first nothing is read" );
	for ( long k = vp_param( 0 ); k > 0; --k ) { int i = (int)vp_choice( 5 ); if ( i == 4 ) { if ( vp_choice( 2 ) ) { p.clear_accessed_recursively(); s = {}; vp_reach( "cleared" ); } else { prop_node q( p ); vp_assert( q.count_unaccessed() == 7, "a copy is not read" ); vp_assert( q.get_delimited< std::string >( LEAF[ 3 ] ) == v[ 3 ], "reading a copy" ); } } else { touch( p, i, v[ i ] ); mark( s, i ); }
	size_t n = 7 - ( s.root + s.a + s.b + s.g + s.c + s.h + s.d ); vp_assert( p.count_unaccessed() == n, "the number of properties that were not read" ); vp_assert( p.is_accessed() == s.root, "whether a node was read" ); vp_assert( p.count_unaccessed() == n, "counting reads nothing" ); vp_reach( "read" ); }
}
// a node is not read until something reads it, however it was made
VP_ENTRY( fresh )
{
	{ std::string u = vp_str_upto( 1, "u" ); prop_node e( u ), f( u ), g; g.push_back( "k", u ); e.get_value(); f.get< std::string >(); g.get< std::string >( "k" ); vp_assert( e.is_accessed() && f.is_accessed() && g.count_unaccessed() == 0, "reading an empty value counts as reading" ); vp_reach( "empty" ); }
	std::string v = vp_str_upto( 1, "v" ); prop_node p, q( v ), r( std::string( v + "x" ) ), t( "a = 1" ); for ( const prop_node* n : { &p, &q, &r, &t } ) vp_assert( !n->is_accessed() && n->count_unaccessed() == 1 + n->size(), "a new node is not read" ); prop_node a; a.push_back( "k", v ); vp_assert( !a.get_child( 0 ).is_accessed(), "a new child is not read" ); prop_node b; b.set( "k", v ); for ( auto& c : b ) vp_assert( !c.second.is_accessed(), "a child that was set is not read" );
	prop_node c; c.get_or_add_child( "k" ); for ( auto& e : c ) vp_assert( !e.second.count_unaccessed() == e.second.is_accessed(), "counting one node" ); prop_node d( &q ); vp_assert( !d.is_accessed() && vp_same( d.get< std::string >(), v ), "a copy of a node" ); prop_node m( std::move( q ) ); vp_assert( !m.is_accessed() && vp_same( m.get< std::string >(), v ), "a moved node" ); prop_node o; o[ "k" ]; o.set_delimited( "g.h", v ); o[ "m" ].set_value( v ); o[ "n" ] = 3; vp_assert( o.size() == 4, "four children" ); const prop_node& co = o; for ( auto& e : co ) { vp_assert( !e.second.is_accessed() == ( e.first != "g" ), "a child made by index or path is not read" ); for ( auto& f : e.second ) vp_assert( !f.second.is_accessed(), "nor is one below it" ); } for ( auto& e : c ) vp_assert( !e.second.is_accessed(), "a child that was added is not read" ); vp_reach( "end" );
}
// a node that was read stays read when its value changes; what is put below it is not read
VP_ENTRY( changed )
{
	std::string v[ 4 ]; prop_node p = tree( v ); state s = {}; int i = (int)vp_choice( 4 ); touch( p, i, v[ i ] ); mark( s, i ); prop_node* n = nullptr; switch ( i ) { case 0: n = &( p.begin() )->second; break; case 1: n = &( p.begin() + 1 )->second; break; case 2: n = &( ( p.begin() + 2 )->second.begin() )->second; break; case 3: n = &( ( ( p.begin() + 2 )->second.begin() + 1 )->second.begin() )->second; break; }
	vp_assert( n->is_accessed(), "read" ); size_t k = p.count_unaccessed(); std::string w = vp_str_of( 1, "pq", "w" ); prop_node q( w ); switch ( vp_choice( 5 ) ) { case 0: n->set_value( w ); break; case 1: n->set( w ); break; case 2: *n = q; break; case 3: *n = std::move( q ); break; case 4: p.set_delimited( LEAF[ i ], w ); break; } vp_assert( n->is_accessed() && p.count_unaccessed() == k, "a changed value leaves what was read" ); n->push_back( "new", w ); vp_assert( p.count_unaccessed() == k + 1, "a new child is not read" ); vp_assert( vp_same( n->get_value(), w ), "the new value" ); vp_reach( "end" );
}
// adding properties leaves what was read
VP_ENTRY( growing )
{
	std::string v[ 4 ]; prop_node p = tree( v ); state s = {}; for ( unsigned k = vp_choice( 3 ); k > 0; --k ) { int i = (int)vp_choice( 4 ); touch( p, i, v[ i ] ); mark( s, i ); } bool before = p.is_accessed(); size_t k = p.count_unaccessed(), n = (size_t)vp_param( 0 ); for ( size_t i = 0; i < n; ++i ) { switch ( vp_choice( 2 ) * ( i % 4 == 0 ) + i % 2 ) { case 0: p.push_back( "new", v[ 0 ] ); break; case 1: p.push_back( "new" ).set_value( v[ 1 ] ); break; case 2: { prop_node q( v[ 2 ] ); p.push_back( "new", q ); break; } } vp_assert( p.count_unaccessed() == k + i + 1 && p.is_accessed() == before, "only the new property is added to those that were not read" ); } vp_reach( "end" );
}
VP_ENTRY( reporting )
{
	std::string v[ 4 ]; prop_node p = tree( v ); state s = {}; for ( long k = vp_choice( (unsigned)vp_param( 0 ) + 1 ); k > 0; --k ) { int i = (int)vp_choice( 4 ); touch( p, i, v[ i ] ); mark( s, i ); }
	rec r; r.want = (log::level)vp_range( 1, 6, "level" ); log_unaccessed( p, r.want ); std::vector< std::string > e; if ( !s.a ) e.push_back( "a = " + v[ 0 ] + " *" ); if ( !s.b ) e.push_back( "b = " + v[ 1 ] + " *" ); if ( !s.g || !s.c || !s.h || !s.d ) e.push_back( s.g ? "g" : "g *" ); if ( !s.c ) e.push_back( "  c = " + v[ 2 ] + " *" ); if ( !s.h || !s.d ) e.push_back( s.h ? "  h" : "  h *" ); if ( !s.d ) e.push_back( "    d = " + v[ 3 ] + " *" );
	vp_assert( r.lines.size() == e.size(), "one line for every property that was not read and its parents" ); for ( size_t i = 0; i < e.size() && i < r.lines.size(); ++i ) vp_assert( vp_same( r.lines[ i ], e[ i ] ), "the line names the property and its value" ); vp_assert( r.levels, "at the requested level" ); vp_reach( e.empty() ? "all read" : "unread" );
}
struct params
{
	int m_count; std::string name_; bool flag; unsigned size; std::string plain;
	params() : m_count( -7 ), flag( false ), size( 0 ) {}
	void init( const prop_node& pn ) { INIT_PROP( pn, m_count, 42 ); INIT_PROP( pn, name_, "none" ); INIT_PROP( pn, flag, true ); INIT_PROP_NAMED( pn, size, "the size", 3u ); INIT_PROP_NAMED( pn, plain, "text", std::string( "p" ) ); }
	void require( const prop_node& pn ) { INIT_PROP_REQUIRED( pn, m_count ); INIT_PROP_NAMED_REQUIRED( pn, name_, "name" ); }
	void save( prop_node& pn ) { SET_PROP( pn, m_count ); SET_PROP( pn, name_ ); SET_PROP_NAMED( pn, flag, "flag" ); SET_PROP_NAMED( pn, size, "the size" ); SET_PROP_NAMED( pn, plain, "text" ); }
};
VP_ENTRY( variables )
{
	prop_node pn; int c = vp_range( -99, 99, "c" ); std::string n = vp_str_upto( vp_param( 0 ), "n" ); bool hc = vp_choice( 2 ) != 0, hn = vp_choice( 2 ) != 0, hf = vp_choice( 2 ) != 0, hs = vp_choice( 2 ) != 0; if ( hc ) pn.set( "count", c ); if ( hn ) pn.set( "name", n ); if ( hf ) pn.set( "flag", false ); if ( hs ) pn.set( "the size", 8 );
	params p; p.init( pn ); vp_assert( p.m_count == ( hc ? c : 42 ), "a variable gets its property or the default" ); vp_assert( vp_same( p.name_, hn ? n : std::string( "none" ) ), "text" ); vp_assert( p.flag == !hf && p.size == ( hs ? 8u : 3u ) && p.plain == "p", "other types" ); vp_assert( pn.size() == size_t( hc + hn + hf + hs ), "reading adds nothing" );
	params q; bool t = false; try { q.require( pn ); } catch ( std::exception& ) { t = true; } vp_assert( t == !( hc && hn ), "a missing required property is an error" ); if ( !t ) { vp_assert( q.m_count == c && vp_same( q.name_, n ), "required properties" ); vp_reach( "required" ); } else vp_reach( "missing" );
}
VP_ENTRY( stored )
{
	params p; p.m_count = vp_range( -99, 99, "c" ); p.name_ = vp_str_upto( 2, "n" ); p.flag = vp_bool( "f" ); p.size = (unsigned)vp_range( 0, 99, "s" ); p.plain = vp_str_upto( 1, "t" ); prop_node pn; p.save( pn ); params q; q.init( pn ); vp_assert( q.m_count == p.m_count && vp_same( q.name_, p.name_ ) && q.flag == p.flag && q.size == p.size && vp_same( q.plain, p.plain ), "stored variables are read back" ); vp_assert( pn.size() == 5, "one property per variable" ); p.m_count = 5; p.save( pn ); vp_assert( pn.size() == 5 && pn.get< int >( "count" ) == 5, "storing again replaces" ); vp_reach( "end" );
}
