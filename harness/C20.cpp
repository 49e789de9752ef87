// C20: property trees store and return values by key and order
//@ entry=history quick=4 thorough=5 jobs=8
//@ entry=delimited quick=2,4 thorough=3,4 jobs=8
//@ entry=lookup quick=4,1 thorough=5,1 jobs=4
//@ entry=equality quick=2,2 thorough=3,2 jobs=8
//@ entry=copies quick=2 thorough=3 jobs=4
//@ entry=typed quick=1 thorough=1 jobs=2
//@ entry=promote quick=3 thorough=4 jobs=2
//@ entry=selection quick=3 thorough=4 jobs=2
//@ bounds: every history of 4 (thorough 5) operations (set, append, index, erase, nested set, insert, clear) with keys of one arbitrary byte and arbitrary one-byte values; delimited keys of 0..4 characters over a b . after 2 (3) operations; look-ups in nodes with 0..4 (5) children; equality of all trees with up to 2 (3) children and one grandchild level; typed values as int, bool, string, vector
#include "tree.h"
using namespace flut;
template< typename F > static bool rejected( F f ) { try { f(); return false; } catch ( std::exception& ) { return true; } }
static string key() { return vp_str( 1, "k" ); }
static void check( const prop_node& p, const node& n )
{
	vp_assert( same_tree( p, n ), "the tree has exactly the expected keys, values and order" );
	vp_assert( p.size() == n.c.size() && p.empty() == ( n.v.empty() && n.c.empty() ) && p.has_value() == !n.v.empty(), "size and emptiness" );
}
static void step( prop_node& p, node& n )
{
	unsigned op = vp_choice( 9 ); string k = op < 8 ? key() : string(), v = vp_str( 1, "v" ); size_t i = n.find( k ); bool in = i < n.c.size();
	if ( op == 0 ) { prop_node& r = p.set( k, v ); vp_assert( &r == &p, "set returns the node" ); node& c = n.child( k ); c = node(); c.v = v; }
	else if ( op == 1 ) { prop_node& r = p.push_back( k, v ); n.add( k ).v = v; vp_assert( &r == &p.get_child( p.size() - 1 ), "append returns the last child" ); }
	else if ( op == 2 ) { p[ k ].set_value( v ); n.child( k ).v = v; }
	else if ( op == 3 ) { auto it = p.find( k ); vp_assert( ( it != p.end() ) == in, "find reports presence" ); if ( in ) { p.erase( it ); n.c.erase( n.c.begin() + i ); vp_reach( "erased" ); } }
	else if ( op == 4 ) { string k2 = key(); p.get_or_add_child( k ).push_back( k2, v ); n.child( k ).add( k2 ).v = v; }
	else if ( op == 5 ) { prop_node q; q.set_value( v ); q.push_back( k, v ); p.set( k, q ); node m; m.v = v; m.add( k ).v = v; n.child( k ) = m; }
	else if ( op == 6 ) { prop_node q; q.push_back( k, v ); q.push_back( key() ); size_t at = vp_choice( (unsigned)n.c.size() + 1 ); p.insert( p.begin() + at, q.cbegin(), q.cend() ); node m; m.add( k ).v = v; m.add( q.get_key( 1 ) ); n.c.insert( n.c.begin() + at, m.c.begin(), m.c.end() ); }
	else if ( op == 7 ) { p.push_back( k ); n.add( k ); p.set_value( v ); n.v = v; }
	else { p.clear(); n = node(); }
}
static void probe( prop_node& p, const node& n, const string& k )
{
	const prop_node& c = p; size_t i = n.find( k ); bool in = i < n.c.size(); node before = n; string def = vp_str( 1, "d" );
	vp_assert( c.has_key( k ) == in, "key membership" ); vp_assert( c.has_value( k ) == ( in && !n.c[ i ].second.v.empty() ), "value membership" );
	string r; bool t = rejected( [&]() { r = c.get< string >( k ); } ); vp_assert( t == !in, "a required key fails exactly when missing" ); if ( in ) vp_assert( vp_same( r, n.c[ i ].second.v ), "reading gives the value of the first child with the key" );
	vp_assert( vp_same( c.get< string >( k, def ), in ? n.c[ i ].second.v : def ), "reading with a default" );
	vp_assert( rejected( [&]() { c.get_child( k ); } ) == !in && rejected( [&]() { c[ k ]; } ) == !in && rejected( [&]() { p.get_child( k ); } ) == !in, "child access fails exactly when missing" );
	vp_assert( ( c.try_get_child( k ) != nullptr ) == in && ( p.try_get_child( k ) != nullptr ) == in, "trying child access" );
	if ( in ) vp_assert( c.try_get_child( k ) == &c.get_child( i ) && &c[ k ] == &c.get_child( i ) && &p.get_child( k ) == &p.get_child( i ), "child access gives the first child with the key" );
	prop_node d; vp_assert( &c.try_get_child( k, d ) == ( in ? &c.get_child( i ) : &d ), "child access with a default" );
	string k2 = key(); size_t j = n.find( k2 ); string any = c.get_any< string >( { k, k2 }, def ); vp_assert( vp_same( any, in ? n.c[ i ].second.v : j < n.c.size() ? n.c[ j ].second.v : def ), "reading any of several keys" );
	vp_assert( rejected( [&]() { c.get_any< string >( { k, k2 } ); } ) == ( !in && j == n.c.size() ), "requiring any of several keys" );
	uint64_t x = vp_u64( "x" ); bool u = rejected( [&]() { c.get_child( index_t( x ) ); } ), w = rejected( [&]() { c.get_key( index_t( x ) ); } ); vp_assert( u == !( x < n.c.size() ) && w == u, "access by number fails exactly outside" );
	for ( size_t a = 0; a < n.c.size(); ++a ) vp_assert( vp_same( c.get_key( a ), n.c[ a ].first ) && vp_same( c[ a ].get_value(), n.c[ a ].second.v ), "access by number" );
	check( p, before ); vp_reach( in ? "present" : "absent" );
}
VP_ENTRY( history ) { prop_node p; node n; for ( int i = 0; i < vp_param( 0 ); ++i ) step( p, n ); check( p, n ); vp_reach( "end" ); }
VP_ENTRY( lookup ) { prop_node p; node n; unsigned m = vp_choice( vp_param( 0 ) + 1 ); for ( unsigned i = 0; i < m; ++i ) { string k = key(), v = vp_str( vp_choice( 2 ), "v" ); auto& c = p.push_back( k, v ); auto& o = n.add( k ); o.v = v; if ( i == 0 && vp_choice( 2 ) ) { c.push_back( "c", string( "d" ) ); o.add( "c" ).v = "d"; vp_reach( "nested" ); } } probe( p, n, key() ); }
VP_ENTRY( delimited )
{
	prop_node p; node n; for ( int i = 0; i < vp_param( 0 ); ++i )
	{
		string k = vp_str_of_upto( vp_param( 1 ), "ab.", "k" ), v = vp_str( 1, "v" ); p.set_delimited( k, v );
		node* c = &n; string rest = k; size_t d; while ( ( d = rest.find( '.' ) ) != string::npos ) { c = &c->child( rest.substr( 0, d ) ); rest = rest.substr( d + 1 ); } node& l = c->child( rest ); l = node(); l.v = v;
	}
	check( p, n );
	string k = vp_str_of_upto( vp_param( 1 ), "ab.", "q" ); const node* c = &n; string rest = k; size_t d; bool in = true;
	while ( in && ( d = rest.find( '.' ) ) != string::npos ) { string h = rest.substr( 0, d ); if ( ( in = c->has( h ) ) ) c = &c->c[ c->find( h ) ].second; rest = rest.substr( d + 1 ); }
	if ( in && ( in = c->has( rest ) ) ) c = &c->c[ c->find( rest ) ].second;
	const prop_node& cp = p; string r; bool t = rejected( [&]() { r = cp.get_delimited< string >( k ); } ); vp_assert( t == !in, "delimited reading fails exactly for a missing path" ); if ( in ) vp_assert( vp_same( r, c->v ), "delimited reading walks nested keys" );
	auto q = cp.try_get_child_delimited( k ); vp_assert( ( q != nullptr ) == in, "delimited child access" ); if ( q ) vp_assert( same_tree( *q, *c ), "delimited child" ); check( p, n ); vp_reach( in ? "present" : "absent" );
}
static node any_tree( int width, int depth ) { node n; n.v = vp_str( vp_choice( 2 ), "v" ); unsigned m = vp_choice( width + 1 ); for ( unsigned i = 0; i < m; ++i ) { string k = key(); node c; if ( depth > 1 ) c = any_tree( 1, depth - 1 ); else c.v = vp_str( 1, "v" ); n.c.push_back( std::make_pair( k, c ) ); } return n; }
static bool eq( const node& a, const node& b ) { if ( !vp_same( a.v, b.v ) || a.c.size() != b.c.size() ) return false; for ( size_t i = 0; i < a.c.size(); ++i ) if ( !vp_same( a.c[ i ].first, b.c[ i ].first ) || !eq( a.c[ i ].second, b.c[ i ].second ) ) return false; return true; }
VP_ENTRY( equality ) { node a = any_tree( vp_param( 0 ), vp_param( 1 ) ), b = any_tree( vp_param( 0 ), vp_param( 1 ) ); prop_node p = to_prop( a ), q = to_prop( b ); bool e = eq( a, b ); vp_assert( ( p == q ) == e && ( p != q ) == !e, "equality holds exactly when values, keys, order and descendants are equal" ); vp_reach( e ? "equal" : "different" ); }
VP_ENTRY( copies )
{
	node a = any_tree( vp_param( 0 ), 2 ); prop_node p = to_prop( a ), q( p ), r, s( &p ), z( (const prop_node*)nullptr ); r = p; check( q, a ); check( r, a ); check( s, a ); check( z, node() );
	node b = a; step( p, b ); check( p, b ); check( q, a ); check( r, a ); prop_node m( std::move( q ) ); check( m, a ); prop_node m2; m2.push_back( "x", string( "y" ) ); m2 = std::move( m ); check( m2, a );
	p.set( r ); check( p, a ); const prop_node& self = p; p = self; check( p, a );
	if ( a.c.size() > 0 ) { size_t i = vp_choice( (unsigned)a.c.size() ); node c = a.c[ i ].second; p = p.get_child( i ); check( p, c ); r.set( r.get_child( i ) ); check( r, c ); vp_reach( "child" ); }
	vp_reach( "end" );
}
VP_ENTRY( typed )
{
	prop_node p; int i = vp_range( -99, 99, "i" ); bool b = vp_bool( "b" ); string s = vp_str_upto( 3, "s" ); std::vector< int > v; for ( unsigned k = vp_choice( 3 ); k > 0; --k ) v.push_back( vp_range( 0, 9, "e" ) );
	p.set( "i", i ); p.set( "b", b ); p.set( "s", s ); p.set( "v", v ); p.push_back( "l", "text" ); p[ "o" ] = i;
	vp_assert( p.get< int >( "i" ) == i && p.get< bool >( "b" ) == b && vp_same( p.get< string >( "s" ), s ) && p.get< int >( "o" ) == i && p.get< string >( "l" ) == "text", "values of each type read back" );
	auto w = p.get< std::vector< int > >( "v" ); vp_assert( w.size() == v.size(), "a list reads back with its size" ); for ( size_t k = 0; k < v.size(); ++k ) vp_assert( w[ k ] == v[ k ], "a list reads back in order" );
	vp_assert( p.get< int >( "missing", i ) == i, "default" ); vp_assert( p.get< int >( "i", 5 ) == i, "present" ); vp_reach( "end" );
}
VP_ENTRY( selection )
{
	prop_node p; node n; for ( int i = 0; i < vp_param( 0 ); ++i ) { string k = vp_str_of( 1, "abc", "k" ); p.push_back( k, string( 1, char( '0' + i ) ) ); n.add( k ).v = string( 1, char( '0' + i ) ); }
	const prop_node& c = p; string k = vp_str_of( 1, "ab", "q" ); std::vector< string > e, g; for ( auto& x : n.c ) if ( x.first == k ) e.push_back( x.second.v ); auto view = c.select( k ); for ( auto& x : view ) g.push_back( x.second.get_value() );
	vp_assert( e.size() == g.size(), "selecting gives every child with the key" ); for ( size_t i = 0; i < e.size(); ++i ) vp_assert( vp_same( e[ i ], g[ i ] ), "selecting keeps order" );
	size_t cnt = 0; auto all = c.select_pattern( "*" ); for ( auto& x : all ) { vp_assert( vp_same( x.first, n.c[ cnt ].first ), "pattern selection keeps order" ); ++cnt; } vp_assert( cnt == n.c.size(), "a pattern selects every matching child" ); vp_reach( e.empty() ? "none" : "some" );
}
// a child assigned to its own parent
VP_ENTRY( promote )
{
	node n; int w = vp_param( 0 ); for ( int i = 0; i < w; ++i ) { node& c = n.add( string( 1, char( 'a' + i ) ) ); c.v = vp_str( 20, "v" ); unsigned m = vp_choice( 3 ); for ( unsigned k = 0; k < m; ++k ) { node& g = c.add( "g" ); g.v = vp_str( 20, "w" ); if ( vp_choice( 2 ) ) g.add( "h" ).v = vp_str( 20, "x" ); } }
	size_t i = vp_choice( w ); node e = n.c[ i ].second; prop_node p = to_prop( n ), q( p ); p = p.get_child( i ); check( p, e ); prop_node r( q ); r.set( r.get_child( i ) ); check( r, e ); q = prop_node( q.get_child( i ) ); check( q, e ); vp_reach( "end" );
}
//@ entry=list quick=12 thorough=101
//@ entry=many quick=130 thorough=130 jobs=4
//@ entry=deep quick=40 thorough=40
//@ bounds: lists of 12 (thorough 101) arbitrary one-digit numbers; nodes with 130 children of which one has an arbitrary last key byte, changed and read at several places; nesting of 40 levels reached by delimited keys
VP_ENTRY( list )
{
	std::vector< int > v; size_t n = (size_t)vp_param( 0 ) - vp_choice( 3 ); for ( size_t i = 0; i < n; ++i ) v.push_back( i % 5 == 0 ? vp_range( 0, 9, "e" ) : (int)i ); prop_node p; p.set( "v", v ); prop_node q = make_prop_node( v ); vp_assert( q.size() == n && p.get_child( "v" ) == q, "one child per element" ); for ( size_t i = 0; i < n; ++i ) { vp_assert( q.get_child( i ).get< int >() == v[ i ], "elements in order" ); vp_assert( &q.get_child( q.get_key( i ) ) == &q.get_child( i ), "every element has a key of its own" ); }
	auto w = p.get< std::vector< int > >( "v" ); vp_assert( w.size() == n, "a list reads back with its size" ); for ( size_t i = 0; i < n; ++i ) vp_assert( w[ i ] == v[ i ], "a list reads back in order" ); std::vector< std::vector< string > > d; for ( size_t i = 0; i < 3; ++i ) { d.emplace_back(); for ( unsigned k = vp_choice( 3 ); k > 0; --k ) d.back().push_back( vp_str( 1, "s" ) ); } p.set( "d", d ); auto e = p.get< std::vector< std::vector< string > > >( "d" ); vp_assert( e.size() == 3, "a list of lists" ); for ( size_t i = 0; i < 3; ++i ) { vp_assert( e[ i ].size() == d[ i ].size(), "with their sizes" ); for ( size_t k = 0; k < d[ i ].size(); ++k ) vp_assert( vp_same( e[ i ][ k ], d[ i ][ k ] ), "and elements" ); } vp_reach( "end" );
}
VP_ENTRY( many )
{
	prop_node p; node n; int m = vp_param( 0 ); string odd = "key1" + vp_str( 1, "k" ); for ( int i = 0; i < m; ++i ) { string k = i == m / 2 ? odd : "key" + std::to_string( i % ( m - 5 ) ), v = std::to_string( i * i ) + string( i, 'v' ); if ( i % 3 == 0 ) { p.push_back( k, v ); n.add( k ).v = v; } else { p.set( k, v ); node& c = n.child( k ); c = node(); c.v = v; } if ( i % 4 == 0 ) { p.get_or_add_child( k ).push_back( "sub", v ); n.child( k ).add( "sub" ).v = v; } }
	check( p, n ); prop_node copy( p ); vp_assert( copy == p && !( copy != p ), "a copy is equal" ); string q = vp_choice( 2 ) ? "key" + std::to_string( m - 7 ) : "key1" + vp_str( 1, "q" ); size_t i = n.find( q ); string v = vp_str( 1, "v" ); p.set( q, v ); node before = n; node& c = n.child( q ); c = node(); c.v = v; check( p, n ); check( copy, before ); vp_assert( vp_same( p.get< string >( q ), v ), "reads back" ); auto it = p.find( q ); vp_assert( size_t( it - p.begin() ) == i, "first child with the key" ); p.erase( it ); n.c.erase( n.c.begin() + i ); check( p, n ); if ( i < before.c.size() ) vp_assert( p != copy, "different" ); vp_reach( i < before.c.size() ? "replaced" : "appended" );
}
VP_ENTRY( deep )
{
	prop_node p; node n; string k; node* c = &n; int d = vp_param( 0 ); for ( int i = 0; i < d; ++i ) { string s = i == d / 2 ? string( 1, 'm' ) + vp_str_of( 1, "ab", "k" ) : "lv" + std::to_string( i ); k += ( i ? "." : "" ) + s; c = &c->child( s ); } string v = vp_str_upto( 2, "v" ); p.set_delimited( k, v ); c->v = v; check( p, n ); const prop_node& cp = p; vp_assert( vp_same( cp.get_delimited< string >( k ), v ), "delimited reading" ); p.set_delimited( k + ".x", v ); c->add( "x" ).v = v; check( p, n ); prop_node q( p ); vp_assert( q == p, "equal" ); q.set_delimited( k + ".x", v + "!" ); vp_assert( !( q == p ) && q != p, "a difference at the bottom counts" ); check( p, n ); vp_reach( "end" );
}
//@ entry=delimiter quick=5 thorough=12
//@ bounds: keys of 1..5 (thorough 12) levels with any delimiter byte
VP_ENTRY( delimiter )
{
	char d = vp_char( "delim" ); vp_assume( vp_and( d != 'a', vp_and( d != 'b', d != 'c' ) ) ); int n = 1 + (int)vp_choice( (unsigned)vp_param( 0 ) ); string k, o; std::vector< string > parts; for ( int i = 0; i < n; ++i ) { parts.push_back( string( 1 + i % 2, (char)( 'a' + i % 3 ) ) ); k += ( i ? string( 1, d ) : string() ) + parts[ i ]; } string v = vp_str( 1, "v" );
	prop_node p; p.set_delimited( k, v, d ); o = k; o.back() = 'c'; o += "c"; p.set_delimited( o, string( "other" ), d ); p.set_delimited( k, v, d ); const prop_node* c = &p; for ( int i = 0; i < n; ++i ) { vp_assert( c->size() == ( i == n - 1 ? 2u : 1u ) && c->has_key( parts[ i ] ), "one level per part of the key" ); c = &c->get_child( parts[ i ] ); } vp_assert( vp_same( c->get_value(), v ) && c->size() == 0, "the value at the last level" );
	vp_assert( vp_same( p.get_delimited< string >( k, d ), v ) && p.get_delimited< string >( o, d ) == "other", "the value is found again" ); const prop_node& q = p; vp_assert( q.try_get_child_delimited( k, d ) == c, "and the node" ); vp_assert( q.try_get_child_delimited( k + d + "a", d ) == nullptr && q.try_get_child_delimited( string( "x" ) + d + k, d ) == nullptr, "nothing is found elsewhere" ); vp_reach( "end" );
}
//@ entry=own_children quick=4 thorough=5 jobs=4
//@ bounds: every sequence of 4 (5) additions of copies of the tree's own children, values and keys
VP_ENTRY( own_children )
{
	node n; n.add( "a" ).v = vp_str( 1, "v" ); n.c[ 0 ].second.add( "b" ).v = "a long value that needs its own memory"; prop_node p = to_prop( n ); for ( long i = vp_param( 0 ); i > 0; --i ) { size_t k = vp_choice( 2 ) ? 0 : n.c.size() - 1; switch ( vp_choice( 5 ) ) { case 0: { node c = n.c[ k ].second; p.push_back( "k" + std::to_string( i ), p.get_child( k ) ); n.add( "k" + std::to_string( i ) ) = c; break; } case 1: { string v = n.c[ k ].second.v; p.push_back( "v" + std::to_string( i ), p.get_child( k ).get_value() ); n.add( "v" + std::to_string( i ) ).v = v; break; } case 2: { string key = n.c[ k ].first; p.push_back( ( p.begin() + k )->first, string( "x" ) ); n.add( key ).v = "x"; break; } case 3: { prop_node q( p ); p.push_back( "self", p ); node c = n; n.add( "self" ) = c; vp_assert( q == to_prop( c ), "a copy is independent" ); if ( i < 2 ) break; i = 1; break; } case 4: { string v = n.c[ k ].second.v; p.set( "first", p.get_child( k ).get_value() ); n.child( "first" ) = node(); n.child( "first" ).v = v; break; } } } vp_assert( same_tree( p, n ), "copies of own parts" ); const prop_node& r = p; p = r; vp_assert( same_tree( p, n ), "self assignment" ); vp_reach( "own" );
}
