// Reference property tree.
#pragma once
#include "oracle.h"
#include "flut/prop_node.hpp"
struct node {
	std::string v; std::vector< std::pair< std::string, node > > c;
	size_t find( const std::string& k ) const { size_t i = 0; while ( i < c.size() && !( c[ i ].first == k ) ) ++i; return i; }
	bool has( const std::string& k ) const { return find( k ) < c.size(); }
	node& add( const std::string& k ) { c.push_back( std::make_pair( k, node() ) ); return c.back().second; }
	node& child( const std::string& k ) { size_t i = find( k ); return i < c.size() ? c[ i ].second : add( k ); }
};
inline bool same_tree( const flut::prop_node& p, const node& n )
{
	if ( p.size() != n.c.size() || !vp_same( p.get_value(), n.v ) ) return false;
	size_t i = 0; for ( auto& e : p ) { if ( !vp_same( e.first, n.c[ i ].first ) || !same_tree( e.second, n.c[ i ].second ) ) return false; ++i; }
	return true;
}
inline flut::prop_node to_prop( const node& n )
{
	flut::prop_node p; p.set_value( std::string( n.v ) ); for ( auto& e : n.c ) p.push_back( e.first, to_prop( e.second ) ); return p;
}
