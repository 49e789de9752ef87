#pragma once
// Model of std::istreambuf_iterator and std::ostreambuf_iterator over the stream model.
#include <streambuf>
#include <bits/stl_iterator_base_types.h>
namespace std {
	template< typename C, typename T > class istreambuf_iterator {
	public:
		typedef input_iterator_tag iterator_category; typedef C value_type; typedef typename T::off_type difference_type; typedef C* pointer; typedef C reference;
		typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef basic_streambuf<C, T> streambuf_type; typedef basic_istream<C, T> istream_type;
		struct proxy { C c; C operator*() const { return c; } };
		constexpr istreambuf_iterator() noexcept : b( nullptr ) {}
		istreambuf_iterator( istream_type& s ) noexcept : b( s.rdbuf() ) {}
		istreambuf_iterator( streambuf_type* s ) noexcept : b( s ) {}
		C operator*() const { return b->data[ b->rpos ]; }
		istreambuf_iterator& operator++() { b->rpos++; return *this; }
		proxy operator++( int ) { proxy p = { **this }; b->rpos++; return p; }
		bool equal( const istreambuf_iterator& o ) const { return done() == o.done(); }
	private:
		bool done() const { return !b || !b->in || b->rpos >= b->data.size(); }
		streambuf_type* b;
	};
	template< typename C, typename T > inline bool operator==( const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b ) { return a.equal( b ); }
	template< typename C, typename T > inline bool operator!=( const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b ) { return !a.equal( b ); }
	template< typename C, typename T > class ostreambuf_iterator {
	public:
		typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
		typedef C char_type; typedef T traits_type; typedef basic_streambuf<C, T> streambuf_type; typedef basic_ostream<C, T> ostream_type;
		ostreambuf_iterator( ostream_type& s ) noexcept : b( s.rdbuf() ), f( !b ) {}
		ostreambuf_iterator( streambuf_type* s ) noexcept : b( s ), f( !b ) {}
		ostreambuf_iterator& operator=( C c ) { if ( !f && T::eq_int_type( b->sputc( c ), T::eof() ) ) f = true; return *this; }
		ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++( int ) { return *this; }
		bool failed() const noexcept { return f; }
	private:
		streambuf_type* b; bool f;
	};
}
