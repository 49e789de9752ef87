// C03: token reading is safe, makes progress and loses no text
//@ entry=tokens quick=4 thorough=6 jobs=6 time=100
//@ entry=tokens_special quick=6 thorough=8 jobs=4 time=100
//@ entry=tokens_long quick=40,4;1100,2 thorough=40,4;1100,3 jobs=3
//@ entry=tokens_binary quick=4 thorough=5 jobs=3
//@ entry=lines quick=5 thorough=7 jobs=3
//@ bounds: every NUL-free text of length 0..4 (thorough 6), every text of length 0..6 (8) over the characters a b space newline = { " ' \ 1, each with 4 delimiter/operator/quotation configurations; texts with a prefix of 40 or 1100 bytes; texts with NUL bytes (safety and termination only); lines of every text of length 0..5 (7)
#include "oracle.h"
#include "flut/char_stream.hpp"
#include "flut/string_tools.hpp"
using namespace flut;

struct config { const char *delim, *ops, *quot; };
static const config cfgs[] = { { " \t\r\n\f\v", "", "\"" }, { " ,", "=+", "\"'" }, { "\n\r\t\v;", "={}%", "\"'" }, { " \n", "={", "" } };

static std::vector< string > orc_tokens( const string& t, const config& c )
{
	std::vector< string > r; size_t p = 0, n = t.size();
	while ( p < n && orc_in( t[ p ], c.delim ) ) ++p;
	while ( p < n ) {
		string s; bool some = false;
		while ( p < n && !orc_in( t[ p ], c.delim ) ) {
			if ( orc_in( t[ p ], c.quot ) ) {
				char q = t[ p++ ]; some = true;
				while ( p < n && t[ p ] != q ) { size_t used; s += orc_decode( t, p, used ); p += used; }
				if ( p < n ) ++p;
			}
			else if ( orc_in( t[ p ], c.ops ) ) { if ( !some ) s = t[ p++ ]; break; }
			else { s += t[ p++ ]; some = true; }
		}
		r.push_back( s );
		while ( p < n && orc_in( t[ p ], c.delim ) ) ++p;
	}
	return r;
}
static void check( const string& t, const config& c )
{
	auto e = orc_tokens( t, c );
	exact_buf b( t );
	char_stream str( b.p, c.delim );
	size_t k = 0;
	while ( str.good() ) {
		vp_assert( k < e.size(), "no token is invented and reading ends" );
		string s = str.get_token( c.ops, c.quot );
		vp_assert( vp_same( s, e[ k ] ), "tokens are read exactly, in order" );
		++k;
	}
	vp_assert( k == e.size(), "no token is lost" );
	vp_assert( str.eof(), "reading stops at the end of the text" );
	vp_assert( !str.fail(), "reading tokens does not fail" );
	vp_reach( "tokens" );
	if ( k > 1 ) vp_reach( "several" );
}
VP_ENTRY( tokens ) { unsigned c = vp_choice( 4 ); check( vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ), cfgs[ c ] ); }
VP_ENTRY( tokens_special ) { unsigned c = vp_choice( 4 ); check( vp_str_of_upto( vp_param( 0 ), "a \n=\"'\\{" ), cfgs[ c ] ); }
VP_ENTRY( tokens_long )
{
	unsigned c = vp_choice( 4 ); string f( vp_param( 0 ), 'x' );
	string m = vp_str_nz( vp_param( 1 ) );
	check( vp_choice( 2 ) ? f + m : m + f, cfgs[ c ] );
}
VP_ENTRY( tokens_binary )
{
	// texts with NUL bytes: safety and termination
	const config& c = cfgs[ vp_choice( 4 ) ];
	string t = string( 16, 'x' ) + vp_str( vp_param( 0 ) ); size_t n = t.size();
	char_stream str( string( t.data(), n ), c.delim );
	size_t k = 0;
	while ( str.good() ) { vp_assert( k <= n, "reading ends" ); string s = str.get_token( c.ops, c.quot ); vp_assert( s.size() <= n, "a token is not longer than the text" ); ++k; }
	vp_assert( str.eof(), "reading stops at the end of the text" ); vp_reach( "binary" );
	// text after a NUL is still read
	char_stream s2( t + string( 1, char( 0 ) ) + "tail", " " ); string last; while ( s2.good() ) last = s2.get_token( "", "" ); vp_assert( last == "tail", "text after a NUL byte is read" );
}
VP_ENTRY( lines )
{
	string t = vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) );
	exact_buf b( t ); char_stream str( b.p );
	size_t p = 0, n = t.size(); const char* d = " \t\r\n\f\v";
	while ( p < n && orc_in( t[ p ], d ) ) ++p;
	while ( p < n ) {
		vp_assert( str.good(), "there is a line to read" );
		size_t q = p; while ( q < n && t[ q ] != '\n' && t[ q ] != '\r' ) ++q;
		string l = str.get_line();
		vp_assert( vp_same( l, t.substr( p, q - p ) ), "a line is the text up to the line end" );
		p = q; while ( p < n && orc_in( t[ p ], d ) ) ++p;
		vp_reach( "line" );
	}
	vp_assert( !str.good() && str.eof(), "no more lines" );
}
//@ entry=tokens_many quick=110 thorough=150 jobs=2
//@ entry=lines_many quick=130 thorough=150
//@ bounds: texts of 220 (thorough 300) tokens of all kinds, and of 130 (150) lines, with two arbitrary bytes in front, in the middle or at the end
VP_ENTRY( tokens_many )
{
	string f; long n = vp_param( 0 ); for ( long i = 0; i < n; ++i ) { f += string( 1 + i % 19, char( 'a' + i % 26 ) ) + ( i % 4 == 0 ? " " : i % 4 == 1 ? "=" : i % 4 == 2 ? "\n" : " \"q \\\"\\n\\007" + string( i, 'z' ) + "\" " ); }
	string m = vp_str_nz( 2 ); const config& c = cfgs[ vp_choice( 4 ) ]; unsigned k = vp_choice( 3 ); check( k == 0 ? m + f : k == 1 ? f + m + f : f + m, c );
}
VP_ENTRY( lines_many )
{
	long n = vp_param( 0 ), at = n - 1 - (long)vp_choice( 3 ); string t; std::vector< string > e; for ( long i = 0; i < n; ++i ) { string l( 1 + i * 3, char( 'a' + i % 26 ) ); if ( i == at ) { l += vp_char(); char c = l.back(); vp_assume( vp_and( vp_and( c != 0, c != '\n' ), c != '\r' ) ); l += "x"; } e.push_back( l ); t += l + ( i % 3 ? "\n" : "\r\n\n" ); }
	exact_buf b( t ); char_stream s( b.p ); size_t k = 0; while ( s.good() ) { vp_assert( k < e.size(), "no line is invented" ); vp_assert( vp_same( s.get_line(), e[ k ] ), "lines are read exactly, in order" ); ++k; } vp_assert( k == e.size(), "no line is lost" ); vp_reach( "lines" );
}

//@ entry=copies quick=3 thorough=5
//@ bounds: copies of streams over texts of 0..3 (thorough 5) characters, and of 40 more, after reading 0..2 tokens
static std::vector< string > rest( char_stream& s ) { std::vector< string > r; while ( s.good() ) r.push_back( s.get_token( "=" ) ); return r; }
VP_ENTRY( copies )
{
	string t = vp_str_of_upto( vp_param( 0 ), "a =\"", "t" ); if ( vp_choice( 2 ) ) t += string( 30, 'x' ) + " y z = \"w w\""; unsigned k = vp_choice( 3 ), how = vp_choice( 4 ); bool own = vp_choice( 2 ) != 0; const char* text = t.c_str();
	auto make = [&] { return own ? new char_stream( string( t ) ) : new char_stream( text ); }; std::unique_ptr< char_stream > a( make() ), o( make() ), c; for ( unsigned i = 0; i < k && a->good(); ++i ) { a->get_token( "=" ); o->get_token( "=" ); }
	if ( how == 0 ) c.reset( new char_stream( *a ) ); else if ( how == 1 ) c.reset( new char_stream( std::move( *a ) ) ); else { c.reset( how == 2 ? new char_stream( string( "other text that is longer than a small string" ) ) : new char_stream( "q" ) ); *c = *a; vp_assert( a->good() == o->good() && rest( *a ) == rest( *o ), "the original is unchanged" ); o.reset( make() ); for ( unsigned i = 0; i < k && o->good(); ++i ) o->get_token( "=" ); }
	vp_assert( c->eof() == o->eof() && c->fail() == o->fail(), "a copy is in the state of the original" ); a.reset(); auto e = rest( *o ), r = rest( *c ); vp_assert( r == e, "a copy continues where the original stood" ); if ( own ) { string u = t; char_stream f( std::move( u ) ); char_stream& g = f; f = g; vp_assert( rest( f ).size() >= e.size(), "assignment to itself" ); } vp_reach( "end" );
}
//@ entry=files quick=3 thorough=5 jobs=4
//@ bounds: files of 0..3 (thorough 5) arbitrary non-zero bytes, also behind 40 letters, and a missing file
#include "flut/system/error_code.hpp"
VP_ENTRY( files )
{
	const config& c = cfgs[ vp_choice( 4 ) ]; string t = string( vp_choice( 2 ) ? 40 : 0, 'x' ) + vp_str_nz( vp_choice( vp_param( 0 ) + 1 ) ); unsigned how = vp_choice( 3 );
	if ( how == 2 ) { error_code ec; auto s = load_char_stream( path( "none.txt" ), c.delim, &ec ); vp_assert( ec.error() && !s.good(), "a missing file is reported and holds nothing" ); bool th = false; try { load_char_stream( path( "none.txt" ) ); } catch ( std::exception& ) { th = true; } vp_assert( th, "a missing file is an error" ); vp_reach( "missing" ); return; }
	vp_file_write( "t.txt", t ); error_code ec; auto e = orc_tokens( t, c ); char_stream s = how ? load_char_stream( path( "t.txt" ), c.delim, &ec ) : load_char_stream( path( "t.txt" ), c.delim ); size_t k = 0; vp_assert( ec.ok(), "the file was read" );
	while ( s.good() ) { vp_assert( k < e.size(), "no token is invented" ); string w = s.get_token( c.ops, c.quot ); vp_assert( vp_same( w, e[ k ] ), "tokens of the file are read exactly, in order" ); ++k; } vp_assert( k == e.size() && s.eof() && !s.fail(), "no token of the file is lost" ); vp_reach( "file" );
}
