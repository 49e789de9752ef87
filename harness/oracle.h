// Independent definitions the harnesses compare against.
#pragma once
#include <limits>
#include "vp.h"
#include <memory>
// heap copy without slack, so that any access outside the text is an out-of-bounds access
struct exact_buf {
	char* p; size_t n;
	explicit exact_buf( const std::string& s, bool zero = true ) : p( (char*)malloc( s.size() + ( zero ? 1 : 0 ) + ( s.empty() && !zero ? 1 : 0 ) ) ), n( s.size() ) { for ( size_t i = 0; i < n; ++i ) p[ i ] = s[ i ]; if ( zero ) p[ n ] = 0; }
	~exact_buf() { free( p ); }
};
inline bool orc_in( char c, const char* set ) { for ( ; *set; ++set ) if ( c == *set ) return true; return false; }
// escape decoding: returns the character, sets used (>=1)
inline char orc_decode( const std::string& s, size_t pos, size_t& used ) {
	used = 1; if ( s[ pos ] != '\\' || pos + 1 >= s.size() ) return s[ pos ];
	char c = s[ pos + 1 ]; used = 2;
	if ( c == '\\' || c == '"' ) return c;
	if ( c == 'r' ) return '\r';
	if ( c == 'n' ) return '\n';
	if ( c == 't' ) return '\t';
	if ( c == 0 ) return '?';
	int v = 0; size_t k = 0;
	while ( k < 3 && pos + 1 + k < s.size() && s[ pos + 1 + k ] >= '0' && s[ pos + 1 + k ] <= '7' ) { v = v * 8 + ( s[ pos + 1 + k ] - '0' ); ++k; }
	used = 1 + k;
	return k > 0 && v < 32 ? (char)v : '?';
}
