#define __NO_INLINE__ 1
// Models of the C and C++ runtime for symbolic execution. Written for the classic "C" locale.
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <chrono>
#include <cstdarg>
#include <cerrno>
#include <climits>
#include <fnmatch.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdio>
#include <iostream>
#include <vector>
#include <unordered_map>
#include <map>
#include <list>
#include <system_error>
#include "vp.h"
#undef errno
extern "C" {
	int vp_fmt_double( char* buf, size_t n, double v, int prec, int conv );
	double vp_strtod( const char* s, size_t n );
	char* __cxa_demangle( const char* s, char*, size_t*, int* st ) { size_t n = 0, i = 0; while ( s[ i ] >= '0' && s[ i ] <= '9' ) n = n * 10 + ( s[ i++ ] - '0' ); char* r = (char*)malloc( n + 1 ); for ( size_t k = 0; k < n; ++k ) r[ k ] = s[ i + k ]; r[ n ] = 0; if ( st ) *st = 0; return r; } // names of the form <length><name> only
	static int the_errno;
	int* __errno_location() noexcept { return &the_errno; }
	size_t strlen( const char* s ) noexcept { size_t n = 0; while ( s[ n ] ) ++n; return n; }
	size_t strnlen( const char* s, size_t m ) noexcept { size_t n = 0; while ( n < m && s[ n ] ) ++n; return n; }
	static int in_set( char c, const char* set ) { int r = 0; for ( ; *set; ++set ) r |= ( c == *set ); return r; }
	size_t strcspn( const char* s, const char* r ) noexcept { size_t n = 0; while ( s[ n ] && !in_set( s[ n ], r ) ) ++n; return n; }
	size_t strspn( const char* s, const char* r ) noexcept { size_t n = 0; while ( s[ n ] && in_set( s[ n ], r ) ) ++n; return n; }
	char* m_strpbrk( const char* s, const char* r ) noexcept __asm__( "strpbrk" );
	char* m_strpbrk( const char* s, const char* r ) noexcept { for ( ; *s; ++s ) if ( in_set( *s, r ) ) return (char*)s; return nullptr; }
	int strcmp( const char* a, const char* b ) noexcept { while ( *a && *a == *b ) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
	int strncmp( const char* a, const char* b, size_t n ) noexcept { for ( size_t i = 0; i < n; ++i ) { if ( a[ i ] != b[ i ] ) return (int)(unsigned char)a[ i ] - (int)(unsigned char)b[ i ]; if ( !a[ i ] ) return 0; } return 0; }
	char* m_strrchr( const char* s, int c ) noexcept __asm__( "strrchr" );
	char* m_strrchr( const char* s, int c ) noexcept { const char* r = nullptr; for ( ;; ++s ) { if ( *s == (char)c ) r = s; if ( !*s ) break; } return (char*)r; }
	void* m_memrchr( const void* s, int c, size_t n ) noexcept __asm__( "memrchr" );
	void* m_memrchr( const void* s, int c, size_t n ) noexcept { const char* p = (const char*)s; while ( n-- ) if ( p[ n ] == (char)c ) return (void*)( p + n ); return nullptr; }
	char* m_strstr( const char* h, const char* n ) noexcept __asm__( "strstr" );
	char* m_strstr( const char* h, const char* n ) noexcept { for ( ;; ++h ) { size_t i = 0; while ( n[ i ] && h[ i ] == n[ i ] ) ++i; if ( !n[ i ] ) return (char*)h; if ( !*h ) return nullptr; } }
	char* strcpy( char* d, const char* s ) noexcept { size_t i = 0; do d[ i ] = s[ i ]; while ( s[ i++ ] ); return d; }
	char* stpcpy( char* d, const char* s ) noexcept { size_t i = 0; while ( ( d[ i ] = s[ i ] ) ) ++i; return d + i; }
	char* strcat( char* d, const char* s ) noexcept { strcpy( d + strlen( d ), s ); return d; }
	char* strncpy( char* d, const char* s, size_t n ) noexcept { size_t i = 0; for ( ; i < n && s[ i ]; ++i ) d[ i ] = s[ i ]; for ( ; i < n; ++i ) d[ i ] = 0; return d; }
	char* strdup( const char* s ) noexcept { size_t n = strlen( s ) + 1; char* r = (char*)malloc( n ); memcpy( r, s, n ); return r; }
	static int rng( int c, int a, int b ) { return (unsigned)( c - a ) <= (unsigned)( b - a ); }
	int isspace( int c ) noexcept { return ( c == ' ' ) | rng( c, 9, 13 ); }
	int isdigit( int c ) noexcept { return rng( c, '0', '9' ); }
	int isalpha( int c ) noexcept { return rng( c | 32, 'a', 'z' ) & rng( c, 0, 127 ); }
	int isalnum( int c ) noexcept { return isalpha( c ) | isdigit( c ); }
	int isupper( int c ) noexcept { return rng( c, 'A', 'Z' ); }
	int islower( int c ) noexcept { return rng( c, 'a', 'z' ); }
	int isprint( int c ) noexcept { return rng( c, 32, 126 ); }
	int isgraph( int c ) noexcept { return rng( c, 33, 126 ); }
	int iscntrl( int c ) noexcept { return rng( c, 0, 31 ) | ( c == 127 ); }
	int isblank( int c ) noexcept { return ( c == ' ' ) | ( c == '\t' ); }
	int ispunct( int c ) noexcept { return rng( c, 33, 126 ) & !isalnum( c ); }
	int isxdigit( int c ) noexcept { return rng( c, '0', '9' ) | rng( c, 'a', 'f' ) | rng( c, 'A', 'F' ); }
	int tolower( int c ) noexcept { return c + 32 * isupper( c ); }
	int toupper( int c ) noexcept { return c - 32 * islower( c ); }
	int isascii( int c ) noexcept { return rng( c, 0, 127 ); }
	int strcasecmp( const char* a, const char* b ) noexcept { while ( *a && tolower( (unsigned char)*a ) == tolower( (unsigned char)*b ) ) ++a, ++b; return tolower( (unsigned char)*a ) - tolower( (unsigned char)*b ); }
	// ---- integers
	static int digit_of( unsigned char c ) { if ( rng( c, '0', '9' ) ) return c - '0'; if ( rng( c, 'a', 'z' ) ) return c - 'a' + 10; if ( rng( c, 'A', 'Z' ) ) return c - 'A' + 10; return 99; }
	static bool parse_int( const char* s, char** end, int base, bool& neg, unsigned long long& acc ) { // returns true on overflow of 64 bits
		const char* p = s; while ( isspace( (unsigned char)*p ) ) ++p; neg = false; if ( *p == '-' ) { neg = true; ++p; } else if ( *p == '+' ) ++p;
		if ( base == 0 ) { if ( *p == '0' ) { if ( ( p[ 1 ] | 32 ) == 'x' && digit_of( p[ 2 ] ) < 16 ) { base = 16; p += 2; } else base = 8; } else base = 10; }
		else if ( base == 16 && *p == '0' && ( p[ 1 ] | 32 ) == 'x' && digit_of( p[ 2 ] ) < 16 ) p += 2;
		acc = 0; int nd = 0; bool any = false, ovf = false;
		for ( ;; ++p ) { unsigned char c = (unsigned char)*p; int d; if ( base <= 10 ) { if ( !rng( c, '0', '0' + base - 1 ) ) break; d = c - '0'; } else { d = digit_of( c ); if ( d >= base ) break; } any = true;
			if ( ++nd > 15 ) { unsigned long long m; if ( ovf || __builtin_mul_overflow( acc, (unsigned long long)base, &m ) || __builtin_add_overflow( m, (unsigned long long)d, &m ) ) ovf = true; else acc = m; } else acc = acc * base + d; }
		if ( end ) *end = (char*)( any ? p : s ); return ovf;
	}
	long strtol( const char* s, char** e, int b ) noexcept { bool n; unsigned long long a; bool o = parse_int( s, e, b, n, a ); if ( !n ) { if ( o || a > LONG_MAX ) { the_errno = ERANGE; return LONG_MAX; } return (long)a; } if ( o || a > (unsigned long long)LONG_MAX + 1 ) { the_errno = ERANGE; return LONG_MIN; } return (long)( 0 - a ); }
	unsigned long strtoul( const char* s, char** e, int b ) noexcept { bool n; unsigned long long a; bool o = parse_int( s, e, b, n, a ); if ( o ) { the_errno = ERANGE; return ULONG_MAX; } return n ? 0 - a : a; }
	long long strtoll( const char* s, char** e, int b ) noexcept { return strtol( s, e, b ); }
	unsigned long long strtoull( const char* s, char** e, int b ) noexcept { return strtoul( s, e, b ); }
	long m_strtol( const char* s, char** e, int b ) noexcept __asm__( "strtol" );
	long m_strtol( const char* s, char** e, int b ) noexcept { return strtol( s, e, b ); }
	unsigned long m_strtoul( const char* s, char** e, int b ) noexcept __asm__( "strtoul" );
	unsigned long m_strtoul( const char* s, char** e, int b ) noexcept { return strtoul( s, e, b ); }
	long long m_strtoll( const char* s, char** e, int b ) noexcept __asm__( "strtoll" );
	long long m_strtoll( const char* s, char** e, int b ) noexcept { return strtol( s, e, b ); }
	unsigned long long m_strtoull( const char* s, char** e, int b ) noexcept __asm__( "strtoull" );
	unsigned long long m_strtoull( const char* s, char** e, int b ) noexcept { return strtoul( s, e, b ); }
	int atoi( const char* s ) noexcept { return (int)strtol( s, nullptr, 10 ); }
	long atol( const char* s ) noexcept { return strtol( s, nullptr, 10 ); }
	// ---- floating point: syntax is followed symbolically, the value needs concrete text
	static int ieq( const char* p, const char* w ) { for ( ; *w; ++p, ++w ) if ( tolower( (unsigned char)*p ) != *w ) return 0; return 1; }
	double strtod( const char* s, char** end ) noexcept {
		const char* p = s; while ( isspace( (unsigned char)*p ) ) ++p; const char* b = p; bool neg = false; if ( *p == '-' ) { neg = true; ++p; } else if ( *p == '+' ) ++p;
		if ( tolower( (unsigned char)*p ) == 'i' || tolower( (unsigned char)*p ) == 'n' ) {
			if ( ieq( p, "inf" ) ) { p += ieq( p, "infinity" ) ? 8 : 3; if ( end ) *end = (char*)p; return neg ? -__builtin_inf() : __builtin_inf(); }
			if ( ieq( p, "nan" ) ) { p += 3; if ( *p == '(' ) { const char* q = p + 1; while ( isalnum( (unsigned char)*q ) || *q == '_' ) ++q; if ( *q == ')' ) p = q + 1; } if ( end ) *end = (char*)p; return __builtin_nan( "" ); }
		}
		bool hex = p[ 0 ] == '0' && ( p[ 1 ] | 32 ) == 'x' && ( isxdigit( (unsigned char)p[ 2 ] ) || ( p[ 2 ] == '.' && isxdigit( (unsigned char)p[ 3 ] ) ) ); if ( hex ) p += 2;
		bool any = false; while ( hex ? isxdigit( (unsigned char)*p ) : isdigit( (unsigned char)*p ) ) { any = true; ++p; }
		if ( *p == '.' ) { const char* q = p + 1; bool d2 = false; while ( hex ? isxdigit( (unsigned char)*q ) : isdigit( (unsigned char)*q ) ) { d2 = true; ++q; } if ( any || d2 ) p = q; any = any || d2; }
		if ( !any ) { if ( end ) *end = (char*)s; return 0; }
		if ( ( *p | 32 ) == ( hex ? 'p' : 'e' ) ) { const char* q = p + 1; if ( *q == '-' || *q == '+' ) ++q; if ( isdigit( (unsigned char)*q ) ) { while ( isdigit( (unsigned char)*q ) ) ++q; p = q; } }
		if ( end ) *end = (char*)p; double v = vp_strtod( b, (size_t)( p - b ) ); if ( v == __builtin_inf() || v == -__builtin_inf() ) the_errno = ERANGE; return v;
	}
	float strtof( const char* s, char** end ) noexcept { return (float)strtod( s, end ); }
	double atof( const char* s ) noexcept { return strtod( s, nullptr ); }
	// ---- printf
	int vsnprintf( char* buf, size_t cap, const char* f, va_list ap ) noexcept {
		size_t n = 0; auto put = [ & ]( char c ) { if ( n + 1 < cap ) buf[ n ] = c; ++n; };
		for ( ; *f; ++f ) {
			if ( *f != '%' ) { put( *f ); continue; } ++f;
			bool left = false, zero = false, plus = false, space = false, alt = false; for ( ;; ++f ) { if ( *f == '-' ) left = true; else if ( *f == '0' ) zero = true; else if ( *f == '+' ) plus = true; else if ( *f == ' ' ) space = true; else if ( *f == '#' ) alt = true; else break; }
			int width = 0, prec = -1; if ( *f == '*' ) { width = va_arg( ap, int ); if ( width < 0 ) { left = true; width = -width; } ++f; } else while ( isdigit( *f ) ) width = width * 10 + ( *f++ - '0' );
			if ( *f == '.' ) { ++f; prec = 0; if ( *f == '*' ) { prec = va_arg( ap, int ); ++f; } else while ( isdigit( *f ) ) prec = prec * 10 + ( *f++ - '0' ); }
			int lg = 0; for ( ;; ++f ) { if ( *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' ) lg++; else if ( *f == 'h' ) lg--; else if ( *f == 'L' ) lg = 9; else break; }
			char tmp[ 400 ]; const char* s = tmp; size_t len = 0; bool neg = false; char c = *f; size_t pre = 0; 
			switch ( c ) {
			case '%': put( '%' ); continue;
			case 'c': tmp[ 0 ] = (char)va_arg( ap, int ); len = 1; zero = false; break;
			case 's': s = va_arg( ap, const char* ); if ( !s ) s = "(null)"; while ( ( prec < 0 || len < (size_t)prec ) && s[ len ] ) ++len; zero = false; break;
			case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
				unsigned long long u; bool sg = c == 'd' || c == 'i'; if ( c == 'p' ) { u = (unsigned long long)va_arg( ap, void* ); alt = true; c = 'x'; } else if ( lg > 0 ) { u = va_arg( ap, unsigned long long ); } else { int v = va_arg( ap, int ); if ( lg == -1 ) u = sg ? (unsigned long long)(long long)(short)v : (unsigned short)v; else if ( lg <= -2 ) u = sg ? (unsigned long long)(long long)(signed char)v : (unsigned char)v; else u = sg ? (unsigned long long)(long long)v : (unsigned)v; }
				if ( sg && (long long)u < 0 ) { neg = true; u = 0 - u; }
				unsigned base = c == 'o' ? 8 : ( c == 'x' || c == 'X' ) ? 16 : 10; int k = 400, nd = 0; bool nz = u != 0; while ( u ) { unsigned d = (unsigned)( u % base ); tmp[ --k ] = (char)( d < 10 ? '0' + d : ( c == 'X' ? 'A' : 'a' ) + d - 10 ); u /= base; ++nd; }
				int mn = prec < 0 ? 1 : prec; while ( nd < mn && k > 8 ) { tmp[ --k ] = '0'; ++nd; } if ( alt && base == 8 && ( nd == 0 || tmp[ k ] != '0' ) ) tmp[ --k ] = '0';
				if ( prec >= 0 ) zero = false; 
				if ( alt && base == 16 && nz ) { tmp[ --k ] = c; tmp[ --k ] = '0'; pre = 2; }
				if ( neg ) { tmp[ --k ] = '-'; pre = 1; } else if ( sg && plus ) { tmp[ --k ] = '+'; pre = 1; } else if ( sg && space ) { tmp[ --k ] = ' '; pre = 1; }
				s = tmp + k; len = 400 - k; break; }
			case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { double v = va_arg( ap, double ); len = (size_t)vp_fmt_double( tmp + 1, sizeof tmp - 1, v, prec < 0 ? 6 : prec, c ); s = tmp + 1; if ( tmp[ 1 ] == '-' ) pre = 1; else if ( plus ) { tmp[ 0 ] = '+'; s = tmp; ++len; pre = 1; } else if ( space ) { tmp[ 0 ] = ' '; s = tmp; ++len; pre = 1; } break; }
			default: put( '%' ); put( c ); continue;
			}
			size_t pad = (size_t)width > len ? (size_t)width - len : 0; size_t i = 0;
			if ( !left && zero ) { for ( ; i < pre; ++i ) put( s[ i ] ); for ( ; pad; --pad ) put( '0' ); }
			if ( !left ) for ( ; pad; --pad ) put( ' ' );
			for ( ; i < len; ++i ) put( s[ i ] );
			for ( ; pad; --pad ) put( ' ' );
		}
		if ( cap ) buf[ n < cap ? n : cap - 1 ] = 0; return (int)n;
	}
	int snprintf( char* b, size_t n, const char* f, ... ) noexcept { va_list a; va_start( a, f ); int r = vsnprintf( b, n, f, a ); va_end( a ); return r; }
	int sprintf( char* b, const char* f, ... ) noexcept { va_list a; va_start( a, f ); int r = vsnprintf( b, (size_t)1 << 20, f, a ); va_end( a ); return r; }
	int vsprintf( char* b, const char* f, va_list a ) noexcept { return vsnprintf( b, (size_t)1 << 20, f, a ); }
	int printf( const char* f, ... ) { return 0; }
	int puts( const char* ) { return 0; }
	int putchar( int c ) { return c; }
	int fprintf( FILE*, const char* f, ... ) { return 0; }
	// ---- fnmatch (POSIX, "C" locale, byte characters)
	static int fold( int c, int fl ) { return ( fl & FNM_CASEFOLD ) ? tolower( c ) : c; }
	static const char* bracket( const char* p, unsigned char c, int fl, bool& match ) { // p after '['; returns position after ']' or null when it is not a bracket expression
		bool neg = false; if ( *p == '!' || *p == '^' ) { neg = true; ++p; } bool m = false; bool first = true; int cf = fold( c, fl );
		for ( ;; ) {
			if ( !*p ) return nullptr; if ( *p == ']' && !first ) { ++p; break; } first = false;
			if ( *p == '[' && ( p[ 1 ] == ':' || p[ 1 ] == '.' || p[ 1 ] == '=' ) ) { 
				char k = p[ 1 ]; const char* q = p + 2; while ( *q && !( *q == k && q[ 1 ] == ']' ) ) ++q; 
				if ( *q ) { size_t n = (size_t)( q - p - 2 ); const char* w = p + 2; auto is = [ & ]( const char* s ) { return strlen( s ) == n && memcmp( s, w, n ) == 0; };
					if ( k == ':' ) { if ( ( is( "alpha" ) && isalpha( c ) ) || ( is( "digit" ) && isdigit( c ) ) || ( is( "alnum" ) && isalnum( c ) ) || ( is( "space" ) && isspace( c ) ) || ( is( "upper" ) && isupper( c ) ) || ( is( "lower" ) && islower( c ) ) || ( is( "punct" ) && ispunct( c ) ) || ( is( "xdigit" ) && isxdigit( c ) ) || ( is( "print" ) && isprint( c ) ) || ( is( "graph" ) && isgraph( c ) ) || ( is( "cntrl" ) && iscntrl( c ) ) || ( is( "blank" ) && isblank( c ) ) ) m = true; }
					else if ( n == 1 && *w == (char)c ) m = true;
					p = q + 2; continue; } }
			if ( *p == '\\' && !( fl & FNM_NOESCAPE ) && p[ 1 ] ) ++p;
			unsigned char lo = (unsigned char)*p++; unsigned char hi = lo;
			if ( *p == '-' && p[ 1 ] && p[ 1 ] != ']' ) { ++p; if ( *p == '\\' && !( fl & FNM_NOESCAPE ) && p[ 1 ] ) ++p; hi = (unsigned char)*p++; }
			if ( fold( lo, fl ) <= cf && cf <= fold( hi, fl ) ) m = true;
		}
		match = m != neg; return p;
	}
	static int fnm( const char* p, const char* s, const char* s0, int fl ) {
		for ( ;; ) {
			char c = *p; 
			if ( c == 0 ) return *s ? ( ( fl & FNM_LEADING_DIR ) && *s == '/' ? 0 : FNM_NOMATCH ) : 0;
			bool lead = ( fl & FNM_PERIOD ) && *s == '.' && ( s == s0 || ( ( fl & FNM_PATHNAME ) && s[ -1 ] == '/' ) );
			if ( c == '?' ) { if ( !*s || ( ( fl & FNM_PATHNAME ) && *s == '/' ) || lead ) return FNM_NOMATCH; ++p; ++s; continue; }
			if ( c == '*' ) {
				if ( lead ) return FNM_NOMATCH; while ( *p == '*' ) ++p;
				if ( !*p && !( fl & ( FNM_PATHNAME | FNM_LEADING_DIR ) ) ) return 0;
				for ( ;; ++s ) { if ( fnm( p, s, s0, fl & ~( s == s0 ? 0 : 0 ) ) == 0 ) return 0; if ( !*s || ( ( fl & FNM_PATHNAME ) && *s == '/' ) ) return FNM_NOMATCH; }
			}
			if ( c == '[' ) {
				if ( !*s ) return FNM_NOMATCH; if ( lead ) return FNM_NOMATCH; bool m = false; const char* q = bracket( p + 1, (unsigned char)*s, fl, m );
				if ( q ) { if ( ( fl & FNM_PATHNAME ) && *s == '/' ) return FNM_NOMATCH; if ( !m ) return FNM_NOMATCH; p = q; ++s; continue; }
			}
			if ( c == '\\' && !( fl & FNM_NOESCAPE ) ) { c = *++p; if ( !c ) return FNM_NOMATCH; }
			if ( !*s || fold( (unsigned char)c, fl ) != fold( (unsigned char)*s, fl ) ) return FNM_NOMATCH; ++p; ++s;
		}
	}
	int fnmatch( const char* p, const char* s, int fl ) { return fnm( p, s, s, fl ); }
	// ---- time and environment
	time_t time( time_t* t ) noexcept { time_t v = 1600000000; if ( t ) *t = v; return v; }
	static struct tm the_tm; struct tm* localtime( const time_t* ) noexcept { return &the_tm; }
	char* getenv( const char* ) noexcept { return nullptr; }
	static unsigned long self_; unsigned long pthread_self() noexcept { return (unsigned long)&self_; }
	void __cxa_deleted_virtual() { abort(); }
}
// ---------------------------------------------------------------- files
static std::vector<std::pair<std::string, std::string>>& vp_files() { static auto* f = new std::vector<std::pair<std::string, std::string>>; return *f; }
// a small file system: files with contents, folders and sockets, relative to a current folder
static std::vector<std::pair<std::string, int>>& vp_special() { static auto* d = new std::vector<std::pair<std::string, int>>; return *d; }
static std::string& vp_cwd() { static std::string c; return c; }
static std::string vp_norm( const std::string& n ) {
	bool plain = vp_cwd().empty(); for ( char c : n ) if ( c == '/' ) plain = false; if ( plain ) return n;
	std::string f = !n.empty() && n[ 0 ] == '/' ? n : vp_cwd().empty() ? n : vp_cwd() + "/" + n, r; size_t i = 0; if ( f[ 0 ] == '/' ) r = "/";
	while ( i < f.size() ) { size_t e = i; while ( e < f.size() && f[ e ] != '/' ) ++e; std::string part = f.substr( i, e - i ); if ( !part.empty() && part != "." ) { if ( !r.empty() && r[ r.size() - 1 ] != '/' ) r += '/'; r += part; } i = e + 1; }
	if ( r.compare( 0, 4, "/vp/" ) == 0 ) r = r.substr( 4 ); return r; }
static int vp_kind_( const std::string& norm ) { for ( auto& f : vp_files() ) if ( f.first == norm ) return 0; for ( auto& d : vp_special() ) if ( d.first == norm ) return d.second; return norm == "/" || norm == "/vp" ? 1 : norm == "/dev/full" ? 0 : -1; }
static bool vp_parent_( const std::string& norm ) { size_t p = norm.rfind( '/' ); return p == std::string::npos || p == 0 || vp_kind_( norm.substr( 0, p ) ) == 1; }
static bool vp_slash( const std::string& n ) { return !n.empty() && n[ n.size() - 1 ] == '/'; }
void vp_file_write( const std::string& name, const std::string& content ) { std::string n = vp_norm( name ); for ( auto& f : vp_files() ) if ( f.first == n ) { f.second = content; return; } vp_files().emplace_back( n, content ); }
bool vp_file_read( const std::string& name, std::string& content ) { std::string n = vp_norm( name ); for ( auto& f : vp_files() ) if ( f.first == n ) { content = f.second; return !vp_slash( name ); } content.clear(); return vp_kind_( n ) >= 0 && vp_kind_( n ) != 2; }
bool vp_file_writable( const std::string& name ) { std::string n = vp_norm( name ); if ( n == "/dev/full" ) return true; int k = vp_kind_( n ); return !n.empty() && !vp_slash( name ) && k <= 0 && vp_parent_( n ); }
void vp_fs_make( const std::string& name, int kind ) { std::string n = vp_norm( name ); if ( kind == 0 ) vp_file_write( name, "" ); else vp_special().emplace_back( n, kind ); }
int vp_fs_kind( const std::string& name ) { return vp_kind_( vp_norm( name ) ); }
static bool vp_faults = false; void vp_fs_faults( int on ) { vp_faults = on != 0; }
extern "C" {
	int stat( const char* p, struct stat* st ) noexcept { std::string n = vp_norm( p ); int k = n.empty() ? -1 : vp_kind_( n ); if ( k < 0 || ( k != 1 && vp_slash( p ) ) ) return -1; memset( st, 0, sizeof( *st ) ); st->st_mode = k == 1 ? S_IFDIR | 0755 : k == 2 ? S_IFSOCK | 0755 : S_IFREG | 0644; return 0; }
	int lstat( const char* p, struct stat* st ) noexcept { return stat( p, st ); }
	int access( const char* p, int ) noexcept { struct stat st; return stat( p, &st ); }
	int mkdir( const char* p, mode_t ) noexcept { std::string n = vp_norm( p ); if ( vp_faults && ( vp_sym_u8( "fault" ) & 1 ) ) return -1; if ( n.empty() || vp_kind_( n ) >= 0 || !vp_parent_( n ) ) return -1; vp_special().emplace_back( n, 1 ); return 0; }
	int chdir( const char* p ) noexcept { std::string n = vp_norm( p ); if ( n.empty() || vp_kind_( n ) != 1 ) return -1; vp_cwd() = n == "/vp" ? std::string() : n; return 0; }
	char* getcwd( char* b, size_t m ) noexcept { std::string n = vp_cwd(); if ( n.empty() || n[ 0 ] != '/' ) n = n.empty() ? "/vp" : "/vp/" + n; if ( b && m <= n.size() ) return nullptr; if ( !b ) b = (char*)malloc( n.size() + 1 ); memcpy( b, n.c_str(), n.size() + 1 ); return b; }
	int unlink( const char* p ) noexcept { std::string n = vp_norm( p ); auto& f = vp_files(); for ( size_t i = 0; i < f.size(); ++i ) if ( f[ i ].first == n ) { f.erase( f.begin() + i ); return 0; } return -1; }
	int remove( const char* p ) noexcept { std::string n = vp_norm( p ); auto& d = vp_special(); for ( size_t i = 0; i < d.size(); ++i ) if ( d[ i ].first == n ) { for ( auto& f : vp_files() ) if ( f.first.compare( 0, n.size() + 1, n + "/" ) == 0 ) return -1; for ( auto& f : d ) if ( f.first.compare( 0, n.size() + 1, n + "/" ) == 0 ) return -1; d.erase( d.begin() + i ); return 0; } return unlink( p ); }
}
// ---------------------------------------------------------------- C++ runtime
namespace std {
	exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
	type_info::~type_info() {}
	bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
	bool type_info::__do_catch( const type_info*, void**, unsigned ) const { return false; } bool type_info::__do_upcast( const __cxxabiv1::__class_type_info*, void** ) const { return false; }
	static const char* dup_( const char* s, size_t n ) { char* r = (char*)malloc( n + 1 ); memcpy( r, s, n ); r[ n ] = 0; return r; }
	__cow_string::__cow_string() { _M_p = dup_( "", 0 ); } __cow_string::__cow_string( const string& s ) { _M_p = dup_( s.data(), s.size() ); } __cow_string::__cow_string( const char* s, size_t n ) { _M_p = dup_( s, n ); }
	__cow_string::__cow_string( const __cow_string& o ) noexcept { _M_p = dup_( o._M_p, strlen( o._M_p ) ); } __cow_string& __cow_string::operator=( const __cow_string& o ) noexcept { _M_p = dup_( o._M_p, strlen( o._M_p ) ); return *this; }
	__cow_string::~__cow_string() {}
	__cow_string::__cow_string( __cow_string&& o ) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=( __cow_string&& o ) noexcept { _M_p = o._M_p; return *this; }
	logic_error::logic_error( const string& s ) : _M_msg( s ) {} logic_error::logic_error( const char* s ) : _M_msg( s, strlen( s ) ) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
	logic_error::logic_error( const logic_error& o ) noexcept : _M_msg( o._M_msg ) {} logic_error& logic_error::operator=( const logic_error& o ) noexcept { _M_msg = o._M_msg; return *this; } logic_error::logic_error( logic_error&& o ) noexcept : _M_msg( o._M_msg ) {}
	runtime_error::runtime_error( const string& s ) : _M_msg( s ) {} runtime_error::runtime_error( const char* s ) : _M_msg( s, strlen( s ) ) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
	runtime_error::runtime_error( const runtime_error& o ) noexcept : _M_msg( o._M_msg ) {} runtime_error& runtime_error::operator=( const runtime_error& o ) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::runtime_error( runtime_error&& o ) noexcept : _M_msg( o._M_msg ) {}
#define VP_ERR( T, B ) T::T( const string& s ) : B( s ) {} T::T( const char* s ) : B( s ) {} T::~T() noexcept {}
	VP_ERR( domain_error, logic_error ) VP_ERR( invalid_argument, logic_error ) VP_ERR( length_error, logic_error ) VP_ERR( out_of_range, logic_error )
	VP_ERR( range_error, runtime_error ) VP_ERR( overflow_error, runtime_error ) VP_ERR( underflow_error, runtime_error )
	void __throw_logic_error( const char* s ) { throw logic_error( s ); }
	void __throw_domain_error( const char* s ) { throw domain_error( s ); }
	void __throw_invalid_argument( const char* s ) { throw invalid_argument( s ); }
	void __throw_length_error( const char* s ) { throw length_error( s ); }
	void __throw_out_of_range( const char* s ) { throw out_of_range( s ); }
	void __throw_out_of_range_fmt( const char* s, ... ) { throw out_of_range( s ); }
	void __throw_runtime_error( const char* s ) { throw runtime_error( s ); }
	void __throw_range_error( const char* s ) { throw range_error( s ); }
	void __throw_overflow_error( const char* s ) { throw overflow_error( s ); }
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_cast() { throw bad_cast(); }
	void __throw_bad_typeid() { throw bad_typeid(); }
	void __throw_bad_function_call() { throw bad_function_call(); }
	void __throw_system_error( int ) { throw runtime_error( "system_error" ); }
	void __glibcxx_assert_fail( const char* file, int line, const char* fn, const char* cond ) noexcept { abort(); }
	const nothrow_t nothrow{};
	ostream cout, cerr, clog; istream cin;
	// hashing: a constant hash keeps the containers' semantics (iteration order is unspecified)
	size_t _Hash_bytes( const void*, size_t, size_t ) { return 7; }
	size_t _Fnv_hash_bytes( const void*, size_t, size_t ) { return 7; }
	namespace __detail {
		size_t _Prime_rehash_policy::_M_next_bkt( size_t n ) const { size_t b = 13; while ( b < n ) b = b * 2 + 1; _M_next_resize = (size_t)( (float)b * _M_max_load_factor ); return b; }
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t nb, size_t ne, size_t ni ) const {
			if ( ne + ni > _M_next_resize ) { size_t mb = ne + ni; if ( mb >= nb ) return { true, _M_next_bkt( mb + 1 > nb * 2 ? mb + 1 : nb * 2 ) }; _M_next_resize = nb; }
			return { false, 0 };
		}
		void _List_node_base::_M_hook( _List_node_base* const p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { auto n = _M_next; auto p = _M_prev; p->_M_next = n; n->_M_prev = p; }
	}
	// red-black trees (same algorithms as libstdc++'s tree.cc)
	static _Rb_tree_node_base* inc_( _Rb_tree_node_base* x ) { if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; } else { auto y = x->_M_parent; while ( x == y->_M_right ) { x = y; y = y->_M_parent; } if ( x->_M_right != y ) x = y; } return x; }
	static _Rb_tree_node_base* dec_( _Rb_tree_node_base* x ) { if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) x = x->_M_right; else if ( x->_M_left ) { auto y = x->_M_left; while ( y->_M_right ) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while ( x == y->_M_left ) { x = y; y = y->_M_parent; } x = y; } return x; }
	_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw() { return inc_( x ); }
	const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x ) throw() { return inc_( const_cast<_Rb_tree_node_base*>( x ) ); }
	_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw() { return dec_( x ); }
	const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x ) throw() { return dec_( const_cast<_Rb_tree_node_base*>( x ) ); }
	static void rotl_( _Rb_tree_node_base* const x, _Rb_tree_node_base*& root ) { auto y = x->_M_right; x->_M_right = y->_M_left; if ( y->_M_left ) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if ( x == root ) root = y; else if ( x == x->_M_parent->_M_left ) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
	static void rotr_( _Rb_tree_node_base* const x, _Rb_tree_node_base*& root ) { auto y = x->_M_left; x->_M_left = y->_M_right; if ( y->_M_right ) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if ( x == root ) root = y; else if ( x == x->_M_parent->_M_right ) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
	void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h ) throw() {
		auto& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
		if ( left ) { p->_M_left = x; if ( p == &h ) { h._M_parent = x; h._M_right = x; } else if ( p == h._M_left ) h._M_left = x; } else { p->_M_right = x; if ( p == h._M_right ) h._M_right = x; }
		while ( x != root && x->_M_parent->_M_color == _S_red ) {
			auto g = x->_M_parent->_M_parent;
			if ( x->_M_parent == g->_M_left ) { auto y = g->_M_right; if ( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if ( x == x->_M_parent->_M_right ) { x = x->_M_parent; rotl_( x, root ); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr_( g, root ); } }
			else { auto y = g->_M_left; if ( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if ( x == x->_M_parent->_M_left ) { x = x->_M_parent; rotr_( x, root ); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl_( g, root ); } }
		}
		root->_M_color = _S_black;
	}
	// erasure keeps the search-tree order; colours are not rebalanced (depth only, no observable effect)
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& h ) throw() {
		auto& root = h._M_parent; auto repl = [ & ]( _Rb_tree_node_base* a, _Rb_tree_node_base* b ) { if ( a == root ) root = b; else if ( a->_M_parent->_M_left == a ) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if ( b ) b->_M_parent = a->_M_parent; };
		_Rb_tree_node_base* nl = h._M_left == z ? inc_( z ) : h._M_left; _Rb_tree_node_base* nr = h._M_right == z ? ( h._M_left == z ? &h : dec_( z ) ) : h._M_right; if ( h._M_left == z && h._M_right == z ) nl = &h;
		if ( !z->_M_left ) repl( z, z->_M_right ); else if ( !z->_M_right ) repl( z, z->_M_left ); else { auto y = z->_M_right; while ( y->_M_left ) y = y->_M_left; if ( y->_M_parent != z ) { repl( y, y->_M_right ); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl( z, y ); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color; }
		h._M_left = nl; h._M_right = nr; if ( root ) root->_M_color = _S_black; return z;
	}
	namespace chrono { inline namespace _V2 {
		static int64_t the_clock = 1, step = 0; static bool frozen = true;
		static int64_t vp_tick() { if ( frozen ) return the_clock += step; uint64_t d = vp_sym_bits( 16, "clock" ); the_clock += (int64_t)d; return the_clock; }
		system_clock::time_point system_clock::now() noexcept { return time_point( duration( vp_tick() ) ); }
		steady_clock::time_point steady_clock::now() noexcept { return time_point( duration( vp_tick() ) ); }
	} }
	namespace _V2 { struct vp_cat : error_category { const char* name() const noexcept override { return "c"; } string message( int ) const override { return "c"; } }; }
}

void vp_clock_freeze( int on ) { std::chrono::frozen = on != 0; std::chrono::step = 0; }
void vp_clock_step( int64_t ns ) { std::chrono::frozen = true; std::chrono::step = ns; }
void vp_clock_advance( int64_t ns ) { std::chrono::the_clock += ns; }
int64_t vp_clock_value() { return std::chrono::the_clock; }
// handlers registered for the end of the program, run on request in reverse order
static struct { void (*f)( void* ); void* a; } vp_at[ 256 ]; static int vp_at_n = 0;
extern "C" int __cxa_atexit( void (*f)( void* ), void* a, void* ) { if ( vp_at_n < 256 ) { vp_at[ vp_at_n ].f = f; vp_at[ vp_at_n ].a = a; ++vp_at_n; } return 0; }
extern "C" void vp_run_atexit() { while ( vp_at_n > 0 ) { --vp_at_n; vp_at[ vp_at_n ].f( vp_at[ vp_at_n ].a ); } }
