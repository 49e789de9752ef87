// Harness interface: the same harness source is executed symbolically (engine) and natively (replay).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
extern "C" {
	uint8_t vp_sym_u8( const char* name );                        // arbitrary byte
	uint64_t vp_sym_bits( unsigned long bits, const char* name ); // arbitrary value of the given width, zero extended
	double vp_sym_double( const char* name );                     // arbitrary double (a real number in real mode)
	unsigned vp_choice( unsigned n );                             // one of 0..n-1, explored exhaustively
	void vp_run_atexit(); // run the handlers registered for the end of the program
	void vp_assume( int c );
	void vp_assert_( int c, const char* msg );
	void vp_reach( const char* name );                            // reachability witness
	long vp_param( int i );
	int vp_symbolic();                                            // 1 in the engine, 0 in native replay
	int vp_is_real();                                             // 1 in real mode
	uint64_t vp_conc( uint64_t v );                               // fork over the values of v
	int vp_and( int a, int b );                                   // non-forking connectives
	int vp_or( int a, int b );
	void vp_debug( const char* s, uint64_t v );
}
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define vp_assert( c, msg ) vp_assert_( ( c ) ? 1 : 0, msg )
#ifdef VP_NATIVE
struct vp_reg { vp_reg( const char* n, void ( *f )() ); };
#define VP_ENTRY( name ) extern "C" void name(); static vp_reg vp_reg_##name( #name, name ); extern "C" void name()
#else
#define VP_ENTRY( name ) extern "C" void name()
#endif
inline int vp_int( const char* n = "i" ) { return (int)(uint32_t)vp_sym_bits( 32, n ); }
inline unsigned vp_uint( const char* n = "u" ) { return (uint32_t)vp_sym_bits( 32, n ); }
inline int64_t vp_i64( const char* n = "l" ) { return (int64_t)vp_sym_bits( 64, n ); }
inline uint64_t vp_u64( const char* n = "ul" ) { return vp_sym_bits( 64, n ); }
inline char vp_char( const char* n = "c" ) { return (char)vp_sym_u8( n ); }
inline bool vp_bool( const char* n = "b" ) { return ( vp_sym_u8( n ) & 1 ) != 0; }
// arbitrary string of exactly n bytes
inline std::string vp_str( size_t n, const char* name = "s" ) { std::string s( n, ' ' ); for ( size_t i = 0; i < n; ++i ) s[ i ] = vp_char( name ); return s; }
// arbitrary string of at most n bytes
inline std::string vp_str_upto( size_t n, const char* name = "s" ) { return vp_str( vp_choice( (unsigned)n + 1 ), name ); }
inline int vp_in_set( char c, const char* set, size_t n ) { int r = 0; for ( size_t i = 0; i < n; ++i ) r |= ( c == set[ i ] ); return r; }
// string whose characters are drawn from an alphabet
inline std::string vp_str_of( size_t n, const char* alpha, const char* name = "s" ) { std::string s( n, ' ' ); size_t an = strlen( alpha ); for ( size_t i = 0; i < n; ++i ) { char c = vp_char( name ); vp_assume( vp_in_set( c, alpha, an ) ); s[ i ] = c; } return s; }
inline std::string vp_str_of_upto( size_t n, const char* alpha, const char* name = "s" ) { return vp_str_of( vp_choice( (unsigned)n + 1 ), alpha, name ); }
// string without NUL bytes
inline std::string vp_str_nz( size_t n, const char* name = "s" ) { std::string s = vp_str( n, name ); for ( size_t i = 0; i < n; ++i ) vp_assume( s[ i ] != 0 ); return s; }
// byte-wise comparison that never forks on contents
inline bool vp_same( const std::string& a, const std::string& b ) { if ( a.size() != b.size() ) return false; int r = 1; for ( size_t i = 0; i < a.size(); ++i ) r &= ( a[ i ] == b[ i ] ); return r != 0; }
// equality of numbers: exact in real mode, with a small relative tolerance when replayed natively
inline bool vp_near( double a, double b, double tol = 1e-7 ) { if ( vp_symbolic() ) return a == b; double d = a - b; if ( d < 0 ) d = -d; double m = 1 + ( a < 0 ? -a : a ) + ( b < 0 ? -b : b ); return d <= tol * m; }
inline double vp_real( double lo, double hi, const char* n = "x" ) { double v = vp_sym_double( n ); vp_assume( vp_and( v >= lo, v <= hi ) ); return v; }
// double with an exact small-integer value in [lo,hi]
inline int vp_range( int lo, int hi, const char* n = "i" ) { int v = vp_int( n ); vp_assume( vp_and( v >= lo, v <= hi ) ); return v; }
// runs f and tells whether it threw
template< typename F > bool vp_throws( F f ) { try { f(); return false; } catch ( ... ) { return true; } }
// the clock: every reading advances it by an arbitrary amount, unless it is frozen; advance moves it explicitly
void vp_clock_freeze( int on );
void vp_clock_step( int64_t ns ); // every reading advances the clock by ns
void vp_clock_advance( int64_t ns );
int64_t vp_clock_value();
// in-memory files (engine) / scratch directory (native)
void vp_file_write( const std::string& name, const std::string& content );
bool vp_file_read( const std::string& name, std::string& content );

// folders and sockets: kind 0 file, 1 folder, 2 socket, -1 nothing; with faults on, creating a folder may fail at any call
void vp_fs_make( const std::string& name, int kind );
int vp_fs_kind( const std::string& name );
void vp_fs_faults( int on );
