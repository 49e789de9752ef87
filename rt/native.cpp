#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
// Native replay runtime: feeds the recorded values to the harness.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <fstream>
#include <sstream>
#include <chrono>
#include <unistd.h>
#include <exception>
static std::map<std::string, void ( * )()>& entries() { static std::map<std::string, void ( * )()> m; return m; }
vp_reg::vp_reg( const char* n, void ( *f )() ) { entries()[ n ] = f; }
static std::vector<std::pair<unsigned, uint64_t>> vals; static size_t pos; static std::vector<long> params; static bool realMode;
static uint64_t next( unsigned w ) { if ( pos >= vals.size() ) { pos++; return 0; } if ( vals[ pos ].first != w ) { fprintf( stderr, "VP-DIVERGED width %u vs %u at %zu\n", w, vals[ pos ].first, pos ); fflush( stderr ); _exit( 78 ); } return vals[ pos++ ].second; }
extern "C" {
	uint8_t vp_sym_u8( const char* ) { return (uint8_t)next( 8 ); }
	uint64_t vp_sym_bits( unsigned long bits, const char* ) { return next( bits ); }
	double vp_sym_double( const char* ) { uint64_t v = next( 64 ); double d; memcpy( &d, &v, 8 ); return d; }
	unsigned vp_choice( unsigned n ) { if ( n == 0 ) _exit( 77 ); unsigned v = (unsigned)next( 8 ); if ( v >= n ) { fprintf( stderr, "VP-DIVERGED choice\n" ); _exit( 78 ); } return v; }
	void __cxa_finalize( void* ); void vp_run_atexit() { __cxa_finalize( nullptr ); }
	void vp_assume( int c ) { if ( !c ) { fprintf( stderr, "VP-ASSUME-FALSE\n" ); fflush( stderr ); _exit( 77 ); } }
	void vp_assert_( int c, const char* msg ) { if ( !c ) { fprintf( stderr, "VP-ASSERT-FAILED: %s\n", msg ); fflush( stderr ); _exit( 42 ); } }
	void vp_reach( const char* ) {}
	long vp_param( int i ) { return (size_t)i < params.size() ? params[ i ] : 0; }
	int vp_symbolic() { return 0; }
	int vp_is_real() { return realMode; }
	uint64_t vp_conc( uint64_t v ) { return v; }
	int vp_and( int a, int b ) { return a && b; }
	int vp_or( int a, int b ) { return a || b; }
	void vp_debug( const char* s, uint64_t v ) { fprintf( stderr, "DEBUG %s %lld\n", s, (long long)v ); }
}
// clocks are inputs: arbitrary non-decreasing instants
static int64_t the_clock = 1, step = 0; static bool frozen = true;
static int64_t vp_tick() { if ( frozen ) return the_clock += step; uint64_t d = next( 16 ); the_clock += (int64_t)d; return the_clock; }
namespace std { namespace chrono { inline namespace _V2 {
	system_clock::time_point system_clock::now() noexcept { return time_point( duration( vp_tick() ) ); }
	steady_clock::time_point steady_clock::now() noexcept { return time_point( duration( vp_tick() ) ); }
} } }
void vp_clock_freeze( int on ) { frozen = on != 0; step = 0; }
void vp_clock_step( int64_t ns ) { frozen = true; step = ns; }
void vp_clock_advance( int64_t ns ) { the_clock += ns; }
int64_t vp_clock_value() { return the_clock; }
static bool vp_faults = false;
void vp_fs_faults( int on ) { vp_faults = on != 0; }
void vp_fs_make( const std::string& name, int kind ) { if ( kind == 0 ) { std::ofstream f( name ); } else if ( kind == 1 ) syscall( SYS_mkdir, name.c_str(), 0777 ); else mknod( name.c_str(), S_IFSOCK | 0777, 0 ); }
int vp_fs_kind( const std::string& name ) { struct stat st; if ( stat( name.c_str(), &st ) ) return -1; return S_ISREG( st.st_mode ) ? 0 : S_ISDIR( st.st_mode ) ? 1 : 2; }
extern "C" int mkdir( const char* p, mode_t m ) noexcept { if ( vp_faults && ( next( 8 ) & 1 ) ) { errno = EIO; return -1; } return (int)syscall( SYS_mkdir, p, m ); }
void vp_file_write( const std::string& name, const std::string& content ) { std::ofstream( name, std::ios::binary ) << content; }
bool vp_file_read( const std::string& name, std::string& content ) { std::ifstream f( name, std::ios::binary ); if ( !f.good() ) return false; std::stringstream s; s << f.rdbuf(); content = s.str(); return true; }
int main( int argc, char** argv ) {
	if ( argc < 3 ) return 2;
	if ( std::string( argv[ 1 ] ) == "--selftest" ) { puts( "VP-SELFTEST" ); return 0; }
	std::set_terminate( [] { fprintf( stderr, "VP-TERMINATE\n" ); fflush( stderr ); _exit( 43 ); } );
	FILE* f = fopen( argv[ 2 ], "r" ); if ( !f ) return 2; char line[ 4096 ];
	while ( fgets( line, sizeof line, f ) ) { unsigned w; unsigned long long v; long p; if ( sscanf( line, "v %u %llu", &w, &v ) == 2 ) vals.push_back( { w, v } ); else if ( sscanf( line, "p %ld", &p ) == 1 ) params.push_back( p ); else if ( line[ 0 ] == 'r' ) realMode = true; }
	fclose( f );
	auto it = entries().find( argv[ 1 ] ); if ( it == entries().end() ) { fprintf( stderr, "no entry\n" ); return 2; }
	it->second(); fprintf( stderr, "VP-COMPLETED\n" ); fflush( stderr ); _exit( 0 );
}
