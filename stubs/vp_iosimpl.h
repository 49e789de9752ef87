// Model of the standard streams for symbolic execution: in-memory buffers, classic "C" locale.
#pragma once
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <cstdint>
#include <ctime>
extern "C" int vp_fmt_double( char* buf, size_t n, double v, int prec, int conv );
extern "C" double vp_strtod( const char* s, size_t n );
void vp_file_write( const std::string& name, const std::string& content );
bool vp_file_read( const std::string& name, std::string& content );
bool vp_file_writable( const std::string& name );
namespace std {
	typedef ptrdiff_t vp_streamsize;
	class ios_base {
	public:
		typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
		static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384;
		static const fmtflags adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
		static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
		static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
		static const seekdir beg = 0, cur = 1, end = 2;
		fmtflags flags() const { return fl_; }
		fmtflags flags( fmtflags f ) { fmtflags o = fl_; fl_ = f; return o; }
		fmtflags setf( fmtflags f ) { fmtflags o = fl_; fl_ |= f; return o; }
		fmtflags setf( fmtflags f, fmtflags m ) { fmtflags o = fl_; fl_ = ( fl_ & ~m ) | ( f & m ); return o; }
		void unsetf( fmtflags m ) { fl_ &= ~m; }
		vp_streamsize width() const { return wi_; }
		vp_streamsize width( vp_streamsize w ) { vp_streamsize o = wi_; wi_ = w; return o; }
		vp_streamsize precision() const { return pr_; }
		vp_streamsize precision( vp_streamsize p ) { vp_streamsize o = pr_; pr_ = p; return o; }
		static bool sync_with_stdio( bool = true ) { return true; }
		class failure : public std::runtime_error { public: explicit failure( const std::string& s ) : std::runtime_error( s ) {} };
		virtual ~ios_base() {}
	protected:
		fmtflags fl_ = dec | skipws; vp_streamsize wi_ = 0, pr_ = 6;
	};
	struct vp_buf { std::string data; size_t rpos = 0, wpos = 0; bool in = true, out = true; };
	template< typename C, typename T > class basic_streambuf : public vp_buf {
	public:
		typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
		int_type sgetc() { return in && rpos < data.size() ? T::to_int_type( data[ rpos ] ) : T::eof(); }
		int_type sbumpc() { return in && rpos < data.size() ? T::to_int_type( data[ rpos++ ] ) : T::eof(); }
		int_type snextc() { return T::eq_int_type( sbumpc(), T::eof() ) ? T::eof() : sgetc(); }
		vp_streamsize sgetn( C* s, vp_streamsize n ) { vp_streamsize k = 0; while ( k < n && in && rpos < data.size() ) s[ k++ ] = data[ rpos++ ]; return k; }
		vp_streamsize in_avail() { return in && rpos < data.size() ? (vp_streamsize)( data.size() - rpos ) : -1; }
		int_type sungetc() { return rpos ? T::to_int_type( data[ --rpos ] ) : T::eof(); }
		int_type sputc( C c ) { if ( !out ) return T::eof(); if ( wpos < data.size() ) data[ wpos ] = c; else data.push_back( c ); ++wpos; return T::to_int_type( c ); }
		vp_streamsize sputn( const C* s, vp_streamsize n ) { vp_streamsize k = 0; while ( k < n && out ) sputc( s[ k++ ] ); return k; }
		int pubsync() { return 0; }
	};
	template< typename C, typename T > class basic_ios : public ios_base {
	public:
		typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
		iostate rdstate() const { return st_; }
		bool good() const { return st_ == 0; } bool eof() const { return ( st_ & eofbit ) != 0; } bool fail() const { return ( st_ & ( failbit | badbit ) ) != 0; } bool bad() const { return ( st_ & badbit ) != 0; }
		void clear( iostate s = goodbit ) { st_ = s; chk(); } void setstate( iostate s ) { st_ |= s; chk(); }
		explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
		C fill() const { return fi_; } C fill( C c ) { C o = fi_; fi_ = c; return o; }
		basic_streambuf<C, T>* rdbuf() const { return sb_; }
		basic_streambuf<C, T>* rdbuf( basic_streambuf<C, T>* b ) { auto* o = sb_; sb_ = b; st_ = 0; return o; }
		iostate exceptions() const { return ex_; } void exceptions( iostate e ) { ex_ = e; chk(); }
		basic_ios& copyfmt( const basic_ios& o ) { fl_ = o.fl_; wi_ = o.wi_; pr_ = o.pr_; fi_ = o.fi_; return *this; }
		basic_ios() { sb_ = &own_; }
		vp_buf& vpb() { return *sb_; }
		const vp_buf& vpb() const { return *sb_; }
	private:
		void chk() { if ( st_ & ex_ ) throw failure( "ios failure" ); }
		iostate st_ = 0, ex_ = 0; C fi_ = C( ' ' ); basic_streambuf<C, T>* sb_; basic_streambuf<C, T> own_;
	};
	template< typename C, typename T > class basic_ostream : virtual public basic_ios<C, T> {
	public:
		typedef C char_type; typedef T traits_type;
		struct sentry { explicit sentry( basic_ostream& o ) : ok( o.good() ) {} explicit operator bool() const { return ok; } bool ok; };
		basic_ostream() {}
		explicit basic_ostream( basic_streambuf<C, T>* b ) { this->rdbuf( b ); }
		virtual ~basic_ostream() {}
		basic_ostream& put( C c ) { raw( &c, 1 ); return *this; }
		basic_ostream& write( const C* s, vp_streamsize n ) { raw( s, (size_t)n ); return *this; }
		virtual basic_ostream& flush() { return *this; }
		basic_ostream& operator<<( basic_ostream& ( *f )( basic_ostream& ) ) { return f( *this ); }
		basic_ostream& operator<<( ios_base& ( *f )( ios_base& ) ) { f( *this ); return *this; }
		basic_ostream& operator<<( basic_ios<C, T>& ( *f )( basic_ios<C, T>& ) ) { f( *this ); return *this; }
		basic_ostream& operator<<( bool v ) { if ( this->flags() & ios_base::boolalpha ) { if ( v ) padded( "true", 4 ); else padded( "false", 5 ); return *this; } return num( v ? 1 : 0, false ); }
		basic_ostream& operator<<( short v ) { return sg( v, (unsigned short)v ); } basic_ostream& operator<<( unsigned short v ) { return num( v, false ); }
		basic_ostream& operator<<( int v ) { return sg( v, (unsigned)v ); } basic_ostream& operator<<( unsigned v ) { return num( v, false ); }
		basic_ostream& operator<<( long v ) { return sg( v, (unsigned long)v ); } basic_ostream& operator<<( unsigned long v ) { return num( v, false ); }
		basic_ostream& operator<<( long long v ) { return sg( v, (unsigned long long)v ); } basic_ostream& operator<<( unsigned long long v ) { return num( v, false ); }
		basic_ostream& operator<<( float v ) { return dbl( v ); } basic_ostream& operator<<( double v ) { return dbl( v ); } basic_ostream& operator<<( long double v ) { return dbl( (double)v ); }
		basic_ostream& operator<<( const void* p ) { auto o = this->flags(); this->setf( ios_base::hex, ios_base::basefield ); this->setf( ios_base::showbase ); num( (unsigned long)p, false ); this->flags( o ); return *this; }
		basic_ostream& operator<<( basic_streambuf<C, T>* b ) { if ( !b || b->rpos >= b->data.size() ) { this->setstate( ios_base::failbit ); return *this; } raw( b->data.data() + b->rpos, b->data.size() - b->rpos ); b->rpos = b->data.size(); return *this; }
		long tellp() { return this->fail() ? -1 : (long)this->vpb().wpos; }
		basic_ostream& seekp( long p ) { if ( !this->fail() ) this->vpb().wpos = (size_t)p; return *this; }
		basic_ostream& seekp( long o, ios_base::seekdir d ) { if ( !this->fail() ) this->vpb().wpos = (size_t)( d == ios_base::beg ? o : d == ios_base::cur ? (long)this->vpb().wpos + o : (long)this->vpb().data.size() + o ); return *this; }
		void raw( const C* s, size_t n ) {
			if ( !this->good() ) return;
			vp_buf& b = this->vpb(); if ( !b.out ) { this->setstate( ios_base::badbit ); return; }
			if ( b.wpos == b.data.size() ) { b.data.append( s, n ); b.wpos += n; return; }
			for ( size_t i = 0; i < n; ++i ) { if ( b.wpos < b.data.size() ) b.data[ b.wpos ] = s[ i ]; else b.data.push_back( s[ i ] ); ++b.wpos; }
		}
		void padded( const C* s, size_t n, size_t prefix = 0 ) {
			size_t w = this->width() > 0 ? (size_t)this->width() : 0; this->width( 0 ); C f = this->fill();
			if ( w > n ) {
				auto a = this->flags() & ios_base::adjustfield; size_t k = w - n;
				if ( a == ios_base::left ) { raw( s, n ); for ( size_t i = 0; i < k; ++i ) raw( &f, 1 ); return; }
				if ( a == ios_base::internal ) { raw( s, prefix ); for ( size_t i = 0; i < k; ++i ) raw( &f, 1 ); raw( s + prefix, n - prefix ); return; }
				for ( size_t i = 0; i < k; ++i ) raw( &f, 1 );
			}
			raw( s, n );
		}
	private:
		basic_ostream& sg( long long v, unsigned long long u ) { if ( this->flags() & ( ios_base::hex | ios_base::oct ) ) return num( u, false ); return v < 0 ? num( 0 - (unsigned long long)v, true ) : num( (unsigned long long)v, false, true ); }
		basic_ostream& num( unsigned long long u, bool neg, bool sgn = false ) {
			char t[ 72 ]; int k = 72; auto fl = this->flags(); unsigned base = ( fl & ios_base::hex ) ? 16 : ( fl & ios_base::oct ) ? 8 : 10; const char* dg = ( fl & ios_base::uppercase ) ? "0123456789ABCDEF" : "0123456789abcdef"; bool z = u == 0;
			do { unsigned d = (unsigned)( u % base ); t[ --k ] = base == 10 ? (char)( '0' + d ) : dg[ d ]; u /= base; } while ( u );
			size_t pre = 0; if ( ( fl & ios_base::showbase ) && !z ) { if ( base == 16 ) { t[ --k ] = ( fl & ios_base::uppercase ) ? 'X' : 'x'; t[ --k ] = '0'; pre = 2; } else if ( base == 8 ) { t[ --k ] = '0'; } }
			if ( neg ) { t[ --k ] = '-'; pre = 1; } else if ( sgn && base == 10 && ( fl & ios_base::showpos ) ) { t[ --k ] = '+'; pre = 1; }
			padded( t + k, 72 - k, pre ); return *this;
		}
		basic_ostream& dbl( double v ) { char t[ 400 ]; auto f = this->flags() & ios_base::floatfield; int n = vp_fmt_double( t, sizeof t, v, (int)this->precision(), f == ios_base::fixed ? 'f' : f == ios_base::scientific ? 'e' : 'g' ); padded( t, (size_t)n, t[ 0 ] == '-' ); return *this; }
	};
	template< typename C, typename T > class basic_istream : virtual public basic_ios<C, T> {
	public:
		typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
		struct sentry { explicit sentry( basic_istream& i, bool nows = false ) { if ( i.good() && !nows && ( i.flags() & ios_base::skipws ) ) i.skip(); else if ( !i.good() ) i.setstate( ios_base::failbit ); ok = i.good(); } explicit operator bool() const { return ok; } bool ok; };
		basic_istream() {}
		explicit basic_istream( basic_streambuf<C, T>* b ) { this->rdbuf( b ); }
		virtual ~basic_istream() {}
		vp_streamsize gcount() const { return gc_; }
		bool has() { vp_buf& b = this->vpb(); return b.in && b.rpos < b.data.size(); }
		C at() { return this->vpb().data[ this->vpb().rpos ]; }
		static bool ws( C c ) { return ( c == ' ' ) | ( (unsigned char)( c - 9 ) < 5 ); }
		void skip() { while ( has() ) { if ( !ws( at() ) ) return; this->vpb().rpos++; } this->setstate( ios_base::eofbit | ios_base::failbit ); }
		bool pre( bool nows ) { sentry s( *this, nows ); return (bool)s; }
		int_type get() { gc_ = 0; if ( !pre( true ) ) return T::eof(); if ( !has() ) { this->setstate( ios_base::eofbit | ios_base::failbit ); return T::eof(); } gc_ = 1; C c = at(); this->vpb().rpos++; return T::to_int_type( c ); }
		basic_istream& get( C& c ) { int_type i = get(); if ( i != T::eof() ) c = T::to_char_type( i ); return *this; }
		int_type peek() { gc_ = 0; if ( !pre( true ) ) return T::eof(); if ( !has() ) { this->setstate( ios_base::eofbit ); return T::eof(); } return T::to_int_type( at() ); }
		basic_istream& get( C* s, vp_streamsize n, C d = C( '\n' ) ) { gc_ = 0; if ( pre( true ) ) { while ( gc_ + 1 < n ) { if ( !has() ) { this->setstate( ios_base::eofbit ); break; } if ( at() == d ) break; s[ gc_++ ] = at(); this->vpb().rpos++; } if ( !gc_ ) this->setstate( ios_base::failbit ); } if ( n > 0 ) s[ gc_ ] = C(); return *this; }
		basic_istream& getline( C* s, vp_streamsize n, C d = C( '\n' ) ) { gc_ = 0; vp_streamsize k = 0; if ( pre( true ) ) { for ( ;; ) { if ( !has() ) { this->setstate( ios_base::eofbit ); break; } if ( at() == d ) { this->vpb().rpos++; gc_++; break; } if ( k + 1 >= n ) { this->setstate( ios_base::failbit ); break; } s[ k++ ] = at(); this->vpb().rpos++; gc_++; } if ( !gc_ ) this->setstate( ios_base::failbit ); } if ( n > 0 ) s[ k ] = C(); return *this; }
		vp_streamsize readsome( C* s, vp_streamsize n ) { gc_ = 0; if ( !pre( true ) ) return 0; if ( !has() ) { this->setstate( ios_base::eofbit ); return 0; } return gc_ = this->rdbuf()->sgetn( s, n ); }
		basic_istream& operator>>( basic_streambuf<C, T>* b ) { gc_ = 0; if ( pre( true ) ) { while ( has() && b && b->sputc( at() ) != T::eof() ) { this->vpb().rpos++; gc_++; } if ( !has() ) this->setstate( ios_base::eofbit ); if ( !gc_ ) this->setstate( ios_base::failbit ); } return *this; }
		int sync() { return this->good() ? 0 : -1; }
		basic_istream& unget() { gc_ = 0; this->clear( this->rdstate() & ~ios_base::eofbit ); if ( this->good() ) { if ( this->vpb().rpos ) this->vpb().rpos--; else this->setstate( ios_base::badbit ); } return *this; }
		basic_istream& putback( C c ) { unget(); return *this; }
		basic_istream& read( C* s, vp_streamsize n ) { gc_ = 0; if ( !pre( true ) ) return *this; while ( gc_ < n && has() ) { s[ gc_++ ] = at(); this->vpb().rpos++; } if ( gc_ < n ) this->setstate( ios_base::eofbit | ios_base::failbit ); return *this; }
		basic_istream& ignore( vp_streamsize n = 1, int_type d = T::eof() ) { gc_ = 0; if ( !pre( true ) ) return *this; while ( gc_ < n ) { if ( !has() ) { this->setstate( ios_base::eofbit ); break; } C c = at(); this->vpb().rpos++; gc_++; if ( d != T::eof() && T::to_int_type( c ) == d ) break; } return *this; }
		long tellg() { if ( this->fail() ) return -1; return (long)this->vpb().rpos; }
		basic_istream& seekg( long p ) { this->clear( this->rdstate() & ~ios_base::eofbit ); if ( !this->fail() ) this->vpb().rpos = (size_t)p; return *this; }
		basic_istream& seekg( long o, ios_base::seekdir d ) { this->clear( this->rdstate() & ~ios_base::eofbit ); if ( !this->fail() ) this->vpb().rpos = (size_t)( d == ios_base::beg ? o : d == ios_base::cur ? (long)this->vpb().rpos + o : (long)this->vpb().data.size() + o ); return *this; }
		basic_istream& operator>>( basic_istream& ( *f )( basic_istream& ) ) { return f( *this ); }
		basic_istream& operator>>( ios_base& ( *f )( ios_base& ) ) { f( *this ); return *this; }
		basic_istream& operator>>( bool& v ) { long long x; long long t; if ( !pre( false ) ) return *this; bool f = integer( x, -1, 2, t ); v = x != 0; if ( f || x < 0 || x > 1 ) this->setstate( ios_base::failbit ); return *this; }
		basic_istream& operator>>( short& v ) { return sint( v, -32768, 32767 ); }
		basic_istream& operator>>( int& v ) { return sint( v, -2147483647 - 1, 2147483647 ); }
		basic_istream& operator>>( long& v ) { return sint( v, (long long)( (unsigned long long)1 << 63 ), 0x7fffffffffffffffll ); }
		basic_istream& operator>>( long long& v ) { return sint( v, (long long)( (unsigned long long)1 << 63 ), 0x7fffffffffffffffll ); }
		basic_istream& operator>>( unsigned short& v ) { return uint( v, 0xffff ); }
		basic_istream& operator>>( unsigned& v ) { return uint( v, 0xffffffffu ); }
		basic_istream& operator>>( unsigned long& v ) { return uint( v, ~0ull ); }
		basic_istream& operator>>( unsigned long long& v ) { return uint( v, ~0ull ); }
		basic_istream& operator>>( float& v ) { double d; if ( pre( false ) ) { dblin( d ); v = (float)d; } return *this; }
		basic_istream& operator>>( double& v ) { double d; if ( pre( false ) ) { dblin( d ); v = d; } return *this; }
		void digits( bool& neg, unsigned long long& acc, bool& ovf, bool& any ) {
			neg = false; acc = 0; ovf = false; any = false; int nd = 0; unsigned base = ( this->flags() & ios_base::hex ) ? 16 : ( this->flags() & ios_base::oct ) ? 8 : 10;
			if ( has() ) { C c = at(); if ( c == '-' ) { neg = true; this->vpb().rpos++; } else if ( c == '+' ) this->vpb().rpos++; }
			while ( has() ) {
				C c = at(); unsigned d; if ( c >= '0' && c <= '9' ) d = c - '0'; else if ( base == 16 && c >= 'a' && c <= 'f' ) d = c - 'a' + 10; else if ( base == 16 && c >= 'A' && c <= 'F' ) d = c - 'A' + 10; else break; if ( d >= base ) break;
				any = true; if ( ++nd > 15 ) { unsigned long long m; if ( __builtin_mul_overflow( acc, (unsigned long long)base, &m ) || __builtin_add_overflow( m, (unsigned long long)d, &m ) ) ovf = true; else acc = m; } else acc = acc * base + d;
				this->vpb().rpos++;
			}
			if ( !has() ) this->setstate( ios_base::eofbit );
		}
		bool integer( long long& v, long long lo, long long hi, long long& t ) { bool neg, ovf, any; unsigned long long a; digits( neg, a, ovf, any ); if ( !any ) { v = 0; return true; } if ( neg ) { if ( ovf || a > (unsigned long long)0 - (unsigned long long)lo ) { v = lo; return true; } v = (long long)( 0 - a ); return false; } if ( ovf || a > (unsigned long long)hi ) { v = hi; return true; } v = (long long)a; return false; }
		template< typename I > basic_istream& sint( I& v, long long lo, long long hi ) { if ( pre( false ) ) { long long x, t; bool f = integer( x, lo, hi, t ); v = (I)x; if ( f ) this->setstate( ios_base::failbit ); } return *this; }
		template< typename I > basic_istream& uint( I& v, unsigned long long hi ) { if ( pre( false ) ) { bool neg, ovf, any; unsigned long long a; digits( neg, a, ovf, any ); bool f = !any; if ( !any ) v = 0; else if ( ovf || a > hi ) { v = (I)hi; f = true; } else v = (I)( neg ? 0 - a : a ); if ( f ) this->setstate( ios_base::failbit ); } return *this; }
		void dblin( double& v ) {
			size_t p0 = this->vpb().rpos; bool dot = false, ex = false, dg = false, exd = false;
			if ( has() && ( at() == '-' || at() == '+' ) ) this->vpb().rpos++;
			while ( has() ) { C c = at(); if ( c >= '0' && c <= '9' ) { if ( ex ) exd = true; else dg = true; } else if ( c == '.' && !dot && !ex ) dot = true; else if ( ( c == 'e' || c == 'E' ) && !ex && dg ) { ex = true; this->vpb().rpos++; if ( has() && ( at() == '-' || at() == '+' ) ) this->vpb().rpos++; continue; } else break; this->vpb().rpos++; }
			if ( !has() ) this->setstate( ios_base::eofbit );
			if ( !dg || ( ex && !exd ) ) { v = 0; this->setstate( ios_base::failbit ); return; }
			v = vp_strtod( this->vpb().data.data() + p0, this->vpb().rpos - p0 );
		}
	private:
		vp_streamsize gc_ = 0;
	};
	template< typename C, typename T > class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream( basic_streambuf<C, T>* b ) { this->rdbuf( b ); } };
	inline namespace __cxx11 {
	template< typename C, typename T, typename A > class basic_stringbuf : public basic_streambuf<C, T> { public: std::string str() const { return this->data; } };
	template< typename C, typename T, typename A > class basic_ostringstream : public basic_ostream<C, T> {
	public:
		basic_ostringstream() {} explicit basic_ostringstream( ios_base::openmode ) {} explicit basic_ostringstream( const std::string& s, ios_base::openmode m = ios_base::out ) { this->vpb().data = s; if ( m & ( ios_base::ate | ios_base::app ) ) this->vpb().wpos = s.size(); }
		std::string str() const { return this->vpb().data; } void str( const std::string& s ) { this->vpb().data = s; this->vpb().rpos = this->vpb().wpos = 0; }
	};
	template< typename C, typename T, typename A > class basic_istringstream : public basic_istream<C, T> {
	public:
		basic_istringstream() {} explicit basic_istringstream( const std::string& s, ios_base::openmode = ios_base::in ) { this->vpb().data = s; }
		std::string str() const { return this->vpb().data; } void str( const std::string& s ) { this->vpb().data = s; this->vpb().rpos = this->vpb().wpos = 0; }
	};
	template< typename C, typename T, typename A > class basic_stringstream : public basic_iostream<C, T> {
	public:
		basic_stringstream() {} explicit basic_stringstream( ios_base::openmode ) {} explicit basic_stringstream( const std::string& s, ios_base::openmode m = ios_base::in | ios_base::out ) { this->vpb().data = s; if ( m & ( ios_base::ate | ios_base::app ) ) this->vpb().wpos = s.size(); }
		std::string str() const { return this->vpb().data; } void str( const std::string& s ) { this->vpb().data = s; this->vpb().rpos = this->vpb().wpos = 0; }
	};
	}
	template< typename C, typename T > class basic_ofstream : public basic_ostream<C, T> {
	public:
		basic_ofstream() { this->vpb().out = false; } explicit basic_ofstream( const char* f, ios_base::openmode m = ios_base::out ) { open( f, m ); } explicit basic_ofstream( const std::string& f, ios_base::openmode m = ios_base::out ) { open( f, m ); }
		~basic_ofstream() { close(); }
		void open( const std::string& f, ios_base::openmode m = ios_base::out ) { if ( !vp_file_writable( f ) ) { this->setstate( ios_base::failbit ); this->vpb().out = false; return; } name_ = f; open_ = true; this->vpb().out = true; this->vpb().data.clear(); if ( m & ( ios_base::app | ios_base::ate ) ) vp_file_read( f, this->vpb().data ); this->vpb().wpos = this->vpb().data.size(); sync(); }
		bool is_open() const { return open_; } void close() { if ( open_ ) { sync(); open_ = false; this->vpb().out = false; } else this->setstate( ios_base::failbit ); }
		basic_ostream<C, T>& flush() override { sync(); return *this; }
	private:
		void sync() { if ( open_ ) { if ( name_ == "/dev/full" ) { if ( !this->vpb().data.empty() ) this->setstate( ios_base::badbit ); } else vp_file_write( name_, this->vpb().data ); } }
		std::string name_; bool open_ = false;
	};
	template< typename C, typename T > class basic_ifstream : public basic_istream<C, T> {
	public:
		basic_ifstream() { this->vpb().in = false; } explicit basic_ifstream( const char* f, ios_base::openmode m = ios_base::in ) { open( f, m ); } explicit basic_ifstream( const std::string& f, ios_base::openmode m = ios_base::in ) { open( f, m ); }
		void open( const std::string& f, ios_base::openmode m = ios_base::in ) { if ( open_ ) { this->setstate( ios_base::failbit ); return; } this->vpb().data.clear(); this->vpb().rpos = 0; open_ = vp_file_read( f, this->vpb().data ); this->vpb().in = open_; if ( open_ && ( m & ios_base::ate ) ) this->vpb().rpos = this->vpb().data.size(); if ( !open_ ) this->setstate( ios_base::failbit ); else this->clear(); }
		bool is_open() const { return open_; } void close() { if ( open_ ) { open_ = false; this->vpb().in = false; } else this->setstate( ios_base::failbit ); }
	private:
		bool open_ = false;
	};
	template< typename C, typename T > class basic_fstream : public basic_iostream<C, T> {
	public:
		basic_fstream() { this->vpb().in = this->vpb().out = false; } explicit basic_fstream( const std::string& f, ios_base::openmode m = ios_base::in | ios_base::out ) { open( f, m ); }
		~basic_fstream() { if ( open_ ) close(); }
		void open( const std::string& f, ios_base::openmode m = ios_base::in | ios_base::out ) {
			vp_buf& b = this->vpb(); b.data.clear(); b.rpos = b.wpos = 0; bool o = ( m & ( ios_base::out | ios_base::app ) ) != 0, r = vp_file_read( f, b.data );
			b.in = b.out = false; bool fresh = o && ( ( m & ios_base::trunc ) || !( m & ( ios_base::in | ios_base::app ) ) );
			if ( ( o && !vp_file_writable( f ) ) || ( !r && !fresh && !( m & ios_base::app ) ) ) { this->setstate( ios_base::failbit ); return; }
			if ( fresh ) b.data.clear();
			name_ = f; open_ = true; wr_ = o; b.in = ( m & ios_base::in ) != 0; b.out = o; if ( m & ios_base::app ) b.wpos = b.data.size(); if ( m & ios_base::ate ) b.wpos = b.rpos = b.data.size(); put();
		}
		bool is_open() const { return open_; } void close() { if ( open_ ) { put(); open_ = false; this->vpb().in = this->vpb().out = false; } else this->setstate( ios_base::failbit ); }
		basic_ostream<C, T>& flush() override { put(); return *this; }
	private:
		void put() { if ( open_ && wr_ ) { if ( name_ == "/dev/full" ) { if ( !this->vpb().data.empty() ) this->setstate( ios_base::badbit ); } else vp_file_write( name_, this->vpb().data ); } }
		std::string name_; bool open_ = false, wr_ = false;
	};
	// inserters and extractors (non-templates are preferred over the library's templates)
	inline ostream& operator<<( ostream& o, const string& s ) { o.padded( s.data(), s.size() ); return o; }
	inline ostream& operator<<( ostream& o, const char* s ) { if ( !s ) o.setstate( ios_base::badbit ); else o.padded( s, __builtin_strlen( s ) ); return o; }
	inline ostream& operator<<( ostream& o, char c ) { o.padded( &c, 1 ); return o; }
	inline ostream& operator<<( ostream& o, signed char c ) { char t = (char)c; o.padded( &t, 1 ); return o; }
	inline ostream& operator<<( ostream& o, unsigned char c ) { char t = (char)c; o.padded( &t, 1 ); return o; }
	inline istream& operator>>( istream& i, char& c ) { if ( i.pre( false ) ) { if ( !i.has() ) i.setstate( ios_base::eofbit | ios_base::failbit ); else { c = i.at(); i.vpb().rpos++; } } return i; }
	inline istream& operator>>( istream& i, unsigned char& c ) { return i >> reinterpret_cast<char&>( c ); }
	inline istream& operator>>( istream& i, signed char& c ) { return i >> reinterpret_cast<char&>( c ); }
	inline istream& operator>>( istream& i, string& s ) {
		if ( i.pre( false ) ) { s.clear(); size_t w = i.width() > 0 ? (size_t)i.width() : ~(size_t)0; while ( i.has() && s.size() < w ) { char c = i.at(); if ( istream::ws( c ) ) break; s.push_back( c ); i.vpb().rpos++; } if ( !i.has() && s.size() < w ) i.setstate( ios_base::eofbit ); i.width( 0 ); if ( s.empty() ) i.setstate( ios_base::failbit ); }
		return i;
	}
	inline istream& getline( istream& i, string& s, char d ) {
		if ( i.pre( true ) ) { s.clear(); bool any = false; for ( ;; ) { if ( !i.has() ) { i.setstate( ios_base::eofbit ); break; } char c = i.at(); i.vpb().rpos++; any = true; if ( c == d ) break; s.push_back( c ); } if ( !any ) i.setstate( ios_base::failbit ); }
		return i;
	}
	inline istream& getline( istream& i, string& s ) { return getline( i, s, '\n' ); }
	inline istream& getline( istream&& i, string& s ) { return getline( i, s, '\n' ); }
	// rvalue streams
	template< typename S, typename X, typename = typename enable_if<is_base_of<ios_base, S>::value>::type > S&& operator<<( S&& o, const X& x ) { static_cast<ostream&>( o ) << x; return static_cast<S&&>( o ); }
	template< typename S, typename X, typename = typename enable_if<is_base_of<ios_base, S>::value>::type, typename = void > S&& operator>>( S&& i, X&& x ) { static_cast<istream&>( i ) >> x; return static_cast<S&&>( i ); }
	inline ostream& endl( ostream& o ) { o.put( '\n' ); return o.flush(); }
	inline ostream& ends( ostream& o ) { return o.put( '\0' ); }
	inline ostream& flush( ostream& o ) { return o.flush(); }
	inline istream& ws( istream& i ) { while ( i.has() && istream::ws( i.at() ) ) i.vpb().rpos++; if ( !i.has() ) i.setstate( ios_base::eofbit ); return i; }
	inline ios_base& fixed( ios_base& b ) { b.setf( ios_base::fixed, ios_base::floatfield ); return b; }
	inline ios_base& scientific( ios_base& b ) { b.setf( ios_base::scientific, ios_base::floatfield ); return b; }
	inline ios_base& defaultfloat( ios_base& b ) { b.unsetf( ios_base::floatfield ); return b; }
	inline ios_base& left( ios_base& b ) { b.setf( ios_base::left, ios_base::adjustfield ); return b; }
	inline ios_base& right( ios_base& b ) { b.setf( ios_base::right, ios_base::adjustfield ); return b; }
	inline ios_base& internal( ios_base& b ) { b.setf( ios_base::internal, ios_base::adjustfield ); return b; }
	inline ios_base& hex( ios_base& b ) { b.setf( ios_base::hex, ios_base::basefield ); return b; }
	inline ios_base& dec( ios_base& b ) { b.setf( ios_base::dec, ios_base::basefield ); return b; }
	inline ios_base& oct( ios_base& b ) { b.setf( ios_base::oct, ios_base::basefield ); return b; }
	inline ios_base& boolalpha( ios_base& b ) { b.setf( ios_base::boolalpha ); return b; }
	inline ios_base& noboolalpha( ios_base& b ) { b.unsetf( ios_base::boolalpha ); return b; }
	inline ios_base& skipws( ios_base& b ) { b.setf( ios_base::skipws ); return b; }
	inline ios_base& noskipws( ios_base& b ) { b.unsetf( ios_base::skipws ); return b; }
	inline ios_base& showpos( ios_base& b ) { b.setf( ios_base::showpos ); return b; }
	inline ios_base& uppercase( ios_base& b ) { b.setf( ios_base::uppercase ); return b; }
	inline ios_base& noshowpos( ios_base& b ) { b.unsetf( ios_base::showpos ); return b; }
	inline ios_base& nouppercase( ios_base& b ) { b.unsetf( ios_base::uppercase ); return b; }
	inline ios_base& noshowbase( ios_base& b ) { b.unsetf( ios_base::showbase ); return b; }
	inline ios_base& unitbuf( ios_base& b ) { b.setf( ios_base::unitbuf ); return b; }
	inline ios_base& nounitbuf( ios_base& b ) { b.unsetf( ios_base::unitbuf ); return b; }
	inline ios_base& showbase( ios_base& b ) { b.setf( ios_base::showbase ); return b; }
	struct vp_setw { int n; }; struct vp_setprec { int n; }; struct vp_setfill { char c; }; struct vp_setbase { int n; };
	inline vp_setw setw( int n ) { return { n }; } inline vp_setprec setprecision( int n ) { return { n }; } inline vp_setfill setfill( char c ) { return { c }; } inline vp_setbase setbase( int n ) { return { n }; }
	inline ostream& operator<<( ostream& o, vp_setw m ) { o.width( m.n ); return o; }
	inline istream& operator>>( istream& o, vp_setw m ) { o.width( m.n ); return o; }
	inline ostream& operator<<( ostream& o, vp_setprec m ) { o.precision( m.n ); return o; }
	inline ostream& operator<<( ostream& o, vp_setfill m ) { o.fill( m.c ); return o; }
	inline ostream& operator<<( ostream& o, vp_setbase m ) { o.setf( m.n == 16 ? ios_base::hex : m.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield ); return o; }
	struct vp_puttime { const struct tm* t; const char* f; };
	inline vp_puttime put_time( const struct tm* t, const char* f ) { return { t, f }; }
	inline ostream& operator<<( ostream& o, vp_puttime ) { return o; }
	extern ostream cout, cerr, clog; extern istream cin;
}
#include <bits/streambuf_iterator.h>
