From 9cbbc0114a2cea31966742b3652b7aad990fa016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 01/63] fix: bytes above 127 are ordinary characters when
 quoting

They compared as negative chars and were escaped as an 11-digit octal number
that cannot be decoded.
---
 flut/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..3e15a91 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From d6f5e1810886b9a7f001dcab69e5c38c96a3f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 02/63] fix: decode the octal escape of the NUL character

encode_char writes it as \000 but decode_char rejected it.
---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 3e15a91..111dd96 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -145,7 +145,7 @@ namespace flut
 					value = value * 8 + *buf++ - '0';
 				else break;
 			}
-			if ( *len > 1 && value > 0 && value < 32 )
+			if ( *len > 1 && value < 32 )
 				return char( value ); // we read a valid char
 			else return '?'; // no valid char could be read
 		}
-- 
2.43.0


From 37c4ee9265a9eac0b9fc8dea923bee6e59cb74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 03/63] fix: decode_char consumes at least one character,
 try_unquoted stays inside its text

A lone quote or an escaped closing quote made try_unquoted read past the end of the
string, and a backslash at the end of the text made the token reader loop forever.
---
 flut/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 111dd96..d1fe8dc 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
@@ -186,7 +186,7 @@ namespace flut
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it < s.end() && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From c052bddcd84b6ac4b98bbc9ccc33b331f508b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 04/63] fix: get_token keeps text in front of a quoted part and
 empty quoted tokens

Characters before an opening quote were dropped, and an empty quoted token
followed by an operator was lost.
---
 flut/char_stream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c934ab5..cf44270 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -40,6 +40,7 @@ namespace flut
 	flut::string char_stream::get_token( const char* operators, const char* quotations )
 	{
 		string s;
+		bool has_quotes = false;
 		cur_pos_end = const_cast< char* >( cur_pos );
 		while ( good() )
 		{
@@ -53,6 +54,8 @@ namespace flut
 			else if ( strchr( quotations, *cur_pos_end ) )
 			{
 				// this is a part between quotes and must be decoded
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
+				has_quotes = true;
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
 				while ( good() )
@@ -76,7 +79,7 @@ namespace flut
 			else if ( strchr( operators, *cur_pos_end ) )
 			{
 				// operator
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !has_quotes )
 					s = *cur_pos_end++; // token is an operator
 				else s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
-- 
2.43.0


From 6dc695cc2cfc22d670114327e1d28da775adf0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:48 +0000
Subject: [PATCH 05/63] fix: scan_str counts a last value that ends the text

Reaching the end of the text is not a failure to read the value.
---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 23052ea..0a4147a 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -52,7 +52,7 @@ namespace flut
 
 	inline int scan_str_impl( char_stream& str ) { return 0; }
 	template< typename T, typename... Args > int scan_str_impl( char_stream& str, T& v, Args&... args )
-	{ str >> v; return str.good() ? scan_str_impl( str, args... ) + 1 : 0; }
+	{ str >> v; return !str.fail() ? scan_str_impl( str, args... ) + 1 : 0; }
 
 	/// read variables from string
 	template< typename... Args > int scan_str( const string& s, Args&... args )
-- 
2.43.0


From 21dc62fd4242d5e247c6b8df3d8948dd08fcdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 06/63] fix: make_key_value_str also trims a key without value

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index d1fe8dc..c550a70 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -62,7 +62,7 @@ namespace flut
 	{
 		auto pos = s.find_first_of( sep_char.c_str() );
 		if ( pos == string::npos )
-			return make_pair( s, string("") );
+			return make_pair( trim_str( s ), string("") );
 		else return make_pair( trim_str( s.substr( 0, pos ) ), trim_str( mid_str( s, pos + 1 ) ) );
 	}
 
-- 
2.43.0


From 08bfa64784b495e4af746c37775cfaf39458bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:58 +0000
Subject: [PATCH 07/63] fix: str_ends_with looks at the end, not at the first
 occurrence

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 0a4147a..d5b2f49 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -32,7 +32,7 @@ namespace flut
 
 	/// check if a string ends with a string
 	inline bool str_ends_with( const string& str, const string& substr )
-	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.find( substr ) == s1 - s2 ); }
+	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && str.compare( s1 - s2, s2, substr ) == 0; }
 
 	/// remove leading and trailing spaces and newlines
 	FLUT_API string trim_str( const string& str, const char* trim_chars = " \t\r\n\f\v" );
-- 
2.43.0


From 5c923e5b9b651aa48557587637150c4acd386f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:00 +0000
Subject: [PATCH 08/63] fix: pattern_match uses its own parameter name on
 non-MSVC platforms

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index c550a70..7f1dfd3 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -89,7 +89,7 @@ namespace flut
 		flut_assert_msg( str.find_first_of( ";" ) == string::npos, "pattern_match patterns cannot contain ';' on MSVC" );
 		return PathMatchSpecEx( str.c_str(), pattern.c_str(), PMSF_NORMAL ) == S_OK;
 #else
-		return fnmatch( p.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
+		return fnmatch( pattern.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 92b2dc37200ccd4016328a9523a2d32e44898dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 09/63] fix: get_filename_folder is empty for a name without
 folder

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 7f1dfd3..943d6a0 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -221,7 +221,7 @@ namespace flut
 	{
 		size_t n = str.find_last_of( "/\\" );
 		if ( n != string::npos ) return str.substr( 0, n + 1 );
-		else return str;
+		else return string();
 	}
 
 	FLUT_API string get_filename_without_folder( const string& str )
-- 
2.43.0


From 155bd59db6407bf958083c30cf5b9c166b99e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:10 +0000
Subject: [PATCH 10/63] fix: a dot in a folder name is not part of the
 extension

---
 flut/system/path.cpp | 11 +++++++++--
 flut/system/path.hpp |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2004c7..efe734f 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -11,7 +11,7 @@ namespace flut
 
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = last_dot_pos();
 		if ( n != string::npos ) data_.erase( n ); // remove existing extension
 
 		if ( !ext.empty() )
@@ -49,7 +49,7 @@ namespace flut
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = last_dot_pos();
 		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
 	}
 
@@ -87,6 +87,13 @@ namespace flut
 		return data_.find_last_of( "/\\" );
 	}
 
+	size_t path::last_dot_pos() const
+	{
+		// a dot in a folder name does not start an extension
+		size_t sep = last_separator_pos(), dot = data_.find_last_of( '.' );
+		return ( dot != npos && ( sep == npos || dot > sep ) ) ? dot : npos;
+	}
+
 	flut::path& path::operator/=( const flut::string& p )
 	{
 		data_ += has_filename() ? preferred_separator() + p : p;
diff --git a/flut/system/path.hpp b/flut/system/path.hpp
index 1e55b3e..5daaa34 100644
--- a/flut/system/path.hpp
+++ b/flut/system/path.hpp
@@ -51,6 +51,7 @@ namespace flut
 
 	private:
 		size_t last_separator_pos() const;
+		size_t last_dot_pos() const;
 		flut::string data_;
 	};
 
-- 
2.43.0


From 6790e69676588fbd7e0ff4b5cbd1f05b0892e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:12 +0000
Subject: [PATCH 11/63] fix: filename() of a path without folder is the path
 itself

---
 flut/system/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index efe734f..e034007 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -56,7 +56,7 @@ namespace flut
 	path path::filename() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		return n != string::npos ? path( data_.substr( n + 1 ) ) : *this;
 	}
 
 	path path::stem() const
-- 
2.43.0


From ae53fe9432e0ab20489a9923e67160bfc5efc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:14 +0000
Subject: [PATCH 12/63] fix: replace_filename keeps the folder and its
 separator

/a became b, and a\\b became a/c.
---
 flut/system/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index e034007..b346391 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -30,8 +30,8 @@ namespace flut
 
 	path& path::replace_filename( const path& f )
 	{
-		remove_filename();
-		return *this /= f;
+		data_ = data_.substr( 0, last_separator_pos() + 1 ) + f.data_;
+		return *this;
 	}
 
 	flut::path& path::make_preferred()
-- 
2.43.0


From f67a5eef3db0954bedaf1edcdf77e484f9894f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:18 +0000
Subject: [PATCH 13/63] fix: hash bytes above 127 as unsigned, as FNV-1a
 prescribes

---
 flut/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/hash.hpp b/flut/hash.hpp
index d5a624e..58db034 100644
--- a/flut/hash.hpp
+++ b/flut/hash.hpp
@@ -17,13 +17,13 @@ namespace flut
 
 	constexpr hash_t hash_constexpr( char const* str, hash_t last_value = fnv1a_64_basis )
 	{
-		return *str ? hash_constexpr( str + 1, ( *str ^ last_value ) * fnv1a_64_prime ) : last_value;
+		return *str ? hash_constexpr( str + 1, ( (unsigned char)*str ^ last_value ) * fnv1a_64_prime ) : last_value;
 	}
 
 	hash_t hash( char const* str )
 	{
 		hash_t ret = fnv1a_64_basis;
-		while ( *str ) { ret ^= *str; ret *= fnv1a_64_prime; ++str;	}
+		while ( *str ) { ret ^= (unsigned char)*str; ret *= fnv1a_64_prime; ++str;	}
 		return ret;
 	}
 
-- 
2.43.0


From 1af137c94520093feb1cf08c5f774bfcddf04321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 14/63] fix: container_tools.hpp compiles with standard C++
 compilers

---
 flut/container_tools.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..78cfe6c 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -3,6 +3,9 @@
 #include "flut/system/types.hpp"
 #include "system/assert.hpp"
 #include <numeric>
+#include <algorithm>
+#include <iterator>
+#include <iostream>
 
 namespace flut
 {
@@ -31,7 +34,7 @@ namespace flut
 	{ return std::max_element( std::cbegin( cont ), std::cend( cont ) ); }
 
 	template< typename I > typename I::value_type average( I b, I e )
-	{ return std::accumulate( b, e, I::value_type( 0 ) ) / typename I::value_type( e - b ); }
+	{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }
 
 	template< typename C > typename C::value_type average( const C& cont )
 	{ return average( std::begin( cont ), std::end( cont ) ); }
@@ -66,7 +69,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +80,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
-- 
2.43.0


From bfe9e120b0c6ef88bcf2e4ecc463be8a10972a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:02 +0000
Subject: [PATCH 15/63] fix: parse_prop does not bind a temporary to a
 non-const reference

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..2a53d85 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream cs( str, "\n\r\t\v;" );
+		return parse_prop( cs, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 83749c189b4cc9c60ff1ba44077dbcee8d93a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:03 +0000
Subject: [PATCH 16/63] fix: filesystem.cpp compiles on non-MSVC platforms

---
 flut/filesystem.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2885960..b33b35d 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -8,8 +8,11 @@
 #	include <conio.h>
 #	include <shlobj.h>
 #	pragma warning( disable: 4996 )
+#	include <direct.h>
+#else
+#	include <sys/stat.h>
+#	include <unistd.h>
 #endif
-#include <direct.h>
 
 namespace flut
 {
@@ -33,7 +36,7 @@ namespace flut
 		return get_known_windows_folder( FOLDERID_LocalAppData );
 #else
 		string homeDir = std::getenv( "HOME" );
-		return homeDir + "/.config";
+		return path( homeDir + "/.config" );
 #endif
 	}
 
@@ -82,7 +85,7 @@ namespace flut
 		return GetFileAttributes( path( p ).make_preferred().c_str() ) != INVALID_FILE_ATTRIBUTES;
 #else
 		struct stat info;
-		return stat( path, &info ) == 0;
+		return stat( p.c_str(), &info ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 035501748d0dc4a30c093d98173ebb60cfca881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:37 +0000
Subject: [PATCH 17/63] fix: reading properties keeps quoted values, lines
 after an empty comment and lines after a blank one

Quoted tokens were trimmed, a comment sign at the end of a line commented out the
next line and a line of spaces ended the parse.
---
 flut/prop_node_tools.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 2a53d85..7f3c583 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -102,18 +102,32 @@ namespace flut
 		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
 	}
 
+	char peek_prop_char( char_stream& str )
+	{
+		// space is not a delimiter, skip it here
+		while ( str.good() && str.peekc() == ' ' ) str.getc();
+		return str.good() ? str.peekc() : '\0';
+	}
+
 	string get_prop_token( char_stream& str )
 	{
 		while ( true )
 		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
+			char c = peek_prop_char( str );
+			if ( c == '%' )
 			{
 				// comment: skip rest of line
 				str.get_line();
 				continue;
 			}
-			else return trim_str( t );
+
+			// quoted tokens are taken literally and end after the closing quote
+			if ( c == '\"' || c == '\'' )
+				return str.get_token( "={}% ", "\"'" );
+
+			string t = trim_str( str.get_token( "={}%", "\"'" ) );
+			if ( !t.empty() || !str.good() )
+				return t;
 		}
 	}
 
-- 
2.43.0


From e4c676c54e21f1c08d41c470dff07fffc1680ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 18/63] fix: parse properties that have both a value and
 children, as save_prop writes them

---
 flut/prop_node_tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 7f3c583..ef74629 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -137,8 +137,11 @@ namespace flut
 		if ( t == "=" )
 		{
 			parent.set_value( get_prop_token( str ) );
+			if ( peek_prop_char( str ) == '{' )
+				t = get_prop_token( str ); // node has both a value and children
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
 			while ( str.good() && t != "}" )
 			{
-- 
2.43.0


From 9297579f00f07c82098eec2bb5c4fcbb6d92efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 19/63] fix: save_prop quotes keys and values that contain
 characters of the format

---
 flut/prop_node_tools.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index ef74629..2de65d4 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -229,15 +229,21 @@ namespace flut
 		}
 	}
 
+	string prop_token( const string& s )
+	{
+		// also quote characters that are special in this format
+		return s.find_first_of( "={}%;'" ) != string::npos ? quoted( s ) : try_quoted( s );
+	}
+
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
 		string newline = readable ? "\n" : " ";
 		string assign = readable ? " = " : "=";
 
-		str << indent << try_quoted( label );
+		str << indent << prop_token( label );
 		if ( pn.has_value() || pn.empty() )
-			str << assign << ( pn.empty() ? "\"\"" : try_quoted( pn.get_value() ) );
+			str << assign << ( pn.empty() ? "\"\"" : prop_token( pn.get_value() ) );
 		str << newline;
 		if ( pn.size() > 0 )
 		{
-- 
2.43.0


From 83e24fc293d2262f7e1fe0b2a7cc212c4c3d4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:40 +0000
Subject: [PATCH 20/63] fix: the compact property layout separates items with a
 delimiter

A space does not end a value, so the file could not be read back.
---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 2de65d4..bfe1ca8 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -238,7 +238,7 @@ namespace flut
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";";
 		string assign = readable ? " = " : "=";
 
 		str << indent << prop_token( label );
-- 
2.43.0


From 1eb7af2f6603322918ad46f61590a885b5b486d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:41 +0000
Subject: [PATCH 21/63] fix: load_ini does not skip the line after a comment

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index bfe1ca8..d37f2d3 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -194,10 +194,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From 40cdafcd4ea0cb406c8cdc79062723b23abf0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:29 +0000
Subject: [PATCH 22/63] fix: sorted_vector::find returns the iterator, not the
 element

---
 flut/sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..7b793c6 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -27,12 +27,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
-- 
2.43.0


From 40223b26ff2fc46d0716230971b3157775e273c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:31 +0000
Subject: [PATCH 23/63] fix: dynarray assignment and the size of a moved-from
 array

Move assignment did not compile, self assignment lost the elements and a
moved-from array kept its old end.
---
 flut/dynarray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..e8aa886 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -16,9 +16,9 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) { std::swap( data_, o.data_ ); std::swap( end_, o.end_ ); return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From 2c0ad31c066a298ae0afc9e6a48d59c1bda67f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:56 +0000
Subject: [PATCH 24/63] fix: data_header indexes all labels at their own
 position

---
 flut/buffer/data_header.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..e2bf3e2 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) : labels_( labels ) { init_indices(); }
+		data_header( const std::vector< L >& labels ) : labels_( labels ) { init_indices(); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
@@ -35,8 +35,9 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
+			if ( find( labels_[ idx ] ) == idx ) label_indices_.erase( labels_[ idx ] );
 			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
+			label_indices_[ label ] = idx;
 			return idx;
 		}
 
@@ -44,6 +45,8 @@ namespace flut
 		typename vector< L >::const_iterator end() const { return labels_.end(); }
 
 	private:
+		void init_indices() { for ( index_t i = 0; i < labels_.size(); ++i ) label_indices_.emplace( labels_[ i ], i ); }
+
 		std::vector< L > labels_;
 		std::unordered_map< L, index_t > label_indices_;
 	};
-- 
2.43.0


From 3cd25968427d4779e68c23ffb35803e0d9717dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:21 +0000
Subject: [PATCH 25/63] fix: const access to storage by channel and by label,
 and labels(), compile

---
 flut/storage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..67c32fc 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -78,13 +78,13 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const { return at( frame_size() - 1, find_channel( label ) ); }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +119,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
-- 
2.43.0


From 0a44a0f0233627ba1183b9d90b2d9853fec34670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:22 +0000
Subject: [PATCH 26/63] fix: adding an existing channel to a storage leaves it
 unchanged

---
 flut/storage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 67c32fc..5196557 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -17,10 +17,11 @@ namespace flut
 		~storage() {}
 
 		/// add a channel and resize buffer if needed
-		index_t add_channel( L label, const T& value = T() ) { resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label, const T& value = T() ) { flut_assert( find_channel( label ) == no_index ); resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
+			flut_assert( find_channel( label ) == no_index );
 			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
-- 
2.43.0


From 51af6ddc83665ba2b3190a9e1eabfbf3622b6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:23 +0000
Subject: [PATCH 27/63] fix: growing a table keeps existing cells and uses the
 default value

---
 flut/table.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..e2ad2e9 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,8 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			flut_assert( col_labels_.find( label ) == no_index );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +37,15 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data_.resize( row_size() * cols );
-			for ( index_t ri = rows; ri-- > 0; )
-				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
+			vector< T > new_data( rows * cols, default_value );
+			for ( index_t ri = 0; ri < row_size(); ++ri )
+				for ( index_t ci = 0; ci < column_size(); ++ci )
+					new_data[ cols * ri + ci ] = data_[ column_size() * ri + ci ];
+			data_ = std::move( new_data );
 			col_labels_.resize( cols );
 			row_labels_.resize( rows );
 		}
@@ -57,7 +59,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From 67b162c3ec581a93e5eed936bb1957a8c28c018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:46 +0000
Subject: [PATCH 28/63] fix: checked access to a circular frame buffer that is
 not full yet

---
 flut/buffer/circular_frame_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index d4cf960..b20a06b 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -52,11 +52,11 @@ namespace flut
 
 		/// access value with bounds checking
 		T& at( index_t frame, index_t channel ) {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 		const T& at( index_t frame, index_t channel ) const {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 
-- 
2.43.0


From ee81ad2e6ecdd1d24325471b7005b5851a97f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:47 +0000
Subject: [PATCH 29/63] fix: adding a channel keeps the size of a circular
 frame buffer

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index b20a06b..305e97f 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_size(), channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { flut_assert( find_channel( label ) == no_index ); resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
-- 
2.43.0


From f216efac8d15a0cd1c1c53036b4d2cd380e178b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:49 +0000
Subject: [PATCH 30/63] fix: const access to a circular frame buffer returns
 the value

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 305e97f..cc37604 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -40,7 +40,7 @@ namespace flut
 
 		/// access value (no bounds checking)
 		T& operator()( index_t frame, index_t channel ) { return data( frame % frame_buf_size_, channel ); }
-		const T& operator()( index_t frame, index_t channel ) const { data( frame % frame_buf_size_, channel ); }
+		const T& operator()( index_t frame, index_t channel ) const { return data( frame % frame_buf_size_, channel ); }
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }
-- 
2.43.0


From 5ca12229575dee2453e860707965c8a7018be4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:50 +0000
Subject: [PATCH 31/63] fix: circular_frame_buffer::get_interpolated_value
 compiles and stays between existing frames

---
 flut/buffer/circular_frame_buffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index cc37604..0f6e6ba 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -32,9 +32,9 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_count() - frame_buf_size_ && frame0 < frame_count() && channel < this->channel_count() );
-			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_count() + channel;
-			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_count() + channel;
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 + 1 < frame_size() && channel < this->channel_size() );
+			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_size() + channel;
+			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
 		}
 
-- 
2.43.0


From 02c8ea029d30ce132105d8125a17456069f9be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:18 +0000
Subject: [PATCH 32/63] fix: circular_deque::push_back keeps order when it
 grows while wrapped around

---
 flut/circular_deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..420fd5f 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -16,7 +16,7 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
+			if ( ++size_ > capacity() ) { buffer_.insert( buffer_.begin() + front_, value ); front_ = ( front_ + 1 ) % capacity(); }
 			else back() = value;
 		}
 		void push_front( const T& value ) {
-- 
2.43.0


From 1459ad3ce2e230598bef08286a1b8c5884a34da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:19 +0000
Subject: [PATCH 33/63] fix: const circular_deque::back returns the last
 element

---
 flut/circular_deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 420fd5f..eb5c5e9 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -31,7 +31,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
-- 
2.43.0


From 7c380e7931444f22bca39859e39cc46f1eeec6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:20 +0000
Subject: [PATCH 34/63] fix: circular_deque iterators compile, postfix
 increment does not return a dangling reference

---
 flut/circular_deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index eb5c5e9..9df02bb 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -50,10 +50,10 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
-- 
2.43.0


From 2d215f3c3cc58c7c66374e8ec3fe16a049e218e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:21 +0000
Subject: [PATCH 35/63] fix: circular_deque::reserve keeps elements that wrap
 around

---
 flut/circular_deque.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 9df02bb..b68f6e6 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -42,7 +42,12 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s <= capacity() ) return;
+			std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() ); // elements may wrap around
+			front_ = 0;
+			buffer_.resize( s );
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
-- 
2.43.0


From 1174653fc940aafa6969e8e93e0f8def204d78d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:01 +0000
Subject: [PATCH 36/63] fix: assigning a child node to its parent does not use
 freed memory

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..3a5bb97 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { return *this = prop_node( other ); } // other may be one of our children
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From 3fc66f51197e351142f0eb52474701996357d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:17 +0000
Subject: [PATCH 37/63] fix: square_wave has period 2 for negative values too

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8f76dee..3931205 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -108,6 +108,6 @@ namespace flut
 		template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
 		/// square wave, period = 2, min = -1, max = 1
-		template< typename T > T square_wave( T v ) { return fmod( v, T(2) ) < T(1) ? T(1) : T(-1); }
+		template< typename T > T square_wave( T v ) { T m = fmod( v, T(2) ); return ( m < T(0) ? m + T(2) : m ) < T(1) ? T(1) : T(-1); }
 	}
 }
-- 
2.43.0


From 0ff5b7e7f63c75739a010936e90f1c3204713756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:21 +0000
Subject: [PATCH 38/63] fix: bounds::soft_clamp compiles, soft_clamp returns a
 reference like clamp

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 3931205..20baf2b 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -83,7 +83,7 @@ namespace flut
 		template< typename T > T limit_transfer( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 		/// clamp with smooth boundary transformation
-		template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+		template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 			auto r = boundary * ( max - min );
 			if ( v > max - r ) v = max - r + limit_transfer( v - max + r, r );
 			else if ( v < min + r )	v = min + r - limit_transfer( min + r - v, r );
-- 
2.43.0


From d21eb1821fd5f99059f2abad9bf18e7310af1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:23 +0000
Subject: [PATCH 39/63] fix: vec4 operators act on all four components

---
 flut/math/vec4.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flut/math/vec4.hpp b/flut/math/vec4.hpp
index d606987..a85ed73 100644
--- a/flut/math/vec4.hpp
+++ b/flut/math/vec4.hpp
@@ -16,31 +16,31 @@ namespace flut
 
 		/// Subtraction
 		template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 		/// Subtraction
 		template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 		/// Negation
 		template< typename T > vec4_<T> operator-( vec4_<T> v )
-		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 		/// Scalar division
 		template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 		/// Scalar division
 		template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	}
 }
 
-- 
2.43.0


From 7ac762f9e22aa1f98f0b21a9d183b1285bc0a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 40/63] fix: delayers start with the initial value in all their
 samples

---
 flut/math/delayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index 6af8783..d23172d 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -7,8 +7,9 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct delayer
 	{
-		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), data_{ init_value }, idx_( 0 ), time_( 0 ) {
+		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), idx_( 0 ), time_( 0 ) {
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
+			data_.fill( init_value );
 		}
 
 		void add_sample( const T& value, float delta_time ) {
@@ -37,8 +38,9 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct smooth_delayer
 	{
-		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), data_{ init_value }, idx_( 0 ), time_( 0 ), inter_( 0 ) {
+		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), idx_( 0 ), time_( 0 ), inter_( 0 ) {
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
+			data_.fill( init_value );
 		}
 
 		void add_sample( const T& value, float delta_time ) {
-- 
2.43.0


From b0495843c14636489251a6471ed6c3a9861e971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:13 +0000
Subject: [PATCH 41/63] fix: find works on const containers and with constant
 values

---
 flut/container_tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 78cfe6c..b6d39de 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -9,10 +9,10 @@
 
 namespace flut
 {
-	template< typename C > typename C::iterator find( C& cont, typename C::value_type& e )
+	template< typename C > typename C::iterator find( C& cont, const typename C::value_type& e )
 	{ return std::find( std::begin( cont ), std::end( cont ), e ); }
 
-	template< typename C, typename P > typename C::const_iterator find( const C& cont, typename C::value_type& e )
+	template< typename C > typename C::const_iterator find( const C& cont, const typename C::value_type& e )
 	{ return std::find( std::begin( cont ), std::end( cont ), e ); }
 
 	template< typename C, typename P > typename C::iterator find_if( C& cont, P pred )
-- 
2.43.0


From c75caec2985577203038d22c3ffd5bd01dbf3970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:52 +0000
Subject: [PATCH 42/63] fix: catmull_rom compiles and evaluates the segment
 that contains the time

---
 flut/math/catmull_rom.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index a1b8ced..3419782 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -66,15 +66,13 @@ namespace flut
 		times_( times )
 		{
 			flut_assert( points.size() >= 4 && times.size() == ( points.size() - 2 ) );
-			segments_.reserve( points.size() - 4 );
-			for ( size_t i = 0; i <= points.size() - 4 )
+			segments_.reserve( points.size() - 3 );
+			for ( size_t i = 0; i <= points.size() - 4; ++i )
 				segments_.emplace_back( points[ i ], points[ i + 1 ], points[ i + 2 ], points[ i + 3 ] );
 		}
 
 		P operator()( T t ) {
-			auto it = std::lower_bound( times_.begin(), times_.end(), t );
-			if ( it == times_.end() ) it = times_.begin();
-			if ( it == times_.end() - 1 ) it = times_.end() - 2;
+			auto it = std::upper_bound( times_.begin() + 1, times_.end() - 1, t ) - 1; // start of the segment that contains t
 			size_t index = it - times_.begin();
 			return segments_[ index ]( ( t - *it ) / ( *( it + 1 ) - *it ) );
 		}
-- 
2.43.0


From 9117445356f02328b0e8caa7cf283125cd2e5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:18 +0000
Subject: [PATCH 43/63] fix: flag_set::clear with a list of flags compiles

---
 flut/flag_set.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/flag_set.hpp b/flut/flag_set.hpp
index dff4fc3..0223d63 100644
--- a/flut/flag_set.hpp
+++ b/flut/flag_set.hpp
@@ -24,6 +24,7 @@ namespace flut
 
 		flag_set& set( EnumT index ) { data |= storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& set() { data |= storage_bit( index ); return *this; }
+		flag_set& clear( EnumT index ) { data &= ~storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& clear() { data &= ~storage_bit( index ); return *this; }
 
 		flag_set& set( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f ); return *this; }
-- 
2.43.0


From 7021eda497fb7bef65a33bb223d96da2308b3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:19 +0000
Subject: [PATCH 44/63] fix: test_framework::reset sets all counters to zero

---
 flut/system/test_framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/test_framework.cpp b/flut/system/test_framework.cpp
index 56bded8..e20aca5 100644
--- a/flut/system/test_framework.cpp
+++ b/flut/system/test_framework.cpp
@@ -32,7 +32,7 @@ namespace flut
 
 	void test_framework::reset()
 	{
-		num_tests = num_passed = num_failed;
+		num_tests = num_passed = num_failed = 0;
 	}
 
 	int test_framework::report()
-- 
2.43.0


From 98ad1ddee639c28335afda80750da87ff130b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:21 +0000
Subject: [PATCH 45/63] fix: parsing a version without build number sets the
 build and keeps the postfix

---
 flut/system/version.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index 78409e9..05b8253 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -11,12 +11,12 @@ namespace flut
 		version( int maj, int min, int bugfix, int bld = 0, string post = "" ) :
 			major( maj ), minor( min ), patch( bugfix ), build( bld ), postfix( post ) {}
 
-		version( const string& version ) {
+		version( const string& version ) : major( 0 ), minor( 0 ), patch( 0 ), build( 0 ) {
 			std::stringstream str( version );
 			char dummy;
-			str >> major >> dummy >> minor >> dummy >> patch >> dummy;
-			if ( str.good() ) str >> build;
-			if ( str.good() ) str >> postfix;
+			str >> major >> dummy >> minor >> dummy >> patch;
+			if ( str.good() && str.peek() == '.' ) str >> dummy >> build;
+			if ( str.good() ) std::getline( str >> std::ws, postfix );
 		}
 
 		string to_str() const {
-- 
2.43.0


From 8ebf607b24bb71955878d65d6e8a6a1a00fd5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:22 +0000
Subject: [PATCH 46/63] fix: pattern_matcher::find_match compiles and returns
 the match

---
 flut/pattern_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/pattern_matcher.hpp b/flut/pattern_matcher.hpp
index 44b892c..5b27349 100644
--- a/flut/pattern_matcher.hpp
+++ b/flut/pattern_matcher.hpp
@@ -24,7 +24,8 @@ namespace flut
 		template< typename T > bool operator()( const T* str ) const { return operator()( static_cast< const string& >( *str ) ); }
 
 		template< typename It > It find_match( It begin, It end ) const {
-			while ( begin != end && !match( static_cast< const string& >( *begin ) ) ) ++begin;
+			while ( begin != end && !operator()( static_cast< const string& >( *begin ) ) ) ++begin;
+			return begin;
 		}
 
 		vector< string > patterns;
-- 
2.43.0


From 02df019b7d1141e5a61132fbb3952a206151048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:24 +0000
Subject: [PATCH 47/63] fix: stringf does not truncate long text

---
 flut/string_tools.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 943d6a0..40c9ac2 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -75,9 +75,18 @@ namespace flut
 		va_list args;
 		va_start( args, format );
 		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		va_list args2;
+		va_copy( args2, args );
+		int len = vsnprintf( buf, sizeof( buf ), format, args );
 		va_end( args );
-		return string( buf );
+		string str( buf );
+		if ( len >= static_cast< int >( sizeof( buf ) ) ) { // does not fit in buffer
+			str.resize( len + 1 );
+			vsnprintf( &str[ 0 ], str.size(), format, args2 );
+			str.resize( len );
+		}
+		va_end( args2 );
+		return str;
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From 1767e54945c77656779f205d2ffc7cd757cc19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:25 +0000
Subject: [PATCH 48/63] fix: formatted log messages are not truncated

---
 flut/system/log.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3e54fec..3536e5a 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -22,8 +22,17 @@ namespace flut
 			if ( test_log_level( l ) )
 			{
 				char buf[ 1024 ];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // TODO: use string_view
+				va_list list2;
+				va_copy( list2, list );
+				int len = vsnprintf( buf, sizeof( buf ), format, list );
+				string str( buf );
+				if ( len >= static_cast< int >( sizeof( buf ) ) ) { // does not fit in buffer
+					str.resize( len + 1 );
+					vsnprintf( &str[ 0 ], str.size(), format, list2 );
+					str.resize( len );
+				}
+				va_end( list2 );
+				log_string( l, str ); // TODO: use string_view
 			}
 		}
 
-- 
2.43.0


From 3de30991224837c50c65c6be3459bf5d2bac9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:26 +0000
Subject: [PATCH 49/63] fix: postfix increment of an irange iterator compiles

---
 flut/math/irange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 4e62555..8dcba70 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -18,7 +18,7 @@ namespace flut
 			T value_;
 			T operator-( const iterator& other ) { return value_ - other.value_; }
 			T operator++() { return ++value_; }
-			T operator++( int ) { return value++; }
+			T operator++( int ) { return value_++; }
 			bool operator==( const iterator& other ) { return other.value_ == value_; }
 			bool operator!=( const iterator& other ) { return other.value_ != value_; }
 			T operator*() { return value_; }
-- 
2.43.0


From 233fccb37db980a569f890f1449dcd4d163ec024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:03 +0000
Subject: [PATCH 50/63] fix: the profiler's thread id is initialized before the
 profiler itself

---
 flut/system/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index eef7885..3c6702b 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -4,8 +4,8 @@
 
 namespace flut
 {
+	std::thread::id instance_thread_; // must be initialized before instance_
 	profiler profiler::instance_;
-	std::thread::id instance_thread_;
 
 	profiler::profiler()
 	{
-- 
2.43.0


From 0ef8ee64dfc8830361867abb20a88730ae4a5dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:09 +0000
Subject: [PATCH 51/63] fix: save_xml lost the value of a node that also has
 children

---
 flut/prop_node_tools.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index d37f2d3..11b87e8 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -33,8 +33,9 @@ namespace flut
 
 	prop_node get_rapid_xml_node( rapidxml::xml_node<>* node )
 	{
-		// make new prop_node
-		prop_node pn = make_prop_node( node->value() );
+		// make new prop_node, white space around the value of a node with children is layout
+		bool is_leaf = !node->first_node() || !node->first_node()->next_sibling();
+		prop_node pn = make_prop_node( is_leaf ? string( node->value() ) : trim_str( node->value() ) );
 
 		// add attributes
 		for ( rapidxml::xml_attribute<>* attr = node->first_attribute(); attr; attr = attr->next_attribute() )
@@ -52,8 +53,8 @@ namespace flut
 
 	void set_rapid_xml_node( rapidxml::xml_document<>& doc, rapidxml::xml_node<>* xmlnode, const prop_node& pn )
 	{
-		if ( pn.has_value() )
-			xmlnode->value( pn.get_value().c_str() );
+		if ( pn.has_value() && xmlnode != &doc ) // a data node, because the value of a node with children is not printed
+			xmlnode->append_node( doc.allocate_node( rapidxml::node_data, nullptr, pn.get_value().c_str() ) );
 
 		for ( auto& child : pn )
 		{
-- 
2.43.0


From 3d68b843c73ebfb8e62b0f4fad4181e5a72e3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:47 +0000
Subject: [PATCH 52/63] fix: copy_file destroyed the target when the source
 cannot be read, and did not report write errors

---
 flut/filesystem.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index b33b35d..ef94c85 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -67,12 +67,17 @@ namespace flut
 #else
 		if ( overwrite || !file_exists( to ) )
 		{
+			// read everything first, so that the target is not touched when this fails
 			std::ifstream src( from.str(), std::ios::binary );
-			std::ofstream dst( to.str(), std::ios::binary );
-			if ( src.good() && dst.good() )
+			std::stringstream buf;
+			if ( src.good() && src.peek() != EOF )
+				buf << src.rdbuf();
+			if ( src.is_open() && !src.bad() && !buf.bad() )
 			{
-				dst << src.rdbuf();
-				return true;
+				std::ofstream dst( to.str(), std::ios::binary );
+				dst << buf.str();
+				dst.flush();
+				return dst.good();
 			}
 		}
 		return false;
-- 
2.43.0


From f12615f90f90bb66526864d2d90cceb9c94126ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:48 +0000
Subject: [PATCH 53/63] fix: folder_exists took sockets and block devices for
 folders

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index ef94c85..4a443ee 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -109,7 +109,7 @@ namespace flut
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From b932af5dddb29af8f09986315d2cea911c62a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:49 +0000
Subject: [PATCH 54/63] fix: create_directories reported failure for a path
 with trailing separator

---
 flut/filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 4a443ee..fdbbda4 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -118,6 +118,10 @@ namespace flut
 
 	FLUT_API bool create_directories( const path& folder )
 	{
+		// ignore trailing separator
+		if ( folder.has_parent_path() && !folder.has_filename() )
+			return create_directories( folder.parent_path() );
+
 		// make sure parent folders exist
 		if ( folder.has_parent_path() && !folder_exists( folder.parent_path() ) )
 			create_directories( folder.parent_path() );
-- 
2.43.0


From d3d4464ea0a4cb5cafb6a2ad5d77147079fb1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:44 +0000
Subject: [PATCH 55/63] fix: irange_step never ended when the step does not
 divide the range

---
 flut/math/irange.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 8dcba70..b62cc0e 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -51,7 +51,13 @@ namespace flut
 		};
 
 		iterator begin() const { return iterator( begin_, step_ ); }
-		iterator end() const { return iterator( end_, step_ ); }
+		// one step past the last value, also if the step does not divide the range
+		iterator end() const {
+			if ( step_ > T( 0 ) ? end_ <= begin_ : end_ >= begin_ ) return begin();
+			T n = ( end_ - begin_ ) / step_;
+			if ( begin_ + n * step_ != end_ ) ++n;
+			return iterator( begin_ + n * step_, step_ );
+		}
 
 		T begin_, end_, step_;
 	};
-- 
2.43.0


From 00643baf47e953db655a541f9d6da6eaa76c4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:12 +0000
Subject: [PATCH 56/63] Revert "fix: test_framework::reset sets all counters to
 zero"

This reverts commit 7021eda497fb7bef65a33bb223d96da2308b3702.
---
 flut/system/test_framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/test_framework.cpp b/flut/system/test_framework.cpp
index e20aca5..56bded8 100644
--- a/flut/system/test_framework.cpp
+++ b/flut/system/test_framework.cpp
@@ -32,7 +32,7 @@ namespace flut
 
 	void test_framework::reset()
 	{
-		num_tests = num_passed = num_failed = 0;
+		num_tests = num_passed = num_failed;
 	}
 
 	int test_framework::report()
-- 
2.43.0


From 7bf6ea4de2400a857335db590c81f7698bde9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 57/63] fix: save_prop reported success when writing failed

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 11b87e8..9620304 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -259,7 +259,8 @@ namespace flut
 		{
 			for ( auto& node : pn )
 				write_prop_none( str, node.first, node.second, 0, readable );
-			return true;
+			str.flush();
+			return str.good();
 		}
 		else return false;
 	}
-- 
2.43.0


From 5c3f9feea91efdd7fbe828efc7d97cdf427a7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:22 +0000
Subject: [PATCH 58/63] fix: quat_from_directions was wrong for most opposite
 directions

---
 flut/math/quat.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 4fc115a..5bca744 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -142,7 +142,12 @@ namespace flut
 
 			auto clen = length( c );
 			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
-				return quat_<T>( 0, 1, 0, 0 ); // this doesn't work if source is unit_x
+			{
+				// rotate half a turn around an axis perpendicular to source
+				vec3_<T> u = std::abs( s.x ) < T( 0.9 ) ? vec3_<T>::unit_x() : vec3_<T>::unit_y();
+				vec3_<T> a = normalized( u - s * dot_product( u, s ) );
+				return quat_<T>( 0, a.x, a.y, a.z );
+			}
 
 			c /= clen;
 			auto a = std::acos( d ) * T(0.5);
-- 
2.43.0


From 69f742837a83c1fe7174940d00922083b2b907a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:22 +0000
Subject: [PATCH 59/63] fix: axis_angle_from_quat lost precision for types
 other than float

---
 flut/math/quat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 5bca744..1053ed4 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -181,7 +181,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From bc1ea9308e5c34aa29a7d7f338a63a5341128fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:21 +0000
Subject: [PATCH 60/63] fix: quat_from_directions gave no rotation for
 directions that are opposite up to rounding

---
 flut/math/quat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 1053ed4..64948c2 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -141,7 +141,7 @@ namespace flut
 				return quat_<T>::identity();
 
 			auto clen = length( c );
-			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
+			if ( equals( clen, T() ) || equals( d, T(-1) ) ) // check if vectors are 180 deg apart
 			{
 				// rotate half a turn around an axis perpendicular to source
 				vec3_<T> u = std::abs( s.x ) < T( 0.9 ) ? vec3_<T>::unit_x() : vec3_<T>::unit_y();
-- 
2.43.0


From 1282a5ad7a94ff6a8fe9b0c9e01bfad9b2bef0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:02 +0000
Subject: [PATCH 61/63] fix: adding a property made others that were read count
 as unread

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 3a5bb97..da76e96 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -40,7 +40,7 @@ namespace flut
 		prop_node( const value_t& v ) : accessed_flag( false ), value( v ) {}
 		prop_node( value_t&& v ) : accessed_flag( false ), value( std::move( v ) ) {}
 		prop_node( const prop_node& other ) : accessed_flag( false ), value( other.value ), children( other.children ) {}
-		prop_node( prop_node&& other ) : accessed_flag( false ), value( std::move( other.value ) ), children( std::move( other.children ) ) {}
+		prop_node( prop_node&& other ) noexcept : accessed_flag( other.accessed_flag ), value( std::move( other.value ) ), children( std::move( other.children ) ) {}
 		prop_node( const prop_node* other ) : accessed_flag( false ), value( other ? other->value : value_t() ), children( other ? other->children : container_t() ) {}
 
 		/// destructor (non-virtual)
-- 
2.43.0


From 82a4d687ada1a8236d3642e55e6afeee7d507090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:37 +0000
Subject: [PATCH 62/63] fix: a copied char_stream read from the string of the
 original

---
 flut/char_stream.cpp | 21 +++++++++++++++++++++
 flut/char_stream.hpp |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index cf44270..6d08c68 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -20,6 +20,27 @@ namespace flut
 	char_stream( load_string( filename ), delim )
 	{}
 
+	char_stream::char_stream( const char_stream& other )
+	{
+		*this = other;
+	}
+
+	char_stream& char_stream::operator=( const char_stream& other )
+	{
+		// when other reads from its own string, read from our copy of that string
+		const char* b = other.buffer == other.str_buffer.c_str() ? nullptr : other.buffer;
+		size_t pos = other.cur_pos - other.buffer, len = other.buffer_end - other.buffer;
+		str_buffer = other.str_buffer;
+		buffer = b ? b : str_buffer.c_str();
+		cur_pos = buffer + pos;
+		cur_pos_end = nullptr;
+		buffer_end = buffer + len;
+		delimiters_ = other.delimiters_;
+		radix = other.radix;
+		buffer_flags = other.buffer_flags;
+		return *this;
+	}
+
 	flut::char_stream& char_stream::operator>>( string& s )
 	{
 		for ( cur_pos_end = const_cast<char*>( cur_pos ); *cur_pos_end && !isspace( *cur_pos_end ); ++cur_pos_end );
diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 3b14a25..56c8e5f 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -29,6 +29,8 @@ namespace flut
 		/// construct char_stream with contents read from file
 		char_stream( const path& filename, const char* delim = default_delimiters() );
 
+		char_stream( const char_stream& other );
+		char_stream& operator=( const char_stream& other );
 		~char_stream() {}
 
 		char_stream& operator>>( float& v ) { v = strtof( cur_pos, &cur_pos_end ); process_end_pos(); return *this; }
-- 
2.43.0


From b107c25dfe8f3dd7889e2c332048fc992b3d71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:38 +0000
Subject: [PATCH 63/63] fix: a group after a quoted value was lost when a line
 break or comment came between them

---
 flut/prop_node_tools.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9620304..f6a01d2 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -105,9 +105,15 @@ namespace flut
 
 	char peek_prop_char( char_stream& str )
 	{
-		// space is not a delimiter, skip it here
-		while ( str.good() && str.peekc() == ' ' ) str.getc();
-		return str.good() ? str.peekc() : '\0';
+		// space is not a delimiter, skip it here, with the delimiters and comments that follow it
+		while ( str.good() )
+		{
+			char c = str.peekc();
+			if ( c == '%' ) str.get_line(); // comment: skip rest of line
+			else if ( c != '\0' && strchr( " \n\r\t\v;", c ) ) str.getc();
+			else return c;
+		}
+		return '\0';
 	}
 
 	string get_prop_token( char_stream& str )
@@ -115,12 +121,6 @@ namespace flut
 		while ( true )
 		{
 			char c = peek_prop_char( str );
-			if ( c == '%' )
-			{
-				// comment: skip rest of line
-				str.get_line();
-				continue;
-			}
 
 			// quoted tokens are taken literally and end after the closing quote
 			if ( c == '\"' || c == '\'' )
-- 
2.43.0

