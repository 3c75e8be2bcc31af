// K04: Base64, MD5 and text conversion against direct definitions, every buffer exactly as large as promised.
#include "mc.h"
#include <kwsys/Base64.h>
#include <kwsys/MD5.h>
#include <kwsys/Encoding.h>
#include <kwsys/Encoding.hxx>
#include <clocale>
#include <memory>
using std::string; using std::vector; using std::wstring;
typedef unsigned char uc;
namespace {
struct Heap { std::unique_ptr< uc[] > p; size_t n; explicit Heap( size_t k ) : p( new uc[k] ), n( k ) { memset( p.get(), 0xA5, k ); } explicit Heap( string const& s ) : p( new uc[s.size()] ), n( s.size() ) { memcpy( p.get(), s.data(), n ); } string str( size_t k ) const { return string( (char const*) p.get(), k ); } };
char const* const digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
string b64( string const& s, bool mark )
{
  string o; size_t i = 0;
  for (; i < s.size(); i += 3 ) { unsigned v = 0; size_t k = std::min< size_t >( 3, s.size() - i ); for ( size_t j = 0; j < 3; ++j ) { v = v * 256 + ( j < k ? (uc) s[i + j] : 0 ); } for ( size_t j = 0; j < 4; ++j ) { o += j <= k ? digits[( v >> ( 18 - 6 * j ) ) & 63] : '='; } }
  if ( mark && s.size() % 3 == 0 ) { o += "===="; } return o;
}
int digit( uc c ) { char const* p = c ? strchr( digits, c ) : nullptr; return p ? (int) ( p - digits ) : -1; }
// bytes decoded from one group; -1: not judged
int group( string const& g, string& out )
{
  out.clear(); int v = 0, valid = 0; for ( size_t j = 0; j < 4; ++j ) { if ( digit( g[j] ) < 0 && g[j] != '=' ) { return 0; } }
  if ( g[0] == '=' || g[1] == '=' ) { return 0; } if ( g[2] == '=' && g[3] != '=' ) { return -1; }
  for ( size_t j = 0; j < 4; ++j ) { v = v * 64 + std::max( 0, digit( g[j] ) ); valid += g[j] != '='; } for ( int j = 0; j < valid - 1; ++j ) { out += (char) ( ( v >> ( 16 - 8 * j ) ) & 255 ); } return valid - 1;
}
size_t encode( mc::Run& r, string const& s, int mark, string& out ) { Heap in( s ), e( b64( s, mark != 0 ).size() ); size_t n = kwsysBase64_Encode( in.p.get(), in.n, e.p.get(), mark ); r.step(); out = e.str( std::min( n, e.n ) ); return n; }
void roundtrip( mc::Run& r, string const& s, bool prefixes )
{
  for ( int mark = 0; mark < 3; ++mark )
  {
    string w = "base64 of " + mc::show( s.substr( 0, 12 ) ) + " (" + std::to_string( s.size() ) + " bytes, mark " + std::to_string( mark ) + ")"; string want = b64( s, mark != 0 ), got; size_t n = encode( r, s, mark, got ); r.eq( n, want.size(), "encode", w + " length" ); r.eqs( got, want, "encode", w );
    Heap e( want );
    for ( size_t len = prefixes ? 0 : s.size(); len <= s.size(); ++len )
    { // the caller knows the number of bytes: any prefix can be decoded
      Heap d( len ); size_t k = kwsysBase64_Decode( e.p.get(), len, d.p.get(), 0 ); r.step(); r.eq( k, len, "decode", w + ": decoding " + std::to_string( len ) + " bytes" ); r.check( d.str( k ) == s.substr( 0, len ), "decode", w + ": decoding " + std::to_string( len ) + " bytes gives others" );
    }
    for ( size_t m = prefixes ? 1 : want.size(); m <= want.size(); ++m )
    { // the caller knows the number of characters
      Heap part( want.substr( 0, m ) ), d( ( m + 3 ) / 4 * 3 ); if ( m == 0 ) { continue; } size_t k = kwsysBase64_Decode( part.p.get(), 7, d.p.get(), m ); r.step(); size_t full = std::min( m / 4 * 3, s.size() ); r.eq( k, full, "decode-input", w + ": decoding the first " + std::to_string( m ) + " characters" ); r.check( d.str( k ) == s.substr( 0, full ), "decode-input", w + ": decoding the first " + std::to_string( m ) + " characters gives others" );
    }
  }
}
// reference MD5 from RFC 1321
string md5( string m )
{
  static unsigned T[64]; static bool init = false; if ( ! init ) { for ( int i = 0; i < 64; ++i ) { T[i] = (unsigned) (uint64_t) floor( 4294967296.0 * fabs( sin( i + 1.0 ) ) ); } init = true; }
  static int const S[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } }; uint64_t bits = m.size() * 8; m += (char) 0x80; while ( m.size() % 64 != 56 ) { m += '\0'; } for ( int i = 0; i < 8; ++i ) { m += (char) ( bits >> ( 8 * i ) ); }
  unsigned h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
  for ( size_t o = 0; o < m.size(); o += 64 )
  {
    unsigned x[16]; for ( int i = 0; i < 16; ++i ) { x[i] = 0; for ( int j = 3; j >= 0; --j ) { x[i] = x[i] << 8 | (uc) m[o + 4 * i + j]; } } unsigned a = h[0], b = h[1], c = h[2], d = h[3];
    for ( int i = 0; i < 64; ++i ) { unsigned f; int g; if ( i < 16 ) { f = ( b & c ) | ( ~b & d ); g = i; } else if ( i < 32 ) { f = ( b & d ) | ( c & ~d ); g = ( 5 * i + 1 ) % 16; } else if ( i < 48 ) { f = b ^ c ^ d; g = ( 3 * i + 5 ) % 16; } else { f = c ^ ( b | ~d ); g = 7 * i % 16; } unsigned t = a + f + x[g] + T[i]; int s = S[i / 16][i % 4]; a = d; d = c; c = b; b += t << s | t >> ( 32 - s ); }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  string o; for ( int i = 0; i < 4; ++i ) { for ( int j = 0; j < 4; ++j ) { o += (char) ( h[i] >> ( 8 * j ) ); } } return o;
}
string hex( string const& s ) { string o; for ( uc c : s ) { char b[3]; snprintf( b, 3, "%02x", c ); o += b; } return o; }
string content( int kind, size_t n ) { string s; unsigned v = 12345; for ( size_t i = 0; i < n; ++i ) { v = v * 1103515245u + 12345u; s += kind == 0 ? (char) 0 : kind == 1 ? (char) 0xff : kind == 2 ? (char) ( v >> 16 ) : (char) ( 1 + i % 255 ); } return s; }
struct Digest
{
  kwsysMD5* m; Digest() : m( kwsysMD5_New() ) { kwsysMD5_Initialize( m ); } ~Digest() { kwsysMD5_Delete( m ); }
  void add( mc::Run& r, string const& s, size_t align, bool text )
  { Heap h( string( align, 'x' ) + s + string( text ? 1 : 0, '\0' ) ); kwsysMD5_Append( m, h.p.get() + align, text ? -1 : (int) s.size() ); r.step(); }
  string end( bool asHex ) { if ( asHex ) { Heap o( 32 ); kwsysMD5_FinalizeHex( m, (char*) o.p.get() ); return o.str( 32 ); } Heap o( 16 ); kwsysMD5_Finalize( m, o.p.get() ); return hex( o.str( 16 ) ); }
};
string utf8( uint32_t c ) { string o; if ( c < 0x80 ) { o += (char) c; } else if ( c < 0x800 ) { o += (char) ( 0xC0 | c >> 6 ); o += (char) ( 0x80 | ( c & 63 ) ); } else if ( c < 0x10000 ) { o += (char) ( 0xE0 | c >> 12 ); o += (char) ( 0x80 | ( ( c >> 6 ) & 63 ) ); o += (char) ( 0x80 | ( c & 63 ) ); } else { o += (char) ( 0xF0 | c >> 18 ); o += (char) ( 0x80 | ( ( c >> 12 ) & 63 ) ); o += (char) ( 0x80 | ( ( c >> 6 ) & 63 ) ); o += (char) ( 0x80 | ( c & 63 ) ); } return o; }
void locale( bool utf ) { static int cur = -1; if ( cur == utf ) { return; } if ( ! setlocale( LC_ALL, utf ? "C.UTF-8" : "C" ) ) { throw mc::Divergence( "no UTF-8 locale" ); } cur = utf; }
void text( mc::Run& r, string const& n, wstring const& w, string const& what )
{
  using kwsys::Encoding; r.step( 4 );
  r.check( Encoding::ToWide( n ) == w, "wide", what + ": ToWide" ); r.check( Encoding::ToNarrow( w ) == n, "narrow", what + ": ToNarrow" );
  if ( n.find( '\0' ) != string::npos ) { return; }
  r.check( Encoding::ToWide( n.c_str() ) == w, "wide", what + ": ToWide of characters" ); r.check( Encoding::ToNarrow( w.c_str() ) == n, "narrow", what + ": ToNarrow of characters" );
  wchar_t* dw = kwsysEncoding_DupToWide( n.c_str() ); r.check( dw && wstring( dw ) == w, "dup", what + ": DupToWide" ); free( dw ); char* dn = kwsysEncoding_DupToNarrow( w.c_str() ); r.check( dn && string( dn ) == n, "dup", what + ": DupToNarrow" ); free( dn );
  r.check( kwsysEncoding_mbstowcs( nullptr, n.c_str(), 0 ) == w.size() && kwsysEncoding_wcstombs( nullptr, w.c_str(), 0 ) == n.size(), "length", what + ": length" );
  for ( size_t k = 0; k <= w.size() + 1; ++k ) { std::unique_ptr< wchar_t[] > b( new wchar_t[k] ); size_t got = kwsysEncoding_mbstowcs( b.get(), n.c_str(), k ); r.check( got == std::min( k, w.size() ) && wstring( b.get(), got ) == w.substr( 0, got ) && ( k <= w.size() || b[w.size()] == 0 ), "convert", what + ": conversion into " + std::to_string( k ) ); }
  { std::unique_ptr< char[] > b( new char[n.size() + 1] ); r.check( kwsysEncoding_wcstombs( b.get(), w.c_str(), n.size() + 1 ) == n.size() && n == b.get(), "convert", what + ": conversion back" ); }
}
}
SCENARIO( k04_base64_short, 1 ) { int a = r.choose( 257 ); if ( a == 256 ) { roundtrip( r, "", true ); return; } roundtrip( r, string( 1, (char) a ), false ); for ( int b = 0; b < 256; ++b ) { string s; s += (char) a; s += (char) b; string got; for ( int mark = 0; mark < 2; ++mark ) { string want = b64( s, mark ); encode( r, s, mark, got ); r.eqs( got, want, "encode", "base64 of " + mc::show( s ) ); Heap e( want ), d( 2 ), f( 3 ); r.check( kwsysBase64_Decode( e.p.get(), 2, d.p.get(), 0 ) == 2 && d.str( 2 ) == s && kwsysBase64_Decode( e.p.get(), 0, f.p.get(), 4 ) == 2 && f.str( 2 ) == s, "decode", "base64 of " + mc::show( s ) ); } r.count(); } }
SCENARIO( k04_base64_triples, 1 )
{ // every group of three bytes
  int a = r.choose( 256 ); uc src[3], e[4], d[3]; src[0] = (uc) a; uint64_t n = 0;
  for ( int b = 0; b < 256; ++b ) { for ( int c = 0; c < 256; c += 1 ) { src[1] = (uc) b; src[2] = (uc) c; unsigned v = (unsigned) a << 16 | (unsigned) b << 8 | (unsigned) c; kwsysBase64_Encode3( src, e ); if ( e[0] != digits[v >> 18] || e[1] != digits[( v >> 12 ) & 63] || e[2] != digits[( v >> 6 ) & 63] || e[3] != digits[v & 63] ) { r.fail( "encode", "base64 of the bytes " + std::to_string( v ) ); } if ( kwsysBase64_Decode3( e, d ) != 3 || memcmp( src, d, 3 ) ) { r.fail( "decode", "base64 of the bytes " + std::to_string( v ) ); } ++n; } }
  r.step( 2 * n ); r.count( n ); kwsysBase64_Encode2( src, e ); r.eqs( string( (char*) e, 4 ), b64( string( (char*) src, 2 ), false ), "encode", "two bytes" ); kwsysBase64_Encode1( src, e ); r.eqs( string( (char*) e, 4 ), b64( string( (char*) src, 1 ), false ), "encode", "one byte" );
}
SCENARIO( k04_base64_long, 2 ) { int n = r.choose( r.bound( 201, 401 ) ), k = r.choose( 4 ); string s = content( k, (size_t) n ); bool pre = n < r.bound( 20, 60 ); string got; for ( int mark = 0; mark < 2; ++mark ) { string want = b64( s, mark ); size_t m = encode( r, s, mark, got ); r.eq( m, want.size(), "encode", "length of the base64 form of " + std::to_string( n ) + " bytes" ); r.eqs( got, want, "encode", std::to_string( n ) + " bytes" ); Heap e( want );
  for ( size_t len = pre ? 0 : s.size(); len <= s.size(); ++len ) { Heap d( len ); size_t c = kwsysBase64_Decode( e.p.get(), len, d.p.get(), 0 ); r.step(); r.check( c == len && d.str( len ) == s.substr( 0, len ), "decode", "decoding " + std::to_string( len ) + " of " + std::to_string( n ) + " bytes" ); }
  for ( size_t m2 = pre ? 1 : want.size(); m2 <= want.size() && m2 > 0; ++m2 ) { Heap part( want.substr( 0, m2 ) ), d( ( m2 + 3 ) / 4 * 3 ); size_t full = std::min( m2 / 4 * 3, s.size() ); for ( size_t len : { 0, 7 } ) { size_t c = kwsysBase64_Decode( part.p.get(), len, d.p.get(), m2 ); r.step(); r.check( c == full && d.str( full ) == s.substr( 0, full ), "decode-input", "decoding the first " + std::to_string( m2 ) + " characters of the form of " + std::to_string( n ) + " bytes gives " + std::to_string( c ) + " bytes instead of " + std::to_string( full ) ); } } } r.state( mc::hash_str( s ) ); }
SCENARIO( k04_base64_foreign, 2 )
{ // arbitrary text: the decoder stops at the first group that is not a full valid one
  static uc const A8[] = { 'A', 'z', '/', '=', '\n', 0x80, 0xff, 0 }; static uc const A4[] = { 'A', '/', '=', '!' }; int groups = 1 + r.choose( r.bound( 2, 2 ) ); string s; int a = groups == 1 ? r.choose( 256 ) : A4[r.choose( 4 )]; s += (char) a; while ( (int) s.size() < 4 * groups ) { s += (char) ( groups == 1 ? A8[r.choose( 8 )] : A4[r.choose( 4 )] ); }
  string want, part; bool judged = true; for ( int g = 0; g < groups; ++g ) { int k = group( s.substr( 4 * g, 4 ), part ); if ( k < 0 ) { judged = false; break; } want += part; if ( k < 3 ) { break; } }
  Heap in( s ); for ( size_t m = 1; m <= s.size(); ++m ) { Heap cut( s.substr( 0, m ) ), d( ( m + 3 ) / 4 * 3 ); size_t c = kwsysBase64_Decode( cut.p.get(), 0, d.p.get(), m ); r.step(); r.check( c <= d.n, "range", "more bytes than possible" ); if ( judged && m == s.size() ) { r.check( c == want.size() && d.str( c ) == want, "foreign", "decoding " + mc::show( s ) + " gives " + mc::show( d.str( c ) ) + " instead of " + mc::show( want ) ); } }
  for ( size_t len = 0; len <= 3 * (size_t) groups; ++len ) { Heap d( len ); size_t c = kwsysBase64_Decode( in.p.get(), len, d.p.get(), 0 ); r.step(); r.check( c <= len, "range", "more bytes than asked for" ); if ( judged ) { string w = want.substr( 0, len ); r.check( c == w.size() && d.str( c ) == w, "foreign", "decoding " + std::to_string( len ) + " bytes of " + mc::show( s ) + " gives " + mc::show( d.str( c ) ) + " instead of " + mc::show( w ) ); } }
  r.outcome( want.size() == 3 * (size_t) groups ? "all" : want.empty() ? "none" : "part" );
}
SCENARIO( k04_md5, 2 )
{
  if ( hex( md5( "abc" ) ) != "900150983cd24fb0d6963f7d28e17f72" || hex( md5( "12345678901234567890123456789012345678901234567890123456789012345678901234567890" ) ) != "57edf4a22be3c955ac49da2e2107b67a" ) { throw mc::Divergence( "reference digest" ); }
  int n = r.choose( r.bound( 201, 401 ) ), kind = r.choose( 4 ); string s = content( kind, (size_t) n ), want = hex( md5( s ) ); bool text = kind == 3 || kind == 1;
  for ( int cut = 0; cut <= n; ++cut ) { for ( size_t al = 0; al < 4; ++al ) { Digest d; if ( al == 3 && text ) { d.add( r, s.substr( 0, cut ), 1, true ); d.add( r, s.substr( cut ), 2, true ); } else { d.add( r, s.substr( 0, cut ), al, false ); d.add( r, s.substr( cut ), ( al + 1 ) % 4, false ); } r.eqs( d.end( al % 2 == 1 ), want, "digest", "digest of " + std::to_string( n ) + " bytes split at " + std::to_string( cut ) ); r.count(); } }
  for ( int step = 1; step <= 70; ++step ) { Digest d, e; string other = content( 2, (size_t) step ); d.add( r, "start", 0, false ); kwsysMD5_Initialize( d.m ); for ( size_t o = 0; o < s.size(); o += (size_t) step ) { d.add( r, s.substr( o, (size_t) step ), 0, false ); d.add( r, "", 0, false ); e.add( r, other, 0, false ); } r.eqs( d.end( false ), want, "digest", "digest of " + std::to_string( n ) + " bytes in pieces of " + std::to_string( step ) ); string o2; for ( size_t o = 0; o < s.size(); o += (size_t) step ) { o2 += other; } r.eqs( e.end( true ), hex( md5( o2 ) ), "digest", "a second digest" ); r.count(); }
}
SCENARIO( k04_md5_three, 2 ) { int a = r.choose( 131 ), b = r.choose( 131 ); for ( int c = 0; c < 131; c += r.bound( 13, 1 ) ) { string s = content( 2, (size_t) ( a + b + c ) ); Digest d; d.add( r, s.substr( 0, a ), 0, false ); d.add( r, s.substr( a, b ), 0, false ); d.add( r, s.substr( a + b ), 0, false ); r.eqs( d.end( false ), hex( md5( s ) ), "digest", "digest of three pieces " + std::to_string( a ) + "+" + std::to_string( b ) + "+" + std::to_string( c ) ); r.count(); } }
SCENARIO( k04_md5_huge, 1 )
{ // more bits than a word holds
  struct Case { vector< int > parts; char const* want; }; static Case const cases[] = { { { 0x20000003 }, "f477dd2300ffb741b990c4eac208d915" }, { { 0x10000000, 0x10000003 }, "f477dd2300ffb741b990c4eac208d915" }, { { 0x1fffffff, 4 }, "f477dd2300ffb741b990c4eac208d915" }, { { 0x1fffffff }, "c6c4834a7b0928878ad48c867a1e24d6" } };
  Case const& c = cases[r.choose( 4 )]; size_t len = 0x20000010; uc* p = (uc*) mmap( nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if ( p == MAP_FAILED ) { throw mc::Divergence( "no memory" ); } Digest d; for ( int n : c.parts ) { kwsysMD5_Append( d.m, p, n ); r.step(); } munmap( p, len ); r.eqs( d.end( true ), c.want, "digest", "digest of about 2^29 zero bytes" );
}
SCENARIO( k04_digest_hex, 0 ) { for ( int b = 0; b < 256; ++b ) { for ( int i = 0; i < 16; ++i ) { Heap d( 16 ), o( 32 ); d.p[i] = (uc) b; kwsysMD5_DigestToHex( d.p.get(), (char*) o.p.get() ); r.step(); r.eqs( o.str( 32 ), hex( d.str( 16 ) ), "hex", "hexadecimal form" ); } } kwsysMD5_Delete( nullptr ); }
SCENARIO( k04_text_all, 1 )
{ // every character
  int page = r.choose( 0x1100 ); locale( true ); for ( uint32_t c = (uint32_t) page << 8; c < ( (uint32_t) page + 1 ) << 8; ++c ) { if ( c == 0 || ( c >= 0xD800 && c < 0xE000 ) ) { continue; } text( r, utf8( c ), wstring( 1, (wchar_t) c ), "U+" + std::to_string( c ) ); r.count(); }
}
SCENARIO( k04_text_strings, 2 )
{
  static uint32_t const A[] = { 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0 }; locale( true ); int n = r.choose( r.bound( 5, 6 ) ); string s; wstring w; for ( int i = 0; i < n; ++i ) { uint32_t c = A[r.choose( 9 )]; s += utf8( c ); w += (wchar_t) c; } text( r, s, w, "text " + mc::show( s ) ); r.state( mc::hash_str( s ) );
}
SCENARIO( k04_text_invalid, 2 )
{ // text that is not valid in the encoding is refused as a whole
  static char const* const bad[] = { "\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xc3(", "\xe2(\xa1" }; using kwsys::Encoding; int mode = r.choose( 3 );
  if ( mode == 0 ) { locale( true ); static char const* const pre[] = { "", "a", "\xc3\xa9" }; string s = string( pre[r.choose( 3 )] ) + bad[r.choose( 8 )] + pre[r.choose( 2 )]; if ( kwsysEncoding_mbstowcs( nullptr, s.c_str(), 0 ) != (size_t) -1 ) { r.fail( "invalid", "length of the invalid text " + mc::show( s ) ); } r.check( kwsysEncoding_DupToWide( s.c_str() ) == nullptr, "invalid", "DupToWide of " + mc::show( s ) ); r.check( Encoding::ToWide( s.c_str() ).empty() && Encoding::ToWide( s ).empty(), "invalid", "ToWide of " + mc::show( s ) ); r.step( 4 ); }
  else if ( mode == 1 ) { locale( true ); static uint32_t const W[] = { 0xD800, 0xDFFF, 0xDC00, 0x80000000u }; wstring s; if ( r.flip() ) { s += L'a'; } s += (wchar_t) W[r.choose( 4 )]; if ( r.flip() ) { s += L'b'; } r.check( kwsysEncoding_wcstombs( nullptr, s.c_str(), 0 ) == (size_t) -1, "invalid", "length of invalid wide text" ); r.check( kwsysEncoding_DupToNarrow( s.c_str() ) == nullptr && Encoding::ToNarrow( s.c_str() ).empty() && Encoding::ToNarrow( s ).empty(), "invalid", "conversion of invalid wide text" ); r.step( 4 ); }
  else { locale( false ); int c = 1 + r.choose( 127 ); string s( 1 + r.choose( 3 ), (char) c ); text( r, s, wstring( s.begin(), s.end() ), "plain text" ); r.check( kwsysEncoding_mbstowcs( nullptr, nullptr, 0 ) == (size_t) -1 && kwsysEncoding_wcstombs( nullptr, nullptr, 0 ) == (size_t) -1, "null", "null text" ); r.check( kwsysEncoding_DupToWide( nullptr ) == nullptr && kwsysEncoding_DupToNarrow( nullptr ) == nullptr, "null", "null text" ); }
}
SCENARIO( k04_arguments, 2 )
{
  typedef kwsys::Encoding::CommandLineArguments CLA; static char const* const A[] = { "", "a", "two words", "\xc3\xa9" }; static wchar_t const* const W[] = { L"", L"a", L"two words", L"\u00e9" }; locale( true ); struct Obj { std::unique_ptr< CLA > p; vector< string > v; };
  auto make = [&]( Obj& o ) { int n = r.choose( 3 ), kind = r.choose( 3 ); vector< char const* > a; vector< wchar_t const* > w; for ( int i = 0; i < n; ++i ) { int k = r.choose( 4 ); a.push_back( A[k] ); w.push_back( W[k] ); o.v.push_back( A[k] ); } a.push_back( nullptr ); w.push_back( nullptr ); if ( kind == 0 ) { o.p.reset( new CLA( n, a.data() ) ); } else if ( kind == 1 ) { o.p.reset( new CLA( n, w.data() ) ); } else { o.p.reset( new CLA( CLA::Main( n, a.data() ) ) ); } };
  auto check = [&]( Obj const& o, string const& w ) { r.step(); r.eq( o.p->argc(), (int) o.v.size(), "arguments", w + ": number" ); for ( size_t i = 0; i < o.v.size(); ++i ) { r.eqs( o.p->argv()[i] ? o.p->argv()[i] : "<null>", o.v[i], "arguments", w ); } r.check( o.p->argv()[o.v.size()] == nullptr, "arguments", w + ": end" ); };
  Obj x, y; make( x ); make( y ); check( x, "new" ); check( y, "new" ); for ( int i = 0; i < r.bound( 2, 3 ); ++i ) { switch ( r.choose( 4 ) ) { case 0: *x.p = *y.p; x.v = y.v; break; case 1: { CLA& self = *x.p; self = *x.p; break; } case 2: y.p.reset( new CLA( *x.p ) ); y.v = x.v; break; default: { CLA t( *y.p ); *y.p = *x.p; *x.p = t; std::swap( x.v, y.v ); } } check( x, "after copying" ); check( y, "after copying" ); }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
