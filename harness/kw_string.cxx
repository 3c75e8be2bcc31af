// K08: string helpers against their plain definitions.
#include "mc.h"
#include <kwsys/SystemTools.hxx>
#include <kwsys/System.h>
#include <kwsys/String.h>
#include <cstdarg>
#include <ctime>
#include <memory>
#include <sys/stat.h>
using std::string; using std::vector; typedef kwsys::SystemTools ST; typedef unsigned char uc;
namespace {
string text( mc::Run& r, char const* alphabet, int len, int max ) { (void) len; int n = r.choose( max + 1 ); string s; int k = (int) strlen( alphabet ); for ( int i = 0; i < n; ++i ) { s += alphabet[r.choose( k )]; } return s; }
bool upper( char c ) { return c >= 'A' && c <= 'Z'; } bool lower( char c ) { return c >= 'a' && c <= 'z'; } bool blank( char c ) { return c == ' ' || ( c >= 9 && c <= 13 ); } char up( char c ) { return lower( c ) ? (char) ( c - 32 ) : c; } char low( char c ) { return upper( c ) ? (char) ( c + 32 ) : c; }
string take( char* p ) { string s = p ? p : "<null>"; delete [] p; return s; }
struct Exact { std::unique_ptr< char[] > p; Exact( string const& s ) : p( new char[s.size() + 1] ) { memcpy( p.get(), s.c_str(), s.size() + 1 ); } operator char const*() const { return p.get(); } };
int estimate( char const* f, ... ) { va_list a; va_start( a, f ); int n = ST::EstimateFormatLength( f, a ); va_end( a ); return n; }
int actual( char const* f, ... ) { va_list a; va_start( a, f ); int n = vsnprintf( nullptr, 0, f, a ); va_end( a ); return n; }
vector< string > fields( string const& s, char sep ) { vector< string > o( 1 ); for ( char c : s ) { if ( c == sep ) { o.push_back( "" ); } else { o.back() += c; } } return o; }
string list( vector< string > const& v ) { string o = "["; for ( auto const& s : v ) { o += mc::show( s ) + " "; } return o + "]"; }
void letters( mc::Run& r, string const& s )
{
  string cap, lo, hi, words, unwords, spaced; for ( size_t i = 0; i < s.size(); ++i ) { char c = s[i]; lo += low( c ); hi += up( c ); cap += i ? low( c ) : up( c ); bool start = i == 0 || blank( s[i - 1] ); words += start ? up( c ) : c; unwords += start ? low( c ) : c; if ( i && upper( c ) && ! blank( s[i - 1] ) && ! upper( s[i - 1] ) ) { spaced += ' '; } spaced += c; }
  r.step( 8 ); r.eqs( ST::LowerCase( s ), lo, "case", "LowerCase of " + mc::show( s ) ); r.eqs( ST::UpperCase( s ), hi, "case", "UpperCase of " + mc::show( s ) ); r.eqs( ST::Capitalized( s ), cap, "case", "Capitalized of " + mc::show( s ) ); r.eqs( ST::CapitalizedWords( s ), words, "case", "CapitalizedWords of " + mc::show( s ) ); r.eqs( ST::UnCapitalizedWords( s ), unwords, "case", "UnCapitalizedWords of " + mc::show( s ) ); r.eqs( ST::AddSpaceBetweenCapitalizedWords( s ), spaced, "case", "AddSpaceBetweenCapitalizedWords of " + mc::show( s ) );
  string id; for ( char c : s ) { id += upper( c ) || lower( c ) || ( c >= '0' && c <= '9' ) || c == '_' ? c : '_'; } if ( ! s.empty() && s[0] >= '0' && s[0] <= '9' ) { id = "_" + id; } r.eqs( ST::MakeCidentifier( s ), id, "identifier", "MakeCidentifier of " + mc::show( s ) ); r.eqs( ST::MakeCindentifier( s ), id, "identifier", "MakeCindentifier of " + mc::show( s ) );
}
string replaced( string const& s, string const& a, string const& b ) { if ( a.empty() ) { return s; } string o; for ( size_t i = 0; i < s.size(); ) { if ( s.compare( i, a.size(), a ) == 0 ) { o += b; i += a.size(); } else { o += s[i++]; } } return o; }
vector< string > shell( string const& s )
{ // the documented syntax: blanks separate, quotes group, a backslash takes the next character literally everywhere
  vector< string > o; bool in = false; char q = 0; string a; for ( size_t i = 0; i < s.size(); ++i ) { char c = s[i]; if ( c == '\\' ) { if ( i + 1 < s.size() ) { a += s[++i]; in = true; } } else if ( q ) { if ( c == q ) { q = 0; } else { a += c; } } else if ( c == '"' || c == '\'' ) { q = c; in = true; } else if ( blank( c ) ) { if ( in ) { o.push_back( a ); a.clear(); in = false; } } else { a += c; in = true; } } if ( in ) { o.push_back( a ); } return o;
}
void parse( mc::Run& r, string const& s ) { Exact e( s ); char** v = kwsysSystem_Parse_CommandForUnix( e, 0 ); r.step(); vector< string > want = shell( s ), got; r.check( v != nullptr, "command", "parsing " + mc::show( s ) + " failed" ); for ( char** p = v; *p; ++p ) { got.push_back( *p ); free( *p ); } free( v ); if ( got != want ) { r.fail( "command", "parsing " + mc::show( s.substr( 0, 40 ) ) + " gives " + list( got ).substr( 0, 200 ) + " instead of " + list( want ).substr( 0, 200 ) ); } r.outcome( std::to_string( want.size() ) ); }
int sign( int x ) { return x < 0 ? -1 : x > 0; }
}
SCENARIO( k08_letters, 2 ) { string s = text( r, "aZ9_ \t-\xe9", 8, r.bound( 6, 7 ) ); letters( r, s ); r.state( mc::hash_str( s ) ); }
SCENARIO( k08_letters_all, 1 ) { int a = r.choose( 256 ); for ( int b = 0; b < 256; ++b ) { string s; s += (char) a; s += (char) b; letters( r, s ); letters( r, s + "x" ); r.count(); } }
SCENARIO( k08_replace, 2 )
{
  string s = text( r, "ab", 2, r.bound( 8, 10 ) ), a = text( r, "ab", 2, 3 ), b = text( r, "ab", 2, 2 ); string want = replaced( s, a, b ), x = s; ST::ReplaceString( x, a, b ); r.step(); r.eqs( x, want, "replace", "replacing " + a + " by " + b + " in " + s ); x = s; Exact ea( a ), eb( b ); ST::ReplaceString( x, ea, eb ); r.eqs( x, want, "replace", "replacing " + a + " by " + b + " in " + s ); if ( b.empty() ) { x = s; ST::ReplaceString( x, ea, (char const*) nullptr ); r.eqs( x, want, "replace", "replacing " + a + " by null in " + s ); }
}
SCENARIO( k08_replace_any, 2 )
{ // any bytes, and arguments that are the text itself
  vector< string > pieces = { "a", string( 1, '\0' ), "\xff", "b" }; auto any = [&]( int max ) { int n = r.choose( max + 1 ); string s; for ( int i = 0; i < n; ++i ) { s += r.pick( pieces ); } return s; };
  string s = any( r.bound( 4, 6 ) ), a = any( 2 ), b = any( 1 ), x = s; int mode = r.choose( 4 ); r.step(); if ( mode == 0 ) { ST::ReplaceString( x, a, b ); r.eqs( x, replaced( s, a, b ), "replace", "replacing " + mc::show( a ) + " by " + mc::show( b ) + " in " + mc::show( s ) ); } else if ( mode == 1 ) { ST::ReplaceString( x, a, x ); r.eqs( x, replaced( s, a, s ), "replace", "replacing " + mc::show( a ) + " by the text " + mc::show( s ) ); } else if ( mode == 2 ) { ST::ReplaceString( x, x, b ); r.eqs( x, replaced( s, s, b ), "replace", "replacing the text " + mc::show( s ) ); } else { string t( a.c_str() ), u( b.c_str() ); ST::ReplaceString( x, t.c_str(), u.c_str() ); r.eqs( x, replaced( s, t, u ), "replace", "replacing " + mc::show( t ) + " by " + mc::show( u ) + " in " + mc::show( s ) ); }
}
SCENARIO( k08_characters, 2 )
{ // counting, removing, replacing and escaping single characters
  string s = text( r, "aF0/\\", 5, r.bound( 5, 6 ) ), set = text( r, "aF/", 3, 3 ); Exact e( s ), es( set ); r.step( 7 ); char const rep = r.flip() ? 'a' : '#';
  string removed, hex, rp, esc; for ( char c : s ) { bool const in = set.find( c ) != string::npos; if ( ! in ) { removed += c; } if ( ( c >= '0' && c <= '9' ) || ( c >= 'A' && c <= 'F' ) ) { hex += c; } if ( in ) { esc += rep; } esc += c; rp += c; } for ( char& c : rp ) { for ( char q : set ) { if ( c == q ) { c = rep; } } }
  r.eqs( take( ST::RemoveChars( e, es ) ), removed, "remove", "RemoveChars " + set + " of " + s ); r.eqs( take( ST::RemoveCharsButUpperHex( e ) ), hex, "remove", "RemoveCharsButUpperHex of " + s ); Exact mod( s ); r.check( ST::ReplaceChars( mod.p.get(), es, rep ) == mod.p.get(), "replace-chars", "returned pointer" ); r.eqs( mod.p.get(), rp, "replace-chars", "ReplaceChars " + set + " of " + s ); r.eqs( ST::EscapeChars( e, es, rep ), esc, "escape", "EscapeChars " + set + " of " + s ); r.eqs( ST::EscapeChars( e, nullptr, rep ), s, "escape", "EscapeChars null of " + s );
  for ( char c : string( "aF0/\\x" ) ) { r.eq( ST::CountChar( e, c ), (size_t) std::count( s.begin(), s.end(), c ), "count", "CountChar of " + s ); } r.eqs( take( ST::DuplicateString( e ) ), s, "duplicate", "DuplicateString" );
  r.check( ST::CountChar( nullptr, 'a' ) == 0 && ! ST::RemoveChars( nullptr, es ) && ! ST::RemoveCharsButUpperHex( nullptr ) && ! ST::ReplaceChars( nullptr, es, 'a' ) && ! ST::DuplicateString( nullptr ) && ST::EscapeChars( nullptr, es ).empty(), "null", "null text" );
}
SCENARIO( k08_hex_all, 0 ) { string s, want; for ( int c = 1; c < 256; ++c ) { s += (char) c; if ( ( c >= '0' && c <= '9' ) || ( c >= 'A' && c <= 'F' ) ) { want += (char) c; } } r.eqs( take( ST::RemoveCharsButUpperHex( s.c_str() ) ), want, "remove", "all characters" ); r.step(); }
SCENARIO( k08_compare, 2 )
{ // prefixes, suffixes, last occurrences and comparison without case
  string a = text( r, "abA", 3, r.bound( 5, 6 ) ), b = text( r, "abA", 3, r.bound( 4, 5 ) ); Exact x( a ), y( b ); r.step( 8 ); string w = a + " / " + b; bool starts = a.size() >= b.size() && a.compare( 0, b.size(), b ) == 0, ends = a.size() >= b.size() && a.compare( a.size() - b.size(), b.size(), b ) == 0;
  r.check( ST::StringStartsWith( (char const*) x, y ) == starts && ST::StringStartsWith( a, y ) == starts, "starts", "StringStartsWith " + w ); r.check( ST::StringEndsWith( (char const*) x, y ) == ends && ST::StringEndsWith( a, y ) == ends, "ends", "StringEndsWith " + w );
  size_t pos = a.rfind( b ); char const* f = ST::FindLastString( x, y ); r.check( pos == string::npos ? f == nullptr : f == (char const*) x + pos, "last", "FindLastString " + w );
  string la, lb; for ( char c : a ) { la += low( c ); } for ( char c : b ) { lb += low( c ); } int want = sign( la.compare( lb ) ); r.eq( sign( ST::Strucmp( x, y ) ), want, "compare", "Strucmp " + w ); r.eq( sign( kwsysString_strcasecmp( x, y ) ), want, "compare", "strcasecmp " + w ); for ( size_t n = 0; n <= 6; ++n ) { r.eq( sign( kwsysString_strncasecmp( x, y, n ) ), sign( la.substr( 0, n ).compare( lb.substr( 0, n ) ) ), "compare", "strncasecmp " + w ); }
  r.eqs( take( ST::AppendStrings( x, y ) ), a + b, "append", "AppendStrings " + w ); r.eqs( take( ST::AppendStrings( x, nullptr ) ), a, "append", "AppendStrings " + w ); r.eqs( take( ST::AppendStrings( nullptr, y ) ), b, "append", "AppendStrings " + w ); static char const* const third[] = { nullptr, "", "xyz" };
  for ( char const* t : third ) { for ( int m = 0; m < 4; ++m ) { char const* p = m & 1 ? (char const*) x : nullptr; char const* q = m & 2 ? (char const*) y : nullptr; if ( ! p && ! q && ! t ) { r.check( ST::AppendStrings( p, q, t ) == nullptr, "append", "nothing" ); continue; } r.eqs( take( ST::AppendStrings( p, q, t ) ), string( p ? p : "" ) + ( q ? q : "" ) + ( t ? t : "" ), "append", "AppendStrings of three " + w ); } }
  r.check( ! ST::StringStartsWith( (char const*) nullptr, y ) && ! ST::StringStartsWith( (char const*) x, nullptr ) && ! ST::StringStartsWith( a, nullptr ) && ! ST::StringEndsWith( (char const*) nullptr, y ) && ! ST::StringEndsWith( (char const*) x, nullptr ) && ! ST::StringEndsWith( a, nullptr ) && ! ST::FindLastString( nullptr, y ) && ! ST::FindLastString( x, nullptr ) && ! ST::AppendStrings( nullptr, nullptr ), "null", "null text" );
}
SCENARIO( k08_compare_all, 1 ) { int a = r.choose( 256 ); for ( int b = 0; b < 256; ++b ) { char x[3] = { (char) a, 'x', 0 }, y[3] = { (char) b, 'x', 0 }; bool same = low( (char) a ) == low( (char) b ); r.check( ( ST::Strucmp( x, y ) == 0 ) == same && ( kwsysString_strcasecmp( x, y ) == 0 ) == same, "compare", "characters " + std::to_string( a ) + " and " + std::to_string( b ) ); r.check( sign( ST::Strucmp( x, y ) ) == -sign( ST::Strucmp( y, x ) ), "compare", "order of characters" ); r.step(); r.count(); } }
SCENARIO( k08_crop, 1 )
{
  int n = r.choose( r.bound( 24, 60 ) ); string s; for ( int i = 0; i < n; ++i ) { s += (char) ( 'A' + i ); } for ( size_t max = 0; max <= (size_t) n + 2; ++max ) { string c = ST::CropString( s, max ); r.step(); string w = "CropString of " + std::to_string( n ) + " to " + std::to_string( max ); if ( max == 0 || max >= s.size() ) { r.eqs( c, s, "crop", w ); continue; } r.eq( c.size(), max, "crop", w + ": size" ); size_t dots = max < 3 ? 0 : std::min< size_t >( 3, max - 2 ), keep = max - dots; bool ok = false; for ( size_t p : { keep / 2, keep - keep / 2 } ) { ok = ok || c == s.substr( 0, p ) + string( dots, '.' ) + s.substr( s.size() - ( keep - p ) ); } r.check( ok, "crop", w + " gives " + c ); }
}
SCENARIO( k08_split, 2 )
{
  string s = text( r, "a/\n\r", 4, r.bound( 7, 9 ) ); for ( char sep : string( "/\n" ) ) { vector< string > want = fields( s, sep ), got( 1, "kept" ); bool whole = want.back().empty(); if ( whole ) { want.pop_back(); } bool res = ST::Split( s, got, sep ); r.step(); want.insert( want.begin(), "kept" ); r.check( got == want, "split", "Split of " + mc::show( s ) + " gives " + list( got ) ); r.check( res == whole, "split", "result of Split of " + mc::show( s ) ); }
  { vector< string > want = fields( s, '\n' ), got; bool whole = want.back().empty(); for ( size_t i = 0; i + 1 < want.size(); ++i ) { if ( ! want[i].empty() && want[i].back() == '\r' ) { want[i].resize( want[i].size() - 1 ); } } if ( whole ) { want.pop_back(); } bool res = ST::Split( s, got ); r.step(); r.check( got == want, "split", "Split of " + mc::show( s ) + " into lines gives " + list( got ) ); r.check( res == whole, "split", "result of Split of " + mc::show( s ) ); }
  for ( char sep : string( "/a" ) ) { auto v = ST::SplitString( s, sep ); string joined; for ( size_t i = 0; i < v.size(); ++i ) { joined += ( i ? string( 1, sep ) : "" ) + v[i]; } r.eqs( joined, s, "split-string", "joining the parts" ); vector< string > want = fields( s, sep ); if ( ! s.empty() && std::find( want.begin(), want.end(), "" ) == want.end() ) { r.check( vector< string >( v.begin(), v.end() ) == want, "split-string", "SplitString of " + mc::show( s ) ); } }
  if ( ! s.empty() && s[0] == '/' && s.size() > 1 ) { string rest = s.substr( 1 ); vector< string > want = fields( rest, '/' ); if ( std::find( want.begin(), want.end(), "" ) == want.end() ) { auto v = ST::SplitString( s, '/', true ); want.insert( want.begin(), "/" ); r.check( vector< string >( v.begin(), v.end() ) == want, "split-string", "SplitString of the path " + mc::show( s ) ); } }
}
SCENARIO( k08_lines, 2 )
{ // reading lines: every short text, and long lines with special characters around the buffer size
  string s; long limit = -1; int mode = r.choose( 2 ); vector< long > limits = { -1, 1, 2, 3, 5, 1022, 1023, 1024, 1025, 5000 };
  if ( mode == 0 ) { vector< string > p = { "a", "\n", "\r", string( 1, '\0' ) }; int n = r.choose( r.bound( 7, 8 ) ); for ( int i = 0; i < n; ++i ) { s += r.pick( p ); } limit = r.pick( vector< long >{ -1, 1, 2, 3 } ); }
  else { size_t base = r.pick( vector< size_t >{ 1020, 2042, 4080 } ); int extra = r.choose( 9 ); s = string( base + (size_t) extra, 'x' ); int k = r.choose( 4 ), at = r.choose( 10 ); if ( k && base + (size_t) at - 1 < s.size() ) { s[base + (size_t) at - 1] = k == 1 ? '\r' : k == 2 ? '\n' : '\0'; } if ( r.flip() ) { s += "\n"; } if ( r.flip() ) { s += "tail\r\n"; } limit = r.pick( limits ); }
  std::istringstream in( s ); vector< string > lines = fields( s, '\n' ); bool last = lines.back().empty(); if ( last ) { lines.pop_back(); } string w = "reading " + mc::show( s.substr( 0, 30 ) ) + " (" + std::to_string( s.size() ) + ") limit " + std::to_string( limit );
  for ( size_t i = 0; i < lines.size(); ++i ) { bool nl = i + 1 < lines.size() || last, has = ! nl; string got = "old", want = lines[i]; if ( ! want.empty() && want.back() == '\r' ) { want.resize( want.size() - 1 ); } if ( limit >= 0 && (long) want.size() > limit ) { want.resize( (size_t) limit ); } bool res = i % 2 || limit >= 0 ? ST::GetLineFromStream( in, got, &has, limit ) : ST::GetLineFromStream( in, got, &has ); r.step(); r.check( res, "lines", w + ": line " + std::to_string( i ) + " is missing" ); if ( got != want ) { size_t d = 0; while ( d < got.size() && d < want.size() && got[d] == want[d] ) { ++d; } r.fail( "lines", w + ": line " + std::to_string( i ) + " has " + std::to_string( got.size() ) + " characters instead of " + std::to_string( want.size() ) + ", different from " + std::to_string( d ) ); } r.check( has == nl, "lines", w + ": newline at line " + std::to_string( i ) ); }
  for ( int i = 0; i < 2; ++i ) { string got = "old"; bool has = true; r.check( ! ST::GetLineFromStream( in, got, &has ) && got.empty() && ! has, "lines", w + ": something after the end" ); }
}
SCENARIO( k08_command, 2 ) { parse( r, text( r, "a \"'\\\t", 6, r.bound( 7, 8 ) ) ); }
SCENARIO( k08_command_long, 2 )
{ // growth of the buffers
  static size_t const sizes[] = { 0, 1, 31, 32, 33, 64, 65, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000 }; size_t n = sizes[r.choose( 15 )]; int form = r.choose( 6 ); string s; for ( size_t i = 0; i < n; ++i ) { s += form == 0 ? "a " : form == 1 ? "a" : form == 2 ? "\\ " : form == 3 ? "'a b' " : form == 4 ? "\"\" " : i % 100 == 99 ? "b " : "\"c d\""; } if ( r.flip() ) { s += "\\"; } if ( r.flip() ) { s += " last"; } parse( r, s ); r.check( kwsysSystem_Parse_CommandForUnix( "a", 1 ) == nullptr, "command", "unknown flags" );
}
SCENARIO( k08_quoting, 2 )
{ // whatever is escaped comes back
  vector< string > args, q; int n = r.choose( 3 ); string cmd; for ( int i = 0; i <= n; ++i ) { string a = text( r, "a \"'\\\n", 6, r.bound( 2, 3 ) ), e; int how = r.choose( 3 ); if ( a.empty() || how == 2 ) { e = "\"" + ST::EscapeChars( a.c_str(), "\"\\" ) + "\""; } else { e = how == 0 ? ST::EscapeChars( a.c_str(), " \"'\\\n" ) : "'" + ST::EscapeChars( a.c_str(), "'\\" ) + "'"; } cmd += ( i ? " " : "" ) + e; args.push_back( a ); }
  char** v = kwsysSystem_Parse_CommandForUnix( cmd.c_str(), 0 ); vector< string > got; for ( char** p = v; p && *p; ++p ) { got.push_back( *p ); free( *p ); } free( v ); r.step(); if ( got != args ) { r.fail( "quoting", mc::show( cmd ) + " gives " + list( got ) ); }
}
SCENARIO( k08_format, 2 )
{ // integers and floating point numbers travel in different registers, so all of them can be passed at once
  struct P { char const* f; int ints; int doubles; int str; }; static P const P_[] = { { "%d", 1, 0, -1 }, { "%ld", 1, 0, -1 }, { "%llx", 1, 0, -1 }, { "%5d", 1, 0, -1 }, { "%-200u", 1, 0, -1 }, { "%f", 0, 1, -1 }, { "%.3e", 0, 1, -1 }, { "%lf", 0, 1, -1 }, { "%.100f", 0, 1, -1 }, { "%s", 1, 0, 0 }, { "%.2s", 1, 0, 0 }, { "%150s", 1, 0, 0 }, { "%*d", 2, 0, -1 }, { "%*s", 2, 0, 1 }, { "%%", 0, 0, -1 }, { "%c", 1, 0, -1 }, { "%zu", 1, 0, -1 }, { "text", 0, 0, -1 } };
  int n = r.choose( 4 ); string f; long g[9] = { 0 }; double d[4] = { 1e300, -1.5, 0, 3 }; static char const* const strings[] = { "", "abc", "a longer text that takes more than the sixty-four characters guessed for numbers" }; int gi = 0; int which = n ? r.choose( 3 ) : 0; for ( int i = 0; i < n; ++i ) { P const& p = P_[r.choose( 18 )]; f += p.f; for ( int k = 0; k < p.ints; ++k ) { g[gi++] = k == p.str ? (long) strings[which] : p.ints == 2 && k == 0 ? 100 : which == 0 ? 65 : which == 1 ? 0x7fffffffL : -0x40000000L; } }
  Exact e( f ); int want = actual( e, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], d[0], d[1], d[2], d[3] ), got = estimate( e, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], d[0], d[1], d[2], d[3] ); r.step(); r.check( got >= want, "format", "the estimate for " + mc::show( f ) + " is " + std::to_string( got ) + " but " + std::to_string( want ) + " characters are printed" ); r.check( estimate( nullptr ) == 0, "format", "null format" );
}
SCENARIO( k08_output_path, 2 )
{
  string s = text( r, "a/ \\", 4, r.bound( 7, 9 ) ); r.step( 3 ); string u, un; for ( size_t i = 0; i < s.size(); ++i ) { if ( s[i] == '/' && i >= 2 && s[i - 1] == '/' ) { continue; } u += s[i]; } for ( size_t i = 0; i < u.size(); ++i ) { if ( u[i] == ' ' && ( i == 0 || u[i - 1] != '\\' ) ) { un += '\\'; } un += u[i]; }
  r.eqs( ST::ConvertToUnixOutputPath( s ), un, "output-path", "ConvertToUnixOutputPath of " + mc::show( s ) ); r.eqs( ST::ConvertToOutputPath( s ), un, "output-path", "ConvertToOutputPath of " + mc::show( s ) );
  string t = s, w; for ( char& c : t ) { if ( c == '/' ) { c = '\\'; } } if ( t.size() >= 2 ) { for ( size_t i = 0; i < t.size(); ++i ) { if ( t[i] == '\\' && i >= 2 && t[i - 1] == '\\' ) { continue; } w += t[i]; } if ( w.find( ' ' ) != string::npos ) { w = "\"" + w + "\""; } } else { w = t; } if ( s.size() >= 2 ) { r.eqs( ST::ConvertToWindowsOutputPath( s ), w, "output-path", "ConvertToWindowsOutputPath of " + mc::show( s ) ); }
}
SCENARIO( k08_dates, 2 )
{
  static char const* const names[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; static char const* const wrong[] = { "anF", "nFe", "Foo", "", "jan", "D" }; setenv( "TZ", "UTC", 1 ); tzset(); int m = r.choose( 12 + 6 ); bool stamp = r.flip(); string mon = m < 12 ? names[m] : wrong[m - 12];
  static int const years[] = { 1970, 1999, 2000, 2003, 2024, 2100 }; int y = years[r.choose( 6 )]; static int const len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int days = m < 12 ? len[m] + ( m == 1 && y % 4 == 0 && y != 2100 ) : 3;
  for ( int d = 1; d <= days; ++d ) { for ( int form = 0; form < ( stamp ? 5 : 2 ); ++form ) { char b[64]; static int const T[][3] = { { 0, 0, 0 }, { 23, 59, 59 }, { 14, 34, 58 }, { 9, 8, 7 }, { 0, 1, 10 } }; if ( stamp ) { snprintf( b, sizeof b, "Fri %s %2d %02d:%02d:%02d %d", mon.c_str(), d, T[form][0], T[form][1], T[form][2], y ); } else { snprintf( b, sizeof b, form ? "%s %02d %d" : "%s %2d %d", mon.c_str(), d, y ); }
    struct tm t; memset( &t, 0, sizeof t ); t.tm_year = y - 1900; t.tm_mon = m; t.tm_mday = d; if ( stamp ) { t.tm_hour = T[form][0]; t.tm_min = T[form][1]; t.tm_sec = T[form][2]; } time_t want = timegm( &t ), got = 77; Exact e( b ); bool ok = stamp ? ST::ConvertTimeStampMacroString( e, &got ) : ST::ConvertDateMacroString( e, &got ); r.step(); r.check( ok == ( m < 12 ), "date", string( "acceptance of " ) + b ); if ( ok ) { r.eq( got, want, "date", b ); }
    if ( m < 12 && d == 1 && form == 0 ) { for ( size_t k = 0; k < strlen( b ); ++k ) { Exact s( string( b ).substr( 0, k ) ); time_t g; r.check( ! ( stamp ? ST::ConvertTimeStampMacroString( s, &g ) : ST::ConvertDateMacroString( s, &g ) ), "date", "the incomplete " + string( b ).substr( 0, k ) + " is accepted" ); } Exact s( string( b ) + "12345" ); time_t g; r.check( ! ( stamp ? ST::ConvertTimeStampMacroString( s, &g ) : ST::ConvertDateMacroString( s, &g ) ) && ! ( stamp ? ST::ConvertTimeStampMacroString( nullptr, &g ) : ST::ConvertDateMacroString( nullptr, &g ) ) && ! ( stamp ? ST::ConvertTimeStampMacroString( e, nullptr ) : ST::ConvertDateMacroString( e, nullptr ) ), "date", "too long or null" ); } } }
}
SCENARIO( k08_program, 2 )
{ // splitting a command into a program that exists and its arguments
  string const S = r.scratch + "/prog"; static bool made = false; if ( ! made ) { made = true; mkdir( S.c_str(), 0755 ); mkdir( ( S + "/bin" ).c_str(), 0755 ); mkdir( ( S + "/dir" ).c_str(), 0755 ); for ( char const* f : { "/my", "/my prog", "/dir/x y", "/bin/tool", "/bin/tool x", "/bin/my" } ) { FILE* o = fopen( ( S + f ).c_str(), "w" ); fclose( o ); chmod( ( S + f ).c_str(), 0755 ); } setenv( "PATH", ( S + "/bin" ).c_str(), 1 ); }
  static char const* const pieces[] = { "@/my", " ", " prog", "tool", " x", "-a", "@/dir", "/x y", "@/no", "my" }; int n = r.choose( r.bound( 5, 6 ) ); string s; for ( int i = 0; i < n; ++i ) { string p = pieces[r.choose( 10 )]; if ( p[0] == '@' ) { p = S + p.substr( 1 ); } s += p; }
  auto exists = [] ( string const& p ) { struct stat st; return ! p.empty() && stat( p.c_str(), &st ) == 0; }; auto find = [&] ( string const& p ) { string f = S + "/bin/" + p; struct stat st; return ! p.empty() && p.find( '/' ) == string::npos && stat( f.c_str(), &st ) == 0 && S_ISREG( st.st_mode ) ? f : string(); };
  string prog, args; for ( size_t cut = s.size(); ; ) { string p = s.substr( 0, cut ); if ( exists( p ) ) { prog = p; args = s.substr( cut ); break; } if ( ! find( p ).empty() ) { prog = find( p ); args = s.substr( cut ); break; } if ( cut == 0 ) { break; } cut = s.rfind( ' ', cut - 1 ); if ( cut == string::npos ) { break; } }
  string gp = "old", ga = "old"; r.log( mc::show( s ) ); ST::SplitProgramFromArgs( s, gp, ga ); r.step(); r.eqs( gp, prog, "program", "program of " + mc::show( s ) ); r.eqs( ga, args, "program", "arguments of " + mc::show( s ) ); r.outcome( prog.empty() ? "none" : args.empty() ? "whole" : "split" );
}
SCENARIO( k08_url, 2 )
{
  static char const* const proto[] = { "http", "vtk-2", "" }; static char const* const user[] = { "", "me@", "me:secret@", ":x@" }; static char const* const host[] = { "host", "a.b-c", "" }; static char const* const port[] = { "", ":80", ":" }; static char const* const data[] = { "", "/", "/db", "/a/b?c" }; int p = r.choose( 2 ), u = r.choose( 3 ), h = r.choose( 2 ), o = r.choose( 2 ), d = 1 + r.choose( 3 ); string url = string( proto[p] ) + "://" + user[u] + host[h] + port[o] + data[d]; string a, b; r.step( 2 ); bool ok = ST::ParseURLProtocol( url, a, b ); if ( p == 0 ) { r.check( ok, "url", "protocol of " + url ); r.eqs( a, proto[p], "url", "protocol of " + url ); r.eqs( b, url.substr( a.size() + 3 ), "url", "rest of " + url ); }
  string v[6]; ok = ST::ParseURL( url, v[0], v[1], v[2], v[3], v[4], v[5] ); if ( p == 0 ) { r.check( ok, "url", url + " is refused" ); string want[6] = { proto[p], u ? "me" : "", u == 2 ? "secret" : "", host[h], o ? "80" : "", string( data[d] ).substr( 1 ) }; for ( int i = 0; i < 6; ++i ) { r.eqs( v[i], want[i], "url", "part " + std::to_string( i ) + " of " + url ); } }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
