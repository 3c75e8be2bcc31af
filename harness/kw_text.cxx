// K10: text streams: byte order marks are consumed and nothing else; colour appears on terminals and nowhere else.
#include "mc.h"
#include "child.h"
#include <kwsys/FStream.hxx>
#include <kwsys/Terminal.h>
#include <fcntl.h>
#include <fstream>
#include <termios.h>
using std::string; using std::vector;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
namespace {
namespace FS = kwsys::FStream;
struct Mark { char const* name; FS::BOM bom; string bytes; };
vector< Mark > const& marks()
{
  static vector< Mark > const m = { { "UTF-8", FS::BOM_UTF8, "\xEF\xBB\xBF" }, { "UTF-32BE", FS::BOM_UTF32BE, string( "\0\0\xFE\xFF", 4 ) }, { "UTF-32LE", FS::BOM_UTF32LE, string( "\xFF\xFE\0\0", 4 ) }, { "UTF-16BE", FS::BOM_UTF16BE, "\xFE\xFF" }, { "UTF-16LE", FS::BOM_UTF16LE, "\xFF\xFE" } };
  return m;
}
Mark const* expect( string const& rest ) { for ( auto const& m : marks() ) { if ( rest.compare( 0, m.bytes.size(), m.bytes ) == 0 && rest.size() >= m.bytes.size() ) { return &m; } } return 0; }
void judge( mc::Run& r, std::istream& in, string const& all, size_t from, string const& w )
{
  string const rest = all.substr( from ); Mark const* const m = expect( rest ); FS::BOM const got = FS::ReadBOM( in );
  CK( got == ( m ? m->bom : FS::BOM_None ), "mark", w + ": mark " + std::to_string( (int) got ) + " instead of " + ( m ? m->name : "none" ) );
  string const text = rest.substr( m ? m->bytes.size() : 0 ); string read; char c;
  if ( ! text.empty() ) { CK( in.good(), "stream", w + ": the stream cannot be read any more" ); CK( in.tellg() == std::streamoff( all.size() - text.size() ), "position", w + ": reading continues at " + std::to_string( (long) in.tellg() ) + " instead of " + std::to_string( all.size() - text.size() ) ); }
  else { CK( ! in.bad(), "stream", w + ": the stream is broken" ); }
  while ( in.get( c ) ) { read += c; }
  CK( read == text, "text", w + ": the text read is " + mc::show( read ) + " instead of " + mc::show( text ) );
  in.clear(); in.seekg( 0 ); string again; while ( in.get( c ) ) { again += c; } CK( again == all, "text", w + ": going back to the beginning gives " + mc::show( again ) );
  r.step();
}
}
// all short texts over the bytes of the marks, read from every position
SCENARIO( byte_order_marks, 3 )
{
  static unsigned char const alpha[] = { 0x00, 0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 'a' }; int const n = r.bound( 6, 7 ); string s;
  for ( int i = 0; i < n; ++i ) { int const c = r.choose( 8 ); if ( c == 7 ) { break; } s += (char) alpha[c]; }
  for ( size_t from = 0; from <= s.size(); ++from )
  {
    string const w = mc::show( s ) + " from " + std::to_string( from ); std::istringstream in( s ); in.seekg( (long) from ); judge( r, in, s, from, w );
  }
}
// files, with long texts and buffer boundaries, and text before the mark
SCENARIO( marks_in_files, 2 )
{
  int const k = r.choose( 6 ); static size_t const lens[] = { 0, 1, 2, 3, 4095, 4096, 8189, 8190, 8191, 8192, 16384, 70000 }; size_t const before = lens[r.choose( 12 )], after = lens[r.choose( 12 )]; int const fill = r.choose( 3 ), cut = r.choose( 4 ), how = r.choose( 2 );
  string mark = k < 5 ? marks()[k].bytes : ""; if ( (size_t) cut > mark.size() || ( cut && after ) ) { return; } mark.resize( mark.size() - cut ); static char const fills[] = { 'x', '\0', '\xFF' }; string const s = string( before, fills[fill] ) + mark + string( after, fills[fill] );
  string const f = r.scratch + "/text"; { std::ofstream o( f.c_str(), std::ios::binary ); o << s; } string const w = std::to_string( before ) + " characters, mark " + mc::show( mark ) + ", " + std::to_string( after ) + " characters of code " + std::to_string( (unsigned char) fills[fill] );
  kwsys::ifstream in( f.c_str(), std::ios::in | std::ios::binary ); CK( in.good(), "open", w + ": cannot be opened" ); if ( how ) { in.seekg( (long) before ); } else { string skip( before, ' ' ); if ( before ) { in.read( &skip[0], (long) before ); CK( skip == string( before, fills[fill] ), "text", w + ": wrong text before the mark" ); } } judge( r, in, s, before, w );
}
// a stream that is not good is left alone
SCENARIO( marks_bad_stream, 1 )
{
  static std::ios::iostate const st[] = { std::ios::failbit, std::ios::eofbit, std::ios::badbit, std::ios::failbit | std::ios::eofbit, std::ios::badbit | std::ios::failbit }; auto const& m = marks()[r.choose( 5 )]; auto const s = st[r.choose( 5 )]; std::istringstream in( m.bytes + "x" ); in.setstate( s ); CK( FS::ReadBOM( in ) == FS::BOM_None, "mark", string( m.name ) + " read from a stream in error" ); CK( in.rdstate() == s, "stream", "the error of the stream is gone" ); in.clear(); CK( in.get() == (unsigned char) m.bytes[0], "text", "characters were read from a stream in error" ); r.step();
}
// colour on terminals
namespace {
char const* const known[] = { "Eterm", "ansi", "color-xterm", "cygwin", "dtterm", "eterm-color", "gnome", "konsole-256color", "linux", "putty", "rxvt", "rxvt-unicode-256color", "screen", "screen-256color-bce", "screen.linux", "vt100", "xterm", "xterm-256color", "xterm-color", "xterm-termite" };
char const* const unknown[] = { 0, "", "dumb", "Xterm", "xter", "xterm ", "emacs", "vt" };
string colour( int c )
{
  if ( c == 0 ) { return "\33[0m"; } string s; int const fg = c & 0xF, bg = c >> 4 & 0xF; if ( fg == 0 ) { s += "\33[0m"; } else if ( fg <= 8 ) { s += "\33[3" + std::to_string( fg - 1 ) + "m"; } if ( bg >= 1 && bg <= 8 ) { s += "\33[4" + std::to_string( bg - 1 ) + "m"; } if ( c & 0x100 ) { s += "\33[1m"; } return s;
}
struct Out { FILE* f; int back; string name; bool tty; };
Out open_out( int kind, string const& dir )
{
  Out o = { 0, -1, "", false };
  if ( kind == 0 ) { int m = posix_openpt( O_RDWR | O_NOCTTY ); if ( m < 0 || grantpt( m ) || unlockpt( m ) ) { throw mc::Divergence( "no terminal available" ); } int s = ::open( ptsname( m ), O_RDWR | O_NOCTTY ); if ( s < 0 ) { throw mc::Divergence( "no terminal available" ); } struct termios t; tcgetattr( s, &t ); cfmakeraw( &t ); tcsetattr( s, TCSANOW, &t ); o.f = fdopen( s, "w" ); o.back = m; o.tty = true; o.name = "terminal"; }
  else if ( kind == 1 ) { int p[2]; if ( pipe( p ) ) { throw mc::Divergence( "pipe" ); } o.f = fdopen( p[1], "w" ); o.back = p[0]; o.name = "pipe"; }
  else { string const f = dir + "/out"; o.f = fopen( f.c_str(), "w" ); o.back = ::open( f.c_str(), O_RDONLY ); o.name = "file"; }
  return o;
}
string finish( Out& o ) { fflush( o.f ); string s; char b[8192]; if ( o.tty ) { fcntl( o.back, F_SETFL, O_NONBLOCK ); } else { fclose( o.f ); o.f = 0; } for ( ;; ) { ssize_t n = read( o.back, b, sizeof b ); if ( n <= 0 ) { break; } s.append( b, (size_t) n ); } if ( o.f ) { fclose( o.f ); } close( o.back ); return s; }
}
SCENARIO( coloured_text, 2 )
{
  int const kind = r.choose( 3 ), e = r.choose( 4 ), t = r.choose( 28 ); static char const* const em[] = { 0, "", "t", "no" }; em[e] ? setenv( "EMACS", em[e], 1 ) : unsetenv( "EMACS" ); bool const is = t < 20; char const* const term = is ? known[t] : unknown[t - 20]; term ? setenv( "TERM", term, 1 ) : unsetenv( "TERM" );
  // one text per colour and attribute, all on the same stream
  for ( int vt = 0; vt < 2; ++vt )
  {
    if ( ! r.thorough() && ( t % 4 ) && t < 20 && vt ) { continue; }
    Out o = open_out( kind, r.scratch ); string want, w = o.name + ", TERM " + ( term ? term : "unset" ) + ", EMACS " + ( em[e] ? em[e] : "unset" ) + ( vt ? ", assuming VT100" : "" ); bool const on = o.tty && ( is || vt ) && e != 2; int n = 0;
    for ( int bg = 0; bg <= 8; ++bg ) { for ( int fg = 0; fg <= 8; ++fg ) { for ( int at = 0; at < 2; ++at ) { int const c = fg | bg << 4 | at << 8 | ( vt ? 0x800 : 0 ); if ( o.tty && n > 120 ) { continue; } ++n; kwsysTerminal_cfprintf( c, o.f, "<%d%%%s>", n, "a" ); want += ( on ? colour( c ) : "" ) + "<" + std::to_string( n ) + "%a>" + ( on ? "\33[0m" : "" ); } } }
    string const got = finish( o ); size_t d = 0; while ( d < got.size() && d < want.size() && got[d] == want[d] ) { ++d; } CK( got == want, "colour", w + ": from character " + std::to_string( d ) + " the output is " + mc::show( got.substr( d, 20 ) ) + " instead of " + mc::show( want.substr( d, 20 ) ) ); r.step();
  }
}
// every colour alone; the text itself in every form
SCENARIO( coloured_one, 2 )
{
  unsetenv( "EMACS" ); setenv( "TERM", "xterm", 1 ); int const kind = r.choose( 2 ), fg = r.choose( 10 ), bg = r.choose( 10 ), at = r.choose( 8 ); int const c = fg | bg << 4 | ( at & 1 ? 0x100 : 0 ) | ( at & 2 ? 0x200 : 0 ) | ( at & 4 ? 0x800 : 0 ); static char const* const texts[] = { "", "text", "two\nlines\n", "%s", "\33[31mred" };
  for ( char const* x : texts ) { Out o = open_out( kind, r.scratch ); kwsysTerminal_cfprintf( c, o.f, "%s|%*d", x, 6, -7 ); string const body = string( x ) + "|    -7", want = kind ? body : colour( c ) + body + "\33[0m"; string const got = finish( o ); std::ostringstream h; h << std::hex << c; CK( got == want, "colour", "colour 0x" + h.str() + " and " + mc::show( x ) + ": " + mc::show( got ) + " instead of " + mc::show( want ) ); r.step(); }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
