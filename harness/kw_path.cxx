// K01: path helpers against component lists, and lookups against the file system.
#include "mc.h"
#include "child.h"
#include <kwsys/SystemTools.hxx>
#include <sys/stat.h>
#include <unistd.h>
#include <climits>
#include <map>
extern char** environ;
using std::string; using std::vector; typedef kwsys::SystemTools ST; typedef vector< string > VS;
#define CK( c, key, msg ) do { if ( ! ( c ) ) { r.fail( key, msg ); } if ( r.verbose ) { r.note( msg ); } } while ( 0 )
namespace {
string text( mc::Run& r, char const* alphabet, int max ) { int n = r.choose( max + 1 ); string s; int k = (int) strlen( alphabet ); for ( int i = 0; i < n; ++i ) { s += alphabet[r.choose( k )]; } return s; }
bool sep( char c ) { return c == '/' || c == '\\'; }
struct Path { string root; VS raw; }; // root "", "/" or "//" and the pieces between separators
Path cut( string const& p )
{
  Path o; size_t i = 0; if ( p.size() > 1 && ( p.compare( 0, 2, "//" ) == 0 || p.compare( 0, 2, "\\\\" ) == 0 ) ) { o.root = "//"; i = 2; } else if ( ! p.empty() && sep( p[0] ) ) { o.root = "/"; i = 1; }
  if ( i == p.size() ) { return o; }
  o.raw.push_back( "" ); for ( ; i < p.size(); ++i ) { if ( sep( p[i] ) ) { o.raw.push_back( "" ); } else { o.raw.back() += p[i]; } } return o;
}
bool walk( VS& at, VS const& by ) { for ( auto const& c : by ) { if ( c == ".." ) { if ( at.empty() ) { return false; } at.pop_back(); } else if ( ! c.empty() && c != "." ) { at.push_back( c ); } } return true; }
void climb( VS& at, VS const& by ) { for ( auto const& c : by ) { if ( c == ".." ) { if ( ! at.empty() ) { at.pop_back(); } } else if ( ! c.empty() && c != "." ) { at.push_back( c ); } } }
string join( string const& root, VS const& v ) { string o = root; for ( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "/" : "" ) + v[i]; } return o; }
// the file a path denotes, seen from a base; ok is false where a relative base is left upwards
string denoted( string const& p, string const& base, bool& ok ) { Path a = cut( p ); VS at; ok = true; string root = a.root; if ( root.empty() ) { Path b = cut( base ); root = b.root; if ( root.empty() ) { ok = walk( at, b.raw ) && walk( at, a.raw ); } else { climb( at, b.raw ); climb( at, a.raw ); } } else { climb( at, a.raw ); } return join( root, at ); }
string squeezed( string const& s ) { string o; for ( char c : s ) { if ( c != '/' || o.empty() || o.back() != '/' ) { o += c; } } if ( o.size() > 1 && o.back() == '/' && ! ( o.size() == 3 && o[1] == ':' ) ) { o.pop_back(); } return o; }
string slashes( string s ) { for ( size_t i = 0; i < s.size(); ++i ) { if ( s[i] == '\\' && ! ( i + 1 < s.size() && s[i + 1] == ' ' ) ) { s[i] = '/'; } } return s; }
string list( VS const& v ) { string o = "["; for ( auto const& s : v ) { o += mc::show( s ) + " "; } return o + "]"; }
string cwd() { char b[PATH_MAX]; return getcwd( b, sizeof b ) ? b : ""; }
struct Env { string name, old; bool had; Env( char const* n ) : name( n ), had( getenv( n ) != nullptr ) { if ( had ) { old = getenv( n ); } } void set( char const* v ) { if ( v ) { setenv( name.c_str(), v, 1 ); } else { unsetenv( name.c_str() ); } } ~Env() { set( had ? old.c_str() : nullptr ); } };
struct Dir { string was; Dir( string const& d ) : was( cwd() ) { if ( chdir( d.c_str() ) != 0 ) { throw mc::Divergence( "chdir" ); } } ~Dir() { if ( chdir( was.c_str() ) != 0 ) { abort(); } } };
string real( string const& p ) { char b[PATH_MAX]; return realpath( p.c_str(), b ) ? b : ""; }
void wipe( string const& d ) { string c = "/usr/bin/find '" + d + "' -mindepth 1 -delete"; if ( d.size() < 6 || system( c.c_str() ) != 0 ) { throw mc::Divergence( "cannot clear " + d ); } }
void put( string const& p ) { FILE* f = fopen( p.c_str(), "w" ); if ( ! f ) { throw mc::Divergence( "cannot write " + p ); } fputs( "x", f ); fclose( f ); }
void mk( string const& p ) { if ( mkdir( p.c_str(), 0755 ) != 0 && errno != EEXIST ) { throw mc::Divergence( "mkdir " + p ); } }
enum Kind { NONE, FILE_, DIR_, LINK, DANGLING, DIRLINK, KINDS };
void gone( string const& p ) { if ( unlink( p.c_str() ) != 0 && errno != ENOENT ) { rmdir( p.c_str() ); } }
void make( string const& p, int k, string const& targets ) { gone( p ); int e = 0; if ( k == FILE_ ) { put( p ); } else if ( k == DIR_ ) { mk( p ); } else if ( k == LINK ) { e = symlink( ( targets + "/tf" ).c_str(), p.c_str() ); } else if ( k == DANGLING ) { e = symlink( ( targets + "/none" ).c_str(), p.c_str() ); } else if ( k == DIRLINK ) { e = symlink( ( targets + "/td" ).c_str(), p.c_str() ); } if ( e ) { throw mc::Divergence( "symlink" ); } }
bool there( int k ) { return k != NONE && k != DANGLING; } bool isdir( int k ) { return k == DIR_ || k == DIRLINK; } bool isfile( int k ) { return k == FILE_ || k == LINK; }
struct Area { string top; VS d; Area( mc::Run& r, int n = 3 ) { top = real( r.scratch ) + "/k01"; mk( top ); mk( top + "/t" ); put( top + "/t/tf" ); mk( top + "/t/td" ); for ( int i = 0; i < n; ++i ) { d.push_back( top + "/d" + std::to_string( i ) ); mk( d.back() ); } } string t() const { return top + "/t"; } };
}
SCENARIO( k01_collapse, 2 )
{
  string const p = text( r, "ab./\\", r.bound( 6, 8 ) ); static char const* const bases[] = { nullptr, "/", "/x/y", "/x/y/", "//n/m", "r/s", "", "/x//./y/../z", "\\w\\v" };
  for ( char const* b : bases )
  {
    r.step(); bool ok; string want = denoted( p, b ? b : cwd(), ok ); string got = ST::CollapseFullPath( p, b ); string const at = mc::show( p ) + " from " + ( b ? b : "the current directory" ); if ( ! ok ) { continue; }
    CK( got == want, "collapse", "collapsing " + at + " gives " + mc::show( got ) + " instead of " + mc::show( want ) ); if ( b ) { got = ST::CollapseFullPath( p, string( b ) ); CK( got == want, "collapse", "collapsing " + at + " (string) gives " + mc::show( got ) + " instead of " + mc::show( want ) ); } else { got = ST::CollapseFullPath( p ); CK( got == want, "collapse", "collapsing " + at + " gives " + mc::show( got ) + " instead of " + mc::show( want ) ); }
    got = ST::CollapseFullPath( want, b ); if ( ! want.empty() && want[0] == '/' ) { CK( got == want, "idempotent", "collapsing " + mc::show( want ) + " again gives " + mc::show( got ) ); }
  }
  r.state( mc::hash_str( p ) );
}
SCENARIO( k01_relative, 2 )
{
  static VS const names = { "a", "A", "ab", "..", ".", "" }; vector< VS > all; int const len = r.bound( 3, 4 );
  std::function< void( VS& ) > grow = [&]( VS& v ) { if ( v.empty() || ! v[0].empty() || v.size() == 1 ) { all.push_back( v ); } if ( (int) v.size() < len ) { for ( auto const& n : names ) { v.push_back( n ); grow( v ); v.pop_back(); } } }; VS none; grow( none );
  VS const& lv = all[r.choose( (int) all.size() )]; string const l = join( "/", lv ); VS a; climb( a, lv );
  for ( auto const& rv : all )
  {
    r.step(); string const t = join( "/", rv ); VS b; climb( b, rv ); size_t k = 0; while ( k < a.size() && k < b.size() && a[k] == b[k] ) { ++k; } string want; for ( size_t i = k; i < a.size(); ++i ) { want += "../"; } want += join( "", VS( b.begin() + k, b.end() ) );
    string got = ST::RelativePath( l, t ); string g = got, w = want; if ( ! g.empty() && g.back() == '/' ) { g.pop_back(); } if ( ! w.empty() && w.back() == '/' ) { w.pop_back(); } CK( g == w, "relative", "from " + l + " to " + t + " is " + mc::show( got ) + " instead of " + mc::show( want ) );
    CK( ST::CollapseFullPath( got, l.c_str() ) == join( "/", b ), "relative", "following " + mc::show( got ) + " from " + l + " leads to " + ST::CollapseFullPath( got, l.c_str() ) + " instead of " + t );
  }
  for ( char const* x : { "", "a", "a/b", "./a", "../a" } ) { CK( ST::RelativePath( x, l ).empty() && ST::RelativePath( l, x ).empty(), "relative-args", string( "relative argument " ) + x ); }
  r.state( mc::hash_str( l ) );
}
SCENARIO( k01_names, 2 )
{
  string const p = text( r, "ab./\\ ", r.bound( 6, 7 ) ), s = "of " + mc::show( p ); r.step( 8 ); size_t const at = p.rfind( '/' ); string const name = at == string::npos ? p : p.substr( at + 1 );
  string got = ST::GetFilenameName( p ); r.eqs( got, name, "name", "name " + s ); size_t const first = name.find( '.' ), last = name.rfind( '.' ); bool const dot = first != string::npos;
  r.eqs( ST::GetFilenameExtension( p ), dot ? name.substr( first ) : "", "extension", "extension " + s ); r.eqs( ST::GetFilenameLastExtension( p ), dot ? name.substr( last ) : "", "extension", "last extension " + s ); r.eqs( ST::GetFilenameWithoutExtension( p ), name.substr( 0, first ), "extension", "name without extension " + s ); r.eqs( ST::GetFilenameWithoutLastExtension( p ), name.substr( 0, last ), "extension", "name without last extension " + s );
  string u = p; ST::ConvertToUnixSlashes( u ); r.eqs( squeezed( u ), squeezed( slashes( p ) ), "slashes", "slashes " + s ); bool const runs = slashes( p ).find( "//" ) != string::npos; if ( ! runs ) { r.eqs( u, squeezed( slashes( p ) ), "slashes", "slashes " + s ); } else { CK( u.size() <= p.size(), "slashes", "slashes " + s + " longer" ); }
  string const dir = ST::GetFilenamePath( p ), parent = ST::GetParentDirectory( p ); r.eqs( parent, dir, "parent", "parent " + s ); string const q = squeezed( slashes( p ) ); size_t const cutat = q.rfind( '/' ); if ( ! runs ) { r.eqs( dir, cutat == string::npos ? "" : cutat == 0 ? "/" : q.substr( 0, cutat ), "directory", "directory " + s ); }
  if ( ! runs && p.find( '\\' ) == string::npos && ( p.size() < 2 || p.back() != '/' ) ) { r.eqs( dir.empty() ? name : dir == "/" ? "/" + name : dir + "/" + name, p, "recombine", "directory and name " + s ); }
  if ( runs ) { string f = u; size_t k = f.rfind( '/' ); r.eqs( squeezed( dir ), squeezed( k == string::npos ? "" : k == 0 ? "/" : f.substr( 0, k ) ), "directory", "directory " + s ); }
  r.check( ST::FileIsFullPath( p ) == ( ! p.empty() && p[0] == '/' ) && ST::FileIsFullPath( p.c_str() ) == ( ! p.empty() && p[0] == '/' ), "full", "full path " + s ); r.state( mc::hash_str( p ) );
}
SCENARIO( k01_names_fixed, 0 )
{
  struct { char const* in; char const* unix; char const* dir; } const t[] = { { "c:/", "c:/", "c:/" }, { "c:\\", "c:/", "c:/" }, { "c:/a", "c:/a", "c:/" }, { "c:/a/", "c:/a", "c:/" }, { "c:/a/b", "c:/a/b", "c:/a" }, { "/", "/", "/" }, { "", "", "" }, { "a\\ b/c", "a\\ b/c", "a\\ b" }, { "/a//b", "/a/b", "/a" }, { "a//", "a", "" }, { "//a/b", "//a/b", "//a" } };
  for ( auto const& x : t ) { r.step( 2 ); string u = x.in; ST::ConvertToUnixSlashes( u ); r.eqs( squeezed( u ), squeezed( x.unix ), "slashes", string( "slashes of " ) + x.in ); r.eqs( squeezed( ST::GetFilenamePath( x.in ) ), squeezed( x.dir ), "directory", string( "directory of " ) + x.in ); }
}
SCENARIO( k01_split, 2 )
{
  string const p = text( r, "a/\\~:.", r.bound( 6, 7 ) ); if ( ! p.empty() && p[0] == '~' && p.find( '\\' ) < p.find( '/' ) ) { return; }
  string root; size_t used = 0; size_t const n = p.size(); if ( n > 1 && ( p.compare( 0, 2, "//" ) == 0 || p.compare( 0, 2, "\\\\" ) == 0 ) ) { root = "//"; used = 2; } else if ( n && sep( p[0] ) ) { root = "/"; used = 1; } else if ( n > 2 && p[1] == ':' && sep( p[2] ) ) { root = p.substr( 0, 2 ) + "/"; used = 3; } else if ( n > 1 && p[1] == ':' ) { root = p.substr( 0, 2 ); used = 2; } else if ( n && p[0] == '~' ) { used = std::min( n, p.find( '/' ) ); root = p.substr( 0, used ) + "/"; used = std::min( n, used + 1 ); }
  VS want = { root }; if ( used < n ) { want.push_back( "" ); for ( size_t i = used; i < n; ++i ) { if ( sep( p[i] ) ) { want.push_back( "" ); } else { want.back() += p[i]; } } }
  r.step( 4 ); VS got = { "junk" }; ST::SplitPath( p, got, false ); CK( got == want, "split", "splitting " + mc::show( p ) + " gives " + list( got ) + " instead of " + list( want ) ); string rt = "junk"; char const* rest = ST::SplitPathRootComponent( p, &rt ); CK( rt == root && rest == p.c_str() + used && ST::SplitPathRootComponent( p ) == rest, "root", "root of " + mc::show( p ) + " is " + mc::show( rt ) + " then " + mc::show( rest ) );
  string back; for ( size_t i = 0; i < want.size(); ++i ) { if ( i > 1 ) { back += '/'; } back += want[i]; } r.eqs( ST::JoinPath( got ), back, "join", "joining " + list( got ) ); string same = p; for ( char& c : same ) { if ( c == '\\' ) { c = '/'; } } if ( used == n && root.size() > n ) { same = root; } r.eqs( back, same, "join", "splitting and joining " + mc::show( p ) ); for ( size_t i = 0; i <= got.size(); ++i ) { VS part( got.begin() + i, got.end() ); string b; for ( size_t k = 0; k < part.size(); ++k ) { if ( k > 1 ) { b += '/'; } b += part[k]; } r.eqs( ST::JoinPath( got.begin() + i, got.end() ), b, "join", "joining a part of " + list( got ) ); }
  if ( p.empty() || p[0] != '~' ) { ST::SplitPath( p, got ); CK( got == want, "split", "splitting " + mc::show( p ) + " gives " + list( got ) + " instead of " + list( want ) ); } r.state( mc::hash_str( p ) );
}
SCENARIO( k01_home, 1 )
{
  static VS const homes = { "/h", "/", "/h/", "/h/k", "/h//k/", "//n/h" }; static VS const rests = { "", "/", "/x", "/x/y", "/../x", "/x/", "/./x", "//x", "/x/../../y" }; static VS const users = { "", "root" }; string const home = r.pick( homes ), user = r.pick( users ), rest = r.pick( rests ), p = "~" + user + rest; Env e( "HOME" ); e.set( home.c_str() ); string const h = user.empty() ? home : "/root"; bool ok; string const want = denoted( h + ( rest.empty() ? "" : "/" + rest.substr( 1 ) ), "", ok ); r.step( 4 );
  string full = h; while ( full.size() > 1 && full.back() == '/' ) { full.pop_back(); } if ( full == "/" ) { full = ""; } r.eqs( squeezed( ST::CollapseFullPath( p, "/base" ) ), squeezed( denoted( full + "/" + ( rest.empty() ? "" : rest.substr( 1 ) ), "", ok ) ), "home", "collapsing " + p + " with HOME=" + home ); VS c; ST::SplitPath( p, c, true ); VS kept; for ( size_t i = 0; i < c.size(); ++i ) { if ( i == 0 || ! c[i].empty() ) { kept.push_back( c[i] ); } } Path hp = cut( full + "/" + rest ); VS w = { hp.root }; for ( auto const& x : hp.raw ) { if ( ! x.empty() ) { w.push_back( x ); } } if ( full.empty() ) { kept[0] = w[0] = "/"; } CK( kept == w, "home", "splitting " + p + " with HOME=" + home + " gives " + list( c ) + " instead of " + list( w ) ); string u = p; ST::ConvertToUnixSlashes( u ); r.eqs( squeezed( u ), squeezed( full + "/" + rest ), "home", "slashes of " + p + " with HOME=" + home ); CK( ST::FileIsFullPath( p ), "full", p + " is a full path" ); (void) want;
}
SCENARIO( k01_subdir, 2 )
{
  static VS const names = { "a", "A", "ab", "b" }; vector< VS > all; int const len = r.bound( 3, 4 ); std::function< void( VS& ) > grow = [&]( VS& v ) { all.push_back( v ); if ( (int) v.size() < len ) { for ( auto const& n : names ) { v.push_back( n ); grow( v ); v.pop_back(); } } }; VS none; grow( none );
  VS const& dv = all[r.choose( (int) all.size() )]; bool const abs = r.flip(); string const d = join( abs ? "/" : "", dv );
  for ( auto const& sv : all ) { for ( int sabs = 0; sabs < 2; ++sabs ) { string const s = join( sabs ? "/" : "", sv ); bool const want = ! d.empty() && ! s.empty() && sabs == abs && sv.size() > dv.size() && std::equal( dv.begin(), dv.end(), sv.begin() ); for ( int v = 0; v < 8; ++v ) { string x = s, y = d; if ( ( v & 1 ) && ! sv.empty() ) { x += "/"; } if ( ( v & 2 ) && ! dv.empty() ) { y += "/"; } if ( v & 4 ) { for ( char& c : x ) { if ( c == '/' ) { c = '\\'; } } } r.step(); CK( ST::IsSubDirectory( x, y ) == want, "subdirectory", mc::show( x ) + " within " + mc::show( y ) + ( want ? " denied" : " claimed" ) ); } } } r.state( mc::hash_str( d ) );
  CK( ST::ComparePath( d, d ), "compare", d ); for ( auto const& sv : all ) { CK( ST::ComparePath( join( "/", sv ), join( "/", dv ) ) == ( sv == dv ), "compare", join( "/", sv ) + " and " + join( "/", dv ) ); }
}
SCENARIO( k01_find, 2 )
{ // what is found depends on the kind of the entry and the order of the directories
  int const kinds = r.bound( 5, (int) KINDS ); Area a( r ); int k[4]; for ( int& x : k ) { x = r.choose( kinds ); if ( x == 4 && kinds == 5 ) { x = DIRLINK; } } if ( kinds == 5 && k[3] == DIRLINK ) { k[3] = DANGLING; }
  Env e1( "CMAKE_FILE_PATH" ), e2( "PATH" ); string here = a.top + "/here"; mk( here ); Dir in( here ); for ( int i = 0; i < 3; ++i ) { make( a.d[i] + "/n", k[i], a.t() ); } make( here + "/n", k[3], a.t() );
  bool const slash = ( k[0] + k[1] ) % 2; string const d[3] = { a.d[0], a.d[1], a.d[2] }; e1.set( ( d[0] + ( slash ? "/" : "" ) ).c_str() );
  for ( int mode = 0; mode < 4; ++mode )
  { // one system directory and one user directory, or both of one kind
    VS user; vector< int > sys; vector< int > usr; if ( mode == 0 ) { e2.set( d[1].c_str() ); sys = { 1 }; user = { d[2] }; usr = { 2 }; } else if ( mode == 1 ) { e2.set( ( d[1] + ":" + d[2] ).c_str() ); sys = { 1, 2 }; } else if ( mode == 2 ) { e2.set( ( d[2] + "/:" + d[1] + ":" ).c_str() ); sys = { 2, 1 }; } else { e2.set( nullptr ); user = { d[2] + "/", d[1] }; usr = { 2, 1 }; }
    for ( int nosys = 0; nosys < 2; ++nosys )
    {
      vector< int > order; if ( ! nosys ) { order.push_back( 0 ); order.insert( order.end(), sys.begin(), sys.end() ); } order.insert( order.end(), usr.begin(), usr.end() ); string file, dir, prog; for ( int i : order ) { string const c = d[i] + "/n"; if ( isfile( k[i] ) && file.empty() ) { file = c; } if ( isdir( k[i] ) && dir.empty() ) { dir = c; } if ( i && isfile( k[i] ) && prog.empty() ) { prog = c; } } if ( isfile( k[3] ) ) { prog = here + "/n"; }
      string w = " in"; for ( int i : order ) { w += " d" + std::to_string( i ) + "=" + std::to_string( k[i] ); } r.step( 5 ); r.eqs( ST::FindFile( "n", user, nosys ), file, "find-file", "FindFile" + w ); r.eqs( ST::FindDirectory( "n", user, nosys ), dir, "find-directory", "FindDirectory" + w ); r.eqs( ST::FindProgram( "n", user, nosys ), prog, "find-program", "FindProgram" + w ); r.eqs( ST::FindProgram( string( "n" ), user, nosys ), prog, "find-program", "FindProgram" + w ); r.eqs( ST::FindProgram( VS{ "none", "n", "m" }, user, nosys ), prog, "find-program", "FindProgram of several" + w ); r.outcome( prog.empty() ? "absent" : "found" );
    }
  }
  r.check( ST::FindProgram( (char const*) nullptr, VS() ).empty() && ST::FindProgram( "", VS{ d[0] } ).empty() && ST::FindProgram( VS(), VS{ d[0] } ).empty(), "find-program", "no name" ); for ( int i = 0; i < 3; ++i ) { gone( a.d[i] + "/n" ); } gone( here + "/n" );
}
SCENARIO( k01_find_names, 1 )
{ // several names: the first name found anywhere, and for each name the first directory
  int const s = r.choose( 16 ); Area a( r, 2 ); Env e( "PATH" ); e.set( a.d[0].c_str() ); static char const* const nm[] = { "p", "q" }; string want, rev; for ( int n = 0; n < 2; ++n ) { for ( int d = 0; d < 2; ++d ) { string f = a.d[d] + "/" + nm[n]; if ( s >> ( n * 2 + d ) & 1 ) { put( f ); if ( want.empty() ) { want = f; } } else { gone( f ); } } } r.step( 2 ); r.eqs( ST::FindProgram( VS{ "p", "q" }, VS{ a.d[1] }, false ), want, "find-program", "two names" ); for ( int n = 1; n >= 0; --n ) { for ( int d = 1; d < 2; ++d ) { if ( rev.empty() && ( s >> ( n * 2 + d ) & 1 ) ) { rev = a.d[d] + "/" + nm[n]; } } } r.eqs( ST::FindProgram( VS{ "q", "p" }, VS{ a.d[1] }, true ), rev, "find-program", "two names without system path" ); for ( int n = 0; n < 2; ++n ) { for ( int d = 0; d < 2; ++d ) { gone( a.d[d] + "/" + nm[n] ); } }
}
SCENARIO( k01_library, 2 )
{
  static char const* const ext[] = { ".so", ".a", ".sl", ".dylib", ".dll" }; Area a( r, 2 ); int const m[2] = { r.choose( 32 ), r.choose( 32 ) }, dir = r.choose( 3 ), sys = r.flip(); string here = a.top + "/here"; mk( here ); Dir in( here ); Env e( "PATH" ); if ( sys ) { e.set( a.d[0].c_str() ); } else { e.set( "" ); } string want;
  for ( int d = 0; d < 2; ++d ) { for ( int i = 0; i < 5; ++i ) { string f = a.d[d] + "/libz" + ext[i]; gone( f ); if ( m[d] >> i & 1 ) { bool const asdir = dir && i == dir - 1 + 2 * d; if ( asdir ) { mk( f ); } else { put( f ); if ( want.empty() ) { want = f; } } } } put( a.d[d] + "/z" ); put( a.d[d] + "/z.so" ); }
  VS user; if ( ! sys ) { user.push_back( a.d[0] + "/" ); } user.push_back( a.d[1] ); r.step( 2 ); r.eqs( ST::FindLibrary( "z", user ), want, "find-library", "library" ); put( here + "/w" ); r.eqs( ST::FindLibrary( "w", user ), here + "/w", "find-library", "library as written" );
  for ( int d = 0; d < 2; ++d ) { for ( int i = 0; i < 5; ++i ) { gone( a.d[d] + "/libz" + ext[i] ); } }
}
SCENARIO( k01_locate, 2 )
{
  static VS const files = { "f", "x/f", "x/y/f", "/x/y/f", "/f", "x/y/z/f", "x/y/" }; static VS const places = { "f", "y/f", "x/y/f", "x/f", "z/f", "y/z/f", "x/y/z/f" }; string const fn = r.pick( files ); int const mask = r.choose( 128 ), form = r.choose( 4 ), hard = r.flip(); Area a( r, 0 ); string const D = a.top + "/loc"; mk( D ); wipe( D );
  std::map< string, bool > have; for ( int i = 0; i < 7; ++i ) { have[places[i]] = mask >> i & 1; if ( mask >> i & 1 ) { string p = D; VS c = cut( places[i] ).raw; for ( size_t k = 0; k + 1 < c.size(); ++k ) { p += "/" + c[k]; mk( p ); } put( p + "/" + c.back() ); } }
  string const dir = form == 0 ? D : form == 1 ? D + "/" : form == 2 ? D + "/other" : D + "/../loc"; if ( form == 2 ) { put( dir ); } VS c = cut( fn ).raw; string const base = c.back(); string want; if ( ! base.empty() ) { if ( have[base] ) { want = base; } else if ( hard ) { string pre; for ( size_t k = c.size() - 1; k-- > 0 && want.empty(); ) { pre = c[k] + "/" + pre; if ( have[pre + base] ) { want = pre + base; } } } }
  string found = "untouched"; r.step(); bool const ok = ST::LocateFileInDir( fn.c_str(), dir.c_str(), found, hard ); string const msg = "locating " + fn + " in a directory with " + std::to_string( mask ) + ( hard ? " with" : " without" ) + " its directories"; r.check( ok == ! want.empty(), "locate", msg + ( ok ? " found " + found : " failed" ) ); if ( ok ) { string w = D + "/" + want; if ( form == 3 ) { w = dir + "/" + want; } r.eqs( squeezed( found ), w, "locate", msg ); } else { r.eqs( found, "untouched", "locate", msg + " (output)" ); } r.outcome( want.empty() ? "absent" : want );
  if ( mask == 0 && form == 0 ) { r.check( ! ST::LocateFileInDir( nullptr, dir.c_str(), found ) && ! ST::LocateFileInDir( "f", nullptr, found ), "locate", "null" ); }
}
SCENARIO( k01_real, 1 )
{
  Area a( r ); string const D = a.top + "/real"; mk( D ); wipe( D ); mk( D + "/d" ); mk( D + "/d/e" ); put( D + "/d/f" ); auto ln = [&]( char const* t, string const& n ) { if ( symlink( t, ( D + "/" + n ).c_str() ) ) { throw mc::Divergence( "symlink" ); } }; ln( "d", "l" ); ln( "l/f", "lf" ); ln( "none", "dangling" ); ln( "loop", "loop" ); ln( "../d/f", "d/e/up" ); ln( "l", "ll" );
  static VS const first = { "d", "l", "ll", "lf", "dangling", "loop", "none", "." }, second = { "", "e", "f", "e/up", "..", "e/..", ".", "none" }; string p = r.pick( first ); string const s = r.pick( second ); if ( ! s.empty() ) { p += "/" + s; } Dir in( D ); bool const abs = r.flip(); string const q = abs ? D + "/" + p : p, want = real( q ); r.step( 2 ); string err = "untouched"; r.eqs( ST::GetRealPath( q ), want.empty() ? q : want, "real", "real path of " + p ); r.eqs( ST::GetRealPath( q, &err ), want, "real", "real path with error of " + p ); r.check( want.empty() ? err != "untouched" && ! err.empty() : err == "untouched", "real", "error text for " + p + ": " + err ); wipe( D );
}
SCENARIO( k01_translate, 1 )
{ // logical names of directories are kept, and nothing else is renamed
  int const ops = r.choose( 6 ); static VS const tails = { "", "/", "/x", "/x/../y", "/./x//y/", "-x", "x", "/.." }; string const tail = r.pick( tails ); int const which = r.choose( 3 );
  mc::in_child( r, [&] {
    Area a( r ); string const top = a.top + "/tr"; mk( top ); wipe( top ); mk( top + "/d" ); mk( top + "/e" ); if ( symlink( ( top + "/d" ).c_str(), ( top + "/l" ).c_str() ) || symlink( ( top + "/e" ).c_str(), ( top + "/m" ).c_str() ) ) { throw mc::Divergence( "symlink" ); }
    bool dl = false, em = false; switch ( ops ) { case 1: ST::AddKeepPath( top + "/l" ); dl = true; break; case 2: ST::AddKeepPath( top + "/l/" ); ST::AddKeepPath( top + "/m" ); dl = em = true; break; case 3: ST::AddTranslationPath( top + "/d", top + "/l" ); dl = true; break; case 4: ST::AddTranslationPath( top + "/none", top + "/m" ); ST::AddTranslationPath( top + "/e", "m" ); ST::AddTranslationPath( top + "/e", top + "/x/../m" ); break; case 5: ST::AddTranslationPath( top + "/d", top + "/l" ); ST::AddTranslationPath( top + "/d", top + "/m" ); ST::AddKeepPath( top + "/d" ); dl = true; break; default: break; }
    static VS const heads = { "d", "e", "l" }; string const p = top + "/" + heads[which] + tail; bool ok; string want = denoted( p, "", ok ); auto ren = [&]( char const* from, char const* to ) { string f = top + from; if ( want == f || want.compare( 0, f.size() + 1, f + "/" ) == 0 ) { want = top + to + want.substr( f.size() ); } }; if ( dl ) { ren( "/d", "/l" ); } if ( em ) { ren( "/e", "/m" ); } r.step( 2 ); r.eqs( ST::CollapseFullPath( p ), want, "translate", "collapsing " + heads[which] + tail + " after translations " + std::to_string( ops ) ); r.eqs( ST::CollapseFullPath( heads[which] + tail, top.c_str() ), want, "translate", "collapsing relative " + heads[which] + tail + " after translations " + std::to_string( ops ) ); } );
}
SCENARIO( k01_env, 1 )
{ // any history of changes to the environment behaves like a map and leaves the other variables alone
  struct Op { char const* text; bool un; }; static Op const op[] = { { "VA=1", false }, { "VA=2=3", false }, { "VA=", false }, { "VA", false }, { "VA", true }, { "VA=x", true }, { "VAB=4", false }, { "VAB", true }, { "V=5", false }, { "V", false }, { "V=", true }, { "VA=\xc3\xa9 b", false } }; int const n = r.choose( r.bound( 4, 5 ) ) + 1; vector< int > h; for ( int i = 0; i < n; ++i ) { h.push_back( r.choose( 12 ) ); }
  for ( char const* v : { "VA", "VAB", "V" } ) { unsetenv( v ); } auto others = [] { std::multiset< string > s; for ( char** e = environ; *e; ++e ) { s.insert( *e ); } return s; }; auto const before = others(); std::map< string, string > m; string told;
  for ( int i : h )
  {
    string t = op[i].text; told += ( op[i].un ? " un:" : " " ) + t; size_t q = t.find( '=' ); r.step(); if ( op[i].un ) { m.erase( t.substr( 0, q ) ); r.check( ST::UnPutEnv( t ), "env-result", "UnPutEnv" + told ); } else { if ( q == string::npos ) { m.erase( t ); } else { m[t.substr( 0, q )] = t.substr( q + 1 ); } r.check( ST::PutEnv( t ), "env-result", "PutEnv" + told ); }
    for ( char const* v : { "VA", "VAB", "V", "VABC" } ) { char const* g = ST::GetEnv( v ); char const* g2 = ST::GetEnv( string( v ) ); string out = "untouched", out2 = out; bool const b = ST::GetEnv( v, out ), b2 = ST::GetEnv( string( v ), out2 ); bool const has = m.count( v ); CK( ( g != nullptr ) == has && ( g2 != nullptr ) == has && b == has && b2 == has, "env", string( v ) + " set after" + told ); if ( has ) { CK( m[v] == g && m[v] == g2 && out == m[v] && out2 == m[v], "env", string( v ) + " is " + g + " after" + told ); } }
  }
  auto after = others(); for ( auto const& kv : m ) { auto it = after.find( kv.first + "=" + kv.second ); CK( it != after.end(), "env", "variable missing after" + told ); after.erase( it ); } CK( after == before, "env-others", "other variables changed or duplicates left after" + told ); for ( char const* v : { "VA", "VAB", "V" } ) { unsetenv( v ); }
}
SCENARIO( k01_envpath, 1 )
{
  static VS const piece = { "a", "/b", "c/", "/d e/f", "\\g\\h", "", "/i//j" }; int const n = r.choose( r.bound( 4, 5 ) + 1 ); string v; VS want = { "kept", "kept/" }; for ( int i = 0; i < n; ++i ) { string p = r.pick( piece ); v += ( i ? ":" : "" ) + p; if ( ! p.empty() ) { want.push_back( squeezed( slashes( p ) ) ); } } bool const trail = r.flip(); if ( trail ) { v += ":"; } bool const path = r.flip();
  Env e( "PATH" ); setenv( "VERIF_LIST", v.c_str(), 1 ); VS got = { "kept", "kept/" }; r.step( 2 ); if ( path ) { e.set( v.c_str() ); ST::GetPath( got ); } else { ST::GetPath( got, "VERIF_LIST" ); } VS kept; for ( auto const& s : got ) { if ( ! s.empty() ) { kept.push_back( s ); } } CK( kept == want, "env-list", "list " + mc::show( v ) + " gives " + list( got ) ); unsetenv( "VERIF_LIST" ); got = { "k" }; ST::GetPath( got, "VERIF_LIST" ); CK( got == VS{ "k" }, "env-list", "unset variable gives " + list( got ) );
}
SCENARIO( k01_program, 1 )
{
  Area a( r, 1 ); string const D = a.top + "/prog"; mk( D ); wipe( D ); mk( D + "/bin" ); put( D + "/bin/x" ); static VS const in = { "", "/", "/bin", "/bin/x", "/bin/none", "/none/x", "/bin/", "/none" }; string const tail = r.pick( in ), p = D + tail; string dir, file; bool want = true; string wd, wf; if ( tail.empty() || tail == "/" ) { wd = D; } else if ( tail == "/bin" || tail == "/bin/" ) { wd = D + "/bin"; } else if ( tail == "/bin/x" ) { wd = D + "/bin"; wf = "x"; } else if ( tail == "/bin/none" ) { wd = D + "/bin"; wf = "none"; } else if ( tail == "/none" ) { wd = D; wf = "none"; } else { want = false; wd = p; wf = "x"; }
  r.step( 2 ); r.check( ST::SplitProgramPath( p, dir, file ) == want, "program", "SplitProgramPath of " + tail ); r.eqs( dir, wd, "program", "directory of " + tail ); r.eqs( file, wf, "program", "file of " + tail ); r.eqs( ST::GetProgramPath( p ), wd, "program", "GetProgramPath of " + tail ); { Dir c( D ); r.check( ST::SplitProgramPath( "x", dir, file ) && dir.empty() && file == "x", "program", "name only" ); r.check( ST::SplitProgramPath( "bin", dir, file ) && dir == "bin" && file.empty(), "program", "directory name only" ); }
  wipe( D );
}
SCENARIO( k01_program_path, 1 )
{
  int const self = r.choose( 3 ), build = r.choose( 3 ), inst = r.choose( 3 ); Area a( r, 0 ); string const D = a.top + "/fpp"; mk( D ); wipe( D ); for ( char const* x : { "/b", "/b/bin", "/i", "/i/bin" } ) { mk( D + x ); } if ( self == 2 ) { put( D + "/me" ); } if ( build == 2 ) { put( D + "/b/bin/exe" ); } if ( inst == 2 ) { put( D + "/i/bin/exe" ); } Env e( "PATH" ); e.set( "" ); Dir in( D ); string const b = D + "/b", i = D + "/i"; string out = "untouched", err = "untouched"; r.step();
  bool const ok = ST::FindProgramPath( self ? "me" : nullptr, out, err, "exe", build ? b.c_str() : nullptr, inst ? i.c_str() : nullptr ); string want = self == 2 ? D + "/me" : build == 2 ? b + "/bin/exe" : inst == 2 ? i + "/bin/exe" : ""; string const w = "self " + std::to_string( self ) + " build " + std::to_string( build ) + " install " + std::to_string( inst ); r.check( ok == ! want.empty(), "program-path", w ); if ( ok ) { r.eqs( real( out ), want, "program-path", w ); r.eqs( err, "untouched", "program-path", "error text of " + w ); } else { r.eqs( out, "untouched", "program-path", "output of " + w ); r.check( err.find( "exe" ) != string::npos && ( ! self || err.find( "\"me\"" ) != string::npos ) && ( ! build || inst == 0 || err.find( b ) != string::npos ) && ( ! inst || err.find( i ) != string::npos ), "program-path", "error text " + mc::show( err ) + " of " + w ); } wipe( D );
}
SCENARIO( k01_deep, 1 )
{ // current directories with long names, up to the longest the system allows
  static vector< size_t > const lens = { 300, 1023, 1024, 2046, 2047, 2048, 2049, 3000, 4094, 4095 }; size_t const want = r.pick( lens );
  mc::in_child( r, [&] {
    Area a( r, 1 ); string const top = a.top + "/deep"; mk( top ); if ( chdir( top.c_str() ) ) { throw mc::Divergence( "chdir" ); } string at = top;
    while ( at.size() < want ) { size_t n = std::min< size_t >( 200, want - at.size() - 1 ); if ( want - at.size() - 1 - n == 1 ) { --n; } string const c( n, 'd' ); if ( ( mkdir( c.c_str(), 0755 ) && errno != EEXIST ) || chdir( c.c_str() ) ) { throw mc::Divergence( "deep directory" ); } at += "/" + c; }
    if ( cwd() != at ) { throw mc::Divergence( "deep directory not reached" ); } put( "f" ); r.step( 6 ); string const up = at.substr( 0, at.rfind( '/' ) ), n = std::to_string( want );
    auto is = [&]( string const& got, string const& w, char const* what ) { CK( got == w, "deep", string( what ) + " in a current directory of " + n + " characters gives " + std::to_string( got.size() ) + " characters " + mc::show( got.substr( 0, 60 ) ) + " instead of " + std::to_string( w.size() ) ); };
    is( ST::GetCurrentWorkingDirectory(), at, "the current directory" ); is( ST::GetCurrentWorkingDirectory( false ), at, "the current directory uncollapsed" );
    is( ST::CollapseFullPath( "x/../f" ), at + "/f", "collapsing x/../f" ); is( ST::CollapseFullPath( ".." ), up, "collapsing .." ); is( ST::CollapseFullPath( "" ), at, "collapsing nothing" );
    is( ST::FindFile( "f", VS( 1, "." ), true ), at + "/f", "finding ./f" ); is( ST::RelativePath( ST::CollapseFullPath( "g" ), ST::CollapseFullPath( "h/i" ) ), "../h/i", "relating g to h/i" );
  }, 60 );
  r.state( want );
}
SCENARIO( k01_cwd, 0 ) { Area a( r, 2 ); string const was = cwd(); r.step( 3 ); r.check( ST::ChangeDirectory( a.d[1] ) == 0, "cwd", "change directory" ); r.eqs( cwd(), a.d[1], "cwd", "directory changed to" ); r.eqs( ST::GetCurrentWorkingDirectory(), a.d[1], "cwd", "current directory" ); r.eqs( ST::GetCurrentWorkingDirectory( false ), a.d[1], "cwd", "current directory uncollapsed" ); r.check( ST::ChangeDirectory( a.d[1] + "/none" ) != 0, "cwd", "change to a missing directory" ); r.eqs( cwd(), a.d[1], "cwd", "directory after a failure" ); if ( chdir( was.c_str() ) ) { throw mc::Divergence( "chdir" ); } }
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
