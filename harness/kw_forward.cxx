// K13: a forwarding executable runs the real one that belongs to it, with the library path in front and the same arguments.
#include "mc.h"
#include "child.h"
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
using std::string; using std::vector;
int forward_plain( int argc, char** argv );
int forward_config( int argc, char** argv );
extern "C" int __real_execvp( char const*, char* const[] );
namespace {
struct Exec { string file; vector< string > args; string ld; bool has_ld; };
bool real = false;
bool is_program( string const& p ) { struct stat s; return stat( p.c_str(), &s ) == 0 && S_ISREG( s.st_mode ) && access( p.c_str(), X_OK ) == 0; }
int execute( char const* f, char* const a[] )
{
  // what the system would refuse is left to the system
  if ( real || ( strchr( f, '/' ) && ! is_program( f ) ) || string( f ).empty() || ( ! strchr( f, '/' ) && string( f ) != "ldd" && string( f ) != "other" ) ) { return __real_execvp( f, a ); }
  Exec e; e.file = f; for ( int i = 0; a[i]; ++i ) { e.args.push_back( a[i] ); }
  char const* l = getenv( "LD_LIBRARY_PATH" ); e.has_ld = l != 0; e.ld = l ? l : ""; throw e;
}
}
extern "C" int __wrap_execvp( char const* f, char* const a[] ) { return execute( f, a ); }
extern "C" int __wrap_execv( char const* f, char* const a[] ) { return execute( f, a ); }
namespace {
string slurp( string const& p ) { std::ifstream f( p.c_str(), std::ios::binary ); std::stringstream s; s << f.rdbuf(); return s.str(); }
void put( string const& p, string const& c, int mode ) { int fd = open( p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); if ( fd < 0 || write( fd, c.data(), c.size() ) != (ssize_t) c.size() ) { throw mc::Divergence( "cannot write " + p ); } fchmod( fd, mode ); close( fd ); }
string top;
// build/bin, build/bin/Debug, inst/bin with their real executables; places that hold something else under the name
void layout( mc::Run& r )
{
  if ( ! top.empty() ) { return; }
  char buf[4096]; if ( ! realpath( r.scratch.c_str(), buf ) ) { throw mc::Divergence( "scratch" ); }
  top = string( buf ) + "/top"; string const dirs[] = { "", "/build", "/build/bin", "/build/bin/Debug", "/build/lib b", "/build/lib b/Debug", "/inst", "/inst/bin", "/inst/lib", "/inst/lib/foo 1.2", "/inst/lib/bar", "/plain", "/isdir", "/isdir/foo", "/none", "/half", "/half/bin", "/half/lib", "/half/lib/foo 1.2", "/half/lib/bar", "/bare", "/bare/bin", "/copy b", "/copy b/bin", "/copy b/lib", "/copy b/lib/foo 1.2", "/copy b/lib/bar" };
  for ( auto const& d : dirs ) { mkdir( ( top + d ).c_str(), 0755 ); }
  string const script = "#!/bin/sh\nprintf '%s\\n' \"$0\" \"$#\" \"$LD_LIBRARY_PATH\" \"$@\" >out.txt\nexit 7\n";
  string const bins[] = { "/build/bin/foo", "/build/bin/Debug/foo", "/inst/bin/foo", "/half/bin/foo", "/bare/bin/foo", "/copy b/bin/foo", "/build/bin/foo-real", "/build/bin/Debug/foo-real", "/inst/lib/foo 1.2/foo-real", "/copy b/lib/foo 1.2/foo-real", "/other" };
  for ( auto const& b : bins ) { put( top + b, script, 0755 ); }
  put( top + "/plain/foo", script, 0644 ); put( top + "/half/lib/foo 1.2/foo-real", script, 0644 );
  if ( symlink( "inst/bin", ( top + "/link" ).c_str() ) || symlink( "build/bin", ( top + "/blink" ).c_str() ) ) { throw mc::Divergence( "symlink" ); }
}
struct Case { int which; string cwd, argv0, path; bool path_set; bool ld_set; string ld; vector< string > args; };
struct Want { bool ok; string file; vector< string > args; string ld; int rc; string out; bool err; };
string phys( string const& p ) { char b[PATH_MAX]; return realpath( p.c_str(), b ) ? string( b ) : string(); }
// the directory the system finds the program in
bool self_dir( Case const& c, string& d )
{
  size_t s = c.argv0.rfind( '/' );
  if ( s != string::npos ) { d = s ? c.argv0.substr( 0, s ) : "/"; return true; }
  if ( ! c.path_set ) { return false; }
  for ( size_t i = 0; ; )
  {
    size_t e = c.path.find( ':', i ); string x = c.path.substr( i, e == string::npos ? e : e - i ); if ( x.empty() ) { x = "."; }
    if ( is_program( x + "/" + c.argv0 ) ) { d = x; return true; }
    if ( e == string::npos ) { return false; }
    i = e + 1;
  }
}
// computed with the working directory of the case
Want expect( Case const& c )
{
  Want w; w.ok = false; w.rc = 1; w.err = true; string d; if ( ! self_dir( c, d ) ) { return w; }
  string me = phys( d ); if ( me.empty() ) { return w; }
  bool const build = me == phys( c.which ? "build/bin/Debug" : "build/bin" ); vector< string > lp; string exe, root = d;
  if ( c.which == 0 ) { lp = build ? vector< string >{ ".", "../lib b", "/abs/build" } : vector< string >{ "../lib/foo 1.2", "/abs/dir", "../lib/bar" }; exe = build ? "foo-real" : "../lib/foo 1.2/foo-real"; }
  else { lp = build ? vector< string >{ "./Debug", "../lib b/Debug" } : vector< string >{ "../lib/foo 1.2" }; exe = build ? "Debug/foo-real" : "../lib/foo 1.2/foo-real"; if ( build ) { root = me + "/.."; } }
  string ld; for ( auto const& x : lp ) { string y = x[0] == '/' ? x : phys( root + "/" + x ); if ( y.empty() ) { return w; } ld += ( ld.empty() ? "" : ":" ) + y; }
  exe = phys( root + "/" + exe ); if ( exe.empty() ) { return w; }
  if ( c.ld_set && ! c.ld.empty() ) { ld += ":" + c.ld; }
  vector< string > a = c.args; w.ld = ld;
  if ( c.which == 0 && ! a.empty() && a[0] == "--command" ) { if ( a.size() < 2 ) { return w; } exe = a[1]; a.erase( a.begin(), a.begin() + 2 ); }
  if ( c.which == 0 && ! a.empty() && a[0] == "--print" ) { w.rc = 0; w.err = false; w.out = "LD_LIBRARY_PATH=" + ld + "\n" + exe + "\n"; return w; }
  if ( c.which == 0 && ! a.empty() && a[0] == "--ldd" ) { w.ok = true; w.file = "ldd"; w.args = { "ldd", exe }; w.err = false; return w; }
  if ( ! ( exe.find( '/' ) != string::npos ? is_program( exe ) : exe == "other" ) ) { return w; }
  w.ok = true; w.err = false; w.file = exe; w.args = { exe }; w.args.insert( w.args.end(), a.begin(), a.end() ); return w;
}
string list( vector< string > const& v ) { string o; for ( auto const& x : v ) { o += " " + mc::show( x ); } return o; }
void enter( Case const& c )
{
  if ( chdir( c.cwd.c_str() ) ) { throw mc::Divergence( "chdir " + c.cwd ); }
  if ( c.path_set ) { setenv( "PATH", c.path.c_str(), 1 ); } else { unsetenv( "PATH" ); }
  if ( c.ld_set ) { setenv( "LD_LIBRARY_PATH", c.ld.c_str(), 1 ); } else { unsetenv( "LD_LIBRARY_PATH" ); }
}
struct Argv { vector< vector< char > > s; vector< char* > p; Argv( Case const& c ) { vector< string > v( 1, c.argv0 ); v.insert( v.end(), c.args.begin(), c.args.end() ); for ( auto const& x : v ) { s.push_back( vector< char >( x.begin(), x.end() ) ); s.back().push_back( 0 ); } for ( auto& x : s ) { p.push_back( &x[0] ); } p.push_back( 0 ); } };
int redirect( int to ) { int fd = memfd_create( "o", 0 ); if ( fd < 0 ) { throw mc::Divergence( "memfd" ); } int old = dup( to ); dup2( fd, to ); close( fd ); return old; }
string restore( int to, int old ) { fflush( to == 1 ? stdout : stderr ); string o; lseek( to, 0, SEEK_SET ); char b[4096]; for ( ssize_t n; ( n = read( to, b, sizeof b ) ) > 0; ) { o.append( b, (size_t) n ); } dup2( old, to ); close( old ); return o; }
string shortened( string const& s ) { return s.size() < 400 ? s : s.substr( 0, 200 ) + "...(" + std::to_string( s.size() ) + ")..." + s.substr( s.size() - 150 ); }
string text( Case const& c )
{
  string t = string( c.which ? "configured" : "plain" ) + " forwarder " + mc::show( c.argv0 ) + list( c.args ) + " in " + c.cwd.substr( top.size() ) + " PATH " + ( c.path_set ? mc::show( c.path ) : "unset" ) + " LD_LIBRARY_PATH " + ( c.ld_set ? mc::show( c.ld ) : "unset" );
  for ( size_t i; ( i = t.find( top ) ) != string::npos; ) { t.replace( i, top.size(), "T" ); }
  return shortened( t );
}
void forward( mc::Run& r, Case const& c )
{
  r.log( text( c ) );
  mc::in_child( r, [&] ()
  {
    enter( c ); Want w = expect( c ); Argv a( c ); bool ran = false; Exec e; int rc = -1; e.has_ld = false;
    int o = redirect( 1 ), x = redirect( 2 );
    try { rc = c.which ? forward_config( (int) a.p.size() - 1, &a.p[0] ) : forward_plain( (int) a.p.size() - 1, &a.p[0] ); }
    catch ( Exec const& y ) { ran = true; e = y; }
    string err = restore( 2, x ), out = restore( 1, o ); r.step( 1 );
    // a name no file can have may be refused
    if ( c.argv0.size() >= PATH_MAX && ! ran && rc == 1 && ! err.empty() && out.empty() ) { return; }
    if ( ran != w.ok ) { r.fail( ran ? "ran" : "refused", text( c ) + ( ran ? " ran " + shortened( e.file ) + " where an error was due" : " did not run " + w.file + " but ended with " + std::to_string( rc ) + ": " + shortened( err ) ) ); }
    if ( ran )
    {
      r.eqs( shortened( e.file ), shortened( w.file ), "program", "program run by " + text( c ) ); r.eqs( list( e.args ), list( w.args ), "arguments", "arguments given by " + text( c ) );
      if ( ! e.has_ld || e.ld != w.ld ) { r.fail( "library-path", "library path " + ( e.has_ld ? mc::show( shortened( e.ld ) ) : "unset" ) + " expected " + mc::show( shortened( w.ld ) ) + " from " + text( c ) ); }
      if ( ! err.empty() || ! out.empty() ) { r.fail( "noise", text( c ) + " printed " + shortened( out + err ) ); }
    }
    else
    {
      if ( rc != w.rc ) { r.fail( "status", text( c ) + " ended with " + std::to_string( rc ) + " expected " + std::to_string( w.rc ) ); }
      if ( err.empty() == w.err ) { r.fail( "error-text", text( c ) + ( w.err ? " failed without an error text" : " printed the error " + shortened( err ) ) ); }
      if ( out != w.out ) { r.fail( "print", text( c ) + " printed " + mc::show( shortened( out ) ) + " expected " + mc::show( shortened( w.out ) ) ); }
    }
  } );
}
}
// all search paths of up to 3 (4) entries, from three directories
SCENARIO( search, 2 )
{
  layout( r ); vector< string > const entries = { "", "none", top + "/none/", top + "/plain", top + "/isdir", "inst/bin", top + "/inst/bin/", top + "/build/bin", "blink", top + "/link/", ".", top + "/build/bin/Debug", top + "/bare/bin", top + "/copy b/bin", "../bin" };
  vector< string > const cwds = { "", "/inst/bin", "/build/bin" };
  Case c; c.which = r.choose( 2 ); c.cwd = top + r.pick( cwds ); c.argv0 = r.flip() ? "absent" : "foo"; int n = r.choose( r.bound( 3, 4 ) + 1 ); c.path_set = n != 0 || r.flip(); c.ld_set = false;
  for ( int i = 0; i < n; ++i ) { c.path += ( i ? ":" : "" ) + r.pick( entries ); }
  if ( c.argv0 == "absent" && n > 1 ) { return; }
  forward( r, c ); r.state( c.cwd + c.path );
}
// every way to name the program with a directory
SCENARIO( named, 1 )
{
  layout( r ); vector< string > const names = { "build/bin/foo", "./build/bin/foo", "build//bin/foo", "build/bin/../bin/foo", "inst/bin/foo", "link/foo", "blink/foo", "build/bin/Debug/foo", "./foo", "../bin/foo", "Debug/foo", "bin/foo", "half/bin/foo", "bare/bin/foo", "copy b/bin/foo", "none/foo", "missing/foo", "/foo", "//foo", "inst/bin/other-name", "inst/../copy b/bin/foo", "./build/bin/Debug/../Debug/foo" };
  vector< string > const cwds = { "", "/inst/bin", "/build", "/build/bin", "/build/bin/Debug", "/copy b" }; static char const* const lds[] = { "", "/x", "/x:/y z", ":", "/x:" };
  Case c; c.which = r.choose( 2 ); c.cwd = top + r.pick( cwds ); c.argv0 = r.pick( names ); if ( r.flip() ) { if ( c.argv0[0] == '/' ) { return; } c.argv0 = c.cwd + "/" + c.argv0; }
  c.path_set = r.flip(); c.path = top + "/copy b/bin"; int l = r.choose( 6 ); c.ld_set = l != 0; if ( l ) { c.ld = lds[l - 1]; }
  if ( r.flip() ) { c.args = { "a", "" }; }
  forward( r, c ); r.state( c.cwd + c.argv0 + c.ld );
}
// all lists of up to 4 (5) arguments
SCENARIO( arguments, 2 )
{
  layout( r ); vector< string > const words = { "--command", "--print", "--ldd", "", "a b\"'\\", "--", top + "/other", top + "/plain/foo", top + "/missing", "other", "--Print", "--commandx" };
  Case c; c.which = r.choose( 2 ); c.cwd = top; c.argv0 = r.flip() ? "build/bin/foo" : "inst/bin/foo"; c.path_set = true; c.path = top; c.ld_set = r.flip(); c.ld = "/old";
  int n = r.choose( r.bound( 3, 4 ) + 1 ); for ( int i = 0; i < n; ++i ) { c.args.push_back( r.pick( words ) ); }
  forward( r, c ); r.state( list( c.args ) );
}
// everything that comes from the user may be long
SCENARIO( lengths, 1 )
{
  layout( r ); static int const sizes[] = { 1, 255, 256, 1000, 4000, 4080, 4090, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 5000, 8191, 16384, 65300, 65400, 65450, 65500, 65519, 65520, 65534, 65535, 65536, 70000, 100000 };
  vector< int > s( sizes, sizes + sizeof sizes / sizeof *sizes ); Case c; c.which = r.choose( 2 ); c.cwd = top; c.argv0 = "inst/bin/foo"; c.path_set = true; c.path = "inst/bin"; c.ld_set = false; int n = r.pick( s ), adj = r.choose( 3 ) - 1;
  n += adj * 37; if ( n < 1 ) { return; }
  switch ( r.choose( 9 ) )
  {
    case 0: c.ld_set = true; c.ld = string( n, 'l' ); break;
    case 1: c.argv0 = "foo"; c.path = string( n, 'p' ) + ":inst/bin"; break;
    case 2: c.argv0 = "foo"; c.path = string( n, '/' ) + "none:inst/bin"; break;
    case 3: c.argv0 = string( n, 'a' ); break;
    case 4: c.argv0 = string( n, 'a' ) + "/foo"; break;
    case 5: c.argv0 = "inst/bin/" + string( n, 'a' ); break;
    case 6: { string d; while ( (int) d.size() + 2 <= n ) { d += "./"; } c.argv0 = d + "inst/bin/foo"; if ( n > 4000 ) { return; } break; }
    case 7: c.args = { "--command", top + "/" + string( n, 'c' ), "x" }; if ( c.which ) { c.args.erase( c.args.begin() ); } break;
    case 8: c.args = { string( n, 'x' ), "y" }; break;
  }
  forward( r, c ); r.state( text( c ) );
}
// the same through a real exec
SCENARIO( executed, 1 )
{
  layout( r ); vector< string > const names = { "build/bin/foo", "inst/bin/foo", "copy b/bin/foo", "foo", "half/bin/foo" }; vector< string > const words = { "", "a b", "--print", "*" };
  Case c; c.which = r.choose( 2 ); c.cwd = top; c.argv0 = r.pick( names ); c.path_set = true; c.path = "none:link:/usr/bin:/bin"; c.ld_set = r.flip(); c.ld = "/old"; int n = r.choose( 3 ); for ( int i = 0; i < n; ++i ) { c.args.push_back( r.pick( words ) ); }
  if ( ! c.which && ! c.args.empty() && c.args[0] == "--print" ) { return; }
  r.log( text( c ) ); if ( chdir( top.c_str() ) ) {} unlink( "out.txt" ); enter( c ); Want w = expect( c ); Argv a( c ); pid_t p = fork();
  if ( ! p ) { if ( ! w.ok ) { int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 2 ); } real = true; int rc = c.which ? forward_config( (int) a.p.size() - 1, &a.p[0] ) : forward_plain( (int) a.p.size() - 1, &a.p[0] ); _exit( rc ); }
  int st = 0; while ( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {} r.step();
  if ( ! WIFEXITED( st ) || WEXITSTATUS( st ) != ( w.ok ? 7 : 1 ) ) { r.fail( "status", text( c ) + " ended with status " + std::to_string( st ) ); }
  string want; if ( w.ok ) { want = w.file + "\n" + std::to_string( c.args.size() ) + "\n" + w.ld + "\n"; for ( auto const& x : c.args ) { want += x + "\n"; } }
  r.eqs( slurp( "out.txt" ), want, "executed", "what the real program saw from " + text( c ) ); r.state( want );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
