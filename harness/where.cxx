// C28: timers over a clock the harness moves, and where the program and the library lie.
#include "mc.h"
#include "child.h"
#include <iostream>
#include <vital/util/cpu_timer.h>
#include <vital/util/wall_timer.h>
#include <vital/util/get_paths.h>
#include <chrono>
#include <ctime>
#include <dlfcn.h>
#include <iostream>
#include <sys/stat.h>
using std::string; using std::vector; namespace kv = kwiver::vital;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
#define EQ( got, want, key, what ) do { auto const g_ = ( got ); auto const w_ = ( want ); if ( ! ( g_ == w_ ) || r.verbose ) { std::ostringstream o_; o_.precision( 17 ); o_ << what << ": " << g_ << " instead of " << w_; CK( g_ == w_, key, o_.str() ); } } while ( 0 )
namespace { bool mine = false; long long wall = 0, cpu = 0; } // microseconds
extern "C" {
clock_t __real_clock(); clock_t __wrap_clock() { return mine ? (clock_t) ( cpu * ( CLOCKS_PER_SEC / 1000000 ) ) : __real_clock(); }
int __real_clock_gettime( clockid_t c, timespec* t ); int __wrap_clock_gettime( clockid_t c, timespec* t ) { if ( ! mine ) { return __real_clock_gettime( c, t ); } long long v = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? cpu : wall; t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; return 0; }
int __real_gettimeofday( timeval* t, void* z ); int __wrap_gettimeofday( timeval* t, void* z ) { if ( ! mine ) { return __real_gettimeofday( t, z ); } t->tv_sec = wall / 1000000; t->tv_usec = wall % 1000000; return 0; }
typedef std::chrono::system_clock::time_point sys_t; typedef std::chrono::steady_clock::time_point steady_t;
sys_t __real__ZNSt6chrono3_V212system_clock3nowEv(); sys_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return mine ? sys_t( std::chrono::duration_cast< sys_t::duration >( std::chrono::microseconds( wall ) ) ) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
steady_t __real__ZNSt6chrono3_V212steady_clock3nowEv(); steady_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return mine ? steady_t( std::chrono::duration_cast< steady_t::duration >( std::chrono::microseconds( wall ) ) ) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
}
namespace {
struct On { On() { mine = true; } ~On() { mine = false; } };
long long const moves[][2] = { { 1, 1 }, { 500000, 250000 }, { 86400000000LL * 30, 3000000 }, { 3, 16000000 } }; // wall, cpu
template < typename T > long long& clk();
template <> long long& clk< kv::wall_timer >() { return wall; }
template <> long long& clk< kv::cpu_timer >() { return cpu; }
template < typename T > void timers( mc::Run& r )
{
  static long long const epoch[] = { 0, 1764000000123456LL }; wall = epoch[r.choose( 2 )]; cpu = r.choose( 2 ) ? 0 : 7654321; On on; T t[2]; struct M { bool active = false, known = false, started = false; long long from = 0, to = 0; } m[2]; string w; long long& now = clk< T >();
  for ( int i = 0; i < 2; ++i ) { EQ( t[i].is_active(), false, "active", "a new timer is active" ); EQ( t[i].timer_available(), true, "available", "available" ); }
  auto look = [&] { for ( int i = 0; i < 2; ++i ) { kv::timer const& c = t[i]; EQ( c.is_active(), m[i].active, "active", w + ": timer " + std::to_string( i ) + " active" ); if ( m[i].known ) { double const want = (double) ( ( m[i].active ? now : m[i].to ) - m[i].from ) / 1e6, got = c.elapsed(); CK( std::fabs( got - want ) <= 1e-9 * ( 1 + std::fabs( want ) ), "elapsed", w + ": timer " + std::to_string( i ) + " measures " + std::to_string( got ) + " s instead of " + std::to_string( want ) + " s" ); } r.step(); } };
  int const n = r.bound( 5, 6 ); for ( int s = 0; s < n; ++s )
  {
    int const op = r.choose( 8 ); if ( op < 4 ) { wall += moves[op][0]; cpu += moves[op][1]; w += " wait" + std::to_string( op ); } else { int const i = op % 2; kv::timer& x = t[i]; if ( op < 6 ) { x.start(); m[i].active = m[i].known = true; m[i].from = now; w += " start"; } else { x.stop(); if ( ! m[i].active ) { m[i].known = false; } m[i].active = false; m[i].to = now; w += " stop"; } w += std::to_string( i ); } r.log( w ); look();
  }
}
template < typename T > void scoped( mc::Run& r )
{
  static char const* const titles[] = { "", "a", "title with - and elapsed time: 5 sec", "%s%n" }; int const a = r.choose( 5 ), b = r.choose( 5 ); vector< int > mv; for ( int i = 0; i < 3; ++i ) { mv.push_back( r.choose( 5 ) ); } wall = 1764000000123456LL; cpu = 55; std::ostringstream got; std::streambuf* o = std::cerr.rdbuf( got.rdbuf() ); long long& now = clk< T >(); auto go = [&] ( int k ) { if ( k < 4 ) { wall += moves[k][0]; cpu += moves[k][1]; } }; auto line = [&] ( int title, long long us ) { std::ostringstream l; if ( title < 4 && *titles[title] ) { l << titles[title] << " - "; } l << "elapsed time: " << (double) us / 1e6 << " sec\n"; return l.str(); }; string want;
  { On on; long long s1 = now; auto outer = [&] { go( mv[0] ); long long s2 = now; { auto inner = [&] { go( mv[1] ); }; if ( b < 4 ) { kv::scoped_timer< T > t( titles[b] ); inner(); } else { kv::scoped_timer< T > t; inner(); } } want += line( b, now - s2 ); CK( got.str() == want, "scope", mc::show( got.str() ) + " instead of " + mc::show( want ) ); go( mv[2] ); }; try { if ( a < 4 ) { kv::scoped_timer< T > t( titles[a] ); outer(); } else { kv::scoped_timer< T > t; outer(); } } catch ( ... ) { std::cerr.rdbuf( o ); throw; } want += line( a, now - s1 ); } std::cerr.rdbuf( o ); EQ( got.str(), want, "scope", "text of the scoped timers" ); r.step();
}
}
SCENARIO( wall_timers, 2 ) { timers< kv::wall_timer >( r ); }
SCENARIO( cpu_timers, 2 ) { timers< kv::cpu_timer >( r ); }
SCENARIO( scoped_timers, 1 ) { if ( r.flip() ) { scoped< kv::wall_timer >( r ); } else { scoped< kv::cpu_timer >( r ); } }
// ---- places: a copy (hard link) of this program is run from every kind of directory
namespace {
char* base_of( char* p ) { char* s = strrchr( p, '/' ); return s ? s + 1 : p; }
void where( char const* ops )
{
  string out; for ( ; *ops; ++ops ) { if ( *ops == 'e' ) { out += kv::get_executable_path() + '\0'; } else if ( *ops == 'm' ) { out += kv::get_module_path() + '\0'; } else if ( *ops == 'd' ) { if ( chdir( "/" ) ) { _exit( 7 ); } } else if ( *ops == 'u' ) { char b[8192]; ssize_t n = readlink( "/proc/self/exe", b, sizeof b - 1 ); if ( n < 0 ) { _exit( 7 ); } b[n] = 0; if ( unlink( b ) ) { _exit( 7 ); } } } out += "end"; fwrite( out.data(), 1, out.size(), stdout ); fflush( stdout ); _exit( 0 );
}
string self() { static string s; if ( s.empty() ) { char b[8192]; ssize_t n = readlink( "/proc/self/exe", b, sizeof b ); s.assign( b, n > 0 ? (size_t) n : 0 ); } return s; }
string module() { static string s; if ( s.empty() ) { Dl_info i; memset( &i, 0, sizeof i ); dladdr( (void*) (string (*)()) kv::get_module_path, &i ); char b[8192]; s = i.dli_fname && realpath( i.dli_fname, b ) ? b : ""; } return s; }
string soname() { // the name under which the loader looks for the library
  static string n; if ( n.empty() ) { string t = "readelf -d '" + module() + "' | sed -n 's/.*SONAME.*\\[\\(.*\\)\\]/\\1/p'"; FILE* p = popen( t.c_str(), "r" ); char b[500] = ""; if ( p ) { if ( fgets( b, sizeof b, p ) ) { b[strcspn( b, "\n" )] = 0; } pclose( p ); } n = b; } return n; }
void put( string const& from, string const& to ) { if ( link( from.c_str(), to.c_str() ) && ! ( errno == EEXIST ) ) { std::ifstream i( from, std::ios::binary ); std::ofstream o( to, std::ios::binary ); o << i.rdbuf(); o.close(); if ( chmod( to.c_str(), 0755 ) ) { throw mc::Divergence( "cannot copy " + from + " to " + to ); } } }
vector< string > run( mc::Run& r, string const& file, string const& arg0, string const& cwd, string const& ops, string const& libdir, string const& w )
{
  int fd[2]; if ( pipe( fd ) ) { throw mc::Divergence( "pipe" ); } fflush( 0 ); pid_t p = fork(); if ( ! p ) { dup2( fd[1], 1 ); close( fd[0] ); close( fd[1] ); if ( libdir.size() ) { setenv( "LD_LIBRARY_PATH", libdir.c_str(), 1 ); } if ( chdir( cwd.c_str() ) ) { _exit( 8 ); } alarm( 60 ); char const* a[] = { arg0.c_str(), "--where", ops.c_str(), 0 }; execv( file.c_str(), (char* const*) a ); _exit( 9 ); } close( fd[1] ); string o; char b[4096]; for (;; ) { ssize_t k = read( fd[0], b, sizeof b ); if ( k < 0 && errno == EINTR ) { continue; } if ( k <= 0 ) { break; } o.append( b, (size_t) k ); } close( fd[0] ); int st = 0; while ( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
  vector< string > v; size_t at = 0, z; while ( ( z = o.find( '\0', at ) ) != string::npos ) { v.push_back( o.substr( at, z - at ) ); at = z + 1; } if ( o.substr( at ) != "end" ) { r.fail( "crash", w + ": ended with status " + std::to_string( st ) ); } return v;
}
string deep( string base, size_t total ) { while ( base.size() + 1 < total ) { size_t k = std::min( (size_t) 200, total - base.size() - 1 ); base += "/" + string( k, 'd' ); } return base; }
bool mkdirs( string const& p ) { for ( size_t i = 1; i <= p.size(); ++i ) { if ( i == p.size() || p[i] == '/' ) { if ( mkdir( p.substr( 0, i ).c_str(), 0777 ) && errno != EEXIST ) { return false; } } } return true; }
vector< string > const names = { "a", "a b", " lead", "trail ", "b c d", "ä", "x:y", "(deleted)", "tab\tname", "quo\"te", "back\\slash", "perc%s", ".hidden", "lib.so", "NEWLINE", "a/b", "a b/c d", string( 255, 'n' ) };
}
SCENARIO( program_place, 1 )
{
  size_t const N = names.size(); int const k = r.choose( (int) N + 4 ), how = r.choose( 5 ), ops = r.choose( 4 ); static char const* const op[] = { "ee", "de", "ede", "eme" }; string const root = r.scratch; string name = k < (int) N ? names[k] : ""; if ( name == "NEWLINE" ) { name = "new\nline"; } string dir; if ( k < (int) N ) { dir = root + "/" + name; } else { static size_t const len[] = { 500, 1000, 2000, 4000 }; dir = deep( root, len[k - (int) N] ); } if ( ! mkdirs( dir ) ) { throw mc::Divergence( "mkdir" ); } char real[8192]; if ( ! realpath( dir.c_str(), real ) ) { throw mc::Divergence( "realpath" ); } static char const* const pn[] = { "prog", "pro g", "p" }; string const prog = pn[k % 3], full = dir + "/" + prog; put( self(), full ); string file = full, arg0 = prog, cwd = root, w = "program in " + mc::show( name.size() ? name : std::to_string( dir.size() ) + " characters" ) + ", started ";
  if ( how == 0 ) { w += "by its path"; arg0 = full; } else if ( how == 1 ) { cwd = dir; file = "./" + prog; w += "from its directory"; } else if ( how == 2 ) { file = root + "/link"; unlink( file.c_str() ); if ( symlink( full.c_str(), file.c_str() ) ) { throw mc::Divergence( "symlink" ); } arg0 = file; w += "through a link"; } else if ( how == 3 ) { string l = root + "/dirlink"; unlink( l.c_str() ); if ( symlink( dir.c_str(), l.c_str() ) ) { throw mc::Divergence( "symlink" ); } file = l + "/" + prog; w += "through a link to the directory"; } else { arg0 = "/bin/other"; w += "under another name"; }
  auto v = run( r, file, arg0, cwd, op[ops], "", w ); char lib[8192]; strcpy( lib, module().c_str() ); lib[strlen( lib ) - strlen( base_of( lib ) ) - 1] = 0; size_t q = 0; for ( char const* o = op[ops]; *o; ++o ) { if ( *o == 'e' ) { EQ( v.at( q++ ), string( real ), "program", w ); } else if ( *o == 'm' ) { EQ( v.at( q++ ), string( lib ), "module", w + ": directory of the library" ); } } r.step();
}
SCENARIO( module_place, 1 )
{
  size_t const N = names.size(); int const k = r.choose( (int) N + 2 ), how = r.choose( 3 ), ops = r.choose( 4 ); static char const* const op[] = { "mm", "dm", "mdm", "mem" }; string const root = r.scratch; string name = k < (int) N ? names[k] : ""; if ( name == "NEWLINE" || name.find( ':' ) != string::npos ) { return; } string dir; if ( k < (int) N ) { dir = root + "/" + name; } else { static size_t const len[] = { 500, 1000 }; dir = deep( root, len[k - (int) N] ); } if ( ! mkdirs( dir ) ) { throw mc::Divergence( "mkdir" ); } char real[8192]; if ( ! realpath( dir.c_str(), real ) ) { throw mc::Divergence( "realpath" ); } string lib = dir, w = "library in " + mc::show( name.size() ? name : std::to_string( dir.size() ) + " characters" );
  if ( soname().empty() ) { throw mc::Divergence( "no soname" ); } if ( how == 1 ) { put( module(), dir + "/real lib.so" ); unlink( ( dir + "/" + soname() ).c_str() ); if ( symlink( "real lib.so", ( dir + "/" + soname() ).c_str() ) ) { throw mc::Divergence( "symlink" ); } w += ", its file has another name"; } else { put( module(), dir + "/" + soname() ); } if ( how == 2 ) { lib = root + "/dirlink"; unlink( lib.c_str() ); if ( symlink( dir.c_str(), lib.c_str() ) ) { throw mc::Divergence( "symlink" ); } w += ", found through a link to the directory"; }
  auto v = run( r, self(), self(), root, op[ops], lib, w ); char exe[8192]; strcpy( exe, self().c_str() ); exe[strlen( exe ) - strlen( base_of( exe ) ) - 1] = 0; size_t q = 0; for ( char const* o = op[ops]; *o; ++o ) { if ( *o == 'm' ) { EQ( v.at( q++ ), string( real ), "module", w ); } else if ( *o == 'e' ) { EQ( v.at( q++ ), string( exe ), "program", w + ": directory of the program" ); } } r.step();
}
// a program whose file is gone has no place, and the library still has one
SCENARIO( program_gone, 1 )
{
  static char const* const op[] = { "ue", "uee", "um", "ume", "eue" }; int const k = r.choose( 5 ), nm = r.choose( 3 ); string const dir = string( r.scratch ) + "/" + names[nm]; if ( ! mkdirs( dir ) ) { throw mc::Divergence( "mkdir" ); } char real[8192]; if ( ! realpath( dir.c_str(), real ) ) { throw mc::Divergence( "realpath" ); } put( self(), dir + "/gone" ); auto v = run( r, dir + "/gone", "gone", "/", op[k], "", "deleted program" ); char lib[8192]; strcpy( lib, module().c_str() ); lib[strlen( lib ) - strlen( base_of( lib ) ) - 1] = 0; bool gone = false, asked = false; size_t q = 0; for ( char const* o = op[k]; *o; ++o ) { if ( *o == 'u' ) { gone = true; } else if ( *o == 'e' ) { string const got = v.at( q++ ); if ( gone && ! asked ) { EQ( got, string(), "program", "place of a deleted program" ); } else { EQ( got, string( real ), "program", "place of the program" ); asked = true; } } else { EQ( v.at( q++ ), string( lib ), "module", "directory of the library" ); } } r.step();
}
int main( int argc, char** argv ) { if ( argc == 3 && ! strcmp( argv[1], "--where" ) ) { where( argv[2] ); } return mc::main_( argc, argv ); }
