// K05: child processes, run for real, with every combination of small programs, options and single faults.
#include "mc.h"
#include "child.h"
#include <kwsys/Process.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <dirent.h>
#include <cstdarg>
#include <grp.h>
using std::string; using std::vector;
#define CK( c, key, msg ) do { if ( ! ( c ) ) { r.fail( key, msg ); } if ( r.verbose ) { r.note( msg ); } } while ( 0 )
// ---- the system calls of the library under test, counted, failed on demand, and kept away from foreign processes ----
enum Call { NONE, FORK, PIPE, FCNTL, OPEN, CHDIR, GETCWD, MALLOC, SETSID, READ_EINTR, SELECT_EINTR, WAITPID_EINTR, CHDIR_EINTR, SELECT_ERROR, NCALLS };
static char const* const call_name[] = { "none", "fork", "pipe", "fcntl", "open", "chdir", "getcwd", "malloc", "setsid", "interrupted read", "interrupted select", "interrupted waitpid", "interrupted chdir", "failing select" };
static int const call_error[] = { 0, EAGAIN, EMFILE, EINVAL, EMFILE, EACCES, ERANGE, ENOMEM, EPERM, EINTR, EINTR, EINTR, EINTR, ENOMEM };
static struct { Call what = NONE; int at = 0, count[NCALLS]; bool armed = false, hit = false; pid_t owner = 0; string bad_kill; vector< pid_t > forked; int slow_fork = 0, slow_who = 0; } F;
static bool fault( Call c ) { if ( ! F.armed || ( c != FORK && c != SETSID && getpid() != F.owner ) ) { return false; } if ( ++F.count[c] == F.at && c == F.what ) { F.hit = true; errno = call_error[c]; return true; } return false; }
extern "C" {
pid_t __real_fork( void ); int __real_pipe( int* ); int __real_fcntl( int, int, ... ); int __real_fcntl64( int, int, ... ); int __real_open( char const*, int, ... ); int __real_open64( char const*, int, ... ); int __real_chdir( char const* ); char* __real_getcwd( char*, size_t ); void* __real_malloc( size_t ); char* __real_strdup( char const* ); int __real_sigprocmask( int, sigset_t const*, sigset_t* ); pid_t __real_setsid( void ); ssize_t __real_read( int, void*, size_t ); int __real_select( int, fd_set*, fd_set*, fd_set*, struct timeval* ); pid_t __real_waitpid( pid_t, int*, int ); int __real_kill( pid_t, int );
}
static int ppid_of( int pid ) { char p[64], b[512]; snprintf( p, sizeof p, "/proc/%d/stat", pid ); int fd = __real_open( p, O_RDONLY | O_CLOEXEC ); if ( fd < 0 ) { return -1; } ssize_t n = __real_read( fd, b, sizeof b - 1 ); ::close( fd ); if ( n <= 0 ) { return -1; } b[n] = 0; char* e = strrchr( b, ')' ); int pp = -1; if ( ! e || sscanf( e + 1, " %*c %d", &pp ) != 1 ) { return -1; } return pp; }
static bool descendant( int pid ) { for ( int k = 0; k < 50 && pid > 1; ++k ) { pid = ppid_of( pid ); if ( pid == F.owner ) { return true; } } return false; }
extern "C" {
pid_t __wrap_fork( void ) { if ( fault( FORK ) ) { return -1; } bool const slow = F.armed && F.slow_fork && ++F.count[NONE] == F.slow_fork; pid_t p = __real_fork(); if ( slow && p >= 0 && ( p > 0 ) == ( F.slow_who == 0 ) ) { usleep( 8000 ); } if ( p > 0 && F.owner == getpid() ) { F.forked.push_back( p ); } return p; }
int __wrap_pipe( int* p ) { return fault( PIPE ) ? -1 : __real_pipe( p ); }
int __wrap_fcntl( int fd, int c, ... ) { va_list a; va_start( a, c ); long v = va_arg( a, long ); va_end( a ); return fault( FCNTL ) ? -1 : __real_fcntl( fd, c, v ); }
int __wrap_fcntl64( int fd, int c, ... ) { va_list a; va_start( a, c ); long v = va_arg( a, long ); va_end( a ); return fault( FCNTL ) ? -1 : __real_fcntl64( fd, c, v ); }
int __wrap_open( char const* n, int f, ... ) { va_list a; va_start( a, f ); int m = va_arg( a, int ); va_end( a ); return fault( OPEN ) ? -1 : __real_open( n, f, m ); }
int __wrap_open64( char const* n, int f, ... ) { va_list a; va_start( a, f ); int m = va_arg( a, int ); va_end( a ); return fault( OPEN ) ? -1 : __real_open64( n, f, m ); }
int __wrap_chdir( char const* d ) { if ( fault( CHDIR_EINTR ) || fault( CHDIR ) ) { return -1; } return __real_chdir( d ); }
char* __wrap_getcwd( char* b, size_t n ) { return fault( GETCWD ) ? nullptr : __real_getcwd( b, n ); }
void* __wrap_malloc( size_t n ) { return fault( MALLOC ) ? nullptr : __real_malloc( n ); }
char* __wrap_strdup( char const* s ) { return fault( MALLOC ) ? nullptr : __real_strdup( s ); }
int __wrap_sigprocmask( int h, sigset_t const* s, sigset_t* o ) { return __real_sigprocmask( h, s, o ); }
pid_t __wrap_setsid( void ) { return fault( SETSID ) ? -1 : __real_setsid(); }
ssize_t __wrap_read( int fd, void* b, size_t n ) { return fault( READ_EINTR ) ? -1 : __real_read( fd, b, n ); }
int __wrap_select( int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t ) { if ( fault( SELECT_EINTR ) || fault( SELECT_ERROR ) ) { return -1; } return __real_select( n, r, w, e, t ); }
pid_t __wrap_waitpid( pid_t p, int* s, int o ) { return fault( WAITPID_EINTR ) ? -1 : __real_waitpid( p, s, o ); }
int __wrap_kill( pid_t p, int sig )
{ // signals only ever reach processes started by this execution
  if ( F.owner && F.owner == getpid() )
  {
    int const target = p < -1 ? -p : p; if ( p == 0 || p == -1 || p == 1 || target == F.owner ) { F.bad_kill = "signal " + std::to_string( sig ) + " sent to " + std::to_string( p ); errno = EPERM; return -1; }
    if ( ppid_of( target ) < 0 ) { errno = ESRCH; return -1; } if ( ! descendant( target ) ) { F.bad_kill = "signal " + std::to_string( sig ) + " sent to a foreign process"; errno = EPERM; return -1; }
    return __real_kill( p, sig );
  }
  errno = EPERM; return -1;
}
int __wrap_killpg( pid_t g, int sig ) { return g <= 1 ? __wrap_kill( 0, sig ) : __wrap_kill( -g, sig ); }
}
namespace {
typedef kwsysProcess P;
// ---- what the children write: every stream has its own set of byte values ----
string stream( int id, size_t n ) { string s( n, 0 ); for ( size_t k = 0; k < n; ++k ) { s[k] = (char) ( ( ( ( k * 29 + k / 31 * 7 + 5 ) & 31 ) << 3 ) | (size_t) id ); } return s; }
size_t const SMALL = 5, BIG = 70001, INPUT = 300;
string const& data_dir()
{
  static string d; if ( ! d.empty() ) { return d; }
  char const* w = getenv( "VERIF_WORK" ); string base = w ? w : "/tmp"; chmod( base.c_str(), 0755 ); d = base + "/data" + std::to_string( getpid() ); mkdir( d.c_str(), 0755 );
  auto put = [&]( string const& n, string const& s ) { std::ofstream( d + "/" + n, std::ios::binary ) << s; chmod( ( d + "/" + n ).c_str(), 0644 ); };
  for ( int i = 0; i < 3; ++i ) { put( "o" + std::to_string( i ) + "s", stream( i, SMALL ) ); put( "o" + std::to_string( i ) + "b", stream( i, BIG ) ); put( "e" + std::to_string( i ) + "s", stream( 3 + i, SMALL ) ); put( "e" + std::to_string( i ) + "b", stream( 3 + i, BIG ) ); }
  put( "in", stream( 6, INPUT ) ); put( "plain", "no program" ); mkdir( ( d + "/sub" ).c_str(), 0755 ); return d;
}
enum Kind { EXIT0, EXIT3, OUT_S, OUT_B, ERR_S, BOTH_B, MIXED, COPY, WRAP, CLOSED, FAULT, KILLED, MISSING, REFUSED, SLEEP, ASLEEP, NKINDS, NAP };
char const* const kind_name[] = { "exit0", "exit3", "out", "OUT", "err", "OUTERR", "mixed", "copy", "wrap", "closed", "segv", "sigkill", "missing", "refused", "sleep", "asleep" };
vector< string > command( int kind, int i )
{
  string const d = data_dir() + "/", n = std::to_string( i ), o = d + "o" + n, e = d + "e" + n; string s;
  switch ( kind )
  {
  case EXIT0: s = "exit 0"; break; case EXIT3: s = "exit 3"; break; case OUT_S: s = "exec cat " + o + "s"; break; case OUT_B: s = "exec cat " + o + "b"; break; case ERR_S: s = "exec cat " + e + "s >&2"; break;
  case BOTH_B: s = "cat " + e + "b >&2; exec cat " + o + "b"; break; case MIXED: s = "cat " + e + "b >&2 & cat " + o + "b; wait; exit 0"; break; case COPY: s = "exec cat"; break; case WRAP: s = "cat " + o + "s; cat; exit 2"; break;
  case CLOSED: s = "exec >&- 2>&-; exit 5"; break; case FAULT: s = "cat " + o + "s; kill -SEGV $$"; break; case KILLED: s = "kill -KILL $$"; break; case MISSING: return { d + "nothing" }; case REFUSED: return { d + "plain", "x" };
  case NAP: s = "printf 12345; exec sleep 60"; break; // no shell that could survive an interrupt of its group
  case SLEEP: s = "sleep 60 & cat " + o + "s; wait; exit 1"; break; case ASLEEP: s = "exec >&- 2>&- <&-; exec sleep 60"; break;
  }
  return { "/bin/sh", "-c", s };
}
struct Cfg { vector< int > st; bool merge = false, wd = false, group = false, detach = false; int in = 0, out = 0, err = 0, reader = 0; double timeout = 0; bool kill = false; };
struct Want { string out; vector< string > err = vector< string >( 3 ); bool prefix = false, startup_error = false, endless = false; int errnum = 0; };
enum { IN_NULL, IN_FILE, IN_NATIVE, IN_CLOSED }; enum { TO_PIPE, TO_FILE, TO_NATIVE, TO_SHARED };
Want model( Cfg const& c )
{
  Want w; string in = c.in == IN_FILE || c.in == IN_NATIVE ? stream( 6, INPUT ) : "";
  for ( size_t i = 0; i < c.st.size(); ++i )
  {
    int const id = (int) i; string out; string& err = w.err[i];
    switch ( c.st[i] )
    {
    case OUT_S: case FAULT: out = stream( id, SMALL ); break; case SLEEP: out = stream( id, SMALL ); w.endless = true; break; case ASLEEP: w.endless = true; break; case OUT_B: out = stream( id, BIG ); break; case ERR_S: err = stream( 3 + id, SMALL ); break; case BOTH_B: case MIXED: err = stream( 3 + id, BIG ); out = stream( id, BIG ); break;
    case COPY: out = in; break; case WRAP: out = stream( id, SMALL ) + in; break; case MISSING: if ( ! w.startup_error ) { w.startup_error = true; w.errnum = ENOENT; } break; case REFUSED: if ( ! w.startup_error ) { w.startup_error = true; w.errnum = EACCES; } break; default: break;
    }
    in = out;
  }
  w.out = in; return w;
}
int exit_of( int kind ) { switch ( kind ) { case EXIT3: return 3; case WRAP: return 2; case CLOSED: return 5; default: return 0; } }
string project( string const& s, int id ) { string o; for ( char ch : s ) { if ( ( (unsigned char) ch & 7 ) == id ) { o += ch; } } return o; }
bool is_err( char ch ) { int id = (unsigned char) ch & 7; return id >= 3 && id < 6; }
string slurp( string const& n ) { std::ifstream f( n, std::ios::binary ); std::stringstream s; s << f.rdbuf(); return s.str(); }
vector< int > fds() { vector< int > v; DIR* d = opendir( "/proc/self/fd" ); int const own = dirfd( d ); while ( dirent* e = readdir( d ) ) { if ( e->d_name[0] != '.' && atoi( e->d_name ) != own ) { v.push_back( atoi( e->d_name ) ); } } closedir( d ); std::sort( v.begin(), v.end() ); return v; }
string list( vector< int > const& v ) { string s; for ( int x : v ) { s += std::to_string( x ) + " "; } return s; }
void on_int( int ) {} void on_term( int ) {} void on_chld( int ) {}
double now() { struct timeval t; gettimeofday( &t, nullptr ); return t.tv_sec + 1e-6 * t.tv_usec; }
// In a forked process of its own and without privileges: descriptors quiet, foreign processes out of reach.
void setup( string const& dir )
{
  F.owner = getpid(); F.armed = false; F.forked.clear(); F.bad_kill.clear(); F.hit = false; memset( F.count, 0, sizeof F.count ); F.what = NONE; prctl( PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0 );
  struct rlimit none = { 0, 0 }; setrlimit( RLIMIT_CORE, &none );
  for ( int fd : fds() ) { if ( fd > 2 ) { __real_fcntl( fd, F_SETFD, FD_CLOEXEC ); } } int n = ::open( "/dev/null", O_RDWR ); dup2( n, 0 ); if ( n > 2 ) { ::close( n ); }
  if ( __real_chdir( dir.c_str() ) ) { throw mc::Divergence( "chdir" ); }
  if ( getuid() == 0 && ! setgroups( 0, nullptr ) && ! setresgid( 61005, 61005, 61005 ) && setresuid( 61005, 61005, 61005 ) ) { throw mc::Divergence( "privileges" ); } // as root where that is not possible: __wrap_kill contains it
  signal( SIGINT, on_int ); signal( SIGTERM, on_term ); signal( SIGCHLD, on_chld );
}
// nothing of the execution may be left: children, descriptors, handlers, working directory
void clean( mc::Run& r, vector< int > const& before, string const& dir, string const& what )
{
  CK( F.bad_kill.empty(), "foreign-signal", what + ": " + F.bad_kill );
  for ( int k = 0;; ++k ) { int st; pid_t p = __real_waitpid( -1, &st, WNOHANG ); if ( p < 0 ) { break; } if ( p > 0 ) { CK( std::find( F.forked.begin(), F.forked.end(), p ) == F.forked.end(), "zombie", what + " leaves a child that nobody waited for" ); continue; } CK( k < 3000, "running-child", what + " leaves a child running" ); usleep( 1000 ); }
  vector< int > after = fds(); CK( after == before, "descriptors", what + " leaves the descriptors " + list( after ) + "where there were " + list( before ) );
  struct sigaction a; sigaction( SIGINT, nullptr, &a ); CK( a.sa_handler == on_int, "handlers", what + ": the handler of SIGINT is not restored" ); sigaction( SIGTERM, nullptr, &a ); CK( a.sa_handler == on_term, "handlers", what + ": the handler of SIGTERM is not restored" ); sigaction( SIGCHLD, nullptr, &a ); CK( a.sa_handler == on_chld, "handlers", what + ": the handler of SIGCHLD is not restored" );
  sigset_t m; __real_sigprocmask( SIG_BLOCK, nullptr, &m ); for ( int s = 1; s < 32; ++s ) { CK( ! sigismember( &m, s ), "mask", what + ": signal " + std::to_string( s ) + " stays blocked" ); }
  char b[4096]; CK( __real_getcwd( b, sizeof b ) && dir == b, "directory", what + " leaves the working directory at " + string( b ) );
}
void reap_all() { for ( int k = 0; k < 3000; ++k ) { DIR* d = opendir( "/proc" ); bool any = false; while ( dirent* e = readdir( d ) ) { int pid = atoi( e->d_name ); if ( pid > 1 && descendant( pid ) ) { any = true; __real_kill( pid, SIGKILL ); } } closedir( d ); while ( __real_waitpid( -1, nullptr, WNOHANG ) > 0 ) {} if ( ! any ) { return; } usleep( 1000 ); } }
bool set_commands( P* p, vector< int > const& st ) { for ( size_t i = 0; i < st.size(); ++i ) { vector< string > c = command( st[i], (int) i ); vector< char const* > a; for ( auto const& s : c ) { a.push_back( s.c_str() ); } a.push_back( nullptr ); if ( ! ( i ? kwsysProcess_AddCommand( p, a.data() ) : kwsysProcess_SetCommand( p, a.data() ) ) ) { return false; } } return true; }
struct Got { string data[2]; int pipe_fd[3] = { -1, -1, -1 }; };
// options of one execution; false when the library reports a failure
bool configure( P* p, Cfg const& c, string const& dir, Got& g )
{
  kwsysProcess_SetOption( p, kwsysProcess_Option_MergeOutput, c.merge ); kwsysProcess_SetOption( p, kwsysProcess_Option_CreateProcessGroup, c.group ); kwsysProcess_SetOption( p, kwsysProcess_Option_Detach, c.detach ); kwsysProcess_SetTimeout( p, c.timeout );
  string const out = c.wd ? "out" : dir + "/out", err = c.wd ? "err" : dir + "/err"; bool ok = true; ok &= kwsysProcess_SetWorkingDirectory( p, c.wd ? ( dir + "/w" ).c_str() : nullptr ) == 1;
  for ( int i = 0; i < 3; ++i ) { int const to = i == 0 ? c.in : i == 1 ? c.out : c.err; int const id = i == 0 ? kwsysProcess_Pipe_STDIN : i == 1 ? kwsysProcess_Pipe_STDOUT : kwsysProcess_Pipe_STDERR;
    if ( i == 0 && to == IN_FILE ) { ok &= kwsysProcess_SetPipeFile( p, id, ( data_dir() + "/in" ).c_str() ) == 1; } else if ( i == 0 && to == IN_CLOSED ) { kwsysProcess_SetPipeShared( p, id, 0 ); } else if ( i == 0 && to == IN_NULL ) { kwsysProcess_SetPipeShared( p, id, 1 ); }
    else if ( to == TO_NATIVE ) { int q[2]; if ( __real_pipe( q ) ) { throw mc::Divergence( "pipe" ); } if ( i == 0 ) { string s = stream( 6, INPUT ); if ( write( q[1], s.data(), s.size() ) != (ssize_t) s.size() ) { throw mc::Divergence( "write" ); } ::close( q[1] ); q[1] = dup( q[0] ); g.pipe_fd[0] = q[1]; } else { g.pipe_fd[i] = q[0]; } kwsysProcess_SetPipeNative( p, id, q ); }
    else if ( to == TO_FILE ) { ok &= kwsysProcess_SetPipeFile( p, id, i == 1 ? out.c_str() : err.c_str() ) == 1; } else { kwsysProcess_SetPipeShared( p, id, to == TO_SHARED ); }
  }
  return ok && set_commands( p, c.st );
}
void read_native( Cfg const& c, Got& g ) { for ( int i = 0; i < 3; ++i ) { if ( g.pipe_fd[i] >= 0 ) { if ( i ) { char b[4096]; ssize_t n; int const mode = i == 1 ? c.out : c.err; (void) mode; while ( ( n = __real_read( g.pipe_fd[i], b, sizeof b ) ) > 0 ) { g.data[i - 1].append( b, (size_t) n ); } } ::close( g.pipe_fd[i] ); g.pipe_fd[i] = -1; } } }
void close_native( Got& g ) { for ( int& fd : g.pipe_fd ) { if ( fd >= 0 ) { ::close( fd ); fd = -1; } } }
// read everything the way the reader does; returns false if the user timeout was not handled properly
void collect( mc::Run& r, P* p, Cfg const& c, Got& g, bool endless, string const& what )
{
  if ( c.reader == 3 ) { return; } double const limit = now() + ( endless ? 0.15 : 25 );
  for ( ;; )
  {
    char* d = nullptr; int n = -1; double t = c.reader == 1 ? ( endless ? 0.002 : 0 ) : c.reader == 2 ? 0.004 : 30; double* tp = c.reader == 0 && ! ( endless && c.kill ) ? nullptr : &t; if ( tp && endless && c.kill ) { t = 0.01; } double const t0 = t, at = now();
    int const id = kwsysProcess_WaitForData( p, &d, &n, tp ); r.step();
    if ( id == kwsysProcess_Pipe_None ) { return; }
    if ( id == kwsysProcess_Pipe_Timeout ) { CK( tp && t == 0, "user-timeout", what + ": a call without data leaves " + std::to_string( t ) + " of its timeout" ); CK( now() - at > t0 - 0.001, "user-timeout", what + ": a call gives up before its timeout" ); if ( endless && c.kill && now() > limit ) { return; } CK( endless || now() < limit, "hang", what + " never ends" ); if ( c.reader == 1 ) { usleep( 200 ); } continue; }
    CK( ( id == kwsysProcess_Pipe_STDOUT || id == kwsysProcess_Pipe_STDERR ) && d && n > 0, "data", what + ": data of length " + std::to_string( n ) + " on pipe " + std::to_string( id ) ); CK( ! tp || ( t >= 0 && t <= t0 ) || t0 < 0, "user-timeout", what + ": the timeout grows" ); g.data[id == kwsysProcess_Pipe_STDERR].append( d, (size_t) n ); if ( c.reader == 4 ) { return; }
  }
}
string describe( Cfg const& c ) { string s; for ( int k : c.st ) { s += string( s.empty() ? "" : " | " ) + kind_name[k]; } static char const* const in[] = { "", " <file", " <native", " <closed" }; static char const* const to[] = { "", "file", "native", "shared" }; s += in[c.in]; if ( c.out ) { s += string( " out>" ) + to[c.out]; } if ( c.err ) { s += string( " err>" ) + to[c.err]; } if ( c.merge ) { s += " merged"; } if ( c.wd ) { s += " in a directory"; } if ( c.group ) { s += " own group"; } if ( c.detach ) { s += " detached"; } if ( c.kill ) { s += " killed"; } if ( c.timeout > 0 ) { s += " timeout"; } s += " reader" + std::to_string( c.reader ); return s; }
void drain() { for ( int k = 0; k < 3000; ++k ) { pid_t q = __real_waitpid( -1, nullptr, WNOHANG ); if ( q < 0 ) { break; } if ( q == 0 ) { usleep( 1000 ); } } }
// judge the outcome of one execution that started
void judge( mc::Run& r, P* p, Cfg const& c, Want const& w, Got& g, string const& dir, double started, string const& what )
{
  int const state = kwsysProcess_GetState( p ); bool const cut = w.endless;
  if ( w.endless ) { if ( c.kill ) { CK( state == kwsysProcess_State_Killed, "state", what + " ends in state " + std::to_string( state ) + " instead of killed" ); } else { CK( state == kwsysProcess_State_Expired, "state", what + " ends in state " + std::to_string( state ) + " instead of expired" ); CK( now() - started > c.timeout - 0.001, "timeout", what + " expires early" ); } }
  else
  {
    int const last = c.st.back(); string const es = kwsysProcess_GetExceptionString( p );
    if ( c.detach ) { CK( state == kwsysProcess_State_Exited, "state", what + " ends in state " + std::to_string( state ) ); }
    else if ( last == FAULT || last == KILLED ) { int const sig = last == FAULT ? SIGSEGV : SIGKILL; CK( state == kwsysProcess_State_Exception && kwsysProcess_GetExitException( p ) == ( last == FAULT ? kwsysProcess_Exception_Fault : kwsysProcess_Exception_Other ) && WIFSIGNALED( kwsysProcess_GetExitCode( p ) ) && WTERMSIG( kwsysProcess_GetExitCode( p ) ) == sig && es == ( last == FAULT ? "Segmentation fault" : "Child killed" ), "exception", what + " ends in state " + std::to_string( state ) + ", " + es ); }
    else { CK( state == kwsysProcess_State_Exited, "state", what + " ends in state " + std::to_string( state ) + " " + kwsysProcess_GetErrorString( p ) ); int const v = c.st.back() == COPY && c.in == IN_CLOSED && c.st.size() == 1 ? -1 : exit_of( last ); CK( v < 0 || ( kwsysProcess_GetExitValue( p ) == v && WIFEXITED( kwsysProcess_GetExitCode( p ) ) && WEXITSTATUS( kwsysProcess_GetExitCode( p ) ) == v ), "exit-value", what + " ends with " + std::to_string( kwsysProcess_GetExitValue( p ) ) + " instead of " + std::to_string( v ) ); CK( kwsysProcess_GetExitException( p ) == kwsysProcess_Exception_None, "exception", what + " reports an exception" ); }
  }
  if ( c.detach ) { drain(); }
  bool const partial = c.reader >= 3, dropped_out = partial && c.out == TO_PIPE, dropped_err = partial && c.err == TO_PIPE; string const base = c.wd ? dir + "/w/" : dir + "/";
  read_native( c, g ); if ( c.out == TO_FILE ) { CK( g.data[0].empty(), "data", what + ": a redirected stream has data" ); g.data[0] = slurp( base + "out" ); } if ( c.err == TO_FILE ) { CK( g.data[1].empty(), "data", what + ": a redirected stream has data" ); g.data[1] = slurp( base + "err" ); }
  if ( c.out == TO_SHARED ) { g.data[0] = slurp( dir + "/shared1" ); } if ( c.err == TO_SHARED ) { g.data[1] = slurp( dir + "/shared2" ); }
  string out = g.data[0], err = g.data[1]; if ( c.merge ) { CK( g.data[1].empty(), "merged", what + ": merged output has a separate error stream" ); out.clear(); err.clear(); for ( char ch : g.data[0] ) { ( is_err( ch ) ? err : out ) += ch; } }
  auto same = [&]( string const& got, string const& want, bool part, char const* name ) { if ( part ? want.compare( 0, got.size(), got ) != 0 : got != want ) { size_t k = 0; while ( k < got.size() && k < want.size() && got[k] == want[k] ) { ++k; } r.fail( "bytes", what + ": " + name + " delivers " + std::to_string( got.size() ) + " bytes instead of " + std::to_string( want.size() ) + ", different from byte " + std::to_string( k ) ); } };
  same( out, w.out, cut || dropped_out, "standard output" ); size_t total = 0; bool const part = cut || dropped_err || ( c.merge && dropped_out );
  for ( int i = 0; i < 3; ++i ) { string s = project( err, 3 + i ); total += s.size(); same( s, w.err[i], part, "standard error" ); } CK( total == err.size(), "bytes", what + ": foreign bytes on standard error" );
}
struct Shares { int o = -1, e = -1; };
void share( Cfg const& c, string const& dir, Shares& s ) { if ( c.out == TO_SHARED ) { s.o = dup( 1 ); int f = ::open( ( dir + "/shared1" ).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644 ); dup2( f, 1 ); ::close( f ); __real_fcntl( s.o, F_SETFD, FD_CLOEXEC ); } if ( c.err == TO_SHARED ) { s.e = dup( 2 ); int f = ::open( ( dir + "/shared2" ).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644 ); dup2( f, 2 ); ::close( f ); __real_fcntl( s.e, F_SETFD, FD_CLOEXEC ); } }
void unshare( Shares& s ) { if ( s.o >= 0 ) { dup2( s.o, 1 ); ::close( s.o ); s.o = -1; } if ( s.e >= 0 ) { dup2( s.e, 2 ); ::close( s.e ); s.e = -1; } }
// one complete execution; with a fault it may also end as a reported error
void execute( mc::Run& r, P* p, Cfg const& c, string const& dir, vector< int > const& before, bool faulty, string const& what )
{
  Want const w = model( c ); Got g; Shares sh; share( c, dir, sh ); double const started = now(); bool const absorb = F.what >= READ_EINTR && F.what <= CHDIR_EINTR; F.armed = faulty;
  if ( ! configure( p, c, dir, g ) ) { F.armed = false; unshare( sh ); CK( faulty && F.hit, "setup", what + " cannot be set up" ); close_native( g ); for ( int fd : fds() ) { if ( fd > 2 && std::find( before.begin(), before.end(), fd ) == before.end() ) { ::close( fd ); } } clean( r, before, dir, what ); return; }
  kwsysProcess_Execute( p ); r.step(); int s = kwsysProcess_GetState( p );
  if ( s != kwsysProcess_State_Executing )
  {
    F.armed = false; unshare( sh ); CK( s == kwsysProcess_State_Error, "state", what + " is in state " + std::to_string( s ) + " after starting" ); string const es = kwsysProcess_GetErrorString( p ); CK( ! es.empty(), "error-text", what + " fails without a description" ); bool const hit = faulty && ( F.hit || F.what == FORK || F.what == SETSID ) && ! absorb;
    CK( w.startup_error || hit, "cannot-start", what + " does not start: " + es ); if ( w.startup_error && ! hit ) { CK( es == strerror( w.errnum ), "error-text", what + " fails with " + mc::show( es ) ); } else if ( hit ) { CK( es == strerror( call_error[F.what] ) || es == "Out of memory" || w.startup_error || ( c.detach && F.what == FORK ), "error-text", what + " fails with " + mc::show( es ) ); }
    double t = 0.1; char* d; int n; CK( kwsysProcess_WaitForData( p, &d, &n, &t ) == kwsysProcess_Pipe_None && kwsysProcess_WaitForExit( p, &t ) == 1 && kwsysProcess_GetState( p ) == kwsysProcess_State_Error, "after-error", what + ": waiting after a failed start" );
    for ( int i = 0; i < 3; ++i ) { if ( g.pipe_fd[i] >= 0 ) { ::close( g.pipe_fd[i] ); g.pipe_fd[i] = -1; } }
    // the ends of native pipes that the library would have taken over
    if ( c.in == IN_NATIVE || c.out == TO_NATIVE || c.err == TO_NATIVE ) { for ( int fd : fds() ) { if ( fd > 2 && std::find( before.begin(), before.end(), fd ) == before.end() ) { ::close( fd ); } } }
    clean( r, before, dir, what ); return;
  }
  CK( ! w.startup_error, "cannot-start", what + " starts although a program cannot be run" ); char b[4096]; CK( __real_getcwd( b, sizeof b ) && dir == b, "directory", what + " changes the working directory of the caller" );
  kwsysProcess_Execute( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Executing, "state", what + ": starting again while running" ); // documented to do nothing
  collect( r, p, c, g, w.endless, what ); if ( c.kill ) { kwsysProcess_Kill( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Executing, "state", what + ": killing ends the execution before it was waited for" ); }
  CK( kwsysProcess_WaitForExit( p, nullptr ) == 1, "wait", what + ": waiting for the end fails" ); F.armed = false; unshare( sh );
  if ( F.hit && F.what == SELECT_ERROR ) { string const es = kwsysProcess_GetErrorString( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Error && es == strerror( ENOMEM ), "state", what + " ends in state " + std::to_string( kwsysProcess_GetState( p ) ) + " " + es ); close_native( g ); clean( r, before, dir, what ); return; }
  double t = 1; CK( kwsysProcess_WaitForExit( p, &t ) == 1, "wait", what + ": waiting twice" ); if ( F.hit && F.what == SETSID ) { r.fail( "cannot-start", what + " starts outside of its group" ); }
  judge( r, p, c, w, g, dir, started, what ); clean( r, before, dir, what );
}
string fresh( mc::Run& r ) { string const d = r.scratch + "/x"; int x = system( ( "rm -rf '" + d + "' && mkdir -p '" + d + "/w' && chmod 777 '" + d + "' '" + d + "/w'" ).c_str() ); if ( x ) { throw mc::Divergence( "scratch" ); } return d; }
string dir_of( mc::Run& r ) { static string d; if ( d.empty() ) { chmod( r.scratch.c_str(), 0755 ); d = fresh( r ); char b[PATH_MAX]; d = realpath( d.c_str(), b ); } ::unlink( ( d + "/out" ).c_str() ); ::unlink( ( d + "/err" ).c_str() ); ::unlink( ( d + "/w/out" ).c_str() ); ::unlink( ( d + "/w/err" ).c_str() ); ::unlink( ( d + "/shared1" ).c_str() ); ::unlink( ( d + "/shared2" ).c_str() ); data_dir(); return d; }
void run( mc::Run& r, Cfg const& c, Call call = NONE, int at = 0, bool again = false, int slow_fork = 0, int slow_who = 0 )
{
  string const dir = dir_of( r ); string what = describe( c ); if ( call ) { what += string( ", " ) + call_name[call] + " " + std::to_string( at ); } if ( slow_fork ) { what += string( slow_who ? ", slow child of fork " : ", slow parent of fork " ) + std::to_string( slow_fork ); }
  mc::in_child( r, [&]{ setup( dir ); vector< int > const before = fds(); P* p = kwsysProcess_New(); F.what = call; F.at = at; F.slow_fork = slow_fork; F.slow_who = slow_who; execute( r, p, c, dir, before, call != NONE || slow_fork, what ); if ( again ) { F.what = NONE; F.slow_fork = 0; F.hit = false; F.forked.clear(); execute( r, p, c, dir, before, false, what + ", run again" ); } kwsysProcess_Delete( p ); clean( r, before, dir, what + ", deleted" ); }, 25 );
  r.log( what ); r.state( mc::hash_str( what ) );
}
vector< int > stages( mc::Run& r, int n ) { vector< int > v; for ( int i = 0; i < n; ++i ) { v.push_back( r.choose( NKINDS ) ); } return v; }
bool endless( vector< int > const& v ) { for ( int k : v ) { if ( k == SLEEP || k == ASLEEP ) { return true; } } return false; }
void limit( mc::Run& r, Cfg& c, int how ) { (void) r; if ( endless( c.st ) ) { if ( how ) { c.kill = true; } else { c.timeout = 0.03; } } else if ( how ) { c.timeout = 50; } }
}
SCENARIO( k05_pipelines, 3 )
{ // every pipeline of up to three programs; pairs read in every way
  int const n = 1 + r.choose( 3 ); Cfg c; c.st = stages( r, n ); c.merge = r.flip(); if ( n < 3 ) { c.reader = r.choose( 5 ); c.in = r.choose( 2 ); limit( r, c, r.choose( 2 ) ); } else { if ( ! r.thorough() && ( c.merge || endless( { c.st[0], c.st[1] } ) ) ) { return; } c.reader = r.thorough() ? r.choose( 3 ) : 0; limit( r, c, r.thorough() ? r.choose( 2 ) : 0 ); }
  if ( c.kill && c.reader == 3 ) { c.reader = 0; } run( r, c );
}
SCENARIO( k05_redirect, 3 )
{ // every way to connect the streams, alone and in pairs
  Cfg c; int const which = r.choose( r.bound( 6, 10 ) ); static int const sets[10][2] = { { BOTH_B, -1 }, { WRAP, -1 }, { ERR_S, OUT_S }, { BOTH_B, COPY }, { WRAP, ERR_S }, { MISSING, -1 }, { MIXED, WRAP }, { ERR_S, -1 }, { COPY, COPY }, { OUT_S, REFUSED } };
  c.st.push_back( sets[which][0] ); if ( sets[which][1] >= 0 ) { c.st.push_back( sets[which][1] ); } c.in = r.choose( 4 ); c.out = r.choose( 4 ); c.err = r.choose( 4 ); c.merge = r.flip(); c.wd = r.flip(); c.group = r.flip(); c.detach = r.flip();
  if ( c.in == IN_CLOSED ) { for ( int k : c.st ) { if ( k == COPY || k == WRAP ) { return; } } } // cat complains about a closed input
  if ( c.out == TO_NATIVE && c.st.back() != ERR_S && c.st.back() != WRAP && c.st.back() != MISSING ) { return; } if ( c.err == TO_NATIVE ) { for ( int k : c.st ) { if ( k == BOTH_B || k == MIXED ) { return; } } } // nobody would empty the pipe
  run( r, c );
}
SCENARIO( k05_faults, 3 )
{ // one failing or interrupted call at every position
  static vector< Cfg > cfgs; if ( cfgs.empty() ) { Cfg a; a.st = { OUT_S }; cfgs.push_back( a ); Cfg b; b.st = { WRAP, COPY, EXIT3 }; b.in = IN_FILE; b.out = TO_FILE; b.wd = true; b.group = true; cfgs.push_back( b ); Cfg d; d.st = { BOTH_B, COPY }; d.err = TO_FILE; cfgs.push_back( d ); Cfg e; e.st = { OUT_S }; e.detach = true; cfgs.push_back( e ); Cfg f; f.st = { OUT_S, WRAP }; f.in = IN_NATIVE; f.out = TO_NATIVE; f.err = TO_NATIVE; f.group = true; cfgs.push_back( f ); Cfg g; g.st = { OUT_B, MISSING }; cfgs.push_back( g ); Cfg h; h.st = { SLEEP, COPY }; h.kill = true; cfgs.push_back( h ); Cfg i; i.st = { ASLEEP }; i.timeout = 0.03; i.wd = true; cfgs.push_back( i ); Cfg j; j.st = { COPY, OUT_S }; j.in = IN_FILE; j.detach = true; j.group = true; cfgs.push_back( j ); }
  int const at[NCALLS] = { 0, 7, 14, 48, 4, 1, 2, 24, 4, 30, 12, 12, 3, 6 }; Call const call = (Call) ( 1 + r.choose( NCALLS - 1 ) ); Cfg const& c = r.pick( cfgs ); int const n = 1 + r.choose( at[call] ); run( r, c, call, n, true );
}
SCENARIO( k05_orders, 3 )
{ // after every fork either side may run first
  static vector< vector< int > > const sets = { { OUT_S }, { MISSING }, { REFUSED }, { ERR_S, COPY }, { OUT_B, EXIT0 }, { WRAP, WRAP, COPY }, { OUT_S, MISSING }, { COPY, CLOSED, FAULT }, { SLEEP, REFUSED } };
  Cfg c; c.st = r.pick( sets ); c.detach = r.flip(); c.group = r.flip(); c.merge = r.flip(); c.in = r.choose( 2 ); int const who = r.choose( 2 ), n = 1 + r.choose( c.detach ? 2 * (int) c.st.size() : (int) c.st.size() ); run( r, c, NONE, 0, false, n, who );
}
SCENARIO( k05_reuse, 3 )
{ // one object through every sequence of outcomes; every error and exception is described afresh
  int const n = r.bound( 3, 4 ); vector< int > kinds; static int const use[] = { EXIT0, EXIT3, OUT_S, FAULT, KILLED, MISSING, REFUSED, SLEEP }; vector< bool > kill, dirs; for ( int i = 0; i < n; ++i ) { kinds.push_back( use[r.choose( 8 )] ); kill.push_back( kinds.back() == SLEEP && i % 2 ); dirs.push_back( kinds.back() == EXIT3 ); }
  string const dir = dir_of( r ); string told; for ( int k : kinds ) { told += string( kind_name[k] ) + " "; }
  mc::in_child( r, [&]{ setup( dir ); vector< int > const before = fds(); P* p = kwsysProcess_New(); for ( int i = 0; i < n; ++i ) { Cfg c; c.st = { kinds[i] }; c.kill = kill[i]; c.wd = dirs[i]; if ( kinds[i] == SLEEP && ! c.kill ) { c.timeout = 0.02; } F.forked.clear(); execute( r, p, c, dir, before, false, "history " + told + "run " + std::to_string( i ) ); } kwsysProcess_Delete( p ); clean( r, before, dir, "history " + told ); } ); r.state( mc::hash_str( told ) );
}
SCENARIO( k05_signals, 1 )
{ // every signal is described, plain and in a pipeline; children start with default dispositions and nothing but their streams open
  int const sig = 1 + r.choose( 64 ); bool const pipe = r.flip(); static std::set< int > const skip = { SIGCHLD, SIGCONT, SIGSTOP, SIGTSTP, SIGTTIN, SIGTTOU, SIGURG, SIGWINCH, 32, 33 }; if ( skip.count( sig ) ) { return; } string const dir = dir_of( r ), what = "signal " + std::to_string( sig );
  mc::in_child( r, [&]{ setup( dir ); vector< int > const before = fds(); P* p = kwsysProcess_New(); string const s = "kill -" + std::to_string( sig ) + " $$; sleep 0.1; exit 9"; char const* a[] = { "/bin/sh", "-c", s.c_str(), nullptr }; char const* f[] = { "/bin/sh", "-c", "exit 0", nullptr }; if ( pipe ) { kwsysProcess_SetCommand( p, f ); kwsysProcess_AddCommand( p, a ); } else { kwsysProcess_SetCommand( p, a ); }
    kwsysProcess_Execute( p ); kwsysProcess_WaitForExit( p, nullptr ); int const code = kwsysProcess_GetExitCode( p ), ex = kwsysProcess_GetExitException( p ); string const es = kwsysProcess_GetExceptionString( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Exception && WIFSIGNALED( code ) && WTERMSIG( code ) == sig, "exception", what + " is reported in state " + std::to_string( kwsysProcess_GetState( p ) ) + " with code " + std::to_string( code ) );
    int const want = sig == SIGSEGV || sig == SIGBUS ? kwsysProcess_Exception_Fault : sig == SIGFPE ? kwsysProcess_Exception_Numerical : sig == SIGILL ? kwsysProcess_Exception_Illegal : sig == SIGINT ? kwsysProcess_Exception_Interrupt : kwsysProcess_Exception_Other; CK( ex == want, "exception", what + " is classified as " + std::to_string( ex ) ); CK( ! es.empty() && es != "No exception", "exception", what + " is described as " + es ); if ( sig > 33 ) { CK( es == "Signal " + std::to_string( sig ), "exception", what + " is described as " + es ); }
    kwsysProcess_Delete( p ); clean( r, before, dir, what ); } ); r.state( (uint64_t) sig * 2 + pipe );
}
SCENARIO( k05_environment, 2 )
{ // what a child inherits: default signals, the streams only, its directory, its group
  int const n = 1 + r.choose( 3 ), who = r.choose( n ), out = r.choose( 2 ); bool const group = r.flip(), detach = r.flip(), merge = r.flip(), others = r.flip(), wd = r.flip(); string const dir = dir_of( r ), what = "child " + std::to_string( who ) + " of " + std::to_string( n ) + ( group ? " own group" : "" ) + ( detach ? " detached" : "" );
  mc::in_child( r, [&]{ setup( dir ); signal( SIGPIPE, SIG_IGN ); signal( SIGUSR1, SIG_IGN ); signal( SIGHUP, SIG_IGN ); signal( SIGQUIT, SIG_IGN ); vector< int > before = fds(); P* p = kwsysProcess_New(); P* q = nullptr; if ( others ) { q = kwsysProcess_New(); char const* a[] = { "/bin/sleep", "60", nullptr }; kwsysProcess_SetCommand( q, a ); kwsysProcess_Execute( q ); }
    string const f = dir + "/told"; for ( char const* x : { ".f", ".d", ".s", ".p" } ) { ::unlink( ( f + x ).c_str() ); } string const s = "ls /proc/self/fd > " + f + ".f; pwd > " + f + ".d; grep Sig /proc/self/status > " + f + ".s; cat /proc/$$/stat > " + f + ".p; exit 0"; char const* tell[] = { "/bin/sh", "-c", s.c_str(), nullptr }; char const* copy[] = { "/bin/cat", nullptr }; for ( int i = 0; i < n; ++i ) { kwsysProcess_AddCommand( p, i == who ? tell : copy ); }
    kwsysProcess_SetOption( p, kwsysProcess_Option_CreateProcessGroup, group ); kwsysProcess_SetOption( p, kwsysProcess_Option_Detach, detach ); kwsysProcess_SetOption( p, kwsysProcess_Option_MergeOutput, merge ); if ( out ) { kwsysProcess_SetPipeFile( p, kwsysProcess_Pipe_STDOUT, ( dir + "/out" ).c_str() ); } if ( wd ) { kwsysProcess_SetWorkingDirectory( p, "w" ); }
    kwsysProcess_Execute( p ); kwsysProcess_WaitForExit( p, nullptr ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Exited && kwsysProcess_GetExitValue( p ) == 0, "state", what ); if ( detach ) { for ( int k = 0; k < 3000 && slurp( f + ".p" ).find( '\n' ) == string::npos; ++k ) { usleep( 1000 ); } }
    string fd = slurp( f + ".f" ); CK( fd == "0\n1\n2\n3\n", "inherited", what + " has the descriptors " + mc::show( fd ) ); CK( slurp( f + ".d" ) == dir + ( wd ? "/w" : "" ) + "\n", "directory", what + " runs in " + slurp( f + ".d" ) ); std::istringstream st( slurp( f + ".s" ) ); string line; while ( std::getline( st, line ) ) { unsigned long v = 0; char k[32]; if ( sscanf( line.c_str(), "%31[^:]: %lx", k, &v ) == 2 && ( string( k ) == "SigBlk" || string( k ) == "SigIgn" ) ) { CK( ( v & 0x7fffffff ) == 0, "dispositions", what + " has " + line ); } }
    int pid = 0, pp = 0, pg = 0, sid = 0; string ps = slurp( f + ".p" ); CK( sscanf( ps.c_str(), "%d (sh) %*c %d %d %d", &pid, &pp, &pg, &sid ) == 4, "harness", ps ); CK( ( pg == pid && sid == pid ) == group, "group", what + " has group " + std::to_string( pg ) + " session " + std::to_string( sid ) + " pid " + std::to_string( pid ) );
    kwsysProcess_Delete( p ); if ( q ) { kwsysProcess_Kill( q ); kwsysProcess_WaitForExit( q, nullptr ); CK( kwsysProcess_GetState( q ) == kwsysProcess_State_Killed, "state", "the other process" ); kwsysProcess_Delete( q ); } clean( r, before, dir, what ); } );
  r.state( mc::hash_str( what + std::to_string( out * 8 + merge * 4 + others * 2 + wd ) ) );
}
SCENARIO( k05_together, 3 )
{ // several objects running at once, ended in every order and way
  int const n = 1 + r.choose( r.bound( 3, 4 ) ); vector< int > how, order; for ( int i = 0; i < n; ++i ) { how.push_back( r.choose( 5 ) ); } for ( int i = 0; i < n; ++i ) { order.push_back( r.choose( n - i ) ); } bool const many = r.flip(); string const dir = dir_of( r ); string what; for ( int h : how ) { what += std::to_string( h ); } what += " order "; for ( int o : order ) { what += std::to_string( o ); } if ( many ) { what += " among many"; }
  mc::in_child( r, [&]{ setup( dir ); vector< int > const before = fds(); vector< P* > ps, more; if ( many ) { for ( int i = 0; i < 4; ++i ) { P* q = kwsysProcess_New(); char const* a[] = { "/bin/sleep", "60", nullptr }; kwsysProcess_SetCommand( q, a ); kwsysProcess_Execute( q ); more.push_back( q ); } }
    static int const kinds[] = { OUT_B, FAULT, SLEEP, MISSING, EXIT3 }; for ( int i = 0; i < n; ++i ) { P* p = kwsysProcess_New(); set_commands( p, { kinds[how[i]] } ); kwsysProcess_Execute( p ); ps.push_back( p ); CK( kwsysProcess_GetState( p ) == ( how[i] == 3 ? kwsysProcess_State_Error : kwsysProcess_State_Executing ), "state", what ); }
    if ( many ) { kwsysProcess_Kill( more[1] ); kwsysProcess_WaitForExit( more[1], nullptr ); kwsysProcess_Delete( more[1] ); more.erase( more.begin() + 1 ); }
    vector< int > left; for ( int i = 0; i < n; ++i ) { left.push_back( i ); } for ( int o : order ) { int const i = left[o]; left.erase( left.begin() + o ); P* p = ps[i]; string got; if ( how[i] == 2 ) { char* d; int len; kwsysProcess_WaitForData( p, &d, &len, nullptr ); kwsysProcess_Kill( p ); } else { char* d; int len; while ( kwsysProcess_WaitForData( p, &d, &len, nullptr ) == kwsysProcess_Pipe_STDOUT ) { got.append( d, (size_t) len ); } } CK( kwsysProcess_WaitForExit( p, nullptr ) == 1, "wait", what ); int const s = kwsysProcess_GetState( p ); static int const want[] = { kwsysProcess_State_Exited, kwsysProcess_State_Exception, kwsysProcess_State_Killed, kwsysProcess_State_Error, kwsysProcess_State_Exited }; CK( s == want[how[i]], "state", what + ": object " + std::to_string( i ) + " ends in state " + std::to_string( s ) ); if ( how[i] == 0 ) { CK( got == stream( 0, BIG ), "bytes", what ); } if ( how[i] == 4 ) { CK( kwsysProcess_GetExitValue( p ) == 3, "exit-value", what ); } if ( many || ! left.empty() ) { for ( int k : left ) { if ( how[k] != 3 ) { CK( kwsysProcess_GetState( ps[k] ) == kwsysProcess_State_Executing, "state", what + ": another object changes state" ); } } } kwsysProcess_Delete( p ); }
    for ( P* q : more ) { CK( kwsysProcess_GetState( q ) == kwsysProcess_State_Executing, "state", what + ": a sleeping process changes state" ); kwsysProcess_Kill( q ); kwsysProcess_WaitForExit( q, nullptr ); CK( kwsysProcess_GetState( q ) == kwsysProcess_State_Killed, "state", what ); kwsysProcess_Delete( q ); } clean( r, before, dir, what ); } );
  r.state( mc::hash_str( what ) );
}
SCENARIO( k05_control, 2 )
{ // disowning, deleting, interrupting, changing options while running, polling, signals of the parent
  int const op = r.choose( 11 ); bool const merge = r.flip(), pair = r.flip(), group = r.flip(); string const dir = dir_of( r ), what = "control " + std::to_string( op ) + ( merge ? " merged" : "" ) + ( pair ? " pair" : "" ) + ( group ? " group" : "" );
  mc::in_child( r, [&]{ setup( dir ); vector< int > const before = fds(); P* p = kwsysProcess_New(); kwsysProcess_SetOption( p, kwsysProcess_Option_MergeOutput, merge ); kwsysProcess_SetOption( p, kwsysProcess_Option_CreateProcessGroup, group ); vector< int > st; if ( pair ) { st.push_back( OUT_S ); } st.push_back( op == 5 || op >= 8 ? NAP : SLEEP ); bool done = false;
    auto alive = [&]{ int k = 0; DIR* d = opendir( "/proc" ); while ( dirent* e = readdir( d ) ) { int pid = atoi( e->d_name ); if ( pid > 1 && descendant( pid ) ) { char c = 0; std::ifstream f( "/proc/" + string( e->d_name ) + "/stat" ); string s; std::getline( f, s ); size_t q = s.rfind( ')' ); if ( q != string::npos && q + 2 < s.size() ) { c = s[q + 2]; } k += c && c != 'Z' && c != 'X'; } } closedir( d ); return k; };
    switch ( op )
    {
    case 0: case 1: { // disown, delete: a detached child goes on, the object lets go of everything
      kwsysProcess_SetOption( p, kwsysProcess_Option_Detach, 1 ); set_commands( p, st ); kwsysProcess_Execute( p ); char* d; int n; kwsysProcess_WaitForData( p, &d, &n, nullptr ); if ( op == 0 ) { kwsysProcess_Disown( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Disowned, "state", what ); CK( kwsysProcess_WaitForExit( p, nullptr ) == 1 && kwsysProcess_GetState( p ) == kwsysProcess_State_Disowned, "wait", what ); } else { kwsysProcess_Delete( p ); p = nullptr; } CK( alive() > 0, "disowned", what + ": a disowned child does not survive" ); reap_all(); break; }
    case 2: { kwsysProcess_SetOption( p, kwsysProcess_Option_Detach, 1 ); set_commands( p, st ); kwsysProcess_Execute( p ); char* d; int n; kwsysProcess_WaitForData( p, &d, &n, nullptr ); kwsysProcess_Kill( p ); CK( kwsysProcess_WaitForExit( p, nullptr ) == 1 && kwsysProcess_GetState( p ) == kwsysProcess_State_Killed, "state", what ); break; } // killed although detached
    case 3: { set_commands( p, st ); kwsysProcess_Execute( p ); kwsysProcess_Disown( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Executing, "state", what + ": disowning a child that is not detached" ); char* d; int n; kwsysProcess_WaitForData( p, &d, &n, nullptr ); kwsysProcess_Kill( p ); kwsysProcess_WaitForExit( p, nullptr ); break; }
    case 4: { kwsysProcess_SetTimeout( p, 0.03 ); set_commands( p, st ); kwsysProcess_Execute( p ); kwsysProcess_Delete( p ); p = nullptr; break; } // deleting waits for the end
    case 5: { if ( ! group ) { break; } set_commands( p, st ); kwsysProcess_Execute( p ); char* d; int n; double t = 20; kwsysProcess_WaitForData( p, &d, &n, &t ); kwsysProcess_Interrupt( p ); CK( kwsysProcess_WaitForExit( p, nullptr ) == 1, "wait", what ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Exception && kwsysProcess_GetExitException( p ) == kwsysProcess_Exception_Interrupt, "exception", what + ": an interrupted child ends in state " + std::to_string( kwsysProcess_GetState( p ) ) ); break; }
    case 6: { set_commands( p, st ); kwsysProcess_Execute( p ); kwsysProcess_SetOption( p, kwsysProcess_Option_Detach, 1 ); kwsysProcess_SetOption( p, kwsysProcess_Option_MergeOutput, ! merge ); char* d; int n; kwsysProcess_WaitForData( p, &d, &n, nullptr ); kwsysProcess_Kill( p ); kwsysProcess_WaitForExit( p, nullptr ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Killed, "state", what ); kwsysProcess_Delete( p ); p = nullptr; clean( r, before, dir, what ); P* q = kwsysProcess_New(); set_commands( q, { EXIT3 } ); kwsysProcess_Execute( q ); kwsysProcess_WaitForExit( q, nullptr ); CK( kwsysProcess_GetExitValue( q ) == 3, "exit-value", what ); kwsysProcess_Delete( q ); break; } // options changed while running belong to the next execution
    case 7: { for ( double t : { 0.0, -1.0, -0.25, 0.02, 0.001 } ) { set_commands( p, st ); kwsysProcess_Execute( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Executing, "state", what ); string got; double const end = now() + 20; char* d; int n; for ( ;; ) { double left = t; double const at = now(); int id = kwsysProcess_WaitForData( p, &d, &n, &left ); CK( now() - at < 10, "polling", what + ": polling blocks" ); if ( id == kwsysProcess_Pipe_Timeout ) { CK( left == 0, "user-timeout", what ); if ( got.size() == SMALL || now() > end ) { break; } continue; } CK( id == kwsysProcess_Pipe_STDOUT, "data", what + ": pipe " + std::to_string( id ) ); got.append( d, (size_t) n ); } CK( got == stream( pair ? 1 : 0, SMALL ), "bytes", what ); double left = t; CK( kwsysProcess_WaitForExit( p, &left ) == 0 && left == 0, "wait", what ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Executing, "state", what ); kwsysProcess_Kill( p ); kwsysProcess_Kill( p ); CK( kwsysProcess_WaitForData( p, &d, &n, nullptr ) == kwsysProcess_Pipe_None && kwsysProcess_WaitForExit( p, &left ) == 1, "wait", what ); } break; }
    case 8: case 9: { // a signal to the parent ends it by that signal, and its process groups with it
      if ( ! group ) { break; } int q[2]; if ( __real_pipe( q ) ) { break; } pid_t m = __real_fork(); if ( m == 0 ) { ::close( q[0] ); F.owner = getpid(); prctl( PR_SET_CHILD_SUBREAPER, 0, 0, 0, 0 ); set_commands( p, st ); kwsysProcess_Execute( p ); char* d; int n; kwsysProcess_WaitForData( p, &d, &n, nullptr ); if ( write( q[1], "x", 1 ) != 1 ) { _exit( 3 ); } kwsysProcess_WaitForExit( p, nullptr ); _exit( 7 ); } ::close( q[1] ); char ch; ssize_t got = __real_read( q[0], &ch, 1 ); ::close( q[0] ); CK( got == 1, "harness", what ); int const sig = op == 8 ? SIGINT : SIGTERM; __real_kill( m, sig ); int s = 0; while ( __real_waitpid( m, &s, 0 ) < 0 && errno == EINTR ) {} CK( WIFSIGNALED( s ) && WTERMSIG( s ) == sig, "parent-signal", what + ": the parent ends with status " + std::to_string( s ) ); for ( int k = 0; k < 3000 && alive(); ++k ) { while ( __real_waitpid( -1, nullptr, WNOHANG ) > 0 ) {} usleep( 1000 ); } CK( alive() == 0, "running-child", what + ": the group of an interrupted parent goes on" ); break; }
    default: { // without a command, a null object, a verbatim command line, refused settings
      kwsysProcess_Execute( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Error && string( kwsysProcess_GetErrorString( p ) ) == "No command", "state", what ); char const* none[] = { nullptr }; CK( ! kwsysProcess_AddCommand( p, none ) && ! kwsysProcess_AddCommand( p, nullptr ), "setup", what ); CK( kwsysProcess_GetState( nullptr ) == kwsysProcess_State_Error && kwsysProcess_WaitForExit( nullptr, nullptr ) == 1 && kwsysProcess_GetExitValue( nullptr ) == -1, "null", what ); kwsysProcess_Execute( nullptr ); kwsysProcess_Kill( nullptr ); kwsysProcess_Delete( nullptr );
      kwsysProcess_SetOption( p, kwsysProcess_Option_Verbatim, 1 ); string const v = "/bin/sh -c \"cat " + data_dir() + "/o0s; exit 4\" ignored"; char const* a[] = { v.c_str(), "too", nullptr }; char const* blank[] = { "  ", nullptr }; CK( ! kwsysProcess_SetCommand( p, blank ), "setup", what + ": a blank command line" ); CK( kwsysProcess_SetCommand( p, a ) == 1, "setup", what ); kwsysProcess_Execute( p ); string got; char* d; int n; while ( kwsysProcess_WaitForData( p, &d, &n, nullptr ) ) { got.append( d, (size_t) n ); } kwsysProcess_WaitForExit( p, nullptr ); CK( kwsysProcess_GetExitValue( p ) == 4 && got == stream( 0, SMALL ), "verbatim", what + ": a verbatim command line ends with " + std::to_string( kwsysProcess_GetExitValue( p ) ) );
      CK( kwsysProcess_SetPipeFile( p, 77, "x" ) == 0 && kwsysProcess_SetWorkingDirectory( p, ( dir + "/none" ).c_str() ) == 1, "setup", what ); kwsysProcess_Execute( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Error && string( kwsysProcess_GetErrorString( p ) ) == strerror( ENOENT ), "state", what + ": a missing working directory" ); kwsysProcess_SetWorkingDirectory( p, nullptr ); for ( int w = 1; w < 4; ++w ) { kwsysProcess_SetPipeFile( p, w, ( dir + "/none/file" ).c_str() ); kwsysProcess_Execute( p ); CK( kwsysProcess_GetState( p ) == kwsysProcess_State_Error && string( kwsysProcess_GetErrorString( p ) ) == strerror( ENOENT ), "state", what + ": a missing file for stream " + std::to_string( w ) ); clean( r, before, dir, what ); kwsysProcess_SetPipeShared( p, w, 1 ); } }
    }
    (void) done; kwsysProcess_Delete( p ); clean( r, before, dir, what ); } );
  r.state( mc::hash_str( what ) );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
