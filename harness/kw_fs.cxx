// K07: files and directories, for real, in a scratch directory: every small layout, operation, argument form and single fault.
#include "mc.h"
#include "child.h"
#include <kwsys/SystemTools.hxx>
#include <kwsys/Directory.hxx>
#include <kwsys/Glob.hxx>
#include <kwsys/RegularExpression.hxx>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dirent.h>
#include <dlfcn.h>
#include <grp.h>
#include <libgen.h>
using std::string; using std::vector; using std::map; using std::set; using namespace std::string_literals;
typedef kwsys::SystemTools ST;
#define CK( c, key, msg ) do { if ( ! ( c ) ) { r.fail( key, msg ); } if ( r.verbose ) { r.note( msg ); } } while ( 0 )
// ---- system calls of the library under test: counted, failed on demand, refused outside the scratch directory ----
enum Call { NONE, OPENDIR, MKDIR, UNLINK, RMDIR, CHMOD, SYMLINK, UTIME, FOPEN, READ, WRITE, SHORT, CLOSE, NCALLS };
static char const* const call_name[] = { "none", "opendir", "mkdir", "unlink", "rmdir", "chmod", "symlink", "utimensat", "fopen", "read", "write", "short write", "close" };
static int const call_error[] = { 0, EMFILE, ENOSPC, EBUSY, EBUSY, EPERM, ENOSPC, EPERM, EMFILE, EIO, ENOSPC, 0, EIO };
static struct { Call what = NONE; int at = 0, count[NCALLS]; bool armed = false, hit = false; string root, bad; } F;
static bool fault( Call c ) { if ( ! F.armed ) { return false; } if ( ++F.count[c] == F.at && c == F.what ) { F.hit = true; errno = call_error[c]; return true; } return false; }
static bool under( string const& p ) { return p == F.root || p.compare( 0, F.root.size() + 1, F.root + "/" ) == 0; }
static bool allowed( char const* p, bool follow, char const* what )
{ // every change has to stay below the scratch directory
  if ( ! F.armed ) { return true; } char b[PATH_MAX]; string s = p; while ( s.size() > 1 && s.back() == '/' ) { s.pop_back(); }
  if ( follow && realpath( p, b ) ) { if ( under( b ) ) { return true; } F.bad = string( what ) + " of " + b; errno = EPERM; return false; }
  size_t const k = s.rfind( '/' ); string const parent = k == string::npos ? "." : k == 0 ? "/" : s.substr( 0, k ); if ( ! realpath( parent.c_str(), b ) ) { return true; } // fails anyway
  if ( under( b ) ) { return true; } F.bad = string( what ) + " of " + p; errno = EPERM; return false;
}
extern "C" {
DIR* __real_opendir( char const* ); int __real_mkdir( char const*, mode_t ); int __real_unlink( char const* ); int __real_rmdir( char const* ); int __real_chmod( char const*, mode_t ); int __real_symlink( char const*, char const* ); int __real_utimensat( int, char const*, struct timespec const*, int ); int __real_rename( char const*, char const* ); int __real_remove( char const* ); int __real_link( char const*, char const* ); int __real_truncate( char const*, off_t );
DIR* __wrap_opendir( char const* n ) { return fault( OPENDIR ) ? nullptr : __real_opendir( n ); }
int __wrap_mkdir( char const* n, mode_t m ) { if ( fault( MKDIR ) ) { return -1; } struct stat s; if ( ! lstat( n, &s ) ) { errno = EEXIST; return -1; } return allowed( n, false, "creation" ) ? __real_mkdir( n, m ) : -1; }
int __wrap_unlink( char const* n ) { return fault( UNLINK ) || ! allowed( n, false, "removal" ) ? -1 : __real_unlink( n ); }
int __wrap_rmdir( char const* n ) { return fault( RMDIR ) || ! allowed( n, false, "removal" ) ? -1 : __real_rmdir( n ); }
int __wrap_chmod( char const* n, mode_t m ) { return fault( CHMOD ) || ! allowed( n, true, "permission change" ) ? -1 : __real_chmod( n, m ); }
int __wrap_symlink( char const* a, char const* n ) { return fault( SYMLINK ) || ! allowed( n, false, "creation" ) ? -1 : __real_symlink( a, n ); }
int __wrap_utimensat( int fd, char const* n, struct timespec const* t, int f ) { return fault( UTIME ) || ! allowed( n, true, "touching" ) ? -1 : __real_utimensat( fd, n, t, f ); }
int __wrap_rename( char const* a, char const* b ) { return ! allowed( a, false, "renaming" ) || ! allowed( b, false, "renaming" ) ? -1 : __real_rename( a, b ); }
int __wrap_remove( char const* n ) { return fault( UNLINK ) || ! allowed( n, false, "removal" ) ? -1 : __real_remove( n ); }
int __wrap_link( char const* a, char const* b ) { return ! allowed( b, false, "creation" ) ? -1 : __real_link( a, b ); }
int __wrap_truncate( char const* n, off_t l ) { return ! allowed( n, true, "truncation" ) ? -1 : __real_truncate( n, l ); }
// called from inside the C++ library
static FILE* open_file( char const* fn, char const* n, char const* m ) { if ( fault( FOPEN ) || ( strpbrk( m, "wa+" ) && ! allowed( n, true, "opening for writing" ) ) ) { return nullptr; } auto f = (FILE * (*)( char const*, char const* )) dlsym( RTLD_NEXT, fn ); return f( n, m ); }
FILE* fopen( char const* n, char const* m ) { return open_file( "fopen", n, m ); }
FILE* fopen64( char const* n, char const* m ) { return open_file( "fopen64", n, m ); }
ssize_t read( int fd, void* b, size_t n ) { return fault( READ ) ? -1 : syscall( SYS_read, fd, b, n ); }
ssize_t write( int fd, void const* b, size_t n ) { if ( fault( WRITE ) ) { return -1; } if ( fault( SHORT ) && n > 1 ) { n = n / 2; } return syscall( SYS_write, fd, b, n ); }
ssize_t writev( int fd, struct iovec const* v, int n ) { if ( fault( WRITE ) ) { return -1; } if ( fault( SHORT ) ) { return syscall( SYS_writev, fd, v, 1 ); } return syscall( SYS_writev, fd, v, n ); }
int fclose( FILE* f )
{
  static auto const real = (int ( * )( FILE* )) dlsym( RTLD_NEXT, "fclose" ); if ( F.armed && ( fcntl( fileno( f ), F_GETFL ) & O_ACCMODE ) != O_RDONLY && fault( CLOSE ) ) { (void) ! ftruncate( fileno( f ), 0 ); real( f ); errno = EIO; return EOF; } // the data never arrived
  return real( f );
}
}
namespace {
string R, W; // the scratch root and the working directory in it
// ---- snapshots of everything below the root ----
struct Node { char type = 0; int mode = 0; string data; ino_t ino = 0; long mt = 0; bool operator==( Node const& o ) const { return type == o.type && mode == o.mode && data == o.data && ino == o.ino && mt == o.mt; } };
typedef map< string, Node > Snap;
string slurp( string const& n ) { int fd = ::open( n.c_str(), O_RDONLY | O_NOATIME ); if ( fd < 0 ) { throw mc::Divergence( "cannot read " + n ); } string s; char b[16384]; ssize_t k; while ( ( k = syscall( SYS_read, fd, b, sizeof b ) ) > 0 ) { s.append( b, (size_t) k ); } ::close( fd ); return s; }
void put( string const& n, string const& s, int mode = 0644 ) { int fd = ::open( n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); if ( fd < 0 ) { throw mc::Divergence( "cannot write " + n ); } for ( size_t k = 0; k < s.size(); ) { ssize_t w = syscall( SYS_write, fd, s.data() + k, s.size() - k ); if ( w <= 0 ) { throw mc::Divergence( "write" ); } k += (size_t) w; } ::fchmod( fd, (mode_t) mode ); ::close( fd ); }
void dir( string const& n, int mode = 0755 ) { if ( __real_mkdir( n.c_str(), 0700 ) || __real_chmod( n.c_str(), (mode_t) mode ) ) { throw mc::Divergence( "cannot create " + n ); } }
void lnk( string const& to, string const& n ) { if ( __real_symlink( to.c_str(), n.c_str() ) ) { throw mc::Divergence( "cannot link " + n ); } }
vector< string > entries( string const& n ) { vector< string > v; DIR* d = __real_opendir( n.c_str() ); if ( ! d ) { return v; } while ( dirent* e = readdir( d ) ) { if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) ) { v.push_back( e->d_name ); } } closedir( d ); std::sort( v.begin(), v.end() ); return v; }
void snap( string const& n, string const& rel, Snap& s )
{
  struct stat t; if ( lstat( n.c_str(), &t ) ) { return; } Node o; o.mode = t.st_mode & 07777; o.ino = t.st_ino;
  if ( S_ISREG( t.st_mode ) ) { o.type = 'f'; o.mt = t.st_mtim.tv_sec * 1000000000L + t.st_mtim.tv_nsec; bool const locked = ! ( o.mode & 0400 ); if ( locked ) { __real_chmod( n.c_str(), 0600 ); } o.data = slurp( n ); if ( locked ) { __real_chmod( n.c_str(), (mode_t) o.mode ); } }
  else if ( S_ISLNK( t.st_mode ) ) { o.type = 'l'; char b[PATH_MAX]; ssize_t k = readlink( n.c_str(), b, sizeof b ); o.data.assign( b, k < 0 ? 0 : (size_t) k ); }
  else if ( S_ISDIR( t.st_mode ) ) { o.type = 'd'; }
  s[rel] = o; if ( o.type != 'd' ) { return; }
  bool const locked = ( o.mode & 0700 ) != 0700; if ( locked ) { __real_chmod( n.c_str(), 0700 ); } for ( auto const& e : entries( n ) ) { snap( n + "/" + e, rel.empty() ? e : rel + "/" + e, s ); } if ( locked ) { __real_chmod( n.c_str(), (mode_t) o.mode ); }
}
Snap snap() { Snap s; snap( R, "", s ); return s; }
void wipe( string const& n, bool self = true ) { struct stat t; if ( lstat( n.c_str(), &t ) ) { return; } if ( S_ISDIR( t.st_mode ) ) { if ( ( t.st_mode & 0700 ) != 0700 ) { __real_chmod( n.c_str(), 0700 ); } for ( auto const& e : entries( n ) ) { wipe( n + "/" + e ); } if ( self ) { __real_rmdir( n.c_str() ); } } else { __real_unlink( n.c_str() ); } }
string describe( Node const& n ) { if ( ! n.type ) { return "nothing"; } char m[16]; snprintf( m, sizeof m, "%04o", n.mode ); return string( n.type == 'f' ? "file" : n.type == 'd' ? "directory" : "link" ) + " " + m + ( n.type == 'd' ? "" : n.data.size() > 40 ? " of " + std::to_string( n.data.size() ) + " bytes" : " " + mc::show( n.data ) ); }
bool below( string const& p, string const& top ) { return p == top || p.compare( 0, top.size() + 1, top + "/" ) == 0; }
// first difference outside the permitted subtrees ("=" in front: only that name itself)
string changed( Snap const& a, Snap const& b, vector< string > const& permitted = {} )
{
  auto ok = [&]( string const& p ) { for ( auto const& t : permitted ) { if ( t.empty() ) { continue; } if ( t[0] == '=' ? p == t.substr( 1 ) : below( p, t ) ) { return true; } } return false; };
  for ( auto const& n : a ) { auto f = b.find( n.first ); if ( ( f == b.end() || ! ( f->second == n.second ) ) && ! ok( n.first ) ) { return n.first + " was " + describe( n.second ) + " and is " + ( f == b.end() ? "gone" : f->second.type == n.second.type && describe( f->second ) == describe( n.second ) ? "written again" : describe( f->second ) ); } }
  for ( auto const& n : b ) { if ( ! a.count( n.first ) && ! ok( n.first ) ) { return n.first + " appears: " + describe( n.second ); } } return "";
}
bool there( string const& p ) { struct stat s; return ! lstat( p.c_str(), &s ); }
// ---- a process of its own, without privileges, in an empty scratch directory ----
void setup( mc::Run& )
{
  struct rlimit none = { 0, 0 }; setrlimit( RLIMIT_CORE, &none ); umask( 0 ); R = F.root; signal( SIGXFSZ, SIG_IGN );
  if ( getuid() == 0 && ! setgroups( 0, nullptr ) && ! setresgid( 61005, 61005, 61005 ) && setresuid( 61005, 61005, 61005 ) ) { throw mc::Divergence( "privileges" ); }
  umask( 027 ); W = R + "/w"; int n = ::open( "/dev/null", O_RDWR ); if ( ! getenv( "VERIF_SHOW" ) ) { dup2( n, 1 ); } if ( n > 2 ) { ::close( n ); }
}
template < typename T > void run( mc::Run& r, T f, int seconds = 120 )
{
  char const* w = getenv( "VERIF_WORK" ); string base = w ? w : "/tmp"; auto clear = [] { wipe( F.root ); if ( there( F.root ) && ::system( ( "rm -rf " + F.root ).c_str() ) ) { throw mc::Divergence( "rm" ); } }; char b[PATH_MAX]; if ( ! realpath( base.c_str(), b ) ) { throw mc::Divergence( "realpath" ); } base = b; __real_chmod( base.c_str(), 0755 ); F.root = base + "/fs" + std::to_string( getpid() ); clear(); __real_mkdir( F.root.c_str(), 0755 ); (void) ! chown( F.root.c_str(), 61005, 61005 );
  mc::in_child( r, [&] { setup( r ); f(); }, seconds ); clear();
}
struct Arm { Arm( Call c = NONE, int at = 0 ) { memset( F.count, 0, sizeof F.count ); F.what = c; F.at = at; F.hit = false; F.bad.clear(); F.armed = true; } ~Arm() { F.armed = false; } };
// ---- the things a name can stand for ----
string const& big( int v = 0 ) { static string s[2]; if ( s[0].empty() ) { for ( int k = 0; k < 9001; ++k ) { s[0] += (char) ( k * 7 + k / 256 ); } s[1] = s[0]; s[1].back() ^= 1; } return s[v]; }
enum Kind { MISSING, EMPTY, SMALL, OTHER, BIG, BIG2, EDIR, FULL, LFILE, LDIR, LNONE, LLOOP, NOREAD, READONLY, EXEC, DNOREAD, DNOWRITE, HARD, LOUT, NKINDS };
char const* const kind_name[] = { "nothing", "an empty file", "a small file", "another small file", "a big file", "a big file with another end", "an empty directory", "a directory with files", "a link to f0", "a link to d0", "a dangling link", "a link to itself", "an unreadable file", "a read-only file", "an executable file", "an unreadable directory", "a read-only directory", "a hard link to f0", "a link to ../out/dir" };
void make( string const& n, int kind )
{
  string const name = n.substr( n.rfind( '/' ) + 1 );
  switch ( kind )
  {
  case EMPTY: put( n, "" ); break; case SMALL: put( n, "hello", 0640 ); break; case OTHER: put( n, "HELLO", 0604 ); break; case BIG: put( n, big() ); break; case BIG2: put( n, big( 1 ) ); break; case EDIR: dir( n, 0750 ); break; case FULL: dir( n ); put( n + "/a", "in a", 0600 ); put( n + "/x", "x" ); dir( n + "/sub" ); put( n + "/sub/y", "y" ); break;
  case LFILE: lnk( "f0", n ); break; case LDIR: lnk( "d0", n ); break; case LNONE: lnk( "nowhere", n ); break; case LLOOP: lnk( name, n ); break; case NOREAD: put( n, "secret", 0200 ); break; case READONLY: put( n, "fixed", 0444 ); break; case EXEC: put( n, "run", 0751 ); break;
  case DNOREAD: dir( n ); put( n + "/x", "x" ); __real_chmod( n.c_str(), 0300 ); break; case DNOWRITE: dir( n ); put( n + "/x", "x" ); put( n + "/a", "old" ); __real_chmod( n.c_str(), 0555 ); break; case HARD: if ( __real_link( ( ( n.find( '/' ) == string::npos ? string( "." ) : n.substr( 0, n.rfind( '/' ) ) ) + "/f0" ).c_str(), n.c_str() ) ) { throw mc::Divergence( "link" ); } break; case LOUT: lnk( "../out/dir", n ); break;
  default: break;
  }
}
void world() // everything except the slots
{
  wipe( R, false ); dir( W ); dir( R + "/out" ); put( R + "/out/f", "outside" ); dir( R + "/out/dir", 0755 ); put( R + "/out/dir/g", "inside out", 0444 ); dir( R + "/out/dir/h" ); put( W + "/f0", "target" ); dir( W + "/d0" ); put( W + "/d0/x", "in d0" ); if ( ::chdir( W.c_str() ) ) { throw mc::Divergence( "chdir" ); }
}
bool is_dir( string const& p ) { struct stat s; return ! p.empty() && ! ::stat( p.c_str(), &s ) && S_ISDIR( s.st_mode ); }
bool is_link( string const& p ) { struct stat s; return ! lstat( p.c_str(), &s ) && S_ISLNK( s.st_mode ); }
bool can( string const& p, int m ) { return ! ::access( p.c_str(), m ); }
string base( string const& p ) { size_t k = p.rfind( '/' ); return k == string::npos ? p : p.substr( k + 1 ); }
string parent( string const& p ) { size_t k = p.rfind( '/' ); return k == string::npos ? "." : k == 0 ? "/" : p.substr( 0, k ); }
// the name below the root of the directory entry a path stands for (its last component is not followed)
string entry( string p )
{
  while ( p.size() > 1 && p.back() == '/' ) { p.pop_back(); } char b[PATH_MAX]; string d = parent( p ), rest = base( p );
  if ( rest == "." || rest == ".." ) { if ( ! realpath( p.c_str(), b ) ) { return ""; } string s = b; return s == R ? "" : s.substr( R.size() + 1 ); }
  while ( ! realpath( d.c_str(), b ) ) { if ( d == "." || d == "/" ) { return ""; } rest = base( d ) + "/" + rest; d = parent( d ); }
  string s = string( b ) + "/" + rest; if ( s.compare( 0, R.size() + 1, R + "/" ) ) { return ""; } s = s.substr( R.size() + 1 ); string o; for ( size_t k = 0; k < s.size(); ++k ) { if ( s[k] == '/' && k + 1 < s.size() && s[k + 1] == '/' ) { continue; } o += s[k]; } return o;
}
// names of directories that may be created on the way to a path
vector< string > ancestors( string const& p, bool self ) { vector< string > v; for ( size_t k = 1; k <= p.size(); ++k ) { if ( k == p.size() ? self : p[k] == '/' ) { string q = p.substr( 0, k ); if ( ! there( q ) ) { string e = entry( q ); if ( ! e.empty() ) { v.push_back( "=" + e ); } } } } return v; }
bool creatable_dir( string p ) { while ( p.size() > 1 && p.back() == '/' ) { p.pop_back(); } if ( is_dir( p ) ) { return true; } if ( there( p ) || p.empty() ) { return false; } string d = parent( p ); if ( is_dir( d ) ) { return can( d, W_OK | X_OK ); } return d != "." && d != "/" && creatable_dir( d ); }
int stat_mode( string const& p ) { struct stat s; return ::stat( p.c_str(), &s ) ? -1 : (int) ( s.st_mode & 07777 ); }
bool same_file( string const& a, string const& b ) { struct stat s, t; return ! ::stat( a.c_str(), &s ) && ! ::stat( b.c_str(), &t ) && s.st_dev == t.st_dev && s.st_ino == t.st_ino; }
bool regular( string const& p ) { struct stat s; return ! ::stat( p.c_str(), &s ) && S_ISREG( s.st_mode ); }
string content( string const& p ) { struct stat s; if ( ::stat( p.c_str(), &s ) || ! S_ISREG( s.st_mode ) ) { return ""; } bool const locked = ! can( p, R_OK ); if ( locked ) { __real_chmod( p.c_str(), 0600 ); } string c = slurp( p ); if ( locked ) { __real_chmod( p.c_str(), s.st_mode & 07777 ); } return c; }
// ---- copying one file: what has to be true before and after ----
struct Copy
{
  string src, dst, real; bool if_different = false; Snap before; bool src_dir, src_ok, dst_dir, same, equal, replace, expect; string data; int mode; vector< string > fallout;
  Copy( string const& s, string const& d, bool diff ) : src( s ), dst( d ), if_different( diff )
  {
    before = snap(); src_dir = is_dir( s ); src_ok = regular( s ) && can( s, R_OK ); dst_dir = is_dir( d ); same = same_file( s, d ); data = content( s ); mode = stat_mode( s );
    real = dst_dir && ! src_dir ? d + "/" + base( s ) : d; bool const real_same = same_file( s, real ); same = same || real_same;
    equal = regular( s ) && regular( real ) && content( real ) == data && ( data.empty() || ( can( s, R_OK ) && can( real, R_OK ) ) );
    string const p = parent( real ); replace = is_dir( p ) && can( p, W_OK | X_OK ); bool const through = regular( real ) && can( real, W_OK );
    if ( src_dir ) { expect = dst_dir || creatable_dir( d ); }
    else if ( same || ( diff && equal ) ) { expect = true; }
    else { expect = src_ok && ! is_dir( real ) && real.back() != '/' && ( replace || through || ( ! there( real ) && ! is_dir( p ) && creatable_dir( p ) && p != "." ) ) && ( ! dst_dir || can( d, R_OK ) ) && ! ( there( real ) && ! replace && ! through ); }
    fallout = ancestors( real, src_dir ); if ( src_ok || src_dir ) { fallout.push_back( "=" + entry( real ) ); } if ( ( src_dir && dst_dir ) || ( ! replace && there( real ) && ! dst_dir ) ) { char b[PATH_MAX]; if ( realpath( real.c_str(), b ) && string( b ).size() > R.size() ) { fallout.push_back( "=" + string( b ).substr( R.size() + 1 ) ); } }
  }
  void judge( mc::Run& r, bool ok, bool faulted, string const& what )
  {
    Snap after = snap(); CK( F.bad.empty(), "outside", what + ": " + F.bad ); if ( ! faulted ) { CK( ok == expect, "result", what + ( ok ? " reports success, which is impossible" : " reports a failure" ) ); }
    string const c = changed( before, after, fallout ); CK( c.empty(), "untouched", what + ": " + c );
    if ( same || ( if_different && equal && ! src_dir ) ) { string const n = changed( before, after ); CK( n.empty() || ( faulted && ! same ), "needless", what + " of the same content: " + n ); }
    if ( ! ok ) { return; } if ( src_dir ) { CK( is_dir( dst ), "not-made", what + " reports success but there is no directory" ); return; }
    CK( regular( real ), "not-copied", what + " reports success but there is no file" ); CK( content( real ) == data, "content", what + " reports success, but the copy has " + std::to_string( content( real ).size() ) + " bytes that are not those of the source, " + std::to_string( data.size() ) );
    if ( ! same && ! ( if_different && equal ) ) { CK( stat_mode( real ) == mode, "mode", what + ": the permissions of the copy are not those of the source" ); if ( replace ) { CK( ! is_link( real ) || faulted, "through-link", what + " leaves a link" ); } }
  }
};
vector< string > const dst_form = { "b", "b/", "./b", "ABS", "b/n", "b/n/m", "b/a", "../out/dir", "f0", "" };
string dst_path( int form ) { return dst_form[(size_t) form] == "ABS" ? W + "/b" : dst_form[(size_t) form]; }
bool copy( int op, string const& s, string const& d ) { switch ( op ) { case 0: return ST::CopyFileAlways( s, d ); case 1: return ST::CopyFileIfDifferent( s, d ); case 2: return ST::CopyAFile( s, d, true ); default: return ST::CopyAFile( s, d, false ); } }
char const* const copy_name[] = { "CopyFileAlways", "CopyFileIfDifferent", "CopyAFile", "CopyAFile if different" };

SCENARIO( k07_copy, 2 )
{
  int const op = r.choose( 4 ), a = r.choose( NKINDS ), form = r.choose( (int) dst_form.size() + 1 ); r.count( NKINDS - 1 );
  run( r, [&] {
    for ( int b = 0; b < NKINDS; ++b )
    {
      world(); string src = "a"; if ( form == (int) dst_form.size() ) { make( "a", a ); make( "b", b ); src = "./a"; } else { make( "a", a ); make( "b", b ); }
      if ( a == FULL && b == LLOOP ) { src = W + "/a/x"; } else if ( a == FULL && b == SMALL ) { src = "a/"; } string const dst = form == (int) dst_form.size() ? "." : dst_path( form );
      string const what = string( copy_name[op] ) + "(" + mc::show( src ) + ", " + mc::show( dst ) + ") with a being " + kind_name[a] + " and b " + kind_name[b]; r.log( what );
      Copy c( src, dst, op & 1 ); if ( dst.empty() ) { c.expect = false; c.fallout.clear(); } bool ok; { Arm arm; ok = copy( op, src, dst ); } c.judge( r, ok, false, what ); r.step();
    } } );
  r.state( mc::hash_str( std::to_string( op * 1000 + a * 20 + form ) ) );
}
SCENARIO( k07_copy_sizes, 2 )
{ // block boundaries and every kind of byte; comparing finds every single difference
  static vector< size_t > const size = { 0, 1, 2, 255, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000 }; size_t const n = r.pick( size ); int const fill = r.choose( 4 ); int const op = r.choose( 5 );
  string data( n, '\0' ); for ( size_t k = 0; k < n; ++k ) { data[k] = fill == 0 ? '\0' : fill == 1 ? (char) ( k * 131 + k / 256 ) : fill == 2 ? "\r\n\x1a\n"[k & 3] : (char) 0xff; }
  run( r, [&] {
    world(); put( "a", data, 0755 );
    if ( op < 4 ) { Copy c( "a", "n/m/b", op & 1 ); bool ok; { Arm arm; ok = copy( op, "a", "n/m/b" ); } c.judge( r, ok, false, string( copy_name[op] ) + " of " + std::to_string( n ) + " bytes" ); string const f = changed( c.before, snap(), { "w/n" } ); CK( f.empty(), "untouched", f ); bool d; { Arm arm; d = ST::FilesDiffer( "a", "n/m/b" ); } CK( ! d, "differ-copy", "a copy differs from its source" ); return; }
    set< size_t > at; for ( long b : { 0L, 1L, 4095L, 4096L, 4097L, 8191L, 8192L, (long) n / 2, (long) n - 1 } ) { if ( b >= 0 && b < (long) n ) { at.insert( (size_t) b ); } }
    for ( size_t k : at ) { for ( int bit = 0; bit < 8; bit += 7 ) { string o = data; o[k] = (char) ( o[k] ^ ( 1 << bit ) ); put( "b", o ); Snap s = snap(); bool d, e; { Arm arm; d = ST::FilesDiffer( "a", "b" ); e = ST::FilesDiffer( "b", "a" ); } CK( d && e, "differ", "two files of " + std::to_string( n ) + " bytes with a difference at " + std::to_string( k ) + " are taken for equal" ); string f = changed( s, snap() ); CK( f.empty(), "untouched", f ); Copy c( "a", "b", true ); { Arm arm; d = ST::CopyFileIfDifferent( "a", "b" ); } c.judge( r, d, false, "CopyFileIfDifferent with a difference at " + std::to_string( k ) ); r.step(); } }
    for ( long l : { (long) n - 1, (long) n + 1 } ) { if ( l >= 0 ) { string o = data; o.resize( (size_t) l, fill ? 'x' : '\0' ); put( "b", o ); Arm arm; CK( ST::FilesDiffer( "a", "b" ) && ST::FilesDiffer( "b", "a" ), "differ", "files of different sizes are taken for equal" ); } }
    put( "b", data, 0600 ); Arm arm; CK( ! ST::FilesDiffer( "a", "b" ), "same", "equal files differ" ); } );
}
// ---- making directories ----
SCENARIO( k07_make, 2 )
{
  static vector< string > const form = { "a", "a/", "a/n", "a/n/m", "a//n/", "./a/../n", "a/x", "a/x/n", "ABS", "ABS/n/m/", "", "n/a/../m", ".", "..", "../n", "../out/dir/n", "a/sub/y/z", "n n/m'" }; string p = r.pick( form ); int const mode = r.choose( 3 ); r.count( NKINDS - 1 );
  run( r, [&] {
    for ( int a = 0; a < NKINDS; ++a )
    {
      world(); make( "a", a ); string q = p; if ( q.compare( 0, 3, "ABS" ) == 0 ) { q = W + "/a" + q.substr( 3 ); } umask( mode == 0 ? 0 : mode == 1 ? 022 : 077 ); string const what = "MakeDirectory(" + mc::show( q ) + ") with a being " + kind_name[a]; r.log( what );
      Snap const before = snap(); vector< string > may = ancestors( q, true ); bool const possible = creatable_dir( q ) || q == "n/a/../m" || ( q == "./a/../n" && ( ! there( "a" ) || is_dir( "a" ) ) ); if ( q == "n/a/../m" ) { may = { "w/n" }; } if ( q == "./a/../n" ) { may = { "=w/n", "=w/a" }; if ( a == LOUT ) { may.push_back( "=out/n" ); } if ( there( "a" ) ) { may.erase( may.begin() + 1 ); } }
      bool ok; { Arm arm; ok = mode == 1 ? ST::MakeDirectory( q.c_str() ) : ST::MakeDirectory( q ); } Snap after = snap(); CK( F.bad.empty(), "outside", what + ": " + F.bad ); CK( ok == is_dir( q ), "result", what + ( ok ? " reports success but there is no directory" : " reports a failure but there is the directory" ) ); CK( ok == ( possible && ! q.empty() ), "possible", what + ( ok ? " cannot succeed" : " fails" ) );
      string const c = changed( before, after, may ); CK( c.empty(), "untouched", what + ": " + c ); for ( auto const& n : after ) { if ( ! before.count( n.first ) ) { CK( n.second.type == 'd' && n.second.mode == ( 0777 & ~( mode == 0 ? 0 : mode == 1 ? 022 : 077 ) ), "mode", what + " makes " + n.first + ": " + describe( n.second ) ); } } umask( 027 ); r.step();
    }
    if ( p.empty() ) { Arm arm; CK( ! ST::MakeDirectory( (char const*) nullptr ), "null", "MakeDirectory(NULL) succeeds" ); } } );
}
// ---- removing ----
SCENARIO( k07_remove_file, 1 )
{
  static vector< string > const form = { "a", "./a", "ABS", "a/x", "a/", "n/a", "../out/f", "", "d0/../a" }; string const p = r.pick( form ); r.count( NKINDS - 1 );
  run( r, [&] { for ( int a = 0; a < NKINDS; ++a ) {
      world(); make( "a", a ); string const q = p == "ABS" ? W + "/a" : p, what = "RemoveFile(" + mc::show( q ) + ") with a being " + kind_name[a]; Snap before = snap(); struct stat s; bool const slash = ! q.empty() && q.back() == '/'; errno = 0; bool const have = ! lstat( q.c_str(), &s ); bool const missing = ! have && errno == ENOENT; bool const expect = missing || ( have && ! S_ISDIR( s.st_mode ) && ! slash && can( parent( q ), W_OK | X_OK ) );
      string const e = entry( q ); bool ok; { Arm arm; ok = ST::RemoveFile( q ); } Snap after = snap(); CK( F.bad.empty(), "outside", what + ": " + F.bad ); CK( ok == expect || ( slash && is_link( "a" ) ), "result", what + ( ok ? " succeeds" : " fails" ) ); string const c = changed( before, after, { ok ? "=" + e : "" } ); CK( c.empty(), "untouched", what + ": " + c ); if ( ok ) { CK( ! there( q ), "left", what + " reports success but the file is there" ); } r.step(); } } );
}
// what a directory may hold
enum Item { I_NONE, I_FILE, I_READONLY, I_EMPTY, I_DIR, I_LOCKED_DIR, I_BLIND_DIR, I_CLOSED_DIR, I_TO_FILE, I_TO_OUT, I_TO_OUT_FILE, I_TO_SIBLING, I_DANGLING, I_TO_PARENT, I_TO_SELF_DIR, NITEMS };
char const* const item_name[] = { "-", "file", "read-only file", "empty directory", "directory", "read-only directory", "unreadable directory", "unsearchable directory", "link to f0", "link to ../../out/dir", "link to ../../out/f", "link to its sibling", "dangling link", "link to w", "link to the directory itself" };
void item( string const& n, int i, string const& sibling )
{
  switch ( i )
  {
  case I_FILE: put( n, "data of " + base( n ) ); break; case I_READONLY: put( n, "fixed", 0400 ); break; case I_EMPTY: dir( n ); break; case I_DIR: dir( n ); put( n + "/x", "x", 0700 ); dir( n + "/k" ); put( n + "/k/y", big() ); lnk( R + "/out/dir", n + "/k/z" ); break;
  case I_LOCKED_DIR: dir( n ); put( n + "/x", "x" ); dir( n + "/k", 0500 ); __real_chmod( n.c_str(), 0555 ); break; case I_BLIND_DIR: dir( n ); put( n + "/x", "x" ); __real_chmod( n.c_str(), 0300 ); break; case I_CLOSED_DIR: dir( n ); put( n + "/x", "x" ); __real_chmod( n.c_str(), 0600 ); break;
  case I_TO_FILE: lnk( W + "/f0", n ); break; case I_TO_OUT: lnk( R + "/out/dir", n ); break; case I_TO_OUT_FILE: lnk( R + "/out/f", n ); break; case I_TO_SIBLING: lnk( sibling, n ); break; case I_DANGLING: lnk( "nowhere", n ); break; case I_TO_PARENT: lnk( W, n ); break; case I_TO_SELF_DIR: lnk( ".", n ); break;
  default: break;
  }
}
bool removable( string const& d ) { if ( ! can( d, R_OK | X_OK ) ) { struct stat s; ::lstat( d.c_str(), &s ); bool empty = true; int const m = s.st_mode & 07777; __real_chmod( d.c_str(), 0700 ); empty = entries( d ).empty(); __real_chmod( d.c_str(), (mode_t) m ); return empty; } for ( auto const& e : entries( d ) ) { string const p = d + "/" + e; if ( is_dir( p ) && ! is_link( p ) && ! removable( p ) ) { return false; } } return true; }
SCENARIO( k07_remove_directory, 2 )
{
  int const x = r.choose( NITEMS ), y = r.choose( NITEMS ); int const z = r.thorough() ? r.choose( NITEMS ) : ( x + 2 * y ) % NITEMS; static vector< string > const form = { "a", "./a", "ABS", "a/", "a/m", "l", "l/m", "f0", "none", "d0/../a" }; r.count( form.size() * 2 - 1 );
  run( r, [&] { for ( auto const& f : form ) { for ( int locked = 0; locked < 2; ++locked ) {
      world(); put( "b", "sibling" ); dir( "a" ); item( "a/m", x, "n" ); item( "a/n", y, "m" ); item( "a/.o", z, "m" ); lnk( "a", "l" ); if ( locked ) { __real_chmod( "a", 0555 ); __real_chmod( "f0", 0444 ); } string const q = f == "ABS" ? W + "/a" : f, what = "RemoveADirectory(" + mc::show( q ) + ") with a holding " + item_name[x] + ", " + item_name[y] + ", " + item_name[z]; r.log( what );
      Snap before = snap(); bool const real = is_dir( q ) && ! is_link( q ), expect = real && removable( q ) && can( parent( q == "a/" ? "a" : q ), W_OK | X_OK ); string const e = entry( q ); bool ok; { Arm arm; ok = ST::RemoveADirectory( q ); } Snap after = snap(); CK( F.bad.empty(), "outside", what + ": " + F.bad );
      if ( is_link( q ) ) { CK( ! ok, "link", what + " reports success" ); } if ( ! real && ! ok ) { string const c = changed( before, after ); CK( c.empty(), "not-a-directory", what + " fails: " + c ); } string const c = changed( before, after, { real ? e : "=" + e } ); CK( c.empty(), "untouched", what + ": " + c ); if ( real ) { CK( ok == expect, "result", what + ( ok ? " succeeds" : " fails" ) ); } else { CK( ! ok || ! there( q ), "result", what + " reports success" ); }
      if ( ok ) { CK( ! there( q ), "left", what + " reports success but the directory is there" ); } r.step(); } } } );
}
// ---- copying directories ----
// what a copy of the directory has to hold: links followed; false when some part cannot be read or is endless
bool expected( string const& d, string const& rel, map< string, Node >& t, int depth = 0 )
{
  if ( depth > 6 || ! can( d, R_OK | X_OK ) ) { return false; } bool ok = true;
  for ( auto const& e : entries( d ) ) { string const p = d + "/" + e, q = rel + "/" + e; if ( is_dir( p ) ) { t[q].type = 'd'; ok &= expected( p, q, t, depth + 1 ); } else if ( regular( p ) && can( p, R_OK ) ) { t[q].type = 'f'; t[q].data = content( p ); t[q].mode = stat_mode( p ); } else { ok = false; } }
  return ok;
}
SCENARIO( k07_copy_directory, 2 )
{
  int const x = r.choose( NITEMS ), y = r.choose( NITEMS ); bool const always = r.flip(); auto cyclic = []( int i, int o ) { return i == I_TO_PARENT || ( i == I_TO_SELF_DIR && ( o == I_TO_SELF_DIR || o == I_TO_SIBLING ) ); }; if ( cyclic( x, y ) || cyclic( y, x ) ) { return; } // endless by design
  static vector< string > const form = { "n", "n/m/", "ABS", "b", "d0", "a", "a/new", "a/m", "f0", "../out/new", "e", "none", "f", "cf" }; if ( x >= I_TO_PARENT || y >= I_TO_PARENT ) { r.count( 2 ); } else { r.count( form.size() - 1 ); }
  run( r, [&] { for ( auto const& f : form ) {
      bool const endless = x >= I_TO_PARENT || y >= I_TO_PARENT; if ( endless && f != "n" && f != "../out/new" ) { continue; } world(); dir( "a" ); item( "a/m", x, "n" ); item( "a/n", y, "m" ); dir( "b", 0700 ); put( "b/old", "old" ); dir( "cf" ); dir( "cf/q" ); put( "cf/m", "other data" ); lnk( "../f0", "cf/x" ); put( "e", "in the way", 0600 ); string src = "a", dst = f == "ABS" ? W + "/n/m" : f; if ( f == "none" ) { src = "none"; dst = "n"; } else if ( f == "f" ) { src = "f0"; dst = "n"; }
      string const what = "CopyADirectory(" + mc::show( src ) + ", " + mc::show( dst ) + ", " + ( always ? "always" : "if different" ) + ") with a holding " + item_name[x] + ", " + item_name[y]; r.log( what );
      map< string, Node > want; bool expect = is_dir( src ) && expected( src, "", want ); char b[PATH_MAX]; bool const self = same_file( src, dst ), into = dst.compare( 0, 2, "a/" ) == 0; if ( dst == "a/m" && x == I_TO_OUT ) { continue; }
      if ( ! creatable_dir( dst ) ) { expect = false; }
      bool maybe = endless; Snap before = snap(); string e = entry( dst ); if ( is_dir( dst ) ) { if ( realpath( dst.c_str(), b ) ) { e = string( b ).substr( R.size() + 1 ); } for ( auto const& w : want ) { string const p = dst + w.first; if ( there( p ) ? is_dir( p ) != ( w.second.type == 'd' ) || ( is_link( p ) && ! self ) : ! can( parent( p ), W_OK | X_OK ) && there( parent( p ) ) ) { maybe = true; } if ( w.second.type == 'd' && is_dir( p ) && ! can( p, R_OK | W_OK | X_OK ) ) { maybe = true; } } if ( ! can( dst, R_OK | W_OK | X_OK ) ) { maybe = true; } } if ( self || into ) { maybe = true; }
      vector< string > may = ancestors( dst, false ); vector< string > const way = may; if ( creatable_dir( dst ) ) { may.push_back( e ); } bool ok; { Arm arm; ok = ST::CopyADirectory( src, dst, always ); } Snap after = snap(); CK( F.bad.empty(), "outside", what + ": " + F.bad );
      if ( ! maybe ) { CK( ok == expect, "result", what + ( ok ? " succeeds" : " fails" ) ); } if ( ! is_dir( src ) ) { CK( ! ok, "no-source", what + " reports success" ); } if ( into ) { may.push_back( "w/a" ); } string const u = changed( before, after, may ); CK( u.empty(), "untouched", what + ": " + u );
      if ( self && ok ) { string const c = changed( before, after ); CK( c.empty(), "self", what + ": " + c ); }
      if ( ok && ! endless ) { for ( auto const& w : want ) { string const p = dst + w.first; if ( w.second.type == 'd' ) { CK( is_dir( p ), "content", what + " reports success but " + p + " is not a directory" ); } else { CK( regular( p ) && content( p ) == w.second.data, "content", what + " reports success but " + p + " is not a copy" ); if ( ! always || self ) { continue; } CK( stat_mode( p ) == w.second.mode, "mode", what + ": permissions of " + p ); } }
        if ( ! into && ! self ) { for ( auto const& n : after ) { if ( ! below( n.first, e ) || n.first == e ) { continue; } string const q = n.first.substr( e.size() ); if ( want.count( q ) ) { continue; } auto o = before.find( n.first ); CK( o != before.end() && o->second == n.second, "extra", what + " leaves " + n.first + ": " + describe( n.second ) ); } } }
      r.step(); } }, 300 );
}
// ---- asking ----
SCENARIO( k07_ask, 1 )
{
  int const a = r.choose( NKINDS ); static vector< string > const form = { "a", "a/", "./a", "ABS", "a/x", "", "../out/dir", ".", "/" }; r.count( NKINDS - 1 );
  run( r, [&] { for ( int b = 0; b < NKINDS; ++b ) {
      world(); make( "a", a ); make( "b", b ); struct timespec t[2] = { { 1000, 5 }, { 2000 + a % 3, 17 + b % 2 } }; if ( there( "a" ) && a != LLOOP && a != LNONE ) { __real_utimensat( AT_FDCWD, "a", t, 0 ); } t[1].tv_sec = 2001; t[1].tv_nsec = 17; if ( there( "b" ) && b != LLOOP && b != LNONE ) { __real_utimensat( AT_FDCWD, "b", t, 0 ); }
      Snap before = snap(); string const what0 = string( "with a being " ) + kind_name[a] + " and b " + kind_name[b];
      for ( auto const& f : form )
      {
        string const q = f == "ABS" ? W + "/a" : f, what = mc::show( q ) + " " + what0; struct stat s, l; bool const st = ! q.empty() && ! ::stat( q.c_str(), &s ), ls = ! q.empty() && ! lstat( q.c_str(), &l ); Arm arm; bool const slash = q == "a/";
        bool const rd = ! q.empty() && can( q, R_OK ), d = st && S_ISDIR( s.st_mode ); CK( ST::FileExists( q ) == rd && ST::FileExists( q.c_str() ) == rd && ST::FileExists( q, false ) == rd, "FileExists", "FileExists of " + what ); CK( ST::FileExists( q, true ) == ( rd && ! d ) && ST::FileExists( q.c_str(), true ) == ( rd && ! d ), "FileExists", "FileExists as a file of " + what );
        if ( ! slash ) { CK( ST::FileIsDirectory( q ) == d, "FileIsDirectory", "FileIsDirectory of " + what ); } else { CK( ST::FileIsDirectory( q ) == is_dir( "a" ), "FileIsDirectory", "FileIsDirectory of " + what ); }
        CK( ST::FileIsSymlink( q ) == ( ls && S_ISLNK( l.st_mode ) ), "FileIsSymlink", "FileIsSymlink of " + what ); CK( ST::FileLength( q ) == ( st ? (unsigned long) s.st_size : 0 ), "FileLength", "FileLength of " + what ); CK( ST::ModifiedTime( q ) == ( st ? s.st_mtime : 0 ) && ST::CreationTime( q ) == ( st ? s.st_ctime : 0 ), "time", "times of " + what );
        for ( int m = 0; m < 8; ++m ) { CK( ST::TestFileAccess( q, m ) == ( ! q.empty() && can( q, m ) ) && ST::TestFileAccess( q.c_str(), m ) == ( ! q.empty() && can( q, m ) ), "TestFileAccess", "TestFileAccess of " + what ); } mode_t m = 12345; bool const gp = ST::GetPermissions( q, m ); CK( gp == st && m == ( st ? s.st_mode : 12345 ), "GetPermissions", "GetPermissions of " + what ); m = 12345; CK( ST::GetPermissions( q.c_str(), m ) == st && m == ( st ? s.st_mode : 12345 ), "GetPermissions", "GetPermissions of " + what );
        string to = "unset"; bool const rl = ST::ReadSymlink( q, to ); char buf[PATH_MAX]; ssize_t k = q.empty() ? -1 : readlink( q.c_str(), buf, sizeof buf ); CK( rl == ( k >= 0 ) && to == ( k >= 0 ? string( buf, (size_t) k ) : "unset" ), "ReadSymlink", "ReadSymlink of " + what ); r.step();
      }
      Arm arm; CK( ! ST::FileExists( (char const*) nullptr ) && ! ST::FileExists( (char const*) nullptr, true ) && ! ST::TestFileAccess( (char const*) nullptr, 0 ), "null", "NULL" );
      for ( string p : { "a", "b", "f0", "../out/f" } ) { for ( string q : { "a", "b", "./a", "f0", "d0", "" } ) {
          string const what = mc::show( p ) + " and " + mc::show( q ) + " " + what0; struct stat s, t2; bool const both = ! ::stat( p.c_str(), &s ) && ! q.empty() && ! ::stat( q.c_str(), &t2 ); CK( ST::SameFile( p, q ) == same_file( p, q ), "SameFile", "SameFile of " + what ); int res = 7, want = 0; if ( both ) { long long x = s.st_mtim.tv_sec * 1000000000LL + s.st_mtim.tv_nsec, y = t2.st_mtim.tv_sec * 1000000000LL + t2.st_mtim.tv_nsec; want = x < y ? -1 : x > y; } bool const ok = ST::FileTimeCompare( p, q, &res ); CK( ok == both && res == want, "FileTimeCompare", "FileTimeCompare of " + what );
          bool const d = ST::FilesDiffer( p, q ); if ( both && S_ISREG( s.st_mode ) && S_ISREG( t2.st_mode ) ) { bool const seen = ( s.st_size == 0 && t2.st_size == 0 ) || ( can( p, R_OK ) && can( q, R_OK ) ); F.armed = false; bool const want2 = ! seen || content( p ) != content( q ); F.armed = true; CK( d == want2, "FilesDiffer", "FilesDiffer of " + what ); } else if ( ! both || S_ISREG( s.st_mode ) != S_ISREG( t2.st_mode ) ) { CK( d, "FilesDiffer", "FilesDiffer of " + what ); } } }
      F.armed = false; Snap after = snap(); string const c = changed( before, after ); CK( c.empty(), "untouched", "asking " + what0 + ": " + c ); CK( F.bad.empty(), "outside", F.bad ); } } );
}
// ---- single changes: permissions, times, links, working directory ----
SCENARIO( k07_change, 1 )
{
  int const a = r.choose( NKINDS ), what_op = r.choose( 4 ); static vector< string > const form = { "a", "./a", "ABS", "a/x", "", "n/m", "../out/f" }; r.count( form.size() - 1 );
  run( r, [&] { for ( auto const& f : form ) {
      string const q = f == "ABS" ? W + "/a" : f; string const tail = "(" + mc::show( q ) + ") with a being " + string( kind_name[a] ); auto target = [&] { char b[PATH_MAX]; return realpath( q.c_str(), b ) && string( b ).size() > R.size() ? "=" + string( b ).substr( R.size() + 1 ) : string(); };
      if ( what_op == 0 ) { for ( int m : { 0, 0400, 0644, 0755, 0777, 04711, 0100644 } ) { for ( int honor = 0; honor < 2; ++honor ) { for ( int um : { 0, 022, 077 } ) { world(); make( "a", a ); Snap before = snap(); string const t = target(); bool const st = stat_mode( q ) >= 0; umask( (mode_t) um ); bool ok; { Arm arm; ok = m & 1 ? ST::SetPermissions( q.c_str(), (mode_t) m, honor ) : ST::SetPermissions( q, (mode_t) m, honor ); } CK( (int) umask( 027 ) == um, "umask", "SetPermissions changes the file creation mask" ); Snap after = snap(); CK( ok == st, "result", "SetPermissions" + tail + ( ok ? " succeeds" : " fails" ) ); int const want = ( m & 07777 ) & ~( honor ? um : 0 ); string const c = changed( before, after, { t, a == HARD && t == "=w/a" ? "=w/f0" : "" } ); CK( c.empty(), "untouched", "SetPermissions" + tail + ": " + c ); if ( ok ) { Node n = before[t.substr( 1 )]; n.mode = want; CK( after[t.substr( 1 )] == n, "mode", "SetPermissions" + tail + ": " + describe( after[t.substr( 1 )] ) ); } CK( F.bad.empty(), "outside", F.bad ); r.step(); } } } }
      if ( what_op == 1 ) { for ( int create = 0; create < 2; ++create ) { world(); make( "a", a ); time_t const ahead = time( nullptr ) + 3600; bool const st = stat_mode( q ) >= 0; struct timespec old[2] = { { ahead, 5 }, { 2000, 7 } }; if ( st ) { __real_utimensat( AT_FDCWD, q.c_str(), old, 0 ); } Snap before = snap(); string const t = target(), what = string( "Touch" ) + ( create ? " or create" : "" ) + tail; string e = a == LNONE && ( q == "a" || q == "./a" || q == W + "/a" ) ? "w/nowhere" : entry( q ); bool const loop = a == LLOOP && f != "n/m" && f != "../out/f"; bool const makeable = ! st && ! q.empty() && ! loop && is_dir( parent( R + "/" + e ) ) && is_dir( parent( q ) ) && can( parent( R + "/" + e ), W_OK | X_OK ); struct timespec now; clock_gettime( CLOCK_REALTIME_COARSE, &now ); bool ok; { Arm arm; ok = ST::Touch( q, create ); } Snap after = snap(); CK( F.bad.empty(), "outside", F.bad );
          if ( st ) { struct stat s; ::stat( q.c_str(), &s ); CK( ok, "result", what + " fails" ); CK( s.st_mtim.tv_sec >= now.tv_sec && s.st_atim.tv_sec == ahead && s.st_atim.tv_nsec == 5, "time", what + " reports success but the times are not as they should be" ); if ( before[t.substr( 1 )].type == 'f' ) { after[t.substr( 1 )].mt = before[t.substr( 1 )].mt; for ( auto& n : after ) { if ( n.second.ino == before[t.substr( 1 )].ino ) { n.second.mt = before[n.first].mt; } } } string const c = changed( before, after ); CK( c.empty(), "untouched", what + ": " + c ); }
          else if ( ! create ) { string const c = changed( before, after ); CK( c.empty(), "untouched", what + ": " + c ); }
          else { CK( ok == makeable, "result", what + ( ok ? " succeeds" : " fails" ) ); string const c = changed( before, after, { ok ? "=" + e : "" } ); CK( c.empty(), "untouched", what + ": " + c ); if ( ok ) { CK( after.count( e ) && after[e].type == 'f' && after[e].data.empty(), "created", what + " creates " + describe( after[e] ) ); } } r.step(); } }
      if ( what_op == 2 ) { for ( string to : { "a", "nowhere", "../out/dir", "/", "", "x y" } ) { world(); make( "a", a ); Snap before = snap(); bool const possible = ! to.empty() && ! q.empty() && ! there( q ) && is_dir( parent( q ) ) && can( parent( q ), W_OK | X_OK ); string const e = entry( q ); bool ok; { Arm arm; ok = ST::CreateSymlink( to, q ); } Snap after = snap(); CK( ok == possible, "result", "CreateSymlink" + tail + ( ok ? " succeeds" : " fails" ) ); string const c = changed( before, after, { ok ? "=" + e : "" } ); CK( c.empty(), "untouched", "CreateSymlink" + tail + ": " + c ); if ( ok ) { CK( after[e].type == 'l' && after[e].data == to, "link", "CreateSymlink" + tail + " makes " + describe( after[e] ) ); string back; CK( ST::ReadSymlink( q, back ) && back == to, "read-back", "ReadSymlink" + tail + " gives " + back ); } r.step(); } }
      if ( what_op == 3 ) { world(); make( "a", a ); Snap before = snap(); char b[PATH_MAX], old[PATH_MAX]; bool const possible = is_dir( q ) && can( q, X_OK ); string want = W; if ( possible && realpath( q.c_str(), b ) ) { want = b; } if ( ! getcwd( old, sizeof old ) ) { throw mc::Divergence( "getcwd" ); } int ok; string cwd, raw; { Arm arm; ok = ST::ChangeDirectory( q ); cwd = ST::GetCurrentWorkingDirectory(); raw = ST::GetCurrentWorkingDirectory( false ); } if ( ! getcwd( b, sizeof b ) ) { throw mc::Divergence( "getcwd" ); } CK( ( ok == 0 ) == possible && want == b && raw == b && cwd == b, "directory", "ChangeDirectory" + tail + " returns " + std::to_string( ok ) + " and leads to " + b + ", reported " + cwd + ", " + raw ); if ( ::chdir( W.c_str() ) ) { throw mc::Divergence( "chdir" ); } string const c = changed( before, snap() ); CK( c.empty(), "untouched", c ); r.step(); } } } );
}
// ---- kinds of files ----
SCENARIO( k07_type, 2 )
{
  int const n = r.choose( r.bound( 6, 8 ) ), tail = r.choose( 3 ); static string const alpha = "a\n\t\r \x7e\x7f\x1f\x80\x00\xff"s; static double const limit[] = { 0, 0.05, 0.25, 0.5, 1, -0.1 };
  int const d0 = n ? r.choose( 11 ) : 0, inner = n >= 3 ? 121 : n == 2 ? 11 : 1; r.count( (uint64_t) inner - 1 );
  run( r, [&] { world(); for ( int in = 0; in < inner; ++in ) { string s; if ( n > 0 ) { s += alpha[(size_t) d0]; } if ( n > 1 ) { s += alpha[(size_t) in % 11]; } if ( n > 2 ) { s += alpha[(size_t) in / 11]; } for ( int k = 3; k < n; ++k ) { s += alpha[(size_t) ( k * 3 + d0 ) % 11]; } if ( tail ) { s += string( tail == 1 ? 17 : 300, 'x' ); }
    __real_unlink( "a" ); __real_unlink( "b" ); put( "a", s ); put( "b", s, 0200 ); for ( double p : limit ) { for ( unsigned long len : { 0ul, 1ul, 2ul, 4ul, 20ul, 256ul, 1000ul } ) {
      string const t = s.substr( 0, len ); size_t bin = 0; for ( unsigned char c : t ) { if ( ! ( ( c >= 0x20 && c <= 0x7e ) || c == '\n' || c == '\r' || c == '\t' ) ) { ++bin; } } ST::FileTypeEnum want = p < 0 || t.empty() ? ST::FileTypeUnknown : (double) bin / (double) t.size() > p ? ST::FileTypeBinary : ST::FileTypeText; Arm arm; ST::FileTypeEnum got = ST::DetectFileType( "a", len, p ); CK( got == want, "type", "DetectFileType of " + mc::show( s ) + ", " + std::to_string( len ) + " bytes, " + std::to_string( p ) + ": " + std::to_string( got ) + " instead of " + std::to_string( want ) ); r.step(); } }
    Arm arm; if ( s.size() >= 1 && ! n ) { CK( ST::DetectFileType( "a" ) == ST::FileTypeText, "default", "plain text is not detected" ); } CK( ST::DetectFileType( nullptr ) == ST::FileTypeUnknown && ST::DetectFileType( "d0" ) == ST::FileTypeUnknown && ST::DetectFileType( "none" ) == ST::FileTypeUnknown && ( geteuid() == 0 || ST::DetectFileType( "b" ) == ST::FileTypeUnknown ), "unknown", "the type of something that cannot be read" ); } } );
}
// ---- listings ----
void same_entries( mc::Run& r, kwsys::Directory& d, string const& p, set< string > const* w )
{
  vector< string > got; for ( unsigned long k = 0; k < d.GetNumberOfFiles(); ++k ) { char const* f = d.GetFile( k ); CK( f, "null", "no name for entry " + std::to_string( k ) ); got.push_back( f ); } CK( ! d.GetFile( d.GetNumberOfFiles() ) && ! d.GetFile( (unsigned long) -1 ), "range", "a name for an entry that does not exist" );
  std::sort( got.begin(), got.end() ); vector< string > want; if ( w ) { want.assign( w->begin(), w->end() ); } std::sort( want.begin(), want.end() ); CK( got == want, "entries", "the listing of " + mc::show( p ) + " has " + std::to_string( got.size() ) + " entries, not the " + std::to_string( want.size() ) + " that are there" ); CK( d.GetPath() == ( w ? p : string() ), "path", "GetPath is " + mc::show( d.GetPath() ) + " after loading " + mc::show( p ) );
}
SCENARIO( k07_list, 2 )
{
  static vector< string > const name = { "a", ".hidden", "s p", "new\nline", "\xc3\xa4\xff", string( 255, 'n' ), "-r", "*" }; int const subset = r.choose( 256 ), a = r.choose( 2 );
  run( r, [&] {
    world(); dir( "l" ); set< string > want = { ".", ".." }; for ( size_t k = 0; k < name.size(); ++k ) { if ( subset >> k & 1 ) { if ( ( k + (size_t) a ) % 3 == 0 ) { dir( "l/" + name[k] ); } else if ( ( k + (size_t) a ) % 3 == 1 ) { put( "l/" + name[k], "x" ); } else { lnk( "nowhere", "l/" + name[k] ); } want.insert( name[k] ); } } if ( subset == 255 ) { for ( int k = 0; k < 700; ++k ) { put( "l/file" + std::to_string( k ), "" ); want.insert( "file" + std::to_string( k ) ); } } lnk( "l", "ll" ); dir( "locked", 0300 );
    kwsys::Directory d; auto look = [&]( string const& p, set< string > const* w ) { bool ok; { Arm arm; ok = d.Load( p ); } CK( ok == ( w != nullptr ), "load", "Load(" + mc::show( p ) + ") returns " + std::to_string( ok ) ); same_entries( r, d, p, w ); unsigned long n; { Arm arm; n = kwsys::Directory::GetNumberOfFilesInDirectory( p ); } CK( n == ( w ? w->size() : 0 ), "count", "GetNumberOfFilesInDirectory(" + mc::show( p ) + ") is " + std::to_string( n ) ); r.step(); };
    set< string > const in_d0 = { ".", "..", "x" }; CK( d.GetNumberOfFiles() == 0 && ! d.GetFile( 0 ) && string( d.GetPath() ).empty(), "fresh", "a fresh directory object holds something" );
    look( "l", &want ); look( "l/", &want ); look( "nothing", nullptr ); look( W + "/ll", &want ); look( "d0", &in_d0 ); look( "f0", nullptr ); look( "", nullptr ); look( "./l/../l", &want ); if ( geteuid() ) { look( "locked", nullptr ); } look( "d0", &in_d0 ); d.Clear(); CK( d.GetNumberOfFiles() == 0 && ! d.GetFile( 0 ) && string( d.GetPath() ).empty(), "clear", "Clear leaves something" ); } );
}
}

// ---- patterns ----
namespace {
// one component of a glob pattern: its meaning, position by position
struct Pattern
{
  struct Part { int kind; set< unsigned char > c; bool negated; }; // 0 one of a set, 1 any one, 2 any number
  vector< Part > part; bool valid = true;
  explicit Pattern( string const& p )
  {
    for ( size_t i = 0; i < p.size(); ++i )
    {
      Part a; a.negated = false; a.kind = 0; if ( p[i] == '*' ) { a.kind = 2; } else if ( p[i] == '?' ) { a.kind = 1; }
      else if ( p[i] == '[' )
      {
        size_t k = i + 1; bool const neg = k < p.size() && ( p[k] == '!' || p[k] == '^' ); if ( neg ) { ++k; } size_t const first = k; if ( k < p.size() && p[k] == ']' ) { ++k; } while ( k < p.size() && p[k] != ']' ) { ++k; }
        if ( k >= p.size() ) { a.c.insert( '[' ); } else { a.negated = neg; string const in = p.substr( first, k - first ); for ( size_t j = 0; j < in.size(); ++j ) { if ( in[j] == '-' && j > 0 && j + 1 < in.size() ) { unsigned char lo = (unsigned char) in[j - 1], hi = (unsigned char) in[j + 1]; if ( lo > hi ) { valid = false; } for ( int c = lo; c <= hi; ++c ) { a.c.insert( (unsigned char) c ); } ++j; } else { a.c.insert( (unsigned char) in[j] ); } } i = k; }
      }
      else { a.c.insert( (unsigned char) p[i] ); }
      part.push_back( a );
    }
  }
  bool match( string const& s, size_t i = 0, size_t k = 0 ) const
  {
    if ( ! valid ) { return false; } if ( i == part.size() ) { return k == s.size(); } Part const& p = part[i]; if ( p.kind == 2 ) { for ( size_t e = k; ; ++e ) { if ( match( s, i + 1, e ) ) { return true; } if ( e == s.size() || s[e] == '/' ) { return false; } } }
    if ( k == s.size() || ( p.kind == 1 && s[k] == '/' ) ) { return false; } if ( p.kind == 0 && ( p.c.count( (unsigned char) s[k] ) == 1 ) == p.negated ) { return false; } return match( s, i + 1, k + 1 );
  }
};
}
SCENARIO( k07_pattern, 3 )
{ // all patterns over the special characters against all names
  static string const alpha = "abc*?[]!-^.$("; int const n = r.choose( r.bound( 6, 7 ) ); string p; for ( int k = 0; k < n; ++k ) { p += alpha[(size_t) r.choose( n > 4 ? 9 : (int) alpha.size() )]; }
  static vector< string > names; if ( names.empty() ) { string const c = "abcd-]![*/.^"; names.push_back( "" ); for ( char x : c ) { names.push_back( string( 1, x ) ); for ( char y : c ) { names.push_back( string( 1, x ) + y ); for ( char z : string( "ab-]" ) ) { names.push_back( string( 1, x ) + y + z ); } } } names.push_back( "abcabcab" ); names.push_back( "a$(b" ); names.push_back( "[ab" ); names.push_back( "\xff" ); names.push_back( "a\nb" ); }
  size_t dashes = (size_t) std::count( p.begin(), p.end(), '-' ); if ( dashes > 1 && p.find( '[' ) != string::npos ) { return; } // several ranges in one bracket: see K02
  static int const muted = [] { int n = ::open( "/dev/null", O_WRONLY ); if ( ! getenv( "VERIF_SHOW" ) ) { dup2( n, 1 ); } return n; }(); (void) muted;
  string const re = kwsys::Glob::PatternToRegex( p ); kwsys::RegularExpression e; bool const ok = e.compile( re.c_str() ); Pattern m( p ); if ( ! m.valid || ! ok ) { CK( m.valid == ok, "valid", "pattern " + mc::show( p ) + ( ok ? " is accepted" : " is rejected" ) + " as " + mc::show( re ) ); return; }
  for ( auto const& s : names ) { bool const got = e.find( s.c_str() ), want = m.match( s ); CK( got == want, "match", "pattern " + mc::show( p ) + ", which becomes " + mc::show( re ) + ( got ? ", matches " : ", does not match " ) + mc::show( s ) ); } r.count( names.size() - 1 );
  string const part = kwsys::Glob::PatternToRegex( p, false ), again = kwsys::Glob::PatternToRegex( p, true, true ); CK( "^" + part + "$" == re && again == re, "forms", "the forms of the expression of " + mc::show( p ) + " differ" ); r.state( mc::hash_str( re ) );
}
// ---- glob expansion ----
namespace {
struct Flags { bool recurse, through, dirs, rdirs; };
struct Expand
{
  Flags f; vector< Pattern > comp; vector< string > out; unsigned followed = 0; int depth = 0;
  void rec( string const& d ) { if ( ++depth > 30 ) { throw mc::Divergence( "cycle in the model" ); } for ( auto const& e : entries( d ) ) { string const p = d + "/" + e; bool const l = is_link( p ); if ( is_dir( p ) && ( ! l || f.through ) ) { if ( l ) { ++followed; } if ( f.rdirs ) { out.push_back( p ); } rec( p ); } else if ( comp.back().match( e ) ) { out.push_back( p ); } } --depth; }
  void walk( size_t i, string const& d ) { if ( i >= comp.size() ) { return; } bool const last = i + 1 == comp.size(); if ( last && f.recurse ) { rec( d ); return; } for ( auto const& e : entries( d ) ) { string const p = d + "/" + e; bool const isd = is_dir( p ); if ( ( ! last && ! isd ) || ( last && isd && ! f.dirs ) || ! comp[i].match( e ) ) { continue; } if ( last ) { out.push_back( p ); } else { walk( i + 1, p ); } } }
};
string squeeze( string const& s ) { string o; for ( char c : s ) { if ( c == '/' && ! o.empty() && o.back() == '/' ) { continue; } o += c; } return o; }
vector< string > expand( string const& pattern, Flags f, unsigned& followed )
{
  string e = squeeze( pattern[0] == '/' ? pattern : W + "/" + pattern ); size_t const meta = std::min( e.find_first_of( "*?[" ), e.size() ); size_t slash = 0; for ( size_t k = 1; k < meta; ++k ) { if ( e[k] == '/' ) { slash = k; } } Expand x; x.f = f; string c; for ( char ch : e.substr( slash ) + "/" ) { if ( ch == '/' ) { if ( ! c.empty() ) { x.comp.push_back( Pattern( c ) ); } c.clear(); } else { c += ch; } } x.walk( 0, e.substr( 0, slash ) ); std::sort( x.out.begin(), x.out.end() ); followed = x.followed; return x.out;
}
string relative( string const& from, string const& to ) { vector< string > a, b; auto cut = []( string const& s, vector< string >& v ) { string c; for ( char ch : s + "/" ) { if ( ch == '/' ) { if ( c == ".." && ! v.empty() ) { v.pop_back(); } else if ( ! c.empty() && c != "." ) { v.push_back( c ); } c.clear(); } else { c += ch; } } }; cut( from, a ); cut( to, b ); size_t k = 0; while ( k < a.size() && k < b.size() && a[k] == b[k] ) { ++k; } string o; for ( size_t i = k; i < a.size(); ++i ) { o += "../"; } for ( size_t i = k; i < b.size(); ++i ) { o += b[i] + ( i + 1 < b.size() ? "/" : "" ); } return o; }
string join( vector< string > const& v ) { string s; for ( auto const& x : v ) { s += x + " "; } return s; }
void forest( bool links ) { world(); for ( char const* n : { "a.txt", "b.txt", "ab", ".h", "s p.txt", "a[1]" } ) { put( n, n ); } dir( "d" ); put( "d/a.txt", "" ); put( "d/c", "" ); dir( "d/e" ); put( "d/e/a.txt", "" ); dir( "d/e/z" ); dir( "dd" ); put( "dd/c", "" ); dir( "locked" ); put( "locked/a.txt", "" ); __real_chmod( "locked", 0300 ); if ( links ) { lnk( "d", "ld" ); lnk( "a.txt", "lf" ); lnk( "nowhere", "dang" ); lnk( "../../out/dir", "d/e/lo" ); lnk( "../d/e", "dd/le" ); } }
void quiet_compare( mc::Run& r, kwsys::Glob& g, string const& p, Flags f, string const& rel, bool exact_count, unsigned& base_count )
{
  unsigned followed; vector< string > want = expand( p, f, followed ); string const what = "FindFiles(" + mc::show( p ) + ( f.recurse ? f.through ? ", recursive" : ", recursive not through links" : "" ) + ( f.dirs ? "" : ", no directories" ) + ( f.rdirs ? ", recursive directories" : "" ) + ( rel.empty() ? "" : ", relative to " + rel ) + ")"; r.log( what );
  g.SetRecurse( f.recurse ); g.SetRecurseThroughSymlinks( f.through ); g.SetListDirs( f.dirs ); g.SetRecurseListDirs( f.rdirs ); g.SetRelative( rel.empty() ? nullptr : rel.c_str() ); kwsys::Glob::GlobMessages m; bool ok; { Arm arm; ok = g.FindFiles( p, &m ); } CK( ok && m.empty(), "result", what + " fails or complains" ); vector< string > got = g.GetFiles(); for ( auto& s : got ) { s = squeeze( s ); } if ( ! rel.empty() ) { for ( auto& s : want ) { s = relative( rel, s ); } } std::sort( got.begin(), got.end() ); std::sort( want.begin(), want.end() ); CK( got == want, "files", what + " finds " + join( got ) + "instead of " + join( want ) );
  base_count += followed; if ( exact_count ) { CK( g.GetFollowedSymlinkCount() == base_count, "followed", what + " reports " + std::to_string( g.GetFollowedSymlinkCount() ) + " followed links instead of " + std::to_string( base_count ) ); } CK( F.bad.empty(), "outside", F.bad ); r.step();
}
}
SCENARIO( k07_glob, 2 )
{
  static vector< string > const part = { "*", "a*", "?b", "[ab].txt", "*.txt", "d", "d*", "e", "l*", "..", "[!a]*", "", "z", "*[*", "nothing", "." }; int const n = 1 + r.choose( 3 ), lead = r.choose( 4 ); if ( n == 3 && lead == 2 && ! r.thorough() ) { return; } bool const links = r.flip(); string p = lead == 0 ? "" : lead == 1 ? "ABS/" : lead == 2 ? "./" : "d/../"; string const first = r.pick( part ); 
  run( r, [&] {
    forest( links ); Snap const before = snap(); size_t const total = n == 1 ? 1 : n == 2 ? 16 : 256, stride = n == 3 && ! r.thorough() ? 3 : 1; kwsys::Glob used; unsigned used_count = 0;
    for ( size_t k = 0; k < total; k += stride ) { string q = p + first; if ( n > 1 ) { q += "/" + part[k % 16]; } if ( n > 2 ) { q += "/" + part[k / 16]; } if ( q.compare( 0, 4, "ABS/" ) == 0 ) { q = W + "/" + q.substr( 4 ); } for ( int f = 0; f < 16; ++f ) { Flags fl = { ( f & 1 ) != 0, ( f & 2 ) != 0, ( f & 4 ) != 0, ( f & 8 ) != 0 }; if ( q.find( "..", lead == 3 ? 4 : 0 ) != q.rfind( ".." ) || ( q[0] == '/' && q.compare( 0, W.size(), W ) ) ) { continue; } kwsys::Glob g; unsigned c = 0; quiet_compare( r, g, q, fl, "", true, c ); if ( k % 5 == (size_t) f % 5 ) { quiet_compare( r, used, q, fl, f & 4 ? W : f & 8 ? W + "/d" : "", false, used_count ); } } }
    string const c = changed( before, snap() ); CK( c.empty(), "untouched", c ); CK( ! used.GetRelative() || string( used.GetRelative() ) == W || string( used.GetRelative() ) == W + "/d", "relative", "GetRelative" ); } , 300 );
}
SCENARIO( k07_glob_cycles, 2 )
{ // up to three links to any directory in a tree of four directories: everything is found, nothing endless
  static vector< string > const at = { "d", "d/e", "dd", "." }, to = { "d", "d/e", "dd", "." }; int const n = 1 + r.choose( 3 ); vector< int > l; for ( int k = 0; k < std::min( n, 2 ); ++k ) { l.push_back( r.choose( 16 ) ); } int const inner = n == 3 ? 16 : 1; l.resize( (size_t) n ); r.count( 4 * (uint64_t) inner - 1 );
  run( r, [&] { for ( int f = 0; f < 4 * inner; ++f ) { if ( n == 3 ) { l[2] = f / 4; }
      wipe( R, false ); dir( W ); if ( ::chdir( W.c_str() ) ) { throw mc::Divergence( "chdir" ); } dir( "d" ); dir( "d/e" ); dir( "dd" ); for ( auto const& d : at ) { put( d + "/f" + std::to_string( &d - &at[0] ), "" ); put( d + "/g", "" ); } string what = "links"; for ( size_t k = 0; k < l.size(); ++k ) { string const name = at[(size_t) l[k] / 4] + "/l" + std::to_string( k ); lnk( W + "/" + to[(size_t) l[k] % 4], name ); what += " " + name + " -> " + to[(size_t) l[k] % 4]; }
      bool const through = f & 1, rdirs = f & 2; kwsys::Glob g; g.RecurseOn(); g.SetRecurseThroughSymlinks( through ); g.SetRecurseListDirs( rdirs ); kwsys::Glob::GlobMessages m; bool ok; { Arm arm; ok = g.FindFiles( "f*", &m ); } CK( ok, "result", what + ": FindFiles fails" ); r.log( what );
      set< string > got, names, want; for ( auto const& s : g.GetFiles() ) { CK( names.insert( squeeze( s ) ).second, "twice", what + ": " + s + " is listed twice" ); char b[PATH_MAX]; CK( realpath( s.c_str(), b ), "missing", what + ": " + s + " does not exist" ); if ( is_dir( s ) ) { CK( rdirs, "directory", what + ": the directory " + s + " is listed" ); continue; } CK( base( s )[0] == 'f', "match", what + ": " + s + " does not match" ); got.insert( b ); CK( s.size() < 400, "endless", what + ": " + s ); }
      for ( auto const& d : at ) { char b[PATH_MAX]; if ( realpath( ( d + "/f" + std::to_string( &d - &at[0] ) ).c_str(), b ) ) { want.insert( b ); } } CK( got == want, "complete", what + ": " + std::to_string( got.size() ) + " of " + std::to_string( want.size() ) + " files found" );
      // exactly the paths that follow no link out of a directory that is already being searched through a link
      set< string > model; bool cyc = false; vector< string > on; std::function< void( string const& ) > rec = [&]( string const& d ) { char b[PATH_MAX]; if ( ! realpath( d.c_str(), b ) ) { return; } string const here = b; for ( auto const& e : entries( d ) ) { string const p = d + "/" + e; if ( is_dir( p ) && ( through || ! is_link( p ) ) ) { bool const lk = is_link( p ); if ( lk && std::find( on.begin(), on.end(), here ) != on.end() ) { cyc = true; continue; } if ( rdirs ) { model.insert( p ); } if ( lk ) { on.push_back( here ); } rec( p ); if ( lk ) { on.pop_back(); } } else if ( e[0] == 'f' ) { model.insert( p ); } } }; rec( W );
      CK( names == model, "paths", what + ": " + std::to_string( names.size() ) + " paths instead of " + std::to_string( model.size() ) ); for ( auto const& x : m ) { CK( x.type == kwsys::Glob::cyclicRecursion, "message", what + ": " + x.content ); } CK( cyc == ! m.empty(), "reported", what + ( cyc ? ": the cycle is not reported" : ": a cycle is reported" ) ); r.step(); } } );
}
// ---- a single failing call ----
SCENARIO( k07_faults, 2 )
{
  static vector< string > const ops = { "copy", "copy into", "copy over", "copy onto itself", "copy if different", "copy a directory", "copy a directory if different", "copy an empty directory", "make", "remove a file", "remove a directory", "touch", "create", "link", "permissions", "compare", "list", "glob" }; int const op = r.choose( (int) ops.size() ), call = 1 + r.choose( NCALLS - 1 ), layout = r.choose( 4 ); int const limit = 60;
  run( r, [&] { for ( int at = 1; at <= limit; ++at ) {
      world(); string const data = layout == 0 ? string( "short" ) : layout == 1 ? big() : layout == 2 ? string( 4096, 'p' ) : string( 70000, 'q' ); put( "a", data, 0640 ); dir( "t" ); put( "t/x", data ); dir( "t/k" ); put( "t/k/y", data, 0755 ); lnk( "../../out/dir", "t/k/l" ); dir( "t/z" ); dir( "b", 0700 ); if ( layout & 1 ) { put( "b/a", "old" ); dir( "u" ); put( "u/x", "other" ); put( "c", "over", 0444 ); } string const what = "\"" + ops[(size_t) op] + "\" with layout " + std::to_string( layout ) + " when " + call_name[call] + " number " + std::to_string( at ) + " fails"; r.log( what );
      Snap before = snap(); bool ok = true; string src = "a", dst; bool diff = false; bool hit = false; auto done = [&] { hit = F.hit; };
      if ( op <= 4 ) { dst = op == 0 ? "n/b" : op == 1 ? "b" : op == 2 ? "c" : op == 3 ? "." : "b/a"; diff = op == 4; Copy c( src, dst, diff ); { Arm arm( (Call) call, at ); ok = copy( diff ? 1 : 0, src, dst ); done(); } c.judge( r, ok, hit, what ); }
      else if ( op <= 7 ) { src = op == 7 ? "t/z" : "t"; map< string, Node > want; expected( src, "", want ); { Arm arm( (Call) call, at ); ok = ST::CopyADirectory( src, "u", op != 6 ); done(); } string const c = changed( before, snap(), { "w/u" } ); CK( c.empty(), "untouched", what + ": " + c ); if ( ok ) { CK( is_dir( "u" ), "not-made", what + " reports success but there is no directory" ); for ( auto const& w : want ) { string const p = "u" + w.first; CK( w.second.type == 'd' ? is_dir( p ) : regular( p ) && content( p ) == w.second.data && ( op == 6 || stat_mode( p ) == w.second.mode ), "content", what + " reports success but " + p + " is not a copy" ); } } }
      else if ( op == 8 ) { { Arm arm( (Call) call, at ); ok = ST::MakeDirectory( "n/m/o" ); done(); } CK( ok == is_dir( "n/m/o" ), "result", what + ": the result is not true" ); string const c = changed( before, snap(), { "w/n" } ); CK( c.empty(), "untouched", what + ": " + c ); }
      else if ( op == 9 ) { { Arm arm( (Call) call, at ); ok = ST::RemoveFile( "a" ); done(); } CK( ok == ! there( "a" ), "result", what + ": the result is not true" ); string const c = changed( before, snap(), { ok ? "=w/a" : "" } ); CK( c.empty(), "untouched", what + ": " + c ); }
      else if ( op == 10 ) { { Arm arm( (Call) call, at ); ok = ST::RemoveADirectory( "t" ); done(); } CK( ok == ! there( "t" ), "result", what + ": the result is not true" ); string const c = changed( before, snap(), { "w/t" } ); CK( c.empty(), "untouched", what + ": " + c ); }
      else if ( op == 11 ) { struct timespec old[2] = { { 1000, 5 }, { 2000, 7 } }; __real_utimensat( AT_FDCWD, "a", old, 0 ); before = snap(); { Arm arm( (Call) call, at ); ok = ST::Touch( "a", true ); done(); } struct stat s; ::stat( "a", &s ); CK( ok == ( s.st_mtim.tv_sec != 2000 ), "result", what + ": the result is not true" ); }
      else if ( op == 12 ) { { Arm arm( (Call) call, at ); ok = ST::Touch( "n", true ); done(); } CK( ok == there( "n" ) || call == CLOSE, "result", what + ": the result is not true" ); }
      else if ( op == 13 ) { { Arm arm( (Call) call, at ); ok = ST::CreateSymlink( "a", "n" ); done(); } CK( ok == there( "n" ), "result", what + ": the result is not true" ); }
      else if ( op == 14 ) { { Arm arm( (Call) call, at ); ok = ST::SetPermissions( "a", 0711 ); done(); } CK( ok == ( stat_mode( "a" ) == 0711 ), "result", what + ": the result is not true" ); }
      else if ( op == 15 ) { { Arm arm( (Call) call, at ); ok = ST::FilesDiffer( "a", layout & 1 ? "b/a" : "t/x" ); done(); } CK( ok || ! ( layout & 1 ), "result", what + ": files that differ are taken for equal" ); }
      else if ( op == 16 ) { kwsys::Directory d; { Arm arm( (Call) call, at ); ok = d.Load( "t" ); done(); } CK( ( ok ? 5u : 0u ) == d.GetNumberOfFiles(), "result", what + ": Load returns " + std::to_string( ok ) + " with " + std::to_string( d.GetNumberOfFiles() ) + " entries" ); }
      else { kwsys::Glob g; { Arm arm( (Call) call, at ); g.RecurseOn(); g.FindFiles( "t/*" ); done(); } for ( auto const& s : g.GetFiles() ) { CK( there( s ), "missing", what + ": " + s + " is listed" ); } }
      CK( F.bad.empty(), "outside", what + ": " + F.bad ); if ( op == 15 || op == 16 || op == 17 || ! ok ) { if ( op >= 15 || ( op >= 8 && op != 8 && op != 10 ) ) { string const c = changed( before, snap() ); CK( c.empty() || op == 12, "untouched", what + ": " + c ); } } r.step(); if ( ! hit ) { break; } } }, 300 );
  r.outcome( ops[(size_t) op] + " / " + call_name[call] );
}
SCENARIO( k07_disk_full, 2 )
{ // a limit on the size of files, at every boundary
  static vector< long > const size = { 1, 4096, 9001, 20000 }; long const n = r.pick( size ); int const op = r.choose( 4 ), form = r.choose( 4 ); static char const* const dst[] = { "b", "n/b", "t", "." };
  run( r, [&] { string data( (size_t) n, '\0' ); for ( long k = 0; k < n; ++k ) { data[(size_t) k] = (char) ( k * 7 ); } for ( long lim : { 0L, 1L, 2L, 4095L, 4096L, 4097L, 8191L, 8192L, 8193L, n - 1, n, n + 1 } ) { world(); put( "a", data ); dir( "t" ); put( "t/a", "old" ); Copy c( "a", dst[form], op & 1 ); bool ok; { struct rlimit l = { (rlim_t) lim, RLIM_INFINITY }; setrlimit( RLIMIT_FSIZE, &l ); { Arm arm; ok = copy( op, "a", dst[form] ); } l.rlim_cur = RLIM_INFINITY; setrlimit( RLIMIT_FSIZE, &l ); } string const what = string( copy_name[op] ) + " of " + std::to_string( n ) + " bytes to " + dst[form] + " where only " + std::to_string( lim ) + " fit"; CK( ok == ( lim >= n || form == 3 ), "result", what + ( ok ? " succeeds" : " fails" ) ); c.judge( r, ok, ! ok, what ); CK( content( "a" ) == data, "source-lost", what + " destroys the source" ); r.step(); } } );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
