// K09: system information against the files and calls it is drawn from (served by this harness).
#include "mc.h"
#include "child.h"
#include <kwsys/SystemInformation.hxx>
#include <ifaddrs.h>
#include <iostream>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/resource.h>
#include <sys/utsname.h>
using std::string; using std::vector; using std::map;
typedef kwsys::SystemInformation SI;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
#define EQ( got, want, key, what ) do { auto const g_ = ( got ); auto const w_ = ( want ); if ( ! ( g_ == w_ ) || r.verbose ) { std::ostringstream o_; o_ << what << ": " << g_ << " instead of " << w_; CK( g_ == w_, key, o_.str() ); } } while ( 0 )
namespace {
struct World
{
  map< string, string > file; long fail = -1, chunk = 0; int open = 0, opened = 0; // fail: reading fails at this byte; chunk: bytes per read
  bool uname_ok = true; utsname un;
  struct { bool ok; unsigned long long cur; } lim[16];
  int load_n = 1; double load = 0;
  bool host_ok = true, ifs_ok = true; string host; struct If { int fam; int err; string name; }; vector< If > ifs; int lists = 0, asked = 0;
  bool on = false;
} W;
void reset() { W = World(); memset( &W.un, 0, sizeof W.un ); for ( auto& l : W.lim ) { l.ok = true; l.cur = ~0ULL; } strcpy( W.un.sysname, "Linux" ); strcpy( W.un.nodename, "box" ); strcpy( W.un.release, "5.10.0" ); strcpy( W.un.version, "#1" ); strcpy( W.un.machine, "x86_64" ); W.host = "box"; W.on = true; }
struct Cookie { string d; size_t p; };
ssize_t rd( void* c, char* b, size_t n ) { Cookie& k = *(Cookie*) c; if ( W.fail >= 0 && (long) k.p >= W.fail ) { errno = EIO; return -1; } size_t m = std::min( n, k.d.size() - k.p ); if ( W.chunk ) { m = std::min( m, (size_t) W.chunk ); } if ( W.fail >= 0 ) { m = std::min( m, (size_t) W.fail - k.p ); } memcpy( b, k.d.data() + k.p, m ); k.p += m; return (ssize_t) m; }
int cl( void* c ) { delete (Cookie*) c; --W.open; return 0; }
}
extern "C" {
FILE* __real_fopen( char const*, char const* ); FILE* __real_fopen64( char const*, char const* );
static FILE* serve( char const* p ) { auto i = W.file.find( p ); if ( i == W.file.end() ) { errno = ENOENT; return 0; } cookie_io_functions_t f = { rd, 0, 0, cl }; ++W.open; ++W.opened; return fopencookie( new Cookie{ i->second, 0 }, "r", f ); }
FILE* __wrap_fopen( char const* p, char const* m ) { return W.on && ! strncmp( p, "/proc/", 6 ) ? serve( p ) : __real_fopen( p, m ); }
FILE* __wrap_fopen64( char const* p, char const* m ) { return W.on && ! strncmp( p, "/proc/", 6 ) ? serve( p ) : __real_fopen64( p, m ); }
int __real_uname( utsname* ); int __wrap_uname( utsname* u ) { if ( ! W.on ) { return __real_uname( u ); } if ( ! W.uname_ok ) { errno = EFAULT; return -1; } *u = W.un; return 0; }
int __real_getrlimit( int w, struct rlimit* l ); int __real_getrlimit64( int w, struct rlimit64* l );
int __wrap_getrlimit( int w, struct rlimit* l ) { if ( ! W.on ) { return __real_getrlimit( w, l ); } if ( ! W.lim[w].ok ) { errno = EINVAL; return -1; } l->rlim_cur = l->rlim_max = W.lim[w].cur; return 0; }
int __wrap_getrlimit64( int w, struct rlimit64* l ) { if ( ! W.on ) { return __real_getrlimit64( w, l ); } if ( ! W.lim[w].ok ) { errno = EINVAL; return -1; } l->rlim_cur = l->rlim_max = W.lim[w].cur; return 0; }
int __real_getloadavg( double* d, int n ); int __wrap_getloadavg( double* d, int n ) { if ( ! W.on ) { return __real_getloadavg( d, n ); } for ( int i = 0; i < n && i < W.load_n; ++i ) { d[i] = W.load + 7 * i; } return W.load_n; }
int __real_gethostname( char* b, size_t n ); int __wrap_gethostname( char* b, size_t n ) { if ( ! W.on ) { return __real_gethostname( b, n ); } if ( ! W.host_ok ) { errno = EFAULT; return -1; } snprintf( b, n, "%s", W.host.c_str() ); return 0; }
int __wrap___gethostname_chk( char* b, size_t n, size_t ) { return __wrap_gethostname( b, n ); }
int __real_getifaddrs( ifaddrs** ); int __wrap_getifaddrs( ifaddrs** o ) { if ( ! W.on ) { return __real_getifaddrs( o ); } if ( ! W.ifs_ok ) { errno = ENOMEM; return -1; } ifaddrs* l = 0; for ( size_t i = W.ifs.size(); i-- > 0; ) { ifaddrs* a = (ifaddrs*) calloc( 1, sizeof( ifaddrs ) ); if ( W.ifs[i].fam ) { size_t n = W.ifs[i].fam == AF_INET6 ? sizeof( sockaddr_in6 ) : sizeof( sockaddr_in ); a->ifa_addr = (sockaddr*) calloc( 1, n ); a->ifa_addr->sa_family = (unsigned short) W.ifs[i].fam; ( (sockaddr_in*) a->ifa_addr )->sin_port = (unsigned short) i; } a->ifa_next = l; l = a; } *o = l; ++W.lists; return 0; }
void __real_freeifaddrs( ifaddrs* ); void __wrap_freeifaddrs( ifaddrs* l ) { if ( ! W.on ) { __real_freeifaddrs( l ); return; } --W.lists; while ( l ) { ifaddrs* n = l->ifa_next; free( l->ifa_addr ); free( l ); l = n; } }
int __real_getnameinfo( sockaddr const*, socklen_t, char*, socklen_t, char*, socklen_t, int );
int __wrap_getnameinfo( sockaddr const* a, socklen_t n, char* h, socklen_t hn, char* s, socklen_t sn, int f ) { if ( ! W.on ) { return __real_getnameinfo( a, n, h, hn, s, sn, f ); } ++W.asked; if ( n != ( a->sa_family == AF_INET6 ? sizeof( sockaddr_in6 ) : sizeof( sockaddr_in ) ) ) { return EAI_FAMILY; } auto& i = W.ifs.at( ( (sockaddr_in const*) a )->sin_port ); if ( i.err ) { return EAI_NONAME; } snprintf( h, hn, "%s", i.name.c_str() ); return 0; }
}
namespace {
std::ostringstream quiet;
struct Mute { std::streambuf* o; Mute() : o( std::cout.rdbuf( quiet.rdbuf() ) ) {} ~Mute() { std::cout.rdbuf( o ); quiet.str( "" ); } };
string num( unsigned long long v ) { return std::to_string( v ); }
void closed( mc::Run& r ) { CK( W.open == 0, "descriptor", num( W.open ) + " of " + num( W.opened ) + " opened files are left open" ); r.step(); }
char const* const mkeys[] = { "MemTotal", "MemFree", "Buffers", "Cached", "SwapTotal", "SwapFree" };
string line( string const& k, unsigned long long v ) { char b[100]; snprintf( b, sizeof b, "%s:%*llu kB\n", k.c_str(), std::max( 1, 15 - (int) k.size() ), v ); return b; }
string distract( int d ) { return d == 0 ? "" : d == 1 ? line( "SwapCached", 777777 ) + line( "MemAvailable", 888888 ) + line( "CommitLimit", 999999 ) : string( "HugePages_Free:        0\nDirectMap4k:      123456 kB\nMemory:\n\n" ) + line( "Mem", 5 ) + line( "CmaTotal", 88888 ) + line( "CmaFree", 77777 ); }
void memory( mc::Run& r, unsigned long long const* want, string const& w ) { SI s; { Mute m; s.RunMemoryCheck(); } EQ( s.GetTotalPhysicalMemory(), want[0], "memory", w + ": total physical memory in MiB" ); EQ( s.GetAvailablePhysicalMemory(), want[1], "memory", w + ": available physical memory in MiB" ); EQ( s.GetTotalVirtualMemory(), want[2], "memory", w + ": swap in MiB" ); EQ( s.GetAvailableVirtualMemory(), want[3], "memory", w + ": free swap in MiB" ); closed( r ); }
void meminfo( mc::Run& r, vector< int > const& order, int missing, int d, unsigned long long const* v, string const& release )
{
  reset(); snprintf( W.un.release, sizeof W.un.release, "%s", release.c_str() ); string f; if ( d == 1 ) { f += distract( 1 ); } for ( size_t i = 0; i < order.size(); ++i ) { if ( order[i] != missing ) { f += line( mkeys[order[i]], v[order[i]] ); } if ( i == 2 && d == 2 ) { f += distract( 2 ); } } if ( d == 2 ) { f += distract( 1 ); }
  W.file["/proc/meminfo"] = f; string w = "release " + release + ", " + mc::show( f ); bool all = missing < 0; unsigned long long want[4] = { all ? v[0] / 1024 : 0, all ? ( v[1] + v[2] + v[3] ) / 1024 : 0, all ? v[4] / 1024 : 0, all ? v[5] / 1024 : 0 }; memory( r, want, w );
  SI s; EQ( s.GetHostMemoryTotal(), missing == 0 ? -1LL : (long long) v[0], "host-memory", w + ": memory of the host in KiB" ); EQ( s.GetHostMemoryAvailable( 0 ), missing == 0 ? -1LL : (long long) v[0], "host-memory", w + ": available memory of the host in KiB" ); long long used = s.GetHostMemoryUsed(); if ( missing == 0 || missing == 1 ) { CK( used < 0, "host-memory", w + ": used memory is " + std::to_string( used ) ); } else { EQ( used, (long long) v[0] - (long long) v[1], "host-memory", w + ": used memory in KiB" ); } closed( r );
}
}
SCENARIO( meminfo_layout, 2 )
{
  vector< int > order, left = { 0, 1, 2, 3, 4, 5 }; while ( ! left.empty() ) { int i = r.choose( (int) left.size() ); order.push_back( left[i] ); left.erase( left.begin() + i ); } int missing = r.choose( 7 ) - 1, d = r.choose( 3 ); static unsigned long long const v[6] = { 16318480, 1234567, 70001, 2223334, 8388604, 4194303 }; meminfo( r, order, missing, d, v, "5.10.0" );
}
SCENARIO( meminfo_values, 2 )
{
  static unsigned long long const vs[] = { 0, 1023, 1024, 16318480, 68719476736ULL }; unsigned long long v[6]; for ( auto& x : v ) { x = vs[r.choose( r.bound( 4, 5 ) )]; } static char const* const rel[] = { "2.6.32", "6.1.0-18-amd64" }; meminfo( r, vector< int >{ 0, 1, 2, 3, 4, 5 }, -1, 1, v, rel[r.choose( 2 )] );
}
SCENARIO( meminfo_release, 2 )
{
  static char const* const rel[] = { "2.6.0", "2.6.39.4", "3.0.1", "3.10.0-1160.el7.x86_64", "4.4.0", "4.19.0-rc1+", "5.0.0", "5.15.0-91-generic", "6.0", "6.12", "7.1.0", "9.9.9", "10.0.0", "10.2-rc3", "12.5.1", "2.10.3" }; static unsigned long long const v[6] = { 16318480, 1234567, 70001, 2223334, 8388604, 4194303 }; string const re = rel[r.choose( 16 )]; int missing = r.choose( 7 ) - 1; meminfo( r, vector< int >{ 0, 1, 2, 3, 4, 5 }, missing, r.choose( 3 ), v, re );
}
// the table of kernels before 2.6, cut anywhere
SCENARIO( meminfo_table, 2 )
{
  reset(); static char const* const rel[] = { "2.4.20-8", "2.2.16", "2.0.36" }; string const re = rel[r.choose( 3 )]; snprintf( W.un.release, sizeof W.un.release, "%s", re.c_str() ); static unsigned long long const vs[] = { 0, 1048575, 1048576, 525078528ULL, 3221225472ULL }; unsigned long long total = vs[r.choose( 5 )], free = vs[r.choose( 5 )], buf = vs[r.choose( 5 )], cached = vs[r.choose( 5 )], st = vs[r.choose( 5 )], sf = vs[r.choose( 3 )]; if ( r.choose( 2 ) && ( total != vs[3] || free != vs[1] || buf != vs[2] || st != vs[4] ) ) { return; }
  string f = "        total:    used:    free:  shared: buffers:  cached:\nMem:  " + num( total ) + " 4444444444 " + num( free ) + " 5555555 " + num( buf ) + " " + num( cached ) + "\nSwap: " + num( st ) + " 6666666666 " + num( sf ) + "\n"; bool whole = true; if ( total == vs[3] && free == vs[1] && buf == vs[2] && st == vs[4] && r.choose( 2 ) ) { size_t words = f.find( "Swap:" ) + 5; size_t at = (size_t) r.choose( (int) words + 1 ); f = f.substr( 0, at ); whole = false; } else { f += "MemTotal:   512772 kB\nMemFree:  7 kB\n"; }
  W.file["/proc/meminfo"] = f; unsigned long long want[4] = { whole ? total >> 20 : 0, whole ? ( free + buf + cached ) >> 20 : 0, whole ? st >> 20 : 0, whole ? sf >> 20 : 0 }; memory( r, want, "release " + re + ", " + mc::show( f ) );
}
// reading fails at every byte, the files are missing, the kernel cannot be asked
SCENARIO( reading_fails, 1 )
{
  reset(); int const which = r.choose( 4 ); static long const ch[] = { 0, 1, 7 }; W.chunk = ch[r.choose( 3 )]; static unsigned long long const v[6] = { 16318480, 1234567, 70001, 2223334, 8388604, 4194303 }; string mem; for ( int i = 0; i < 6; ++i ) { mem += line( mkeys[i], v[i] ); } string cpu = "processor\t: 0\nvendor_id\t: GenuineIntel\ncpu family\t: 6\nmodel\t\t: 42\nmodel name\t: Some CPU\nstepping\t: 7\ncpu MHz\t\t: 1600.000\nphysical id\t: 0\ncpu cores\t: 1\n\n", stat = "Name:\tx\nVmPeak:\t 99 kB\nVmRSS:\t 4711 kB\n";
  if ( which == 3 ) { bool const un = r.flip(), file = r.flip(); W.uname_ok = un; if ( file ) { W.file["/proc/meminfo"] = mem; } bool const ok = un && file; unsigned long long want[4] = { ok ? v[0] / 1024 : 0, ok ? ( v[1] + v[2] + v[3] ) / 1024 : 0, ok ? v[4] / 1024 : 0, ok ? v[5] / 1024 : 0 }; memory( r, want, string( un ? "" : "uname fails, " ) + ( file ? "meminfo there" : "no meminfo" ) ); SI s; EQ( s.GetHostMemoryTotal(), file ? 16318480LL : -1LL, "host-memory", "memory of the host" ); CK( file == ( s.GetHostMemoryUsed() >= 0 ), "host-memory", "used memory without meminfo" ); EQ( s.GetProcMemoryUsed(), -1LL, "process-memory", "no status file" ); { Mute m; s.RunCPUCheck(); } EQ( s.GetNumberOfLogicalCPU(), 0U, "cpu-count", "no cpuinfo" ); closed( r ); return; }
  string const& f = which == 0 ? mem : which == 1 ? cpu : stat; W.file[which == 0 ? "/proc/meminfo" : which == 1 ? "/proc/cpuinfo" : "/proc/self/status"] = f; W.fail = r.choose( (int) f.size() + 2 ) - 1; string w = "reading fails at byte " + std::to_string( W.fail );
  mc::in_child( r, [&] { SI s; Mute m; if ( which == 0 ) { s.RunMemoryCheck(); size_t const t = s.GetTotalPhysicalMemory(); CK( t == 0 || t == v[0] / 1024, "memory", w + ": " + num( t ) + " MiB" ); if ( W.fail < 0 ) { EQ( t, v[0] / 1024, "memory", "total" ); } long long const h = s.GetHostMemoryTotal(); if ( W.fail < 0 ) { EQ( h, 16318480LL, "host-memory", w ); } else { EQ( h, -1LL, "host-memory", w ); } } else if ( which == 1 ) { s.RunCPUCheck(); unsigned const n = s.GetNumberOfLogicalCPU(); if ( W.fail < 0 ) { EQ( n, 1U, "cpu-count", "logical CPUs" ); EQ( s.GetModelID(), string( "42" ), "cpu-keys", "model" ); } CK( n <= 1, "cpu-count", w + ": " + num( n ) ); } else { long long const u = s.GetProcMemoryUsed(); if ( W.fail < 0 ) { EQ( u, 4711LL, "process-memory", w ); } else { EQ( u, -1LL, "process-memory", w ); } } closed( r ); }, 20 );
}
// the smallest of everything that limits a process
SCENARIO( limits, 2 )
{
  reset(); static char const* const env[] = { 0, "", "0", "-5", "junk", "1000", "999999999999", "2000kB", "16318480" }; static unsigned long long const lim[] = { ~0ULL, 0, 1023, 512000, 1024ULL * 1500, 1ULL << 45 }; bool const total = r.choose( 3 ) != 2; long long const mt = 16318480; W.file["/proc/meminfo"] = total ? line( "MemTotal", mt ) : string( "x\n" ); char const* h = env[r.choose( 9 )], * p = env[r.choose( 9 )]; int const names = r.choose( 4 ); int const d = r.choose( 7 ), a = r.choose( 7 ); if ( ! total && ( d > 1 || a > 1 ) ) { return; }
  h ? setenv( "VV_HOST", h, 1 ) : unsetenv( "VV_HOST" ); p ? setenv( "VV_PROC", p, 1 ) : unsetenv( "VV_PROC" ); W.lim[RLIMIT_DATA].ok = d != 6; W.lim[RLIMIT_AS].ok = a != 6; W.lim[RLIMIT_DATA].cur = d == 6 ? 77 : lim[d]; W.lim[RLIMIT_AS].cur = a == 6 ? 77 : lim[a]; W.lim[RLIMIT_RSS].cur = W.lim[RLIMIT_STACK].cur = 3000;
  auto val = [] ( char const* e ) { return e ? atoll( e ) : 0LL; }; char const* hn = names & 1 ? "VV_HOST" : 0, * pn = names & 2 ? "VV_PROC" : 0; long long const T = total ? mt : -1; long long host = T; if ( hn && val( h ) > 0 ) { host = std::min( host, val( h ) ); } long long proc = host; if ( pn && val( p ) > 0 ) { proc = std::min( proc, val( p ) ); } if ( d != 6 && lim[d] != ~0ULL ) { proc = std::min( proc, (long long) ( lim[d] / 1024 ) ); } if ( a != 6 && lim[a] != ~0ULL ) { proc = std::min( proc, (long long) ( lim[a] / 1024 ) ); }
  string w = "total " + std::to_string( T ) + ( hn ? string( ", host limit " ) + ( h ? h : "unset" ) : "" ) + ( pn ? string( ", process limit " ) + ( p ? p : "unset" ) : "" ) + ", data " + ( d == 6 ? "unknown" : num( lim[d] ) ) + ", address space " + ( a == 6 ? "unknown" : num( lim[a] ) ); SI s; EQ( s.GetHostMemoryAvailable( hn ), host, "host-available", w ); EQ( s.GetProcMemoryAvailable( hn, pn ), proc, "process-available", w ); std::ostringstream o; o << "Host Total: " << T << " KiB, Host Available: " << host << " KiB, Process Available: " << proc << " KiB"; EQ( s.GetMemoryDescription( hn, pn ), o.str(), "description", w ); closed( r );
}
SCENARIO( process_memory, 2 )
{
  reset(); static char const* const ls[] = { "Name:\tcat\n", "VmPeak:\t 1111 kB\n", "VmSize:\t 2222 kB\n", "VmHWM:\t 3333 kB\n", "VmRSS:\t %d kB\n", "RssAnon:\t 55 kB\n", "VmSwap:\t 7 kB\n" }; vector< int > left = { 0, 1, 2, 3, 4, 5, 6 }; string f; long long want = -1; static int const vs[] = { 0, 4711, 2147483647 }; int const v = vs[r.choose( 3 )]; for ( int i = 0; i < r.bound( 4, 6 ); ++i ) { int c = r.choose( (int) left.size() + 1 ); if ( c == (int) left.size() ) { break; } char b[100]; snprintf( b, sizeof b, ls[left[c]], v ); f += b; if ( left[c] == 4 ) { want = v; } left.erase( left.begin() + c ); } if ( f.size() && r.flip() ) { f.erase( f.size() - 1 ); } W.file["/proc/self/status"] = f; SI s; EQ( s.GetProcMemoryUsed(), want, "process-memory", mc::show( f ) ); EQ( s.GetProcessId(), (long long) getpid(), "process-id", "process id" ); W.load_n = r.choose( 5 ) - 1; static double const ld[] = { 0, 0.25, 63.5 }; W.load = ld[r.choose( 3 )]; EQ( s.GetLoadAverage(), W.load_n > 0 ? W.load : 0.0, "load", "load average" ); closed( r );
}
// sockets x cores x threads
SCENARIO( cpu_counts, 2 )
{
  reset(); static vector< vector< int > > const ids = { {}, { 0 }, { 0, 1 }, { 0, 1, 2 }, { 1, 0 }, { 3 }, { 0, 2 }, { 0, 3, 1 }, { 5, 5 } }; auto const& sock = ids[r.choose( 9 )]; int const cores = 1 + r.choose( 4 ), threads = 1 + r.choose( 2 ); bool const haveCores = r.choose( 4 ) != 3; int const interleave = r.choose( 2 ), end = r.choose( 2 ); string f; int n = 0; std::set< int > distinct( sock.begin(), sock.end() ); size_t const per = sock.size() ? sock.size() : 1;
  for ( size_t i = 0; i < per * cores * threads; ++i ) { f += "processor\t: " + num( n++ ) + "\nvendor_id\t: GenuineIntel\nmodel name\t: CPU processor 5 GHz\n"; if ( sock.size() ) { f += "physical id\t: " + std::to_string( interleave ? sock[i % per] : sock[i / ( cores * threads )] ) + "\nsiblings\t: 99\ncore id\t\t: " + num( i % cores ) + "\n"; } if ( haveCores ) { f += "cpu cores\t: " + num( cores ) + "\n"; } f += "\n"; } if ( end ) { f.erase( f.size() - 1 ); } W.file["/proc/cpuinfo"] = f; string w = num( per * cores * threads ) + " processor entries, " + num( distinct.size() ) + " physical ids" + ( haveCores ? ", " + num( cores ) + " cores" : "" );
  SI s; { Mute m; s.RunCPUCheck(); } EQ( s.GetNumberOfLogicalCPU(), (unsigned) ( per * cores * threads ), "cpu-count", w + ": logical CPUs" ); unsigned want = haveCores ? (unsigned) ( distinct.size() * cores ) : 0; if ( want == 0 ) { want = 1; } EQ( s.GetNumberOfPhysicalCPU(), want, "cpu-count", w + ": physical CPUs" ); EQ( s.GetLogicalProcessorsPerPhysical(), (unsigned) ( per * cores * threads ) / want, "cpu-count", w + ": logical CPUs of a physical one" ); closed( r );
}
// keys whose names begin like others, in every order
SCENARIO( cpu_keys, 2 )
{
  reset(); struct KVt { char const* k, * v; }; static KVt const kv[] = { { "cpu family\t", "15" }, { "cpu MHz\t\t", "2333.333" }, { "model\t\t", "42" }, { "model name\t", "Fast  CPU   9000" }, { "cache size\t", "3072 KB" }, { "cpu cores\t", "2" }, { "stepping\t", "7" } }; int const N = r.bound( 6, 7 ); vector< int > left; for ( int i = 0; i < N; ++i ) { left.push_back( i ); } int const missing = r.choose( N + 1 ), mode = r.choose( 3 ); if ( missing < N ) { left.erase( left.begin() + missing ); } string f = "processor\t: 0\nvendor_id\t: AuthenticAMD\n"; if ( N == 6 ) { f += "stepping\t: 7\n"; }
  bool has[7] = {}; if ( mode ) { f += mode == 1 ? "cpuid level\t: 13\ncache_alignment\t: 64\nmodelling\t: 3\n" : "wp\t\t: yes\nfpu_exception\t: yes\n"; } while ( ! left.empty() ) { int i = r.choose( (int) left.size() ), k = left[i]; left.erase( left.begin() + i ); has[k] = true; f += string( kv[k].k ) + ": " + kv[k].v + "\n"; } if ( mode == 2 ) { f += "cpuid level\t: 13\ncache_alignment\t: 64\nmodelling\t: 3\n"; } f += "physical id\t: 0\npower management:\n\n"; f += "processor\t: 1\nvendor_id\t: Other\ncpu family\t: 99\nmodel\t\t: 98\nmodel name\t: Other\nstepping\t: 97\ncpu MHz\t\t: 96\ncache size\t: 95 KB\nphysical id\t: 0\n\n"; if ( missing < N ) { f.erase( f.find( "processor\t: 1" ) ); } W.file["/proc/cpuinfo"] = f; string w = mc::show( f );
  SI s; { Mute m; s.RunCPUCheck(); } EQ( string( s.GetVendorString() ), string( "AuthenticAMD" ), "cpu-keys", w + ": vendor" ); EQ( string( s.GetVendorID() ), string( "Advanced Micro Devices" ), "cpu-keys", w + ": manufacturer" ); EQ( s.GetFamilyID(), string( has[0] ? "15" : "0" ), "cpu-keys", w + ": family" ); EQ( s.GetProcessorClockFrequency(), has[1] ? 2333.333f : 0.f, "cpu-keys", w + ": clock" ); EQ( s.GetModelID(), string( has[2] ? "42" : "0" ), "cpu-keys", w + ": model" ); EQ( s.GetModelName(), string( has[3] ? kv[3].v : "" ), "cpu-keys", w + ": model name" ); EQ( s.GetProcessorCacheSize(), has[4] ? 3072 : 0, "cpu-keys", w + ": cache" ); EQ( s.GetProcessorCacheXSize( 0x8000 ), has[4] ? 3072 : 0, "cpu-keys", w + ": level 1 cache" ); EQ( s.GetSteppingCode(), string( has[6] || N == 6 ? "7" : "0" ), "cpu-keys", w + ": stepping" ); unsigned const phys = has[5] ? 2 : 1; EQ( s.GetNumberOfPhysicalCPU(), phys, "cpu-keys", w + ": physical CPUs" ); std::ostringstream o; o << phys << " core "; if ( has[3] ) { o << "Fast CPU 9000"; } else { o << ( has[1] ? 2333.333f : 0.f ) << " MHz AuthenticAMD " << s.GetExtendedProcessorName(); } EQ( s.GetCPUDescription(), o.str(), "description", w ); closed( r );
}
// other machines: values of the right key, keys without a value, caches in parts
SCENARIO( cpu_other, 2 )
{
  reset(); struct L { char const* t; }; static char const* const blocks[] = { "cpu\t\t: TI UltraSparc IIi\n", "ncpus probed\t: 9\n", "ncpus active\t: 4\n", "Cpu0ClkTck\t: 0000000059682f00\n", "CPU architecture: 8\n", "CPU revision\t: 3\n", "I-cache\t\t: 64 KB\n", "D-cache\t\t: 32 KB (WB)\n", "cpu family\t: PA-RISC 2.0\n", "cpu family\t: PA-RISC 1.1a\n", "model name\t:\n", "flags\t\t:\n", "vendor_id\t:\n", "model name\t: \n", "cache size\t: 512 KB\n" }; int const n = r.bound( 3, 4 ); vector< int > seq; string f; for ( int i = 0; i < n; ++i ) { int c = r.choose( 16 ); if ( c == 15 ) { break; } for ( int q : seq ) { if ( q == c || ( ( q == 8 || q == 9 ) && ( c == 8 || c == 9 ) ) || ( ( q == 10 || q == 13 ) && ( c == 10 || c == 13 ) ) ) { return; } } seq.push_back( c ); f += blocks[c]; } auto has = [&] ( int c ) { return std::count( seq.begin(), seq.end(), c ) > 0; }; W.file["/proc/cpuinfo"] = f; string w = mc::show( f );
  SI s; { Mute m; s.RunCPUCheck(); } EQ( s.GetNumberOfLogicalCPU(), 0U, "cpu-count", w + ": processor entries" ); EQ( s.GetNumberOfPhysicalCPU(), has( 2 ) ? 4U : 1U, "cpu-count", w + ": active CPUs" ); EQ( s.GetProcessorClockFrequency(), has( 3 ) ? 1500.f : 0.f, "cpu-keys", w + ": clock" ); EQ( s.GetFamilyID(), string( has( 8 ) ? "512" : has( 9 ) ? "282" : has( 4 ) ? "8" : "0" ), "cpu-keys", w + ": family" ); EQ( string( s.GetVendorID() ), string( has( 8 ) || has( 9 ) ? "Hewlett-Packard" : "Unknown Manufacturer" ), "cpu-keys", w + ": manufacturer" ); EQ( s.GetSteppingCode(), string( has( 5 ) ? "3" : "0" ), "cpu-keys", w + ": revision" ); EQ( s.GetProcessorCacheSize(), ( has( 6 ) ? 64 : 0 ) + ( has( 7 ) ? 32 : 0 ) + ( has( 14 ) ? 512 : 0 ), "cpu-keys", w + ": caches" ); EQ( s.GetModelName(), string(), "cpu-keys", w + ": model name" ); EQ( string( s.GetVendorString() ), string(), "cpu-keys", w + ": vendor" ); EQ( string( s.GetExtendedProcessorName() ), string( has( 0 ) ? "TI UltraSparc IIi" : "Unknown family" ), "cpu-keys", w + ": processor" ); closed( r );
}
// each flag is reported exactly if the word stands among the flags
SCENARIO( cpu_flags, 3 )
{
  reset(); struct Fl { char const* n; long bit; }; static Fl const fl[] = { { "fpu", 0x1000000 }, { "tsc", 0x2000000 }, { "mmx", 1 }, { "sse", 4 }, { "sse2", 8 }, { "apic", 0x400 }, { "cmov", 0x2000 }, { "mtrr", 0x4000 }, { "acpi", 0x40000 }, { "3dnow", 0x10 } }; int const d = r.choose( 4 ), stepping = r.choose( 2 ), rev = r.choose( 2 ); int mask = 0; string v; auto add = [&] ( string const& x ) { v += ( v.empty() ? "" : " " ) + x; }; if ( d == 1 ) { add( "mmxext 3dnowext sse4_1 x2apic" ); } for ( int i = 0; i < 10; ++i ) { int const k = rev ? 9 - i : i; if ( r.flip() ) { mask |= 1 << k; add( fl[k].n ); } } if ( d == 2 ) { add( "sse4a tsc_adjust ssse3 xfpu cmov_x" ); } string f = "processor\t: 0\ncpu family\t: 6\n"; if ( stepping ) { f += "stepping\t: 1\n"; } f += "flags\t\t: " + v + "\n"; if ( d == 3 ) { f += "bugs\t\t: fpu tsc mmx\n"; } f += "\n"; W.file["/proc/cpuinfo"] = f; string w = "flags " + mc::show( v ) + ( stepping ? "" : " without stepping" ); SI s; { Mute m; s.RunCPUCheck(); }
  for ( int i = 2; i < 10; ++i ) { EQ( s.DoesCPUSupportFeature( fl[i].bit ), ( mask >> i & 1 ) == 1, "cpu-flags", w + ": " + fl[i].n ); } for ( long b : { 2L, 0x20L, 0x40L, 0x80L, 0x200L, 0x800L, 0x1000L, 0x80000L, 0x100000L, 0x200000L, 0x400000L, 0L } ) { EQ( s.DoesCPUSupportFeature( b ), false, "cpu-flags", w + ": feature " + num( b ) ); } for ( int i = 2; i < 10; ++i ) { int j = 2 + ( i - 1 ) % 8; EQ( s.DoesCPUSupportFeature( fl[i].bit | fl[j].bit ), ( mask & ( 1 << i | 1 << j ) ) != 0, "cpu-flags", w + ": either of two" ); } closed( r );
}
// every vendor x family x model has an answer
SCENARIO( cpu_names, 1 )
{
  struct V { char const* n, * id; }; static V const vs[] = { { "GenuineIntel", "Intel Corporation" }, { "UMC UMC UMC ", "United Microelectronics Corp." }, { "AuthenticAMD", "Advanced Micro Devices" }, { "AMD ISBETTER", "Advanced Micro Devices" }, { "CyrixInstead", "Cyrix Corp., VIA Inc." }, { "NexGenDriven", "NexGen Inc., Advanced Micro Devices" }, { "CentaurHauls", "IDT\\Centaur, Via Inc." }, { "RiseRiseRise", "Rise" }, { "GenuineTMx86", "Transmeta" }, { "TransmetaCPU", "Transmeta" }, { "Geode By NSC", "National Semiconductor" }, { "Sun", "Sun Microelectronics" }, { "IBM", "IBM" }, { "Hewlett-Packard", "Hewlett-Packard" }, { "Motorola", "Motorola" }, { "GenuineIntel2", "Unknown Manufacturer" }, { "intel", "Unknown Manufacturer" }, { "", "Unknown Manufacturer" } }; V const& v = vs[r.choose( 18 )]; int const fam = r.choose( r.bound( 20, 40 ) ); for ( int model = 0; model < 64; ++model ) { reset(); W.file["/proc/cpuinfo"] = string( "processor\t: 0\nvendor_id\t: " ) + v.n + "\ncpu family\t: " + num( fam ) + "\nmodel\t\t: " + num( model ) + "\nstepping\t: " + num( model % 16 ) + "\n\n"; SI s; { Mute m; s.RunCPUCheck(); } string w = string( v.n ) + " family " + num( fam ) + " model " + num( model ); EQ( string( s.GetVendorID() ), string( v.id ), "vendor", w ); EQ( string( s.GetVendorString() ), string( v.n ), "vendor", w ); EQ( s.GetFamilyID(), num( fam ), "cpu-keys", w ); EQ( s.GetModelID(), num( model ), "cpu-keys", w ); EQ( s.GetSteppingCode(), num( model % 16 ), "cpu-keys", w ); EQ( s.GetTypeID(), string( "0" ), "cpu-keys", w ); CK( *s.GetExtendedProcessorName() || ! strcmp( v.n, "GenuineIntel" ), "vendor", w + ": no name" ); closed( r ); }
}
SCENARIO( system_names, 2 )
{
  reset(); static char const* const t[] = { "Linux", "", "a name of sixty four characters 567890123456789012345678901234" }; auto put = [&] ( char* d, int i, char const* x ) { snprintf( d, 65, "%s%s", t[i], i ? "" : x ); }; int const a = r.choose( 3 ), b = r.choose( 3 ), c = r.choose( 3 ), d = r.choose( 3 ), e = r.choose( 3 ); put( W.un.sysname, a, "s" ); put( W.un.nodename, b, "n" ); put( W.un.release, c, "r" ); put( W.un.version, d, "v" ); put( W.un.machine, e, "m" ); utsname const first = W.un; SI s; bool ran = false, was = false; string host; int const n = 3; string w;
  for ( int i = 0; i < n; ++i ) { int const op = r.choose( 5 ); w += num( op ); if ( op == 0 || op == 1 ) { W.uname_ok = op == 0; s.RunOSCheck(); ran = true; if ( op == 0 ) { was = true; host = first.nodename; } } else if ( op == 2 || op == 3 ) { W.uname_ok = op == 2; string const g = s.GetHostname(); if ( host.empty() ) { host = op == 2 ? first.nodename : "localhost"; } EQ( g, host, "host-name", w + ": host name" ); } else { string z; EQ( string( s.GetOSName() ), was ? first.sysname : z, "os-name", w + ": name" ); EQ( string( s.GetOSRelease() ), was ? first.release : z, "os-name", w + ": release" ); EQ( string( s.GetOSVersion() ), was ? first.version : z, "os-name", w + ": version" ); EQ( string( s.GetOSPlatform() ), was ? first.machine : z, "os-name", w + ": platform" ); EQ( s.GetOSDescription(), was ? string( first.sysname ) + " " + first.release + " " + first.version : string( "  " ), "os-name", w + ": description" ); } r.step(); } (void) ran; EQ( s.GetOSIsLinux() * 100 + s.GetOSIsWindows() * 10 + s.GetOSIsApple(), 100, "os-kind", "kind of system" ); EQ( s.Is64Bits(), sizeof( void* ) == 8, "os-kind", "64 bits" );
}
// the first interface with a longer name that holds the host name
SCENARIO( domain_name, 2 )
{
  reset(); static World::If const kinds[] = { { 0, 0, "box.none.org" }, { AF_PACKET, 0, "box.packet.org" }, { AF_INET, 1, "box.err.org" }, { AF_INET, 0, "localhost" }, { AF_INET, 0, "box" }, { AF_INET, 0, "box.example.org" }, { AF_INET6, 0, "box.six.org" }, { AF_INET6, 1, "" }, { AF_INET, 0, "other.example.org" }, { AF_INET6, 0, "my-box.example" } }; static char const* const hosts[] = { "box", "box.example.org", "nowhere" }; W.host = hosts[r.choose( 3 )]; int const broken = r.choose( 5 ); W.host_ok = broken != 1; W.ifs_ok = broken != 2; int n = r.choose( r.bound( 4, 5 ) ); for ( int i = 0; i < n; ++i ) { W.ifs.push_back( kinds[r.choose( 10 )] ); } string want = W.host; if ( W.ifs_ok ) { for ( auto const& i : W.ifs ) { if ( ( i.fam == AF_INET || i.fam == AF_INET6 ) && ! i.err && i.name.size() > W.host.size() && i.name.find( W.host ) != string::npos ) { want = i.name; break; } } } if ( ! W.host_ok ) { want = "localhost"; } string w = "host " + W.host + ", interfaces"; for ( auto const& i : W.ifs ) { w += " " + ( i.err ? string( "?" ) : i.name ) + "/" + std::to_string( i.fam ); } SI s; EQ( s.GetFullyQualifiedDomainName(), want, "domain-name", w ); EQ( W.lists, 0, "leak", w + ": interface lists not freed" ); r.step();
}
// enabling and disabling the reporting of errors gives every handler back
namespace {
int const sigs[] = { SIGABRT, SIGSEGV, SIGTERM, SIGINT, SIGILL, SIGBUS, SIGFPE, SIGUSR1 };
void h1( int ) {} void h2( int, siginfo_t*, void* ) {}
struct Act { void* h; int flags; int masked; bool operator==( Act const& o ) const { return h == o.h && flags == o.flags && masked == o.masked; } };
Act get( int s ) { struct sigaction a; sigaction( s, 0, &a ); Act o = { a.sa_flags & SA_SIGINFO ? (void*) a.sa_sigaction : (void*) a.sa_handler, a.sa_flags & ~0x04000000, sigismember( &a.sa_mask, SIGUSR2 ) }; return o; }
void set( int s, int k ) { struct sigaction a; memset( &a, 0, sizeof a ); sigemptyset( &a.sa_mask ); if ( k == 0 ) { a.sa_handler = SIG_DFL; } else if ( k == 1 ) { a.sa_handler = SIG_IGN; } else if ( k == 2 ) { a.sa_handler = h1; a.sa_flags = SA_RESTART; } else { a.sa_sigaction = h2; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaddset( &a.sa_mask, SIGUSR2 ); } sigaction( s, &a, 0 ); }
}
SCENARIO( error_handlers, 2 )
{
  W.on = false; SI::SetStackTraceOnError( 0 ); for ( int s : sigs ) { set( s, 0 ); } vector< Act > saved( 8 ); bool on = false; string w; Act mine{}; bool known = false; auto now = [] { vector< Act > o; for ( int s : sigs ) { o.push_back( get( s ) ); } return o; }; int const n = r.bound( 4, 5 );
  for ( int i = 0; i < n; ++i )
  {
    int const op = r.choose( 6 ); auto const before = now(); if ( op < 4 ) { int const k = op; for ( int q = 0; q < 8; ++q ) { set( sigs[q], ( k + q * ( i + 1 ) ) % 4 ); } w += " set" + num( k ); }
    else if ( op == 4 ) { SI::SetStackTraceOnError( 1 ); w += " enable"; auto const after = now(); if ( on ) { CK( after == before, "handlers", w + ": enabling twice changes the handlers" ); } else { saved = before; on = true; for ( int q = 0; q < 7; ++q ) { if ( ! known ) { mine = after[q]; known = true; } CK( after[q] == mine && mine.h != (void*) SIG_DFL && mine.h != (void*) SIG_IGN && mine.h != (void*) h1 && mine.h != (void*) h2, "handlers", w + ": signal " + num( sigs[q] ) + " is not reported" ); } CK( after[7] == before[7], "handlers", w + ": another signal is touched" ); } }
    else { SI::SetStackTraceOnError( 0 ); w += " disable"; auto const after = now(); if ( on ) { for ( int q = 0; q < 7; ++q ) { CK( after[q] == saved[q], "handlers", w + ": signal " + num( sigs[q] ) + " did not get its handler back" ); } on = false; } else { CK( after == before, "handlers", w + ": disabling twice changes the handlers" ); } CK( after[7] == before[7], "handlers", w + ": another signal is touched" ); }
    r.step();
  }
  SI::SetStackTraceOnError( 0 ); for ( int s : sigs ) { set( s, 0 ); }
}
// a signal is reported with its name, and the process ends with an abort
SCENARIO( reported_signal, 1 )
{
  W.on = false; int const q = r.choose( 7 ), times = 1 + r.choose( 2 ); static char const* const nm[] = { "SIGABRT", "SIGSEGV", "SIGTERM", "SIGINT", "SIGILL", "SIGBUS", "SIGFPE" }; int fd[2]; if ( pipe( fd ) ) { throw mc::Divergence( "pipe" ); } fflush( 0 ); pid_t p = fork(); if ( ! p ) { dup2( fd[1], 2 ); close( fd[0] ); struct rlimit l = { 0, 0 }; setrlimit( RLIMIT_CORE, &l ); alarm( 20 ); SI::SetStackTraceOnError( 0 ); for ( int s : sigs ) { set( s, 0 ); } for ( int i = 0; i < times; ++i ) { SI::SetStackTraceOnError( 1 ); } raise( sigs[q] ); _exit( 9 ); } close( fd[1] ); string o; char b[4096]; ssize_t k; while ( ( k = read( fd[0], b, sizeof b ) ) > 0 ) { o.append( b, (size_t) k ); } close( fd[0] ); int st = 0; waitpid( p, &st, 0 ); CK( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT, "abort", string( nm[q] ) + ": ended with status " + std::to_string( st ) + ": " + o.substr( 0, 300 ) ); CK( o.find( string( "Caught " ) + nm[q] ) != string::npos && o.find( "Process id " + num( p ) ) != string::npos && o.find( "Program Stack" ) != string::npos, "report", string( nm[q] ) + ": report " + o.substr( 0, 300 ) ); r.step();
}
// the program stack: one line for each frame, from the one asked for, with the names of the functions
template < int N > struct Long { typedef std::pair< typename Long< N - 1 >::T, typename Long< N - 1 >::T > T; }; template <> struct Long< 0 > { typedef long double T; };
template < typename T > __attribute__(( noinline )) string vv_named( int f, int p, T* ) { string s = SI::GetProgramStack( f, p ); __asm__ volatile( "" ); return s; }
__attribute__(( noinline )) string vv_stack( int depth, int f, int p, int name ) { string s = depth ? vv_stack( depth - 1, f, p, name ) : name == 0 ? SI::GetProgramStack( f, p ) : name == 1 ? vv_named( f, p, (int*) 0 ) : name == 2 ? vv_named( f, p, (Long< 3 >::T*) 0 ) : name == 3 ? vv_named( f, p, (Long< 6 >::T*) 0 ) : vv_named( f, p, (Long< 8 >::T*) 0 ); __asm__ volatile( "" ); return s; }
SCENARIO( program_stack, 1 )
{
  W.on = false; int const depth = r.choose( 5 ), first = r.choose( 6 ), path = r.choose( 2 ), name = r.choose( 5 ); auto lines = [] ( string const& s ) { vector< string > o; std::istringstream i( s ); string l; while ( std::getline( i, l ) ) { if ( l.compare( 0, 2, "0x" ) == 0 ) { o.push_back( l ); } } return o; }; auto all = lines( vv_stack( depth, 0, path, name ) ), some = lines( vv_stack( depth, first, path, name ) ); string w = "depth " + num( depth ) + " from frame " + num( first ) + " name " + num( name ); CK( all.size() == some.size() + (size_t) first, "stack", w + ": " + num( some.size() ) + " of " + num( all.size() ) + " frames" ); int mine = 0, named = 0; for ( auto const& l : all ) { mine += l.find( "vv_stack" ) != string::npos; named += l.find( "vv_named" ) != string::npos; } CK( mine == depth + 1, "stack", w + ": " + num( mine ) + " frames of the function instead of " + num( depth + 1 ) ); CK( named == ( name > 0 ), "stack", w + ": the named function" ); for ( size_t i = 0; i < some.size(); ++i ) { string const a = all[i + (size_t) first], b = some[i]; size_t x = a.find( " : " ), y = b.find( " : " ); CK( x != string::npos && y != string::npos, "stack", w + ": " + b ); string fa = a.substr( x, a.find( " [(" ) - x ), fb = b.substr( y, b.find( " [(" ) - y ); CK( fa == fb, "stack", w + ": " + fb + " instead of " + fa ); if ( ! path ) { CK( b.substr( b.find( " [(" ) ).find( '/' ) == string::npos, "stack", w + ": full path in " + b ); } } r.step();
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
