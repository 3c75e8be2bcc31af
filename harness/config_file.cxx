// C04: the configuration file reader against the reference interpreter.
#include "mc.h"
#include <sys/utsname.h>
#include "config_model.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <iostream>
#include <unistd.h>
using namespace kwiver::vital;
using std::string; using std::vector;

namespace {
struct NullBuf : std::streambuf { int overflow( int c ) { return c; } };
NullBuf nullbuf;
struct Quiet { Quiet() { std::cerr.rdbuf( &nullbuf ); std::cout.rdbuf( &nullbuf ); } } quiet;

void put( string const& path, string const& content )
{
  int fd = ::open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
  if ( fd < 0 || ::write( fd, content.data(), content.size() ) != (ssize_t) content.size() ) { throw mc::Divergence( "cannot write " + path ); }
  ::close( fd );
}

void compare( mc::Run& r, cm::World const& w, string const& main, config_path_list_t const& search )
{
  cm::Interp in( w ); cm::Result want = in.run( main );
  string err, what; config_block_sptr c;
  try { c = read_config_file( main, search ); }
  catch ( config_file_not_parsed_exception const& e ) { err = "parse"; what = e.what(); }
  catch ( config_file_not_found_exception const& e ) { err = "notfound"; what = e.what(); }
  catch ( set_on_read_only_value_exception const& e ) { err = "ro"; what = e.what(); }
  catch ( std::exception const& e ) { err = "other"; what = e.what(); }
  r.step();
  string exp; for ( auto const& e : want.errors ) { exp += e + " "; }
  if ( want.errors.empty() )
  {
    if ( ! err.empty() ) { r.fail( "refused-valid", "well formed file refused (" + err + "): " + what ); }
    string got, wn;
    config_block_keys_t ks = c->available_values(); std::sort( ks.begin(), ks.end() );
    for ( auto const& k : ks )
    {
      string f; int l = 0; c->get_location( k, f, l );
      got += k + "=" + c->get_value< string >( k ) + ( c->is_read_only( k ) ? "[RO]" : "" ) + "@" + cm::Interp::norm( in.abs( f.empty() ? "?" : f ) ) + ":" + std::to_string( l ) + "\n";
    }
    for ( auto const& e : want.e ) { wn += e.first + "=" + e.second.v + ( e.second.ro ? "[RO]" : "" ) + "@" + cm::Interp::norm( in.abs( e.second.file ) ) + ":" + std::to_string( e.second.line ) + "\n"; }
    if ( got != wn ) { r.fail( "meaning", "entries read " + mc::show( got ) + " expected " + mc::show( wn ) ); }
    r.outcome( "accepted " + std::to_string( want.e.size() ) + " entries" );
    r.state( wn );
  }
  else
  {
    if ( err.empty() ) { r.fail( "accepted-invalid", "malformed file accepted, expected error " + exp ); }
    if ( ! want.errors.count( err ) ) { r.fail( "wrong-error", "error class " + err + " (" + what + "), expected " + exp ); }
    if ( what.empty() ) { r.fail( "empty-error", "error without a message" ); }
    r.outcome( "refused " + err );
    r.state( exp );
  }
}

struct Dirs { string base, main, sp1, sp2, inc, cwd, bin; };
Dirs const& dirs( mc::Run& r )
{
  static Dirs d;
  if ( d.base.empty() )
  {
    char buf[4096]; if ( ! realpath( r.scratch.c_str(), buf ) ) { throw mc::Divergence( "scratch" ); }
    d.base = buf; d.main = d.base + "/sub"; d.sp1 = d.base + "/sp1"; d.sp2 = d.base + "/sp2"; d.inc = d.base + "/inc"; d.cwd = d.base + "/cwd"; d.bin = d.base + "/bin";
    for ( auto const* p : { &d.main, &d.sp1, &d.sp2, &d.inc, &d.cwd, &d.bin } ) { mkdir( p->c_str(), 0700 ); }
    setenv( "VE", "env v", 1 ); unsetenv( "VN" ); setenv( "VX", "", 1 );
    // directories named by PATH must never be searched for includes
    setenv( "PATH", ( d.bin + ":/usr/bin:/bin" ).c_str(), 1 );
    if ( chdir( d.cwd.c_str() ) != 0 ) { throw mc::Divergence( "chdir" ); }
  }
  return d;
}
cm::World world( Dirs const& d ) { cm::World w; w.env["VE"] = "env v"; w.env["VX"] = ""; w.cwd = d.cwd; return w; }
} // namespace

// ---- all programs of up to N statements
SCENARIO( programs, 3 )
{
  Dirs const& d = dirs( r );
  static vector< string > const stmts = {
    "kk = v", "block bb", "endblock", "kk[RO] = w", "kk = $CONFIG{bb:kk}$CONFIG{kk}", "lo := z", "u = a$LOCAL{lo}b $ENV{VE}",
    "include inc.conf", "relativepath r1 = ../d/$LOCAL{lo}", "lo:x[ro]= $NO{x}$LOCAL{lo}$LOCAL{q} # c", "block b:c # x", "bb:kk=",
    "# kk = comment", "lo := $LOCAL{lo}y", "  z.-_/9  =  a  =\tb:=c  ",
    "= v", "kk[XX] = v", "9k = v", "block", "include nofile.conf", "kk v = w", "= endblock", "kk[RO][XX] = v", "kk [Ro] [rO] = v" };
  static vector< string > const incs = { "in = 1\nkk = over\n", "", "block q\n", "endblock\n", "lo := y\nin:2 = $CONFIG{kk}", "kk\n", "include inc2.conf\nafter = $LOCAL{lo}\n", "include inc.conf\n", "kk[RO] = inc\n", "include main.conf\n" };
  cm::World w = world( d );
  int len = r.choose( r.bound( 4, 5 ) + 1 );
  string prog; bool inc = false;
  // the longest programs use the first 14 statement forms only
  int forms = len == r.bound( 4, 5 ) ? 14 : (int) stmts.size();
  for ( int i = 0; i < len; ++i )
  {
    string const& s = stmts[r.choose( forms )]; prog += s + "\n";
    if ( s == "include inc.conf" && ! inc )
    {
      inc = true; string const& c = r.pick( incs );
      string p = d.main + "/inc.conf"; w.files[p] = c; put( p, c ); r.log( "inc.conf: " + mc::show( c ) );
    }
  }
  if ( inc ) { string p = d.main + "/inc2.conf"; string c = "deep = $ENV{VE}\nlo := deep\n"; w.files[p] = c; put( p, c ); }
  string m = d.main + "/main.conf"; w.files[m] = prog; put( m, prog );
  r.log( "main.conf: " + mc::show( prog ) );
  compare( r, w, m, config_path_list_t() );
}

// ---- all single raw lines followed by a known good line
SCENARIO( raw_lines, 3 )
{
  Dirs const& d = dirs( r );
  static char const al[] = { 'k', '=', ' ', ':', '[', 'R', 'O', ']', '#', '1', '\t', '_', '-', '\n' };
  int n = r.choose( r.bound( 4, 5 ) + 1 ); string l;
  for ( int i = 0; i < n; ++i ) { l += al[ r.choose( 14 ) ]; }
  // statements split over lines are outside the documented grammar and not judged
  {
    size_t nl = l.find( '\n' );
    if ( nl != string::npos )
    {
      for ( size_t p = 0; p != string::npos && p <= l.size(); )
      {
        size_t e = l.find( '\n', p ); if ( e == string::npos ) { break; }
        string one = l.substr( p, e - p ); size_t h = one.find( '#' ); if ( h != string::npos ) { one = one.substr( 0, h ); } one = cm::trim( one );
        string wd = cm::word( one ); if ( ! wd.empty() ) { string rest = cm::trim( one.substr( wd.size() ) ); for ( string f = cm::flag( rest ); ! f.empty(); f = cm::flag( rest ) ) { rest = cm::trim( rest.substr( f.size() ) ); } if ( rest.empty() ) { return; } }
        p = e + 1;
      }
    }
  }
  cm::World w = world( d ); string m = d.main + "/main.conf";
  string prog = l + "\nzz9 = 1\n"; w.files[m] = prog; put( m, prog );
  r.log( mc::show( prog ) );
  compare( r, w, m, config_path_list_t() );
}

// ---- macro syntax: all short texts
SCENARIO( macros, 3 )
{
  Dirs const& d = dirs( r );
  static string const al[] = { "$", "LOCAL", "{", "}", "lo", "$NO{y}", "CONFIG", ":", "$LOCAL{lo-x}", "$LOCAL{lo}", "$ENV{VX}", "$ENV{VN}", " ", "$CONFIG{b:k-y/z}" };
  int n = r.choose( r.bound( 4, 5 ) + 1 ); string v;
  for ( int i = 0; i < n; ++i ) { v += al[ r.choose( 14 ) ]; }
  cm::World w = world( d ); string m = d.main + "/main.conf";
  string prog = "lo := $L\nb:k-y/z = $CONFIG{\nlo-x := D\nt = <" + v + ">\n"; w.files[m] = prog; put( m, prog );
  r.log( mc::show( prog ) );
  compare( r, w, m, config_path_list_t() );
}

// ---- include search order: every presence subset
SCENARIO( include_search, 2 )
{
  Dirs const& d = dirs( r );
  string dirs_[] = { d.sp1, d.sp2, d.inc, d.main, d.cwd, d.bin };
  cm::World w = world( d );
  int mode = r.choose( 6 );   // 0 plain, 1 nested, 2 absolute, 3 sub-directory name, 4 via macro, 5 relative main file
  string name = mode == 3 ? "deep/t.conf" : "t.conf";
  for ( int i = 0; i < 6; ++i )
  {
    string p = dirs_[i] + "/" + name; unlink( p.c_str() ); unlink( ( dirs_[i] + "/t.conf" ).c_str() );
    if ( mode == 3 ) { mkdir( ( dirs_[i] + "/deep" ).c_str(), 0700 ); }
    if ( r.flip() ) { string c = "from" + std::to_string( i ) + " = x\n"; w.files[p] = c; put( p, c ); }
  }
  int nsp = r.choose( 3 ); config_path_list_t sp;
  if ( nsp > 0 ) { sp.push_back( d.sp1 ); } if ( nsp > 1 ) { sp.push_back( d.sp2 ); }
  if ( nsp == 2 && r.flip() ) { std::swap( sp[0], sp[1] ); }
  for ( auto const& s : sp ) { w.search.push_back( s ); }
  string prog;
  switch ( mode )
  {
  case 1: { string p = d.inc + "/mid.conf"; string c = "include t.conf\nmid = 1\n"; w.files[p] = c; put( p, c ); prog = "include " + p + "\n"; } break;
  case 2: prog = "include " + d.sp2 + "/t.conf\n"; break;
  case 4: prog = "base := t\ninclude $LOCAL{base}.conf\n"; break;
  default: prog = "include " + name + "\n";
  }
  prog += "last = 1\n";
  string m = mode == 5 ? d.cwd + "/main.conf" : d.main + "/main.conf"; w.files[m] = prog; put( m, prog );
  string mm = mode == 5 ? ( r.flip() ? "main.conf" : "./main.conf" ) : m;
  r.log( "mode " + std::to_string( mode ) + " search dirs " + std::to_string( nsp ) + " main " + mm );
  for ( auto const& f : w.files ) { r.log( f.first.substr( d.base.size() ) ); }
  compare( r, w, mm, sp );
}

// ---- chains of included files in different directories: what each file's
// statements before and after its include mean, and where names are looked for
SCENARIO( include_chain, 3 )
{
  Dirs const& d = dirs( r ); cm::World w = world( d );
  string const at[] = { d.main, d.inc, d.bin, d.sp2, d.cwd };
  static char const* const pre[] = { "", "lo := from @\n", "block q@\n", "kk[RO] = @\n", "lo := @\nblock q@\n" };
  static char const* const post[] = { "", "relativepath r@ = ../x\n", "u@ = $LOCAL{lo}$CONFIG{kk}\n", "endblock\n", "include t.conf\n", "include c@.conf\n", "kk = @\n", "word\n" };
  int const depth = 2 + r.choose( 3 ); int const npre = depth == 4 ? r.bound( 2, 3 ) : depth == 3 ? r.bound( 3, 5 ) : 5, npost = depth == 4 ? r.bound( 5, 7 ) : depth == 3 ? r.bound( 7, 8 ) : 8;
  for ( auto const& a : at ) { unlink( ( a + "/t.conf" ).c_str() ); }
  bool wanted = false; int open = 0; string first;
  for ( int i = 0; i < depth; ++i )
  {
    string b = pre[ r.choose( npre ) ];
    string const next = at[i + 1 < depth ? i + 1 : 0] + "/f" + std::to_string( i + 1 ) + ".conf";
    if ( i + 1 < depth ) { b += "include " + next + "\n"; }
    int const k = r.choose( npost ); string p = post[k]; wanted = wanted || k == 4;
    if ( k == 5 ) { p = i + 1 < depth ? "include " + next + "\n" : "include t.conf\n"; wanted = wanted || i + 1 == depth; }
    b += p; open += ( b.compare( 0, 5, "block" ) == 0 || b.find( "\nblock" ) != string::npos ) - ( k == 3 );
    for ( size_t q; ( q = b.find( '@' ) ) != string::npos; ) { b.replace( q, 1, std::to_string( i ) ); }
    string const f = at[i] + "/f" + std::to_string( i ) + ".conf"; w.files[f] = b; put( f, b ); r.log( f.substr( d.base.size() ) + ": " + mc::show( b ) );
    if ( i == 0 ) { first = b; }
  }
  // the blocks opened anywhere are ended by the first file
  while ( open-- > 0 ) { first += "endblock\n"; }
  w.files[at[0] + "/f0.conf"] = first; put( at[0] + "/f0.conf", first ); r.log( "f0.conf: " + mc::show( first ) );
  if ( wanted )
  {
    int const where = r.choose( depth + 1 );
    for ( int i = 0; i < depth; ++i )
    {
      if ( where < depth && where != i ) { continue; }
      string const f = at[i] + "/t.conf", c = "t" + std::to_string( i ) + " = $LOCAL{lo}\nrelativepath tr = t\n"; w.files[f] = c; put( f, c ); r.log( f.substr( d.base.size() ) );
    }
  }
  compare( r, w, at[0] + "/f0.conf", config_path_list_t() );
}

// ---- the main file itself: missing, a directory, empty, unreadable constructs at end of file, no final newline, CR LF
SCENARIO( main_file, 1 )
{
  Dirs const& d = dirs( r );
  cm::World w = world( d ); string m = d.main + "/x.conf"; unlink( m.c_str() );
  int k = r.choose( 10 ); string err;
  if ( k == 0 ) { compare( r, w, m, config_path_list_t() ); return; }
  if ( k == 1 )
  {
    try { read_config_file( d.main ); r.fail( "dir", "a directory was read" ); } catch ( config_file_not_found_exception const& ) {}
    r.state( "dir" ); r.step(); return;
  }
  static char const* c[] = { "", "\n\n", "a = 1", "a = 1\r\nb = 2\r\n", "a = 1\nblock q", "block q\nb = 1\n", "a", "# only" };
  string prog = c[k - 2]; w.files[m] = prog; put( m, prog ); r.log( mc::show( prog ) );
  compare( r, w, m, config_path_list_t() );
}

// ---- long inputs: line length, nesting depth, number of entries
SCENARIO( sizes, 1 )
{
  Dirs const& d = dirs( r ); cm::World w = world( d ); string m = d.main + "/big.conf";
  static int const n[] = { 1, 2, 3, 79, 80, 255, 256, 1023, 1024, 4095, 4096, 5000 };
  int sz = n[ r.choose( 12 ) ]; string prog;
  switch ( r.choose( 5 ) )
  {
  case 0: prog = "k = " + string( sz, 'v' ) + "\n"; break;
  case 1: prog = string( sz, 'k' ) + " = 1\n"; break;
  case 2: for ( int i = 0; i < std::min( sz, 300 ); ++i ) { prog += "block n" + std::to_string( i ) + "\n"; } prog += "k = 1\n"; for ( int i = 0; i < std::min( sz, 300 ); ++i ) { prog += "endblock\nk" + std::to_string( i ) + " = 2\n"; } break;
  case 3: for ( int i = 0; i < sz; ++i ) { prog += "k" + std::to_string( i * 7919 % 1009 ) + " = " + std::to_string( i ) + "\n"; } break;
  case 4: prog = "x := ab\nk = "; for ( int i = 0; i < sz; ++i ) { prog += "$LOCAL{x}"; } prog += "\n"; break;
  }
  w.files[m] = prog; put( m, prog ); r.log( "size " + std::to_string( sz ) );
  compare( r, w, m, config_path_list_t() );
}

// ---- system values
SCENARIO( sysenv, 1 )
{
  Dirs const& d = dirs( r ); string m = d.main + "/sys.conf";
  static char const* names[] = { "cwd", "hostname", "islinux", "iswindows", "isapple", "is64bits", "numproc", "osname", "nonsense", "totalphysicalmemory", "osplatform", "totalvirtualmemory", "availablevirtualmemory", "availablephysicalmemory", "domainname", "osdescription", "osversion", "Hostname", "cwd2" };
  string n = names[ r.choose( 19 ) ];
  put( m, "a = <$SYSENV{" + n + "}>\n" );
  config_block_sptr c = read_config_file( m ); string v = c->get_value< string >( "a" ); r.step(); r.log( n + " -> " + v );
  string want; char buf[4096]; struct utsname un; uname( &un ); auto mem = [] ( string const& key ) { std::ifstream i( "/proc/meminfo" ); string k, rest; unsigned long long x; while ( i >> k >> x ) { if ( k == key + ":" ) { return x / 1024; } std::getline( i, rest ); } return 0ULL; };
  auto number = [&] () -> unsigned long long { string d = v.size() > 2 ? v.substr( 1, v.size() - 2 ) : ""; r.check( ! d.empty() && d.find_first_not_of( "0123456789" ) == string::npos, "sysenv", n + " is not a number: " + v ); return strtoull( d.c_str(), 0, 10 ); };
  if ( n == "cwd" ) { want = getcwd( buf, sizeof buf ); }
  else if ( n == "hostname" ) { gethostname( buf, sizeof buf ); want = buf; }
  else if ( n == "islinux" ) { want = "TRUE"; } else if ( n == "iswindows" || n == "isapple" ) { want = "FALSE"; }
  else if ( n == "is64bits" ) { want = "TRUE"; }
  else if ( n == "osname" ) { want = "Linux"; } else if ( n == "osplatform" ) { want = un.machine; } else if ( n == "osversion" ) { want = un.version; } else if ( n == "osdescription" ) { want = string( "Linux " ) + un.release + " " + un.version; }
  else if ( n == "totalphysicalmemory" ) { want = std::to_string( mem( "MemTotal" ) ); } else if ( n == "totalvirtualmemory" ) { want = std::to_string( mem( "SwapTotal" ) ); }
  else if ( n == "availablephysicalmemory" ) { unsigned long long const x = number(); r.check( x > 0 && x <= mem( "MemTotal" ), "sysenv", n + ": " + v ); r.state( n ); return; }
  else if ( n == "availablevirtualmemory" ) { r.check( number() <= mem( "SwapTotal" ), "sysenv", n + ": " + v ); r.state( n ); return; }
  else if ( n == "numproc" ) { std::ifstream i( "/proc/cpuinfo" ); string l; int k = 0; while ( std::getline( i, l ) ) { k += l.compare( 0, 10, "processor\t" ) == 0; } want = std::to_string( k ); }
  else if ( n == "domainname" ) { gethostname( buf, sizeof buf ); r.check( v.find( buf ) != string::npos, "sysenv", n + ": " + v ); r.state( n ); return; }
  r.eqs( v, "<" + want + ">", "sysenv", n ); r.state( n );
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
