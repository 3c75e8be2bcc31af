// C05: write/read round trip of configuration files.  C06: search order and merging.
#include "mc.h"
#include "config_model.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <iostream>
#include <unistd.h>
using namespace kwiver::vital;
using std::string; using std::vector; using std::map;

namespace {
struct NullBuf : std::streambuf { int overflow( int c ) { return c; } };
NullBuf nullbuf;
struct Quiet { Quiet() { std::cerr.rdbuf( &nullbuf ); std::cout.rdbuf( &nullbuf ); } } quiet;

string base( mc::Run& r )
{
  static string b;
  if ( b.empty() ) { char buf[4096]; if ( ! realpath( r.scratch.c_str(), buf ) ) { throw mc::Divergence( "scratch" ); } b = buf; }
  return b;
}
void put( string const& path, string const& content )
{
  int fd = ::open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
  if ( fd < 0 || ::write( fd, content.data(), content.size() ) != (ssize_t) content.size() ) { throw mc::Divergence( "cannot write " + path ); }
  ::close( fd );
}
string slurp( string const& p ) { std::ifstream f( p.c_str(), std::ios::binary ); std::stringstream s; s << f.rdbuf(); return s.str(); }
void mkdirs( string const& p )
{
  for ( size_t i = 1; i <= p.size(); ++i ) { if ( i == p.size() || p[i] == '/' ) { mkdir( p.substr( 0, i ).c_str(), 0700 ); } }
}

string content( config_block_sptr c )
{
  config_block_keys_t ks = c->available_values(); std::sort( ks.begin(), ks.end() ); string o;
  for ( auto const& k : ks ) { o += k + "=" + c->get_value< string >( k ) + "\n"; }
  return o;
}

typedef map< string, string > M;
string words( string const& t )
{
  string o; bool gap = true;
  for ( char ch : t ) { bool b = ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n'; if ( b ) { gap = true; continue; } if ( gap && ! o.empty() ) { o += ' '; } gap = false; o += ch; }
  return o;
}
// the description of every entry stands, word for word, in the comment lines ahead of its assignment
void descriptions( mc::Run& r, config_block_sptr cb, string const& p )
{
  std::istringstream f( slurp( p ) ); string line, got; bool after = false; size_t seen = 0;
  while ( std::getline( f, line ) )
  {
    string t = cm::trim( line );
    if ( t.empty() ) { continue; }
    if ( t[0] == '#' )
    {
      if ( after && t.compare( 0, 12, "# defined - " ) == 0 ) { after = false; continue; }
      after = false; got += " " + t.substr( 1 ); continue;
    }
    size_t eq = t.find( '=' ); string k = cm::trim( t.substr( 0, eq ) );
    if ( ! cb->has_value( k ) ) { r.fail( "foreign-statement", "the written file has the line " + mc::show( line ) + " in " + mc::show( slurp( p ) ) ); }
    string want = words( cb->get_description( k ) );
    if ( words( got ) != want ) { r.fail( "description", "comment ahead of " + k + " is " + mc::show( words( got ) ) + " expected " + mc::show( want ) + " in " + mc::show( slurp( p ) ) ); }
    got.clear(); after = true; ++seen;
  }
  if ( seen != cb->available_values().size() ) { r.fail( "entries", std::to_string( seen ) + " assignments for " + std::to_string( cb->available_values().size() ) + " entries" ); }
  r.step();
}

// write cb, read it back, compare with want
void round_trip( mc::Run& r, config_block_sptr cb, M const& want )
{
  string p = base( r ) + "/w.conf", w;
  for ( auto const& e : want ) { w += e.first + "=" + e.second + "\n"; }
  string before = content( cb );
  try { write_config_file( cb, p ); }
  catch ( std::exception const& e ) { r.fail( "write-refused", string( "write failed: " ) + e.what() + " for " + mc::show( w ) ); }
  r.eqs( content( cb ), before, "write-changes-config", "configuration after writing" );
  descriptions( r, cb, p );
  config_block_sptr back;
  try { back = read_config_file( p ); }
  catch ( std::exception const& e ) { r.fail( "unreadable", string( "written file cannot be read: " ) + e.what() + " for " + mc::show( w ) + " file " + mc::show( slurp( p ) ) ); }
  r.step( 2 );
  string g = content( back );
  if ( g != w ) { r.fail( "round-trip", "read back " + mc::show( g ) + " expected " + mc::show( w ) + " file " + mc::show( slurp( p ) ) ); }
  r.state( w );
  // writing again what was read gives the same values once more (locations are now present)
  string p2 = base( r ) + "/w2.conf";
  write_config_file( back, p2 ); config_block_sptr again = read_config_file( p2 ); r.step( 2 );
  r.eqs( content( again ), w, "second-round-trip", "second round trip" );
}

vector< string > const values = { "", "v", "a b  c", "=", ":=x", "[RO]", "\"q # r\"" , "$", "$x{", "${y}", "a=b:c;d,e", "\\n", "it's", "block", "endblock x", "include f", "\xc3\xa9\t\x01z", "/p/q.r-s_t", "-1.5e-7", "!@%^&*()~`|<>?+" };
vector< string > const keys = { "k", "k:a", "k:a:b", "ka", "K", "block:x", "endblock_", "include-1", "relativepath.y", "a/b/c", "z9:-", "k::a", "longer.key_name-with/every:char0" };
vector< string > const descs = { "", "d", "  two  words ", "# hash # in it", "k = v", "line one\nline two", "\n", "\n\nx\n", "end block\nendblock\ninclude nofile", "\tt\rx", "a = b # c\n d = e", "block z" };
} // namespace

// every single entry: key x value x description, written from the root, a view, a copy, and with a location
SCENARIO( c05_single, 2 )
{
  string k = r.pick( keys ), v = r.pick( values ), d = r.pick( descs ); int how = r.choose( 4 );
  if ( v.find( '#' ) != string::npos ) { v = "'q'"; }    // '#' starts a comment in the file format
  config_block_sptr c = config_block::empty_config(); M want;
  if ( how == 0 ) { c->set_value( k, v, d ); want[k] = v; }
  else if ( how == 1 )
  {
    if ( k.find( "_global" ) == 0 ) { return; }
    c->set_value( "other", string( "1" ) ); c->set_value( "top:" + k, v, d ); c = c->subblock_view( "top" ); want[k] = v;
  }
  else if ( how == 2 )
  {
    if ( k.find( "_global" ) == 0 ) { return; }
    c->set_value( "other", string( "1" ) ); c->set_value( "top:" + k, v, d ); c = c->subblock( "top" ); want[k] = v;
  }
  else { c->set_value( k, v, d ); c->set_location( k, std::make_shared< string >( "/some dir/file name.conf" ), 12 ); c->mark_read_only( k ); want[k] = v; }
  r.log( "key " + k + " value " + mc::show( v ) + " description " + mc::show( d ) );
  round_trip( r, c, want );
}

// all sets of up to 3 (4) keys with all combinations of a few values and descriptions
SCENARIO( c05_sets, 3 )
{
  static string const vs[] = { "", "v", "[RO] = x" }; static string const ds[] = { "", "one\ntwo # x" };
  config_block_sptr c = config_block::empty_config(); M want; int n = 0, max = r.bound( 3, 4 );
  for ( auto const& k : keys )
  {
    if ( n >= max ) { break; }
    int o = r.choose( n < 2 ? 7 : 3 );
    if ( o == 0 ) { continue; }
    ++n; string v = vs[( o - 1 ) % 3], d = ds[( o - 1 ) / 3];
    c->set_value( k, v, d ); want[k] = v;
  }
  if ( want.empty() )
  {
    try { write_config_file( c, base( r ) + "/empty.conf" ); }
    catch ( config_file_write_exception const& ) { r.state( "refused" ); return; }
    // accepting an empty configuration is fine too when the file reads back empty
  }
  r.log( std::to_string( n ) + " entries" );
  round_trip( r, c, want );
}

// all values up to 3 (4) characters over the printable specials
SCENARIO( c05_values, 2 )
{
  static char const al[] = "a =:[]$\"'\\;,\t-_./{}(B1\x80~";
  int n = 1 + r.choose( r.bound( 3, 4 ) ); string v;
  for ( int i = 0; i < n; ++i ) { v += al[r.choose( (int) sizeof al - 1 )]; }
  config_block_sptr c = config_block::empty_config(); c->set_value( "k:v", v, config_block_description_t( "d" ) ); c->set_value( "k:w", string( "after" ) );
  // blanks around a value are never part of it
  string t = cm::trim( v ); M want; want["k:v"] = t; want["k:w"] = "after";
  r.log( mc::show( v ) );
  string p = base( r ) + "/v.conf"; write_config_file( c, p ); config_block_sptr b;
  try { b = read_config_file( p ); } catch ( std::exception const& e ) { r.fail( "unreadable", string( e.what() ) + " for " + mc::show( v ) ); }
  r.step( 2 ); string w; for ( auto const& e : want ) { w += e.first + "=" + e.second + "\n"; }
  r.eqs( content( b ), w, "round-trip", "read back" ); r.state( t );
}

// lengths: values, keys, nesting and descriptions around the 80 column wrap
SCENARIO( c05_lengths, 2 )
{
  config_block_sptr c = config_block::empty_config(); M want; string k = "key", v = "val", d;
  switch ( r.choose( 5 ) )
  {
  case 0: v = string( 1 + r.choose( 300 ), 'v' ); d = "x"; break;
  case 1: k = "k" + string( 1 + r.choose( 300 ), 'y' ); break;
  case 2: { int n = 1 + r.choose( 120 ); for ( int i = 0; i < n; ++i ) { k += ":s" + std::to_string( i ); } } break;
  case 3: // words of every length up to 100, second word 1..12, joined by 1-3 blanks or a newline
    {
      int a = r.choose( 100 ), b = 1 + r.choose( 12 ); static char const* sep[] = { " ", "  ", "   ", "\n" };
      d = string( a, 'w' ) + sep[r.choose( 4 )] + string( b, 'u' ) + " k = hidden";
    } break;
  case 4: { int n = r.choose( 200 ); for ( int i = 0; i < n; ++i ) { d += string( 1 + i % 9, 'a' + i % 26 ) + ( i % 31 == 30 ? "\n" : " " ); } } break;
  }
  c->set_value( k, v, d ); c->set_value( "zz", string( "last" ) ); want[k] = v; want["zz"] = "last";
  r.log( "key " + std::to_string( k.size() ) + " value " + std::to_string( v.size() ) + " description " + std::to_string( d.size() ) );
  round_trip( r, c, want );
}

// destinations
SCENARIO( c05_destinations, 1 )
{
  string b = base( r ) + "/dst"; static int serial = 0; b += std::to_string( serial++ ); mkdir( b.c_str(), 0700 );
  config_block_sptr c = config_block::empty_config(); c->set_value( "key", string( "val" ), "descr" );
  string p; bool ok = true;
  switch ( r.choose( 14 ) )
  {
  case 0: p = b + "/new.conf"; break;
  case 1: p = b + "/old.conf"; put( p, string( 5000, 'x' ) + "\nblock q\n" ); break;
  case 2: p = b + "/x/y/z/new.conf"; break;
  case 3: p = b; ok = false; break;
  case 4: p = b + "/"; ok = false; break;
  case 5: put( b + "/file", "x" ); p = b + "/file/new.conf"; ok = false; break;
  case 6: put( b + "/file", "x" ); p = b + "/file/sub/new.conf"; ok = false; break;
  case 7: p = b + "/" + string( 300, 'n' ); ok = false; break;
  case 8: if ( symlink( ( b + "/missing/t" ).c_str(), ( b + "/dangling" ).c_str() ) ) {} p = b + "/dangling"; ok = false; break;
  case 9: if ( symlink( ( b + "/loop" ).c_str(), ( b + "/loop" ).c_str() ) ) {} p = b + "/loop"; ok = false; break;
  case 10: put( b + "/t.conf", "old = 1\n" ); if ( symlink( ( b + "/t.conf" ).c_str(), ( b + "/link" ).c_str() ) ) {} p = b + "/link"; break;
  case 11: if ( chdir( b.c_str() ) ) {} p = "rel.conf"; break;
  case 12: if ( chdir( b.c_str() ) ) {} p = "./r1/../r2/rel.conf"; mkdir( ( b + "/r1" ).c_str(), 0700 ); mkdir( ( b + "/r2" ).c_str(), 0700 ); break;
  case 13: mkdir( ( b + "/d" ).c_str(), 0700 ); if ( symlink( ( b + "/d" ).c_str(), ( b + "/ld" ).c_str() ) ) {} p = b + "/ld"; ok = false; break;
  }
  string err; r.log( p.substr( 0, 120 ) );
  try { write_config_file( c, p ); }
  catch ( config_file_write_exception const& ) { err = "write"; }
  catch ( std::exception const& e ) { err = string( "other " ) + e.what(); }
  r.step(); r.state( "d" + std::to_string( ok ) );
  if ( ok )
  {
    r.eqs( err, "", "write-refused", "writing to " + p );
    string g; try { g = content( read_config_file( p ) ); } catch ( std::exception const& e ) { r.fail( "unreadable", e.what() ); }
    r.eqs( g, "key=val\n", "round-trip", "reading " + p );
  }
  else { r.eqs( err, "write", "no-write-error", "writing to " + p.substr( 0, 200 ) ); }
}

// ======================================================================= C06
namespace {
struct Env
{
  string kw, xdg; bool kw_set = false, xdg_set = false, home_set = false; string home; string app = "myapp", ver, prefix;
  vector< string > dirs;      // expected order, "." excluded
  vector< string > usable;    // the ones below the scratch directory, in order
};
void apply( Env const& e )
{
  if ( e.kw_set ) { setenv( "KWIVER_CONFIG_PATH", e.kw.c_str(), 1 ); } else { unsetenv( "KWIVER_CONFIG_PATH" ); }
  if ( e.xdg_set ) { setenv( "XDG_CONFIG_HOME", e.xdg.c_str(), 1 ); } else { unsetenv( "XDG_CONFIG_HOME" ); }
  if ( e.home_set ) { setenv( "HOME", e.home.c_str(), 1 ); } else { unsetenv( "HOME" ); }
}
vector< string > split( string const& s ) { vector< string > v; std::stringstream ss( s ); string t; while ( std::getline( ss, t, ':' ) ) { v.push_back( t ); } return v; }
void expected( Env& e, string const& b )
{
  auto app = [&] ( vector< string > const& in ) { vector< string > o; for ( auto const& p : in ) { if ( ! e.ver.empty() ) { o.push_back( p + "/" + e.app + "/" + e.ver ); } o.push_back( p + "/" + e.app ); } return o; };
  if ( e.kw_set ) { for ( auto const& p : split( e.kw ) ) { e.dirs.push_back( p ); } }
  vector< string > c; if ( e.xdg_set ) { c = split( e.xdg ); }
  if ( e.home_set && ! e.home.empty() ) { c.push_back( e.home + "/.config" ); }
  c.push_back( "/etc/xdg" ); c.push_back( "/etc" );
  for ( auto const& p : app( c ) ) { e.dirs.push_back( p ); }
  vector< string > d = { "/usr/local/share", "/usr/share" }; bool ns = ! e.prefix.empty() && e.prefix != "/usr" && e.prefix != "/usr/local";
  if ( ns ) { d.push_back( e.prefix + "/share" ); }
  for ( auto const& p : app( d ) ) { e.dirs.push_back( p + "/config" ); }
  if ( ns ) { e.dirs.push_back( e.prefix + "/share/config" ); e.dirs.push_back( e.prefix + "/config" ); }
  for ( auto const& p : e.dirs ) { if ( p.compare( 0, b.size(), b ) == 0 ) { e.usable.push_back( p ); } }
}
// distinguishing content of candidate i (position in the search order)
string file_of( int id )
{
  string s = "who = " + std::to_string( id ) + "\nonly" + std::to_string( id ) + " = y\nblock b\n  shared = " + std::to_string( id ) + "\n";
  for ( int k = 0; k < 4; ++k ) { if ( ( id + 1 ) >> k & 1 ) { s += "  bit" + std::to_string( k ) + " = " + std::to_string( id ) + "\n"; } }
  return s + "endblock\n";
}
M parsed( int id )
{
  M m; string v = std::to_string( id ); m["who"] = v; m["only" + v] = "y"; m["b:shared"] = v;
  for ( int k = 0; k < 4; ++k ) { if ( ( id + 1 ) >> k & 1 ) { m["b:bit" + std::to_string( k )] = v; } }
  return m;
}
// reads `name` and compares; present[i] for usable dirs plus current directory last; bad = index holding a malformed file
void search( mc::Run& r, Env const& e, vector< int > const& have, int bad, bool merge, string const& name )
{
  M want; bool any = false, fails = false;
  for ( int i : have )
  {
    any = true;
    if ( i == bad ) { fails = true; break; }
    for ( auto const& kv : parsed( i ) ) { want.insert( kv ); }
    if ( ! merge ) { break; }
  }
  string err, what; config_block_sptr c;
  try { c = read_config_file( name, e.app, e.ver, e.prefix, merge ); }
  catch ( config_file_not_found_exception const& x ) { err = "notfound"; what = x.what(); }
  catch ( config_file_not_parsed_exception const& x ) { err = "parse"; what = x.what(); }
  catch ( std::exception const& x ) { err = "other"; what = x.what(); }
  r.step();
  if ( ! any ) { r.eqs( err, "notfound", "no-file", "no file exists (" + what + ")" ); r.outcome( "none" ); return; }
  if ( fails ) { r.eqs( err, "parse", "bad-file", "a file in the search is malformed (" + what + ")" ); r.outcome( "bad" ); return; }
  r.eqs( err, "", "refused", "files exist: " + what );
  string w; for ( auto const& kv : want ) { w += kv.first + "=" + kv.second + "\n"; }
  r.eqs( content( c ), w, "precedence", merge ? "merged configuration" : "first configuration" );
  r.outcome( std::to_string( have.size() ) + " files" ); r.state( w );
}
// full environment; files live in <dir>/c.conf
Env full( string const& b, string const& ver )
{
  Env e; e.kw_set = e.xdg_set = e.home_set = true; e.kw = b + "/k1:" + b + "/k2"; e.xdg = b + "/x"; e.home = b + "/h"; e.prefix = b + "/p"; e.ver = ver; expected( e, b ); return e;
}
void clear_all( vector< string > const& ds ) { for ( auto const& d : ds ) { unlink( ( d + "/c.conf" ).c_str() ); unlink( ( d + "/inc.conf" ).c_str() ); } }
} // namespace

// all presence subsets with every variable set
SCENARIO( c06_subsets, 4 )
{
  string b = base( r ); Env e = full( b, r.flip() ? "1.2" : "" ); bool merge = r.flip();
  apply( e ); string cwd = b + "/cwd"; mkdir( cwd.c_str(), 0700 ); if ( chdir( cwd.c_str() ) ) {}
  vector< string > ds = e.usable; ds.push_back( cwd );
  static std::set< string > made; for ( auto const& d : ds ) { if ( made.insert( d ).second ) { mkdirs( d ); } }
  clear_all( ds ); vector< int > have; r.log( string( merge ? "merge" : "first" ) + " version '" + e.ver + "'" );
  for ( size_t i = 0; i < ds.size(); ++i ) { if ( r.flip() ) { put( ds[i] + "/c.conf", file_of( (int) i ) ); have.push_back( (int) i ); r.log( ds[i].substr( b.size() ) ); } }
  search( r, e, have, -1, merge, "c.conf" );
  clear_all( ds );
}

// all environment shapes x at most two present files x at most one of them malformed
SCENARIO( c06_environments, 4 )
{
  string b = base( r ); Env e;
  switch ( r.choose( 5 ) ) { case 0: break; case 1: e.kw_set = true; e.kw = b + "/k1"; break; case 2: e.kw_set = true; e.kw = b + "/k1:" + b + "/k2"; break; case 3: e.kw_set = true; e.kw = b + "/k2:" + b + "/k1:"; break; case 4: e.kw_set = true; e.kw = ""; break; }
  switch ( r.choose( 3 ) ) { case 0: break; case 1: e.xdg_set = true; e.xdg = b + "/x"; break; case 2: e.xdg_set = true; e.xdg = b + "/x2:" + b + "/x"; break; }
  switch ( r.choose( 3 ) ) { case 0: break; case 1: e.home_set = true; e.home = b + "/h"; break; case 2: e.home_set = true; e.home = ""; break; }
  switch ( r.choose( 4 ) ) { case 0: break; case 1: e.prefix = b + "/p"; break; case 2: e.prefix = "/usr"; break; case 3: e.prefix = "/usr/local"; break; }
  if ( r.flip() ) { e.ver = "1.2"; }
  expected( e, b ); apply( e );
  {
    config_path_list_t got = config_file_paths( e.app, e.ver, e.prefix ); string g, w; for ( auto const& p : got ) { g += p + "\n"; } for ( auto const& p : e.dirs ) { w += p + "\n"; }
    r.eqs( g, w, "search-path", "search directories" );
  }
  string cwd = b + "/cwd"; mkdir( cwd.c_str(), 0700 ); if ( chdir( cwd.c_str() ) ) {}
  // every directory that could matter, so that files in directories which are not searched are present too
  vector< string > all = { b + "/k1", b + "/k2", b + "/x/myapp/1.2", b + "/x/myapp", b + "/x2/myapp/1.2", b + "/x2/myapp", b + "/h/.config/myapp/1.2", b + "/h/.config/myapp", b + "/p/share/myapp/1.2/config", b + "/p/share/myapp/config", b + "/p/share/config", b + "/p/config", cwd, b + "/x", b + "/p", b + "/h", b + "/p/share", b + "/x/myapp/config" };
  static bool once = false; if ( ! once ) { once = true; for ( auto const& d : all ) { mkdirs( d ); } }
  clear_all( all );
  bool merge = r.flip(); int a = r.choose( 19 ) - 1, c = a < 0 ? -1 : r.choose( 18 - a ) - 1 + a + 1; if ( c == a ) { c = -1; }
  int badsel = a < 0 ? 0 : r.choose( c < 0 ? 2 : 3 );
  vector< std::pair< int, int > > order;       // (position, id)
  int bad = badsel == 1 ? a : badsel == 2 ? c : -1;
  for ( int i : { a, c } )
  {
    if ( i < 0 ) { continue; }
    put( all[i] + "/c.conf", i == bad ? file_of( i ) + "this is malformed\n" : file_of( i ) ); r.log( all[i].substr( b.size() ) + ( i == bad ? " (malformed)" : "" ) );
    int pos = -1; for ( size_t k = 0; k < e.usable.size(); ++k ) { if ( e.usable[k] == all[i] ) { pos = (int) k; break; } }
    if ( all[i] == cwd ) { pos = 1000; }
    if ( pos >= 0 ) { order.push_back( { pos, i } ); }
  }
  std::sort( order.begin(), order.end() ); vector< int > have; for ( auto const& o : order ) { have.push_back( o.second ); }
  search( r, e, have, bad, merge, "c.conf" );
  clear_all( all );
}

// names: nested relative, absolute, a directory in the way; includes inside found files
SCENARIO( c06_names, 2 )
{
  string b = base( r ); Env e = full( b, "1.2" ); apply( e ); string cwd = b + "/cwd"; mkdir( cwd.c_str(), 0700 ); if ( chdir( cwd.c_str() ) ) {}
  vector< string > ds = e.usable; ds.push_back( cwd ); static bool once = false; if ( ! once ) { once = true; for ( auto const& d : ds ) { mkdirs( d + "/sub" ); } }
  for ( auto const& d : ds ) { unlink( ( d + "/sub/c.conf" ).c_str() ); rmdir( ( d + "/c.conf" ).c_str() ); } clear_all( ds );
  bool merge = r.flip(); int kind = r.choose( 4 ); int i = r.choose( (int) ds.size() ), j = r.choose( (int) ds.size() );
  vector< int > have; r.log( "kind " + std::to_string( kind ) + " " + ds[i].substr( b.size() ) + " " + ds[j].substr( b.size() ) );
  if ( kind == 0 )
  {
    put( ds[i] + "/sub/c.conf", file_of( i ) ); put( ds[j] + "/sub/c.conf", file_of( j ) ); have = { std::min( i, j ) }; if ( i != j ) { have.push_back( std::max( i, j ) ); }
    search( r, e, have, -1, merge, "sub/c.conf" );
  }
  else if ( kind == 1 )
  {
    put( ds[i] + "/c.conf", file_of( i ) ); put( ds[j] + "/c.conf", file_of( j ) ); search( r, e, { j }, -1, merge, ds[j] + "/c.conf" );
    unlink( ( ds[j] + "/c.conf" ).c_str() ); search( r, e, {}, -1, merge, ds[j] + "/c.conf" );
  }
  else if ( kind == 2 )
  {
    // a directory of that name is not a configuration file
    mkdir( ( ds[i] + "/c.conf" ).c_str(), 0700 ); if ( i != j ) { put( ds[j] + "/c.conf", file_of( j ) ); have = { j }; }
    search( r, e, have, -1, merge, "c.conf" ); rmdir( ( ds[i] + "/c.conf" ).c_str() );
  }
  else
  {
    // the file found includes another one: earliest search directory holding it, then beside the including file
    put( ds[i] + "/c.conf", "before = 1\ninclude inc.conf\nafter = 1\n" ); put( ds[j] + "/inc.conf", "inc = " + std::to_string( j ) + "\n" );
    bool third = r.flip(); int t = third ? r.choose( (int) ds.size() ) : -1; if ( third ) { put( ds[t] + "/inc.conf", "inc = " + std::to_string( t ) + "\n" ); }
    int cw = (int) ds.size() - 1; int best = -1;
    for ( int d = 0; d < cw; ++d ) { if ( d == j || d == t ) { best = d; break; } }
    if ( best < 0 && i == cw && ( j == cw || t == cw ) ) { best = cw; }
    string err, g; try { g = content( read_config_file( "c.conf", e.app, e.ver, e.prefix, merge ) ); } catch ( config_file_not_found_exception const& ) { err = "notfound"; } catch ( std::exception const& x ) { err = x.what(); }
    r.step();
    if ( best < 0 ) { r.eqs( err, "notfound", "include-error", "include that does not exist in the search directories" ); }
    else { r.eqs( err, "", "include-refused", "include exists" ); r.eqs( g, "after=1\nbefore=1\ninc=" + std::to_string( best ) + "\n", "include-precedence", "configuration with include" ); r.state( g ); }
  }
  for ( auto const& d : ds ) { unlink( ( d + "/sub/c.conf" ).c_str() ); } clear_all( ds );
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
