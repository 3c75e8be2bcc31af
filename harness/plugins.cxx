// C19: plugin discovery.
#include "child.h"
#include <vital/algorithm_plugin_manager.h>
#include <vital/algo/convert_image.h>
#include <vital/logger/kwiver_logger.h>
#include <sys/stat.h>
using namespace kwiver::vital;
using std::string; using std::vector; using std::map; using std::set;
namespace {
typedef algo::convert_image CI;
enum Kind { GOOD, NOENTRY, FAILING, PARTIAL, NEGATIVE, TEXT, EMPTY, DIR, DANGLING, LINK };
char const* mods[] = { "good.so", "noentry.so", "failing.so", "partial.so", "negative.so" };
struct File { string name; Kind kind; };
struct Layout { int base; vector< File > files; char const* what; }; // base: 0 missing, 1 a file, 2 directory
vector< Layout > const layouts = {
  { 0, {}, "missing" }, { 1, {}, "a file" }, { 2, {}, "empty" }, { 2, { { "m1.so", GOOD } }, "m1" }, { 2, { { "m2.so", GOOD } }, "m2" }, { 2, { { "m1.so", GOOD }, { "m2.so", GOOD } }, "m1 m2" },
  { 2, { { "m1.so", TEXT }, { "m2.so", GOOD } }, "text m2" }, { 2, { { "m1.so", NOENTRY }, { "m2.so", GOOD } }, "noentry m2" }, { 2, { { "m1.so", FAILING }, { "m2.so", GOOD } }, "failing m2" }, { 2, { { "m1.so", PARTIAL }, { "m2.so", GOOD } }, "partial m2" },
  { 2, { { "m1.so", DIR }, { "m2.so", GOOD } }, "directory m2" }, { 2, { { "m1.so", NEGATIVE }, { "m2.so", GOOD } }, "negative m2" }, { 2, { { "x.y.so", GOOD }, { "x.so", GOOD } }, "x.y x" }, { 2, { { "m1.so.bak", GOOD }, { "m1.SO", GOOD }, { "m1", GOOD }, { "libm.so.1", GOOD }, { "m2.so", GOOD } }, "other suffixes m2" },
  { 2, { { "m1.so", DANGLING }, { "m2.so", LINK } }, "dangling link, link" }, { 2, { { "m1.so", EMPTY }, { "m2.so", GOOD } }, "empty file m2" }, { 2, { { "m1.so", NOENTRY }, { "m2.so", TEXT }, { "x.so", FAILING } }, "all bad" } };
void run( string const& cmd ) { if ( system( cmd.c_str() ) ) { throw mc::Divergence( "command failed: " + cmd ); } }
string store( string const& scratch, string const& dir, string const& file, Kind k ) // a private copy per place, so that every module is a library of its own
{
  static set< string > have; string p = scratch + "/store/" + dir + "_" + file + "_" + mods[k]; if ( have.insert( p ).second ) { run( "mkdir -p " + scratch + "/store && cp " + string( getenv( "VERIF_WORK" ) ) + "/mods/" + mods[k] + " " + p ); } return p;
}
void realize( string const& scratch, string const& dir, Layout const& l )
{
  string d = scratch + "/" + dir; if ( l.base == 0 ) { return; } if ( l.base == 1 ) { std::ofstream( d.c_str() ) << "x"; return; } mkdir( d.c_str(), 0755 );
  for ( auto const& f : l.files ) { string p = d + "/" + f.name; switch ( f.kind ) { case TEXT: std::ofstream( p.c_str() ) << "not a library\n"; break; case EMPTY: std::ofstream( p.c_str() ).flush(); break; case DIR: mkdir( p.c_str(), 0755 ); break; case DANGLING: if ( symlink( "nowhere.so", p.c_str() ) ) {} break; case LINK: if ( symlink( store( scratch, dir, f.name, GOOD ).c_str(), p.c_str() ) ) {} break; default: if ( link( store( scratch, dir, f.name, f.kind ).c_str(), p.c_str() ) ) { throw mc::Divergence( "link failed" ); } } }
}
void clean( string const& scratch, vector< string > const& dirs )
{
  for ( auto const& dir : dirs ) { string d = scratch + "/" + dir; if ( unlink( d.c_str() ) == 0 || errno == ENOENT ) { continue; } for ( auto const& l : layouts ) { for ( auto const& f : l.files ) { string p = d + "/" + f.name; if ( unlink( p.c_str() ) && errno == EISDIR ) { rmdir( p.c_str() ); } } } if ( rmdir( d.c_str() ) ) { throw mc::Divergence( "cannot remove " + d ); } }
  unlink( ( scratch + "/log" ).c_str() );
}
bool so( string const& n ) { return n.size() > 3 && n.substr( n.size() - 3 ) == ".so"; }
bool enters( Kind k ) { return k == GOOD || k == LINK || k == FAILING || k == PARTIAL || k == NEGATIVE; }
bool good( Kind k ) { return k == GOOD || k == LINK; }
struct World
{
  mc::Run& r; string scratch; map< string, Layout const* > dirs; // by directory name relative to the scratch directory
  map< string, string > provider; set< string > names; size_t seen = 0;
  World( mc::Run& a ) : r( a ), scratch( a.scratch ) {}
  string key( string const& p ) const { string q = p; if ( q.compare( 0, scratch.size() + 1, scratch + "/" ) == 0 ) { q = q.substr( scratch.size() + 1 ); } while ( ! q.empty() && q.back() == '/' ) { q.resize( q.size() - 1 ); } return q; }
  vector< string > log() const { std::ifstream in( ( scratch + "/log" ).c_str() ); vector< string > v; string s; while ( std::getline( in, s ) ) { v.push_back( s ); } return v; }
  // what loading must do; name empty: everything
  void expect_load( vector< string > const& path, string const& name, string const& w )
  {
    vector< string > l = log(); size_t at = seen;
    for ( auto const& d : path )
    {
      if ( d.empty() ) { continue; } auto it = dirs.find( key( d ) ); if ( it == dirs.end() || it->second->base != 2 ) { continue; } vector< string > want, got;
      for ( auto const& f : it->second->files ) { if ( ! so( f.name ) || ( ! name.empty() && f.name != name + ".so" ) || ! enters( f.kind ) ) { continue; } string b = f.name.substr( 0, f.name.size() - 3 ); want.push_back( key( d ) + "/" + f.name ); if ( good( f.kind ) ) { provider["impl_" + b] = key( d ) + "/" + f.name; names.insert( b ); } }
      for ( size_t i = 0; i < want.size() && at < l.size(); ++i, ++at ) { string g = key( l[at] ); size_t p; while ( ( p = g.find( "//" ) ) != string::npos ) { g.erase( p, 1 ); } got.push_back( g ); } std::sort( want.begin(), want.end() ); std::sort( got.begin(), got.end() );
      if ( want != got ) { string a, b; for ( auto const& s : want ) { a += s + " "; } for ( auto const& s : got ) { b += s + " "; } r.fail( "order", w + ": loading " + key( d ) + " entered [" + b + "] expected [" + a + "]" ); }
      r.step( want.size() );
    }
    if ( at != l.size() ) { r.fail( "extra-load", w + ": entered " + l[at] + " in addition" ); } seen = l.size();
  }
  void expect_none( string const& w ) { vector< string > l = log(); if ( l.size() != seen ) { r.fail( "extra-load", w + ": entered " + l[seen] + " although loading was done" ); } }
  void compare( string const& w )
  {
    vector< string > got = algorithm_plugin_manager::instance().registered_module_names(); string a, b; std::sort( got.begin(), got.end() ); for ( auto const& s : got ) { a += s + " "; } for ( auto const& s : names ) { b += s + " "; } r.eqs( a, b, "module-names", w + ": recorded modules" ); vector< string > impls = CI::registered_names(); set< string > is( impls.begin(), impls.end() ); r.step( 2 );
    for ( auto const& e : provider ) { if ( ! is.count( e.first ) ) { r.fail( "not-registered", w + ": " + e.first + " is not available" ); } }
    for ( auto const& n : is ) { auto p = CI::create( n ); auto q = algorithm::create( "convert_image", n ); r.step( 2 ); if ( ! p || ! q ) { r.fail( "create", w + ": cannot create " + n ); } string d = key( p->description() ), i = p->impl_name(); size_t x; while ( ( x = d.find( "//" ) ) != string::npos ) { d.erase( x, 1 ); } if ( n.compare( 0, 5, "part_" ) == 0 ) { continue; } auto e = provider.find( n ); if ( e == provider.end() ) { r.fail( "unexpected-algorithm", w + ": " + n + " became available" ); } r.eqs( d, e->second, "provider", w + ": provider of " + n ); r.eqs( i, n, "impl-name", w ); p->set_configuration( config_block::empty_config() ); r.check( p->convert( image_container_sptr() ) == image_container_sptr() && q->description() == p->description(), "use", w ); }
  }
};
void quiet() { for ( char const* n : { "vital.algorithm", "vital.registrar", "vital.algorithm_plugin_manager" } ) { get_logger( n )->set_level( kwiver_logger::LEVEL_FATAL ); } }
void start( mc::Run& r, string const* env ) { if ( chdir( r.scratch.c_str() ) ) {} setenv( "VERIF_PLUGIN_LOG", ( r.scratch + "/log" ).c_str(), 1 ); if ( env ) { setenv( "KWIVER_PLUGIN_PATH", env->c_str(), 1 ); } else { unsetenv( "KWIVER_PLUGIN_PATH" ); } quiet(); }
vector< string > const builtin = { "/verif-no-such-prefix/lib/maptk", "builtin1", "builtin2" }; // as configured by the build of this check
}
SCENARIO( c19_calls, 2 )
{
  int e = r.choose( (int) layouts.size() ), b = r.choose( (int) layouts.size() ), n = r.bound( 2, 3 ); vector< int > ops; string w = string( "env dir: " ) + layouts[e].what + "; built-in dir: " + layouts[b].what + "; calls"; static char const* opn[] = { "once", "all", "m1", "m2", "x", "x.y", "none", "add" };
  for ( int i = 0; i < n; ++i ) { ops.push_back( r.choose( 8 ) ); w += string( " " ) + opn[ops.back()]; } r.log( w ); r.state( w );
  vector< string > used = { "e1", "builtin1", "builtin2", "added" }; clean( r.scratch, used ); static Layout const L2 = { 2, { { "m2.so", GOOD } }, "m2" }; Layout const& added = layouts[5]; realize( r.scratch, "e1", layouts[e] ); realize( r.scratch, "builtin1", layouts[b] ); realize( r.scratch, "builtin2", L2 ); realize( r.scratch, "added", added );
  mc::in_child( r, [&] () {
    string env = r.scratch + "/e1"; start( r, &env ); World wd( r ); wd.dirs["e1"] = &layouts[e]; wd.dirs["builtin1"] = &layouts[b]; wd.dirs["builtin2"] = &L2; wd.dirs["added"] = &added; vector< string > path = { env }; path.insert( path.end(), builtin.begin(), builtin.end() ); bool once = false; string s = w + " |"; algorithm_plugin_manager& m = algorithm_plugin_manager::instance(); wd.compare( s );
    for ( int o : ops )
    {
      s += string( " " ) + opn[o];
      switch ( o ) { case 0: { bool x = algorithm_plugin_manager::load_plugins_once(); r.check( x == ! once, "once-result", s + " returned " + std::to_string( x ) ); if ( ! once ) { wd.expect_load( path, "", s ); } else { wd.expect_none( s ); } once = true; break; }
      case 1: m.register_plugins(); wd.expect_load( path, "", s ); break; case 7: m.add_search_path( r.scratch + "/added" ); path.push_back( r.scratch + "/added" ); wd.expect_none( s ); break; default: m.register_plugins( opn[o] ); wd.expect_load( path, opn[o], s ); }
      r.check( &m == &algorithm_plugin_manager::instance(), "one-manager", s ); vector< string > sp; for ( auto const& x : m.get_search_path() ) { if ( ! x.empty() ) { sp.push_back( x ); } } r.check( sp == path, "search-path", s + ": search path differs" ); wd.compare( s );
    }
  } );
}
SCENARIO( c19_environment, 2 )
{
  static vector< vector< string > > const forms = { { "-" }, {}, { "e1" }, { "e2" }, { "e1", "e2" }, { "e2", "e1" }, { "", "e1" }, { "e1", "", "e2" }, { "e1", "" }, { "e1/" }, { "missing", "e1" }, { "e1", "e1" }, { "=e1", "e2" }, { "e1/../e2" }, { "e2", "missing", "", "e1/" }, { "." } };
  vector< string > f = forms[r.choose( (int) forms.size() )]; static int const l1[] = { 3, 5, 9, 12 }, l2[] = { 4, 5, 12, 0, 1 }, lb[] = { 2, 4, 0, 8 }; int e1 = l1[r.choose( 4 )], e2 = l2[r.choose( 5 )], b1 = lb[r.choose( 4 )], b2 = lb[r.choose( 4 )]; bool twice = r.flip(); bool unset = f.size() == 1 && f[0] == "-"; if ( unset ) { f.clear(); } string env; vector< string > path; for ( size_t i = 0; i < f.size(); ++i ) { string p = f[i]; p = p.empty() ? "" : p[0] == '=' ? p.substr( 1 ) : p == "." ? p : r.scratch + "/" + p; env += ( i ? ":" : "" ) + p; if ( ! p.empty() ) { path.push_back( p ); } } string w = unset ? "unset" : "\"" + env + "\""; for ( int x : { e1, e2, b1, b2 } ) { w += string( ", " ) + layouts[x].what; } r.log( w ); r.state( w );
  vector< string > used = { "e1", "e2", "builtin1", "builtin2", "added" }; clean( r.scratch, used ); realize( r.scratch, "e1", layouts[e1] ); realize( r.scratch, "e2", layouts[e2] ); realize( r.scratch, "builtin1", layouts[b1] ); realize( r.scratch, "builtin2", layouts[b2] );
  mc::in_child( r, [&] () {
    start( r, unset ? nullptr : &env ); World wd( r ); wd.dirs["e1"] = &layouts[e1]; wd.dirs["e2"] = wd.dirs["e1/../e2"] = &layouts[e2]; wd.dirs["builtin1"] = &layouts[b1]; wd.dirs["builtin2"] = &layouts[b2]; path.insert( path.end(), builtin.begin(), builtin.end() ); r.check( algorithm_plugin_manager::load_plugins_once(), "once-result", w ); wd.expect_load( path, "", w ); wd.compare( w ); if ( twice ) { algorithm_plugin_manager::instance().register_plugins(); wd.expect_load( path, "", w ); } r.check( ! algorithm_plugin_manager::load_plugins_once(), "once-result", w ); wd.expect_none( w ); wd.compare( w );
    vector< string > sp; for ( auto const& x : algorithm_plugin_manager::instance().get_search_path() ) { if ( ! x.empty() ) { sp.push_back( x ); } } r.check( sp == path, "search-path", w + ": search path differs" );
  } );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
