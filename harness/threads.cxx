// C20 (logging), C22 (plugin loading), C23 (configurations) under every schedule within the preemption bound.
#include "sched_mc.h"
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <fstream>
#include <sys/stat.h>
#ifdef WITH_APM
#include <vital/algorithm_plugin_manager.h>
#include <vital/algo/convert_image.h>
#endif
using namespace kwiver::vital;
using std::string; using std::vector; using std::map; using std::set;
namespace {
typedef std::function< void( int ) > body_t;
void trampoline( void* p, int t ) { ( *(body_t*) p )( t ); }
void run_threads( int n, int preemptions, body_t f ) { sched_run( n, trampoline, &f, preemptions ); }
void bad( string const& key, string const& msg ) { sched_fail( ( key + "|" + msg ).c_str() ); }
string slurp( string const& f ) { std::ifstream in( f.c_str() ); std::stringstream s; s << in.rdbuf(); return s.str(); }
bool digits( string const& s, size_t p, size_t n ) { if ( p + n > s.size() ) { return false; } for ( size_t i = 0; i < n; ++i ) { if ( ! isdigit( (unsigned char) s[p + i] ) ) { return false; } } return true; }
// "2026-01-02 03:04:05.678 LEVEL rest" -> LEVEL rest, or "" if the prefix is not well formed
string unprefix( string const& l )
{
  if ( ! ( digits( l, 0, 4 ) && l[4] == '-' && digits( l, 5, 2 ) && l[7] == '-' && digits( l, 8, 2 ) && l[10] == ' ' && digits( l, 11, 2 ) && l[13] == ':' && digits( l, 14, 2 ) && l[16] == ':' && digits( l, 17, 2 ) && l[19] == '.' ) ) { return ""; }
  size_t p = 20; while ( p < l.size() && isdigit( (unsigned char) l[p] ) ) { ++p; } if ( p == 20 || p > 23 || p >= l.size() || l[p] != ' ' ) { return ""; } return l.substr( p + 1 );
}
// every message of want (its lines in order, each "LEVEL text") appears exactly once and in one piece, nothing else carries the mark "%%"
void check_output( string const& text, vector< vector< string > > want, vector< vector< string > > optional = {} )
{
  vector< string > ls; std::stringstream ss( text ); string l; while ( std::getline( ss, l ) ) { ls.push_back( l ); } if ( ! text.empty() && text.back() != '\n' ) { bad( "torn", "the output does not end with a complete line" ); }
  vector< bool > used( ls.size(), false ); size_t i = 0;
  while ( i < ls.size() )
  {
    if ( ls[i].find( "%%" ) == string::npos ) { ++i; continue; } string u = unprefix( ls[i] ); if ( u.empty() ) { bad( "torn", "line without a complete prefix: " + ls[i] ); }
    bool hit = false; for ( auto* set : { &want, &optional } ) { for ( size_t m = 0; m < set->size() && ! hit; ++m ) { auto const& w = ( *set )[m]; bool same = true; for ( size_t k = 0; k < w.size() && same; ++k ) { same = i + k < ls.size() && unprefix( ls[i + k] ) == w[k]; } if ( same ) { i += w.size(); set->erase( set->begin() + m ); hit = true; } } if ( hit ) { break; } }
    if ( ! hit ) { bad( "message-lines", "a message is interrupted, repeated or altered at line: " + ls[i] ); }
  }
  if ( ! want.empty() ) { bad( "message-lost", "a message is missing: " + want[0][0] ); }
}
}
#if defined( RUN_C20 )
namespace { void warm() { static logger_handle_t h = get_logger( "warm" ); } } // the manager exists already
SCENARIO( c20_first_use, 3 )
{
  int const n = 2 + r.choose( r.thorough() ? 2 : 2 ); static char const* const names[][3] = { { "a", "a", "a" }, { "a", "b", "c" }, { "a", "b", "a" } }; int const pat = r.choose( 3 ), what = r.choose( 3 ); int const pre = n == 2 ? r.bound( 3, 6 ) : r.bound( 1, 2 );
  r.log( std::to_string( n ) + " threads, names " + names[pat][0] + names[pat][1] + names[pat][2] + ( what == 0 ? ", look-up only" : what == 1 ? ", look-up and one message" : ", messages of two lines" ) );
  mc::sched( r, [&] ( string const& err ) {
    logger_handle_t h[3], g[3]; kwiver_logger_manager* m[3] = { 0, 0, 0 };
    run_threads( n, pre, [&] ( int t ) {
      if ( what == 0 ) { m[t] = kwiver_logger_manager::instance(); }
      h[t] = get_logger( names[pat][t] );
      if ( what == 1 ) { h[t]->log_info( string( "%%" ) + char( '0' + t ) ); } if ( what == 2 ) { h[t]->log_warn( string( "%%" ) + char( '0' + t ) + "x\n%%" + char( '0' + t ) + "y" ); }
      g[t] = get_logger( string( names[pat][( t + 1 ) % n] ) ); } );
    for ( int i = 0; i < n; ++i ) { if ( what == 0 && ( ! m[i] || m[i] != kwiver_logger_manager::instance() ) ) { bad( "two-managers", "different managers" ); } if ( ! h[i] || h[i] != get_logger( names[pat][i] ) || h[i] != g[( i + n - 1 ) % n] ) { bad( "two-loggers", string( "different loggers for name " ) + names[pat][i] ); } if ( h[i]->get_name() != names[pat][i] ) { bad( "logger-name", h[i]->get_name() ); } for ( int j = 0; j < i; ++j ) { if ( ( h[i] == h[j] ) != ( string( names[pat][i] ) == names[pat][j] ) ) { bad( "shared-logger", "loggers of different names are one, or of one name are two" ); } } }
    vector< vector< string > > w; for ( int t = 0; t < n; ++t ) { string c = string( "%%" ) + char( '0' + t ); if ( what == 1 ) { w.push_back( { "INFO " + c } ); } if ( what == 2 ) { w.push_back( { "WARN " + c + "x", "WARN " + c + "y" } ); } } check_output( slurp( err ), w );
  } );
}
SCENARIO( c20_messages, 3 )
{
  int const n = 2 + r.choose( 2 ), same = r.choose( 2 ), form = r.choose( 3 ); int const pre = n == 2 ? r.bound( 3, 6 ) : r.bound( 1, 2 ); warm(); r.log( std::to_string( n ) + ( same ? " threads, one logger" : " threads, own loggers" ) + ", form " + std::to_string( form ) );
  mc::sched( r, [&] ( string const& err ) {
    logger_handle_t h[3]; for ( int i = 0; i < n; ++i ) { h[i] = get_logger( same ? "s" : string( 1, char( 'a' + i ) ) ); }
    run_threads( n, pre, [&] ( int t ) { string c = string( "%%" ) + char( '0' + t ); switch ( form ) { case 0: h[t]->log_error( c ); h[t]->log_error( c + "b\n" + c + "c" ); break; case 1: LOG_INFO( h[t], c << 1 ); break; default: h[t]->log_fatal( c + "f", logger_ns::location_info( "f.cxx", "int m()", 7 ) ); h[t]->log_trace( c + "g" ); } } );
    vector< vector< string > > w; string o = slurp( err ); for ( int t = 0; t < n; ++t ) { string c = string( "%%" ) + char( '0' + t ); switch ( form ) { case 0: w.push_back( { "ERROR " + c } ); w.push_back( { "ERROR " + c + "b", "ERROR " + c + "c" } ); break; case 1: { size_t p = o.find( "INFO " ), q = p == string::npos ? p : o.find( "%%", p ); w.push_back( { p == string::npos || q == string::npos ? "INFO" : o.substr( p, q - p ) + c + "1" } ); } break; default: w.push_back( { "FATAL f.cxx(7): " + c + "f" } ); w.push_back( { "TRACE " + c + "g" } ); } } check_output( o, w );
  } );
}
SCENARIO( c20_levels, 3 )
{
  int const from = r.choose( 3 ), to = r.choose( 3 ), n = 2 + r.choose( 2 ); int const pre = n == 2 ? r.bound( 3, 6 ) : r.bound( 1, 2 ); static kwiver_logger::log_level_t const lv[] = { kwiver_logger::LEVEL_DEBUG, kwiver_logger::LEVEL_WARN, kwiver_logger::LEVEL_FATAL }; warm(); r.log( "level from " + std::to_string( lv[from] ) + " to " + std::to_string( lv[to] ) + ", " + std::to_string( n ) + " threads" );
  mc::sched( r, [&] ( string const& err ) {
    logger_handle_t h = get_logger( "s" ), h2 = get_logger( "other" ); h->set_level( lv[from] ); h2->set_level( kwiver_logger::LEVEL_TRACE );
    run_threads( n, pre, [&] ( int t ) { if ( t == 0 ) { h->set_level( lv[to] ); } else if ( t == 1 ) { h->log_debug( "%%d" ); h->log_warn( "%%w" ); h->log_fatal( "%%f" ); if ( h->is_warn_enabled() ) { h2->log_trace( "%%t" ); } } else { get_logger( "s" )->log_error( "%%e" ); } } );
    if ( h->get_level() != lv[to] ) { bad( "level", "the level set is not the level read" ); }
    vector< vector< string > > w, o; auto add = [&] ( int sev, string const& s ) { bool a = lv[from] <= sev, b = lv[to] <= sev; if ( a && b ) { w.push_back( { s } ); } else if ( a || b ) { o.push_back( { s } ); } };
    add( kwiver_logger::LEVEL_DEBUG, "DEBUG %%d" ); add( kwiver_logger::LEVEL_WARN, "WARN %%w" ); add( kwiver_logger::LEVEL_FATAL, "FATAL %%f" ); add( kwiver_logger::LEVEL_WARN, "TRACE %%t" ); if ( n > 2 ) { add( kwiver_logger::LEVEL_ERROR, "ERROR %%e" ); } check_output( slurp( err ), w, o );
  } );
}
#elif defined( RUN_C22 )
namespace {
void make_dirs( string const& scratch, int layout )
{
  string w = string( getenv( "VERIF_WORK" ) ) + "/mods/", d = scratch + "/p"; auto run = [] ( string const& c ) { if ( system( c.c_str() ) ) { throw mc::Divergence( "command failed: " + c ); } };
  static set< string > done; if ( ! done.insert( scratch ).second ) { return; } for ( int l = 0; l < 3; ++l ) { string e = d + std::to_string( l ); run( "mkdir -p " + e ); if ( l > 0 ) { run( "cp " + w + "good.so " + e + "/m1.so" ); } if ( l > 1 ) { run( "cp " + w + "good.so " + e + "/m2.so; cp " + w + "noentry.so " + e + "/m0.so" ); } } (void) layout;
}
void quiet() { for ( char const* n : { "vital.algorithm", "vital.registrar", "vital.algorithm_plugin_manager" } ) { get_logger( n )->set_level( kwiver_logger::LEVEL_FATAL ); } }
}
SCENARIO( c22_once, 4 )
{
  int const layout = r.choose( 3 ), n = 2 + r.choose( 2 ), ops = r.choose( 4 ); bool const logged = r.flip(); int const pre = n == 2 ? r.bound( 3, 6 ) : r.bound( 1, 2 ); if ( logged && n == 3 ) { r.state( "-" ); return; } make_dirs( r.scratch, layout ); r.log( std::to_string( layout ) + " modules, " + std::to_string( n ) + " threads, operations " + std::to_string( ops ) + ( logged ? ", with log output" : "" ) );
  mc::sched( r, [&] ( string const& ) {
    string lg = r.scratch + "/log"; unlink( lg.c_str() ); setenv( "VERIF_PLUGIN_LOG", lg.c_str(), 1 ); setenv( "KWIVER_PLUGIN_PATH", ( r.scratch + "/p" + std::to_string( layout ) ).c_str(), 1 ); if ( ! logged ) { quiet(); }
    bool first[3] = { false, false, false }; algorithm_plugin_manager* m[3] = { 0, 0, 0 }; vector< string > seen[3]; size_t mods[3] = { 0, 0, 0 }; string made[3];
    run_threads( n, pre, [&] ( int t ) {
      if ( ops == 1 || ( ops == 2 && t > 0 ) ) { m[t] = &algorithm_plugin_manager::instance(); }
      if ( ops == 3 && t > 0 ) { m[t] = &algorithm_plugin_manager::instance(); if ( m[t]->get_search_path().empty() ) { bad( "search-path", "the manager was visible before it was complete" ); } return; }
      first[t] = algorithm_plugin_manager::load_plugins_once();
      mods[t] = algorithm_plugin_manager::instance().registered_module_names().size(); seen[t] = algo::convert_image::registered_names(); if ( layout > 0 ) { auto p = algo::convert_image::create( "impl_m1" ); made[t] = p ? p->impl_name() : "none"; } } );
    int firsts = 0; for ( int t = 0; t < n; ++t ) { bool const loads = ! ( ops == 3 && t > 0 ); firsts += first[t]; if ( m[t] && m[t] != &algorithm_plugin_manager::instance() ) { bad( "two-managers", "different plugin managers" ); } if ( loads && ( (int) mods[t] != layout || (int) seen[t].size() != layout ) ) { bad( "not-all-loaded", "thread " + std::to_string( t ) + " returned from loading and sees " + std::to_string( mods[t] ) + " modules and " + std::to_string( seen[t].size() ) + " algorithms instead of " + std::to_string( layout ) ); } if ( loads && layout > 0 && made[t] != "impl_m1" ) { bad( "create", "an algorithm of a loaded module can not be created: " + made[t] ); } }
    if ( firsts != 1 ) { bad( "once", std::to_string( firsts ) + " callers were told that they loaded the plugins" ); } string o = slurp( lg ); if ( std::count( o.begin(), o.end(), '\n' ) != layout ) { bad( "once", "modules registered themselves: " + o ); } if ( algorithm_plugin_manager::load_plugins_once() ) { bad( "once", "loaded again" ); }
  } );
}
#else
namespace {
struct Doc { char const* name; char const* text; map< string, string > want; };
vector< Doc > const& docs()
{
  static vector< Doc > const d = {
    { "a.conf", "x = 1\nblock b\n  y[RO] = two words\n  :loc L\nendblock\n", {} },
    { "b.conf", "v := abc\nlong.key-name:sub/part = $LOCAL{v}/def\n# comment\nblock q\nz = $ENV{VERIF_E} # tail\nendblock\n", { { "long.key-name:sub/part", "abc/def" }, { "q:z", "env" } } },
    { "c.conf", "include inc.conf\nk = 5\nrelativepath p = f.txt\n", { { "i:n", "7" }, { "k", "5" }, { "p", "*" } } } };
  return d;
}
char const* const a_text = "x = 1\nblock b\n  y[RO] = two words\nendblock\n";
map< string, string > const a_want = { { "x", "1" }, { "b:y", "two words" } };
string read_all( string const& f, map< string, string > const& want )
{
  config_block_sptr c = read_config_file( f ); auto ks = c->available_values(); if ( ks.size() != want.size() ) { return f + " has " + std::to_string( ks.size() ) + " entries"; }
  for ( auto const& e : want ) { string v = c->get_value< string >( e.first, "?" ); if ( e.second == "*" ? v.empty() || v == "?" : v != e.second ) { return f + ": " + e.first + " = " + v; } } return "";
}
void quiet() { for ( char const* n : { "vital.config_parser", "vital.token_expander", "read_config_file" } ) { get_logger( n )->set_level( kwiver_logger::LEVEL_FATAL ); } }
}
SCENARIO( c23_read, 4 )
{
  int const x = r.choose( 3 ), y = r.choose( 3 ), n = 2 + r.choose( 2 ); int const pre = n == 2 ? r.bound( 2, 4 ) : r.bound( 1, 2 ); bool const cold = r.flip(); r.log( string( "read " ) + docs()[x].name + " and " + docs()[y].name + ", " + std::to_string( n ) + " threads" + ( cold ? ", first use" : "" ) );
  string d = r.scratch; for ( auto const& e : docs() ) { std::ofstream( ( d + "/" + e.name ).c_str() ) << ( string( e.name ) == "a.conf" ? a_text : e.text ); } std::ofstream( ( d + "/inc.conf" ).c_str() ) << "block i\nn = 7\nendblock\n"; setenv( "VERIF_E", "env", 1 );
  mc::sched( r, [&] ( string const& ) {
    quiet(); if ( ! cold ) { read_config_file( d + "/a.conf" ); } string res[3]; int const doc[3] = { x, y, x };
    run_threads( n, pre, [&] ( int t ) { int k = doc[t]; try { res[t] = read_all( d + "/" + docs()[k].name, k == 0 ? a_want : docs()[k].want ); } catch ( std::exception const& e ) { res[t] = e.what(); } } );
    for ( int t = 0; t < n; ++t ) { if ( ! res[t].empty() ) { bad( "interference", "thread " + std::to_string( t ) + ": " + res[t] ); } }
  } );
}
SCENARIO( c23_use, 3 )
{
  int const a = r.choose( 5 ), b = r.choose( 5 ); int const n = 2 + r.choose( 2 ); int const pre = n == 2 ? r.bound( 2, 4 ) : r.bound( 1, 2 ); static char const* const nm[] = { "query one object", "build own", "write own file", "merge and view own", "typed values" }; r.log( string( nm[a] ) + " / " + nm[b] ); static bool const warm = ( quiet(), read_config_file( "/dev/null" ), true ); (void) warm; string d = r.scratch; mkdir( ( d + "/o" ).c_str(), 0755 );
  mc::sched( r, [&] ( string const& ) {
    quiet(); config_block_sptr shared = config_block::empty_config( "s" ); shared->set_value( "a:b", "1.5", "descr" ); shared->set_value( "t", "true" ); shared->mark_read_only( "t" ); shared->set_location( "t", std::make_shared< string >( "f" ), 3 ); config_block_sptr view = shared->subblock_view( "a" ); string res[3];
    run_threads( n, pre, [&] ( int t ) {
      int k = t == 0 ? a : t == 1 ? b : a; string& o = res[t]; string id( 1, char( '0' + t ) );
      switch ( k )
      {
      case 0: { string f; int l = 0; if ( shared->get_value< double >( "a:b" ) != 1.5 || ! shared->get_value< bool >( "t" ) || shared->get_description( "a:b" ) != "descr" || view->get_value< string >( "b" ) != "1.5" || ! shared->is_read_only( "t" ) || shared->available_values().size() != 2 || view->available_values().size() != 1 || ! shared->get_location( "t", f, l ) || l != 3 || shared->has_value( "zz" ) ) { o = "wrong query result"; } std::ostringstream os; shared->print( os ); if ( os.str().empty() ) { o = "nothing printed"; } config_block_sptr s = shared->subblock( "a" ); if ( s->get_value< string >( "b" ) != "1.5" ) { o = "wrong copy"; } } break;
      case 1: { config_block_sptr c = config_block::empty_config( id ); c->set_value( "k" + id, id, "d" ); c->set_value( "n", 5 ); if ( c->get_value< string >( "k" + id ) != id || c->get_value< int >( "n" ) != 5 || c->available_values().size() != 2 ) { o = "wrong value"; } c->unset_value( "n" ); if ( c->has_value( "n" ) ) { o = "not removed"; } } break;
      case 2: { config_block_sptr c = config_block::empty_config( id ); c->set_value( "k", id, "a description" ); c->set_value( "b:j", "w" ); write_config_file( c, d + "/o/w" + id + ".conf" ); std::ifstream in( ( d + "/o/w" + id + ".conf" ).c_str() ); std::stringstream ss; ss << in.rdbuf(); if ( ss.str().find( "k = " + id ) == string::npos ) { o = "file: " + ss.str(); } } break;
      case 3: { config_block_sptr c = config_block::empty_config( id ), s = config_block::empty_config( "m" ); s->set_value( "p:q", id ); c->merge_config( s ); config_block_sptr v = c->subblock_view( "p" ); v->set_value( "r", id + id ); if ( c->get_value< string >( "p:r" ) != id + id || v->get_value< string >( "q" ) != id ) { o = "wrong view"; } } break;
      default: { config_block_sptr c = config_block::empty_config( id ); c->set_value( "f", 2.25 ); c->set_value( "b", false ); c->set_value( "x", "abc" ); if ( c->get_value< double >( "f" ) != 2.25 || c->get_value< bool >( "b" ) || c->get_value< int >( "none", t ) != t ) { o = "wrong value"; } try { c->get_value< int >( "x" ); o = "converted"; } catch ( bad_config_block_cast_exception const& ) {} }
      } } );
    for ( int t = 0; t < n; ++t ) { if ( ! res[t].empty() ) { bad( "interference", string( "thread " ) + std::to_string( t ) + ": " + res[t] ); } }
  } );
}
#endif
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
