// C30: the plugin explorer shows what is there: the real program on real plugin directories.
#include "child.h"
#include <algorithm>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
using std::string; using std::vector; using std::map; using std::set;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
namespace {
struct File { char const* name; char const* mod; };
vector< vector< File > > const layouts = { {}, { { "m1.so", "good" } }, { { "m1.so", "config" }, { "m2.so", "good" } }, { { "m2.so", "failing" }, { "x.so", "noentry" }, { "m1.so.bak", "good" } }, { { "m2.so", "config" }, { "m1.so", "partial" } }, { { "m1.so", "text" }, { "m 3.so", "config" } } };
string work() { return getenv( "VERIF_WORK" ); }
void copy( string const& a, string const& b ) { std::ifstream i( a.c_str(), std::ios::binary ); std::ofstream o( b.c_str(), std::ios::binary ); o << i.rdbuf(); if ( ! i || ! o ) { throw mc::Divergence( "cannot copy " + a ); } }
struct Ran { int status; string out; };
Ran explore( string const& dir, vector< string > const& args )
{
  string const prog = work() + "/b/bin/plugin_explorer", of = dir + "/stdout"; vector< char* > v = { const_cast< char* >( prog.c_str() ) }; for ( auto const& a : args ) { v.push_back( const_cast< char* >( a.c_str() ) ); } v.push_back( 0 ); pid_t p = fork(); if ( p < 0 ) { throw mc::Divergence( "fork" ); }
  if ( p == 0 ) { if ( chdir( dir.c_str() ) ) { _exit( 126 ); } int o = open( of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ), n = open( "/dev/null", O_RDWR ); dup2( n, 0 ); dup2( o, 1 ); dup2( n, 2 ); alarm( 30 ); execv( v[0], &v[0] ); _exit( 127 ); }
  Ran x; waitpid( p, &x.status, 0 ); if ( WIFEXITED( x.status ) && WEXITSTATUS( x.status ) == 127 ) { throw mc::Divergence( "cannot run " + prog ); } std::ifstream i( of.c_str() ); std::ostringstream o; o << i.rdbuf(); x.out = o.str(); return x;
}
string join( vector< string > const& v ) { string s; for ( auto const& x : v ) { s += ( s.empty() ? "" : "|" ) + x; } return s; }
bool has( string const& l, char const* t ) { return l.find( t ) != string::npos; }
}
SCENARIO( explored, 2 )
{
  int const l1 = r.choose( 6 ), l2 = r.choose( 6 ), e = r.choose( 3 ), po = r.choose( 6 ), nm = r.choose( 3 ), de = r.choose( 4 ); if ( ! r.thorough() && ( ( e && po > 3 ) || ( nm == 2 && de > 1 ) ) ) { return; }
  string const S = r.scratch, d[2] = { S + "/d1", S + "/d 2" }; int const l[2] = { l1, l2 };
  // the files are put there once for each layout
  for ( int k = 0; k < 2; ++k ) { static map< string, int > at; auto i = at.find( d[k] ); if ( i != at.end() && i->second == l[k] ) { continue; } mkdir( d[k].c_str(), 0755 ); for ( auto const& old : layouts ) { for ( auto const& f : old ) { unlink( ( d[k] + "/" + f.name ).c_str() ); } } for ( auto const& f : layouts[l[k]] ) { string const p = d[k] + "/" + f.name; if ( ! strcmp( f.mod, "text" ) ) { std::ofstream( p.c_str() ) << "no library\n"; } else { copy( work() + "/mods/" + f.mod + ".so", p ); } } at[d[k]] = l[k]; }
  vector< string > path, args; string w = "directories " + std::to_string( l1 ) + " and " + std::to_string( l2 ); if ( e ) { string v = e == 1 ? d[0] : d[0] + ":" + d[1]; setenv( "KWIVER_PLUGIN_PATH", v.c_str(), 1 ); path.push_back( d[0] ); if ( e == 2 ) { path.push_back( d[1] ); } w += ", environment " + std::to_string( e ); } else { unsetenv( "KWIVER_PLUGIN_PATH" ); }
  for ( char const* b : { "/verif-no-such-prefix/lib/maptk", "builtin1", "builtin2" } ) { path.push_back( b ); }
  static char const* const names[] = { "", "m2", "none" }; if ( nm ) { args.push_back( "--plugin-name" ); args.push_back( names[nm] ); }
  auto add = [&] ( int k, bool longer ) { if ( longer ) { args.push_back( "--path" ); args.push_back( d[k] ); } else { args.push_back( "-I" + d[k] ); } path.push_back( d[k] ); };
  switch ( po ) { case 1: add( 0, true ); break; case 2: add( 1, false ); break; case 3: add( 0, false ); add( 1, true ); break; case 4: add( 1, true ); add( 0, true ); break; case 5: add( 1, false ); add( 0, false ); add( 1, false ); break; }
  static char const* const det[] = { "", "-d", "--detail", "--config" }; if ( de ) { args.push_back( det[de] ); } w += ", arguments " + join( args );
  // what must be shown
  set< string > mods, algs; map< string, bool > conf; for ( auto const& p : path ) { for ( int k = 0; k < 2; ++k ) { if ( p != d[k] ) { continue; } for ( auto const& f : layouts[l[k]] ) { string const n = f.name, base = n.size() > 3 && n.substr( n.size() - 3 ) == ".so" ? n.substr( 0, n.size() - 3 ) : "", m = f.mod; if ( base.empty() || ( nm && base != names[nm] ) ) { continue; } if ( m == "good" || m == "config" ) { string const a = "convert_image:impl_" + base; algs.insert( a ); conf[a] = m == "config"; mods.insert( base ); } else if ( m == "partial" ) { string const a = "convert_image:part_" + base; algs.insert( a ); conf[a] = false; } } } }
  Ran const x = explore( S, args ); CK( WIFEXITED( x.status ) && WEXITSTATUS( x.status ) == 0, "status", w + ": ended with status " + std::to_string( x.status ) );
  vector< string > gm, ga; string shown; int sect = 0; struct D { string text; vector< string > entries; }; map< string, vector< string > > details; string cur; std::istringstream in( x.out ); string s;
  while ( std::getline( in, s ) ) { if ( has( s, "earch path" ) ) { sect = 1; } else if ( has( s, "module names" ) ) { sect = 2; } else if ( has( s, "egistered algorithms" ) ) { sect = 3; } else if ( has( s, "Detailed info" ) ) { sect = 4; vector< string > q; for ( size_t i = 0; ( i = s.find( '"', i ) ) != string::npos; ) { size_t j = s.find( '"', i + 1 ); if ( j == string::npos ) { break; } q.push_back( s.substr( i + 1, j - i - 1 ) ); i = j + 1; } CK( q.size() == 2, "details", w + ": header " + s ); cur = q[0] + ":" + q[1]; CK( ! details.count( cur ), "details", w + ": twice " + cur ); details[cur]; } else if ( s.empty() || has( s, "-----" ) ) {} else if ( sect == 1 ) { shown += s; } else if ( sect == 2 || sect == 3 ) { size_t i = s.find_first_not_of( ' ' ); ( sect == 2 ? gm : ga ).push_back( s.substr( i ) ); } else if ( sect == 4 && ! has( s, "Configuration block" ) ) { size_t i = s.find_first_not_of( ' ' ); details[cur].push_back( s.substr( i == string::npos ? 0 : i ) ); } }
  string want; for ( auto const& p : path ) { want += p + ":"; } CK( shown == want, "search-path", w + ": the search path is " + shown + " instead of " + want );
  CK( gm == vector< string >( mods.begin(), mods.end() ), "modules", w + ": modules " + join( gm ) + " instead of " + join( vector< string >( mods.begin(), mods.end() ) ) ); std::sort( ga.begin(), ga.end() ); CK( ga == vector< string >( algs.begin(), algs.end() ), "algorithms", w + ": algorithms " + join( ga ) + " instead of " + join( vector< string >( algs.begin(), algs.end() ) ) );
  if ( ! de ) { CK( details.empty(), "details", w + ": details that were not asked for" ); }
  else { for ( auto const& a : conf ) { auto i = details.find( a.first ); CK( i != details.end(), "details", w + ": no details of " + a.first ); string const base = a.first.substr( a.first.find( '_', 14 ) + 1 ); vector< string > exp; if ( a.second ) { exp = { "\"deep:number\" = \"5\"", "Description: two", "lines", "\"empty\" = \"\"", "Description: ", "\"name\" = \"impl_" + base + "\"", "Description: the name of the module" }; } vector< string > got = i->second; for ( auto* q : { &exp, &got } ) { for ( auto& z : *q ) { while ( ! z.empty() && z.back() == ' ' ) { z.resize( z.size() - 1 ); } } } CK( got == exp, "details", w + ": the configuration of " + a.first + " is shown as " + join( got ) ); } CK( details.size() == conf.size(), "details", w + ": details of something that is not registered" ); }
  r.step();
}
SCENARIO( explorer_help, 0 ) { Ran const x = explore( r.scratch, { "--help" } ); CK( x.status == 0, "status", "status of the help" ); for ( char const* o : { "--help", "--plugin-name", "--path", "-I", "--detail", "-d", "--config" } ) { CK( has( x.out, o ), "help", string( "the help does not mention " ) + o ); } CK( ! has( x.out, "egistered" ), "help", "more than the help" ); r.step(); }
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
