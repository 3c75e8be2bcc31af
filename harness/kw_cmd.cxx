// K03: command line parsing against a reference parser.
#include "mc.h"
#include <kwsys/CommandLineArguments.hxx>
#include <iostream>
#include <memory>
using std::string; using std::vector; typedef kwsys::CommandLineArguments CL; typedef vector< string > VS;
#define CK( c, key, msg ) do { if ( ! ( c ) ) { r.fail( key, msg ); } if ( r.verbose ) { r.note( msg ); } } while ( 0 )
namespace {
string list( VS const& v ) { string o; for ( auto const& s : v ) { o += mc::show( s ) + " "; } return o; }
enum { ABSENT = -1 }; static char const* const form[] = { "flag", "concat", "space", "equal", "multi" };
struct Opt { string name; int type; };
struct Result { bool ok = true; VS events, unused; int last = -1; bool either = false; }; // last: index of the last argument parsed, -1 for none
bool starts( string const& s, string const& p ) { return s.compare( 0, p.size(), p ) == 0; }
Opt const* match( vector< Opt > const& o, string const& a ) { Opt const* best = nullptr; for ( auto const& x : o ) { bool const m = x.type == CL::CONCAT_ARGUMENT || x.type == CL::EQUAL_ARGUMENT ? starts( a, x.name ) : a == x.name; if ( m && ( ! best || x.name.size() > best->name.size() ) ) { best = &x; } } return best; }
// unknown: 0 error, 1 stored, 2 callback accepts, 3 callback refuses; reject: the value a callback refuses
Result parse( vector< Opt > const& o, VS const& a, int unknown, string const* reject )
{
  Result w; auto deliver = [&]( Opt const* p, string const* v ) { w.events.push_back( p->name + "<" + ( v ? *v : "1" ) + ">" ); return ! ( reject && v && *v == *reject ); };
  for ( size_t i = 0; i < a.size(); ++i )
  {
    Opt const* p = match( o, a[i] ); int const before = (int) i - 1;
    if ( ! p ) { if ( unknown >= 2 ) { w.events.push_back( "unknown<" + a[i] + ">" ); w.ok = unknown == 2; w.last = unknown == 2 ? (int) i : before; return w; } if ( unknown == 1 ) { w.unused.push_back( a[i] ); w.last = (int) i; continue; } w.ok = false; w.last = before; return w; }
    w.last = (int) i;
    switch ( p->type )
    {
    case CL::NO_ARGUMENT: deliver( p, nullptr ); break;
    case CL::CONCAT_ARGUMENT: { string v = a[i].substr( p->name.size() ); if ( ! deliver( p, &v ) ) { w.ok = false; w.last = before; return w; } break; }
    case CL::SPACE_ARGUMENT: if ( i + 1 == a.size() || ! deliver( p, &a[i + 1] ) ) { w.ok = false; w.last = before; return w; } ++i; w.last = (int) i; break;
    case CL::EQUAL_ARGUMENT: { if ( a[i].size() == p->name.size() || a[i][p->name.size()] != '=' ) { w.ok = false; w.last = before; return w; } string v = a[i].substr( p->name.size() + 1 ); if ( ! deliver( p, &v ) ) { w.ok = false; w.last = before; return w; } break; }
    default: while ( i + 1 < a.size() && ! match( o, a[i + 1] ) ) { if ( ! deliver( p, &a[i + 1] ) ) { w.ok = false; w.either = true; w.last = before; return w; } ++i; w.last = (int) i; } break;
    }
  }
  return w;
}
struct Log { VS events; string const* reject = nullptr; };
int on_value( char const* arg, char const* v, void* d ) { Log* l = (Log*) d; l->events.push_back( string( arg ) + "<" + ( v ? v : "1" ) + ">" ); return ! ( l->reject && v && *l->reject == v ); }
int accept( char const* a, void* d ) { ( (Log*) d )->events.push_back( string( "unknown<" ) + a + ">" ); return 1; } int refuse( char const* a, void* d ) { accept( a, d ); return 0; }
VS taken( CL& c, bool unused ) { int n = 0; char** v = nullptr; if ( unused ) { c.GetUnusedArguments( &n, &v ); } else { c.GetRemainingArguments( &n, &v ); } VS o( v, v + n ); c.DeleteRemainingArguments( n, &v ); return o; }
struct Quiet { std::streambuf* was; Quiet() : was( std::cerr.rdbuf( nullptr ) ) {} ~Quiet() { std::cerr.rdbuf( was ); } };
char const* const names[] = { "-a", "-ab", "-b", "-" };
vector< Opt > options( mc::Run& r, int n ) { vector< Opt > o; for ( int i = 0; i < n; ++i ) { int t = r.choose( 6 ) - 1; if ( t != ABSENT ) { o.push_back( Opt{ names[i], t } ); } } return o; }
static VS const words = { "-a", "-ab", "-b", "-ax", "-a=1", "-ab=", "x", "-b=2", "", "-abx", "-", "--" };
// every vector up to a length, below a chosen prefix
template < typename F > void vectors( VS& v, size_t len, F const& f ) { f( v ); if ( v.size() < len ) { for ( auto const& w : words ) { v.push_back( w ); vectors( v, len, f ); v.pop_back(); } } }
void fill( CL& c, VS const& a ) { vector< char const* > p = { "prog" }; for ( auto const& s : a ) { p.push_back( s.c_str() ); } c.Initialize( (int) p.size(), p.data() ); }
void judge( mc::Run& r, CL& c, bool ok, Result const& w, VS const& a, VS const& events, string const& what )
{
  r.step(); CK( ok == w.ok, "result", what + ( ok ? " accepted" : " refused" ) ); CK( events == w.events, "values", what + " delivers " + list( events ) + "instead of " + list( w.events ) );
  VS rest = { "prog" }; rest.insert( rest.end(), a.begin() + ( w.last + 1 ), a.end() ); VS got = taken( c, false ); if ( a.empty() ) { return; } if ( w.either ) { CK( got.size() <= rest.size() && std::equal( got.begin() + 1, got.end(), a.begin() + ( a.size() + 1 - got.size() ) ), "remaining", what + " leaves " + list( got ) ); return; }
  CK( got == rest, "remaining", what + " leaves " + list( got ) + "instead of " + list( rest ) ); CK( (int) c.GetLastArgument() == w.last + 1, "last", what + " ends at " + std::to_string( c.GetLastArgument() ) + " instead of " + std::to_string( w.last + 1 ) );
}
}
SCENARIO( k03_parse, 2 )
{ // every set of options over names that are prefixes of each other, every vector of arguments
  vector< Opt > const o = options( r, 4 ); int const unknown = r.choose( 4 ); static string const x = "x"; string const* reject = r.flip() ? &x : nullptr; CL c; Log log; log.reject = reject; Quiet q; string told; for ( auto const& p : o ) { c.AddCallback( p.name.c_str(), (CL::ArgumentTypeEnum) p.type, on_value, &log, "help" ); told += p.name + ":" + form[p.type] + " "; }
  c.SetClientData( &log ); if ( unknown == 1 ) { c.StoreUnusedArguments( true ); } else if ( unknown >= 2 ) { c.SetUnknownArgumentCallback( unknown == 2 ? accept : refuse ); }
  VS a; vectors( a, (size_t) r.bound( 3, 4 ), [&]( VS const& v ) { log.events.clear(); fill( c, v ); bool const ok = c.Parse(); Result const w = parse( o, v, unknown, reject ); string const what = "options " + told + "arguments " + list( v ); judge( r, c, ok, w, v, log.events, what ); CK( string( c.GetArgv0() ) == "prog", "argv0", what ); if ( unknown == 1 ) { VS u = { "prog" }; u.insert( u.end(), w.unused.begin(), w.unused.end() ); VS got = taken( c, true ); CK( got == u, "unused", what + " stores " + list( got ) + "instead of " + list( u ) ); } } );
  r.state( mc::hash_str( told + std::to_string( unknown ) + ( reject ? "r" : "" ) ) );
}
SCENARIO( k03_long, 3 )
{ // longer vectors for a few sets of options
  static vector< vector< Opt > > const sets = { { { "-a", CL::MULTI_ARGUMENT }, { "-b", CL::EQUAL_ARGUMENT } }, { { "-a", CL::SPACE_ARGUMENT }, { "-ab", CL::CONCAT_ARGUMENT }, { "-b", CL::MULTI_ARGUMENT } }, { { "-a", CL::CONCAT_ARGUMENT }, { "-ab", CL::SPACE_ARGUMENT }, { "-b", CL::NO_ARGUMENT } } };
  vector< Opt > const& o = r.pick( sets ); VS a; for ( int i = 0; i < 2; ++i ) { a.push_back( r.pick( words ) ); } CL c; Log log; Quiet q; for ( auto const& p : o ) { c.AddCallback( p.name.c_str(), (CL::ArgumentTypeEnum) p.type, on_value, &log, "help" ); } c.StoreUnusedArguments( true );
  vectors( a, (size_t) r.bound( 5, 6 ), [&]( VS const& v ) { log.events.clear(); c.Initialize(); for ( auto const& s : v ) { c.ProcessArgument( s.c_str() ); } bool const ok = c.Parse(); Result const w = parse( o, v, 1, nullptr ); string const what = "arguments " + list( v ); r.step(); CK( ok == w.ok, "result", what ); CK( log.events == w.events, "values", what + " delivers " + list( log.events ) + "instead of " + list( w.events ) ); VS u = { "" }; u.insert( u.end(), w.unused.begin(), w.unused.end() ); CK( taken( c, true ) == u, "unused", what ); if ( ! v.empty() ) { CK( (int) c.GetLastArgument() == w.last + 1, "last", what ); } } );
  r.state( mc::hash_str( list( a ) ) );
}
SCENARIO( k03_types, 2 )
{ // every type of variable in every form, with repeated and odd values
  int const type = r.choose( 5 ), var = r.choose( 10 ); static VS const vals = { "1", "0", "ON", "off", "true", "True", "YES", "yes", "TRUE", "on", "On", "Yes", "tRue", "y", "-5", "42x", "3.5e2", "", "abc", " 7", "1e400", "99999999999" }; int const n = r.choose( 3 ) + 1; VS v; for ( int i = 0; i < n; ++i ) { v.push_back( r.pick( i ? VS( vals.begin(), vals.begin() + r.bound( 4, 22 ) ) : vals ) ); }
  bool b = false; int i = -77; double d = -77; char* cs = r.flip() ? new char[4]() : nullptr; string s = "untouched"; vector< bool > vb( 1, true ); vector< int > vi( 1, 9 ); vector< double > vd( 1, 9 ); vector< char* > vc; VS vs( 1, "first" ); CL c; auto const t = (CL::ArgumentTypeEnum) type; bool const boolean = type == CL::NO_ARGUMENT && n == 2 && var < 5;
#define ADD( x ) if ( boolean ) { c.AddBooleanArgument( "--o", x, "h" ); } else { c.AddArgument( "--o", t, x, "h" ); }
  switch ( var ) { case 0: ADD( &b ) break; case 1: ADD( &i ) break; case 2: ADD( &d ) break; case 3: ADD( &cs ) break; case 4: ADD( &s ) break; case 5: c.AddArgument( "--o", t, &vb, "h" ); break; case 6: c.AddArgument( "--o", t, &vi, "h" ); break; case 7: c.AddArgument( "--o", t, &vd, "h" ); break; case 8: c.AddArgument( "--o", t, &vc, "h" ); break; default: c.AddArgument( "--o", t, &vs, "h" ); }
  VS a; for ( auto const& x : v ) { switch ( type ) { case CL::NO_ARGUMENT: a.push_back( "--o" ); break; case CL::CONCAT_ARGUMENT: a.push_back( "--o" + x ); break; case CL::SPACE_ARGUMENT: a.push_back( "--o" ); a.push_back( x ); break; case CL::EQUAL_ARGUMENT: a.push_back( "--o=" + x ); break; default: if ( a.empty() ) { a.push_back( "--o" ); } a.push_back( x ); } }
  VS w = v; if ( type == CL::NO_ARGUMENT ) { w.assign( n, "1" ); } fill( c, a ); string const what = string( form[type] ) + " variable " + std::to_string( var ) + " values " + list( v ); r.step(); CK( c.Parse() == 1, "result", what );
  auto tb = []( string const& x ) { static VS const yes = { "1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES" }; return std::find( yes.begin(), yes.end(), x ) != yes.end(); }; auto ti = []( string const& x ) { return (int) strtol( x.c_str(), nullptr, 10 ); }; auto td = []( string const& x ) { return strtod( x.c_str(), nullptr ); };
  CK( b == ( var == 0 ? tb( w.back() ) : false ), "bool", what ); CK( i == ( var == 1 ? ti( w.back() ) : -77 ), "int", what ); CK( d == ( var == 2 ? td( w.back() ) : -77 ), "double", what ); if ( var == 3 ) { CK( cs && cs == w.back(), "text", what ); } CK( s == ( var == 4 ? w.back() : "untouched" ), "string", what );
  vector< bool > eb( 1, true ); vector< int > ei( 1, 9 ); vector< double > ed( 1, 9 ); VS es( 1, "first" ), ec, gc; for ( auto const& x : w ) { if ( var == 5 ) { eb.push_back( tb( x ) ); } if ( var == 6 ) { ei.push_back( ti( x ) ); } if ( var == 7 ) { ed.push_back( td( x ) ); } if ( var == 8 ) { ec.push_back( x ); } if ( var == 9 ) { es.push_back( x ); } } for ( char* p : vc ) { gc.push_back( p ); delete [] p; } CK( vb == eb && vi == ei && vd == ed && gc == ec && vs == es, "vector", what ); delete [] cs;
}
SCENARIO( k03_shared, 1 )
{ // several options for one variable, replaced declarations, and parsing again with other arguments
  int const which = r.choose( 4 ), again = r.choose( 3 ); CL c; int one = -1; string s; VS all; c.AddArgument( "--one", CL::EQUAL_ARGUMENT, &one, "One" ); c.AddArgument( "-1", CL::SPACE_ARGUMENT, &one, "--one" ); c.AddArgument( "--s", CL::NO_ARGUMENT, &s, "S" ); c.AddArgument( "--s", CL::CONCAT_ARGUMENT, &s, "S again" ); c.AddArgument( "--all", CL::MULTI_ARGUMENT, &all, "All" );
  static vector< VS > const in = { { "--one=5", "-1", "6", "--sx" }, { "-1", "6", "--one=5", "--s" }, { "--all", "--sq", "--all", "a", "b", "--one=2" }, {} }; fill( c, in[which] ); r.step(); bool ok = c.Parse(); CK( ok, "result", "shared" ); static int const ones[] = { 6, 5, 2, -1 }; static char const* const ss[] = { "x", "", "q", "" }; CK( one == ones[which] && s == ss[which] && all == ( which == 2 ? VS{ "a", "b" } : VS() ), "shared", "arguments " + list( in[which] ) ); for ( int k = 0; k < again; ++k ) { one = 0; all.clear(); fill( c, in[2] ); CK( c.Parse() && one == 2 && all == ( VS{ "a", "b" } ), "again", "parsing again" ); }
  r.eqs( c.GetHelp( "-1" ), "One", "help", "help of an alias" ); r.eqs( c.GetHelp( "--s" ), "S again", "help", "help of a replaced declaration" ); r.check( c.GetHelp( "--none" ) == nullptr, "help", "help of an unknown option" );
}
SCENARIO( k03_help, 2 )
{ // the help text names every option with its form and contains every help text, wrapped at the line length
  static VS const texts = { "", "a", " ", "   ", "word", "two words", "  leading", "trailing  ", "a\tb c\td e f g h i j k l m n o p q r s t u v w x y z", "many words that have to be wrapped somewhere because they do not fit on a single line of eighty characters at all", string( 120, 'x' ), "      ", "x      y" }; static int const lens[] = { 1, 3, 7, 20, 60, 70, 72, 76, 77, 78, 90, 97, 100, 101, 200 }; static int const widths[] = { 0, 8, 9, 10, 11, 12, 13, 14, 16, 20, 24, 25, 40, 80, 100, 1000, 1001 };
  string const n1 = "-" + string( lens[r.choose( 15 )] - 1, 'n' ), n2 = "-q"; string const h1 = r.pick( texts ), h2 = "Second help"; int const type = r.choose( 5 ); bool const alias = r.flip();
  for ( int w : widths )
  {
    CL c; string const what = "option of " + std::to_string( n1.size() ) + " characters, help " + mc::show( h1 ) + ", width " + std::to_string( w ); int v = 0; r.step(); if ( w % 2 ) { c.SetLineLength( (unsigned) w ); } c.AddArgument( n1.c_str(), (CL::ArgumentTypeEnum) type, &v, h1.c_str() ); c.AddArgument( n2.c_str(), CL::EQUAL_ARGUMENT, &v, alias ? n1.c_str() : h2.c_str() ); c.SetLineLength( (unsigned) w );
    static char const* const suffix[] = { "", "opt", " opt", "=opt", " opt opt ..." }; string const f1 = n1 + suffix[type], f2 = n2 + "=opt"; string want = alias ? ( n1 < n2 ? f1 + f2 : f2 + f1 ) + h1 : n1 < n2 ? f1 + h1 + f2 + h2 : f2 + h2 + f1 + h1; auto bare = []( string const& s ) { string o; for ( char ch : s ) { if ( ! isspace( (unsigned char) ch ) ) { o += ch; } } return o; };
    string const got = c.GetHelp(); CK( bare( got ) == bare( want ), "help", what + ": " + mc::show( got ) ); r.eqs( c.GetHelp( n1.c_str() ), h1, "help", what ); r.eqs( c.GetHelp( n2.c_str() ), alias ? h1 : h2, "help", what );
    if ( got.find( f1 ) == string::npos || got.find( f2 ) == string::npos ) { r.fail( "help", what + " hides an option: " + mc::show( got ) ); }
    int const eff = w >= 9 && w <= 1000 ? w : 80; size_t const col = std::max( n1.size() + ( type == 1 ? 3 : type == 2 || type == 3 ? 4 : 0 ), n2.size() + 4 ) + 4; if ( type != 4 && (size_t) eff > col ) { std::istringstream in( got ); string line; while ( std::getline( in, line ) ) { CK( line.size() <= (size_t) eff, "wrap", what + " has a line of " + std::to_string( line.size() ) ); } }
  }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
