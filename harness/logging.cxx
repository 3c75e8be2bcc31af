// C21: level filtering, message formatting, call-site strings, logger back-end selection.
#include "mc.h"
#include "child.h"
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/kwiver_logger_factory.cxx> // back ends compile the base class in (see vital/logger/CMakeLists.txt)
#include <iostream>
#include <iomanip>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
using namespace kwiver::vital;
using std::string; using std::vector;
typedef kwiver_logger KL;
// ---- a controlled wall clock: every reading advances it by a fixed amount
namespace { bool fake; int64_t fake_now, fake_step, fake_first, fake_last; // nanoseconds
int64_t read_clock() { int64_t v = fake_now; if ( fake_first < 0 ) { fake_first = v; } fake_last = v; fake_now += fake_step; return v; } }
extern "C" {
int clock_gettime( clockid_t c, struct timespec* t ) { if ( fake && ( c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ) ) { int64_t v = read_clock(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; } return (int) syscall( SYS_clock_gettime, c, t ); }
int gettimeofday( struct timeval* __restrict t, void* __restrict ) { struct timespec s; clock_gettime( CLOCK_REALTIME, &s ); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time( time_t* t ) { struct timespec s; clock_gettime( CLOCK_REALTIME, &s ); if ( t ) { *t = s.tv_sec; } return s.tv_sec; }
int timespec_get( struct timespec* t, int b ) { clock_gettime( CLOCK_REALTIME, t ); return b; }
}
namespace {
struct Capture { std::stringstream s; std::streambuf* old; Capture() { old = std::cerr.rdbuf( s.rdbuf() ); } ~Capture() { std::cerr.rdbuf( old ); } string text() { string t = s.str(); s.str( "" ); return t; } };
KL::log_level_t const lv[] = { KL::LEVEL_TRACE, KL::LEVEL_DEBUG, KL::LEVEL_INFO, KL::LEVEL_WARN, KL::LEVEL_ERROR, KL::LEVEL_FATAL };
char const* const ln[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL" };
vector< string > lines_of( string const& m ) { vector< string > v; std::istringstream s( m ); string l; while ( std::getline( s, l ) ) { v.push_back( l ); } return v; }
// the local time to the millisecond of an instant
string stamp( int64_t ns ) { time_t t = ns / 1000000000; struct tm tm; localtime_r( &t, &tm ); char b[64], c[80]; strftime( b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm ); snprintf( c, sizeof c, "%s.%03d", b, (int) ( ns / 1000000 % 1000 ) ); return c; }
// splits "date time LEVEL rest"; false if malformed
bool split_line( string const& l, string& when, string& rest ) { size_t p = l.find( ' ' ); if ( p == string::npos ) { return false; } p = l.find( ' ', p + 1 ); if ( p == string::npos ) { return false; } when = l.substr( 0, p ); rest = l.substr( p + 1 ); return true; }
void check_output( mc::Run& r, string const& out, bool enabled, string const& level, string const& loc, string const& msg, string const& w )
{
  if ( ! enabled ) { r.eqs( out, "", "emitted-disabled", w + ": a message below the level was emitted" ); return; }
  vector< string > want = lines_of( msg ), got = lines_of( out ); if ( msg.empty() ) { return; } // whether an empty message gives a line is not specified
  r.check( ! out.empty() && out.back() == '\n', "emitted", w + ": output " + mc::show( out ) ); r.eq( got.size(), want.size(), "line-count", w + ": output " + mc::show( out ) );
  for ( size_t i = 0; i < got.size(); ++i )
  {
    string when, rest; r.check( split_line( got[i], when, rest ), "line-form", w + ": line " + mc::show( got[i] ) ); r.eqs( rest, level + " " + loc + want[i], "line-text", w + " line " + std::to_string( i ) );
    if ( fake ) { bool ok = false; for ( int64_t v = fake_first; v <= fake_last && ! ok; v += fake_step ? fake_step : 1000000000000000 ) { ok = when == stamp( v ); } r.check( ok, "time", w + ": line stamped " + when + " while the clock went from " + stamp( fake_first ) + " to " + stamp( fake_last ) ); }
  }
}
// API variants; returns false if the variant does not exist for that level
bool emit( KL& l, int sev, int api, string const& m, char const* file, int line )
{
  logger_ns::location_info loc( file, "void ns::C::m(int)", line );
  switch ( api )
  {
  case 0: switch ( sev ) { case 0: l.log_trace( m ); break; case 1: l.log_debug( m ); break; case 2: l.log_info( m ); break; case 3: l.log_warn( m ); break; case 4: l.log_error( m ); break; default: l.log_fatal( m ); } return true;
  case 1: switch ( sev ) { case 0: l.log_trace( m, loc ); break; case 1: l.log_debug( m, loc ); break; case 2: l.log_info( m, loc ); break; case 3: l.log_warn( m, loc ); break; case 4: l.log_error( m, loc ); break; default: l.log_fatal( m, loc ); } return true;
  case 2: l.log_message( lv[sev], m ); return true;
  default: l.log_message( lv[sev], m, loc ); return true;
  }
}
void queries( mc::Run& r, KL& l, int level, string const& w )
{
  r.eq( (int) l.get_level(), (int) lv[level], "level", w ); KL* p = &l; (void) p;
  bool const q[6] = { l.is_trace_enabled(), l.is_debug_enabled(), l.is_info_enabled(), l.is_warn_enabled(), l.is_error_enabled(), l.is_fatal_enabled() };
  bool const m[6] = { IS_TRACE_ENABLED( p ), IS_DEBUG_ENABLED( p ), IS_INFO_ENABLED( p ), IS_WARN_ENABLED( p ), IS_ERROR_ENABLED( p ), IS_FATAL_ENABLED( p ) };
  for ( int i = 0; i < 6; ++i ) { r.check( q[i] == ( i >= level ), "is-enabled", w + ": is enabled " + ln[i] + " at level " + ln[level] ); r.check( m[i] == q[i], "macro-enabled", w + ": macro for " + ln[i] ); r.eqs( l.get_level_string( lv[i] ), ln[i], "level-string", w ); }
}
string message( mc::Run& r, int max, string& show_it ) { static char const* const part[] = { "x", "\n", " ", "%s", "long" }; int n = r.choose( max + 1 ); string m; for ( int i = 0; i < n; ++i ) { int k = r.choose( 5 ); m += k == 4 ? string( 3000, 'L' ) : string( part[k] ); } show_it = m.size() > 60 ? m.substr( 0, 20 ) + "..." : m; return m; }
}
SCENARIO( c21_emit, 2 )
{
  int const level = r.choose( 6 ), sev = r.choose( 6 ), api = r.choose( 4 ); string sh; string m = message( r, r.bound( 4, 5 ), sh ); bool const loc = api & 1; static logger_handle_t l = get_logger( "emit" ); string w = string( "level " ) + ln[level] + ", " + ln[sev] + " message " + mc::show( sh ) + " api " + std::to_string( api );
  l->set_level( lv[level] ); Capture c; emit( *l, sev, api, m, "/src/dir/file.cxx", 42 ); r.step(); check_output( r, c.text(), sev >= level, ln[sev], loc ? "file.cxx(42): " : "", m, w ); r.log( w ); r.state( w + m );
}
SCENARIO( c21_macros, 2 )
{
  int const level = r.choose( 6 ), which = r.choose( 7 ); string sh; string m = message( r, 3, sh ); bool const shift = r.flip(); static logger_handle_t l = get_logger( "macros" ); l->set_level( lv[level] ); int n = 0, cn = 0, line = 0; auto arg = [&] () { ++n; return m; }; auto cond = [&] ( bool b ) { ++cn; return b; }; Capture c;
  string want = m + ( shift ? "5" : "" ); string w = "macro " + std::to_string( which ) + " at level " + ln[level] + " message " + mc::show( sh ); int sev = which; bool en = sev >= level;
  if ( which < 5 )
  {
#define TRY( M ) if ( shift ) { line = __LINE__; M( l, arg() << 5 ); } else { line = __LINE__; M( l, arg() ); }
    switch ( which ) { case 0: TRY( LOG_TRACE ) break; case 1: TRY( LOG_DEBUG ) break; case 2: TRY( LOG_INFO ) break; case 3: TRY( LOG_WARN ) break; case 4: TRY( LOG_ERROR ) break; }
    r.eq( n, en ? 1 : 0, "evaluated", w + ": evaluations of the argument" ); check_output( r, c.text(), en, ln[sev], "logging.cxx(" + std::to_string( line ) + "): ", want, w );
  }
  else
  {
    bool const ok = which == 5; if ( level == 5 ) { return; } line = __LINE__; LOG_ASSERT( l, cond( ok ), arg() << ( shift ? "5" : "" ) ); r.eq( cn, 1, "evaluated", w + ": evaluations of the condition" ); string o = c.text();
    if ( ok ) { r.eqs( o, "", "assert", w + ": output although the condition holds" ); r.eq( n, 0, "evaluated", w ); }
    else { r.eq( n, 1, "evaluated", w ); auto ls = lines_of( o ); r.check( ! ls.empty() && ls[0].find( "ASSERTION FAILED" ) != string::npos && ls[0].find( "cond( ok )" ) != string::npos, "assert", w + ": " + mc::show( o ) ); string when, rest; split_line( ls[0], when, rest ); string sv = rest.substr( 0, rest.find( ' ' ) ); r.check( sv == "ERROR" || sv == "FATAL", "assert", w + ": level " + sv ); r.check( o.find( "logging.cxx(" + std::to_string( line ) + ")" ) != string::npos, "assert", w + ": no location" ); auto wl = lines_of( want ); r.eq( ls.size(), wl.size() + 1, "assert", w + ": lines" ); for ( size_t i = 0; i < wl.size(); ++i ) { r.check( ls[i + 1].size() >= wl[i].size() && ls[i + 1].substr( ls[i + 1].size() - wl[i].size() ) == wl[i], "assert", w + ": line " + mc::show( ls[i + 1] ) ); } }
  }
  r.step(); r.log( w ); r.state( w + m + ( shift ? "5" : "" ) );
}
// two loggers whose names look hierarchical never share a level
SCENARIO( c21_histories, 2 )
{
  static char const* const names[] = { "h", "h.sub", "h" }; logger_handle_t l[2] = { get_logger( names[0] ), get_logger( names[1] ) }; int level[2] = { 0, 0 }; l[0]->set_level( lv[0] ); l[1]->set_level( lv[0] ); int const n = r.bound( 4, 5 ); Capture c; string path;
  for ( int i = 0; i < n; ++i )
  {
    int const a = r.choose( 2 ), op = r.choose( 10 ); string w;
    if ( op < 6 ) { l[a]->set_level( lv[op] ); level[a] = op; w = string( "set " ) + names[a] + " " + ln[op]; r.eqs( c.text(), "", "noise", w ); }
    else if ( op < 9 ) { int const sev = op == 6 ? 1 : op == 7 ? 3 : 5; string m = "m" + std::to_string( i ); emit( *l[a], sev, 0, m, "f", 1 ); w = string( ln[sev] ) + " to " + names[a]; check_output( r, c.text(), sev >= level[a], ln[sev], "", m, w + " at level " + ln[level[a]] ); }
    else { logger_handle_t again = get_logger( string( names[a] ) ); r.check( again == l[a] && again != l[1 - a], "identity", "logger " + string( names[a] ) ); r.eqs( again->get_name(), names[a], "name", "name" ); r.eqs( again->get_factory_name(), "default_logger factory", "factory", "factory" ); w = string( "fetch " ) + names[a]; }
    r.log( w ); r.step(); for ( int k = 0; k < 2; ++k ) { queries( r, *l[k], level[k], w ); } r.state( mc::mix( level[0], level[1] ) ); if ( r.prune( mc::mix( level[0] * 7 + level[1], 1 ), n - i - 1 ) ) { return; }
  }
}
SCENARIO( c21_time, 2 )
{
  static char const* const zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "XXX-05:45" }; int const z = r.choose( 3 ); setenv( "TZ", zones[z], 1 ); tzset(); static int64_t const secs[] = { 0, 1, 59, 86399, 951782400, 1456704000, 1615705199, 1615705200, 1636264800, 1636268399, 2147483647, 4102444799LL }; static int const ms[] = { 0, 1, 5, 9, 10, 50, 99, 100, 500, 999 }; static int64_t const adv[] = { 0, 1000000, 7000000, 999999999, 1000000000 };
  int64_t const s = secs[r.choose( 12 )]; int const f = ms[r.choose( 10 )]; int const sub = r.choose( 3 ); int64_t const d = adv[r.choose( 5 )]; int const api = r.choose( 2 ), hex = r.choose( 2 ); static logger_handle_t l = get_logger( "time" ); l->set_level( lv[0] );
  string w = "clock " + std::to_string( s ) + " s " + std::to_string( f ) + " ms, " + zones[z] + ", advancing by " + std::to_string( d ) + " ns"; Capture c; fake_now = s * 1000000000 + f * 1000000LL + ( sub == 0 ? 0 : sub == 1 ? 400000 : 999999 ); fake_step = d; fake_first = fake_last = -1; if ( hex ) { std::cerr << std::hex << std::setfill( '#' ); } fake = true; emit( *l, 3, api, "a\nb", "f.h", 3 ); string o = c.text(); if ( fake_first < 0 ) { fake = false; r.fail( "time", w + ": the clock is not read" ); }
  struct Off { ~Off() { fake = false; std::cerr << std::dec << std::setfill( ' ' ); } } off; r.check( std::cerr.fill() == ( hex ? '#' : ' ' ) && std::cerr.width() == 0, "stream-state", w + ": logging changed the settings of the output stream" ); check_output( r, o, true, "WARN", api ? "f.h(3): " : "", "a\nb", w ); auto ls = lines_of( o ); string a, b, x; split_line( ls[0], a, x ); split_line( ls[1], b, x ); r.eqs( b, a, "time", w + ": time of the second line of one message" ); r.step(); r.log( w + " -> " + a ); r.state( w + std::to_string( sub ) );
}
// ---- call-site strings
namespace {
struct Sig { string text, cls, method; };
#define HERE ( Sig{ __PRETTY_FUNCTION__, "", "" } )
Sig free_function( int, char const** ) { return HERE; }
namespace n1 { namespace n2 {
template < typename A, typename B > struct Two { template < typename C > Sig m( C, std::map< A, B > const& ) const { return HERE; } Sig operator()( int ) const { return HERE; } static std::pair< A, B > s( Sig& o ) { o = HERE; return std::pair< A, B >(); } };
struct Cls { Sig last; Cls() { last = HERE; } ~Cls() {} operator Sig() const { return HERE; } Sig operator[]( int ) { return HERE; } Sig operator==( Cls const& ) const { return HERE; } Sig operator<( Cls const& ) const { return HERE; } Sig operator->*( int ) { return HERE; } Sig operator,( int ) { return HERE; } virtual Sig virt( void (*)( int ), int (&)[3] ) const { return HERE; } std::map< int, std::pair< int, char > > const& mp( Sig& o ) const { o = HERE; static std::map< int, std::pair< int, char > > x; return x; } char const* cp( Sig& o ) { o = HERE; return ""; } int (*fp( Sig& o ))( int ) { o = HERE; return nullptr; } struct Inner { template < int N > Sig t( std::integral_constant< int, N > ) { return HERE; } }; };
Sig in_namespace( void ) { return HERE; }
template < typename T > Sig tmpl( T ) { return HERE; }
} }
void judge( mc::Run& r, string const& text, string const& cls, string const& method )
{
  logger_ns::location_info l( "f", text.c_str(), 7 ); r.eqs( l.get_method_name(), method, "method-name", "method of " + text ); r.eqs( l.get_class_name(), cls, "class-name", "class of " + text ); r.eqs( l.get_signature(), text, "signature", "signature" ); r.check( l.get_method_name_ptr() == text.c_str() && l.get_line_number() == 7, "raw", text ); r.step( 4 ); r.state( text );
}
}
SCENARIO( c21_real_sites, 1 )
{
  (void) r.choose( 1 ); r.state( "real" ); n1::n2::Two< int, std::pair< int, char > > two; n1::n2::Two< char, float > cf; n1::n2::Cls c; n1::n2::Cls const& cc = c; Sig s; int arr[3];
  auto j = [&] ( Sig const& g, char const* cls, char const* m ) { r.log( g.text ); judge( r, g.text, cls, m ); };
  string const ns = "n1::n2", an = free_function( 0, 0 ).text; size_t p = an.find( "free_function" ), q = an.rfind( ' ', p ); string const anon = an.substr( q + 1, p - q - 3 ); // "{anonymous}"
  auto A = [&] ( string const& t ) { static std::set< string > keep; return keep.insert( anon + ( t.empty() ? "" : "::" + t ) ).first->c_str(); };
  j( free_function( 0, 0 ), A( "" ), "free_function" ); j( c.last, A( ns + "::Cls" ), "Cls" ); j( (Sig) cc, A( ns + "::Cls" ), ( "operator " + anon + "::Sig" ).c_str() ); j( c[0], A( ns + "::Cls" ), "operator[]" ); j( c == c, A( ns + "::Cls" ), "operator==" ); j( c < c, A( ns + "::Cls" ), "operator<" ); j( c->*1, A( ns + "::Cls" ), "operator->*" ); j( ( c, 1 ), A( ns + "::Cls" ), "operator," ); j( c.virt( nullptr, arr ), A( ns + "::Cls" ), "virt" );
  c.mp( s ); j( s, A( ns + "::Cls" ), "mp" ); c.cp( s ); j( s, A( ns + "::Cls" ), "cp" ); c.fp( s ); j( s, A( ns + "::Cls" ), "fp" ); j( n1::n2::Cls::Inner().t( std::integral_constant< int, 3 >() ), A( ns + "::Cls::Inner" ), "t" ); j( n1::n2::in_namespace(), A( ns ), "in_namespace" ); j( n1::n2::tmpl( 1.0 ), A( ns ), "tmpl" ); j( n1::n2::tmpl( two ), A( ns ), "tmpl" );
  j( two.m( 1, std::map< int, std::pair< int, char > >() ), A( ns + "::Two<A, B>" ), "m" ); j( two( 1 ), A( ns + "::Two<A, B>" ), "operator()" ); two.s( s ); j( s, A( ns + "::Two<A, B>" ), "s" ); j( cf.m( 'c', std::map< char, float >() ), A( ns + "::Two<A, B>" ), "m" );
}
SCENARIO( c21_signatures, 2 )
{
  static vector< string > const quals = { "", "virtual ", "static ", "constexpr " }, rets = { "", "void ", "const char* ", "std::map<int, std::pair<int, char> > ", "unsigned int& ", "a::b<c (*)(int), (d)1>::e " }, tails = { "", " const", " [with T = int; U = std::pair<a::b, c>]", " const [with T = void (*)(x::y)]" },
    path = { "", "C::", "ns::C::", "C<T, U>::", "ns::C<a::b, std::vector<int> >::D::", "{anonymous}::C::", "(anonymous namespace)::C::", "C<(E)0, void (*)(int)>::", "C<(a > b)>::", "C<-1>::" },
    meth = { "m", "C", "~C", "operator()", "operator bool", "operator const char*", "operator std::map<a::b, c>", "operator==", "operator<", "operator<<", "operator>", "operator->", "operator[]", "operator()<T, U>", "m<int, a::b>", "operator new", "operator new []", "operators", "my_operator", "m2" }, params = { "()", "(int, char**)", "(std::map<a::b, (c)1>, void (*)(x::y))", "(a::b::c (&)[3])" };
  string const& q = r.pick( quals ); string const& ret = r.pick( rets ); string const& c = r.pick( path ); string const& m = r.pick( meth ); string const& p = r.pick( params ); string const& t = r.pick( tails ); if ( ret.empty() && q.empty() && m[0] != 'C' && m[0] != '~' && m.compare( 0, 9, "operator " ) && m != "m" ) { return; }
  string text = q + ret + c + m + p + t; r.log( text ); judge( r, text, c.empty() ? "" : c.substr( 0, c.size() - 2 ), m );
}
SCENARIO( c21_files, 2 )
{
  static vector< string > const part = { "a", "/", ".", "b.cxx", " " }; int const n = 1 + r.choose( r.bound( 5, 6 ) ); string f; for ( int i = 0; i < n; ++i ) { f += r.pick( part ); } logger_ns::location_info l( f.c_str(), "int m()", 3 ); size_t p = f.rfind( '/' );
  r.eqs( l.get_file_name(), p == string::npos ? f : f.substr( p + 1 ), "file-name", "name of " + f ); if ( p == string::npos ) { r.eqs( l.get_file_path(), "", "file-path", "path of " + f ); } else if ( f.find( "//" ) == string::npos && p + 1 < f.size() ) { r.eqs( l.get_file_path(), p == 0 ? "/" : f.substr( 0, p ), "file-path", "path of " + f ); } else { l.get_file_path(); }
  r.check( l.get_file_name_ptr() == f.c_str(), "raw", f ); static logger_handle_t g = get_logger( "files" ); g->set_level( lv[0] ); Capture c; g->log_error( "m", l ); check_output( r, c.text(), true, "ERROR", ( p == string::npos ? f : f.substr( p + 1 ) ) + "(3): ", "m", "message located in " + f ); r.step( 3 ); r.state( f ); r.log( f );
}
// ---- selection of the back end
namespace {
struct Rec : KL { vector< string >& out; Rec( logger_ns::kwiver_logger_factory* f, string const& n, vector< string >& o ) : KL( f, n ), out( o ) {} log_level_t level = LEVEL_TRACE;
  bool is_fatal_enabled() const { return true; } bool is_error_enabled() const { return true; } bool is_warn_enabled() const { return true; } bool is_info_enabled() const { return true; } bool is_debug_enabled() const { return true; } bool is_trace_enabled() const { return true; } void set_level( log_level_t l ) { level = l; } log_level_t get_level() const { return level; }
#define F( X ) void log_##X( string const& m ) { out.push_back( get_name() + " " #X " " + m ); } void log_##X( string const& m, logger_ns::location_info const& l ) { out.push_back( get_name() + " " #X "@" + std::to_string( l.get_line_number() ) + " " + m ); }
  F( fatal ) F( error ) F( warn ) F( info ) F( debug ) F( trace ) void log_message( log_level_t l, string const& m ) { out.push_back( string( get_level_string( l ) ) + " " + m ); } void log_message( log_level_t l, string const& m, logger_ns::location_info const& ) { log_message( l, m ); } };
struct RecF : logger_ns::kwiver_logger_factory { vector< string >& out; RecF( char const* n, vector< string >& o ) : kwiver_logger_factory( n ), out( o ) {} logger_handle_t get_logger( string const& n ) { return std::make_shared< Rec >( this, n, out ); } };
}
SCENARIO( c21_backend, 2 )
{
  int const env = r.choose( 7 ), first = r.choose( 2 ), swap = r.choose( 2 ), again = r.choose( 2 ); static char const* const nm[] = { "unset", "good module", "missing file", "no entry point", "empty", "a text file", "a directory" }; string const w = string( "VITAL_LOGGER_FACTORY " ) + nm[env] + ( swap ? ", then another factory" : "" ); string const mods = string( getenv( "VERIF_WORK" ) ) + "/mods/"; r.log( w ); r.state( std::to_string( env * 8 + first * 4 + swap * 2 + again ) ); { std::ofstream( ( r.scratch + "/text.so" ).c_str() ) << "hello"; }
  mc::in_child( r, [&] () {
    switch ( env ) { case 0: unsetenv( "VITAL_LOGGER_FACTORY" ); break; case 1: setenv( "VITAL_LOGGER_FACTORY", ( mods + "logger_good.so" ).c_str(), 1 ); break; case 2: setenv( "VITAL_LOGGER_FACTORY", ( mods + "nosuch.so" ).c_str(), 1 ); break; case 3: setenv( "VITAL_LOGGER_FACTORY", ( mods + "logger_noentry.so" ).c_str(), 1 ); break; case 4: setenv( "VITAL_LOGGER_FACTORY", "", 1 ); break; case 5: setenv( "VITAL_LOGGER_FACTORY", ( r.scratch + "/text.so" ).c_str(), 1 ); break; default: setenv( "VITAL_LOGGER_FACTORY", r.scratch.c_str(), 1 ); }
    Capture c; kwiver_logger_manager* m = kwiver_logger_manager::instance(); r.step(); string const note = c.text(); string const fac = env == 1 ? "verif factory" : "default_logger factory"; r.eqs( m->get_factory_name(), fac, "factory-name", w ); if ( env >= 2 && env != 4 ) { r.check( note.find( "ERROR" ) != string::npos, "report", w + ": the failure is not reported: " + mc::show( note ) ); }
    r.check( m == kwiver_logger_manager::instance(), "one-manager", w ); logger_handle_t l = first ? get_logger( "n.a" ) : get_logger( string( "n.a" ) ); r.check( !! l, "logger", w ); r.eqs( l->get_name(), "n.a", "logger", w ); r.eqs( l->get_factory_name(), fac, "factory-name", w + " of the logger" ); c.text();
    l->log_error( "text" ); if ( env == 1 ) { r.eqs( c.text(), "MODULE n.a error text\n", "module-output", w ); } else { check_output( r, c.text(), true, "ERROR", "", "text", w ); } r.check( get_logger( "n.a" ) == l, "identity", w ); r.step( 4 );
    if ( swap )
    {
      vector< string > got; std::unique_ptr< logger_ns::kwiver_logger_factory > f( new RecF( "rec", got ) ), g( new RecF( "rec2", got ) ); m->set_logger_factory( std::move( f ) ); r.eqs( m->get_factory_name(), "rec", "factory-name", w ); if ( again ) { m->set_logger_factory( std::move( g ) ); r.eqs( m->get_factory_name(), "rec2", "factory-name", w ); }
      logger_handle_t n = get_logger( "n.a" ); r.eqs( n->get_factory_name(), again ? "rec2" : "rec", "factory-name", w ); n->log_warn( "x" ); int line = __LINE__; LOG_INFO( n, "y" << 1 ); r.eq( got.size(), size_t( 2 ), "recorded", w ); r.eqs( got[0], "n.a warn x", "recorded", w ); r.eqs( got[1], "n.a info@" + std::to_string( line ) + " y1", "recorded", w ); r.eqs( c.text(), "", "noise", w ); r.step( 3 );
    }
  } );
}
int main( int argc, char** argv ) { setenv( "TZ", "UTC0", 1 ); tzset(); return mc::main_( argc, argv ); }
