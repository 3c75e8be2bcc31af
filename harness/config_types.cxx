// C03: typed access to configuration values.
#include "mc.h"
#include <vital/config/config_block.h>
#include <vital/types/timestamp_config.h>
#include <algorithm>
using namespace kwiver::vital;
using std::string; using std::vector;

namespace {
template < typename F > string guarded( F f )
{
  try { f(); return ""; }
  catch ( no_such_configuration_value_exception const& ) { return "absent"; }
  catch ( bad_config_block_cast_exception const& e ) { return string( "bad-cast" ); }
  catch ( std::exception const& e ) { return string( "other:" ) + e.what(); }
}
template < typename T > string str( T const& v ) { std::ostringstream o; o.precision( 20 ); o << v; return o.str(); }

template < typename T > void round_trip( mc::Run& r, T const& v, int how )
{
  config_block_sptr b = config_block::empty_config( "t" ); config_block_sptr h = b;
  if ( how & 2 ) { h = b->subblock_view( "sub" ); }
  if ( how & 1 ) { h->set_value( "k", v, "descr" ); } else { h->set_value( "k", v ); }
  r.step( 2 );
  T got = T();
  string e = guarded( [&] { got = h->get_value< T >( "k" ); } );
  r.eqs( e, "", "round-trip", "reading back " + str( v ) + " (stored as " + mc::show( b->get_value< string >( how & 2 ? "sub:k" : "k", "" ) ) + ")" );
  if ( ! ( got == v ) ) { r.fail( "round-trip", "stored " + str( v ) + " read back " + str( got ) ); }
  T other = T();
  T g2 = h->get_value< T >( "k", other );
  if ( ! ( g2 == v ) ) { r.fail( "round-trip-default", "stored " + str( v ) + " defaulted read gives " + str( g2 ) ); }
  T g3 = h->get_value< T >( "none", v );
  if ( ! ( g3 == v ) ) { r.fail( "default", "default " + str( v ) + " not returned for an absent key: " + str( g3 ) ); }
  r.eqs( guarded( [&] { h->get_value< T >( "none" ); } ), "absent", "absent", "absent key" );
  // survives a copy of the block
  config_block_sptr c = config_block::empty_config( "c" ); c->merge_config( h );
  if ( ! ( c->get_value< T >( "k", other ) == v ) ) { r.fail( "merge", "value changed by merge: " + str( v ) ); }
  r.state( mc::hash_str( b->get_value< string >( how & 2 ? "sub:k" : "k", "" ) ) );
}
template < typename T > void int_grid( mc::Run& r )
{
  // 0, +-1, powers of two and ten and their neighbours, limits
  int sign = r.choose( std::numeric_limits< T >::is_signed ? 2 : 1 );
  int base = r.choose( 3 ); int e = r.choose( base == 0 ? 64 : base == 1 ? 20 : 3 ); int d = r.choose( 3 ) - 1;
  __int128 x = base == 0 ? (__int128) 1 << e : 1; if ( base == 1 ) { for ( int i = 0; i < e; ++i ) { x *= 10; } }
  if ( base == 2 ) { x = e == 0 ? 0 : e == 1 ? (__int128) std::numeric_limits< T >::max() : (__int128) std::numeric_limits< T >::min(); }
  x += d; if ( sign && base != 2 ) { x = -x; }
  if ( x > (__int128) std::numeric_limits< T >::max() || x < (__int128) std::numeric_limits< T >::min() ) { return; }
  r.log( "int " + str( (long long) x ) );
  round_trip< T >( r, (T) x, r.choose( 4 ) );
}
template < typename T > void float_grid( mc::Run& r )
{
  static vector< double > mant;
  if ( mant.empty() )
  {
    for ( int i = 0; i <= 40; ++i ) { mant.push_back( i ); }
    for ( double m : { 99.0, 101.0, 123456.0, 1234567.0, 999999.5, 16777217.0, 1.0 / 3, 2.0 / 3, 0.1 + 0.2, 3.141592653589793, 2.718281828459045, 123456789.123456789, 9007199254740993.0, 4503599627370497.5 } ) { mant.push_back( m ); }
  }
  double m = r.pick( mant );
  int emax = std::numeric_limits< T >::max_exponent10;
  int step = r.bound( 7, 1 ); int n = ( 2 * emax ) / step + 1;
  int e = -emax + step * r.choose( n );
  int nb = r.choose( 5 ); bool neg = r.flip();
  T v = (T) ( m * std::pow( 10.0, e ) );
  if ( nb == 1 ) { v = std::nextafter( v, (T) 1e30 ); } if ( nb == 2 ) { v = std::nextafter( v, (T) 0 ); }
  if ( nb == 3 ) { v = v * (T) ( 1 + 1e-3 ); } if ( nb == 4 ) { v = (T) 1 / v; }
  if ( neg ) { v = -v; }
  if ( ! std::isfinite( v ) ) { return; }
  round_trip< T >( r, v, r.choose( 2 ) );
  r.log( "float " + str( v ) );
}

// does text begin (after blanks) with something a number could start with?
bool plain_int( string const& s ) { size_t i = 0; if ( i < s.size() && ( s[i] == '-' || s[i] == '+' ) ) { ++i; } if ( i == s.size() ) { return false; } for ( ; i < s.size(); ++i ) { if ( ! isdigit( s[i] ) ) { return false; } } return true; }
bool plain_float( string const& s )
{
  size_t i = 0; if ( i < s.size() && ( s[i] == '-' || s[i] == '+' ) ) { ++i; }
  int dig = 0; while ( i < s.size() && isdigit( s[i] ) ) { ++i; ++dig; }
  if ( i < s.size() && s[i] == '.' ) { ++i; while ( i < s.size() && isdigit( s[i] ) ) { ++i; ++dig; } }
  if ( ! dig ) { return false; }
  if ( i < s.size() && s[i] == 'e' ) { ++i; if ( i < s.size() && ( s[i] == '-' || s[i] == '+' ) ) { ++i; } int d = 0; while ( i < s.size() && isdigit( s[i] ) ) { ++i; ++d; } if ( ! d ) { return false; } }
  return i == s.size();
}
bool has_number_prefix( string const& s, bool flt )
{
  size_t i = 0; if ( i < s.size() && ( s[i] == '-' || s[i] == '+' ) ) { ++i; }
  if ( flt && i < s.size() && s[i] == '.' ) { ++i; }
  return i < s.size() && isdigit( s[i] );
}
string trimmed( string s ) { size_t b = s.find_first_not_of( ' ' ); if ( b == string::npos ) { return ""; } return s.substr( b, s.find_last_not_of( ' ' ) - b + 1 ); }
} // namespace

SCENARIO( int32 , 2 ) { int_grid< int >( r ); }
SCENARIO( int64 , 2 ) { int_grid< int64_t >( r ); }
SCENARIO( uint32 , 2 ) { int_grid< unsigned >( r ); }
SCENARIO( uint64 , 2 ) { int_grid< uint64_t >( r ); }
SCENARIO( flt , 2 ) { float_grid< float >( r ); }
SCENARIO( dbl , 2 ) { float_grid< double >( r ); }

SCENARIO( boolean, 1 )
{
  int v = r.choose( 2 ); round_trip< bool >( r, v == 1, r.choose( 4 ) );
}
SCENARIO( strings, 2 )
{
  static string const al[] = { "a", "=", ":", "1", "#", "\"", "\xc3\xa9", "true" };
  int n = r.choose( r.bound( 5, 6 ) ); string s; for ( int i = 0; i < n; ++i ) { s += al[ r.choose( 8 ) ]; }
  r.log( mc::show( s ) );
  round_trip< string >( r, s, r.choose( 4 ) );
}
SCENARIO( inner_blanks, 1 )
{
  static string const al[] = { "a", " ", "\t", "b c" };
  int n = r.choose( 7 ); string s = "x"; for ( int i = 0; i < n; ++i ) { s += al[ r.choose( 4 ) ]; } s += "y";
  round_trip< string >( r, s, 0 );
}
SCENARIO( stamps, 2 )
{
  static int64_t const v[] = { 0, 1, -1, 999999, 1000000, -1000001, 1234567890123456LL, INT64_MAX, INT64_MIN };
  timestamp t( v[ r.choose( 9 ) ], v[ r.choose( 9 ) ] );
  config_block_sptr b = config_block::empty_config( "t" );
  if ( r.flip() ) { b->set_value( "k", t ); } else { b->set_value( "k", t, "d" ); }
  timestamp g = b->get_value< timestamp >( "k" ); r.step( 2 );
  r.check( g.has_valid_time() && g.has_valid_frame() && g.get_time_usec() == t.get_time_usec() && g.get_frame() == t.get_frame(), "stamp", "timestamp changed: " + b->get_value< string >( "k" ) );
  r.state( b->get_value< string >( "k" ) );
}

// every short text read as every type
SCENARIO( texts, 3 )
{
  static char const al[] = { '0', '7', '9', '-', '+', '.', 'e', 'x', 't', ' ', ',' };
  int n = r.choose( r.bound( 5, 6 ) ); string s; for ( int i = 0; i < n; ++i ) { s += al[ r.choose( 11 ) ]; }
  config_block_sptr b = config_block::empty_config( "t" );
  b->set_value( "kk", s ); s = trimmed( s );
  r.log( mc::show( s ) ); r.step( 5 );
  auto cls = [&] ( string const& e ) { r.check( e == "" || e == "bad-cast", "texts-error", "reading " + mc::show( s ) + ": " + e ); };
  int iv = 0; string e = guarded( [&] { iv = b->get_value< int >( "kk" ); } ); cls( e );
  if ( plain_int( s ) ) { r.eqs( e, "", "texts-int", "int from " + mc::show( s ) ); r.eq( iv, (int) strtol( s.c_str(), 0, 10 ), "texts-int", "int from " + mc::show( s ) ); }
  else if ( ! has_number_prefix( s, false ) ) { r.eqs( e, "bad-cast", "texts-int", "int from " + mc::show( s ) ); }
  else if ( e.empty() ) { r.eq( iv, (int) strtol( s.c_str(), 0, 10 ), "texts-int", "int from leading number of " + mc::show( s ) ); }
  r.eq( b->get_value< int >( "kk", 4711 ), e.empty() ? iv : 4711, "texts-default", "defaulted int from " + mc::show( s ) );
  double dv = 0; string e2 = guarded( [&] { dv = b->get_value< double >( "kk" ); } ); cls( e2 );
  if ( plain_float( s ) ) { double w = strtod( s.c_str(), 0 ); if ( std::isfinite( w ) ) { r.eqs( e2, "", "texts-dbl", "double from " + mc::show( s ) ); r.eq( dv, w, "texts-dbl", "double from " + mc::show( s ) ); } else { r.eqs( e2, "bad-cast", "texts-dbl", "double from " + mc::show( s ) ); } }
  else if ( ! has_number_prefix( s, true ) ) { r.eqs( e2, "bad-cast", "texts-dbl", "double from " + mc::show( s ) ); }
  bool bv = false; string e3 = guarded( [&] { bv = b->get_value< bool >( "kk" ); } ); cls( e3 );
  if ( s == "0" ) { r.check( e3 == "" && ! bv, "texts-bool", "bool from 0" ); } else { r.eqs( e3, "bad-cast", "texts-bool", "bool from " + mc::show( s ) ); }
  r.eq( b->get_value< bool >( "kk", true ), e3.empty() ? bv : true, "texts-default", "defaulted bool" );
  timestamp tv; string e4 = guarded( [&] { tv = b->get_value< timestamp >( "kk" ); } ); cls( e4 );
  {
    size_t sp = s.find( ' ' ); string a = s.substr( 0, sp ), c = sp == string::npos ? "" : trimmed( s.substr( sp ) );
    if ( plain_int( a ) && plain_int( c ) )
    {
      r.eqs( e4, "", "texts-stamp", "timestamp from " + mc::show( s ) );
      r.check( tv.get_time_usec() == atoll( a.c_str() ) && tv.get_frame() == atoll( c.c_str() ), "texts-stamp", "timestamp from " + mc::show( s ) );
    }
    else if ( ! has_number_prefix( a, false ) || ( sp == string::npos && ( s.size() < 2 || plain_int( s ) ) ) || ( plain_int( a ) && ! has_number_prefix( c, false ) ) ) { r.eqs( e4, "bad-cast", "texts-stamp", "timestamp from " + mc::show( s ) ); }
  }
  r.eqs( b->get_value< string >( "kk" ), s, "texts-string", "string" );
  r.outcome( ( e.empty() ? "I" : "i" ) + string( e2.empty() ? "D" : "d" ) + ( e3.empty() ? "B" : "b" ) + ( e4.empty() ? "T" : "t" ) );
  r.state( s );
}

// boolean words: every case variant and every single-character edit of the accepted words
SCENARIO( bool_words, 2 )
{
  static string const w[] = { "true", "yes", "1", "false", "no", "0" };
  int i = r.choose( 6 ); string s = w[i]; bool exact = true;
  int edit = r.choose( 4 );
  if ( edit == 0 ) { for ( auto& c : s ) { if ( isalpha( c ) && r.flip() ) { c = (char) toupper( c ); } } }
  else if ( edit == 1 ) { s.erase( r.choose( (int) s.size() ), 1 ); exact = false; }
  else
  {
    static char const al[] = "trueyesfalno01 -.";
    char c = al[ r.choose( 17 ) ];
    int p = r.choose( (int) s.size() );
    if ( edit == 2 ) { s[p] = c; } else { s.insert( p, 1, c ); }
    exact = false;
  }
  config_block_sptr b = config_block::empty_config( "t" ); b->set_value( "k", s ); s = trimmed( s );
  for ( int j = 0; j < 6; ++j ) { string l = s; std::transform( l.begin(), l.end(), l.begin(), ::tolower ); if ( l == w[j] ) { exact = true; i = j; } }
  bool v = false; string e = guarded( [&] { v = b->get_value< bool >( "k" ); } ); r.step();
  r.log( mc::show( s ) );
  if ( exact ) { r.eqs( e, "", "bool-word", "bool from " + mc::show( s ) ); r.eq( v, i < 3, "bool-word", "bool from " + mc::show( s ) ); }
  else { r.eqs( e, "bad-cast", "bool-word", "bool from " + mc::show( s ) ); }
  r.state( s );
}

// range limits and the error text
SCENARIO( range, 1 )
{
  static char const* big[] = { "2147483648", "-2147483649", "99999999999999999999", "4294967296", "-99999999999999999999", "9223372036854775808" };
  string s = big[ r.choose( 6 ) ]; config_block_sptr b = config_block::empty_config( "t" ); b->set_value( "some:key", s );
  int v; r.eqs( guarded( [&] { v = b->get_value< int >( "some:key" ); } ), "bad-cast", "range", "int from " + s ); r.step();
  if ( s.size() > 18 ) { int64_t w; r.eqs( guarded( [&] { w = b->get_value< int64_t >( "some:key" ); } ), "bad-cast", "range", "int64 from " + s ); }
  float f; b->set_value( "f", string( s[0] == '-' ? "-1e39" : "1e39" ) ); r.eqs( guarded( [&] { f = b->get_value< float >( "f" ); } ), "bad-cast", "range", "float from 1e39" );
  try { b->get_value< int >( "some:key" ); }
  catch ( bad_config_block_cast_exception const& e )
  {
    string w = e.what(); r.check( w.find( "some:key" ) != string::npos && w.find( s ) != string::npos, "error-text", "error does not name key and text: " + w );
  }
  try { b->get_value< bool >( "some:key" ); }
  catch ( bad_config_block_cast_exception const& e )
  {
    string w = e.what(); r.check( w.find( "some:key" ) != string::npos && w.find( s ) != string::npos, "error-text", "error does not name key and text: " + w );
  }
  try { b->get_value< bool >( "no:such" ); r.fail( "absent", "no error" ); }
  catch ( no_such_configuration_value_exception const& e ) { r.check( string( e.what() ).find( "no:such" ) != string::npos, "error-text", "error does not name the key" ); }
  r.state( s );
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
