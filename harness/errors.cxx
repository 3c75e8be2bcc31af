// C29: errors: caught by every documented base class, copies included, they name what they are about whatever its characters.
#include "mc.h"
#include "child.h"
#include <vital/algo/image_io.h>
#include <vital/algo/convert_image.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_exception.h>
#include <vital/config/config_block_io.h>
#include <vital/exceptions.h>
#include <vital/io/camera_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/image.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <sys/stat.h>
namespace kv = kwiver::vital;
using std::string; using std::vector;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
namespace {
typedef vector< string > A;
struct Kind
{
  string name; int args; bool core; // core: of the vital hierarchy, otherwise of the configuration
  std::function< void( A const& ) > raise; // throws
  std::function< bool( std::exception const& ) > is; // of the documented classes
  std::function< std::unique_ptr< std::exception >( std::exception const& ) > copy; // copies and assigned copies
};
template < typename E, typename B, typename F > Kind kind( char const* n, int args, F make )
{
  bool const core = std::is_base_of< kv::vital_core_base_exception, E >::value;
  return { n, args, core, [make] ( A const& a ) { throw make( a ); }, [] ( std::exception const& e ) { return dynamic_cast< E const* >( &e ) && dynamic_cast< B const* >( &e ); }, [] ( std::exception const& e ) { return std::unique_ptr< std::exception >( new E( dynamic_cast< E const& >( e ) ) ); } };
}
#define K0( E, B ) kind< kv::E, kv::B >( #E, 0, [] ( A const& ) { return kv::E(); } )
#define K1( E, B ) kind< kv::E, kv::B >( #E, 1, [] ( A const& a ) { return kv::E( a[0] ); } )
#define K2( E, B ) kind< kv::E, kv::B >( #E, 2, [] ( A const& a ) { return kv::E( a[0], a[1] ); } )
#define K3( E, B ) kind< kv::E, kv::B >( #E, 3, [] ( A const& a ) { return kv::E( a[0], a[1], a[2] ); } )
#define K4( E, B ) kind< kv::E, kv::B >( #E, 4, [] ( A const& a ) { return kv::E( a[0], a[1], a[2], a[3] ); } )
vector< Kind > const& kinds()
{
  static vector< Kind > const k = {
    K1( invalid_value, vital_core_base_exception ), K3( algorithm_exception, vital_core_base_exception ), K3( algorithm_configuration_exception, algorithm_exception ), K2( invalid_name_exception, algorithm_exception ),
    K0( image_exception, vital_core_base_exception ), K0( io_exception, vital_core_base_exception ), K1( path_not_exists, io_exception ), K1( path_not_a_file, io_exception ), K1( path_not_a_directory, io_exception ), K2( invalid_file, io_exception ), K1( invalid_data, io_exception ), K2( file_not_found_exception, io_exception ), K2( file_not_read_exception, io_exception ), K2( file_write_exception, io_exception ),
    K0( math_exception, vital_core_base_exception ), K0( non_invertible_matrix, math_exception ), K0( point_maps_to_infinity, math_exception ), K1( invalid_matrix_operation, math_exception ),
    K1( bad_config_block_cast, config_block_exception ), K4( bad_config_block_cast_exception, config_block_exception ), K1( no_such_configuration_value_exception, config_block_exception ), K3( set_on_read_only_value_exception, config_block_exception ), K2( unset_on_read_only_value_exception, config_block_exception ), K1( bad_configuration_cast, config_block_exception ),
    kind< kv::bad_configuration_cast_exception, kv::config_block_exception >( "bad_configuration_cast_exception", 4, [] ( A const& a ) { return kv::bad_configuration_cast_exception( a[0], a[1], a[2].c_str(), a[3].c_str() ); } ),
    K2( config_file_not_found_exception, config_block_io_exception ), K2( config_file_not_read_exception, config_block_io_exception ), K2( config_file_not_parsed_exception, config_block_io_exception ), K2( config_file_write_exception, config_block_io_exception ),
  };
  return k;
}
string big() { return "<" + string( 5000, 'z' ) + ">"; }
vector< string > texts() { return { "word", "", "two words", "\"quoted\" 'too'", "%s %n %d", "line\nbreak\t", "\xc3\xa4\xff", big() }; }
}
SCENARIO( error_classes, 1 )
{
  auto const& k = kinds()[r.choose( (int) kinds().size() )]; auto const t = texts(); A a; string w = k.name + "("; for ( int i = 0; i < k.args; ++i ) { string const x = t[r.choose( (int) t.size() )]; a.push_back( x.empty() ? x : std::to_string( i ) + x ); w += ( i ? ", " : "" ) + mc::show( a.back().substr( 0, 30 ) ); } w += ")";
  auto all = [&] ( char const* what, string const& how ) { bool none = ! a.empty(); for ( auto const& x : a ) { none = none && x.empty(); } CK( what && ( *what || none ), "message", w + how + ": no message" ); for ( auto const& x : a ) { CK( strstr( what, x.c_str() ), "message", w + how + ": the message " + mc::show( string( what ).substr( 0, 300 ) ) + " does not contain " + mc::show( x.substr( 0, 30 ) ) ); } };
  int how = 0; string first; std::unique_ptr< std::exception > kept;
  try { k.raise( a ); } catch ( std::exception const& e ) { how = 1; CK( k.is( e ), "class", w + ": not of its classes" ); all( e.what(), "" ); first = e.what(); kept = k.copy( e ); all( kept->what(), " copied" ); CK( first == kept->what(), "message", w + ": a copy has another message" ); }
  CK( how == 1, "class", w + ": not caught as std::exception" ); CK( kept->what() == first, "message", w + ": a copy lost its message with the original" ); how = 0;
  if ( k.core ) { try { k.raise( a ); } catch ( kv::config_block_exception const& ) { how = 2; } catch ( kv::vital_core_base_exception const& e ) { how = 1; CK( first == e.what(), "message", w + ": another message through the base class" ); } catch ( ... ) {} }
  else { try { k.raise( a ); } catch ( kv::vital_core_base_exception const& ) { how = 2; } catch ( kv::config_block_exception const& e ) { how = 1; CK( first == e.what(), "message", w + ": another message through the base class" ); } catch ( ... ) {} }
  CK( how == 1, "class", w + ": not caught by its base class" ); r.step();
}
SCENARIO( size_mismatch, 1 )
{
  static size_t const n[] = { 0, 1, 7, 640, 4294967296ULL + 3, ~(size_t) 0 }; size_t d[4]; for ( auto& x : d ) { x = n[r.choose( 6 )]; } string const t = texts()[r.choose( 8 )]; string const want = "(given: [" + std::to_string( d[2] ) + ", " + std::to_string( d[3] ) + "], should be: [" + std::to_string( d[0] ) + ", " + std::to_string( d[1] ) + "])"; bool ok = false;
  try { throw kv::image_size_mismatch_exception( t, d[0], d[1], d[2], d[3] ); } catch ( kv::image_exception const& e ) { ok = true; string m = e.what(), numbers; CK( m.find( t ) == 0 || m.find( t ) != string::npos, "message", "the message does not contain its text" ); m.erase( m.find( t ), t.size() ); for ( char c : m ) { if ( isdigit( (unsigned char) c ) || ( ! numbers.empty() && numbers.back() != ' ' ) ) { numbers += isdigit( (unsigned char) c ) ? c : ' '; } } string exp; for ( int i : { 2, 3, 0, 1 } ) { exp += std::to_string( d[i] ) + " "; } if ( ! isspace( (unsigned char) numbers.back() ) ) { numbers += ' '; } CK( numbers == exp, "message", "sizes " + numbers + " instead of " + exp ); }
  CK( ok, "class", "not caught as image_exception" ); r.step();
}
// errors of the operations themselves
namespace {
template < typename E, typename F > string caught( mc::Run& r, string const& w, F f ) { try { f(); } catch ( E const& e ) { return e.what(); } catch ( std::exception const& e ) { r.fail( "class", w + ": another error: " + e.what() ); } r.fail( "class", w + ": no error" ); return ""; }
void names( mc::Run& r, string const& w, string const& m, A const& parts ) { for ( auto const& p : parts ) { CK( m.find( p ) != string::npos, "message", w + ": the message " + mc::show( m.substr( 0, 300 ) ) + " does not name " + mc::show( p.substr( 0, 40 ) ) ); } r.step(); }
}
SCENARIO( configuration_errors, 2 )
{
  static char const* const keys[] = { "key", "a:b", "a b", "a:b:c_long_name", "%s" }; static char const* const vals[] = { "text", "two words", "x 2", "%d%s%n", "e1", "nan?", "\"q's\"", "\xc3\xa4" }; string const k = keys[r.choose( 5 )], v = vals[r.choose( 8 )], n = vals[r.choose( 8 )]; int const view = r.choose( 3 ); auto root = kv::config_block::empty_config(); kv::config_block_sptr b = view == 0 ? root : view == 1 ? root->subblock_view( "sub" ) : root->subblock_view( "x:y" ); string const full = ( view == 0 ? "" : view == 1 ? "sub:" : "x:y:" ) + k; string const w = ( view ? "view: " : "" ) + k + "=" + v; (void) full;
  names( r, w + ": missing value", caught< kv::no_such_configuration_value_exception >( r, w + ": missing value", [&] { b->get_value< string >( k ); } ), { k } );
  names( r, w + ": missing entry unset", caught< kv::no_such_configuration_value_exception >( r, w + ": missing entry unset", [&] { b->unset_value( k ); } ), { k } );
  b->set_value( k, v ); { names( r, w + ": as a number", caught< kv::bad_config_block_cast_exception >( r, w + ": as a number", [&] { b->get_value< int >( k ); } ), { k, v, typeid( int ).name() } ); names( r, w + ": as a boolean", caught< kv::bad_config_block_cast_exception >( r, w + ": as a boolean", [&] { b->get_value< bool >( k ); } ), { k, v } ); }
  b->mark_read_only( k ); names( r, w + ": read-only entry set", caught< kv::set_on_read_only_value_exception >( r, w + ": read-only entry set", [&] { b->set_value( k, n ); } ), { k, v, n } ); names( r, w + ": read-only entry unset", caught< kv::unset_on_read_only_value_exception >( r, w + ": read-only entry unset", [&] { b->unset_value( k ); } ), { k, v } );
  CK( root->get_value< string >( full ) == v, "changed", w + ": the entry was changed" );
}
SCENARIO( file_errors, 1 )
{
  static char const* const fs[] = { "none", "none with blanks", "none%s.txt", "n\xc3\xb6ne" }; string const f = r.scratch + "/" + fs[r.choose( 4 )], deep = f + "/deeper/file", dir = r.scratch + "/dir", plain = r.scratch + "/plain", bad = f + ".bad"; mkdir( dir.c_str(), 0755 ); { std::ofstream o( plain.c_str() ); o << "x\n"; } { std::ofstream o( bad.c_str() ); o << "a = 1\nthis is nothing\n"; }
  int const which = r.choose( 13 ); string const w = "operation " + std::to_string( which ) + " on " + f;
  switch ( which )
  {
    case 0: names( r, w, caught< kv::config_file_not_found_exception >( r, w, [&] { kv::read_config_file( f ); } ), { f } ); break;
    case 1: names( r, w, caught< kv::config_file_not_found_exception >( r, w, [&] { kv::read_config_file( dir ); } ), { dir } ); break;
    case 2: names( r, w, caught< kv::config_file_not_parsed_exception >( r, w, [&] { kv::read_config_file( bad ); } ), { bad } ); break;
    case 3: { auto c = kv::config_block::empty_config(); c->set_value( "a", "b" ); names( r, w, caught< kv::config_file_write_exception >( r, w, [&] { kv::write_config_file( c, dir ); } ), { dir } ); break; }
    case 4: { auto c = kv::config_block::empty_config(); names( r, w, caught< kv::config_file_write_exception >( r, w, [&] { kv::write_config_file( c, f ); } ), {} ); unlink( f.c_str() ); break; }
    case 5: names( r, w, caught< kv::file_not_found_exception >( r, w, [&] { kv::read_krtd_file( f ); } ), { f } ); break;
    case 6: names( r, w, caught< kv::file_not_found_exception >( r, w, [&] { kv::read_ply_file( f ); } ), { f } ); break;
    case 7: names( r, w, caught< kv::file_not_found_exception >( r, w, [&] { kv::read_track_file( f ); } ), { f } ); break;
    case 8: names( r, w, caught< kv::file_not_found_exception >( r, w, [&] { kv::read_track_file( dir ); } ), { dir } ); break;
    case 9: names( r, w, caught< kv::file_write_exception >( r, w, [&] { kv::write_krtd_file( kv::simple_camera(), dir ); } ), { dir } ); break;
    case 10: names( r, w, caught< kv::file_write_exception >( r, w, [&] { kv::write_krtd_file( kv::simple_camera(), "" ); } ), {} ); break;
    case 11: names( r, w, caught< kv::file_not_read_exception >( r, w, [&] { kv::read_ply_file( plain ); } ), { plain } ); break;
    case 12: { string const inc = r.scratch + "/inc.conf"; { std::ofstream o( inc.c_str() ); o << "a = 1\ninclude missing_included.conf\n"; } names( r, w, caught< kv::config_file_not_found_exception >( r, w, [&] { kv::read_config_file( inc ); } ), { "missing_included.conf", inc } ); break; }
  }
}
SCENARIO( geometry_errors, 1 )
{
  int const a = r.choose( 4 ), b = r.choose( 4 ); if ( a != b ) { kv::homography_sptr const id( new kv::homography_< double >( Eigen::Matrix3d::Identity() ) ); kv::f2f_homography x( id, 0, a ), y( id, b, 5 ); caught< kv::invalid_matrix_operation >( r, "frames do not meet", [&] { y * x; } ); }
  Eigen::Matrix3d m = Eigen::Matrix3d::Zero(); m( 0, 0 ) = a; m( 1, 1 ) = b; kv::homography_< double > h( m ); caught< kv::math_exception >( r, "a singular matrix is inverted", [&] { h.inverse(); } ); Eigen::Matrix3d z = Eigen::Matrix3d::Identity(); z( 2, 2 ) = -a; z( 2, 0 ) = 1; kv::homography_< double > g( z ); caught< kv::point_maps_to_infinity >( r, "a point on the line at infinity", [&] { g.map( kv::vector_2d( a, b ) ); } ); r.step();
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
