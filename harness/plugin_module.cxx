// A plugin whose behaviour is chosen at compile time (KIND) and whose algorithm is named after its own file.
#include <vital/algo/convert_image.h>
#include <vital/registrar.h>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <string>
namespace {
int marker;
std::string self() { Dl_info i; return dladdr( &marker, &i ) && i.dli_fname ? i.dli_fname : "?"; }
std::string base() { std::string s = self(); s = s.substr( s.rfind( '/' ) + 1 ); return s.size() > 3 ? s.substr( 0, s.size() - 3 ) : s; }
struct conv : kwiver::vital::algo::convert_image
{
  std::string name; conv( std::string n ) : name( n ) {}
  std::string impl_name() const { return name; } std::string description() const { return self(); }
  kwiver::vital::algorithm_sptr base_clone() const { return clone(); } std::shared_ptr< kwiver::vital::algo::convert_image > clone() const { return std::shared_ptr< kwiver::vital::algo::convert_image >( new conv( *this ) ); }
  kwiver::vital::image_container_sptr convert( kwiver::vital::image_container_sptr i ) const { return i; }
#if KIND == 5
  kwiver::vital::config_block_sptr get_configuration() const { kwiver::vital::config_block_sptr c = kwiver::vital::algo::convert_image::get_configuration(); c->set_value( "name", name, "the name of the module" ); c->set_value( "deep:number", 5, "two\nlines" ); c->set_value( "empty", "" ); return c; }
#endif
};
}
#if KIND != 1
extern "C" __attribute__( ( visibility( "default" ) ) ) int private_register_algo_impls( kwiver::vital::registrar& reg )
{
  if ( char const* f = getenv( "VERIF_PLUGIN_LOG" ) ) { if ( FILE* o = fopen( f, "a" ) ) { fprintf( o, "%s\n", self().c_str() ); fclose( o ); } }
#if KIND == 2
  (void) reg; return 1;
#elif KIND == 3
  conv::register_instance( reg, std::shared_ptr< kwiver::vital::algo::convert_image >( new conv( "part_" + base() ) ) ); return 1;
#elif KIND == 4
  (void) reg; return -1;
#else
  return ! conv::register_instance( reg, std::shared_ptr< kwiver::vital::algo::convert_image >( new conv( "impl_" + base() ) ) );
#endif
}
#endif
