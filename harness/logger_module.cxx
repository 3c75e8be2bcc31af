// A logger back end for C21: prints what it is given.
#include <vital/logger/kwiver_logger.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/kwiver_logger_factory.cxx> // back ends compile the base class in (see vital/logger/CMakeLists.txt)
#include <iostream>
#include <map>
using namespace kwiver::vital;
using std::string;
namespace {
struct L : kwiver_logger { L( logger_ns::kwiver_logger_factory* f, string const& n ) : kwiver_logger( f, n ) {} log_level_t level = LEVEL_TRACE;
  bool is_fatal_enabled() const { return true; } bool is_error_enabled() const { return true; } bool is_warn_enabled() const { return true; } bool is_info_enabled() const { return true; } bool is_debug_enabled() const { return true; } bool is_trace_enabled() const { return true; } void set_level( log_level_t l ) { level = l; } log_level_t get_level() const { return level; }
#define F( X ) void log_##X( string const& m ) { std::cerr << "MODULE " << get_name() << " " #X " " << m << "\n"; } void log_##X( string const& m, logger_ns::location_info const& ) { log_##X( m ); }
  F( fatal ) F( error ) F( warn ) F( info ) F( debug ) F( trace ) void log_message( log_level_t, string const& m ) { log_error( m ); } void log_message( log_level_t l, string const& m, logger_ns::location_info const& ) { log_message( l, m ); } };
struct Fac : logger_ns::kwiver_logger_factory { std::map< string, logger_handle_t > all; Fac() : kwiver_logger_factory( "verif factory" ) {} logger_handle_t get_logger( string const& n ) { auto& l = all[n]; if ( ! l ) { l = std::make_shared< L >( this, n ); } return l; } };
}
#ifdef ENTRY
extern "C" void* kwiver_logger_factory() { return new Fac; }
#else
extern "C" void* something_else() { return new Fac; }
#endif
