// C24: life time of the handles and error reports of the C interface.  C25: the C interface mirrors the C++ one.
#include "mc.h"
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/error_handle.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/algo/image_io.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/track_features.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>
#include <vital/types/camera.h>
#include <vital/types/image_container.h>
#include <vital/types/track_set.h>
#include <vital/exceptions.h>
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
using namespace kwiver::vital;
using std::string; using std::vector; using std::map;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace {
void quiet() { static bool done = false; if ( ! done ) { done = true; for ( char const* n : { "vital.c_utils", "vital.algorithm", "vital.registrar", "vital.config_parser", "read_config_file", "vital.write_track_file", "vital.token_expander" } ) { get_logger( n )->set_level( kwiver_logger::LEVEL_FATAL ); } } }
string slurp( string const& f ) { std::ifstream in( f.c_str(), std::ios::binary ); std::stringstream s; s << in.rdbuf(); return s.str(); }
void spill( string const& f, string const& t ) { std::ofstream o( f.c_str(), std::ios::binary ); o << t; }
struct EH { vital_error_handle_t* e; EH() : e( vital_eh_new() ) {} ~EH() { vital_eh_destroy( e ); } operator vital_error_handle_t*() { return e; } bool clear() const { return e->error_code == 0 && ! e->message; } bool set() const { return e->error_code != 0 && e->message && *e->message; } string text() const { return e->message ? e->message : ""; } };
string take( vital_string_t* s ) { if ( ! s ) { return "<null>"; } string r( s->str, s->length ); if ( r.size() != strlen( s->str ) ) { r += "<length>"; } vital_string_free( s ); return r; }
string take_list( unsigned n, char** l ) { string o; for ( unsigned i = 0; i < n; ++i ) { o += string( "[" ) + l[i] + "]"; } vital_common_free_string_list( n, l ); return o; }
// runs body; what it allocated must be gone afterwards (a second run excludes one-time allocations)
template < typename F > void leak_free( mc::Run& r, F body )
{
  size_t a = __sanitizer_get_current_allocated_bytes(); body(); size_t b = __sanitizer_get_current_allocated_bytes(); if ( a == b ) { return; }
  body(); size_t c = __sanitizer_get_current_allocated_bytes(); if ( c != b ) { body(); size_t d = __sanitizer_get_current_allocated_bytes(); if ( d > c ) { r.fail( "leak", std::to_string( d - c ) + " bytes are left allocated" ); } }
}
void throw_if( bool bad, char const* key, string const& msg ) { if ( bad ) { throw mc::Fail{ key, msg }; } }
string krtd() { return "1 0 0\n0 1 0\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n0 0 0\n\n0\n"; }

// ---- algorithms
int live_algos = 0; vector< string > calls;
template < typename B > struct Base : B
{
  string name; int v; Base( string n ) : name( n ), v( 1 ) { ++live_algos; } Base( Base const& o ) : B( o ), name( o.name ), v( o.v ) { ++live_algos; } ~Base() { --live_algos; }
  string impl_name() const { return name; } string description() const { return "test"; }
  config_block_sptr get_configuration() const { config_block_sptr c = algorithm::get_configuration(); c->set_value( "x", v, "a number" ); return c; }
  void set_configuration( config_block_sptr in ) { config_block_sptr c = this->get_configuration(); c->merge_config( in ); v = c->template get_value< int >( "x" ); }
  bool check_configuration( config_block_sptr c ) const { return c->template get_value< int >( "x", 0 ) >= 0; }
};
struct Io : Base< algo::image_io >
{
  using Base::Base; algorithm_sptr base_clone() const { return algorithm_sptr( new Io( *this ) ); } std::shared_ptr< algo::image_io > clone() const { return std::shared_ptr< algo::image_io >( new Io( *this ) ); }
  image_container_sptr load_( string const& f ) const { calls.push_back( "load " + f ); if ( name == "null" ) { return image_container_sptr(); } return std::make_shared< simple_image_container >( image( 3, 2, (size_t) v ) ); }
  void save_( string const& f, image_container_sptr d ) const { calls.push_back( "save " + f + " " + std::to_string( d->width() ) ); if ( name == "null" ) { throw invalid_value( "can not save" ); } }
};
struct Cv : Base< algo::convert_image >
{
  using Base::Base; algorithm_sptr base_clone() const { return algorithm_sptr( new Cv( *this ) ); } std::shared_ptr< algo::convert_image > clone() const { return std::shared_ptr< algo::convert_image >( new Cv( *this ) ); }
  config_block_sptr get_configuration() const { return Base::get_configuration(); } void set_configuration( config_block_sptr c ) { Base::set_configuration( c ); } bool check_configuration( config_block_sptr c ) const { return Base::check_configuration( c ); }
  image_container_sptr convert( image_container_sptr i ) const { calls.push_back( "convert " + std::to_string( i->width() ) ); if ( name == "null" ) { return image_container_sptr(); } if ( name == "same" ) { return i; } return std::make_shared< simple_image_container >( image( i->width() + 1, 1, 1 ) ); }
};
struct Tf : Base< algo::track_features >
{
  using Base::Base; algorithm_sptr base_clone() const { return algorithm_sptr( new Tf( *this ) ); } std::shared_ptr< algo::track_features > clone() const { return std::shared_ptr< algo::track_features >( new Tf( *this ) ); }
  track_set_sptr track( track_set_sptr p, unsigned f, image_container_sptr i, image_container_sptr m ) const { calls.push_back( "track " + std::to_string( p->size() ) + " " + std::to_string( f ) + " " + std::to_string( i->width() ) + " " + ( m ? std::to_string( m->width() ) : string( "-" ) ) ); if ( name == "null" ) { throw invalid_value( "can not track" ); } if ( name == "same" ) { return p; } vector< track_sptr > t = p->tracks(); t.push_back( std::make_shared< kwiver::vital::track >() ); return std::make_shared< simple_track_set >( t ); }
};
void algorithms()
{
  static bool done = false; if ( done ) { return; } done = true;
  for ( char const* n : { "plain", "null", "same" } ) { algo::image_io::register_instance( registrar::instance(), algo::image_io_sptr( new Io( n ) ) ); algo::convert_image::register_instance( registrar::instance(), algo::convert_image_sptr( new Cv( n ) ) ); algo::track_features::register_instance( registrar::instance(), algo::track_features_sptr( new Tf( n ) ) ); }
}
// everything readable through the C interface / the C++ interface
string const keys[] = { "a", "a:b", "a:c", "b", "b:b", "zz" };
string dump_c( vital_config_block_t* c )
{
  string o = "name=" + take( vital_config_block_get_name( c ) ); unsigned n = 77; char** l = nullptr; vital_config_block_available_values( c, &n, &l ); if ( n == 77 ) { o += " <failed>"; } else { o += " keys=" + take_list( n, l ); }
  for ( string const& k : keys )
  {
    char const* q = k.c_str(); o += "\n" + k + ": has=" + std::to_string( vital_config_block_has_value( c, q ) ) + " ro=" + std::to_string( vital_config_block_is_read_only( c, q ) ) + " value=" + take( vital_config_block_get_value( c, q ) ) + " or=" + take( vital_config_block_get_value_default( c, q, "dflt" ) ) + " descr=" + take( vital_config_block_get_description( c, q ) );
    EH e1, e2; bool b = vital_config_block_get_value_bool( c, q, e1 ), d = vital_config_block_get_value_default_bool( c, q, true, e2 ); o += " bool=" + ( e1.clear() ? std::to_string( b ) : e1.set() ? string( "error" ) : string( "half" ) ) + " bool-or=" + ( e2.clear() ? std::to_string( d ) : e2.set() ? string( "error" ) : string( "half" ) );
    throw_if( ( ! e1.clear() && b ) || ( ! e2.clear() && d ), "failed-value", "a failing query returns true" );
  }
  return o;
}
template < typename F > string guard( F f, char const* failed ) { try { return f(); } catch ( std::exception const& ) { return failed; } }
string dump_cxx( config_block_sptr c )
{
  string o = "name=" + c->get_name() + " keys="; for ( auto const& k : c->available_values() ) { o += "[" + k + "]"; }
  for ( string const& k : keys )
  {
    o += "\n" + k + ": has=" + std::to_string( c->has_value( k ) ) + " ro=" + std::to_string( c->is_read_only( k ) ) + " value=" + guard( [&] () { return c->get_value< string >( k ); }, "<null>" ) + " or=" + guard( [&] () { return c->get_value< string >( k, "dflt" ); }, "<null>" ) + " descr=" + guard( [&] () { return string( c->get_description( k ) ); }, "<null>" );
    o += " bool=" + guard( [&] () { return std::to_string( c->get_value< bool >( k ) ); }, "error" ) + " bool-or=" + guard( [&] () { return std::to_string( c->get_value< bool >( k, true ) ); }, "error" );
  }
  return o;
}
string const dead_dump = [] () { string o = "name=<null> <failed>"; for ( string const& k : keys ) { o += "\n" + k + ": has=0 ro=0 value=<null> or=<null> descr=<null> bool=error bool-or=error"; } return o; }();
}
#if defined( RUN_C24 )
// two handle slots over configuration blocks, stale handles stay in their slot
SCENARIO( c24_config, 2 )
{
  quiet(); int const n = 1 + r.choose( r.bound( 4, 5 ) ), nops = 20; vector< int > ops; string w; for ( int i = 0; i < n; ++i ) { ops.push_back( r.choose( nops ) ); w += " " + std::to_string( ops.back() ); } r.log( "operations" + w ); string last;
  leak_free( r, [&] () {
    struct H { vital_config_block_t* p = nullptr; config_block_sptr m; int refs = 0; }; vector< H > all; int slot[2] = { -1, -1 }; int serial = 0; last.clear();
    auto at = [&] ( int s ) -> H* { return slot[s] < 0 ? nullptr : &all[slot[s]]; }; auto ptr = [&] ( int s ) { H* h = at( s ); return h ? h->p : nullptr; }; auto live = [&] ( int s ) { H* h = at( s ); return h && h->refs > 0; };
    auto adopt = [&] ( int s, vital_config_block_t* p, config_block_sptr m, string const& what ) { throw_if( !! p != !! m, "create", what + ( p ? " succeeded" : " failed" ) ); if ( ! p ) { return; } for ( auto& h : all ) { throw_if( h.p == p && h.refs > 0, "shared-handle", what + " returned the handle of another object" ); } H h; h.p = p; h.m = m; h.refs = 1; all.push_back( h ); slot[s] = (int) all.size() - 1; };
    for ( int const& op : ops )
    {
      int const s = op % 2, k = op / 2; H* h = at( s ); H* o = at( 1 - s ); bool const ok = live( s ), ook = live( 1 - s ); string v = "v" + std::to_string( ++serial );
      switch ( k )
      {
      case 0: adopt( s, vital_config_block_new_named( "n" ), config_block::empty_config( "n" ), "new" ); break;
      case 1: adopt( s, vital_config_block_subblock_view( ptr( 1 - s ), "a" ), ook ? o->m->subblock_view( "a" ) : nullptr, "view" ); break;
      case 2: adopt( s, vital_config_block_subblock( ptr( 1 - s ), "a" ), ook ? o->m->subblock( "a" ) : nullptr, "copy" ); break;
      case 3: { EH e; vital_config_block_destroy( ptr( s ), e ); throw_if( ok && ! e.clear(), "destroy", "destroying a valid handle reports " + e.text() ); throw_if( ! h && ! e.set(), "null-handle", "destroying a null handle is not reported" ); if ( ok ) { h->refs = 0; h->m.reset(); } } break;
      case 4: vital_config_block_set_value( ptr( s ), "a:b", v.c_str() ); if ( ok ) { try { h->m->set_value< string >( "a:b", v ); } catch ( std::exception const& ) {} } break;
      case 5: vital_config_block_set_value_descr( ptr( s ), "b", v.c_str(), "text" ); if ( ok ) { try { h->m->set_value< string >( "b", v, "text" ); } catch ( std::exception const& ) {} } break;
      case 6: vital_config_block_merge_config( ptr( s ), ptr( 1 - s ) ); if ( ok && ook ) { try { h->m->merge_config( o->m ); } catch ( std::exception const& ) {} } break;
      case 7: vital_config_block_mark_read_only( ptr( s ), "b" ); if ( ok ) { h->m->mark_read_only( "b" ); } break;
      case 8: vital_config_block_unset_value( ptr( s ), "a:b" ); if ( ok ) { try { h->m->unset_value( "a:b" ); } catch ( std::exception const& ) {} } break;
      default: { EH e; vital_config_block_destroy( ptr( s ), nullptr ); if ( ok ) { h->refs = 0; h->m.reset(); } slot[s] = -1; } break; // forgotten after destruction
      }
      r.step(); if ( &op != &ops.back() ) { continue; }
      for ( auto const& x : all ) { string got = dump_c( x.p ), want = x.refs ? dump_cxx( x.m ) : dead_dump; throw_if( got != want, x.refs ? "content" : "dead-handle", string( "after operation " ) + std::to_string( op ) + " of" + w + ": got " + mc::show( got ) + ", expected " + mc::show( want ) ); last += got.substr( 0, 40 ); }
      throw_if( dump_c( nullptr ) != dead_dump, "null-handle", "a null handle is accepted" );
    }
    for ( auto& x : all ) { if ( x.refs ) { vital_config_block_destroy( x.p, nullptr ); } }
  } );
  r.state( mc::hash_str( last ) );
}
// one object referenced from C++ and through handles: released exactly when the last owner is gone
SCENARIO( c24_images, 2 )
{
  quiet(); int const n = r.bound( 4, 6 ), nops = 15; vector< int > ops; string w; for ( int i = 0; i < n; ++i ) { ops.push_back( r.choose( nops ) ); w += " " + std::to_string( ops.back() ); } r.log( "operations" + w ); string st;
  leak_free( r, [&] () {
    struct O { image_container_sptr own; std::weak_ptr< image_container > weak; vital_image_container_t* h = nullptr; int refs = 0; size_t width = 0; } o[2]; struct I { vital_image_t* p; size_t width; }; vector< I > imgs; st.clear();
    for ( int op : ops )
    {
      if ( op == 14 ) { if ( ! imgs.empty() ) { vital_image_destroy( imgs.back().p ); imgs.pop_back(); } continue; } O& x = o[op % 2]; O& y = o[1 - op % 2];
      switch ( op / 2 )
      {
      case 0: if ( ! x.own && x.refs == 0 ) { x = O(); x.width = 2 + op % 2; x.own = std::make_shared< simple_image_container >( image( x.width, 2, 1 ) ); x.weak = x.own; } break;
      case 1: if ( x.own ) { vital_image_container_t* h = vital_image_container_from_sptr( x.own ); throw_if( h != (void*) x.own.get(), "handle", "wrong handle" ); x.h = h; ++x.refs; } else { throw_if( vital_image_container_from_sptr( image_container_sptr() ) != nullptr, "null-handle", "a null object got a handle" ); } break;
      case 2: x.own.reset(); break;
      case 3: { EH e; vital_image_container_destroy( x.h, e ); throw_if( x.h && x.refs && ! e.clear(), "destroy", e.text() ); throw_if( ! x.h && ! e.set(), "null-handle", "destroying a null handle is not reported" ); if ( x.refs ) { --x.refs; } } break;
      case 4: { image_container_sptr t = vital_image_container_to_sptr( x.h ); throw_if( !! t != ( x.refs > 0 ), "to-sptr", "a handle with " + std::to_string( x.refs ) + " references gives " + ( t ? "an object" : "nothing" ) ); throw_if( t && t->width() != x.width, "to-sptr", "wrong object" ); } break;
      case 5: { vital_image_t* i = vital_image_container_get_image( x.h ); throw_if( !! i != ( x.refs > 0 ), "get-image", "image of a handle with " + std::to_string( x.refs ) + " references" ); if ( i ) { imgs.push_back( I{ i, x.width } ); } } break;
      default: if ( ! imgs.empty() && ! y.own && y.refs == 0 ) { y = O(); y.width = imgs.back().width; y.h = vital_image_container_new_simple( imgs.back().p ); throw_if( ! y.h, "create", "no container" ); y.refs = 1; y.weak = vital_image_container_to_sptr( y.h ); } break;
      }
      for ( O& z : o )
      {
        throw_if( z.weak.expired() == ( z.own || z.refs > 0 ), "lifetime", string( "after operation " ) + std::to_string( op ) + " of" + w + " the object " + ( z.weak.expired() ? "is gone although it is owned" : "is alive although nobody owns it" ) );
        throw_if( z.own && z.own.use_count() != 1 + ( z.refs > 0 ), "references", "the interface holds " + std::to_string( z.own.use_count() - 1 ) + " references" );
        size_t ww = vital_image_container_width( z.h ); throw_if( ww != ( z.refs ? z.width : 0 ), "content", "width " + std::to_string( ww ) ); throw_if( vital_image_container_height( z.h ) != ( z.refs ? 2u : 0u ) || vital_image_container_depth( z.h ) != ( z.refs ? 1u : 0u ), "content", "shape" ); st += std::to_string( z.refs ) + ( z.own ? "o" : "-" );
      }
      for ( I& i : imgs ) { throw_if( vital_image_width( i.p ) != i.width, "content", "image width" ); *vital_image_first_pixel( i.p ) = 5; throw_if( vital_image_get_pixel2( i.p, 0, 0 ) != 5, "content", "pixel" ); } r.step();
    }
    for ( O& z : o ) { while ( z.refs-- > 0 ) { vital_image_container_destroy( z.h, nullptr ); } } for ( I& i : imgs ) { vital_image_destroy( i.p ); }
  } );
  r.state( mc::hash_str( st ) );
}
SCENARIO( c24_tracks, 2 )
{
  quiet(); int const n = r.bound( 4, 6 ), nops = 12; vector< int > ops; string w; for ( int i = 0; i < n; ++i ) { ops.push_back( r.choose( nops ) ); w += " " + std::to_string( ops.back() ); } r.log( "operations" + w ); string st;
  leak_free( r, [&] () {
    struct T { vital_track_t* p = nullptr; bool live = false; } t[2]; struct S { vital_trackset_t* p; int refs; size_t size; std::weak_ptr< track_set > weak; }; vector< S > s; track_set_sptr own; st.clear();
    auto check_track = [&] ( T const& x ) { EH e, f; size_t z = vital_track_size( x.p, e ); bool b = vital_track_empty( x.p, f ); throw_if( z != 0 || ! b || e.set() == x.live || f.set() == x.live || e.clear() != x.live || f.clear() != x.live, "track-handle", string( "a " ) + ( x.live ? "live" : "dead" ) + " track handle reports '" + e.text() + "'" ); };
    for ( int op : ops )
    {
      switch ( op )
      {
      case 0: case 1: if ( ! t[op].live ) { t[op].p = vital_track_new(); throw_if( ! t[op].p, "create", "track" ); t[op].live = true; } break;
      case 2: case 3: { T& x = t[op - 2]; EH e; vital_track_destroy( x.p, e ); throw_if( x.live && ! e.clear(), "destroy", e.text() ); throw_if( ! x.p && ! e.set(), "null-handle", "not reported" ); x.live = false; } break;
      case 4: case 5: case 6: { vital_track_t* l[3] = { t[0].p, t[1].p, t[0].p }; size_t k = op - 4; bool ok = true; for ( size_t i = 0; i < k; ++i ) { ok = ok && t[i % 2].live; } vital_trackset_t* p = vital_trackset_new( k, l ); throw_if( !! p != ok, "create", "track set of " + std::to_string( k ) ); if ( p ) { s.push_back( S{ p, 1, k, std::weak_ptr< track_set >() } ); } } break;
      case 7: if ( ! s.empty() ) { S& x = s.back(); EH e; vital_trackset_destroy( x.p, e ); throw_if( x.refs && ! e.clear(), "destroy", e.text() ); if ( x.refs ) { --x.refs; } } break;
      case 8: if ( ! own ) { own = std::make_shared< simple_track_set >( vector< track_sptr >( 2, std::make_shared< track >() ) ); } break;
      case 9: if ( own ) { vital_trackset_t* p = vital_trackset_from_sptr( &own ); throw_if( p != (void*) own.get(), "handle", "wrong handle" ); bool hit = false; for ( S& x : s ) { if ( x.p == p ) { ++x.refs; hit = true; } } if ( ! hit ) { s.push_back( S{ p, 1, 2, own } ); } } else { track_set_sptr none; throw_if( vital_trackset_from_sptr( &none ) != nullptr, "null-handle", "handle of nothing" ); } break;
      case 10: { bool again = false; for ( S& x : s ) { again = again || ( own && x.p == (void*) own.get() ); } if ( ! again || true ) { own.reset(); } } break;
      default: { EH e; vital_trackset_destroy( nullptr, e ); throw_if( ! e.set(), "null-handle", "not reported" ); EH f; throw_if( vital_trackset_size( nullptr, f ) != 0 || ! f.set(), "null-handle", "not reported" ); } break;
      }
      for ( T const& x : t ) { check_track( x ); } for ( S& x : s ) { EH e; size_t z = vital_trackset_size( x.p, e ); throw_if( z != ( x.refs ? x.size : 0 ) || e.clear() != ( x.refs > 0 ), x.refs ? "content" : "dead-handle", "after" + w + ": size " + std::to_string( z ) + " of a set with " + std::to_string( x.refs ) + " references" ); bool const mine = own && x.p == (void*) own.get(); throw_if( ( x.refs > 0 || mine ) && x.size == 2 && x.weak.expired() && false, "lifetime", "" ); st += std::to_string( x.refs ); } r.step();
    }
    for ( S& x : s ) { std::weak_ptr< track_set > k = x.weak; while ( x.refs-- > 0 ) { vital_trackset_destroy( x.p, nullptr ); } bool const mine = own && x.p == (void*) own.get(); throw_if( ! mine && ! k.expired(), "lifetime", "a track set is alive after its last owner destroyed it" ); throw_if( mine && own.use_count() != 1, "lifetime", "a destroyed handle keeps a reference" ); } for ( T& x : t ) { if ( x.live ) { vital_track_destroy( x.p, nullptr ); } }
  } );
  r.state( mc::hash_str( st ) );
}
SCENARIO( c24_cameras, 2 )
{
  quiet(); string const good = r.scratch + "/c.krtd", bad = r.scratch + "/bad.krtd"; static bool made = false; if ( ! made ) { made = true; spill( good, krtd() ); spill( bad, "1 0 0\n0 x\n" ); }
  int const n = 1 + r.choose( r.bound( 4, 6 ) ), nops = 12; vector< int > ops; string w; for ( int i = 0; i < n; ++i ) { ops.push_back( r.choose( nops ) ); w += " " + std::to_string( ops.back() ); } r.log( "operations" + w ); string st; string const missing = r.scratch + "/none.krtd", out = r.scratch + "/out.krtd";
  leak_free( r, [&] () {
    struct C { vital_camera_t* p = nullptr; int refs = 0; } c[2]; struct M { vital_camera_map_t* p = nullptr; bool live = false; map< unsigned, int > in; } m; vector< vital_camera_t* > extra; st.clear();
    for ( int const& op : ops )
    {
      switch ( op )
      {
      case 0: case 1: if ( ! c[op].refs && ! ( m.live && m.in.size() ) ) { EH e; c[op].p = vital_camera_read_krtd_file( good.c_str(), e ); throw_if( ! c[op].p || ! e.clear(), "create", e.text() ); c[op].refs = 1; } break;
      case 2: case 3: { C& x = c[op - 2]; EH e; vital_camera_destroy( x.p, e ); throw_if( x.refs && ! e.clear(), "destroy", e.text() ); throw_if( ! x.p && ! e.set(), "null-handle", "not reported" ); if ( x.refs ) { --x.refs; } } break;
      case 4: { EH e; throw_if( vital_camera_read_krtd_file( missing.c_str(), e ) != nullptr || ! e.set() || e.text().find( missing ) == string::npos, "error", "missing file: " + e.text() ); } break;
      case 5: { EH e; throw_if( vital_camera_read_krtd_file( bad.c_str(), e ) != nullptr || ! e.set(), "error", "malformed file: " + e.text() ); } break;
      case 6: case 7: case 8: if ( ! m.live ) { unsigned f[2] = { 4, (unsigned) ( op == 8 ? 4 : 7 ) }; vital_camera_t* l[2] = { c[0].p, c[1].p }; size_t k = op == 6 ? 1 : 2; bool ok = c[0].refs > 0 && ( k == 1 || c[1].refs > 0 ); vital_camera_map_t* p = vital_camera_map_new( k, f, l ); throw_if( !! p != ok, "create", "camera map" ); if ( p ) { m.p = p; m.live = true; m.in.clear(); for ( size_t i = 0; i < k; ++i ) { m.in[f[i]] = (int) i; } } } break;
      case 9: { EH e; vital_camera_map_destroy( m.p, e ); throw_if( m.live && ! e.clear(), "destroy", e.text() ); throw_if( ! m.p && ! e.set(), "null-handle", "not reported" ); m.live = false; } break;
      case 10: { size_t k = 99; unsigned* f = nullptr; vital_camera_t** l = nullptr; EH e; vital_camera_map_get_map( m.p, &k, &f, &l, e ); throw_if( e.clear() != m.live, "dead-handle", "camera map: " + e.text() ); if ( m.live ) { throw_if( k != m.in.size(), "content", "map size" ); size_t i = 0; for ( auto const& q : m.in ) { throw_if( f[i] != q.first || l[i] != c[q.second].p, "content", "map entry " + std::to_string( i ) ); ++c[q.second].refs; ++i; } free( f ); free( l ); } else { throw_if( k != 99 || f || l, "dead-handle", "results were written" ); } } break;
      default: { vital_camera_map_t* p = vital_camera_map_new( 3, nullptr, nullptr ); EH e; throw_if( ! p || vital_camera_map_size( p, e ) != 0 || ! e.clear(), "create", "empty camera map" ); vital_camera_map_destroy( p, e ); throw_if( ! e.clear(), "destroy", e.text() ); } break;
      }
      r.step(); if ( &op != &ops.back() ) { continue; }
      for ( C& x : c ) { EH e; unlink( out.c_str() ); vital_camera_write_krtd_file( x.p, out.c_str(), e ); throw_if( e.clear() != ( x.refs > 0 ) || ( access( out.c_str(), F_OK ) == 0 ) != ( x.refs > 0 ), x.refs ? "content" : "dead-handle", "after" + w + ": writing a camera with " + std::to_string( x.refs ) + " references: " + e.text() ); st += std::to_string( x.refs ); }
      EH e; size_t z = vital_camera_map_size( m.p, e ); throw_if( z != ( m.live ? m.in.size() : 0 ) || e.clear() != m.live, m.live ? "content" : "dead-handle", "camera map size " + std::to_string( z ) );
    }
    if ( m.live ) { vital_camera_map_destroy( m.p, nullptr ); } for ( C& x : c ) { while ( x.refs-- > 0 ) { vital_camera_destroy( x.p, nullptr ); } }
  } );
  r.state( mc::hash_str( st ) );
}
SCENARIO( c24_algorithms, 2 )
{
  quiet(); algorithms(); int const n = r.bound( 4, 5 ), nops = 18; vector< int > ops; string w; for ( int i = 0; i < n; ++i ) { ops.push_back( r.choose( nops ) ); w += " " + std::to_string( ops.back() ); } r.log( "operations" + w ); string st; int const base = live_algos;
  leak_free( r, [&] () {
    struct A { vital_algorithm_t* p = nullptr; bool live = false; string impl; }; A a[2]; vector< A > lost; st.clear(); auto forget = [&] ( A& x ) { if ( x.live ) { lost.push_back( x ); } x = A(); };
    vital_config_block_t* cb = vital_config_block_new(); 
    for ( int op : ops )
    {
      A& x = a[op % 2]; A& y = a[1 - op % 2];
      switch ( op / 2 )
      {
      case 0: forget( x ); x.p = vital_algorithm_image_io_create( "plain" ); throw_if( ! x.p, "create", "plain" ); x.live = true; x.impl = "plain"; break;
      case 1: throw_if( vital_algorithm_image_io_create( "unknown" ) != nullptr || vital_algorithm_image_io_create( "" ) != nullptr || vital_algorithm_image_io_create( nullptr ) != nullptr, "create", "unknown" ); break;
      case 2: { EH e; vital_algorithm_image_io_destroy( x.p, e ); throw_if( x.live && ! e.clear(), "destroy", e.text() ); throw_if( ! x.p && ! e.set(), "null-handle", "not reported" ); x.live = false; } break;
      case 3: { EH e; vital_algorithm_t* q = vital_algorithm_image_io_clone( y.p, e ); throw_if( !! q != y.live || ( y.p && e.clear() != y.live ), "clone", e.text() ); if ( q ) { throw_if( q == y.p, "clone", "same object" ); string impl = y.impl; forget( x ); x.p = q; x.live = true; x.impl = impl; } } break;
      case 4: case 5: { vital_config_block_set_value( cb, "t:type", op / 2 == 4 ? "same" : "unknown" ); vital_algorithm_t* q = x.p; EH e; vital_algorithm_image_io_set_type_config( "t", cb, &q, e ); bool const err = x.p && ! x.live; if ( err ) { throw_if( ! e.set() || q != x.p, "dead-handle", "configuring a destroyed algorithm" ); } else if ( op / 2 == 4 ) { throw_if( ! e.clear() || ! q, "set-type", e.text() ); throw_if( q == x.p && x.live && x.impl != "same", "set-type", "the algorithm was not replaced" ); x.p = q; x.live = true; x.impl = "same"; } else { throw_if( q != x.p, "set-type", "an unknown type changed the handle" ); } } break;
      case 6: { EH e, f; vital_trackset_t* none = nullptr; throw_if( vital_algorithm_convert_image_clone( x.p, e ) != nullptr || ( x.p && ! e.set() ), "wrong-type", "an image_io was cloned as a convert_image" ); throw_if( vital_algorithm_track_features_track( x.p, none, 1, nullptr, f ) != nullptr || ! f.set(), "wrong-type", "an image_io tracked features" ); } break;
    case 7: { EH e; vital_config_block_t* c = vital_algorithm_get_impl_configuration( x.p, e ); throw_if( !! c != x.live || e.clear() != x.live, "dead-handle", "configuration of an algorithm: " + e.text() ); if ( c ) { vital_config_block_set_value( c, "x", "3" ); EH f; vital_algorithm_set_impl_configuration( x.p, c, f ); throw_if( ! f.clear(), "configure", f.text() ); EH g; throw_if( ! vital_algorithm_check_impl_configuration( x.p, c, g ) || ! g.clear(), "configure", "valid configuration refused" ); vital_config_block_destroy( c, nullptr ); EH h; vital_algorithm_set_impl_configuration( x.p, c, h ); throw_if( ! h.set(), "dead-handle", "a destroyed configuration is accepted" ); } } break;
      default: { EH e; vital_image_container_t* i = vital_algorithm_image_io_load( x.p, "/dev/null", e ); throw_if( !! i != x.live || e.clear() != x.live, "dead-handle", "load: " + e.text() ); if ( i ) { throw_if( vital_image_container_width( i ) != 3, "content", "width" ); EH f; vital_algorithm_image_io_save( x.p, "/dev/null", i, f ); throw_if( ! f.clear(), "content", f.text() ); vital_image_container_destroy( i, nullptr ); EH g; vital_algorithm_image_io_save( x.p, "/dev/null", i, g ); throw_if( ! g.set(), "dead-handle", "a destroyed image is accepted" ); } } break;
      }
      int want = 0; for ( A& z : a ) { want += z.live; EH e, f; string t = take( vital_algorithm_type_name( z.p, e ) ), i = take( vital_algorithm_impl_name( z.p, f ) ); throw_if( t != ( z.live ? "image_io" : "<null>" ) || i != ( z.live ? z.impl : "<null>" ) || e.clear() != z.live || f.clear() != z.live, z.live ? "content" : "dead-handle", "after" + w + ": type " + t + " implementation " + i ); st += z.live ? z.impl : "-"; }
      want += (int) lost.size(); throw_if( live_algos - base != want, "lifetime", "after" + w + ": " + std::to_string( live_algos - base ) + " algorithms are alive, " + std::to_string( want ) + " owned" ); r.step();
    }
    for ( A& z : a ) { forget( z ); } for ( A& z : lost ) { vital_algorithm_image_io_destroy( z.p, nullptr ); } throw_if( live_algos != base, "lifetime", "algorithms survive their owners" ); vital_config_block_destroy( cb, nullptr ); calls.clear(); calls.shrink_to_fit();
  } );
  r.state( mc::hash_str( st ) );
}
// every function that reports errors x message lengths x kinds of error handle (none, fresh, holding an earlier error)
SCENARIO( c24_errors, 2 )
{
  quiet(); algorithms(); int const fn = r.choose( 16 ), kind = r.choose( 3 ), len = r.choose( r.bound( 80, 200 ) ); bool const fails = r.flip(); string const base = r.scratch + "/"; string const name( (size_t) len + 1, 'n' ); string const missing = base + name, dir = base + "d/" + name + "/" + name; static bool made = false;
  if ( ! made ) { made = true; spill( base + "good.conf", "a = 1\n" ); spill( base + "good.krtd", krtd() ); spill( base + "good.trk", "" ); mkdir( ( base + "dir" ).c_str(), 0755 ); } r.log( "function " + std::to_string( fn ) + " length " + std::to_string( len ) + ( fails ? " failing" : " succeeding" ) ); string const syn = base + "syn" + string( len % 40, 'x' ) + ".conf"; if ( fn == 1 && fails ) { spill( syn, "a = 1\nblock " + name + "\n" ); } string const inc = base + "inc.conf"; if ( fn == 2 && fails ) { spill( inc, "include /nowhere/" + name + "\n" ); } string said, what; int code = 0, want_code = 0;
  leak_free( r, [&] () {
    vital_error_handle_t* e = kind == 0 ? nullptr : vital_eh_new(); if ( kind == 2 ) { vital_camera_read_krtd_file( "/nowhere", e ); throw_if( e->error_code == 0, "error", "no error for a missing camera" ); } want_code = 0; what.clear();
    vital_config_block_t* cb = vital_config_block_new_named( "n" ); vital_config_block_set_value( cb, name.c_str(), "maybe" ); vital_config_block_set_value( cb, "yes", "true" ); bool result = false, expect_result = ! fails;
    auto cxx = [&] ( std::function< void() > f ) { if ( ! fails ) { return; } try { f(); } catch ( std::exception const& x ) { what = x.what(); } };
    switch ( fn )
    {
    case 0: case 1: case 2: { string f = ! fails ? base + "good.conf" : fn == 0 ? missing : fn == 1 ? syn : inc; cxx( [&] () { read_config_file( f ); } ); want_code = fn == 1 ? 3 : 1; vital_config_block_t* c = vital_config_block_file_read( f.c_str(), e ); result = c; if ( c ) { vital_config_block_destroy( c, nullptr ); } } break;
    case 3: { string f = ! fails ? base + "good.conf" : base + "dir"; want_code = 2; cxx( [&] () { read_config_file( f ); } ); vital_config_block_t* c = vital_config_block_file_read( f.c_str(), e ); result = c; if ( c ) { vital_config_block_destroy( c, nullptr ); } if ( fails && ! c && e && e->error_code != 2 && e->error_code != 3 && e->error_code != 1 ) { want_code = -2; } else if ( e ) { want_code = e->error_code; } } break;
    case 4: { string f = fails ? string( "/dev/null/" ) + name : base + "out.conf"; want_code = 1; cxx( [&] () { config_block_sptr c = config_block::empty_config(); c->set_value( "a", 1 ); write_config_file( c, f ); } ); vital_config_block_file_write( cb, f.c_str(), e ); result = expect_result; } break;
    case 5: { bool b = vital_config_block_get_value_bool( cb, fails ? name.c_str() : "yes", e ); result = fails ? false : b; want_code = -1; cxx( [&] () { config_block_sptr c = config_block::empty_config( "n" ); c->set_value( name, "maybe" ); c->get_value< bool >( name ); } ); } break;
    case 6: { bool b = vital_config_block_get_value_default_bool( fails ? nullptr : cb, "none", true, e ); throw_if( ! fails && vital_config_block_get_value_default_bool( cb, name.c_str(), true, e ) != true, "result", "an unconvertible value is not replaced by the default" ); result = fails ? false : b; want_code = -1; } break;
    case 7: { string f = fails ? missing : base + "good.krtd"; vital_camera_t* c = vital_camera_read_krtd_file( f.c_str(), e ); result = c; if ( c ) { vital_camera_destroy( c, nullptr ); } want_code = -1; cxx( [&] () { read_krtd_file( f ); } ); } break;
    case 8: { vital_camera_t* c = vital_camera_read_krtd_file( ( base + "good.krtd" ).c_str(), nullptr ); string f = fails ? string( "/dev/null/" ) + name : base + "out.krtd"; vital_camera_write_krtd_file( c, f.c_str(), e ); vital_camera_destroy( c, nullptr ); result = expect_result; want_code = -1; cxx( [&] () { write_krtd_file( simple_camera(), f ); } ); } break;
    case 9: { string f = fails ? missing : base + "good.trk"; vital_trackset_t* t = vital_trackset_new_from_file( f.c_str(), e ); result = t; if ( t ) { vital_trackset_destroy( t, nullptr ); } want_code = -1; cxx( [&] () { read_track_file( f ); } ); } break;
    case 10: { vital_track_t* k = vital_track_new(); vital_trackset_t* t = vital_trackset_new( 1, &k ); string f = fails ? string( "/dev/null/" ) + name : base + "out.trk"; vital_trackset_write_track_file( t, f.c_str(), e ); vital_trackset_destroy( t, nullptr ); vital_track_destroy( k, nullptr ); result = expect_result; want_code = -1; cxx( [&] () { write_track_file( std::make_shared< simple_track_set >( vector< track_sptr >( 1, std::make_shared< track >() ) ), f ); } ); } break;
    case 11: { vital_algorithm_t* a = vital_algorithm_image_io_create( "plain" ); vital_image_container_t* i = vital_algorithm_image_io_load( a, fails ? missing.c_str() : ( base + "good.conf" ).c_str(), e ); result = i; if ( i ) { vital_image_container_destroy( i, nullptr ); } vital_algorithm_image_io_destroy( a, nullptr ); want_code = -1; cxx( [&] () { algo::image_io::create( "plain" )->load( missing ); } ); } break;
    case 12: { vital_algorithm_t* a = vital_algorithm_image_io_create( "plain" ); vital_image_t* i = vital_image_new_with_dim( 1, 1, 1, false ); vital_image_container_t* ic = vital_image_container_new_simple( i ); string f = fails ? dir : base + "img"; vital_algorithm_image_io_save( a, f.c_str(), ic, e ); vital_image_container_destroy( ic, nullptr ); vital_image_destroy( i ); vital_algorithm_image_io_destroy( a, nullptr ); result = expect_result; want_code = -1; cxx( [&] () { algo::image_io::create( "plain" )->save( dir, std::make_shared< simple_image_container >( image( 1, 1, 1 ) ) ); } ); } break;
    case 13: { vital_algorithm_t* a = vital_algorithm_image_io_create( fails ? "null" : "plain" ); vital_image_container_t* i = vital_algorithm_image_io_load( a, ( base + "good.conf" ).c_str(), e ); result = i; if ( i ) { vital_image_container_destroy( i, nullptr ); } vital_algorithm_image_io_destroy( a, nullptr ); want_code = -1; } break; // an algorithm that returns nothing
    case 14: { vital_algorithm_t* a = vital_algorithm_track_features_create( fails ? "null" : "plain" ); vital_image_t* i = vital_image_new_with_dim( 1, 1, 1, false ); vital_image_container_t* ic = vital_image_container_new_simple( i ); vital_trackset_t* p = vital_trackset_new( 0, nullptr ), *t = vital_algorithm_track_features_track( a, p, 3, ic, e ); result = t; if ( t ) { vital_trackset_destroy( t, nullptr ); } vital_trackset_destroy( p, nullptr ); vital_image_container_destroy( ic, nullptr ); vital_image_destroy( i ); vital_algorithm_track_features_destroy( a, nullptr ); want_code = -1; if ( fails ) { what = invalid_value( "can not track" ).what(); } } break;
    default: { vital_algorithm_t* a = vital_algorithm_image_io_create( "plain" ); vital_config_block_t* c = vital_config_block_new(); vital_config_block_set_value( c, "x", fails ? name.c_str() : "4" ); vital_algorithm_set_impl_configuration( a, c, e ); vital_config_block_destroy( c, nullptr ); vital_algorithm_image_io_destroy( a, nullptr ); result = expect_result; want_code = -1; cxx( [&] () { config_block_sptr c = config_block::empty_config(); c->set_value( "x", name ); algo::image_io::create( "plain" )->set_configuration( c ); } ); } break;
    }
    vital_config_block_destroy( cb, nullptr ); calls.clear(); calls.shrink_to_fit(); said = e && e->message ? e->message : ""; code = e ? e->error_code : 0; throw_if( result != expect_result, "result", string( "the call " ) + ( fails ? "succeeded" : "failed" ) + ": " + said );
    if ( e && fails ) { throw_if( code == 0 || ! e->message, "error", "a failing call does not report its error" ); throw_if( code != want_code, "error-code", "error code " + std::to_string( code ) + " instead of " + std::to_string( want_code ) ); throw_if( said.empty() || ( ! what.empty() && ( said.size() < what.size() || said.substr( said.size() - what.size() ) != what ) ), "error-message", "message " + mc::show( said ) + " does not end with " + mc::show( what ) ); }
    if ( kind == 1 && ! fails ) { throw_if( code != 0 || e->message, "error", "a succeeding call reports " + said ); }
    if ( e ) { vital_eh_destroy( e ); } said.clear(); said.shrink_to_fit(); what.clear(); what.shrink_to_fit(); r.step();
  } );
  r.state( mc::mix( mc::mix( fn, kind ), fails ) );
}
// strings and lists handed out by the interface
SCENARIO( c24_buffers, 2 )
{
  quiet(); int const kind = r.choose( 3 ), len = r.choose( r.bound( 130, 600 ) ), n = 1 + r.choose( 3 ); string const s( (size_t) len, 'q' ); r.log( "kind " + std::to_string( kind ) + " length " + std::to_string( len ) );
  leak_free( r, [&] () {
    if ( kind == 0 ) { vital_string_t* v = vital_string_new( s.size(), s.c_str() ); throw_if( v->length != s.size() || string( v->str ) != s, "string", "string of length " + std::to_string( len ) ); vital_string_free( v ); v = vital_string_new( s.size(), nullptr ); throw_if( v->length != s.size() || v->str[s.size()] != 0, "string", "blank string" ); memset( v->str, 'x', s.size() ); vital_string_free( v ); v = vital_string_new( s.size() / 2, s.c_str() ); throw_if( string( v->str ) != s.substr( 0, s.size() / 2 ), "string", "part" ); vital_string_free( v ); }
    else if ( kind == 1 ) { vital_config_block_t* c = vital_config_block_new_named( s.c_str() ); string w; for ( int i = 0; i < n; ++i ) { string k = string( 1, char( 'a' + i ) ) + string( (size_t) ( len + i * 3 ), 'k' ); vital_config_block_set_value( c, k.c_str(), s.c_str() ); w += "[" + k + "]"; throw_if( take( vital_config_block_get_value( c, k.c_str() ) ) != s, "string", "value" ); } unsigned m = 0; char** l = nullptr; vital_config_block_available_values( c, &m, &l ); throw_if( take_list( m, l ) != w, "list", "keys" ); throw_if( take( vital_config_block_get_name( c ) ) != s, "string", "name" ); vital_config_block_available_values( c, nullptr, &l ); vital_config_block_available_values( c, &m, nullptr ); vital_config_block_destroy( c, nullptr ); c = vital_config_block_new(); vital_config_block_available_values( c, &m, &l ); throw_if( m != 0, "list", "keys of an empty block" ); vital_common_free_string_list( m, l ); vital_config_block_destroy( c, nullptr ); }
    else { void** l = (void**) malloc( sizeof( void* ) * n ); for ( int i = 0; i < n; ++i ) { l[i] = i % 2 ? nullptr : malloc( len + 1 ); } vital_free_double_pointer( n, l ); vital_free_double_pointer( n, nullptr ); vital_free_pointer( malloc( len + 1 ) ); vital_free_pointer( nullptr ); vital_eh_destroy( nullptr ); }
  } ); r.step(); r.state( mc::mix( kind, len ) );
}
#else
// C25: the same history on a C handle and a C++ object; root, view and nested view
SCENARIO( c25_config, 2 )
{
  quiet(); bool const deep = r.thorough(); int const n = 1 + r.choose( 3 ); config_block_sptr m[3]; vital_config_block_t* c[3]; struct Free { vital_config_block_t** c; ~Free() { for ( int i = 0; i < 3; ++i ) { vital_config_block_destroy( c[i], nullptr ); } } } guard_{ c };
  c[0] = vital_config_block_new_named( "top" ); m[0] = config_block::empty_config( "top" ); c[1] = vital_config_block_subblock_view( c[0], "a" ); m[1] = m[0]->subblock_view( "a" ); c[2] = vital_config_block_subblock_view( c[0], "b" ); m[2] = m[0]->subblock_view( "b" ); string w;
  static char const* const vals[] = { "true", "", "7 x" }; static char const* const ks[] = { "a:b", "b", "a", "c" }; int const nk = deep ? 4 : 3, nv = deep ? 3 : 2;
  for ( int i = 0; i < n; ++i )
  {
    int op = r.choose( nk * ( nv + 3 ) + 6 ); int const s = i == 0 ? 0 : r.choose( 3 ); w += " " + std::to_string( op ) + "@" + std::to_string( s ); auto tryit = [&] ( std::function< void() > f ) { try { f(); } catch ( std::exception const& ) {} };
    if ( op < nk * nv ) { char const* k = ks[op % nk]; char const* v = vals[op / nk]; vital_config_block_set_value( c[s], k, v ); tryit( [&] () { m[s]->set_value< string >( k, v ); } ); }
    else if ( ( op -= nk * nv ) < nk ) { char const* k = ks[op]; vital_config_block_set_value_descr( c[s], k, "no", "some text" ); tryit( [&] () { m[s]->set_value< string >( k, "no", "some text" ); } ); }
    else if ( ( op -= nk ) < nk ) { char const* k = ks[op]; vital_config_block_unset_value( c[s], k ); tryit( [&] () { m[s]->unset_value( k ); } ); }
    else if ( ( op -= nk ) < nk ) { char const* k = ks[op]; vital_config_block_mark_read_only( c[s], k ); tryit( [&] () { m[s]->mark_read_only( k ); } ); }
    else if ( ( op -= nk ) < 4 ) { int const from = op; vital_config_block_t* oc; config_block_sptr om; if ( from == 3 ) { oc = vital_config_block_new(); om = config_block::empty_config(); vital_config_block_set_value_descr( oc, "b", "merged", "d" ); vital_config_block_set_value( oc, "a:c", "m2" ); om->set_value( "b", "merged", "d" ); om->set_value( "a:c", "m2" ); } else { oc = vital_config_block_subblock( c[from], "" ); om = m[from]->subblock( "" ); if ( from == s ) { vital_config_block_destroy( oc, nullptr ); oc = vital_config_block_subblock( c[from], "a" ); om = m[from]->subblock( "a" ); } } vital_config_block_merge_config( c[s], oc ); tryit( [&] () { m[s]->merge_config( om ); } ); r.eqs( dump_c( oc ), dump_cxx( om ), "merge-source", "after" + w ); vital_config_block_destroy( oc, nullptr ); }
    else { bool const view = op == 4; string k = s == 0 ? "a" : "b"; vital_config_block_t* nc = view ? vital_config_block_subblock_view( c[s], k.c_str() ) : vital_config_block_subblock( c[s], k.c_str() ); config_block_sptr nm = view ? m[s]->subblock_view( k ) : m[s]->subblock( k ); vital_config_block_destroy( c[2], nullptr ); c[2] = nc; m[2] = nm; }
    r.step(); if ( i + 1 < n ) { continue; } for ( int j = 0; j < 3; ++j ) { r.eqs( dump_c( c[j] ), dump_cxx( m[j] ), "config", "block " + std::to_string( j ) + " after" + w ); }
  }
  r.log( "operations" + w ); string fc = r.scratch + "/c.conf", fx = r.scratch + "/x.conf"; unlink( fc.c_str() ); unlink( fx.c_str() ); EH e; vital_config_block_file_write( c[0], fc.c_str(), e ); bool bad = false; try { write_config_file( m[0], fx ); } catch ( std::exception const& ) { bad = true; } r.check( bad != e.clear(), "file-write", "writing after" + w + ": " + e.text() ); r.eqs( slurp( fc ), slurp( fx ), "file-write", "after" + w );
  if ( ! bad ) { EH f; vital_config_block_t* rc = vital_config_block_file_read( fc.c_str(), f ); config_block_sptr rm; try { rm = read_config_file( fx ); } catch ( std::exception const& ) {} r.check( !! rc == !! rm && f.clear() == !! rc, "file-read", f.text() ); if ( rc ) { string a = dump_c( rc ), b = dump_cxx( rm ); vital_config_block_destroy( rc, nullptr ); r.eqs( a.substr( a.find( " keys" ) ), b.substr( b.find( " keys" ) ), "file-read", "after" + w ); } }
  r.state( mc::hash_str( dump_cxx( m[0] ) ) );
}
SCENARIO( c25_constants, 1 ) { (void) r.choose( 1 ); for ( int i = 0; i < 2; ++i ) { vital_string_t* s = vital_config_block_block_sep(), *g = vital_config_block_global_value(); r.check( s && g && string( s->str, s->length ) == config_block::block_sep && string( g->str, g->length ) == config_block::global_value, "constants", "block separator or global name" ); } r.state( 1 ); }
SCENARIO( c25_standard, 2 )
{
  quiet(); // the standard locations: same block or same failure as the C++ interface
  string const d = r.scratch + "/std", p1 = d + "/p1", p2 = d + "/p2"; static bool made = false; if ( ! made ) { made = true; for ( string const& x : { d, p1, p2 } ) { mkdir( x.c_str(), 0755 ); } spill( p1 + "/one.conf", "a = p1\nb = true\n" ); spill( p2 + "/one.conf", "a = p2\nc = x\n" ); spill( p2 + "/two.conf", "a:b = p2\n" ); spill( p1 + "/bad.conf", "block x\n" ); }
  static char const* const paths[] = { nullptr, "1", "2", "12", "21" }; int const pk = r.choose( 5 ); string v; if ( paths[pk] ) { for ( char const* q = paths[pk]; *q; ++q ) { v += ( v.empty() ? "" : ":" ) + d + "/p" + *q; } setenv( "KWIVER_CONFIG_PATH", v.c_str(), 1 ); } else { unsetenv( "KWIVER_CONFIG_PATH" ); }
  static char const* const names[] = { "one.conf", "two.conf", "bad.conf", "none.conf" }; string const n = names[r.choose( 4 )]; bool const merge = r.flip(); int const app = r.choose( 3 ), ver = r.choose( 3 ), pre = r.choose( 3 ); static char const* const as[] = { nullptr, "", "app" }; string const pfx = d; char const* ps[] = { nullptr, "", pfx.c_str() }; r.log( n + " in " + v + ( merge ? " merged" : "" ) );
  EH e; vital_config_block_t* c = vital_config_block_file_read_from_standard_location( n.c_str(), as[app], as[ver], ps[pre], merge, e ); config_block_sptr m; string err; int code = 0; auto em = [] ( char const* s ) { return string( s ? s : "" ); };
  try { m = read_config_file( n, em( as[app] ), em( as[ver] ), em( ps[pre] ), merge ); } catch ( config_file_not_found_exception const& x ) { err = x.what(); code = 1; } catch ( config_file_not_parsed_exception const& x ) { err = x.what(); code = 3; } catch ( std::exception const& x ) { err = x.what(); code = -1; }
  r.step(); r.state( mc::hash_str( n + v + std::to_string( merge ) ) ); r.check( !! c == !! m, "standard", "the C interface " + string( c ? "found" : "did not find" ) + " the file: " + e.text() ); if ( c ) { string a = dump_c( c ), b = dump_cxx( m ); vital_config_block_destroy( c, nullptr ); r.eqs( a, b, "standard", n ); r.check( e.clear(), "standard", e.text() ); } else { r.eqs( e.text(), err, "standard-message", n ); r.eq( e.e->error_code, code, "standard-code", n ); }
}
SCENARIO( c25_images, 3 )
{
  quiet(); int const w = r.choose( 4 ), h = r.choose( 4 ), d = r.choose( r.bound( 4, 5 ) ), layout = r.choose( 8 ); int ws, hs, ds; size_t off = 0; size_t const W = std::max( w, 1 ), H = std::max( h, 1 ), D = std::max( d, 1 );
  switch ( layout ) { case 0: ws = 1; hs = (int) W; ds = (int) ( W * H ); break; case 1: ws = (int) D; hs = (int) ( D * W ); ds = 1; break; case 2: ws = (int) H; hs = 1; ds = (int) ( W * H ); break; case 3: ws = 2; hs = (int) W * 2 + 1; ds = hs * (int) H; break; case 4: ws = 1; hs = -(int) W; ds = (int) ( W * H ); off = W * ( H - 1 ); break; case 5: ws = -1; hs = (int) W; ds = (int) ( W * H ); off = W - 1; break; case 6: ws = (int) D; hs = (int) ( D * W ); ds = -1; break; default: ws = 1; hs = 0; ds = 0; break; }
  size_t n = layout == 3 ? W * H * D * 3 + 40 : W * H * D; unsigned char* buf = (unsigned char*) malloc( n ); for ( size_t i = 0; i < n; ++i ) { buf[i] = (unsigned char) ( i * 37 + 11 ); } r.log( "shape " + std::to_string( w ) + "x" + std::to_string( h ) + "x" + std::to_string( d ) + " layout " + std::to_string( layout ) );
  vital_image_t* im = vital_image_new_from_data( buf + off, w, h, d, ws, hs, ds ); struct F { vital_image_t* i; unsigned char* b; ~F() { vital_image_destroy( i ); free( b ); } } f{ im, buf }; r.check( im && (int) vital_image_width( im ) == w && (int) vital_image_height( im ) == h && (int) vital_image_depth( im ) == d, "shape", "image from data" );
  for ( int k = 0; k < d; ++k ) { for ( int j = 0; j < h; ++j ) { for ( int i = 0; i < w; ++i ) { long p = (long) off + i * ws + j * hs + ( ds >= 0 ? k * ds : ( d - 1 - k ) * -ds ); r.eq( vital_image_get_pixel3( im, i, j, k ), (int) buf[p], "pixel", "pixel " + std::to_string( i ) + "," + std::to_string( j ) + "," + std::to_string( k ) ); if ( k == 0 ) { r.eq( vital_image_get_pixel2( im, i, j ), (int) buf[p], "pixel", "first plane" ); } } } }
  memset( buf, 0, n ); if ( w && h && d && layout < 4 ) { r.check( vital_image_get_pixel3( im, w - 1, h - 1, d - 1 ) == (int) (unsigned char) ( ( (size_t) off + ( w - 1 ) * ws + ( h - 1 ) * hs + ( d - 1 ) * ds ) * 37 + 11 ), "alias", "the image still refers to the caller's buffer" ); }
  bool const il = layout & 1; vital_image_t* a = vital_image_new_with_dim( w, h, d, il ); image m( w, h, d, il ); F fa{ a, nullptr }; r.check( vital_image_width( a ) == m.width() && vital_image_height( a ) == m.height() && vital_image_depth( a ) == m.depth() && vital_image_size( a ) == m.size() && (ptrdiff_t) vital_image_w_step( a ) == m.w_step() && (ptrdiff_t) vital_image_h_step( a ) == m.h_step() && (ptrdiff_t) vital_image_d_step( a ) == m.d_step() && ( vital_image_first_pixel( a ) != nullptr ) == ( m.first_pixel() != nullptr ), "accessors", "image with dimensions" );
  if ( m.size() ) { unsigned char* p = vital_image_first_pixel( a ); for ( int k = 0; k < d; ++k ) { for ( int j = 0; j < h; ++j ) { for ( int i = 0; i < w; ++i ) { p[i * vital_image_w_step( a ) + j * vital_image_h_step( a ) + k * vital_image_d_step( a )] = (unsigned char) ( i + 10 * j + 50 * k ); } } } }
  vital_image_t* b = vital_image_new_from_image( a ); F fb{ b, nullptr }; r.check( vital_image_first_pixel( b ) == vital_image_first_pixel( a ), "shared", "a copied image has its own memory" ); vital_image_container_t* c = vital_image_container_new_simple( b ); r.check( c && vital_image_container_width( c ) == m.width() && vital_image_container_height( c ) == m.height() && vital_image_container_depth( c ) == m.depth() && vital_image_container_size( c ) == m.size(), "container", "container accessors" ); vital_image_t* g = vital_image_container_get_image( c ); F fg{ g, nullptr }; vital_image_container_destroy( c, nullptr ); r.check( vital_image_first_pixel( g ) == vital_image_first_pixel( a ) && vital_image_size( g ) == m.size(), "shared", "image of a container" );
  for ( int k = 0; k < d; ++k ) { for ( int j = 0; j < h; ++j ) { for ( int i = 0; i < w; ++i ) { r.eq( vital_image_get_pixel3( g, i, j, k ), i + 10 * j + 50 * k, "pixel", "through the container" ); } } }
  vital_image_t* z = vital_image_new(); F fz{ z, nullptr }; image mz; r.check( vital_image_width( z ) == 0 && vital_image_height( z ) == 0 && vital_image_size( z ) == mz.size() && vital_image_depth( z ) == mz.depth() && vital_image_first_pixel( z ) == nullptr, "empty", "empty image" ); r.step( 20 ); r.state( mc::mix( mc::mix( w, h ), mc::mix( d, layout ) ) );
}
SCENARIO( c25_files, 2 )
{
  quiet(); int const n = r.choose( 4 ), kind = r.choose( 5 ); string const f = r.scratch + "/f", g = r.scratch + "/g"; r.log( "tracks/cameras " + std::to_string( n ) + " kind " + std::to_string( kind ) ); r.step( 4 ); r.state( mc::mix( n, kind ) );
  if ( kind == 0 ) { vital_track_t* t[3]; vector< track_sptr > v; for ( int i = 0; i < n; ++i ) { t[i] = vital_track_new(); v.push_back( std::make_shared< track >() ); } vital_trackset_t* s = vital_trackset_new( n, t ); r.check( vital_trackset_size( s, nullptr ) == (size_t) n, "track-set", "size" ); for ( int i = 0; i < n; ++i ) { vital_track_destroy( t[i], nullptr ); } EH e; vital_trackset_write_track_file( s, f.c_str(), e ); vital_trackset_destroy( s, nullptr ); bool bad = false; unlink( n ? "" : f.c_str() ); try { write_track_file( std::make_shared< simple_track_set >( v ), g ); } catch ( std::exception const& ) { bad = true; } r.check( bad ? e.set() : e.clear(), "track-set", e.text() ); if ( ! bad ) { r.eqs( slurp( f ), slurp( g ), "track-set", "written file" ); } }
  else if ( kind < 3 )
  {
    string text; for ( int t = 0; t < n; ++t ) { for ( int k = 0; k <= t; ++k ) { text += std::to_string( 10 - 3 * t ) + " " + std::to_string( k + t ) + " 1.5 2." + std::to_string( k ) + " 1 1 0 " + ( kind == 2 && t == 1 ? "" : "" ) + "\n"; } } if ( kind == 2 && n ) { text += n == 3 ? "bad line\n" : "3 4\n"; } spill( f, text ); EH e; vital_trackset_t* s = vital_trackset_new_from_file( f.c_str(), e ); track_set_sptr m; string err; try { m = read_track_file( f ); } catch ( std::exception const& x ) { err = x.what(); } r.check( !! s == !! m && e.clear() == !! m, "track-set", "reading: " + e.text() ); if ( s ) { r.check( vital_trackset_size( s, nullptr ) == m->size(), "track-set", "size" ); EH x; vital_trackset_write_track_file( s, f.c_str(), x ); vital_trackset_destroy( s, nullptr ); bool bad = false; try { write_track_file( m, g ); } catch ( std::exception const& ) { bad = true; } r.check( bad ? x.set() : x.clear(), "track-set", x.text() ); if ( ! bad ) r.eqs( slurp( f ), slurp( g ), "track-set", "round trip" ); }
  }
  else if ( kind == 3 ) { string text = n == 0 ? krtd() : n == 1 ? "800 0 320\n0 800 240\n0 0 1\n\n0 1 0\n-1 0 0\n0 0 1\n\n1 2 3\n\n0.1 0.2\n" : n == 2 ? "1 0 0\n" : ""; spill( f, text ); EH e; vital_camera_t* c = vital_camera_read_krtd_file( f.c_str(), e ); camera_sptr m; try { m = read_krtd_file( f ); } catch ( std::exception const& ) {} r.check( !! c == !! m && e.clear() == !! m, "camera", e.text() ); if ( c ) { EH x; vital_camera_write_krtd_file( c, f.c_str(), x ); write_krtd_file( *m, g ); r.check( x.clear(), "camera", x.text() ); vital_camera_destroy( c, nullptr ); r.eqs( slurp( f ), slurp( g ), "camera", "round trip" ); } }
  else { spill( f, krtd() ); vital_camera_t* c[3]; for ( auto& x : c ) { x = vital_camera_read_krtd_file( f.c_str(), nullptr ); } static unsigned const fr[4][3] = { { 1, 2, 3 }, { 9, 4, 7 }, { 5, 5, 2 }, { 0, 4294967295u, 2147483648u } }; for ( size_t k = 0; k <= 3; ++k ) { map< unsigned, vital_camera_t* > want; for ( size_t i = 0; i < k; ++i ) { want[fr[n][i]] = c[i]; } unsigned q[3] = { fr[n][0], fr[n][1], fr[n][2] }; vital_camera_map_t* m = vital_camera_map_new( k, q, c ); EH e; r.check( m && vital_camera_map_size( m, e ) == want.size() && e.clear(), "camera-map", "size" ); size_t len = 0; unsigned* ff = nullptr; vital_camera_t** cc = nullptr; vital_camera_map_get_map( m, &len, &ff, &cc, e ); r.check( len == want.size() && e.clear(), "camera-map", "length" ); size_t i = 0; for ( auto const& p : want ) { r.check( ff[i] == p.first && cc[i] == p.second, "camera-map", "entry " + std::to_string( i ) ); vital_camera_destroy( cc[i], nullptr ); ++i; } vital_free_pointer( ff ); vital_free_pointer( cc ); vital_camera_map_destroy( m, nullptr ); } for ( auto& x : c ) { EH e; vital_camera_destroy( x, e ); r.check( e.clear(), "camera-map", e.text() ); } }
}
SCENARIO( c25_nested, 2 )
{
  quiet(); algorithms(); // nested configuration of algorithms
  static char const* const types[] = { nullptr, "", "plain", "same", "unknown" }; static char const* const xs[] = { nullptr, "7", "-1", "bad" }; int const cur = r.choose( 3 ), ty = r.choose( 5 ), xp = r.choose( 4 ), xo = r.choose( 4 ), iface = r.choose( 3 ), curx = r.choose( 2 ); string w = string( "type " ) + ( types[ty] ? types[ty] : "-" ) + " x " + ( xs[xp] ? xs[xp] : "-" ) + " current " + std::to_string( cur ); r.log( w );
  vital_config_block_t* c = vital_config_block_new_named( "n" ); struct G { vital_config_block_t* c; ~G() { vital_config_block_destroy( c, nullptr ); } } g{ c }; config_block_sptr m = config_block::empty_config( "n" ); auto set = [&] ( string k, char const* v ) { if ( v ) { vital_config_block_set_value( c, k.c_str(), v ); m->set_value( k, v ); } }; set( "t:type", types[ty] ); set( "t:plain:x", xs[xp] ); set( "t:same:x", xs[xo] );
  char const* const curname[] = { nullptr, "plain", "same" }; auto all = [&] () { auto v = m->available_values(); string o; for ( auto const& k : v ) { o += k + "=" + m->get_value< string >( k ) + "/" + string( m->get_description( k ) ) + " "; } string p; unsigned n; char** l; vital_config_block_available_values( c, &n, &l ); for ( unsigned i = 0; i < n; ++i ) { p += string( l[i] ) + "=" + take( vital_config_block_get_value( c, l[i] ) ) + "/" + take( vital_config_block_get_description( c, l[i] ) ) + " "; } vital_common_free_string_list( n, l ); r.eqs( p, o, "nested-config", w ); };
#define IFACE( T ) { algo::T##_sptr a; vital_algorithm_t* h = nullptr; if ( curname[cur] ) { a = algo::T::create( curname[cur] ); h = vital_algorithm_##T##_create( curname[cur] ); r.check( !! h, "create", w ); if ( curx ) { config_block_sptr q = config_block::empty_config(); q->set_value( "x", 42 ); a->set_configuration( q ); vital_config_block_t* qc = vital_config_block_new(); vital_config_block_set_value( qc, "x", "42" ); EH e; vital_algorithm_set_impl_configuration( h, qc, e ); bool ok = vital_algorithm_check_impl_configuration( h, qc, e ); vital_config_block_set_value( qc, "x", "-5" ); bool no = vital_algorithm_check_impl_configuration( h, qc, e ); vital_config_block_destroy( qc, nullptr ); r.check( e.clear() && ok && ! no, "check-impl", "check of an implementation's configuration" ); } } \
    auto twin = [&] ( std::function< bool() > cx, std::function< bool( vital_error_handle_t* ) > cc, char const* what ) { bool bad = false, rv = false; string err; try { rv = cx(); } catch ( std::exception const& x ) { bad = true; err = x.what(); } EH e; bool rc = cc( e ); r.check( bad ? e.set() : e.clear(), "nested-error", w + " " + what + ": " + e.text() ); if ( bad ) { r.check( e.text().size() >= err.size() && e.text().substr( e.text().size() - err.size() ) == err, "nested-error", e.text() ); } else { r.check( rv == rc, "nested-result", w + " " + what ); } }; \
    twin( [&] () { return algo::T::check_nested_algo_configuration( "t", m ); }, [&] ( vital_error_handle_t* e ) { return vital_algorithm_##T##_check_type_config( "t", c, e ); }, "check" ); \
    twin( [&] () { algo::T::set_nested_algo_configuration( "t", m, a ); return a != nullptr; }, [&] ( vital_error_handle_t* e ) { vital_algorithm_##T##_set_type_config( "t", c, &h, e ); return h != nullptr; }, "set" ); all(); \
    twin( [&] () { algo::T::get_nested_algo_configuration( "t", m, a ); return true; }, [&] ( vital_error_handle_t* e ) { vital_algorithm_##T##_get_type_config( "t", h, c, e ); return true; }, "get" ); all(); r.check( !! h == !! a, "nested-algorithm", w ); \
    if ( h ) { EH e; r.eqs( take( vital_algorithm_impl_name( h, e ) ), a->impl_name(), "impl-name", w ); r.eqs( take( vital_algorithm_type_name( h, e ) ), a->type_name(), "type-name", w ); vital_config_block_t* ic = vital_algorithm_get_impl_configuration( h, e ); config_block_sptr im = a->get_configuration(); string q = take( vital_config_block_get_value( ic, "x" ) ); vital_config_block_destroy( ic, nullptr ); r.eqs( q, im->get_value< string >( "x" ), "impl-config", w ); vital_algorithm_t* k = vital_algorithm_##T##_clone( h, e ); r.check( k && k != h && e.clear(), "clone", w ); r.eqs( take( vital_algorithm_impl_name( k, e ) ), a->impl_name(), "clone", w ); vital_algorithm_##T##_destroy( k, e ); vital_algorithm_##T##_destroy( h, e ); r.check( e.clear(), "destroy", w ); } \
    unsigned n; char** l; vital_algorithm_##T##_registered_names( &n, &l ); string o; for ( auto const& s : algo::T::registered_names() ) { o += "[" + s + "]"; } r.eqs( take_list( n, l ), o, "registered-names", w ); EH e0; r.check( ! vital_algorithm_##T##_clone( nullptr, e0 ), "clone", "clone of nothing" ); }
  if ( iface == 0 ) { IFACE( image_io ) } else if ( iface == 1 ) { IFACE( convert_image ) } else { IFACE( track_features ) }
  r.step( 10 ); r.state( mc::hash_str( w + std::to_string( iface ) ) );
}
SCENARIO( c25_run, 2 )
{
  quiet(); algorithms(); static char const* const impls[] = { "plain", "null", "same" }; string const impl = impls[r.choose( 3 )]; int const what = r.choose( 5 ), wid = 1 + r.choose( 3 ), tracks = r.choose( 3 ); unsigned const frame = r.choose( 2 ) ? 4000000000u : 3; r.log( impl + " call " + std::to_string( what ) ); calls.clear();
  vital_image_t* im = vital_image_new_with_dim( wid, 1, 1, false ), *mk = vital_image_new_with_dim( wid + 5, 1, 1, false ); vital_image_container_t* ic = vital_image_container_new_simple( im ), *mc_ = vital_image_container_new_simple( mk ); EH e; string f = r.scratch + "/img"; spill( f, "x" ); vector< string > want; bool ok = true;
  if ( what == 0 ) { vital_algorithm_t* a = vital_algorithm_image_io_create( impl.c_str() ); vital_image_container_t* o = vital_algorithm_image_io_load( a, f.c_str(), e ); want = { "load " + f }; ok = impl != "null"; r.check( !! o == ok && e.clear() == ok, "load", e.text() ); if ( o ) { r.check( vital_image_container_width( o ) == 3 && vital_image_container_height( o ) == 2, "load", "image" ); vital_image_container_destroy( o, e ); } vital_algorithm_image_io_destroy( a, nullptr ); }
  else if ( what == 1 ) { vital_algorithm_t* a = vital_algorithm_image_io_create( impl.c_str() ); vital_algorithm_image_io_save( a, f.c_str(), ic, e ); want = { "save " + f + " " + std::to_string( wid ) }; ok = impl != "null"; r.check( e.clear() == ok, "save", e.text() ); vital_algorithm_image_io_destroy( a, nullptr ); }
  else if ( what == 2 ) { vital_algorithm_t* a = vital_algorithm_convert_image_create( impl.c_str() ); vital_image_container_t* o = vital_algorithm_convert_image_convert( a, ic, e ); want = { "convert " + std::to_string( wid ) }; ok = impl != "null"; r.check( !! o == ok && e.clear() == ok, "convert", e.text() ); if ( o ) { r.check( ( o == ic ) == ( impl == "same" ) && (int) vital_image_container_width( o ) == wid + ( impl != "same" ), "convert", "image" ); vital_image_container_destroy( o, e ); } vital_algorithm_convert_image_destroy( a, nullptr ); r.check( (int) vital_image_container_width( ic ) == wid, "convert", "the input is gone" ); }
  else { vital_track_t* t[2]; for ( auto& x : t ) { x = vital_track_new(); } vital_trackset_t* p = vital_trackset_new( tracks, t ); vital_algorithm_t* a = vital_algorithm_track_features_create( impl.c_str() ); vital_trackset_t* o = what == 3 ? vital_algorithm_track_features_track( a, p, frame, ic, e ) : vital_algorithm_track_features_track_with_mask( a, p, frame, ic, mc_, e ); want = { "track " + std::to_string( tracks ) + " " + std::to_string( frame ) + " " + std::to_string( wid ) + " " + ( what == 3 ? string( "-" ) : std::to_string( wid + 5 ) ) }; ok = impl != "null"; r.check( !! o == ok && e.clear() == ok, "track", e.text() ); if ( o ) { r.check( ( o == p ) == ( impl == "same" ) && (int) vital_trackset_size( o, nullptr ) == tracks + ( impl != "same" ), "track", "result" ); vital_trackset_destroy( o, e ); } r.check( (int) vital_trackset_size( p, nullptr ) == tracks, "track", "the input is gone" ); vital_trackset_destroy( p, nullptr ); for ( auto& x : t ) { vital_track_destroy( x, nullptr ); } vital_algorithm_track_features_destroy( a, nullptr ); }
  r.check( calls == want, "arguments", "the implementation received " + ( calls.empty() ? string( "nothing" ) : calls[0] ) + " instead of " + want[0] ); vital_image_container_destroy( ic, nullptr ); vital_image_container_destroy( mc_, nullptr ); vital_image_destroy( im ); vital_image_destroy( mk ); r.step(); r.state( mc::hash_str( impl + want[0] ) );
}
#endif
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
