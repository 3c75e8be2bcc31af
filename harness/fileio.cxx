// C07 fault enumeration on every file writer; C08 camera files; C09 landmark files; C10 track files.
#include "fileio.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/exceptions.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/types/camera_map.h>
#include <sys/resource.h>
#include <csignal>
using namespace kwiver::vital;
using namespace fio;
using std::map;

namespace {
typedef Eigen::VectorXd VX;
VX vec( vector< double > const& v ) { VX r( v.size() ); for ( size_t i = 0; i < v.size(); ++i ) { r[i] = v[i]; } return r; }

simple_camera make_camera( double f, double aspect, double skew, vector_2d pp, rotation_d const& R, vector_3d const& c, VX const& d )
{
  return simple_camera( c, R, camera_intrinsics_sptr( new simple_camera_intrinsics( f, pp, aspect, skew, d ) ) );
}
string desc( camera const& c ) { std::ostringstream s; s.precision( 17 ); s << "K " << c.intrinsics()->as_matrix() << " R " << matrix_3x3d( c.rotation() ) << " t " << c.translation().transpose() << " d"; for ( double x : c.intrinsics()->dist_coeffs() ) { s << " " << x; } string o = s.str(); std::replace( o.begin(), o.end(), '\n', ' ' ); return o; }
// equal to the 12 digits a camera file carries
void same_camera( mc::Run& r, camera const& a, camera const& b, char const* what )
{
  bool ok = true; matrix_3x3d K = a.intrinsics()->as_matrix(), L = b.intrinsics()->as_matrix(), R = a.rotation(), S = b.rotation(); vector_3d t = a.translation(), u = b.translation();
  for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { ok = ok && near( K( i, j ), L( i, j ), 1e-10 ) && near( R( i, j ), S( i, j ), 0, 1e-10 ); } ok = ok && near( t[i], u[i], 0, 1e-10 * ( 1 + t.norm() ) ); }
  vector< double > p = a.intrinsics()->dist_coeffs(), q = b.intrinsics()->dist_coeffs();
  if ( p.size() == 1 && p[0] == 0 ) { p.clear(); }  // documented: a single zero stands for "no distortion"
  ok = ok && p.size() == q.size(); for ( size_t i = 0; i < p.size() && ok; ++i ) { ok = near( p[i], q[i], 1e-10 ); }
  if ( ! ok ) { r.fail( "camera-changed", string( what ) + ": wrote " + desc( a ) + " read " + desc( b ) ); }
}
vector< rotation_d > const& rotations()
{
  static vector< rotation_d > v;
  if ( v.empty() )
  {
    double const pi = 3.14159265358979323846;
    v.push_back( rotation_d() );
    vector_3d ax[] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, -2, 3 }, { -1, -1, 0.1 } };
    for ( auto a : ax ) { for ( double w : { 1e-6, 0.7, pi / 2, pi - 1e-7, pi, -2.5 } ) { v.push_back( rotation_d( w, a.normalized() ) ); } }
  }
  return v;
}
vector< vector< double > > const dists = { {}, { 0 }, { -0.3 }, { 0, 0 }, { 0.1, -0.02 }, { 0, 0.5 }, { 1e-9, -2e-10, 3e-3 }, { .1, .2, .003, -.004 }, { 0, 0, 0, 0 }, { 0, 0, .01, 0 }, { .1, .2, .003, -.004, .05 }, { 1, 2, 3, 4, 5, 6 }, { 0, 0, 0, 0, 0, 7, 8 }, { .1, -.2, .001, .002, .03, .04, -.05, .06 }, { 0, 0, 0, 0, 0, 0, 0, 1 }, { 123456.789012, -0.000123456789012, 1e10, -1e-10, 0, 0, 0, 0 } };

template < typename F > string classify( F f, string* what = nullptr )
{
  string err;
  try { f(); }
  catch ( config_file_write_exception const& e ) { err = "write"; if ( what ) { *what = e.what(); } }
  catch ( file_write_exception const& e ) { err = "write"; if ( what ) { *what = e.what(); } }
  catch ( file_not_found_exception const& e ) { err = "notfound"; if ( what ) { *what = e.what(); } }
  catch ( file_not_read_exception const& e ) { err = "bad"; if ( what ) { *what = e.what(); } }
  catch ( invalid_data const& e ) { err = "bad"; if ( what ) { *what = e.what(); } }
  catch ( path_not_exists const& e ) { err = "nopath"; if ( what ) { *what = e.what(); } }
  catch ( mc::Fail const& ) { throw; }
  catch ( std::exception const& e ) { err = string( "other: " ) + e.what(); if ( what ) { *what = e.what(); } }
  return err;
}

landmark_sptr lm( double x, double y, double z, int c, unsigned obs )
{
  auto l = std::make_shared< landmark_d >( vector_3d( x, y, z ) ); l->set_color( rgb_color( c & 255, ( c * 7 ) & 255, 255 - ( c & 255 ) ) ); l->set_normal( vector_3d( z, -x, 0.5 ) ); l->set_observations( obs ); return l;
}
track_sptr trk( track_id_t id, vector< int > const& frames, double k )
{
  track_sptr t( new track ); t->set_id( id );
  for ( int f : frames )
  {
    auto ft = std::make_shared< feature_d >( vector_2d( k * f + 0.125, -k - f ), 1.5 * k, 2 + f, 0.1 * k, rgb_color( f & 255, 3, 250 ) );
    t->append( track::track_state( f, ft, descriptor_sptr() ) );
  }
  return t;
}

// ---------------------------------------------------------------- writers for C07
enum { W_CONFIG, W_CAMERA, W_PLY, W_TRACK, W_N };
void write_object( int w, int size, string const& path )
{
  switch ( w )
  {
  case W_CONFIG:
    {
      config_block_sptr c = config_block::empty_config();
      for ( int i = 0; i < ( size == 0 ? 1 : size == 1 ? 4 : 400 ); ++i ) { c->set_value( "block:key" + std::to_string( i ), "value number " + std::to_string( i * 37 ), i % 2 ? "description of it" : "" ); }
      write_config_file( c, path ); break;
    }
  case W_CAMERA:
    {
      VX d = vec( dists[size == 0 ? 0 : size == 1 ? 7 : 13] ); if ( size == 2 ) { d = VX::LinSpaced( 1500, 0.001, 77.7 ); }
      write_krtd_file( make_camera( 1000, 1.2, 3, vector_2d( 320, 240 ), rotations()[7], vector_3d( 1, -2, 300.5 ), d ), path ); break;
    }
  case W_PLY:
    {
      landmark_map::map_landmark_t m; for ( int i = 0; i < ( size == 0 ? 1 : size == 1 ? 4 : 400 ); ++i ) { m[i * 3] = lm( i, i * .5, -i, i, i ); }
      write_ply_file( landmark_map_sptr( new simple_landmark_map( m ) ), path ); break;
    }
  case W_TRACK:
    {
      vector< track_sptr > v; for ( int i = 0; i < ( size == 0 ? 1 : size == 1 ? 3 : 150 ); ++i ) { v.push_back( trk( i, { 0, 1, 5 }, i + 1 ) ); }
      write_track_file( track_set_sptr( new simple_track_set( v ) ), path ); break;
    }
  }
}
char const* wname[] = { "config", "camera", "landmarks", "tracks" };
} // namespace

// every byte offset at which the device stops accepting data
SCENARIO( c07_full_device, 3 )
{
  string b = base( r ); signal( SIGXFSZ, SIG_IGN );
  int w = r.choose( W_N ), size = r.choose( 3 ); bool over = r.flip();      // over: an older file is replaced
  static std::map< std::pair< int, int >, string > full;
  string& want = full[{ w, size }]; string p = b + "/out";
  if ( want.empty() ) { unlink( p.c_str() ); write_object( w, size, p ); want = slurp( p ); if ( want.empty() ) { r.fail( "nothing-written", string( "nothing written by the " ) + wname[w] + " writer" ); } }
  int n = (int) want.size();
  // all offsets of small files; of files larger than any stream buffer: all offsets near multiples of 512 (thorough: all)
  int pos;
  if ( size < 2 || r.thorough() ) { pos = r.choose( n + 2 ); }
  else { int k = r.choose( n / 512 + 2 ), d = r.choose( 7 ) - 3; pos = std::max( 0, std::min( n + 1, k * 512 + d ) ); if ( k == n / 512 + 1 ) { pos = n + d; } }
  if ( pos < 0 ) { pos = 0; }
  unlink( p.c_str() ); if ( over ) { put( p, want + want ); }
  struct rlimit old, lim; getrlimit( RLIMIT_FSIZE, &old ); lim = old; lim.rlim_cur = pos; setrlimit( RLIMIT_FSIZE, &lim );
  string err; try { err = classify( [&] { write_object( w, size, p ); } ); } catch ( ... ) { setrlimit( RLIMIT_FSIZE, &old ); throw; }
  setrlimit( RLIMIT_FSIZE, &old );
  r.step(); r.log( string( wname[w] ) + " file of " + std::to_string( n ) + " bytes, device accepts " + std::to_string( pos ) + ( over ? ", replacing an older file" : "" ) + " -> " + ( err.empty() ? "ok" : err ) );
  r.state( mc::mix( mc::mix( w, size * 2 + over ), pos ) ); r.outcome( err );
  if ( pos < n )
  {
    if ( err.empty() ) { r.fail( "silent-loss", string( wname[w] ) + " writer returned normally although only " + std::to_string( pos ) + " of " + std::to_string( n ) + " bytes reached the disk" ); }
    r.eqs( err, "write", "wrong-error", string( wname[w] ) + " writer on a full device" );
  }
  else
  {
    r.eqs( err, "", "spurious-error", string( wname[w] ) + " writer with enough room" );
    if ( slurp( p ) != want ) { r.fail( "incomplete", string( wname[w] ) + " writer returned normally, file content differs" ); }
  }
}

// destinations that cannot be opened or written
SCENARIO( c07_destinations, 2 )
{
  string b = base( r ) + "/d"; static int serial = 0; b += std::to_string( serial++ ); mkdir( b.c_str(), 0700 );
  int w = r.choose( W_N ), size = r.choose( 3 ); string p; bool ok = false; int fds = 0; string deep = b + "/x/y/f";
  switch ( r.choose( 14 ) )
  {
  case 0: p = b + "/f"; ok = true; break;
  case 1: p = deep; ok = true; break;
  case 2: p = b; break;
  case 3: put( b + "/file", "x" ); p = b + "/file/f"; break;
  case 4: put( b + "/file", "x" ); p = b + "/file/g/f"; break;
  case 5: p = b + "/" + string( 300, 'n' ); break;
  case 6: if ( symlink( ( b + "/missing/t" ).c_str(), ( b + "/l" ).c_str() ) ) {} p = b + "/l"; break;
  case 7: if ( symlink( ( b + "/l" ).c_str(), ( b + "/l" ).c_str() ) ) {} p = b + "/l"; break;
  case 8: p = "/dev/full"; break;
  case 9: if ( symlink( "/dev/full", ( b + "/l" ).c_str() ) ) {} p = b + "/l"; break;
  case 10: p = b + "/f"; fds = 1; break;
  case 11: mkdir( ( b + "/sub" ).c_str(), 0700 ); if ( symlink( ( b + "/sub" ).c_str(), ( b + "/l" ).c_str() ) ) {} p = b + "/l"; break;
  case 12: mkdir( ( b + "/sub" ).c_str(), 0700 ); if ( symlink( ( b + "/sub" ).c_str(), ( b + "/l" ).c_str() ) ) {} p = b + "/l/f"; ok = true; break;
  case 13: p = "/dev/null"; ok = true; break;
  }
  struct rlimit old, lim; getrlimit( RLIMIT_NOFILE, &old );
  if ( fds ) { int fd = dup( 0 ); ::close( fd ); lim = old; lim.rlim_cur = fd; setrlimit( RLIMIT_NOFILE, &lim ); }
  string err; try { err = classify( [&] { write_object( w, size, p ); } ); } catch ( ... ) { setrlimit( RLIMIT_NOFILE, &old ); throw; }
  setrlimit( RLIMIT_NOFILE, &old );
  r.step(); r.log( string( wname[w] ) + " to " + p.substr( 0, 100 ) + ( fds ? " without a free descriptor" : "" ) + " -> " + err ); r.state( mc::mix( w * 3 + size, ok ) ); r.outcome( err );
  if ( ok ) { r.eqs( err, "", "spurious-error", string( wname[w] ) + " writer to " + p ); if ( p != "/dev/null" ) { r.check( ! slurp( p ).empty(), "incomplete", "nothing written" ); } }
  else { r.eqs( err, "write", "silent-loss", string( wname[w] ) + " writer to " + p.substr( 0, 100 ) + ( fds ? " without a free descriptor" : "" ) ); }
}

// ====================================================================== C08
SCENARIO( c08_round_trip, 3 )
{
  string p = base( r ) + "/cam.krtd";
  static double const fs[] = { 1, 0.25, 1234.56789, 98765.4321 }, as[] = { 1, 0.5, 1.3333333 }, ss[] = { 0, 0.75, -12 };
  static vector_2d const pps[] = { { 0, 0 }, { 320.5, -240.25 } }; static vector_3d const cs[] = { { 0, 0, 0 }, { 1, -2, 3.5 }, { -12345.678, 0.00012345, 1e-9 } };
  double f = fs[r.choose( r.bound( 3, 4 ) )]; double a = as[r.choose( r.bound( 2, 3 ) )], s = ss[r.choose( r.bound( 2, 3 ) )];
  vector_2d pp = pps[r.choose( 2 )]; rotation_d R = r.pick( rotations() ); vector_3d c = cs[r.choose( 3 )]; VX d = vec( r.pick( dists ) );
  simple_camera cam = make_camera( f, a, s, pp, R, c, d ); r.log( desc( cam ) );
  bool base_class = false;
  write_krtd_file( cam, p ); (void) base_class;
  camera_sptr got; string what; string err = classify( [&] { got = read_krtd_file( p ); }, &what ); r.step( 2 );
  r.eqs( err, "", "refused-valid", "reading a written camera file (" + what + ")" );
  same_camera( r, cam, *got, "camera file" ); r.state( slurp( p ) );
}

// stream operators of the intrinsics alone, and several cameras in sequence are not required; the plain stream form of a camera is
SCENARIO( c08_streams, 2 )
{
  VX d = vec( r.pick( dists ) ); double f = r.flip() ? 77.125 : 1; double s = r.flip() ? 0.5 : 0; base( r );
  simple_camera_intrinsics k( f, vector_2d( 3, -4 ), 1.25, s, d ), g; std::stringstream ss; ss << k; ss >> g; r.step( 2 );
  simple_camera a( vector_3d( 0, 0, 0 ), rotation_d(), k ), b( vector_3d( 0, 0, 0 ), rotation_d(), g ); same_camera( r, a, b, "intrinsics stream" );
  simple_camera c = make_camera( f, 1.25, s, vector_2d( 3, -4 ), r.pick( rotations() ), vector_3d( 9, 8, 7 ), d ), e; std::stringstream st; st << c; st >> e; same_camera( r, c, e, "camera stream" ); r.state( st.str() ); r.log( desc( c ) );
}

namespace {
// what a camera text must do: -1 refuse, 1 accept, 0 either (judged only for memory safety)
int judge_camera( string const& text )
{
  vector< string > t = toks( text ); size_t n = 0; while ( n < t.size() && n < 21 && number( t[n] ) ) { ++n; }
  if ( n < 21 ) { return n < t.size() && ! t[n].empty() && number( t[n].substr( 0, 1 ) ) ? 0 : -1; }
  return 0;
}
}
// every truncation offset and every token corruption
SCENARIO( c08_corrupt, 2 )
{
  string p = base( r ) + "/bad.krtd"; simple_camera cam = make_camera( 1000.5, 1.25, r.flip() ? 2 : 0, vector_2d( 320, 240 ), r.pick( rotations() ), vector_3d( 1, -2, 300.5 ), vec( r.pick( dists ) ) );
  std::ostringstream s; s << cam; string text = s.str(); string bad; vector< string > t = toks( text ); int must = 0; bool orig = false;
  if ( r.flip() ) { int k = r.choose( (int) text.size() + 1 ); bad = text.substr( 0, k ); r.log( "cut at byte " + std::to_string( k ) ); must = toks( bad ).size() < 21 ? -1 : 0; if ( k >= (int) text.size() - 1 ) { must = 1; orig = true; } }
  else
  {
    // replace one token
    static char const* with[] = { "x", "--1", "", "1x", "nan", ".", "#", "1,5" };
    int i = r.choose( (int) t.size() ), k = r.choose( 8 ); string rep = with[k]; size_t at = 0; for ( int j = 0; j <= i; ++j ) { at = text.find( t[j], j == 0 ? 0 : at + t[j - 1].size() ); }
    bad = text; bad.replace( at, t[i].size(), rep ); r.log( "token " + std::to_string( i ) + " replaced by '" + rep + "'" );
    bool hard = k == 0 || k == 1 || k == 5 || k == 6 || k == 4; must = hard ? -1 : k == 2 && t.size() <= 21 ? -1 : 0;
    if ( k == 3 || k == 7 ) { must = -1; }   // the rest of the token is not a number either
  }
  put( p, bad ); camera_sptr got; string what; string err = classify( [&] { got = read_krtd_file( p ); }, &what ); r.step(); r.outcome( err ); r.state( bad );
  if ( must < 0 ) { r.eqs( err, "bad", err.empty() ? "accepted-bad" : "wrong-error", "damaged camera file " + mc::show( bad ) + " " + what ); }
  if ( must > 0 ) { r.eqs( err, "", "refused-valid", "complete camera file " + what ); }
  if ( err.empty() && ! got ) { r.fail( "null-camera", "no camera returned" ); }
  if ( err.empty() && orig ) { same_camera( r, cam, *got, "camera file" ); }
  (void) judge_camera;
}

// camera files of an image list: every subset of present files, one of them malformed, odd names
SCENARIO( c08_maps, 2 )
{
  string b = base( r ) + "/maps"; mkdir( b.c_str(), 0700 ); static char const* names[] = { "a.png", "dir/b.tif", "c.tar.gz", "noext", "a.jpg", "/abs/d.x" }; static char const* files[] = { "a.krtd", "b.krtd", "c.tar.krtd", "noext.krtd", "a.krtd", "d.krtd" };
  for ( auto f : files ) { unlink( ( b + "/" + f ).c_str() ); } rmdir( ( b + "/d.krtd" ).c_str() );
  std::set< string > present; for ( int i = 0; i < 6; ++i ) { if ( i == 4 ) { continue; } if ( r.flip() ) { simple_camera c = make_camera( 100 + i, 1, 0, vector_2d( 0, 0 ), rotation_d(), vector_3d( i, 0, 0 ), VX() ); write_krtd_file( c, b + "/" + files[i] ); present.insert( files[i] ); } }
  int n = r.choose( 3 ) + 1; vector< path_t > imgs; vector< int > idx; for ( int i = 0; i < n; ++i ) { int k = r.choose( 6 ); idx.push_back( k ); imgs.push_back( names[k] ); }
  int mode = r.choose( 4 ); string dir = mode == 1 ? b + "/none" : b; string badf;
  if ( mode == 2 ) { badf = files[idx[0]]; put( b + "/" + badf, "1 2 3\n" ); present.insert( badf ); }
  if ( mode == 3 ) { badf = "d.krtd"; unlink( ( b + "/d.krtd" ).c_str() ); mkdir( ( b + "/d.krtd" ).c_str(), 0700 ); present.erase( "d.krtd" ); }
  camera_map_sptr got; string what, err = classify( [&] { got = read_krtd_files( imgs, dir ); }, &what ); r.step(); r.outcome( err );
  for ( auto const& i : imgs ) { r.log( i ); }
  for ( auto const& q : present ) { r.log( "have " + q ); }
  std::set< int > want; for ( int i = 0; i < n; ++i ) { if ( present.count( files[idx[i]] ) ) { want.insert( i ); } }
  if ( mode == 1 ) { r.eqs( err, "nopath", "wrong-error", "missing directory" ); return; }
  if ( mode == 2 ) { r.eqs( err, "bad", "wrong-error", "one camera file is malformed" ); return; }
  if ( want.empty() ) { r.eqs( err, "bad", "wrong-error", "no camera file present" ); return; }
  r.eqs( err, "", "refused", what ); std::set< int > have; for ( auto const& c : got->cameras() ) { have.insert( (int) c.first ); r.eq( c.second->intrinsics()->focal_length(), 100.0 + ( idx[c.first] == 4 ? 0 : idx[c.first] ), "wrong-camera", "camera of image " + imgs[c.first] ); }
  r.check( have == want, "wrong-set", "frames with cameras differ" ); r.eq( got->size(), want.size(), "size", "camera map size" ); string st; for ( int i : want ) { st += std::to_string( i ) + imgs[i]; } r.state( st );
}

SCENARIO( c08_missing, 1 )
{
  string b = base( r ) + "/m"; mkdir( b.c_str(), 0700 ); mkdir( ( b + "/d.krtd" ).c_str(), 0700 ); put( b + "/e.krtd", "" ); put( b + "/file", "x" ); string p; string want = "notfound";
  int how = r.choose( 6 ), which = r.choose( 3 );
  switch ( how ) { case 0: p = b + "/none.krtd"; break; case 1: p = b + "/d.krtd"; break; case 2: p = b + "/e.krtd"; want = "bad"; break; case 3: p = ""; break; case 4: p = b + "/file/x.krtd"; break; case 5: p = b; break; }
  string what, err = classify( [&] { switch ( which ) { case 0: read_krtd_file( p ); break; case 1: read_ply_file( p ); break; case 2: { track_set_sptr t = read_track_file( p ); if ( how == 2 && ( ! t || t->size() == 0 ) ) { throw invalid_data( "empty" ); } } break; } }, &what ); r.step(); r.state( err ); r.log( p );
  r.eqs( err, want, "wrong-error", "reading " + p + " " + what );
}

// ====================================================================== C09
namespace {
string show_lm( landmark_map::map_landmark_t const& m ) { std::ostringstream o; for ( auto const& l : m ) { o << l.first << ": " << l.second->loc().transpose() << " n " << l.second->normal().transpose() << " c " << l.second->color() << " o " << l.second->observations() << "; "; } return o.str(); }
void same_lms( mc::Run& r, landmark_map::map_landmark_t const& a, landmark_map::map_landmark_t const& b, double rel )
{
  bool ok = a.size() == b.size();
  for ( auto const& l : a )
  {
    auto i = b.find( l.first ); if ( i == b.end() ) { ok = false; break; }
    for ( int k = 0; k < 3; ++k ) { ok = ok && near( l.second->loc()[k], i->second->loc()[k], rel ) && near( l.second->normal()[k], i->second->normal()[k], rel ); }
    ok = ok && l.second->color() == i->second->color() && l.second->observations() == i->second->observations();
  }
  if ( ! ok ) { r.fail( "landmarks-changed", "expected " + show_lm( a ) + " read " + show_lm( b ) ); }
}
}
SCENARIO( c09_round_trip, 3 )
{
  string p = base( r ) + "/l.ply"; static landmark_id_t const ids[] = { 0, 1, 7, 4294967294u }; static double const vs[] = { 0, -1.5, 123456, 1e-7, -9.87654e20 };
  landmark_map::map_landmark_t m; int n = 1 + r.choose( 3 );
  for ( int i = 0; i < n; ++i )
  {
    landmark_id_t id = ids[r.choose( 4 )]; int v = r.choose( 5 ), w = r.choose( i < 2 ? 3 : 1 ); int c = r.choose( i == 0 ? 3 : 1 );
    m[id] = lm( vs[v], vs[( v + w ) % 5], vs[( v + 2 * w + 1 ) % 5], c == 0 ? 0 : c == 1 ? 255 : 130, c == 0 ? 0 : c == 1 ? 4000000000u : 3 );
  }
  r.log( show_lm( m ) ); write_ply_file( landmark_map_sptr( new simple_landmark_map( m ) ), p );
  landmark_map_sptr g; string what, err = classify( [&] { g = read_ply_file( p ); }, &what ); r.step( 2 ); r.eqs( err, "", "refused-valid", "reading a written landmark file: " + what );
  same_lms( r, m, g->landmarks(), 1e-5 ); r.state( slurp( p ) );
}

// headers: property subsets and orders, name aliases and case, further elements, comments, blank lines, declared count
SCENARIO( c09_headers, 3 )
{
  string p = base( r ) + "/h.ply"; struct Prop { char const* name; int what; };   // 0 x 1 y 2 z 3 nx 4 ny 5 nz 6 r 7 g 8 b 9 id 10 obs -1 ignored
  static Prop const extra[] = { { "nx", 3 }, { "vsfm_cny", 4 }, { "red", 6 }, { "diffuse_green", 7 }, { "blue", 8 }, { "track_id", 9 }, { "observations", 10 }, { "number_of_camera_sees_this_point", 10 }, { "quality", -1 }, { "NZ", 5 } };
  static int const perms[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; static char const* xyz[] = { "x", "Y", "z" };
  vector< Prop > props; int pm = r.choose( 6 ); for ( int k = 0; k < 3; ++k ) { props.push_back( Prop{ xyz[perms[pm][k]], perms[pm][k] } ); }
  int ne = r.choose( 3 ); for ( int k = 0; k < ne; ++k ) { Prop e = extra[r.choose( 10 )]; bool dup = false; for ( auto const& q : props ) { dup = dup || q.what == e.what; } if ( dup && e.what >= 0 ) { return; } props.insert( props.begin() + r.choose( (int) props.size() + 1 ), e ); }
  int n = r.choose( 3 ); int deco = r.choose( 4 );   // 0 plain 1 comments and blank lines 2 further element 3 both
  string h = "ply\nformat ascii 1.0\n"; if ( deco & 1 ) { h += "comment element vertex 9\n\nobj_info x\n"; } h += "element vertex " + std::to_string( n ) + "\n"; for ( auto const& q : props ) { h += string( "property float " ) + q.name + "\n"; }
  if ( deco & 2 ) { h += "element face 2\nproperty list uchar int vertex_indices\nproperty float x\n"; } h += "end_header\n";
  landmark_map::map_landmark_t want;
  for ( int i = 0; i < n; ++i )
  {
    if ( deco & 1 ) { h += "\n"; } double v[11] = { i + .5, 2. * i, -3. - i, .25, .5, -1, 10. + i, 20, 30, 5. - i, 40. + i }; bool has[11] = {}; string line;
    for ( auto const& q : props ) { std::ostringstream o; if ( q.what < 0 ) { o << "77"; } else { o << v[q.what]; has[q.what] = true; } line += ( line.empty() ? "" : " " ) + o.str(); }
    h += line + "\n"; auto l = std::make_shared< landmark_d >( vector_3d( v[0], v[1], v[2] ) ); l->set_normal( vector_3d( has[3] ? v[3] : 0, has[4] ? v[4] : 0, has[5] ? v[5] : 0 ) ); rgb_color c; if ( has[6] ) { c.r = (unsigned char) v[6]; } if ( has[7] ) { c.g = (unsigned char) v[7]; } if ( has[8] ) { c.b = (unsigned char) v[8]; } l->set_color( c ); l->set_observations( has[10] ? (unsigned) v[10] : 0 );
    want[has[9] ? (landmark_id_t) v[9] : i] = l;
  }
  if ( deco & 2 ) { h += "3 0 1 2 9\n3 0 1 1 8\n"; }
  put( p, h ); r.log( mc::show( h ) ); landmark_map_sptr g; string what, err = classify( [&] { g = read_ply_file( p ); }, &what ); r.step(); r.state( h ); r.eqs( err, "", "refused-valid", what ); same_lms( r, want, g->landmarks(), 1e-12 );
}

SCENARIO( c09_corrupt, 2 )
{
  string p = base( r ) + "/c.ply"; landmark_map::map_landmark_t m; int n = 1 + r.choose( 3 ); for ( int i = 0; i < n; ++i ) { m[i + 3] = lm( i * 1.25, -i, 7, 100 + i, 12 ); }
  write_ply_file( landmark_map_sptr( new simple_landmark_map( m ) ), p ); string text = slurp( p ); vector< string > ls = lines( text ); size_t hdr = std::find( ls.begin(), ls.end(), "end_header" ) - ls.begin() + 1; if ( hdr + n != ls.size() ) { throw mc::Divergence( "unexpected file shape" ); }
  string bad; int must = 0; auto join = [] ( vector< string > const& v ) { string o; for ( auto const& l : v ) { o += l + "\n"; } return o; };
  switch ( r.choose( 4 ) )
  {
  case 0: // cut at any byte
    { int k = r.choose( (int) text.size() + 1 ); bad = text.substr( 0, k ); vector< string > bl = lines( bad ); must = bl.size() < ls.size() || toks( bl.back() ).size() < 11 ? -1 : 0; if ( k >= (int) text.size() - 1 ) { must = 1; } r.log( "cut at " + std::to_string( k ) ); } break;
  case 1: // one data token replaced
    { int i = r.choose( n ), k = r.choose( 11 ); static char const* with[] = { "x", "--1", "", "nan", "#" }; int q = r.choose( 5 ); vector< string > t = toks( ls[hdr + i] ); t[k] = with[q]; string l; for ( auto const& s : t ) { l += s + " "; } ls[hdr + i] = l; bad = join( ls ); must = -1; r.log( mc::show( l ) ); } break;
  case 2: // one line removed
    { int i = r.choose( (int) ls.size() ); string l = ls[i]; ls.erase( ls.begin() + i ); bad = join( ls ); must = l == "ply" || l == "end_header" || i >= (int) hdr || l.compare( 0, 8, "property" ) == 0 ? -1 : 0; r.log( "without " + mc::show( l ) ); } break;
  case 3: // other declared contents
    { int q = r.choose( 6 ); for ( auto& l : ls ) { if ( q == 0 && l.compare( 0, 6, "format" ) == 0 ) { l = "format binary_little_endian 1.0"; must = -1; } if ( q == 1 && l.compare( 0, 14, "element vertex" ) == 0 ) { l = "element vertex x"; must = -1; } if ( q == 2 && l == "ply" ) { l = "PLYX"; must = -1; } if ( q == 3 && l.compare( 0, 14, "element vertex" ) == 0 ) { l = "element vertex " + std::to_string( n + 1 ); must = -1; } if ( q == 4 && l == "ply" ) { l = string( "\0\1\2", 3 ); must = -1; } }
      bad = join( ls ); if ( q == 5 ) { bad = string( 300, '\xff' ); must = -1; } } break;
  }
  put( p, bad ); landmark_map_sptr g; string what, err = classify( [&] { g = read_ply_file( p ); }, &what ); r.step(); r.outcome( err ); r.state( bad );
  if ( must < 0 ) { r.eqs( err, "bad", err.empty() ? "accepted-bad" : "wrong-error", "damaged landmark file " + mc::show( bad.substr( bad.size() > 500 ? bad.size() - 500 : 0 ) ) + " " + what ); }
  if ( must > 0 ) { r.eqs( err, "", "refused-valid", what ); same_lms( r, m, g->landmarks(), 1e-5 ); }
}

// ====================================================================== C10
namespace {
struct St { double v[5]; int c[3]; };
typedef std::pair< long, std::map< long, St > > Tr;   // id, frame -> state
string show_tr( vector< Tr > const& v ) { std::ostringstream o; for ( auto const& t : v ) { o << t.first << ":"; for ( auto const& s : t.second ) { o << " " << s.first << "("; for ( double x : s.second.v ) { o << x << ","; } for ( int x : s.second.c ) { o << x << ","; } o << ")"; } o << "; "; } return o.str(); }
vector< Tr > as_model( track_set_sptr ts )
{
  vector< Tr > o; for ( auto const& t : ts->tracks() ) { Tr q; q.first = (long) t->id(); for ( auto const& s : *t ) { St x = {}; if ( s.feat ) { x.v[0] = s.feat->loc()[0]; x.v[1] = s.feat->loc()[1]; x.v[2] = s.feat->magnitude(); x.v[3] = s.feat->scale(); x.v[4] = s.feat->angle(); rgb_color c = s.feat->color(); x.c[0] = c.r; x.c[1] = c.g; x.c[2] = c.b; } q.second[s.frame_id] = x; } o.push_back( q ); } return o;
}
bool same_tr( vector< Tr > const& a, vector< Tr > const& b, double rel )
{
  if ( a.size() != b.size() ) { return false; }
  for ( size_t i = 0; i < a.size(); ++i )
  {
    if ( a[i].first != b[i].first || a[i].second.size() != b[i].second.size() ) { return false; }
    auto p = a[i].second.begin(); auto q = b[i].second.begin();
    for ( ; p != a[i].second.end(); ++p, ++q ) { if ( p->first != q->first ) { return false; } for ( int k = 0; k < 5; ++k ) { if ( ! near( p->second.v[k], q->second.v[k], rel ) ) { return false; } } for ( int k = 0; k < 3; ++k ) { if ( p->second.c[k] != q->second.c[k] ) { return false; } } }
  }
  return true;
}
// reference reader: false = the file is malformed
bool ref_read( string const& text, vector< Tr >& out )
{
  std::map< long, size_t > ix; out.clear();
  for ( auto const& l : lines( text ) )
  {
    vector< string > t = toks( l ); if ( t.empty() ) { continue; } if ( t.size() < 10 || ! integer( t[0] ) || ! integer( t[1] ) ) { return false; }
    St s; for ( int k = 0; k < 5; ++k ) { if ( ! number( t[2 + k] ) ) { return false; } s.v[k] = strtod( t[2 + k].c_str(), nullptr ); } for ( int k = 0; k < 3; ++k ) { if ( ! integer( t[7 + k] ) ) { return false; } s.c[k] = (unsigned char) atoi( t[7 + k].c_str() ); }
    long id = atol( t[0].c_str() ), f = atol( t[1].c_str() ); if ( ! ix.count( id ) ) { ix[id] = out.size(); out.push_back( Tr( id, {} ) ); } auto& tr = out[ix[id]].second; if ( tr.empty() || tr.rbegin()->first < f ) { tr[f] = s; }
  }
  return true;
}
}
SCENARIO( c10_round_trip, 3 )
{
  string p = base( r ) + "/t.txt"; static vector< vector< int > > const fr = { { 0 }, { 1, 2, 3 }, { 0, 2, 1000000 }, { 5, 7 }, {} }; static track_id_t const ids[] = { 0, 3, 12, 4000000000u }; static double const ks[] = { 1, 123.456, -1e-6 };
  vector< track_sptr > v; int n = 1 + r.choose( 3 ); vector< Tr > want; std::set< long > used; bool nof = false;
  for ( int i = 0; i < n; ++i )
  {
    track_id_t id = ids[r.choose( 4 )]; if ( ! used.insert( (long) id ).second ) { return; } int s = r.choose( 5 ); track_sptr t = trk( id, fr[s], ks[r.choose( 3 )] );
    if ( i == 0 ) { int mode = r.choose( 3 ); if ( mode == 1 ) { int last = t->empty() ? 4 : (int) t->last_frame(); t->append( track::track_state( last + 2, feature_sptr(), descriptor_sptr() ) ); nof = true; } if ( mode == 2 ) { auto ff = std::make_shared< feature_f >( Eigen::Vector2f( 1.5f, -2.25f ), 3.f, 4.f, 0.5f, rgb_color( 0, 255, 128 ) ); int last = t->empty() ? 4 : (int) t->last_frame(); t->append( track::track_state( last + 1, ff, descriptor_sptr() ) ); } }
    v.push_back( t );
  }
  track_set_sptr ts( new simple_track_set( v ) ); want = as_model( ts );
  // states without a feature cannot be represented; tracks left without states vanish
  if ( nof ) { want[0].second.erase( --want[0].second.end() ); } want.erase( std::remove_if( want.begin(), want.end(), [] ( Tr const& t ) { return t.second.empty(); } ), want.end() );
  r.log( show_tr( want ) ); string what, err = classify( [&] { write_track_file( ts, p ); }, &what ); r.step(); if ( nof && err == "write" ) { r.outcome( "refused" ); return; } r.eqs( err, "", "refused-valid", "writing tracks: " + what );
  track_set_sptr g; err = classify( [&] { g = read_track_file( p ); }, &what ); r.step(); r.eqs( err, "", "refused-valid", "reading written tracks: " + what );
  vector< Tr > got = as_model( g ); if ( ! same_tr( want, got, 1e-5 ) ) { r.fail( "tracks-changed", "wrote " + show_tr( want ) + " read " + show_tr( got ) ); } r.state( show_tr( want ) );
}

SCENARIO( c10_corrupt, 2 )
{
  string p = base( r ) + "/c.txt"; vector< track_sptr > v; int shape = r.choose( 3 ); v.push_back( trk( 1, { 0, 1, 4 }, 2 ) ); if ( shape > 0 ) { v.push_back( trk( 9, { 2, 3 }, 5.5 ) ); } if ( shape > 1 ) { v.push_back( trk( 4, { 7 }, -1 ) ); }
  write_track_file( track_set_sptr( new simple_track_set( v ) ), p ); string text = slurp( p ); vector< string > ls = lines( text ); auto join = [] ( vector< string > const& q, string const& nl = "\n" ) { string o; for ( auto const& l : q ) { o += l + nl; } return o; }; string bad; int n = (int) ls.size();
  switch ( r.choose( 8 ) )
  {
  case 0: bad = text.substr( 0, r.choose( (int) text.size() + 1 ) ); break;
  case 1: ls.erase( ls.begin() + r.choose( n ) ); bad = join( ls ); break;
  case 2: { int i = r.choose( n ), at = r.choose( n + 1 ); string l = ls[i]; ls.insert( ls.begin() + at, l ); bad = join( ls ); } break;
  case 3: { static char const* blank[] = { "", "   ", "\t", "\r" }; ls.insert( ls.begin() + r.choose( n + 1 ), blank[r.choose( 4 )] ); bad = join( ls ); if ( r.flip() ) { bad += "\n\n"; } } break;
  case 4: { int i = r.choose( n ); vector< string > t = toks( ls[i] ); int k = r.choose( (int) t.size() ); static char const* with[] = { "x", "--1", "", "nan", "#" }; t[k] = with[r.choose( 5 )]; string l; for ( auto const& s : t ) { l += s + " "; } ls[i] = l; bad = join( ls ); } break;
  case 5: { int i = r.choose( n ), j = r.choose( n ); std::swap( ls[i], ls[j] ); bad = join( ls ); } break;
  case 6: { static char const* junk[] = { "garbage", "1", "1 2", "1 2 3", "# comment", "1 99 0.5 0.5 1 1 1", "\xff\xfe" }; ls.insert( ls.begin() + r.choose( n + 1 ), junk[r.choose( 7 )] ); bad = join( ls ); } break;
  case 7: bad = join( ls, "\r\n" ); break;
  }
  r.log( mc::show( bad ) ); put( p, bad ); vector< Tr > want, got; bool ok = ref_read( bad, want ); track_set_sptr g; string what, err = classify( [&] { g = read_track_file( p ); }, &what ); r.step(); r.outcome( err ); r.state( bad );
  if ( ! ok ) { r.eqs( err, "bad", err.empty() ? "accepted-bad" : "wrong-error", "malformed track file " + mc::show( bad ) + " read as " + ( g ? show_tr( as_model( g ) ) : "" ) + what ); return; }
  r.eqs( err, "", "refused-valid", "track file " + mc::show( bad ) + " " + what ); got = as_model( g ); if ( ! same_tr( want, got, 1e-9 ) ) { r.fail( "made-up", "read " + show_tr( got ) + " expected " + show_tr( want ) + " from " + mc::show( bad ) ); }
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
