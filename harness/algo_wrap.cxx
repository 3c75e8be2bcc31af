// C26: convenience wrappers of the algorithm interfaces against recording implementations.
#include "mc.h"
#include <vital/algo/algorithm.txx>
#include <vital/algo/convert_image.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/image_io.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/exceptions.h>
#include <vital/logger/kwiver_logger.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace kwiver::vital;
using std::string; using std::vector; using std::map; using std::shared_ptr;
namespace {
#define COMMON( T, B ) string impl_name() const { return "rec"; } string description() const { return ""; } algorithm_sptr base_clone() const { return algorithm_sptr( new T( *this ) ); } shared_ptr< algo::B > clone() const { return shared_ptr< algo::B >( new T( *this ) ); }
#define CONF void set_configuration( config_block_sptr ) {} bool check_configuration( config_block_sptr ) const { return true; }
struct Rec { int calls = 0; vector< vector_2d > a, b; vector< vector_3d > p, q; double scale = -7; void const* cal1 = nullptr, * cal2 = nullptr; vector< bool > in; bool fail = false; size_t result_inliers = 0; void const* ret = nullptr; };
Rec rec; struct Boom {};
void pts( vector< vector_2d > const& a, vector< vector_2d > const& b, vector< bool >& inl, double s ) { ++rec.calls; rec.a = a; rec.b = b; rec.scale = s; rec.in = inl; if ( rec.fail ) { throw Boom(); } inl.clear(); for ( size_t i = 0; i < rec.result_inliers; ++i ) { inl.push_back( i % 3 != 1 ); } }
template < typename P > P keep( P p ) { rec.ret = p.get(); return p; }
struct Ho : algo::estimate_homography { COMMON( Ho, estimate_homography ) CONF using algo::estimate_homography::estimate; homography_sptr estimate( vector< vector_2d > const& a, vector< vector_2d > const& b, vector< bool >& i, double s ) const { pts( a, b, i, s ); return keep( homography_sptr( rec.result_inliers ? new homography_<double>() : nullptr ) ); } };
struct Fu : algo::estimate_fundamental_matrix { COMMON( Fu, estimate_fundamental_matrix ) CONF using algo::estimate_fundamental_matrix::estimate; fundamental_matrix_sptr estimate( vector< vector_2d > const& a, vector< vector_2d > const& b, vector< bool >& i, double s ) const { pts( a, b, i, s ); matrix_3x3d m; m << 0, 0, 0, 0, 0, -1, 0, 1, 0; return keep( fundamental_matrix_sptr( rec.result_inliers ? new fundamental_matrix_<double>( m ) : nullptr ) ); } };
struct Es : algo::estimate_essential_matrix { COMMON( Es, estimate_essential_matrix ) CONF using algo::estimate_essential_matrix::estimate; essential_matrix_sptr estimate( vector< vector_2d > const& a, vector< vector_2d > const& b, camera_intrinsics_sptr const c1, camera_intrinsics_sptr const c2, vector< bool >& i, double s ) const { pts( a, b, i, s ); rec.cal1 = c1.get(); rec.cal2 = c2.get(); return keep( essential_matrix_sptr( rec.result_inliers ? new essential_matrix_<double>( rotation_d(), vector_3d( 1, 0, 0 ) ) : nullptr ) ); } };
struct Si : algo::estimate_similarity_transform { COMMON( Si, estimate_similarity_transform ) CONF using algo::estimate_similarity_transform::estimate_transform; similarity_d estimate_transform( vector< vector_3d > const& a, vector< vector_3d > const& b ) const { ++rec.calls; rec.p = a; rec.q = b; if ( rec.fail ) { throw Boom(); } return similarity_d( 2.5, rotation_d( 0.5, vector_3d( 0, 0, 1 ) ), vector_3d( 1, 2, (double) a.size() ) ); } };
struct Ff : algo::filter_features { vector< unsigned > idx; mutable feature_set_sptr out; mutable vector< unsigned > given; COMMON( Ff, filter_features ) CONF using algo::filter_features::filter; feature_set_sptr filter( feature_set_sptr f, vector< unsigned >& i ) const { ++rec.calls; if ( rec.fail ) { throw Boom(); } given = i; i = idx; vector< feature_sptr > v = f->features(), o; for ( unsigned k : idx ) { o.push_back( v[k] ); } out = std::make_shared< simple_feature_set >( o ); return out; } };
struct Call { camera_sptr cam; vector< feature_sptr > f; vector< landmark_sptr > l; };
struct Oc : algo::optimize_cameras { mutable vector< Call > calls; bool replace = true; COMMON( Oc, optimize_cameras ) CONF using algo::optimize_cameras::optimize; void optimize( camera_sptr& c, vector< feature_sptr > const& f, vector< landmark_sptr > const& l ) const { if ( rec.fail && ! f.empty() ) { throw Boom(); } calls.push_back( Call{ c, f, l } ); if ( replace && ! f.empty() ) { shared_ptr< simple_camera > n( new simple_camera( c->center() + vector_3d( 0, 0, 100 ), rotation_d() ) ); c = n; } } };
struct Io : algo::image_io { COMMON( Io, image_io ) CONF mutable string got; mutable image_container_sptr data, back; image_container_sptr load_( string const& f ) const { ++rec.calls; got = f; if ( rec.fail ) { throw Boom(); } back = std::make_shared< simple_image_container >( image( 2, 2, 1 ) ); return back; } void save_( string const& f, image_container_sptr d ) const { ++rec.calls; got = f; data = d; if ( rec.fail ) { throw Boom(); } } };
feature_sptr feat( int i, bool flt = false ) { if ( flt ) { return std::make_shared< feature_f >( vector_2f( i + 0.25f, -i ) ); } return std::make_shared< feature_d >( vector_2d( i + 0.25, -i ) ); }
}
SCENARIO( c26_matches, 2 )
{
  int const kind = r.choose( 6 ), n1 = r.choose( 4 ), n2 = r.choose( 4 ), n = n1 && n2 ? r.choose( r.bound( 4, 5 ) ) : 0, variant = r.choose( 4 ); vector< match > ms; string w; for ( int i = 0; i < n; ++i ) { ms.push_back( match( r.choose( n1 ), r.choose( n2 ) ) ); w += " " + std::to_string( ms.back().first ) + "-" + std::to_string( ms.back().second ); } r.log( "interface " + std::to_string( kind ) + " matches" + w );
  vector< feature_sptr > f1, f2; for ( int i = 0; i < n1; ++i ) { f1.push_back( feat( i, variant & 1 ) ); } for ( int i = 0; i < n2; ++i ) { f2.push_back( feat( 100 + i, ( variant & 1 ) && i == 1 ) ); } rec = Rec(); rec.fail = variant == 3; rec.result_inliers = (size_t) ( variant == 2 ? 0 : n + variant ); feature_set_sptr s1 = std::make_shared< simple_feature_set >( f1 ), s2 = std::make_shared< simple_feature_set >( f2 ); match_set_sptr m = std::make_shared< simple_match_set >( ms );
  vector< vector_2d > a, b; for ( match const& k : ms ) { a.push_back( f1[k.first]->loc() ); b.push_back( f2[k.second]->loc() ); } vector< bool > inl( 2, true ); double const scale = variant == 0 ? 1.0 : 2.5 + variant; camera_intrinsics_sptr c1 = std::make_shared< simple_camera_intrinsics >(), c2 = std::make_shared< simple_camera_intrinsics >(); void const* got = nullptr, * w1 = nullptr, * w2 = nullptr; bool threw = false;
  try
  {
    Ho ho; Fu fu; Es es; bool const dflt = variant == 0;
    switch ( kind )
    {
    case 0: { algo::estimate_homography& x = ho; homography_sptr p = dflt ? x.estimate( s1, s2, m, inl ) : x.estimate( s1, s2, m, inl, scale ); got = p.get(); r.check( p.get() == rec.ret, "result", "another result" ); } break;
    case 1: { algo::estimate_fundamental_matrix& x = fu; fundamental_matrix_sptr p = dflt ? x.estimate( s1, s2, m, inl ) : x.estimate( s1, s2, m, inl, scale ); got = p.get(); r.check( p.get() == rec.ret, "result", "another result" ); } break;
    case 2: { algo::estimate_essential_matrix& x = es; w1 = c1.get(); w2 = c2.get(); essential_matrix_sptr p = dflt ? x.estimate( s1, s2, m, c1, c2, inl ) : x.estimate( s1, s2, m, c1, c2, inl, scale ); got = p.get(); r.check( p.get() == rec.ret, "result", "another result" ); } break;
    case 3: { algo::estimate_essential_matrix& x = es; w1 = w2 = c2.get(); essential_matrix_sptr p = dflt ? x.estimate( s1, s2, m, c2, inl ) : x.estimate( s1, s2, m, c2, inl, scale ); got = p.get(); r.check( p.get() == rec.ret, "result", "another result" ); } break;
    case 4: { algo::estimate_essential_matrix& x = es; w1 = w2 = c1.get(); essential_matrix_sptr p = dflt ? x.estimate( a, b, c1, inl ) : x.estimate( a, b, c1, inl, scale ); got = p.get(); r.check( p.get() == rec.ret, "result", "another result" ); } break;
    default: { algo::estimate_essential_matrix& x = es; w1 = c2.get(); w2 = c1.get(); essential_matrix_sptr p = x.estimate( s1, s2, m, c2, c1, inl, scale ); got = p.get(); r.check( p.get() == rec.ret, "result", "another result" ); } break;
    }
  } catch ( Boom const& ) { threw = true; }
  r.step(); r.state( mc::mix( mc::mix( kind, variant ), mc::hash_str( w ) ) ); r.check( rec.calls == 1, "calls", std::to_string( rec.calls ) + " calls of the implementation" ); r.check( threw == rec.fail, "exception", "exception of the implementation" );
  r.check( rec.a == a && rec.b == b, "pairing", "the implementation received " + std::to_string( rec.a.size() ) + "/" + std::to_string( rec.b.size() ) + " points for matches" + w ); r.check( rec.scale == scale, "scale", "inlier scale " + std::to_string( rec.scale ) ); r.check( rec.in == vector< bool >( 2, true ) || rec.in.empty(), "inliers", "inliers before the call" );
  if ( kind >= 2 ) { r.check( threw || ( rec.cal1 == w1 && rec.cal2 == w2 ), "calibration", "wrong calibration" ); } if ( ! threw ) { r.check( inl.size() == rec.result_inliers && !! got == ( rec.result_inliers > 0 ), "inliers", "inliers after the call" ); for ( size_t i = 0; i < inl.size(); ++i ) { r.check( inl[i] == ( i % 3 != 1 ), "inliers", "inlier flag " + std::to_string( i ) ); } }
}
SCENARIO( c26_similarity, 2 )
{
  int const kind = r.choose( 4 ); bool const fail = r.flip(); int const nb = r.bound( 6, 7 ); rec = Rec(); rec.fail = fail; vector< vector_3d > p, q; Si si; algo::estimate_similarity_transform& x = si; similarity_d s; bool threw = false; string w;
  auto cam = [] ( int k ) { return camera_sptr( new simple_camera( vector_3d( k, 0.5, -k ), rotation_d( 0.1 * k, vector_3d( 0, 1, 0 ) ) ) ); }; auto lm = [] ( int k ) { return k % 2 ? landmark_sptr( new landmark_d( vector_3d( k, 1.5, -2 * k ) ) ) : landmark_sptr( new landmark_f( vector_3f( k, 1.5f, -2 * k ) ) ); };
  if ( kind < 2 )
  {
    static unsigned const ids[] = { 0, 1, 2, 7, 2147483647u, 2147483646u, 100 }; int const fm = r.choose( 1 << nb ), tm = r.choose( 1 << nb ); w = std::to_string( fm ) + "/" + std::to_string( tm ); r.log( "sets " + w ); camera_map::map_camera_t ca, cb; landmark_map::map_landmark_t la, lb;
    for ( int i = 0; i < nb; ++i ) { bool a = fm >> i & 1, b = tm >> i & 1; if ( a ) { ca[ids[i]] = cam( i ); la[ids[i]] = lm( i ); } if ( b ) { cb[ids[i]] = cam( 50 + i ); lb[ids[i]] = lm( 50 + i ); } }
    if ( kind == 0 ) { for ( auto const& e : ca ) { if ( cb.count( e.first ) ) { p.push_back( e.second->center() ); q.push_back( cb[e.first]->center() ); } } } else { for ( auto const& e : la ) { if ( lb.count( e.first ) ) { p.push_back( e.second->loc() ); q.push_back( lb[e.first]->loc() ); } } }
    try { s = kind == 0 ? x.estimate_transform( camera_map_sptr( new simple_camera_map( ca ) ), camera_map_sptr( new simple_camera_map( cb ) ) ) : x.estimate_transform( landmark_map_sptr( new simple_landmark_map( la ) ), landmark_map_sptr( new simple_landmark_map( lb ) ) ); } catch ( Boom const& ) { threw = true; }
    // pairs in any common order
    r.check( rec.p.size() == p.size() && rec.q.size() == p.size(), "pairing", w + ": " + std::to_string( rec.p.size() ) + " and " + std::to_string( rec.q.size() ) + " points instead of " + std::to_string( p.size() ) + " pairs" ); vector< bool > used( p.size() ); for ( size_t i = 0; i < p.size(); ++i ) { bool hit = false; for ( size_t j = 0; j < p.size() && ! hit; ++j ) { if ( ! used[j] && rec.p[i] == p[j] && rec.q[i] == q[j] ) { hit = used[j] = true; } } r.check( hit, "pairing", w + ": pair " + std::to_string( i ) + " does not belong together" ); }
  }
  else
  {
    int const na = r.choose( 5 ), nb2 = r.choose( 5 ); w = std::to_string( na ) + "," + std::to_string( nb2 ); r.log( "lists " + w ); vector< camera_sptr > ca, cb; vector< landmark_sptr > la, lb; for ( int i = 0; i < na; ++i ) { ca.push_back( cam( ( i * 3 ) % 5 ) ); la.push_back( lm( ( i * 3 ) % 5 ) ); } for ( int i = 0; i < nb2; ++i ) { cb.push_back( cam( 60 - i ) ); lb.push_back( lm( 60 - i ) ); }
    for ( int i = 0; i < na; ++i ) { p.push_back( kind == 2 ? ca[i]->center() : la[i]->loc() ); } for ( int i = 0; i < nb2; ++i ) { q.push_back( kind == 2 ? cb[i]->center() : lb[i]->loc() ); } try { s = kind == 2 ? x.estimate_transform( ca, cb ) : x.estimate_transform( la, lb ); } catch ( Boom const& ) { threw = true; } r.check( rec.p == p && rec.q == q, "pairing", "lists " + w + " arrive differently" );
  }
  r.step(); r.state( mc::mix( kind, mc::hash_str( w ) ) ); r.check( rec.calls == 1, "calls", std::to_string( rec.calls ) + " calls" ); r.check( threw == fail, "exception", "exception of the implementation" ); if ( ! threw ) { r.check( s.scale() == 2.5 && s.translation() == vector_3d( 1, 2, (double) p.size() ) && s.rotation() == rotation_d( 0.5, vector_3d( 0, 0, 1 ) ), "result", "another transformation" ); }
}
SCENARIO( c26_filter, 2 )
{
  int const n = r.choose( 5 ), k = n ? r.choose( r.bound( 5, 7 ) ) : 0; Ff ff; string w; for ( int i = 0; i < k; ++i ) { ff.idx.push_back( r.choose( n ) ); w += " " + std::to_string( ff.idx.back() ); } int const extra = r.choose( 2 ), how = r.choose( 3 ); r.log( std::to_string( n ) + " features, retained" + w ); rec = Rec(); rec.fail = how == 2;
  vector< feature_sptr > f; vector< descriptor_sptr > d; for ( int i = 0; i < n; ++i ) { f.push_back( feat( i, i % 2 ) ); } for ( int i = 0; i < n + extra; ++i ) { d.push_back( i == 2 ? descriptor_sptr() : descriptor_sptr( new descriptor_fixed< float, 4 >() ) ); } feature_set_sptr fs = std::make_shared< simple_feature_set >( f ); descriptor_set_sptr ds = std::make_shared< simple_descriptor_set >( d ); algo::filter_features& x = ff; feature_set_sptr o; descriptor_set_sptr od; bool threw = false;
  try { if ( how == 0 ) { o = x.filter( fs ); } else { auto pr = x.filter( fs, ds ); o = pr.first; od = pr.second; } } catch ( Boom const& ) { threw = true; } r.step(); r.state( mc::mix( how, mc::hash_str( w ) ) ); r.check( rec.calls == 1 && threw == rec.fail, "calls", "calls of the implementation" ); if ( threw ) { return; }
  r.check( o == ff.out && ff.given.empty(), "result", "features are not those of the implementation" ); if ( how == 1 ) { r.check( od && od->size() == ff.idx.size(), "alignment", "number of descriptors" ); vector< descriptor_sptr > v = od->descriptors(); for ( size_t i = 0; i < v.size(); ++i ) { r.check( v[i] == d[ff.idx[i]], "alignment", "descriptor " + std::to_string( i ) + " does not belong to its feature" ); } } r.check( fs->features() == f && ds->descriptors() == d, "input", "the input changed" );
}
SCENARIO( c26_optimize, 2 )
{
  static unsigned const frames[] = { 0, 3, 9 }; static unsigned long const ids[] = { 5, 0, 2 }; int const cm = r.choose( 8 ), lmask = r.choose( 16 ), nt = r.choose( 4 ), how = r.choose( 3 ); string w = "cameras " + std::to_string( cm ) + " landmarks " + std::to_string( lmask ) + " tracks"; camera_map::map_camera_t cams; landmark_map::map_landmark_t lms; rec = Rec(); rec.fail = how == 2; Oc oc; oc.replace = how != 1;
  for ( int i = 0; i < 3; ++i ) { if ( cm >> i & 1 ) { cams[frames[i]] = camera_sptr( new simple_camera( vector_3d( i, 1, 2 ), rotation_d() ) ); } if ( lmask >> i & 1 ) { lms[ids[i]] = landmark_sptr( new landmark_d( vector_3d( i, 5, 6 ) ) ); } } if ( lmask & 8 ) { lms[77] = landmark_sptr( new landmark_d( vector_3d( 7, 7, 7 ) ) ); }
  vector< track_sptr > ts; map< unsigned, vector< std::pair< feature_sptr, landmark_sptr > > > want; bool any = false;
  for ( int t = 0; t < nt; ++t ) { int const q = t == 2 ? r.choose( r.bound( 3, 27 ) ) * ( r.thorough() ? 1 : 9 ) + ( r.thorough() ? 0 : 2 ) : r.choose( 27 ); track_sptr k = std::make_shared< track >(); k->set_id( ids[t] ); w += " " + std::to_string( q ); for ( int i = 0, z = q; i < 3; ++i, z /= 3 ) { if ( z % 3 == 0 ) { continue; } feature_sptr f = z % 3 == 2 ? feat( t * 10 + i ) : feature_sptr(); k->append( track::track_state( frames[i], f, descriptor_sptr() ) ); if ( f && ( cm >> i & 1 ) && ( lmask >> t & 1 ) ) { want[frames[i]].push_back( std::make_pair( f, lms[ids[t]] ) ); any = true; } } ts.push_back( k ); }
  r.log( w ); camera_map_sptr c = std::make_shared< simple_camera_map >( cams ), before = c; track_set_sptr s = std::make_shared< simple_track_set >( ts ); landmark_map_sptr l = std::make_shared< simple_landmark_map >( lms ); algo::optimize_cameras& x = oc; bool threw = false; try { x.optimize( c, s, l ); } catch ( Boom const& ) { threw = true; } r.step( 1 + (int) oc.calls.size() ); r.state( mc::hash_str( w ) );
  r.check( threw == ( rec.fail && any ), "exception", w + ": exception of the implementation" ); r.check( before->cameras() == cams && l->landmarks() == lms, "input", w + ": the given maps changed" ); if ( threw ) { r.check( c == before, "input", w + ": the cameras changed although an exception left" ); return; }
  std::set< camera_sptr > seen; for ( Call const& k : oc.calls ) { unsigned fr = 12345; for ( auto const& e : cams ) { if ( e.second == k.cam ) { fr = e.first; } } r.check( fr != 12345 && seen.insert( k.cam ).second, "camera", w + ": a camera is unknown or optimised twice" ); auto p = want[fr]; r.check( k.f.size() == p.size() && k.l.size() == p.size(), "pairing", w + ": frame " + std::to_string( fr ) + " gets " + std::to_string( k.f.size() ) + " features and " + std::to_string( k.l.size() ) + " landmarks instead of " + std::to_string( p.size() ) ); vector< bool > used( p.size() ); for ( size_t i = 0; i < p.size(); ++i ) { bool hit = false; for ( size_t j = 0; j < p.size() && ! hit; ++j ) { if ( ! used[j] && k.f[i] == p[j].first && k.l[i] == p[j].second ) { hit = used[j] = true; } } r.check( hit, "pairing", w + ": frame " + std::to_string( fr ) + " pairs a feature with the wrong landmark" ); } }
  for ( auto const& e : want ) { if ( ! e.second.empty() ) { r.check( seen.count( cams[e.first] ), "camera", w + ": the camera of frame " + std::to_string( e.first ) + " was not optimised" ); } }
  camera_map::map_camera_t out = c->cameras(); r.check( out.size() == cams.size(), "result", w + ": number of cameras" ); for ( auto const& e : cams ) { bool const changed = oc.replace && want.count( e.first ) && ! want[e.first].empty(); r.check( out.count( e.first ) && out[e.first], "result", w + ": a camera is lost" ); vector_3d z = e.second->center() + vector_3d( 0, 0, changed ? 100 : 0 ); r.check( out[e.first]->center() == z && ( changed || out[e.first] == e.second ), "result", w + ": frame " + std::to_string( e.first ) + " has another camera than its optimised one" ); }
}
SCENARIO( c26_null, 1 )
{
  int const m = r.choose( 8 ); Oc oc; algo::optimize_cameras& x = oc; camera_map_sptr c( m & 1 ? new simple_camera_map() : nullptr ); track_set_sptr t( m & 2 ? new simple_track_set() : nullptr ); landmark_map_sptr l( m & 4 ? new simple_landmark_map() : nullptr ); bool threw = false; rec = Rec(); try { x.optimize( c, t, l ); } catch ( invalid_value const& ) { threw = true; } r.step(); r.state( m ); r.check( threw == ( m != 7 ), "null", "null inputs " + std::to_string( m ) ); r.check( oc.calls.empty(), "calls", "the implementation was called" );
}
SCENARIO( c26_paths, 2 )
{
  string const d = r.scratch + "/p"; static bool made = false; if ( ! made ) { made = true; mkdir( d.c_str(), 0755 ); mkdir( ( d + "/dir" ).c_str(), 0755 ); mkdir( ( d + "/dir/sub dir" ).c_str(), 0755 ); std::ofstream( ( d + "/file" ).c_str() ) << "x"; std::ofstream( ( d + "/empty.png" ).c_str() ); if ( symlink( "file", ( d + "/lfile" ).c_str() ) || symlink( "dir", ( d + "/ldir" ).c_str() ) || symlink( "none", ( d + "/ldead" ).c_str() ) || symlink( "lloop", ( d + "/lloop" ).c_str() ) || mkfifo( ( d + "/fifo" ).c_str(), 0600 ) ) { abort(); } }
  static char const* const parts[] = { "", "dir", "dir/sub dir", "file", "lfile", "ldir", "ldead", "none", "lloop", "empty.png", "fifo", "dir/..", "./dir", "dir//sub dir", "ldir/sub dir", "file/x", "none/dir" }; int const np = sizeof parts / sizeof *parts; string const parent = parts[r.choose( np )]; static char const* const leaves[] = { "", "file", "new.png", "dir", ".", "lfile", "sub dir", "a b;c" }; string const leaf = leaves[r.choose( 8 )]; int const form = r.choose( 3 ), how = r.choose( 4 ); bool const cut = r.flip();
  string path = parent + ( leaf.empty() && cut ? "" : "/" ) + leaf; if ( parent.empty() ) { path = leaf; } if ( form == 0 || path.empty() ? form == 0 : false ) { path = path.empty() ? path : d + "/" + path; } if ( form == 1 ) { path = "./" + path; } // forms 1 and 2 are relative to d
  if ( chdir( d.c_str() ) ) { abort(); } r.log( ( how < 2 ? "load " : "save " ) + path ); rec = Rec(); rec.fail = how == 1 || how == 3; Io io; algo::image_io& x = io; image_container_sptr data = std::make_shared< simple_image_container >( image( 3, 1, 1 ) ), got; string out = "ok"; try { if ( how < 2 ) { got = x.load( path ); } else { x.save( path, data ); } } catch ( Boom const& ) { out = "boom"; } catch ( path_not_exists const& ) { out = "missing"; } catch ( path_not_a_file const& ) { out = "not a file"; } catch ( path_not_a_directory const& ) { out = "not a directory"; }
  struct stat st; string want = "ok"; if ( how < 2 ) { want = path.empty() || stat( path.c_str(), &st ) ? "missing" : S_ISDIR( st.st_mode ) ? "not a file" : "ok"; }
  else
  {
    // the directory that will contain the file, after resolving "." and ".." in the text as the file name functions do
    string full = path.empty() ? d : path[0] == '/' ? path : d + "/" + path; vector< string > c; std::stringstream ss( full ); string e; while ( std::getline( ss, e, '/' ) ) { if ( e.empty() || e == "." ) { continue; } if ( e == ".." ) { if ( ! c.empty() ) { c.pop_back(); } } else { c.push_back( e ); } } if ( ! c.empty() ) { c.pop_back(); } string dir; for ( auto const& k : c ) { dir += "/" + k; } if ( dir.empty() ) { dir = "/"; } want = stat( dir.c_str(), &st ) ? "missing" : S_ISDIR( st.st_mode ) ? "ok" : "not a directory";
    if ( want == "missing" && errno == ENOTDIR && out == "not a directory" ) { want = out; }
  }
  if ( want == "ok" && rec.fail ) { want = "boom"; } r.step(); r.state( mc::mix( how, mc::hash_str( path ) ) ); r.eqs( out, want, how < 2 ? "load" : "save", path ); bool const reach = want == "ok" || want == "boom"; r.check( rec.calls == reach, "reached", path + ( reach ? " did not reach" : " reached" ) + " the implementation" ); if ( reach ) { r.eqs( io.got, path, "name", "file name given to the implementation" ); } if ( want == "ok" ) { r.check( how < 2 ? got && got == io.back : io.data == data, "image", "another image" ); }
  if ( chdir( "/" ) ) { abort(); }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
