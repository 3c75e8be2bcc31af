// C17: value types - covariance, colour, feature, landmark, descriptor, geographic point, sets, vectors and matrices on streams.
#include "mc.h"
#include <vital/types/covariance.h>
#include <vital/types/color.h>
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/landmark.h>
#include <vital/types/landmark_map.h>
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/match_set.h>
#include <vital/types/geo_lat_lon.h>
#include <vital/types/vector.h>
#include <vital/types/matrix.h>
#include <vital/io/eigen_io.h>
#include <vital/logger/logger.h>
using namespace kwiver::vital;
using std::string; using std::vector;
namespace {
template < typename T > string num( T v ) { std::ostringstream o; o.precision( 17 ); o << v; return o.str(); }
template < typename D > string show( Eigen::MatrixBase< D > const& m ) { std::ostringstream o; o.precision( 17 ); for ( int i = 0; i < m.rows(); ++i ) { for ( int j = 0; j < m.cols(); ++j ) { o << ( j ? " " : i ? "; " : "" ) << m( i, j ); } } return o.str(); }
// the value after a round trip through single precision when either side is single
template < typename T, typename U > double via( double v ) { return (double) (T) (U) v; }

template < unsigned N, typename T, typename E > void cov_same( mc::Run& r, covariance_< N, T > const& c, E const& want, string const& w )
{
  r.step(); Eigen::Matrix< T, N, N > m = c;
  for ( unsigned i = 0; i < N; ++i ) { for ( unsigned j = 0; j < N; ++j ) { if ( ! ( c( i, j ) == want( i, j ) ) || ! ( m( i, j ) == want( i, j ) ) || ! ( c( i, j ) == c( j, i ) ) ) { r.fail( "covariance", w + ": element (" + num( i ) + "," + num( j ) + ") is " + num( c( i, j ) ) + " / " + num( m( i, j ) ) + " expected " + num( want( i, j ) ) ); } } }
}
template < unsigned N, typename T, typename U > void cov_case( mc::Run& r, Eigen::Matrix< T, (int) N, (int) N > const& m, string w )
{
  typedef Eigen::Matrix< T, N, N > M; typedef Eigen::Matrix< U, N, N > MU; M sym; for ( unsigned i = 0; i < N; ++i ) { for ( unsigned j = 0; j < N; ++j ) { sym( i, j ) = i == j ? m( i, i ) : ( m( std::min( i, j ), std::max( i, j ) ) + m( std::max( i, j ), std::min( i, j ) ) ) / 2; } }
  covariance_< N, T > c( m ); cov_same( r, c, sym, w ); covariance_< N, T > k( c ), a; a = c; cov_same( r, k, sym, w + " copied" ); cov_same( r, a, sym, w + " assigned" ); a = *&a; cov_same( r, a, sym, w + " self-assigned" );
  covariance_< N, U > u( c ); MU su = sym.template cast< U >(); cov_same( r, u, su, w + " converted" ); covariance_< N, T > back( u ); M sb = su.template cast< T >(); cov_same( r, back, sb, w + " converted back" );
  covariance_< N, T > s2( M( sym.transpose() ) ); cov_same( r, s2, sym, w + " from its own matrix" ); covariance_< N, T > full( (M) c ); cov_same( r, full, sym, w + " from extracted matrix" );
}
}
SCENARIO( c17_covariance, 2 )
{
  static double const v[] = { 0, 1, -2.5, 0.1, 1e30 }; int n3 = r.flip(); bool dbl = r.flip();
  if ( n3 ) { static double const w[] = { 1, -2.5, 0.1, 7 }; int nv = r.bound( 3, 4 ); matrix_3x3d m; for ( int i = 0; i < 9; ++i ) { m( i / 3, i % 3 ) = w[r.choose( nv )]; } string s = show( m ); r.state( s ); r.log( s ); if ( dbl ) { cov_case< 3, double, float >( r, m, s ); } else { cov_case< 3, float, double >( r, m.cast< float >(), s ); } }
  else { matrix_2x2d m; for ( int i = 0; i < 4; ++i ) { m( i / 2, i % 2 ) = v[r.choose( 5 )]; } string s = show( m ); r.state( s ); r.log( s ); if ( dbl ) { cov_case< 2, double, float >( r, m, s ); } else { cov_case< 2, float, double >( r, m.cast< float >(), s ); } }
}
SCENARIO( c17_covariance_access, 2 )
{
  // histories of element writes in either order
  double sc = r.flip() ? 2.5 : 0; covariance_3d c( sc ); matrix_3x3d m = matrix_3x3d::Identity() * sc; covariance_2f c2( (float) sc ); Eigen::Matrix2f m2 = Eigen::Matrix2f::Identity() * (float) sc; string s = "scalar " + num( sc ); cov_same( r, c, m, s ); cov_same( r, c2, m2, s );
  int n = r.bound( 3, 4 ); for ( int i = 0; i < n; ++i ) { int a = r.choose( 3 ), b = r.choose( 3 ); s += " (" + num( a ) + "," + num( b ) + ")=" + num( i + 1 ); r.log( s ); c( a, b ) = i + 1; m( a, b ) = m( b, a ) = i + 1; cov_same( r, c, m, s ); if ( a < 2 && b < 2 ) { c2( a, b ) = (float) i + 1; m2( a, b ) = m2( b, a ) = (float) i + 1; cov_same( r, c2, m2, s ); } r.state( s ); }
  covariance_3d k( c ); k( 0, 1 ) += 1; cov_same( r, c, m, s + " after its copy changed" );
}
SCENARIO( c17_color, 1 )
{
  static int const v[] = { 0, 1, 9, 10, 32, 48, 127, 128, 254, 255 }; auto byte_of = [&] () { return v[r.choose( 10 )]; }; int a = byte_of(), b = byte_of(), c = byte_of(); rgb_color k( (unsigned char) a, (unsigned char) b, (unsigned char) c ), k2( k ), d; string w = num( a ) + " " + num( b ) + " " + num( c ); r.state( w ); r.log( w ); r.step( 4 );
  r.check( k.r == a && k.g == b && k.b == c, "color", w ); r.check( k == k2 && ! ( k != k2 ), "color-equal", w ); std::ostringstream o; o << k; r.eqs( o.str(), w, "color-text", "printed" );
  std::stringstream in( w + " 77" ); int next = 0; in >> d >> next; r.check( d == k && next == 77, "color-read", w );
  for ( int i = 0; i < 3; ++i ) { for ( int delta : { -1, 1 } ) { int x[3] = { a, b, c }; x[i] += delta; if ( x[i] < 0 || x[i] > 255 ) { continue; } rgb_color z( (unsigned char) x[0], (unsigned char) x[1], (unsigned char) x[2] ); r.check( ! ( z == k ) && z != k, "color-equal", w + " differs" ); } }
  for ( size_t cut = 0; cut < w.size(); ++cut ) { string t = w.substr( 0, cut ); std::istringstream is( t ); std::istringstream cnt( t ); int have = 0; string tok; while ( cnt >> tok ) { ++have; } rgb_color z; is >> z; r.count(); if ( have < 3 && is ) { r.fail( "color-truncated", mc::show( t ) + " accepted" ); } }
  rgb_color dflt; r.check( dflt.r == 255 && dflt.g == 255 && dflt.b == 255, "color-default", "default colour is white" );
}

namespace {
double const nums[] = { 0, 1, -2.5, 0.1, 123456.789, 1e-30, 3e30, 16777217, -1e-7 };
struct MF { double x, y, m, s, a; double c[3]; int col[3]; };
template < typename T > double t( double v ) { return (double) (T) v; }
void feature_same( mc::Run& r, feature const& f, MF const& w, bool f32, bool cov, char const* key, string const& s )
{
  auto q = [&] ( double v ) { return f32 ? (double) (float) v : v; }; r.step();
  bool ok = f.loc()[0] == q( w.x ) && f.loc()[1] == q( w.y ) && f.magnitude() == q( w.m ) && f.scale() == q( w.s ) && f.angle() == q( w.a ) && f.color() == rgb_color( (unsigned char) w.col[0], (unsigned char) w.col[1], (unsigned char) w.col[2] );
  if ( ! ok ) { std::ostringstream o; o.precision( 17 ); o << f; r.fail( key, string( key ) + " " + s + " gave " + o.str() ); }
  if ( cov ) { covariance_2d c = f.covar(); if ( ! ( c( 0, 0 ) == q( w.c[0] ) && c( 0, 1 ) == q( w.c[1] ) && c( 1, 0 ) == q( w.c[1] ) && c( 1, 1 ) == q( w.c[2] ) ) ) { r.fail( "feature-covariance", string( key ) + " " + s + ": covariance " + show( matrix_2x2d( c ) ) ); } }
}
struct other_feature : feature // not one of the library's own classes
{
  MF w; std::type_info const& data_type() const { return typeid( double ); } vector_2d loc() const { return vector_2d( w.x, w.y ); } double magnitude() const { return w.m; } double scale() const { return w.s; } double angle() const { return w.a; }
  covariance_2d covar() const { covariance_2d c( 0.0 ); c( 0, 0 ) = w.c[0]; c( 0, 1 ) = w.c[1]; c( 1, 1 ) = w.c[2]; return c; } rgb_color color() const { return rgb_color( (unsigned char) w.col[0], (unsigned char) w.col[1], (unsigned char) w.col[2] ); }
};
// reads the text of an object cut anywhere: either every field is there or the reader says so
template < typename F > void truncated( mc::Run& r, string const& text, int fields, char const* key )
{
  for ( size_t cut = 0; cut < text.size(); ++cut )
  {
    string p = text.substr( 0, cut ); std::istringstream cnt( p ); int have = 0; string tok, last; while ( cnt >> tok ) { ++have; last = tok; } r.count(); std::istringstream is( p ); F f; bool ok = true; try { is >> f; ok = ! is.fail(); } catch ( invalid_data const& ) { ok = false; }
    if ( have < fields && ok ) { r.fail( key, mc::show( p ) + " accepted" ); }
    bool whole = ! last.empty() && ( isdigit( (unsigned char) last.back() ) ) && last.find_first_of( "eE" ) == string::npos; if ( have == fields && whole && ! ok ) { r.fail( key, mc::show( p ) + " refused" ); }
  }
}
template < typename T > void feature_case( mc::Run& r, MF const& w, string const& s )
{
  bool f32 = sizeof( T ) == 4; typedef feature_< T > F; F f( Eigen::Matrix< T, 2, 1 >( (T) w.x, (T) w.y ), (T) w.m, (T) w.s, (T) w.a, rgb_color( (unsigned char) w.col[0], (unsigned char) w.col[1], (unsigned char) w.col[2] ) ); covariance_< 2, T > cov( T( 0 ) ); cov( 0, 0 ) = (T) w.c[0]; cov( 0, 1 ) = (T) w.c[1]; cov( 1, 1 ) = (T) w.c[2]; f.set_covar( cov ); feature_same( r, f, w, f32, true, "feature", s );
  F g; r.check( g.loc() == vector_2d( 0, 0 ) && g.magnitude() == 0 && g.scale() == 1 && g.angle() == 0 && g.color() == rgb_color(), "feature-default", "default feature" ); g.set_angle( (T) w.a ); g.set_color( f.get_color() ); g.set_covar( cov ); g.set_loc( f.get_loc() ); g.set_magnitude( (T) w.m ); g.set_scale( (T) w.s ); feature_same( r, g, w, f32, true, "feature-set", s );
  F c( f ), e; e = f; feature_same( r, c, w, f32, true, "feature-copy", s ); feature_same( r, e, w, f32, true, "feature-assign", s );
  feature const& base = f; feature_d fd( base ); feature_f ff( base ); feature_same( r, fd, w, f32, true, "feature-to-double", s ); feature_same( r, ff, w, true, true, "feature-to-float", s ); feature_d dfd( static_cast< feature const& >( ff ) ); feature_same( r, dfd, w, true, true, "feature-to-double", s );
  r.check( f.data_type() == typeid( T ) && F::static_data_type() == typeid( T ), "feature-type", "data type" );
  std::stringstream a, b; a.precision( 17 ); b.precision( 17 ); a << f; b << base; r.eqs( a.str(), b.str(), "feature-text", "feature printed through base" ); F h; a >> h; r.check( ! a.fail(), "feature-read", s ); feature_same( r, h, w, f32, false, "feature-stream", s ); truncated< F >( r, b.str(), 8, "feature-truncated" );
}
}
SCENARIO( c17_feature, 2 )
{
  MF w; double* fs[] = { &w.x, &w.y, &w.m, &w.s, &w.a, &w.c[0], &w.c[1], &w.c[2] }; int mode = r.choose( 9 ); // one field varied over everything, the others at distinct values; last: all pairs of neighbours
  double d = 0.125; for ( auto p : fs ) { *p = ( d += 1.1 ); } w.col[0] = 1; w.col[1] = 2; w.col[2] = 3;
  if ( mode < 8 ) { *fs[mode] = nums[r.choose( 9 )]; *fs[( mode + 1 + r.choose( 7 ) ) % 8] = nums[r.choose( 9 )]; } else { for ( int i = 0; i < 3; ++i ) { static int const cv[] = { 0, 10, 128, 255 }; w.col[i] = cv[r.choose( 4 )]; } }
  string s; for ( auto p : fs ) { s += num( *p ) + " "; } for ( int c : w.col ) { s += num( c ) + " "; } r.state( s ); r.log( s ); feature_case< double >( r, w, s ); feature_case< float >( r, w, s );
  other_feature o; o.w = w; feature_same( r, feature_d( o ), w, false, true, "feature-from-other", s ); feature_same( r, feature_f( o ), w, true, true, "feature-from-other", s );
}
namespace {
struct ML { double l[3], s, n[3], c[6]; int col[3]; unsigned obs; };
rgb_color colour( int const* c ) { return rgb_color( (unsigned char) c[0], (unsigned char) c[1], (unsigned char) c[2] ); }
covariance_3d cov3( double const* c ) { matrix_3x3d m; m << c[0], c[1], c[3], c[1], c[2], c[4], c[3], c[4], c[5]; return covariance_3d( m ); }
void landmark_same( mc::Run& r, landmark const& f, ML const& w, bool f32, bool cov, char const* key, string const& s )
{
  auto q = [&] ( double v ) { return f32 ? (double) (float) v : v; }; r.step(); bool ok = f.scale() == q( w.s ) && f.color() == colour( w.col ) && f.observations() == w.obs; for ( int i = 0; i < 3; ++i ) { ok = ok && f.loc()[i] == q( w.l[i] ) && f.normal()[i] == q( w.n[i] ); }
  if ( ! ok ) { std::ostringstream o; o.precision( 17 ); o << f; r.fail( key, string( key ) + " " + s + " gave " + o.str() ); }
  if ( cov ) { covariance_3d c = f.covar(), e = cov3( w.c ); for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { if ( c( i, j ) != q( e( i, j ) ) ) { r.fail( "landmark-covariance", string( key ) + " " + s + ": covariance " + show( matrix_3x3d( c ) ) ); } } } }
}
struct other_landmark : landmark { ML w; landmark_sptr clone() const { return landmark_sptr( new other_landmark( *this ) ); } vector_3d loc() const { return vector_3d( w.l ); } double scale() const { return w.s; } vector_3d normal() const { return vector_3d( w.n ); } covariance_3d covar() const { return cov3( w.c ); } rgb_color color() const { return colour( w.col ); } unsigned observations() const { return w.obs; } };
template < typename T > void landmark_case( mc::Run& r, ML const& w, string const& s )
{
  bool f32 = sizeof( T ) == 4; typedef landmark_< T > F; typedef Eigen::Matrix< T, 3, 1 > V; V l = vector_3d( w.l ).cast< T >(), n = vector_3d( w.n ).cast< T >(); F f( l, (T) w.s ); r.check( f.normal() == vector_3d( 0, 0, 0 ) && f.observations() == 0 && f.color() == rgb_color(), "landmark-ctor", s ); covariance_< 3, T > cov( cov3( w.c ) ); f.set_normal( n ); f.set_covar( cov ); f.set_color( colour( w.col ) ); f.set_observations( w.obs ); landmark_same( r, f, w, f32, true, "landmark", s );
  F g; r.check( g.loc() == vector_3d( 0, 0, 0 ) && g.scale() == 1 && g.normal() == vector_3d( 0, 0, 0 ) && g.observations() == 0 && g.color() == rgb_color(), "landmark-default", "default landmark" ); g.set_observations( w.obs ); g.set_color( f.get_color() ); g.set_covar( cov ); g.set_loc( l ); g.set_normal( n ); g.set_scale( (T) w.s ); landmark_same( r, g, w, f32, true, "landmark-set", s );
  F c( f ), e; e = f; landmark_sptr k = f.clone(); landmark_same( r, c, w, f32, true, "landmark-copy", s ); landmark_same( r, e, w, f32, true, "landmark-assign", s ); landmark_same( r, *k, w, f32, true, "landmark-clone", s ); g.set_loc( V( 5, 6, 7 ) ); f.set_scale( (T) w.s + 1 ); landmark_same( r, *k, w, f32, true, "landmark-clone", s ); f.set_scale( (T) w.s );
  landmark const& base = f; landmark_d fd( base ); landmark_f ff( base ); landmark_same( r, fd, w, f32, true, "landmark-to-double", s ); landmark_same( r, ff, w, true, true, "landmark-to-float", s ); landmark_d dfd( static_cast< landmark const& >( ff ) ); landmark_same( r, dfd, w, true, true, "landmark-to-double", s ); r.check( F::data_type() == typeid( T ), "landmark-type", "data type" );
  std::stringstream a, b; a.precision( 17 ); b.precision( 17 ); a << f; b << base; r.eqs( a.str(), b.str(), "landmark-text", "landmark printed through base" ); F h; a >> h; r.check( ! a.fail(), "landmark-read", s ); landmark_same( r, h, w, f32, false, "landmark-stream", s ); truncated< F >( r, b.str(), 11, "landmark-truncated" );
}
}
SCENARIO( c17_landmark, 2 )
{
  ML w; double* fs[] = { w.l, w.l + 1, w.l + 2, &w.s, w.n, w.n + 1, w.n + 2, w.c, w.c + 1, w.c + 2, w.c + 3, w.c + 4, w.c + 5 }; double d = 0.125; for ( auto p : fs ) { *p = ( d += 1.1 ); } w.col[0] = 1; w.col[1] = 2; w.col[2] = 3; w.obs = 7; int mode = r.choose( 14 );
  if ( mode < 13 ) { *fs[mode] = nums[r.choose( 9 )]; *fs[( mode + 1 + r.choose( r.bound( 3, 12 ) ) ) % 13] = nums[r.choose( r.bound( 4, 9 ) )]; } else { for ( int i = 0; i < 3; ++i ) { static int const cv[] = { 0, 10, 128, 255 }; w.col[i] = cv[r.choose( 4 )]; } static unsigned const ov[] = { 0, 1, 65536, 4294967295u }; w.obs = ov[r.choose( 4 )]; }
  string s; for ( auto p : fs ) { s += num( *p ) + " "; } for ( int c : w.col ) { s += num( c ) + " "; } s += num( w.obs ); r.state( s ); r.log( s ); landmark_case< double >( r, w, s ); landmark_case< float >( r, w, s );
  other_landmark o; o.w = w; landmark_same( r, landmark_d( o ), w, false, true, "landmark-from-other", s ); landmark_same( r, landmark_f( o ), w, true, true, "landmark-from-other", s );
}
namespace {
template < typename T > void bytes_same( mc::Run& r, descriptor const& d, vector< T > const& v, string const& s )
{
  r.step( 4 ); r.eq( d.size(), v.size(), "descriptor-size", s ); r.eq( d.num_bytes(), v.size() * sizeof( T ), "descriptor-bytes", s ); vector< byte > b = d.as_bytes(); r.check( b.size() == v.size() * sizeof( T ) && ( b.empty() || ! memcmp( b.data(), v.data(), b.size() ) ), "descriptor-bytes", s + " bytes differ" );
  vector< double > x = d.as_double(); r.eq( x.size(), v.size(), "descriptor-double", s ); for ( size_t i = 0; i < v.size(); ++i ) { r.check( x[i] == (double) v[i], "descriptor-double", s ); }
}
template < typename T, unsigned N > void fixed_case( mc::Run& r, vector< T > v, string const& s ) { v.resize( N ); descriptor_fixed< T, N > d; std::copy( v.begin(), v.end(), d.raw_data() ); bytes_same( r, d, v, s + " fixed" ); descriptor_fixed< T, N > k( d ), a; a = d; d.raw_data()[0] = T( 99 ); bytes_same( r, k, v, s + " fixed copy" ); bytes_same( r, a, v, s + " fixed assigned" ); descriptor_fixed< T, N > const& cd = a; r.check( cd.raw_data() == a.raw_data(), "raw", s ); }
template < typename T > void dynamic_case( mc::Run& r, vector< T > const& v, string const& s )
{
  descriptor_dynamic< T > d( v.size() ); std::copy( v.begin(), v.end(), d.raw_data() ); bytes_same( r, d, v, s + " dynamic" );
  { descriptor_dynamic< T > k( d ), a( 2 ); a = d; bytes_same( r, k, v, s + " dynamic copy" ); bytes_same( r, a, v, s + " dynamic assigned" ); if ( ! v.empty() ) { k.raw_data()[0] = T( 99 ); a.raw_data()[0] = T( 98 ); } bytes_same( r, d, v, s + " dynamic after its copies changed" ); descriptor_dynamic< T > const& ref = d; d = ref; bytes_same( r, d, v, s + " self-assigned" ); }
  bytes_same( r, d, v, s + " dynamic after its copies are gone" );
}
template < typename T > void descriptor_case( mc::Run& r, int n, int pat, string s ) { static double const v[] = { 0, 1, 255, -1, 0.5, 100, 7, 127 }; vector< T > x; for ( int i = 0; i < n; ++i ) { double y = v[( i * ( pat + 1 ) + pat ) % 8]; x.push_back( ! std::is_signed< T >::value && y < 0 ? T( 200 ) : T( y ) ); } dynamic_case( r, x, s ); fixed_case< T, 1 >( r, x, s ); fixed_case< T, 5 >( r, x, s ); fixed_case< T, 128 >( r, x, s ); }
}
SCENARIO( c17_descriptor, 2 ) { int ty = r.choose( 5 ), n = r.choose( 130 ), pat = r.choose( 8 ); string s = "type " + num( ty ) + " length " + num( n ) + " pattern " + num( pat ); r.log( s ); r.state( s ); switch ( ty ) { case 0: descriptor_case< byte >( r, n, pat, s ); break; case 1: descriptor_case< float >( r, n, pat, s ); break; case 2: descriptor_case< double >( r, n, pat, s ); break; case 3: descriptor_case< short >( r, n, pat, s ); break; default: descriptor_case< unsigned >( r, n, pat, s ); } }

SCENARIO( c17_geo, 1 )
{
  double const I = geo_lat_lon::INVALID, nan = std::numeric_limits< double >::quiet_NaN(), inf = std::numeric_limits< double >::infinity(); static vector< double > const v = { 0, -0.0, 45.5, -45.123456789012345, 90, -90, std::nextafter( 90, 100 ), std::nextafter( -90, -100 ), 89.99999999999, 180, -180, std::nextafter( -180, -200 ), 360, std::nextafter( 360, 400 ), 359.5, 181, -179.5, 1e-300, I, nan, inf, -inf, 443.9 };
  double la = r.pick( v ), lo = r.pick( v ); geo_lat_lon p( la, lo ), q, s; string w = num( la ) + " / " + num( lo ); r.log( w ); r.state( w ); r.step( 8 ); auto same = [] ( double a, double b ) { return a == b || ( a != a && b != b ); };
  r.check( q.is_empty() && ! q.is_valid(), "geo-default", "default point is empty" ); r.check( &q.set_latitude( la ) == &q && &q.set_longitude( lo ) == &q, "geo-set", w ); geo_lat_lon c( p ); s = q;
  bool valid = la >= -90 && la <= 90 && lo >= -180 && lo <= 360, empty = la == I && lo == I;
  for ( auto x : { &p, &q, &c, &s } ) { r.check( same( x->get_latitude(), la ) && same( x->get_longitude(), lo ), "geo-fields", w ); r.check( x->is_valid() == valid, "geo-valid", w + " reported " + num( x->is_valid() ) ); r.check( x->is_empty() == empty, "geo-empty", w + " reported " + num( x->is_empty() ) ); }
  static geo_lat_lon const others[] = { geo_lat_lon( 0, 0 ), geo_lat_lon( 45.5, -180 ), geo_lat_lon() }; for ( auto const& o : others ) { bool e = o.get_latitude() == la && o.get_longitude() == lo; r.check( ( p == o ) == e && ( p != o ) == ! e && ( o == p ) == e, "geo-equal", w ); } if ( la == la && lo == lo ) { r.check( p == c && ! ( p != c ), "geo-equal", w ); }
  std::ostringstream o; o.precision( 3 ); o << p << 1.0625; string t = o.str(); if ( std::isfinite( la ) && std::isfinite( lo ) ) { double a = 1e99, b = 1e99; char tail[16] = ""; sscanf( t.c_str(), "[ %lf / %lf ]%15s", &a, &b, tail ); r.check( a == la && b == lo && string( tail ) == "1.06", "geo-text", w + " printed as " + t ); }
}
SCENARIO( c17_sets, 2 )
{
  int n = r.choose( 5 ); vector< feature_sptr > f; vector< descriptor_sptr > d; vector< match > m; landmark_map::map_landmark_t l; string s = num( n ); static feature_sptr const fp[] = { feature_sptr( new feature_d( vector_2d( 1, 2 ) ) ), feature_sptr( new feature_f( vector_2f( 3, 4 ) ) ), feature_sptr() }; static descriptor_sptr const dp[] = { descriptor_sptr( new descriptor_dynamic< byte >( 3 ) ), descriptor_sptr( new descriptor_fixed< float, 2 > ), descriptor_sptr() }; static landmark_sptr const lp[] = { landmark_sptr( new landmark_d( vector_3d( 1, 2, 3 ) ) ), landmark_sptr( new landmark_f ), landmark_sptr() }; static landmark_id_t const id[] = { 0, -5, 4294967299LL, 7 };
  for ( int i = 0; i < n; ++i ) { int k = r.choose( 3 ), x = r.choose( 4 ); f.push_back( fp[k] ); d.push_back( dp[k] ); m.push_back( match( k, x ? 4294967295u - x : 0 ) ); l[id[x]] = lp[k]; s += " " + num( k ) + num( x ); } r.log( s ); r.state( s ); r.step( 8 );
  simple_feature_set fs( f ), fs2( fs ), fs0; simple_descriptor_set ds( d ), ds2( ds ), ds0; simple_match_set ms( m ), ms2( ms ), ms0; simple_landmark_map ls( l ), ls2( ls ), ls0; auto fc = f; auto dc = d; auto mc_ = m; auto lc = l; f.clear(); d.clear(); m.clear(); l.clear();
  fs0 = fs; ms0 = ms; ls0 = ls; for ( auto x : { &fs, &fs2, &fs0 } ) { r.check( x->size() == fc.size() && x->features() == fc, "feature-set", s ); } for ( auto x : { &ds, &ds2 } ) { r.check( x->size() == dc.size() && x->descriptors() == dc, "descriptor-set", s ); } for ( auto x : { &ms, &ms2, &ms0 } ) { r.check( x->size() == mc_.size() && x->matches() == mc_, "match-set", s ); } for ( auto x : { &ls, &ls2, &ls0 } ) { r.check( x->size() == lc.size() && x->landmarks() == lc, "landmark-map", s ); }
  r.check( ds0.size() == 0 && ds0.descriptors().empty() && simple_feature_set().size() == 0 && simple_match_set().matches().empty() && simple_landmark_map().landmarks().empty(), "empty-set", s );
}
namespace {
template < typename T, int R, int C > void eigen_case( mc::Run& r, int k, int rot )
{
  typedef Eigen::Matrix< T, R, C > M; M m; for ( int i = 0; i < R * C; ++i ) { m( i / C, i % C ) = (T) nums[( i * k + rot ) % 9]; } string s = num( R ) + "x" + num( C ) + " " + show( m ); r.log( s ); r.state( s ); std::ostringstream o; o.precision( 17 ); o << m; string t = o.str(); r.step();
  { std::istringstream in( t + " 77" ); M x; int next = 0; in >> x >> next; r.check( x == m && next == 77, "eigen-read", s + " read as " + show( x ) ); }
  for ( size_t cut = 0; cut < t.size(); ++cut ) { std::istringstream cnt( t.substr( 0, cut ) ); int have = 0; string tok; while ( cnt >> tok ) { ++have; } if ( have >= R * C ) { break; } r.count(); std::istringstream in( t.substr( 0, cut ) ); M x; bool ok = true; try { in >> x; } catch ( invalid_data const& ) { ok = false; } if ( ok ) { r.fail( "eigen-truncated", s + " cut at " + num( cut ) + " accepted" ); } }
  vector< string > toks; { std::istringstream in( t ); string x; while ( in >> x ) { toks.push_back( x ); } }
  for ( size_t i = 0; i < toks.size(); ++i ) { for ( char const* bad : { "x", "-", ".", ",", "1,5", "#" } ) { string u; for ( size_t j = 0; j < toks.size(); ++j ) { u += ( j % 3 == 2 ? "\t" : "\n " ) + ( j == i ? string( bad ) : toks[j] ); } r.count(); std::istringstream in( u ); M x; bool ok = true; try { in >> x; } catch ( invalid_data const& ) { ok = false; } if ( ok && ! ( string( bad ) == "1,5" && i + 1 == toks.size() ) ) { r.fail( "eigen-corrupt", mc::show( u ) + " accepted" ); } } }
}
template < typename T > void dynamic_vec( mc::Run& r, int n, int k, int lead, int sep )
{
  static char const* leads[] = { "", " ", "\n", "\n\n  \n", "\t" }; static char const* seps[] = { " ", "\t", "  ", " \r " }; vector< T > v; string t = leads[lead]; for ( int i = 0; i < n; ++i ) { v.push_back( (T) nums[( i * k + k ) % 9] ); std::ostringstream o; o.precision( 17 ); o << v.back(); t += ( i ? seps[sep] : "" ) + o.str(); } string s = mc::show( t ); r.log( s ); r.state( s );
  for ( char const* tail : { "", "\n", " \n", "\n77\n", "\n\n77" } ) { std::istringstream in( t + tail ); Eigen::Matrix< T, Eigen::Dynamic, 1 > x; in >> x; r.step(); vector< T > want = v; if ( v.empty() && strstr( tail, "77" ) ) { want.push_back( T( 77 ) ); } r.check( (size_t) x.size() == want.size() && std::equal( want.begin(), want.end(), x.data() ), "vector-read", mc::show( t + tail ) + " read as " + show( x ) ); if ( ! v.empty() && strstr( tail, "77" ) ) { int nx = 0; in >> nx; r.check( nx == 77, "vector-rest", mc::show( t + tail ) ); } }
  if ( n ) { for ( char const* bad : { "x", "-", "1,5", "," } ) { for ( int at = 0; at < 2; ++at ) { string u = at ? t + seps[sep] + bad : string( leads[lead] ) + bad + seps[sep] + t.substr( strlen( leads[lead] ) ); std::istringstream in( u ); Eigen::Matrix< T, Eigen::Dynamic, 1 > x; r.count(); bool ok = true; try { in >> x; } catch ( invalid_data const& ) { ok = false; } if ( ok ) { r.fail( "vector-corrupt", mc::show( u ) + " accepted" ); } } } }
}
}
SCENARIO( c17_eigen, 2 )
{
  int shape = r.choose( 14 ), k = 1 + r.choose( 8 ), rot = r.choose( 9 );
  switch ( shape )
  {
#define S( n, T, R, C ) case n: eigen_case< T, R, C >( r, k, rot ); break;
  S( 0, double, 2, 1 ) S( 1, float, 2, 1 ) S( 2, double, 3, 1 ) S( 3, float, 3, 1 ) S( 4, double, 4, 1 ) S( 5, double, 2, 2 ) S( 6, double, 2, 3 ) S( 7, double, 3, 3 ) S( 8, float, 3, 3 ) S( 9, double, 3, 4 ) S( 10, double, 4, 3 ) S( 11, float, 4, 4 ) S( 12, double, 4, 4 ) S( 13, float, 3, 2 )
  }
}
SCENARIO( c17_vectors, 2 ) { int n = r.choose( 10 ), k = 1 + r.choose( 8 ), lead = r.choose( 5 ), sep = r.choose( 4 ); if ( r.flip() ) { dynamic_vec< double >( r, n, k, lead, sep ); } else { dynamic_vec< float >( r, n, k, lead, sep ); } }

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
