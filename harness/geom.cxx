// C14 cameras, C15 rotations and similarities, C16 homographies and epipolar matrices.
#include "mc.h"
#include <iostream>
#include <vital/types/camera.h>
#include <vital/types/camera_map.h>
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/types/fundamental_matrix.h>
#include <vital/types/essential_matrix.h>
#include <vital/io/eigen_io.h>
#include <vital/exceptions/math.h>
#include <Eigen/Dense>
using namespace kwiver::vital;
using std::string; using std::vector;
typedef Eigen::VectorXd VX;
typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3; typedef Eigen::Vector2d V2; typedef Eigen::Matrix4d M4;

namespace {
double const PI = 3.14159265358979323846;
struct NullBuf : std::streambuf { int overflow( int c ) { return c; } };
void quiet() { static NullBuf b; std::cerr.rdbuf( &b ); std::cout.rdbuf( &b ); }
template < typename X > string str( X const& m ) { std::ostringstream o; o.precision( 12 ); o << m; string s = o.str(); for ( char& c : s ) { if ( c == '\n' ) { c = ';'; } } return s; }

// reference rotation matrix about an axis (Rodrigues formula)
M3 rot_ref( V3 a, double w ) { a.normalize(); M3 K; K << 0, -a[2], a[1], a[2], 0, -a[0], -a[1], a[0], 0; return M3::Identity() + std::sin( w ) * K + ( 1 - std::cos( w ) ) * K * K; }
vector< V3 > const& axes() { static vector< V3 > v; if ( v.empty() ) { for ( int x = -1; x <= 1; ++x ) { for ( int y = -1; y <= 1; ++y ) { for ( int z = -1; z <= 1; ++z ) { if ( x || y || z ) { v.push_back( V3( x, y, z ) ); } } } } v.push_back( V3( 1, -2, 3 ) ); v.push_back( V3( 1e-3, 1, 1e-6 ) ); } return v; }
vector< double > const angles = { 0, 1e-9, -1e-4, 0.3, -PI / 2, PI / 2, 2.2, PI - 1e-4, PI - 1e-9, PI, -PI, PI + 0.4, 1.5 * PI, 2 * PI - 1e-3 };
double angle_between( M3 const& A, M3 const& B ) { M3 D = A.transpose() * B; double c = ( D.trace() - 1 ) / 2; V3 s( D( 2, 1 ) - D( 1, 2 ), D( 0, 2 ) - D( 2, 0 ), D( 1, 0 ) - D( 0, 1 ) ); return std::atan2( s.norm() / 2, c ); }

// ---------------------------------------------------------------- C14 reference camera model
typedef long double L;
void ref_distort( vector< double > const& d, L x, L y, L& ox, L& oy )
{
  size_t n = d.size(); L r2 = x * x + y * y, s = 1; if ( n > 0 ) { s += d[0] * r2; } if ( n > 1 ) { s += d[1] * r2 * r2; } if ( n > 4 ) { s += d[4] * r2 * r2 * r2; } if ( n > 7 ) { s /= 1 + d[5] * r2 + d[6] * r2 * r2 + d[7] * r2 * r2 * r2; }
  ox = x * s; oy = y * s; if ( n > 3 ) { ox += 2 * d[2] * x * y + d[3] * ( r2 + 2 * x * x ); oy += 2 * d[3] * x * y + d[2] * ( r2 + 2 * y * y ); }
}
// does exact Newton iteration from the distorted point converge quickly?  (meaning: moderate distortion)
bool moderate( vector< double > const& d, L X, L Y, L px, L py )
{
  L x = X, y = Y;
  for ( int i = 0; i < 4; ++i )
  {
    L e = 1e-6L, a, b, a1, b1, a2, b2, a3, b3, a4, b4; ref_distort( d, x, y, a, b ); ref_distort( d, x + e, y, a1, b1 ); ref_distort( d, x - e, y, a2, b2 ); ref_distort( d, x, y + e, a3, b3 ); ref_distort( d, x, y - e, a4, b4 );
    L J00 = ( a1 - a2 ) / ( 2 * e ), J10 = ( b1 - b2 ) / ( 2 * e ), J01 = ( a3 - a4 ) / ( 2 * e ), J11 = ( b3 - b4 ) / ( 2 * e ), D = J00 * J11 - J01 * J10; if ( fabsl( D ) < 0.2L ) { return false; }
    L u = a - X, v = b - Y; x -= ( J11 * u - J01 * v ) / D; y -= ( -J10 * u + J00 * v ) / D;
  }
  return fabsl( x - px ) < 1e-11L && fabsl( y - py ) < 1e-11L;
}
static double const coef[8] = { -0.2, 0.05, 0.02, -0.03, 0.02, 0.1, -0.03, 0.01 };
bool close2( V2 const& a, V2 const& b, double tol ) { return ( a - b ).norm() <= tol * ( 1 + b.norm() ); }

struct plain_intrinsics : camera_intrinsics   // relies on the base class for everything else
{
  double f, a, s; V2 p; vector< double > d;
  camera_intrinsics_sptr clone() const { return camera_intrinsics_sptr( new plain_intrinsics( *this ) ); }
  double focal_length() const { return f; } vector_2d principal_point() const { return p; } double aspect_ratio() const { return a; } double skew() const { return s; } vector< double > dist_coeffs() const { return d; }
};
struct plain_camera : camera
{
  V3 c; rotation_d R; camera_intrinsics_sptr k; covariance_3d cov;
  camera_sptr clone() const { return camera_sptr( new plain_camera( *this ) ); } vector_3d center() const { return c; } vector_3d translation() const { return -( M3( R ) * c ); } covariance_3d center_covar() const { return cov; } rotation_d rotation() const { return R; } camera_intrinsics_sptr intrinsics() const { return k; }
};
}

SCENARIO( c14_intrinsics, 3 )
{
  int n = r.choose( 9 ), mask = r.choose( 1 << n ); vector< double > d; double mag = r.flip() ? 1 : -0.5; for ( int i = 0; i < n; ++i ) { d.push_back( mask >> i & 1 ? coef[i] * mag : 0 ); }
  VX dv( n ); for ( int i = 0; i < n; ++i ) { dv[i] = d[i]; } string w = "d"; for ( double x : d ) { w += " " + str( x ); } r.log( w ); r.state( w );
  static double const fs[] = { 1, 1000.5 }, as[] = { 1, 0.75, 2 }, ss[] = { 0, 3.5 }; static V2 const pps[] = { V2( 0, 0 ), V2( 320, -240 ) };
  for ( double f : fs ) { for ( double a : as ) { for ( double s : ss ) { for ( V2 const& pp : pps )
  {
    simple_camera_intrinsics k( f, pp, a, s, dv ), k2; k2.set_focal_length( f ); k2.set_principal_point( pp ); k2.set_aspect_ratio( a ); k2.set_skew( s ); k2.set_dist_coeffs( dv ); plain_intrinsics pl; pl.f = f; pl.a = a; pl.s = s; pl.p = pp; pl.d = d;
    M3 K; K << f, s, pp[0], 0, f / a, pp[1], 0, 0, 1; simple_camera_intrinsics k3( K, dv ), k4( pl ); camera_intrinsics_sptr k5 = k.clone();
    camera_intrinsics const* all[] = { &k, &k2, &k3, &k4, k5.get(), &pl };
    for ( auto q : all ) { bool ok = std::fabs( q->focal_length() - f ) < 1e-9 && ( q->principal_point() - pp ).norm() < 1e-9 && std::fabs( q->aspect_ratio() - a ) < 1e-9 && std::fabs( q->skew() - s ) < 1e-9 && q->dist_coeffs() == d && ( q->as_matrix() - K ).norm() < 1e-9; r.check( ok, "accessors", "intrinsics K " + str( q->as_matrix() ) + " expected " + str( K ) + " " + w ); }
    r.check( k.get_focal_length() == f && k.get_principal_point() == pp && k.get_aspect_ratio() == a && k.get_skew() == s && k.get_dist_coeffs() == dv, "accessors", "get_ accessors " + w );
    for ( int i = -3; i <= 3; ++i ) { for ( int j = -3; j <= 3; ++j )
    {
      V2 p( i * 0.15, j * 0.15 + 0.01 ); L ox, oy; ref_distort( d, p[0], p[1], ox, oy ); V2 want( (double) ox, (double) oy ); r.step( 4 ); r.count();
      V2 g = k.distort( p ); if ( ! close2( g, want, 1e-12 ) ) { r.fail( "distort", "distort " + str( p.transpose() ) + " gave " + str( g.transpose() ) + " expected " + str( want.transpose() ) + " " + w ); }
      V2 px( want[0] * f + want[1] * s + pp[0], want[1] * f / a + pp[1] ), pu( p[0] * f + p[1] * s + pp[0], p[1] * f / a + pp[1] );
      for ( auto q : all ) { V2 e = q == &pl ? pu : px; if ( ! close2( q->map( p ), e, 1e-11 ) || ! close2( q->map( V3( p[0] * 2.5, p[1] * 2.5, 2.5 ) ), e, 1e-11 ) ) { r.fail( "map", "map " + str( p.transpose() ) + " gave " + str( q->map( p ).transpose() ) + " expected " + str( e.transpose() ) + " " + w ); } }
      if ( ! close2( pl.unmap( pu ), p, 1e-10 ) || pl.distort( p ) != p || pl.undistort( p ) != p ) { r.fail( "unmap", "unmap without distortion " + str( p.transpose() ) ); }
      if ( f == fs[0] && a == as[0] && s == ss[0] && ! moderate( d, ox, oy, p[0], p[1] ) ) { r.outcome( "strong distortion" ); continue; }
      if ( ! moderate( d, ox, oy, p[0], p[1] ) ) { continue; }
      V2 u = k.undistort( want ); if ( ! close2( u, p, 1e-9 ) ) { r.fail( "undistort", "undistort of " + str( want.transpose() ) + " gave " + str( u.transpose() ) + " expected " + str( p.transpose() ) + " " + w ); }
      V2 um = k.unmap( px ); if ( ! close2( um, p, 1e-9 ) ) { r.fail( "unmap", "unmap of " + str( px.transpose() ) + " gave " + str( um.transpose() ) + " expected " + str( p.transpose() ) + " " + w ); }
    } }
  } } } }
}

SCENARIO( c14_projection, 3 )
{
  quiet(); V3 ax = r.pick( axes() ); double wv = r.pick( angles ); static V3 const cs[] = { V3( 0, 0, 0 ), V3( 3, -4, 5.5 ), V3( -1000, 0.001, 20 ) }; V3 c = cs[r.choose( 3 )];
  int di = r.choose( 4 ); vector< double > d; if ( di == 1 ) { d = { -0.1 }; } if ( di == 2 ) { d = { .1, -.02, .01, .02 }; } if ( di == 3 ) { d.assign( coef, coef + 8 ); } VX dv( d.size() ); for ( size_t i = 0; i < d.size(); ++i ) { dv[i] = d[i]; }
  bool sk = r.flip(); double f = 500, a = sk ? 1.5 : 1, s = sk ? 2 : 0; V2 pp( 100, 50 ); camera_intrinsics_sptr k( new simple_camera_intrinsics( f, pp, a, s, dv ) ); rotation_d R( wv, ax ); M3 Rm = rot_ref( ax, wv ); string w = "axis " + str( ax.transpose() ) + " angle " + str( wv ) + " center " + str( c.transpose() ); r.log( w ); r.state( w + std::to_string( di * 2 + sk ) );
  covariance_3d cov( 2.5 ); simple_camera cam( c, R, k ); cam.set_center_covar( cov ); plain_camera pl; pl.c = c; pl.R = R; pl.k = k; pl.cov = cov;
  simple_camera cam2; cam2.set_center( c ); cam2.set_rotation( R ); cam2.set_intrinsics( k ); cam2.set_center_covar( cov ); simple_camera cam3( pl ); camera_sptr cam4 = cam.clone(); simple_camera cam5( c, R, *k ); cam5.set_center_covar( cov ); simple_camera cam6; cam6.set_intrinsics( k ); cam6.set_rotation( R ); cam6.set_translation( -( Rm * c ) ); cam6.set_center_covar( cov );
  camera const* all[] = { &cam, &cam2, &cam3, cam4.get(), &cam5, &cam6, &pl }; M3 K; K << f, s, pp[0], 0, f / a, pp[1], 0, 0, 1;
  r.check( cam5.intrinsics() != k && cam.intrinsics() == k, "sharing", "intrinsics passed by pointer are shared, by reference copied" );
  for ( auto q : all )
  {
    double tol = 1e-9 * ( 1 + c.norm() ); r.check( ( q->center() - c ).norm() < tol && ( q->translation() + Rm * c ).norm() < tol && ( M3( q->rotation() ) - Rm ).norm() < 1e-9 && M3( q->center_covar() ) == M3( cov ), "accessors", "camera " + w );
    Eigen::Matrix< double, 3, 4 > P; P.block< 3, 3 >( 0, 0 ) = Rm; P.col( 3 ) = -Rm * c; P = ( K * P ).eval(); r.check( ( q->as_matrix() - P ).norm() < 1e-9 * ( 1 + P.norm() ), "matrix", "as_matrix " + w );
  }
  for ( int x = -1; x <= 1; ++x ) { for ( int y = -1; y <= 1; ++y ) { for ( double z : { 1.0, 30.0, -2.0 } )
  {
    V3 pc( 0.3 * x * z, 0.2 * y * z + 0.05, z ), X = Rm.transpose() * pc + c; r.step( 14 ); r.count(); L ox, oy; ref_distort( d, pc[0] / z, pc[1] / z, ox, oy ); V2 want( (double) ( ox * f + oy * s + pp[0] ), (double) ( oy * f / a + pp[1] ) );
    for ( auto q : all )
    {
      double dep = q->depth( X ); if ( std::fabs( dep - z ) > 1e-9 * ( 1 + c.norm() + std::fabs( z ) ) ) { r.fail( "depth", "depth " + str( dep ) + " expected " + str( z ) + " " + w ); }
      if ( z > 0 && ! close2( q->project( X ), want, 1e-7 ) ) { r.fail( "project", "projected " + str( q->project( X ).transpose() ) + " expected " + str( want.transpose() ) + " " + w ); }
    }
  } } }
  camera_map::map_camera_t mp; mp[3] = cam4; mp[-1] = camera_sptr( new simple_camera( cam6 ) ); simple_camera_map cm( mp ); r.check( cm.size() == 2 && cm.cameras() == mp, "map", "camera map contents" );
}

SCENARIO( c14_look_at, 3 )
{
  quiet(); V3 dir = r.pick( axes() ), up = r.pick( axes() ); static V3 const cs[] = { V3( 0, 0, 0 ), V3( 3, -4, 5.5 ), V3( -1000, 0.001, 20 ) }; V3 c = cs[r.choose( 3 )]; double dist = r.choose( 3 ) ? 7 : 1e-3; double upl = r.flip() ? 0.01 : 5; bool dflt = r.flip(); if ( dflt ) { up = V3( 0, 0, 1 ); upl = 1; }
  V3 z = dir.normalized(), u = up.normalized(); if ( u.cross( z ).norm() < 0.02 ) { r.outcome( "parallel" ); return; }
  simple_camera cam( c, rotation_d( 0.7, V3( 1, 2, 3 ) ) ); V3 stare = c + dist * z; if ( dflt ) { cam.look_at( stare ); } else { cam.look_at( stare, up * upl ); } r.step(); string w = "look from " + str( c.transpose() ) + " to " + str( stare.transpose() ) + " up " + str( up.transpose() ); r.log( w ); r.state( w );
  double tol = 1e-9 + 1e-11 * c.norm() / dist; M3 R = cam.rotation(); r.check( cam.center() == c, "center", w + " moved the camera" ); r.check( ( R * R.transpose() - M3::Identity() ).norm() < 1e-9 && std::fabs( R.determinant() - 1 ) < 1e-9, "rotation", w );
  r.check( ( R * ( stare - c ) - V3( 0, 0, dist ) ).norm() < tol * ( 1 + dist ), "stare", w + ": looks at " + str( ( R.transpose() * V3( 0, 0, 1 ) ).transpose() ) ); V3 ui = R * u; r.check( std::fabs( ui[0] ) < tol * 100 && ui[1] < 0, "up", w + ": up direction maps to " + str( ui.transpose() ) );
}

// ====================================================================== C15
namespace {
template < typename T > struct Tol { static double t() { return 1e-11; } }; template <> struct Tol< float > { static double t() { return 2e-5; } };
template < typename T > M3 mat( rotation_< T > const& q ) { return Eigen::Matrix< T, 3, 3 >( q ).template cast< double >(); }
template < typename T > Eigen::Matrix< T, 3, 1 > cv( V3 const& v ) { return v.cast< T >(); }
template < typename T > void same( mc::Run& r, rotation_< T > const& q, M3 const& R, char const* key, string const& w, double f = 1 ) { double e = ( mat( q ) - R ).norm(); if ( ! ( e < f * Tol< T >::t() ) ) { r.fail( key, string( sizeof( T ) == 4 ? "float " : "double " ) + key + " " + w + ": off by " + str( e ) + " got " + str( mat( q ) ) + " expected " + str( R ) ); } r.step(); }
template < typename T > void representations( mc::Run& r, V3 const& ax, double w, string const& s )
{
  typedef rotation_< T > Q; typedef Eigen::Matrix< T, 3, 1 > V; typedef Eigen::Matrix< T, 3, 3 > M; M3 R = rot_ref( ax, w ); Q q( (T) w, cv< T >( ax ) ); same( r, q, R, "axis-angle", s );
  same( r, Q( Eigen::Quaternion< T >( q.quaternion() ) ), R, "quaternion", s ); same( r, Q( M( R.cast< T >() ) ), R, "matrix", s ); same( r, Q( M( q ) ), R, "matrix", s ); same( r, Q( V( cv< T >( ax.normalized() * w ) ) ), R, "rodrigues-in", s ); same( r, Q( q.rodrigues() ), R, "rodrigues", s );
  same( r, Q( q.angle(), q.axis() ), R, "angle-axis", s ); r.check( std::fabs( q.axis().norm() - 1 ) < Tol< T >::t() && q.angle() <= (T) PI + Tol< T >::t() && q.angle() >= -(T) PI - Tol< T >::t(), "axis-range", s + " axis " + str( q.axis().transpose() ) + " angle " + str( q.angle() ) );
  same( r, q.inverse(), R.transpose(), "inverse", s ); same( r, q * q.inverse(), M3::Identity(), "inverse", s ); same( r, Q( rotation_d( q ) ), R, "precision", s ); same( r, Q( rotation_f( q ) ), R, "precision", s, sizeof( T ) == 4 ? 1 : 1e7 );
  T y, p, ro; q.get_yaw_pitch_roll( y, p, ro ); double cp = std::sqrt( std::max( 0.0, 1 - R( 0, 2 ) * R( 0, 2 ) ) ); same( r, Q( y, p, ro ), R, "yaw-pitch-roll", s + " ypr " + str( y ) + " " + str( p ) + " " + str( ro ), 10 / std::max( cp, sizeof( T ) == 4 ? 2e-3 : 1e-6 ) );
  std::stringstream st; st.precision( 17 ); st << q; Q q2; st >> q2; same( r, q2, R, "stream", s ); r.check( q == Q( q ) && ! ( q != Q( q ) ), "equality", s );
  V v( T( 0.5 ), T( -2 ), T( 3 ) ); V g = q * v; r.check( ( g.template cast< double >() - R * V3( 0.5, -2, 3 ) ).norm() < 10 * Tol< T >::t(), "rotate", s );
}
}
SCENARIO( c15_representations, 2 ) { V3 ax = r.pick( axes() ); double w = r.pick( angles ), sc = r.flip() ? 1 : 7.5; string s = "axis " + str( ax.transpose() ) + " angle " + str( w ); r.log( s ); r.state( s ); representations< double >( r, ax * sc, w, s ); representations< float >( r, ax * sc, w, s ); }
namespace {
template < typename T > void ypr( mc::Run& r, double y, double p, double o, string const& s )
{
  // documented: yaw, pitch, roll of a NED to ENU frame
  M3 N = rot_ref( V3( 1, 1, 0 ), PI ), R = rot_ref( V3( 1, 0, 0 ), -o ) * rot_ref( V3( 0, 1, 0 ), -p ) * rot_ref( V3( 0, 0, 1 ), -y ) * N; rotation_< T > q( (T) y, (T) p, (T) o ); same( r, q, R, "from-ypr", s );
  T a, b, c; q.get_yaw_pitch_roll( a, b, c ); double cp = std::fabs( std::cos( p ) ); same( r, rotation_< T >( a, b, c ), R, "yaw-pitch-roll", s + " read as " + str( a ) + " " + str( b ) + " " + str( c ), 10 / std::max( cp, sizeof( T ) == 4 ? 2e-3 : 1e-6 ) );
  if ( cp > 0.1 && std::fabs( p ) < PI / 2 ) { auto an = [] ( double u, double v ) { return std::fabs( std::remainder( u - v, 2 * PI ) ); }; r.check( an( a, y ) < 40 * Tol< T >::t() && an( b, p ) < 40 * Tol< T >::t() && an( c, o ) < 40 * Tol< T >::t(), "ypr-values", s + " read as " + str( a ) + " " + str( b ) + " " + str( c ) ); }
}
}
SCENARIO( c15_ypr, 3 ) { static double const v[] = { 0, 0.4, -1.2, PI / 2, -PI / 2, 3.0, PI, -2.5, PI / 2 - 1e-4, 1e-7 }; double y = v[r.choose( 10 )], p = v[r.choose( 10 )], o = v[r.choose( 10 )]; string s = "ypr " + str( y ) + " " + str( p ) + " " + str( o ); r.log( s ); r.state( s ); ypr< double >( r, y, p, o, s ); ypr< float >( r, y, p, o, s ); }
namespace {
template < typename T > void pairs( mc::Run& r, V3 const& a, double wa, V3 const& b, double wb, string const& s )
{
  rotation_< T > A( (T) wa, cv< T >( a ) ), B( (T) wb, cv< T >( b ) ); M3 MA = rot_ref( a, wa ), MB = rot_ref( b, wb ); same( r, A * B, MA * MB, "compose", s ); same( r, ( A * B ).inverse(), ( MA * MB ).transpose(), "compose-inverse", s );
  double th = angle_between( MA, MB ), tol = 100 * Tol< T >::t(); if ( th > PI - ( sizeof( T ) == 4 ? 1e-2 : 1e-6 ) ) { tol *= 100; }
  for ( double f : { 0.0, 0.25, 0.5, 1.0 } ) { M3 I = mat( interpolate_rotation( A, B, (T) f ) ); double x = angle_between( MA, I ), y = angle_between( I, MB ); if ( ! ( std::fabs( x - f * th ) < tol && std::fabs( y - ( 1 - f ) * th ) < tol ) ) { r.fail( "interpolate", s + " at " + str( f ) + ": angles " + str( x ) + "," + str( y ) + " of " + str( th ) ); } r.step(); }
  for ( size_t n = 0; n < 4; ++n ) { vector< rotation_< T > > v( 1, A ); interpolated_rotations( A, B, n, v ); r.eq( v.size(), n + 1, "interpolated-count", s ); for ( size_t i = 1; i <= n; ++i ) { M3 want = mat( interpolate_rotation( A, B, T( i ) / T( n + 1 ) ) ); double x = angle_between( MA, mat( v[i] ) ); if ( ( mat( v[i] ) - want ).norm() > tol || std::fabs( x - th * i / ( n + 1 ) ) > tol ) { r.fail( "interpolated", s + " element " + std::to_string( i ) + " of " + std::to_string( n ) ); } } r.step(); }
}
}
SCENARIO( c15_pairs, 2 )
{
  int n = (int) axes().size(); V3 a = axes()[r.choose( n )], b = axes()[r.choose( n )]; double wa = r.pick( angles ), wb = r.pick( angles ); string s = "A " + str( a.transpose() ) + "/" + str( wa ) + " B " + str( b.transpose() ) + "/" + str( wb ); r.log( s ); r.state( mc::hash_str( s ) );
  if ( ! r.thorough() && ( mc::hash_str( str( a ) + str( b ) ) + (int) ( wa * 7 ) ) % 4 ) { return; }
  pairs< double >( r, a, wa, b, wb, s ); pairs< float >( r, a, wa, b, wb, s );
}
namespace {
M4 sim_ref( double s, M3 const& R, V3 const& t ) { M4 m = M4::Identity(); m.block< 3, 3 >( 0, 0 ) = s * R; m.block< 3, 1 >( 0, 3 ) = t; return m; }
template < typename T > M4 smat( similarity_< T > const& s ) { return Eigen::Matrix< T, 4, 4 >( s ).template cast< double >(); }
template < typename T > void ssame( mc::Run& r, similarity_< T > const& s, M4 const& m, char const* key, string const& w, double f = 1 ) { double e = ( smat( s ) - m ).norm() / ( 1 + m.norm() ); if ( ! ( e < f * Tol< T >::t() ) ) { r.fail( key, string( sizeof( T ) == 4 ? "float " : "double " ) + key + " " + w + ": got " + str( smat( s ) ) + " expected " + str( m ) ); } r.step(); }
struct SimP { double s; V3 a; double w; V3 t; M4 m() const { return sim_ref( s, rot_ref( a, w ), t ); } template < typename T > similarity_< T > get() const { return similarity_< T >( (T) s, rotation_< T >( (T) w, cv< T >( a ) ), cv< T >( t ) ); } };
template < typename T > void sims( mc::Run& r, SimP const& A, SimP const& B, string const& s )
{
  typedef similarity_< T > S; S a = A.get< T >(), b = B.get< T >(); M4 ma = A.m(), mb = B.m(); ssame( r, a, ma, "similarity-matrix", s ); ssame( r, S( Eigen::Matrix< T, 4, 4 >( ma.cast< T >() ) ), ma, "similarity-from-matrix", s, 4 ); ssame( r, a.inverse(), ma.inverse(), "similarity-inverse", s, 4 ); ssame( r, a * b, ma * mb, "similarity-compose", s, 4 ); ssame( r, a * a.inverse(), M4::Identity(), "similarity-inverse", s, 1000 );
  ssame( r, S( similarity_d( a ) ), ma, "similarity-precision", s ); ssame( r, S( similarity_f( a ) ), ma, "similarity-precision", s, sizeof( T ) == 4 ? 1 : 1e7 ); std::stringstream st; st.precision( 17 ); st << a; S c; st >> c; ssame( r, c, ma, "similarity-stream", s ); r.check( a == S( a ) && ! ( a != S( a ) ), "equality", s );
  for ( V3 v : { V3( 0, 0, 0 ), V3( 1, -2, 3.5 ) } ) { V3 g = ( ( a * b ) * cv< T >( v ) ).template cast< double >(), h = ( a * ( b * cv< T >( v ) ) ).template cast< double >(), want = ( ma * mb * v.homogeneous() ).head< 3 >(); if ( ( g - want ).norm() > 100 * Tol< T >::t() * ( 1 + want.norm() ) || ( h - want ).norm() > 100 * Tol< T >::t() * ( 1 + want.norm() ) ) { r.fail( "similarity-apply", s ); } }
}
}
SCENARIO( c15_similarity, 3 )
{
  quiet(); static V3 const as[] = { V3( 0, 0, 1 ), V3( 1, 0, 0 ), V3( 1, -2, 3 ), V3( -1, 1, 0 ) }; static double const ws[] = { 0, 0.9, -PI / 2, PI }; static V3 const ts[] = { V3( 0, 0, 0 ), V3( 5, -6, 70 ) }; static double const sc[] = { 1, 0.25, 12 }; SimP p[2];
  for ( auto& x : p ) { x.s = sc[r.choose( 3 )]; x.a = as[r.choose( 4 )]; x.w = ws[r.choose( 4 )]; x.t = ts[r.choose( 2 )]; } string s; for ( auto& x : p ) { s += "[" + str( x.s ) + " " + str( x.a.transpose() ) + "/" + str( x.w ) + " " + str( x.t.transpose() ) + "] "; } r.log( s ); r.state( s ); sims< double >( r, p[0], p[1], s ); sims< float >( r, p[0], p[1], s );
}
// matrices that are no similarity are refused: the result is the identity, never unspecified values
SCENARIO( c15_refused, 2 )
{
  quiet(); M4 m = sim_ref( 2, rot_ref( V3( 1, 2, 3 ), 0.8 ), V3( 3, 4, 5 ) ); int k = r.choose( 9 ); static double const bad[] = { 0.5, -1, 1e-3, 7 };
  if ( k < 3 ) { m( 3, k ) = bad[r.choose( 4 )]; } else if ( k == 3 ) { m( 3, 3 ) = bad[r.choose( 4 )]; } else if ( k == 4 ) { m( 3, 3 ) = 0; } else if ( k == 5 ) { m.block< 3, 3 >( 0, 0 ) *= -1; } else if ( k == 6 ) { m.row( r.choose( 3 ) ).head< 3 >().setZero(); } else if ( k == 7 ) { m.col( r.choose( 3 ) ) *= -1; m( 3, 3 ) = 1; } else { m.block< 3, 3 >( 0, 0 ).setZero(); }
  string s = str( m ); r.log( s ); r.state( s ); { void* junk = ::operator new( sizeof( similarity_d ) ); memset( junk, 0x5a, sizeof( similarity_d ) ); similarity_d* p = new ( junk ) similarity_d( m ); M4 g = smat( *p ); p->~similarity_d(); ::operator delete( junk ); r.check( ( g - M4::Identity() ).norm() < 1e-12, "not-refused", "similarity from " + s + " is " + str( g ) ); } r.step();
  { void* junk = ::operator new( sizeof( similarity_f ) ); memset( junk, 0x5a, sizeof( similarity_f ) ); similarity_f* p = new ( junk ) similarity_f( Eigen::Matrix4f( m.cast< float >() ) ); M4 g = smat( *p ); p->~similarity_f(); ::operator delete( junk ); r.check( ( g - M4::Identity() ).norm() < 1e-5, "not-refused", "float similarity from " + s + " is " + str( g ) ); }
}

// ====================================================================== C16
namespace {
M3 grid( mc::Run& r, int lo, int hi, int first )
{ M3 m; for ( int i = 0; i < 9; ++i ) { m( i / 3, i % 3 ) = lo + r.choose( hi - lo + 1 ); } (void) first; return m; }
long idet( M3 const& m ) { return lround( m( 0, 0 ) * ( m( 1, 1 ) * m( 2, 2 ) - m( 1, 2 ) * m( 2, 1 ) ) - m( 0, 1 ) * ( m( 1, 0 ) * m( 2, 2 ) - m( 1, 2 ) * m( 2, 0 ) ) + m( 0, 2 ) * ( m( 1, 0 ) * m( 2, 1 ) - m( 1, 1 ) * m( 2, 0 ) ) ); }
template < typename T > void homog( mc::Run& r, M3 const& m, string const& s )
{
  typedef homography_< T > H; double tol = Tol< T >::t(); H h( Eigen::Matrix< T, 3, 3 >( m.cast< T >() ) ); homography const& b = h; r.check( h.matrix() == m && h.get_matrix().template cast< double >() == m && b.clone()->matrix() == m && H( b ).matrix() == m && H( h ).matrix() == m, "homography-copy", s );
  long det = idet( m ); try { homography_sptr i = b.inverse(); if ( det == 0 ) { r.fail( "singular-inverted", s + " was inverted" ); } M3 I = i->matrix() * m; r.check( ( I - M3::Identity() ).norm() < 100 * tol, "homography-inverse", s + " times its inverse is " + str( I ) ); } catch ( non_invertible_matrix const& ) { if ( det != 0 ) { r.fail( "homography-inverse", s + " was not inverted" ); } }
  M3 n = m; if ( m( 2, 2 ) != 0 ) { n /= m( 2, 2 ); } r.check( ( b.normalize()->matrix() - n ).norm() < tol && h.matrix() == m, "normalize", s ); r.step( 3 );
  for ( V2 p : { V2( 0, 0 ), V2( 1, 2 ), V2( -3, 0.5 ) } )
  {
    V3 q = m * p.homogeneous();
    for ( int k = 0; k < 2; ++k ) { try { V2 g; if ( k ) { g = h.map_point( p.cast< T >() ).template cast< double >(); } else { g = b.map( p ); } if ( q[2] == 0 ) { r.fail( "infinity", s + " maps " + str( p.transpose() ) + " to " + str( g.transpose() ) + ", expected refusal" ); } V2 want( q[0] / q[2], q[1] / q[2] ); if ( ( g - want ).norm() > tol * ( 1 + want.norm() ) ) { r.fail( "homography-map", s + " maps " + str( p.transpose() ) + " to " + str( g.transpose() ) + " expected " + str( want.transpose() ) ); } } catch ( point_maps_to_infinity const& ) { if ( q[2] != 0 ) { r.fail( "homography-map", s + " refuses " + str( p.transpose() ) ); } } }
    r.step( 2 );
  }
  std::stringstream o, o2; o << h; o2 << b; Eigen::Matrix< T, 3, 3 > t1; M3 t2; o >> t1; o2 >> t2; r.check( t1.template cast< double >() == m && t2 == m, "homography-text", s + " printed as " + mc::show( o.str() ) );
  static M3 const others[] = { ( M3() << 1, 0, 3, 0, 1, -2, 0, 0, 1 ).finished(), ( M3() << 0, 2, 1, -1, 1, 0, 1, 0, 2 ).finished() }; for ( M3 const& x : others ) { H y( Eigen::Matrix< T, 3, 3 >( x.cast< T >() ) ); r.check( ( h * y ).matrix() == m * x && ( y * h ).matrix() == x * m, "homography-compose", s ); r.step( 2 ); }
}
template < typename T > void epipolar( mc::Run& r, M3 const& m, string const& s )
{
  double tol = 100 * Tol< T >::t(); Eigen::JacobiSVD< M3 > svd( m, Eigen::ComputeFullU | Eigen::ComputeFullV ); V3 S = svd.singularValues(); if ( S[0] < 0.1 ) { return; }
  auto upto = [] ( M3 const& a, M3 const& b ) { M3 x = a / a.norm(), y = b / b.norm(); return std::min( ( x - y ).norm(), ( x + y ).norm() ); };
  fundamental_matrix_< T > F( Eigen::Matrix< T, 3, 3 >( m.cast< T >() ) ); M3 f = F.matrix(); r.step(); if ( S[1] - S[2] > 0.05 ) { M3 want = svd.matrixU() * V3( S[0], S[1], 0 ).asDiagonal() * svd.matrixV().transpose(); if ( ! ( upto( f, want ) < tol ) ) { r.fail( "rank-two", "fundamental matrix of " + s + " is " + str( f ) + " expected multiple of " + str( want ) ); } }
  r.check( std::fabs( f.determinant() ) < tol * std::pow( f.norm(), 3 ) && f.norm() > 0.1, "rank-two", "fundamental matrix of " + s + " has full rank: " + str( f ) ); r.check( F.clone()->matrix() == f && fundamental_matrix_< T >( static_cast< fundamental_matrix const& >( F ) ).matrix() == f && fundamental_matrix_< T >( F ).matrix() == f, "copy", s ); std::stringstream o; o.precision( 17 ); o << F; M3 t; o >> t; r.check( ( t - f ).norm() < 1e-12, "text", s );
  if ( S[1] - S[2] > 0.05 )
  {
    essential_matrix_< T > E( Eigen::Matrix< T, 3, 3 >( m.cast< T >() ) ); M3 want = svd.matrixU() * V3( 1, 1, 0 ).asDiagonal() * svd.matrixV().transpose(), e = E.matrix(); r.step(); if ( ! ( upto( e, want ) < tol ) ) { r.fail( "essential", "essential matrix of " + s + " is " + str( e ) + " expected " + str( want ) ); }
    M3 R = E.rotation(); V3 tr = E.translation(); r.check( ( R * R.transpose() - M3::Identity() ).norm() < tol && std::fabs( R.determinant() - 1 ) < tol && std::fabs( tr.norm() - 1 ) < tol, "essential-parts", s );
  }
}
template < typename T > void essential( mc::Run& r, V3 const& a, double w, V3 const& t, string const& s )
{
  double tol = 10 * Tol< T >::t(); M3 R = rot_ref( a, w ); V3 u = t.normalized(); M3 X; X << 0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0; M3 want = X * R; essential_matrix_< T > E( rotation_< T >( (T) w, cv< T >( a ) ), cv< T >( t ) ); essential_matrix const& b = E;
  essential_matrix_sptr c = b.clone(); essential_matrix_< T > d( b ), g( E ); essential_matrix const* all[] = { &E, c.get(), &d, &g };
  for ( auto q : all )
  {
    r.check( ( q->matrix() - want ).norm() < tol, "essential-matrix", s + " is " + str( q->matrix() ) + " expected " + str( want ) ); r.check( ( M3( q->rotation() ) - R ).norm() < tol && ( q->translation() - u ).norm() < tol, "essential-parts", s ); M3 Tw = q->twisted_rotation(), T2 = q->essential_matrix::twisted_rotation();
    r.check( ( Tw - rot_ref( u, PI ) * R ).norm() < tol && ( T2 - Tw ).norm() < tol, "twisted", s + " twisted rotation " + str( Tw ) ); r.check( ( X * Tw + want ).norm() < tol, "twisted", s + " twisted pair gives another matrix" ); r.step( 4 );
  }
  std::stringstream o, o2; o.precision( 17 ); o << E; o2.precision( 17 ); o2 << b; M3 t1, t2; o >> t1; o2 >> t2; r.check( ( t1 - E.matrix() ).norm() < ( sizeof( T ) == 4 ? 1e-6 : 1e-14 ) && ( t2 - t1 ).norm() < 1e-6, "text", s );
}
}
SCENARIO( c16_homography, 3 ) { M3 m = r.thorough() ? grid( r, -1, 2, 0 ) : grid( r, -1, 1, 0 ); string s = str( m ); r.log( s ); r.state( mc::hash_str( s ) ); homog< double >( r, m, s ); homog< float >( r, m, s ); }
SCENARIO( c16_epipolar, 3 ) { M3 m = r.thorough() ? grid( r, -1, 2, 0 ) : grid( r, -1, 1, 0 ); if ( r.thorough() == 0 ) { m( 2, 2 ) *= 3; m( 0, 1 ) *= 2; } string s = str( m ); r.log( s ); r.state( mc::hash_str( s ) ); epipolar< double >( r, m, s ); epipolar< float >( r, m, s ); }
SCENARIO( c16_essential, 2 ) { V3 a = r.pick( axes() ), t = r.pick( axes() ); double w = r.pick( angles ); t *= r.flip() ? 1 : 20; string s = "R " + str( a.transpose() ) + "/" + str( w ) + " t " + str( t.transpose() ); r.log( s ); r.state( s ); essential< double >( r, a, w, t, s ); essential< float >( r, a, w, t, s ); }
// frame to frame chains
SCENARIO( c16_frames, 2 )
{
  static M3 const hs[] = { ( M3() << 1, 0, 3, 0, 1, -2, 0, 0, 1 ).finished(), ( M3() << 0, 2, 1, -1, 1, 0, 1, 0, 2 ).finished(), ( M3() << 1, 2, 3, 2, 4, 6, 0, 0, 1 ).finished() }; static frame_id_t const ids[] = { 0, 3, 4294967299LL }; int n = r.bound( 4, 5 );
  M3 m = hs[r.choose( 2 )]; int f = r.choose( 3 ), t = r.choose( 3 ); f2f_homography cur = r.flip() ? f2f_homography( m, ids[f], ids[t] ) : f2f_homography( homography_sptr( new homography_< double >( m ) ), ids[f], ids[t] ); string s = std::to_string( f ) + "->" + std::to_string( t );
  for ( int i = 0; i < n; ++i )
  {
    switch ( r.choose( 3 ) )
    {
    case 0: // compose on the right
      {
        int k = r.choose( 3 ), a = r.choose( 3 ), b = r.choose( 3 ); f2f_homography x( hs[k], ids[a], ids[b] ); bool right = r.flip(); bool fits = right ? f == b : a == t; s += right ? " * " : " <* "; s += std::to_string( a ) + "->" + std::to_string( b ) + "#" + std::to_string( k ); f2f_homography before( cur );
        try { f2f_homography y = right ? cur * x : x * cur; if ( ! fits ) { r.fail( "frames", s + ": composed although the frames do not match" ); } m = right ? M3( m * hs[k] ) : M3( hs[k] * m ); if ( right ) { f = a; } else { t = b; } r.check( cur.homography()->matrix() == before.homography()->matrix() && x.homography()->matrix() == hs[k], "operands", s + ": composition changed an operand" ); cur.~f2f_homography(); new ( &cur ) f2f_homography( y ); }
        catch ( invalid_matrix_operation const& ) { if ( fits ) { r.fail( "frames", s + ": refused although the frames match" ); } }
        break;
      }
    case 1: { s += " inv"; long det = idet( m ); double big = m.cwiseAbs().maxCoeff(); if ( big > 1e5 ) { return; } try { f2f_homography y = cur.inverse(); if ( std::fabs( m.determinant() ) < 1e-13 ) { r.fail( "singular-inverted", s ); } (void) det; m = m.inverse().eval(); std::swap( f, t ); cur.~f2f_homography(); new ( &cur ) f2f_homography( y ); } catch ( non_invertible_matrix const& ) { r.check( std::fabs( m.determinant() ) < 1e-8, "homography-inverse", s + " not inverted" ); return; } break; }
    case 2: { f2f_homography y( cur ); r.check( y.homography() != cur.homography(), "copy", s + ": copies share one homography" ); cur.~f2f_homography(); new ( &cur ) f2f_homography( y ); s += " copy"; break; }
    }
    r.step(); r.log( s ); r.check( cur.from_id() == ids[f] && cur.to_id() == ids[t], "frame-ids", s + ": maps " + std::to_string( cur.from_id() ) + " -> " + std::to_string( cur.to_id() ) ); r.check( ( cur.homography()->matrix() - m ).norm() < 1e-8 * ( 1 + m.norm() ), "matrix", s + " is " + str( cur.homography()->matrix() ) + " expected " + str( m ) );
    uint64_t h = mc::hash_str( str( m ) ); h = mc::mix( h, f * 3 + t ); r.state( h ); if ( r.prune( h, n - i - 1 ) ) { return; }
  }
  f2f_homography id( ids[f] ); r.check( id.from_id() == ids[f] && id.to_id() == ids[f] && id.homography()->matrix() == M3::Identity(), "identity", s ); f2w_homography w0( ids[t] ), w1( cur.homography(), ids[t] ), w2( w1 ); r.check( w0.frame_id() == ids[t] && w0.homography()->matrix() == M3::Identity() && w2.frame_id() == ids[t] && w2.homography()->matrix() == cur.homography()->matrix() && w2.homography() != w1.homography() && w1.homography() != cur.homography(), "world", s );
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
