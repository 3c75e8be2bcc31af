// C13: timestamps.
#include "mc.h"
#include <vital/types/timestamp.h>
using namespace kwiver::vital;
using std::string; using std::vector;
namespace {
struct M { bool ht = false, hf = false; int64_t t = 0, f = 0; int d = 0; };
string show( M const& m ) { return "(" + ( m.ht ? std::to_string( m.t ) : "-" ) + "," + ( m.hf ? std::to_string( m.f ) : "-" ) + ",dom " + std::to_string( m.d ) + ")"; }
static int64_t const BIG = 9223372036854775807LL;
vector< int64_t > const times = { 0, 1, -1, 1000000, 4294967296LL, BIG, -BIG - 1 };
vector< int64_t > const frames = { 0, 1, -1, 2, 4294967297LL, BIG, -BIG - 1 };
vector< int > const doms = { 0, 1, -1 };
timestamp make( M const& m ) { timestamp t; if ( m.ht ) { t.set_time_usec( m.t ); } if ( m.hf ) { t.set_frame( m.f ); } t.set_time_domain_index( m.d ); return t; }
// -2 not comparable, else sign
int cmp( M const& a, M const& b ) { if ( a.d != b.d ) { return -2; } if ( a.ht && b.ht ) { return a.t < b.t ? -1 : a.t > b.t; } if ( a.hf && b.hf ) { return a.f < b.f ? -1 : a.f > b.f; } return -2; }
void relations( mc::Run& r, timestamp const& x, timestamp const& y, M const& a, M const& b )
{
  int c = cmp( a, b ); string w = show( a ) + " vs " + show( b ); r.step( 4 );
  if ( ( x < y ) != ( c == -1 ) ) { r.fail( "less", w + " <" ); } if ( ( x > y ) != ( c == 1 ) ) { r.fail( "greater", w + " >" ); }
  if ( ( x == y ) != ( c == 0 ) ) { r.fail( "equal", w + " ==" ); } if ( ( x != y ) != ( c == 1 || c == -1 ) ) { r.fail( "unequal", w + " !=" ); }
}
void fields( mc::Run& r, timestamp const& x, M const& m, string const& w )
{
  r.check( x.has_valid_time() == m.ht && x.has_valid_frame() == m.hf && x.is_valid() == ( m.ht && m.hf ), "validity", w + ": flags of " + show( m ) ); r.eq( x.get_time_domain_index(), m.d, "domain", w );
  if ( m.ht ) { r.eq( (int64_t) x.get_time_usec(), m.t, "time", w ); } if ( m.hf ) { r.eq( (int64_t) x.get_frame(), m.f, "frame", w ); }
}
}
SCENARIO( c13_pairs, 3 )
{
  auto gen = [&] () { M m; int i = r.choose( (int) times.size() + 1 ); if ( i ) { m.ht = true; m.t = times[i - 1]; } i = r.choose( (int) frames.size() + 1 ); if ( i ) { m.hf = true; m.f = frames[i - 1]; } m.d = r.pick( doms ); return m; };
  M a = gen(), b = gen(); timestamp x = make( a ), y = make( b ); fields( r, x, a, "constructed" ); relations( r, x, y, a, b ); relations( r, y, x, b, a ); relations( r, x, x, a, a );
  timestamp z( x ); fields( r, z, a, "copied" ); relations( r, z, y, a, b ); if ( a.ht && a.hf && a.d == 0 ) { timestamp w( a.t, a.f ); fields( r, w, a, "constructor" ); relations( r, w, y, a, b ); }
  r.log( show( a ) + " " + show( b ) ); r.state( show( a ) + show( b ) );
}
// direct laws on triples of fully specified timestamps of one domain
SCENARIO( c13_triples, 3 )
{
  timestamp v[3]; string s; int d = r.pick( doms ); for ( auto& t : v ) { int64_t a = r.pick( times ), f = frames[r.choose( 4 )]; t = timestamp( a, f ); t.set_time_domain_index( d ); s += std::to_string( a ) + "/" + std::to_string( f ) + " "; }
  r.check( ( v[0] < v[1] ) + ( v[0] > v[1] ) + ( v[0] == v[1] ) == 1, "trichotomy", s ); r.check( ( v[0] < v[1] ) == ( v[1] > v[0] ) && ( v[0] == v[1] ) == ( v[1] == v[0] ) && ( v[0] != v[1] ) == ! ( v[0] == v[1] ), "symmetry", s );
  r.check( ! ( v[0] < v[1] && v[1] < v[2] ) || v[0] < v[2], "transitivity", s ); r.check( ! ( v[0] == v[1] && v[1] == v[2] ) || v[0] == v[2], "transitivity", s ); r.step( 8 ); r.state( s ); r.log( s );
}
SCENARIO( c13_histories, 3 )
{
  timestamp t[2]; M m[2]; int n = r.bound( 4, 5 ); string path;
  for ( int i = 0; i < n; ++i )
  {
    int a = r.choose( 2 ); string w;
    switch ( r.choose( 7 ) )
    {
    case 0: { int64_t x = times[r.choose( 3 )]; t[a].set_time_usec( x ); m[a].ht = true; m[a].t = x; w = "usec"; break; }
    case 1: { int x = r.choose( 2 ); t[a].set_time_seconds( x ? 2.5 : -1.0 ); m[a].ht = true; m[a].t = x ? 2500000 : -1000000; w = "sec"; break; }
    case 2: { int64_t x = frames[r.choose( 3 )]; t[a].set_frame( x ); m[a].hf = true; m[a].f = x; w = "frame"; break; }
    case 3: { t[a].set_invalid(); m[a].ht = m[a].hf = false; w = "invalid"; break; }
    case 4: { int d = r.choose( 2 ); t[a].set_time_domain_index( d ); m[a].d = d; w = "domain"; break; }
    case 5: { t[a] = t[1 - a]; m[a] = m[1 - a]; w = "assign"; break; }
    case 6: { t[a] = timestamp(); m[a] = M(); w = "new"; break; }
    }
    r.log( w + " " + show( m[0] ) + show( m[1] ) ); r.step(); for ( int k = 0; k < 2; ++k ) { fields( r, t[k], m[k], w ); relations( r, t[k], t[1 - k], m[k], m[1 - k] ); string p = t[k].pretty_print(); r.check( ! p.empty() && ( p.find( "<inv>" ) == string::npos ) == ( m[k].ht && m[k].hf ), "print", w + ": " + p + " for " + show( m[k] ) ); }
    string st = show( m[0] ) + show( m[1] ); r.state( st );   // stale values behind cleared flags belong to the state
    if ( r.prune( mc::hash_str( st + std::to_string( m[0].t ) + "," + std::to_string( m[0].f ) + "," + std::to_string( m[1].t ) + "," + std::to_string( m[1].f ) ), n - i - 1 ) ) { return; }
  }
}
// seconds <-> microseconds over a fine grid (|t| < 142 years, where a double can hold a microsecond)
SCENARIO( c13_seconds, 1 )
{
  int hi = r.choose( 400 ); static int64_t const bases[] = { 0, 1000000, 1234567890123456LL, 86400000000LL, 999999999999LL, 4294967296LL, 1LL << 40, 1LL << 50, ( 1LL << 52 ) - 2000, 1447953600000000LL };
  int64_t base = bases[hi % 10]; int64_t stride = 1 + ( hi / 10 ) % 40 * 7;
  for ( int64_t k = -300; k <= 300; ++k ) { for ( int s = -1; s <= 1; s += 2 )
  {
    int64_t u = s * ( base + k * stride ); timestamp t; t.set_time_usec( u ); long double e = ( (long double) t.get_time_seconds() - (long double) u / 1000000.0L ) * 1000000.0L; r.step( 2 ); r.count();
    if ( fabsl( e ) >= 1 ) { r.fail( "seconds", "usec " + std::to_string( u ) + " reads as seconds off by " + std::to_string( (double) e ) + " usec" ); }
    double sec = (double) ( (long double) u / 1000000.0L ) + ( k & 1 ? 2.5e-7 : 0 ); timestamp q; q.set_time_seconds( sec ); long double d = (long double) q.get_time_usec() - (long double) sec * 1000000.0L;
    if ( fabsl( d ) >= 1 || ! q.has_valid_time() || q.has_valid_frame() ) { std::ostringstream o; o.precision( 17 ); o << "seconds " << sec << " stored as " << q.get_time_usec(); r.fail( "usec", o.str() ); }
    r.state( (uint64_t) u );
  } }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
