// K06: the hash containers against an ordered model; every element is followed by its address.
#include "mc.h"
#include <kwsys/hash_map.hxx>
#include <kwsys/hash_set.hxx>
#include <forward_list>
#include <list>
#include <sstream>
using std::string; using std::vector; using std::map;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
namespace {
typedef vector< std::pair< int, int > > KV;
int divisor = 0; // 0: the key itself, n: key modulo n (1: everything collides)
struct Hash { size_t operator()( int k ) const { return divisor ? (size_t) ( k % divisor ) : (size_t) k; } };
template < typename C > struct MapAd { typedef typename C::value_type V; static V make( int k, int v ) { return V( k, v ); } static int key( V const& v ) { return v.first; } static int val( V const& v ) { return v.second; } static int const& kref( V const& v ) { return v.first; } };
template < typename C > struct SetAd { typedef typename C::value_type V; static V make( int k, int ) { return k; } static int key( V const& v ) { return v; } static int val( V const& ) { return 0; } static int const& kref( V const& v ) { return v; } };
static int const universe[] = { 0, 1, 5, 11, 55, 2, 3, 4, 6, 7, 8, 9, 10 };
typedef map< void const*, std::pair< int, int > > Snap;
string show( KV v ) { std::sort( v.begin(), v.end() ); string o; for ( auto const& e : v ) { o += std::to_string( e.first ) + ":" + std::to_string( e.second ) + " "; } return o; }
KV contents( Snap const& s ) { KV o; for ( auto const& e : s ) { o.push_back( e.second ); } std::sort( o.begin(), o.end() ); return o; }
template < typename C, typename Ad, bool MULTI > struct Box
{
  C c; Snap snap; Box() : c( 0 ) {}
  vector< void const* > order() const { vector< void const* > o; for ( typename C::const_iterator i = c.begin(); i != c.end(); ++i ) { o.push_back( &*i ); } return o; }
  // survivors keep address and content, `added` are new
  void check( mc::Run& r, Snap const& keep, KV added, string const& w )
  {
    C const& k = c; Snap now; size_t n = 0, cap = keep.size() + added.size() + 5; for ( typename C::const_iterator i = k.begin(); i != k.end(); ++i ) { CK( ++n <= cap, "iteration", w + ": iteration does not end" ); CK( now.insert( std::make_pair( (void const*) &*i, std::make_pair( Ad::key( *i ), Ad::val( *i ) ) ) ).second, "iteration", w + ": an element is visited twice" ); }
    if ( r.pos < r.base ) { snap = now; return; } // checked when this prefix was first executed
    size_t m = 0; for ( auto i = c.begin(); i != c.end(); i++ ) { CK( now.count( &*i ), "iteration", w + ": iterators disagree" ); CK( ++m <= cap, "iteration", w + ": iteration does not end" ); } CK( m == n, "iteration", w + ": iterators disagree" );
    for ( auto const& e : keep ) { auto i = now.find( e.first ); CK( i != now.end(), "lost", w + ": element " + std::to_string( e.second.first ) + " is lost or moved" ); CK( i->second == e.second, "changed", w + ": element " + std::to_string( e.second.first ) + " changed" ); }
    KV fresh; for ( auto const& e : now ) { if ( ! keep.count( e.first ) ) { fresh.push_back( e.second ); } } std::sort( fresh.begin(), fresh.end() ); std::sort( added.begin(), added.end() ); CK( fresh == added, "content", w + ": new elements " + show( fresh ) + "instead of " + show( added ) ); CK( c.size() == now.size() && c.empty() == now.empty(), "size", w + ": size " + std::to_string( c.size() ) + " of " + std::to_string( now.size() ) + " elements" ); snap = now; r.step();
    for ( int key : universe )
    {
      size_t want = 0; for ( auto const& e : snap ) { want += e.second.first == key; } CK( c.count( key ) == want, "count", w + ": count of " + std::to_string( key ) ); auto f = c.find( key ); auto g = k.find( key ); CK( ( f == c.end() ) == ( want == 0 ) && ( g == k.end() ) == ( want == 0 ), "find", w + ": find " + std::to_string( key ) ); if ( want ) { CK( Ad::key( *f ) == key && Ad::key( *g ) == key && snap.count( &*f ) && &*f == &*g, "find", w + ": find " + std::to_string( key ) + " gives another element" ); }
      auto er = c.equal_range( key ); auto cr = k.equal_range( key ); std::set< void const* > a; size_t steps = 0; for ( auto i = er.first; i != er.second && steps <= cap; ++i, ++steps ) { CK( Ad::key( *i ) == key, "equal-range", w + ": range of " + std::to_string( key ) + " contains " + std::to_string( Ad::key( *i ) ) ); a.insert( &*i ); } CK( a.size() == want && steps == want, "equal-range", w + ": range of " + std::to_string( key ) + " has " + std::to_string( steps ) + " elements instead of " + std::to_string( want ) ); steps = 0; for ( auto i = cr.first; i != cr.second && steps <= cap; ++i, ++steps ) { CK( a.count( &*i ), "equal-range", w + ": constant range differs" ); } CK( steps == want, "equal-range", w + ": constant range differs" );
    }
    CK( c.bucket_count() > 0 && c.max_size() >= c.size() && c.max_bucket_count() >= c.bucket_count(), "buckets", w ); size_t sum = 0; for ( size_t i = 0; i < c.bucket_count(); ++i ) { sum += c.elems_in_bucket( i ); } CK( sum == c.size(), "buckets", w + ": sum of the buckets" );
  }
  string state() const { string o = std::to_string( c.bucket_count() ) + ":"; for ( auto i = c.begin(); i != c.end(); ++i ) { o += std::to_string( Ad::key( *i ) ) + ","; } return o; }
};
template < typename C > struct IsMap { static bool const value = false; template < typename F > static void at( C&, int, F ) {} };
template < typename K, typename T, typename H, typename E, typename A > struct IsMap< kwsys::hash_map< K, T, H, E, A > > { static bool const value = true; template < typename F > static void at( kwsys::hash_map< K, T, H, E, A >& c, int k, F f ) { f( c[k] ); } };
// in unique containers inserting an existing key is refused
template < bool MULTI, typename C, typename Ad > struct Put { static void const* one( C& c, int k, int v, bool& fresh, bool resize ) { auto p = resize ? c.insert( Ad::make( k, v ) ) : c.insert_noresize( Ad::make( k, v ) ); fresh = p.second; return &*p.first; } };
template < typename C, typename Ad > struct Put< true, C, Ad > { static void const* one( C& c, int k, int v, bool& fresh, bool resize ) { fresh = true; return &*( resize ? c.insert( Ad::make( k, v ) ) : c.insert_noresize( Ad::make( k, v ) ) ); } };
template < typename C, typename Ad, bool MULTI > void explore( mc::Run& r )
{
  static int const divs[] = { 0, 1, 2, 5 }; divisor = divs[r.choose( 4 )]; int const n = r.bound( 4, 6 ); typedef Box< C, Ad, MULTI > B; B b[2]; string w = "hash " + std::to_string( divisor ); int serial = 0; static int const ks[] = { 0, 1, 5, 11 };
  auto present = [] ( B const& x, int k ) { for ( auto const& e : x.snap ) { if ( e.second.first == k ) { return true; } } return false; };
  for ( int step = 0; step < n; ++step )
  {
    int const s = r.choose( 2 ), op = r.choose( IsMap< C >::value ? 30 : 28 ); B& x = b[s]; B& y = b[1 - s]; w += " " + std::to_string( op ) + ( s ? "b" : "a" ); r.log( w ); Snap keep = x.snap; KV added; auto ord = x.order(); int const v = ++serial; auto V = [&] ( int i ) { return MULTI || ! std::is_same< typename C::value_type, int >::value ? i : 0; }; (void) V;
    auto put = [&] ( int k, bool resize ) { bool fresh = false, had = present( x, k ); void const* p = Put< MULTI, C, Ad >::one( x.c, k, v, fresh, resize ); CK( fresh == ( MULTI || ! had ), "insert", w + ": result of inserting" ); if ( fresh ) { added.push_back( std::make_pair( k, Ad::val( Ad::make( k, v ) ) ) ); } CK( keep.count( p ) == ! fresh, "insert", w + ": the returned element existed before" ); CK( *(int const*) p == k, "insert", w + ": the returned element" ); };
    auto range = [&] ( size_t i, size_t j ) { auto at = [&] ( size_t q ) { auto it = x.c.begin(); while ( q-- ) { ++it; } return it; }; x.c.erase( at( i ), at( j ) ); for ( size_t q = i; q < j; ++q ) { keep.erase( ord[q] ); } };
    auto many = [&] ( vector< int > k ) { for ( int q : k ) { bool dup = false; for ( auto const& e : added ) { dup = dup || e.first == q; } if ( MULTI || ( ! present( x, q ) && ! dup ) ) { added.push_back( std::make_pair( q, Ad::val( Ad::make( q, v ) ) ) ); } } vector< typename C::value_type > o; for ( int q : k ) { o.push_back( Ad::make( q, v ) ); } return o; };
    size_t const z = ord.size();
    switch ( op )
    {
    case 0: case 1: case 2: case 3: put( ks[op], true ); break;
    case 4: case 5: put( ks[op - 3], false ); break;
    case 6: { auto o = many( vector< int >{ 0, 1, 2, 3, 4, 5, 6 } ); x.c.insert( o.begin(), o.end() ); } break;
    case 7: { auto o = many( vector< int >{ 11, 0, 11 } ); std::list< typename C::value_type > l( o.begin(), o.end() ); x.c.insert( l.begin(), l.end() ); } break;
    case 8: case 9: case 10: case 11: { int const k = ks[op - 8]; size_t gone = 0; for ( auto i = keep.begin(); i != keep.end(); ) { if ( i->second.first == k ) { i = keep.erase( i ); ++gone; } else { ++i; } } size_t const g = x.c.erase( k ); CK( g == gone, "erase", w + ": erased " + std::to_string( g ) + " instead of " + std::to_string( gone ) ); } break;
    case 12: case 13: case 14: if ( z ) { size_t const p = op == 12 ? 0 : op == 13 ? z - 1 : z / 2; auto it = x.c.begin(); for ( size_t q = 0; q < p; ++q ) { ++it; } x.c.erase( it ); keep.erase( ord[p] ); } break;
    case 15: case 16: if ( z ) { size_t const p = op == 15 ? z - 1 : z / 2; auto it = x.c.begin(); for ( size_t q = 0; q < p; ++q ) { ++it; } int const k = Ad::key( *it ); size_t gone = 0; for ( auto i = keep.begin(); i != keep.end(); ) { if ( i->second.first == k ) { i = keep.erase( i ); ++gone; } else { ++i; } } CK( x.c.erase( Ad::kref( *it ) ) == gone, "erase", w + ": erase through a reference to an element" ); } break;
    case 17: range( 0, z ); break; case 18: if ( z > 1 ) { range( 1, z ); } break; case 19: if ( z > 1 ) { range( 0, z - 1 ); } break; case 20: if ( z > 2 ) { range( 1, z - 1 ); } break; case 21: range( z / 2, z / 2 ); break;
    case 22: x.c.resize( 20 ); CK( x.c.bucket_count() >= 20, "resize", w ); break;
    case 23: x.c.clear(); keep.clear(); break;
    case 24: x.c = y.c; keep.clear(); added = contents( y.snap ); break;
    case 25: { C copy( x.c ); CK( copy == x.c && ! ( copy != x.c ), "equal", w + ": a copy differs" ); x.c.clear(); y.c.swap( copy ); Snap none; y.check( r, none, contents( x.snap ), w + " (copy)" ); keep.clear(); } break;
    case 26: swap( x.c, y.c ); { Snap ys = x.snap; keep = y.snap; y.check( r, ys, KV(), w + " (swapped)" ); } break;
    case 27: { C& same = x.c; x.c = same; } break;
    case 28: case 29: IsMap< C >::at( x.c, ks[op - 27], [&] ( int& q ) { int const k = ks[op - 27]; bool const had = present( x, k ); CK( had || q == 0, "subscript", w + ": a new value is " + std::to_string( q ) ); q = v; if ( ! had ) { added.push_back( std::make_pair( k, v ) ); } else { for ( auto& e : keep ) { if ( e.second.first == k ) { e.second.second = v; } } } } ); break;
    }
    x.check( r, keep, added, w ); { Snap ys = y.snap; y.check( r, ys, KV(), w + " (other)" ); } CK( ( x.c != y.c ) == ! ( x.c == y.c ), "equal", w ); if ( contents( x.snap ) != contents( y.snap ) ) { CK( x.c != y.c, "equal", w + ": different containers are equal" ); } CK( x.c == x.c, "equal", w );
    string st = std::to_string( divisor ) + x.state() + "|" + y.state(); if ( s ) { st = std::to_string( divisor ) + y.state() + "|" + x.state(); } r.state( st ); if ( r.prune( mc::hash_str( st ), n - step - 1 ) ) { return; }
  }
}
}
#define K kwsys
SCENARIO( k06_map, 3 ) { typedef K::hash_map< int, int, Hash > C; explore< C, MapAd< C >, false >( r ); }
SCENARIO( k06_multimap, 3 ) { typedef K::hash_multimap< int, int, Hash > C; explore< C, MapAd< C >, true >( r ); }
SCENARIO( k06_set, 3 ) { typedef K::hash_set< int, Hash > C; explore< C, SetAd< C >, false >( r ); }
SCENARIO( k06_multiset, 3 ) { typedef K::hash_multiset< int, Hash > C; explore< C, SetAd< C >, true >( r ); }
// growth through many sizes, all constructors, standard hash functions
SCENARIO( k06_growth, 2 )
{
  int const start = r.choose( 4 ), total = r.choose( r.bound( 120, 900 ) ), kind = r.choose( 3 ); static size_t const sizes[] = { 0, 1, 6, 100 }; r.log( "start " + std::to_string( sizes[start] ) + " elements " + std::to_string( total ) ); r.state( mc::mix( start, mc::mix( total, kind ) ) ); auto key = [&] ( int i ) { return kind == 0 ? i : kind == 1 ? i * 55 : -i; };
  K::hash_map< int, int > m( sizes[start] ); K::hash_set< std::string > s( sizes[start] ); K::hash_multimap< unsigned long, string > mm( sizes[start] ); vector< std::pair< int const, int > > init; for ( int i = 0; i < total; ++i ) { m[key( i )] = i; s.insert( "k" + std::to_string( key( i ) ) ); mm.insert( std::make_pair( (unsigned long) key( i / 2 ), std::to_string( i ) ) ); init.push_back( std::make_pair( key( i ), i ) ); r.step(); }
  CK( (int) m.size() == total && (int) s.size() == total && (int) mm.size() == total, "size", "size after growth" ); for ( int i = 0; i < total; ++i ) { auto f = m.find( key( i ) ); CK( f != m.end() && f->second == i && s.count( "k" + std::to_string( key( i ) ) ) == 1 && s.count( "k" ) == 0, "find", "element " + std::to_string( i ) ); size_t c = mm.count( (unsigned long) key( i / 2 ) ); CK( c == ( ( i | 1 ) < total ? 2u : 1u ), "count", "element " + std::to_string( i ) ); }
  K::hash_map< int, int > a( init.begin(), init.end() ), b( init.begin(), init.end(), 3 ), c( m ), d; d = m; K::hash_map< int, int > e( 7, a.hash_funct() ), f( init.begin(), init.end(), 50, a.hash_funct(), a.key_eq() ); e.insert( init.begin(), init.end() ); for ( auto* q : { &a, &b, &c, &d, &e, &f } ) { CK( (int) q->size() == total, "copy", "size of a copy" ); for ( int i = 0; i < total; ++i ) { auto it = q->find( key( i ) ); CK( it != q->end() && it->second == i, "copy", "element of a copy" ); } }
  CK( c == m && d == m, "equal", "copies differ" ); for ( int i = 0; i < total; i += 2 ) { CK( m.erase( key( i ) ) == 1, "erase", "element" ); } CK( (int) m.size() == total / 2 && (int) c.size() == total, "erase", "size" ); size_t n = 0; for ( auto const& q : m ) { CK( q.second % 2 == 1, "erase", "an erased element is left" ); ++n; } CK( (int) n == total / 2, "iteration", "elements" );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
