// C18: algorithm registry and nested algorithm configuration.
#include "child.h"
#include <vital/algo/algorithm.txx>
#include <vital/config/config_block.h>
#include <vital/logger/kwiver_logger.h>
using namespace kwiver::vital;
using std::string; using std::vector; using std::map; using std::shared_ptr;
namespace {
// two interfaces with overlapping implementation names; one interface name is a prefix of the other
struct I : algorithm_def< I > { static string static_type_name() { return "outer"; } virtual int x() const = 0; virtual void x( int ) = 0; };
struct J : algorithm_def< J > { static string static_type_name() { return "outer_inner"; } virtual int x() const = 0; virtual void x( int ) = 0; };
template < typename B > struct Impl : B
{
  string name, desc; int v; Impl( string n, int i, string d = "" ) : name( n ), desc( d ), v( i ) {}
  string impl_name() const { return name; } string description() const { return desc; }
  algorithm_sptr base_clone() const { return algorithm_sptr( new Impl( *this ) ); } shared_ptr< B > clone() const { return shared_ptr< B >( new Impl( *this ) ); }
  int x() const { return v; } void x( int i ) { v = i; }
  config_block_sptr get_configuration() const { config_block_sptr c = algorithm::get_configuration(); c->set_value( "x", v, "a number" ); return c; }
  void set_configuration( config_block_sptr in ) { config_block_sptr c = this->get_configuration(); c->merge_config( in ); v = c->template get_value< int >( "x" ); }
  bool check_configuration( config_block_sptr c ) const { return c->template get_value< int >( "x", 0 ) >= 0; }
};
// an implementation of I that nests a J
struct Nest : I
{
  shared_ptr< J > inner; int v = 5;
  string impl_name() const { return "nest"; } string description() const { return "nests"; } algorithm_sptr base_clone() const { return clone(); } shared_ptr< I > clone() const { Nest* n = new Nest( *this ); if ( inner ) { n->inner = inner->clone(); } return shared_ptr< I >( n ); }
  int x() const { return v; } void x( int i ) { v = i; }
  config_block_sptr get_configuration() const { config_block_sptr c = I::get_configuration(); c->set_value( "x", v ); J::get_nested_algo_configuration( "sub", c, inner ); return c; }
  void set_configuration( config_block_sptr in ) { config_block_sptr c = this->get_configuration(); c->merge_config( in ); v = c->get_value< int >( "x" ); J::set_nested_algo_configuration( "sub", c, inner ); }
  bool check_configuration( config_block_sptr c ) const { return c->get_value< int >( "x", 0 ) >= 0 && J::check_nested_algo_configuration( "sub", c ); }
};
typedef map< string, int > MM; // name -> value
string join( vector< string > const& v ) { string o; for ( auto const& s : v ) { o += "[" + s + "]"; } return o; }
template < typename B > void compare_iface( mc::Run& r, MM const& m, string const& w )
{
  vector< string > want; for ( auto const& e : m ) { want.push_back( e.first ); } string tn = B::static_type_name(); vector< string > a = B::registered_names(), b = algorithm::registered_names( tn ); std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() ); r.step( 4 );
  r.eqs( join( a ), join( want ), "names", w + " names of " + tn ); r.eqs( join( b ), join( want ), "names-by-type", w + " names of " + tn ); r.check( algorithm::has_type_name( tn ) == ! want.empty(), "has-type", w + " has_type_name " + tn );
  for ( string n : { "a", "b", "a:b", "c", "", "A", "outer:a" } )
  {
    bool in = m.count( n ) > 0; r.step( 6 ); r.check( B::has_impl_name( n ) == in && algorithm::has_impl_name( tn, n ) == in, "has-impl", w + " has_impl_name " + tn + " " + n ); shared_ptr< B > p = B::create( n ), p2 = B::create( n ); algorithm_sptr q = algorithm::create( tn, n );
    r.check( !! p == in && !! q == in, "create", w + " create " + tn + " " + n ); r.check( registrar::instance().is_registered< B >( n ) == in && registrar::instance().is_registered< algorithm >( tn + ":" + n ) == in, "is-registered", w + " " + n );
    if ( ! in ) { r.check( ! registrar::instance().find< B >( n ), "find", w + " found unknown " + n ); continue; }
    shared_ptr< B > reg = registrar::instance().find< B >( n ); shared_ptr< B > qb = std::dynamic_pointer_cast< B >( q ); r.check( qb && reg && p != p2 && p != reg && qb != reg && qb != p, "fresh", w + " creation of " + n + " is not a fresh instance" );
    r.check( p->impl_name() == n && p->type_name() == tn && qb->impl_name() == n && p->x() == m.at( n ) && qb->x() == m.at( n ) && reg->x() == m.at( n ), "instance", w + " created " + tn + " " + n + " has value " + std::to_string( p->x() ) + " expected " + std::to_string( m.at( n ) ) );
    p->x( 1000 ); qb->x( 2000 ); r.check( reg->x() == m.at( n ) && p2->x() == m.at( n ) && B::create( n )->x() == m.at( n ), "independent", w + " changing a created " + n + " changes others" );
  }
  config_block_sptr c = B::get_impl_configurations(); map< string, string > got, exp; for ( auto const& k : c->available_values() ) { got[k] = c->get_value< string >( k ); } for ( auto const& e : m ) { exp[e.first + ":x"] = std::to_string( e.second ); } string g, x; for ( auto const& e : got ) { g += e.first + "=" + e.second + " "; } for ( auto const& e : exp ) { x += e.first + "=" + e.second + " "; } r.eqs( g, x, "impl-configurations", w );
}
void compare( mc::Run& r, MM const& i, MM const& j, string const& w )
{
  compare_iface< I >( r, i, w ); compare_iface< J >( r, j, w ); vector< string > all; for ( auto const& e : i ) { all.push_back( "outer:" + e.first ); } for ( auto const& e : j ) { all.push_back( "outer_inner:" + e.first ); } std::sort( all.begin(), all.end() ); vector< string > got = algorithm::registered_names(); std::sort( got.begin(), got.end() ); r.eqs( join( got ), join( all ), "all-names", w ); r.check( algorithm::registered_names( "" ).size() == all.size(), "all-names", w );
  for ( string t : { "out", "outer_", "x", "outer:" } ) { r.check( ! algorithm::has_type_name( t ) && algorithm::registered_names( t ).empty() && ! algorithm::create( t, "a" ) && ! algorithm::has_impl_name( t, "a" ), "unknown-type", w + " type " + t ); }
}
void quiet() { static bool done = false; if ( ! done ) { done = true; for ( char const* n : { "vital.algorithm", "vital.registrar" } ) { get_logger( n )->set_level( kwiver_logger::LEVEL_NONE ); } } }
}
SCENARIO( c18_registry, 2 )
{
  quiet(); struct Op { int iface, name, kind; }; static char const* names[] = { "a", "b", "a:b" }; vector< Op > ops; int n = r.bound( 4, 5 ); MM i, j; int serial = 0; string w;
  for ( int k = 0; k < n; ++k ) { int c = r.choose( 8 ); Op o; if ( c < 6 ) { o = Op{ c / 3, c % 3, 0 }; w += string( c / 3 ? " J+" : " I+" ) + names[c % 3]; ( c / 3 ? j : i )[names[c % 3]] = ++serial; } else { o = Op{ c - 6, 0, 1 }; w += c == 6 ? " I+null" : " J+null"; } ops.push_back( o ); string st; for ( auto m : { &i, &j } ) { for ( auto const& e : *m ) { st += e.first + std::to_string( e.second ) + ","; } st += ";"; } r.state( st ); }
  r.log( w );
  mc::in_child( r, [&] () {
    MM mi, mj; int s = 0; string done; compare( r, mi, mj, "empty" ); vector< shared_ptr< void > > keep;
    for ( auto const& o : ops )
    {
      bool ok; if ( o.kind ) { ok = o.iface ? J::register_instance( registrar::instance(), shared_ptr< J >() ) : I::register_instance( registrar::instance(), shared_ptr< I >() ); r.check( ! ok, "null-registered", w ); done += " null"; }
      else { ++s; string nm = names[o.name]; if ( o.iface ) { shared_ptr< J > p( new Impl< J >( nm, s ) ); ok = J::register_instance( registrar::instance(), p ); mj[nm] = s; } else { shared_ptr< I > p( new Impl< I >( nm, s ) ); ok = I::register_instance( registrar::instance(), p ); mi[nm] = s; } r.check( ok, "register-result", w ); done += string( o.iface ? " J+" : " I+" ) + nm; }
      r.step(); compare( r, mi, mj, "after" + done );
    }
  } );
}

namespace {
void setup() { quiet(); static bool done = false; if ( done ) { return; } done = true; registrar& g = registrar::instance(); I::register_instance( g, shared_ptr< I >( new Impl< I >( "a", 3, "first one" ) ) ); I::register_instance( g, shared_ptr< I >( new Nest ) ); J::register_instance( g, shared_ptr< J >( new Impl< J >( "a", 30 ) ) ); J::register_instance( g, shared_ptr< J >( new Impl< J >( "j", 40, "only j" ) ) ); }
// model of an algorithm: none, or implementation name, x, inner
struct MA { string impl; int x = 0; string inner; int ix = 0; bool operator==( MA const& o ) const { return impl == o.impl && x == o.x && inner == o.inner && ix == o.ix; } };
string show( MA const& m ) { return m.impl.empty() ? "none" : m.impl + "(" + std::to_string( m.x ) + ( m.impl == "nest" ? "," + ( m.inner.empty() ? string( "none" ) : m.inner + "(" + std::to_string( m.ix ) + ")" ) : "" ) + ")"; }
MA look( algorithm_sptr const& p ) { MA m; if ( ! p ) { return m; } m.impl = p->impl_name(); auto i = std::dynamic_pointer_cast< I >( p ); m.x = i->x(); auto n = std::dynamic_pointer_cast< Nest >( p ); if ( n && n->inner ) { m.inner = n->inner->impl_name(); m.ix = n->inner->x(); } return m; }
shared_ptr< I > make( MA const& m ) { if ( m.impl.empty() ) { return shared_ptr< I >(); } if ( m.impl == "a" ) { return shared_ptr< I >( new Impl< I >( "a", m.x, "first one" ) ); } Nest* n = new Nest; n->v = m.x; if ( ! m.inner.empty() ) { n->inner.reset( new Impl< J >( m.inner, m.ix ) ); } return shared_ptr< I >( n ); }
typedef map< string, string > KV;
KV contents( config_block_sptr c ) { KV o; for ( auto const& k : c->available_values() ) { o[k] = c->get_value< string >( k ); } return o; }
string show( KV const& m ) { string o; for ( auto const& e : m ) { o += e.first + "=" + e.second + " "; } return o; }
bool has( KV const& m, string const& k ) { return m.count( k ) > 0; }
// reference
MA apply( KV const& m, string const& p, MA cur )
{
  if ( ! has( m, p + "type" ) ) { return cur; } string t = m.at( p + "type" ); if ( t != "a" && t != "nest" ) { return cur; }
  MA n; n.impl = t; n.x = t == "a" ? 3 : 5; string q = p + t + ":"; if ( has( m, q + "x" ) ) { n.x = atoi( m.at( q + "x" ).c_str() ); }
  if ( t == "nest" && has( m, q + "sub:type" ) ) { string u = m.at( q + "sub:type" ); if ( u == "a" || u == "j" ) { n.inner = u; n.ix = u == "a" ? 30 : 40; if ( has( m, q + "sub:" + u + ":x" ) ) { n.ix = atoi( m.at( q + "sub:" + u + ":x" ).c_str() ); } } }
  return n;
}
bool valid( KV const& m, string const& p )
{
  if ( ! has( m, p + "type" ) ) { return false; } string t = m.at( p + "type" ); if ( t != "a" && t != "nest" ) { return false; } string q = p + t + ":"; if ( has( m, q + "x" ) && atoi( m.at( q + "x" ).c_str() ) < 0 ) { return false; } if ( t == "a" ) { return true; }
  if ( ! has( m, q + "sub:type" ) ) { return false; } string u = m.at( q + "sub:type" ); if ( u != "a" && u != "j" ) { return false; } return ! has( m, q + "sub:" + u + ":x" ) || atoi( m.at( q + "sub:" + u + ":x" ).c_str() ) >= 0;
}
KV produced( KV m, string const& p, MA const& a )
{
  if ( a.impl.empty() ) { if ( ! has( m, p + "type" ) ) { m[p + "type"] = ""; } return m; } m[p + "type"] = a.impl; string q = p + a.impl + ":"; m[q + "x"] = std::to_string( a.x );
  if ( a.impl == "nest" ) { m[q + "sub:type"] = a.inner; if ( ! a.inner.empty() ) { m[q + "sub:" + a.inner + ":x"] = std::to_string( a.ix ); } } return m;
}
}
SCENARIO( c18_nested, 4 )
{
  setup(); static char const* types[] = { nullptr, "", "zzz", "a", "nest", "j" }; static char const* xs[] = { nullptr, "17", "-4" };
  // where: the configuration itself or a view of a larger one
  bool view = r.flip(); config_block_sptr top = config_block::empty_config(), c = view ? top->subblock_view( "out:er" ) : top; string pre = view ? "out:er:" : ""; KV m; auto put = [&] ( string const& k, char const* v ) { if ( v ) { c->set_value( k, string( v ) ); m[k] = v; } };
  string const name = r.flip() ? "algo" : "deep:algo", p = name + ":"; int tsel = r.choose( 6 ); put( p + "type", types[tsel] ); put( p + "a:x", xs[r.choose( 3 )] ); put( p + "nest:x", xs[r.choose( 3 )] ); put( p + "nest:sub:type", types[r.choose( 6 )] ); int isel = r.choose( 3 ); put( p + "nest:sub:a:x", xs[isel] ); put( p + "nest:sub:j:x", xs[2 - isel] ); if ( r.flip() ) { put( "algo2:type", "nest" ); put( "type", "a" ); put( p + "zzz:x", "5" ); put( p + "x", "77" ); }
  if ( view ) { top->set_value( "algo:type", string( "a" ) ); top->set_value( "other", string( "1" ) ); }
  static MA const cur[] = { MA(), [] { MA a; a.impl = "a"; a.x = 8; return a; } (), [] { MA a; a.impl = "nest"; a.x = 9; a.inner = "j"; a.ix = 44; return a; } (), [] { MA a; a.impl = "nest"; a.x = 9; return a; } () }; MA ma = cur[r.choose( 4 )]; string w = show( m ) + "current " + show( ma ); r.log( w ); r.state( w ); KV all; auto expect_all = [&] ( KV const& k ) { KV o; for ( auto const& e : k ) { o[pre + e.first] = e.second; } if ( view ) { o["algo:type"] = "a"; o["other"] = "1"; } return o; };
  auto same_config = [&] ( KV const& k, char const* key, string const& what ) { r.eqs( show( contents( c ) ), show( k ), key, what + " (" + w + ")" ); r.eqs( show( contents( top ) ), show( expect_all( k ) ), key, what + " whole configuration (" + w + ")" ); };
  // check, apply (typed and untyped), produce
  r.check( I::check_nested_algo_configuration( name, c ) == valid( m, p ), "check", w ); r.check( algorithm::check_nested_algo_configuration( "outer", name, c ) == valid( m, p ), "check", w ); same_config( m, "check-changed", "checking" );
  shared_ptr< I > cur_i = make( ma ), before = cur_i; algorithm_sptr cur_a = make( ma ), before_a = cur_a; I::set_nested_algo_configuration( name, c, cur_i ); algorithm::set_nested_algo_configuration( "outer", name, c, cur_a ); r.step( 4 ); MA want = apply( m, p, ma ); bool replaced = has( m, p + "type" ) && ( m[p + "type"] == "a" || m[p + "type"] == "nest" );
  r.eqs( show( look( cur_i ) ), show( want ), "apply", w ); r.eqs( show( look( cur_a ) ), show( want ), "apply", w ); if ( ! replaced ) { r.check( cur_i == before && cur_a == before_a, "untouched", w + ": the current algorithm was replaced" ); } else { r.check( cur_i != before && cur_i != registrar::instance().find< I >( want.impl ), "fresh", w ); } r.eqs( show( look( before ) ), show( ma ), "untouched", w + ": previous algorithm" ); same_config( m, "apply-changed", "applying" );
  if ( replaced ) { cur_i->x( 12345 ); r.check( I::create( want.impl )->x() == ( want.impl == "a" ? 3 : 5 ), "independent", w ); cur_i->x( want.x ); }
  I::get_nested_algo_configuration( name, c, cur_i ); KV out = produced( m, p, want ); same_config( out, "produce", "producing" ); if ( ! want.impl.empty() || ! has( m, p + "type" ) ) { string d = c->get_description( p + "type" ); r.check( d.find( "- a :: first one" ) != string::npos && d.find( "- nest :: nests" ) != string::npos && d.find( "- j" ) == string::npos, "description", "type description " + mc::show( d ) ); }
  shared_ptr< I > again; I::set_nested_algo_configuration( name, c, again ); if ( ! want.impl.empty() ) { r.eqs( show( look( again ) ), show( want ).find( "none)" ) == string::npos ? show( want ) : show( apply( out, p, MA() ) ), "round-trip", w ); } else { r.check( ! again, "round-trip", w ); }
  I::get_nested_algo_configuration( name, c, again ); same_config( out, "produce-again", "producing twice" );
  // producing into an empty configuration contains exactly the algorithm's entries
  config_block_sptr e = config_block::empty_config(); algorithm::get_nested_algo_configuration( "outer", name, e, make( ma ) ); r.eqs( show( contents( e ) ), show( produced( KV(), p, ma ) ), "produce-empty", show( ma ) );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
