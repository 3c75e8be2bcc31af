// C01 / C02: configuration blocks against an ordered-map model.
#include "mc.h"
#include <vital/config/config_block.h>
#include <algorithm>
#include <unordered_map>
using namespace kwiver::vital;
using std::string; using std::vector; using std::map; using std::set;

namespace {

string trim_model( string s )
{
  // surrounding blanks
  size_t b = s.find_first_not_of( " \t\n\v\f\r" ); if ( b == string::npos ) { return ""; }
  size_t e = s.find_last_not_of( " \t\n\v\f\r" );
  return s.substr( b, e - b + 1 );
}

struct Ent { string v, d; bool operator==( Ent const& o ) const { return v == o.v && d == o.d; } };
struct Blk                       // a root block
{
  map< string, Ent > m; set< string > ro;
};
struct Handle { config_block_sptr real; Blk* root; string prefix; };   // prefix "" or "a:" ...

bool is_global( string const& k ) { return k.compare( 0, 8, "_global:" ) == 0; }
// key of the root that view key k denotes
string full( Handle const& h, string const& k ) { return is_global( k ) ? k : h.prefix + k; }
vector< string > listed( Handle const& h )
{
  vector< string > o;
  for ( auto const& e : h.root->m )
  {
    if ( h.prefix.empty() ) { o.push_back( e.first ); }
    else if ( e.first.compare( 0, h.prefix.size(), h.prefix ) == 0 ) { o.push_back( e.first.substr( h.prefix.size() ) ); }
    else if ( is_global( e.first ) ) { o.push_back( e.first ); }
  }
  std::sort( o.begin(), o.end() );
  return o;
}

string m_set( Handle& h, string const& k, string const& v, string const& d )
{
  string f = full( h, k );
  if ( h.root->ro.count( f ) ) { return "set-ro"; }
  Ent& e = h.root->m[f]; e.v = trim_model( v ); if ( ! d.empty() ) { e.d = d; }
  return "";
}
string m_unset( Handle& h, string const& k )
{
  string f = full( h, k );
  if ( h.root->ro.count( f ) ) { return "unset-ro"; }
  if ( ! h.root->m.count( f ) ) { return "absent"; }
  h.root->m.erase( f );
  return "";
}

template < typename F > string guarded( F f )
{
  try { f(); return ""; }
  catch ( set_on_read_only_value_exception const& ) { return "set-ro"; }
  catch ( unset_on_read_only_value_exception const& ) { return "unset-ro"; }
  catch ( no_such_configuration_value_exception const& ) { return "absent"; }
  catch ( bad_config_block_cast_exception const& ) { return "bad-cast"; }
  catch ( std::exception const& e ) { return string( "other:" ) + e.what(); }
}

// every query of one handle against the model
void observe( mc::Run& r, Handle const& h, string const& who, vector< string > const& probe, bool ro )
{
  config_block const& b = *h.real;
  config_block_keys_t ks = b.available_values();
  vector< string > got( ks.begin(), ks.end() ); std::sort( got.begin(), got.end() );
  vector< string > want = listed( h );
  auto join = [] ( vector< string > const& v ) { string s; for ( auto const& x : v ) { s += x + ","; } return s; };
  if ( got != want ) { r.fail( "listing", who + " lists " + join( got ) + " expected " + join( want ) ); }
  set< string > all( probe.begin(), probe.end() ); all.insert( want.begin(), want.end() );
  string printed;
  for ( auto const& k : all )
  {
    string f = full( h, k );
    bool has = h.root->m.count( f ) > 0;
    string const what = who + " key " + k + " ";
    r.eq( b.has_value( k ), has, "has_value", what + "has_value" );
    if ( has )
    {
      Ent const& e = h.root->m[f];
      string v, d;
      r.eqs( guarded( [&] { v = b.get_value< string >( k ); } ), "", "get_value", what + "get_value error" );
      r.eqs( v, e.v, "get_value", what + "get_value" );
      r.eqs( b.get_value< string >( k, string( "dflt" ) ), e.v, "get_value_default", what + "get_value(default)" );
      r.eqs( guarded( [&] { d = b.get_description( k ); } ), "", "get_description", what + "get_description error" );
      r.eqs( d, e.d, "get_description", what + "get_description" );
    }
    else
    {
      r.eqs( guarded( [&] { b.get_value< string >( k ); } ), "absent", "get_absent", what + "get of absent key" );
      r.eqs( b.get_value< string >( k, string( "dflt" ) ), "dflt", "get_absent_default", what + "defaulted get of absent key" );
      r.eqs( guarded( [&] { b.get_description( k ); } ), "absent", "descr_absent", what + "description of absent key" );
    }
    if ( ro ) { r.eq( b.is_read_only( k ), h.root->ro.count( f ) > 0, "is_read_only", what + "is_read_only" ); }
  }
  std::ostringstream os;
  r.eqs( guarded( [&] { h.real->print( os ); } ), "", "print", who + " print error" );
  std::istringstream is( os.str() ); string line; size_t n = 0;
  std::multiset< string > lines; while ( std::getline( is, line ) ) { lines.insert( line ); ++n; }
  for ( auto const& k : want )
  {
    bool found = false;
    string const v = h.root->m[ full( h, k ) ].v;
    for ( auto it = lines.begin(); it != lines.end(); ++it )
    {
      if ( it->compare( 0, k.size(), k ) == 0 && it->find( "= " + v ) != string::npos &&
           ( (*it)[k.size()] == ' ' || (*it)[k.size()] == '[' || (*it)[k.size()] == '=' ) ) { lines.erase( it ); found = true; break; }
    }
    r.check( found, "print", who + " print lacks a line for " + k );
  }
  r.check( lines.empty(), "print", who + " prints extra lines" );
}

string canon( Blk const& b )
{
  string s; for ( auto const& e : b.m ) { s += e.first + "\1" + e.second.v + "\1" + e.second.d + "\2"; }
  s += "#"; for ( auto const& k : b.ro ) { s += k + "\2"; }
  return s;
}

struct World
{
  Blk root, cpy, src, bare;
  Handle R, V, W, C, S;
  World()
  {
    R = Handle{ config_block::empty_config( "root" ), &root, "" };
    V = Handle{ R.real->subblock_view( "a" ), &root, "a:" };
    W = Handle{ V.real->subblock_view( "b" ), &root, "a:b:" };
    S = Handle{ config_block::empty_config( "src" ), &src, "" };
    C = Handle{ config_block::empty_config( "copy" ), &cpy, "" };
  }
  Handle& h( int i ) { switch ( i ) { case 0: return R; case 1: return V; case 2: return W; case 3: return C; default: return S; } }
  static char const* name( int i ) { static char const* n[] = { "root", "view(a)", "view(a).view(b)", "copy", "source" }; return n[i]; }
  string canon_all() { return canon( root ) + "|" + canon( cpy ) + "|" + canon( src ); }
};

vector< string > const root_keys = { "a", "a:b", "a:b:c", "ab:c", "_global:g" };
vector< string > const view_keys = { "b", "b:c", "k" };
vector< string > const w_keys = { "c", "k" };
vector< string > const c_keys = { "b", "a:b" };
vector< string > const probes = { "a", "b", "c", "k", "a:b", "b:c", "a:b:c", "ab:c", "_global:g", "a:k", "", ":", "a:" };

vector< string > const& keys_of( int h ) { switch ( h ) { case 0: return root_keys; case 1: return view_keys; case 2: return w_keys; case 3: return c_keys; default: return c_keys; } }

// a set/unset on any of the handles, plus structural operations
void one_op( mc::Run& r, World& w, bool rich )
{
  struct Op { int kind, h; string k, v, d; };
  static vector< Op > ops[2];
  if ( ops[rich].empty() )
  {
    for ( int h = 0; h < 5; ++h )
    {
      for ( auto const& k : keys_of( h ) )
      {
        ops[rich].push_back( Op{ 0, h, k, "v1", "" } );
        if ( h < 3 || rich ) { ops[rich].push_back( Op{ 0, h, k, " v 2\t", "D" } ); }
        ops[rich].push_back( Op{ 1, h, k, "", "" } );
      }
    }
    for ( int h = 0; h < 4; ++h ) { ops[rich].push_back( Op{ 2, h, "", "", "" } ); }     // merge source into h
    ops[rich].push_back( Op{ 3, 3, "", "", "" } );                                      // merge view(a) into the copy
    ops[rich].push_back( Op{ 4, 0, "a", "", "" } );                                     // copy = root.subblock(a)
    ops[rich].push_back( Op{ 4, 0, "a:b", "", "" } );
    ops[rich].push_back( Op{ 4, 1, "b", "", "" } );                                     // copy = view.subblock(b)
    ops[rich].push_back( Op{ 5, 0, "a", "", "" } );                                     // copy is now a view of a copy...
  }
  Op const& o = ops[rich][ r.choose( (int) ops[rich].size() ) ];
  Handle& h = w.h( o.h );
  string got, want;
  r.step();
  switch ( o.kind )
  {
  case 0:
    r.log( string( World::name( o.h ) ) + ".set(" + o.k + "," + mc::show( o.v ) + "," + mc::show( o.d ) + ")" );
    got = guarded( [&] { if ( o.d.empty() ) { h.real->set_value( o.k, o.v ); } else { h.real->set_value( o.k, o.v, o.d ); } } );
    want = m_set( h, o.k, o.v, o.d );
    r.eqs( got, want, "set", "set result" );
    break;
  case 1:
    r.log( string( World::name( o.h ) ) + ".unset(" + o.k + ")" );
    got = guarded( [&] { h.real->unset_value( o.k ); } );
    want = m_unset( h, o.k );
    r.eqs( got, want, "unset", "unset result" );
    break;
  case 2:
  case 3:
    {
      Handle& s = o.kind == 2 ? w.S : w.V;
      r.log( string( World::name( o.h ) ) + ".merge(" + ( o.kind == 2 ? "source" : "view(a)" ) + ")" );
      got = guarded( [&] { h.real->merge_config( s.real ); } );
      for ( auto const& k : listed( s ) ) { Ent e = s.root->m[ full( s, k ) ]; want = m_set( h, k, e.v, e.d ); if ( ! want.empty() ) { break; } }
      r.eqs( got, want, "merge", "merge result" );
    }
    break;
  case 4:
    {
      r.log( string( "copy = " ) + World::name( o.h ) + ".subblock(" + o.k + ")" );
      Blk nb; Handle vw{ config_block_sptr(), h.root, full( h, o.k ) + ":" };
      for ( auto const& k : listed( vw ) ) { nb.m[k] = h.root->m[ full( vw, k ) ]; }
      config_block_sptr c;
      got = guarded( [&] { c = h.real->subblock( o.k ); } );
      r.eqs( got, "", "subblock", "subblock result" );
      r.eqs( c->get_name(), o.k, "name", "name of sub-block" );
      w.cpy = nb; w.C = Handle{ c, &w.cpy, "" };
    }
    break;
  case 5:
    {
      r.log( "copy = copy.subblock(b)" );
      Blk nb; Handle vw{ config_block_sptr(), w.C.root, w.C.prefix + "b:" };
      for ( auto const& k : listed( vw ) ) { nb.m[k] = w.C.root->m[ full( vw, k ) ]; }
      config_block_sptr c = w.C.real->subblock( "b" );
      w.cpy = nb; w.C = Handle{ c, &w.cpy, "" };
    }
    break;
  }
}

void observe_all( mc::Run& r, World& w, bool ro )
{
  for ( int i = 0; i < 5; ++i ) { observe( r, w.h( i ), World::name( i ), probes, ro ); }
  // views created later see the same thing
  Handle nv{ w.R.real->subblock_view( "a:b" ), &w.root, "a:b:" };
  observe( r, nv, "new view(a:b)", { "c", "k", "_global:g" }, ro );
  Handle cv{ w.C.real->subblock_view( "b" ), w.C.root, w.C.prefix + "b:" };
  observe( r, cv, "view(b) of copy", { "c", "k" }, ro );
}

} // namespace

// all sequences, no pruning
SCENARIO( c01_full, 2 )
{
  int len = 1 + r.choose( r.bound( 3, 4 ) );
  World w;
  for ( int i = 0; i < len; ++i ) { one_op( r, w, false ); }
  r.state( w.canon_all() );
  observe_all( r, w, false );
  // a view keeps its parent alive
  w.R.real.reset();
  observe( r, w.V, "view(a) after the root handle is gone", { "b", "b:c" }, false );
  observe( r, w.W, "view(a).view(b) after the root handle is gone", { "c" }, false );
}

// deeper, pruning when the whole model state was already reached with at least as many operations left
SCENARIO( c01_dedup, 2 )
{
  int const len = r.bound( 4, 6 );
  World w;
  for ( int i = 0; i < len; ++i )
  {
    one_op( r, w, false );
    uint64_t h = mc::hash_str( w.canon_all() );
    if ( r.prune( h, len - i - 1 ) ) { return; }
    if ( r.state( h ) ) { observe_all( r, w, false ); }
  }
}

// trimming of every short value, description retention
SCENARIO( c01_trim, 2 )
{
  static string const al[] = { " ", "\t", "x", "=", "#" };
  int n = r.choose( r.bound( 5, 6 ) );
  string v; for ( int i = 0; i < n; ++i ) { v += al[ r.choose( 5 ) ]; }
  int via = r.choose( 2 );
  World w; Handle& h = via ? w.V : w.R;
  r.log( "set(k," + mc::show( v ) + ")" ); r.step();
  h.real->set_value( "k", v, "one" ); m_set( h, "k", v, "one" );
  observe( r, w.R, "root", { "k" }, false );
  h.real->set_value( "k", v + "z" ); m_set( h, "k", v + "z", "" );
  observe( r, w.R, "root", { "k" }, false );
  observe( r, w.V, "view", { "k" }, false );
  r.state( canon( w.root ) );
}

// a view of any name on views of any name: keys are the parent's behind the name, and the global group
namespace {
struct Chain
{
  map< string, Ent > m; vector< string > names; vector< config_block_sptr > b;
  string full( size_t level, string k ) const { for ( size_t i = level; i > 0; --i ) { if ( ! is_global( k ) ) { k = names[i - 1] + ":" + k; } } return k; }
  vector< string > listed( size_t level ) const
  {
    vector< string > l; for ( auto const& e : m ) { l.push_back( e.first ); }
    for ( size_t i = 0; i < level; ++i )
    {
      vector< string > n; string const p = names[i] + ":";
      for ( auto const& k : l ) { if ( k.compare( 0, p.size(), p ) == 0 ) { n.push_back( k.substr( p.size() ) ); } else if ( is_global( k ) ) { n.push_back( k ); } }
      l.swap( n );
    }
    std::sort( l.begin(), l.end() ); return l;
  }
  void check( mc::Run& r, size_t level, set< string > probe )
  {
    config_block_keys_t ks = b[level]->available_values(); vector< string > got( ks.begin(), ks.end() ); std::sort( got.begin(), got.end() ); vector< string > want = listed( level ); auto join = [] ( vector< string > const& v ) { string o; for ( auto const& x : v ) { o += x + ","; } return o; };
    string who = "root"; for ( size_t i = 0; i < level; ++i ) { who += ".view(" + names[i] + ")"; }
    r.eqs( join( got ), join( want ), "listing", who + " lists" ); probe.insert( want.begin(), want.end() );
    for ( auto const& k : probe )
    {
      auto it = m.find( full( level, k ) ); bool const has = it != m.end(); r.eq( b[level]->has_value( k ), has, "has_value", who + " has_value " + k ); r.eqs( b[level]->get_value< string >( k, string( "dflt" ) ), has ? it->second.v : "dflt", "get_value", who + " get_value " + k );
      string d; r.eqs( guarded( [&] { d = b[level]->get_description( k ); } ), has ? "" : "absent", "get_description", who + " description error of " + k ); if ( has ) { r.eqs( d, it->second.d, "get_description", who + " description of " + k ); }
    }
    r.step();
  }
};
}
SCENARIO( c01_names, 2 )
{
  static vector< string > const names = { "a", "_global", "_globalx", "", "a:b", "_" }, keys = { "b", "_global", "_globalx:y", "_global:g", "_global:a:b", "", "a:b:c", ":", "_:z", "_global_:y", "_GLOBAL:g", "x:_global:g" };
  Chain c; c.b.push_back( config_block::empty_config() ); int const n = r.choose( r.bound( 3, 4 ) ); string w;
  for ( int i = 0; i < n; ++i ) { c.names.push_back( r.pick( names ) ); c.b.push_back( c.b.back()->subblock_view( c.names.back() ) ); w += ".view(" + c.names.back() + ")"; }
  r.log( "root" + w ); set< string > const probe( keys.begin(), keys.end() );
  for ( int j = 0; j < 2; ++j )
  {
    size_t const at = (size_t) r.choose( n + 1 ); string const k = r.pick( keys ), f = c.full( at, k );
    if ( f.find( "_global:_global:" ) != string::npos ) { return; }
    r.log( "set " + k + " at level " + std::to_string( at ) ); c.b[at]->set_value( k, "v" + std::to_string( j ), "d" + std::to_string( j ) ); c.m[f] = Ent{ "v" + std::to_string( j ), "d" + std::to_string( j ) };
  }
  for ( size_t l = 0; l <= (size_t) n; ++l ) { c.check( r, l, probe ); }
  for ( auto const& e : c.m ) { w += "," + e.first; }
  r.state( w );
}

// merging any entry over any entry, through any block
SCENARIO( c01_merge, 2 )
{
  static vector< string > const vals = { "", "v", " x\t" }, ds = { "", "D" }, ks = { "k", "b:k", "_global:g" };
  World w; int const to = r.choose( 4 ), from = r.choose( 3 ); Handle& h = w.h( to ); map< string, int > located; string log;
  if ( from == 1 && to != 3 ) { return; }
  Handle& s = from == 0 ? w.S : from == 1 ? w.V : w.C; if ( from == 2 && to == 3 ) { return; }
  int const other = 1 + r.choose( 2 ); bool const thorough = r.thorough();
  for ( auto const& k : ks )
  {
    if ( k != ks[0] && k != ks[other] && ! thorough ) { continue; }
    static int const few[] = { 0, 1, 5 }; bool const all = k == ks[0] || thorough; int const before = all ? r.choose( 4 ) : 2 * r.choose( 2 ), src = all ? r.choose( 7 ) : few[r.choose( 3 )];
    if ( before ) { string const v = before == 1 ? "" : "old"; h.real->set_value( k, v, before == 3 ? string() : string( "Old" ) ); m_set( h, k, v, before == 3 ? "" : "Old" ); h.real->set_location( k, std::make_shared< string >( "f" ), before ); located[k] = before; log += k + " "; }
    if ( src ) { string const v = vals[( src - 1 ) % 3], d = ds[( src - 1 ) / 3]; s.real->set_value( k, v, d ); m_set( s, k, v, d ); log += k + "=" + v + "/" + d + " "; }
  }
  r.log( string( World::name( to ) ) + ".merge(" + ( from == 0 ? "source" : from == 1 ? "view(a)" : "copy" ) + ") " + log ); string want, got = guarded( [&] { h.real->merge_config( s.real ); } ); r.step();
  for ( auto const& k : listed( s ) ) { Ent e = s.root->m[ full( s, k ) ]; want = m_set( h, k, e.v, e.d ); if ( ! want.empty() ) { break; } }
  r.eqs( got, want, "merge", "merge result" ); observe_all( r, w, false );
  for ( auto const& e : located ) { string f; int l = 0; r.check( h.real->get_location( e.first, f, l ), "location-known", "merging loses the location of " + e.first ); r.eq( l, e.second, "location-line", "line of " + e.first ); }
  r.state( w.canon_all() );
}

// the recorded source location of an entry
SCENARIO( c01_location, 2 )
{
  static char const* const rk[] = { "a:b", "a:b:c", "ab", "_global:g" };
  struct Op { int kind, h; string k; };
  static vector< Op > ops;
  if ( ops.empty() )
  {
    for ( auto k : rk ) { for ( int kind = 0; kind < 3; ++kind ) { ops.push_back( Op{ kind, 0, k } ); } }
    for ( int kind = 0; kind < 3; ++kind ) { ops.push_back( Op{ kind, 1, "b:c" } ); ops.push_back( Op{ kind, 2, "c" } ); ops.push_back( Op{ kind, 1, "_global:g" } ); }
  }
  World w; map< string, std::pair< string, int > > loc; int serial = 0; int const len = r.bound( 5, 7 );
  for ( int i = 0; i < len; ++i )
  {
    Op const& o = ops[ r.choose( (int) ops.size() ) ]; Handle& h = w.h( o.h ); string f = full( h, o.k ); r.step();
    string const who = string( World::name( o.h ) ) + "(" + o.k + ")"; ++serial;
    switch ( o.kind )
    {
    case 0: r.log( who + ".set_value" ); h.real->set_value( o.k, string( "v" ) ); m_set( h, o.k, "v", "" ); break;
    case 1: { r.log( who + ".set_location" ); string n = "file" + std::to_string( i ); h.real->set_location( o.k, std::make_shared< string >( n ), i + 1 ); loc[f] = std::make_pair( n, i + 1 ); } break;
    case 2: { r.log( who + ".unset_value" ); string const want = m_unset( h, o.k ); r.eqs( guarded( [&] { h.real->unset_value( o.k ); } ), want, "unset", "unset result" ); if ( want.empty() ) { loc.erase( f ); } } break;
    }
    string st = canon( w.root ); for ( auto const& e : loc ) { st += e.first + "@" + e.second.first; }
    for ( int q = 0; q < 3; ++q )
    {
      Handle& g = w.h( q );
      for ( auto k : { "a:b", "a:b:c", "ab", "_global:g", "b", "b:c", "c", "k" } )
      {
        string file = "-"; int line = -7; auto it = loc.find( full( g, k ) ); bool const got = g.real->get_location( k, file, line ); r.step();
        string const what = string( "location of " ) + World::name( q ) + "(" + k + ")";
        r.eq( got, it != loc.end(), "location-known", what );
        r.eqs( file, it == loc.end() ? "-" : it->second.first, "location-file", what ); r.eq( line, it == loc.end() ? -7 : it->second.second, "location-line", what );
      }
    }
    if ( r.prune( mc::hash_str( st ), len - i - 1 ) ) { return; }
    r.state( st );
  }
}

// marks set through views of any name on views of any name
SCENARIO( c02_names, 2 )
{
  static vector< string > const names = { "a", "_global", "_globalx", "", "a:b" }, keys = { "b", "_globalx:y", "_global:g", "", "b:c", "_" };
  Chain c; c.b.push_back( config_block::empty_config() ); int const n = r.choose( 4 ); string w = "root";
  for ( int i = 0; i < n; ++i ) { c.names.push_back( r.pick( names ) ); c.b.push_back( c.b.back()->subblock_view( c.names.back() ) ); w += ".view(" + c.names.back() + ")"; }
  size_t const at = (size_t) r.choose( n + 1 ), other = (size_t) r.choose( n + 1 ); string const k = r.pick( keys ), k2 = r.pick( keys ), f = c.full( at, k ), f2 = c.full( other, k2 ); bool const first = r.flip();
  if ( f.find( "_global:_global:" ) != string::npos || f2.find( "_global:_global:" ) != string::npos ) { return; }
  r.log( w + ": mark " + k + " at level " + std::to_string( at ) + ( first ? " before setting it" : "" ) + ", with " + k2 + " set at level " + std::to_string( other ) );
  if ( first ) { c.b[at]->mark_read_only( k ); }
  r.eqs( guarded( [&] { c.b[other]->set_value( k2, string( "o" ), "do" ); } ), first && f == f2 ? "set-ro" : "", "ro-result", "setting " + k2 ); if ( ! ( first && f == f2 ) ) { c.m[f2] = Ent{ "o", "do" }; }
  if ( ! first ) { c.b[at]->set_value( k, string( "v" ), "d" ); c.m[f] = Ent{ "v", "d" }; c.b[at]->mark_read_only( k ); }
  for ( size_t l = 0; l <= (size_t) n; ++l )
  {
    set< string > all( keys.begin(), keys.end() ); for ( auto const& x : c.listed( l ) ) { all.insert( x ); }
    for ( auto const& x : all )
    {
      string const g = c.full( l, x ), who = x + " at level " + std::to_string( l ); bool const ro = g == f; r.eq( c.b[l]->is_read_only( x ), ro, "is_read_only", "mark of " + who );
      if ( ro )
      {
        r.eqs( guarded( [&] { c.b[l]->set_value( x, string( "new" ) ); } ), "set-ro", "ro-result", "setting " + who ); r.eqs( guarded( [&] { c.b[l]->unset_value( x ); } ), "unset-ro", "ro-result", "removing " + who );
        config_block_sptr s = config_block::empty_config(); s->set_value( x, string( "m" ) ); r.eqs( guarded( [&] { c.b[l]->merge_config( s ); } ), "set-ro", "ro-result", "merging " + who ); r.step( 3 );
      }
    }
    c.check( r, l, all );
  }
  // copies are free of marks, whichever block they are taken from
  for ( size_t l = 0; l <= (size_t) n; ++l )
  {
    string const x = c.listed( l ).empty() ? string() : c.listed( l ).back(); config_block_sptr cp = c.b[l]->subblock( x.substr( 0, x.find( ':' ) ) ); r.step();
    for ( auto const& y : cp->available_values() ) { r.eq( cp->is_read_only( y ), false, "ro-copied", "mark of " + y + " in a copy from level " + std::to_string( l ) ); r.eqs( guarded( [&] { cp->set_value( y, string( "free" ) ); cp->unset_value( y ); } ), "", "ro-copied", "changing " + y + " in a copy from level " + std::to_string( l ) ); }
  }
  // every other entry can still be changed and removed
  for ( auto const& e : map< string, Ent >( c.m ) ) { if ( e.first != f ) { r.eqs( guarded( [&] { c.b[0]->set_value( e.first, string( "x" ) ); c.b[0]->unset_value( e.first ); } ), "", "ro-other", "changing " + e.first ); } }
  for ( auto const& e : c.m ) { w += "," + e.first; }
  r.state( w + f );
}

SCENARIO( c02_ro, 2 )
{
  int len = 1 + r.choose( r.bound( 4, 5 ) );
  World w;
  struct Op { int kind, h; string k; };
  static vector< Op > ops;
  if ( ops.empty() )
  {
    char const* rk[] = { "a:b", "a:b:c", "_global:g" };
    for ( auto k : rk ) { for ( int kind = 0; kind < 3; ++kind ) { ops.push_back( Op{ kind, 0, k } ); } }
    for ( int kind = 0; kind < 3; ++kind ) { ops.push_back( Op{ kind, 1, "b" } ); ops.push_back( Op{ kind, 1, "b:c" } ); ops.push_back( Op{ kind, 2, "c" } ); }
    ops.push_back( Op{ 3, 0, "" } ); ops.push_back( Op{ 3, 1, "" } );   // merge {b=m} / {a:b=m}
    ops.push_back( Op{ 5, 0, "a:b" } ); ops.push_back( Op{ 5, 1, "b" } ); ops.push_back( Op{ 6, 0, "" } ); // the values the entries already have
    ops.push_back( Op{ 4, 0, "a" } );                                    // copy then write the copy, merge marked source elsewhere
  }
  int serial = 0;
  for ( int i = 0; i < len; ++i )
  {
    Op const& o = ops[ r.choose( (int) ops.size() ) ];
    Handle& h = w.h( o.h ); string f = full( h, o.k ), got, want; r.step();
    string val = "v" + std::to_string( ++serial );
    switch ( o.kind )
    {
    case 0:
      r.log( string( World::name( o.h ) ) + ".set(" + o.k + ")" );
      got = guarded( [&] { h.real->set_value( o.k, val, "d" + val ); } ); want = m_set( h, o.k, val, "d" + val ); break;
    case 1:
      r.log( string( World::name( o.h ) ) + ".mark_read_only(" + o.k + ")" );
      got = guarded( [&] { h.real->mark_read_only( o.k ); } ); h.root->ro.insert( f ); break;
    case 2:
      r.log( string( World::name( o.h ) ) + ".unset(" + o.k + ")" );
      got = guarded( [&] { h.real->unset_value( o.k ); } ); want = m_unset( h, o.k ); break;
    case 3:
      {
        r.log( string( World::name( o.h ) ) + ".merge({a:b=m, b=m, b:c=m})" );
        config_block_sptr s = config_block::empty_config( "m" );
        s->set_value( "a:b", "m" + val ); s->set_value( "b", "m" + val ); s->set_value( "b:c", "m" + val );
        s->mark_read_only( "b" );   // must not travel
        got = guarded( [&] { h.real->merge_config( s ); } );
        for ( auto k : { "a:b", "b", "b:c" } ) { want = m_set( h, k, "m" + val, "" ); if ( ! want.empty() ) { break; } }
      }
      break;
    case 5:
      {
        auto e = w.root.m.find( f ); string const same = e == w.root.m.end() ? string( "v0" ) : e->second.v;
        r.log( string( World::name( o.h ) ) + ".set(" + o.k + ") to the value it has" );
        got = guarded( [&] { h.real->set_value( o.k, " " + same + "\t", "d" + val ); } ); want = m_set( h, o.k, same, "d" + val ); break;
      }
    case 6:
      {
        r.log( "root.merge(equal block)" );
        config_block_sptr s = config_block::empty_config( "m" );
        for ( auto const& e : w.root.m ) { s->set_value( e.first, e.second.v ); }
        got = guarded( [&] { h.real->merge_config( s ); } );
        for ( auto const& e : w.root.m ) { if ( w.root.ro.count( e.first ) ) { want = "set-ro"; } }
      }
      break;
    case 4:
      {
        r.log( "copy = root.subblock(a); copy.set(b); copy2.merge(root)" );
        config_block_sptr c = h.real->subblock( "a" );
        r.eq( c->is_read_only( "b" ), false, "ro-copied", "read-only mark of copy" );
        r.eqs( guarded( [&] { c->set_value( "b", string( "free" ) ); c->set_value( "b:c", string( "free" ) ); } ), "", "ro-copied", "write to a copy" );
        config_block_sptr t = config_block::empty_config( "t" );
        r.eqs( guarded( [&] { t->merge_config( w.R.real ); } ), "", "ro-merge", "merge of a block with marked entries" );
        for ( auto const& e : w.root.m ) { r.eq( t->is_read_only( e.first ), false, "ro-merge", "mark merged for " + e.first ); }
        for ( auto const& e : w.root.m ) { r.eqs( guarded( [&] { t->set_value( e.first, string( "z" ) ); } ), "", "ro-merge", "write to merge target" ); }
      }
      break;
    }
    r.eqs( got, want, "ro-result", "result of operation" );
  }
  string st; for ( auto const& e : w.root.m ) { st += e.first + "|"; } st += "#"; for ( auto const& e : w.root.ro ) { st += e + "|"; }
  r.state( st );
  vector< string > pr = { "a:b", "a:b:c", "b", "b:c", "c", "_global:g" };
  observe( r, w.R, "root", pr, true ); observe( r, w.V, "view(a)", pr, true ); observe( r, w.W, "view(a).view(b)", pr, true );
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
