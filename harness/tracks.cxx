// C11: tracks and track sets against plain models.
#include "mc.h"
#include <vital/types/track.h>
#include <vital/types/track_set.h>
#include <algorithm>
using namespace kwiver::vital;
using std::string; using std::vector;

namespace {
typedef long F;
struct MS { F f; feature_sptr ft; descriptor_sptr d; };
struct MT { unsigned long id = 0; vector< MS > h; };

feature_sptr feat( int k ) { static vector< feature_sptr > v; while ( (int) v.size() <= k ) { v.push_back( feature_sptr( new feature_d( vector_2d( v.size(), 1 ) ) ) ); } return v[k]; }
descriptor_sptr desc( int k ) { static vector< descriptor_sptr > v; while ( (int) v.size() <= k ) { v.push_back( descriptor_sptr( new descriptor_dynamic< int >( 2 ) ) ); } return v[k]; }
string show( MT const& t ) { std::ostringstream o; o << "#" << t.id << "["; for ( auto const& s : t.h ) { o << s.f << " "; } o << "]"; return o.str(); }
static F const probes[] = { -2, -1, 0, 1, 2, 3, 4, 5, 6, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967297L, 4294967300L, -4294967296L };

void compare( mc::Run& r, track const& t, MT const& m, string const& who )
{
  r.eq( t.size(), m.h.size(), "size", who + " size" ); r.eq( t.empty(), m.h.empty(), "size", who + " empty" ); r.eq( (unsigned long) t.id(), m.id, "id", who + " id" );
  r.eq( (F) t.first_frame(), m.h.empty() ? 0 : m.h.front().f, "first-frame", who + " first_frame" ); r.eq( (F) t.last_frame(), m.h.empty() ? 0 : m.h.back().f, "last-frame", who + " last_frame" );
  size_t i = 0;
  for ( auto it = t.begin(); it != t.end(); ++it, ++i ) { r.check( i < m.h.size() && it->frame_id == m.h[i].f && it->feat == m.h[i].ft && it->desc == m.h[i].d, "history", who + " state " + std::to_string( i ) + " is not the accepted one; accepted " + show( m ) ); }
  r.eq( i, m.h.size(), "history", who + " number of states" );
  std::set< F > want; for ( auto const& s : m.h ) { want.insert( s.f ); } auto ids = t.all_frame_ids(); std::set< F > got( ids.begin(), ids.end() ); r.check( got == want, "all-frames", who + " all_frame_ids " + show( m ) );
  auto one = [&] ( F f ) { auto it = t.find( f ); int k = -1; for ( size_t j = 0; j < m.h.size(); ++j ) { if ( m.h[j].f == f ) { k = (int) j; } } r.eq( it == t.end() ? -1 : (int) ( it - t.begin() ), k, "find", who + " find(" + std::to_string( f ) + ") in " + show( m ) ); };
  for ( F f : probes ) { one( f ); } for ( auto const& s : m.h ) { one( s.f ); one( s.f + 1 ); one( s.f - 1 ); }
}
}

SCENARIO( c11_append, 2 )
{
  static vector< F > const all_frames = { 0, 1, 3, 4294967297L, 2, 5, 2147483648L }; vector< F > frames( all_frames.begin(), all_frames.begin() + r.bound( 4, 6 ) );
  track_sptr t[2] = { std::make_shared< track >(), std::make_shared< track >() }; MT m[2]; int serial = 0; int n = r.bound( 4, 5 );
  for ( int i = 0; i < n; ++i )
  {
    int op = 1 + r.choose( 5 ), w = r.choose( 2 ); string what; bool got = true, want = true;
    switch ( op )
    {
    case 1: // append a state (with or without payload)
      { F f = r.pick( frames ); ++serial; bool none = f == 1; MS s{ f, none ? feature_sptr() : feat( serial ), none ? descriptor_sptr() : desc( serial ) }; want = m[w].h.empty() || m[w].h.back().f < f; if ( want ) { m[w].h.push_back( s ); } got = t[w]->append( track::track_state( f, s.ft, s.d ) ); what = "append(" + std::to_string( f ) + ")"; break; }
    case 2: // append the other track
      { want = m[w].h.empty() || m[1 - w].h.empty() || m[w].h.back().f < m[1 - w].h.front().f; if ( want ) { m[w].h.insert( m[w].h.end(), m[1 - w].h.begin(), m[1 - w].h.end() ); } got = t[w]->append( *t[1 - w] ); what = "append(other)"; break; }
    case 3: // append to itself
      { want = m[w].h.empty(); got = t[w]->append( *t[w] ); what = "append(self)"; break; }
    case 4: { t[w] = std::make_shared< track >( *t[1 - w] ); m[w] = m[1 - w]; what = "copy of the other"; break; }
    case 5: { F f = r.pick( frames ); ++serial; t[w] = std::make_shared< track >( track::track_state( f, feat( serial ), desc( serial ) ) ); t[w]->set_id( f + 7 ); m[w] = MT(); m[w].id = f + 7; m[w].h.push_back( MS{ f, feat( serial ), desc( serial ) } ); what = "new track"; break; }
    }
    r.step(); r.log( string( w ? "B." : "A." ) + what + " -> " + show( m[0] ) + show( m[1] ) );
    r.eq( got, want, "acceptance", what + " on " + ( w ? "B" : "A" ) + " leading to " + show( m[0] ) + show( m[1] ) );
    for ( int k = 0; k < 2; ++k ) { compare( r, *t[k], m[k], k ? "B" : "A" ); }
    uint64_t h = 5; for ( auto const& x : m ) { h = mc::mix( h, x.id ); for ( auto const& s : x.h ) { h = mc::mix( mc::mix( h, s.f ), s.ft != nullptr ); } h = mc::mix( h, 99 ); }
    r.state( h ); if ( r.prune( h, n - i - 1 ) ) { return; }
  }
}

namespace {
// a set that leaves size() and empty() to the base class
struct base_set : track_set { vector< track_sptr > d; base_set( vector< track_sptr > const& v ) : d( v ) {} vector< track_sptr > tracks() const { return d; } };
string show( vector< track_sptr > const& v ) { string s; for ( auto const& t : v ) { s += "#" + std::to_string( t->id() ) + "["; for ( auto const& x : *t ) { s += std::to_string( x.frame_id ) + " "; } s += "]"; } return s; }
}

SCENARIO( c11_sets, 2 )
{
  static vector< vector< F > > const maps = { { 0, 1, 2, 3 }, { 2, 3, 5, 6 }, { 1, 2147483647L, 4294967297L, 4294967298L } };
  auto const& map = r.pick( maps ); int nt = r.choose( 4 ); int ids = nt == 3 && ! r.thorough() ? 2 : r.choose( 3 ); bool base = r.flip(); vector< track_sptr > v; vector< MT > m; int serial = 0;
  static long const idv[3][3] = { { 0, 1, 2 }, { 5, 5, 0 }, { 3, 4, 3 } };
  for ( int k = 0; k < nt; ++k )
  {
    int sub = r.choose( 16 ); track_sptr t = std::make_shared< track >(); MT x; x.id = idv[ids][k]; t->set_id( x.id );
    for ( int b = 0; b < 4; ++b ) { if ( sub >> b & 1 ) { ++serial; bool nof = ( serial + k ) % 5 == 0; MS s{ map[b], nof ? feature_sptr() : feat( serial ), serial % 3 == 0 ? descriptor_sptr() : desc( serial ) }; x.h.push_back( s ); t->append( track::track_state( s.f, s.ft, s.d ) ); } }
    v.push_back( t ); m.push_back( x );
  }
  track_set_sptr ts; if ( base ) { ts.reset( new base_set( v ) ); } else { ts.reset( new simple_track_set( v ) ); }
  string all = show( v ); r.log( all + ( base ? " (base class)" : "" ) ); r.state( mc::hash_str( all ) );
  r.eq( ts->size(), v.size(), "size", "size of " + all ); r.eq( ts->empty(), v.empty(), "size", "empty of " + all ); r.check( ts->tracks() == v, "tracks", "tracks() of " + all );
  F last = 0, first = 0; bool any = false; std::set< F > af; std::set< unsigned long > ai;
  for ( auto const& x : m ) { ai.insert( x.id ); for ( auto const& s : x.h ) { if ( ! any || s.f < first ) { first = s.f; } if ( s.f > last ) { last = s.f; } any = true; af.insert( s.f ); } }
  { auto g = ts->all_frame_ids(); r.check( std::set< F >( g.begin(), g.end() ) == af, "all-frames", "all_frame_ids of " + all ); auto h = ts->all_track_ids(); r.check( std::set< unsigned long >( h.begin(), h.end() ) == ai, "all-ids", "all_track_ids of " + all ); }
  r.eq( (F) ts->first_frame(), first, "set-first-frame", "first_frame of " + all ); r.eq( (F) ts->last_frame(), last, "set-last-frame", "last_frame of " + all );
  for ( long id = 0; id < 7; ++id ) { track_sptr w; for ( size_t i = 0; i < m.size(); ++i ) { if ( (long) m[i].id == id ) { w = v[i]; break; } } r.check( ts->get_track( id ) == w, "get-track", "get_track(" + std::to_string( id ) + ") of " + all ); }
  vector< F > offs = { -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 2147483647L, 2147483648L, 4294967296L, 4294967297L, 4294967298L, -2147483648L, -4294967296L };
  auto frame = [&] ( F o ) -> F { return o >= 0 ? o : last + 1 + o; };   // may be negative: then on no track
  auto at = [&] ( MT const& t, F f ) -> MS const* { for ( auto const& s : t.h ) { if ( s.f == f ) { return &s; } } return nullptr; };
  auto sub = [&] ( track_set_sptr g, std::function< bool ( MT const& ) > p, char const* what, F o ) { vector< track_sptr > w; for ( size_t i = 0; i < m.size(); ++i ) { if ( p( m[i] ) ) { w.push_back( v[i] ); } } r.check( g && g->tracks() == w, what, string( what ) + "(" + std::to_string( o ) + ") of " + all + " gave " + ( g ? show( g->tracks() ) : "null" ) + " expected " + show( w ) ); r.step(); };
  auto feats = [&] ( feature_set_sptr g, descriptor_set_sptr e, F f, char const* what, F o ) { vector< feature_sptr > wf; vector< descriptor_sptr > wd; for ( auto const& x : m ) { if ( MS const* s = at( x, f ) ) { wf.push_back( s->ft ); wd.push_back( s->d ); } } r.check( g->features() == wf, what, string( what ) + "(" + std::to_string( o ) + ") features of " + all ); r.check( e->descriptors() == wd, what, string( what ) + "(" + std::to_string( o ) + ") descriptors of " + all ); r.step( 2 ); };
  for ( F o : offs )
  {
    F f = frame( o );
    sub( ts->active_tracks( o ), [&] ( MT const& t ) { return at( t, f ) != nullptr; }, "active_tracks", o );
    sub( ts->inactive_tracks( o ), [&] ( MT const& t ) { return at( t, f ) == nullptr; }, "inactive_tracks", o );
    sub( ts->new_tracks( o ), [&] ( MT const& t ) { return ! t.h.empty() && t.h.front().f == f; }, "new_tracks", o );
    sub( ts->terminated_tracks( o ), [&] ( MT const& t ) { return ! t.h.empty() && t.h.back().f == f; }, "terminated_tracks", o );
    feats( ts->frame_features( o ), ts->frame_descriptors( o ), f, "frame_features", o );
    if ( o >= -6 && o <= 7 )
    {
      for ( F q = -6; q <= 7; ++q ) { F g = frame( q ); int both = 0, tot = 0; for ( auto const& x : m ) { bool a = at( x, f ), b = at( x, g ); both += a && b; tot += a || b; } double want = tot ? double( both ) / tot : 0; r.eq( ts->percentage_tracked( o, q ), want, "percentage", "percentage_tracked(" + std::to_string( o ) + "," + std::to_string( q ) + ") of " + all ); r.step(); }
    }
  }
  { auto d1 = ts->active_tracks(), d2 = ts->active_tracks( -1 ); r.check( d1->tracks() == d2->tracks() && ts->new_tracks()->tracks() == ts->new_tracks( -1 )->tracks() && ts->terminated_tracks()->tracks() == ts->terminated_tracks( -1 )->tracks() && ts->inactive_tracks()->tracks() == ts->inactive_tracks( -1 )->tracks() && ts->percentage_tracked() == ts->percentage_tracked( -2, -1 ) && ts->frame_features()->features() == ts->frame_features( -1 )->features(), "defaults", "default arguments do not mean the last frame" ); }
  feats( ts->last_frame_features(), ts->last_frame_descriptors(), last, "last_frame_features", -1 );
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
