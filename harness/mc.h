// Bounded exhaustive explorer for nondeterministic harness programs.
//
// A harness is a set of named scenarios.  A scenario body is ordinary C++ that
// drives the real code and asks r.choose(n) wherever the environment, the
// caller or the input may vary.  The explorer enumerates *every* sequence of
// choices (depth first, odometer order); each execution starts from scratch.
// Work is split over shards by the hash of the first few choices.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <sstream>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <fstream>
#include <limits>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {

inline uint64_t mix( uint64_t h, uint64_t v )
{
  h ^= v + 0x9e3779b97f4a7c15ULL + ( h << 6 ) + ( h >> 2 );
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_str( std::string const& s, uint64_t h = 1469598103934665603ULL )
{
  for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ULL; }
  return mix( h, s.size() );
}

struct Skip {};
struct Stop {};
struct Divergence : std::runtime_error { Divergence( std::string const& s ) : std::runtime_error( s ) {} };
struct Fail { std::string key, msg; };

// printable form of arbitrary bytes
inline std::string show( std::string const& s )
{
  std::string o = "\"";
  for ( unsigned char c : s )
  {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += (char) c; }
    else if ( c == '\n' ) { o += "\\n"; }
    else if ( c == '\t' ) { o += "\\t"; }
    else if ( c < 32 || c > 126 ) { char b[8]; snprintf( b, sizeof b, "\\x%02x", c ); o += b; }
    else { o += (char) c; }
  }
  return o + "\"";
}

struct Shared
{
  volatile uint64_t exec;
  volatile uint32_t n;
  volatile int32_t  c[ 4096 ];
};

class Run
{
public:
  int tier = 0;         // 0 quick, 1 thorough
  bool verbose = false; // replaying: collect the log

  bool thorough() const { return tier > 0; }
  int bound( int q, int t ) const { return tier ? t : q; }

  // every value 0..n-1 is explored
  int choose( int n )
  {
    if ( n <= 0 ) { throw Divergence( "choose(0)" ); }
    int v;
    if ( pos < path.size() )
    {
      if ( arity[pos] == 0 ) { arity[pos] = n; }
      if ( arity[pos] != n || path[pos] >= n ) { throw Divergence( "harness is not deterministic: arity changed while replaying a prefix" ); }
      v = path[pos];
    }
    else
    {
      path.push_back( 0 ); arity.push_back( n ); v = 0;
    }
    if ( sh && pos < 4096 ) { sh->c[pos] = v; sh->n = (uint32_t) pos + 1; }
    ++pos;
    if ( pos == split && nshard > 1 ) { check_shard(); }
    return v;
  }
  bool flip() { return choose( 2 ) == 1; }
  template < typename T > T const& pick( std::vector< T > const& v ) { return v[ choose( (int) v.size() ) ]; }

  // one step of the system under test executed
  void step( uint64_t n = 1 ) { transitions += n; }
  // a state (of the reference model / observed) has been reached; true if it is new to this worker
  bool state( uint64_t h ) { if ( states.size() > 12000000 ) { return true; } return states.insert( h ).second; }
  bool state( std::string const& s ) { return state( hash_str( s ) ); }

  void log( std::string const& s ) { if ( verbose ) { trace.push_back( s ); } }
  // what an execution compared, written out as its sample if it logs nothing itself
  void note( std::string s ) { if ( notes.size() < 4 ) { size_t at = s.find( " instead of " ); if ( at != std::string::npos ) { s.replace( at, 12, ", expected " ); } notes.push_back( s ); } }
  // Stateful pruning: true if the state (hash of everything the future depends on) was already
  // explored from a point with at least `left` operations to go.  Prefixes being re-executed never prune.
  bool prune( uint64_t h, int left )
  {
    auto it = best.find( h );
    if ( pos < base ) { if ( it == best.end() || it->second < left ) { best[h] = left; } return false; }
    if ( it != best.end() && it->second >= left ) { return true; }
    best[h] = left;
    return false;
  }
  std::unordered_map< uint64_t, int > best;
  size_t base = 0;
  // vacuity accounting: distinct observed outcomes
  void outcome( std::string const& s ) { if ( outcomes.size() < 5000 || outcomes.count( s ) ) { ++outcomes[s]; } }

  [[noreturn]] void fail( std::string const& key, std::string const& msg ) { throw Fail{ key, msg }; }
  void check( bool ok, char const* key, std::string const& msg ) { if ( ! ok ) { fail( key, msg ); } if ( verbose ) { note( msg ); } }
  template < typename A, typename B >
  void eq( A const& got, B const& want, char const* key, std::string const& what )
  {
    if ( ! ( got == want ) )
    {
      std::ostringstream o; o.precision( 17 );
      o << what << ": got " << got << ", expected " << want;
      fail( key, o.str() );
    }
    if ( verbose ) { std::ostringstream o; o << what << " = " << want; note( o.str() ); }
  }
  void eqs( std::string const& got, std::string const& want, char const* key, std::string const& what )
  {
    if ( got != want ) { fail( key, what + ": got " + show( got ) + ", expected " + show( want ) ); }
    if ( verbose ) { note( what + " = " + show( want ) ); }
  }
  // several executions inside one body (an inner exhaustive loop)
  void count( uint64_t n = 1 ) { extra += n; }
  // scratch directory private to this worker
  std::string scratch;
  int shard_index() const { return shard; }

  // ---- machinery ----
  std::vector< int > path, arity;
  size_t pos = 0;
  size_t split = 2; int shard = 0, nshard = 1;
  Shared* sh = nullptr;
  uint64_t transitions = 0, extra = 0;
  std::unordered_set< uint64_t > states;
  std::map< std::string, uint64_t > outcomes;
  std::vector< std::string > trace, notes;

  void check_shard()
  {
    uint64_t h = 7;
    for ( size_t i = 0; i < split && i < path.size(); ++i ) { h = mix( h, path[i] ); }
    if ( (int) ( h % nshard ) != shard ) { throw Skip(); }
  }
};

typedef std::function< void ( Run& ) > Body;
struct Scn { std::string name; int split; Body body; };
inline std::vector< Scn >& scns() { static std::vector< Scn > v; return v; }
struct Reg { Reg( char const* n, int split, Body b ) { scns().push_back( Scn{ n, split, b } ); } };
#define SCENARIO( NAME, SPLIT ) \
  static void scn_ ## NAME( mc::Run& r ); \
  static mc::Reg reg_ ## NAME( #NAME, SPLIT, scn_ ## NAME ); \
  static void scn_ ## NAME( mc::Run& r )

inline std::string jesc( std::string const& s )
{
  std::string o;
  for ( unsigned char c : s )
  {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += (char) c; }
    else if ( c < 32 || c > 126 ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
    else { o += (char) c; }
  }
  return o;
}

inline Shared*& g_shared() { static Shared* s = nullptr; return s; }
inline void on_tick( int )
{
  static uint64_t last = ~0ull; static int same = 0;
  Shared* s = g_shared();
  if ( ! s ) { return; }
  if ( s->exec == last ) { if ( ++same >= 3 ) { _exit( 97 ); } }
  else { same = 0; last = s->exec; }
}

inline std::string csv( std::vector< int > const& v, size_t n )
{
  std::ostringstream o;
  for ( size_t i = 0; i < n && i < v.size(); ++i ) { o << ( i ? "," : "" ) << v[i]; }
  return o.str();
}

inline int main_( int argc, char** argv )
{
  std::string scn, out, replay, scratch = "/tmp"; bool do_replay = false, list = false;
  int shard = 0, nshard = 1, tier = 0; double cap = 1e9;
  for ( int i = 1; i < argc; ++i )
  {
    std::string a = argv[i];
    auto next = [&] () -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if ( a == "--list" ) { list = true; }
    else if ( a == "--scn" ) { scn = next(); }
    else if ( a == "--out" ) { out = next(); }
    else if ( a == "--scratch" ) { scratch = next(); }
    else if ( a == "--tier" ) { tier = next() == "thorough"; }
    else if ( a == "--cap" ) { cap = atof( next().c_str() ); }
    else if ( a == "--replay" ) { do_replay = true; replay = next(); }
    else if ( a == "--shard" ) { sscanf( next().c_str(), "%d/%d", &shard, &nshard ); }
  }
  if ( list ) { for ( auto const& s : scns() ) { printf( "%s\n", s.name.c_str() ); } return 0; }
  Scn* s = nullptr;
  for ( auto& x : scns() ) { if ( x.name == scn ) { s = &x; } }
  if ( ! s ) { fprintf( stderr, "no scenario %s\n", scn.c_str() ); return 2; }

  Run r; r.tier = tier; r.shard = shard; r.nshard = nshard; r.split = s->split; r.scratch = scratch;
  if ( do_replay )
  {
    r.nshard = 1; r.verbose = true;
    std::istringstream is( replay ); std::string tok;
    while ( std::getline( is, tok, ',' ) ) { if ( ! tok.empty() ) { r.path.push_back( atoi( tok.c_str() ) ); } }
    // arity is unknown when replaying: it is learned as we go (0 = any)
    r.arity.assign( r.path.size(), 0 );
    std::string verdict = "HOLDS", msg, key;
    try { s->body( r ); }
    catch ( Fail const& f ) { verdict = "VIOLATED"; key = f.key; msg = f.msg; }
    catch ( Divergence const& d ) { verdict = "DIVERGED"; msg = d.what(); }
    catch ( Skip const& ) {}
    catch ( std::exception const& e ) { verdict = "VIOLATED"; key = "unexpected-exception"; msg = std::string( "unexpected exception: " ) + e.what(); }
    catch ( ... ) { verdict = "VIOLATED"; key = "unexpected-exception"; msg = "unexpected unknown exception"; }
    for ( auto const& t : r.trace ) { printf( "  | %s\n", t.c_str() ); }
    printf( "REPLAY %s key=%s %s\n", verdict.c_str(), key.c_str(), msg.c_str() );
    fflush( stdout );
    _exit( verdict == "HOLDS" ? 0 : verdict == "VIOLATED" ? 1 : 2 );
  }

  if ( ! out.empty() )
  {
    int fd = ::open( ( out + ".cur" ).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
    if ( fd >= 0 && ftruncate( fd, sizeof( Shared ) ) == 0 )
    {
      r.sh = (Shared*) mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
      if ( r.sh == MAP_FAILED ) { r.sh = nullptr; }
    }
    if ( fd >= 0 ) { ::close( fd ); }
  }
  g_shared() = r.sh;
  if ( r.sh )
  {
    signal( SIGALRM, on_tick );
    struct itimerval tv; tv.it_interval.tv_sec = 15; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    setitimer( ITIMER_REAL, &tv, nullptr );
  }

  struct V { std::string key, msg, path; };
  std::vector< V > viol; std::map< std::string, int > per_key; uint64_t nviol = 0;
  std::vector< std::string > samples;
  uint64_t execs = 0; bool capped = false, diverged = false; std::string div_msg;
  size_t maxdepth = 0;
  struct timeval t0; gettimeofday( &t0, nullptr );
  auto elapsed = [&] () { struct timeval t; gettimeofday( &t, nullptr ); return ( t.tv_sec - t0.tv_sec ) + 1e-6 * ( t.tv_usec - t0.tv_usec ); };
  uint64_t nsample = 1, maxviol = getenv( "VERIF_MAXVIOL" ) ? 0 : 2000;
  for (;; )
  {
    r.pos = 0; r.base = r.path.size(); r.trace.clear(); r.notes.clear();
    if ( r.sh ) { r.sh->n = 0; r.sh->exec = r.sh->exec + 1; }
    bool skipped = false;
    // write out a few executions in full
    r.verbose = samples.size() < 2 || ( execs + 1 == nsample && samples.size() < 8 );
    try
    {
      s->body( r );
      if ( nshard > 1 && r.pos < r.split ) { r.path.resize( r.pos ); r.check_shard(); }
    }
    catch ( Skip const& ) { skipped = true; }
    catch ( Divergence const& d ) { diverged = true; div_msg = d.what(); break; }
    catch ( Fail const& f )
    {
      bool mine = true;
      if ( nshard > 1 && r.pos < r.split ) { try { r.path.resize( r.pos ); r.check_shard(); } catch ( Skip const& ) { mine = false; } }
      if ( mine ) { ++nviol; if ( per_key[f.key]++ < 3 && viol.size() < 60 ) { viol.push_back( V{ f.key, f.msg, csv( r.path, r.pos ) } ); } }
    }
    catch ( std::exception const& e )
    {
      bool mine = true;
      if ( nshard > 1 && r.pos < r.split ) { try { r.path.resize( r.pos ); r.check_shard(); } catch ( Skip const& ) { mine = false; } }
      if ( mine ) { ++nviol; if ( per_key["unexpected-exception"]++ < 3 ) { viol.push_back( V{ "unexpected-exception", std::string( "unexpected exception: " ) + e.what(), csv( r.path, r.pos ) } ); } }
    }
    if ( ! skipped )
    {
      ++execs;
      if ( r.pos > maxdepth ) { maxdepth = r.pos; }
      if ( r.trace.empty() ) { r.trace.swap( r.notes ); }
      if ( r.verbose && r.trace.empty() ) { r.trace.push_back( "choices " + csv( r.path, r.pos ) ); }
      if ( r.verbose )
      {
        std::string t; for ( auto const& x : r.trace ) { t += ( t.empty() ? "" : " ; " ) + x; if ( t.size() > 600 ) { t += " ..."; break; } }
        samples.push_back( t );
      }
      if ( execs >= nsample ) { nsample = nsample * 4 + 1; }
    }
    // next path
    r.path.resize( r.pos < r.path.size() ? r.pos : r.path.size() ); r.arity.resize( r.path.size() );
    while ( ! r.path.empty() && r.path.back() + 1 >= r.arity.back() ) { r.path.pop_back(); r.arity.pop_back(); }
    if ( r.path.empty() ) { break; }
    ++r.path.back();
    if ( nviol > maxviol ) { capped = true; break; }
    if ( ( execs & 63 ) == 0 && elapsed() > cap ) { capped = true; break; }
  }
  if ( ! out.empty() )
  {
    std::ofstream st( ( out + ".states" ).c_str(), std::ios::binary );
    for ( uint64_t h : r.states ) { st.write( (char const*) &h, 8 ); }
    st.close();
    std::ofstream o( out.c_str() );
    o << "{\"scenario\":\"" << s->name << "\",\"execs\":" << execs + r.extra << ",\"transitions\":" << r.transitions
      << ",\"states\":" << r.states.size() << ",\"maxdepth\":" << maxdepth << ",\"capped\":" << ( capped ? "true" : "false" )
      << ",\"diverged\":\"" << jesc( div_msg ) << "\",\"nviol\":" << nviol << ",\"wall\":" << elapsed() << ",\"violations\":[";
    for ( size_t i = 0; i < viol.size(); ++i )
    {
      o << ( i ? "," : "" ) << "{\"key\":\"" << jesc( viol[i].key ) << "\",\"msg\":\"" << jesc( viol[i].msg ) << "\",\"path\":\"" << viol[i].path << "\"}";
    }
    o << "],\"samples\":[";
    for ( size_t i = 0; i < samples.size(); ++i ) { o << ( i ? "," : "" ) << "\"" << jesc( samples[i] ) << "\""; }
    o << "],\"outcomes\":{";
    bool first = true;
    for ( auto const& kv : r.outcomes ) { o << ( first ? "" : "," ) << "\"" << jesc( kv.first ) << "\":" << kv.second; first = false; }
    o << "}}\n";
    o.close();
  }
  fflush( nullptr );
  _exit( diverged ? 3 : 0 );
}

} // namespace mc
#endif
