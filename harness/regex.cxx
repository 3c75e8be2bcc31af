// K02: every pattern and subject within the bounds, compared with a reference backtracking matcher over an independently parsed syntax tree.
#include "mc.h"
#include <kwsys/RegularExpression.hxx>
#include <memory>
using std::string; using std::vector;
typedef kwsys::RegularExpression RE;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace {
struct Node { char t; bool set[256]; vector< Node* > k; int g; }; // t: c(lass) ^ $ ,(cat) |(alt) * + ? ((group)
struct Bad {};
struct Ref
{
  std::vector< std::unique_ptr< Node > > pool; char const* p; int groups = 0; Node* root = nullptr; bool ok = false;
  Node* mk( char t ) { pool.emplace_back( new Node ); Node* n = pool.back().get(); n->t = t; n->g = 0; memset( n->set, 0, sizeof n->set ); return n; }
  static bool nullable( Node* n )
  {
    switch ( n->t ) { case 'c': return false; case '^': case '$': case '*': case '?': return true; case '+': case '(': return nullable( n->k[0] );
    case '|': for ( Node* c : n->k ) { if ( nullable( c ) ) { return true; } } return false; default: for ( Node* c : n->k ) { if ( ! nullable( c ) ) { return false; } } return true; }
  }
  Node* cls()
  {
    Node* n = mk( 'c' ); bool neg = false; string m; if ( *p == '^' ) { neg = true; ++p; } bool first = true; int prev = -1;
    for ( ;; first = false )
    {
      if ( ! *p ) { throw Bad(); } if ( *p == ']' && ! first ) { break; }
      if ( *p == '-' && ! first ) { if ( p[1] == ']' || ! p[1] ) { n->set[(int) '-'] = true; prev = '-'; ++p; continue; } int to = (unsigned char) p[1]; if ( prev > to ) { throw Bad(); } for ( int c = prev; c <= to; ++c ) { n->set[c] = true; } prev = to; p += 2; continue; }
      prev = (unsigned char) *p; n->set[prev] = true; ++p;
    }
    ++p; if ( neg ) { for ( bool& b : n->set ) { b = ! b; } } n->set[0] = false; return n;
  }
  Node* atom()
  {
    char c = *p++; Node* n;
    switch ( c )
    {
    case '^': case '$': return mk( c );
    case '.': n = mk( 'c' ); memset( n->set, 1, sizeof n->set ); n->set[0] = false; return n;
    case '[': return cls();
    case '(': { if ( ++groups > 9 ) { throw Bad(); } n = mk( '(' ); n->g = groups; n->k.push_back( alt() ); if ( *p != ')' ) { throw Bad(); } ++p; return n; }
    case '*': case '+': case '?': throw Bad();
    case '\\': if ( ! *p ) { throw Bad(); } c = *p++; // fall through
    default: n = mk( 'c' ); n->set[(unsigned char) c] = true; return n;
    }
  }
  Node* cat()
  {
    Node* n = mk( ',' );
    while ( *p && *p != '|' && *p != ')' )
    {
      Node* a = atom(); if ( *p == '*' || *p == '+' || *p == '?' ) { char op = *p++; if ( op != '?' && nullable( a ) ) { throw Bad(); } if ( *p == '*' || *p == '+' || *p == '?' ) { throw Bad(); } Node* m = mk( op ); m->k.push_back( a ); a = m; } n->k.push_back( a );
    }
    return n;
  }
  Node* alt() { Node* n = mk( '|' ); n->k.push_back( cat() ); while ( *p == '|' ) { ++p; n->k.push_back( cat() ); } return n; }
  explicit Ref( string const& s ) : p( s.c_str() ) { try { root = alt(); if ( *p ) { throw Bad(); } ok = true; } catch ( Bad const& ) {} }

  struct K { int kind; Node* n; size_t i; K* next; }; // 0: continue the sequence at i, 1: repeat, 2: close the group
  char const *bol, *S[10], *E[10];
  bool go( K* k, char const* s )
  {
    if ( ! k ) { E[0] = s; return true; }
    switch ( k->kind ) { case 0: return seq( k->n, k->i, s, k->next ); case 1: return star( k->n, s, k->next ); default: { int g = k->n->g; char const *os = S[g], *oe = E[g]; S[g] = (char const*) k->i; E[g] = s; if ( go( k->next, s ) ) { return true; } S[g] = os; E[g] = oe; return false; } }
  }
  bool seq( Node* n, size_t i, char const* s, K* k ) { if ( i == n->k.size() ) { return go( k, s ); } K kk = { 0, n, i + 1, k }; return match( n->k[i], s, &kk ); }
  bool star( Node* n, char const* s, K* k ) { K kk = { 1, n, 0, k }; return match( n->k[0], s, &kk ) || go( k, s ); }
  bool match( Node* n, char const* s, K* k )
  {
    switch ( n->t )
    {
    case 'c': return *s && n->set[(unsigned char) *s] && go( k, s + 1 );
    case '^': return s == bol && go( k, s );
    case '$': return ! *s && go( k, s );
    case ',': return seq( n, 0, s, k );
    case '|': for ( Node* c : n->k ) { if ( match( c, s, k ) ) { return true; } } return false;
    case '*': return star( n, s, k );
    case '+': { K kk = { 1, n, 0, k }; return match( n->k[0], s, &kk ); }
    case '?': return match( n->k[0], s, k ) || go( k, s );
    default: { K kk = { 2, n, (size_t) s, k }; return match( n->k[0], s, &kk ); }
    }
  }
  bool find( char const* s ) { bol = s; for ( char const* q = s;; ++q ) { for ( int i = 0; i < 10; ++i ) { S[i] = E[i] = nullptr; } if ( match( root, q, nullptr ) ) { S[0] = q; return true; } if ( ! *q ) { return false; } } }
  string text( int g ) const { return S[g] ? string( S[g], E[g] ) : string(); }
};
struct Subj { char* s; Subj( string const& t ) : s( strdup( t.c_str() ) ) {} };
vector< char* > all_subjects( string const& alpha, size_t n )
{
  vector< string > l = { "" }; vector< char* > r = { strdup( "" ) }; for ( size_t i = 0; i < n; ++i ) { vector< string > m; for ( string const& s : l ) { for ( char c : alpha ) { m.push_back( s + c ); r.push_back( strdup( m.back().c_str() ) ); } } l.swap( m ); } return r;
}
void mute() { static bool const b = freopen( "/dev/null", "w", stdout ) != nullptr; (void) b; }
void compare( mc::Run& r, RE& re, Ref& f, string const& pat, char const* s )
{
  bool const got = re.find( s ), want = f.find( s );
  if ( got != want ) { r.fail( "found", "pattern " + mc::show( pat ) + " in " + mc::show( s ) + ( got ? " was found" : " was not found" ) ); }
  if ( got )
  {
    if ( (long) re.start() != f.S[0] - s || (long) re.end() != f.E[0] - s ) { r.fail( "extent", "pattern " + mc::show( pat ) + " in " + mc::show( s ) + " found at [" + std::to_string( (long) re.start() ) + "," + std::to_string( (long) re.end() ) + ") instead of [" + std::to_string( f.S[0] - s ) + "," + std::to_string( f.E[0] - s ) + ")" ); }
    for ( int g = 0; g < 10; ++g ) { string m = re.match( g ); if ( m != f.text( g ) ) { r.fail( "group", "pattern " + mc::show( pat ) + " in " + mc::show( s ) + ": group " + std::to_string( g ) + " is " + mc::show( m ) + " instead of " + mc::show( f.text( g ) ) ); } if ( g && f.S[g] && ( (long) re.start( g ) != f.S[g] - s || (long) re.end( g ) != f.E[g] - s ) ) { r.fail( "group", "pattern " + mc::show( pat ) + " in " + mc::show( s ) + ": group " + std::to_string( g ) + " is at [" + std::to_string( (long) re.start( g ) ) + "," + std::to_string( (long) re.end( g ) ) + ")" ); } }
  }
  r.step();
}
// one pattern against every subject
bool one( mc::Run& r, string const& pat, vector< char* > const& subj )
{
  Ref f( pat ); char* p = strdup( pat.c_str() ); RE re; bool const got = re.compile( p ); free( p );
  if ( got != f.ok || re.is_valid() != got ) { r.fail( "compile", "pattern " + mc::show( pat ) + ( got ? " was accepted" : " was rejected" ) ); }
  if ( got ) { for ( char* s : subj ) { compare( r, re, f, pat, s ); } r.state( mc::hash_str( pat ) ); } else if ( re.find( "a" ) ) { r.fail( "compile", "rejected pattern " + mc::show( pat ) + " matches" ); }
  r.count(); return got;
}
void extend( mc::Run& r, string const& pat, string const& alpha, int left, vector< char* > const& subj, string const& pre = "", string const& post = "" )
{
  one( r, pre + pat + post, subj ); if ( left ) { for ( char c : alpha ) { extend( r, pat + c, alpha, left - 1, subj, pre, post ); } }
}
void enumerate( mc::Run& r, string const& alpha, int n, vector< char* > const& subj, string const& pre = "", string const& post = "" )
{
  mute(); int a = r.choose( (int) alpha.size() + 1 ); if ( ! a ) { one( r, pre + post, subj ); return; } int b = r.choose( (int) alpha.size() + 1 ); string p( 1, alpha[a - 1] ); if ( ! b ) { one( r, pre + p + post, subj ); return; }
  p += alpha[b - 1]; r.log( "all patterns " + pre + p + "... up to " + std::to_string( n ) + " characters" ); extend( r, p, alpha, n - 2, subj, pre, post );
}
}
SCENARIO( k02_syntax, 2 ) { static auto const s = all_subjects( "ab-]", 3 ); enumerate( r, "ab.[]^$()|*+?\\-", r.bound( 5, 6 ), s ); }
SCENARIO( k02_structure, 2 ) { static auto const s = all_subjects( "ab", 5 ); enumerate( r, "ab()|*+?", r.bound( 7, 8 ), s ); }
SCENARIO( k02_anchors, 2 ) { static auto const s = all_subjects( "ab", 4 ); enumerate( r, "ab^$()|*?", r.bound( 6, 7 ), s ); }
SCENARIO( k02_repeat, 2 ) { static auto const s = all_subjects( "ab", 6 ); enumerate( r, "ab.*+?", r.bound( 7, 8 ), s ); }
SCENARIO( k02_nested, 2 ) { static auto const s = all_subjects( "ab", 6 ); enumerate( r, "a(b)*+|?", r.bound( 6, 7 ), s, "x?(a|(", "))*b?" ); }
SCENARIO( k02_class, 2 )
{
  static vector< char* > s; if ( s.empty() ) { for ( int c = 1; c < 256; ++c ) { s.push_back( strdup( string( 1, (char) c ).c_str() ) ); } for ( char const* t : { "", "ab", "bax", "d-]", "\xff\xfe" } ) { s.push_back( strdup( t ) ); } }
  int const form = r.choose( 3 ); enumerate( r, "abd-]^\\\xff", form ? 3 : r.bound( 4, 5 ), s, form == 1 ? "[^" : "[", form == 2 ? "]*x?" : "]" );
}
SCENARIO( k02_large, 2 )
{
  mute(); int const kind = r.choose( 7 ), n = r.choose( 14 ); static int const len[] = { 1, 2, 8, 9, 10, 11, 63, 255, 256, 1000, 5000, 32700, 32761, 40000 }; int const k = len[n]; string pat, subj; bool ok = true;
  switch ( kind )
  {
  case 0: pat.assign( k, 'a' ); subj = "b" + string( k, 'a' ) + "b"; break; // literal
  case 1: for ( int i = 0; i < k; ++i ) { pat += '('; } pat += 'a'; for ( int i = 0; i < k; ++i ) { pat += ')'; } subj = "ba"; ok = k <= 9; if ( k > 3000 ) { return; } break; // nesting
  case 2: for ( int i = 0; i < k; ++i ) { pat += "(a)"; } subj = string( k + 1, 'a' ); ok = k <= 9; break; // sequence of groups
  case 3: if ( k > 3000 ) { return; } for ( int i = 0; i < k; ++i ) { pat += i ? "|b" : "b"; } pat += "|a"; subj = "cca"; break; // many alternatives
  case 4: pat = "x.*a"; subj = "x" + string( k, 'b' ) + "a"; break; // long subjects
  case 5: if ( k > 5000 ) { return; } pat = "x(a|b)*c"; subj = "x"; for ( int i = 0; i < k; ++i ) { subj += "ab"[i & 1]; } subj += "c"; break;
  default: pat = "["; pat += string( k, 'b' ) + "a]+"; subj = "xx" + string( 20, 'a' ); break;
  }
  r.log( "kind " + std::to_string( kind ) + " size " + std::to_string( k ) ); RE re; bool got = re.compile( pat ); if ( ! ( kind == 0 || kind == 6 ) || k < 32000 ) { r.check( got == ok, "compile", "a pattern of size " + std::to_string( k ) + ( got ? " accepted" : " rejected" ) ); }
  if ( got )
  {
    char* s = strdup( subj.c_str() ); bool const hit = re.find( s ); long const from = kind == 0 ? 1 : kind == 4 || kind == 5 ? 0 : kind == 6 ? 2 : kind == 3 ? 2 : kind == 1 ? 1 : 0, to = kind == 0 ? 1 + k : kind == 1 ? 2 : kind == 2 ? k : kind == 3 ? 3 : (long) subj.size();
    r.check( hit && (long) re.start() == from && (long) re.end() == to, "extent", "kind " + std::to_string( kind ) + " size " + std::to_string( k ) + ( hit ? " found at [" + std::to_string( (long) re.start() ) + "," + std::to_string( (long) re.end() ) + ")" : " not found" ) );
    if ( kind == 1 || kind == 2 ) { for ( int g = 1; g <= k; ++g ) { r.check( re.match( g ) == "a" && (long) re.start( g ) == ( kind == 1 ? 1 : g - 1 ), "group", "group " + std::to_string( g ) ); } }
    RE copy( re ); r.check( copy.is_valid() && copy == re && copy.find( s ) == hit, "copy", "a copy differs" ); free( s );
  }
  r.step(); r.state( mc::mix( kind, n ) );
}
SCENARIO( k02_copies, 2 )
{
  mute(); static char const* const pats[] = { "a(b*)", "(a|b)+c", "x*y", "(" }; static char const* const subj[] = { "zabb", "bac", "" }; 
  string hist; string err;
  {
    RE o[2]; struct M { string pat; bool valid = false; int last = -1; bool hit = false; } m[2]; int const n = r.bound( 4, 5 );
    for ( int i = 0; i < n && err.empty(); ++i )
    {
      int const op = r.choose( 21 ); if ( op == 20 ) { break; } int const a = op >= 10, k = op % 10; hist += " " + std::to_string( op );
      if ( k < 4 ) { bool ok = o[a].compile( pats[k] ); if ( ok != ( k < 3 ) ) { err = "compile"; } if ( ok ) { m[a] = M(); m[a].pat = pats[k]; m[a].valid = true; } else if ( m[a].valid && o[a].is_valid() ) { /* the former expression may survive a failed compilation */ } else { m[a] = M(); } if ( ! ok ) { o[a].set_invalid(); m[a] = M(); } }
      else if ( k < 7 ) { bool hit = o[a].find( subj[k - 4] ), want = false; if ( m[a].valid ) { Ref f( m[a].pat ); want = f.find( subj[k - 4] ); } if ( hit != want ) { err = "found"; } m[a].last = k - 4; m[a].hit = want; }
      else if ( k == 7 ) { o[a] = o[1 - a]; m[a] = m[1 - a]; }
      else if ( k == 8 ) { RE& self = o[a]; o[a] = self; RE t( o[a] ); o[a] = t; }
      else { o[a].set_invalid(); m[a] = M(); }
      for ( int b = 0; b < 2; ++b )
      {
        RE c( o[b] ); for ( RE* e : { &o[b], &c } )
        {
          char const* who = e == &c ? "copy" : "object"; if ( e->is_valid() != m[b].valid ) { err = string( who ) + " validity"; break; } if ( ! m[b].valid ) { continue; }
          if ( m[b].hit ) { Ref f( m[b].pat ); f.find( subj[m[b].last] ); for ( int g = 0; g < 3; ++g ) { if ( e->match( g ) != f.text( g ) ) { err = string( who ) + " of " + m[b].pat + ": group " + std::to_string( g ) + " of the last match is " + e->match( g ); } } if ( (long) e->start() != f.S[0] - f.bol || (long) e->end() != f.E[0] - f.bol ) { err = string( who ) + " of " + m[b].pat + ": position of the last match"; } }
          if ( ! ( *e == o[b] ) || *e != o[b] || ( m[b].hit && ! e->deep_equal( o[b] ) ) ) { err = string( who ) + " is not equal to its original"; }
        }
        if ( m[b].valid ) { for ( int j = 0; j < 3; ++j ) { RE d( c ); Ref f( m[b].pat ); if ( d.find( subj[j] ) != f.find( subj[j] ) || ( f.S[0] && d.match( 0 ) != f.text( 0 ) ) ) { err = "copy of " + m[b].pat + " finds something else in " + subj[j]; } } }
      }
      if ( m[0].valid && m[1].valid && ( o[0] == o[1] ) != ( m[0].pat == m[1].pat ) ) { err = "comparison of " + m[0].pat + " and " + m[1].pat; } if ( m[0].valid != m[1].valid && o[0] == o[1] ) { err = "a valid expression equals an invalid one"; }
      r.step();
    }
    r.log( "operations" + hist ); r.state( mc::hash_str( m[0].pat + "/" + m[1].pat + "/" + std::to_string( m[0].last ) + std::to_string( m[1].last ) ) ); r.check( err.empty(), "copy", "after operations" + hist + ": " + err );
  }
}
// memory is released: repeated histories do not grow
SCENARIO( k02_leaks, 1 )
{
  mute(); int const kind = r.choose( 6 ); auto act = [&] () { RE a( "a(b*)" ), b( "x+" ), none; switch ( kind ) { case 0: a = b; break; case 1: a = none; break; case 2: a.compile( "yy" ); break; case 3: a.compile( "(" ); break; case 4: { RE c( a ); c = none; c = b; } break; default: a.set_invalid(); a = b; } };
  act(); size_t const before = __sanitizer_get_current_allocated_bytes(); for ( int i = 0; i < 50; ++i ) { act(); } size_t const after = __sanitizer_get_current_allocated_bytes(); r.log( "kind " + std::to_string( kind ) ); r.step( 50 ); r.state( mc::mix( 77, kind ) );
  r.check( after < before + 100, "leak", "50 repetitions of history " + std::to_string( kind ) + " leave " + std::to_string( after - before ) + " bytes allocated" );
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
