// Reference interpreter for configuration files, written from
// vital/config/doc/config_file_format.md.dox.
#ifndef VERIF_CONFIG_MODEL_H
#define VERIF_CONFIG_MODEL_H
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <algorithm>
#include <sys/stat.h>

namespace cm {
using std::string; using std::vector; using std::map; using std::set;

struct Entry { string v; bool ro = false; string file; int line = 0; };
struct Result { map< string, Entry > e; set< string > errors; };   // errors: "parse" "notfound" "ro"; empty = accepted

inline string trim( string const& s )
{
  char const* ws = " \t\r\n\v\f";
  size_t b = s.find_first_not_of( ws ); if ( b == string::npos ) { return ""; }
  return s.substr( b, s.find_last_not_of( ws ) - b + 1 );
}
inline bool letter( char c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); }
inline bool digit( char c ) { return c >= '0' && c <= '9'; }
inline bool wordc( char c ) { return letter( c ) || digit( c ) || c == '.' || c == '/' || c == '_' || c == '-' || c == ':'; }
inline bool namec( char c ) { return wordc( c ); }

// word at the start of s ("" if none); it starts with a letter and does not end with ':'
inline string word( string const& s )
{
  if ( s.empty() || ! letter( s[0] ) ) { return ""; }
  size_t n = 1; while ( n < s.size() && wordc( s[n] ) ) { ++n; }
  while ( n > 1 && s[n - 1] == ':' ) { --n; }
  return s.substr( 0, n );
}
// flag at the start of s
inline string flag( string const& s )
{
  if ( s.empty() || s[0] != '[' ) { return ""; }
  size_t n = 1; while ( n < s.size() && ( letter( s[n] ) || s[n] == ',' ) ) { ++n; }
  if ( n == 1 || n >= s.size() || s[n] != ']' ) { return ""; }
  return s.substr( 0, n + 1 );
}

struct World
{
  map< string, string > files;          // absolute path -> content
  vector< string > search;              // configured search directories
  map< string, string > env;
  string cwd;                           // for relative main paths
};

class Interp
{
public:
  World const& w; Result r; map< string, string > local; vector< string > blocks;
  vector< string > stack; bool latched = false; bool stop = false;
  Interp( World const& w_ ) : w( w_ ) {}

  static string dir_of( string const& p ) { size_t i = p.rfind( '/' ); return i == string::npos ? "." : i == 0 ? "/" : p.substr( 0, i ); }
  string prefix() const { string s; for ( auto const& b : blocks ) { s += b + ":"; } return s; }

  bool lookup( string const& type, string const& name, string& out )
  {
    if ( type == "LOCAL" ) { auto i = local.find( name ); out = i == local.end() ? "" : i->second; return true; }
    if ( type == "CONFIG" ) { auto i = r.e.find( name ); out = i == r.e.end() ? "" : i->second.v; return true; }
    if ( type == "ENV" ) { auto i = w.env.find( name ); out = i == w.env.end() ? "" : i->second; return true; }
    if ( type == "SYSENV" )
    {
      out = "";
      if ( name == "islinux" ) { out = "TRUE"; } else if ( name == "iswindows" || name == "isapple" ) { out = "FALSE"; }
      else if ( name == "cwd" ) { out = w.cwd; }
      return true;
    }
    return false;
  }
  string expand( string const& s )
  {
    string o; size_t i = 0;
    while ( i < s.size() )
    {
      if ( s[i] == '$' )
      {
        size_t j = i + 1;
        if ( j < s.size() && letter( s[j] ) )
        {
          ++j; while ( j < s.size() && ( letter( s[j] ) || digit( s[j] ) || s[j] == '_' ) ) { ++j; }
          if ( j < s.size() && s[j] == '{' )
          {
            size_t k = j + 1; while ( k < s.size() && namec( s[k] ) ) { ++k; }
            if ( k < s.size() && s[k] == '}' )
            {
              string v;
              if ( lookup( s.substr( i + 1, j - i - 1 ), s.substr( j + 1, k - j - 1 ), v ) ) { o += v; } else { o += s.substr( i, k + 1 - i ); }
              i = k + 1; continue;
            }
          }
        }
      }
      o += s[i++];
    }
    return o;
  }
  void now( char const* e ) { r.errors.insert( e ); if ( latched ) { r.errors.insert( "parse" ); } stop = true; }
  void bad() { latched = true; }

  string find( string const& name )
  {
    if ( ! name.empty() && name[0] == '/' ) { return w.files.count( name ) ? name : ""; }
    vector< string > dirs = w.search;
    for ( size_t i = stack.size(); i-- > 0; ) { dirs.push_back( abs( dir_of( stack[i] ) ) ); }
    for ( auto const& d : dirs ) { string p = norm( d + "/" + name ); if ( w.files.count( p ) ) { return p; } }
    return "";
  }
  string abs( string const& p ) { return p[0] == '/' ? p : norm( w.cwd + "/" + p ); }
  static string norm( string const& p )
  {
    vector< string > v; size_t i = 0;
    while ( i < p.size() ) { size_t j = p.find( '/', i ); if ( j == string::npos ) { j = p.size(); } string c = p.substr( i, j - i ); if ( c == ".." ) { if ( ! v.empty() ) { v.pop_back(); } } else if ( c != "" && c != "." ) { v.push_back( c ); } i = j + 1; }
    string o; for ( auto const& c : v ) { o += "/" + c; } return o.empty() ? "/" : o;
  }

  void file( string const& path )       // path as the reader knows it
  {
    auto it = w.files.find( abs( path ) );
    if ( it == w.files.end() ) { now( "notfound" ); return; }
    stack.push_back( path );
    string const& c = it->second; size_t pos = 0; int line = 0;
    while ( pos < c.size() && ! stop )
    {
      size_t nl = c.find( '\n', pos ); string l = c.substr( pos, nl == string::npos ? string::npos : nl - pos ); pos = nl == string::npos ? c.size() : nl + 1; ++line;
      size_t h = l.find( '#' ); if ( h != string::npos ) { l = l.substr( 0, h ); }
      l = trim( l ); if ( l.empty() ) { continue; }
      statement( l, path, line );
    }
    stack.pop_back();
  }
  void statement( string l, string const& path, int line )
  {
    string wd = word( l );
    if ( wd.empty() ) { bad(); return; }
    string rest = trim( l.substr( wd.size() ) );
    if ( wd == "include" )
    {
      string f = find( expand( rest ) );
      if ( f.empty() ) { now( "notfound" ); return; }
      for ( auto const& a : stack ) { if ( abs( a ) == abs( f ) ) { now( "parse" ); return; } }   // recursive inclusion
      file( f ); return;
    }
    if ( wd == "block" )
    {
      string b = word( rest ); if ( b.empty() ) { bad(); return; }
      blocks.push_back( b ); return;
    }
    if ( wd == "endblock" ) { if ( blocks.empty() ) { now( "parse" ); return; } blocks.pop_back(); return; }
    bool rel = false;
    if ( wd == "relativepath" ) { rel = true; wd = word( rest ); if ( wd.empty() ) { bad(); return; } rest = trim( rest.substr( wd.size() ) ); }
    bool ro = false;
    for ( string f = flag( rest ); ! f.empty(); f = flag( rest ) )
    {
      string u = f; std::transform( u.begin(), u.end(), u.begin(), ::toupper );
      if ( u == "[RO]" ) { ro = true; } else { bad(); }
      rest = trim( rest.substr( f.size() ) );
    }
    if ( rest.compare( 0, 2, ":=" ) == 0 ) { local[wd] = expand( trim( rest.substr( 2 ) ) ); return; }
    if ( rest.empty() || rest[0] != '=' ) { bad(); return; }
    string v = expand( trim( rest.substr( 1 ) ) );
    if ( rel ) { v = dir_of( path ) + "/" + v; }
    string key = prefix() + wd;
    Entry& e = r.e[key];
    if ( e.ro ) { now( "ro" ); return; }
    e.v = trim( v ); e.file = path; e.line = line; if ( ro ) { e.ro = true; }
  }
  Result run( string const& main )
  {
    file( main );
    if ( ! stop && ( latched || ! blocks.empty() ) ) { r.errors.insert( "parse" ); }
    if ( stop && latched ) { r.errors.insert( "parse" ); }
    if ( ! r.errors.empty() ) { r.e.clear(); }
    return r;
  }
};
} // namespace cm
#endif
