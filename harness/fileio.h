#ifndef VERIF_FILEIO_H
#define VERIF_FILEIO_H
#include "mc.h"
#include <iostream>
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
namespace fio {
using std::string; using std::vector;
struct NullBuf : std::streambuf { int overflow( int c ) { return c; } };
inline void quiet() { static NullBuf b; std::cerr.rdbuf( &b ); std::cout.rdbuf( &b ); }
inline string base( mc::Run& r )
{
  static string b;
  if ( b.empty() ) { char buf[4096]; if ( ! realpath( r.scratch.c_str(), buf ) ) { throw mc::Divergence( "scratch" ); } b = buf; quiet(); }
  return b;
}
inline void put( string const& path, string const& content )
{
  int fd = ::open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
  if ( fd < 0 || ::write( fd, content.data(), content.size() ) != (ssize_t) content.size() ) { throw mc::Divergence( "cannot write " + path ); }
  ::close( fd );
}
inline string slurp( string const& p ) { std::ifstream f( p.c_str(), std::ios::binary ); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline vector< string > toks( string const& s ) { std::istringstream i( s ); vector< string > v; string t; while ( i >> t ) { v.push_back( t ); } return v; }
inline vector< string > lines( string const& s ) { vector< string > v; std::istringstream i( s ); string t; while ( std::getline( i, t ) ) { v.push_back( t ); } return v; }
inline bool number( string const& t ) { if ( t.empty() || isalpha( t[0] ) ) { return false; } char* e; double v = strtod( t.c_str(), &e ); (void) v; return *e == 0 && t.find_first_of( "xXnN" ) == string::npos; }
inline bool integer( string const& t ) { if ( t.empty() ) { return false; } char* e; strtoll( t.c_str(), &e, 10 ); return *e == 0; }
inline bool near( double a, double b, double rel, double abs = 0 ) { if ( a == b ) { return true; } double m = std::max( std::fabs( a ), std::fabs( b ) ); return std::fabs( a - b ) <= rel * m + abs; }
}
#endif
