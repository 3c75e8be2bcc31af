// C27: enumeration of sparse matrices and splitting of text.
#include "mc.h"
#include <vital/util/enumerate_matrix.h>
#include <vital/util/tokenize.h>
#include <deque>
#include <list>
using namespace kwiver::vital;
using std::string; using std::vector;
namespace {
typedef std::tuple< long, long, double > Cell;
string show( vector< Cell > const& v ) { std::ostringstream o; for ( auto const& c : v ) { o << "(" << std::get< 0 >( c ) << "," << std::get< 1 >( c ) << ")=" << std::get< 2 >( c ) << " "; } return o.str(); }
template < typename M > void visit( mc::Run& r, M const& m, vector< Cell > want, string const& w, bool ordered )
{
  size_t const cap = want.size() + 3; vector< Cell > got; auto e = enumerate( m ); for ( auto it : e ) { got.push_back( Cell( it.row(), it.col(), (double) it.value() ) ); if ( got.size() > cap ) { break; } r.step(); }
  (void) ordered; auto s = got; std::sort( s.begin(), s.end() ); std::sort( want.begin(), want.end() ); r.check( s == want, "cells", w + ": visited " + show( got ) + "instead of " + show( want ) );
  // explicit iterators: a copied iterator continues independently, and comparison with the end and with other positions is right
  auto i = e.begin(); auto const end = e.end(); r.check( ( i == end ) == want.empty() && ( i != end ) != want.empty() && e.end() == end, "end", w + ": begin and end" ); size_t n = 0; auto again = enumerate( m );
  while ( i != end && n <= cap ) { auto c = i; r.check( c == i && ! ( c != i ), "copy", w + ": a copy differs" ); auto& back = ++c; r.check( &back == &c, "copy", w + ": increment result" ); r.check( n + 1 >= want.size() ? c == end : c != end, "end", w + ": end after " + std::to_string( n + 1 ) ); r.check( c != i, "position", w + ": two positions are equal" ); r.check( (*i).row() == std::get< 0 >( got[n] ) && (*i).col() == std::get< 1 >( got[n] ), "copy", w + ": incrementing a copy moves the original" ); size_t k = 0; for ( auto j = again.begin(); j != again.end() && k <= cap; ++j, ++k ) { r.check( ( j == i ) == ( k == n ), "position", w + ": comparison of positions " + std::to_string( k ) + " and " + std::to_string( n ) ); } ++i; ++n; }
  r.check( n == want.size(), "cells", w + ": " + std::to_string( n ) + " steps" ); auto f = e.end(); ++f; r.check( f == end, "end", w + ": beyond the end" ); 
}
template < typename T, int O, typename I > void matrices( mc::Run& r )
{
  int const rows = r.choose( r.bound( 4, 4 ) ), cols = r.choose( r.bound( 4, 5 ) ), mode = r.choose( 4 ), cells = rows * cols; typedef Eigen::SparseMatrix< T, O, I > M; int fill = cells ? r.choose( 1 << cells ) : 0; string w = std::to_string( rows ) + "x" + std::to_string( cols ) + " fill " + std::to_string( fill ) + " mode " + std::to_string( mode ); r.log( w );
  M m( rows, cols ); vector< Cell > want; if ( mode == 3 && cells ) { vector< I > per( O == Eigen::RowMajor ? rows : cols, 3 ); m.reserve( per ); }
  for ( int k = 0; k < cells; ++k ) { int const q = mode == 1 ? cells - 1 - k : k; if ( fill >> q & 1 ) { T v = q == 2 ? T( 0 ) : T( q + 1 ); m.insert( q / cols, q % cols ) = v; want.push_back( Cell( q / cols, q % cols, (double) v ) ); } } if ( mode == 2 ) { m.makeCompressed(); } r.state( mc::hash_str( w ) ); visit( r, m, want, w, true );
}
}
SCENARIO( c27_col_double, 2 ) { matrices< double, Eigen::ColMajor, int >( r ); }
SCENARIO( c27_row_double, 2 ) { matrices< double, Eigen::RowMajor, int >( r ); }
SCENARIO( c27_col_float_long, 2 ) { matrices< float, Eigen::ColMajor, long >( r ); }
SCENARIO( c27_row_unsigned_short, 2 ) { matrices< unsigned, Eigen::RowMajor, short >( r ); }
// long runs of empty rows or columns, and default constructed matrices
SCENARIO( c27_long, 2 )
{
  int const len = r.pick( vector< int >{ 0, 1, 2, 100, 30000, 2000000 } ), at = r.choose( 5 ); bool const row = r.flip(); r.log( "length " + std::to_string( len ) + " element " + std::to_string( at ) ); vector< Cell > want; long const p = at == 0 ? -1 : at == 1 ? 0 : at == 2 ? len / 2 : at == 3 ? len - 1 : -2; string w = "long " + std::to_string( len );
  if ( row ) { Eigen::SparseMatrix< double, Eigen::RowMajor > m( len, 3 ); if ( p >= 0 && p < len ) { m.insert( p, 1 ) = 4; want.push_back( Cell( p, 1, 4 ) ); } if ( p == -2 && len > 1 ) { m.insert( 0, 2 ) = 1; m.insert( len - 1, 0 ) = 2; want = { Cell( 0, 2, 1 ), Cell( len - 1, 0, 2 ) }; } visit( r, m, want, w, true ); } else { Eigen::SparseMatrix< double > m( 3, len ); if ( p >= 0 && p < len ) { m.insert( 1, p ) = 4; want.push_back( Cell( 1, p, 4 ) ); } if ( p == -2 && len > 1 ) { m.insert( 2, 0 ) = 1; m.insert( 0, len - 1 ) = 2; want = { Cell( 2, 0, 1 ), Cell( 0, len - 1, 2 ) }; } visit( r, m, want, w, true ); }
  Eigen::SparseMatrix< double > none; visit( r, none, vector< Cell >(), "default matrix", true ); r.state( mc::mix( len, at * 2 + row ) );
}
namespace {
string join( vector< string > const& v ) { string o; for ( auto const& s : v ) { o += "[" + s + "]"; } return o; }
template < typename C > void split( mc::Run& r, string const& s, string const& d, int trim, bool pre )
{
  vector< string > want; if ( pre ) { want.push_back( "before" ); } string cur; auto flush = [&] () { if ( ! cur.empty() || trim != 1 ) { want.push_back( cur ); } cur.clear(); }; for ( char c : s ) { if ( d.find( c ) != string::npos ) { flush(); } else { cur += c; } } flush();
  C out; if ( pre ) { out.push_back( "before" ); } if ( trim == 2 ) { if ( d == " " ) { tokenize( s, out ); } else { tokenize( s, out, d ); } } else { tokenize( s, out, d, trim == 1 ); } vector< string > got( out.begin(), out.end() ); r.check( got == want, "tokens", "splitting " + mc::show( s ) + " at " + mc::show( d ) + " gives " + join( got ) + " instead of " + join( want ) ); r.step();
}
}
SCENARIO( c27_tokens, 3 )
{
  static char const al[] = { 'a', ' ', ',', 'b', '\0', '\xff' }; int const len = r.choose( r.bound( 7, 9 ) ); string s; for ( int i = 0; i < len; ++i ) { s += al[r.choose( 6 )]; } static string const ds[] = { " ", ",", " ,", ", ", "", "ab", string( 1, '\0' ), string( " \0\xff", 3 ), "xyz" }; 
  for ( string const& d : ds ) { for ( int t = 0; t < 3; ++t ) { split< vector< string > >( r, s, d, t, false ); } split< std::deque< string > >( r, s, d, 1, true ); split< std::list< string > >( r, s, d, 0, true ); }
  if ( len <= 5 ) { r.state( mc::hash_str( s ) ); }
}
SCENARIO( c27_token_sizes, 1 ) { int const n = r.choose( 70 ), k = r.choose( 4 ); string s; for ( int i = 0; i < n; ++i ) { s += string( (size_t) ( k == 3 ? 1000 : i * k ), 'x' ) + ( i % 2 ? "," : ";" ); } r.log( std::to_string( n ) ); for ( int t = 0; t < 3; ++t ) { split< vector< string > >( r, s, ",;", t, true ); } r.state( mc::mix( n, k ) ); }
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
