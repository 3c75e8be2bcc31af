// C12: images as strided views.
#include "mc.h"
#include <vital/types/image.h>
#include <vital/types/image_container.h>
#include <algorithm>
using namespace kwiver::vital;
using std::string; using std::vector;
typedef image::byte byte;

namespace {
byte op7( byte const& b ) { return (byte) ( b * 7 + 3 ); }
byte pat( size_t n ) { return (byte) ( n * 37 + 11 ); }
string shape( size_t w, size_t h, size_t d ) { return std::to_string( w ) + "x" + std::to_string( h ) + "x" + std::to_string( d ); }

// a placement of w x h x d pixels in exactly `len` bytes
struct Layout { ptrdiff_t ws, hs, ds; size_t origin, len; string name; };
// perm: order of dimensions (fastest first), signs: bit set = negative, pad: 0 none 1 one spare byte per row 2 doubled innermost step 3 zero step in one dimension (reading only)
Layout layout( int w, int h, int d, int perm, int signs, int pad )
{
  static int const P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  int n[3] = { w, h, d }; ptrdiff_t st[3]; ptrdiff_t s = pad == 2 ? 2 : 1;
  for ( int k = 0; k < 3; ++k ) { int q = P[perm][k]; st[q] = s; s *= std::max( 1, n[q] ); if ( k == 0 && pad == 1 ) { s += 1; } }
  if ( pad == 3 ) { st[P[perm][1]] = 0; }
  ptrdiff_t lo = 0, hi = 0; for ( int k = 0; k < 3; ++k ) { if ( signs >> k & 1 ) { st[k] = -st[k]; } ptrdiff_t e = st[k] * std::max( 0, n[k] - 1 ); if ( e < 0 ) { lo += e; } else { hi += e; } }
  Layout l; l.ws = st[0]; l.hs = st[1]; l.ds = st[2]; l.origin = -lo; l.len = w * h * d == 0 ? 0 : hi - lo + 1; l.name = "steps " + std::to_string( l.ws ) + "," + std::to_string( l.hs ) + "," + std::to_string( l.ds ); return l;
}
struct Buf   // exactly sized heap memory (address sanitizer sees every stray access)
{
  byte* p; size_t n; Buf( size_t n_ ) : p( new byte[n_] ), n( n_ ) { memset( p, 0xEE, n ); } ~Buf() { delete [] p; } Buf( Buf const& ) = delete;
};
template < typename F > bool throws( F f ) { try { f(); } catch ( std::out_of_range const& ) { return true; } return false; }
void bounds_rejected( mc::Run& r, image& im, string const& what )
{
  image const& c = im; size_t w = im.width(), h = im.height(), d = im.depth(); unsigned far[] = { 0, 1, 7, 255, 256, 65536, 2147483647u, 2147483648u, 4294967295u };
  for ( unsigned x : far )
  {
    unsigned i = (unsigned) w + x, j = (unsigned) h + x, k = (unsigned) d + x; bool wi = i >= w, wj = j >= h, wk = k >= d;
    if ( wi ) { r.check( throws( [&] { im( i, 0 ); } ) && throws( [&] { c( i, 0 ); } ) && throws( [&] { im( i, 0, 0 ); } ) && throws( [&] { c( i, 0, 0 ); } ) && throws( [&] { c.at( i, 0 ); } ), "unchecked", what + ": column " + std::to_string( i ) + " accepted" ); }
    if ( wj ) { r.check( throws( [&] { im( 0, j ); } ) && throws( [&] { c( 0, j ); } ) && throws( [&] { im( 0, j, 0 ); } ) && throws( [&] { c( 0, j, 0 ); } ) && throws( [&] { c.at( 0, j ); } ), "unchecked", what + ": row " + std::to_string( j ) + " accepted" ); }
    if ( wk ) { r.check( throws( [&] { im( 0, 0, k ); } ) && throws( [&] { c( 0, 0, k ); } ), "unchecked", what + ": channel " + std::to_string( k ) + " accepted" ); }
  }
  if ( w && h && ! d ) { r.check( throws( [&] { im( 0, 0 ); } ) && throws( [&] { c( 0, 0 ); } ) && throws( [&] { c.at( 0, 0 ); } ), "unchecked", what + ": pixel of an image without channels accepted" ); }
}
}

// every layout: accesses hit exactly the addressed byte; every destination layout receives an exact copy
SCENARIO( c12_layouts, 3 )
{
  int w = r.choose( 4 ), h = r.choose( 4 ), d = r.choose( r.bound( 4, 5 ) ), perm = r.choose( 6 ), signs = r.choose( 8 ), pad = r.choose( 4 ); bool owned = r.flip();
  Layout L = layout( w, h, d, perm, signs, pad ); string what = shape( w, h, d ) + " " + L.name; r.log( what ); r.state( mc::hash_str( what ) );
  Buf ext( owned ? 0 : L.len ); image_memory_sptr mem; byte* base = ext.p; if ( owned ) { mem.reset( new image_memory( L.len ) ); base = (byte*) mem->data(); }
  for ( size_t i = 0; i < L.len; ++i ) { base[i] = pat( i ); } byte* first = base + L.origin;
  image im = owned ? image( mem, first, w, h, d, L.ws, L.hs, L.ds ) : image( first, w, h, d, L.ws, L.hs, L.ds ); image const& c = im;
  r.eq( im.size(), owned ? L.len : 0, "size", what + " size()" );
  auto addr = [&] ( int i, int j, int k ) { return (ptrdiff_t) L.origin + i * L.ws + j * L.hs + k * L.ds; };
  for ( int i = 0; i < w; ++i ) { for ( int j = 0; j < h; ++j ) { for ( int k = 0; k < d; ++k )
  {
    byte want = pat( addr( i, j, k ) ); r.check( &im( i, j, k ) == base + addr( i, j, k ) && c( i, j, k ) == want && &c( i, j, k ) == &im( i, j, k ), "address", what + " pixel " + shape( i, j, k ) );
    if ( k == 0 ) { r.check( &im( i, j ) == &im( i, j, 0 ) && &c( i, j ) == &c( i, j, 0 ), "address", what + " first channel at " + shape( i, j, 0 ) ); rgb_color g = c.at( i, j ); int a = d < 3 ? 0 : 1; r.check( g.r == want && g.g == pat( addr( i, j, a ) ) && g.b == pat( addr( i, j, 2 * a ) ), "color", what + " at(" + std::to_string( i ) + "," + std::to_string( j ) + ")" ); }
  } } }
  bounds_rejected( r, im, what ); r.step( w * h * d );
  // copies into every destination layout of the same shape (no reallocation), and into images of other shapes (reallocation)
  for ( int p2 = 0; p2 < 6; ++p2 ) { for ( int s2 = 0; s2 < 8; ++s2 ) { for ( int pad2 = 0; pad2 < 3; ++pad2 )
  {
    if ( ! r.thorough() && ( ( owned && pad2 ) || ( ! owned && pad2 == 2 && s2 % 3 ) ) ) { continue; }
    Layout M = layout( w, h, d, p2, s2, pad2 ); Buf dst( M.len ); image o( dst.p + M.origin, w, h, d, M.ws, M.hs, M.ds ); byte* keep = o.first_pixel(); o.copy_from( c ); r.step(); r.count();
    r.check( o.first_pixel() == keep, "copy-realloc", what + " -> " + M.name + ": deep copy of equal size replaced the memory" ); vector< char > touched( M.len, 0 );
    for ( int i = 0; i < w; ++i ) { for ( int j = 0; j < h; ++j ) { for ( int k = 0; k < d; ++k ) { ptrdiff_t a = M.origin + i * M.ws + j * M.hs + k * M.ds; touched[a] = 1; if ( dst.p[a] != c( i, j, k ) ) { r.fail( "copy-pixel", what + " -> " + M.name + ": pixel " + shape( i, j, k ) + " not copied" ); } } } }
    for ( size_t a = 0; a < M.len; ++a ) { if ( ! touched[a] && dst.p[a] != 0xEE ) { r.fail( "copy-stray", what + " -> " + M.name + ": byte outside the view was written" ); } }
    if ( ! equal_content( c, o ) || ! equal_content( o, c ) ) { r.fail( "equal", what + " vs " + M.name + ": copies compare different" ); }
    if ( pad != 3 || ! w || ! h || ! d )
    {
      for ( int i = 0; i < w; ++i ) { for ( int j = 0; j < h; ++j ) { for ( int k = 0; k < d; ++k ) { o( i, j, k ) ^= 1; bool e = equal_content( c, o ) || equal_content( o, c ); o( i, j, k ) ^= 1; if ( e ) { r.fail( "equal", what + " vs " + M.name + ": difference at " + shape( i, j, k ) + " not seen" ); } } } }
    }
  } } }
  static int const others[][3] = { { 0, 0, 0 }, { 1, 1, 1 }, { 3, 2, 1 }, { 2, 2, 3 }, { 1, 4, 2 } };
  for ( auto const& q : others ) { for ( int inter = 0; inter < 2; ++inter )
  {
    image o( q[0], q[1], q[2], inter != 0 ); image keep( o ); vector< byte > before; for ( int i = 0; i < q[0] * q[1] * q[2]; ++i ) { o.first_pixel()[i] = pat( i + 5 ); before.push_back( pat( i + 5 ) ); }
    bool same = w == q[0] && h == q[1] && d == q[2]; r.eq( equal_content( c, o ) && ! same, false, "equal", what + " compared with " + shape( q[0], q[1], q[2] ) );
    o.copy_from( c ); r.step(); r.check( o.width() == (size_t) w && o.height() == (size_t) h && o.depth() == (size_t) d, "copy-size", what + " deep copy has another size" ); r.check( equal_content( c, o ), "copy-pixel", what + " deep copy into " + shape( q[0], q[1], q[2] ) + " differs" );
    for ( int i = 0; i < w; ++i ) { for ( int j = 0; j < h; ++j ) { for ( int k = 0; k < d; ++k ) { if ( o( i, j, k ) != c( i, j, k ) ) { r.fail( "copy-pixel", what + " deep copy into " + shape( q[0], q[1], q[2] ) ); } } } }
    if ( ! same ) { for ( size_t i = 0; i < before.size(); ++i ) { if ( keep.first_pixel()[i] != before[i] ) { r.fail( "detach", "deep copy of another size wrote into shared memory" ); } } }
    if ( w * h * d ) { byte* a = o.first_pixel(); r.check( a < base || a >= base + L.len, "detach", "deep copy shares memory with its source" ); }
  } }
  // transformation applies the function exactly once per pixel index
  vector< byte > want( base, base + L.len ); for ( int i = 0; i < w; ++i ) { for ( int j = 0; j < h; ++j ) { for ( int k = 0; k < d; ++k ) { want[addr( i, j, k )] = op7( want[addr( i, j, k )] ); } } }
  transform_image( im, op7 ); r.step(); for ( size_t a = 0; a < L.len; ++a ) { if ( base[a] != want[a] ) { r.fail( "transform", what + ": byte " + std::to_string( a ) + " after transformation" ); } }
}

// construct / resize from every layout
SCENARIO( c12_resize, 2 )
{
  int n0[3], n1[3]; for ( int& x : n0 ) { x = r.choose( 4 ); } for ( int& x : n1 ) { x = r.choose( 4 ); } int kind = r.choose( 6 );
  image im; string what = shape( n0[0], n0[1], n0[2] ); Buf ext( 4096 );
  switch ( kind )
  {
  case 0: im = image( n0[0], n0[1], n0[2] ); break;
  case 1: im = image( n0[0], n0[1], n0[2], true ); break;
  case 2: im = image( ext.p + 2048, n0[0], n0[1], n0[2], -3, 40, 2 ); break;
  case 3: im = image( ext.p + 2048, n0[0], n0[1], n0[2], 3, -40, 400 ); break;
  case 4: im = image( ext.p + 2048, n0[0], n0[1], n0[2], 2, 2 * n0[0], 1 ); break;
  case 5: im = image( ext.p + 2048, n0[0], n0[1], n0[2], 0, 0, 0 ); break;
  }
  image old( im ); byte* fp = im.first_pixel(); what += " kind " + std::to_string( kind ) + " -> " + shape( n1[0], n1[1], n1[2] ); r.log( what ); r.state( mc::hash_str( what ) );
  if ( kind < 2 ) { r.eq( im.size(), (size_t) n0[0] * n0[1] * n0[2], "size", what ); std::set< byte* > a; for ( int i = 0; i < n0[0]; ++i ) { for ( int j = 0; j < n0[1]; ++j ) { for ( int k = 0; k < n0[2]; ++k ) { im( i, j, k ) = pat( i * 16 + j * 4 + k ); a.insert( &im( i, j, k ) ); } } } r.eq( a.size(), im.size(), "overlap", what + ": distinct pixels" ); for ( byte* x : a ) { r.check( x >= fp && x < fp + im.size(), "overlap", what + ": pixel outside the allocation" ); } }
  im.set_size( n1[0], n1[1], n1[2] ); r.step(); bool same = n0[0] == n1[0] && n0[1] == n1[1] && n0[2] == n1[2];
  r.check( im.width() == (size_t) n1[0] && im.height() == (size_t) n1[1] && im.depth() == (size_t) n1[2], "resize", what + ": wrong size" );
  if ( same ) { r.check( im.first_pixel() == fp && im.w_step() == old.w_step() && im.h_step() == old.h_step() && im.d_step() == old.d_step(), "resize", what + ": resizing to the same size changed the view" ); return; }
  size_t n = (size_t) n1[0] * n1[1] * n1[2]; r.eq( im.size(), n, "resize", what + " size()" ); std::set< byte* > a;
  for ( int i = 0; i < n1[0]; ++i ) { for ( int j = 0; j < n1[1]; ++j ) { for ( int k = 0; k < n1[2]; ++k ) { byte* x = &im( i, j, k ); a.insert( x ); byte* m = (byte*) im.memory()->data(); r.check( x >= m && x < m + n, "resize", what + ": pixel outside the allocation" ); *x = 0x55; } } }
  r.eq( a.size(), n, "overlap", what + ": distinct pixels after resize" );
  if ( kind < 2 ) { r.check( old.first_pixel() == fp, "detach", "" ); for ( int i = 0; i < n0[0]; ++i ) { for ( int j = 0; j < n0[1]; ++j ) { for ( int k = 0; k < n0[2]; ++k ) { if ( old( i, j, k ) != pat( i * 16 + j * 4 + k ) ) { r.fail( "detach", what + ": resizing changed the pixels of a shallow copy" ); } } } } }
  bounds_rejected( r, im, what );
}

namespace {
struct MI { int buf = -1; int n[3] = { 0, 0, 0 }; vector< int > cell; };   // cell of pixel (i,j,k) at i + w*(j + h*k)
struct World { vector< vector< int > > bufs; };
}
// histories over aliasing images
SCENARIO( c12_histories, 3 )
{
  int const NV = 2; image v[NV]; MI m[NV]; vector< vector< byte > > store; vector< std::weak_ptr< image_memory > > owner; int serial = 1; int n = r.bound( 4, 5 );
  static int const shapes[][3] = { { 2, 1, 1 }, { 2, 2, 1 }, { 1, 2, 3 } };
  auto at = [&] ( MI const& x, int i, int j, int k ) { return x.cell[i + x.n[0] * ( j + x.n[1] * k )]; };
  auto fresh = [&] ( image& im, MI& x, int const* s ) // newly allocated: contents unspecified, so fill them
  {
    x.buf = (int) store.size(); store.push_back( vector< byte >( s[0] * s[1] * s[2] ) ); x.cell.clear(); for ( int k = 0; k < 3; ++k ) { x.n[k] = s[k]; } for ( int c = 0; c < s[0] * s[1] * s[2]; ++c ) { x.cell.push_back( c ); store.back()[c] = 0; }
    owner.push_back( im.memory() ); for ( int i = 0; i < s[0]; ++i ) { for ( int j = 0; j < s[1]; ++j ) { for ( int k = 0; k < s[2]; ++k ) { byte b = pat( serial++ ); im( i, j, k ) = b; store.back()[at( x, i, j, k )] = b; } } }
  };
  for ( int step = 0; step < n; ++step )
  {
    int op = r.choose( 9 ), a = r.choose( NV ), b = 1 - a; string what;
    switch ( op )
    {
    case 0: { int s = r.choose( 3 ); bool il = r.flip(); v[a] = image( shapes[s][0], shapes[s][1], shapes[s][2], il ); fresh( v[a], m[a], shapes[s] ); what = "construct"; break; }
    case 1: v[a] = v[b]; m[a] = m[b]; what = "assign"; break;
    case 2: { image c( v[b] ); simple_image_container k( c ); v[a] = k.get_image(); r.check( k.width() == v[b].width() && k.height() == v[b].height() && k.depth() == v[b].depth() && k.size() == v[b].size(), "container", "container reports another shape" ); m[a] = m[b]; what = "copy through container"; break; }
    case 3: { int s = r.choose( 3 ); bool same = m[a].n[0] == shapes[s][0] && m[a].n[1] == shapes[s][1] && m[a].n[2] == shapes[s][2]; v[a].set_size( shapes[s][0], shapes[s][1], shapes[s][2] ); if ( ! same ) { fresh( v[a], m[a], shapes[s] ); } what = "set_size"; break; }
    case 4: // deep copy
      {
        bool same = true; for ( int k = 0; k < 3; ++k ) { same = same && m[a].n[k] == m[b].n[k]; } if ( same && m[a].buf == m[b].buf && m[a].cell != m[b].cell ) { return; }  // overlapping source and destination: unspecified
        vector< byte > px; for ( int c : m[b].cell ) { px.push_back( store[m[b].buf][c] ); } v[a].copy_from( v[b] ); r.step();
        if ( ! same ) { int s[3] = { m[b].n[0], m[b].n[1], m[b].n[2] }; m[a].buf = (int) store.size(); store.push_back( px ); owner.push_back( v[a].memory() ); m[a].cell.clear(); for ( size_t c = 0; c < px.size(); ++c ) { m[a].cell.push_back( (int) c ); } for ( int k = 0; k < 3; ++k ) { m[a].n[k] = s[k]; } }
        else { for ( size_t c = 0; c < px.size(); ++c ) { store[m[a].buf][m[a].cell[c]] = px[c]; } }
        what = "copy_from"; break;
      }
    case 5: // sub-view: flip in one dimension / drop first column / transpose
      {
        int kind = r.choose( 4 ); if ( m[b].cell.empty() ) { return; } MI x; x.buf = m[b].buf; image const& s = v[b]; ptrdiff_t st[3] = { s.w_step(), s.h_step(), s.d_step() }; int o[3] = { 0, 0, 0 }; int nn[3] = { m[b].n[0], m[b].n[1], m[b].n[2] }; bool sw = false;
        if ( kind == 0 ) { o[0] = nn[0] - 1; st[0] = -st[0]; } else if ( kind == 1 ) { if ( nn[0] < 2 ) { return; } o[0] = 1; nn[0]--; } else if ( kind == 2 ) { std::swap( st[0], st[1] ); std::swap( nn[0], nn[1] ); sw = true; } else { o[2] = nn[2] - 1; nn[2] = 1; }
        byte const* p = &s( o[0], o[1], o[2] ); image q( s.memory(), p, nn[0], nn[1], nn[2], st[0], st[1], st[2] ); for ( int k = 0; k < 3; ++k ) { x.n[k] = nn[k]; }
        for ( int k = 0; k < nn[2]; ++k ) { for ( int j = 0; j < nn[1]; ++j ) { for ( int i = 0; i < nn[0]; ++i ) { int I = sw ? j : kind == 0 ? m[b].n[0] - 1 - i : i + o[0], J = sw ? i : j; x.cell.push_back( at( m[b], I, J, k + o[2] ) ); } } }
        v[a] = q; m[a] = x; what = "view"; break;
      }
    case 6: { if ( m[a].cell.empty() ) { return; } int p = r.choose( 2 ); int i = p ? m[a].n[0] - 1 : 0, j = p ? m[a].n[1] - 1 : 0, k = p ? m[a].n[2] - 1 : 0; byte val = pat( serial++ ); v[a]( i, j, k ) = val; store[m[a].buf][at( m[a], i, j, k )] = val; what = "write"; break; }
    case 7: { transform_image( v[a], op7 ); for ( int c : m[a].cell ) { store[m[a].buf][c] = op7( store[m[a].buf][c] ); } what = "transform"; break; }
    case 8: v[a] = image(); m[a] = MI(); what = "reset"; break;
    }
    r.step(); r.log( what + " " + std::to_string( a ) ); uint64_t h = 3;
    for ( int x = 0; x < NV; ++x )
    {
      image const& c = v[x]; r.check( c.width() == (size_t) m[x].n[0] && c.height() == (size_t) m[x].n[1] && c.depth() == (size_t) m[x].n[2], "shape", what + ": wrong shape of image " + std::to_string( x ) );
      for ( int k = 0; k < m[x].n[2]; ++k ) { for ( int j = 0; j < m[x].n[1]; ++j ) { for ( int i = 0; i < m[x].n[0]; ++i ) { int cl = at( m[x], i, j, k ); if ( c( i, j, k ) != store[m[x].buf][cl] ) { r.fail( "pixel", what + ": pixel " + shape( i, j, k ) + " of image " + std::to_string( x ) + " has the wrong value" ); } h = mc::mix( h, cl ); } } }
      h = mc::mix( mc::mix( mc::mix( h, m[x].n[0] ), m[x].n[1] * 8 + m[x].n[2] ), mc::mix( v[x].w_step() + 100, v[x].h_step() * 64 + v[x].d_step() + 999 ) );
    }
    bool eq = m[0].n[0] == m[1].n[0] && m[0].n[1] == m[1].n[1] && m[0].n[2] == m[1].n[2]; for ( size_t c = 0; eq && c < m[0].cell.size(); ++c ) { eq = store[m[0].buf][m[0].cell[c]] == store[m[1].buf][m[1].cell[c]]; }
    r.eq( equal_content( v[0], v[1] ), eq, "equal", what + ": content comparison" );
    for ( size_t q = 0; q < owner.size(); ++q ) { bool used = m[0].buf == (int) q || m[1].buf == (int) q; r.eq( ! owner[q].expired(), used, "lifetime", what + ": allocation kept exactly while an image refers to it" ); }
    h = mc::mix( h, ( m[0].buf == m[1].buf ) * 2 + eq ); r.state( h );
    if ( r.prune( h, n - step - 1 ) ) { return; }
  }
}

// raw memory blocks
SCENARIO( c12_memory, 2 )
{
  int const NV = 2; std::shared_ptr< image_memory > v[NV]; vector< byte > m[NV]; int serial = 1; int n = r.bound( 4, 5 );
  for ( auto& x : v ) { x.reset( new image_memory() ); }
  for ( int s = 0; s < n; ++s )
  {
    int a = r.choose( 2 ), b = 1 - a; string what;
    switch ( r.choose( 5 ) )
    {
    case 0: { static size_t const sz[] = { 0, 1, 5 }; size_t k = sz[r.choose( 3 )]; v[a].reset( new image_memory( k ) ); m[a].resize( k ); for ( size_t i = 0; i < k; ++i ) { m[a][i] = ( (byte*) v[a]->data() )[i] = pat( serial++ ); } what = "new"; break; }
    case 1: *v[a] = *v[b]; m[a] = m[b]; what = "assign"; break;
    case 2: v[a].reset( new image_memory( *v[b] ) ); m[a] = m[b]; what = "copy"; break;
    case 3: *v[a] = *v[a]; what = "self"; break;
    case 4: v[a].reset( new image_memory() ); m[a].clear(); what = "default"; break;
    }
    r.step(); r.log( what ); uint64_t h = 1;
    for ( int x = 0; x < NV; ++x ) { r.eq( v[x]->size(), m[x].size(), "memory-size", what + " size" ); for ( size_t i = 0; i < m[x].size(); ++i ) { if ( ( (byte*) v[x]->data() )[i] != m[x][i] ) { r.fail( "memory-content", what ); } h = mc::mix( h, m[x][i] ); } h = mc::mix( h, 77 ); }
    if ( ! m[0].empty() && ! m[1].empty() ) { r.check( v[0]->data() != v[1]->data(), "memory-shared", what + ": copies share memory" ); } r.state( h );
  }
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
