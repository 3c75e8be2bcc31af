// K12: loading libraries: every history of opening, closing and looking up on real libraries.
#include "mc.h"
#include "child.h"
#include <kwsys/DynamicLoader.hxx>
#include <dlfcn.h>
#include <sys/stat.h>
using std::string; using std::vector;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
namespace {
typedef kwsys::DynamicLoader DL; typedef int ( *Fn )();
void put( string const& from, string const& to ) { std::ifstream i( from.c_str(), std::ios::binary ); std::ofstream o( to.c_str(), std::ios::binary ); o << i.rdbuf(); if ( ! i || ! o ) { throw mc::Divergence( "cannot copy " + from ); } }
string mods() { return string( getenv( "VERIF_WORK" ) ) + "/mods/"; }
}
// two libraries, up to three handles
SCENARIO( library_histories, 2 )
{
  int const n = r.bound( 5, 6 ); struct Op { int k, a; }; vector< Op > ops; { int open = 0; for ( int i = 0; i < n; ++i ) { int const c = r.choose( 2 + 3 * open + ( open < 3 ? 2 : 0 ) ); if ( c == 0 && i ) { break; } Op o; if ( c < 2 ) { o = { 5 + c, 0 }; } else if ( c < 2 + 3 * open ) { o = { ( c - 2 ) / open, ( c - 2 ) % open }; } else { o = { 3, c - 2 - 3 * open }; } if ( o.k == 3 ) { ++open; } if ( o.k == 0 ) { --open; } ops.push_back( o ); } }
  string const lib[2] = { r.scratch + "/libone.so", r.scratch + "/lib two.so" }; put( mods() + "first.so", lib[0] ); put( mods() + "second.so", lib[1] );
  mc::in_child( r, [&] {
    struct H { DL::LibraryHandle h; int lib; }; vector< H > hs; int uses[2] = { 0, 0 }, count[2] = { 0, 0 }; string w;
    for ( auto const& o : ops )
    {
      if ( o.k == 3 ) { DL::LibraryHandle h = DL::OpenLibrary( lib[o.a] ); w += " open" + std::to_string( o.a ); if ( ! h ) { char const* e = DL::LastError(); CK( h, "open", w + ": failed: " + ( e ? e : "" ) ); } for ( auto const& x : hs ) { CK( ( x.h == h ) == ( x.lib == o.a ), "open", w + ": the handle belongs to another library" ); } hs.push_back( { h, o.a } ); if ( uses[o.a]++ == 0 ) { count[o.a] = 0; } }
      else if ( o.k == 0 ) { H const x = hs[o.a]; hs.erase( hs.begin() + o.a ); w += " close" + std::to_string( x.lib ); CK( DL::CloseLibrary( x.h ) == 1, "close", w + ": not successful" ); --uses[x.lib]; }
      else if ( o.k == 1 ) { H const x = hs[o.a]; w += " call" + std::to_string( x.lib ); DL::SymbolPointer f = DL::GetSymbolAddress( x.h, "count" ), g = DL::GetSymbolAddress( x.h, x.lib ? "only_second" : "only_first" ), v = DL::GetSymbolAddress( x.h, "which" ); CK( f && g && v, "symbol", w + ": symbols are missing" ); CK( *(int const*) v == x.lib + 1, "symbol", w + ": the symbol of another library" ); CK( ( (Fn) f )() == ++count[x.lib], "symbol", w + ": the library has not the state it should have" ); CK( ( (Fn) g )() == 10 * ( x.lib + 1 ), "symbol", w + ": wrong function" ); }
      else if ( o.k == 2 ) { H const x = hs[o.a]; w += " missing" + std::to_string( x.lib ); CK( ! DL::GetSymbolAddress( x.h, x.lib ? "only_first" : "only_second" ), "missing-symbol", w + ": the symbol of the other library was found" ); char const* e = DL::LastError(); CK( e && strstr( e, x.lib ? "only_first" : "only_second" ), "error-text", w + ": the error does not name the symbol" ); CK( ! DL::GetSymbolAddress( x.h, "count2" ) && ! DL::GetSymbolAddress( x.h, "coun" ) && ! DL::GetSymbolAddress( x.h, "hidden" ) && ! DL::GetSymbolAddress( x.h, "" ), "missing-symbol", w + ": a symbol was found that is not there" ); DL::LastError(); }
      else if ( o.k == 5 ) { w += " none"; string const f = r.scratch + "/none.so"; CK( ! DL::OpenLibrary( f ), "open-missing", w + ": a missing library was opened" ); char const* e = DL::LastError(); CK( e && strstr( e, "none.so" ), "error-text", w + ": the error does not name the library" ); }
      else { w += " close-null"; CK( ! DL::CloseLibrary( 0 ), "close", w + ": closing nothing was successful" ); }
      for ( int l = 0; l < 2; ++l ) { void* q = dlopen( lib[l].c_str(), RTLD_LAZY | RTLD_NOLOAD ); if ( q ) { dlclose( q ); } CK( ! ! q == ( uses[l] > 0 ), "loaded", w + ": library " + std::to_string( l ) + ( q ? " is still loaded" : " is not loaded" ) ); }
      r.step();
    }
  } );
}
// what can lie at the place of a library
SCENARIO( library_files, 1 )
{
  static char const* const kinds[] = { "missing", "empty", "text", "directory", "truncated", "unresolved", "good", "link", "dangling", "zeros", "unreadable" }; static char const* const names[] = { "lib.so", "lib with blank.so", "lib", "lib.so.1", "l\xc3\xaf" "b.so", "-lib.so", "lib%s.so" }; int const k = r.choose( 11 ); string const name = names[r.choose( 7 )], dir = r.scratch, f = dir + "/" + name; int const rel = r.choose( 3 ); if ( k == 10 && geteuid() == 0 ) { return; }
  string good; { std::ifstream i( ( mods() + "first.so" ).c_str(), std::ios::binary ); std::ostringstream o; o << i.rdbuf(); good = o.str(); } auto write = [&] ( string const& p, string const& d ) { std::ofstream o( p.c_str(), std::ios::binary ); o << d; };
  unlink( f.c_str() ); rmdir( f.c_str() ); switch ( k ) { case 1: write( f, "" ); break; case 2: write( f, "int main() {}\n" ); break; case 3: mkdir( f.c_str(), 0755 ); break; case 4: write( f, good.substr( 0, 200 ) ); break; case 5: put( mods() + "unresolved.so", f ); break; case 6: write( f, good ); break; case 7: write( dir + "/target", good ); if ( symlink( "target", f.c_str() ) ) {} break; case 8: if ( symlink( "nowhere", f.c_str() ) ) {} break; case 9: write( f, string( 5000, '\0' ) ); break; }
  mc::in_child( r, [&] { if ( chdir( dir.c_str() ) ) {} string const p = rel == 0 ? f : rel == 1 ? "./" + name : "../" + dir.substr( dir.rfind( '/' ) + 1 ) + "/" + name; string const w = string( kinds[k] ) + " " + p; DL::LibraryHandle h = DL::OpenLibrary( p ); bool const ok = k == 5 || k == 6 || k == 7; CK( ! ! h == ok, "open", w + ( h ? ": opened" : ": not opened" ) ); if ( ok ) { Fn g = (Fn) DL::GetSymbolAddress( h, "only_first" ); CK( g && g() == 10, "symbol", w + ": the function is missing" ); CK( DL::CloseLibrary( h ) == 1, "close", w + ": not closed" ); } else { char const* e = DL::LastError(); CK( e && *e, "error-text", w + ": no error" ); } r.step(); } );
  unlink( f.c_str() ); rmdir( f.c_str() ); unlink( ( dir + "/target" ).c_str() );
}
SCENARIO( library_names, 0 ) { string p = DL::LibPrefix(), e = DL::LibExtension(); CK( p == "lib", "names", "prefix " + p ); CK( e == ".so", "names", "suffix " + e ); r.step(); }
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
