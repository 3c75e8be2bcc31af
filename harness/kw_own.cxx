// K11: owning pointers: after any history every object is owned once, and deleted exactly once.
#include "mc.h"
#include <kwsys/auto_ptr.hxx>
using std::string; using std::vector;
#define CK( c, k, m ) do { if ( ! ( c ) ) { r.fail( k, m ); } if ( r.verbose ) { r.note( m ); } } while ( 0 )
namespace {
vector< int > lives; // by object number
struct Base { int id; Base() : id( (int) lives.size() ) { lives.push_back( 1 ); } virtual ~Base() { --lives[id]; } virtual int kind() const { return 0; } private: Base( Base const& ); void operator=( Base const& ); };
struct Derived : Base { int kind() const { return 1; } };
typedef kwsys::auto_ptr< Base > PB; typedef kwsys::auto_ptr< Derived > PD;
PB make_base() { return PB( new Base ); }
PD make_derived() { return PD( new Derived ); }
PB make_up() { return PB( make_derived() ); }
PB pass( PB p ) { return p; }
void take( PB p ) { (void) p; }
int peek( PB const& p ) { return p.get() ? p->id : -1; }
}
// two pointers to the base, one to the derived class, one plain pointer
SCENARIO( owners, 2 )
{
  lives.clear(); int const n = r.bound( 5, 6 ); string w; int own[4] = { -1, -1, -1, -1 }; vector< int > alive; vector< int > kind; auto made = [&] ( int k ) { alive.push_back( 1 ); kind.push_back( k ); return (int) alive.size() - 1; }; auto drop = [&] ( int i ) { if ( own[i] >= 0 ) { alive[own[i]] = 0; own[i] = -1; } };
  {
    PB a, b; PD d; Base* raw = 0; PB* const p[2] = { &a, &b };
    for ( int i = 0; i < n; ++i )
    {
      int const op = r.choose( 21 );
      switch ( op )
      {
        case 0: case 1: { drop( op ); p[op]->reset( new Base ); own[op] = made( 0 ); w += op ? " b.reset(new)" : " a.reset(new)"; break; }
        case 2: { drop( 2 ); d.reset( new Derived ); own[2] = made( 1 ); w += " d.reset(new)"; break; }
        case 3: { drop( 0 ); a.reset(); w += " a.reset()"; break; }
        case 4: { a.reset( a.get() ); w += " a.reset(a.get())"; break; }
        case 5: { if ( own[1] != own[0] || own[0] < 0 ) { int const x = own[1]; own[1] = -1; drop( 0 ); own[0] = x; } a = b; w += " a=b"; break; }
        case 6: { int const x = own[0]; own[0] = -1; drop( 1 ); own[1] = x; b = a; w += " b=a"; break; }
        case 7: { PB& same = a; a = same; w += " a=a"; break; }
        case 8: { int const x = own[2]; own[2] = -1; drop( 0 ); own[0] = x; a = d; w += " a=d"; break; }
        case 9: { drop( 0 ); own[0] = made( 0 ); a = make_base(); w += " a=make()"; break; }
        case 10: { drop( 1 ); own[1] = made( 1 ); b = make_derived(); w += " b=make_derived()"; break; }
        case 11: { drop( 0 ); own[0] = made( 1 ); a = make_up(); w += " a=make_up()"; break; }
        case 12: { if ( raw ) { w += " delete raw"; delete raw; alive[own[3]] = 0; } else { w += " raw=a.release()"; own[3] = own[0]; own[0] = -1; raw = a.release(); break; } raw = 0; own[3] = -1; break; }
        case 13: { if ( ! raw ) { r.step(); return; } drop( 1 ); own[1] = own[3]; own[3] = -1; b.reset( raw ); raw = 0; w += " b.reset(raw)"; break; }
        case 14: { { PB c( a ); CK( ( c.get() ? c->id : -1 ) == own[0], "owner", w + " c(a): the copy does not hold the object" ); CK( ! a.get(), "owner", w + " c(a): the source still holds the object" ); } drop( 0 ); w += " {c(a)}"; break; }
        case 15: { { PB c( d ); CK( ( c.get() ? c->id : -1 ) == own[2], "owner", w + " c(d): the copy does not hold the object" ); CK( ! d.get(), "owner", w + " c(d): the source still holds the object" ); } drop( 2 ); w += " {c(d)}"; break; }
        case 16: { take( a ); drop( 0 ); w += " take(a)"; break; }
        case 17: { b = pass( a ); int const x = own[0]; own[0] = -1; drop( 1 ); own[1] = x; w += " b=pass(a)"; break; }
        case 18: { PD c( make_derived() ); made( 1 ); alive.back() = 0; CK( c.get() && c->kind() == 1, "owner", w + " {c(make_derived())}: wrong object" ); w += " {c(make_derived())}"; break; }
        case 19: { PB c( make_base() ); made( 0 ); int const x = own[0]; own[0] = (int) alive.size() - 1; if ( x >= 0 ) { alive[x] = 0; } a = c; CK( ! c.get(), "owner", w + " a=c: the source still holds the object" ); w += " c(make()),a=c"; break; }
        case 20: { d = make_derived(); drop( 2 ); own[2] = made( 1 ); w += " d=make_derived()"; break; }
      }
      CK( peek( a ) == own[0], "owner", w + ": a holds object " + std::to_string( peek( a ) ) + " instead of " + std::to_string( own[0] ) ); CK( peek( b ) == own[1], "owner", w + ": b holds object " + std::to_string( peek( b ) ) + " instead of " + std::to_string( own[1] ) ); CK( ( d.get() ? d->id : -1 ) == own[2], "owner", w + ": d holds another object" ); CK( ( raw ? raw->id : -1 ) == own[3], "owner", w + ": the released pointer is another one" );
      CK( lives.size() == alive.size(), "objects", w + ": number of objects made" ); for ( size_t k = 0; k < alive.size(); ++k ) { CK( lives[k] == alive[k], "deleted", w + ": object " + std::to_string( k ) + ( lives[k] < alive[k] ? " was deleted too early" : " was not deleted" ) ); }
      for ( PB* q : p ) { if ( q->get() ) { CK( &**q == q->get() && ( *q )->kind() == kind[( *q )->id], "owner", w + ": wrong object behind the pointer" ); } }
      r.step();
    }
    if ( raw ) { delete raw; }
  }
  for ( size_t k = 0; k < lives.size(); ++k ) { CK( lives[k] == 0, "deleted", w + " end: object " + std::to_string( k ) + ( lives[k] < 0 ? " was deleted twice" : " was not deleted" ) ); }
}
int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
