// Controlled scheduler and happens-before race detector.
//
// The code under test is compiled with -fsanitize=thread, but linked against this file instead of libtsan:
// every plain access, atomic operation, mutex, once and static-guard operation calls in here. Exactly one
// controlled thread runs at a time; before every synchronising operation the explorer (the parent process)
// is asked which thread goes on. Preemptive switches are limited by a budget, everything else is exhaustive.
// Written without C++ containers so that no template code of the program under test is shared with it.
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <unistd.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <malloc.h>
#include <string.h>
#include "ctl.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t up;
#define API extern "C" __attribute__( ( visibility( "default" ) ) )
#define PC ( (up) __builtin_return_address( 0 ) )
namespace {
int const MAXT = 3; // controlled threads
struct VC { u32 c[MAXT]; };
enum St { RUN, BLOCK_MUTEX, BLOCK_GUARD, BLOCK_ONCE, BLOCK_COND, BLOCK_RD, BLOCK_WR, FINISHED };
struct Th { sem_t go; St st; void* on; VC vc; u64 hist; u32 points; pthread_t h; void (*fn)( void*, int ); void* arg; up stack_lo, stack_hi; };
Th th[MAXT]; int nth; bool active; int sock_fd = -1; int budget; int cur = -1; sem_t main_go; u64 steps; bool inited;
__thread int me = -1; __thread int inrt;
struct Guard { Guard() { ++inrt; } ~Guard() { --inrt; } };
bool on() { return active && me >= 0 && inrt == 0; }

[[noreturn]] void die( char kind, char const* msg )
{
  ++inrt; char b[1200]; int n = 0; b[n++] = kind; while ( *msg && n < 1100 ) { b[n++] = *msg++; } ssize_t w = send( sock_fd, b, n, MSG_NOSIGNAL ); (void) w; _exit( 0 );
}

// ---- synchronisation objects: address -> clock and model state
struct Obj { up a; VC vc; int owner, depth, readers; u64 id, last, reads; };
Obj objs[8192];
Obj& obj( void const* p )
{
  up a = (up) p; u32 h = (u32) ( ( a >> 2 ) * 2654435761u ) % 8192; for ( int i = 0; i < 8192; ++i ) { Obj& o = objs[( h + i ) % 8192]; if ( o.a == a ) { return o; } if ( ! o.a ) { o.a = a; o.owner = -1; return o; } } die( 'e', "too many synchronisation objects" );
}
void join( VC& a, VC const& b ) { for ( int i = 0; i < MAXT; ++i ) { if ( b.c[i] > a.c[i] ) { a.c[i] = b.c[i]; } } }
void acquire( Obj& o ) { join( th[me].vc, o.vc ); }
void release( Obj& o ) { join( o.vc, th[me].vc ); th[me].vc.c[me]++; }
// Fingerprint of the happens-before order of synchronisation events: equal fingerprints mean equivalent executions
// (reads of one object commute), so in the absence of data races they lead to the same state.
u64 mix( u64 h, u64 v ) { h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 ); h *= 0xff51afd7ed558ccdull; return h ^ ( h >> 33 ); }
void event( Obj& o, bool modifies )
{
  Th& t = th[me]; if ( ! o.id ) { o.id = mix( t.hist, 77 + me ) | 1; o.last = o.reads = 0; } u64 h = mix( mix( t.hist, o.id ), o.last );
  if ( modifies ) { h = mix( h, o.reads ); t.hist = h; o.last = h; o.reads = 0; } else { t.hist = mix( h, 5 ); o.reads += t.hist; }
}
void forget_objs( up a, size_t n ) { if ( n <= 4096 ) { for ( up q = a & ~up( 3 ); q < a + n; q += 4 ) { u32 h = (u32) ( ( q >> 2 ) * 2654435761u ) % 8192; for ( int i = 0; i < 8192; ++i ) { Obj& o = objs[( h + i ) % 8192]; if ( ! o.a ) { break; } if ( o.a >= a && o.a < a + n ) { up keep = o.a; memset( &o, 0, sizeof o ); o.a = keep; o.owner = -1; } if ( ( o.a & ~up( 3 ) ) == q ) { break; } } } } else { for ( Obj& o : objs ) { if ( o.a >= a && o.a < a + n ) { up keep = o.a; memset( &o, 0, sizeof o ); o.a = keep; o.owner = -1; } } } }

// ---- scheduling
bool runnable( int t )
{
  Th& x = th[t];
  switch ( x.st )
  {
  case RUN: return true; case FINISHED: return false;
  case BLOCK_MUTEX: return obj( x.on ).owner == -1; case BLOCK_GUARD: case BLOCK_ONCE: return obj( x.on ).owner == -1; case BLOCK_COND: return false;
  case BLOCK_RD: return obj( x.on ).owner == -1; case BLOCK_WR: return obj( x.on ).owner == -1 && obj( x.on ).readers == 0;
  }
  return false;
}
SchedCtl* ctl; int used;
u64 fingerprint( int self ) { u64 h = 99; for ( int t = 0; t < nth; ++t ) { h = mix( h, th[t].hist ); h = mix( h, th[t].st * 64 + 1 ); h = mix( h, th[t].points ); } return mix( h, self + 2 ); }
int ask( int n, int const* ids )
{
  int k;
  if ( used < ctl->prefix_n ) { if ( ctl->arity[used] != n ) { die( 'e', "the program is not deterministic" ); } k = ctl->prefix[used++]; }
  else
  {
    char b[16]; b[0] = 'c'; b[1] = (char) n; u64 f = fingerprint( me ); memcpy( b + 2, &f, 8 ); b[10] = (char) budget; if ( send( sock_fd, b, 11, MSG_NOSIGNAL ) < 0 ) { _exit( 0 ); }
    char r; if ( recv( sock_fd, &r, 1, 0 ) != 1 ) { _exit( 0 ); } k = r;
  }
  if ( ctl->order_n < sizeof ctl->order - 1 ) { ctl->order[ctl->order_n++] = (char) ( 'A' + ids[k] ); } return k;
}
void hand_to( int t ) { cur = t; if ( t == me ) { return; } sem_post( &th[t].go ); while ( sem_wait( &th[me].go ) ) {} }
// the current thread is at a decision point (possibly blocked); choose who goes on
void decide( bool forced_switch = false )
{
  Guard g; ++steps; if ( me >= 0 ) { ++th[me].points; } if ( steps > 200000 ) { die( 'f', "livelock|an execution made more than 200000 steps" ); }
  for ( ;; )
  {
    int ids[MAXT], n = 0; bool self = runnable( me ) && ! forced_switch;
    if ( self ) { ids[n++] = me; if ( budget > 0 ) { for ( int t = 0; t < nth; ++t ) { if ( t != me && runnable( t ) ) { ids[n++] = t; } } } }
    else { for ( int t = 0; t < nth; ++t ) { if ( t != me && runnable( t ) ) { ids[n++] = t; } } if ( n == 0 && runnable( me ) ) { ids[n++] = me; } }
    if ( n == 0 )
    {
      bool fin = true; for ( int t = 0; t < nth; ++t ) { fin = fin && th[t].st == FINISHED; }
      if ( ! fin ) { die( 'f', "deadlock|no thread can go on" ); }
      cur = -1; sem_post( &main_go ); return;
    }
    int k = n > 1 ? ask( n, ids ) : 0; if ( self && k > 0 ) { --budget; }
    int t = ids[k]; if ( th[me].st == FINISHED ) { cur = t; sem_post( &th[t].go ); return; }
    hand_to( t ); if ( th[me].st == RUN || runnable( me ) ) { th[me].st = RUN; return; } forced_switch = false;
  }
}
void block( St s, void* on ) { th[me].st = s; th[me].on = on; decide(); }

// ---- shadow memory
struct Rec { up pc; u32 clk; u8 mask; };
struct Cell { up tag; Rec rec[MAXT][4]; }; // plain read, plain write, atomic read, atomic write
size_t const CELLS = size_t( 1 ) << 22; Cell* shadow; u8* touched; // touched: one byte per 512 bytes of memory
struct Range { up lo, hi; }; Range skip[16]; int nskip;
// 64 consecutive words of memory use 64 consecutive cells; blocks are hashed with linear probing
Cell* cell( up a8 ) { up b = a8 >> 6; for ( size_t i = 0; i < 16; ++i ) { Cell& c = shadow[( ( b * 0x9E3779B97F4A7C15ull >> 48 ) + i & ( CELLS / 64 - 1 )) * 64 + ( a8 & 63 )]; if ( c.tag == a8 ) { return &c; } if ( ! c.tag ) { c.tag = a8; return &c; } } return nullptr; }
Cell* find_cell( up a8 ) { up b = a8 >> 6; for ( size_t i = 0; i < 16; ++i ) { Cell& c = shadow[( ( b * 0x9E3779B97F4A7C15ull >> 48 ) + i & ( CELLS / 64 - 1 ) ) * 64 + ( a8 & 63 )]; if ( c.tag == a8 ) { return &c; } if ( ! c.tag ) { return nullptr; } } return nullptr; }
char* put( char* p, char const* s ) { while ( *s ) { *p++ = *s++; } return p; }
char* hex( char* p, up v ) { p = put( p, "0x" ); for ( int i = 60; i >= 0; i -= 4 ) { *p++ = "0123456789abcdef"[( v >> i ) & 15]; } return p; }
char* where( char* p, up pc ) { Dl_info i; if ( pc && dladdr( (void*) ( pc - 1 ), &i ) && i.dli_fname ) { p = put( p, i.dli_fname ); *p++ = '+'; p = hex( p, pc - 1 - (up) i.dli_fbase ); } else { p = hex( p, pc ); } return p; }
[[noreturn]] void race( up a, int t, int kt, up pt, int u, int ku, up pu )
{
  static char const* kinds[] = { "read", "write", "atomic read", "atomic write" }; char b[1100], *p = b; p = put( p, "r" ); p = put( p, kinds[kt] ); *p++ = '|'; p = where( p, pt ); *p++ = '|'; p = put( p, kinds[ku] ); *p++ = '|'; p = where( p, pu ); *p++ = 0; (void) a; (void) t; (void) u; die( 'r', b + 1 );
}
bool skipped( up a ) { Th& x = th[me]; if ( a >= x.stack_lo && a < x.stack_hi ) { return true; } for ( int i = 0; i < nskip; ++i ) { if ( a >= skip[i].lo && a < skip[i].hi ) { return true; } } return false; }
void touch( up a, size_t n, int kind, up pc )
{
  if ( n == 0 || skipped( a ) ) { return; } VC const& v = th[me].vc; up e = a + n;
  for ( up q = a >> 3; q <= ( e - 1 ) >> 3; ++q )
  {
    up lo = q << 3; u8 mask = 0; for ( int i = 0; i < 8; ++i ) { if ( lo + i >= a && lo + i < e ) { mask |= 1 << i; } } touched[( q >> 6 ) & 0xffffff] = 1; Cell* c = cell( q ); if ( ! c ) { continue; }
    for ( int u = 0; u < nth; ++u )
    {
      if ( u == me ) { continue; } Rec* r = c->rec[u];
      for ( int k = 0; k < 4; ++k ) { if ( ! ( r[k].mask & mask ) || r[k].clk <= v.c[u] ) { continue; } bool wr = ( kind & 1 ) || ( k & 1 ), plain = kind < 2 || k < 2; if ( wr && plain ) { race( a, me, kind, pc, u, k, r[k].pc ); } }
    }
    Rec& m = c->rec[me][kind]; if ( m.clk == v.c[me] ) { m.mask |= mask; } else { m.mask = mask; m.clk = v.c[me]; } m.pc = pc;
  }
}
void forget( up a, size_t n ) { up e = a + n; for ( up q = a >> 3; q <= ( e - 1 ) >> 3; ) { if ( ! touched[( q >> 6 ) & 0xffffff] ) { q = ( ( q >> 6 ) + 1 ) << 6; continue; } if ( Cell* c = find_cell( q ) ) { for ( int u = 0; u < MAXT; ++u ) { for ( int k = 0; k < 4; ++k ) { c->rec[u][k].mask = 0; } } } ++q; } }
void freed( up a, size_t n, up pc )
{
  forget_objs( a, n );
  up e = a + n; VC const& v = th[me].vc;
  for ( up q = a >> 3; q <= ( e - 1 ) >> 3; ) { if ( ! touched[( q >> 6 ) & 0xffffff] ) { q = ( ( q >> 6 ) + 1 ) << 6; continue; } if ( Cell* c = find_cell( q ) ) { for ( int u = 0; u < nth; ++u ) { if ( u == me ) { continue; } for ( int k = 0; k < 4; ++k ) { Rec& r = c->rec[u][k]; if ( r.mask && r.clk > v.c[u] ) { race( a, me, 1, pc, u, k, r.pc ); } } } } ++q; }
}
void* thread_main( void* p )
{
  me = (int) (intptr_t) p; inrt = 0; Th& x = th[me]; { Guard g; pthread_attr_t at; pthread_getattr_np( pthread_self(), &at ); void* lo; size_t sz; pthread_attr_getstack( &at, &lo, &sz ); pthread_attr_destroy( &at ); x.stack_lo = (up) lo; x.stack_hi = (up) lo + sz; while ( sem_wait( &x.go ) ) {} }
  x.fn( x.arg, me ); { Guard g; x.st = FINISHED; } decide(); ++inrt; return nullptr;
}
template < typename F > F next( char const* n ) { Guard g; return (F) dlsym( RTLD_NEXT, n ); }
}
void sched_init( int fd, SchedCtl* c ) { sock_fd = fd; ctl = c; used = 0; if ( ! inited ) { inited = true; shadow = (Cell*) mmap( nullptr, CELLS * sizeof( Cell ) + ( 1 << 24 ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); touched = (u8*) ( shadow + CELLS ); } }
void sched_ignore( void const* p, size_t n ) { if ( nskip < 16 ) { skip[nskip].lo = (up) p; skip[nskip].hi = (up) p + n; ++nskip; } }
void sched_run( int n, void (*fn)( void*, int ), void* arg, int preemptions )
{
  nth = n; budget = preemptions; sem_init( &main_go, 0, 0 );
  for ( int i = 0; i < n; ++i ) { Th& x = th[i]; x.st = RUN; x.on = nullptr; for ( int j = 0; j < MAXT; ++j ) { x.vc.c[j] = 0; } x.vc.c[i] = 1; x.hist = 1000 + i; x.points = 0; x.fn = fn; x.arg = arg; sem_init( &x.go, 0, 0 ); }
  ++inrt; int (*create)( pthread_t*, pthread_attr_t const*, void* (*)( void* ), void* ) = next< int (*)( pthread_t*, pthread_attr_t const*, void* (*)( void* ), void* ) >( "pthread_create" ); active = true;
  for ( int i = 0; i < n; ++i ) { create( &th[i].h, nullptr, thread_main, (void*) (intptr_t) i ); }
  int ids[MAXT]; for ( int i = 0; i < n; ++i ) { ids[i] = i; } int k = n > 1 ? ask( n, ids ) : 0; cur = k; sem_post( &th[k].go ); while ( sem_wait( &main_go ) ) {}
  for ( int i = 0; i < n; ++i ) { pthread_join( th[i].h, nullptr ); } active = false; --inrt;
}
void sched_point() { if ( on() ) { decide(); } }
void sched_fail( char const* key_bar_msg ) { die( 'f', key_bar_msg ); }
void sched_done( char const* outcome ) { ctl->final = fingerprint( -1 ); die( 'd', outcome ); }
uint64_t sched_steps() { return steps; }

// ---- compiler instrumentation
#define RW( N ) \
  API void __tsan_read##N( void* a ) { if ( on() ) { Guard g; touch( (up) a, N, 0, PC ); } } \
  API void __tsan_write##N( void* a ) { if ( on() ) { Guard g; touch( (up) a, N, 1, PC ); } } \
  API void __tsan_unaligned_read##N( void* a ) { if ( on() ) { Guard g; touch( (up) a, N, 0, PC ); } } \
  API void __tsan_unaligned_write##N( void* a ) { if ( on() ) { Guard g; touch( (up) a, N, 1, PC ); } } \
  API void __tsan_volatile_read##N( void* a ) { if ( on() ) { Guard g; touch( (up) a, N, 0, PC ); } } \
  API void __tsan_volatile_write##N( void* a ) { if ( on() ) { Guard g; touch( (up) a, N, 1, PC ); } }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
API void __tsan_init() {}
API void __tsan_func_entry( void* ) {}
API void __tsan_func_exit() {}
API void __tsan_vptr_update( void** a, void* v ) { if ( on() && *a != v ) { Guard g; touch( (up) a, 8, 1, PC ); } }
API void __tsan_vptr_read( void** a ) { if ( on() ) { Guard g; touch( (up) a, 8, 0, PC ); } }
API void __tsan_read_range( void* a, size_t n ) { if ( on() ) { Guard g; touch( (up) a, n, 0, PC ); } }
API void __tsan_write_range( void* a, size_t n ) { if ( on() ) { Guard g; touch( (up) a, n, 1, PC ); } }
namespace {
bool acq( int mo ) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// kind 0 load, 1 store, 2 read-modify-write
void atomic_pre( void const* a, size_t n, int kind, int mo, up pc, bool point )
{
  if ( ! on() ) { return; } if ( point ) { decide(); } Guard g; touch( (up) a, n, kind == 0 ? 2 : 3, pc ); Obj& o = obj( a );
  event( o, kind != 0 ); if ( kind != 1 && acq( mo ) ) { acquire( o ); } if ( kind == 1 && ! rel( mo ) ) { for ( int i = 0; i < MAXT; ++i ) { o.vc.c[i] = 0; } } if ( kind != 0 && rel( mo ) ) { if ( kind == 1 ) { for ( int i = 0; i < MAXT; ++i ) { o.vc.c[i] = 0; } } release( o ); }
}
}
#define AT( B, T ) \
  API T __tsan_atomic##B##_load( T const volatile* a, int mo ) { atomic_pre( (void*) a, sizeof( T ), 0, mo, PC, true ); return __atomic_load_n( a, __ATOMIC_SEQ_CST ); } \
  API void __tsan_atomic##B##_store( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 1, mo, PC, true ); __atomic_store_n( a, v, __ATOMIC_SEQ_CST ); } \
  API T __tsan_atomic##B##_exchange( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, true ); return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST ); } \
  API T __tsan_atomic##B##_fetch_add( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, false ); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST ); } \
  API T __tsan_atomic##B##_fetch_sub( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, false ); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST ); } \
  API T __tsan_atomic##B##_fetch_and( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, true ); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST ); } \
  API T __tsan_atomic##B##_fetch_or( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, true ); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST ); } \
  API T __tsan_atomic##B##_fetch_xor( T volatile* a, T v, int mo ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, true ); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST ); } \
  API bool __tsan_atomic##B##_compare_exchange_strong( T volatile* a, T* e, T v, int mo, int ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, true ); return __atomic_compare_exchange_n( a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
  API bool __tsan_atomic##B##_compare_exchange_weak( T volatile* a, T* e, T v, int mo, int ) { atomic_pre( (void*) a, sizeof( T ), 2, mo, PC, true ); return __atomic_compare_exchange_n( a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); }
AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
API void __tsan_atomic_thread_fence( int ) { __sync_synchronize(); }
API void __tsan_atomic_signal_fence( int ) {}

// ---- locks
namespace {
int lock_model( void* m, bool recursive, bool tr ) { decide(); Guard g; for ( ;; ) { Obj& o = obj( m ); if ( o.owner == me ) { if ( recursive ) { ++o.depth; return 0; } if ( tr ) { event( o, false ); return EBUSY; } die( 'f', "self-deadlock|a thread locks a mutex it already holds" ); } if ( o.owner == -1 ) { o.owner = me; o.depth = 1; acquire( o ); event( o, true ); return 0; } if ( tr ) { event( o, false ); return EBUSY; } block( BLOCK_MUTEX, m ); } }
int unlock_model( void* m ) { Guard g; Obj& o = obj( m ); if ( o.owner != me ) { die( 'f', "bad-unlock|a thread unlocks a mutex it does not hold" ); } if ( --o.depth == 0 ) { o.owner = -1; event( o, true ); release( o ); } return 0; }
bool is_recursive( pthread_mutex_t* m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP; }
}
API int pthread_mutex_lock( pthread_mutex_t* m ) { if ( on() ) { return lock_model( m, is_recursive( m ), false ); } static int (*f)( pthread_mutex_t* ) = next< int (*)( pthread_mutex_t* ) >( "pthread_mutex_lock" ); return f( m ); }
API int pthread_mutex_trylock( pthread_mutex_t* m ) { if ( on() ) { return lock_model( m, is_recursive( m ), true ); } static int (*f)( pthread_mutex_t* ) = next< int (*)( pthread_mutex_t* ) >( "pthread_mutex_trylock" ); return f( m ); }
API int pthread_mutex_unlock( pthread_mutex_t* m ) { if ( on() ) { return unlock_model( m ); } static int (*f)( pthread_mutex_t* ) = next< int (*)( pthread_mutex_t* ) >( "pthread_mutex_unlock" ); return f( m ); }
API int pthread_rwlock_rdlock( pthread_rwlock_t* m ) { if ( on() ) { decide(); Guard g; while ( obj( m ).owner != -1 ) { block( BLOCK_RD, m ); } obj( m ).readers++; acquire( obj( m ) ); event( obj( m ), false ); return 0; } static int (*f)( pthread_rwlock_t* ) = next< int (*)( pthread_rwlock_t* ) >( "pthread_rwlock_rdlock" ); return f( m ); }
API int pthread_rwlock_wrlock( pthread_rwlock_t* m ) { if ( on() ) { decide(); Guard g; while ( obj( m ).owner != -1 || obj( m ).readers ) { block( BLOCK_WR, m ); } obj( m ).owner = me; acquire( obj( m ) ); event( obj( m ), true ); return 0; } static int (*f)( pthread_rwlock_t* ) = next< int (*)( pthread_rwlock_t* ) >( "pthread_rwlock_wrlock" ); return f( m ); }
API int pthread_rwlock_unlock( pthread_rwlock_t* m ) { if ( on() ) { Guard g; Obj& o = obj( m ); if ( o.owner == me ) { o.owner = -1; event( o, true ); } else { o.readers--; event( o, false ); } release( o ); return 0; } static int (*f)( pthread_rwlock_t* ) = next< int (*)( pthread_rwlock_t* ) >( "pthread_rwlock_unlock" ); return f( m ); }
API int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) { if ( on() ) { unlock_model( m ); { Guard g; event( obj( c ), true ); block( BLOCK_COND, c ); event( obj( c ), true ); } return lock_model( m, false, false ); } static int (*f)( pthread_cond_t*, pthread_mutex_t* ) = next< int (*)( pthread_cond_t*, pthread_mutex_t* ) >( "pthread_cond_wait" ); return f( c, m ); }
namespace { void wake( void* c, bool all ) { Guard g; event( obj( c ), true ); for ( int t = 0; t < nth; ++t ) { if ( th[t].st == BLOCK_COND && th[t].on == c ) { th[t].st = RUN; if ( ! all ) { return; } } } } }
API int pthread_cond_signal( pthread_cond_t* c ) { if ( on() ) { wake( c, false ); return 0; } static int (*f)( pthread_cond_t* ) = next< int (*)( pthread_cond_t* ) >( "pthread_cond_signal" ); return f( c ); }
API int pthread_cond_broadcast( pthread_cond_t* c ) { if ( on() ) { wake( c, true ); return 0; } static int (*f)( pthread_cond_t* ) = next< int (*)( pthread_cond_t* ) >( "pthread_cond_broadcast" ); return f( c ); }
API int sched_yield() { if ( on() ) { decide( true ); } return 0; }
API int pthread_once( pthread_once_t* c, void (*fn)() )
{
  if ( ! on() ) { static int (*f)( pthread_once_t*, void (*)() ) = next< int (*)( pthread_once_t*, void (*)() ) >( "pthread_once" ); return f( c, fn ); }
  decide(); for ( ;; ) { { Guard g; Obj& o = obj( c ); if ( *(volatile int*) c == 2 ) { acquire( o ); event( o, false ); return 0; } if ( o.owner == -1 ) { o.owner = me; acquire( o ); event( o, true ); break; } block( BLOCK_ONCE, c ); } }
  struct Undo { pthread_once_t* c; bool ok = false; ~Undo() { Guard g; Obj& o = obj( c ); if ( ok ) { *(volatile int*) c = 2; } o.owner = -1; event( o, true ); release( o ); } } u{ c }; fn(); u.ok = true; return 0;
}
API int __cxa_guard_acquire( long long* g )
{
  if ( __atomic_load_n( (u8*) g, __ATOMIC_ACQUIRE ) ) { if ( on() ) { Guard x; acquire( obj( g ) ); event( obj( g ), false ); } return 0; }
  if ( ! on() ) { if ( active || inrt ) { return 1; } return 1; }
  decide(); for ( ;; ) { Guard x; if ( *(volatile u8*) g ) { acquire( obj( g ) ); event( obj( g ), false ); return 0; } Obj& o = obj( g ); if ( o.owner == -1 ) { o.owner = me; acquire( o ); event( o, true ); return 1; } if ( o.owner == me ) { die( 'f', "recursive-init|a function-local static is initialised recursively" ); } block( BLOCK_GUARD, g ); }
}
API void __cxa_guard_release( long long* g ) { __atomic_store_n( (u8*) g, 1, __ATOMIC_RELEASE ); if ( on() ) { Guard x; Obj& o = obj( g ); o.owner = -1; event( o, true ); release( o ); } }
API void __cxa_guard_abort( long long* g ) { if ( on() ) { Guard x; Obj& o = obj( g ); o.owner = -1; event( o, true ); release( o ); } }
namespace { int dl_lock; }
API void* dlopen( char const* n, int fl ) { static void* (*f)( char const*, int ) = next< void* (*)( char const*, int ) >( "dlopen" ); if ( ! on() ) { return f( n, fl ); } lock_model( &dl_lock, true, false ); void* r = f( n, fl ); unlock_model( &dl_lock ); return r; }
API int dlclose( void* h ) { static int (*f)( void* ) = next< int (*)( void* ) >( "dlclose" ); if ( ! on() ) { return f( h ); } lock_model( &dl_lock, true, false ); int r = f( h ); unlock_model( &dl_lock ); return r; }

// ---- memory
extern "C" { void* __libc_malloc( size_t ); void __libc_free( void* ); void* __libc_calloc( size_t, size_t ); void* __libc_realloc( void*, size_t ); }
API void* malloc( size_t n ) { void* p = __libc_malloc( n ); if ( p && on() ) { Guard g; forget( (up) p, malloc_usable_size( p ) ); } return p; }
API void* calloc( size_t a, size_t b ) { void* p = __libc_calloc( a, b ); if ( p && on() ) { Guard g; forget( (up) p, malloc_usable_size( p ) ); } return p; }
API void* realloc( void* q, size_t n ) { if ( q && on() ) { Guard g; freed( (up) q, malloc_usable_size( q ), PC ); } void* p = __libc_realloc( q, n ); if ( p && on() ) { Guard g; forget( (up) p, malloc_usable_size( p ) ); } return p; }
API void free( void* p ) { if ( p && on() ) { Guard g; freed( (up) p, malloc_usable_size( p ), PC ); forget( (up) p, malloc_usable_size( p ) ); } __libc_free( p ); }
API void* memcpy( void* __restrict d, void const* __restrict s, size_t n ) { if ( on() ) { Guard g; touch( (up) s, n, 0, PC ); touch( (up) d, n, 1, PC ); } void* r = d; asm volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n ) : : "memory" ); return r; }
API void* memmove( void* d, void const* s, size_t n ) { if ( on() ) { Guard g; touch( (up) s, n, 0, PC ); touch( (up) d, n, 1, PC ); } void* r = d; if ( (up) d <= (up) s || (up) d >= (up) s + n ) { asm volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n ) : : "memory" ); } else { char* dd = (char*) d + n - 1; char const* ss = (char const*) s + n - 1; asm volatile( "std; rep movsb; cld" : "+D"( dd ), "+S"( ss ), "+c"( n ) : : "memory" ); } return r; }
API void* memset( void* d, int v, size_t n ) { if ( on() ) { Guard g; touch( (up) d, n, 1, PC ); } void* r = d; asm volatile( "rep stosb" : "+D"( d ), "+c"( n ) : "a"( v ) : "memory" ); return r; }

// ---- library calls with hidden shared state
API struct tm* localtime( time_t const* t ) { static struct tm (*f)( time_t const* ) = nullptr; (void) f; static struct tm shared; struct tm tmp; { Guard g; localtime_r( t, &tmp ); } if ( on() ) { Guard g; touch( (up) &shared, sizeof shared, 1, PC ); } shared = tmp; return &shared; }
API struct tm* gmtime( time_t const* t ) { static struct tm shared; struct tm tmp; { Guard g; gmtime_r( t, &tmp ); } if ( on() ) { Guard g; touch( (up) &shared, sizeof shared, 1, PC ); } shared = tmp; return &shared; }
API size_t strftime( char* s, size_t n, char const* fm, struct tm const* t ) { static size_t (*f)( char*, size_t, char const*, struct tm const* ) = next< size_t (*)( char*, size_t, char const*, struct tm const* ) >( "strftime" ); if ( on() ) { { Guard g; touch( (up) t, sizeof *t, 0, PC ); } decide(); } Guard g; return f( s, n, fm, t ); }
API char* ctime( time_t const* t ) { static char shared[64]; if ( on() ) { Guard g; touch( (up) shared, sizeof shared, 1, PC ); } Guard g; return ctime_r( t, shared ); }
API char* strtok( char* s, char const* d ) { static char* save; if ( on() ) { Guard g; touch( (up) &save, 8, 1, PC ); } Guard g; return strtok_r( s, d, &save ); }
API size_t fwrite( void const* p, size_t s, size_t n, FILE* o ) { static size_t (*f)( void const*, size_t, size_t, FILE* ) = next< size_t (*)( void const*, size_t, size_t, FILE* ) >( "fwrite" ); bool const c = on(); if ( c ) { decide(); } Guard g; if ( c ) { event( obj( o ), true ); } return f( p, s, n, o ); }
API int putc( int c, FILE* o ) { static int (*f)( int, FILE* ) = next< int (*)( int, FILE* ) >( "putc" ); bool const k = on(); if ( k ) { decide(); } Guard g; if ( k ) { event( obj( o ), true ); } return f( c, o ); }
API int fputc( int c, FILE* o ) { static int (*f)( int, FILE* ) = next< int (*)( int, FILE* ) >( "fputc" ); bool const k = on(); if ( k ) { decide(); } Guard g; if ( k ) { event( obj( o ), true ); } return f( c, o ); }
API int fputs( char const* c, FILE* o ) { static int (*f)( char const*, FILE* ) = next< int (*)( char const*, FILE* ) >( "fputs" ); bool const k = on(); if ( k ) { decide(); } Guard g; if ( k ) { event( obj( o ), true ); } return f( c, o ); }
API ssize_t write( int fd, void const* p, size_t n ) { static ssize_t (*f)( int, void const*, size_t ) = next< ssize_t (*)( int, void const*, size_t ) >( "write" ); if ( on() && fd == 2 ) { decide(); Guard g; event( obj( stderr ), true ); } return f( fd, p, n ); }
// ---- the processor description of a small machine (reading a long one dominates the cost of an execution)
namespace {
FILE* open_file( char const* which, char const* n, char const* m )
{
  static char info[] = "processor\t: 0\nvendor_id\t: GenuineIntel\ncpu family\t: 6\nmodel\t\t: 85\nmodel name\t: X\nstepping\t: 4\ncpu MHz\t\t: 2000.000\ncache size\t: 1024 KB\nphysical id\t: 0\nsiblings\t: 1\ncore id\t\t: 0\ncpu cores\t: 1\nflags\t\t: fpu\n\n";
  Guard g; if ( strcmp( n, "/proc/cpuinfo" ) == 0 ) { return fmemopen( info, sizeof info - 1, "r" ); } return ( (FILE* (*)( char const*, char const* )) dlsym( RTLD_NEXT, which ) )( n, m );
}
}
#undef fopen
#undef fopen64
API FILE* fopen( char const* n, char const* m ) { return open_file( "fopen", n, m ); }
API FILE* fopen64( char const* n, char const* m ) { return open_file( "fopen64", n, m ); }
