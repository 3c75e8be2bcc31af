// Exhaustive exploration of thread schedules: every execution is a forked child whose scheduling decisions are answered by the explorer.
#pragma once
#include "mc.h"
#include "ctl.h"
#include <sys/socket.h>
#include <sys/wait.h>
#include <sched.h>
#include <signal.h>
#include <poll.h>
#include <functional>
#include <iostream>
#include <fcntl.h>
namespace mc {
inline std::string symbolize( std::string const& w ) // "module+0xoffset" -> function
{
  size_t p = w.rfind( '+' ); if ( p == std::string::npos ) { return w; }
  std::string cmd = "addr2line -Cfie '" + w.substr( 0, p ) + "' " + w.substr( p + 1 ) + " 2>/dev/null", out; FILE* f = popen( cmd.c_str(), "r" ); char b[4096]; std::string best, fn; int k = 0;
  while ( f && fgets( b, sizeof b, f ) ) { std::string l( b ); while ( ! l.empty() && l.back() == '\n' ) { l.pop_back(); } if ( k++ % 2 == 0 ) { fn = l; } else { size_t q = l.find( " (disc" ); if ( q != std::string::npos ) { l.resize( q ); } if ( best.empty() || best.find( "/usr/include" ) != std::string::npos ) { best = fn + " at " + l; } } }
  if ( f ) { pclose( f ); } return best.empty() ? w : best;
}
inline std::string func_of( std::string const& s ) { std::string f = s.substr( 0, s.find( " at " ) ); size_t p = f.find( '(' ); if ( p != std::string::npos ) { f.resize( p ); } return f; }
inline void string_key( std::string& s ) { for ( char& c : s ) { if ( c == ' ' ) { c = '_'; } } }
// body: prepares, calls sched_run, checks, and ends with sched_done
inline void sched( Run& r, std::function< void( std::string const& err_file ) > body )
{
  std::string err = r.scratch + "/stderr.txt"; int sv[2]; if ( socketpair( AF_UNIX, SOCK_SEQPACKET, 0, sv ) ) { throw Divergence( "socketpair" ); }
  
  static SchedCtl* ctl = (SchedCtl*) mmap( nullptr, sizeof( SchedCtl ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); ctl->prefix_n = 0; ctl->order_n = 0;
  uint64_t const inputs = [&] () { uint64_t h = 3; for ( size_t i = 0; i < r.pos; ++i ) { h = mix( h, r.path[i] ); } return h; }();
  for ( size_t i = r.pos; i < r.path.size() && r.arity[i] > 0 && ctl->prefix_n < 4000; ++i ) { ctl->prefix[ctl->prefix_n] = (uint8_t) r.path[i]; ctl->arity[ctl->prefix_n++] = (uint8_t) r.arity[i]; }
  for ( int i = 0; i < ctl->prefix_n; ++i ) { r.choose( ctl->arity[i] ); }
  fflush( nullptr ); pid_t pid = fork();
  if ( pid == 0 )
  {
    { cpu_set_t cs; CPU_ZERO( &cs ); CPU_SET( sched_getcpu(), &cs ); sched_setaffinity( 0, sizeof cs, &cs ); } // only one thread runs at a time: cheap hand-over
    close( sv[0] ); int fd = open( err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644 ); dup2( fd, 2 ); close( fd ); sched_init( sv[1], ctl );
    sched_ignore( &std::cerr, sizeof std::cerr ); sched_ignore( &std::cout, sizeof std::cout ); sched_ignore( &std::clog, sizeof std::clog ); sched_ignore( stderr, 256 ); sched_ignore( stdout, 256 ); // standard streams may be used concurrently
    sched_ignore( &std::use_facet< std::ctype< char > >( std::locale::classic() ), sizeof( std::ctype< char > ) ); // libstdc++ fills its character table lazily
    try { body( err ); } catch ( std::exception const& e ) { sched_fail( ( std::string( "exception|" ) + e.what() ).c_str() ); }
    sched_done( "" );
  }
  close( sv[1] ); struct Kill { pid_t p; int fd; ~Kill() { close( fd ); kill( p, SIGKILL ); int st; while ( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {} } } guard{ pid, sv[0] };
  char b[2048]; auto order = [&] () { return std::string( ctl->order, ctl->order_n ); };
  for ( ;; )
  {
    struct pollfd pf = { sv[0], POLLIN, 0 }; int pr = poll( &pf, 1, 60000 ); if ( pr == 0 ) { r.fail( "hang", "no scheduling decision for 60 s after " + order() ); } if ( pr < 0 ) { continue; }
    ssize_t n = recv( sv[0], b, sizeof b - 1, 0 ); if ( n <= 0 ) { int st = 0; waitpid( pid, &st, 0 ); guard.p = fork(); if ( guard.p == 0 ) { _exit( 0 ); } std::string t; { std::ifstream in( err.c_str() ); std::stringstream ss; ss << in.rdbuf(); t = ss.str(); } if ( t.size() > 600 ) { t = t.substr( t.size() - 600 ); } r.fail( "crash", "the process ended unexpectedly (status " + std::to_string( st ) + ") after schedule " + order() + "; " + t ); } b[n] = 0;
    switch ( b[0] )
    {
    case 'c': { uint64_t f; memcpy( &f, b + 2, 8 ); if ( r.prune( mix( inputs, f ), b[10] ) ) { return; } int k = r.choose( b[1] ); r.step(); char c = (char) k; if ( send( sv[0], &c, 1, MSG_NOSIGNAL ) != 1 ) {} } break; // an equivalent state was explored with at least this many preemptions left
    case 'f': { std::string m( b + 1 ); size_t p = m.find( '|' ); r.log( "schedule " + order() ); r.fail( m.substr( 0, p ), m.substr( p == std::string::npos ? 0 : p + 1 ) ); } break;
    case 'r': { std::string m( b + 1 ), part[4]; for ( int i = 0; i < 4; ++i ) { size_t p = m.find( '|' ); part[i] = m.substr( 0, p ); m = p == std::string::npos ? "" : m.substr( p + 1 ); } std::string x = symbolize( part[1] ), y = symbolize( part[3] ); r.log( "schedule " + order() ); std::string fx = func_of( x ), fy = func_of( y ); if ( fy < fx ) { std::swap( fx, fy ); } string_key( fx ); string_key( fy ); r.fail( "race:" + fx + "/" + fy, "unsynchronised " + part[0] + " by " + x + " and " + part[2] + " by " + y ); } break;
    case 'e': throw Divergence( std::string( "scheduler: " ) + ( b + 1 ) );
    case 'd': r.state( mix( ctl->final, hash_str( b + 1 ) ) ); r.outcome( b + 1 ); r.log( "schedule " + order() ); return;
    }
  }
}
}
