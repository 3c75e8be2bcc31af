// Run part of an execution in a forked child, for code with process-wide state.
#ifndef VERIF_CHILD_H
#define VERIF_CHILD_H
#include "mc.h"
#include <sys/wait.h>
namespace mc {
// The child must not call choose(); everything it needs has been chosen before.
template < typename F > void in_child( Run& r, F f, int seconds = 30 )
{
  int fd[2]; if ( pipe( fd ) ) { throw Divergence( "pipe failed" ); }
  fflush( stdout ); fflush( stderr );
  pid_t pid = fork();
  if ( pid < 0 ) { throw Divergence( "fork failed" ); }
  if ( pid == 0 )
  {
    close( fd[0] ); signal( SIGALRM, SIG_DFL ); alarm( seconds ); r.transitions = 0; r.trace.clear(); std::string out;
    try { f(); out = "O"; }
    catch ( Fail const& x ) { out = "F" + x.key + std::string( 1, '\0' ) + x.msg; }
    catch ( std::exception const& x ) { out = std::string( "Funexpected-exception" ) + '\0' + "unexpected exception: " + x.what(); }
    catch ( ... ) { out = std::string( "Funexpected-exception" ) + '\0' + "unexpected unknown exception"; }
    uint64_t t = r.transitions; std::string log; for ( auto const& s : r.trace ) { log += s + '\n'; }
    uint64_t n = log.size(); std::string all( (char*) &t, 8 ); all.append( (char*) &n, 8 ); all += log + out;
    for ( size_t o = 0; o < all.size(); ) { ssize_t w = write( fd[1], all.data() + o, all.size() - o ); if ( w <= 0 ) { break; } o += (size_t) w; }
    _exit( 0 );
  }
  close( fd[1] ); std::string in; char buf[4096];
  for (;; ) { ssize_t n = read( fd[0], buf, sizeof buf ); if ( n < 0 && errno == EINTR ) { continue; } if ( n <= 0 ) { break; } in.append( buf, (size_t) n ); }
  close( fd[0] ); int st = 0; while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  if ( in.size() < 17 ) { r.fail( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ? "hang" : "crash", "the process ended with status " + std::to_string( st ) + " (see the report above)" ); }
  uint64_t t, n; memcpy( &t, in.data(), 8 ); memcpy( &n, in.data() + 8, 8 ); r.step( t );
  std::istringstream l( in.substr( 16, n ) ); std::string s; while ( std::getline( l, s ) ) { r.log( s ); }
  in = in.substr( 16 + n );
  if ( in[0] == 'F' ) { size_t z = in.find( '\0' ); r.fail( in.substr( 1, z - 1 ), in.substr( z + 1 ) ); }
}
}
#endif
