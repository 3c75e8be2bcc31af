// A forwarder without configurations, as the header's documentation tells to write it.
#define kwsys_SHARED_FORWARD_DIR_BUILD "/proc/self/cwd/build/bin"
#define kwsys_SHARED_FORWARD_PATH_BUILD ".", "../lib b", "/abs/build"
#define kwsys_SHARED_FORWARD_PATH_INSTALL "../lib/foo 1.2", "/abs/dir", "../lib/bar"
#define kwsys_SHARED_FORWARD_EXE_BUILD "foo-real"
#define kwsys_SHARED_FORWARD_EXE_INSTALL "../lib/foo 1.2/foo-real"
#define kwsys_SHARED_FORWARD_OPTION_COMMAND "--command"
#define kwsys_SHARED_FORWARD_OPTION_PRINT "--print"
#define kwsys_SHARED_FORWARD_OPTION_LDD "--ldd"
#include <kwsys/SharedForward.h>
int forward_plain( int argc, char** argv ) { return kwsys_shared_forward_to_real( argc, argv ); }
