// A forwarder of a multi-configuration build, without options.
#define kwsys_SHARED_FORWARD_DIR_BUILD "/proc/self/cwd/build/bin"
#define kwsys_SHARED_FORWARD_PATH_BUILD "./Debug", "../lib b/Debug"
#define kwsys_SHARED_FORWARD_PATH_INSTALL "../lib/foo 1.2"
#define kwsys_SHARED_FORWARD_EXE_BUILD "Debug/foo-real"
#define kwsys_SHARED_FORWARD_EXE_INSTALL "../lib/foo 1.2/foo-real"
#define kwsys_SHARED_FORWARD_CONFIG_NAME "Debug"
#include <kwsys/SharedForward.h>
int forward_config( int argc, char** argv ) { return kwsys_shared_forward_to_real( argc, argv ); }
