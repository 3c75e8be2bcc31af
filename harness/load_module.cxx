// A library for K12: WHICH is 1 or 2; 3 has an unresolved function that is never called.
extern "C" {
#define API __attribute__( ( visibility( "default" ) ) )
static int n; API int which = WHICH;
API int count() { return ++n; }
__attribute__( ( visibility( "hidden" ) ) ) int hidden() { return 1; }
#if WHICH == 2
API int only_second() { return 20 + hidden() - 1; }
#else
API int only_first() { return 10 + hidden() - 1; }
#endif
#if WHICH == 3
int function_that_does_not_exist(); API int unused() { return function_that_does_not_exist(); }
#endif
}
