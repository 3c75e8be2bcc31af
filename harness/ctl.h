// Interface of the controlled scheduler (sched_rt.cxx).
#pragma once
#include <stddef.h>
#include <stdint.h>
// shared with the explorer: the choices that are already fixed, and the schedule so far
struct SchedCtl { int prefix_n; uint8_t prefix[8192]; uint8_t arity[8192]; uint64_t final; uint32_t order_n; char order[8192]; };
void sched_init( int fd, SchedCtl* );
void sched_ignore( void const*, size_t );
void sched_run( int threads, void (*fn)( void*, int ), void* arg, int preemptions );
void sched_point();
void sched_fail( char const* key_bar_message );
void sched_done( char const* outcome );
uint64_t sched_steps();
