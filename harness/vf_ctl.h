// Controlled scheduling.  The library is compiled with -fsanitize=thread (flavour
// "ctl") but linked with vf_ctl.c instead of the sanitizer's runtime: every
// memory access and atomic operation of the library becomes a point at which the
// scheduler may stop the thread and run another one.  Only one thread runs at a
// time; the choice is a function of the seed.
#pragma once
#include <stdint.h>
void vf_ctl_start(uint64_t seed, int mean); // the caller becomes thread 0
void vf_ctl_stop(void);
void vf_ctl_point(void); // a point of the driver itself
void vf_ctl_wait(void);  // let the others go on (the caller waits for something)
extern int      vf_ctl_on, vf_ctl_freeze;
extern uint64_t vf_ctl_switches;
