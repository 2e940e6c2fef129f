// what a unit driver may use; interpreted by engine/unit.cpp
#include "common.h"
int vf_choice(int n);                       // each of 0..n-1
long vf_any(long lo, long hi);              // some value in [lo,hi]
void vf_check(int cond, const char *what);  // "Pxx: what must hold"
void vf_assume(int cond);
char *vf_str(long max);                     // some text of at most max characters
void *vf_mem(long n);                       // n bytes of unknown content
void vf_data(void *p, long n);               // n unknown bytes arrive at p
void vf_case(int);
static void __attribute__((noinline, unused)) vf_merge(void) { while (vf_choice(2)) ; } // alternatives are joined here
void vf_note(const char *t);
void *vf_arg(int i);                         // the i-th variable argument of the innermost call that has any
int vf_live(void *p);
