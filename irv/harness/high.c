/* Verification harness: sizes and alignments of the instance types of one public header.
   Compiled with -DHDR="X.h" and -DT1=<type> [-DT2=<type> ...]. */
#include <stddef.h>
#include HDR
#define J0(a, b) a ## b
#define J(a, b) J0(a, b)
#define S(t) unsigned int J(w_sizeof_, t)(void) { return sizeof(t); } unsigned int J(w_alignof_, t)(void) { return _Alignof(t); }
#ifdef T1
S(T1)
#endif
#ifdef T2
S(T2)
#endif
#ifdef T3
S(T3)
#endif
#ifdef T4
S(T4)
#endif
