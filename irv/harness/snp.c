/* Verification harness: gives the macro parts of an SnP / PlSnP interface an address. Compiled with
   -DPFX=<prefix> -DHDR=<header> [-DPAR=<parallelism>]. */
#if __has_include("align.h")
#include "align.h"
#endif
#include HDR
#define J0(a, b) a ## b
#define J(a, b) J0(a, b)
#ifdef PAR
typedef J(PFX, _states) T;
#define NAME(x) J(J(w_, PFX), x)
void NAME(_StaticInitialize)(void) { J(PFX, _StaticInitialize)(); }
void NAME(_AddByte)(T *s, unsigned int i, unsigned char b, unsigned int o) { J(PFX, _AddByte)(s, i, b, o); }
#else
typedef J(PFX, _state) T;
#define NAME(x) J(J(w_, PFX), x)
void NAME(_StaticInitialize)(void) { J(PFX, _StaticInitialize)(); }
void NAME(_AddByte)(T *s, unsigned char b, unsigned int o) { J(PFX, _AddByte)(s, b, o); }
#endif
unsigned int NAME(_size)(void) { return sizeof(T); }
unsigned int NAME(_align)(void) { return _Alignof(T); }
