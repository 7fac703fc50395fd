/* records the control flow and the addresses touched as one number per call */
#include <stdint.h>
static uint64_t h;
uint64_t w_trace(void) { uint64_t r = h; h = 0; return r; }
static void add(uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t n; if (a == b || *a) return; for (; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { add(*g); }
#define A(n, t) void __sanitizer_cov_load##n(void *p) { add((uint64_t)p); } void __sanitizer_cov_store##n(void *p) { add((uint64_t)p + 1); }
A(1,) A(2,) A(4,) A(8,) A(16,)
