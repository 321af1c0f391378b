/* Simulator stand-in for <cpuid.h>: the CPU personality of the simulated
   machine decides which feature bits the library sees. */
#ifndef SIM_CPUID_H
#define SIM_CPUID_H
#define bit_AES (1u << 25)
#define bit_PCLMUL (1u << 1)
#define bit_PCLMULQDQ (1u << 1)
#define bit_SSE4_1 (1u << 19)
#define bit_SSSE3 (1u << 9)
#define bit_SSE3 (1u << 0)
#define bit_RDRND (1u << 30)
extern int sim_get_cpuid(unsigned int leaf, unsigned int *a, unsigned int *b,
                         unsigned int *c, unsigned int *d);
static inline int __get_cpuid(unsigned int leaf, unsigned int *a,
                              unsigned int *b, unsigned int *c,
                              unsigned int *d)
{ return sim_get_cpuid(leaf, a, b, c, d); }
static inline int __get_cpuid_count(unsigned int leaf, unsigned int sub,
                              unsigned int *a, unsigned int *b,
                              unsigned int *c, unsigned int *d)
{ (void) sub; return sim_get_cpuid(leaf, a, b, c, d); }
static inline unsigned int __get_cpuid_max(unsigned int ext, unsigned int *sig)
{ (void) ext; if (sig) *sig = 0; return 7; }
#define __cpuid(leaf, a, b, c, d) \
  do { unsigned int a_, b_, c_, d_; sim_get_cpuid(leaf, &a_, &b_, &c_, &d_); \
       (a) = a_; (b) = b_; (c) = c_; (d) = d_; } while (0)
#define __cpuid_count(leaf, sub, a, b, c, d) __cpuid(leaf, a, b, c, d)
#endif
