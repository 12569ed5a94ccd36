/* RDRAND as the code under test sees it (see cpuid.h). */
#ifndef VH_IMMINTRIN_H_
#define VH_IMMINTRIN_H_
#include_next <immintrin.h>
#ifdef __RDRND__
extern int vh_rdrand_hook(unsigned int *) __attribute__((weak));
static inline int
vh_rdrand32_step(unsigned int * p)
{
	int r;
	if (vh_rdrand_hook && (r = vh_rdrand_hook(p)) >= 0)
		return (r);
	return (_rdrand32_step(p));
}
#define _rdrand32_step(p) vh_rdrand32_step(p)
#endif
#endif
