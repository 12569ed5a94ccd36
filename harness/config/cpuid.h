/* CPU identification as the code under test sees it: the real one, or the
 * harness's script if it is linked in and active. */
#ifndef VH_CPUID_H_
#define VH_CPUID_H_
#include_next <cpuid.h>
extern int vh_cpuid_hook(unsigned int, unsigned int, unsigned int *) __attribute__((weak));
static inline int
vh_get_cpuid_count(unsigned int leaf, unsigned int sub, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d, int check)
{
	unsigned int r[4] = { leaf, sub, 0, 0 }, m[4];
	if (vh_cpuid_hook && vh_cpuid_hook(leaf, sub, r)) {
		if (check) {
			vh_cpuid_hook(0, 0, m);
			if (m[0] == 0 || leaf > m[0])
				return (0);
		}
	} else {
		if (check && (__get_cpuid_max(leaf & 0x80000000u, 0) == 0 || __get_cpuid_max(leaf & 0x80000000u, 0) < leaf))
			return (0);
		__cpuid_count(leaf, sub, r[0], r[1], r[2], r[3]);
	}
	*a = r[0]; *b = r[1]; *c = r[2]; *d = r[3];
	return (1);
}
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) ((void)vh_get_cpuid_count(l, 0, &(a), &(b), &(c), &(d), 0))
#define __cpuid_count(l, s, a, b, c, d) ((void)vh_get_cpuid_count(l, s, &(a), &(b), &(c), &(d), 0))
#define __get_cpuid(l, a, b, c, d) vh_get_cpuid_count(l, 0, a, b, c, d, 1)
#define __get_cpuid_count(l, s, a, b, c, d) vh_get_cpuid_count(l, s, a, b, c, d, 1)
#endif
