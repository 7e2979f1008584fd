/* vf_mem.h - memcpy/memmove of 16-bit units element by element (CBMC's own
 * model of a copy of symbolic size loses the contents when the destination may
 * be one of several blocks).  Include before the real source. */
#ifndef VF_NATIVE
static void *vf_copy16(void *d, const void *s, size_t n)
{
    size_t i, k = n / 2;
    __CPROVER_assert(n % 2 == 0, "whole units");
    for (i = 0; i < k; i ++) ((uint16_t*)d)[i] = ((const uint16_t*)s)[i];
    return d;
}
#define memcpy vf_copy16
#endif
