//@unit reverse_b kind=bounded about="reversal" unwind=8 n=3 bound="up to 3 elements of one byte"
//@unit shuffle_b kind=bounded about="shuffling, for every output of the generator" calls=zpl_random_init:vz_init,zpl_random_gen_u32:vz_gen unwind=10 n=3 bound="up to 3 elements"
//@unit hist kind=search search=25 maxlen=1500 bound="up to 300 elements" about="radix sorts of every width, reversal, shuffling"
#include "vz.h"
#ifdef VZ_CBMC
void vz_init(zpl_random *r) { (void)r; }
zpl_u32 vz_gen(zpl_random *r) { (void)r; return vz_u32(); }
#else
#define RAD(T, name) { T *a = (T *)vz_malloc((size_t)n * sizeof(T)), *t = (T *)vz_malloc((size_t)n * sizeof(T)), *o = (T *)vz_malloc((size_t)n * sizeof(T)), s1 = 0, s2 = 0; uint64_t q1 = 0, q2 = 0; \
    for (k = 0; k < n; k++) { h = h * 6364136223846793005ull + 1442695040888963407ull; a[k] = o[k] = (T)((vz_size ? vz_u64() : h >> 8) >> (h >> 58)); } \
    zpl_radix_sort(name)(a, t, n); for (k = 0; k < n; k++) { if (k) VZ_CHECK(a[k - 1] <= a[k], "sorted in place"); s1 ^= a[k]; s2 ^= o[k]; q1 += (uint64_t)a[k] * a[k]; q2 += (uint64_t)o[k] * o[k]; } VZ_CHECK(s1 == s2 && q1 == q2, "a permutation"); }
#endif
void vz_test(void) {
    zpl_isize n = (zpl_isize)vz_range(0, VZ_N), k, j; (void)j;
#if defined U_reverse_b
    zpl_isize w = 1; uint8_t *a = (uint8_t *)vz_malloc(2 * VZ_N), o[2 * VZ_N]; for (k = 0; k < 2 * VZ_N; k++) o[k] = a[k] = vz_u8();
    zpl_reverse(a, n, w); for (k = 0; k < n; k++) for (j = 0; j < w; j++) VZ_CHECK(a[k * w + j] == o[(n - 1 - k) * w + j], "reversed"); for (k = n * w; k < 2 * VZ_N; k++) VZ_CHECK(a[k] == o[k], "nothing else touched");
#elif defined U_shuffle_b
    uint8_t *a = (uint8_t *)vz_malloc(VZ_N), o[VZ_N], v = vz_u8(); int c = 0, d = 0; for (k = 0; k < VZ_N; k++) o[k] = a[k] = vz_u8();
    zpl_shuffle(a, n, 1); for (k = 0; k < n; k++) { c += o[k] == v; d += a[k] == v; } VZ_CHECK(c == d, "a permutation"); for (k = n; k < VZ_N; k++) VZ_CHECK(a[k] == o[k], "nothing else touched");
#elif !defined VZ_CBMC
    uint64_t h = vz_u64(); n = vz_u8() & 1 ? vz_u8() % 12 : vz_range(0, 300);
    switch (vz_u8() % 6) { case 0: RAD(uint8_t, u8) break; case 1: RAD(uint16_t, u16) break; case 2: RAD(uint32_t, u32) break; case 3: { typedef zpl_u64 V; RAD(V, u64) } break;
    case 4: { zpl_isize w = vz_u8() % 20 + 1, m; uint8_t *a = (uint8_t *)vz_malloc((size_t)(n * w)), *o = (uint8_t *)vz_malloc((size_t)(n * w) + 1); for (k = 0; k < n * w; k++) { h = h * 6364136223846793005ull + 1442695040888963407ull; o[k] = a[k] = (uint8_t)(h >> 56); }
        zpl_reverse(a, n, w); for (m = 0; m < n; m++) VZ_CHECK(!memcmp(a + m * w, o + (n - 1 - m) * w, (size_t)w), "reversed"); zpl_reverse(a, n, w); VZ_CHECK(!memcmp(a, o, (size_t)(n * w)), "twice restores"); } break;
    default: { zpl_isize w = vz_u8() % 20 + 1; uint8_t *a = (uint8_t *)vz_malloc((size_t)(n * w)); uint8_t seen[300] = { 0 }; for (k = 0; k < n; k++) { for (j = 0; j < w; j++) a[k * w + j] = (uint8_t)(k + j); } if (n <= 256) { zpl_shuffle(a, n, w); for (k = 0; k < n; k++) { VZ_CHECK(!seen[a[k * w]], "a permutation"); seen[a[k * w]] = 1; VZ_CHECK(a[k * w] < n, "a permutation"); for (j = 0; j < w; j++) VZ_CHECK(a[k * w + j] == (uint8_t)(a[k * w] + j), "whole elements move"); } } } }
#endif
    VZ_REACH("end");
}
