//@unit search kind=contract target=zpl_binary_search fp=zpl_binary_search.function_pointer_call.1/vz_cmp unwind=3 bunwind=6 n=3 bound="arrays up to 3 elements"
//@unit cmps kind=full about="the supplied comparison procedures at every offset up to 8, for all values" unwind=6
//@unit sort_b kind=bounded about="zpl_sort (insertion part)" fp=zpl_sort.function_pointer_call.1/vz_cmp8,zpl_sort.function_pointer_call.2/vz_cmp8,zpl_sort.function_pointer_call.3/vz_cmp8,zpl_sort.function_pointer_call.4/vz_cmp8,zpl_sort.function_pointer_call.5/vz_cmp8,zpl_sort.function_pointer_call.6/vz_cmp8 unwind=4 n=3 unwindset=zpl_sort.5:4 bound="up to 3 one-byte elements; native search covers the quicksort part"
//@unit hist kind=search search=25 maxlen=2000 bound="up to 600 elements of 1 to 40 bytes" about="sorting and searching arrays of every element size, with every supplied comparison"
#define VZ_ANNOT "annot_sort.h"
#include <stdint.h>
int64_t g_lo, g_hi;
#include "vz.h"
#ifdef VZ_CBMC
static uint8_t const *g_base; static zpl_isize g_count, g_size; static int g_key;
int vz_cmp(void const *a, void const *b) {   /* the comparison of the key with an element of a sorted array */
    zpl_isize o; int r = (int)nondet_vz4(); VZ_CHECK(a == &g_key, "the key first"); VZ_CHECK(__CPROVER_same_object(b, g_base), "an element of the array");
    o = (zpl_isize)__CPROVER_POINTER_OFFSET(b); VZ_CHECK(o >= 0 && o / g_size < g_count && o % g_size == 0, "an element of the array"); o /= g_size;
    VZ_ASSUME(o >= g_hi ? r < 0 : o < g_lo ? r > 0 : r == 0); return r; }
#endif
int vz_cmp8(void const *a, void const *b) { return *(uint8_t const *)a - *(uint8_t const *)b; }
#ifdef VZ_PROOF
void vz_proof(void) {
    zpl_isize r, k = vz_range(0, 3); g_count = vz_range(0, (int64_t)1 << 40); g_size = k == 0 ? 1 : k == 1 ? 4 : k == 2 ? 16 : 64;
    g_base = (uint8_t *)vz_malloc((size_t)(g_count * g_size)); g_lo = vz_range(0, (int64_t)1 << 40); g_hi = vz_range(0, (int64_t)1 << 40); VZ_ASSUME(g_lo <= g_hi && g_hi <= g_count);
    r = zpl_binary_search(g_base, g_count, g_size, &g_key, vz_cmp);
    VZ_CHECK(g_lo == g_hi || (r >= g_lo && r < g_hi), "the index of an equal element"); VZ_CHECK(g_lo != g_hi || r == -1, "absent");
    VZ_REACH("end");
}
#else
#define CMPT(T, N) { T x, y; int o = (int)vz_range(0, 8), want; uint8_t *a = (uint8_t *)vz_malloc(16), *b = (uint8_t *)vz_malloc(16); uint64_t u = vz_u64(), w = vz_u64(); memcpy(&x, &u, sizeof x); memcpy(&y, &w, sizeof y); memcpy(a + o, &x, sizeof x); memcpy(b + o, &y, sizeof y); \
    want = x < y ? -1 : x > y; VZ_CHECK((N(o))(a, b) == want, #N " orders as the values"); }
void vz_test(void) {
#if defined U_cmps
    switch (vz_u8() & 7) { case 0: CMPT(zpl_u8, zpl_u8_cmp) break; case 1: CMPT(zpl_i16, zpl_i16_cmp) break; case 2: CMPT(zpl_i32, zpl_i32_cmp) break; case 3: CMPT(zpl_i64, zpl_i64_cmp) break; case 4: CMPT(zpl_isize, zpl_isize_cmp) break; case 5: CMPT(zpl_f32, zpl_f32_cmp) break; case 6: CMPT(zpl_f64, zpl_f64_cmp) break;
    default: { int o = 8 * (int)vz_range(0, 1), x; char *s = vz_text(2, NULL), *t = vz_text(2, NULL); char *A[2], *B[2]; A[0] = A[1] = s; B[0] = B[1] = t; x = (zpl_str_cmp(o))(A, B); { int i = 0; while (s[i] && s[i] == t[i]) i++; i = (uint8_t)s[i] - (uint8_t)t[i]; VZ_CHECK((x < 0) == (i < 0) && (x > 0) == (i > 0), "texts in byte order"); } } }
#elif defined U_sort_b || defined U_search
    uint8_t *a = (uint8_t *)vz_malloc(VZ_N), o[VZ_N], v = vz_u8(); zpl_isize n = (zpl_isize)vz_range(0, VZ_N), k, c = 0, d = 0;
    for (k = 0; k < VZ_N; k++) { o[k] = a[k] = vz_u8(); }
    zpl_sort(a, n, 1, vz_cmp8);
    for (k = 0; k < n; k++) { c += o[k] == v; d += a[k] == v; if (k) VZ_CHECK(a[k - 1] <= a[k], "non-decreasing"); } VZ_CHECK(c == d, "a permutation");
    for (k = n; k < VZ_N; k++) VZ_CHECK(a[k] == o[k], "nothing else touched");
#elif !defined VZ_CBMC
    zpl_isize n = vz_u8() & 3 ? (vz_u8() % 40) : vz_range(0, 600), w = vz_u8() % 40 + 1, k, j; int t = vz_u8() % 9, off; uint8_t *a, *o; zpl_compare_proc *cmp; uint64_t h = vz_u64(), mask = vz_u8() & 1 ? 3 : 255; int order = vz_u8() % 5;
    static const int need[] = { 1, 2, 4, 8, 8, 4, 8, 8, 1 }; if (w < need[t]) w = need[t]; off = (int)(h % (uint64_t)(w - need[t] + 1));
    if (t == 7 || t == 5 || t == 6) { w = (w + 7) & ~7; off &= ~7; }
    a = (uint8_t *)vz_malloc((size_t)(n * w)); o = (uint8_t *)vz_malloc((size_t)(n * w) + 1);
    for (k = 0; k < n * w; k++) { h = h * 6364136223846793005ull + 1442695040888963407ull; a[k] = (uint8_t)((vz_size ? vz_u8() : h >> 56) & mask); }
    if (t == 5) for (k = 0; k < n; k++) { float f = (float)(int)(a[k * w] - 100) / 3; memcpy(a + k * w + off, &f, 4); }
    if (t == 6) for (k = 0; k < n; k++) { double f = (double)(int)(a[k * w] - 100) / 3; memcpy(a + k * w + off, &f, 8); }
    if (t == 7) { static char const *txt[] = { "", "a", "b", "ab", "abc", "\xff", "zz", "Zz" }; for (k = 0; k < n; k++) memcpy(a + k * w + off, &txt[a[k * w] & 7], 8); }
    switch (t) { case 0: cmp = zpl_u8_cmp(off); break; case 1: cmp = zpl_i16_cmp(off); break; case 2: cmp = zpl_i32_cmp(off); break; case 3: cmp = zpl_i64_cmp(off); break; case 4: cmp = zpl_isize_cmp(off); break; case 5: cmp = zpl_f32_cmp(off); break; case 6: cmp = zpl_f64_cmp(off); break; case 7: cmp = zpl_str_cmp(off); break; default: cmp = vz_cmp8; }
    if (order == 1 || order == 2) zpl_sort(a, n, w, cmp);
    if (order == 2) for (k = 0; k < n / 2; k++) for (j = 0; j < w; j++) { uint8_t x = a[k * w + j]; a[k * w + j] = a[(n - 1 - k) * w + j]; a[(n - 1 - k) * w + j] = x; }
    memcpy(o, a, (size_t)(n * w)); zpl_sort(a, n, w, cmp);
    for (k = 1; k < n; k++) VZ_CHECK(cmp(a + (k - 1) * w, a + k * w) <= 0, "non-decreasing");
    { uint64_t sa = 0, so = 0, xa = 0, xo = 0; for (k = 0; k < n; k++) { uint64_t p = 7, q = 7; for (j = 0; j < w; j++) { p = (p ^ a[k * w + j]) * 1099511628211ull; q = (q ^ o[k * w + j]) * 1099511628211ull; } p ^= p >> 31; q ^= q >> 31; sa += p; so += q; xa += p * p; xo += q * q; } VZ_CHECK(sa == so && xa == xo, "a permutation of the elements"); }
    for (k = 0; k < n && k < 30; k++) { zpl_isize r = zpl_binary_search(a, n, w, o + k * w, cmp); VZ_CHECK(r >= 0 && r < n && cmp(o + k * w, a + r * w) == 0, "found"); }
    if (t == 0 && n) { uint8_t *key = (uint8_t *)vz_malloc((size_t)w); int there = 0; memcpy(key, a, (size_t)w); key[off] = vz_u8(); for (k = 0; k < n; k++) there |= a[k * w + off] == key[off]; VZ_CHECK((zpl_binary_search(a, n, w, key, cmp) >= 0) == there, "absence"); }
#endif
    VZ_REACH("end");
}
#endif
