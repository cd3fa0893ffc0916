//@unit memmove cost=80 kind=contract target=zpl_memmove bunwind=22 n=18 bound="blocks up to 18 bytes, all alignments and overlaps" each=1 esolver=z3,cadical timeout=380
//@unit memset kind=contract tier=thorough target=zpl_memset cost=100 bunwind=8 n=70 bound="blocks up to 70 bytes, all alignments" fuzz=20 each=1 esolver=cadical,z3 etimeout=130 timeout=250
//@unit memset_q kind=bounded def=U_memset=1 unwind=8 n=70 search=15 bound="blocks up to 70 bytes, all alignments" about="memset (the unbounded proof is in the thorough tier)"
//@unit memcompare kind=contract target=zpl_memcompare bunwind=10 n=8 bound="8 bytes"
//@unit memchr kind=contract target=zpl_memchr bunwind=22 n=18 bound="18 bytes"
//@unit memrchr kind=contract target=zpl_memrchr bunwind=10 n=8 bound="8 bytes"
//@unit memswap kind=contract target=zpl_memswap calls=zpl_memswap:vz_memswap256,memcpy:vz_memcpy,vz_target:zpl_memswap unwindset=zpl_memswap.0:9 each=1 cost=90 tier=thorough timeout=350 esolver=z3,cadical bunwind=12 n=10 bound="10 bytes" about="blocks above 8 bytes"
//@unit memswap_small kind=contract target=zpl_memswap calls=vz_target:zpl_memswap unwindset=zpl_memswap.0:9 loops=0 bunwind=12 n=10 bound="10 bytes" about="blocks of at most 8 bytes" assume="blocks of at most 8 bytes: both lie in one object of 32 bytes, at all relative positions"
//@unit memswap256 kind=contract target=zpl_memswap about="the exchange of one 256-byte chunk, as the chunk loop calls it" unwindset=zpl_memswap.0:9 calls=memcpy:vz_memcpy,vz_target:zpl_memswap loops=0 tier=thorough each=1 esolver=z3,cadical standin=0
//@unit memcopy kind=contract target=zpl_memcopy bunwind=10 n=8 bound="8 bytes" each=1 esolver=z3,cadical timeout=200
//@unit memcopy_b kind=bounded about="all primitives, sampled over large sizes" unwind=12 n=2 search=15 maxlen=3000 bound="one byte; native search up to 1200 bytes"
#define VZ_ANNOT "annot_mem.h"
#include "vz.h"
#define MAXLEN ((zpl_isize)1 << 24)
#ifdef VZ_PROOF
#include "contract_copy.h"
void vz_target(void *i, void *j, zpl_isize size);   /* the real zpl_memswap */
/* contract of zpl_memswap for 256-byte blocks (proved by the unit memswap256), used for the recursive calls */
void vz_memswap256(void *i, void *j, zpl_isize size) {
    uint8_t a = 0, b = 0, r = 0; int64_t q = g_q - g_n1; int in = g_q >= 0 && q >= 0 && q < 256;
    VZ_CHECK(size == 256 && __CPROVER_w_ok(i, 256) && __CPROVER_w_ok(j, 256), "chunk inside both blocks");
    VZ_CHECK(i == g_i + g_n1 && j == g_j + g_n1, "the next chunk of each block");
    __CPROVER_havoc_object(g_base);
    VZ_ASSUME(g_q < 0 || (in ? g_i[g_q] == g_want2 && g_j[g_q] == g_want : g_q < g_n1 ? g_i[g_q] == g_want2 && g_j[g_q] == g_want : g_i[g_q] == g_want && g_j[g_q] == g_want2));
    VZ_ASSUME(KEEP);
}
void vz_proof(void) {
    zpl_isize n = (zpl_isize)vz_range(0, MAXLEN), N = (zpl_isize)vz_range(0, 3 * MAXLEN), a = (zpl_isize)vz_range(0, 3 * MAXLEN), b = (zpl_isize)vz_range(0, 3 * MAXLEN);
#ifdef U_memswap_small
    uint8_t *B = (N = 32, (uint8_t *)vz_malloc(32)), c
#else
    uint8_t *B = (uint8_t *)vz_malloc((size_t)N), c
#endif
    = vz_u8(); void *r; int32_t cmp; uint8_t const *p;
    VZ_ASSUME(a + n <= N && b + n <= N);
    g_base = B; g_len = n; g_depth = 0; g_n1 = 0; g_p = 0;
    g_q = vz_range(-1, MAXLEN); g_r = vz_range(-1, 3 * MAXLEN); VZ_ASSUME(g_q < n && g_r < N);
    if (g_r >= 0) g_wr = B[g_r];
#if defined U_memmove
    VZ_ASSUME(g_r < a || g_r >= a + n);
    if (g_q >= 0) g_want = B[b + g_q];
    r = zpl_memmove(B + a, B + b, n);
    VZ_CHECK(r == B + a, "returns the destination"); VZ_CHECK(g_q < 0 || B[a + g_q] == g_want, "destination byte equals source byte"); VZ_CHECK(KEEP, "other bytes unchanged");
    VZ_CHECK(zpl_memmove(NULL, B, n) == NULL, "no destination");
#elif defined U_memset
    VZ_ASSUME(g_r < a || g_r >= a + n);
    r = vz_u8() ? (zpl_memset(B + a, c, n)) : (c = 0, zpl_zero_size(B + a, n), (void *)(B + a));
    VZ_CHECK(r == B + a, "returns the destination"); VZ_CHECK(g_q < 0 || B[a + g_q] == c, "byte set"); VZ_CHECK(KEEP, "other bytes unchanged");
    VZ_CHECK(zpl_memset(NULL, c, n) == NULL, "no destination");
#elif defined U_memcompare
    cmp = zpl_memcompare(B + a, B + b, n);
    VZ_CHECK(cmp != 0 || g_q < 0 || B[a + g_q] == B[b + g_q], "zero only when every byte agrees");
    VZ_CHECK(cmp == 0 || (g_p >= 0 && g_p < n && cmp == B[a + g_p] - B[b + g_p]), "sign of the difference at the first differing position");
    VZ_CHECK(cmp == 0 || !(g_q >= 0 && g_q < g_p) || B[a + g_q] == B[b + g_q], "it is the first");
    VZ_CHECK(zpl_memcompare(NULL, B, n) == 0 && zpl_memcompare(B, NULL, n) == 0, "missing block");
#elif defined U_memchr || defined U_memrchr
#ifdef U_memchr
    p = (uint8_t const *)zpl_memchr(B + a, c, n);
#else
    p = (uint8_t const *)zpl_memrchr(B + a, c, n);
#endif
    VZ_CHECK(p || g_q < 0 || B[a + g_q] != c, "absent only when no byte matches");
    if (p) {
        VZ_CHECK(__CPROVER_same_object(p, B) && OFF(p, B) >= a && OFF(p, B) < a + n && *p == c, "a matching byte of the block");
#ifdef U_memchr
        VZ_CHECK(!(g_q >= 0 && g_q < OFF(p, B) - a) || B[a + g_q] != c, "the first one");
#else
        VZ_CHECK(!(g_q > OFF(p, B) - a) || B[a + g_q] != c, "the last one");
#endif
        VZ_REACH("found");
    }
#elif defined U_memswap || defined U_memswap256 || defined U_memswap_small
#ifdef U_memswap256
    VZ_ASSUME(n == 256); n = 256;
#elif defined U_memswap_small
    VZ_ASSUME(n <= 8);
#else
    VZ_ASSUME(n > 8);
#endif
    VZ_ASSUME(a + n <= b || b + n <= a || a == b); VZ_ASSUME(g_r < 0 || ((g_r < a || g_r >= a + n) && (g_r < b || g_r >= b + n)));
    g_i = B + a; g_j = B + b;
    if (g_q >= 0) { g_want = B[a + g_q]; g_want2 = B[b + g_q]; }
    vz_t[0] = g_q < 0 ? NULL : B + a + g_q; vz_t[1] = g_q < 0 ? NULL : B + b + g_q; vz_t[2] = g_r < 0 ? NULL : B + g_r; vz_t[3] = NULL; vz_o = g_q;
    vz_target(B + a, B + b, n);
    VZ_CHECK(g_q < 0 || (B[a + g_q] == g_want2 && B[b + g_q] == g_want), "bytes exchanged"); VZ_CHECK(KEEP, "other bytes unchanged");
#else
    VZ_ASSUME(a + n <= b || b + n <= a); VZ_ASSUME(g_r < a || g_r >= a + n);
    if (g_q >= 0) g_want = B[b + g_q];
    r = zpl_memcopy(B + a, B + b, n);
    VZ_CHECK(r == B + a && (g_q < 0 || B[a + g_q] == g_want) && KEEP, "copied exactly"); VZ_CHECK(zpl_memcopy(NULL, B, n) == NULL, "no destination");
#endif
    VZ_REACH("end");
}
#else
#define CAP (2 * VZ_N + 9)
void vz_test(void) {
    zpl_isize m = VZ_N, n, a, b, k, cap = CAP; uint8_t *B, *O, c = vz_u8(), sel = vz_u8() % 7; void *r;
    VZ_NATIVE_ONLY(m = vz_u8() & 1 ? 1200 : 40; cap = 3 * m + 24;)
#ifndef U_memcopy_b
    sel = 9;
#endif
    n = (zpl_isize)vz_range(0, m); a = (zpl_isize)vz_range(0, cap - m); b = (zpl_isize)vz_range(0, cap - m);
    VZ_ASSUME(a + n <= cap && b + n <= cap);
    VZ_NATIVE_ONLY(if (vz_u8() & 3) { b = a + (zpl_isize)vz_range(-40, 40); VZ_ASSUME(b >= 0 && b + n <= cap); })
    B = (uint8_t *)vz_malloc((size_t)cap); O = (uint8_t *)vz_malloc((size_t)cap);
#ifdef VZ_CBMC
    memcpy(O, B, (size_t)cap);
#else
    { uint64_t h = vz_u64(); for (k = 0; k < cap; k++) { h = h * 6364136223846793005ull + 1442695040888963407ull; O[k] = B[k] = (uint8_t)(h >> 56) & (h & 1 ? 255 : 3); } c = O[vz_u8() % cap]; }
#endif
#define UNTOUCHED(x) (O[x] == B[x])
#ifdef U_memcopy_b
    if (sel == 0)
#endif
#if defined U_memmove || defined U_memcopy_b
    { r = zpl_memmove(B + a, B + b, n); VZ_CHECK(r == B + a, "returns the destination");
      VZ_FORALL(k, 0, cap) VZ_CHECK(B[k] == (k >= a && k < a + n ? O[b + k - a] : O[k]), "moved exactly"); }
#endif
#ifdef U_memcopy_b
    if (sel == 1)
#endif
#if defined U_memset || defined U_memcopy_b
    { zpl_memset(B + a, c, n); VZ_FORALL(k, 0, cap) VZ_CHECK(B[k] == (k >= a && k < a + n ? c : O[k]), "filled exactly"); }
#endif
#ifdef U_memcopy_b
    if (sel == 2)
#endif
#if defined U_memcompare || defined U_memcopy_b
    { int32_t x = zpl_memcompare(B + a, B + b, n), y = 0; for (k = 0; k < n && !y; k++) y = O[a + k] - O[b + k]; VZ_CHECK((x < 0) == (y < 0) && (x > 0) == (y > 0), "comparison sign"); }
#endif
#ifdef U_memcopy_b
    if (sel == 3)
#endif
#if defined U_memchr || defined U_memcopy_b
    { for (k = 0; k < n && O[a + k] != c; k++) {} VZ_CHECK(zpl_memchr(B + a, c, n) == (k < n ? B + a + k : NULL), "first match"); }
#endif
#ifdef U_memcopy_b
    if (sel == 4)
#endif
#if defined U_memrchr || defined U_memcopy_b
    { for (k = n - 1; k >= 0 && O[a + k] != c; k--) {} VZ_CHECK(zpl_memrchr(B + a, c, n) == (k >= 0 ? B + a + k : NULL), "last match"); }
#endif
#ifdef U_memcopy_b
    if (sel == 5 && (a + n <= b || b + n <= a || a == b))
#endif
#if defined U_memswap || defined U_memcopy_b || defined U_memswap_small
    { VZ_ASSUME(a + n <= b || b + n <= a || a == b);
      zpl_memswap(B + a, B + b, n); VZ_FORALL(k, 0, cap) VZ_CHECK(B[k] == (k >= a && k < a + n ? O[b + k - a] : k >= b && k < b + n ? O[a + k - b] : O[k]), "exchanged exactly"); }
#endif
#ifdef U_memcopy_b
    if (sel == 6 && (a + n <= b || b + n <= a))
#endif
#if defined U_memcopy || defined U_memcopy_b
    { VZ_ASSUME(a + n <= b || b + n <= a);
      zpl_memcopy(B + a, B + b, n); VZ_FORALL(k, 0, cap) VZ_CHECK(B[k] == (k >= a && k < a + n ? O[b + k - a] : O[k]), "copied exactly"); }
#endif
    VZ_REACH("end");
}
#endif
