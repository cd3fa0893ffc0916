//@unit ranges kind=full calls=zpl_random_gen_u32:vz_gen about="integer draws from every range, for every output of the generator" unwind=10
//@unit permute kind=full about="the residue permutation equals x*x mod 2^32-5, reflected, for every x" unwind=10 each=1 esolver=cvc5,cadical etimeout=60
//@unit step kind=full calls=zpl__permute_qpr:vz_qpr about="one offset step is one-to-one and depends on its arguments alone" unwind=10
//@unit unique kind=full calls=zpl__permute_with_offset:vz_pwo about="two positions of the unique sequence never give the same value (injectivity of the permutation assumed, see lemma)" unwind=10
//@unit equal kind=full calls=zpl__permute_with_offset:vz_pwo2 about="equal generator states produce equal draws and equal successor states" unwind=10
//@unit unit_interval kind=full calls=zpl_random_gen_u32:vz_gen about="floating-point draws from the unit interval lie in it" unwind=10
//@unit seq kind=search search=10 maxlen=80 bound="native search, 40000 consecutive values" about="the residue permutation is one-to-one on runs of values; ranges with the real generator"
#include "vz.h"
#ifdef VZ_CBMC
/* contract of the generator step: any 32-bit value */
zpl_u32 vz_gen(zpl_random *r) { VZ_CHECK(r != NULL, "generator given"); return (zpl_u32)nondet_vz4(); }
/* contract of the residue permutation: one-to-one (bijection lemma) */
static uint32_t q_x[8], q_y[8]; static int q_n, q_run;
zpl_u32 vz_qpr(zpl_u32 x) { uint32_t y = nondet_vz4(); if (!q_run) { VZ_ASSUME(q_n < 8); q_x[q_n] = x; q_y[q_n] = y; } else { VZ_ASSUME(q_n < 8); VZ_ASSUME((x == q_x[q_n]) == (y == q_y[q_n])); } q_n++; return y; }
/* contract of one offset step (unit step): one-to-one for each offset / a function of its arguments */
static uint32_t q_o[8];
zpl_u32 vz_pwo(zpl_u32 x, zpl_u32 o) { uint32_t y = nondet_vz4(); VZ_ASSUME(q_n < 8); if (!q_run) { q_x[q_n] = x; q_y[q_n] = y; q_o[q_n] = o; } else { VZ_CHECK(o == q_o[q_n], "the same offset at the same step"); VZ_ASSUME((x == q_x[q_n]) == (y == q_y[q_n])); } q_n++; return y; }
zpl_u32 vz_pwo2(zpl_u32 x, zpl_u32 o) { return (x ^ x >> 7) ^ (o + 12345u); }
#endif
static int same_off(zpl_random *a, zpl_random *b) { int i; for (i = 0; i < 8; i++) if (a->offsets[i] != b->offsets[i]) return 0; return a->value == b->value; }
#define SAME(a, b) same_off(&a, &b)
void vz_test(void) {
    zpl_random r, s; int k;
    for (k = 0; k < 8; k++) r.offsets[k] = vz_u32(); r.value = vz_u32(); s = r; (void)s;
#if defined U_ranges
    { int64_t lo = (int64_t)vz_u64(), hi = (int64_t)vz_u64(), v; VZ_ASSUME(lo <= hi);
      v = zpl_random_range_i64(&r, lo, hi); VZ_CHECK(v >= lo && v <= hi, "draw in range"); v = zpl_random_range_isize(&r, lo, hi); VZ_CHECK(v >= lo && v <= hi, "draw in range"); }
#elif defined U_unit_interval
    { double d = zpl_random_range_f64(&r, 0.0, 1.0); VZ_CHECK(d >= 0.0 && d <= 1.0, "draw in the unit interval"); }
#elif defined U_permute
    { uint32_t x = vz_u32(), P = 4294967291u; uint64_t q = (uint64_t)x * x; uint32_t m = (uint32_t)(q % P), want = x >= P ? x : x <= P / 2 ? m : P - m; VZ_CHECK(zpl__permute_qpr(x) == want, "the published permutation"); }
#elif defined U_step
    { uint32_t x = vz_u32(), y = vz_u32(), o = vz_u32(), a, b;
#ifdef VZ_CBMC
      q_n = 0; q_run = 0; a = zpl__permute_with_offset(x, o); q_n = 0; q_run = 1; b = zpl__permute_with_offset(y, o);
#else
      a = zpl__permute_with_offset(x, o); b = zpl__permute_with_offset(y, o);
#endif
      VZ_CHECK((a == b) == (x == y), "one-to-one"); }
#elif defined U_unique
    { uint32_t d = vz_u32(), a, b; VZ_ASSUME(d != 0); 
#ifdef VZ_CBMC
      q_n = 0; q_run = 0; a = zpl_random_gen_u32_unique(&r); VZ_CHECK(r.value == s.value + 1, "the position advances by one"); for (k = 0; k < 8; k++) VZ_CHECK(r.offsets[k] == s.offsets[k], "offsets kept");
      s.value += d; q_n = 0; q_run = 1; b = zpl_random_gen_u32_unique(&s); VZ_CHECK(a != b, "different positions give different values");
#else
      a = zpl_random_gen_u32_unique(&r); s.value += d; b = zpl_random_gen_u32_unique(&s); VZ_CHECK(a != b, "different positions give different values");
#endif
    }
#elif defined U_equal
    { zpl_random c = r; uint64_t a = zpl_random_gen_u32(&r), b = zpl_random_gen_u32(&c); VZ_CHECK(a == b && SAME(r, c), "equal states, equal draws");
      c = r; a = zpl_random_gen_u32_unique(&r); b = zpl_random_gen_u32_unique(&c); VZ_CHECK(a == b && SAME(r, c), "equal states, equal draws"); }
#elif !defined VZ_CBMC
    { static uint32_t seen[1 << 17]; static uint8_t used[1 << 17]; uint32_t x0 = vz_u32(), x; int n = 40000; memset(used, 0, sizeof used);
      if (vz_u8() & 1) x0 = 4294967291u / 2 - x0 % 50000; 
      for (x = 0; x < (uint32_t)n; x++) { uint32_t y = zpl__permute_qpr(x0 + x), h = (y * 2654435761u) >> 15; while (used[h]) { VZ_CHECK(seen[h] != y, "one-to-one"); h = (h + 1) & ((1 << 17) - 1); } used[h] = 1; seen[h] = y; }
      memset(used, 0, sizeof used); for (x = 0; x < (uint32_t)n; x++) { uint32_t y = zpl_random_gen_u32_unique(&r), h = (y * 2654435761u) >> 15; while (used[h]) { VZ_CHECK(seen[h] != y, "no value twice"); h = (h + 1) & ((1 << 17) - 1); } used[h] = 1; seen[h] = y; }
      for (k = 0; k < 50; k++) { int64_t lo = (int64_t)vz_u64(), hi = (int64_t)vz_u64(), t; double d; if (vz_u8() & 1) { lo >>= vz_u8() & 63; hi >>= vz_u8() & 63; } if (lo > hi) { t = lo; lo = hi; hi = t; } s = r; t = zpl_random_range_i64(&r, lo, hi); VZ_CHECK(t >= lo && t <= hi, "draw in range"); VZ_CHECK(zpl_random_range_i64(&s, lo, hi) == t, "equal states, equal draws"); t = zpl_random_range_isize(&r, lo, hi); VZ_CHECK(t >= lo && t <= hi, "draw in range"); d = zpl_random_range_f64(&r, 0, 1); VZ_CHECK(d >= 0 && d <= 1, "unit interval"); } }
#endif
    VZ_REACH("end");
}
