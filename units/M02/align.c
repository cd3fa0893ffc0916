//@unit align_ptr kind=full about="zpl_align_forward, zpl_is_power_of_two: every address and power-of-two alignment" unwind=66
//@unit align_u64 kind=full about="zpl_align_forward_u64: every value and alignment with a representable result" each=1 esolver=cvc5int,z3new timeout=100
//@unit align_i64 kind=full about="zpl_align_forward_i64: every value and alignment up to 2^62 with a representable result" each=1 esolver=cvc5int,z3new timeout=100
//@unit ptr_arith kind=full about="zpl_pointer_add/sub/diff: every position and distance" flags=no-signed-overflow-check
//@unit align_small kind=full about="both integer forms, by divisibility and minimality, every 14-bit value and alignment" def=VZ_W=14 each=1 esolver=cvc5int,z3new timeout=100
#include "vz.h"
void vz_test(void) {
#if defined U_align_ptr
    uint64_t p = vz_u64(), x = vz_u64(), r; int k = (int)vz_range(0, 62); int64_t a = (int64_t)1 << k, i; int pop = 0, w;
    VZ_ASSUME(p <= UINT64_MAX - (uint64_t)(a - 1));
    r = (uint64_t)zpl_align_forward((void *)p, a);
    VZ_CHECK(r >= p && r - p < (uint64_t)a, "least value not below the input"); VZ_CHECK((r & (uint64_t)(a - 1)) == 0, "multiple of the alignment");
    for (w = 0; w < 64; w++) pop += (x >> w) & 1;
    VZ_CHECK((zpl_is_power_of_two((zpl_isize)x) != 0) == (pop == 1 && (int64_t)x > 0), "power of two exactly when one bit is set and the value is positive");
#elif defined U_align_u64
    uint64_t v = vz_u64(), a = vz_u64(), r, q; VZ_ASSUME(a > 0); q = v % a;
    VZ_ASSUME(q == 0 || v - q <= UINT64_MAX - a);
    r = zpl_align_forward_u64(v, a);
    VZ_CHECK(r == (q == 0 ? v : v - q + a), "the input when it is a multiple, else the next multiple");
#elif defined U_align_i64
    int64_t v = (int64_t)vz_u64(), a = (int64_t)vz_u64(), r, q; VZ_ASSUME(a > 0 && a <= (int64_t)1 << 62); q = v % a;
    VZ_ASSUME(q <= 0 || v - q <= INT64_MAX - a);
    r = zpl_align_forward_i64(v, a);
    VZ_CHECK(r == (q > 0 ? v - q + a : v - q), "the input when it is a multiple, else the next multiple above");
#elif defined U_align_small
    int64_t v = vz_range(-((int64_t)1 << VZ_W), (int64_t)1 << VZ_W), a = vz_range(1, 1 << VZ_W), r; int16_t vs = (int16_t)v; int16_t m;
    r = zpl_align_forward_i64(v, a);
    VZ_CHECK(r >= v && r - v < a && r % a == 0, "least multiple not below (signed)");
    if (v >= 0) VZ_CHECK(zpl_align_forward_u64((uint64_t)v, (uint64_t)a) == (uint64_t)r, "unsigned form agrees");
#else
    uint8_t *b = (uint8_t *)vz_malloc(4096); int64_t i = vz_range(0, 4096), d = vz_range(-4096, 4096); VZ_ASSUME(i + d >= 0 && i + d <= 4096);
    VZ_CHECK((uint8_t *)zpl_pointer_add(b + i, d) == b + i + d && (uint8_t const *)zpl_pointer_add_const(b + i, d) == b + i + d, "add");
    VZ_CHECK(zpl_pointer_sub(zpl_pointer_add(b + i, d), d) == (void *)(b + i) && zpl_pointer_sub_const(zpl_pointer_add_const(b + i, d), d) == (void const *)(b + i), "subtract undoes add");
    VZ_CHECK(zpl_pointer_diff(b + i, zpl_pointer_add(b + i, d)) == d, "difference of begin and end"); VZ_CHECK(zpl_pointer_add(b, zpl_pointer_diff(b, b + i)) == (void *)(b + i), "adding the difference");
#endif
    VZ_REACH("end");
}
