//@unit to_float kind=full mods=MATH about="half to float and back for all 65536 values" unwind=13
//@unit to_half kind=full mods=MATH about="float to half for all 2^32 values" unwind=13
//@unit geometry kind=full mods=MATH about="matrix transpose, copy, views, identity; rectangle and box conversions, for all values" unwind=17
#include "vz.h"
static uint32_t bits(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static float flt(uint32_t i) { float f; memcpy(&f, &i, 4); return f; }
void vz_test(void) {
#if defined U_to_float
    uint16_t h = vz_u16(); uint32_t e = (h >> 10) & 31, m = h & 1023, b; float f; uint16_t back;
    f = zpl_half_to_float(h); b = bits(f); back = (uint16_t)zpl_float_to_half(f);
    VZ_CHECK(b >> 31 == h >> 15, "sign");
    if (e == 31) { VZ_CHECK(((b >> 23) & 255) == 255 && ((b & 0x7fffff) != 0) == (m != 0), "infinity and not-a-number class"); VZ_CHECK((b & 0x7fffff) == m << 13, "payload"); }
    else if (e) VZ_CHECK(((b >> 23) & 255) == e + 112 && (b & 0x7fffff) == m << 13, "exact value");
    else { double v = m / 16777216.0; VZ_CHECK((double)(f < 0 ? -f : f) == v, "exact value of zero and subnormals"); }
    VZ_CHECK(back == h, "converting back returns the same value");
#elif defined U_to_half
    uint32_t i = vz_u32(), E = (i >> 23) & 255, M = i & 0x7fffff; uint16_t h = (uint16_t)zpl_float_to_half(flt(i)); uint32_t e = (h >> 10) & 31, m = h & 1023, lo, k;
    VZ_CHECK(h >> 15 == i >> 31, "sign");
    if (E == 255) VZ_CHECK(e == 31 && (m != 0) == (M != 0), "infinity and not-a-number class");
    else if (E >= 127 + 16) VZ_CHECK(e == 31 && m == 0, "overflow to infinity");
    else if (E >= 113) { lo = (E - 112) << 10 | M >> 13; k = h & 0x7fff; VZ_CHECK(k == lo || k == lo + 1, "one of the two neighbouring halves"); if (!(M & 0x1fff)) VZ_CHECK(k == lo, "representable values are exact"); }
    else { uint32_t sh = 126 - E, v = M | (E ? 0x800000 : 0); lo = sh > 24 ? 0 : v >> sh; k = h & 0x7fff; VZ_CHECK(k == lo || k == lo + 1, "one of the two neighbouring halves"); if (sh <= 24 && (v & ((1u << sh) - 1)) == 0) VZ_CHECK(k == lo, "representable values are exact"); }
    if (E != 255) { float x = flt(i & 0x7fffffff); if (x == 0) VZ_CHECK((h & 0x7fff) == 0, "zero"); }
#else
    union { zpl_mat2 m; float f[4]; uint32_t u[4]; } *a2 = vz_malloc(16), *b2 = vz_malloc(16); union { zpl_mat3 m; float f[9]; uint32_t u[9]; } *a3 = vz_malloc(36), *b3 = vz_malloc(36); union { zpl_mat4 m; float f[16]; uint32_t u[16]; } *a4 = vz_malloc(64), *b4 = vz_malloc(64);
    uint32_t o[16]; int k; for (k = 0; k < 16; k++) { o[k] = vz_u32(); a4->u[k] = o[k]; if (k < 9) a3->u[k] = o[k]; if (k < 4) a2->u[k] = o[k]; }
    VZ_CHECK((void *)zpl_float22_m(&a2->m) == a2 && (void *)zpl_float33_m(&a3->m) == a3 && (void *)zpl_float44_m(&a4->m) == a4, "views");
    zpl_mat2_copy(&b2->m, &a2->m); zpl_mat3_copy(&b3->m, &a3->m); zpl_mat4_copy(&b4->m, &a4->m);
    k = (int)(vz_u8() & 15); VZ_CHECK(b4->u[k] == o[k] && (k >= 9 || b3->u[k] == o[k]) && (k >= 4 || b2->u[k] == o[k]), "copies"); VZ_CHECK(a4->u[k] == o[k] && (k >= 9 || a3->u[k] == o[k]) && (k >= 4 || a2->u[k] == o[k]), "sources kept");
    zpl_mat2_transpose(&b2->m); zpl_mat3_transpose(&b3->m); zpl_mat4_transpose(&b4->m);
    VZ_CHECK(b4->u[k] == o[(k % 4) * 4 + k / 4] && (k >= 9 || b3->u[k] == o[(k % 3) * 3 + k / 3]) && (k >= 4 || b2->u[k] == o[(k % 2) * 2 + k / 2]), "transposed");
    zpl_mat2_identity(&b2->m); zpl_mat3_identity(&b3->m); zpl_mat4_identity(&b4->m);
    VZ_CHECK(b4->f[k] == (k % 5 == 0) && (k >= 9 || b3->f[k] == (k % 4 == 0)) && (k >= 4 || b2->f[k] == (k % 3 == 0)), "identity");
    { zpl_vec3 p, d; zpl_rect3 r; zpl_aabb3 b; zpl_rect2 r2; zpl_aabb2 c2; float *q = a4->f; for (k = 0; k < 6; k++) { VZ_ASSUME(q[k] == q[k] && q[k] < 1e30f && q[k] > -1e30f); }
      p.x = q[0]; p.y = q[1]; p.z = q[2]; d.x = q[3]; d.y = q[4]; d.z = q[5]; r = zpl_rect3f(p, d);
      VZ_CHECK(bits(r.pos.x) == o[0] && bits(r.pos.y) == o[1] && bits(r.pos.z) == o[2] && bits(r.dim.x) == o[3] && bits(r.dim.y) == o[4] && bits(r.dim.z) == o[5], "rectangle");
      b = zpl_aabb3_rect3(r); VZ_CHECK(bits(b.min.x) == o[0] && bits(b.min.y) == o[1] && bits(b.min.z) == o[2] && b.max.x == q[0] + q[3] && b.max.y == q[1] + q[4] && b.max.z == q[2] + q[5], "box of a rectangle");
      b = zpl_aabb3f(q[0], q[1], q[2], q[3], q[4], q[5]); VZ_CHECK(bits(b.min.x) == o[0] && bits(b.min.y) == o[1] && bits(b.min.z) == o[2] && bits(b.max.x) == o[3] && bits(b.max.y) == o[4] && bits(b.max.z) == o[5], "box");
      r = zpl_rect3_aabb3(b); VZ_CHECK(bits(r.pos.x) == o[0] && bits(r.pos.y) == o[1] && bits(r.pos.z) == o[2] && r.dim.x == q[3] - q[0] && r.dim.y == q[4] - q[1] && r.dim.z == q[5] - q[2], "rectangle of a box");
      r2 = zpl_rect2f(zpl_vec2f(q[0], q[1]), zpl_vec2f(q[2], q[3])); c2 = zpl_aabb2_rect2(r2); VZ_CHECK(bits(c2.min.x) == o[0] && bits(c2.min.y) == o[1] && c2.max.x == q[0] + q[2] && c2.max.y == q[1] + q[3], "2D box of a rectangle");
      c2 = zpl_aabb2f(q[0], q[1], q[2], q[3]); VZ_CHECK(bits(c2.max.x) == o[2] && bits(c2.max.y) == o[3], "2D box"); r2 = zpl_rect2_aabb2(c2); VZ_CHECK(bits(r2.pos.x) == o[0] && bits(r2.pos.y) == o[1] && r2.dim.x == q[2] - q[0] && r2.dim.y == q[3] - q[1], "2D rectangle of a box"); }
#endif
    VZ_REACH("end");
}
