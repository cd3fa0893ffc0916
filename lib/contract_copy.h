/* Contracts of the block primitives, as callers see them (memcpy: the C library, assumed; zpl_memmove, zpl_memset,
   zpl_memcopy: proved for the real code by property M01).  The effect is stated for arbitrary fixed cells (vz_t) and
   an arbitrary fixed offset into the block (vz_o); everything else in the destination object is forgotten. */
#ifdef VZ_CBMC
#define VZ_NT 4
uint8_t *vz_t[VZ_NT]; int64_t vz_o;
#ifdef VZ_HDR   /* a header (VZ_HDR words) that stays as it is when the written range does not touch it */
struct vz_hdr { uint64_t w[VZ_HDR]; } *vz_h;
#endif
#define VZ_OFF(p, b) ((int64_t)__CPROVER_POINTER_OFFSET(p) - (int64_t)__CPROVER_POINTER_OFFSET(b))
static inline void *vz_block_op(uint8_t *d, uint8_t const *s, int fill, uint8_t c, int64_t n) {
    uint8_t v[VZ_NT], w = 0; int k, in = vz_o >= 0 && vz_o < n;
    if (n <= 0) return d;
    if (in) w = fill ? c : s[vz_o];
    for (k = 0; k < VZ_NT; k++) if (vz_t[k]) {
        v[k] = *vz_t[k];
        if (__CPROVER_same_object(vz_t[k], d) && VZ_OFF(vz_t[k], d) >= 0 && VZ_OFF(vz_t[k], d) < n) v[k] = fill ? c : s[VZ_OFF(vz_t[k], d)];
    }
#ifdef VZ_HDR
    { int keep = vz_h && __CPROVER_same_object(vz_h, d) && (VZ_OFF(d, vz_h) >= (int64_t)sizeof *vz_h || VZ_OFF(vz_h, d) >= n); struct vz_hdr h; if (keep) h = *vz_h;
      __CPROVER_havoc_object(d); if (keep) *vz_h = h; }
#else
    __CPROVER_havoc_object(d);
#endif
    for (k = 0; k < VZ_NT; k++) if (vz_t[k]) VZ_ASSUME(*vz_t[k] == v[k]);
    if (in) VZ_ASSUME(d[vz_o] == w);
    return d;
}
void *vz_memcpy(void *d, void const *s, size_t n) {
    VZ_CHECK(n <= ((size_t)1 << 50), "block size is not negative");
    VZ_CHECK(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "memcpy: both blocks valid");
    VZ_CHECK(n == 0 || !__CPROVER_same_object(d, s) || VZ_OFF(d, s) >= (int64_t)n || VZ_OFF(s, d) >= (int64_t)n, "memcpy: blocks do not overlap");
    return vz_block_op((uint8_t *)d, (uint8_t const *)s, 0, 0, (int64_t)n);
}
void *vz_zmemcopy(void *d, void const *s, zpl_isize n) { if (!d) return NULL; return vz_memcpy(d, s, (size_t)n); }
void *vz_zmemmove(void *d, void const *s, zpl_isize n) {
    if (!d) return NULL;
    VZ_CHECK(n >= 0, "block size is not negative");
    VZ_CHECK(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "memmove: both blocks valid");
    return vz_block_op((uint8_t *)d, (uint8_t const *)s, 0, 0, n);
}
void *vz_zmemset(void *d, zpl_u8 c, zpl_isize n) {
    if (!d) return NULL;
    VZ_CHECK(n >= 0, "block size is not negative");
    VZ_CHECK(n == 0 || __CPROVER_w_ok(d, n), "memset: block valid");
    return vz_block_op((uint8_t *)d, NULL, 1, c, n);
}
/* zpl_pointer_diff as property M02 proves it; used where differences may be negative (CBMC's overflow check on pointer
   subtraction misjudges negative differences) */
zpl_isize vz_pointer_diff(void const *b, void const *e) {
    VZ_CHECK(__CPROVER_same_object(b, e), "pointer difference within one object"); return VZ_OFF(e, b); }
#endif
