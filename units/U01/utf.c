//@unit encode kind=full about="encoding every 32-bit rune value, decoded back" unwind=6
//@unit decode kind=full about="decoding every byte sequence at every stated length up to 5 against the Unicode definition" unwind=6
//@unit count_b kind=bounded unwind=9 n=4 bound="texts up to 4 bytes" about="zpl_utf8_strlen / strnlen"
//@unit ucs_b kind=bounded unwind=8 n=3 bound="texts up to 3 bytes, buffers up to 5 units" about="UTF-8 to UTF-16 and back"
//@unit hist kind=search search=15 maxlen=80 bound="texts up to 24 bytes" about="counting and conversions against decoding"
#include "vz.h"
/* the Unicode definition of well-formed UTF-8: width of the sequence at s (n bytes available), 0 if malformed */
static int wf(uint8_t const *s, zpl_isize n, int32_t *r) {
    uint32_t c = s[0], i, w = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
    if (!w || n < (zpl_isize)w) return 0;
    c = w == 1 ? c : w == 2 ? c & 31 : w == 3 ? c & 15 : c & 7;
    for (i = 1; i < w; i++) { if ((s[i] & 0xc0) != 0x80) return 0; c = c << 6 | (s[i] & 63); }
    if ((w == 3 && c < 0x800) || (w == 4 && c < 0x10000) || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return 0;
    *r = (int32_t)c; return (int)w;
}
static void t_decode(zpl_isize n) {
    uint8_t *s = vz_block((size_t)n); int32_t r = 7, e = ZPL_RUNE_INVALID; zpl_isize w, x;
    w = zpl_utf8_decode(s, n, &r);
    if (n == 0) { VZ_CHECK(w == 0 && r == ZPL_RUNE_INVALID, "nothing to decode"); return; }
    x = wf(s, n, &e); VZ_CHECK(w == (x ? x : 1), "consumed length"); VZ_CHECK(r == (x ? e : ZPL_RUNE_INVALID), "code point or error rune");
    VZ_CHECK(zpl_utf8_codepoint_size(s, n) == w, "codepoint size"); VZ_CHECK(zpl_utf8_decode(s, n, NULL) == w, "without output");
}
static void t_encode(int32_t r) {
    uint8_t *b = (uint8_t *)vz_malloc(4); zpl_isize w = zpl_utf8_encode_rune(b, r), i; int32_t back = 0, want = (r < 0 || r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff)) ? 0xfffd : r; uint8_t *c;
    VZ_CHECK(w == (want < 0x80 ? 1 : want < 0x800 ? 2 : want < 0x10000 ? 3 : 4), "length"); VZ_CHECK(wf(b, w, &back) == w && back == want, "the well-formed encoding of the code point");
    c = (uint8_t *)vz_malloc((size_t)w); for (i = 0; i < w; i++) c[i] = b[i];
    back = 0; VZ_CHECK(zpl_utf8_decode(c, w, &back) == w && back == want, "decoding inverts encoding");
}
#ifdef VZ_CBMC
#define MAXL VZ_N
#else
#define MAXL 24
#endif
/* width a lead byte announces */
static int ann(uint8_t c) { return c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0; }
static uint8_t *text(zpl_isize *n) {
    size_t l; uint8_t *s = (uint8_t *)vz_text(MAXL, &l);
    VZ_NATIVE_ONLY(if (vz_u8() & 3) { size_t k = 0; while (k + 4 <= l) { uint8_t b[4]; static const uint32_t edge[] = {0x7f,0x80,0x7ff,0x800,0xfff,0x1000,0xd7ff,0xe000,0xfffd,0xffff,0x10000,0x3ffff,0x40000,0x10ffff,0x41,0xe9}; zpl_isize w, i; uint32_t r = vz_u8() & 1 ? edge[vz_u8() % 16] : (vz_u32() % 0x110000); if (!r) r = 1; w = zpl_utf8_encode_rune(b, (zpl_rune)r); for (i = 0; i < w; i++) s[k++] = b[i]; } })
    *n = (zpl_isize)l; return s;
}
static void t_count(void) {
    zpl_isize n, i = 0, c = 0, m = (zpl_isize)vz_range(0, MAXL), got, j; uint8_t *s = text(&n), *t; int ok = 1, w; int32_t r;
    for (i = 0, c = 0; i < n; c++) { w = wf(s + i, n - i, &r); if (!w) { ok = 0; break; } i += w; }
    got = zpl_utf8_strlen(s); if (ok) VZ_CHECK(got == c, "number of code points"); VZ_CHECK(got >= -1 && got <= n, "count in range");
    if (m > n) m = n; t = (uint8_t *)vz_endblk((size_t)m, MAXL); for (j = 0; j < m; j++) t[j] = s[j];   /* exactly m bytes, no terminator */
    got = zpl_utf8_strnlen(t, m);
    for (i = 0, c = 0, ok = 1; i < m; c++) { w = wf(t + i, m - i, &r); if (!w) { ok = 0; break; } i += w; }
    if (ok) VZ_CHECK(got == c, "number of code points"); VZ_CHECK(got >= -1 && got <= m, "count in range"); (void)ann;
}
static void t_ucs(void) {
    zpl_isize n, i, k, cap = (zpl_isize)vz_range(1, MAXL + 2), need = 0, un; uint8_t *s = text(&n), *o; uint16_t *u = (uint16_t *)vz_endblk((size_t)cap * 2, (MAXL + 2) * 2), ref[32], *v; int ok = 1, w; int32_t r; zpl_isize bn;
    for (i = 0; i < n; ) { w = wf(s + i, n - i, &r); if (!w) { ok = 0; break; } if (r >= 0x10000) { ref[need++] = (uint16_t)(0xd800 + ((r - 0x10000) >> 10)); ref[need++] = (uint16_t)(0xdc00 + ((r - 0x10000) & 1023)); } else ref[need++] = (uint16_t)r; i += w; }
    v = zpl_utf8_to_ucs2(u, cap, s); VZ_CHECK((v != NULL) == (ok && need < cap), "converted exactly when well-formed and it fits");
    if (v) { VZ_CHECK(v == u, "returns the buffer"); for (k = 0; k < need; k++) VZ_CHECK(u[k] == ref[k], "UTF-16 unit"); VZ_CHECK(u[need] == 0, "terminated");
        bn = (zpl_isize)vz_range(1, MAXL + 2); o = (uint8_t *)vz_endblk((size_t)bn, MAXL + 2); VZ_CHECK((zpl_ucs2_to_utf8(o, bn, u) != NULL) == (n < bn), "back exactly when it fits");
        if (n < bn) for (k = 0; k <= n; k++) VZ_CHECK(o[k] == s[k], "the original text back"); }
    /* arbitrary 16-bit text */
    un = (zpl_isize)vz_range(0, 3); v = (uint16_t *)vz_endblk((size_t)(un + 1) * 2, 8); for (k = 0; k < un; k++) { v[k] = vz_u16(); VZ_NATIVE_ONLY(if (vz_u8() & 1) v[k] = 0xd700 + v[k] % 0xa00;) VZ_ASSUME(v[k] != 0); } v[un] = 0;
    for (k = 0, ok = 1, i = 0; k < un; ) { if (v[k] >= 0xd800 && v[k] < 0xdc00 && v[k + 1] >= 0xdc00 && v[k + 1] < 0xe000) { i += 4; k += 2; } else if (v[k] >= 0xd800 && v[k] < 0xe000) { ok = 0; break; } else { i += v[k] < 0x80 ? 1 : v[k] < 0x800 ? 2 : 3; k++; } }
    o = (uint8_t *)vz_endblk((size_t)cap, MAXL + 2); VZ_CHECK((zpl_ucs2_to_utf8(o, cap, v) != NULL) == (ok && i < cap), "exactly when surrogates are paired and it fits");
}
void vz_test(void) {
#if defined U_encode
    t_encode((int32_t)vz_u32());
#elif defined U_decode
    t_decode((zpl_isize)vz_range(0, 5));
#elif defined U_count_b
    t_count();
#elif defined U_ucs_b
    t_ucs();
#else
    switch (vz_u8() % 4) { case 0: t_count(); break; case 1: t_ucs(); break; case 2: t_decode((zpl_isize)vz_range(0, 5)); break; default: t_encode((int32_t)vz_u32()); }
#endif
    VZ_REACH("end");
}
