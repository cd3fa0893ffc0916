//@unit encode kind=contract target=zpl_base64_encode fp=zpl_alloc_align.function_pointer_call.1/vz_allocator_proc unwindset=vz_proof.0:81 mods=HASHING bunwind=14 n=4 maxlen=300 bound="messages up to 4 bytes"
//@unit decode kind=contract target=zpl_base64_decode fp=zpl_alloc_align.function_pointer_call.1/vz_allocator_proc unwindset=vz_proof.0:81 mods=HASHING bunwind=14 n=8 maxlen=300 bound="texts up to 8 bytes"
//@unit tables kind=full about="Base64 alphabet and inverse table (every entry)" mods=HASHING unwind=82
//@unit lemma_roundtrip kind=full about="lemma: decoding the encoded group gives the group back (RFC 4648 spec functions, every 3-byte group and tail)" mods=HASHING unwind=10
//@unit roundtrip kind=bounded about="zpl_base64_decode(zpl_base64_encode(x)) == x" mods=HASHING unwind=14 n=4 search=8 maxlen=400 bound="messages up to 4 bytes"
//@unit reject kind=bounded about="zpl_base64_decode on arbitrary text" mods=HASHING unwind=14 n=8 search=8 maxlen=100 bound="texts up to 8 bytes"
#include "vz.h"
#define MAXLEN ((zpl_isize)1 << 20)
#ifndef ZPL_VERIFY
#include "spec_base64.h"
#endif
#ifdef VZ_PROOF
void vz_proof(void) {
    zpl_isize n = (zpl_isize)vz_range(0, MAXLEN), k; uint8_t *s = (uint8_t *)vz_malloc((size_t)n), *r;
    vz_fail = 0; vz_nalloc = 0;
    g_q = vz_range(-1, MAXLEN); g_p = vz_range(0, 3); g_s = vz_range(0, MAXLEN); g_m = 0;
    for (k = 0; k < 80; k++) { zpl__base64_dec_table[k] = spec_b64_val((uint8_t)(k + 43)); if (k < 64) zpl__base64_chars[k] = spec_b64_chr((uint32_t)k); }   /* as the unit 'tables' proves */
#ifdef U_encode
    if (g_q >= 0 && g_q < (n + 2) / 3 && g_p >= 0 && g_p < 4) g_want = spec_b64_enc(s, n, g_q, g_p); else g_q = -1;
    r = zpl_base64_encode(vz_allocator(), s, n);
    if (n == 0) { VZ_CHECK(r == NULL, "nothing to encode"); }
    else {
        zpl_isize e = vz_last_size - 1;      /* text length */
        VZ_CHECK(e >= 0 && e % 4 == 0 && 3 * (e / 4) >= n && 3 * (e / 4) <= n + 2, "four characters per started group of three bytes");
        VZ_CHECK(r[e] == 0, "terminated right after the last group");
        if (g_q >= 0)
            VZ_CHECK(4 * g_q + g_p < e && r[4 * g_q + g_p] == g_want, "character equals RFC 4648");
        VZ_REACH("encoded");
    }
#else
    if (n % 4 == 0 && g_q >= 0 && g_q < n / 4 && g_p >= 0 && g_p < 3) g_want = spec_b64_dec(s, g_q, g_p); else g_q = -1;
    r = zpl_base64_decode(vz_allocator(), s, n);
    if (r) {
        zpl_isize e = vz_last_size - 1;
        VZ_CHECK(n % 4 == 0, "whole groups");
        VZ_CHECK(e == n / 4 * 3 - (n > 0 && s[n - 1] == '=') - (n > 0 && s[n - 2] == '='), "three bytes per group less the padding");
        VZ_CHECK(r[e] == 0, "terminated");
        if (g_q >= 0) VZ_CHECK(B64_GROUP_OK(s, n, g_q), "only Base64 text is decoded");
        if (g_q >= 0 && 3 * g_q + g_p < e)
            VZ_CHECK(r[3 * g_q + g_p] == g_want, "byte equals RFC 4648");
        VZ_REACH("decoded");
    }
#endif
}
#else
void vz_test(void) {
#if defined U_lemma_roundtrip
    uint8_t b[3], t[4]; int64_t n = vz_range(1, 3), k; b[0] = vz_u8(); b[1] = vz_u8(); b[2] = vz_u8();
    for (k = 0; k < 4; k++) t[k] = spec_b64_enc(b, n, 0, k);
    for (k = 0; k < n; k++) VZ_CHECK(spec_b64_dec(t, 0, k) == b[k], "spec decode inverts spec encode");
#elif defined U_tables
    int32_t k;
    for (k = 0; k < 64; k++) VZ_CHECK(zpl__base64_chars[k] == spec_b64_chr((uint32_t)k), "alphabet");
    for (k = 0; k < 80; k++) VZ_CHECK(zpl__base64_dec_table[k] == spec_b64_val((uint8_t)(k + 43)), "inverse table");
#elif defined U_encode || defined U_roundtrip
    zpl_isize n = (zpl_isize)vz_range(1, VZ_N), k; uint8_t *s, *r, *d;
    VZ_NATIVE_ONLY(n = (zpl_isize)vz_range(1, 200);)
    s = vz_block((size_t)n);
    r = zpl_base64_encode(vz_allocator(), s, n);
    VZ_CHECK(vz_last_size == (n + 2) / 3 * 4 + 1, "result size"); VZ_CHECK(r[(n + 2) / 3 * 4] == 0, "terminated");
    for (k = 0; k < (n + 2) / 3 * 4; k++) VZ_CHECK(r[k] == spec_b64_enc(s, n, k / 4, k % 4), "character equals RFC 4648");
#if defined U_roundtrip
    d = zpl_base64_decode(vz_allocator(), r, (n + 2) / 3 * 4);
    VZ_CHECK(d != NULL && vz_last_size == n + 1 && d[n] == 0, "length");
    for (k = 0; k < n; k++) VZ_CHECK(d[k] == s[k], "round trip");
#endif
#else
    zpl_isize n = (zpl_isize)vz_range(0, VZ_N), k, pad = 0, e; uint8_t *s, *d; int ok;
    VZ_NATIVE_ONLY(n = (zpl_isize)vz_range(0, 20);)
    s = vz_block((size_t)n);
    ok = n % 4 == 0;
    if (ok && n) { pad = s[n - 1] == '=' ? (s[n - 2] == '=' ? 2 : 1) : 0; }
    for (k = 0; k < n - pad; k++) if (spec_b64_val(s[k]) < 0) ok = 0;
    d = zpl_base64_decode(vz_allocator(), s, n);
    VZ_CHECK((d != NULL) == (ok != 0), "exactly Base64 text is accepted");
    if (d) {
        e = n / 4 * 3 - pad; VZ_CHECK(vz_last_size == e + 1 && d[e] == 0, "length");
        for (k = 0; k < e; k++) VZ_CHECK(d[k] == spec_b64_dec(s, k / 3, k % 3), "byte equals RFC 4648");
        VZ_REACH("accepted");
    }
#endif
    VZ_REACH("end");
}
#endif
