//@unit adler32 kind=contract tier=thorough timeout=3000 standin=0 cost=100 target=zpl_adler32 contract=c_adler32 mods=HASHING
//@unit adler32_b kind=bounded about=zpl_adler32 cost=50 mods=HASHING unwind=4 n=1 search=20 maxlen=20000 bound="messages of 0 or 1 byte, contents symbolic"
//@unit crc32   kind=contract target=zpl_crc32 contract=c_crc32 mods=HASHING bunwind=10 n=4 bound="messages up to 4 bytes"
//@unit crc64   kind=contract target=zpl_crc64 contract=c_crc64 mods=HASHING bunwind=10 n=4 bound="messages up to 4 bytes"
#include "vz.h"
#define MAXLEN ((zpl_isize)1 << 40)
#ifdef VZ_PROOF
/* reference: the bit-serial CRC of the published polynomial (CRC-32 IEEE reflected, initial and final
   complement; CRC-64 Jones reflected, no complement), one byte at a time over the whole message */
zpl_u32 c_crc32(void const *data, zpl_isize len)
__CPROVER_requires(len >= 0 && len <= MAXLEN && __CPROVER_is_fresh(data, len) && g32 == 0xffffffffu && g_n == 0)
__CPROVER_assigns(g32, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == ~g32);
zpl_u64 c_crc64(void const *data, zpl_isize len)
__CPROVER_requires(len >= 0 && len <= MAXLEN && __CPROVER_is_fresh(data, len) && g64 == 0 && g_n == 0)
__CPROVER_assigns(g64, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == g64);
/* reference: A and B reduced modulo 65521 after every byte */
zpl_u32 c_adler32(void const *data, zpl_isize len)
__CPROVER_requires(len >= 0 && len <= MAXLEN && __CPROVER_is_fresh(data, len))
__CPROVER_requires(g_len == len && g_n == 0 && g_sa == 1 && g_sb == 0 && g_qa == 0 && g_qb == 0)
__CPROVER_assigns(g_ad, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == ((g_sb << 16) | g_sa));
void vz_proof(void) {
    void const *d; zpl_isize n;
#if defined U_adler32
    zpl_adler32(d, n);
#elif defined U_crc32
    zpl_crc32(d, n);
#else
    zpl_crc64(d, n);
#endif
    VZ_REACH("returns");
}
#else
void vz_test(void) {
    size_t n = (size_t)vz_range(0, VZ_N), i; uint8_t *d;
    VZ_NATIVE_ONLY(n = (size_t)vz_range(0, 20000);)
    d = (uint8_t *)vz_malloc(n);
    VZ_NATIVE_ONLY(uint8_t pat = vz_u8();)
    for (i = 0; i < n; i++) { d[i] = vz_u8(); VZ_NATIVE_ONLY(if (i > 64 && !vz_size) d[i] = pat;) }
#if defined U_adler32 || defined U_adler32_b
    uint32_t a = 1, b = 0;
    for (i = 0; i < n; i++) { a += d[i]; if (a >= 65521u) a -= 65521u; b += a; if (b >= 65521u) b -= 65521u; }
    VZ_CHECK(zpl_adler32(d, n) == ((b << 16) | a), "Adler-32 equals its definition");
#elif defined U_crc32
    uint32_t r = ~0u; int k;
    for (i = 0; i < n; i++) { r ^= d[i]; for (k = 0; k < 8; k++) r = (r & 1) ? (r >> 1) ^ 0xEDB88320u : r >> 1; }
    VZ_CHECK(zpl_crc32(d, n) == ~r, "CRC-32 equals its definition");
#else
    uint64_t r = 0; int k;
    for (i = 0; i < n; i++) { r ^= d[i]; for (k = 0; k < 8; k++) r = (r & 1) ? (r >> 1) ^ 0x95AC9329AC4BC9B5ull : r >> 1; }
    VZ_CHECK(zpl_crc64(d, n) == r, "CRC-64 equals its definition");
#endif
    VZ_REACH("end");
}
#endif
