#ifndef SPEC_BASE64_H
#define SPEC_BASE64_H
#include <stdint.h>
/* RFC 4648 */
static inline uint8_t spec_b64_chr(uint32_t v) { return (uint8_t)(v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'); }
static inline int32_t spec_b64_val(uint8_t c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
/* character p of output group q of the encoding of s[0..len) */
static inline uint8_t spec_b64_enc(uint8_t const *s, int64_t len, int64_t q, int64_t p) {
    uint32_t b0 = s[3 * q], b1 = 3 * q + 1 < len ? s[3 * q + 1] : 0, b2 = 3 * q + 2 < len ? s[3 * q + 2] : 0;
    if (p == 0) return spec_b64_chr(b0 >> 2);
    if (p == 1) return spec_b64_chr((b0 & 3) << 4 | b1 >> 4);
    if (p == 2) return 3 * q + 1 < len ? spec_b64_chr((b1 & 15) << 2 | b2 >> 6) : '=';
    return 3 * q + 2 < len ? spec_b64_chr(b2 & 63) : '=';
}
/* byte p of the decoding of input group q */
static inline uint8_t spec_b64_dec(uint8_t const *s, int64_t q, int64_t p) {
    uint32_t a = (uint32_t)spec_b64_val(s[4 * q]), b = (uint32_t)spec_b64_val(s[4 * q + 1]), c = (uint32_t)spec_b64_val(s[4 * q + 2]), d = (uint32_t)spec_b64_val(s[4 * q + 3]);
    return (uint8_t)(p == 0 ? a << 2 | (b & 63) >> 4 : p == 1 ? b << 4 | (c & 63) >> 2 : c << 6 | (d & 63));
}
#endif
