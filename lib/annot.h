/* Loop invariants and ghost updates for the anchors in /repo (ZPL_VERIFY builds).
   Anchor ZPL_VERIFY_LOOP(name, locals...)  -> ZVL_name(locals...)  : loop contract
   Anchor ZPL_VERIFY_GHOST(name, locals...) -> ZVG_name(locals...)  : ghost statements
   Ghost state lives only here; the code never reads it.                              */
#ifndef ANNOT_H
#define ANNOT_H
#define ZPL_VERIFY_LOOP(name, ...) ZVL_##name(__VA_ARGS__)
#define ZPL_VERIFY_GHOST(name, ...) ZVG_##name(__VA_ARGS__)
#define LINV  __CPROVER_loop_invariant
#define LASG  __CPROVER_assigns
#define LDEC  __CPROVER_decreases
#define GB(data, k) (((uint8_t const *)(data))[k])      /* k-th byte of the message */

/* proved, then used: keeps each solver query to one step */
#define LEMMA(c) __CPROVER_assert((c), "VZ: lemma " #c); __CPROVER_assume(c)

#ifdef VZ_ANNOT
#include VZ_ANNOT        /* the unit's own annotations */
#else
/* ---- ghost reference state ------------------------------------------------- */
uint32_t g32;        /* reference state of 32-bit folds */
uint64_t g64;        /* reference state of 64-bit folds */
int64_t  g_n;        /* bytes consumed by the reference */

/* ---- H01: CRC, Adler --------------------------------------------------------- */
static inline uint32_t spec_crc32_bit(uint32_t x) { return (x & 1) ? (x >> 1) ^ 0xEDB88320u : x >> 1; }
static inline uint64_t spec_crc64_bit(uint64_t x) { return (x & 1) ? (x >> 1) ^ 0x95AC9329AC4BC9B5ull : x >> 1; }
static inline uint32_t spec_crc32_step(uint32_t x, uint8_t b) {
    x ^= b;
    x = spec_crc32_bit(x); x = spec_crc32_bit(x); x = spec_crc32_bit(x); x = spec_crc32_bit(x);
    x = spec_crc32_bit(x); x = spec_crc32_bit(x); x = spec_crc32_bit(x); x = spec_crc32_bit(x); return x; }
static inline uint64_t spec_crc64_step(uint64_t x, uint8_t b) {
    x ^= b;
    x = spec_crc64_bit(x); x = spec_crc64_bit(x); x = spec_crc64_bit(x); x = spec_crc64_bit(x);
    x = spec_crc64_bit(x); x = spec_crc64_bit(x); x = spec_crc64_bit(x); x = spec_crc64_bit(x); return x; }
#define ZVL_crc32(data, len, remaining, result, c) \
    LASG(remaining, c, result, g32, g_n) \
    LINV(remaining >= 0 && remaining <= len) \
    LINV(g_n >= 0 && g_n <= len && remaining + g_n == len && c == (uint8_t const *)(data) + g_n) \
    LINV(result == g32) LDEC(remaining)
#define ZVG_crc32(data) g32 = spec_crc32_step(g32, GB(data, g_n)); g_n++;
#define ZVL_crc64(data, len, remaining, result, c) \
    LASG(remaining, c, result, g64, g_n) \
    LINV(remaining >= 0 && remaining <= len) \
    LINV(g_n >= 0 && g_n <= len && remaining + g_n == len && c == (uint8_t const *)(data) + g_n) \
    LINV(result == g64) LDEC(remaining)
#define ZVG_crc64(data) g64 = spec_crc64_step(g64, GB(data, g_n)); g_n++;

/* Adler: reference sums kept reduced below 65521; ga/gb are ghost quotients of the code's
   lazily reduced sums */
struct { uint32_t sa, sb, qa, qb; } g_ad;
#define g_sa g_ad.sa
#define g_sb g_ad.sb
#define g_qa g_ad.qa
#define g_qb g_ad.qb
#define AD_M 65521u
static inline void spec_adler_step(uint8_t x) {
    uint32_t ca, cb;
    g_sa += x; ca = g_sa >= AD_M; if (ca) g_sa -= AD_M;
    g_sb += g_sa; cb = g_sb >= AD_M; if (cb) g_sb -= AD_M;
    g_qa += ca; g_qb += g_qa + cb; g_n++;
}
#define AD_MUL(q) (((q) << 16) - ((q) << 4) + (q))   /* 65521 * q */
#define AD_INV(a, b) (g_sa < AD_M && g_sb < AD_M && g_qa < 32 && g_qb < 65536 && (a) == g_sa + AD_MUL(g_qa) && (b) == g_sb + AD_MUL(g_qb) && (b) >= AD_MUL(g_qb))
#define AD_TRI(i) (((uint32_t)(i) & 8191u) * (((uint32_t)(i) & 8191u) + 1u) / 2u)
#define AD_BOUND(a, b, i) ((i) >= 0 && (i) <= 5552 && (a) <= 65520u + 255u * ((uint32_t)(i) & 8191u) && (b) <= 65520u + 65520u * ((uint32_t)(i) & 8191u) + 255u * AD_TRI(i))
int64_t g_len;       /* message length */
#define ZVL_adler32_blocks(data, len, block_len, i, bytes, a, b) \
    LASG(len, block_len, i, bytes, a, b, g_ad, g_n) \
    LINV(len >= 0 && len <= g_len && g_n >= 0 && g_n <= g_len && g_n + len == g_len) \
    LINV(block_len >= 0 && block_len <= 5552 && (len == 0 || (block_len <= len && (len - block_len) % 5552 == 0))) \
    LINV(bytes == (uint8_t const *)(data) + g_n) \
    LINV(AD_INV(a, b) && g_qa == 0 && g_qb == 0)
#define ZVL_adler32_unrolled(data, len, block_len, i, bytes, a, b) \
    LASG(i, bytes, a, b, g_ad, g_n) \
    LINV(i >= 0 && i <= block_len && i % 8 == 0 && g_n >= 0 && g_n <= g_len && g_n - i + len == g_len) \
    LINV(bytes == (uint8_t const *)(data) + g_n) \
    LINV(AD_BOUND(a, b, i)) LINV(AD_INV(a, b)) LDEC(block_len - i)
#define ZVL_adler32_rest(data, len, block_len, i, bytes, a, b) ZVL_adler32_rest_(data, len, block_len, i, bytes, a, b)
#define ZVL_adler32_rest_(data, len, block_len, i, bytes, a, b) \
    LASG(i, bytes, a, b, g_ad, g_n) \
    LINV(i >= 0 && i <= block_len && g_n >= 0 && g_n <= g_len && g_n - i + len == g_len) \
    LINV(bytes == (uint8_t const *)(data) + g_n) \
    LINV(AD_BOUND(a, b, i)) LINV(AD_INV(a, b)) LDEC(block_len - i)
#define AD_STEP(data) LEMMA(AD_TRI(vz_ti + 1) == AD_TRI(vz_ti) + ((uint32_t)vz_ti & 8191u) + 1u); spec_adler_step(GB(data, g_n)); vz_ta += GB(data, g_n - 1); vz_tb += vz_ta; vz_ti++; \
    LEMMA(AD_BOUND(vz_ta, vz_tb, vz_ti)); LEMMA(AD_INV(vz_ta, vz_tb));
#define ZVG_adler32_unrolled(data, a, b, i) { uint32_t vz_ta = a, vz_tb = b; int64_t vz_ti = i; \
    AD_STEP(data) AD_STEP(data) AD_STEP(data) AD_STEP(data) AD_STEP(data) AD_STEP(data) AD_STEP(data) AD_STEP(data) }
#define ZVG_adler32_rest(data, a, b, i) { uint32_t vz_ta = a, vz_tb = b; int64_t vz_ti = i; AD_STEP(data) }
#define ZVG_adler32_reduced(data) g_qa = 0; g_qb = 0;

/* ---- H02: FNV, Murmur ---------------------------------------------------------- */
#define ZVL_fnv_(G, len, i, h) LASG(i, h, G, g_n) LINV(i >= 0 && i <= len && g_n == i) LINV(h == G) LDEC(len - i)
#define ZVL_fnv32(data, len, i, h)  ZVL_fnv_(g32, len, i, h)
#define ZVL_fnv32a(data, len, i, h) ZVL_fnv_(g32, len, i, h)
#define ZVL_fnv64(data, len, i, h)  ZVL_fnv_(g64, len, i, h)
#define ZVL_fnv64a(data, len, i, h) ZVL_fnv_(g64, len, i, h)
#define SPEC_FNV32_PRIME 16777619u
#define SPEC_FNV64_PRIME 1099511628211ull
#define ZVG_fnv32(data)  g32 = (g32 * SPEC_FNV32_PRIME) ^ GB(data, g_n); g_n++;
#define ZVG_fnv32a(data) g32 = (g32 ^ GB(data, g_n)) * SPEC_FNV32_PRIME; g_n++;
#define ZVG_fnv64(data)  g64 = (g64 * SPEC_FNV64_PRIME) ^ GB(data, g_n); g_n++;
#define ZVG_fnv64a(data) g64 = (g64 ^ GB(data, g_n)) * SPEC_FNV64_PRIME; g_n++;

#include "spec_murmur.h"
#define ZVL_murmur32(data, nblocks, i, hash) LASG(i, hash, g32, g_n) \
    LINV(i >= 0 && i <= nblocks && g_n == 4 * i) LINV(hash == g32) LDEC(nblocks - i)
#define ZVG_murmur32(data) g32 = spec_mm32_block(g32, spec_le32((uint8_t const *)(data) + g_n)); g_n += 4;
#define ZVG_murmur32_tail(data, len, hash) LEMMA(hash == g32); g32 = spec_mm32_end(hash, (uint8_t const *)(data) + len / 4 * 4, len);
#define ZVG_murmur64_tail(data0, len, h) LEMMA(h == g64); g64 = spec_mm64_end(h, MM64_TAIL(data0, len), len);
#define ZVL_murmur64(data0, len, data, end, h) LASG(data, h, g64, g_n) \
    LINV(g_n >= 0 && g_n <= len / 8 * 8 && g_n % 8 == 0) \
    LINV(data == (zpl_u64 const *)((uint8_t const *)(data0) + g_n)) LINV(h == g64) LDEC(len / 8 * 8 - g_n)
#define ZVG_murmur64(data0) g64 = spec_mm64_block(g64, spec_le64((uint8_t const *)(data0) + g_n)); g_n += 8;

/* ---- H03: Base64 ----------------------------------------------------------------- */
#include "spec_base64.h"
int64_t g_m;            /* groups done */
int64_t g_q, g_p;       /* arbitrary fixed output position: group, place in group */
uint8_t g_want;         /* reference value for that position, computed before the call */
int64_t g_s;            /* arbitrary fixed input group (decode) */
#define ZVL_base64_encode(s, len, ret, enc_len, i, j, v) \
    LASG(i, j, v, g_m, __CPROVER_object_whole(ret)) \
    LINV(g_m >= 0 && g_m <= len && i == 3 * g_m && j == 4 * g_m && i <= len + 2 && j <= enc_len) \
    LINV(ret[enc_len] == 0) \
    LINV(!(g_q >= 0 && g_q < g_m && g_p >= 0 && g_p < 4) || ret[4 * g_q + g_p] == g_want)
#define ZVG_base64_encode() g_m++;
#define B64_SYM(s, k) (((s)[k] >= 'A' && (s)[k] <= 'Z') || ((s)[k] >= 'a' && (s)[k] <= 'z') || ((s)[k] >= '0' && (s)[k] <= '9') || (s)[k] == '+' || (s)[k] == '/')
/* what validation establishes for the arbitrary group g_s */
#define B64_GROUP_OK(s, len, g) (B64_SYM(s, 4 * (g)) && B64_SYM(s, 4 * (g) + 1) && \
    (B64_SYM(s, 4 * (g) + 2) || ((s)[4 * (g) + 2] == '=' && 4 * (g) + 4 == len && (s)[len - 1] == '=')) && \
    (B64_SYM(s, 4 * (g) + 3) || ((s)[4 * (g) + 3] == '=' && 4 * (g) + 4 == len)))
#define B64_AT(s, len, k) (B64_SYM(s, k) || ((s)[k] == '=' && (k) >= len - 2 && (s)[len - 1] == '='))
#define ZVL_base64_validate(s, len, i) LASG(i) LINV(i >= 0 && i <= len) \
    LINV(!(g_s >= 0 && g_s < len / 4) || ((4 * g_s >= i || B64_AT(s, len, 4 * g_s)) && (4 * g_s + 1 >= i || B64_AT(s, len, 4 * g_s + 1)) \
        && (4 * g_s + 2 >= i || B64_AT(s, len, 4 * g_s + 2)) && (4 * g_s + 3 >= i || B64_AT(s, len, 4 * g_s + 3)))) \
    LINV(!(g_q >= 0 && g_q < len / 4) || ((4 * g_q >= i || B64_AT(s, len, 4 * g_q)) && (4 * g_q + 1 >= i || B64_AT(s, len, 4 * g_q + 1)) \
        && (4 * g_q + 2 >= i || B64_AT(s, len, 4 * g_q + 2)) && (4 * g_q + 3 >= i || B64_AT(s, len, 4 * g_q + 3)))) \
    LINV(len < 4 || (len - 2 >= i || B64_AT(s, len, len - 2))) LINV(len < 4 || ((len - 4 >= i || B64_AT(s, len, len - 4)) && (len - 3 >= i || B64_AT(s, len, len - 3)))) \
    LDEC(len - i)
/* the padding scan stops after at most two steps because validation passed: unwound, not abstracted */
#define ZVL_base64_padding(s, len, ret, i)
#define ZVL_base64_decode(s, len, ret, alen, i, j, v) \
    LASG(i, j, v, g_m, __CPROVER_object_whole(ret)) \
    LINV(g_m >= 0 && g_m <= len && i == 4 * g_m && j == 3 * g_m && i <= len) \
    LINV(ret[alen] == 0) \
    LINV(!(g_q >= 0 && g_q < g_m && g_p >= 0 && g_p < 3 && 3 * g_q + g_p < alen) || ret[3 * g_q + g_p] == g_want)
/* arbitrary-iteration witness: g_s is any group, the step is checked for the iteration that treats it */
#define ZVG_base64_decode(i) __CPROVER_assume(i == 4 * g_s); g_m++;
#endif
#include "vz_anchors.h"   /* written on every run: anchors without an annotation expand to nothing */
#endif
