#ifndef SPEC_MURMUR_H
#define SPEC_MURMUR_H
#include <stdint.h>
static inline uint32_t spec_rotl32(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
/* little-endian loads (the verified configuration is little-endian) */
static inline uint32_t spec_le32(uint8_t const *p) { return *(uint32_t const *)p; }
static inline uint64_t spec_le64(uint8_t const *p) { return *(uint64_t const *)p; }
static inline uint32_t spec_mm32_k(uint32_t k) { return spec_rotl32(k * 0xcc9e2d51u, 15) * 0x1b873593u; }
static inline uint32_t spec_mm32_block(uint32_t h, uint32_t k) { return spec_rotl32(h ^ spec_mm32_k(k), 13) * 5u + 0xe6546b64u; }
static inline uint64_t spec_mm64_k(uint64_t k) { k *= 0xc6a4a7935bd1e995ull; k ^= k >> 47; return k * 0xc6a4a7935bd1e995ull; }
static inline uint64_t spec_mm64_block(uint64_t h, uint64_t k) { return (h ^ spec_mm64_k(k)) * 0xc6a4a7935bd1e995ull; }
/* end of the published MurmurHash3_x86_32: tail of len & 3 bytes at t, then finalisation */
static inline uint32_t spec_mm32_end(uint32_t h, uint8_t const *t, int64_t len) {
    uint32_t k = 0;
    switch (len & 3) {
        case 3: k ^= (uint32_t)t[2] << 16; /* fall through */
        case 2: k ^= (uint32_t)t[1] << 8;  /* fall through */
        case 1: k ^= t[0]; h ^= spec_mm32_k(k);
    }
    h ^= (uint32_t)len; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ (h >> 16);
}
/* end of MurmurHash64A: tail of len & 7 bytes at t, then finalisation */
static inline uint64_t spec_mm64_end(uint64_t h, uint8_t const *t, int64_t len) {
    switch (len & 7) {
        case 7: h ^= (uint64_t)t[6] << 48; /* fall through */
        case 6: h ^= (uint64_t)t[5] << 40; /* fall through */
        case 5: h ^= (uint64_t)t[4] << 32; /* fall through */
        case 4: h ^= (uint64_t)t[3] << 24; /* fall through */
        case 3: h ^= (uint64_t)t[2] << 16; /* fall through */
        case 2: h ^= (uint64_t)t[1] << 8;  /* fall through */
        case 1: h ^= (uint64_t)t[0]; h *= 0xc6a4a7935bd1e995ull;
    }
    h ^= h >> 47; h *= 0xc6a4a7935bd1e995ull; return h ^ (h >> 47);
}
/* known finding H02-murmur64-tail: for len > 8 with len % 8 != 0 the library mixes the first bytes of the
   message instead of the last ones; everything else about the value stays under contract */
#define MM64_TAIL(d, len) ((uint8_t const *)(d))
#endif
