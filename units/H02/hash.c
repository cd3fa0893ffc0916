//@unit fnv32 kind=contract target=zpl_fnv32 contract=c_fnv32 mods=HASHING bunwind=10 n=4 search=5 maxlen=300 bound="messages up to 4 bytes"
//@unit fnv32a kind=contract target=zpl_fnv32a contract=c_fnv32a mods=HASHING bunwind=10 n=4 search=5 maxlen=300 bound="messages up to 4 bytes"
//@unit fnv64 kind=contract target=zpl_fnv64 contract=c_fnv64 mods=HASHING bunwind=10 n=4 search=5 maxlen=300 bound="messages up to 4 bytes"
//@unit fnv64a kind=contract target=zpl_fnv64a contract=c_fnv64a mods=HASHING bunwind=10 n=4 search=5 maxlen=300 bound="messages up to 4 bytes"
//@unit murmur32 kind=contract skip=postcondition|invariant_step|assertion target=zpl_murmur32_seed contract=c_murmur32 mods=HASHING standin=0 maxlen=300 bound="messages up to 5 bytes"
//@unit murmur64 kind=contract skip=postcondition|invariant_step|assertion each=1 solver=z3 timeout=60 target=zpl_murmur64_seed contract=c_murmur64 mods=HASHING standin=0 maxlen=300 bound="messages up to 7 bytes"
//@unit murmur32_val kind=contract only=postcondition|invariant_step|assertion each=1 solver=z3 timeout=100 target=zpl_murmur32_seed contract=c_murmur32 mods=HASHING standin=0 maxlen=300 def=MM32
//@unit murmur64_val kind=contract only=postcondition|invariant_step|assertion each=1 solver=z3 timeout=100 target=zpl_murmur64_seed contract=c_murmur64 mods=HASHING standin=0 maxlen=300 def=MM64
//@unit murmur_default kind=bounded about="zpl_murmur32, zpl_murmur64 (fixed seed wrappers)" mods=HASHING unwind=10 n=0 search=5 maxlen=300 bound="empty message, every seed; calls are one line"
//@unit murmur64_tail kind=finding finding=H02-murmur64-tail mods=HASHING unwind=20 expect="tail"
#include "vz.h"
#define MAXLEN ((zpl_isize)1 << 40)
#define REQ(d, n) __CPROVER_requires(n >= 0 && n <= MAXLEN && __CPROVER_is_fresh(d, n) && g_n == 0)
#ifndef ZPL_VERIFY
#include "spec_murmur.h"
#endif
#ifdef VZ_PROOF
zpl_u32 c_fnv32(void const *data, zpl_isize len)
REQ(data, len) __CPROVER_requires(g32 == 0x811c9dc5u) __CPROVER_assigns(g32, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == g32);
zpl_u32 c_fnv32a(void const *data, zpl_isize len)
REQ(data, len) __CPROVER_requires(g32 == 0x811c9dc5u) __CPROVER_assigns(g32, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == g32);
zpl_u64 c_fnv64(void const *data, zpl_isize len)
REQ(data, len) __CPROVER_requires(g64 == 0xcbf29ce484222325ull) __CPROVER_assigns(g64, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == g64);
zpl_u64 c_fnv64a(void const *data, zpl_isize len)
REQ(data, len) __CPROVER_requires(g64 == 0xcbf29ce484222325ull) __CPROVER_assigns(g64, g_n)
__CPROVER_ensures(g_n == len && __CPROVER_return_value == g64);
zpl_u32 c_murmur32(void const *data, zpl_isize len, zpl_u32 seed)
REQ(data, len) __CPROVER_requires(g32 == seed) __CPROVER_assigns(g32, g_n)
__CPROVER_ensures(g_n == len / 4 * 4)
__CPROVER_ensures(__CPROVER_return_value == g32);   /* g32: the finished reference */
zpl_u64 c_murmur64(void const *data, zpl_isize len, zpl_u64 seed)
REQ(data, len) __CPROVER_requires(g64 == (seed ^ ((uint64_t)len * 0xc6a4a7935bd1e995ull))) __CPROVER_assigns(g64, g_n)
__CPROVER_ensures(g_n == len / 8 * 8)
__CPROVER_ensures(__CPROVER_return_value == g64);   /* g64: the finished reference */
void vz_proof(void) {
    void const *d; zpl_isize n; zpl_u64 s;
#if defined U_fnv32
    zpl_fnv32(d, n);
#elif defined U_fnv32a
    zpl_fnv32a(d, n);
#elif defined U_fnv64
    zpl_fnv64(d, n);
#elif defined U_fnv64a
    zpl_fnv64a(d, n);
#elif defined MM32 || defined U_murmur32
    zpl_murmur32_seed(d, n, (zpl_u32)s);
#elif defined MM64 || defined U_murmur64
    zpl_murmur64_seed(d, n, s);
#endif
    VZ_REACH("returns");
}
#else
static zpl_u32 ref_mm32(uint8_t const *d, int64_t n, zpl_u32 seed) {
    int64_t i; for (i = 0; i + 4 <= n; i += 4) seed = spec_mm32_block(seed, spec_le32(d + i));
    return spec_mm32_end(seed, d + i, n); }
static zpl_u64 ref_mm64(uint8_t const *d, int64_t n, zpl_u64 seed, int published) {
    uint64_t h = seed ^ ((uint64_t)n * 0xc6a4a7935bd1e995ull); int64_t i;
    for (i = 0; i + 8 <= n; i += 8) h = spec_mm64_block(h, spec_le64(d + i));
    return spec_mm64_end(h, published ? d + i : MM64_TAIL(d, n), n); }
void vz_test(void) {
#ifdef U_murmur64_tail
    static const uint8_t m[9] = "123456789";
    VZ_CHECK(zpl_murmur64_seed(m, 9, 0) == ref_mm64(m, 9, 0, 1), "MurmurHash64A tail");
#else
    size_t n = (size_t)vz_range(0, VZ_N), i; uint64_t s = vz_u64(); uint8_t *d;
    VZ_NATIVE_ONLY(n = (size_t)vz_range(0, 200);)
    d = vz_block(n); (void)i;
#if defined U_murmur_default
    VZ_CHECK(zpl_murmur32(d, n) == zpl_murmur32_seed(d, n, 0x9747b28c), "zpl_murmur32 seed");
    VZ_CHECK(zpl_murmur64(d, n) == zpl_murmur64_seed(d, n, 0x9747b28c), "zpl_murmur64 seed");
#elif defined MM32 || defined U_murmur32
    VZ_CHECK(zpl_murmur32_seed(d, n, (zpl_u32)s) == ref_mm32(d, n, (zpl_u32)s), "murmur32 equals its definition");
#elif defined MM64 || defined U_murmur64
    VZ_CHECK(zpl_murmur64_seed(d, n, s) == ref_mm64(d, n, s, 0), "murmur64 equals its definition");
#elif defined U_fnv32
    uint32_t h = 0x811c9dc5u; for (i = 0; i < n; i++) { h *= 16777619u; h ^= d[i]; }
    VZ_CHECK(zpl_fnv32(d, n) == h, "FNV-1 32");
#elif defined U_fnv32a
    uint32_t h = 0x811c9dc5u; for (i = 0; i < n; i++) { h ^= d[i]; h *= 16777619u; }
    VZ_CHECK(zpl_fnv32a(d, n) == h, "FNV-1a 32");
#elif defined U_fnv64
    uint64_t h = 0xcbf29ce484222325ull; for (i = 0; i < n; i++) { h *= 1099511628211ull; h ^= d[i]; }
    VZ_CHECK(zpl_fnv64(d, n) == h, "FNV-1 64");
#elif defined U_fnv64a
    uint64_t h = 0xcbf29ce484222325ull; for (i = 0; i < n; i++) { h ^= d[i]; h *= 1099511628211ull; }
    VZ_CHECK(zpl_fnv64a(d, n) == h, "FNV-1a 64");
#endif
#endif
    VZ_REACH("end");
}
#endif
