/* Verification harness support: the same harness text is
 *   - proved / model checked by CBMC         (VZ_CBMC)
 *   - replayed or searched natively          (otherwise; libFuzzer entry point)
 * and always runs the real code of /repo, included below unchanged.            */
#ifndef VZ_H
#define VZ_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

#ifndef VZ_N
#define VZ_N 6
#endif

#ifdef VZ_CBMC
/* ---- CBMC ---------------------------------------------------------------- */
uint8_t  nondet_vz1(void); uint16_t nondet_vz2(void); uint32_t nondet_vz4(void); uint64_t nondet_vz8(void);
/* every input goes through one of these globals, in order: the trace is the tape */
uint8_t vz_in1; uint16_t vz_in2; uint32_t vz_in4; uint64_t vz_in8;
static inline uint8_t  vz_u8(void)  { vz_in1 = nondet_vz1(); return vz_in1; }
static inline uint16_t vz_u16(void) { vz_in2 = nondet_vz2(); return vz_in2; }
static inline uint32_t vz_u32(void) { vz_in4 = nondet_vz4(); return vz_in4; }
static inline uint64_t vz_u64(void) { vz_in8 = nondet_vz8(); return vz_in8; }
#define VZ_ASSUME(c)      __CPROVER_assume(c)
#define VZ_CHECK(c, msg)  __CPROVER_assert((c), "VZ: " msg)
#ifdef VZ_NOREACH
#define VZ_REACH(msg)     ((void)0)
#else
#define VZ_REACH(msg)     __CPROVER_assert(0, "REACH: " msg)
#endif
static inline int64_t vz_range(int64_t lo, int64_t hi) {
    int64_t v = (int64_t)vz_u64(); __CPROVER_assume(v >= lo && v <= hi); return v; }
#define VZ_LIBASSERT(c)   __CPROVER_assert((c), "VZ: library assertion")
/* for every k in [lo, hi): one arbitrary k for the verifier, all of them natively; uses no input */
#define VZ_FORALL(k, lo, hi) if (((k) = (int64_t)nondet_vz8()) >= (lo) && (k) < (hi))
/* block whose both ends are exact object ends */
static inline void *vz_malloc(size_t n) { void *p = malloc(n ? n : 1); __CPROVER_assume(p != NULL); return p; }
#define VZ_NATIVE_ONLY(...)
#else
/* ---- native --------------------------------------------------------------- */
#include <setjmp.h>
extern const uint8_t *vz_data; extern size_t vz_size; extern jmp_buf vz_jmp;
static inline uint64_t vz_take(int n) { uint64_t v = 0; int i; for (i = 0; i < n; i++) { uint64_t b = 0; if (vz_size) { b = *vz_data++; vz_size--; } v |= b << (8*i); } return v; }
static inline uint8_t  vz_u8(void)  { return (uint8_t)vz_take(1); }
static inline uint16_t vz_u16(void) { return (uint16_t)vz_take(2); }
static inline uint32_t vz_u32(void) { return (uint32_t)vz_take(4); }
static inline uint64_t vz_u64(void) { return vz_take(8); }
#define VZ_ASSUME(c)      do { if (!(c)) longjmp(vz_jmp, 1); } while (0)
#define VZ_CHECK(c, msg)  do { if (!(c)) { fprintf(stderr, "VZ_CHECK failed: %s (%s:%d)\n", msg, __FILE__, __LINE__); abort(); } } while (0)
#define VZ_REACH(msg)     ((void)0)
static inline int64_t vz_range(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo; int64_t v;
    if (span < 256) { /* a tape written from a CBMC trace stores ranges as 8 bytes too */ }
    v = (int64_t)vz_take(8);
    if (v >= lo && v <= hi) return v;
    return span == UINT64_MAX ? v : (int64_t)((uint64_t)lo + (uint64_t)v % (span + 1));
}
#define VZ_FORALL(k, lo, hi) for ((k) = (lo); (k) < (hi); (k)++)
#define VZ_LIBASSERT(c)   VZ_CHECK(c, "library assertion " #c)
void *vz_malloc(size_t n);            /* tracked: released after each run */
void vz_track(void *p); void vz_untrack(void *p);
#define VZ_NATIVE_ONLY(...) __VA_ARGS__
#endif

#define ZPL_ASSERT_MSG(cond, msg, ...) VZ_LIBASSERT(cond)

static inline void vz_bytes(void *p, size_t n) { size_t i; for (i = 0; i < n; i++) ((uint8_t *)p)[i] = vz_u8(); }
/* a block of exactly n symbolic bytes */
static inline uint8_t *vz_block(size_t n) { uint8_t *p = (uint8_t *)vz_malloc(n); vz_bytes(p, n); return p; }
/* a terminated text of symbolic length <= max in a block of exactly length+1 bytes */
static inline char *vz_text(size_t max, size_t *len) {
#ifdef VZ_CBMC   /* an object of constant size, the text at its very end: reading past the terminator leaves the object */
    size_t n = (size_t)vz_range(0, (int64_t)max), i; char *b = (char *)vz_malloc(max + 1), *p = b + (max - n);
    for (i = 0; i < max; i++) if (i < n) { char c = (char)vz_u8(); VZ_ASSUME(c != 0); p[i] = c; }
#else
    size_t n = (size_t)vz_range(0, (int64_t)max), i; char *p = (char *)vz_malloc(n + 1);
    for (i = 0; i < n; i++) { p[i] = (char)vz_u8(); VZ_ASSUME(p[i] != 0); }
#endif
    p[n] = 0; if (len) *len = n; return p;
}

/* n <= max bytes that end exactly at the end of an object (of constant size for the verifier) */
#ifdef VZ_CBMC
static inline void *vz_endblk(size_t n, size_t max) { return (uint8_t *)vz_malloc(max) + (max - n); }
#else
static inline void *vz_endblk(size_t n, size_t max) { (void)max; return vz_malloc(n); }
#endif

#ifdef ZPL_VERIFY
#include "annot.h"
#endif
#define ZPL_IMPL
#ifndef VZ_ALL_MODULES
#define ZPL_CUSTOM_MODULES
#define ZPL_MODULE_ESSENTIALS
#ifndef VZ_NO_CORE
#define ZPL_MODULE_CORE
#endif
#ifdef VZ_MODS_HASHING
#define ZPL_MODULE_HASHING
#endif
#ifdef VZ_MODS_PARSER
#define ZPL_MODULE_PARSER
#endif
#ifdef VZ_MODS_OPTS
#define ZPL_MODULE_OPTS
#endif
#ifdef VZ_MODS_MATH
#define ZPL_MODULE_MATH
#endif
#ifdef VZ_MODS_REGEX
#define ZPL_MODULE_REGEX
#endif
#ifdef VZ_MODS_JOBS
#define ZPL_MODULE_THREADING
#define ZPL_MODULE_JOBS
#endif
#endif
#include "zpl.h"

/* ---- a most general backing allocator: every block is its own exact-size object, contents unspecified,
   RESIZE always moves, requests may be made to fail (vz_fail = n: the n-th request from now fails; 0 never) */
static int vz_fail, vz_nalloc, vz_nfree; static zpl_isize vz_last_size, vz_last_align;
static ZPL_ALLOCATOR_PROC(vz_allocator_proc) {
    void *p = NULL; (void)allocator_data; (void)flags;
    if (type == ZPL_ALLOCATION_FREE) {
        if (old_memory) { vz_nfree++; VZ_NATIVE_ONLY(vz_untrack(old_memory);) free(old_memory); }
        return NULL;
    }
    if (type == ZPL_ALLOCATION_FREE_ALL) return NULL;
    VZ_CHECK(size >= 0, "allocation size is not negative");
    vz_last_size = size; vz_last_align = alignment;
    if (vz_fail > 0 && --vz_fail == 0) return NULL;
    vz_nalloc++;
#if defined(VZ_CBMC) && defined(VZ_BLK)
    /* bounded units: blocks are objects of one constant size, requests beyond it are outside the bound (exact sizes natively) */
    VZ_ASSUME(size <= VZ_BLK); p = vz_malloc(VZ_BLK); struct vz_blk { uint8_t b[VZ_BLK]; };
    if (type == ZPL_ALLOCATION_RESIZE && old_memory) { *(struct vz_blk *)p = *(struct vz_blk *)old_memory; vz_nfree++; free(old_memory); }
    return p;
#endif
    p = vz_malloc((size_t)size);
    if (type == ZPL_ALLOCATION_RESIZE && old_memory) {
        memcpy(p, old_memory, (size_t)(old_size < size ? old_size : size));
        vz_nfree++; VZ_NATIVE_ONLY(vz_untrack(old_memory);) free(old_memory);
    }
    return p;
}
static inline zpl_allocator vz_allocator(void) { zpl_allocator a; a.proc = vz_allocator_proc; a.data = NULL; return a; }

void vz_test(void);   /* bounded / full / native harness */
void vz_proof(void);  /* contract-enforcement harness    */
#endif
