//@unit ops kind=contract target=zpl_buffer_append,zpl_buffer_appendv,zpl_buffer_pop,zpl_buffer_clear,zpl_buffer_copy_init calls=zpl_memcopy:vz_zmemcopy fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=10 def=ES=8
//@unit ops1 kind=contract target=zpl_buffer_append,zpl_buffer_appendv,zpl_buffer_pop,zpl_buffer_clear,zpl_buffer_copy_init calls=zpl_memcopy:vz_zmemcopy fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=10 def=ES=1
//@unit history kind=search about="operation histories against a sequence model, item sizes 1, 4, 12" search=8 maxlen=300 bound="native search" def=ES=4
#define VZ_HDR 4
#include "vz.h"
typedef struct { uint8_t b[ES]; } T;
#ifdef VZ_PROOF
#include "contract_copy.h"
int vz_pfree; void *vz_plast; zpl_isize vz_psize;
ZPL_ALLOCATOR_PROC(vz_proc) { (void)allocator_data; (void)old_size; (void)flags; (void)alignment;
    if (type == ZPL_ALLOCATION_FREE) { vz_pfree++; vz_plast = old_memory; return NULL; }
    VZ_CHECK(type == ZPL_ALLOCATION_ALLOC && size >= 0, "well-formed request"); vz_psize = size; vz_h = (struct vz_hdr *)vz_malloc((size_t)size); return vz_h; }
void vz_proof(void) {
    zpl_isize cap = vz_range(0, (int64_t)1 << 30), n = vz_range(0, (int64_t)1 << 30), i = vz_range(0, (int64_t)1 << 30), k; int bj = (int)vz_range(0, ES - 1), s; T *x = NULL, *o, it; zpl_allocator A; uint8_t w = 0; zpl_buffer_header *h;
    A.proc = vz_proc; A.data = NULL; vz_pfree = 0; vz_t[0] = vz_t[1] = vz_t[2] = vz_t[3] = NULL; vz_o = -1; for (s = 0; s < ES; s++) it.b[s] = vz_u8();
    zpl_buffer_init(x, A, cap); o = x; h = ZPL_BUFFER_HEADER(x); VZ_CHECK(zpl_buffer_count(x) == 0 && zpl_buffer_capacity(x) == cap && zpl_buffer_allocator(x).proc == vz_proc && vz_psize == 32 + cap * ES, "reports the capacity it was created with");
    VZ_ASSUME(n <= cap && i < cap); zpl_buffer_count(x) = n; w = x[i].b[bj]; vz_t[0] = &x[i].b[bj];
    switch (vz_range(0, 4)) {
    case 0: VZ_ASSUME(n < cap); zpl_buffer_append(x, it); VZ_CHECK(zpl_buffer_count(x) == n + 1, "one more item"); VZ_CHECK(x[i].b[bj] == (i == n ? it.b[bj] : w), "the new item last, others unchanged"); VZ_CHECK(zpl_buffer_end(x) == x + n, "end"); VZ_REACH("append"); break;
    case 1: { T *items; k = vz_range(0, (int64_t)1 << 30); VZ_ASSUME(n + k <= cap); items = (T *)vz_malloc((size_t)(k * ES)); if (i >= n && i < n + k) w = items[i - n].b[bj];
        zpl_buffer_appendv(x, items, k); VZ_CHECK(zpl_buffer_count(x) == n + k, "k more items"); VZ_CHECK(x[i].b[bj] == w, "the new items last, others unchanged"); VZ_REACH("appendv"); } break;
    case 2: VZ_ASSUME(n > 0); zpl_buffer_pop(x); VZ_CHECK(zpl_buffer_count(x) == n - 1 && x[i].b[bj] == w, "one item less"); break;
    case 3: zpl_buffer_clear(x); VZ_CHECK(zpl_buffer_count(x) == 0, "empty"); zpl_buffer_free(x); VZ_CHECK(vz_pfree == 1 && vz_plast == h, "released"); break;
    default: { T *y = NULL; vz_o = i * ES + bj; zpl_buffer_copy_init(y, x); VZ_CHECK(y != x && zpl_buffer_count(y) == n && zpl_buffer_capacity(y) == cap && zpl_buffer_allocator(y).proc == vz_proc, "an independent buffer of the same size"); VZ_CHECK(y[i].b[bj] == w && x[i].b[bj] == w, "the same items"); VZ_REACH("copy"); } }
    VZ_CHECK(x == o && h->capacity == cap && h->backing.proc == vz_proc, "storage and capacity unchanged");
    VZ_REACH("end");
}
#else
#ifndef VZ_CBMC
#define OPS(TY, NAME) static void NAME(void) { TY *x, *y, it, items[8]; int cap = (int)vz_range(0, 20), n = 0, i, st, ref[32]; vz_fail = 0; zpl_buffer_init(x, vz_allocator(), cap); \
    for (st = 0; st < 30; st++) { int v = vz_u8(), k = vz_u8() % 8; memset(&it, 0, sizeof it); memset(items, 0, sizeof items); memcpy(&it, &v, 1); \
        switch (vz_u8() % 5) { case 0: if (n < cap) { zpl_buffer_append(x, it); ref[n++] = v; } break; \
        case 1: if (n + k <= cap) { for (i = 0; i < k; i++) { int u = (v + i) & 255; memcpy(&items[i], &u, 1); ref[n++] = u; } zpl_buffer_appendv(x, items, k); } break; \
        case 2: if (n) { zpl_buffer_pop(x); n--; } break; case 3: if (v < 20) { zpl_buffer_clear(x); n = 0; } break; \
        case 4: zpl_buffer_copy_init(y, x); zpl_buffer_free(x); x = y; break; } \
        VZ_CHECK(zpl_buffer_count(x) == n && zpl_buffer_capacity(x) == cap, "count and capacity"); for (i = 0; i < n; i++) { int u = 0; memcpy(&u, &x[i], 1); VZ_CHECK(u == ref[i], "item"); } } \
    zpl_buffer_free(x); }
typedef struct { uint32_t v, p[2]; } T12;
OPS(uint8_t, ops_1)
OPS(uint32_t, ops_4)
OPS(T12, ops_12)
#endif
void vz_test(void) {
    VZ_NATIVE_ONLY(switch (vz_u8() % 3) { case 0: ops_1(); break; case 1: ops_4(); break; default: ops_12(); })
    VZ_REACH("end");
}
#endif
