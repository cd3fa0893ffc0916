//@unit resize kind=contract target=zpl_default_resize_align calls=zpl_memmove:vz_zmemmove fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 solver=cadical standin=0
//@unit copy kind=contract target=zpl_alloc_copy,zpl_alloc_copy_align,zpl_alloc_str_len calls=zpl_memmove:vz_zmemmove,memcpy:vz_memcpy fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 solver=cadical standin=0
//@unit heap kind=contract target=zpl_heap_allocator_proc calls=zpl_memset:vz_zmemset,aligned_alloc:vz_aligned_alloc,free:vz_sysfree,zpl_default_resize_align:vz_default_resize loops=0 solver=cadical standin=0
//@unit history kind=search about="resize/duplicate through the general allocator with injected failures, heap allocator included" search=10 maxlen=300 bound="native search, blocks up to 80 bytes"
#include "vz.h"
#ifdef VZ_PROOF
#include "contract_copy.h"
#define MAXS ((int64_t)1 << 40)
/* the most general allocator: every request may fail; blocks are fresh, contents unspecified; cleared ones are zero at the watched offset */
int vz_pf, vz_pfree, vz_palloc; void *vz_plast; zpl_isize vz_psize, vz_palign;
ZPL_ALLOCATOR_PROC(vz_proc) {
    void *p = NULL; (void)allocator_data; (void)old_size; (void)flags;
    if (type == ZPL_ALLOCATION_FREE) { vz_pfree++; vz_plast = old_memory; if (old_memory) free(old_memory); return NULL; }
    VZ_CHECK(type == ZPL_ALLOCATION_ALLOC && size >= 0 && alignment > 0, "well-formed request");
    vz_palloc++; vz_psize = size; vz_palign = alignment; if (vz_pf) return NULL;
    p = vz_malloc((size_t)size); return p;
}
void *vz_aligned_alloc(size_t al, size_t size) {
    VZ_CHECK(al && (al & (al - 1)) == 0 && size % al == 0, "aligned_alloc: alignment is a power of two, size a multiple of it");
    vz_palloc++; vz_psize = (zpl_isize)size; vz_palign = (zpl_isize)al; return vz_pf ? NULL : vz_malloc(size); }
void vz_sysfree(void *p) { vz_pfree++; vz_plast = p; }
int vz_res; void *vz_resold; zpl_isize vz_resa[3];
void *vz_default_resize(zpl_allocator a, void *old, zpl_isize os, zpl_isize ns, zpl_isize al) { VZ_CHECK(a.proc == zpl_heap_allocator_proc, "resizes through itself"); vz_res++; vz_resold = old; vz_resa[0] = os; vz_resa[1] = ns; vz_resa[2] = al; return (void *)&vz_res; }
void vz_proof(void) {
    zpl_isize n = vz_range(0, MAXS), q = vz_range(-1, MAXS), al = (zpl_isize)1 << vz_range(0, 12); uint8_t *src, *r, w = 0; zpl_allocator A; A.proc = vz_proc; A.data = NULL;
    vz_pf = vz_u8() & 1; vz_pfree = vz_palloc = vz_res = 0; vz_o = q; vz_t[0] = vz_t[1] = vz_t[2] = vz_t[3] = NULL;
#ifdef U_heap
    { zpl_allocator h = zpl_heap_allocator(); uint64_t fl = vz_u8() & 1 ? ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO : 0; zpl_isize a0 = vz_u8() & 1 ? 0 : al; VZ_CHECK(h.proc == zpl_heap_allocator_proc, "heap allocator");
      r = (uint8_t *)zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_ALLOC, n, a0, NULL, 0, fl);
      VZ_CHECK((r != NULL) == !vz_pf && vz_palloc == 1, "one request to the system"); VZ_CHECK(vz_psize >= n && vz_palign == (a0 ? a0 : ZPL_DEFAULT_MEMORY_ALIGNMENT), "size and alignment asked for");
      VZ_CHECK(!r || !fl || q < 0 || q >= n || r[q] == 0, "cleared"); if (r) VZ_REACH("alloc");
      VZ_CHECK(zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_RESIZE, n, a0, r, 5, fl) == (void *)&vz_res && vz_res == 1 && vz_resold == r && vz_resa[0] == 5 && vz_resa[1] == n, "resize goes through the default resize");
      VZ_CHECK(zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_FREE, 0, 0, r, 0, 0) == NULL, "release"); VZ_CHECK(vz_pfree == 1 && vz_plast == r, "the block is released");
      zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_FREE, 0, 0, NULL, 0, 0); }
#elif defined(U_resize)
    { zpl_isize ns = vz_range(0, MAXS); int isnull = vz_u8() & 1; src = isnull ? NULL : (uint8_t *)vz_malloc((size_t)n); if (src && q >= 0 && q < n) { w = src[q]; vz_t[0] = src + q; }
      r = (uint8_t *)zpl_default_resize_align(A, src, n, ns, al);
      if (!src) VZ_CHECK((r != NULL) == !vz_pf && vz_psize == ns && vz_palign == al && vz_pfree == 0, "nothing to resize: a new block");
      else if (ns == 0) VZ_CHECK(r == NULL && vz_pfree == 1 && vz_plast == src && vz_palloc == 0, "size zero releases the block");
      else if (!r) { VZ_CHECK(vz_pf && vz_pfree == 0, "only when the allocator fails, and the old block stays"); VZ_CHECK(!vz_t[0] || src[q] == w, "old block unchanged"); VZ_REACH("failed"); }
      else if (r == src) { VZ_CHECK(ns <= n && vz_pfree == 0, "the same block only when large enough"); VZ_CHECK(!vz_t[0] || src[q] == w, "unchanged"); }
      else { VZ_CHECK(vz_psize >= ns && vz_palign == al && vz_pfree == 1 && vz_plast == src, "the old block is released once, the new one is large enough"); VZ_CHECK(q < 0 || q >= n || q >= ns || r[q] == w, "contents kept"); VZ_REACH("moved"); } }
#else
    src = (uint8_t *)vz_malloc((size_t)n); if (q >= 0 && q < n) w = src[q];
    switch (vz_u8() & 3) {
    case 0: r = (uint8_t *)zpl_alloc_copy(A, src, n); VZ_CHECK(vz_psize >= n, "room"); break;
    case 1: r = (uint8_t *)zpl_alloc_copy_align(A, src, n, al); VZ_CHECK(vz_psize >= n && vz_palign == al, "room"); break;
    default: if (q == n) vz_o = -1; r = (uint8_t *)zpl_alloc_str_len(A, (char const *)src, n); VZ_CHECK(vz_psize >= n + 1, "room"); if (r) VZ_CHECK(r[n] == 0, "terminated"); }
    VZ_CHECK((r != NULL) == !vz_pf && vz_palloc == 1 && vz_pfree == 0, "nothing when the allocator fails"); if (r) { VZ_CHECK(q < 0 || q >= n || r[q] == w, "exactly the source content"); VZ_REACH("copied"); }
    VZ_CHECK(q < 0 || q >= n || src[q] == w, "source unchanged");
#endif
    VZ_REACH("end");
}
#else
void vz_test(void) {
    zpl_allocator A = vz_u8() & 1 ? vz_allocator() : zpl_heap_allocator(); int heap = A.proc == zpl_heap_allocator_proc, i; zpl_isize n = vz_range(1, 80), m = vz_range(0, 80); uint8_t *b, *r, ref[81]; char t[24]; size_t tl;
    vz_fail = 0; b = (uint8_t *)zpl_alloc_align(A, n, 16); for (i = 0; i < n; i++) b[i] = ref[i] = (uint8_t)(vz_u8() ? i * 7 : i);
    vz_nalloc = vz_nfree = 0; vz_fail = vz_u8() % 3 == 0;
    r = (uint8_t *)zpl_default_resize_align(A, b, n, m, 16);
    if (m == 0) VZ_CHECK(r == NULL, "released"); else if (!r) { for (i = 0; i < n; i++) VZ_CHECK(b[i] == ref[i], "old block unchanged"); VZ_CHECK(vz_nfree == 0, "old block stays"); if (heap) zpl_free(A, b); }
    else { for (i = 0; i < n && i < m; i++) VZ_CHECK(r[i] == ref[i], "contents kept"); for (i = 0; i < m; i++) r[i] = 1; if (heap) zpl_free(A, r); }
    tl = (size_t)vz_range(0, 20); for (i = 0; i < (int)tl; i++) t[i] = (char)(1 + vz_u8() % 255); t[tl] = 0; vz_fail = vz_u8() & 1;
    { char *s = zpl_alloc_str(A, t); if (s) { VZ_CHECK(!strcmp(s, t), "duplicate"); if (heap) zpl_free(A, s); } else VZ_CHECK(!heap, "only on failure"); vz_fail = 0;
      s = (char *)zpl_alloc_copy(A, t, (zpl_isize)tl + 1); VZ_CHECK(!memcmp(s, t, tl + 1), "copy"); if (heap) zpl_free(A, s); }
    VZ_REACH("end");
}
#endif
