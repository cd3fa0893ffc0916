//@unit alloc kind=contract target=zpl_arena_allocator_proc calls=zpl_memset:vz_zmemset fp=zpl_alloc_align.function_pointer_call.1/zpl_arena_allocator_proc bunwind=5 bunwindset=zpl_memset.0:6 n=2 bound="histories of 2 requests up to 40 bytes" loops=0 solver=cadical def=HIST
//@unit resize kind=contract target=zpl_default_resize_align calls=zpl_memset:vz_zmemset,zpl_memmove:vz_zmemmove fp=zpl_alloc_align.function_pointer_call.1/zpl_arena_allocator_proc,zpl_resize_align.function_pointer_call.1/zpl_arena_allocator_proc,zpl_free.function_pointer_call.1/zpl_arena_allocator_proc loops=0 each=assertion esolver=z3,cadical standin=0
//@unit snapshot kind=full about="zpl_arena_snapshot_begin/end, arena initialisation, remaining size, free-all: every arena state" unwind=8
//@unit history kind=search about="request histories against a list of live blocks" search=12 maxlen=400 bound="native search, histories up to 12 requests" def=HIST
#include "vz.h"
#ifdef VZ_CBMC
#define HSZ 9
#define VZ_EXACT(n, m) (m)
#else
#define HSZ 40
#define VZ_EXACT(n, m) (n)
#endif
#define MAXM ((zpl_isize)1 << 30)
#ifdef VZ_PROOF
#include "contract_copy.h"
void vz_proof(void) {
    zpl_isize N = vz_range(0, MAXM), k = vz_range(0, 8191), T = vz_range(0, MAXM), used = vz_range(0, MAXM), size = vz_range(0, (int64_t)1 << 60), pad, rs;
    int sh = (int)vz_range(0, 12); zpl_isize al = (zpl_isize)1 << sh, q = vz_range(-1, MAXM), o = vz_range(-1, MAXM);
    uint8_t *mem = (uint8_t *)vz_malloc((size_t)N), *st, *r, ov = 0; zpl_arena a, b; uint64_t flags = vz_u8() ? ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO : 0;
    VZ_ASSUME(k + T <= N && used <= T); st = mem + k;
    zpl_arena_init_from_memory(&a, st, T); VZ_CHECK(a.total_allocated == 0 && a.total_size == T && a.physical_start == st, "starts empty");
    a.total_allocated = used; a.temp_count = (zpl_isize)vz_range(0, 1000); b = a;
    VZ_ASSUME(o < used); if (o >= 0) { ov = st[o]; vz_t[0] = st + o; }
    if (o < 0) vz_t[0] = NULL; vz_t[1] = vz_t[2] = vz_t[3] = NULL;
    vz_o = q; pad = (zpl_isize)((uint64_t)(st + used) & (uint64_t)(al - 1)); pad = pad ? al - pad : 0; rs = (size + al - 1) & ~(al - 1);
#ifdef U_alloc
    r = (uint8_t *)zpl_arena_allocator_proc(&a, ZPL_ALLOCATION_ALLOC, size, al, NULL, 0, flags);
    VZ_CHECK((r != NULL) == (pad + rs <= T - used), "succeeds exactly when the aligned request fits");
    if (r) {
        VZ_CHECK(((uint64_t)r & (uint64_t)(al - 1)) == 0, "aligned"); VZ_CHECK(__CPROVER_same_object(r, mem), "inside the arena memory");
        VZ_CHECK(VZ_OFF(r, st) >= used && size <= a.total_allocated - VZ_OFF(r, st), "behind every earlier block and before every later one");
        VZ_CHECK(a.total_allocated >= used && a.total_allocated <= T, "wholly inside the arena memory");
        VZ_CHECK(!(flags && q >= 0 && q < size) || r[q] == 0, "cleared"); VZ_REACH("allocated");
    } else VZ_CHECK(a.total_allocated == used, "a refused request changes nothing");
#else
    { zpl_isize old = vz_range(1, MAXM), off = vz_range(0, MAXM); VZ_ASSUME(off <= used && old <= used - off); VZ_ASSUME(size <= MAXM);
      vz_t[1] = q >= 0 && q < old ? st + off + q : NULL; { uint8_t w = vz_t[1] ? *vz_t[1] : 0;
      r = (uint8_t *)zpl_resize_align(zpl_arena_allocator(&a), st + off, old, size, al);
      if (r) { VZ_CHECK(!(q >= 0 && q < old && q < size) || r[q] == w, "contents kept");
        VZ_CHECK(r == st + off || VZ_OFF(r, st) >= used, "either the same block or a new one");
        VZ_CHECK(r != st + off || size <= old, "the same block only when it is large enough"); VZ_CHECK(r == st + off || (size <= a.total_allocated - VZ_OFF(r, st) && ((uint64_t)r & (uint64_t)(al - 1)) == 0), "large enough and aligned"); VZ_REACH("resized"); }
      else { VZ_CHECK(a.total_allocated == used && (!vz_t[1] || *vz_t[1] == w), "a refused request changes nothing"); } } }
#endif
    VZ_CHECK(o < 0 || st[o] == ov, "earlier blocks keep their contents"); VZ_CHECK(a.total_allocated <= T && a.physical_start == b.physical_start && a.total_size == b.total_size && a.temp_count == b.temp_count, "the arena itself is unchanged");
    VZ_REACH("end");
}
#else
void vz_test(void) {
#ifdef U_snapshot
    zpl_arena a, o, p; zpl_isize T = vz_range(0, (int64_t)1 << 40), u1 = vz_range(0, (int64_t)1 << 40), u2 = vz_range(0, (int64_t)1 << 40), al = (zpl_isize)1 << vz_range(0, 12), k = vz_range(0, 4096); zpl_arena_snapshot s1, s2; void *fresh;
    uint8_t *mem = (uint8_t *)vz_malloc(4096);
    VZ_ASSUME(u1 <= u2 && u2 <= T && k <= T);
    zpl_arena_init_from_memory(&a, mem, T); a.total_allocated = u1; a.temp_count = vz_range(0, 1000); o = a;
    s1 = zpl_arena_snapshot_begin(&a); VZ_CHECK(a.total_allocated == u1 && a.temp_count == o.temp_count + 1, "taking a snapshot changes no usage");
    s2 = zpl_arena_snapshot_begin(&a);
    a.total_allocated = u2; zpl_arena_snapshot_end(s2); VZ_CHECK(a.total_allocated == u1, "inner snapshot restores");
    a.total_allocated = u2; zpl_arena_snapshot_end(s1);
    VZ_CHECK(a.total_allocated == u1 && a.temp_count == o.temp_count && a.total_size == T && a.physical_start == o.physical_start, "usage at the time it was taken");
    a.temp_count = 0; zpl_arena_check(&a);
    { zpl_isize pad = (zpl_isize)(((uint64_t)mem + (uint64_t)u1) & (uint64_t)(al - 1)); pad = pad ? al - pad : 0;
      VZ_CHECK(zpl_arena_size_remaining(&a, al) == T - u1 - pad && zpl_arena_alignment_of(&a, al) == pad, "remaining size"); }
    zpl_arena_allocator_proc(&a, ZPL_ALLOCATION_FREE, 0, 0, mem, 0, 0); VZ_CHECK(a.total_allocated == u1, "freeing one block changes nothing");
    zpl_arena_allocator_proc(&a, ZPL_ALLOCATION_FREE_ALL, 0, 0, NULL, 0, 0); VZ_CHECK(a.total_allocated == 0, "free all");
    vz_fail = vz_u8() & 1; vz_nalloc = vz_nfree = 0;
    zpl_arena_init_from_allocator(&p, vz_allocator(), 64);
    VZ_CHECK(p.total_allocated == 0 && p.total_size == (p.physical_start ? 64 : 0), "no memory, no arena");
    if (p.physical_start) { zpl_arena s; fresh = p.physical_start; zpl_arena_init_sub(&s, &p, 32); VZ_CHECK(s.physical_start == fresh && s.total_size == 32 && p.total_allocated == 32, "sub arena lies in its parent");
        zpl_arena_free(&p); VZ_CHECK(vz_nfree == 1 && p.physical_start == NULL, "releases its memory once"); }
#else
    int n = VZ_N, i, j, m; zpl_arena a; zpl_isize T, k; uint8_t *mem; struct { uint8_t *p; zpl_isize n; } l[16]; zpl_arena_snapshot s; int snap = -1, cnt = 0;
    VZ_NATIVE_ONLY(n = 12;)
    T = vz_range(0, 90); k = vz_range(0, 15); mem = (uint8_t *)vz_malloc(VZ_EXACT(k + T, 106)); zpl_arena_init_from_memory(&a, mem + k, T);
    for (i = 0; i < n; i++) {
        zpl_isize size = vz_range(0, HSZ), al = (zpl_isize)1 << vz_range(0, 5), u = a.total_allocated; uint8_t *r; int op = vz_u8() & 7;
        if (op == 1 && snap < 0) { s = zpl_arena_snapshot_begin(&a); snap = cnt; continue; }
        if (op == 2 && snap >= 0) { zpl_arena_snapshot_end(s); cnt = snap; snap = -1; continue; }
        r = (uint8_t *)zpl_alloc_align(zpl_arena_allocator(&a), size, al);
        if (!r) { VZ_CHECK(a.total_allocated == u, "refused request changes nothing"); continue; }
        VZ_CHECK(((uint64_t)r & (uint64_t)(al - 1)) == 0, "aligned"); VZ_CHECK(r >= mem + k && r + size <= mem + k + T, "inside the arena memory");
        for (j = 0; j < cnt; j++) VZ_CHECK(r + size <= l[j].p || l[j].p + l[j].n <= r || size == 0 || l[j].n == 0, "overlaps no live block");
        for (m = 0; m < size; m++) VZ_CHECK(r[m] == 0, "cleared");
        VZ_NATIVE_ONLY(memset(r, 0xAA, (size_t)size);)
        l[cnt].p = r; l[cnt++].n = size;
    }
#endif
    VZ_REACH("end");
}
#endif
