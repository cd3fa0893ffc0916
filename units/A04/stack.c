//@unit alloc kind=contract target=zpl_stack_allocator_proc calls=zpl_resize_align:vz_resize loops=0 solver=cadical n=2
//@unit history kind=search about="allocate/free (last in, first out) histories with growth through a backing allocator, against a model" search=15 maxlen=400 bound="native search, histories up to 20 operations" def=HIST
#include "vz.h"
#ifdef VZ_PROOF
#define VZ_OFF(p, b) ((int64_t)__CPROVER_POINTER_OFFSET(p) - (int64_t)__CPROVER_POINTER_OFFSET(b))
/* contract of growing through a backing allocator (zpl_resize_align, property A05): fails and changes nothing, or returns memory of the new size, aligned as requested,
   with the old contents (stated for one arbitrary fixed byte x) at the same offsets */
int vz_grow, vz_grows; zpl_isize vz_x; zpl_isize vz_N, vz_newsz;
void *vz_resize(zpl_allocator a, void *p, zpl_isize old, zpl_isize size, zpl_isize al) {
    uint8_t *m; (void)a; vz_grows++; VZ_CHECK(size > old && al > 0, "growth asks for more"); vz_newsz = size;
    if (!vz_grow) return NULL;
    m = (uint8_t *)vz_malloc((size_t)size);
    if (vz_x >= 0 && vz_x < old) VZ_ASSUME(m[vz_x] == ((uint8_t *)p)[vz_x]);
    return m;
}
void vz_proof(void) {
    zpl_isize N = vz_range(0, (int64_t)1 << 30), k = vz_range(0, 8191), T = vz_range(0, (int64_t)1 << 30), used = vz_range(0, (int64_t)1 << 30), size = vz_range(0, (int64_t)1 << 40), al = (zpl_isize)1 << vz_range(0, 12), off;
    uint8_t *mem = (uint8_t *)vz_malloc((size_t)N), *st, *r, xv = 0; zpl_stack_memory s, o; uint64_t fl = vz_u8();
    VZ_ASSUME(k + T + 16384 <= N && used <= T); st = mem + k; vz_x = vz_range(-1, (int64_t)1 << 30); VZ_ASSUME(vz_x < T); vz_grows = 0;
    zpl_stack_memory_init_from_memory(&s, st, T); VZ_CHECK(s.physical_start == st && (zpl_isize)s.total_size == T && s.allocated == 0 && s.backing.proc == NULL, "starts empty, without backing");
    s.allocated = (zpl_usize)used; vz_grow = vz_u8() & 1; if (vz_u8() & 1) s.backing = vz_allocator(); o = s;
    if (vz_x >= 0) xv = st[vz_x];
    { zpl_isize pad = (zpl_isize)(((uint64_t)st + (uint64_t)used + 8) & (uint64_t)(al - 1)); pad = pad ? al - pad : 0; off = used + pad; }
    VZ_ASSUME(o.backing.proc != NULL || off + 8 + size <= T);   /* a stack without backing must not be overfilled: the library panics */
    r = (uint8_t *)zpl_stack_allocator_proc(&s, ZPL_ALLOCATION_ALLOC, size, al, NULL, 0, fl);
    if (off + 8 + size <= T) { VZ_CHECK(r != NULL && s.physical_start == st && vz_grows == 0, "served from the memory at hand"); VZ_REACH("fits"); }
    else { VZ_CHECK((r != NULL) == vz_grow && vz_grows == 1, "grows through the backing allocator"); if (r) VZ_REACH("grown"); }
    if (r) {
        uint8_t *b = (uint8_t *)s.physical_start; zpl_isize ro = VZ_OFF(r, b);
        VZ_CHECK(((uint64_t)r & (uint64_t)(al - 1)) == 0, "aligned");
        VZ_CHECK(__CPROVER_same_object(r, b) && ro >= used + 8, "behind every live block"); VZ_CHECK((zpl_isize)s.allocated == ro + size && s.allocated <= s.total_size, "wholly inside");
        if (vz_grows) VZ_CHECK((zpl_isize)s.total_size == vz_newsz, "the size grown to is recorded"); else VZ_CHECK(s.total_size == o.total_size, "size unchanged");
        VZ_CHECK(vz_x < 0 || vz_x >= used || b[vz_x] == xv, "contents of live blocks stay at their offsets");
        { zpl_stack_memory m = s; uint64_t rec = *(uint64_t *)(r - 8); VZ_CHECK(rec == (uint64_t)used, "the previous top is recorded before the block");
          zpl_stack_allocator_proc(&s, ZPL_ALLOCATION_FREE, 0, 0, NULL, 0, 0); VZ_CHECK(s.allocated == m.allocated, "freeing nothing does nothing");
          zpl_stack_allocator_proc(&s, ZPL_ALLOCATION_FREE, 0, 0, r, 0, 0);
          VZ_CHECK((zpl_isize)s.allocated == used && s.physical_start == m.physical_start && s.total_size == m.total_size && s.backing.proc == o.backing.proc, "freeing restores the top as before the allocation"); }
        VZ_CHECK(vz_x < 0 || vz_x >= used || b[vz_x] == xv, "contents of live blocks unchanged by free"); VZ_REACH("freed");
    } else VZ_CHECK(s.physical_start == st && (zpl_isize)s.allocated == used && s.total_size == o.total_size && (vz_x < 0 || vz_x >= T || st[vz_x] == xv), "a refused request changes nothing");
    zpl_stack_allocator_proc(&s, ZPL_ALLOCATION_FREE_ALL, 0, 0, NULL, 0, 0); VZ_CHECK(s.allocated == 0, "free all");
    VZ_REACH("end");
}
#else
void vz_test(void) {
    zpl_stack_memory s; zpl_allocator al; int grow = vz_u8() & 1, i, j, c = 0, nops = VZ_N; zpl_isize T = vz_range(16, 120), k = vz_range(0, 15), n[24], off[24]; uint8_t *mem = (uint8_t *)vz_malloc(160), tag[24], cnt = 0;
    VZ_NATIVE_ONLY(nops = 20;)
    vz_fail = 0; if (grow) zpl_stack_memory_init(&s, vz_allocator(), T); else zpl_stack_memory_init_from_memory(&s, mem + k, T);
    al = zpl_stack_allocator(&s);
    for (i = 0; i < nops; i++) { int op = vz_u8(), m;
        if (op & 1) { zpl_isize size = vz_range(0, 60), a = (zpl_isize)1 << vz_range(0, 5), pad; uint8_t *r, *b; zpl_usize u = s.allocated, t = s.total_size;
            pad = (zpl_isize)(((uint64_t)s.physical_start + u + 8) & (uint64_t)(a - 1)); pad = pad ? a - pad : 0;
            if (!grow && (zpl_isize)u + pad + 8 + size > T) continue;
            vz_fail = grow && (op & 2) ? 1 : 0; r = (uint8_t *)zpl_stack_allocator_proc(&s, ZPL_ALLOCATION_ALLOC, size, a, NULL, 0, 0);
            if (!r) { VZ_CHECK(vz_fail == 0 && (op & 2) && s.allocated == u && s.total_size == t, "refused only when the backing allocator refuses; nothing changes"); continue; }
            vz_fail = 0; b = (uint8_t *)s.physical_start;
            if (!grow) VZ_CHECK(((uint64_t)r & (uint64_t)(a - 1)) == 0, "aligned");
            VZ_CHECK(r >= b + 8 && s.allocated <= s.total_size && r + size <= b + s.total_size, "inside");
            for (j = 0; j < c; j++) VZ_CHECK(r - b >= off[j] + n[j] + 8, "behind every live block");
            memset(r, ++cnt, (size_t)size); off[c] = r - b; n[c] = size; tag[c++] = cnt;
        } else { if (!c) continue; c--; zpl_free(al, (uint8_t *)s.physical_start + off[c]); VZ_CHECK((zpl_isize)s.allocated <= off[c] && (c == 0 || (zpl_isize)s.allocated == off[c - 1] + n[c - 1]), "back to the top before it"); if (!c) VZ_CHECK(s.allocated == 0, "empty again"); }
        for (j = 0; j < c; j++) for (m = 0; m < n[j]; m++) VZ_CHECK(((uint8_t *)s.physical_start)[off[j] + m] == tag[j], "contents kept at the same offsets");
    }
    if (grow) zpl_stack_memory_free(&s);
    VZ_REACH("end");
}
#endif
