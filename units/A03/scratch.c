//@unit alloc kind=contract target=zpl_scratch_allocator_proc calls=zpl_memset:vz_zmemset,zpl_pointer_diff:vz_pointer_diff,zpl_allocation_header_fill:vz_header_fill loops=0 solver=cadical unwind=10 bunwind=10 bunwindset=zpl_memset.0:40 n=2 bound="two requests and releases, 96 bytes of memory" bsecs=120 fp=zpl_alloc_align.function_pointer_call.1/zpl_scratch_allocator_proc,zpl_free.function_pointer_call.1/zpl_scratch_allocator_proc,zpl_resize_align.function_pointer_call.1/zpl_scratch_allocator_proc
//@unit header kind=bounded about="header words: the block finds its header" n=8 bound="up to 8 words between header and block (alignment up to 64)" unwind=13
//@unit free kind=bounded about="release: the ring is walked exactly over released blocks, in any order, wrapping" n=3 bound="three blocks in a ring of 12 words, any positions, sizes and release states" unwind=14 unwindset=zpl_allocation_header.0:5,zpl_scratch_allocator_proc.0:7 fp=zpl_alloc_align.function_pointer_call.1/zpl_scratch_allocator_proc,zpl_free.function_pointer_call.1/zpl_scratch_allocator_proc
//@unit history kind=search about="allocate/free histories against a model of live blocks" search=20 maxlen=500 bound="native search, histories up to 20 operations" def=HIST
#include "vz.h"
#ifdef VZ_PROOF
#include "contract_copy.h"
/* contract of zpl_allocation_header_fill (proved for the real code by unit header): the size is stored in the header word, the words up to the block are
   filled with a marker; nothing else changes.  Recorded here; the written range is forgotten except for the watched cells outside it */
zpl_allocation_header_ev *vz_hd; uint8_t *vz_da; zpl_isize vz_sz; int vz_fills;
void vz_header_fill(zpl_allocation_header_ev *h, void *data, zpl_isize size) {
    VZ_CHECK(__CPROVER_same_object(h, data) && VZ_OFF(data, h) >= 8 && VZ_OFF(data, h) % 8 == 0 && VZ_OFF(h, h) % 8 == 0 && __CPROVER_w_ok(h, VZ_OFF(data, h)), "header fill: the header and the words up to the block are valid");
    vz_hd = h; vz_da = (uint8_t *)data; vz_sz = size; vz_fills++;
    { int64_t o = vz_o; vz_o = -1; vz_block_op((uint8_t *)h, NULL, 1, 0xff, VZ_OFF(data, h)); vz_o = o; }
}
/* one request from every state of the ring: 8-aligned free and alloc points anywhere, the space in use is [free, alloc) or, wrapped, its complement */
void vz_proof(void) {
    zpl_isize N = vz_range(0, (int64_t)1 << 30), k = vz_range(0, 511) * 8, T = vz_range(0, (int64_t)1 << 30), f = vz_range(0, (int64_t)1 << 30), a = vz_range(0, (int64_t)1 << 30), x = vz_range(0, (int64_t)1 << 30), size = vz_range(1, (int64_t)1 << 60), al = (zpl_isize)4 << vz_range(0, 10), q = vz_range(-1, (int64_t)1 << 30), H, R, A2;
    uint8_t *mem = (uint8_t *)vz_malloc((size_t)N), *st, *r, xv = 0; zpl_scratch_memory s, o; uint64_t fl = vz_u8() & 1 ? ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO : 0; int inuse, jb = (int)vz_range(0, 7); vz_fills = 0;
    VZ_ASSUME(k + T + 8192 <= N && x < N - k && /* slack behind the memory, watched too: the code computes aligned addresses beyond the end before it refuses */ T % 8 == 0 && f % 8 == 0 && a % 8 == 0 && f <= T && a <= T); st = mem + k;
    zpl_scratch_memory_init(&s, st, T); VZ_CHECK(s.physical_start == st && s.total_size == T && s.alloc_point == st && s.free_point == st, "starts empty, everything usable");
    s.free_point = st + f; s.alloc_point = st + a; o = s;
    inuse = f <= a ? x >= f && x < a : x < T && (x >= f || x < a); if (x < T) VZ_CHECK((zpl_scratch_memory_is_in_use(&s, st + x) != 0) == inuse, "in-use query");
    vz_t[0] = st + x; xv = st[x];
    vz_t[1] = a < T ? st + a + jb : NULL; vz_t[2] = vz_t[3] = NULL; vz_o = q;
    r = (uint8_t *)zpl_scratch_allocator_proc(&s, ZPL_ALLOCATION_ALLOC, size, al, NULL, 0, fl);
    if (r) {
        R = VZ_OFF(r, st); A2 = VZ_OFF(s.alloc_point, st);
        VZ_CHECK(((uint64_t)r & (uint64_t)(al - 1)) == 0, "aligned"); VZ_CHECK(__CPROVER_same_object(r, mem) && R >= 8 && R + size <= T && A2 <= T && R + size <= A2 && A2 % 8 == 0, "block and its header wholly inside");
        H = R >= a && !(a == f && R < a) && A2 > a ? a : 0;   /* where the header of the new block lies */
        VZ_CHECK(A2 > H && H + 8 <= R, "the block starts where the ring goes on: at the alloc point or at the start of the memory");
        VZ_CHECK(f > a ? H == a && A2 < f : (H == a || (H == 0 && A2 < f)), "the new block and its header lie in the free part and the ring does not look empty");
        VZ_CHECK(vz_fills == 1 && (uint8_t *)vz_hd == st + H && vz_da == r && vz_sz == A2 - H, "its header spans up to the next block and is found from the block");
        if (H != a && a < T) VZ_CHECK(st[a + jb] == (uint8_t)((((uint64_t)(T - a)) | (uint64_t)ZPL_ISIZE_HIGH_BIT) >> (8 * jb)), "the skipped tail is marked free");
        VZ_CHECK(!fl || q < 0 || q >= size || r[q] == 0, "cleared"); VZ_REACH("allocated"); if (H == 0 && a > 0) VZ_REACH("wrapped");
    } else { VZ_CHECK(s.alloc_point == o.alloc_point, "a refused request changes nothing");
        if (f == a && f == 0) VZ_CHECK(size > T || al + size + 8 > T, "an empty ring at its start serves every request that fits"); }
    VZ_CHECK((x < T && !inuse) || st[x] == xv, "space in use is not disturbed"); VZ_CHECK(s.free_point == o.free_point && s.physical_start == st && s.total_size == T, "ring otherwise unchanged");
    VZ_REACH("end");
}
#else
void vz_test(void) {
#if defined(U_header)
    zpl_isize m[12], o[12], sz = (zpl_isize)vz_u64(); int i, h = (int)vz_range(0, 3), d = (int)vz_range(h + 1, h + 8);
    for (i = 0; i < 12; i++) o[i] = m[i] = (zpl_isize)vz_u64();
    VZ_ASSUME(sz != -1); zpl_allocation_header_fill((zpl_allocation_header_ev *)(m + h), m + d, sz);
    VZ_CHECK(zpl_allocation_header(m + d) == (zpl_allocation_header_ev *)(m + h), "the block finds its header"); VZ_CHECK(m[h] == sz, "size stored");
    for (i = 0; i < 12; i++) VZ_CHECK((i >= h && i < d) || m[i] == o[i], "nothing else written");
#elif defined(U_free) || defined(U_alloc)
    /* a ring of 12 words holding three blocks one behind the other from word p on (wrapping: the block that would reach past the end is
       preceded by a skip marker), any of them already released except the one released now */
    zpl_isize m[12], o[12], h[3], n[3], e, skip = -1; int i, j, fr[3], p = (int)vz_range(0, 12), w, k = (int)vz_range(0, 2), pad[3]; zpl_scratch_memory s;
    for (i = 0; i < 12; i++) m[i] = (zpl_isize)(vz_u64() & 0xff);
    e = p; w = 0;
    for (i = 0; i < 3; i++) {
        n[i] = vz_range(2, 4); pad[i] = (int)vz_range(0, n[i] - 2); fr[i] = vz_u8() & 1;
        if (e + n[i] > 12) { VZ_ASSUME(!w); w = 1; if (e < 12) { skip = e; m[e] = (zpl_isize)(((uint64_t)(12 - e) * 8) | (uint64_t)ZPL_ISIZE_HIGH_BIT); } e = 0; }
        h[i] = e; e += n[i]; if (w) VZ_ASSUME(e < p);
    }
    for (i = 0; i < 3; i++) { m[h[i]] = (zpl_isize)((uint64_t)(n[i] * 8) | (i != k && fr[i] ? (uint64_t)ZPL_ISIZE_HIGH_BIT : 0)); for (j = 0; j < 3; j++) if (j < pad[i]) m[h[i] + 1 + j] = -1; }
    VZ_ASSUME(!(fr[0] && k != 0)); /* the walk stops at the first block in use: nothing released lies at the free point */
    s.physical_start = m; s.total_size = 96; s.free_point = m + p; s.alloc_point = m + e;
    for (i = 0; i < 12; i++) o[i] = m[i];
    fr[k] = 1; zpl_scratch_allocator_proc(&s, ZPL_ALLOCATION_FREE, 0, 0, m + h[k] + 1 + pad[k], 0, 0);
    VZ_CHECK(s.alloc_point == m + e && s.physical_start == m && s.total_size == 96, "alloc point unchanged");
    if (fr[0] && fr[1] && fr[2]) VZ_CHECK(s.free_point == s.alloc_point, "everything is free again");
    else { i = !fr[0] ? 0 : !fr[1] ? 1 : 2; VZ_CHECK(s.free_point == (void *)(m + h[i]) || (i == 0 && s.free_point == (void *)(m + p)), "the space in use starts at the oldest block not yet released"); }
    for (i = 0; i < 12; i++) if (i == h[k]) VZ_CHECK(m[i] == (zpl_isize)((uint64_t)o[i] | (uint64_t)ZPL_ISIZE_HIGH_BIT), "the block is marked free"); else VZ_CHECK(m[i] == o[i], "no other block is disturbed");
    { void *f = s.free_point; zpl_scratch_allocator_proc(&s, ZPL_ALLOCATION_FREE, 0, 0, NULL, 0, 0); VZ_CHECK(s.free_point == f, "releasing nothing does nothing"); }
    zpl_scratch_allocator_proc(&s, ZPL_ALLOCATION_FREE_ALL, 0, 0, NULL, 0, 0); VZ_CHECK(s.alloc_point == m && s.free_point == m, "free all");
#else
    zpl_scratch_memory s; zpl_allocator al; zpl_isize T = vz_range(0, 260), k = vz_range(0, 15), n[32]; uint8_t *mem = (uint8_t *)vz_malloc((size_t)(k + T)), *l[32], tag[32], cnt = 0; int i, j, m, c = 0;
    zpl_scratch_memory_init(&s, mem + k, T); al = zpl_scratch_allocator(&s);
    for (i = 0; i < 20; i++) { int op = vz_u8();
        if (op < 140) { zpl_isize size = vz_range(1, 90), a = (zpl_isize)4 << vz_range(0, 4), u = 0; uint8_t *r; void *ap = s.alloc_point;
            r = (uint8_t *)zpl_alloc_align(al, size, a);
            if (!r) { VZ_CHECK(s.alloc_point == ap, "refused request changes nothing"); }
            else { VZ_CHECK(((uint64_t)r & (uint64_t)(a - 1)) == 0, "aligned"); VZ_CHECK(r >= mem + k && r + size <= mem + k + T, "inside");
                for (j = 0; j < c; j++) VZ_CHECK(r + size <= l[j] || l[j] + n[j] <= r, "overlaps no live block");
                for (m = 0; m < size; m++) VZ_CHECK(r[m] == 0, "cleared");
                memset(r, ++cnt, (size_t)size); l[c] = r; n[c] = size; tag[c++] = cnt; } (void)u;
        } else if (op < 250) { if (!c) continue; j = op & 1 ? (int)vz_range(0, c - 1) : 0; zpl_free(al, l[j]); c--; for (m = j; m < c; m++) { l[m] = l[m + 1]; n[m] = n[m + 1]; tag[m] = tag[m + 1]; }
            if (c == 0) VZ_CHECK(s.free_point == s.alloc_point, "everything is free again"); }
        else { zpl_free_all(al); c = 0; }
        for (j = 0; j < c; j++) { for (m = 0; m < n[j]; m++) VZ_CHECK(l[j][m] == tag[j], "contents kept"); VZ_CHECK(zpl_scratch_memory_is_in_use(&s, l[j]), "live blocks are in use"); }
    }
#endif
    VZ_REACH("end");
}
#endif
