//@unit step kind=contract target=zpl_pool_allocator_proc calls=zpl_memset:vz_zmemset loops=0 solver=cadical standin=0
//@unit init kind=bounded about="free list threading (zpl_pool_init_align) and FREE_ALL: every block size and alignment" n=3 bound="up to 3 blocks, block size 1..40, alignment 1..32" unwind=5 fp=zpl_alloc_align.function_pointer_call.1/vz_allocator_proc+zpl_pool_allocator_proc,zpl_free.function_pointer_call.1/vz_allocator_proc,zpl_free_all.function_pointer_call.1/zpl_pool_allocator_proc
//@unit empty kind=full about="a pool whose backing memory could not be obtained, or without blocks, hands out nothing" unwind=3 fp=zpl_alloc_align.function_pointer_call.1/vz_allocator_proc+zpl_pool_allocator_proc,zpl_free_all.function_pointer_call.1/zpl_pool_allocator_proc bunwindset=zpl_memset.0:16
//@unit history kind=search about="allocate/free/free-all histories against a model of live blocks" search=10 maxlen=300 bound="native search, up to 9 blocks, histories up to 24 operations"
#define VZ_BLK 192
#include "vz.h"
#ifdef VZ_PROOF
#include "contract_copy.h"
/* one allocation, then one release, from every pool state: the free list head is an arbitrary block of the pool (or none)
   whose link is an arbitrary value; a second, live block is watched */
void vz_proof(void) {
    zpl_pool p, o; zpl_isize bs = vz_range(1, (int64_t)1 << 20), al = (zpl_isize)1 << vz_range(0, 12), st = zpl__pool_stride(bs, al), N = vz_range(8, (int64_t)1 << 30), h, l, x, q = vz_range(-1, (int64_t)1 << 20);
    uint8_t *mem = (uint8_t *)vz_malloc((size_t)N), *r, lv = 0; void *link = vz_u8() & 1 ? NULL : mem + vz_range(0, N - 8); uint64_t fl = vz_u8() & 1 ? ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO : 0;
    VZ_CHECK(st >= bs && st >= 8 && (st & (al - 1)) == 0 && st < (bs > 8 ? bs : 8) + al, "stride holds a block and a link and keeps the alignment");
    h = vz_range(0, (int64_t)1 << 30); l = vz_range(0, (int64_t)1 << 30); x = vz_range(0, (int64_t)1 << 20);
    VZ_ASSUME(h + st <= N && l + st <= N && (h + st <= l || l + st <= h) && x < bs);  /* free head at h, live block at l */
    p.backing = vz_allocator(); p.physical_start = mem; p.block_size = bs; p.block_align = al; p.num_blocks = vz_range(0, 1000); p.total_size = vz_range(0, (int64_t)1 << 40);
    p.free_list = vz_u8() & 1 ? NULL : mem + h;
    if (p.free_list) *(zpl_uintptr *)p.free_list = (zpl_uintptr)link;
    vz_t[0] = mem + l + x; vz_t[1] = vz_t[2] = vz_t[3] = NULL; vz_o = q; lv = mem[l + x]; o = p;
    r = (uint8_t *)zpl_pool_allocator_proc(&p, ZPL_ALLOCATION_ALLOC, bs, al, NULL, 0, fl);
    VZ_CHECK(r == (uint8_t *)o.free_list, "hands out the first free block, nothing when there is none");
    if (r) { VZ_CHECK(p.free_list == link && p.total_size == o.total_size + bs, "the block leaves the free list and is counted"); VZ_CHECK(!fl || q < 0 || q >= bs || r[q] == 0, "cleared"); VZ_REACH("alloc"); }
    else VZ_CHECK(p.free_list == NULL && p.total_size == o.total_size, "an exhausted pool stays as it was");
    VZ_CHECK(mem[l + x] == lv, "live blocks keep their contents");
    if (r) { zpl_pool m = p;
        VZ_CHECK(zpl_pool_allocator_proc(&p, ZPL_ALLOCATION_FREE, 0, 0, r, 0, 0) == NULL, "free returns nothing");
        VZ_CHECK(p.free_list == r && *(zpl_uintptr *)r == (zpl_uintptr)m.free_list && p.total_size == m.total_size - bs, "the freed block becomes the first free block, linked to the former one");
        VZ_CHECK(mem[l + x] == lv, "live blocks keep their contents on free"); VZ_REACH("free"); }
    { zpl_pool m = p; zpl_pool_allocator_proc(&p, ZPL_ALLOCATION_FREE, 0, 0, NULL, 0, 0); VZ_CHECK(p.free_list == m.free_list && p.total_size == m.total_size, "freeing nothing does nothing"); }
    VZ_CHECK(p.physical_start == mem && p.block_size == bs && p.block_align == al && p.num_blocks == o.num_blocks, "geometry unchanged");
    VZ_REACH("end");
}
#else
void vz_test(void) {
#ifdef U_empty
    zpl_pool p; int i; zpl_isize nb = vz_range(-2, 0); vz_nalloc = vz_nfree = 0; vz_fail = vz_u8() & 1; if (vz_fail) nb = vz_range(1, 10);
    zpl_pool_init_align(&p, vz_allocator(), nb < 0 ? 0 : nb, 16, 8);
    for (i = 0; i < 2; i++) { VZ_CHECK(zpl_alloc_align(zpl_pool_allocator(&p), 16, 8) == NULL, "no memory, no block"); zpl_free_all(zpl_pool_allocator(&p)); }
    VZ_CHECK(p.total_size == 0, "nothing in use");
#elif defined(U_init)
    zpl_pool p; int n = (int)vz_range(1, VZ_N), i, t; zpl_isize bs = vz_range(1, 40), al = (zpl_isize)1 << vz_range(0, 5), st = zpl__pool_stride(bs, al); uint8_t *b, *m;
    vz_fail = 0; vz_nalloc = vz_nfree = 0;
    zpl_pool_init_align(&p, vz_allocator(), n, bs, al); m = (uint8_t *)p.physical_start;
    VZ_CHECK(vz_last_size >= n * st && vz_last_align >= al && vz_nalloc == 1, "room for all blocks");
    for (t = 0; t < 2; t++) {
        VZ_CHECK(p.total_size == 0 && p.num_blocks == n && p.block_size == bs && p.block_align == al, "nothing in use");
        b = (uint8_t *)p.free_list;
        for (i = 0; i < n; i++) { VZ_CHECK(b == m + i * st, "block i starts at i strides"); b = (uint8_t *)*(zpl_uintptr *)b; }
        VZ_CHECK(b == NULL, "the list ends after the last block");
        VZ_CHECK(zpl_alloc_align(zpl_pool_allocator(&p), bs, al) == m && p.total_size == bs, "first block");
        zpl_free_all(zpl_pool_allocator(&p));
    }
    zpl_pool_free(&p); VZ_CHECK(vz_nfree == 1, "memory released");
#else
    zpl_pool p; int n = (int)vz_range(0, 9), i, j, k, c = 0; zpl_isize bs = vz_range(1, 70), al = (zpl_isize)1 << vz_range(0, 5); uint8_t *l[10]; uint8_t tag[10], cnt = 0; zpl_arena a; uint8_t *mem = (uint8_t *)vz_malloc(2048);
    zpl_arena_init_from_memory(&a, mem + vz_range(0, 31), 2000); zpl_pool_init_align(&p, zpl_arena_allocator(&a), n, bs, al);
    for (i = 0; i < 24; i++) { int op = vz_u8();
        if (op < 130) { uint8_t *r = (uint8_t *)zpl_alloc_align(zpl_pool_allocator(&p), bs, al);
            VZ_CHECK((r != NULL) == (c < n), "a block exactly while the capacity is not exhausted"); if (!r) continue;
            VZ_CHECK(((uint64_t)r & (uint64_t)(al - 1)) == 0, "aligned"); VZ_CHECK(r >= mem && r + bs <= (uint8_t *)a.physical_start + a.total_allocated, "inside");
            for (j = 0; j < c; j++) VZ_CHECK(r + bs <= l[j] || l[j] + bs <= r, "overlaps no live block");
            for (k = 0; k < bs; k++) VZ_CHECK(r[k] == 0, "cleared"); memset(r, ++cnt, (size_t)bs); l[c] = r; tag[c++] = cnt;
        } else if (op < 240) { if (!c) continue; j = (int)vz_range(0, c - 1); for (k = 0; k < bs; k++) VZ_CHECK(l[j][k] == tag[j], "contents kept"); zpl_free(zpl_pool_allocator(&p), l[j]); c--; l[j] = l[c]; tag[j] = tag[c]; }
        else { zpl_free_all(zpl_pool_allocator(&p)); c = 0; }
        VZ_CHECK(p.total_size == c * bs, "usage count");
    }
    for (j = 0; j < c; j++) for (k = 0; k < bs; k++) VZ_CHECK(l[j][k] == tag[j], "contents kept");
#endif
    VZ_REACH("end");
}
#endif
