//@unit clear2 kind=bounded about="clear on every consistent table, looked up through every key before and after" n=2 bound="2 buckets, up to 2 entries, arbitrary 64-bit keys" unwind=9 unwindset=tb__find.0:4,tb_slot.0:4 def=H=2,OP=3 calls=zpl_memmove:vz_emove,tb_grow:vz_grow fp=zpl_alloc_align.function_pointer_call.1/vz_tp,zpl_free.function_pointer_call.1/vz_tp
//@unit relink2 kind=bounded about="relink on every consistent table, looked up through every key before and after" n=2 bound="2 buckets, up to 2 entries, arbitrary 64-bit keys" unwind=9 unwindset=tb__find.0:4,tb_slot.0:4 def=H=2,OP=5 calls=zpl_memmove:vz_emove,tb_grow:vz_grow fp=zpl_alloc_align.function_pointer_call.1/vz_tp,zpl_free.function_pointer_call.1/vz_tp
//@unit clear4 kind=bounded about="clear on every consistent table, looked up through every key before and after" n=2 bound="4 buckets, up to 2 entries, arbitrary 64-bit keys" unwind=9 unwindset=tb__find.0:4,tb_slot.0:4 def=H=4,OP=3 calls=zpl_memmove:vz_emove,tb_grow:vz_grow fp=zpl_alloc_align.function_pointer_call.1/vz_tp,zpl_free.function_pointer_call.1/vz_tp
//@unit relink4 kind=bounded about="relink on every consistent table, looked up through every key before and after" n=2 bound="4 buckets, up to 2 entries, arbitrary 64-bit keys" unwind=9 unwindset=tb__find.0:4,tb_slot.0:4 def=H=4,OP=5 calls=zpl_memmove:vz_emove,tb_grow:vz_grow fp=zpl_alloc_align.function_pointer_call.1/vz_tp,zpl_free.function_pointer_call.1/vz_tp
//@unit history kind=search about="operation histories against a finite map" search=25 maxlen=600 bound="native search, up to 60 operations, keys from a small colliding set and arbitrary ones" def=H=1
#define VZ_BLK 400
#include "vz.h"
ZPL_TABLE(extern, Tb, tb_, int)
/* the two arrays of a table, as typed objects */
static struct { zpl_array_header h; zpl_isize v[8]; } HB, HB2; static struct { zpl_array_header h; TbEntry e[8]; } EB, EB2; static int vz_tfree;
static ZPL_ALLOCATOR_PROC(vz_tp) { (void)allocator_data; (void)old_size; (void)flags; (void)alignment;
    if (type == ZPL_ALLOCATION_FREE) { VZ_CHECK(old_memory == &HB || old_memory == &EB, "releases the old arrays"); vz_tfree++; return NULL; }
    VZ_CHECK(type == ZPL_ALLOCATION_ALLOC && (size == sizeof HB2 || size == sizeof EB2), "allocates arrays of default capacity"); return size == sizeof HB2 ? (void *)&HB2 : (void *)&EB2; }
int vz_grown; void vz_grow(Tb *h) { vz_grown++; (void)h; }
#ifdef VZ_CBMC
/* zpl_memmove (property M01) for entries of a small table */
void *vz_emove(void *d, void const *s, zpl_isize n) { TbEntry w[4]; int i; VZ_CHECK(n >= 0 && n % (zpl_isize)sizeof(TbEntry) == 0 && n <= 4 * (zpl_isize)sizeof(TbEntry), "whole entries"); for (i = 0; i < 4; i++) if (i < n / (zpl_isize)sizeof(TbEntry)) w[i] = ((TbEntry const *)s)[i]; for (i = 0; i < 4; i++) if (i < n / (zpl_isize)sizeof(TbEntry)) ((TbEntry *)d)[i] = w[i]; return d; }
#endif
#ifndef VZ_PROOF
static uint64_t sk[80]; static int sv[80], sn;
static void visit(zpl_u64 k, int v) { int i; for (i = 0; i < sn; i++) if (sk[i] == k) { VZ_CHECK(sv[i] == v, "visited value"); sv[i] = -99999; return; } VZ_CHECK(0, "visits only live entries, once each"); }
void vz_test(void) {
#ifdef OP
    Tb t = {0}; uint64_t k[4], key = vz_u64(), probe = vz_u64(); int v[4], n = (int)vz_range(0, VZ_N), i, j, val = (int)vz_u32(), in = -1, want, has; int *r;
    vz_tfree = vz_grown = 0; HB.h.allocator.proc = EB.h.allocator.proc = vz_tp; HB.h.elem_size = 8; EB.h.elem_size = sizeof(TbEntry); HB.h.capacity = EB.h.capacity = 8; t.hashes = HB.v; t.entries = EB.e; zpl_array_count(t.hashes) = H; zpl_array_count(t.entries) = n;
    /* a consistent table: distinct keys, bucket heads and next links chain exactly the entries of each bucket, in an arbitrary order */
    for (i = 0; i < VZ_N; i++) { k[i] = vz_u64(); v[i] = (int)vz_u32(); }
    { int pos[4]; /* place of each entry in the overall visiting order: entries of a bucket are chained by increasing place */
      for (i = 0; i < VZ_N; i++) pos[i] = (int)vz_range(0, 7);
      for (i = 0; i < VZ_N; i++) for (j = 0; j < i; j++) if (i < n) VZ_ASSUME(k[i] != k[j] && pos[i] != pos[j]);
      for (i = 0; i < VZ_N; i++) if (i < n) { int nx = -1; for (j = 0; j < VZ_N; j++) if (j < n && k[j] % H == k[i] % H && pos[j] > pos[i] && (nx < 0 || pos[j] < pos[nx])) nx = j; t.entries[i].key = k[i]; t.entries[i].value = v[i]; t.entries[i].next = nx; }
      for (i = 0; i < H; i++) { int hd = -1; for (j = 0; j < VZ_N; j++) if (j < n && k[j] % H == (uint64_t)i && (hd < 0 || pos[j] < pos[hd])) hd = j; t.hashes[i] = hd; } }
    for (i = 0; i < VZ_N; i++) if (i < n && k[i] == key) in = i;
    r = tb_get(&t, key); VZ_CHECK((r != NULL) == (in >= 0) && (!r || *r == v[in]), "lookup yields the value set, and nothing for an absent key"); VZ_CHECK(tb_slot(&t, key) == in, "slot");
    has = 0; want = 0; for (i = 0; i < VZ_N; i++) if (i < n && k[i] == probe) { has = 1; want = v[i]; }
    switch (OP) {
    case 0: case 1: tb_set(&t, key, val); if (probe == key) { has = 1; want = val; } VZ_CHECK(zpl_array_count(t.entries) == n + (in < 0), "one entry per key"); VZ_NATIVE_ONLY(break;) VZ_CHECK((vz_grown > 0) == (4 * (n + (in < 0)) > 3 * H), "grows exactly when more than three quarters full"); break;
    case 2: tb_remove(&t, key); if (probe == key) has = 0; VZ_CHECK(zpl_array_count(t.entries) == n - (in >= 0), "one entry less"); break;
    case 3: tb_clear(&t); has = 0; VZ_CHECK(zpl_array_count(t.entries) == 0, "empty"); break;
    case 4: tb_rehash(&t, 3); VZ_CHECK(vz_tfree == 2 && zpl_array_count(t.hashes) == 3, "old arrays released"); VZ_CHECK(zpl_array_count(t.entries) == n, "same entries"); break;
    default: tb_rehash_fast(&t); VZ_CHECK(zpl_array_count(t.entries) == n, "same entries"); break; }
    r = tb_get(&t, probe); VZ_CHECK((r != NULL) == has && (!r || *r == want), "every key afterwards: the value set for it, and nothing for an absent key");
#else
    Tb t; int st, i, j; static uint64_t mk[80]; static int mv[80]; int n = 0; vz_fail = 0; tb_init(&t, vz_allocator());
    for (st = 0; st < 60; st++) { int op = vz_u8(), val = vz_u8(); uint64_t key = op & 1 ? (uint64_t)(vz_u8() % 24) : op & 2 ? (uint64_t)(vz_u8() % 6) * 8 : vz_u64(); int *r, f = -1;
        if ((op & 64) && n) key = mk[vz_u8() % n];
        for (i = 0; i < n; i++) if (mk[i] == key) f = i;
        switch ((op >> 2) % 10) {
        case 0: case 1: case 2: case 3: tb_set(&t, key, val); if (f >= 0) mv[f] = val; else { mk[n] = key; mv[n++] = val; } break;
        case 4: case 5: case 6: tb_remove(&t, key); if (f >= 0) { for (j = f; j < n - 1; j++) { mk[j] = mk[j + 1]; mv[j] = mv[j + 1]; } n--; } break;
        case 7: if (val < 16) { tb_clear(&t); n = 0; } break;
        case 8: tb_rehash(&t, val % 20); break;
        default: if (val & 1) tb_grow(&t); else tb_rehash_fast(&t); break; }
        VZ_CHECK(zpl_array_count(t.entries) == n, "one entry per key");
        for (i = 0; i < n; i++) { r = tb_get(&t, mk[i]); VZ_CHECK(r && *r == mv[i], "value set last"); }
        { int p = 0; for (i = 0; i < n; i++) if (mk[i] == key) p = 1; VZ_CHECK((tb_get(&t, key) != NULL) == p, "absent keys"); VZ_CHECK((tb_slot(&t, key) >= 0) == p, "slot"); for (i = 0; i < n && mk[i] != key + 1; i++) ; VZ_CHECK((tb_get(&t, key + 1) != NULL) == (i < n), "neighbour key"); }
    }
    sn = n; for (i = 0; i < n; i++) { sk[i] = mk[i]; sv[i] = mv[i]; } tb_map(&t, visit); for (i = 0; i < n; i++) VZ_CHECK(sv[i] == -99999, "every live entry is visited");
    tb_destroy(&t);
#endif
    VZ_REACH("end");
}
#endif
