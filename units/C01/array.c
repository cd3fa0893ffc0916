//@unit setcap8 kind=contract target=zpl__array_set_capacity calls=zpl_memmove:vz_zmemmove fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=8,SETCAP,OP=0
//@unit setcap12 kind=contract target=zpl__array_set_capacity calls=zpl_memmove:vz_zmemmove fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=12,SETCAP,OP=0 tier=thorough
//@unit append8 kind=contract target=zpl__array_append_helper,zpl__array_grow calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=8,OP=0
//@unit append_at1 kind=contract target=zpl__array_append_at_helper calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=1,OP=1
//@unit appendv1 kind=contract target=zpl__array_appendv calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=1,OP=2
//@unit remove_at1 kind=contract calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=1,OP=4
//@unit resize8 kind=contract target=zpl__array_resize calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=8,OP=5
//@unit reserve1 kind=contract target=zpl__array_reserve calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=1,OP=6
//@unit grow1 kind=contract target=zpl__array_grow calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=1,OP=7
//@unit copy1 kind=contract target=zpl__array_copy_init calls=zpl_memmove:vz_zmemmove,zpl_memcopy:vz_zmemcopy,zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc loops=0 unwind=14 solver=cadical standin=0 def=ES=1,OP=8
//@unit init kind=contract target=zpl__array_init_reserve calls=zpl__array_set_capacity:vz_set_capacity fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=5 def=ES=4,OP=0
//@unit fill kind=bounded about="fill of an index range" n=6 bound="up to 6 items" unwind=8 def=ES=4
//@unit history kind=search about="operation histories with injected allocation failures against a sequence model" search=20 maxlen=400 bound="native search, histories up to 25 operations, item sizes 1, 4, 12" def=ES=4
#define VZ_HDR 5
#include "vz.h"
typedef struct { uint8_t b[ES]; } T;
#ifdef VZ_PROOF
#include "contract_copy.h"
#if OP == 4 || OP == 8
#define VZ_GROWN ;
#define VZ_FAILED ;
#else
#define VZ_GROWN VZ_REACH("grown");
#define VZ_FAILED VZ_REACH("failed");
#endif
#define MAXC ((int64_t)1 << 30)
int vz_pf, vz_pfree, vz_palloc; void *vz_plast, *vz_pnew; zpl_isize vz_psize;
ZPL_ALLOCATOR_PROC(vz_proc) {
    (void)allocator_data; (void)old_size; (void)flags; (void)alignment;
    if (type == ZPL_ALLOCATION_FREE) { vz_pfree++; vz_plast = old_memory; free(old_memory); return NULL; }
    VZ_CHECK(type == ZPL_ALLOCATION_ALLOC && size >= 0, "well-formed request");
    vz_palloc++; vz_psize = size; if (vz_pf) return NULL;
    vz_pnew = vz_malloc((size_t)size);
#if OP == 8
    vz_h = (struct vz_hdr *)vz_pnew;
#endif
    return vz_pnew;
}
static T *mk(zpl_isize cap, zpl_isize count) {
    zpl_array_header *h = (zpl_array_header *)vz_malloc((size_t)(40 + cap * ES)); h->elem_size = ES; h->count = count; h->capacity = cap; h->allocator.proc = vz_proc; h->allocator.data = NULL; return (T *)(h + 1); }
/* contract of zpl__array_set_capacity (proved by the setcap units): on success a block of the new capacity, all items that fit kept; on failure nothing changes */
zpl_isize vz_c[2]; int vz_caps; /* indices of the items watched */ int vz_bj;
zpl_b8 vz_set_capacity(void **array, zpl_isize capacity) {
    T *o = (T *)*array, *n; int k; zpl_isize cnt = zpl_array_count(o); vz_caps++; VZ_CHECK(capacity >= 0, "capacity is not negative");
    if (capacity == zpl_array_capacity(o)) return true;
    if (vz_pf) return false;
    if (capacity < cnt) cnt = capacity;
    VZ_ASSUME(capacity <= MAXC * 4); n = mk(capacity, cnt);
    for (k = 0; k < 2; k++) if (vz_c[k] >= 0 && vz_c[k] < cnt) VZ_ASSUME(n[vz_c[k]].b[vz_bj] == o[vz_c[k]].b[vz_bj]);
    *array = n; vz_h = (struct vz_hdr *)ZPL_ARRAY_HEADER(n);
    vz_t[0] = vz_c[0] < capacity ? &n[vz_c[0]].b[vz_bj] : NULL;
    return true;
}
#ifdef U_init
void vz_proof(void) {
    zpl_isize c = vz_range(0, (int64_t)1 << 20); T *x = NULL; int f; zpl_allocator A; vz_pfree = vz_palloc = 0; f = vz_pf = vz_u8() & 1; vz_h = NULL; vz_t[0] = vz_t[1] = vz_t[2] = vz_t[3] = NULL; A.proc = vz_proc; A.data = NULL;
    VZ_CHECK(zpl_array_init_reserve(x, A, c) == !f, "creation reports failure");
    if (f) VZ_CHECK(x == NULL, "nothing on failure"); else { zpl_isize n = vz_range(0, (int64_t)1 << 20);
        VZ_CHECK(zpl_array_count(x) == 0 && zpl_array_capacity(x) == c && zpl_array_elem_size(x) == ES && zpl_array_allocator(x).proc == vz_proc && vz_psize == 40 + c * ES, "fresh array");
        VZ_ASSUME(n <= c && n > 0); zpl_array_resize(x, n); x[n - 1].b[0] = 7; x[0].b[1] = 9; VZ_CHECK(zpl_array_back(x).b[0] == 7 && zpl_array_front(x).b[1] == 9 && zpl_array_end(x) == x + n - 1, "front and back");
        zpl_array_pop(x); VZ_CHECK(zpl_array_count(x) == n - 1 && zpl_array_capacity(x) == c, "pop"); zpl_array_clear(x); VZ_CHECK(zpl_array_count(x) == 0 && zpl_array_capacity(x) == c, "clear"); zpl_array_free(x); VZ_CHECK(vz_pfree == 1, "released"); VZ_REACH("made"); }
    VZ_REACH("end");
}
#else
void vz_proof(void) {
    zpl_isize cap = vz_range(0, MAXC), n = vz_range(0, MAXC), i = vz_range(0, 3 * MAXC), m = i, r, n2, ind = 0, k = 0; int op = OP, s; T *x, *o, it, *items = NULL; uint8_t w = 0;
    vz_pf = vz_u8() & 1; vz_pfree = vz_palloc = vz_caps = 0; vz_bj = (int)vz_range(0, ES - 1); VZ_ASSUME(n <= cap); x = o = mk(cap, n); vz_h = (struct vz_hdr *)ZPL_ARRAY_HEADER(x);
    vz_t[0] = vz_t[1] = vz_t[2] = vz_t[3] = NULL; vz_o = -1; for (s = 0; s < ES; s++) it.b[s] = vz_u8();
#ifdef SETCAP
    { zpl_isize c2 = vz_range(0, 4 * MAXC); uint64_t *hw = (uint64_t *)vz_h; VZ_ASSUME(i < n); w = x[i].b[vz_bj]; vz_t[0] = &x[i].b[vz_bj]; vz_o = 40 + i * ES + vz_bj;
      r = zpl_array_set_capacity(x, c2);
      if (!r) { VZ_CHECK(x == o && zpl_array_count(x) == n && zpl_array_capacity(x) == cap && vz_pf && vz_pfree == 0 && x[i].b[vz_bj] == w, "on failure the array keeps its items"); VZ_REACH("failed"); }
      else { VZ_CHECK(zpl_array_capacity(x) == c2 && zpl_array_count(x) == (n < c2 ? n : c2) && zpl_array_elem_size(x) == ES && zpl_array_allocator(x).proc == vz_proc, "header");
        VZ_CHECK(i >= c2 || x[i].b[vz_bj] == w, "items kept"); if (c2 != cap) { VZ_CHECK(vz_psize == 40 + c2 * ES && vz_pfree == 1 && vz_plast == (void *)ZPL_ARRAY_HEADER(o), "block of the right size, old block released"); VZ_REACH("moved"); } else VZ_CHECK(x == o, "no change, no work"); } (void)hw; }
#else
    /* item i of the result comes from item m of the array, from items[m], or is the given item */
    n2 = n; s = 0;
    switch (op) {
    case 0: n2 = n + 1; if (i == n) s = 1; break;                                                        /* append */
    case 1: ind = vz_range(0, MAXC); VZ_ASSUME(ind <= n); n2 = n + 1; if (i == ind) s = 1; else if (i > ind) m = i - 1; break;   /* append_at */
    case 2: k = vz_range(0, MAXC); n2 = n + k; if (i >= n) { s = 2; m = i - n; } break;                  /* appendv */
    case 3: k = vz_range(0, MAXC); ind = vz_range(0, 2 * MAXC); n2 = n + k; { zpl_isize d = ind < n ? ind : n; if (i >= d + k) m = i - k; else if (i >= d) { s = 2; m = i - d; } } break;   /* appendv_at */
    case 4: VZ_ASSUME(n > 0); ind = vz_range(0, MAXC); VZ_ASSUME(ind < n); n2 = n - 1; if (i >= ind) m = i + 1; break;   /* remove_at */
    case 5: n2 = vz_range(0, 2 * MAXC); break;                                                           /* resize */
    default: break;
    }
    VZ_ASSUME(i < n2);
    if (k) items = (T *)vz_malloc((size_t)(k * ES));
    if (s == 1) w = it.b[vz_bj]; else if (s == 2) w = items[m].b[vz_bj]; else if (m < n) w = x[m].b[vz_bj];
    vz_c[0] = i; vz_c[1] = m; vz_t[0] = i < cap ? &x[i].b[vz_bj] : NULL;
    if (s == 2) vz_c[1] = -1;
    switch (op) {
    case 0: r = zpl_array_append(x, it); break;
    case 1: r = zpl_array_append_at(x, it, ind); break;
    case 2: r = zpl_array_appendv(x, items, k); break;
    case 3: r = zpl_array_appendv_at(x, items, k, ind); break;
    case 4: r = 1; zpl_array_remove_at(x, ind); break;
    case 5: r = zpl_array_resize(x, n2); break;
    case 6: { zpl_isize c = vz_range(0, MAXC); r = zpl_array_reserve(x, c); VZ_CHECK(!r || (zpl_array_capacity(x) >= c && zpl_array_capacity(x) >= cap), "reserve never shrinks"); } break;
    case 7: { zpl_isize c = vz_range(0, MAXC); VZ_ASSUME(c >= cap); r = zpl_array_grow(x, c); VZ_CHECK(!r || (zpl_array_capacity(x) >= c && zpl_array_capacity(x) > cap), "grow"); } break;
    default: { T *y = NULL; vz_o = m * ES + vz_bj; r = zpl_array_copy_init(y, x); VZ_CHECK(!r == vz_pf, "fails only without memory");
        if (r) { VZ_CHECK(zpl_array_count(y) == n && zpl_array_capacity(y) == cap && zpl_array_elem_size(y) == ES && vz_psize == 40 + cap * ES && zpl_array_allocator(y).proc == vz_proc, "copy header"); VZ_CHECK(y[m].b[vz_bj] == w, "copied item"); VZ_CHECK(y != x, "independent"); }
        VZ_CHECK(x == o && zpl_array_count(x) == n, "source unchanged"); } break;
    }
    if (r) { VZ_CHECK(zpl_array_count(x) == n2, "count of the result"); VZ_CHECK(zpl_array_capacity(x) >= n2, "capacity never below the count"); VZ_CHECK(zpl_array_elem_size(x) == ES && zpl_array_allocator(x).proc == vz_proc, "header kept");
        if (op != 5 || i < n) VZ_CHECK(x[i].b[vz_bj] == w, "item of the result"); if (vz_caps) VZ_GROWN else VZ_CHECK(x == o, "in place"); }
    else { VZ_CHECK(vz_pf, "fails only without memory"); VZ_CHECK(x == o && zpl_array_count(x) == n && zpl_array_capacity(x) == cap, "on failure the array is as before"); if (m < n && s == 0) VZ_CHECK(x[m].b[vz_bj] == w, "on failure the array keeps its items"); VZ_FAILED }
    #if OP == 1 || OP == 3
    if (ind < n && vz_caps == 0) VZ_REACH("inserted in place");
#endif
#endif
    VZ_REACH("end");
}
#endif
#else
static uint32_t ref[400]; static int rn;
#ifndef VZ_CBMC
#define OPS(TY, NAME) static void NAME(void) { TY *x = NULL, *y; int i, j, st; rn = 0; vz_fail = 0; \
    zpl_array_init_reserve(x, vz_allocator(), vz_range(0, 5)); VZ_CHECK(zpl_array_elem_size(x) == (int)sizeof(TY), "element size"); \
    for (st = 0; st < 25; st++) { int op = vz_u8() % 13, r = 1, k = vz_u8() % 5, ind; TY it, items[5]; uint32_t v[5]; int cap = (int)zpl_array_capacity(x); \
        memset(&it, 0, sizeof it); memset(items, 0, sizeof items); for (i = 0; i < 5; i++) { v[i] = vz_u8(); memcpy(&items[i], &v[i], sizeof(TY) < 4 ? sizeof(TY) : 4); } it = items[0]; \
        vz_fail = vz_u8() % 4 == 0; if (rn > 150) op = 5; ind = rn ? (int)(vz_u8() % (rn + 1)) : 0; \
        switch (op) { \
        case 0: r = zpl_array_append(x, it); if (r) ref[rn++] = v[0]; break; \
        case 1: r = zpl_array_append_at(x, it, ind); if (r) { for (i = rn; i > ind; i--) ref[i] = ref[i - 1]; ref[ind] = v[0]; rn++; } break; \
        case 2: r = zpl_array_appendv(x, items, k); if (r) for (i = 0; i < k; i++) ref[rn++] = v[i]; break; \
        case 3: r = zpl_array_appendv_at(x, items, k, ind); if (r) { for (i = rn - 1; i >= ind; i--) ref[i + k] = ref[i]; for (i = 0; i < k; i++) ref[ind + i] = v[i]; rn += k; } break; \
        case 4: if (ind < rn) { zpl_array_remove_at(x, ind); for (i = ind; i < rn - 1; i++) ref[i] = ref[i + 1]; rn--; } break; \
        case 5: if (rn) { TY bk = zpl_array_back(x); uint32_t bv = 0; memcpy(&bv, &bk, sizeof(TY) < 4 ? sizeof(TY) : 4); VZ_CHECK(bv == ref[rn - 1], "back"); VZ_CHECK(zpl_array_end(x) == &x[rn - 1], "end"); zpl_array_pop(x); rn--; } break; \
        case 6: k = vz_u8() % 20; r = zpl_array_set_capacity(x, k); if (r) { if (k < rn) rn = k; VZ_CHECK(zpl_array_capacity(x) == k, "capacity"); } break; \
        case 7: k = vz_u8() % 30; r = zpl_array_reserve(x, k); if (r) VZ_CHECK(zpl_array_capacity(x) >= k, "reserved"); break; \
        case 8: if (vz_u8() % 4 == 0) { zpl_array_clear(x); rn = 0; } break; \
        case 9: k = rn ? vz_u8() % (rn + 1) : 0; r = zpl_array_resize(x, k); if (r) rn = k; break; \
        case 10: { int e = rn ? vz_u8() % (rn + 1) : 0; j = e ? vz_u8() % (e + 1) : 0; zpl_array_fill(x, j, e, it); for (; j < e; j++) ref[j] = v[0]; } break; \
        case 11: y = NULL; r = zpl_array_copy_init(y, x); if (r) { VZ_CHECK(zpl_array_count(y) == rn, "copy count"); zpl_array_free(x); x = y; } break; \
        case 12: k = rn + vz_u8() % 3; j = rn; r = zpl_array_resize(x, k); if (r) { TY z; memset(&z, 0, sizeof z); for (; j < k; j++) { x[j] = z; ref[j] = 0; } rn = k; } break; } \
        if (!r) VZ_CHECK(zpl_array_capacity(x) == cap, "failure changes nothing"); \
        VZ_CHECK(zpl_array_count(x) == rn && zpl_array_capacity(x) >= rn, "count and capacity"); \
        for (i = 0; i < rn; i++) { uint32_t w = 0; memcpy(&w, &x[i], sizeof(TY) < 4 ? sizeof(TY) : 4); VZ_CHECK(w == ref[i], "item"); } } \
    zpl_array_free(x); }
typedef struct { uint32_t v; uint32_t p[2]; } T12;
OPS(uint8_t, ops_1)
OPS(uint32_t, ops_4)
OPS(T12, ops_12)
#endif
void vz_test(void) {
#ifdef U_fill
    T *x = NULL, v, o[VZ_N]; int i, b, e; vz_fail = 0; zpl_array_init_reserve(x, vz_allocator(), VZ_N); zpl_array_resize(x, VZ_N);
    for (i = 0; i < VZ_N; i++) { x[i].b[0] = vz_u8(); x[i].b[3] = vz_u8(); x[i].b[1] = x[i].b[2] = 0; o[i] = x[i]; } v.b[0] = vz_u8(); v.b[3] = 1; v.b[1] = v.b[2] = 0;
    e = (int)vz_range(0, VZ_N); b = (int)vz_range(0, VZ_N); zpl_array_fill(x, b, e, v);
    for (i = 0; i < VZ_N; i++) if (i >= b && i < e) VZ_CHECK(x[i].b[0] == v.b[0] && x[i].b[3] == 1, "filled"); else VZ_CHECK(x[i].b[0] == o[i].b[0] && x[i].b[3] == o[i].b[3], "others unchanged");
#else
    VZ_NATIVE_ONLY(switch (vz_u8() % 3) { case 0: ops_1(); break; case 1: ops_4(); break; default: ops_12(); })
#endif
    VZ_REACH("end");
}
#endif
