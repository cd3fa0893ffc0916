//@unit ops_append kind=contract target=zpl_string_append_length,zpl_string_make_space_for,zpl_string_append calls=zpl_memcopy:vz_zmemcopy,zpl_memset:vz_zmemset,zpl_strlen:vz_strlen,zpl_utf8_encode_rune:vz_encode fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc,zpl_resize_align.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=6 def=OP=0
//@unit ops_set kind=contract target=zpl_string_set calls=zpl_memcopy:vz_zmemcopy,zpl_memset:vz_zmemset,zpl_strlen:vz_strlen,zpl_utf8_encode_rune:vz_encode fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc,zpl_resize_align.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=6 def=OP=1
//@unit ops_make kind=contract target=zpl_string_make_length,zpl_string_make_reserve,zpl_string_duplicate,zpl_string_make,zpl_string_clear,zpl_string_free calls=zpl_memcopy:vz_zmemcopy,zpl_memset:vz_zmemset,zpl_strlen:vz_strlen,zpl_utf8_encode_rune:vz_encode fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc,zpl_resize_align.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=6 def=OP=2
//@unit ops_rune kind=contract target=zpl_string_append_rune calls=zpl_memcopy:vz_zmemcopy,zpl_memset:vz_zmemset,zpl_strlen:vz_strlen,zpl_utf8_encode_rune:vz_encode fp=zpl_alloc_align.function_pointer_call.1/vz_proc,zpl_free.function_pointer_call.1/vz_proc,zpl_resize_align.function_pointer_call.1/vz_proc loops=0 standin=0 unwind=6 def=OP=3
#define VZ_HDR 4
#include "vz.h"
#ifdef VZ_PROOF
#include "contract_copy.h"
#if OP == 0 || OP == 3
#define R0(x) VZ_REACH(x)
#else
#define R0(x)
#endif
#if OP == 1
#define R1(x) VZ_REACH(x)
#else
#define R1(x)
#endif
#if OP == 2
#define R2(x) VZ_REACH(x)
#else
#define R2(x)
#endif
#define MAXC ((int64_t)1 << 30)
int vz_pf, vz_pfree, vz_palloc; void *vz_plast; zpl_isize vz_psize; int64_t vz_ro; zpl_isize vz_tl; char const *vz_tx;
/* the backing allocator: RESIZE keeps the first min(old,new) bytes (property A05), stated for the header and one arbitrary byte */
ZPL_ALLOCATOR_PROC(vz_proc) {
    uint8_t *n; (void)allocator_data; (void)flags; (void)alignment;
    if (type == ZPL_ALLOCATION_FREE) { vz_pfree++; vz_plast = old_memory; return NULL; }
    VZ_CHECK(size >= 0, "well-formed request"); vz_palloc++; vz_psize = size; if (vz_pf) return NULL;
    n = (uint8_t *)vz_malloc((size_t)size);
    if (type == ZPL_ALLOCATION_RESIZE) { VZ_CHECK(old_memory == vz_h && __CPROVER_r_ok(old_memory, old_size) && old_size >= 32 && size >= 32, "resizes its own block"); *(struct vz_hdr *)n = *vz_h;
        VZ_ASSUME(vz_ro < 0 || vz_ro >= old_size || vz_ro >= size || n[vz_ro] == ((uint8_t *)old_memory)[vz_ro]); vz_pfree++; vz_plast = old_memory; vz_t[0] = vz_ro >= 0 && vz_ro < size ? n + vz_ro : NULL; }
    vz_h = (struct vz_hdr *)n; return n;
}
/* zpl_strlen of the given text (property S02) */
zpl_isize vz_strlen(char const *s) { if (!s) return 0; VZ_CHECK(s == vz_tx, "length of the given text"); return vz_tl; }
/* zpl_utf8_encode_rune (property U01): 1..4 bytes */
uint8_t vz_e[4]; zpl_isize vz_ew; zpl_isize vz_encode(zpl_u8 *b, zpl_rune r) { int k; (void)r; VZ_CHECK(__CPROVER_w_ok(b, 4), "room for a rune"); for (k = 0; k < 4; k++) b[k] = vz_e[k]; return vz_ew; }
void vz_proof(void) {
    zpl_isize C = vz_range(0, MAXC), L = vz_range(0, MAXC), m = vz_range(0, MAXC), q = vz_range(0, 3 * MAXC), n2; uint8_t *blk, *t, w = 0, wt = 0; zpl_string s, r; int f, op = OP, sub = vz_u8() & 7; zpl_string_header *h;
    f = vz_pf = vz_u8() & 1; vz_pfree = vz_palloc = 0; vz_plast = NULL; vz_t[0] = vz_t[1] = vz_t[2] = vz_t[3] = NULL; vz_o = -1; vz_ro = -1; VZ_ASSUME(L <= C);
    blk = (uint8_t *)vz_malloc((size_t)(33 + C)); h = (zpl_string_header *)blk; vz_h = (struct vz_hdr *)blk; s = (zpl_string)(h + 1); h->allocator.proc = vz_proc; h->allocator.data = NULL; h->length = L; h->capacity = C; s[L] = 0;
    t = (uint8_t *)vz_malloc((size_t)m + 1); vz_tx = (char *)t; vz_tl = m; t[m] = 0;
    if (q <= C) { w = (uint8_t)s[q]; vz_t[0] = (uint8_t *)s + q; } vz_ro = 32 + q;
    if (op == 3) { vz_ew = vz_range(1, 4); m = vz_ew; for (int k = 0; k < 4; k++) vz_e[k] = vz_u8(); }
    if (op == 0 || op == 3) { /* append: r = s ++ t */
        int space = op == 0 && (sub & 1); zpl_rune ru = (zpl_rune)vz_u32(); n2 = space || (op == 3 && ru < 0) ? L : L + m;
        if (q >= L && q < L + m) wt = op == 3 ? vz_e[q - L] : t[q - L];
        r = op == 3 ? zpl_string_append_rune(s, ru) : space ? zpl_string_make_space_for(s, m) : zpl_string_append_length(s, t, m);
        if (r == NULL) { VZ_CHECK(f && L + m > C && vz_pfree == 0, "nothing only when memory is missing"); VZ_CHECK(h->length == L && h->capacity == C && (q > C || (uint8_t)s[q] == w), "the string is unchanged"); R0("failed"); }
        else { VZ_CHECK(zpl_string_length(r) == n2 && zpl_string_capacity(r) >= n2 && ((space && q != L) || r[n2] == 0), "length, capacity, terminator"); VZ_CHECK(!space || zpl_string_available_space(r) >= m, "space made");
            VZ_CHECK(q >= L || (uint8_t)r[q] == w, "old content kept"); VZ_CHECK(!(n2 > L && q >= L && q < n2) || (uint8_t)r[q] == wt, "new content appended"); VZ_CHECK(ZPL_STRING_HEADER(r)->allocator.proc == vz_proc, "allocator kept");
            VZ_CHECK(r == s || vz_psize == 33 + zpl_string_capacity(r), "the capacity is really there"); if (r != s) { VZ_CHECK(vz_plast == (void *)h, "old block resized"); R0("grown"); } else VZ_CHECK(vz_pfree == 0 && zpl_string_capacity(r) == C, "in place"); }
    } else if (op == 1) {
        uint8_t tq = q < m ? t[q] : 0; vz_ro = -1; vz_t[0] = NULL; vz_o = q < m ? q : -1;
        if (f && m > C && q <= C) vz_t[0] = (uint8_t *)s + q;
        r = zpl_string_set(s, (char *)t);
        if (r == NULL) { VZ_CHECK(f && m > C && vz_pfree == 0 && h->length == L && h->capacity == C && (q > C || (uint8_t)s[q] == w), "on failure unchanged"); R1("failed"); }
        else { VZ_CHECK(zpl_string_length(r) == m && zpl_string_capacity(r) >= m && r[m] == 0 && (q >= m || (uint8_t)r[q] == tq), "holds exactly the text"); VZ_CHECK(r == s || vz_psize == 33 + zpl_string_capacity(r), "the capacity is really there"); R1("set"); }
    } else {
        zpl_allocator A; uint8_t tq = q < m ? t[q] : 0; zpl_isize want = m; A.proc = vz_proc; A.data = NULL; vz_t[0] = NULL;
        if (sub == 5) { zpl_string_clear(s); VZ_CHECK(zpl_string_length(s) == 0 && s[0] == 0 && zpl_string_capacity(s) == C && vz_palloc == 0, "cleared"); zpl_string_free(s); VZ_CHECK(vz_pfree == 1 && vz_plast == (void *)blk, "released"); zpl_string_free(NULL); VZ_CHECK(vz_pfree == 1, "nothing to release"); VZ_CHECK(zpl_string_allocation_size(s) == 32 + C, "allocation size"); R2("cleared"); return; }
        vz_o = sub == 3 ? 32 + (q <= m ? q : 0) : q < (sub == 2 ? L : m) ? q : -1; if (sub == 2) { vz_o = q < L ? q : -1; tq = q < L ? w : 0; want = L; vz_t[1] = q <= C ? (uint8_t *)s + q : NULL; } if (sub == 4) vz_o = 32 + (q <= m ? q : 0);
        r = sub == 2 ? zpl_string_duplicate(A, s) : sub == 3 ? zpl_string_make_reserve(A, m) : sub == 4 ? zpl_string_make_length(A, NULL, m) : sub == 1 ? zpl_string_make(A, (char *)t) : zpl_string_make_length(A, t, m);
        VZ_CHECK((r == NULL) == f, "nothing exactly when memory is missing");
        if (r) { VZ_CHECK(zpl_string_length(r) == (sub == 3 ? 0 : want) && zpl_string_capacity(r) == want && vz_psize == 33 + want && ZPL_STRING_HEADER(r)->allocator.proc == vz_proc, "header");
            VZ_CHECK(r[want] == 0, "terminated"); if (q < want) VZ_CHECK((uint8_t)r[q] == (sub == 3 || sub == 4 ? 0 : tq), "content"); if (sub == 3) VZ_CHECK(q >= want || r[q] == 0, "empty"); R2("made"); }
        VZ_CHECK(h->length == L && h->capacity == C && (q > C || sub != 2 || (uint8_t)s[q] == w), "other strings unchanged");
    }
    VZ_REACH("end");
}
#endif
