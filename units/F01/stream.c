//@unit read kind=contract target=zpl__memory_file_read calls=zpl_memcopy:vz_zmemcopy loops=0 standin=0 unwind=6 def=OP=0
//@unit write kind=contract target=zpl__memory_file_write calls=zpl_memcopy:vz_zmemcopy,zpl_memset:vz_zmemset,zpl__array_grow:vz_grow loops=0 standin=0 unwind=6 def=OP=1
//@unit write_own kind=contract target=zpl__memory_file_write calls=zpl_memcopy:vz_lcopy,zpl_memset:vz_lset,zpl__array_grow:vz_grow loops=0 standin=0 unwind=6 def=OP=2
//@unit seek kind=contract target=zpl__memory_file_seek,zpl_file_seek,zpl_file_seek_to_end,zpl_file_skip,zpl_file_tell,zpl_file_size fp=zpl_file_seek.function_pointer_call.1/zpl__memory_file_seek,zpl_file_seek_to_end.function_pointer_call.1/zpl__memory_file_seek,zpl_file_skip.function_pointer_call.1/zpl__memory_file_seek,zpl_file_tell.function_pointer_call.1/zpl__memory_file_seek loops=0 standin=0 unwind=6 def=OP=3
//@unit hist kind=search search=30 maxlen=500 bound="40 operations on streams of up to 200 bytes" about="every operation on every kind of stream against a byte sequence; allocation failures"
#include <stdint.h>
#define VZ_HDR 5
#include "vz.h"
#ifdef VZ_CBMC
#include "contract_copy.h"
static zpl__memory_fd D; static int64_t g_n; static int g_fail;
#if OP == 2
/* which byte ends up at index g_j of the stream: its own old one, a zero, or byte g_from of the caller's block */
static int64_t g_j, g_from, g_zero; static uint8_t *g_src; static int64_t g_s, g_cap;
static void hit(void *d, int64_t n, int zero, void const *s) { int64_t o; if (n <= 0) { VZ_CHECK(n == 0, "block size is not negative"); return; } VZ_CHECK(__CPROVER_same_object(d, D.buf), "into the stream"); o = (uint8_t *)d - D.buf; VZ_CHECK(o >= 0 && o <= g_cap - n, "inside its storage");
    if (!zero) VZ_CHECK(__CPROVER_same_object(s, g_src) && (uint8_t const *)s - g_src >= 0 && (uint8_t const *)s - g_src <= g_s - n, "from the caller's block"); if (g_j >= o && g_j - o < n) { g_zero = zero; g_from = zero ? -1 : ((uint8_t const *)s - g_src) + (g_j - o); } }
void *vz_lcopy(void *d, void const *s, zpl_isize n) { hit(d, n, 0, s); return d; }
void *vz_lset(void *d, zpl_u8 c, zpl_isize n) { VZ_CHECK(c == 0, "zeros"); hit(d, n, 1, NULL); return d; }
/* contract of growing (property C01): fails and changes nothing, or moves the items to storage of at least the capacity asked for */
zpl_b8 vz_grow(void **x, zpl_isize want) {
    zpl_array_header *h = ZPL_ARRAY_HEADER(*x), *nh; zpl_isize c = vz_range(0, (int64_t)1 << 42);
    VZ_CHECK(x == (void **)&D.buf && h->elem_size == 1 && want > h->capacity, "bytes, more than there are"); if (g_fail) return false; VZ_ASSUME(c >= want); nh = (zpl_array_header *)vz_malloc(sizeof *nh + (size_t)c); nh->elem_size = 1; nh->count = h->count; nh->capacity = g_cap = c; nh->allocator = h->allocator; *x = nh + 1; return true; }
#else
zpl_b8 vz_grow(void **x, zpl_isize want) { (void)x; (void)want; VZ_CHECK(0, "only owned storage grows"); return false; }
#endif
#endif
#ifdef VZ_PROOF
void vz_proof(void) {
    zpl_file f; zpl_file_descriptor fd; int64_t o = (int64_t)vz_u64(), s = (int64_t)vz_u64(), g = -1, j = (int64_t)vz_u64(); zpl_isize done = -1, *pd = nondet_vz1() & 1 ? &done : NULL; zpl_b32 r; uint8_t *b, old, w = 0; (void)b; (void)old; (void)w;
    D.magic = ZPL__FILE_STREAM_FD_MAGIC; D.flags = (zpl_file_stream_flags)(vz_u8() & 3); g_n = D.cap = vz_range(0, (int64_t)1 << 32); D.cursor = vz_range(0, (int64_t)1 << 32); VZ_ASSUME(D.cursor <= g_n); fd.p = &D; f.ops = zpl_memory_file_operations; f.fd = fd; vz_t[0] = vz_t[1] = vz_t[2] = vz_t[3] = NULL; vz_o = -1; vz_h = NULL;
#if OP == 0
    VZ_ASSUME(s <= (int64_t)1 << 32); D.buf = (uint8_t *)vz_malloc((size_t)g_n); b = (uint8_t *)vz_malloc(s < 0 ? 0 : (size_t)s); VZ_ASSUME(j >= 0 && j < s); old = b[j]; vz_t[0] = b + j; g = o < 0 || o >= g_n ? 0 : s < g_n - o ? s : g_n - o;
    if (j < g) w = D.buf[o + j];
    r = zpl__memory_file_read(fd, b, s, o, pd, false);
    VZ_CHECK((r != 0) == (o >= 0), "reading before the start is refused"); if (r && pd) VZ_CHECK(done == g, "only existing bytes are read"); VZ_CHECK(b[j] == (r && j < g ? w : old), "exactly the bytes of the stream"); VZ_CHECK(D.cap == g_n, "stream unchanged");
#elif OP == 1
    VZ_ASSUME(s <= (int64_t)1 << 32 && o <= (int64_t)1 << 33);
    VZ_ASSUME(!(D.flags & ZPL_FILE_STREAM_CLONE_WRITABLE)); D.buf = (uint8_t *)vz_malloc((size_t)g_n);
    VZ_ASSUME(s > 0 && j >= 0); b = (uint8_t *)vz_malloc((size_t)s); { int wr = (D.flags & 3) != 0, in; VZ_ASSUME(j < g_n); old = D.buf[j]; vz_t[0] = D.buf + j; in = o >= 0 && j >= o && j - o < s; if (in) w = b[j - o];
    r = zpl__memory_file_write(fd, b, s, o, pd); g = o < 0 || o >= g_n ? 0 : s < g_n - o ? s : g_n - o;
    if (!r) { VZ_CHECK(!wr || o < 0, "refused only when read-only or before the start"); VZ_CHECK(D.cap == g_n && D.buf[j] == old, "refused writes change nothing"); }
    else { VZ_CHECK(wr && o >= 0, "read-only streams are not written"); if (pd) VZ_CHECK(done == g, "bytes written"); VZ_CHECK(D.cap == g_n, "only owned storage grows"); VZ_CHECK(D.buf[j] == (in ? w : old), "exactly the bytes given"); } }
#elif OP == 2
    { int64_t e = g_n; int grew; zpl_array_header *h; g_cap = vz_range(0, (int64_t)1 << 40); VZ_ASSUME(g_n <= g_cap && s >= 0 && s <= (int64_t)1 << 40 && o <= (int64_t)1 << 41); D.flags = (zpl_file_stream_flags)(ZPL_FILE_STREAM_CLONE_WRITABLE | (D.flags & 1)); h = (zpl_array_header *)vz_malloc(sizeof *h + (size_t)g_cap); h->elem_size = 1; h->count = g_n; h->capacity = g_cap; D.buf = (uint8_t *)(h + 1); g_fail = vz_u8() & 1;
      g_src = b = (uint8_t *)vz_malloc((size_t)s); g_s = s; g_j = j; g_from = -1; g_zero = 0; if (o >= 0 && s > 0 && o + s > e) e = o + s; grew = e > g_cap; VZ_ASSUME(j >= 0 && j < e);
      r = zpl__memory_file_write(fd, b, s, o, pd);
      if (!r) { VZ_CHECK(o < 0 || (grew && g_fail), "refused only before the start or out of memory"); VZ_CHECK(D.cap == g_n && g_from < 0 && !g_zero && zpl_array_count(D.buf) == g_n, "refused writes change nothing"); }
      else { VZ_CHECK(o >= 0, "not before the start"); if (pd) VZ_CHECK(done == s, "everything is written"); VZ_CHECK(D.cap == e && zpl_array_count(D.buf) == e && zpl_array_capacity(D.buf) >= e, "grows to hold it");
        if (j >= o && j - o < s) VZ_CHECK(g_from == j - o && !g_zero, "the bytes given"); else if (j >= g_n) VZ_CHECK(g_zero, "a gap reads as zeros"); else VZ_CHECK(g_from < 0 && !g_zero, "all else unchanged"); } }
#else
    { int64_t c = D.cursor, want = -1, got; int op = vz_u8() & 7; (void)s;
      switch (op) { case 0: got = zpl_file_seek(&f, o); want = o < 0 ? 0 : o > g_n ? g_n : o; break; case 1: got = zpl_file_seek_to_end(&f); want = g_n; break;
      case 2: got = zpl_file_skip(&f, o); want = o < 0 ? (o < -c ? 0 : c + o) : o > g_n - c ? g_n : c + o; break; case 3: got = zpl_file_tell(&f); want = c; break; default: got = zpl_file_size(&f); VZ_CHECK(got == g_n, "size"); want = got = c; if (op == 5) want = got = D.cursor; VZ_CHECK(D.cursor == c, "the position is kept"); }
      VZ_CHECK(got == want && D.cursor == want, "position, kept within the stream"); VZ_CHECK(D.cap == g_n, "stream unchanged"); }
#endif
    (void)r; (void)g; (void)j; VZ_REACH("end");
}
#else
#ifndef VZ_CBMC
static uint8_t ref[4000]; static int64_t rn, rc; static int rcl(int64_t v, int64_t lo, int64_t hi) { return (int)(v < lo ? lo : v > hi ? hi : v); }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    zpl_file f; uint8_t *src = NULL, *keep; int64_t n = vz_u8() % 100, cap; int kind = vz_u8() & 3, st, i; zpl_isize q; zpl_b8 ok; int a0 = vz_nalloc, fails = 0; vz_fail = vz_u8() & 7; vz_nfree = vz_nalloc = 0; (void)a0;
    src = (uint8_t *)vz_malloc((size_t)n); keep = (uint8_t *)vz_malloc((size_t)n); for (i = 0; i < n; i++) keep[i] = ref[i] = src[i] = vz_u8(); memset(&f, 0, sizeof f); rc = 0; fails = vz_fail;
    if (kind == 0) { ok = zpl_file_stream_new(&f, vz_allocator()); n = 0; } else ok = zpl_file_stream_open(&f, vz_allocator(), src, n, kind == 1 ? 0 : kind == 2 ? ZPL_FILE_STREAM_WRITABLE : ZPL_FILE_STREAM_CLONE_WRITABLE);
    if (!ok) { VZ_CHECK(fails && vz_nalloc == vz_nfree, "nothing kept when opening fails"); return; }
    rn = n; cap = n;
    for (st = 0; st < 40 && vz_size; st++) {
        int64_t o = vz_u8() & 7 ? (int64_t)(vz_u8() % 220) - 10 : (int64_t)vz_u64(), s = vz_u8() & 7 ? vz_u8() % 50 : vz_u8(), g; zpl_isize d = -77; int own = kind == 0 || kind == 3, op = vz_u8() % 9, nw = vz_fail; zpl_b32 r; uint8_t *b = (uint8_t *)vz_malloc((size_t)s); (void)nw;
        if (op == 1 && own && o > 2000) o %= 2000; for (i = 0; i < s; i++) b[i] = vz_u8();
        switch (op) {
        case 0: r = zpl_file_read_at_check(&f, b, s, o, &d); VZ_CHECK(!!r == (o >= 0), "read result"); if (r) { g = o >= rn ? 0 : s < rn - o ? s : rn - o; VZ_CHECK(d == g && (!g || !memcmp(b, ref + o, (size_t)g)), "exactly the existing bytes"); } break;
        case 1: case 2: if (op == 2) o = rc; { int f0 = vz_fail > 0; r = op == 1 ? zpl_file_write_at_check(&f, b, s, o, &d) : zpl_file_write(&f, b, s); if (!r) { VZ_CHECK(o < 0 || o > INT64_MAX - s || kind == 1 || (f0 && own), "refused for a reason"); break; }
            VZ_CHECK(kind != 1 && o >= 0, "read-only streams are not written"); g = own ? s : o >= rn ? 0 : s < rn - o ? s : rn - o; if (own && s && o + s > rn) { for (i = (int)rn; i < o; i++) ref[i] = 0; rn = o + s; } if (g) memcpy(ref + o, b, (size_t)g); if (op == 1) VZ_CHECK(d == g, "bytes written"); else rc = rcl(rc + s, 0, rn); } break;
        case 3: VZ_CHECK(zpl_file_seek(&f, o) == (rc = rcl(o, 0, rn)), "seek"); break; case 4: VZ_CHECK(zpl_file_seek_to_end(&f) == (rc = rn), "seek to end"); break;
        case 5: { __int128 t = (__int128)rc + o; rc = t < 0 ? 0 : t > rn ? rn : (int64_t)t; VZ_CHECK(zpl_file_skip(&f, o) == rc, "skip"); } break;
        case 6: r = zpl_file_read(&f, b, s); g = s < rn - rc ? s : rn - rc; VZ_CHECK(r && (!g || !memcmp(b, ref + rc, (size_t)g)), "read at the position"); rc += g; break;
        case 7: VZ_CHECK(zpl_file_size(&f) == rn, "size"); break;
        default: { uint8_t *p = zpl_file_stream_buf(&f, &q); VZ_CHECK(q == rn && (!rn || !memcmp(p, ref, (size_t)rn)), "content"); if (!own) VZ_CHECK(p == src, "the caller's buffer"); } }
        VZ_CHECK(zpl_file_tell(&f) == rc, "position"); if (rn > 3500) break;
    }
    { uint8_t *p = zpl_file_stream_buf(&f, &q); VZ_CHECK(q == rn && (!rn || !memcmp(p, ref, (size_t)rn)), "content"); }
    if (kind != 2) VZ_CHECK(!cap || !memcmp(src, keep, (size_t)cap), "the caller's buffer is not changed"); zpl_file_close(&f); VZ_CHECK(vz_nalloc == vz_nfree, "closing releases exactly what the stream owns");
    if (cap) src[0] = 1;
#endif
    VZ_REACH("end");
}
#endif
