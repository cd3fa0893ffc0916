//@unit set kind=bounded unwind=8 n=3 bound="strings up to 3 bytes" about="set, clear, make, duplicate, make_reserve" calls=zpl_memcopy:vz_bcpy fp=zpl_alloc_align.function_pointer_call.1/vz_allocator_proc,zpl_free.function_pointer_call.1/vz_allocator_proc,zpl_resize_align.function_pointer_call.1/vz_allocator_proc
//@unit trim kind=bounded unwind=8 n=4 bound="strings up to 4 bytes, cut sets up to 2" about="trim, trim_space, equality" calls=zpl_memcopy:vz_bcpy fp=zpl_alloc_align.function_pointer_call.1/vz_allocator_proc,zpl_free.function_pointer_call.1/vz_allocator_proc,zpl_resize_align.function_pointer_call.1/vz_allocator_proc
//@unit hist kind=search search=30 maxlen=300 bound="operation histories up to 24 steps" about="histories of all operations incl. join, against a model, with allocation failures"
#define VZ_BLK 40
#include "vz.h"
#ifdef VZ_CBMC
#define MAXL VZ_N
#else
#define MAXL 20
#endif
void *vz_bcpy(void *d, void const *s, zpl_isize n) { zpl_isize i; for (i = 0; i < n; i++) ((uint8_t *)d)[i] = ((uint8_t const *)s)[i]; return d; }
void *vz_bset(void *d, int c, size_t n) { size_t i; for (i = 0; i < n; i++) ((uint8_t *)d)[i] = (uint8_t)c; return d; }
static uint8_t M[400]; static zpl_isize n;   /* the abstract string */
static void same(zpl_string s) {
    zpl_isize k; VZ_CHECK(zpl_string_length(s) == n, "length is the content length"); VZ_CHECK(zpl_string_capacity(s) >= n, "length does not exceed the capacity");
    for (k = 0; k < n; k++) VZ_CHECK((uint8_t)s[k] == M[k], "content"); VZ_CHECK(s[n] == 0, "terminated");
    VZ_CHECK(zpl_string_available_space(s) == zpl_string_capacity(s) - n, "available space");
    VZ_CHECK(zpl_string_allocation_size(s) == 32 + zpl_string_capacity(s), "allocation size");
    VZ_NATIVE_ONLY({ volatile char x; for (k = 0; k <= zpl_string_capacity(s); k++) x = s[k]; (void)x; })   /* the capacity is really there */
}
/* any string state */
static zpl_string any(int spare) {
    zpl_string s; zpl_isize k, c; n = (zpl_isize)vz_range(0, MAXL); c = n + (zpl_isize)vz_range(0, spare);
    vz_fail = 0; s = zpl_string_make_reserve(vz_allocator(), c); VZ_ASSUME(s != NULL);
    for (k = 0; k < n; k++) s[k] = (char)(M[k] = vz_u8()); s[n] = 0; zpl__set_string_length(s, n); return s;
}
#ifdef VZ_CBMC
#define DO(x) x
#endif
static zpl_string t_append(zpl_string s) {
    zpl_string r, o; uint8_t b[MAXL + 1]; zpl_isize m = (zpl_isize)vz_range(0, MAXL), k, room = zpl_string_capacity(s) - n, w; int op = (int)vz_range(0, 3), f = vz_u8() & 1; int32_t ru = (int32_t)vz_u32();
    for (k = 0; k < m; k++) b[k] = vz_u8();
    b[m] = 0;
    VZ_NATIVE_ONLY(if (vz_u8() & 3) ru = (int32_t)(vz_u32() % 0x111000);)
    if (op == 1) for (k = 0; k < m; k++) if (!b[k]) { m = k; break; }
    if (op == 2) { uint8_t e[4]; VZ_ASSUME(ru >= 0); w = zpl_utf8_encode_rune(e, ru); m = w > MAXL ? MAXL : w; VZ_ASSUME(w == m); for (k = 0; k < m; k++) b[k] = e[k]; b[m] = 0; }
    vz_fail = f; vz_nalloc = 0; vz_nfree = 0;
    if (op == 0) r = zpl_string_append_length(s, b, m); else if (op == 1) r = zpl_string_appendc(s, (char *)b); else if (op == 2) r = zpl_string_append_rune(s, ru);
    else { r = zpl_string_make_space_for(s, m); if (r) { VZ_CHECK(zpl_string_available_space(r) >= m, "space made"); } }
    if (f && m > room) { VZ_CHECK(r == NULL && vz_nfree == 0, "failure reported"); vz_fail = 0; same(s); return s; }
    vz_fail = 0; VZ_CHECK(r != NULL, "no failure without one"); if (op != 3) { for (k = 0; k < m; k++) M[n + k] = b[k]; n += m; }
    (void)o; same(r); return r;
}
static zpl_string t_set(zpl_string s) {
    size_t l; char *t = vz_text(MAXL, &l); zpl_isize k, room = zpl_string_capacity(s); zpl_string r, d; int op = (int)vz_range(0, 3), f = vz_u8() & 1; zpl_isize c = (zpl_isize)vz_range(0, 5);
    vz_nalloc = vz_nfree = 0;
    if (op == 0) { vz_fail = f; r = zpl_string_set(s, t); vz_fail = 0;
        if (f && (zpl_isize)l > room) { VZ_CHECK(r == NULL && vz_nfree == 0, "failure reported"); same(s); return s; }
        VZ_CHECK(r != NULL, "set"); n = (zpl_isize)l; for (k = 0; k < n; k++) M[k] = (uint8_t)t[k]; same(r); return r; }
    if (op == 1) { zpl_string_clear(s); n = 0; same(s); VZ_CHECK(zpl_string_capacity(s) == room, "capacity kept"); return s; }
    vz_fail = f;
    if (op == 2) { d = zpl_string_duplicate(vz_allocator(), s); vz_fail = 0; if (f) { VZ_CHECK(d == NULL, "failure reported"); same(s); return s; }
        VZ_CHECK(d != s, "its own memory"); same(d); same(s); VZ_CHECK(zpl_string_are_equal(d, s), "equal"); zpl_string_free(s); return d; }
    d = c & 1 ? zpl_string_make(vz_allocator(), t) : zpl_string_make_reserve(vz_allocator(), c); vz_fail = 0; if (f) { VZ_CHECK(d == NULL, "failure reported"); same(s); return s; }
    zpl_string_free(s); n = 0; if (c & 1) { n = (zpl_isize)l; for (k = 0; k < n; k++) M[k] = (uint8_t)t[k]; } else VZ_CHECK(zpl_string_capacity(d) == c, "reserved"); same(d); return d;
}
static zpl_string t_trim(zpl_string s) {
    size_t l; char *c = vz_text(MAXL < 5 ? 2 : 5, &l); zpl_isize a, b, k; zpl_string r, o; int ws = vz_u8() & 1;
    for (k = 0; k < n; k++) VZ_ASSUME(M[k] != 0);
#define CUT(x) (ws ? (x) == ' ' || ((x) >= 9 && (x) <= 13) : ((l > 0 && (uint8_t)c[0] == (x)) || (l > 1 && (uint8_t)c[1] == (x)) || (l > 2 && (uint8_t)c[2] == (x)) || (l > 3 && (uint8_t)c[3] == (x)) || (l > 4 && (uint8_t)c[4] == (x))))
    r = ws ? zpl_string_trim_space(s) : zpl_string_trim(s, c);
    for (a = 0; a < n && CUT(M[a]); a++) {} for (b = n; b > a && CUT(M[b - 1]); b--) {}
    for (k = a; k < b; k++) M[k - a] = M[k]; n = b - a;
    VZ_CHECK(r == s, "in place"); same(r); (void)o; return r;
}
#ifdef U_trim
static void t_eq(zpl_string s) {
    zpl_string o; zpl_isize k, m = (zpl_isize)vz_range(0, MAXL); int eq = m == n; vz_fail = 0; o = zpl_string_make_reserve(vz_allocator(), m);
    for (k = 0; k < m; k++) { o[k] = (char)vz_u8(); if (k < n && (uint8_t)o[k] != M[k]) eq = 0; } zpl__set_string_length(o, m);
    VZ_CHECK(!!zpl_string_are_equal(s, o) == eq, "equal exactly when lengths and bytes agree");
}
#endif
void vz_test(void) {
#if defined U_append
    t_append(any(2));
#elif defined U_set
    t_set(any(2));
#elif defined U_trim
    if (vz_u8() & 1) t_trim(any(1)); else t_eq(any(0));
#elif !defined VZ_CBMC
    zpl_string s = any(6), r; int st, i;
    for (st = 0; st < 24 && n < 300; st++) switch (vz_u8() % 5) {
        case 0: case 1: s = t_append(s); break; case 2: s = t_set(s); break; case 3: { int z = 0; for (i = 0; i < n; i++) if (!M[i]) z = 1; if (!z) s = t_trim(s); } break;
        case 4: { char const *parts[5]; size_t l[5], gl; char *g = vz_text(3, &gl); int cnt = vz_u8() % 5, p, k, f = vz_u8() % 6; zpl_isize w = 0; uint8_t W[200];
            for (p = 0; p < cnt; p++) { parts[p] = vz_text(6, &l[p]); for (k = 0; k < (int)l[p]; k++) W[w++] = (uint8_t)parts[p][k]; if (p + 1 < cnt) for (k = 0; k < (int)gl; k++) W[w++] = (uint8_t)g[k]; }
            vz_fail = f; vz_nalloc = vz_nfree = 0; r = zpl_string_join(vz_allocator(), parts, cnt, g); if (vz_fail || !f) VZ_CHECK(r != NULL, "joined"); else { VZ_CHECK(r == NULL && vz_nalloc == vz_nfree, "failure reported and everything released"); }
            vz_fail = 0; if (r) { zpl_string_free(s); n = w; memcpy(M, W, (size_t)w); same(r); s = r; } } break; }
    zpl_string_free(s);
#endif
    VZ_REACH("end");
}
