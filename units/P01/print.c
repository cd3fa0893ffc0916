//@unit pad kind=contract target=zpl__print_pad standin=0
//@unit strings kind=contract target=zpl__print_string,zpl__print_char,zpl__print_repeated_char calls=zpl__print_pad:vz_pad,zpl_strlen:vz_len,zpl_strnlen:vz_nlen,zpl_strlcpy:vz_cpy,zpl_i64_to_str:vz_i64s,zpl_u64_to_str:vz_u64s,zpl_str_to_lower:vz_low,zpl_str_to_upper:vz_low loops=0 standin=0 unwind=3 def=OP=0
//@unit num kind=contract target=zpl__print_num calls=zpl__print_pad:vz_pad,zpl_strlen:vz_len,zpl_strnlen:vz_nlen,zpl_strlcpy:vz_cpy,zpl_i64_to_str:vz_i64s,zpl_u64_to_str:vz_u64s,zpl_str_to_lower:vz_low,zpl_str_to_upper:vz_low loops=0 standin=0 unwind=3 def=OP=1
//@unit ints kind=contract target=zpl__print_i64,zpl__print_u64 calls=zpl__print_pad:vz_pad,zpl_strlen:vz_len,zpl_strnlen:vz_nlen,zpl_strlcpy:vz_cpy,zpl_i64_to_str:vz_i64s,zpl_u64_to_str:vz_u64s,zpl_str_to_lower:vz_low,zpl_str_to_upper:vz_low loops=0 standin=0 unwind=3 def=OP=2
//@unit floats_b kind=bounded calls=zpl__print_pad:vz_pad,zpl__print_u64:vz_pu,zpl__print_string:vz_ps,zpl_memmove:vz_mm unwind=12 n=3 bound="up to 3 digits after the point, finite values below 2^64, every size" about="floating point conversion stays in the space given"
//@unit hist kind=search search=40 maxlen=400 bound="formats of up to 12 pieces, buffers of up to 300 bytes" about="random well-formed and malformed formats, every size, buffer ends at an inaccessible page"
#define VZ_ANNOT "annot_print.h"
#include <stdint.h>
int64_t g_k; char *g_begin; int64_t g_max;
#include "vz.h"
#ifdef VZ_CBMC
static int64_t g_w; /* bytes written so far: the helpers write front to back */
/* contracts of the callees: a write of n bytes at text must lie inside the stated size */
static void room(char const *text, zpl_isize n) { VZ_CHECK(__CPROVER_same_object(text, g_begin), "writes to the buffer"); VZ_CHECK(n >= 0 && text - g_begin >= 0 && text - g_begin <= g_max - n, "stays within the stated size"); }
zpl_isize vz_pad(char *text, zpl_isize max_len, char pad, zpl_isize count) { zpl_isize r = count < 0 || max_len < 0 ? 0 : count < max_len ? count : max_len; (void)pad; room(text, r); return r; }
zpl_isize vz_len(char const *s) { VZ_CHECK(s != NULL, "text given"); return vz_range(0, (int64_t)1 << 40); }
zpl_isize vz_nlen(char const *s, zpl_isize n) { zpl_isize r = vz_range(0, (int64_t)1 << 40); VZ_CHECK(s != NULL, "text given"); VZ_ASSUME(n < 0 || r <= n); return r; }
zpl_isize vz_cpy(char *d, char const *s, zpl_isize n) { VZ_CHECK(s != NULL, "text given"); room(d, n < 0 ? 0 : n); return n < 0 ? 0 : vz_range(0, (int64_t)1 << 40) <= n ? n : n; }
void vz_i64s(zpl_i64 v, char *s, zpl_i32 b) { int n = b == 8 ? 24 : b == 10 ? 22 : 20; (void)v; VZ_CHECK(b >= 2 && b <= 36, "a supported base"); VZ_CHECK(__CPROVER_w_ok(s, n), "room for the numeral"); s[0] = (char)nondet_vz1(); s[1] = (char)nondet_vz1(); }
void vz_u64s(zpl_u64 v, char *s, zpl_i32 b) { vz_i64s((zpl_i64)v, s, b); }
void vz_low(char *s) { VZ_CHECK(!__CPROVER_same_object(s, g_begin), "only terminated text is converted"); }
zpl_isize vz_pu(char *text, zpl_isize max_len, zpl__format_info *info, zpl_u64 v) { zpl_isize r = vz_range(0, 20); (void)v; (void)info; VZ_ASSUME(max_len < 0 ? r == 0 : r <= max_len); room(text, r); return r; }
zpl_isize vz_ps(char *text, zpl_isize max_len, zpl__format_info *info, char const *s) { (void)s; return vz_pu(text, max_len, info, 0); }
void *vz_mm(void *d, void const *s, zpl_isize n) { room((char *)d, n); room((char *)s, n); return d; }
#endif
#ifdef VZ_PROOF
void vz_proof(void) {
#if defined U_pad
    zpl_isize n = (zpl_isize)vz_u64(), m = (zpl_isize)vz_u64(), z, r, want; char c = (char)vz_u8(), *t; g_k = (int64_t)vz_u64(); VZ_ASSUME(m <= (int64_t)1 << 40); z = m < 0 ? 0 : m; t = (char *)vz_malloc((size_t)z);
    r = zpl__print_pad(t, m, c, n); want = n < 0 || m < 0 ? 0 : n < m ? n : m; VZ_CHECK(r == want, "as many as asked for and fit"); VZ_CHECK(g_k < 0 || g_k >= r || t[g_k] == c, "the padding character");
#else
    zpl__format_info i; zpl_isize r, m = vz_range(0, (int64_t)1 << 40); char *s = nondet_vz1() & 1 ? NULL : (char *)vz_malloc(1); int op = (int)vz_range(0, 5);
    i.base = (int)vz_range(2, 36); VZ_ASSUME(i.base == 8 || i.base == 10 || i.base == 16); i.flags = (int)vz_u32(); i.width = (int)vz_u32(); i.precision = (int)vz_u32(); g_max = m; g_begin = (char *)vz_malloc((size_t)m);
#if OP == 0
    switch (op) { case 0: r = zpl__print_string(g_begin, m, nondet_vz1() & 1 ? &i : NULL, s); break; case 1: r = zpl__print_char(g_begin, m, &i, (char)vz_u8()); break; default: r = zpl__print_repeated_char(g_begin, m, &i, (char)vz_u8()); }
#elif OP == 1
    { char b[130]; b[0] = (char)vz_u8(); r = zpl__print_num(g_begin, m, &i, b, (char)vz_u8()); } (void)s; (void)op;
#else
    switch (op) { case 0: r = zpl__print_i64(g_begin, m, &i, (zpl_i64)vz_u64()); break; default: r = zpl__print_u64(g_begin, m, nondet_vz1() & 1 ? &i : NULL, vz_u64()); } (void)s;
#endif
    VZ_CHECK(r >= 0 && r <= m, "the count stays within the stated size");
#endif
    VZ_REACH("end");
}
#else
#ifndef VZ_CBMC
#include "print_gen.h"
#endif
void vz_test(void) {
#if defined VZ_CBMC
    zpl__format_info i; zpl_isize r, m = vz_range(0, 1000); zpl_f64 v; uint64_t u = vz_u64(); memcpy(&v, &u, 8); VZ_ASSUME(v == v && v < 18446744073709551616.0 && v > -18446744073709551616.0);
    i.base = 0; i.flags = (int)vz_u32(); i.width = (int)vz_u32(); i.precision = (int)vz_range(0, VZ_N); g_max = m; g_begin = (char *)vz_malloc((size_t)m); r = zpl__print_f64(g_begin, m, &i, 0, v); VZ_CHECK(r >= 0 && r <= m, "the count stays within the stated size");
#else
    print_any();
#endif
    VZ_REACH("end");
}
#endif
