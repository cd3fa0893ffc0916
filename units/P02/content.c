//@unit pad kind=contract target=zpl__print_pad standin=0
//@unit num_layout kind=contract target=zpl__print_num calls=zpl__print_pad:vz_pad,zpl_strlen:vz_len,zpl_strnlen:vz_nlen,zpl_strlcpy:vz_cpy,zpl_str_to_lower:vz_low loops=0 standin=0 unwind=8
//@unit text_layout kind=contract target=zpl__print_string calls=zpl__print_pad:vz_pad,zpl_strlen:vz_len,zpl_strnlen:vz_nlen,zpl_strlcpy:vz_cpy,zpl_str_to_lower:vz_low loops=0 standin=0 unwind=8
//@unit int_sign kind=contract target=zpl__print_i64,zpl__print_u64 calls=zpl__print_num:vz_num,zpl_i64_to_str:vz_i64s,zpl_u64_to_str:vz_u64s loops=0 standin=0 unwind=4
//@unit hist kind=search search=40 maxlen=300 bound="formats of up to 10 pieces" about="integer, character and text conversions against the C library"
#define VZ_ANNOT "annot_print.h"
#include <stdint.h>
int64_t g_k; char *g_begin; int64_t g_max;
#include "vz.h"
#ifdef VZ_CBMC
/* the callees' contracts, keeping a log of what is written where: the pieces must follow each other without gap */
static int64_t w_pos, w_sp0, w_sp1, w_ze, w_di, g_len; static int w_sign, w_stage, w_low; static char *g_num; static char g_signc; static int g_left;
static void piece(char *text, int stage) { VZ_CHECK(text == g_begin + w_pos, "pieces follow each other"); VZ_CHECK(stage >= w_stage, "order: spaces, sign, zeros, digits, spaces"); w_stage = stage; }
zpl_isize vz_pad(char *text, zpl_isize max_len, char pad, zpl_isize count) {
    VZ_CHECK(count <= 0 || max_len >= count, "room left"); if (count <= 0) return 0;
    if (g_signc && pad == g_signc) { VZ_CHECK(count == 1 && !w_sign, "one sign"); piece(text, 2); w_sign = 1; }
    else if (pad == ' ' && w_stage < 2 && !g_left) { piece(text, 0); w_sp0 += count; } else if (pad == ' ') { piece(text, 4); w_sp1 += count; }
    else if (pad == '0') { piece(text, 3); w_ze += count; } else { VZ_CHECK(0, "nothing else is padded"); }
    w_pos += count; return count; }
zpl_isize vz_len(char const *s) { VZ_CHECK(s == g_num, "the digits"); return g_len; }
zpl_isize vz_nlen(char const *s, zpl_isize n) { VZ_CHECK(s == g_num, "the text"); return n < g_len ? n : g_len; }
zpl_isize vz_cpy(char *d, char const *s, zpl_isize n) { VZ_CHECK(s == g_num && n <= g_len, "the digits"); if (n <= 0) return 0; piece(d, 4); w_di += n; w_pos += n; return n; }
void vz_low(char *s) { VZ_CHECK(s == g_num, "the digits"); VZ_CHECK(w_pos == 0, "before they are copied"); w_low = 1; }
static int n_neg, n_base; static zpl_u64 n_val; static char *n_buf; static int n_sg;
void vz_i64s(zpl_i64 v, char *s, zpl_i32 b) { VZ_CHECK(__CPROVER_w_ok(s, 66), "room"); n_buf = s; n_val = (zpl_u64)v; n_base = b; n_sg = 1; }
void vz_u64s(zpl_u64 v, char *s, zpl_i32 b) { VZ_CHECK(__CPROVER_w_ok(s, 66), "room"); n_buf = s; n_val = v; n_base = b; n_sg = 0; }
static char *q_num; static int q_sign; static zpl_isize q_max; static char *q_text; static zpl__format_info *q_info; static zpl_isize q_ret;
zpl_isize vz_num(char *text, zpl_isize max_len, zpl__format_info *info, char *num, char sign) { q_num = num; q_sign = sign; q_max = max_len; q_text = text; q_info = info; return q_ret; }
#endif
#ifdef VZ_PROOF
void vz_proof(void) {
#if defined U_pad
    zpl_isize n = (zpl_isize)vz_u64(), m = (zpl_isize)vz_u64(), z, r, want; char c = (char)vz_u8(), *t; g_k = (int64_t)vz_u64(); VZ_ASSUME(m <= (int64_t)1 << 40); z = m < 0 ? 0 : m; t = (char *)vz_malloc((size_t)z);
    r = zpl__print_pad(t, m, c, n); want = n < 0 || m < 0 ? 0 : n < m ? n : m; VZ_CHECK(r == want, "as many as asked for and fit"); VZ_CHECK(g_k < 0 || g_k >= r || t[g_k] == c, "the padding character");
#elif defined U_int_sign
    zpl__format_info i; zpl_isize r; zpl_i64 v = (zpl_i64)vz_u64(); char *t = (char *)vz_malloc(8); int sg = vz_u8() & 1; i.base = (int)vz_range(2, 36); i.flags = (int)vz_u32(); i.width = (int)vz_u32(); i.precision = (int)vz_u32(); q_ret = vz_range(0, 8);
    r = sg ? zpl__print_i64(t, 8, &i, v) : zpl__print_u64(t, 8, &i, (zpl_u64)v);
    VZ_CHECK(r == q_ret && q_text == t && q_max == 8 && q_info == &i, "laid out in the space given"); VZ_CHECK(n_sg == sg && n_val == (zpl_u64)v && n_base == i.base, "the numeral of the value in the base");
    VZ_CHECK(q_num == n_buf + (sg && v < 0), "the digits without the sign"); VZ_CHECK(q_sign == (!sg ? 0 : v < 0 ? '-' : i.flags & ZPL_FMT_PLUS ? '+' : i.flags & ZPL_FMT_SPACE ? ' ' : 0), "sign");
#else
    zpl__format_info i; zpl_isize r; int64_t w, p, len, ze, padn; char buf[130], sg = 0; int left, zf, num;
    i.base = 10; i.flags = (int)vz_u32(); i.width = (int)vz_u32(); i.precision = (int)vz_u32(); VZ_ASSUME(i.width > 0 || !(i.flags & ZPL_FMT_WIDTH)); VZ_ASSUME(i.width >= 0); g_max = vz_range((int64_t)1 << 40, (int64_t)1 << 41); g_begin = (char *)vz_malloc((size_t)g_max); g_num = buf; buf[0] = (char)vz_u8();
    g_left = left = (i.flags & ZPL_FMT_MINUS) != 0; zf = (i.flags & ZPL_FMT_ZERO) != 0; w = i.width; p = i.precision;
#ifdef U_num_layout
    g_len = vz_range(1, 64); sg = (char)vz_u8(); VZ_ASSUME(sg == 0 || sg == '-' || sg == '+'); g_signc = sg; num = 1;
    len = p == 0 && g_len == 1 && buf[0] == '0' ? 0 : g_len; ze = p > len ? p - len : 0; padn = w - len - ze - (sg ? 1 : 0); if (padn < 0) padn = 0; if (zf && !left) { ze += padn; padn = 0; }
    r = zpl__print_num(g_begin, (zpl_isize)g_max, &i, buf, sg);
    VZ_CHECK(w_low == ((i.flags & ZPL_FMT_LOWER) != 0), "lower case when asked for");
#else
    g_len = vz_range(0, (int64_t)1 << 39); num = 0; len = p >= 0 && p < g_len ? p : g_len; ze = 0; padn = w > len ? w - len : 0; if (zf && !left) { ze = padn; padn = 0; }
    r = zpl__print_string(g_begin, (zpl_isize)g_max, &i, buf);
#endif
    (void)num; VZ_CHECK(r == w_pos && r == len + ze + padn + (sg ? 1 : 0), "length"); VZ_CHECK(w_di == len && w_ze == ze, "digits and zeros"); VZ_CHECK(w_sp0 == (left ? 0 : padn) && w_sp1 == (left ? padn : 0), "padding on the right side"); VZ_CHECK(w_sign == (sg != 0), "sign");
#endif
    VZ_REACH("end");
}
#else
#ifndef VZ_CBMC
#include <stdio.h>
#define NA 24
static uint64_t pa[NA]; static int na, pn; static char pf[600];
#define ARGS pa[0], pa[1], pa[2], pa[3], pa[4], pa[5], pa[6], pa[7], pa[8], pa[9], pa[10], pa[11], pa[12], pa[13], pa[14], pa[15], pa[16], pa[17], pa[18], pa[19], pa[20], pa[21], pa[22], pa[23]
static uint64_t pnum(void) { uint64_t v = vz_u64(); int s = vz_u8() & 63; v >>= s; switch (vz_u8() & 7) { case 0: return 0 - v; case 1: return 0; case 2: return (uint64_t)1 << s; case 3: return ((uint64_t)1 << s) - 1; default: return v; } }
static void lit(void) { int n = vz_u8() % 6; while (n--) { char c = (char)vz_u8(); if (c && c != '%') pf[pn++] = c; } }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    static char o[40000], g[40000]; int k, pieces = vz_u8() % 10; zpl_isize r; long e; memset(pa, 0, sizeof pa); na = pn = 0;
    for (k = 0; k < pieces && na < NA - 4; k++) {
        static char const fl[] = "-+ 0", cv[] = "diuoxXcs%"; char c = cv[vz_u8() % 9]; int j, w = vz_u8() % 40, num = strchr("diuoxX", c) != NULL, wz = vz_u8() & 3; lit(); pf[pn++] = '%'; if (c == '%') wz = 0;
        if (c != '%') { j = vz_u8() % 4; while (j-- > 0) { char f = fl[vz_u8() & 3]; if (f == '0' && (!num || !wz)) continue; pf[pn++] = f; } }
        if (wz == 1) pn += sprintf(pf + pn, "%d", w + 1); else if (wz == 2) { pf[pn++] = '*'; pa[na++] = (uint64_t)(int64_t)(w + 1); } else if (wz == 3) { pf[pn++] = '*'; pa[na++] = (uint64_t)(int64_t)(-w - 1); }
        if (num || c == 's') switch (vz_u8() & 3) { case 0: pn += sprintf(pf + pn, ".%d", vz_u8() % 40); break; case 1: pf[pn++] = '.'; pf[pn++] = '*'; pa[na++] = vz_u8() % 40; break; default: break; }
        if (num) { static char const *sz[] = { "", "h", "hh", "l", "ll", "z", "t", "" }; int q = vz_u8() & 7; if (q == 5 && (c == 'd' || c == 'i')) q = 6; pn += sprintf(pf + pn, "%s", sz[q]); }
        pf[pn++] = c;
        if (num) pa[na++] = pnum(); else if (c == 'c') { uint8_t x = vz_u8(); pa[na++] = x ? x : 'x'; } else if (c == 's') { size_t l; char *s = vz_text(24, &l); pa[na++] = (uint64_t)s; }
    }
    lit(); pf[pn] = 0; e = snprintf(o, sizeof o, pf, ARGS); r = zpl_snprintf(g, sizeof g, pf, ARGS);
    VZ_CHECK(r == e + 1, "length and terminator counted"); VZ_CHECK(!memcmp(o, g, (size_t)e + 1), "the text of the format");
    { zpl_isize n = e + 2 + vz_u8() % 3; char *b = (char *)vz_malloc((size_t)n); VZ_CHECK(zpl_snprintf(b, n, pf, ARGS) == e + 1 && !memcmp(b, o, (size_t)e + 1), "the same in a buffer with little to spare"); }
    { int w = vz_u8(), m; char c = (char)vz_u8(); r = zpl_snprintf(g, sizeof g, w & 1 ? "<%*r>" : "<%r>", w & 1 ? (uint64_t)w : (uint64_t)(uint8_t)c, (uint64_t)(uint8_t)c); m = w & 1 ? w : 1; VZ_CHECK(r == m + 3 && g[0] == '<' && g[m + 1] == '>', "repeated character"); for (k = 1; k <= m; k++) VZ_CHECK(g[k] == c, "repeated character"); }
    { uint64_t p = pnum(); e = snprintf(o, sizeof o, "%lx", (unsigned long)p); r = zpl_snprintf(g, sizeof g, "%p", p); VZ_CHECK(r == e + 1 && !strcmp(o, g), "address"); }
    if (na) { char *b = zpl_bprintf(pf, ARGS), *s = NULL; e = snprintf(o, sizeof o, pf, ARGS); VZ_CHECK(!strcmp(b, o), "bprintf"); VZ_CHECK(zpl_asprintf(zpl_heap(), &s, pf, ARGS) == e + 1 && !strcmp(s, o), "asprintf"); zpl_mfree(s); }
#endif
    VZ_REACH("end");
}
#endif
