//@unit split kind=full calls=zpl_char_last_occurence:vz_last,zpl_strlen:vz_len about="every path text of every length, over the contracts of strlen and last occurrence" unwind=4
//@unit text kind=bounded n=5 tn=7 unwind=9 search=10 maxlen=60 bound="paths up to 5 characters (search: up to 24)" about="the same with the real scanning loops"
#include "vz.h"
#ifdef VZ_CBMC
#define ML VZ_N
#else
#define ML 24
#endif
#if defined U_split && defined VZ_CBMC
/* ghost description of the text: its length, the position of its last separator and last dot (-1 when there is none) */
static char *g_p; static int64_t g_n, g_sep, g_dot;
char const *vz_last(char const *s, char c) { VZ_CHECK(s == g_p && (c == '/' || c == '.'), "asks about the path"); return c == '/' ? (g_sep < 0 ? NULL : s + g_sep) : (g_dot < 0 ? NULL : s + g_dot); }
zpl_isize vz_len(char const *s) { VZ_CHECK(s == g_p, "asks about the path"); return g_n; }
#endif
void vz_test(void) {
#if defined U_split
#ifdef VZ_CBMC
    char const *b, *x; int abs; char c0; g_n = vz_range(0, (int64_t)1 << 40); g_p = (char *)malloc((size_t)g_n + 1); VZ_ASSUME(g_p != NULL); g_p[g_n] = 0; c0 = g_p[0]; VZ_ASSUME(g_n == 0 || c0 != 0);
    g_sep = vz_range(-1, g_n - 1); g_dot = vz_range(-1, g_n - 1); VZ_ASSUME(g_sep < 0 || g_p[g_sep] == '/'); VZ_ASSUME(g_dot < 0 || g_p[g_dot] == '.'); VZ_ASSUME(g_sep >= 0 || c0 != '/'); VZ_ASSUME(g_dot >= 0 || c0 != '.');
    abs = g_n > 0 && c0 == '/';
    VZ_CHECK(!!zpl_path_is_absolute(g_p) == abs, "absolute"); VZ_CHECK(!!zpl_path_is_relative(g_p) == !abs, "relative"); VZ_CHECK(!!zpl_path_is_root(g_p) == (abs && g_n == 1), "root");
    b = zpl_path_base_name(g_p); VZ_CHECK(b == g_p + (g_sep + 1), "base name: after the last separator");
    x = zpl_path_extension(g_p); VZ_CHECK(g_dot < 0 ? x == NULL : x == g_p + (g_dot + 1), "extension: after the last dot");
    VZ_CHECK(g_p[0] == c0 && g_p[g_n] == 0, "text unchanged");
#endif
#else
    size_t n, i; int64_t sep = -1, dot = -1; char *p = vz_text(ML, &n), o[ML + 1]; int abs; VZ_NATIVE_ONLY(for (i = 0; i < n; i++) if ((uint8_t)p[i] < 200) p[i] = "/.ab\\:"[(uint8_t)p[i] % 6];)
    for (i = 0; i < n; i++) { o[i] = p[i]; if (p[i] == '/') sep = (int64_t)i; if (p[i] == '.') dot = (int64_t)i; } abs = n > 0 && p[0] == '/';
    VZ_CHECK(!!zpl_path_is_absolute(p) == abs, "absolute"); VZ_CHECK(!!zpl_path_is_relative(p) == !abs, "relative"); VZ_CHECK(!!zpl_path_is_root(p) == (abs && n == 1), "root");
    VZ_CHECK(zpl_path_base_name(p) == p + (sep + 1), "base name: after the last separator");
    VZ_CHECK(zpl_path_extension(p) == (dot < 0 ? NULL : p + (dot + 1)), "extension: after the last dot");
    for (i = 0; i < n; i++) VZ_CHECK(p[i] == o[i], "text unchanged");
#endif
    VZ_REACH("end");
}
