//@unit classes kind=full about="character classification and conversion over all 256 characters" unwind=14 unwindset=memcmp.0:2
//@unit cmp kind=bounded unwind=6 n=3 bound="texts up to 3 characters" about="strlen, strnlen, strcmp, strncmp, prefix, suffix, first/last occurrence"
//@unit copy kind=bounded unwind=8 n=3 bound="texts up to 3 characters" about="strcpy, strcat, strncpy, strlcpy, strrev, case conversion, concat"
//@unit scan kind=bounded unwind=6 unwindset=zpl_char_first_occurence.0:11 n=3 bound="texts up to 3 characters" about="strtok, strntok, trim, skip, skip_any, skip_literal, control_skip"
//@unit hist kind=search search=25 maxlen=90 bound="texts up to 24 characters" about="all text helpers incl. strdup and split_lines against reference definitions"
#define VZ_BLK 32
#include "vz.h"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
#ifdef U_classes
void vz_test(void) {
    char c = (char)vz_u8(); int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', hl = c >= 'a' && c <= 'f', hu = c >= 'A' && c <= 'F';
    VZ_CHECK(zpl_char_to_lower(c) == (up ? (char)(c + 32) : c), "to_lower"); VZ_CHECK(zpl_char_to_upper(c) == (lo ? (char)(c - 32) : c), "to_upper");
    VZ_CHECK(!!zpl_char_is_space(c) == sp(c), "is_space"); VZ_CHECK(!!zpl_char_is_digit(c) == di, "is_digit");
    VZ_CHECK(!!zpl_char_is_hex_digit(c) == (di || hl || hu), "is_hex_digit"); VZ_CHECK(!!zpl_char_is_alpha(c) == (up || lo), "is_alpha");
    VZ_CHECK(!!zpl_char_is_alphanumeric(c) == (up || lo || di), "is_alphanumeric");
    VZ_CHECK(zpl_hex_digit_to_int(c) == (di ? c - '0' : hl ? c - 'a' + 10 : hu ? c - 'A' + 10 : -1), "hex_digit_to_int");
    VZ_CHECK(zpl_char_to_hex_digit(c) == (di ? c - '0' : hl ? c - 'a' + 10 : hu ? c - 'A' + 10 : 0), "char_to_hex_digit");
    if (di || hl) VZ_CHECK(zpl_digit_to_int(c) == (di ? c - '0' : c - 'a' + 10), "digit_to_int");
    if (c) { VZ_CHECK(!!zpl_char_is_control(c) == (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't'), "is_control");
      VZ_CHECK(!!zpl__is_special_char(c) == (c == '<' || c == '>' || c == ':' || c == '/'), "special"); VZ_CHECK(!!zpl__is_assign_char(c) == (c == ':' || c == '=' || c == '|'), "assign");
      VZ_CHECK(!!zpl__is_delim_char(c) == (c == ',' || c == '|' || c == '\n'), "delim"); }
    VZ_REACH("end");
}
#else
static zpl_isize len(char const *s) { zpl_isize n = 0; while (s[n]) n++; return n; }
static int has(char const *s, char c) { while (*s) if (*s++ == c) return 1; return 0; }
static int sgn(zpl_i32 x) { return (x > 0) - (x < 0); }
/* reference comparison of at most m characters */
static int cmp(char const *a, char const *b, zpl_isize m) { zpl_isize i; for (i = 0; i < m; i++) { if (a[i] != b[i]) return (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
static void map(char *p) {   /* small alphabet so that characters coincide */
    static const char al[] = "aAb \t\n\r\\\"/nZ0"; (void)al;
    VZ_NATIVE_ONLY(for (; *p; p++) if ((uint8_t)*p >= 16) *p = al[(uint8_t)*p % 13];)
    (void)p;
}
#ifdef VZ_CBMC
#define T(sz) ((sz) + 1)
#define MAXL VZ_N
#else
#define MAXL 24
#endif
static void t_cmp(void) {
    size_t la, lb; char *a = vz_text(MAXL, &la), *b = vz_text(MAXL, &lb); char c = (char)vz_u8(); zpl_isize m = (zpl_isize)vz_range(0, MAXL + 2), k; char const *r; uint8_t sh = vz_u8() & 3;
    map(a); map(b); VZ_NATIVE_ONLY(if (sh == 1) { k = 0; while (k < (zpl_isize)la && k < (zpl_isize)lb) { b[k] = a[k]; k++; } })
    VZ_CHECK(zpl_strlen(a) == (zpl_isize)la && zpl_strlen(NULL) == 0, "strlen");
    VZ_CHECK(sgn(zpl_strcmp(a, b)) == cmp(a, b, MAXL + 2), "strcmp");
    VZ_CHECK(sgn(zpl_strncmp(a, b, m)) == cmp(a, b, m), "strncmp");
    VZ_CHECK(zpl_strnlen(a, m) == (m < (zpl_isize)la ? m : (zpl_isize)la), "strnlen");
    { int pre = la >= lb && cmp(a, b, (zpl_isize)lb) == 0, suf = la >= lb && cmp(a + (la >= lb ? la - lb : 0), b, MAXL + 2) == 0;
      VZ_CHECK(!!zpl_str_has_prefix(a, b) == pre, "prefix"); VZ_CHECK(!!zpl_str_has_suffix(a, b) == suf, "suffix"); }
    r = zpl_char_first_occurence(a, c); for (k = 0; k < (zpl_isize)la && a[k] != c; k++) {}
    VZ_CHECK(r == (a[k] == c ? a + k : NULL), "first occurrence");
    r = zpl_char_last_occurence(a, c); for (k = (zpl_isize)la; k > 0 && a[k] != c; k--) {}
    VZ_CHECK(r == (a[k] == c ? a + k : NULL), "last occurrence");
}
static void t_copy(void) {
    size_t la, lb; char *a = vz_text(MAXL, &la), *b = vz_text(MAXL, &lb), *d; zpl_isize m = (zpl_isize)vz_range(1, MAXL + 2), k, L = (zpl_isize)la, S = (zpl_isize)lb; char old[64];
    map(a); map(b);
    d = (char *)vz_malloc(la + 1); VZ_CHECK(zpl_strcpy(d, a) == d && cmp(d, a, MAXL + 2) == 0, "strcpy");
    d = (char *)vz_malloc(la + lb + 1); for (k = 0; k <= L; k++) d[k] = a[k];
    VZ_CHECK(zpl_strcat(d, b) == d && len(d) == L + S && cmp(d, a, L) == 0 && cmp(d + L, b, MAXL + 2) == 0, "strcat");
    d = (char *)vz_malloc((size_t)m); VZ_CHECK(zpl_strncpy(d, a, m) == d, "strncpy"); for (k = 0; k < m; k++) VZ_CHECK(d[k] == (k < L ? a[k] : 0), "strncpy content");
    d = (char *)vz_malloc((size_t)m); k = zpl_strlcpy(d, a, m); VZ_CHECK(k == (L < m ? L : m), "strlcpy count"); for (k = 0; k < m; k++) VZ_CHECK(d[k] == (k < L ? a[k] : 0), "strlcpy content");
    d = (char *)vz_malloc(la + lb + 1); zpl_str_concat(d, L + S + 1, a, L, b, S);
    VZ_CHECK(cmp(d, a, L) == 0 && cmp(d + L, b, MAXL + 2) == 0, "concat");
    for (k = 0; k <= L; k++) old[k] = a[k];
    VZ_CHECK(zpl_strrev(a) == a, "strrev"); for (k = 0; k < L; k++) VZ_CHECK(a[k] == old[L - 1 - k], "strrev content"); VZ_CHECK(a[L] == 0, "strrev terminator");
    zpl_str_to_upper(a); for (k = 0; k < L; k++) VZ_CHECK(a[k] == (old[L - 1 - k] >= 'a' && old[L - 1 - k] <= 'z' ? old[L - 1 - k] - 32 : old[L - 1 - k]), "upper");
    for (k = 0; k < L; k++) old[k] = a[k];
    zpl_str_to_lower(a); for (k = 0; k < L; k++) VZ_CHECK(a[k] == (old[k] >= 'A' && old[k] <= 'Z' ? old[k] + 32 : old[k]), "lower");
}
static void t_scan(void) {
    size_t la, lb; char *a = vz_text(MAXL, &la), *b = vz_text(MAXL, &lb), *o, c = (char)vz_u8(); char const *r; zpl_isize k, i, L = (zpl_isize)la, m = (zpl_isize)vz_range(1, MAXL + 2); int nl = vz_u8() & 1;
    map(a); map(b); VZ_ASSUME(c != 0);
    for (k = 0; k < L && !has(b, a[k]); k++) {}
    o = (char *)vz_malloc((size_t)k + 1); r = zpl_strtok(o, a, b);
    VZ_CHECK(r == (k < L ? a + k + 1 : a + k) && len(o) == k && cmp(o, a, k) == 0, "strtok");
    o = (char *)vz_malloc((size_t)m); for (i = 0; i < m; i++) o[i] = 'x';
    r = zpl_strntok(o, m, a, b); i = k < m ? k : m;
    VZ_CHECK(r == (i < L ? a + i + 1 : a + i), "strntok end"); VZ_CHECK(cmp(o, a, i) == 0 && (i == m || o[i] == 0), "strntok content");
    for (k = 0; k < L && sp(a[k]) && !(nl && a[k] == '\n'); k++) {}
    VZ_CHECK(zpl_str_trim(a, nl) == a + k, "trim");
    for (k = 0; k < L && a[k] != c; k++) {}
    VZ_CHECK(zpl_str_skip(a, c) == a + k, "skip");
    for (k = 0; k < L && !has(b, a[k]); k++) {}
    VZ_CHECK(zpl_str_skip_any(a, b) == a + k, "skip any");
    k = 0; if (L && a[0] != c) for (k = 1; k < L && !(a[k] == c && a[k - 1] != '\\'); k++) {}
    VZ_CHECK(zpl_str_skip_literal(a, c) == a + k, "skip literal");
    if (L) { for (k = 1; k < L && !(a[k] == c && !(a[k - 1] == '\\' && zpl_char_is_control(c))); k++) {}
      VZ_CHECK(zpl_str_control_skip(a + 1, c) == a + k, "control skip"); }
}
static void t_alloc(void) {
    size_t la; char *a = vz_text(MAXL, &la), *d, **l, *copy; zpl_isize m = (zpl_isize)vz_range(0, MAXL + 2), L = (zpl_isize)la, k, n, st; int strip;
    map(a); vz_fail = vz_u8() % 3; strip = vz_u8() & 1;
    { int f = vz_fail; d = zpl_strdup(vz_allocator(), a, m); vz_fail = 0;
      if (f == 1) VZ_CHECK(!d, "no memory");
      else { VZ_CHECK(cmp(d, a, m) == 0 && len(d) == (L < m ? L : m), "strdup"); zpl_free(vz_allocator(), d); } }
    copy = (char *)vz_malloc(la + 1); memcpy(copy, a, la + 1);
    l = zpl_str_split_lines(vz_allocator(), a, strip);
    for (k = 0, n = 0; k < L; ) {
        zpl_isize e, te; for (st = k; k < L && copy[k] != '\n'; k++) {} e = k; te = e;
        if (e < L && e > st && copy[e - 1] == '\r') te = e - 1;
        if (!(strip && e == st && e < L)) { VZ_CHECK(n < zpl_array_count(l) && l[n] == a + st && len(l[n]) == te - st && cmp(l[n], copy + st, te - st) == 0, "line"); n++; }
        k = e + 1;
    }
    VZ_CHECK(zpl_array_count(l) == n, "number of lines"); zpl_array_free(l);
}
void vz_test(void) {
#if defined U_cmp
    t_cmp();
#elif defined U_copy
    t_copy();
#elif defined U_scan
    t_scan();
#else
    switch (vz_u8() % 4) { case 0: t_cmp(); break; case 1: t_copy(); break; case 2: t_scan(); break; default: VZ_NATIVE_ONLY(t_alloc();) ; }
#endif
    VZ_REACH("end");
}
#endif
