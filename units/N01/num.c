//@unit digit kind=full about="value of every character as a digit of every base 2..36" unwind=4
//@unit u64_b kind=bounded unwind=12 n=8 bound="values below 256, bases 2..36" about="u64_to_str then str_to_u64"
//@unit scan_b kind=bounded unwind=8 n=3 bound="texts up to 3 characters, bases 0, 2, 16, 36" about="parsing any text: value, end position, sign and prefix"
//@unit hist kind=search search=25 maxlen=60 bound="all 64-bit values, texts up to 40 characters" about="format and parse of every integer in every base against reference arithmetic"
#include "vz.h"
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
#ifdef U_digit
void vz_test(void) {
    char c = (char)vz_u8(); int b = (int)vz_range(2, 36), v = dig(c);
    VZ_CHECK(zpl__scan_digit(c, b) == (v < b ? v : -1), "digit value"); VZ_REACH("end");
}
#else
static void t_fmt(uint64_t v, int b, int sg) {
    char *s = (char *)vz_malloc(66), *e; int n = 0, k; uint64_t m = v, back = 0; char ref[66];
    int neg = sg && (int64_t)v < 0; if (neg) m = 0 - v;
    do { ref[n++] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[m % (unsigned)b]; m /= (unsigned)b; } while (m);
    if (neg) ref[n++] = '-';
    if (sg) zpl_i64_to_str((int64_t)v, s, b); else zpl_u64_to_str(v, s, b);
    for (k = 0; k < n; k++) VZ_CHECK(s[k] == ref[n - 1 - k], "canonical numeral"); VZ_CHECK(s[n] == 0, "terminated");
    e = NULL; back = sg ? (uint64_t)zpl_str_to_i64(s, &e, b) : zpl_str_to_u64(s, &e, b);
    VZ_CHECK(back == v && e == s + n, "parsing inverts formatting");
}
static void t_scan(int b) {
    size_t la; char *a = vz_text(
#ifdef VZ_CBMC
    VZ_N
#else
    40
#endif
    , &la), *e = NULL; int sg = vz_u8() & 1, neg = 0, base, i = 0; uint64_t v = 0, r;
    VZ_NATIVE_ONLY({ size_t k; for (k = 0; k < la; k++) if (!(a[k] & 0x40)) a[k] = "0123456789xXabcdefABC-+ zZ"[(uint8_t)a[k] % 26]; if (la > 3 && a[0] > 'm') { a[0] = '0'; a[1] = 'x'; } })
    base = b; if (!base) base = la > 2 && a[0] == '0' && a[1] == 'x' ? 16 : 10;
    if (sg && a[0] == '-') { neg = 1; i++; }
    if (base == 16 && a[i] == '0' && a[i + 1] == 'x') i += 2;
    while (dig(a[i]) < base) { v = v * (unsigned)base + (unsigned)dig(a[i]); i++; }
    if (neg) v = 0 - v;
    r = sg ? (uint64_t)zpl_str_to_i64(a, &e, b) : zpl_str_to_u64(a, &e, b);
    VZ_CHECK(r == v, "value"); VZ_CHECK(e == a + i, "end position");
    VZ_CHECK((sg ? (uint64_t)zpl_str_to_i64(a, NULL, b) : zpl_str_to_u64(a, NULL, b)) == v, "without an end pointer");
}
void vz_test(void) {
#if defined U_u64_b
    t_fmt(vz_u8(), (int)vz_range(2, 36), 0);
#elif defined U_scan_b
    switch (vz_u8() & 3) { case 0: t_scan(0); break; case 1: t_scan(16); break; case 2: t_scan(2); break; default: t_scan(36); }
#else
    uint64_t v; int b, s;
    switch (vz_u8() % 3) { case 0: v = vz_u64(); b = (int)vz_range(2, 36); t_fmt(v, b, 1); t_fmt(v, b, 0); break;
    case 1: s = vz_u8() % 64; v = (uint64_t)1 << s; v += vz_u8() % 3 - 1; if (vz_u8() & 1) v = 0 - v; b = (int)vz_range(2, 36); t_fmt(v, b, 1); t_fmt(v, b, 0); break;
    default: b = (int)vz_range(1, 36); t_scan(b == 1 ? 0 : b); }
#endif
    VZ_REACH("end");
}
#endif
