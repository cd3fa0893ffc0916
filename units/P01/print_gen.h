/* builds formats piece by piece together with their arguments; every argument slot is a 64-bit value (x86-64 calling convention) */
#include <stdio.h>
#define NA 24
static uint64_t pa[NA]; static double pd[8]; static int na, nd; static char pf[600]; static int pn;
#define ARGS pa[0], pa[1], pa[2], pa[3], pa[4], pa[5], pa[6], pa[7], pa[8], pa[9], pa[10], pa[11], pa[12], pa[13], pa[14], pa[15], pa[16], pa[17], pa[18], pa[19], pa[20], pa[21], pa[22], pa[23], pd[0], pd[1], pd[2], pd[3], pd[4], pd[5], pd[6], pd[7]
static uint64_t pnum(void) { uint64_t v = vz_u64(); int s = vz_u8() & 63; v >>= s; switch (vz_u8() & 7) { case 0: return 0 - v; case 1: return 0; case 2: return (uint64_t)1 << s; case 3: return ((uint64_t)1 << s) - 1; default: return v; } }
static char *ptext(void) { size_t l, k; char *t = vz_text(24, &l); for (k = 0; k < l; k++) if (t[k] == '%') t[k] = 'p'; return t; }
static void lit(void) { int n = vz_u8() % 6; while (n--) { char c = (char)vz_u8(); if (c && c != '%') pf[pn++] = c; } }
static void num(int v) { pn += sprintf(pf + pn, "%d", v); }
static void print_any(void) {
    static char none[] = "xyz"; zpl_isize n = vz_u8() & 1 ? vz_u8() % 30 : vz_range(0, 300), r; char *b = (char *)vz_malloc((size_t)n); int k, pieces = vz_u8() % 12;
    na = nd = pn = 0; for (k = 0; k < NA; k++) pa[k] = (uint64_t)none; for (k = 0; k < 8; k++) pd[k] = 1.5;
    if (vz_u8() & 3) for (k = 0; k < pieces && na < NA - 4; k++) {
        static char const fl[] = "-+ 0#", cv[] = "diuoxXcsrpfgaFGA%"; char c; int j; lit(); pf[pn++] = '%'; j = vz_u8() % 4; while (j-- > 1) pf[pn++] = fl[vz_u8() % 5];
        switch (vz_u8() % 5) { case 0: num(vz_u8() % 40); break; case 1: pf[pn++] = '*'; pa[na++] = (uint64_t)(int64_t)(vz_u8() & 7 ? (int)vz_u8() - 60 : (int)vz_u32()); break; case 2: num(vz_u8() & 7 ? vz_u8() : (int)(vz_u32() >> 1)); break; default: break; }
        c = cv[vz_u8() % 17]; if (strchr("fgaFGA", c) && nd >= 8) c = 'd';
        switch (vz_u8() % 4) { case 0: pf[pn++] = '.'; num(vz_u8() % 30); break; case 1: pf[pn++] = '.'; pf[pn++] = '*'; pa[na++] = (uint64_t)(int64_t)((int)vz_u8() - (strchr("fgaFGA", c) ? 4 : 60)); break; default: break; }
        if (strchr("diuoxX", c)) { static char const *sz[] = { "", "h", "hh", "l", "ll", "z", "t", "" }; pn += sprintf(pf + pn, "%s", sz[vz_u8() & 7]); }
        pf[pn++] = c;
        if (c == 's') { char *s = vz_u8() % 9 ? ptext() : NULL; pa[na++] = (uint64_t)s; } else if (strchr("fgaFGA", c)) { uint64_t u = vz_u64(); double d; switch (vz_u8() & 3) { case 0: memcpy(&d, &u, 8); break; case 1: d = (double)(int64_t)u; break; default: d = (double)(int)vz_u32() / (1 + vz_u8()); } pd[nd++] = d; } else if (c != '%') pa[na++] = pnum();
    } else { static char const al[] = "%%%%0123456789-+ #.*hlztdiuoxXcsrpfgaFGAzq"; size_t q = vz_u8() % 60; while (q--) { char c = (char)vz_u8(); pf[pn++] = c & 0x80 && c != (char)0x80 ? c : al[(uint8_t)c % (sizeof al - 1)]; } { int s = 0, m = 0; for (k = 0; k < pn; k++) { s += pf[k] == '%'; m += pf[k] == '*'; } if (s + m > NA) pn = 0; } }
    lit(); pf[pn] = 0;
    { char *f = (char *)vz_malloc((size_t)pn + 1); memcpy(f, pf, (size_t)pn + 1); memset(b, 0x5a, (size_t)n); r = zpl_snprintf(b, n, f, ARGS); }
    VZ_CHECK(r <= n, "the count stays within the stated size"); VZ_CHECK(n == 0 || memchr(b, 0, (size_t)n), "terminated"); if (n == 0) VZ_CHECK(r <= 0, "no room for anything"); if (r > 0) VZ_CHECK(b[r - 1] == 0, "terminated at the count");
    if (n > 0 && r < 0) VZ_CHECK(b[n - 1] == 0, "filled up and terminated");
}
