//@unit table kind=search mods=PARSER search=40 maxlen=500 bound="tables of up to 8 rows and 6 columns, texts up to 500 bytes" about="generated texts, written tables, arbitrary texts in exact-size blocks, failing requests"
#include <stdint.h>
#include "vz.h"
#ifndef VZ_CBMC
static char pool[4096], out[16384]; static int po, oo; static char delim; typedef struct { int ty; char const *s; int64_t v; int q; } cell;
static char *g_t; static size_t g_n;
static void mk(cell *c, int text) { int n = vz_u8() % 6, k, t = vz_u8() % 3; char *s = pool + po; c->ty = 0; c->s = s; c->q = 1; if (t == 0 && !text) { c->ty = 1; c->v = vz_u8() & 1 ? (int8_t)vz_u8() : (int64_t)vz_u64() / 10; return; } for (k = 0; k < n; k++) { int x = vz_u8(); s[k] = t == 1 ? ("ghk,;|z_\tGZ=:/'\""[x % (k ? 16 : 8)]) : "\"\n ,;|\t\"g1-%'"[x % 13]; } if (t == 1) for (k = 0; k < n; k++) if (s[k] == delim || (s[k] == '\t' && k + 1 == n)) s[k] = 'q'; s[n] = 0; po += n + 1; if (t == 1 && n) c->q = vz_u8() & 1; }
static void put(cell *c) { char const *s; if (c->ty) { oo += sprintf(out + oo, "%lld", (long long)c->v); return; } if (!c->q) { oo += sprintf(out + oo, "%s", c->s); return; } out[oo++] = '"'; for (s = c->s; *s; s++) { out[oo++] = *s; if (*s == '"') out[oo++] = '"'; } out[oo++] = '"'; }
static void ws(void) { int k = vz_u8() % 8; if (k == 0 && delim != ' ') out[oo++] = ' '; if (k == 1 && delim != '\t') out[oo++] = '\t'; }
static void is(zpl_adt_node *n, cell *c, zpl_adt_node *par) { VZ_CHECK(n->parent == par, "parent"); if (c->ty && !(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == c->v)) fprintf(stderr, "error type %d value %lld expected %lld text <%s>\n", n->type, (long long)n->integer, (long long)c->v, out); if (c->ty) VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == c->v, "number"); else VZ_CHECK(n->type == ZPL_ADT_TYPE_STRING && !strcmp(n->string, c->s), "text"); }
static void txt(char const *s) { VZ_CHECK((!(s >= g_t && s <= g_t + g_n) && *s == 0) || memchr(s, 0, g_t + g_n + 1 - s), "text inside the document, terminated"); }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    cell c[9][6], h[6]; int R = vz_u8() % 8 + 1, C = vz_u8() % 6 + 1, hdr = vz_u8() & 1, mode = vz_u8() & 3, r, k; zpl_adt_node root; char *t; po = oo = 0; delim = ",;|\t "[vz_u8() % 5]; vz_fail = 0;
    if (mode) {
        for (k = 0; k < C; k++) mk(&h[k], 1); for (r = 0; r < R; r++) for (k = 0; k < C; k++) mk(&c[r][k], 0);
        if (mode == 1) { int bad = vz_u8() % 8 == 0 ? vz_u8() % R : -1; cell zero = { 0, "", 0, 1 }; if (!hdr && bad == 0) bad = -1; if (vz_u8() & 1) out[oo++] = '\n';
            if (hdr) { for (k = 0; k < C; k++) { ws(); put(&h[k]); ws(); if (k + 1 < C) out[oo++] = delim; } out[oo++] = '\n'; }
            for (r = 0; r < R; r++) { for (k = 0; k < C; k++) { ws(); if (C > 1 && vz_u8() % 8 == 0) c[r][k] = zero; else put(&c[r][k]); ws(); if (k + 1 < C) out[oo++] = delim; } if (r == bad) { out[oo++] = delim; out[oo++] = 'z'; } if (r + 1 < R || vz_u8() & 1) oo += sprintf(out + oo, vz_u8() & 1 ? "\n" : "\r\n"); if (vz_u8() % 5 == 0 && r + 1 < R) out[oo++] = '\n'; }
            t = (char *)vz_malloc(oo + 1); memcpy(t, out, oo); t[oo] = 0; out[oo] = 0; { int e = zpl_csv_parse_delimiter(&root, t, zpl_heap(), hdr, delim); if (e != (bad >= 0 ? ZPL_CSV_ERROR_MISMATCHED_ROWS : 0)) fprintf(stderr, "error %d delim %d hdr %d text <%s>\n", e, delim, hdr, out); VZ_CHECK(e == (bad >= 0 ? ZPL_CSV_ERROR_MISMATCHED_ROWS : 0), "uneven rows are reported"); if (e) { zpl_csv_free(&root); return; } }
        } else { zpl_adt_node src; zpl_string s; memset(&src, 0, sizeof src); zpl_adt_make_branch(&src, zpl_heap(), NULL, !hdr); for (k = 0; k < C; k++) { zpl_adt_node *col = zpl_adt_append_arr(&src, hdr ? h[k].s : NULL); for (r = 0; r < R; r++) if (c[r][k].ty) zpl_adt_append_int(col, NULL, c[r][k].v); else zpl_adt_append_str(col, NULL, c[r][k].s); }
            s = zpl_csv_write_string_delimiter(zpl_heap(), &src, delim); t = (char *)vz_malloc(strlen(s) + 1); strcpy(t, s); VZ_CHECK(zpl_csv_parse_delimiter(&root, t, zpl_heap(), hdr, delim) == 0, "parses again"); zpl_string_free(s); zpl_csv_free(&src); }
        VZ_CHECK(root.type == (hdr ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY) && zpl_array_count(root.nodes) == C, "columns");
        for (k = 0; k < C; k++) { zpl_adt_node *col = root.nodes + k; VZ_CHECK(col->type == ZPL_ADT_TYPE_ARRAY && col->parent == &root && zpl_array_count(col->nodes) == R, "rows"); if (hdr) VZ_CHECK(!strcmp(col->name, h[k].s), "column name"); for (r = 0; r < R; r++) is(col->nodes + r, &c[r][k], col); }
        zpl_csv_free(&root);
    } else { int f = vz_u8(), e, na = vz_nalloc, nf = vz_nfree; zpl_isize i, j; g_n = 0; while (vz_size && g_n < 500) { int x = vz_u8(); pool[g_n++] = x < 160 ? "\"\n ,;|\t\"g1-e.x,\"\r0"[x % 18] : x; } pool[g_n] = 0; g_n = strlen(pool); g_t = t = (char *)vz_malloc(g_n + 1); memcpy(t, pool, g_n + 1); vz_fail = f < 40 ? 1 + f % 5 : 0;
        e = zpl_csv_parse_delimiter(&root, t, vz_allocator(), hdr, delim); if (f < 40 && !vz_fail) VZ_CHECK(e != 0, "failed requests are reported"); vz_fail = 0; VZ_CHECK(t[g_n] == 0, "terminator stays");
        if (!e) { zpl_isize rows = -1; VZ_CHECK(zpl_array_count(root.nodes) > 0, "columns"); for (i = 0; i < zpl_array_count(root.nodes); i++) { zpl_adt_node *col = root.nodes + i; if (rows < 0) rows = zpl_array_count(col->nodes); VZ_CHECK(zpl_array_count(col->nodes) == rows, "all columns have all rows"); if (hdr) txt(col->name); for (j = 0; j < rows; j++) { zpl_adt_node *n = col->nodes + j; VZ_CHECK(n->parent == col, "parent"); if (n->type == ZPL_ADT_TYPE_STRING) txt(n->string); else VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL, "type"); } } { zpl_string s = zpl_csv_write_string_delimiter(zpl_heap(), &root, delim); zpl_string_free(s); } }
        zpl_csv_free(&root); VZ_CHECK(vz_nalloc - na == vz_nfree - nf, "every block freed"); }
#endif
    VZ_REACH("end");
}
