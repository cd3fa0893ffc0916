//@unit round kind=search mods=PARSER search=40 maxlen=500 bound="up to 8 parameters, texts up to 500 bytes" about="write and parse again, generated encodings, arbitrary texts in exact-size blocks, failing requests"
//@unit decode kind=bounded mods=PARSER n=6 tn=8 unwind=12 unwindset= bound="encoded texts up to 6 bytes" about="decoding of every text"
#include <stdint.h>
#include "vz.h"
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
#ifndef VZ_CBMC
static char pool[8192], out[16384]; static int po, oo; static char *g_t; static size_t g_n;
static char const *word(int min) { char *s = pool + po; int n = vz_u8() % 7 + min, k, t = vz_u8() & 3; for (k = 0; k < n; k++) { int x = vz_u8(); s[k] = t == 0 ? "ab&=?%+ /1#:Z\n-_.~5"[x % 19] : t == 1 ? '0' + x % 10 : x ? x : 1; } s[n] = 0; po += n + 1; return s; }
static int canon(char const *s) { int n = 0; if (*s == '-') s++; if (*s == '0') return s[1] == 0 && s[-1] != '-'; for (; *s; s++, n++) if (*s < '0' || *s > '9') return 0; return n > 0 && n < 19; }
static int odd(char const *s) { for (; *s; s++) if (!strchr("+-.eExX0123456789abcdfABCDF", *s)) return 0; return 1; }
static void enc(char const *s) { for (; *s; s++) { int c = (unsigned char)*s, safe = c > 32 && !strchr("&=?%+", c) && !zpl_char_is_space(c) && c < 127; if (c == ' ' && vz_u8() & 1) out[oo++] = '+'; else if (safe && vz_u8() & 3) out[oo++] = c; else oo += sprintf(out + oo, vz_u8() & 1 ? "%%%02X" : "%%%02x", c); } }
static void txt(char const *s) { VZ_CHECK((!(s >= g_t && s <= g_t + g_n) && (*s == 0 || !strcmp(s, "__zpl_origin__"))) || memchr(s, 0, g_t + g_n + 1 - s), "text inside the document, terminated"); }
static void is(zpl_adt_node *r, char const *base, char const **k, char const **v, int n) { int i, o = base != NULL; zpl_adt_node *x = r->nodes; VZ_CHECK(r->type == ZPL_ADT_TYPE_OBJECT && zpl_array_count(r->nodes) == n + o, "number of parameters"); if (o) VZ_CHECK(!strcmp(x->name, "__zpl_origin__") && x->type == ZPL_ADT_TYPE_STRING && !strcmp(x->string, base), "base"); x += o;
    for (i = 0; i < n; i++, x++) { VZ_CHECK(!strcmp(x->name, k[i]) && x->parent == r, "key"); if (!v[i]) VZ_CHECK(x->type == ZPL_ADT_TYPE_REAL && x->props == ZPL_ADT_PROPS_TRUE && x->real == 1, "flag"); else if (canon(v[i])) VZ_CHECK(x->type == ZPL_ADT_TYPE_INTEGER && x->integer == strtoll(v[i], 0, 10), "number"); else if (!*v[i] || !odd(v[i])) VZ_CHECK(x->type == ZPL_ADT_TYPE_STRING && !strcmp(x->string, v[i]), "value"); } }
#endif
void vz_test(void) {
#if defined U_decode
    int64_t n; char *t = (char *)vz_text(VZ_N, &n), r[VZ_N + 1]; int64_t i, o = 0; for (i = 0; i < n; i++) { int c = (unsigned char)t[i]; if (c == '+') r[o++] = ' '; else if (c == '%' && hexv(t[i + 1]) >= 0 && hexv(t[i + 2]) >= 0) { r[o++] = (char)(hexv(t[i + 1]) * 16 + hexv(t[i + 2])); i += 2; } else r[o++] = t[i]; }
    zpl__uri_decode_str(t); for (i = 0; i < o; i++) VZ_CHECK(t[i] == r[i], "decoded text"); VZ_CHECK(t[o] == 0, "terminated");
#elif !defined VZ_CBMC
    char const *k[8], *v[8], *base; int n = vz_u8() % 8, i, mode = vz_u8() & 3; zpl_adt_node root; char *t; po = oo = 0; vz_fail = 0;
    if (mode == 0) { int f = vz_u8(), e, na = vz_nalloc, nf = vz_nfree; zpl_isize j; g_n = 0; while (vz_size && g_n < 500) { int x = vz_u8(); pool[g_n++] = x < 128 ? "?&=%%+ab1-.0eF /"[x % 16] : x; } pool[g_n] = 0; g_n = strlen(pool); g_t = t = (char *)vz_malloc(g_n + 1); memcpy(t, pool, g_n + 1); vz_fail = f < 40 ? 1 + f % 4 : 0;
        e = zpl_uri_parse(&root, t, vz_allocator()); VZ_CHECK(f < 40 || !e, "texts are accepted"); if (f < 40 && !vz_fail) VZ_CHECK(e, "failed requests are reported"); vz_fail = 0; VZ_CHECK(t[g_n] == 0, "terminator stays");
        if (!e) for (j = 0; j < zpl_array_count(root.nodes); j++) { zpl_adt_node *x = root.nodes + j; txt(x->name); if (x->type == ZPL_ADT_TYPE_STRING) txt(x->string); else VZ_CHECK(x->type == ZPL_ADT_TYPE_INTEGER || x->type == ZPL_ADT_TYPE_REAL, "type"); VZ_CHECK(x->parent == &root, "parent"); }
        zpl_uri_free(&root); VZ_CHECK(vz_nalloc - na == vz_nfree - nf, "every block freed"); return; }
    base = vz_u8() % 4 ? "http://a.b/c%20d" : vz_u8() & 1 ? "%s%n%d" : NULL; for (i = 0; i < n; i++) { k[i] = word(mode > 1); v[i] = vz_u8() & 3 ? word(0) : NULL; }
    if (mode == 1) { zpl_adt_node src; zpl_string s; zpl_uri_init(&src, (char *)base, zpl_heap()); for (i = 0; i < n; i++) { if (!*k[i] && !v[i]) k[i] = "z"; if (v[i]) zpl_adt_append_str(&src, k[i], v[i]); else zpl_adt_append_flt(&src, k[i], 1)->props = ZPL_ADT_PROPS_TRUE; } s = zpl_uri_write_string(zpl_heap(), &src); t = (char *)vz_malloc(strlen(s) + 1); strcpy(t, s); zpl_string_free(s); zpl_uri_free(&src); }
    else { if (vz_u8() & 1) out[oo++] = ' '; if (base) oo += sprintf(out + oo, "%s", base); if (n || vz_u8() & 1 || !base) out[oo++] = '?'; for (i = 0; i < n; i++) { enc(k[i]); if (v[i]) { out[oo++] = '='; enc(v[i]); } if (i + 1 < n) out[oo++] = '&'; } out[oo] = 0; t = (char *)vz_malloc(oo + 1); strcpy(t, out); }
    { char *c = strdup(t); int bad; bad = zpl_uri_parse(&root, t, zpl_heap()); if (bad || zpl_array_count(root.nodes) != n + (base != NULL)) fprintf(stderr, "text <%s>\n", c); free(c); VZ_CHECK(!bad, "parses"); } is(&root, base, k, v, n); zpl_uri_free(&root);
#endif
    VZ_REACH("end");
}
